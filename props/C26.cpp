#include "setref.hpp"

static pbt::Config config("C26",
    "pairs and triples of sets over small domains: independent, equal, subset, superset, disjoint, interleaved, one element apart, of "
    "very different sizes, and the same object; element types int, string, big integer, list; non-trivial: both sets non-empty",
    1000000, 120000);

static Model gen_relative(G& g, const Model& m, int d)
{
    Model r = m;
    switch (g.pick({3, 2, 2, 2, 2, 1}))
    {
        case 0: return gen_model(g, d, 40, 6);
        case 1: return r;
        case 2: // subset
            r.clear();
            for (int v : m)
            {
                if (g.coin()) r.push_back(v);
            }
            return r;
        case 3: // superset
            for (int k = 1 + g.below(3); k > 0; --k) r.push_back(g.below(d + 2));
            return r;
        case 4: // one element exchanged
            if (!r.empty()) r[std::size_t(g.below(int(r.size())))] = g.below(d + 2);
            return r;
        default: // disjoint, interleaved
            for (int& v : r) v = v + 1 < d + 2 ? v + 1 : 0;
            return r;
    }
}

template <typename T>
static void pair(G& g)
{
    const int d = gen_domain(g), probes = std::min(d + 2, 12);
    Model i1 = gen_model(g, d, g.chance(1, 10) ? 200 : 30, 6), i2 = gen_relative(g, i1, d), i3 = gen_relative(g, i2, d);
    SetModel a(i1.begin(), i1.end()), b(i2.begin(), i2.end()), c(i3.begin(), i3.end());
    const Set<T> x = gen_set<T>(g, i1), z = gen_set<T>(g, i3);
    const Set<T> y_ = gen_set<T>(g, i2);
    bool self = g.chance(1, 12);
    const Set<T>& y = self ? x : y_;
    if (self) b = a;
    g.note(Elem<T>::name, " sets ", show_model(members(a)), ", ", show_model(members(b)), self ? " (same object)" : "", ", ", show_model(members(c)));
    g.nontrivial_if(!a.empty() && !b.empty());
    if (a == b) g.label("equal sets");
    SetModel i, u, s, q, w;
    for (int v = 0; v < d + 2; ++v)
    {
        bool in = a.count(v), is = b.count(v);
        if (in && is) i.insert(v);
        if (in || is) u.insert(v);
        if (in && !is) s.insert(v);
        if (!in && is) w.insert(v);
        if (in != is) q.insert(v);
    }
    same_set<T>(g, x & y, i, probes, "x & y");
    same_set<T>(g, x | y, u, probes, "x | y");
    same_set<T>(g, x - y, s, probes, "x - y");
    same_set<T>(g, y - x, w, probes, "y - x");
    same_set<T>(g, x ^ y, q, probes, "x ^ y");
    bool sub = s.empty(), sup = w.empty();
    if (sub != sup) g.label("proper subset");
    if (!sub && !sup) g.label("incomparable sets");
    g.require((x <= y) == sub && (y >= x) == sub, "<= and >=");
    g.require((y <= x) == sup && (x >= y) == sup, "<= and >= of the swapped sets");
    g.require((x < y) == (sub && !sup) && (y > x) == (sub && !sup), "< and >");
    g.require((y < x) == (sup && !sub) && (x > y) == (sup && !sub), "< and > of the swapped sets");
    g.require((x == y) == (sub && sup) && (x != y) == !(sub && sup), "== and !=");
    g.require(x == x && x <= x && x >= x && !(x < x) && !(x > x) && !(x != x), "set compared with itself");
    // in place, also with the set itself on the right
    {
        Set<T> t = x;
        const bool own = g.coin();
        const Set<T>& rhs = own ? t : y;
        const SetModel* want = nullptr;
        const SetModel none;
        const void* ret = nullptr;
        switch (g.below(4))
        {
            case 0: ret = WHERE(t &= rhs); want = own ? &a : &i; break;
            case 1: ret = WHERE(t |= rhs); want = own ? &a : &u; break;
            case 2: ret = WHERE(t -= rhs); want = own ? &none : &s; break;
            default: ret = WHERE(t ^= rhs); want = own ? &none : &q;
        }
        g.require(ret == &t, "an operation in place returns its left operand");
        same_set<T>(g, t, *want, probes, own ? "operation in place with itself" : "operation in place");
    }
    // laws
    g.require((x & y) == (y & x) && (x | y) == (y | x) && (x ^ y) == (y ^ x), "commutativity");
    g.require(((x & y) & z) == (x & (y & z)) && ((x | y) | z) == (x | (y | z)) && ((x ^ y) ^ z) == (x ^ (y ^ z)), "associativity");
    g.require((x & (y | z)) == ((x & y) | (x & z)) && (x | (y & z)) == ((x | y) & (x | z)), "distributivity");
    g.require((x - (y | z)) == ((x - y) & (x - z)) && (x - (y & z)) == ((x - y) | (x - z)), "De Morgan");
    g.require((x & (x | y)) == x && (x | (x & y)) == x && ((x - y) | (x & y)) == x && ((x ^ y) ^ y) == x, "absorption and partition");
    g.require(!(x <= y && y <= z) || x <= z, "transitivity");
    g.require(!(x < y && y < z) || x < z, "transitivity of <");
    Set<T> e;
    g.require((x & e) == e && (x | e) == x && (x - e) == x && (e - x) == e && (x ^ e) == x && e <= x && x >= e && (e < x) == !a.empty(), "empty set");
    same_set<T>(g, x, a, probes, "first operand");
    same_set<T>(g, y, b, probes, "second operand");
    same_set<T>(g, z, c, probes, "third operand", false);
}
PBT_SUB(ints, 4) { pair<int>(g); }
PBT_SUB(strings, 2) { pair<std::string>(g); }
PBT_SUB(big_ints, 1) { pair<pyincpp::Int>(g); }
PBT_SUB(doubles, 1) { pair<double>(g); }
PBT_SUB(twins, 1) { pair<Twin>(g); }

// sets of lists, sets of sets of sizes that only the values tell apart
template <>
struct Elem<pyincpp::List<int>>
{
    static constexpr const char* name = "List<int>";
    static pyincpp::List<int> build(int v) { return pyincpp::List<int>{v / 6, v % 6}; }
};
PBT_SUB(lists, 1) { pair<pyincpp::List<int>>(g); }

// sets of thousands of elements
PBT_SUB(large, 1)
{
    const int n = vast(g, true), domain = n + n / 2 + 4;
    const Model i1 = spread(g, n, domain);
    Model i2;
    pbt::Rng r(g.seed64());
    const int kind = g.below(6);
    switch (kind)
    {
        case 0: i2 = spread(g, vast(g) % domain, domain); break;
        case 1: i2 = i1; break;
        case 2:
            for (int v : i1)
                if (r.upto(1)) i2.push_back(v);
            break;
        case 3: // one element missing
            i2 = i1;
            if (!i2.empty()) { const int v = g.elem(i1); i2.erase(std::remove(i2.begin(), i2.end(), v), i2.end()); }
            break;
        case 4: // one element more
            i2 = i1;
            i2.push_back(g.below(domain));
            break;
        default: // one element exchanged
            i2 = i1;
            if (!i2.empty()) i2[std::size_t(g.below(int(i2.size())))] = g.below(domain);
    }
    std::vector<char> a((std::size_t)domain), b((std::size_t)domain);
    for (int v : i1) a[std::size_t(v)] = 1;
    for (int v : i2) b[std::size_t(v)] = 1;
    const bool swapped = g.coin();
    if (swapped) std::swap(a, b);
    const Set<int> x(swapped ? i2.begin() : i1.begin(), swapped ? i2.end() : i1.end()), y(swapped ? i1.begin() : i2.begin(), swapped ? i1.end() : i2.end());
    g.note("sets of ", x.size(), " and ", y.size(), " elements below ", domain, ", related in way ", kind);
    if (n > 100) g.label("set of more than 100 elements");
    Model i, u, s, q, w, p, o;
    for (int v = 0; v < domain; ++v)
    {
        const bool in = a[std::size_t(v)], is = b[std::size_t(v)];
        if (in) p.push_back(v);
        if (is) o.push_back(v);
        if (in && is) i.push_back(v);
        if (in || is) u.push_back(v);
        if (in && !is) s.push_back(v);
        if (!in && is) w.push_back(v);
        if (in != is) q.push_back(v);
    }
    auto same = [&](const Set<int>& got, const Model& want, const char* what) {
        ++g.steps;
        g.require_f(got.size() == int(want.size()) && std::equal(want.begin(), want.end(), got.begin(), got.end()), [&] { return std::string(what) + ": got " + show_seq(got) + ", want " + show_seq(want); });
    };
    same(x & y, i, "x & y");
    same(x | y, u, "x | y");
    same(x - y, s, "x - y");
    same(y - x, w, "y - x");
    same(x ^ y, q, "x ^ y");
    const bool sub = s.empty(), sup = w.empty();
    g.require((x <= y) == sub && (y >= x) == sub && (y <= x) == sup && (x >= y) == sup, "<= and >=");
    g.require((x < y) == (sub && !sup) && (y > x) == (sub && !sup) && (y < x) == (sup && !sub) && (x > y) == (sup && !sub), "< and >");
    g.require((x == y) == (sub && sup) && (x != y) == !(sub && sup), "== and !=");
    Set<int> t = x;
    const int op = g.below(4);
    op == 0 ? (void)(t &= y) : op == 1 ? (void)(t |= y) : op == 2 ? (void)(t -= y) : (void)(t ^= y);
    same(t, op == 0 ? i : op == 1 ? u : op == 2 ? s : q, "operation in place");
    same(x, p, "first operand");
    same(y, o, "second operand");
    g.nontrivial_if(!p.empty() && !o.empty());
}

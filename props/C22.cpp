#include "elem.hpp"
#include "list.hpp"
using pyincpp::List;

static pbt::Config config("C22",
    "lists over small domains (so that values repeat), values present and absent, ranges, bounds and steps around [-n, n] and at the "
    "limits of int, pairs of equal, prefix and slightly different lists, repeat counts; short lists with all slice arguments; "
    "non-trivial: list of at least 2 elements",
    2000000, 200000);

static int gen_step(G& g, int n)
{
    int k = g.pick({6, 2, 1});
    int s = k == 0 ? 1 + g.below(4) : k == 1 ? 1 + g.below(n + 3) : g.any_int();
    return k < 2 && g.coin() ? -s : s;
}

template <typename T>
static void query(G& g)
{
    const int d = gen_domain(g);
    Model m = gen_model(g, d, 200);
    const int n = int(m.size());
    const std::vector<T> v = elements<T>(m);
    const List<T> l(v);
    int x = g.below(d + 1);
    const T& e = make<T>(x);
    int start = g.chance(2, 3) ? gen_bound(g, n) : 0, stop = g.chance(1, 3) ? gen_bound(g, n) : g.chance(1, 3) ? INT32_MAX : g.range(0, n + 1);
    g.note(Elem<T>::name, " list ", show_model(m), ", value ", x, ", start ", start, ", stop ", stop);
    g.nontrivial_if(n >= 2);
    long long first = std::find(m.begin(), m.end(), x) - m.begin();
    auto it = l.find(e);
    eqs(g, (long long)(it - l.begin()), first, "position found by find");
    if (first < n) g.require(*it == e, "find finds the value");
    eqs(g, l.count(e), int(std::count(m.begin(), m.end(), x)), "count");
    eqs(g, l.index(e), first < n ? int(first) : -1, "index");
    g.require(l.contains(e) == (first < n), "contains");
    // within [start, stop)
    int want = -1;
    for (long long i = std::max(start, 0); i < std::min(stop, n); ++i)
    {
        if (m[std::size_t(i)] == x)
        {
            want = int(i);
            break;
        }
    }
    auto range = [&] { return std::string("index within [") + std::to_string(start) + ", " + std::to_string(stop) + ")"; };
    eq(g, l.index(e, start, stop), want, range);
    eq(g, l.contains(e, start, stop), want != -1, range);
    if (stop >= n)
    {
        eq(g, l.index(e, start), want, range);
        eq(g, l.contains(e, start), want != -1, range);
    }
    if (want != -1 && want != first) g.label("first occurrence in the range is not the first of the list");
    same_seq<T>(g, l, m, "list after the queries", n <= 10);
}
PBT_SUB(query_int, 3) { query<int>(g); }
PBT_SUB(query_string, 2) { query<std::string>(g); }
PBT_SUB(query_double, 1) { query<double>(g); }
PBT_SUB(query_twin, 1) { query<Twin>(g); }

template <typename T>
static void compare(G& g)
{
    const int d = gen_domain(g);
    Model m = gen_model(g, d, 60, 6), o = gen_related_model(g, m, d);
    const std::vector<T> u = elements<T>(m), v = elements<T>(o);
    const List<T> a(u), b(v);
    g.note(Elem<T>::name, " lists ", show_model(m), " and ", show_model(o));
    g.nontrivial_if(m.size() >= 2);
    if (m == o) g.label("equal lists");
    g.require((a == b) == (m == o) && (b == a) == (m == o), "==");
    g.require((a != b) == (m != o) && (b != a) == (m != o), "!=");
    g.require((a < b) == (m < o) && (b > a) == (m < o), "<");
    g.require((a > b) == (m > o) && (b < a) == (m > o), ">");
    g.require((a <= b) == (m <= o) && (b >= a) == (m <= o), "<=");
    g.require((a >= b) == (m >= o) && (b <= a) == (m >= o), ">=");
    g.require(a == a && a <= a && a >= a && !(a < a) && !(a > a) && !(a != a), "list compared with itself");
    g.require(((a <=> b) < 0) == (m < o) && ((a <=> b) > 0) == (m > o), "<=>");
}
PBT_SUB(compare_int, 2) { compare<int>(g); }
PBT_SUB(compare_string, 1) { compare<std::string>(g); }
PBT_SUB(compare_double, 1) { compare<double>(g); }
PBT_SUB(compare_twin, 1) { compare<Twin>(g); }

template <typename T>
static void check_slice(G& g, const List<T>& l, const Model& m, int start, int stop, int step)
{
    const int n = int(m.size());
    auto what = [&] { return "slice(" + std::to_string(start) + ", " + std::to_string(stop) + ", " + std::to_string(step) + ") of " + show_seq(l); };
    if (step == 0 || start < -n || start >= n || stop < -n - 1 || stop > n)
    {
        must_reject(g, [&] { l.slice(start, stop, step); }, what());
        return;
    }
    long long i = start < 0 ? start + n : start, e = stop < 0 ? stop + n : stop;
    Model want;
    for (; step > 0 ? i < e : i > e; i += step)
    {
        want.push_back(m[std::size_t(i)]);
    }
    List<T> r = l.slice(start, stop, step);
    if (show_seq(r) != show_seq(elements<T>(want)))
    {
        g.fail(what() + ": got " + show_seq(r) + ", want " + show_seq(elements<T>(want)));
    }
    same_seq<T>(g, r, want, "slice", want.size() <= 10);
    if (step == 1)
    {
        same_seq<T>(g, l.slice(start, stop), want, "slice without a step", false);
    }
    if (want.size() >= 2) g.label("slice of at least 2 elements");
}

template <typename T>
static void slice(G& g)
{
    Model m = gen_model(g, 40, 200);
    const int n = int(m.size());
    int start = gen_bound(g, n), stop = gen_bound(g, n), step = gen_step(g, n);
    const std::vector<T> v = elements<T>(m);
    const List<T> l(v);
    g.note(Elem<T>::name, " list ", show_model(m), "\nslice(", start, ", ", stop, ", ", step, ")");
    g.nontrivial_if(n >= 2);
    check_slice<T>(g, l, m, start, stop, step);
    same_seq<T>(g, l, m, "list after slicing", false);
}
PBT_SUB(slice_int, 4) { slice<int>(g); }
PBT_SUB(slice_string, 1) { slice<std::string>(g); }

PBT_SUB(all_slices, 1)
{
    const int n = g.below(6);
    Model m;
    for (int i = 0; i < n; ++i) m.push_back(i * 5 + 1);
    const List<int> l(elements<int>(m));
    g.note("list of ", n, " elements, slices with one step and all bounds");
    static const int steps[] = {1, -1, 2, -2, 3, -3, 7, -7, INT32_MAX, INT32_MIN};
    int k = g.of(steps);
    g.note("step ", k);
    g.nontrivial_if(n >= 2);
    for (int i = -n; i < n; ++i)
    {
        for (int j = -n - 1; j <= n; ++j)
        {
            check_slice<int>(g, l, m, i, j, k);
        }
    }
    check_slice<int>(g, l, m, n, 0, k);
    check_slice<int>(g, l, m, -n - 1, 0, k);
    if (n) check_slice<int>(g, l, m, 0, n + 1, k);
    if (n) check_slice<int>(g, l, m, 0, -n - 2, k);
    if (n) check_slice<int>(g, l, m, 0, n, 0);
}

template <typename T>
static void produce(G& g)
{
    const int d = gen_domain(g);
    Model m = gen_model(g, d, 80), o = gen_related_model(g, m, d);
    const std::vector<T> u = elements<T>(m), v = elements<T>(o);
    const List<T> a(u), b(v);
    int x = g.below(d);
    int k = g.pick({4, 1}) == 0 ? g.below(7) : g.any_int();
    const long long n = (long long)m.size();
    if (n > 0 && g.chance(1, 8)) k = int(std::min<long long>(INT32_MAX, INT32_MAX / n + 1 + g.below(3)));
    g.note(Elem<T>::name, " lists ", show_model(m), " and ", show_model(o), ", element ", x, ", times ", k);
    g.nontrivial_if(n >= 2);
    Model w = m;
    w.insert(w.end(), o.begin(), o.end());
    same_seq<T>(g, a + b, w, "list + list");
    w = m;
    w.push_back(x);
    same_seq<T>(g, a + make<T>(x), w, "list + element");
    w = m;
    if (auto it = std::find(w.begin(), w.end(), x); it != w.end()) w.erase(it);
    same_seq<T>(g, a - make<T>(x), w, "list - element");
    w = m;
    w.erase(std::remove(w.begin(), w.end(), x), w.end());
    same_seq<T>(g, a / make<T>(x), w, "list / element");
    List<T> c(a);
    if (k < 0 || n * k > INT32_MAX)
    {
        g.label(k < 0 ? "negative count" : "too large count");
        must_reject(g, [&] { a * k; }, "repeat count out of range");
        must_reject(g, [&] { c *= k; }, "in-place repeat count out of range");
        same_seq<T>(g, c, m, "list after the rejected repeat");
    }
    else if (n * k <= 20000 && k <= 100000)
    {
        w.clear();
        for (int i = 0; i < k && n > 0; ++i) w.insert(w.end(), m.begin(), m.end());
        same_seq<T>(g, a * k, w, "list * n");
        c *= k;
        same_seq<T>(g, c, w, "list *= n");
    }
    List<T> e(a), f(a), h(a), p(a);
    g.require((e += b) == a + b && (f += make<T>(x)) == a + make<T>(x) && (h -= make<T>(x)) == a - make<T>(x) && (p /= make<T>(x)) == a / make<T>(x),
              "in-place and copying operators agree");
    same_seq<T>(g, a, m, "left operand", false);
    same_seq<T>(g, b, o, "right operand", false);
}
PBT_SUB(produce_int, 2) { produce<int>(g); }
PBT_SUB(produce_box, 2) { produce<Box>(g); }
PBT_SUB(produce_twin, 1) { produce<Twin>(g); }

// Sizes up to tens of thousands now and then.
PBT_SUB(large, 1)
{
    const int n = vast(g, true), domain = g.coin() ? n + 2 : g.range(1, 30);
    const Model m = spread(g, n, domain);
    const List<int> l(m.begin(), m.end());
    const int x = n && g.coin() ? g.elem(m) : g.below(domain + 1);
    const int start = gen_bound(g, n), stop = g.coin() ? gen_bound(g, n) : n;
    g.note("list of ", n, " elements below ", domain, ", value ", x, ", range ", start, ", ", stop);
    if (n > 100) g.label("list of more than 100 elements");
    g.nontrivial_if(n > 1);
    const auto first = std::find(m.begin(), m.end(), x) - m.begin();
    eqs(g, l.count(x), int(std::count(m.begin(), m.end(), x)), "count");
    for (const int y : {n ? m.front() : x, n ? m.back() : x, -1})
        eqs(g, l.count(y), int(std::count(m.begin(), m.end(), y)), "count of the first, last and a missing element");
    eqs(g, l.index(x), first < n ? int(first) : -1, "index");
    g.require(l.contains(x) == (first < n) && l.find(x) - l.begin() == first, "contains and find");
    const int from = std::min(std::max(start, 0), n), to = std::max(from, std::min(std::max(stop, 0), n));
    const auto at = std::find(m.begin() + from, m.begin() + to, x) - m.begin();
    eqs(g, l.index(x, start, stop), at < to ? int(at) : -1, "index within a range");
    auto same = [&](const List<int>& got, const Model& want, const char* what) {
        ++g.steps;
        g.require_f(got.size() == int(want.size()) && std::equal(want.begin(), want.end(), got.begin(), got.end()) && std::equal(want.rbegin(), want.rend(), got.rbegin(), got.rend()), [&] {
            const auto d = std::mismatch(want.begin(), want.end(), got.begin(), got.end()).first - want.begin();
            return std::string(what) + " of a large list: " + std::to_string(got.size()) + " elements, want " + std::to_string(want.size()) + ", first difference at " + std::to_string(d);
        });
    };
    if (n)
    {
        const int step = gen_step(g, n), i = g.below(n), j = g.range(-1, n); // the walk goes from i to before j
        const int a = g.coin() ? i : i - n, b = j == -1 ? -n - 1 : j < n && g.coin() ? j - n : j;
        Model want;
        if (step != 0)
        {
            for (long long k = i; step > 0 ? k < j : k > j; k += step) want.push_back(m[std::size_t(k)]);
            g.note("slice(", a, ", ", b, ", ", step, ")");
            same(l.slice(a, b, step), want, "slice");
        }
    }
    Model want = m;
    want.push_back(x);
    same(l + x, want, "+ element");
    want = m;
    want.insert(want.end(), m.begin(), m.end());
    same(l + l, want, "+ list");
    const int times = g.below(4);
    want.clear();
    for (int k = 0; k < times; ++k) want.insert(want.end(), m.begin(), m.end());
    same(l * times, want, "* n");
    want = m;
    if (first < n) want.erase(want.begin() + first);
    same(l - x, want, "- element");
    want = m;
    want.erase(std::remove(want.begin(), want.end(), x), want.end());
    same(l / x, want, "/ element");
    List<int> c(l);
    g.require(c == l && !(c != l) && !(c < l) && c >= l, "a copy is equal");
    if (n)
    {
        c[g.below(n)] += 1;
        g.require(c != l && l < c && c > l && !(c == l), "a copy that is changed in one place is greater");
    }
    same(l, m, "the list itself");
}

#include "fracref.hpp"
#include "intref.hpp"
#include "strref.hpp"
#include "complex.hpp"
#include <unordered_map>
#include <unordered_set>
using pyincpp::Complex;

static pbt::Config config("C32",
    "histories of insertions, erasures, lookups and rehashings on hashed and ordered standard containers, keyed by "
    "integers, strings, fractions and complex numbers that are related to each other (equal, negated, neighbours, permuted digits or "
    "parts), every key computed anew by another computation for every call; variables that are hashed, changed and hashed again; "
    "non-trivial: at least 5 operations",
    700000, 80000);

struct IntKey
{
    typedef Int type;
    typedef Big model;
    static constexpr bool ordered = true;
    static Big gen(G& g) { return gen_big(g, 50); }
    static Big related(G& g, const Big& a) { return gen_related(g, a, 50); }
    static Int build(G& g, const Big& v) { return gen_int_of(g, v); }
    static std::string text(const Big& v) { return brief(v); }
    static void input(Int& x, Big& v, const Big& w)
    {
        std::istringstream(w.str()) >> x;
        v = w;
    }
    static void change(Int& x, Big& v, bool up)
    {
        up ? ++x : --x;
        v += up ? 1 : -1;
    }
};
struct StrKey
{
    typedef Str type;
    typedef std::string model;
    static constexpr bool ordered = true;
    static std::string gen(G& g) { return gen_text(g, gen_alphabet(g), 60, 5); }
    static std::string related(G& g, const std::string& a)
    {
        std::string r = a;
        switch (g.below(5))
        {
            case 0: return r + char(g.below(256));
            case 1: return r.substr(0, r.size() / 2);
            case 2: std::reverse(r.begin(), r.end()); return r;
            case 3: if (!r.empty()) r[std::size_t(g.below(int(r.size())))] ^= 0x20; return r;
            default: return gen(g);
        }
    }
    static Str build(G& g, const std::string& v) { return gen_str_of(g, v); }
    static std::string text(const std::string& v) { return quote(v); }
    static void input(Str& x, std::string& v, const std::string& w)
    {
        std::istringstream in(w + "\n"), ref(w + "\n");
        in >> x;
        std::getline(ref, v);
    }
    static void change(Str& x, std::string& v, bool up)
    {
        if (up)
        {
            x = x + 'q';
            v += 'q';
        }
        else
        {
            x = x.reverse();
            std::reverse(v.begin(), v.end());
        }
    }
};
struct FracKey
{
    typedef Fraction type;
    typedef std::pair<int, int> model; // reduced
    static constexpr bool ordered = true;
    static model of(const Q& q) { return {int(q.n), int(q.d)}; }
    static bool fits(const Q& q) { return q.n >= INT32_MIN && q.n <= INT32_MAX && q.d <= INT32_MAX; }
    static model gen(G& g)
    {
        Q q = gen_q(g);
        return fits(q) ? of(q) : model{1, 2};
    }
    static model related(G& g, const model& a)
    {
        Q q = gen_q_related(g, Q(a.first, a.second));
        return fits(q) ? of(q) : a;
    }
    static Fraction build(G& g, const model& v) { return gen_frac_of(g, Q(v.first, v.second)); }
    static std::string text(const model& v) { return std::to_string(v.first) + "/" + std::to_string(v.second); }
    static void input(Fraction& x, model& v, const model& w)
    {
        std::istringstream(text(w)) >> x;
        v = w;
    }
    static void change(Fraction& x, model& v, bool up)
    {
        const long long n = (long long)v.first + (up ? v.second : -(long long)v.second);
        if (n < INT32_MIN || n > INT32_MAX) return;
        up ? ++x : --x;
        v.first = int(n);
    }
    static bool less(const model& a, const model& b) { return (long long)a.first * b.second < (long long)b.first * a.second; }
};
struct ComplexKey // components on a grid, so that equality is exact
{
    typedef Complex type;
    typedef std::pair<int, int> model; // eighths
    static constexpr bool ordered = false;
    static model gen(G& g)
    {
        const int n = g.chance(1, 3) ? 2 : 40;
        int a = g.range(-n, n);
        return {a, g.range(-n, n)};
    }
    static model related(G& g, const model& a)
    {
        switch (g.below(6))
        {
            case 0: return {a.second, a.first};
            case 1: return {-a.first, a.second};
            case 2: return {a.first, -a.second};
            case 3: return {a.first, 0};
            case 4: return {0, a.first};
            default: return {a.first + 1, a.second};
        }
    }
    static Complex build(G& g, const model& v)
    {
        double re = v.first / 8.0, im = v.second / 8.0;
        if (re == 0 && g.coin()) re = -0.0; // equals 0.0
        if (im == 0 && g.coin()) im = -0.0;
        switch (g.below(7))
        {
            case 0: return Complex(re, im);
            case 1: return Complex(re - 3, im + 5) + Complex(3, -5);
            case 2: return -Complex(-re, -im);
            case 3: return Complex(re, -im).conjugate();
            case 4: return Complex(-im, re) * Complex(0, -1);
            case 5: return Complex(re * 2, im * 2) / Complex(2);
            default:
            {
                Complex c(re), d(0, im);
                c += d;
                return Complex(std::move(c));
            }
        }
    }
    static std::string text(const model& v) { return "(" + std::to_string(v.first / 8.0) + ", " + std::to_string(v.second / 8.0) + ")"; }
    static void input(Complex& x, model& v, const model& w)
    {
        std::ostringstream os;
        os << w.first / 8.0 << (w.second < 0 ? "-" : "+") << std::abs(w.second / 8.0) << "j";
        std::istringstream(os.str()) >> x;
        v = w;
    }
    static void change(Complex& x, model& v, bool up)
    {
        x += Complex(up ? 1 : -0.5, up ? -0.25 : 2);
        v.first += up ? 8 : -4;
        v.second += up ? -2 : 16;
    }
};

struct FracLess
{
    bool operator()(const std::pair<int, int>& a, const std::pair<int, int>& b) const { return FracKey::less(a, b); }
};

template <typename K>
static void history(G& g)
{
    typedef typename K::type T;
    typedef std::conditional_t<std::is_same_v<K, FracKey>, std::map<typename K::model, int, FracLess>, std::map<typename K::model, int>> ModelMap;
    std::vector<typename K::model> pool{K::gen(g)};
    for (int k = 1 + g.below(7); k > 0; --k) pool.push_back(g.chance(3, 4) ? K::related(g, g.elem(pool)) : K::gen(g));
    std::string t;
    for (auto& v : pool) t += K::text(v) + " ";
    g.note("keys ", t);
    std::unordered_set<T> us;
    std::unordered_map<T, int> um;
    ModelMap m;
    int ops = 0;
    auto ordered = [&]() {
        if constexpr (K::ordered) return std::tuple<std::set<T>, std::map<T, int>>();
        else return 0;
    }();
    while (g.more(ops, 40, 12))
    {
        ++ops;
        const auto& v = g.elem(pool);
        const T k = K::build(g, v);
        const std::size_t h = std::hash<T>{}(k);
        g.require(std::hash<T>{}(k) == h, "hashing twice");
        const bool in = m.count(v) != 0;
        switch (g.below(6))
        {
            case 0:
            case 1:
            {
                g.note("insert ", K::text(v));
                eqs(g, us.insert(K::build(g, v)).second, !in, "inserted into unordered_set");
                eqs(g, um.insert({K::build(g, v), ops}).second, !in, "inserted into unordered_map");
                if constexpr (K::ordered)
                {
                    eqs(g, std::get<0>(ordered).insert(K::build(g, v)).second, !in, "inserted into std::set");
                    eqs(g, std::get<1>(ordered).insert({K::build(g, v), ops}).second, !in, "inserted into std::map");
                }
                m.insert({v, ops});
                break;
            }
            case 2:
            {
                g.note("erase ", K::text(v));
                eqs(g, us.erase(k), std::size_t(in), "erased from unordered_set");
                eqs(g, um.erase(K::build(g, v)), std::size_t(in), "erased from unordered_map");
                if constexpr (K::ordered)
                {
                    eqs(g, std::get<0>(ordered).erase(k), std::size_t(in), "erased from std::set");
                    eqs(g, std::get<1>(ordered).erase(K::build(g, v)), std::size_t(in), "erased from std::map");
                }
                m.erase(v);
                break;
            }
            case 3:
                g.note("rehash");
                us.rehash(std::size_t(g.below(300)));
                um.rehash(std::size_t(g.below(300)));
                break;
            case 4:
            {
                g.note("assign ", K::text(v));
                um[K::build(g, v)] = ops;
                us.insert(k);
                if constexpr (K::ordered)
                {
                    std::get<0>(ordered).insert(k);
                    std::get<1>(ordered)[K::build(g, v)] = ops;
                }
                m[v] = ops;
                break;
            }
            default:
                g.note("look up ", K::text(v));
        }
        for (const auto& w : pool)
        {
            const T key = K::build(g, w);
            auto it = m.find(w);
            const bool has = it != m.end();
            auto what = [&](const char* c) { return std::string("lookup of ") + K::text(w) + " in " + c; };
            g.require_f((us.find(key) != us.end()) == has && us.count(key) == std::size_t(has), [&] { return what("unordered_set"); });
            auto f = um.find(key);
            g.require_f((f != um.end()) == has && (!has || f->second == it->second), [&] { return what("unordered_map"); });
            if (has) g.require_f(std::hash<T>{}(f->first) == std::hash<T>{}(key) && f->first == key, [&] { return what("unordered_map: hash of the equal key"); });
            if constexpr (K::ordered)
            {
                g.require_f((std::get<0>(ordered).count(key) == 1) == has, [&] { return what("std::set"); });
                auto o = std::get<1>(ordered).find(key);
                g.require_f((o != std::get<1>(ordered).end()) == has && (!has || o->second == it->second), [&] { return what("std::map"); });
            }
        }
        eqs(g, us.size(), m.size(), "size of unordered_set");
        eqs(g, um.size(), m.size(), "size of unordered_map");
        g.require(std::hash<T>{}(k) == h, "the key's hash does not change");
    }
    if constexpr (K::ordered)
    {
        auto it = m.begin();
        for (auto& e : std::get<0>(ordered))
        {
            g.require(it != m.end(), "number of elements of std::set");
            g.require(e == K::build(g, it->first), "iteration of std::set in the order of the values");
            ++it;
        }
        g.require(it == m.end() && std::get<1>(ordered).size() == m.size(), "sizes of the ordered containers");
    }
    g.nontrivial_if(ops >= 5);
    if (ops >= 15) g.label("history of 15 or more operations");
}
// variables that are hashed, then change their value in every possible way, and are hashed again
template <typename K>
static void variables(G& g)
{
    typedef typename K::type T;
    constexpr int N = 3;
    std::vector<typename K::model> pool{K::gen(g)};
    for (int k = 1 + g.below(5); k > 0; --k) pool.push_back(g.chance(3, 4) ? K::related(g, g.elem(pool)) : K::gen(g));
    T x[N];
    typename K::model v[N];
    for (int i = 0; i < N; ++i)
    {
        v[i] = g.elem(pool);
        x[i] = K::build(g, v[i]);
        g.note("variable ", i, " = ", K::text(v[i]));
    }
    std::unordered_set<T> seen;
    int ops = 0;
    const bool rarely = g.coin();
    auto look = [&](int i) {
        const T fresh = K::build(g, v[i]);
        g.require_f(std::hash<T>{}(x[i]) == std::hash<T>{}(fresh), [&] { return "variable " + std::to_string(i) + ", now " + K::text(v[i]) + ", does not hash like an equal value"; });
        g.require_f(x[i] == fresh && fresh == x[i], [&] { return "variable " + std::to_string(i) + " does not equal " + K::text(v[i]); });
        const bool had = seen.count(fresh) != 0;
        g.require_f(seen.count(x[i]) == std::size_t(had), [&] { return "lookup of variable " + std::to_string(i) + ", now " + K::text(v[i]); });
        if (g.chance(1, 3))
        {
            seen.insert(x[i]);
            g.require(seen.count(fresh) == 1, "a key inserted through a variable is found");
        }
    };
    while (g.more(ops, 30, 10))
    {
        ++ops;
        const int i = g.below(N), j = g.below(N), k = g.below(9);
        const auto& w = g.elem(pool);
        g.note("operation ", k, " on ", i, " and ", j, ", value ", K::text(w));
        switch (k)
        {
            case 0: x[i] = x[j]; v[i] = v[j]; break;
            case 1:
                if (i != j) { x[i] = std::move(x[j]); v[i] = v[j]; x[j] = K::build(g, w); v[j] = w; }
                break;
            case 2: x[i] = K::build(g, w); v[i] = w; break;
            case 3:
            {
                const T t = K::build(g, w);
                (void)std::hash<T>{}(t);
                x[i] = t;
                v[i] = w;
                break;
            }
            case 4:
            {
                T t(x[j]);
                x[j] = K::build(g, w);
                x[i] = std::move(t);
                auto o = v[j];
                v[j] = w;
                v[i] = o;
                break;
            }
            case 5: if (i != j) { std::swap(x[i], x[j]); std::swap(v[i], v[j]); } break;
            case 6: K::input(x[i], v[i], w); break;
            default: K::change(x[i], v[i], k == 7);
        }
        if (!rarely || g.chance(1, 3)) look(i);
        if (g.chance(1, 4)) (void)std::hash<T>{}(x[g.below(N)]);
    }
    for (int i = 0; i < N; ++i) look(i);
    g.nontrivial_if(ops >= 5);
    g.label("reused variables");
}
PBT_SUB(int_variables, 2) { variables<IntKey>(g); }
PBT_SUB(str_variables, 2) { variables<StrKey>(g); }
PBT_SUB(fraction_variables, 2) { variables<FracKey>(g); }
PBT_SUB(complex_variables, 1) { variables<ComplexKey>(g); }

PBT_SUB(int_keys, 4) { history<IntKey>(g); }
PBT_SUB(str_keys, 3) { history<StrKey>(g); }
PBT_SUB(fraction_keys, 3) { history<FracKey>(g); }
PBT_SUB(complex_keys, 3) { history<ComplexKey>(g); }

// known finding: equality of Complex tolerates a difference below epsilon, the hash does not
static const bool known_added = [] {
    pbt::Registry::get().known.push_back({"complex-hash-tolerance", [] {
        const Complex a = Complex(0.1) + Complex(0.2), b(0.3);
        return a == b && std::hash<Complex>{}(a) != std::hash<Complex>{}(b)
                   ? std::string("Complex(0.1) + Complex(0.2) == Complex(0.3), but their hashes differ")
                   : std::string();
    }});
    return true;
}();

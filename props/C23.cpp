#include "elem.hpp"
#include "complex.hpp"
#include "deque.hpp"
#include "list.hpp"
using pyincpp::Complex;
using pyincpp::Deque;
using pyincpp::List;

static pbt::Config config("C23",
    "lists of 0 to ~3000 keyed records, ints, strings and big integers with many equivalent elements (random, sorted, reversed, "
    "organ-pipe, few keys), comparators by key, remainder, magnitude and reversed order, predicates, actions, rotation counts of the "
    "whole int range; non-trivial: list of at least 3 elements",
    2200000, 260000);

// comparators: sort takes a plain function
static int c_mod = 1, c_dir = 1;
static int rank_of(int v)
{
    int r = c_mod > 0 ? v % c_mod : std::abs(v - 13);
    return c_dir * r;
}
static bool by_key(const Rec& a, const Rec& b) { return rank_of(a.key) < rank_of(b.key); }
static bool by_rank(const int& a, const int& b) { return rank_of((a + 20) / 3) < rank_of((b + 20) / 3); }
static bool by_length(const std::string& a, const std::string& b) { return a.size() < b.size(); }

static Model gen_keys(G& g)
{
    const int d = std::max(2, gen_domain(g));
    Model m = gen_model(g, d, g.chance(1, 30) ? 3000 : g.chance(1, 2) ? 120 : 24, g.chance(1, 3) ? 40 : 12);
    switch (g.pick({5, 1, 1, 1}))
    {
        case 0: break;
        case 1: std::sort(m.begin(), m.end()); break;
        case 2: std::sort(m.rbegin(), m.rend()); break;
        default: // up and down
            for (std::size_t i = 0; i < m.size(); ++i) m[i] = int(i < m.size() / 2 ? i : m.size() - i) % d;
    }
    return m;
}
template <typename V, typename F>
static V stable_sorted(const V& v, F less) // insertion of equal ranks in order of appearance, without a library sort
{
    V r;
    r.reserve(v.size());
    for (auto& e : v)
    {
        std::size_t lo = 0, hi = r.size(); // after all elements that are not greater
        while (lo < hi)
        {
            std::size_t mid = (lo + hi) / 2;
            if (less(e, r[mid])) hi = mid;
            else lo = mid + 1;
        }
        r.insert(r.begin() + std::ptrdiff_t(lo), e);
    }
    return r;
}
template <typename C, typename V>
static void same_as(G& g, const C& c, const V& v, const char* what)
{
    ++g.steps;
    if (c.size() != int(v.size()) || !std::equal(v.begin(), v.end(), c.begin(), c.end()))
    {
        g.fail(std::string(what) + ": got " + show_seq(c) + ", want " + show_seq(v));
    }
}

PBT_SUB(sort_records, 5)
{
    Model m = gen_keys(g);
    static const int mods[] = {4096, 2, 3, 1, 0, 7};
    c_mod = g.of(mods);
    c_dir = g.coin() ? -1 : 1;
    std::vector<Rec> v;
    for (std::size_t i = 0; i < m.size(); ++i) v.push_back({m[i], int(i)});
    List<Rec> l(v);
    g.note("keys ", show_model(m), ", comparator: ", c_dir < 0 ? "reversed " : "", c_mod > 0 ? "key mod " : "|key - 13| ", c_mod);
    g.nontrivial_if(m.size() >= 3);
    auto want = stable_sorted(v, by_key);
    g.require(WHERE(l.sort(by_key)) == &l, "sort returns the list");
    same_as(g, l, want, "sort by key");
    if (m.size() > 16) g.label("sort of more than 16 elements");
    l.sort(by_key);
    same_as(g, l, want, "second sort");
    c_dir = -c_dir;
    l.sort(by_key);
    same_as(g, l, stable_sorted(want, by_key), "sort in reversed order");
    l.sort();
    same_as(g, l, stable_sorted(v, [](const Rec& a, const Rec& b) { return a.key != b.key ? a.key < b.key : a.tag < b.tag; }), "sort without comparator");
}

template <typename T>
static void sort_plain(G& g, bool (*comparator)(const T&, const T&))
{
    Model m = gen_keys(g);
    std::vector<T> v = elements<T>(m);
    List<T> l(v), k(v);
    static const int mods[] = {4096, 2, 3, 1, 0, 7};
    c_mod = g.of(mods);
    c_dir = g.coin() ? -1 : 1;
    g.note(Elem<T>::name, " list ", show_model(m), ", comparator ", c_dir, " ", c_mod);
    g.nontrivial_if(m.size() >= 3);
    g.require(WHERE(l.sort()) == &l, "sort returns the list");
    same_as(g, l, stable_sorted(v, [](const T& a, const T& b) { return a < b; }), "sort");
    if (comparator)
    {
        k.sort(comparator);
        same_as(g, k, stable_sorted(v, comparator), "sort with comparator");
    }
}
PBT_SUB(sort_ints, 2) { sort_plain<int>(g, by_rank); }
PBT_SUB(sort_strings, 2) { sort_plain<std::string>(g, by_length); }
PBT_SUB(sort_boxes, 1) { sort_plain<Box>(g, nullptr); }

template <typename T>
static void uniquify(G& g)
{
    Model m = gen_keys(g);
    if (m.size() > 300) m.resize(300);
    List<T> l(elements<T>(m));
    g.note(Elem<T>::name, " list ", show_model(m), ", uniquify");
    g.nontrivial_if(m.size() >= 3);
    Model want;
    std::set<int> seen;
    for (int v : m)
    {
        if (seen.insert(v).second) want.push_back(v);
    }
    if (want.size() < m.size()) g.label("duplicates removed");
    g.require(WHERE(l.uniquify()) == &l, "uniquify returns the list");
    same_seq<T>(g, l, want, "uniquify");
    l.uniquify();
    same_seq<T>(g, l, want, "second uniquify");
}
PBT_SUB(uniquify_ints, 2) { uniquify<int>(g); }
PBT_SUB(uniquify_boxes, 1) { uniquify<Box>(g); }
PBT_SUB(uniquify_doubles, 1) { uniquify<double>(g); }
PBT_SUB(uniquify_twins, 1) { uniquify<Twin>(g); }

template <typename T>
static void filter_map(G& g)
{
    Model m = gen_keys(g);
    List<T> l(elements<T>(m));
    static const int mods[] = {2, 3, 5, 1, 4097};
    int k = g.of(mods), r = g.below(k == 4097 ? 3 : k);
    g.note(Elem<T>::name, " list ", show_model(m), ", filter value mod ", k, " == ", r);
    g.nontrivial_if(m.size() >= 3);
    // predicate and action by position in a lookup table of the values
    auto value = [](const T& e) {
        int lo = 0, hi = DOMAIN_MAX - 1; // order preserving
        while (lo < hi)
        {
            int mid = (lo + hi) / 2;
            if (make<T>(mid) < e) lo = mid + 1;
            else hi = mid;
        }
        return lo;
    };
    std::vector<int> asked;
    Model want;
    for (int v : m)
    {
        if (v % k == r) want.push_back(v);
    }
    bool flip = g.coin();
    auto predicate = [&](const T& e) {
        int v = value(e);
        asked.push_back(v);
        return v % k == r;
    };
    g.require(WHERE(l.filter(predicate)) == &l, "filter returns the list");
    same_seq<T>(g, l, want, "filter", want.size() < 50);
    if (want.size() < m.size() && !want.empty()) g.label("filter keeps some elements");
    // map
    std::vector<int> seen;
    auto action = [&](T& e) {
        int v = value(e);
        seen.push_back(v);
        e = make<T>((v + 1) % DOMAIN_MAX);
    };
    g.require(WHERE(l.map(action)) == &l, "map returns the list");
    eqs(g, show_model(seen), show_model(want), "elements seen by map");
    for (int& v : want) v = (v + 1) % DOMAIN_MAX;
    same_seq<T>(g, l, want, "list after map", want.size() < 50);
    if (flip)
    {
        l.filter([](const T&) { return false; });
        same_seq<T>(g, l, {}, "filter of nothing");
    }
}
PBT_SUB(filter_map_ints, 2) { filter_map<int>(g); }
PBT_SUB(filter_map_strings, 1) { filter_map<std::string>(g); }

template <typename T>
static void rearrange(G& g)
{
    Model m = gen_keys(g);
    if (m.size() > 400) m.resize(400);
    const int n = int(m.size());
    int k = g.coin() ? g.any_int() : gen_bound(g, n);
    int x = m.empty() ? 0 : g.chance(3, 4) ? g.elem(m) : g.below(5);
    List<T> l(elements<T>(m));
    g.note(Elem<T>::name, " list ", show_model(m), ", rotate ", k, ", reverse, remove all ", x);
    g.nontrivial_if(n >= 3);
    g.require(WHERE(l <<= k) == &l, "<<= returns the list");
    Model w = rotated_left(m, k);
    same_seq<T>(g, l, w, "<<=");
    l >>= k;
    same_seq<T>(g, l, m, ">>= after <<=");
    g.require(WHERE(l >>= k) == &l, ">>= returns the list");
    w = rotated_left(m, -(long long)k);
    same_seq<T>(g, l, w, ">>=");
    l.reverse();
    std::reverse(w.begin(), w.end());
    same_seq<T>(g, l, w, "reverse");
    l /= make<T>(x);
    w.erase(std::remove(w.begin(), w.end(), x), w.end());
    same_seq<T>(g, l, w, "removal of all occurrences");
    l /= make<T>(x);
    same_seq<T>(g, l, w, "second removal of all occurrences", false);
}
PBT_SUB(rearrange_ints, 2) { rearrange<int>(g); }
PBT_SUB(rearrange_boxes, 2) { rearrange<Box>(g); }

// records whose order looks at the key only, and records that are equal already if their keys are
struct Loose
{
    int key = 0, tag = 0;
    bool operator==(const Loose&) const = default;
    friend bool operator<(const Loose& a, const Loose& b) { return a.key < b.key; }
    friend std::ostream& operator<<(std::ostream& os, const Loose& r) { return os << r.key << '.' << r.tag; }
};
struct Coarse
{
    int key = 0, tag = 0;
    friend bool operator==(const Coarse& a, const Coarse& b) { return a.key == b.key; }
    friend bool operator<(const Coarse& a, const Coarse& b) { return a.key < b.key; }
    friend std::ostream& operator<<(std::ostream& os, const Coarse& r) { return os << r.key << '.' << r.tag; }
};
static bool identical(const int& a, const int& b) { return a == b; }
template <typename E>
static bool identical(const E& a, const E& b) { return a.key == b.key && a.tag == b.tag; }
template <typename E>
static void identical_seq(G& g, const List<E>& l, const std::vector<E>& m, const char* what)
{
    ++g.steps;
    if (l.size() != int(m.size()) || !std::equal(m.begin(), m.end(), l.begin(), l.end(), [](const E& a, const E& b) { return identical(a, b); }))
    {
        g.fail(std::string(what) + ": got " + show_seq(l) + ", want " + show_seq(m));
    }
}

// histories in which the bulk operations follow each other and single edits on one list
template <typename E>
static E small_element(G& g, int k, int tag, E*) { return {g.below(k), tag}; }
static int small_element(G& g, int k, int, int*) { return g.below(k) * 3 - 20; }
static int key_of(int v) { return v; }
template <typename E>
static int key_of(const E& r) { return r.key; }
template <typename E>
static E with_key(const E& r, int k) { return {k, r.tag}; }
static int with_key(int, int k) { return k; }
template <typename E>
static bool reversed(const E& a, const E& b) { return b.key < a.key; }
static bool reversed(const int& a, const int& b) { return b < a; }

template <typename E>
static bool by_rank_of(const E& a, const E& b) { return rank_of(a.key) < rank_of(b.key); }

template <typename E>
static void bulk_history(G& g)
{
    const int k = g.coin() ? 4 : 30, mod = 2 + g.below(4);
    std::vector<E> m;
    int tag = 0;
    for (int n = g.length(g.chance(1, 10) ? 120 : 20, 8); n > 0; --n) m.push_back(small_element(g, k, tag++ % (g.coin() ? 1 : 50), (E*)nullptr));
    List<E> l(m);
    g.note("list ", show_seq(m));
    int words[4];
    for (int& w : words) w = g.below(13);
    const bool few = g.coin(), rarely = g.chance(1, 3);
    int ops = 0;
    std::size_t longest = m.size();
    c_mod = 1 + g.below(5);
    c_dir = g.coin() ? -1 : 1;
    while (g.more(ops, 30, 10))
    {
        ++ops;
        const char* what = "?";
        const int n = int(m.size());
        switch (few ? words[g.below(4)] : g.below(13))
        {
            case 0:
            {
                what = "uniquify";
                l.uniquify();
                std::vector<E> w;
                for (const E& e : m)
                {
                    bool seen = false;
                    for (const E& f : w) seen |= f == e;
                    if (!seen) w.push_back(e);
                }
                m = w;
                break;
            }
            case 1: what = "sort"; l.sort(); m = stable_sorted(m, [](const E& a, const E& b) { return a < b; }); break;
            case 2: what = "sort in reversed order"; l.sort(reversed); m = stable_sorted(m, [](const E& a, const E& b) { return reversed(a, b); }); break;
            case 3:
                what = "sort by rank";
                if constexpr (std::is_same_v<E, int>) { l.sort(by_rank); m = stable_sorted(m, by_rank); }
                else { l.sort(by_rank_of<E>); m = stable_sorted(m, by_rank_of<E>); }
                break;
            case 4:
            {
                what = "filter";
                const int r = g.below(mod);
                l.filter([&](const E& e) { return std::abs(key_of(e)) % mod != r; });
                std::vector<E> w;
                for (const E& e : m) if (std::abs(key_of(e)) % mod != r) w.push_back(e);
                m = w;
                break;
            }
            case 5:
                what = "map that makes elements equal";
                l.map([](E& e) { e = with_key(e, key_of(e) / 2); });
                for (E& e : m) e = with_key(e, key_of(e) / 2);
                break;
            case 6:
                what = "map";
                l.map([](E& e) { e = with_key(e, 17 - key_of(e)); });
                for (E& e : m) e = with_key(e, 17 - key_of(e));
                break;
            case 7: what = "reverse"; l.reverse(); std::reverse(m.begin(), m.end()); break;
            case 8:
            {
                what = "rotation";
                const int by = g.chance(1, 4) ? g.any_int() : g.range(-9, 9);
                g.note(by);
                if (g.coin()) l <<= by, std::rotate(m.begin(), m.begin() + (n ? long(((long long)by % n + n) % n) : 0), m.end());
                else l >>= by, std::rotate(m.begin(), m.begin() + (n ? long((-(long long)by % n + n) % n) : 0), m.end());
                break;
            }
            case 9:
            {
                what = "removal of all occurrences";
                const E e = n && g.chance(3, 4) ? m[std::size_t(g.below(n))] : small_element(g, k, 0, (E*)nullptr);
                l /= e;
                m.erase(std::remove(m.begin(), m.end(), e), m.end());
                break;
            }
            case 10:
            {
                what = "+= element";
                E e = n && g.coin() ? m[std::size_t(g.below(n))] : small_element(g, k, tag++ % 50, (E*)nullptr);
                l += e;
                m.push_back(e);
                break;
            }
            case 11:
                what = "element assignment";
                if (n)
                {
                    const int i = g.below(n), j = g.below(n);
                    l[i - (g.coin() ? n : 0)] = E(m[std::size_t(j)]);
                    m[std::size_t(i)] = m[std::size_t(j)];
                }
                break;
            default:
                what = "+= list";
                if (n < 200)
                {
                    l += List<E>(m);
                    std::vector<E> w = m;
                    m.insert(m.end(), w.begin(), w.end());
                }
        }
        g.note(what);
        longest = std::max(longest, m.size());
        if (rarely && g.chance(2, 3)) continue;
        identical_seq(g, l, m, what);
        // what the queries say is about the present elements
        const E probe = m.empty() ? small_element(g, k, 0, (E*)nullptr) : m[std::size_t(g.below(int(m.size())))];
        int first = -1, count = 0;
        for (std::size_t q = 0; q < m.size(); ++q)
        {
            if (m[q] == probe)
            {
                if (first < 0) first = int(q);
                ++count;
            }
        }
        g.require(l.index(probe) == first && l.count(probe) == count && l.contains(probe) == (count > 0), "queries in a history");
    }
    identical_seq(g, l, m, "list at the end");
    g.nontrivial_if(ops >= 3 && longest >= 3);
    g.label("history of bulk operations");
}
PBT_SUB(bulk_history_ints, 2) { bulk_history<int>(g); }
PBT_SUB(bulk_history_records, 2) { bulk_history<Rec>(g); }
PBT_SUB(bulk_history_loose, 2) { bulk_history<Loose>(g); }
PBT_SUB(bulk_history_coarse, 2) { bulk_history<Coarse>(g); }

// Complex numbers that are equal within the tolerance although their bits (and hashes) differ; the classes are
// clearly apart, so that equality is an equivalence here.
PBT_SUB(close_complexes, 1)
{
    const int classes = 1 + g.below(6);
    Model m = gen_model(g, classes, 40, 6);
    auto part = [&](int eighths) { const double v = eighths / 8.0; return g.coin() ? v : std::nextafter(v, g.coin() ? 2.0 : v); };
    auto make_close = [&](int k) { return Complex(part(k % 3 - 1), part(k * 2 - 5)); };
    std::vector<Complex> v;
    for (int k : m) v.push_back(make_close(k));
    auto bits = [](const Complex& c) { std::ostringstream os; os.precision(17); os << c.real() << ' ' << c.imag(); return os.str(); };
    auto same = [&](const List<Complex>& l, const std::vector<Complex>& want, const char* what) {
        ++g.steps;
        std::string a, b;
        for (auto& e : l) a += bits(e) + ", ";
        for (auto& e : want) b += bits(e) + ", ";
        g.require_f(a == b, [&] { return std::string(what) + ": got " + a + "want " + b; });
    };
    g.note("classes ", show_model(m));
    g.nontrivial_if(m.size() >= 3);
    List<Complex> l(v);
    const int k = g.below(classes);
    const Complex e = make_close(k);
    const auto first = std::find(m.begin(), m.end(), k);
    eqs(g, l.count(e), int(std::count(m.begin(), m.end(), k)), "count");
    eqs(g, l.index(e), first == m.end() ? -1 : int(first - m.begin()), "index");
    g.require(l.contains(e) == (first != m.end()) && (l.find(e) != l.end()) == (first != m.end()), "contains and find");
    std::vector<Complex> other;
    for (int q : m) other.push_back(make_close(q));
    g.require(l == List<Complex>(other), "lists of equal elements are equal");
    g.require(Deque<Complex>(v.begin(), v.end()) == Deque<Complex>(other.begin(), other.end()), "deques of equal elements are equal");
    {
        List<Complex> u(l);
        u.uniquify();
        std::vector<Complex> want;
        std::set<int> seen;
        for (std::size_t i = 0; i < m.size(); ++i) if (seen.insert(m[i]).second) want.push_back(v[i]);
        same(u, want, "uniquify");
    }
    {
        List<Complex> u(l);
        u -= e;
        std::vector<Complex> want(v);
        if (first != m.end()) want.erase(want.begin() + (first - m.begin()));
        same(u, want, "-= element");
        same(l - e, want, "- element");
    }
    {
        List<Complex> u(l);
        u /= e;
        std::vector<Complex> want;
        for (std::size_t i = 0; i < m.size(); ++i) if (m[i] != k) want.push_back(v[i]);
        same(u, want, "/= element");
        same(l / e, want, "/ element");
    }
}

// thousands of different elements
static bool by_last_digit(const int& a, const int& b) { return a % 10 < b % 10; }
static bool is_kept(const int& a) { return a % 3 != 1; }
PBT_SUB(large, 1)
{
    const int n = vast(g, true), domain = n > 6000 ? g.range(2, 60) : g.coin() ? n + 2 : n / 3 + 2; // uniquify is quadratic
    const Model m = spread(g, n, domain);
    List<int> l(m.begin(), m.end());
    const int op = g.below(7);
    g.note("operation ", op, " on a list of ", n, " elements below ", domain);
    Model want;
    switch (op)
    {
        case 0:
        {
            std::vector<char> seen((std::size_t)domain);
            for (int v : m)
            {
                if (!seen[std::size_t(v)]) want.push_back(v);
                seen[std::size_t(v)] = 1;
            }
            l.uniquify();
            break;
        }
        case 1:
            for (int v : m)
                if (is_kept(v)) want.push_back(v);
            l.filter(is_kept);
            break;
        case 2:
        {
            int calls = 0;
            for (int v : m) want.push_back(v * 2 + 1);
            l.map([&](int& v) { v = v * 2 + 1; ++calls; });
            g.require(calls == n, "map applies the action once to every element");
            break;
        }
        case 3:
            for (int d = 0; d < 10; ++d)
                for (int v : m)
                    if (v % 10 == d) want.push_back(v);
            l.sort(by_last_digit);
            break;
        case 4:
        {
            std::vector<int> count((std::size_t)domain);
            for (int v : m) ++count[std::size_t(v)];
            for (int v = 0; v < domain; ++v) want.insert(want.end(), std::size_t(count[std::size_t(v)]), v);
            l.sort();
            break;
        }
        case 5:
        {
            const int v = n ? g.elem(m) : 0;
            for (int w : m)
                if (w != v) want.push_back(w);
            l /= v;
            break;
        }
        default:
        {
            const int k = g.any_int();
            for (long long i = 0; i < n; ++i) want.push_back(m[std::size_t(((i + k) % n + n) % n)]);
            l <<= k;
            if (g.coin())
            {
                l.reverse();
                want = Model(want.rbegin(), want.rend());
            }
        }
    }
    same_as(g, l, want, "operation on a large list");
    g.nontrivial_if(n >= 3);
    if (n > 100) g.label("list of more than 100 elements");
}

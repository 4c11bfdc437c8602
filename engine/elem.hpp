// Element types and models for the containers. The model of a container is a sequence, set
// or map of small ints; the container under test holds the elements these ints stand for.
#ifndef ELEM_HPP
#define ELEM_HPP
#include "common.hpp"
#include "int.hpp"
#include "str.hpp"
#include <optional>

// Deep-copying element that owns memory and is recognisably empty after a move.
struct Box
{
    int* p;
    Box() : p(nullptr) {}
    explicit Box(int v) : p(new int(v)) {}
    Box(const Box& o) : p(o.p ? new int(*o.p) : nullptr) {}
    Box(Box&& o) noexcept : p(o.p) { o.p = nullptr; }
    Box& operator=(const Box& o)
    {
        int* q = o.p ? new int(*o.p) : nullptr;
        delete p;
        p = q;
        return *this;
    }
    Box& operator=(Box&& o) noexcept // a self-move loses the value, which the standard allows
    {
        int* q = o.p;
        o.p = nullptr;
        delete p;
        p = q;
        return *this;
    }
    ~Box() { delete p; }
    int value() const { return p ? *p : -1000000; }
    bool operator==(const Box& o) const { return value() == o.value(); }
    auto operator<=>(const Box& o) const { return value() <=> o.value(); }
    friend std::ostream& operator<<(std::ostream& os, const Box& b) { return os << "Box " << b.value(); }
};
// key decides a comparator's order, tag tells equivalent elements apart
struct Rec
{
    int key = 0, tag = 0;
    bool operator==(const Rec&) const = default;
    auto operator<=>(const Rec&) const = default;
    friend std::ostream& operator<<(std::ostream& os, const Rec& r) { return os << r.key << '.' << r.tag; }
};

// plain element whose equality and order say nothing of its bytes
struct Twin
{
    char low = 0; // padding follows
    int value = 0;
    int noise = 0;
    bool operator==(const Twin& o) const { return value == o.value; }
    auto operator<=>(const Twin& o) const { return value <=> o.value; }
    friend std::ostream& operator<<(std::ostream& os, const Twin& t) { return os << "Twin " << t.value; }
};

// make(v): the element that v stands for; order preserving
template <typename T>
struct Elem;
template <>
struct Elem<int>
{
    static constexpr const char* name = "int";
    static int build(int v) { return v * 3 - 20; }
};
template <>
struct Elem<std::string>
{
    static constexpr const char* name = "std::string";
    static std::string build(int v)
    {
        char b[16];
        std::snprintf(b, sizeof b, "%05d", v);
        return v % 2 ? std::string(b) + "#################################" : std::string(b);
    }
};
template <>
struct Elem<pyincpp::Int>
{
    static constexpr const char* name = "Int";
    static pyincpp::Int build(int v) { return pyincpp::Int((std::to_string(v - 3) + "000000000000000000007").c_str()); }
};
template <>
struct Elem<pyincpp::Str>
{
    static constexpr const char* name = "Str";
    static pyincpp::Str build(int v) { return pyincpp::Str(Elem<std::string>::build(v)); }
};
template <>
struct Elem<Box>
{
    static constexpr const char* name = "Box";
    static Box build(int v) { return Box(v); }
};
template <>
struct Elem<Rec>
{
    static constexpr const char* name = "Rec";
    static Rec build(int v) { return {v / 8, v % 8}; }
};

constexpr int DOMAIN_MAX = 4096;
template <typename T>
const T& make(int v)
{
    static const std::vector<T> table = [] {
        std::vector<T> t;
        for (int i = 0; i < DOMAIN_MAX; ++i)
        {
            t.push_back(Elem<T>::build(i));
        }
        return t;
    }();
    return table[std::size_t(v)];
}

// in turns one of two equal values that differ in their bytes
template <typename T>
const T& make_in_turns(int v)
{
    static const std::vector<T> table = [] {
        std::vector<T> t;
        for (int i = 0; i < 2 * DOMAIN_MAX; ++i)
        {
            t.push_back(Elem<T>::build(i / 2, i % 2));
        }
        return t;
    }();
    return table[std::size_t(v) * 2 + (++pbt::turn & 1)];
}
template <>
struct Elem<Twin>
{
    static constexpr const char* name = "Twin";
    static Twin build(int v, int turn) { return {char(turn * 7), v - 3, turn}; }
};
template <>
struct Elem<double> // 0.0 and -0.0 are equal
{
    static constexpr const char* name = "double";
    static double build(int v, int turn) { return v == 1 ? (turn ? -0.0 : 0.0) : (v - 1) * 0.25; }
};
template <>
inline const Twin& make<Twin>(int v) { return make_in_turns<Twin>(v); }
template <>
inline const double& make<double>(int v) { return make_in_turns<double>(v); }

typedef std::vector<int> Model;

template <typename T>
std::vector<T> elements(const Model& m)
{
    std::vector<T> r;
    r.reserve(m.size());
    for (int v : m)
    {
        r.push_back(make<T>(v));
    }
    return r;
}
template <typename T, typename C>
std::string show_elems(const C& c)
{
    return show_seq(c);
}

// how many different element values a case uses
inline int gen_domain(G& g)
{
    static const int d[] = {3, 2, 6, 26, 200};
    return d[g.pick({5, 2, 4, 2, 1})];
}
inline Model gen_model(G& g, int domain, int max, int small = 8)
{
    Model m(std::size_t(g.reach(max, small)));
    if (m.size() <= 24)
    {
        for (auto& v : m)
        {
            v = g.below(domain);
        }
        return m;
    }
    pbt::Rng r(g.seed64());
    const int style = g.pick({4, 2, 1, 1});
    for (auto& v : m)
    {
        v = int(r.upto(u_int64_t(domain - 1)));
    }
    if (style == 1)
    {
        std::sort(m.begin(), m.end());
    }
    else if (style == 2) // constant with few exceptions
    {
        const Model x(m.begin(), m.begin() + g.below(4));
        std::fill(m.begin(), m.end(), g.below(domain));
        for (int v : x) m[std::size_t(g.below(int(m.size())))] = v;
    }
    else if (style == 3) // periodic
    {
        const int p = 1 + g.below(5);
        for (std::size_t i = std::size_t(p); i < m.size(); ++i) m[i] = m[i - std::size_t(p)];
    }
    return m;
}
// a size: mostly moderate, rarely in the thousands, and once in a long while beyond the 16-bit integers
inline int vast(G& g, bool beyond = false)
{
    if (beyond && g.chance(1, 2500))
    {
        static const int marks[] = {32767, 32768, 65535, 65536};
        return g.coin() ? g.of(marks) + g.range(-2, 2) : g.range(20000, 80000);
    }
    return !g.chance(1, 40) ? g.below(70) : g.coin() ? (1 << g.range(7, 12)) + g.range(-2, 2) : g.range(100, 5000);
}
// n values below the domain, from one choice
inline Model spread(G& g, int n, int domain)
{
    pbt::Rng r(g.seed64());
    Model m((std::size_t)n);
    const int first = int(r.upto(u_int64_t(domain - 1)));
    const int style = g.below(4);
    for (int i = 0; i < n; ++i)
    {
        m[std::size_t(i)] = style == 0 ? (first + i) % domain : style == 1 ? (first + domain - i % domain) % domain : int(r.upto(u_int64_t(domain - 1)));
    }
    return m;
}
// a related model: equal, prefix, one element changed, or independent
inline Model gen_related_model(G& g, const Model& m, int domain)
{
    Model r = m;
    switch (g.pick({2, 2, 3, 2, 2}))
    {
        case 0: return r;
        case 1: r.resize(std::size_t(g.below(int(m.size()) + 1))); return r;
        case 2:
            if (!r.empty()) r[std::size_t(g.below(int(r.size())))] = g.below(domain);
            return r;
        case 3: r.push_back(g.below(domain)); return r;
        default: return gen_model(g, domain, 60);
    }
}
inline std::string show_model(const Model& m) { return show_seq(m); }

inline int gen_bound(G& g, int n) // around [-n, n]
{
    switch (g.pick({8, 1, 1}))
    {
        case 0: return g.range(-n - 2, n + 2);
        case 1: return g.any_int();
        default: return g.coin() ? n + g.range(-1, 1) : -n + g.range(-1, 1);
    }
}
inline int gen_index(G& g, int n) // valid index of either sign; n > 0
{
    return g.coin() ? -1 - g.below(n) : g.below(n);
}
inline std::size_t at(int i, std::size_t n) { return i < 0 ? std::size_t(i + (long long)n) : std::size_t(i); }
inline Model rotated_left(const Model& m, long long k)
{
    const long long n = (long long)m.size();
    Model r = m;
    for (long long i = 0; i < n; ++i)
    {
        r[std::size_t(i)] = m[std::size_t((((i + k) % n) + n) % n)];
    }
    return r;
}

// c (List or Deque) holds exactly the elements of m: by every way of looking at it
template <typename T, typename C>
void same_seq(G& g, const C& c, const Model& m, const char* what, bool thorough = true)
{
    ++g.steps;
    auto bad = [&](const std::string& how) {
        g.fail(std::string(what) + " (" + how + "): got " + show_seq(c) + ", want " + show_seq(elements<T>(m)));
    };
    const int n = int(m.size());
    if (Blind::on)
    {
        if (!g.chance(1, 3)) return;
        const int k = g.below(10);
        g.note("(look ", k, ")");
        int i = 0;
        switch (k)
        {
            case 0:
                if (c.size() != n) bad("size");
                break;
            case 1:
                if (c.is_empty() != (n == 0)) bad("is_empty");
                break;
            case 2:
                for (auto it = c.begin(); it != c.end(); ++it, ++i)
                    if (i >= n || !(*it == make<T>(m[std::size_t(i)]))) bad("iteration");
                if (i != n) bad("iteration");
                break;
            case 3:
                for (auto it = c.rbegin(); it != c.rend(); ++it, ++i)
                    if (i >= n || !(*it == make<T>(m[std::size_t(n - 1 - i)]))) bad("reverse iteration");
                if (i != n) bad("reverse iteration");
                break;
            case 4:
            case 5:
                if (n == 0) break;
                i = gen_index(g, n);
                if (k == 4 ? !(c[i] == make<T>(m[at(i, m.size())])) : !(const_cast<C&>(c)[i] == make<T>(m[at(i, m.size())]))) bad("index " + std::to_string(i));
                break;
            case 6:
            case 7:
            {
                const C copy(c);
                C other;
                if (k == 7) other = c;
                for (auto& e : k == 7 ? other : copy)
                {
                    if (i >= n || !(e == make<T>(m[std::size_t(i)]))) bad("copy");
                    ++i;
                }
                if (i != n) bad("copy");
                break;
            }
            case 8:
            {
                std::vector<T> v = elements<T>(m);
                const C fresh(v.begin(), v.end());
                if (g.coin() ? !(c == fresh) : fresh != c) bad("equality");
                break;
            }
            default:
            {
                std::vector<T> v = elements<T>(m);
                const C fresh(v.begin(), v.end());
                std::ostringstream x, y;
                x << c;
                y << fresh;
                if (!std::is_same_v<T, double> && x.str() != y.str()) bad("printing"); // 0 and -0 are equal
            }
        }
        return;
    }
    if (c.size() != n || c.is_empty() != (n == 0))
    {
        g.fail(std::string(what) + ": size() is " + std::to_string(c.size()) + ", is_empty() is " + (c.is_empty() ? "true" : "false") + ", want " + std::to_string(n) + " elements");
    }
    int i = 0;
    for (const auto& e : c)
    {
        if (i >= n || !(e == make<T>(m[std::size_t(i)]))) bad("iteration");
        ++i;
    }
    if (i != n) bad("iteration");
    if (!thorough) return;
    i = n;
    for (auto it = c.rbegin(); it != c.rend(); ++it)
    {
        --i;
        if (i < 0 || !(*it == make<T>(m[std::size_t(i)]))) bad("reverse iteration");
    }
    if (i != 0) bad("reverse iteration");
    const int step = n > 40 ? n / 20 : 1;
    for (i = 0; i < n; i += step)
    {
        if (!(c[i] == make<T>(m[std::size_t(i)])) || !(c[i - n] == make<T>(m[std::size_t(i)]))) bad("indexing");
    }
    std::vector<T> v = elements<T>(m);
    const C fresh(v.begin(), v.end());
    if (!(c == fresh) || c != fresh) bad("equality");
}

// single-pass range over elements: the weakest iterator that containers accept
template <typename T>
struct InputRange
{
    struct State
    {
        Model m;
        std::size_t pos = 0;
    };
    State s;
    explicit InputRange(const Model& m) : s{m, 0} {}
    struct It
    {
        typedef std::input_iterator_tag iterator_category;
        typedef std::input_iterator_tag iterator_concept;
        typedef T value_type;
        typedef std::ptrdiff_t difference_type;
        typedef const T* pointer;
        typedef const T& reference;
        State* s = nullptr; // null: the end
        bool done() const { return !s || s->pos == s->m.size(); }
        const T& operator*() const { return make<T>(s->m[s->pos]); }
        const T* operator->() const { return &**this; }
        It& operator++()
        {
            ++s->pos;
            return *this;
        }
        struct Proxy
        {
            T value;
            const T& operator*() const { return value; }
        };
        Proxy operator++(int)
        {
            Proxy p{**this};
            ++s->pos;
            return p;
        }
        bool operator==(const It& o) const { return done() == o.done(); }
    };
    It begin() { return It{&s}; }
    It end() { return It{}; }
};
#endif

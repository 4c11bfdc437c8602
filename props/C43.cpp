// @parts: 8
// What a container does with its elements must not depend on what the elements are: the result for elements of any type
// is the result for small ints, with every int replaced by the element it stands for.
#include "elem.hpp"
#include "deque.hpp"
#include "dict.hpp"
#include "list.hpp"
#include "set.hpp"
#include "tuple.hpp"
#include <array>
#include <deque>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
using pyincpp::Deque;
using pyincpp::Dict;
using pyincpp::List;
using pyincpp::Set;
using pyincpp::Tuple;

#ifndef PBT_PART
#define PBT_PART -1
#endif
#if PBT_PART <= 0
static pbt::Config config("C43",
    "histories on List, Deque, Set, Dict and Tuple with elements, keys and values of some thirty types: machine integers of every width and "
    "sign with their extremes, char, bool, float and long double with infinities and subnormals, scoped enumerations, pointers, shared "
    "pointers, pairs, arrays, optionals, vectors, aligned, padded, large, self-referential and descending user types, nested lists; "
    "filled from pointers, std::list, std::deque, input-only, reverse and move iterators and ranges of convertible values; "
    "the model is a history of ints; non-trivial: at least 3 operations and 3 elements at some point",
    900000, 100000);
#endif

// ---------------------------------------------------------------- the types

enum class Colour : signed char { low = -128, dark = -1, none = 0, light = 1, high = 127 };
enum class Flag : unsigned long long { none = 0, one = 1, two = 2, mid = 1ull << 63, all = ~0ull };
template <typename E>
    requires std::is_enum_v<E>
std::ostream& operator<<(std::ostream& os, E e) { return os << "enumerator " << +std::underlying_type_t<E>(e); }

struct alignas(16) Aligned // not more: std::stable_sort of libstdc++ ignores it
{
    int v = -1;
    bool aligned() const { return reinterpret_cast<std::uintptr_t>(this) % 16 == 0; }
    bool operator==(const Aligned& o) const { return aligned() && o.aligned() && v == o.v; }
    auto operator<=>(const Aligned& o) const { return v <=> o.v; }
    friend std::ostream& operator<<(std::ostream& os, const Aligned& a) { return os << "Aligned " << a.v; }
};
struct Large // 600 bytes
{
    int words[150] = {};
    Large() = default;
    explicit Large(int v) { for (int i = 0; i < 150; ++i) words[i] = v * (i % 7 - 3) + (i == 0 ? v * 10 : 0); }
    bool operator==(const Large&) const = default;
    auto operator<=>(const Large& o) const { return words[0] <=> o.words[0]; }
    friend std::ostream& operator<<(std::ostream& os, const Large& l) { return os << "Large " << l.words[0]; }
};
struct Inner // knows its own address: copying its bytes does not copy it
{
    int v = -1;
    const Inner* self = this;
    Inner() = default;
    explicit Inner(int v) : v(v) {}
    Inner(const Inner& o) : v(o.value()) {}
    Inner& operator=(const Inner& o) { v = o.value(); return *this; }
    int value() const { return self == this ? v : -777; }
    bool operator==(const Inner& o) const { return value() == o.value(); }
    auto operator<=>(const Inner& o) const { return value() <=> o.value(); }
    friend std::ostream& operator<<(std::ostream& os, const Inner& l) { return os << "Inner " << l.value(); }
};
struct Downward // the greater number is the smaller element
{
    int v = 0;
    bool operator==(const Downward&) const = default;
    auto operator<=>(const Downward& o) const { return o.v <=> v; }
    friend std::ostream& operator<<(std::ostream& os, const Downward& d) { return os << "Downward " << d.v; }
};
struct Single // one byte whose order is not that of the byte
{
    unsigned char c = 0;
    int rank() const { return (c * 37) & 255; }
    bool operator==(const Single&) const = default;
    auto operator<=>(const Single& o) const { return rank() <=> o.rank(); }
    friend std::ostream& operator<<(std::ostream& os, const Single& s) { return os << "Single " << int(s.c); }
};
struct Marked // trivially copyable, equality looks at one of its two bytes
{
    unsigned char c = 0, mark = 0;
    bool operator==(const Marked& o) const { return c == o.c; }
    auto operator<=>(const Marked& o) const { return c <=> o.c; }
    friend std::ostream& operator<<(std::ostream& os, const Marked& s) { return os << "Marked " << int(s.c); }
};
struct Folded // letters regardless of case
{
    char c = 0;
    char low() const { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
    bool operator==(const Folded& o) const { return low() == o.low(); }
    auto operator<=>(const Folded& o) const { return low() <=> o.low(); }
    friend std::ostream& operator<<(std::ostream& os, const Folded& f) { return os << f.low(); }
};
template <typename A, typename B>
struct Two // std::pair that prints
{
    A a{};
    B b{};
    bool operator==(const Two&) const = default;
    auto operator<=>(const Two&) const = default;
    friend std::ostream& operator<<(std::ostream& os, const Two& t) { return os << "Two " << t.a << ' ' << t.b; }
};

// the elements that 0, 1, 2, ... stand for, in increasing order
template <typename T>
struct Stand;
template <typename T>
std::vector<T> integers()
{
    typedef std::numeric_limits<T> L;
    std::set<T> s{L::min(), T(L::min() + 1), T(0), T(1), T(2), T(10), T(65), T(97), T(100), T(-1), T(-2), T(L::max() / 2), T(L::max() / 2 + 1), T(L::max() - 1), L::max()};
    return {s.begin(), s.end()};
}
template <typename T>
    requires std::is_integral_v<T>
struct Stand<T> { static std::vector<T> all() { return integers<T>(); } };
template <>
struct Stand<bool> { static std::vector<bool> all() { return {false, true}; } };
template <typename T>
    requires std::is_floating_point_v<T>
struct Stand<T>
{
    static std::vector<T> all()
    {
        typedef std::numeric_limits<T> L;
        return {-L::infinity(), L::lowest(), T(-3e9), T(-1.5), T(-1.25), -L::min(), -L::denorm_min(), T(0), L::denorm_min(), L::min(), T(0.25), T(0.75), T(1), T(1) + L::epsilon(), T(2147483648.0), T(1e19), L::max(), L::infinity()};
    }
};
template <>
struct Stand<Colour> { static std::vector<Colour> all() { return {Colour::low, Colour::dark, Colour::none, Colour::light, Colour::high}; } };
template <>
struct Stand<Flag> { static std::vector<Flag> all() { return {Flag::none, Flag::one, Flag::two, Flag::mid, Flag::all}; } };
static const int cells[64] = {};
template <>
struct Stand<const int*>
{
    static std::vector<const int*> all()
    {
        std::vector<const int*> r{nullptr};
        for (int i = 0; i < 12; ++i) r.push_back(cells + i * i / 2);
        r.erase(std::unique(r.begin(), r.end()), r.end());
        return r;
    }
};
template <>
struct Stand<std::shared_ptr<int>>
{
    static std::vector<std::shared_ptr<int>> all()
    {
        static std::vector<int> owned(9); // aliases share one owner: the order is that of the addresses
        std::shared_ptr<int> owner(std::make_shared<int>(0));
        std::vector<std::shared_ptr<int>> r{nullptr};
        for (auto& i : owned) r.emplace_back(owner, &i);
        return r;
    }
};
template <typename T>
std::vector<T> numbered(int n, T (*f)(int))
{
    std::vector<T> r;
    for (int i = 0; i < n; ++i) r.push_back(f(i));
    return r;
}
#define STAND(T, N, ...)                                                                    \
    template <>                                                                             \
    struct Stand<T>                                                                         \
    {                                                                                       \
        static std::vector<T> all() { return numbered<T>(N, [](int i) -> T { return __VA_ARGS__; }); } \
    };
typedef std::pair<int, short> IntShort;
typedef Two<char, int> CharInt; // with padding
typedef Two<float, signed char> FloatChar;
typedef std::array<signed char, 3> Three;
typedef std::optional<int> Maybe;
typedef std::vector<int> Ints;
STAND(IntShort, 25, {i / 5 - 2, short((i % 5 - 2) * 300)})
STAND(CharInt, 25, {char(i / 5 * 20 - 40), (i % 5 - 2) * 1000000000})
STAND(FloatChar, 25, {float(i / 5 - 2) * 0.5f, (signed char)((i % 5 - 2) * 60)})
STAND(Three, 27, {(signed char)(i / 9 - 1), (signed char)(i / 3 % 3 - 1), (signed char)(i % 3 - 1)})
STAND(Maybe, 9, i == 0 ? Maybe() : Maybe(i - 4))
STAND(Ints, 13, i < 4 ? Ints(std::size_t(i), -1) : i < 8 ? Ints{0, i} : Ints(std::size_t(i), 300))
STAND(Aligned, 20, {i * 7 - 50})
STAND(Large, 12, Large(i - 5))
STAND(Inner, 20, Inner(i - 3))
STAND(Downward, 20, {10 - i})
STAND(Single, 256, {(unsigned char)(i * 173)})   // 37 * 173 = 1 modulo 256
STAND(std::string_view, 6, std::string_view("a\0bcc#", std::size_t(i)))
STAND(List<signed char>, 9, i < 3 ? List<signed char>(std::vector<signed char>(std::size_t(i), (signed char)(-128))) : List<signed char>{(signed char)(i / 3 - 2), (signed char)(i % 3 * 60 - 60)})
STAND(Deque<unsigned char>, 9, i < 3 ? Deque<unsigned char>(std::deque<unsigned char>(std::size_t(i), (unsigned char)0)) : Deque<unsigned char>{(unsigned char)(i / 3 * 100), (unsigned char)(i % 3 * 127)})
STAND(List<List<char>>, 8, i < 3 ? List<List<char>>(std::vector<List<char>>(std::size_t(i))) : List<List<char>>{List<char>{char(i + 'a')}, List<char>()})

template <typename T>
int variants() { return int(Stand<T>::all().size()); }
template <>
inline int variants<Marked>() { return 12; }
template <>
inline int variants<Folded>() { return 26; }
template <typename T>
T stand(int i)
{
    static const std::vector<T> table = Stand<T>::all();
    return table[std::size_t(i)];
}
template <>
inline Marked stand<Marked>(int i) { return {(unsigned char)(i * 20 + 7), (unsigned char)++pbt::turn}; }
template <>
inline Folded stand<Folded>(int i) { return {char((++pbt::turn & 1 ? 'a' : 'A') + i)}; }
template <typename T>
int domain(G& g)
{
    static const int n = variants<T>();
    return g.chance(1, 3) ? std::min(n, 2 + g.below(3)) : n;
}

template <typename T>
std::vector<T> all_of(const Model& m)
{
    std::vector<T> r;
    r.reserve(m.size());
    for (int v : m) r.push_back(stand<T>(v));
    return r;
}
template <typename T>
constexpr bool printable = requires(std::ostream& os, const T& t) { os << t; };
template <typename T>
void plain_print(std::ostream& os, const T& t) { os << t; }

template <typename T, typename C>
std::string text_of(const C& model_values, char open, char close) // how the values must be printed
{
    std::ostringstream os;
    os << open;
    bool first = true;
    for (int v : model_values)
    {
        if (!first) os << ", ";
        first = false;
        plain_print<T>(os, stand<T>(v));
    }
    os << close;
    return os.str();
}

// x (any container that iterates) holds what m says
template <typename T, typename C, typename M>
void holds(G& g, const C& x, const M& m, const char* what)
{
    ++g.steps;
    auto it = m.begin();
    int i = 0;
    g.require_f(x.size() == int(m.size()) && x.is_empty() == m.empty(), [&] { return std::string(what) + ": size is " + std::to_string(x.size()) + ", want " + std::to_string(m.size()); });
    for (const T& e : x)
    {
        const bool ok = it != m.end() && e == stand<T>(*it);
        g.require_f(ok, [&] { return std::string(what) + ": element " + std::to_string(i) + " is not the one that " + (it == m.end() ? std::string("(none)") : std::to_string(*it)) + " stands for"; });
        ++it;
        ++i;
    }
    g.require_f(it == m.end(), [&] { return std::string(what) + ": an element is missing"; });
    auto r = m.rbegin();
    for (auto j = x.rbegin(); j != x.rend(); ++j, ++r)
    {
        g.require_f(r != m.rend() && *j == stand<T>(*r), [&] { return std::string(what) + ": reverse iteration"; });
    }
}
template <typename T, typename M>
struct Single_pass // elements made on the way, single pass
{
    struct It
    {
        typedef std::input_iterator_tag iterator_category;
        typedef T value_type;
        typedef std::ptrdiff_t difference_type;
        typedef const T* pointer;
        typedef T reference;
        const M* m = nullptr;
        std::size_t* pos = nullptr;
        bool done() const { return !m || *pos == m->size(); }
        T operator*() const { return stand<T>((*m)[*pos]); }
        It& operator++() { ++*pos; return *this; }
        struct Proxy { T value; T operator*() const { return value; } };
        Proxy operator++(int) { Proxy p{**this}; ++*pos; return p; }
        bool operator==(const It& o) const { return done() == o.done(); }
    };
};
// f(first, last) over the elements of m, by some kind of iterator
template <typename T>
constexpr bool every_kind = std::is_same_v<T, signed char> || std::is_same_v<T, unsigned long long> || std::is_same_v<T, Inner> || std::is_same_v<T, Marked>;
template <typename T, typename F>
void by_range(G& g, const Model& m, F f)
{
    const int kind = g.below(8);
    g.note("(range of kind ", kind, ")");
    std::vector<T> v = all_of<T>(m);
    if constexpr (!every_kind<T>) // to save building time
    {
        if constexpr (std::is_same_v<T, bool>) f(v.begin(), v.end());
        else if (kind < 4) f(v.data(), v.data() + v.size());
        else f(v.begin(), v.end());
        return;
    }
    else
    switch (kind)
    {
        case 0:
        {
            std::unique_ptr<T[]> a(new T[m.size() + 1]());
            std::copy(v.begin(), v.end(), a.get());
            f((const T*)a.get(), (const T*)(a.get() + m.size()));
            break;
        }
        case 1:
        {
            const std::list<T> s(v.begin(), v.end());
            f(s.begin(), s.end());
            break;
        }
        case 2:
        {
            const std::deque<T> s(v.begin(), v.end());
            f(s.begin(), s.end());
            break;
        }
        case 3:
        {
            typedef typename Single_pass<T, Model>::It It;
            std::size_t pos = 0;
            f(It{&m, &pos}, It{});
            break;
        }
        case 4:
            std::reverse(v.begin(), v.end());
            f(v.rbegin(), v.rend());
            break;
        case 5:
            f(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
            break;
        case 6:
        {
            const Deque<T> d(v.begin(), v.end()); // a container of the library
            f(d.begin(), d.end());
            break;
        }
        default: f(v.begin(), v.end());
    }
}
static Model any_model(G& g, int d) { return gen_model(g, d, g.chance(1, 12) ? 300 : 12, 6); }
static int sign_of(const Model& a, const Model& b)
{
    return a < b ? -1 : b < a;
}
template <typename C>
void compared(G& g, const C& x, const C& y, int c)
{
    g.require((x == y) == (c == 0) && (x != y) == (c != 0), "== and != with another");
    g.require((x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0), "order compared with another");
}
template <typename T>
void print_like(G& g, const auto& x, const auto& m, char open, char close)
{
    if constexpr (printable<T>)
    {
        std::ostringstream os;
        os << x;
        const std::string want = text_of<T>(m, open, close);
        g.require_f(os.str() == want, [&] { return "printed " + quote(os.str()) + ", want " + quote(want); });
    }
}

// ---------------------------------------------------------------- List

template <typename T>
void list_history(G& g)
{
    const int d = domain<T>(g);
    Model m = any_model(g, d);
    g.note("List ", show_model(m));
    List<T> l;
    by_range<T>(g, m, [&](auto first, auto last) { l = List<T>(first, last); });
    holds<T>(g, l, m, "constructed");
    std::size_t longest = m.size();
    int ops = 0;
    while (g.more(ops, 24, 8))
    {
        ++ops;
        const int n = int(m.size()), v = g.below(d), op = g.below(20);
        const T e = stand<T>(v);
        g.note("op ", op, " value ", v);
        switch (op)
        {
            case 0: l += e; m.push_back(v); break;
            case 1:
            {
                const int i = g.range(-n, n);
                l.insert(i, e);
                m.insert(m.begin() + std::ptrdiff_t(at(i, m.size())), v);
                break;
            }
            case 2:
            {
                if (n == 0) break;
                const int i = gen_index(g, n);
                g.require(l.remove(i) == stand<T>(m[at(i, m.size())]), "the removed element");
                m.erase(m.begin() + std::ptrdiff_t(at(i, m.size())));
                break;
            }
            case 3:
            {
                if (n == 0) break;
                const int i = gen_index(g, n);
                l[i] = e;
                m[at(i, m.size())] = v;
                g.require(std::as_const(l)[i] == e, "the assigned element");
                break;
            }
            case 4:
            {
                const int i = g.below(n + 1), j = g.range(i, n);
                l.erase(i, j);
                m.erase(m.begin() + i, m.begin() + j);
                break;
            }
            case 5:
            {
                const Model o = any_model(g, d);
                l += List<T>(all_of<T>(o));
                m.insert(m.end(), o.begin(), o.end());
                break;
            }
            case 6:
            {
                const Model o = any_model(g, d);
                by_range<T>(g, o, [&](auto first, auto last) { l.extend(first, last); });
                m.insert(m.end(), o.begin(), o.end());
                break;
            }
            case 7:
            {
                l -= e;
                auto it = std::find(m.begin(), m.end(), v);
                if (it != m.end()) m.erase(it);
                break;
            }
            case 8: l /= e; std::erase(m, v); break;
            case 9:
            {
                const int k = g.below(4);
                if (n * k > 900) break;
                if (g.coin()) l *= k;
                else l = l * k;
                Model r;
                for (int i = 0; i < k; ++i) r.insert(r.end(), m.begin(), m.end());
                m = r;
                break;
            }
            case 10:
            {
                const int k = gen_bound(g, n);
                if (g.coin()) l >>= k, m = rotated_left(m, -(long long)k);
                else l <<= k, m = rotated_left(m, k);
                break;
            }
            case 11: l.reverse(); std::reverse(m.begin(), m.end()); break;
            case 12: l.sort(); std::sort(m.begin(), m.end()); break;
            case 13:
                l.sort([](const T& a, const T& b) { return b < a; });
                std::sort(m.rbegin(), m.rend());
                break;
            case 14:
            {
                l.uniquify();
                Model r;
                for (int x : m) if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x);
                m = r;
                break;
            }
            case 15:
                l.filter([&](const T& x) { return !(x < e); });
                std::erase_if(m, [&](int x) { return x < v; });
                break;
            case 16:
            {
                l.map([&](T& x) { if (x == e) x = stand<T>(0); });
                for (int& x : m) if (x == v) x = 0;
                break;
            }
            case 17: // questions
            {
                const auto it = std::find(m.begin(), m.end(), v);
                g.require(l.contains(e) == (it != m.end()) && l.index(e) == (it == m.end() ? -1 : int(it - m.begin())), "contains, index");
                g.require(l.count(e) == int(std::count(m.begin(), m.end(), v)), "count");
                g.require(std::distance(l.begin(), l.find(e)) == it - m.begin(), "find");
                const int i = g.below(n + 1), j = g.range(i, n);
                const auto in = std::find(m.begin() + i, m.begin() + j, v);
                g.require(l.index(e, i, j) == (in == m.begin() + j ? -1 : int(in - m.begin())), "index within bounds");
                break;
            }
            case 18: // other lists made of this one
            {
                if (n > 0)
                {
                    const int i = g.below(n), j = g.below(n + 1), k = 1 + g.below(3);
                    Model up, down;
                    for (int a = i; a < j; a += k) up.push_back(m[std::size_t(a)]);
                    for (int a = i; a > j; a -= k) down.push_back(m[std::size_t(a)]);
                    holds<T>(g, l.slice(i, j, k), up, "slice");
                    holds<T>(g, l.slice(i, j, -k), down, "slice backward");
                }
                Model x = m;
                x.push_back(v);
                holds<T>(g, l + e, x, "l + e");
                x.pop_back();
                x.insert(x.end(), m.begin(), m.end());
                holds<T>(g, l + l, x, "l + l");
                x = m;
                std::erase(x, v);
                holds<T>(g, l / e, x, "l / e");
                x = m;
                if (auto it = std::find(x.begin(), x.end(), v); it != x.end()) x.erase(it);
                holds<T>(g, l - e, x, "l - e");
                break;
            }
            default:
            {
                const Model o = gen_related_model(g, m, d);
                const List<T> y = List<T>(all_of<T>(o));
                compared(g, l, y, sign_of(m, o));
                print_like<T>(g, l, m, '[', ']');
            }
        }
        holds<T>(g, l, m, "list");
        longest = std::max(longest, m.size());
        if (m.size() > 900) l.clear(), m.clear();
    }
    g.nontrivial_if(ops >= 3 && longest >= 3);
}

// ---------------------------------------------------------------- Deque

template <typename T>
void deque_history(G& g)
{
    const int d = domain<T>(g);
    Model m = any_model(g, d);
    g.note("Deque ", show_model(m));
    Deque<T> q;
    by_range<T>(g, m, [&](auto first, auto last) { q = Deque<T>(first, last); });
    holds<T>(g, q, m, "constructed");
    std::size_t longest = m.size();
    int ops = 0;
    while (g.more(ops, 24, 8))
    {
        ++ops;
        const int n = int(m.size()), v = g.below(d), op = g.below(11);
        const T e = stand<T>(v);
        g.note("op ", op, " value ", v);
        switch (op)
        {
            case 0: q.push_back(e); m.push_back(v); break;
            case 1: q.push_front(e); m.insert(m.begin(), v); break;
            case 2:
                if (n == 0) break;
                g.require(q.pop_back() == stand<T>(m.back()), "pop_back");
                m.pop_back();
                break;
            case 3:
                if (n == 0) break;
                g.require(q.pop_front() == stand<T>(m.front()), "pop_front");
                m.erase(m.begin());
                break;
            case 4:
            {
                if (n == 0) break;
                const int i = gen_index(g, n);
                q[i] = e;
                m[at(i, m.size())] = v;
                g.require(std::as_const(q)[i] == e && q.front() == stand<T>(m.front()) && std::as_const(q).back() == stand<T>(m.back()), "assigned element, front, back");
                break;
            }
            case 5:
            case 6:
            {
                const Model o = any_model(g, d);
                by_range<T>(g, o, [&](auto first, auto last) { op == 5 ? q.extend_back(first, last) : q.extend_front(first, last); });
                m.insert(op == 5 ? m.end() : m.begin(), o.begin(), o.end());
                break;
            }
            case 7:
            {
                const int k = gen_bound(g, n);
                if (g.coin()) q >>= k, m = rotated_left(m, -(long long)k);
                else q <<= k, m = rotated_left(m, k);
                break;
            }
            case 8: q.reverse(); std::reverse(m.begin(), m.end()); break;
            case 9:
                if (n == 0) break;
                q.front() = e;
                m.front() = v;
                break;
            default:
            {
                const Model o = gen_related_model(g, m, d);
                const std::vector<T> ov = all_of<T>(o);
                compared(g, q, Deque<T>(ov.begin(), ov.end()), sign_of(m, o));
                print_like<T>(g, q, m, '<', '>');
            }
        }
        holds<T>(g, q, m, "deque");
        longest = std::max(longest, m.size());
        if (m.size() > 900) q.clear(), m.clear();
    }
    g.nontrivial_if(ops >= 3 && longest >= 3);
}

// ---------------------------------------------------------------- Set

template <typename T>
void set_history(G& g)
{
    const int d = domain<T>(g);
    const Model start = any_model(g, d);
    std::set<int> m(start.begin(), start.end());
    g.note("Set ", show_seq(m));
    Set<T> s;
    by_range<T>(g, start, [&](auto first, auto last) { s = Set<T>(first, last); });
    holds<T>(g, s, m, "constructed");
    std::size_t most = m.size();
    int ops = 0;
    while (g.more(ops, 20, 7))
    {
        ++ops;
        const int v = g.below(d), op = g.below(8);
        const T e = stand<T>(v);
        g.note("op ", op, " value ", v);
        switch (op)
        {
            case 0:
            case 1: g.require(s.add(e) == m.insert(v).second, "add"); break;
            case 2: g.require(s.remove(e) == (m.erase(v) == 1), "remove"); break;
            case 3:
                if (m.empty()) break;
                g.require(s.min() == stand<T>(*m.begin()) && s.max() == stand<T>(*m.rbegin()), "min, max");
                g.require(s.pop() == stand<T>(*m.begin()), "pop");
                m.erase(m.begin());
                break;
            case 4:
            {
                const Model o = any_model(g, d);
                by_range<T>(g, o, [&](auto first, auto last) { s.extend(first, last); });
                m.insert(o.begin(), o.end());
                break;
            }
            case 5:
                g.require(s.contains(e) == (m.count(v) == 1) && (s.find(e) != s.end()) == (m.count(v) == 1), "contains, find");
                break;
            case 6: // two sets
            {
                const Model ov = g.coin() ? gen_related_model(g, Model(m.begin(), m.end()), d) : any_model(g, d);
                const std::set<int> o(ov.begin(), ov.end());
                const std::vector<T> oe = all_of<T>(ov);
                const Set<T> y(oe.begin(), oe.end());
                std::set<int> both, either, left, one;
                std::set_intersection(m.begin(), m.end(), o.begin(), o.end(), std::inserter(both, both.end()));
                std::set_union(m.begin(), m.end(), o.begin(), o.end(), std::inserter(either, either.end()));
                std::set_difference(m.begin(), m.end(), o.begin(), o.end(), std::inserter(left, left.end()));
                std::set_symmetric_difference(m.begin(), m.end(), o.begin(), o.end(), std::inserter(one, one.end()));
                holds<T>(g, s & y, both, "&");
                holds<T>(g, s | y, either, "|");
                holds<T>(g, s - y, left, "-");
                holds<T>(g, s ^ y, one, "^");
                const bool in = both == m, over = both == o;
                g.require((s == y) == (in && over) && (s != y) == !(in && over), "== and !=");
                g.require((s <= y) == in && (s >= y) == over && (s < y) == (in && !over) && (s > y) == (over && !in), "subset comparisons");
                switch (g.below(4))
                {
                    case 0: s &= y; m = both; break;
                    case 1: s |= y; m = either; break;
                    case 2: s -= y; m = left; break;
                    default: s ^= y; m = one;
                }
                break;
            }
            default: print_like<T>(g, s, m, '{', '}');
        }
        holds<T>(g, s, m, "set");
        most = std::max(most, m.size());
    }
    g.nontrivial_if(ops >= 3 && most >= 2);
}

// ---------------------------------------------------------------- Dict

template <typename K, typename V>
void dict_history(G& g)
{
    const int dk = domain<K>(g), dv = domain<V>(g);
    std::map<int, int> m;
    g.note("Dict");
    Dict<K, V> d;
    if (g.coin())
    {
        const Model k = any_model(g, dk);
        std::vector<std::pair<const K, V>> pairs;
        std::map<K, V> fresh;
        for (int x : k)
        {
            const int v = g.below(dv);
            pairs.emplace_back(stand<K>(x), stand<V>(v));
            m.emplace(x, v);
        }
        if (g.coin()) d = Dict<K, V>(pairs.begin(), pairs.end());
        else d.extend(pairs.begin(), pairs.end());
    }
    std::size_t most = m.size();
    int ops = 0;
    auto looks = [&](const Dict<K, V>& x, const std::map<int, int>& want) {
        ++g.steps;
        g.require(x.size() == int(want.size()) && x.is_empty() == want.empty(), "dict: size");
        auto it = want.begin();
        for (const auto& [k, v] : x)
        {
            g.require(it != want.end() && k == stand<K>(it->first) && v == stand<V>(it->second), "dict: a pair");
            ++it;
        }
    };
    looks(d, m);
    while (g.more(ops, 20, 7))
    {
        ++ops;
        const int ki = g.below(dk), vi = g.below(dv), op = g.below(8);
        const K k = stand<K>(ki);
        const V v = stand<V>(vi);
        g.note("op ", op, " key ", ki, " value ", vi);
        const bool in = m.count(ki) == 1;
        switch (op)
        {
            case 0:
            case 1: g.require(d.add(k, v) == m.emplace(ki, vi).second, "add"); break;
            case 2: g.require(d.remove(k) == (m.erase(ki) == 1), "remove"); break;
            case 3:
                if (!in) must_reject(g, [&] { d[k] = v; }, "[] with a missing key");
                else d[k] = v, m[ki] = vi;
                break;
            case 4:
                g.require(d.contains(k) == in && (d.find(k) != d.end()) == in, "contains, find");
                g.require(d.get(k, v) == (in ? stand<V>(m[ki]) : v), "get");
                break;
            case 5:
            {
                if (m.empty()) break;
                g.require(d.min() == stand<K>(m.begin()->first) && d.max() == stand<K>(m.rbegin()->first), "min, max");
                const auto p = d.pop();
                g.require(p.first == stand<K>(m.begin()->first) && p.second == stand<V>(m.begin()->second), "pop");
                m.erase(m.begin());
                break;
            }
            case 6:
            {
                std::set<int> keys, values;
                for (auto [a, b] : m) keys.insert(a), values.insert(b);
                holds<K>(g, d.keys(), keys, "keys");
                holds<V>(g, d.values(), values, "values");
                const auto items = d.items();
                g.require(items.size() == int(m.size()), "items: size");
                for (auto [a, b] : m) g.require(items.contains(std::pair<const K, V>(stand<K>(a), stand<V>(b))), "items: a pair");
                break;
            }
            default:
            {
                Dict<K, V> o;
                std::map<int, int> om = m;
                if (!om.empty() && g.coin()) std::next(om.begin(), g.below(int(om.size())))->second = vi;
                if (g.chance(1, 4)) om.emplace(ki, vi);
                for (auto [a, b] : om) o.add(stand<K>(a), stand<V>(b));
                g.require((d == o) == (m == om) && (d != o) == (m != om), "== with another");
                if constexpr (printable<K> && printable<V>)
                {
                    std::ostringstream os, want;
                    os << d;
                    want << '{';
                    bool first = true;
                    for (auto [a, b] : m)
                    {
                        if (!first) want << ", ";
                        first = false;
                        plain_print<K>(want, stand<K>(a));
                        want << ": ";
                        plain_print<V>(want, stand<V>(b));
                    }
                    want << '}';
                    g.require_f(os.str() == want.str(), [&] { return "printed " + quote(os.str()) + ", want " + quote(want.str()); });
                }
            }
        }
        looks(d, m);
        most = std::max(most, m.size());
    }
    g.nontrivial_if(ops >= 3 && most >= 2);
}

// ---------------------------------------------------------------- Tuple

template <typename A, typename B, typename C>
void tuple_of(G& g)
{
    const int a = g.below(variants<A>()), b = g.below(variants<B>()), c = g.below(variants<C>());
    const int x = g.coin() ? a : g.below(variants<A>()), y = g.coin() ? b : g.below(variants<B>()), z = g.coin() ? c : g.below(variants<C>());
    g.note("Tuple (", a, ", ", b, ", ", c, ") and (", x, ", ", y, ", ", z, ")");
    g.nontrivial_if(a != b || b != c);
    const Tuple<A, B, C> t(stand<A>(a), stand<B>(b), stand<C>(c));
    const auto u = pyincpp::make_tuple(stand<A>(x), stand<B>(y), stand<C>(z));
    g.require(t.template get<0>() == stand<A>(a) && t.template get<1>() == stand<B>(b) && t.template get<2>() == stand<C>(c) && t.size() == 3, "the elements");
    const bool same = a == x && b == y && c == z;
    g.require((t == u) == same && (t != u) == !same && (u == t) == same, "== and !=");
    g.require((t.rest() == u.rest()) == (b == y && c == z), "rest");
    if constexpr (printable<A> && printable<B> && printable<C>)
    {
        std::ostringstream os, want;
        os << t;
        want << '(';
        plain_print<A>(want, stand<A>(a));
        want << ", ";
        plain_print<B>(want, stand<B>(b));
        want << ", ";
        plain_print<C>(want, stand<C>(c));
        want << ')';
        g.require_f(os.str() == want.str(), [&] { return "printed " + quote(os.str()) + ", want " + quote(want.str()); });
    }
}

template <typename T>
void sequences(G& g) { g.coin() ? list_history<T>(g) : deque_history<T>(g); }
template <typename T, typename V, typename W>
void any_of(G& g)
{
    switch (g.pick({4, 2, 2, 2, 1}))
    {
        case 0: list_history<T>(g); break;
        case 1: deque_history<T>(g); break;
        case 2: set_history<T>(g); break;
        case 3: dict_history<T, V>(g); break;
        default: tuple_of<T, V, W>(g);
    }
}
#if PBT_PART < 0 || PBT_PART == 0
PBT_SUB(chars, 3) { any_of<char, signed char, bool>(g); }
PBT_SUB(signed_chars, 3) { any_of<signed char, unsigned char, float>(g); }
PBT_SUB(unsigned_chars, 3) { any_of<unsigned char, Large, short>(g); }
PBT_SUB(shorts, 2) { any_of<short, long long, char>(g); }
#endif
#if PBT_PART < 0 || PBT_PART == 1
PBT_SUB(unsigned_shorts, 2) { any_of<unsigned short, Colour, unsigned>(g); }
PBT_SUB(unsigneds, 2) { any_of<unsigned, const int*, long double>(g); }
PBT_SUB(longs, 3) { any_of<long long, Maybe, unsigned long long>(g); }
PBT_SUB(unsigned_longs, 3) { any_of<unsigned long long, short, signed char>(g); }
#endif
#if PBT_PART < 0 || PBT_PART == 2
PBT_SUB(floats, 3) { any_of<float, unsigned, Inner>(g); }
PBT_SUB(long_doubles, 2) { any_of<long double, Three, Aligned>(g); }
PBT_SUB(enums, 3) { any_of<Colour, Flag, unsigned char>(g); }
PBT_SUB(wide_enums, 2) { any_of<Flag, char, Large>(g); }
#endif
#if PBT_PART < 0 || PBT_PART == 3
PBT_SUB(pointers, 2) { any_of<const int*, std::shared_ptr<int>, Maybe>(g); }
PBT_SUB(shared_pointers, 1) { any_of<std::shared_ptr<int>, IntShort, Ints>(g); }
PBT_SUB(pairs, 2) { any_of<IntShort, CharInt, Three>(g); }
PBT_SUB(padded, 2) { any_of<CharInt, unsigned short, Folded>(g); }
#endif
#if PBT_PART < 0 || PBT_PART == 4
PBT_SUB(floats_inside, 1) { any_of<FloatChar, Marked, Single>(g); }
PBT_SUB(arrays, 2) { any_of<Three, Downward, const int*>(g); }
PBT_SUB(optionals, 1) { any_of<Maybe, FloatChar, Marked>(g); }
PBT_SUB(vectors, 1) { any_of<Ints, Aligned, Downward>(g); }
#endif
#if PBT_PART < 0 || PBT_PART == 5
PBT_SUB(aligned, 2) { any_of<Aligned, float, CharInt>(g); }
PBT_SUB(larges, 1) { any_of<Large, Ints, Colour>(g); }
PBT_SUB(inners, 3) { any_of<Inner, Inner, IntShort>(g); }
PBT_SUB(downwards, 2) { any_of<Downward, Single, Flag>(g); }
#endif
#if PBT_PART < 0 || PBT_PART == 6
PBT_SUB(singles, 3) { any_of<Single, unsigned long long, bool>(g); }
PBT_SUB(marked, 3) { any_of<Marked, bool, long long>(g); }
PBT_SUB(folded, 2) { any_of<Folded, long double, unsigned short>(g); }
PBT_SUB(views, 1) { any_of<std::string_view, Folded, FloatChar>(g); }
#endif
#if PBT_PART < 0 || PBT_PART == 7
PBT_SUB(lists, 1) { any_of<List<signed char>, Deque<unsigned char>, List<List<char>>>(g); }
PBT_SUB(deques, 1) { any_of<Deque<unsigned char>, List<List<char>>, std::string_view>(g); }
#endif
#if PBT_PART < 0 || PBT_PART == 7
PBT_SUB(bools, 1)
{
    switch (g.below(3))
    {
        case 0: deque_history<bool>(g); break;
        case 1: set_history<bool>(g); break;
        default: dict_history<bool, Large>(g);
    }
}

// ---------------------------------------------------------------- ranges whose values are converted

template <typename C, typename T, typename F>
void converted(G& g, const std::vector<F>& from, const std::vector<T>& want, const char* what)
{
    ++g.steps;
    const std::list<F> nodes(from.begin(), from.end());
    C a(from.begin(), from.end()), b, c(nodes.begin(), nodes.end());
    if constexpr (requires { b.extend_back(from.begin(), from.end()); })
    {
        b.extend_back(from.data(), from.data() + from.size() / 2);
        b.extend_back(from.begin() + std::ptrdiff_t(from.size() / 2), from.end());
        Deque<T> f(c);
        f.extend_front(from.begin(), from.end());
        g.require(f.size() == 2 * int(from.size()) && std::equal(want.begin(), want.end(), f.begin()), "converted at the front");
    }
    else
    {
        b.extend(from.data(), from.data() + from.size() / 2);
        b.extend(from.begin() + std::ptrdiff_t(from.size() / 2), from.end());
    }
    std::vector<T> w = want;
    if constexpr (std::is_same_v<C, Set<T>>)
    {
        std::sort(w.begin(), w.end());
        w.erase(std::unique(w.begin(), w.end()), w.end());
    }
    for (const C* x : {&a, &b, &c})
    {
        g.require_f(x->size() == int(w.size()) && std::equal(w.begin(), w.end(), x->begin()), [&] { return std::string(what) + ": got " + show_seq(*x) + ", want " + show_seq(w); });
    }
}
template <typename T, typename F>
void all_converted(G& g, const std::vector<F>& from, const std::vector<T>& want)
{
    switch (g.below(3))
    {
        case 0: converted<List<T>>(g, from, want, "List of converted values"); break;
        case 1: converted<Deque<T>>(g, from, want, "Deque of converted values"); break;
        default: converted<Set<T>>(g, from, want, "Set of converted values");
    }
}
PBT_SUB(conversions, 3)
{
    const int n = g.length(60, 6);
    std::vector<int> v;
    for (int i = 0; i < n; ++i) v.push_back(g.chance(1, 3) ? g.any_int() : g.range(-5, 300));
    g.note("from ", show_seq(v));
    g.nontrivial_if(n >= 3);
    switch (g.below(8))
    {
        case 0: all_converted<long long>(g, v, std::vector<long long>(v.begin(), v.end())); break;
        case 1: all_converted<double>(g, v, std::vector<double>(v.begin(), v.end())); break;
        case 2:
        {
            std::vector<pyincpp::Int> w;
            for (int i : v) w.push_back(pyincpp::Int(std::to_string(i).c_str()));
            all_converted<pyincpp::Int>(g, v, w);
            break;
        }
        case 3:
        {
            std::vector<std::string> texts;
            std::vector<const char*> from;
            std::vector<pyincpp::Str> w;
            for (int i : v) texts.push_back(std::to_string(i));
            for (auto& s : texts) from.push_back(s.c_str());
            for (auto& s : texts) w.push_back(pyincpp::Str(s));
            if (g.coin()) all_converted<std::string>(g, from, texts);
            else if (g.coin()) all_converted<pyincpp::Str>(g, from, w);
            else all_converted<pyincpp::Str>(g, texts, w);
            break;
        }
        case 4:
        {
            std::vector<short> from(v.begin(), v.end());
            all_converted<int>(g, from, std::vector<int>(from.begin(), from.end()));
            break;
        }
        case 5:
        {
            std::vector<unsigned char> from(v.begin(), v.end());
            all_converted<int>(g, from, std::vector<int>(from.begin(), from.end()));
            break;
        }
        case 6:
        {
            std::vector<signed char> from(v.begin(), v.end());
            all_converted<long long>(g, from, std::vector<long long>(from.begin(), from.end()));
            break;
        }
        default: // pairs
        {
            std::vector<std::pair<short, const char*>> from;
            std::map<int, std::string> want;
            for (int i : v)
            {
                from.emplace_back(short(i), i % 2 ? "odd" : "even");
                want.emplace(short(i), i % 2 ? "odd" : "even");
            }
            Dict<int, std::string> a(from.begin(), from.end()), b;
            b.extend(from.begin(), from.end());
            g.require(a.size() == int(want.size()) && std::equal(want.begin(), want.end(), a.begin()), "Dict of converted pairs");
            g.require(a == b, "Dict extended by converted pairs");
        }
    }
}
#endif

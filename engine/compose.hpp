// Models of composed values: for every printable type of the library a plain model type, with
// a generator, the conversion to the library's type, and the reference printed form.
#ifndef COMPOSE_HPP
#define COMPOSE_HPP
#include "common.hpp"
#include "pyincpp.hpp"
#include <deque>
#include <list>
#include <map>
#include <set>
#include <tuple>

struct Num // Int
{
    bool negative = false;
    std::string digits = "0"; // canonical
    std::string str() const { return (negative ? "-" : "") + digits; }
    bool operator==(const Num&) const = default;
    std::strong_ordering operator<=>(const Num& o) const
    {
        if (negative != o.negative) return negative ? std::strong_ordering::less : std::strong_ordering::greater;
        auto c = digits.size() != o.digits.size() ? digits.size() <=> o.digits.size() : digits.compare(o.digits) <=> 0;
        return negative ? 0 <=> c : c;
    }
};
struct Frac // Fraction, reduced
{
    int n = 0, d = 1;
    bool operator==(const Frac&) const = default;
    std::strong_ordering operator<=>(const Frac& o) const { return (long long)n * o.d <=> (long long)o.n * d; }
};
struct Cplx // Complex
{
    double re = 0, im = 0;
    bool operator==(const Cplx&) const = default;
};
struct Raw // std::string as an element
{
    std::string s;
    auto operator<=>(const Raw&) const = default;
};

template <typename M>
struct Lib;
#define PRIMITIVE(T, EXPR)                                                  \
    template <>                                                             \
    struct Lib<T>                                                           \
    {                                                                       \
        typedef T type;                                                     \
        static T gen(G& g) { return EXPR; }                                 \
        static const T& to(const T& v) { return v; }                        \
        static void print(std::ostream& os, const T& v) { os << v; }        \
        static const char* name() { return #T; }                            \
    };
PRIMITIVE(int, g.any_int())
PRIMITIVE(bool, g.coin())
PRIMITIVE(char, char('!' + g.below(90)))
PRIMITIVE(double, g.range(-400, 400) / 16.0)
template <>
struct Lib<Raw>
{
    typedef std::string type;
    static Raw gen(G& g)
    {
        std::string s;
        for (int k = g.length(40, 4); k > 0; --k) s += "ab,: []"[g.below(7)];
        return {s};
    }
    static std::string to(const Raw& v) { return v.s; }
    static void print(std::ostream& os, const Raw& v) { os << v.s; }
    static const char* name() { return "std::string"; }
};
template <>
struct Lib<std::string>
{
    typedef pyincpp::Str type;
    static std::string gen(G& g)
    {
        std::string s;
        for (int k = g.length(40, 4); k > 0; --k) s += g.chance(1, 20) ? char(g.below(256)) : "ab,: {}\"\\"[g.below(9)];
        return s;
    }
    static pyincpp::Str to(const std::string& v) { return pyincpp::Str(v); }
    static void print(std::ostream& os, const std::string& v) { os << '"' << v << '"'; }
    static const char* name() { return "Str"; }
};
template <>
struct Lib<Num>
{
    typedef pyincpp::Int type;
    static Num gen(G& g)
    {
        int n = g.length(60, 3);
        std::string s;
        static const char* kinds[] = {"0123456789", "09", "01", "9"};
        const std::string k = kinds[g.below(4)];
        for (int i = 0; i < n; ++i) s += k[std::size_t(g.below(int(k.size())))];
        s.erase(0, std::min(s.find_first_not_of('0'), s.size()));
        return s.empty() ? Num{} : Num{g.coin(), s};
    }
    static pyincpp::Int to(const Num& v) { return pyincpp::Int(v.str().c_str()); }
    static void print(std::ostream& os, const Num& v) { os << v.str(); }
    static const char* name() { return "Int"; }
};
template <>
struct Lib<Frac>
{
    typedef pyincpp::Fraction type;
    static Frac gen(G& g)
    {
        int n = g.chance(1, 6) ? g.any_int() : g.range(-20, 20), d = g.coin() ? 1 : 1 + g.below(g.chance(1, 6) ? 100000 : 12);
        if (n == INT32_MIN) n = 0;
        int a = n < 0 ? -n : n, b = d;
        while (b) { int t = a % b; a = b; b = t; }
        return {n / (a ? a : 1), d / (a ? a : 1)};
    }
    static pyincpp::Fraction to(const Frac& v) { return pyincpp::Fraction(v.n, v.d); }
    static void print(std::ostream& os, const Frac& v)
    {
        os << v.n;
        if (v.d != 1) os << '/' << v.d;
    }
    static const char* name() { return "Fraction"; }
};
template <>
struct Lib<Cplx>
{
    typedef pyincpp::Complex type;
    static Cplx gen(G& g)
    {
        auto part = [&] {
            double d = g.pick({3, 2, 1}) == 0 ? g.range(-9, 9) : g.range(-4000, 4000) / 64.0;
            return g.chance(1, 12) ? d * 1e12 : d;
        };
        double re = part();
        return {re, part()};
    }
    static pyincpp::Complex to(const Cplx& v) { return pyincpp::Complex(v.re, v.im); }
    static void print(std::ostream& os, const Cplx& v) { os << '(' << v.re << (v.im < 0 ? '-' : '+') << (v.im < 0 ? -v.im : v.im) << "j)"; }
    static const char* name() { return "Complex"; }
};

inline int gen_count(G& g) { return g.chance(1, 12) ? g.length(40, 6) : g.below(5); }

template <typename C>
void print_range(std::ostream& os, const C& c, char open, char close)
{
    os << open;
    bool first = true;
    for (const auto& e : c)
    {
        if (!first) os << ", ";
        first = false;
        Lib<typename C::value_type>::print(os, e);
    }
    os << close;
}
template <typename E>
struct Lib<std::vector<E>>
{
    typedef pyincpp::List<typename Lib<E>::type> type;
    static std::vector<E> gen(G& g)
    {
        std::vector<E> r;
        for (int k = gen_count(g); k > 0; --k) r.push_back(Lib<E>::gen(g));
        return r;
    }
    static type to(const std::vector<E>& v)
    {
        type r;
        for (const auto& e : v) r += Lib<E>::to(e);
        return r;
    }
    static void print(std::ostream& os, const std::vector<E>& v) { print_range(os, v, '[', ']'); }
    static std::string name() { return std::string("List<") + Lib<E>::name() + ">"; }
};
template <typename E>
struct Lib<std::deque<E>>
{
    typedef pyincpp::Deque<typename Lib<E>::type> type;
    static std::deque<E> gen(G& g)
    {
        std::deque<E> r;
        for (int k = gen_count(g); k > 0; --k) r.push_back(Lib<E>::gen(g));
        return r;
    }
    static type to(const std::deque<E>& v)
    {
        type r;
        for (const auto& e : v) r.push_back(Lib<E>::to(e));
        return r;
    }
    static void print(std::ostream& os, const std::deque<E>& v) { print_range(os, v, '<', '>'); }
    static std::string name() { return std::string("Deque<") + Lib<E>::name() + ">"; }
};
template <typename E>
struct Lib<std::set<E>>
{
    typedef pyincpp::Set<typename Lib<E>::type> type;
    static std::set<E> gen(G& g)
    {
        std::set<E> r;
        for (int k = gen_count(g); k > 0; --k) r.insert(Lib<E>::gen(g));
        return r;
    }
    static type to(const std::set<E>& v)
    {
        type r;
        for (auto it = v.rbegin(); it != v.rend(); ++it) r.add(Lib<E>::to(*it));
        return r;
    }
    static void print(std::ostream& os, const std::set<E>& v) { print_range(os, v, '{', '}'); }
    static std::string name() { return std::string("Set<") + Lib<E>::name() + ">"; }
};
template <typename K, typename V>
struct Lib<std::map<K, V>>
{
    typedef pyincpp::Dict<typename Lib<K>::type, typename Lib<V>::type> type;
    static std::map<K, V> gen(G& g)
    {
        std::map<K, V> r;
        for (int k = gen_count(g); k > 0; --k)
        {
            K key = Lib<K>::gen(g);
            r.insert({key, Lib<V>::gen(g)});
        }
        return r;
    }
    static type to(const std::map<K, V>& v)
    {
        type r;
        for (auto it = v.rbegin(); it != v.rend(); ++it) r.add(Lib<K>::to(it->first), Lib<V>::to(it->second));
        return r;
    }
    static void print(std::ostream& os, const std::map<K, V>& v)
    {
        os << '{';
        bool first = true;
        for (const auto& [k, w] : v)
        {
            if (!first) os << ", ";
            first = false;
            Lib<K>::print(os, k);
            os << ": ";
            Lib<V>::print(os, w);
        }
        os << '}';
    }
    static std::string name() { return std::string("Dict<") + Lib<K>::name() + ", " + Lib<V>::name() + ">"; }
};
template <typename... E>
struct Lib<std::tuple<E...>>
{
    typedef pyincpp::Tuple<typename Lib<E>::type...> type;
    static std::tuple<E...> gen(G& g) { return std::tuple<E...>{Lib<E>::gen(g)...}; } // braces: in order
    static type to(const std::tuple<E...>& v)
    {
        return std::apply([](const E&... e) { return type(Lib<E>::to(e)...); }, v);
    }
    static void print(std::ostream& os, const std::tuple<E...>& v)
    {
        os << '(';
        std::apply([&](const E&... e) {
            int i = 0;
            (((i++ ? void(os << ", ") : void()), Lib<E>::print(os, e)), ...);
        }, v);
        os << (sizeof...(E) == 1 ? ",)" : ")");
    }
    static std::string name()
    {
        std::string r;
        ((r += (r.empty() ? "" : ", ") + std::string(Lib<E>::name())), ...);
        return "Tuple<" + r + ">";
    }
};
template <typename M>
std::string printed(const M& m)
{
    std::ostringstream os;
    Lib<M>::print(os, m);
    return os.str();
}
#endif

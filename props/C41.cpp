#include "fracref.hpp"
#include "intref.hpp"
#include "strref.hpp"
#include "complex.hpp"
#include "deque.hpp"
#include "dict.hpp"
#include "set.hpp"
using pyincpp::Complex;
using pyincpp::Deque;
using pyincpp::Dict;
using pyincpp::List;
using pyincpp::Set;

static pbt::Config config("C41",
    "operators, comparisons from both sides, assignments, named functions, elements and keys with a plain C++ value (int, short, char, "
    "bool, text literal, std::string, double, standard container) where the library's type is expected; plain values related to the "
    "other operand (equal, neighbours, its low digits, its value modulo 2^32, a prefix, its real part); non-trivial: the other operand is not empty or zero",
    1600000, 120000);

template <typename A, typename B>
static void compared(G& g, const A& x, const B& p, int c, const char* what) // c: the sign of x compared with p
{
    g.require_f((x == p) == (c == 0) && (p == x) == (c == 0), [&] { return std::string(what) + ": =="; });
    g.require_f((x != p) == (c != 0) && (p != x) == (c != 0), [&] { return std::string(what) + ": !="; });
    g.require_f((x < p) == (c < 0) && (p > x) == (c < 0), [&] { return std::string(what) + ": x < p, p > x"; });
    g.require_f((x > p) == (c > 0) && (p < x) == (c > 0), [&] { return std::string(what) + ": x > p, p < x"; });
    g.require_f((x <= p) == (c <= 0) && (p >= x) == (c <= 0), [&] { return std::string(what) + ": x <= p, p >= x"; });
    g.require_f((x >= p) == (c >= 0) && (p <= x) == (c >= 0), [&] { return std::string(what) + ": x >= p, p <= x"; });
}

// ---------------------------------------------------------------- Int with machine integers and literals

// a machine integer that has something to do with a
static int gen_near(G& g, const Big& a)
{
    const Big m = big_abs(a), w = Big(1) << 32;
    long long v;
    switch (g.pick({5, 2, 2, 2, 1, 1}))
    {
        case 0: return g.any_int();
        case 1: v = (long long)(m % w); break;             // what a conversion to 32 bits makes of it
        case 2: v = (long long)(m % pow10(1 + g.below(9))); break; // its low digits
        case 3: // its high digits
        {
            const std::string s = m.str();
            v = std::atoll(s.substr(0, std::size_t(1 + g.below(9))).c_str());
            break;
        }
        case 4: v = m <= INT32_MAX ? (long long)m : 1; break;
        default: v = (long long)(pow10(g.below(10))); break;
    }
    v += g.range(-1, 1);
    if (g.coin()) v = -v;
    return int(std::uint32_t(v)); // wraps
}
template <typename P>
static void int_with(G& g, const Big& a, const P& p, const Big& v, const char* kind)
{
    const Int x = gen_int_of(g, a);
    const int op = g.below(16);
    g.note("Int ", brief(a), " with ", kind, " ", brief(v), ", operation ", op);
    g.nontrivial_if(a != 0);
    Int y = x;
    switch (op)
    {
        case 0: same(g, x + p, a + v, "x + p"); break;
        case 1: same(g, x - p, a - v, "x - p"); break;
        case 2: same(g, x * p, a * v, "x * p"); break;
        case 3:
            if (v == 0) must_reject(g, [&] { (void)(x / p); }, "x / zero");
            else same(g, x / p, a / v, "x / p");
            break;
        case 4:
            if (v == 0) must_reject(g, [&] { (void)(x % p); }, "x % zero");
            else same(g, x % p, a % v, "x % p");
            break;
        case 5: y += p; same(g, y, a + v, "x += p"); break;
        case 6: y -= p; same(g, y, a - v, "x -= p"); break;
        case 7: y *= p; same(g, y, a * v, "x *= p"); break;
        case 8:
            if (v != 0) { y /= p; same(g, y, a / v, "x /= p"); }
            break;
        case 9:
            if (v != 0) { y %= p; same(g, y, a % v, "x %= p"); }
            break;
        case 10: y = p; same(g, y, v, "x = p"); break;
        case 11:
        {
            const Big d = boost::multiprecision::gcd(a, v);
            same(g, g.coin() ? Int::gcd(x, p) : Int::gcd(p, x), d, "gcd with p");
            same(g, g.coin() ? Int::lcm(x, p) : Int::lcm(p, x), a == 0 || v == 0 ? Big(0) : Big(big_abs(a * v) / d), "lcm with p");
            break;
        }
        case 12:
            compared(g, y, p, a < v ? -1 : a > v, "mixed comparison");
            break;
        case 13: // as elements
        {
            List<Int> l{x, p, y};
            g.require(l.contains(p) && l.index(p) == (a == v ? 0 : 1) && l.count(p) == (a == v ? 3 : 1), "List<Int> searched for p");
            l += p;
            same(g, l[-1], v, "List<Int> += p");
            l.insert(0, p);
            same(g, l[0], v, "List<Int>::insert(0, p)");
            same(g, (l + p)[-1], v, "List<Int> + p");
            l /= p;
            g.require(l.size() == (a == v ? 0 : 2) && !l.contains(p), "List<Int> /= p");
            Deque<Int> d{x};
            d.push_front(p);
            d.push_back(p);
            g.require(d.front() == p && d.back() == p && d.size() == 3, "Deque<Int> with p pushed");
            break;
        }
        case 14: // as keys
        {
            Set<Int> s{x};
            g.require(s.contains(p) == (a == v), "Set<Int>::contains(p)");
            g.require(s.add(p) == (a != v) && s.contains(p) && s.size() == (a == v ? 1 : 2), "Set<Int>::add(p)");
            g.require((s.find(p) != s.end()) && s.remove(p) && !s.contains(p) && s.contains(x) == (a != v), "Set<Int>::remove(p)");
            Dict<Int, Int> d{{x, 7}};
            g.require(d.contains(p) == (a == v), "Dict<Int, Int>::contains(p)");
            same(g, d.get(p, p), a == v ? Big(7) : v, "Dict<Int, Int>::get(p, p)");
            g.require(d.add(p, p) == (a != v), "Dict<Int, Int>::add(p, p)");
            d[p] = p;
            same(g, d[p], v, "d[p] = p");
            break;
        }
        default: // functions of several arguments, two of them plain
        {
            const Big e = v < 0 ? Big(-v) : v, exp = e % 40, m = 1 + big_abs(a);
            const int n = int(exp);
            same(g, Int::pow(p, n, lit(m)), [&] {
                Big r = 1 % m;
                for (int i = 0; i < n; ++i) r = r * v % m;
                return r; }(), "pow(p, n, modulus)");
            if (v > 0)
            {
                same(g, Int::sqrt(p), boost::multiprecision::sqrt(v), "sqrt(p)");
                const int b = 2 + g.below(12);
                int want = 0;
                for (Big q = v / b; q > 0; q /= b) ++want;
                same(g, Int::log(p, b), want, "log(p, base)");
            }
        }
    }
    if (op != 13 && op != 14) same(g, x, a, "the operand");
}
PBT_SUB(ints, 5)
{
    const Big a = gen_big(g, 60);
    const int v = gen_near(g, a);
    switch (g.pick({6, 1, 1, 1, 1}))
    {
        case 0: return int_with(g, a, v, Big(v), "int");
        case 1: return int_with(g, a, short(v), Big(short(v)), "short");
        case 2: return int_with(g, a, (signed char)(v), Big(int((signed char)(v))), "signed char");
        case 3: return int_with(g, a, v % 2 != 0, Big(v % 2 != 0), "bool");
        default: return int_with(g, Big(v), v, Big(v), "equal int");
    }
}
PBT_SUB(int_literals, 3)
{
    const Big a = gen_big(g, 60), v = gen_related(g, a, 60);
    std::string s = big_abs(v).str();
    if (g.chance(1, 4)) s.insert(0, std::string(std::size_t(g.below(6)), '0'));
    if (v < 0) s.insert(0, "-");
    else if (g.chance(1, 4)) s.insert(0, "+");
    int_with(g, a, s.c_str(), v, "literal");
}

// ---------------------------------------------------------------- Fraction with machine numbers

PBT_SUB(fractions, 3)
{
    const Q q = gen_q(g);
    const Fraction f = gen_frac_of(g, q);
    int p = g.pick({3, 2, 2}) == 0 ? g.any_int() : g.coin() ? int(q.n) : int(q.d);
    if (g.chance(1, 4)) p = int(q.n / q.d);
    const Q v(p);
    const int op = g.below(9);
    g.note("Fraction ", q, " with ", p, ", operation ", op);
    g.nontrivial_if(q.n != 0);
    Fraction x = f;
    auto apply = [&](const Q& want, auto act, const char* what) {
        if (!want.fits()) return;
        act();
        samef(g, x, want, what);
    };
    switch (op)
    {
        case 0: apply(q + v, [&] { x += p; }, "f += p"); break;
        case 1: apply(q - v, [&] { x -= p; }, "f -= p"); break;
        case 2: apply(q * v, [&] { x *= p; }, "f *= p"); break;
        case 3:
            if (p == 0) must_reject(g, [&] { x /= p; }, "f /= 0");
            else apply(q / v, [&] { x /= p; }, "f /= p");
            break;
        case 4:
            if (p == 0) must_reject(g, [&] { x %= p; }, "f %= 0");
            else apply(q % v, [&] { g.coin() ? x %= p : x = f % p; }, "f %= p");
            break;
        case 5: apply(v, [&] { x = p; }, "f = p"); break;
        case 6:
        {
            const wide d = wgcd(q.n, wide(p) * q.d); // over the common denominator
            apply(Q(d, q.d), [&] { x = g.coin() ? Fraction::gcd(f, p) : Fraction::gcd(p, f); }, "gcd with p");
            break;
        }
        case 7:
        {
            const bool is = q == v;
            g.require((f == p) == is && (p == f) == is && (f != p) == !is && (p != f) == !is, "== with an int");
            const double d = double(p), h = double(f) + (g.coin() ? 0 : d);
            g.require((f == d) == is && (d == f) == is && (f != d) == !is, "== with a whole double");
            g.require((f == h) == (double(q.n) / double(q.d) == h) && (h == f) == (f == h) && (f != h) == !(f == h), "== with a double");
            break;
        }
        default:
        {
            List<Fraction> l{f, p};
            g.require(l.index(p) == (q == v ? 0 : 1) && l.contains(p), "List<Fraction> searched for p");
            Set<Fraction> s{f};
            g.require(s.contains(p) == (q == v) && s.add(p) == !(q == v), "Set<Fraction> with p");
        }
    }
    samef(g, f, q, "the operand");
}

// ---------------------------------------------------------------- Complex with machine numbers

PBT_SUB(complexes, 2)
{
    auto part = [&] { return g.chance(1, 4) ? 0.0 : g.range(-400, 400) / 8.0; };
    const double re = part(), im = part();
    const Complex z(re, im);
    const int w = g.coin() ? int(re) : g.range(-50, 50);
    const double p = g.chance(1, 3) ? re : g.coin() ? double(w) : part();
    const bool whole = g.coin();
    const double v = whole ? w : p;
    const int op = g.below(9);
    g.note("Complex (", re, ", ", im, ") with ", whole ? "int " : "double ", v, ", operation ", op);
    g.nontrivial_if(re != 0 || im != 0);
    auto is = [&](const Complex& got, double a, double b, const char* what) {
        const double tol = 1e-12 * (1 + std::hypot(a, b));
        g.require_f(std::abs(got.real() - a) <= tol && std::abs(got.imag() - b) <= tol, [&] { return std::string(what) + ": got " + show(got); });
    };
    Complex x = z;
    switch (op)
    {
        case 0: is(whole ? z + w : z + p, re + v, im, "z + p"); break;
        case 1: is(whole ? z - w : z - p, re - v, im, "z - p"); break;
        case 2: is(whole ? z * w : z * p, re * v, im * v, "z * p"); break;
        case 3:
            if (v == 0) must_reject(g, [&] { (void)(whole ? z / w : z / p); }, "z / 0");
            else is(whole ? z / w : z / p, re / v, im / v, "z / p");
            break;
        case 4: whole ? x += w : x += p; is(x, re + v, im, "z += p"); break;
        case 5: whole ? x -= w : x -= p; is(x, re - v, im, "z -= p"); break;
        case 6: whole ? x *= w : x *= p; is(x, re * v, im * v, "z *= p"); break;
        case 7: whole ? x = w : x = p; is(x, v, 0, "z = p"); break;
        default:
        {
            const bool same = re == v && im == 0;
            if (whole) g.require((z == w) == same && (w == z) == same && (z != w) == !same && (w != z) == !same, "== with an int");
            else g.require((z == p) == same && (p == z) == same && (z != p) == !same && (p != z) == !same, "== with a double");
            List<Complex> l{z, v};
            g.require(l.index(v) == (same ? 0 : 1), "List<Complex> searched for p");
        }
    }
    g.require(z.real() == re && z.imag() == im, "the operand");
}

// ---------------------------------------------------------------- Str with literals and std::string

template <typename P>
static void str_with(G& g, const std::string& s, const P& p, const std::string& t, const char* kind)
{
    const Str x = gen_str_of(g, s);
    const int op = g.below(12);
    g.note("Str ", quote(s), " with ", kind, " ", quote(t), ", operation ", op);
    g.nontrivial_if(!s.empty());
    switch (op)
    {
        case 0: sames(g, x + p, s + t, "x + p"); break;
        case 1: compared(g, x, p, s < t ? -1 : s > t, "mixed comparison"); break;
        case 2:
        {
            const int start = g.range(0, int(s.size())), stop = g.range(0, int(s.size()));
            eqs(g, x.find(p), ref_find(s, t, 0, INT32_MAX), "find(p)");
            if (start <= stop)
            {
                eqs(g, x.find(p, start, stop), ref_find(s, t, start, stop), "find(p, start, stop)");
                eqs(g, x.contains(p, start, stop), ref_find(s, t, start, stop) != -1, "contains(p, start, stop)");
            }
            break;
        }
        case 3:
        {
            int n = 0;
            if (t.empty()) n = int(s.size()) + 1;
            else
                for (std::size_t i = 0; i < s.size();)
                {
                    if (occurs_at(s, t, (long long)i)) { ++n; i += t.size(); }
                    else ++i;
                }
            eqs(g, x.count(p), n, "count(p)");
            eqs(g, x.contains(p), t.empty() || n > 0, "contains(p)");
            break;
        }
        case 4:
            eqs(g, x.starts_with(p), occurs_at(s, t, 0), "starts_with(p)");
            eqs(g, x.ends_with(p), occurs_at(s, t, (long long)s.size() - (long long)t.size()), "ends_with(p)");
            break;
        case 5: sames(g, x.replace(p, x), ref_replace(s, t, s), "replace(p, x)"); break;
        case 6: sames(g, x.replace(x, p), ref_replace(s, s, t), "replace(x, p)"); break;
        case 7: sames(g, x.join({p, x, p}), t + s + s + s + t, "join({p, x, p})"); break;
        case 8:
        {
            if (t.empty()) return must_reject(g, [&] { (void)x.split(p); }, "split by an empty literal");
            const bool keep = g.coin();
            const List<Str> parts = x.split(p, keep);
            const auto want = ref_split(s, t, keep);
            g.require(parts.size() == int(want.size()), "number of parts");
            for (int i = 0; i < parts.size(); ++i) sames(g, parts[i], want[std::size_t(i)], "part");
            break;
        }
        case 9:
        {
            Str y = x;
            y = p;
            sames(g, y, t, "x = p");
            break;
        }
        case 10: // as elements
        {
            List<Str> l{x, p};
            g.require(l.index(p) == (s == t ? 0 : 1) && l.contains(p) && l.count(p) == (s == t ? 2 : 1), "List<Str> searched for p");
            l += Str(p);
            l -= p;
            g.require(l.size() == 2 && l[0] == (s == t ? Str(s) : x), "List<Str> -= p");
            Deque<Str> d;
            d.push_back(p);
            d.push_front(x);
            sames(g, d.pop_back(), t, "Deque<Str>::push_back(p)");
            break;
        }
        default: // as keys
        {
            Set<Str> set{x};
            g.require(set.contains(p) == (s == t) && set.add(p) == (s != t) && set.size() == (s == t ? 1 : 2), "Set<Str> with p");
            g.require(set.remove(p) && !set.contains(p), "Set<Str>::remove(p)");
            Dict<Str, Str> d{{x, "value"}};
            sames(g, d.get(p, p), s == t ? "value" : t, "Dict<Str, Str>::get(p, p)");
            g.require(d.contains(p) == (s == t) && d.add(p, p) == (s != t), "Dict<Str, Str> with p");
            d[p] = p;
            sames(g, d[p], t, "d[p] = p");
            g.require(d.remove(p) && !d.contains(p), "Dict<Str, Str>::remove(p)");
        }
    }
    sames(g, x, s, "the operand");
}
PBT_SUB(strs, 5)
{
    const Alphabet a = gen_alphabet(g);
    const std::string s = gen_text(g, a, 60);
    std::string t = gen_pattern(g, a, s);
    if (g.coin()) return str_with(g, s, t, t, "std::string");
    if (g.chance(1, 4)) t = s; // a literal ends at its first null character, the text may not
    t = t.c_str();
    str_with(g, s, t.c_str(), t, "literal");
}
PBT_SUB(str_chars, 1)
{
    const Alphabet a = gen_alphabet(g);
    const std::string s = gen_text(g, a, 60);
    const char c = a.one(g);
    const Str x = gen_str_of(g, s);
    g.note("Str ", quote(s), " with the character ", int((unsigned char)c));
    g.nontrivial_if(!s.empty());
    sames(g, x + c, s + c, "x + c");
    std::size_t i = 0, j = s.size();
    while (i < j && s[i] == c) ++i;
    while (j > i && s[j - 1] == c) --j;
    sames(g, x.strip(c), s.substr(i, j - i), "strip(c)");
    sames(g, x, s, "the operand");
}

// ---------------------------------------------------------------- containers with standard containers

PBT_SUB(containers, 3)
{
    const int d = 1 + g.below(6);
    auto gen = [&] {
        std::vector<int> v;
        while (g.more(int(v.size()), 40, 5)) v.push_back(g.below(d));
        return v;
    };
    const std::vector<int> a = gen();
    std::vector<int> b = gen();
    switch (g.below(4))
    {
        case 0: b = a; break;
        case 1: b = std::vector<int>(a.begin(), a.begin() + g.below(int(a.size()) + 1)); break;
        default: break;
    }
    const int kind = g.below(4);
    g.note("contents ", show_seq(a), " and standard ", show_seq(b), ", kind ", kind);
    g.nontrivial_if(!a.empty());
    switch (kind)
    {
        case 0:
        {
            const List<int> x(a.begin(), a.end());
            compared(g, x, b, a < b ? -1 : a > b, "List compared with a vector");
            std::vector<int> ab = a;
            ab.insert(ab.end(), b.begin(), b.end());
            List<int> y = x;
            y += b;
            g.require((x + b) == ab && y == ab, "List + vector");
            y = b;
            g.require(y == b && x == a, "List = vector");
            break;
        }
        case 1:
        {
            const Deque<int> x(a.begin(), a.end());
            const std::deque<int> s(b.begin(), b.end());
            compared(g, x, s, a < b ? -1 : a > b, "Deque compared with a std::deque");
            Deque<int> y = x;
            y = s;
            g.require(y == s && y.size() == int(b.size()), "Deque = std::deque");
            break;
        }
        case 2:
        {
            const std::set<int> p(a.begin(), a.end()), q(b.begin(), b.end());
            const Set<int> x(p);
            std::set<int> i, u, s, e;
            for (int v = 0; v < d; ++v)
            {
                const bool in = p.count(v), is = q.count(v);
                if (in && is) i.insert(v);
                if (in || is) u.insert(v);
                if (in && !is) s.insert(v);
                if (in != is) e.insert(v);
            }
            g.require((x & q) == i && (x | q) == u && (x - q) == s && (x ^ q) == e, "Set algebra with a std::set");
            const bool sub = s.empty(), sup = p.size() - s.size() == q.size();
            g.require((x == q) == (sub && sup) && (x != q) == !(sub && sup) && (x <= q) == sub && (x >= q) == sup && (x < q) == (sub && !sup) && (x > q) == (sup && !sub), "Set compared with a std::set");
            Set<int> y = x;
            const int op = g.below(4);
            op == 0 ? (void)(y &= q) : op == 1 ? (void)(y |= q) : op == 2 ? (void)(y -= q) : (void)(y ^= q);
            g.require(y == (op == 0 ? i : op == 1 ? u : op == 2 ? s : e), "Set algebra in place with a std::set");
            break;
        }
        default:
        {
            std::map<int, int> p, q;
            for (std::size_t k = 0; k < a.size(); ++k) p[a[k]] = int(k) % 3;
            for (std::size_t k = 0; k < b.size(); ++k) q[b[k]] = int(k) % 3;
            const Dict<int, int> x(p);
            g.require((x == q) == (p == q) && (x != q) == (p != q) && (q == x) == (p == q), "Dict compared with a std::map");
            Dict<int, int> y = x;
            y = q;
            g.require(y == q && x == p && y.size() == int(q.size()), "Dict = std::map");
        }
    }
}

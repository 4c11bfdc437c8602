// Random programs over the whole public interface: registers of every type, one instruction
// per call. Every observable result goes into a trace.
#ifndef VM_HPP
#define VM_HPP
#include "common.hpp"
#include "pyincpp.hpp"
using pyincpp::Complex;
using pyincpp::Deque;
using pyincpp::Dict;
using pyincpp::Fraction;
using pyincpp::Int;
using pyincpp::List;
using pyincpp::Set;
using pyincpp::Str;
using pyincpp::Tuple;

struct Instr
{
    int op = 0, a = 0, b = 0, c = 0; // registers
    int n = 0, m = 0, k = 0;         // arguments
    bool foreign = false;            // the right-hand operands are another machine's
    std::string s;
    double x = 0, y = 0;
};
typedef std::vector<Instr> Program;

struct Trace
{
    pbt::u64 h = 1;
    bool keep = false;
    std::string text;
    void add(const std::string& s)
    {
        for (unsigned char ch : s)
        {
            h = (h ^ ch) * 0x100000001B3ull;
        }
        h = (h ^ 0x1FF) * 0x100000001B3ull;
        if (keep && text.size() < 4000)
        {
            text += (s.size() > 60 ? s.substr(0, 60) + "..." : s) + "; ";
        }
    }
    template <typename T>
    void hash([[maybe_unused]] const T& v)
    {
#ifndef VM_PORTABLE // a hash value may differ from build to build
        add(std::to_string(std::hash<T>{}(v)));
#endif
    }
    void num(double v)
    {
        char b[40];
#ifdef VM_PORTABLE
        std::snprintf(b, sizeof b, "%.9g", v);
#else
        std::snprintf(b, sizeof b, "%.17g", v);
#endif
        add(v != v ? "nan" : b);
    }
    template <typename T>
    void put(const T& v)
    {
        if constexpr (std::is_same_v<T, bool>)
        {
            add(v ? "true" : "false");
        }
        else if constexpr (std::is_same_v<T, char>)
        {
            num((unsigned char)v);
        }
        else if constexpr (std::is_arithmetic_v<T>)
        {
            num(double(v));
        }
        else if constexpr (std::is_same_v<T, Complex>)
        {
            num(v.real());
            num(v.imag());
        }
        else
        {
            add(show(v));
        }
    }
};

// short textual material that the parsing functions care about
inline std::string gen_text(G& g)
{
    static const char* const pieces[] = {"0", "7", "42", "-", "+", " ", "/", "j", ".", "e", "E", "a", "Z", "ab", "{}", "{", "}", "\t", "\n", "1e5", "inf", "nan", ",", "12345678901234567890",
                                         "0.5", "3/4", "1+2j", "-7-3j", "zz", "aaaa"};
    std::string s;
    switch (g.below(4))
    {
        case 0:
            for (int n = 0; g.more(n, 8, 3); ++n)
            {
                s += g.of(pieces);
            }
            break;
        case 1:
        {
            int n = g.length(200, 12);
            for (int i = 0; i < n; ++i)
            {
                s += char('a' + g.below(2));
            }
            break;
        }
        case 2:
        {
            int n = g.length(60, 10);
            for (int i = 0; i < n; ++i)
            {
                s += char(g.below(256));
            }
            break;
        }
        default:
        {
            const auto& h = pbt::Hints::get().strs;
            s = h.empty() ? std::string() : g.elem(h);
        }
    }
    return s;
}

inline std::string gen_digits(G& g)
{
    int n = 1 + g.length(120, 25);
    std::string s = g.coin() ? "-" : "";
    int style = g.below(4);
    for (int i = 0; i < n; ++i)
    {
        int d = style == 0 ? g.below(10) : style == 1 ? 9 : style == 2 ? 0 : (g.chance(1, 6) ? g.below(10) : 0);
        s += char('0' + (i == 0 && d == 0 ? 1 : d));
    }
    return s;
}

struct Vm
{
    static constexpr int R = 3;
    Int i[R];
    Str s[R];
    Fraction f[R];
    Complex z[R];
    List<int> l[R];
    List<Int> li[R];
    List<Str> ls[R];
    Deque<Int> d[R];
    Deque<int> di[R];
    Set<Int> e[R];
    Set<Str> es[R];
    Dict<Str, Int> t[R];
    Dict<int, List<int>> tl[R];
    int executed = 0, rejected = 0;

    // keep the values small enough for the cost of a case
    void limit(Int& x)
    {
        if (x.digits() > 300) x = Int(x.is_positive() ? 12345 : -54321);
    }
    void limit(Str& x)
    {
        if (x.size() > 400) x = x.slice(0, 20);
    }
    void limit(Fraction& x)
    {
        long long n = x.numerator(), dd = x.denominator();
        if (n > 30000 || n < -30000 || dd > 30000) x = Fraction(n % 101, 1 + dd % 97);
    }
    template <typename C>
    void limit_seq(C& c, int max)
    {
        if (c.size() > max) c = C();
    }

    void step(const Instr& p, const Vm& other, Trace& out)
    {
        ++executed;
        try
        {
            run(p, other, out);
        }
        catch (const std::exception&)
        {
            ++rejected;
            out.add("rejected");
        }
        tidy(p);
    }
    void tidy(const Instr& p)
    {
        limit(i[p.a]);
        limit(s[p.a]);
        limit(f[p.a]);
        limit_seq(l[p.a], 600);
        limit_seq(li[p.a], 60);
        limit_seq(ls[p.a], 60);
        limit_seq(d[p.a], 60);
        limit_seq(di[p.a], 600);
        limit_seq(e[p.a], 60);
        limit_seq(es[p.a], 60);
        limit_seq(t[p.a], 60);
        limit_seq(tl[p.a], 60);
    }

    template <typename T>
    static T self_copy_move(T& x) // copy, move out, assign, move back
    {
        T c(x);
        T m(std::move(c));
        c = m;
        m = std::move(c);
        x = m;
        return m;
    }
    static bool repeat_ok(int size, int times)
    {
        long long total = (long long)size * times;
        return times < 0 || (size == 0 ? times <= 100000 : total <= 20000 || total > INT_MAX);
    }

    void run_int(const Instr& p, const Vm& o, Trace& out);
    void run_str(const Instr& p, const Vm& o, Trace& out);
    void run_num(const Instr& p, const Vm& o, Trace& out);
    void run_list(const Instr& p, const Vm& o, Trace& out);
    void run_deque(const Instr& p, const Vm& o, Trace& out);
    void run_set(const Instr& p, const Vm& o, Trace& out);
    void run_dict(const Instr& p, const Vm& o, Trace& out);
    void run_misc(const Instr& p, const Vm& o, Trace& out);
    void run(const Instr& p, const Vm& o, Trace& out)
    {
        switch (p.op / 100)
        {
            case 0: run_int(p, o, out); break;
            case 1: run_str(p, o, out); break;
            case 2: run_num(p, o, out); break;
            case 3: run_list(p, o, out); break;
            case 4: run_deque(p, o, out); break;
            case 5: run_set(p, o, out); break;
            case 6: run_dict(p, o, out); break;
            default: run_misc(p, o, out);
        }
    }
    void dump(Trace& out) const
    {
        for (int r = 0; r < R; ++r)
        {
            out.put(i[r]);
            out.put(s[r]);
            out.put(f[r]);
            out.put(z[r]);
            out.put(l[r]);
            out.put(li[r]);
            out.put(ls[r]);
            out.put(d[r]);
            out.put(di[r]);
            out.put(e[r]);
            out.put(es[r]);
            out.put(t[r]);
            out.put(tl[r]);
        }
    }
};

// the same value made anew from what the interface shows of it
inline int rebuilt(int v) { return v; }
inline Int rebuilt(const Int& v) { return Int(show(v).c_str()); }
inline Str rebuilt(const Str& v) { return Str(std::string(v.begin(), v.end())); }
inline Fraction rebuilt(const Fraction& v) { return Fraction(v.numerator(), v.denominator()); }
inline Complex rebuilt(const Complex& v) { return Complex(v.real(), v.imag()); }
template <typename T>
List<T> rebuilt(const List<T>& v)
{
    std::vector<T> r;
    for (const T& e : v) r.push_back(rebuilt(e));
    return List<T>(r);
}
template <typename T>
Deque<T> rebuilt(const Deque<T>& v)
{
    std::deque<T> r;
    for (const T& e : v) r.push_back(rebuilt(e));
    return Deque<T>(r);
}
template <typename T>
Set<T> rebuilt(const Set<T>& v)
{
    std::set<T> r;
    for (const T& e : v) r.insert(rebuilt(e));
    return Set<T>(r);
}
template <typename K, typename V>
Dict<K, V> rebuilt(const Dict<K, V>& v)
{
    std::map<K, V> r;
    for (auto it = v.begin(); it != v.end(); ++it) r.insert({rebuilt(it->first), rebuilt(it->second)});
    return Dict<K, V>(r);
}
inline void rebuild(const Vm& from, Vm& to)
{
    for (int r = 0; r < Vm::R; ++r)
    {
        to.i[r] = rebuilt(from.i[r]);
        to.s[r] = rebuilt(from.s[r]);
        to.f[r] = rebuilt(from.f[r]);
        to.z[r] = rebuilt(from.z[r]);
        to.l[r] = rebuilt(from.l[r]);
        to.li[r] = rebuilt(from.li[r]);
        to.ls[r] = rebuilt(from.ls[r]);
        to.d[r] = rebuilt(from.d[r]);
        to.di[r] = rebuilt(from.di[r]);
        to.e[r] = rebuilt(from.e[r]);
        to.es[r] = rebuilt(from.es[r]);
        to.t[r] = rebuilt(from.t[r]);
        to.tl[r] = rebuilt(from.tl[r]);
    }
}

constexpr int FAMILY_OPS[8] = {43, 38, 39, 44, 25, 30, 31, 12};

inline Instr gen_instr(G& g, bool foreign = false)
{
    Instr p;
    int fam = g.pick({6, 7, 5, 7, 5, 5, 4, 2});
    p.op = fam * 100 + g.below(FAMILY_OPS[fam]);
    p.a = g.below(Vm::R);
    p.b = g.below(Vm::R);
    p.c = g.below(Vm::R);
    switch (g.below(5))
    {
        case 0: p.n = g.range(-12, 12); p.m = g.range(-12, 12); p.k = g.range(-3, 3); break;
        case 3: p.n = g.range(-5, 5); p.m = g.range(-5, 5); p.k = g.any_int(); break;
        case 1: p.n = g.any_int(); p.m = g.any_int(); p.k = g.any_int(); break;
        case 2: p.n = g.below(6); p.m = g.length(400, 10); p.k = 1; break;
        default: p.n = g.any_int(); p.m = g.range(0, 8); p.k = g.any_int();
    }
    p.s = fam == 0 && !g.chance(1, 5) ? gen_digits(g) : fam < 3 || g.coin() ? gen_text(g) : std::string();
    if (fam == 2)
    {
        static const double xs[] = {0, 1, -1, 0.5, -2.25, 1e-9, 3e8, 1e300, -1e-300, INFINITY, -INFINITY, NAN, -0.0};
        p.x = g.coin() ? g.range(-64, 64) / 8.0 : g.of(xs);
        p.y = g.coin() ? g.range(-64, 64) / 8.0 : g.of(xs);
    }
    p.foreign = foreign && g.coin();
    return p;
}
inline Program gen_program(G& g, int max, int avg, bool foreign = false)
{
    Program v;
    while (g.more(int(v.size()), max, avg))
    {
        v.push_back(gen_instr(g, foreign));
    }
    return v;
}
inline std::string show_instr(const Instr& p)
{
    std::ostringstream os;
    os << "op " << p.op << " regs " << p.a << "," << p.b << "," << p.c << (p.foreign ? " foreign" : "") << " args " << p.n << "," << p.m << "," << p.k << " text " << quote(p.s);
    if (p.op / 100 == 2) os << " x=" << p.x << " y=" << p.y;
    return os.str();
}
inline void note_program(G& g, const char* name, const Program& v)
{
    if (g.verbose)
    {
        g.note(name, ":");
        for (auto& p : v)
        {
            g.note("  ", show_instr(p));
        }
    }
}
// run a program from the initial state; the trace includes the final state of all registers
inline Trace execute(const Program& v, const Vm* foreign = nullptr, bool keep = false, Vm* result = nullptr)
{
    Trace out;
    out.keep = keep;
    Vm local;
    Vm& vm = result ? *result : local;
    for (auto& p : v)
    {
        vm.step(p, p.foreign && foreign ? *foreign : vm, out);
    }
    vm.dump(out);
    return out;
}

// ---------------------------------------------------------------- instructions

inline void Vm::run_int(const Instr& p, const Vm& o, Trace& out)
{
    Int& a = i[p.a];
    const Int& b = o.i[p.b];
    const Int& c = o.i[p.c];
    const std::string text = p.s; // keeps its own terminator
    switch (p.op % 100)
    {
        case 0: a += b; break;
        case 1: a -= b; break;
        case 2: a *= b; break;
        case 3: a /= b; break;
        case 4: a %= b; break;
        case 5: ++a; break;
        case 6: --a; break;
        case 7: a = -b; break;
        case 8: a = b.abs(); break;
        case 9: a = b + c; break;
        case 10: a = b - c; break;
        case 11: a = b * c; break;
        case 12: a = b / c; break;
        case 13: a = b % c; break;
        case 14: a = Int(text.c_str()); break;
        case 15: a = Int(p.n); break;
        case 16:
        {
            std::istringstream in(text);
            in >> a;
            out.put(bool(in));
            break;
        }
        case 17:
            if (b.digits() <= 40) a = Int::sqrt(b);
            break;
        case 18:
        {
            Int e(p.m % 40);
            if (b.digits() <= 10) a = Int::pow(b, e);
            break;
        }
        case 19:
            if (b.digits() <= 20 && c.digits() <= 6 && a.digits() <= 20 && !a.is_zero()) a = Int::pow(b, c, a);
            break;
        case 20:
            if (b.digits() <= 60) a = Int::log(b, c);
            break;
        case 21:
            if (b.digits() <= 60 && c.digits() <= 60) a = Int::gcd(b, c);
            break;
        case 22:
            if (b.digits() <= 60 && c.digits() <= 60) a = Int::lcm(b, c);
            break;
        case 23:
            if (b.is_negative() || b < Int(60)) a = b.factorial();
            break;
        case 24:
            if (b.digits() <= 6) out.put(b.is_prime());
            break;
        case 25:
            if (b.digits() <= 5) a = b.next_prime();
            break;
        case 26: out.put(b.digits()); out.put(b.is_zero()); out.put(b.is_positive()); out.put(b.is_negative()); out.put(b.is_even()); out.put(b.is_odd()); break;
        case 27: out.put(b == c); out.put(b < c); out.put(b <= c); out.put(b > c); out.put(b >= c); out.put(b != c); break;
        case 28: out.put(b); break;
        case 29: a = self_copy_move(a); break;
        case 30: out.hash(b); break;
        case 31:
            if (b >= Int(INT_MIN) && b <= Int(INT_MAX)) out.put(b.to_integer<int>());
            break;
        case 32:
            if (b.digits() <= 18) out.put(b.to_integer<long long>());
            break;
        case 33:
            if (!b.is_negative() && b.digits() <= 19) out.add(std::to_string(b.to_integer<unsigned long long>()));
            break;
        case 34:
        {
            Int r = Int::random(p.m <= 400 ? p.m : 17);
            if (p.m >= 0) out.put(r.digits()); // else of random length
            break;
        }
        case 35: a = b + p.n; break;
        case 36: a = b * p.n; break;
        case 37: out.put(b == p.n); out.put(b < p.n); break;
        case 38: a = b; break;
        case 39: a += a; break;
        case 40: a -= a; a = b; break;
        case 41: a *= a; break;
        case 42: a = +b; out.put(a); break;
    }
}

inline void Vm::run_str(const Instr& p, const Vm& o, Trace& out)
{
    Str& a = s[p.a];
    const Str& b = o.s[p.b];
    const Str& c = o.s[p.c];
    switch (p.op % 100)
    {
        case 0: a = Str(p.s); break;
        case 1: a = Str(std::string(p.s).c_str()); break;
        case 2: out.put(b[p.n]); break;
        case 3: out.put(b.find(c, p.n, p.m)); out.put(b.find(c)); break;
        case 4: out.put(b.contains(c, p.n, p.m)); break;
        case 5: out.put(b.count(c)); break;
        case 6: out.put(b.to_decimal()); break;
        case 7: out.put(b.to_integer(p.n)); break;
        case 8: out.put(b.to_integer(2 + (p.n & 0x3FFFFFFF) % 35)); break;
        case 9: i[p.a] = b.to_integer(); break;
        case 10: out.put(b.starts_with(c)); out.put(b.ends_with(c)); break;
        case 11: a = b >> p.n; break;
        case 12: a = b << p.n; break;
        case 13: a = b.reverse(); break;
        case 14: a = b.lower(); break;
        case 15: a = b.upper(); break;
        case 16: a = b.erase(p.n, p.m); break;
        case 17:
            if ((b.size() + 1) * (c.size() + 1) < 100000) a = b.replace(c, o.s[p.m & 1]);
            break;
        case 18: a = b.replace(Str(p.s.substr(0, 2)), c); break;
        case 19: a = b.strip(); break;
        case 20: a = b.strip((signed char)p.n); break;
        case 21: a = b.slice(p.n, p.m, p.k); break;
        case 22: a = b.slice(p.n, p.m); break;
        case 23: a = b + char(p.n); break;
        case 24: a = b + c; break;
        case 25:
            if (repeat_ok(b.size(), p.n)) a = b * p.n;
            break;
        case 26: ls[p.a] = b.split(c, p.n & 1); break;
        case 27: ls[p.a] = b.split(); break;
        case 28:
            if (o.ls[p.c].size() * (b.size() + 400) < 100000) a = b.join(o.ls[p.c]);
            break;
        case 29: a = b.format(c, p.n, o.i[p.b]); break;
        case 30: a = Str(p.s).format(b); break;
        case 31: out.put(b == c); out.put(b < c); out.put(b <= c); out.put(b > c); out.put(b >= c); out.put(b != c); break;
        case 32: out.hash(b); break;
        case 33:
        {
            std::istringstream in(p.s);
            in >> a;
            out.put(bool(in));
            break;
        }
        case 34: a = self_copy_move(a); break;
        case 35:
        {
            std::string seen(b.begin(), b.end());
            std::string back(b.rbegin(), b.rend());
            out.add(seen);
            out.add(back);
            out.add(std::string(b.data(), std::size_t(b.size()) + 1)); // with the terminator
            out.put(b.is_empty());
            break;
        }
        case 36: a = Str(p.s) + b; break;
        case 37: a = b; break;
    }
}

inline void Vm::run_num(const Instr& p, const Vm& o, Trace& out)
{
    Fraction& a = f[p.a];
    const Fraction& b = o.f[p.b];
    const Fraction& c = o.f[p.c];
    Complex& u = z[p.a];
    const Complex& v = o.z[p.b];
    const Complex& w = o.z[p.c];
    switch (p.op % 100)
    {
        case 0:
            if (p.n != INT_MIN && p.m != INT_MIN) a = Fraction(p.n, p.m);
            break;
        case 1: a = Fraction(p.n == INT_MIN ? 3 : p.n); break;
        case 2: a += b; break;
        case 3: a -= b; break;
        case 4: a *= b; break;
        case 5: a /= b; break;
        case 6: a %= b; break;
        case 7: a = b + c; break;
        case 8: a = b - c; break;
        case 9: a = b * c; break;
        case 10: a = b / c; break;
        case 11: a = b % c; break;
        case 12: ++a; break;
        case 13: --a; break;
        case 14: a = -b; break;
        case 15: a = b.abs(); break;
        case 16: a = Fraction::gcd(b, c); break;
        case 17: a = Fraction::lcm(b, c); break;
        case 18: out.put(b == c); out.put(b < c); out.put(b <= c); out.put(b > c); out.put(b >= c); out.put(b != c); break;
        case 19: out.put(b); out.put(double(b)); out.put(b.numerator()); out.put(b.denominator()); break;
        case 20: out.hash(b); break;
        case 21:
        {
            std::istringstream in(p.k & 1 ? p.s : p.s + " " + std::to_string(p.n % 1000) + "/" + std::to_string(p.m % 1000));
            in >> a;
            out.put(bool(in));
            break;
        }
        case 22: a = self_copy_move(a); break;
        case 23: out.put(b == p.n); break;
        case 24: u = Complex(p.x, p.y); break;
        case 25: u += v; break;
        case 26: u -= v; break;
        case 27: u *= v; break;
        case 28: u /= v; break;
        case 29: u = v + w; out.put(u); u = v - w; break;
        case 30: u = v * w; break;
        case 31: u = v / w; break;
        case 32: u = -v; out.put(+v); break;
        case 33: u = v.conjugate(); break;
        case 34: out.put(v.abs()); out.put(v.arg()); out.put(v.real()); out.put(v.imag()); break;
        case 35: out.put(Complex::pow(v, w)); break;
        case 36: out.put(v == w); out.put(v != w); out.hash(v); break;
        case 37:
        {
            std::istringstream in(p.k & 1 ? p.s : p.s + std::to_string(p.n % 1000) + "+" + std::to_string(p.m % 1000) + "j");
            in >> u;
            out.put(bool(in));
            out.add(show(u).find("nan") == std::string::npos ? show(u) : "nan");
            break;
        }
        case 38: u = self_copy_move(u); break;
    }
}

inline void Vm::run_list(const Instr& p, const Vm& o, Trace& out)
{
    List<int>& a = l[p.a];
    const List<int>& b = o.l[p.b];
    const List<int>& c = o.l[p.c];
    List<Int>& x = li[p.a];
    const List<Int>& y = o.li[p.b];
    List<Str>& u = ls[p.a];
    const List<Str>& v = o.ls[p.b];
    switch (p.op % 100)
    {
        case 0: a += p.n; break;
        case 1: a += b; break;
        case 2: a -= p.n; break;
        case 3:
            if (repeat_ok(a.size(), p.n)) a *= p.n;
            break;
        case 4: a /= p.n; break;
        case 5: a >>= p.n; break;
        case 6: a <<= p.n; break;
        case 7: a.insert(p.n, p.m); break;
        case 8: out.put(a.remove(p.n)); break;
        case 9: a.reverse(); break;
        case 10: a.uniquify(); break;
        case 11: a.sort(); break;
        case 12: a.erase(p.n, p.m); break;
        case 13:
            if (p.m & 1) a.map([](int& v) { v /= 2; });
            else a.map([](int& v) { v = int(unsigned(v) * 3u + 1u); });
            break;
        case 14: a.filter([](int v) { return v % 3 != 0; }); break;
        case 15: a.extend(b.begin(), b.end()); break;
        case 16: a.clear(); break;
        case 17: a = b.slice(p.n, p.m, p.k); break;
        case 18: a = b + c; break;
        case 19: a = b + p.n; break;
        case 20: a = b - p.n; break;
        case 21:
            if (repeat_ok(b.size(), p.n)) a = b * p.n;
            break;
        case 22: a = b / p.n; break;
        case 23: out.put(b == c); out.put(b < c); out.put(b <= c); out.put(b > c); out.put(b >= c); out.put(b != c); break;
        case 24: out.put(b.index(p.n, p.m, p.k)); out.put(b.index(p.n)); out.put(b.find(p.n) == b.end()); break;
        case 25: out.put(b.contains(p.n, p.m, p.k)); out.put(b.count(p.n)); break;
        case 26: a[p.n] = p.m; break;
        case 27: out.put(b[p.n]); break;
        case 28: // a longer list
        {
            std::vector<int> more;
            for (int k = 0; k < (p.m & 255); ++k) more.push_back((k * 7 + p.n % 1000) % 50);
            a += List<int>(more);
            break;
        }
        case 29: a = self_copy_move(a); break;
        case 30: x += o.i[p.c]; break;
        case 31: x.insert(p.n, o.i[p.c]); break;
        case 32: out.put(x.remove(p.n)); break;
        case 33: x.sort(); break;
        case 34: x.uniquify(); break;
        case 35: x /= o.i[p.c]; break;
        case 36: x = y; x.reverse(); break;
        case 37:
            if (y.size()) x += y[p.m % y.size()];
            break;
        case 38:
            if (y.size() > 0) x.insert(p.n, y[0]);
            break;
        case 39: u += o.s[p.c]; break;
        case 40: u.sort(); break;
        case 41: u = v.slice(p.n, p.m, p.k); break;
        case 42: u -= o.s[p.c]; break;
        case 43: x.extend(y.rbegin(), y.rend()); break;
    }
    out.put(a.size());
}

inline void Vm::run_deque(const Instr& p, const Vm& o, Trace& out)
{
    Deque<Int>& a = d[p.a];
    const Deque<Int>& b = o.d[p.b];
    const Deque<Int>& c = o.d[p.c];
    Deque<int>& x = di[p.a];
    const Deque<int>& y = o.di[p.b];
    switch (p.op % 100)
    {
        case 0: a.push_back(o.i[p.c]); break;
        case 1: a.push_front(o.i[p.c]); break;
        case 2: out.put(a.pop_back()); break;
        case 3: out.put(a.pop_front()); break;
        case 4: a.extend_back(b.begin(), b.end()); break;
        case 5: a.extend_front(b.begin(), b.end()); break;
        case 6: a >>= p.n; break;
        case 7: a <<= p.n; break;
        case 8: a.reverse(); break;
        case 9: a.clear(); break;
        case 10: out.put(b[p.n]); break;
        case 11: a[p.n] = o.i[p.c]; break;
        case 12: out.put(b.front()); out.put(b.back()); break;
        case 13: out.put(b == c); out.put(b < c); out.put(b >= c); break;
        case 14: a = self_copy_move(a); break;
        case 15: a.push_front(a.back()); break;
        case 16: a.push_back(a.front()); break;
        case 17: x.push_back(p.n); break;
        case 18: x.push_front(p.n); break;
        case 19: x >>= p.n; break;
        case 20: x <<= p.n; break;
        case 21: out.put(x.pop_front()); break;
        case 22: x.extend_back(y.begin(), y.end()); break;
        case 23:
            for (int k = 0; k < (p.m & 255); ++k) k & 1 ? x.push_back(k) : x.push_front(k);
            break;
        case 24: x = Deque<int>(o.l[p.b].begin(), o.l[p.b].end()); out.put(y.is_empty()); break;
    }
    out.put(a.size());
}

inline void Vm::run_set(const Instr& p, const Vm& o, Trace& out)
{
    Set<Int>& a = e[p.a];
    const Set<Int>& b = o.e[p.b];
    const Set<Int>& c = o.e[p.c];
    Set<Str>& x = es[p.a];
    const Set<Str>& y = o.es[p.b];
    switch (p.op % 100)
    {
        case 0: out.put(a.add(o.i[p.c])); break;
        case 1: out.put(a.remove(o.i[p.c])); break;
        case 2: out.put(a.pop()); break;
        case 3: a &= b; break;
        case 4: a |= b; break;
        case 5: a -= b; break;
        case 6: a ^= b; break;
        case 7: a = b & c; break;
        case 8: a = b | c; break;
        case 9: a = b - c; break;
        case 10: a = b ^ c; break;
        case 11: out.put(b == c); out.put(b < c); out.put(b <= c); out.put(b > c); out.put(b >= c); out.put(b != c); break;
        case 12: out.put(b.min()); break;
        case 13: out.put(b.max()); break;
        case 14: out.put(b.contains(o.i[p.c])); out.put(b.find(o.i[p.c]) == b.end()); break;
        case 15: a.extend(o.li[p.c].begin(), o.li[p.c].end()); break;
        case 16: a.extend(b.begin(), b.end()); break;
        case 17: a.clear(); break;
        case 18: a = self_copy_move(a); break;
        case 19: a = Set<Int>{Int(p.n), Int(p.m), Int(p.k), Int(p.n)}; break;
        case 20: out.put(a.add(Int(p.n))); break;
        case 21: out.put(a.remove(Int(p.n))); break;
        case 22: x.add(o.s[p.c]); break;
        case 23: x.remove(o.s[p.c]); break;
        case 24: out.put(x.pop()); break;
        case 25: x ^= y; break;
        case 26: x -= y; break;
        case 27: out.put(y.min()); out.put(y.max()); break;
        case 28: x.extend(o.ls[p.c].begin(), o.ls[p.c].end()); break;
        case 29:
            if (!a.is_empty()) a.remove(*a.begin()); // an element of the set itself
            break;
    }
    out.put(a.size());
}

inline void Vm::run_dict(const Instr& p, const Vm& o, Trace& out)
{
    Dict<Str, Int>& a = t[p.a];
    const Dict<Str, Int>& b = o.t[p.b];
    const Dict<Str, Int>& c = o.t[p.c];
    Dict<int, List<int>>& x = tl[p.a];
    const Dict<int, List<int>>& y = o.tl[p.b];
    switch (p.op % 100)
    {
        case 0: out.put(a.add(o.s[p.b], o.i[p.c])); break;
        case 1: out.put(a.remove(o.s[p.b])); break;
        case 2: a[o.s[p.b]] = o.i[p.c]; break;
        case 3: out.put(b[o.s[p.c]]); break;
        case 4: out.put(b.get(o.s[p.b], o.i[p.c])); break;
        case 5: out.put(b.min()); out.put(b.max()); break;
        case 6: out.put(b.keys()); out.put(b.values()); break;
        case 7: out.put(b.contains(o.s[p.c])); out.put(b.find(o.s[p.c]) == b.end()); break;
        case 8: a.extend(b.begin(), b.end()); break;
        case 9: a.clear(); break;
        case 10: out.put(b == c); out.put(b != c); break;
        case 11: a = self_copy_move(a); break;
        case 12: out.put(x.add(p.n, o.l[p.b])); break;
        case 13: out.put(x.remove(p.n)); break;
        case 14: x[p.n] += p.m; break;
        case 15: out.put(y.keys()); break;
        case 16: x.extend(y.begin(), y.end()); break;
        case 17: a.add(Str(p.s), Int(p.n)); break;
        case 18:
            for (auto it = b.rbegin(); it != b.rend(); ++it) out.put(it->second);
            break;
        case 19: out.put(y.is_empty()); out.put(y == o.tl[p.c]); break;
        case 20: { const auto e = a.pop(); out.put(e.first); out.put(e.second); break; }
        case 21: { const auto e = x.pop(); out.put(e.first); out.put(e.second); break; }
        case 22: for (const auto& e : b.items()) { out.put(e.first); out.put(e.second); } break;
        case 23: for (const auto& e : y.items()) { out.put(e.first); out.put(e.second); } break;
        case 24: a.extend(a.begin(), a.end()); break;
        case 25:
            if (!a.is_empty()) out.put(a.remove(a.begin()->first)); // by the key stored in the entry itself
            break;
        case 26:
            if (!a.is_empty()) a[a.begin()->first] = (*a.rbegin()).second;
            break;
        case 27: x = Dict<int, List<int>>(y.begin(), y.end()); break;
        case 28: out.put(y.get(p.n, o.l[p.b])); out.put(y.values()); break;
        case 29: out.put(y.min()); out.put(y.max()); break;
        case 30: out.put(a.add(o.s[p.c], a.get(o.s[p.b], o.i[p.b]))); break;
    }
    out.put(a.size());
}

inline void Vm::run_misc(const Instr& p, const Vm& o, Trace& out)
{
    switch (p.op % 100)
    {
        case 0:
        {
            Tuple<Int, Str, int> a(o.i[p.a], o.s[p.b], p.n), b(o.i[p.b], o.s[p.b], p.m);
            out.put(a);
            out.put(a == b);
            out.put(a != b);
            out.put(a.get<0>());
            out.put(a.get<1>());
            out.put(a.get<2>());
            out.put(a.size());
            break;
        }
        case 1:
        {
            Tuple<List<int>, Fraction> a(o.l[p.a], o.f[p.b]);
            auto b = a;
            out.put(b);
            out.put(a == b);
            out.put(a.rest());
            break;
        }
        case 2:
        {
            List<List<int>> a{o.l[p.a], o.l[p.b], o.l[p.c]};
            a.sort();
            out.put(a);
            break;
        }
        case 3:
        {
            Set<List<int>> a{o.l[p.a], o.l[p.b]};
            a.add(o.l[p.c]);
            out.put(a);
            break;
        }
        case 4:
        {
            List<Fraction> a{o.f[0], o.f[1], o.f[2]};
            a.sort();
            a.uniquify();
            out.put(a);
            break;
        }
        case 5:
        {
            Dict<Str, List<Int>> a;
            a.add(o.s[p.a], o.li[p.b]);
            a.add(o.s[p.b], o.li[p.c]);
            out.put(a);
            break;
        }
        case 6:
        {
            List<Str> a(o.es[p.a].begin(), o.es[p.a].end());
            out.put(Str(", ").join(a));
            break;
        }
        case 7:
            s[p.a] = Str(show(o.i[p.b]));
            i[p.a] = s[p.a].to_integer();
            break;
        case 8:
        {
            const auto a = pyincpp::make_tuple(o.i[p.a], o.s[p.b], o.l[p.c]);
            const auto b = pyincpp::make_tuple(o.i[p.b], o.s[p.b], o.l[p.b]);
            out.put(a);
            out.put(a == b);
            out.put(a.rest() == b.rest());
            out.put(a != pyincpp::make_tuple(o.i[p.a]));
            out.put(pyincpp::make_tuple());
            break;
        }
        case 9:
        {
            Set<std::pair<const Str, Int>> a = o.t[p.a].items();
            const Set<std::pair<const Str, Int>> b = o.t[p.b].items();
            a |= b;
            out.put(a.size());
            out.put((a - b).size());
            out.put(a >= b);
            break;
        }
        case 10:
        {
            List<Dict<Str, Int>> a{o.t[p.a], o.t[p.b]};
            a += o.t[p.c];
            a.uniquify();
            out.put(a);
            out.put(a.index(o.t[p.b]));
            break;
        }
        case 11:
        {
            Deque<Set<Int>> a{o.e[p.a], o.e[p.b]};
            a.push_front(o.e[p.c]);
            a >>= p.n;
            out.put(a);
            out.put(a.pop_back() <= a.front());
            break;
        }
    }
}
#endif

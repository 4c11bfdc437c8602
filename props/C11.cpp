#include "fracref.hpp"
#include "complex.hpp"
using pyincpp::Complex;

static pbt::Config config("C11",
    "streams of well-formed tokens (signs, leading zeros, unreduced fractions, exponents), separated by runs of whitespace, with or "
    "without surrounding whitespace, possibly ending in a token mutated until it is malformed, or empty; non-trivial: at least two "
    "tokens or a malformed token",
    2200000, 350000);

static std::string blanks(G& g, bool some)
{
    static const char b[] = {' ', '\n', '\t', '\r', '\v', '\f'};
    std::string s;
    for (int n = (some ? 1 : 0) + g.pick({4, 2, 1}); n > 0; --n)
    {
        s += g.of(b);
    }
    return s;
}
static std::string digits(G& g, int max)
{
    std::string s;
    for (int n = 1 + g.below(max); n > 0; --n)
    {
        s += char('0' + g.below(10));
    }
    return s;
}
static std::string sign(G& g)
{
    static const char* s[] = {"", "-", "+"};
    return g.of(s);
}
static bool all_digits(const std::string& s)
{
    return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos;
}
static bool is_int(std::string s)
{
    if (!s.empty() && (s[0] == '+' || s[0] == '-')) s.erase(0, 1);
    return all_digits(s);
}
static bool is_fraction(const std::string& s)
{
    auto p = s.find('/');
    return p == std::string::npos ? is_int(s) : is_int(s.substr(0, p)) && is_int(s.substr(p + 1));
}
// [sign] digits [. digits] [e [sign] digits], or with an empty side of the point: 1 = yes, 0 = no, 2 = undecided
static int is_real(std::string s)
{
    if (!s.empty() && (s[0] == '+' || s[0] == '-')) s.erase(0, 1);
    auto e = s.find_first_of("eE");
    if (e != std::string::npos)
    {
        if (!is_int(s.substr(e + 1))) return 0;
        s.erase(e);
    }
    auto p = s.find('.');
    if (p == std::string::npos) return all_digits(s);
    std::string l = s.substr(0, p), r = s.substr(p + 1);
    if (l.empty() && r.empty()) return 0;
    if ((!l.empty() && !all_digits(l)) || (!r.empty() && !all_digits(r))) return 0;
    return l.empty() || r.empty() ? 2 : 1;
}
static int is_complex(const std::string& s)
{
    if (is_real(s)) return is_real(s);
    if (s.empty() || s.back() != 'j') return 0;
    std::string t = s.substr(0, s.size() - 1);
    if (is_real(t)) return is_real(t);
    for (std::size_t i = 1; i < t.size(); ++i) // r+i, r-i
    {
        if ((t[i] == '+' || t[i] == '-') && t[i - 1] != 'e' && t[i - 1] != 'E')
        {
            int a = is_real(t.substr(0, i)), b = is_real(t.substr(i));
            if (a && b) return a == 1 && b == 1 ? 1 : 2;
        }
    }
    return 0;
}
static std::string mutate(G& g, std::string s, const char* odd)
{
    int n = 1 + g.below(2), len = int(std::strlen(odd));
    for (int i = 0; i < n; ++i)
    {
        char c = g.chance(1, 5) ? char(g.range(0x21, 0xFE)) : odd[g.below(len)];
        std::size_t p = std::size_t(g.below(int(s.size()) + 1));
        switch (g.below(5))
        {
            case 0: s.insert(p, 1, c); break;
            case 1: s.insert(0, 1, c); break;
            case 2: s += c; break;
            case 3:
                if (p < s.size()) s[p] = c;
                break;
            default: s.erase(p, g.coin() ? 1 : std::string::npos);
        }
    }
    return s;
}

static int small_den(G& g) { return g.coin() ? 1 + g.below(20) : gen_den(g); }

struct FracTok
{
    std::string s;
    Q v;
};
static FracTok gen_frac_token(G& g)
{
    while (true)
    {
        int n = g.any_int(), d = g.coin() ? 1 : small_den(g);
        bool slash = d != 1 || g.chance(1, 4);
        bool neg_den = slash && g.chance(1, 5);
        Q q(n, neg_den ? -wide(d) : wide(d));
        if (!q.fits())
        {
            n /= 2;
            q = Q(n, neg_den ? -wide(d) : wide(d));
        }
        std::string z1(std::size_t(g.pick({6, 1, 1})), '0'), z2(std::size_t(g.pick({6, 1, 1})), '0');
        std::string s = n < 0 ? "-" + z1 + std::to_string(-(long long)n) : (g.chance(1, 4) ? "+" : "") + z1 + std::to_string(n);
        if (slash)
        {
            s += std::string("/") + (neg_den ? "-" : g.chance(1, 5) ? "+" : "") + z2 + std::to_string(d);
        }
        return {s, q};
    }
}

template <typename T, typename Check>
static void read_malformed(G& g, std::istream& is, const std::string& token, T& x, Check describe)
{
    ++g.steps;
    bool rejected = false;
    try
    {
        rejected = !(is >> x);
    }
    catch (const std::runtime_error&)
    {
        rejected = true;
    }
    if (!rejected)
    {
        g.fail("malformed token " + quote(token) + " is accepted as " + describe(x));
    }
    g.label(token[0] == '(' ? "end of input" : "malformed token");
    g.nontrivial();
}

PBT_SUB(fractions, 5)
{
    std::vector<FracTok> t;
    int n = 0;
    while (g.more(n, 8, 3))
    {
        t.push_back(gen_frac_token(g));
        ++n;
    }
    std::string bad;
    bool with_bad = g.coin();
    if (with_bad)
    {
        bad = mutate(g, gen_frac_token(g).s, "/+-.:|jex_0 9\\");
        bad.erase(std::remove(bad.begin(), bad.end(), ' '), bad.end());
        with_bad = !bad.empty() && !is_fraction(bad);
    }
    std::string text = blanks(g, false);
    for (auto& k : t)
    {
        text += k.s + blanks(g, true);
    }
    if (with_bad)
    {
        text += bad + (g.coin() ? blanks(g, true) + "5" : "");
    }
    else if (g.coin()) // no whitespace at the end
    {
        while (!text.empty() && std::strchr(" \n\t\r\v\f", text.back())) text.pop_back();
    }
    g.note("stream ", quote(text));
    g.nontrivial_if(n >= 2);
    std::istringstream is(text);
    Fraction x(77, 13);
    for (std::size_t i = 0; i < t.size(); ++i)
    {
        if (g.chance(1, 6))
        {
            std::string raw;
            is >> raw;
            eqs(g, raw, t[i].s, "token left in the stream");
            continue;
        }
        bool ok;
        try
        {
            ok = bool(is >> x);
        }
        catch (const std::exception& e)
        {
            g.fail("well-formed token " + quote(t[i].s) + " is rejected: " + e.what());
        }
        g.require_f(ok, [&] { return "well-formed token " + quote(t[i].s) + " is rejected"; });
        samef(g, x, t[i].v, "value of a token");
    }
    if (with_bad)
    {
        read_malformed(g, is, bad, x, [](const Fraction& f) { return show(f); });
    }
    else
    {
        read_malformed(g, is, "(end of input)", x, [](const Fraction& f) { return show(f); });
        read_malformed(g, is, "(end of input)", x, [](const Fraction& f) { return show(f); });
    }
}

PBT_SUB(roundtrip, 2)
{
    std::vector<Q> v;
    std::ostringstream os;
    int n = 0;
    while (g.more(n, 6, 3))
    {
        v.push_back(gen_q(g));
        os << frac(v.back()) << (g.coin() ? " " : "\n");
        ++n;
    }
    g.note("stream ", quote(os.str()));
    std::istringstream is(os.str());
    for (auto& q : v)
    {
        Fraction x(5, 3);
        g.require(bool(is >> x), "a printed fraction is read");
        samef(g, x, q, "a printed fraction read back");
    }
    g.nontrivial_if(n >= 2);
}

static std::string gen_real(G& g, bool need_sign)
{
    std::string s = sign(g);
    if (need_sign && s.empty()) s = g.coin() ? "+" : "-";
    s += digits(g, 5);
    if (g.coin()) s += "." + digits(g, 5);
    if (g.chance(1, 4)) s += (g.coin() ? "e" : "E") + sign(g) + digits(g, 1);
    return s;
}
struct CTok
{
    std::string s;
    double re, im;
};
static CTok gen_complex_token(G& g)
{
    switch (g.below(3))
    {
        case 0: { std::string r = gen_real(g, false); return {r, std::strtod(r.c_str(), nullptr), 0}; }
        case 1: { std::string r = gen_real(g, false); return {r + "j", 0, std::strtod(r.c_str(), nullptr)}; }
        default:
        {
            std::string r = gen_real(g, false), i = gen_real(g, true);
            return {r + i + "j", std::strtod(r.c_str(), nullptr), std::strtod(i.c_str(), nullptr)};
        }
    }
}
static std::string show_c(const Complex& c)
{
    std::ostringstream os;
    os.precision(17);
    os << c.real() << " and " << c.imag() << "j";
    return os.str();
}

PBT_SUB(complexes, 5)
{
    std::vector<CTok> t;
    int n = 0;
    while (g.more(n, 8, 3))
    {
        t.push_back(gen_complex_token(g));
        ++n;
    }
    std::string bad;
    bool with_bad = g.coin();
    if (with_bad)
    {
        bad = mutate(g, gen_complex_token(g).s, "j+-.eEix()/0 9");
        bad.erase(std::remove(bad.begin(), bad.end(), ' '), bad.end());
        with_bad = !bad.empty() && is_complex(bad) == 0;
    }
    std::string text = blanks(g, false);
    for (auto& k : t)
    {
        text += k.s + blanks(g, true);
    }
    if (with_bad)
    {
        static const char* follow[] = {"", " 5", " j", "\nj", " +2j", " 2j"};
        text += bad + g.of(follow);
    }
    else if (g.coin())
    {
        while (!text.empty() && std::strchr(" \n\t\r\v\f", text.back())) text.pop_back();
    }
    g.note("stream ", quote(text));
    g.nontrivial_if(n >= 2);
    std::istringstream is(text);
    Complex x(7.5, 2.5);
    for (std::size_t i = 0; i < t.size(); ++i)
    {
        if (g.chance(1, 6))
        {
            std::string raw;
            is >> raw;
            eqs(g, raw, t[i].s, "token left in the stream");
            continue;
        }
        bool ok;
        try
        {
            ok = bool(is >> x);
        }
        catch (const std::exception& e)
        {
            g.fail("well-formed token " + quote(t[i].s) + " is rejected: " + e.what());
        }
        g.require_f(ok, [&] { return "well-formed token " + quote(t[i].s) + " is rejected"; });
        g.require_f(x.real() == t[i].re && x.imag() == t[i].im, [&] { return "token " + quote(t[i].s) + " is read as " + show_c(x); });
    }
    if (with_bad)
    {
        read_malformed(g, is, bad, x, show_c);
    }
    else
    {
        read_malformed(g, is, "(end of input)", x, show_c);
        read_malformed(g, is, "(end of input)", x, show_c);
    }
}

PBT_SUB(empty, 1)
{
    std::string s = blanks(g, g.coin());
    std::istringstream is(s), js(s);
    Fraction x;
    Complex c;
    read_malformed(g, is, "(empty input)", x, [](const Fraction& f) { return show(f); });
    read_malformed(g, js, "(empty input)", c, show_c);
    is.clear();
}

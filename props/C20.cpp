#include "strref.hpp"

static pbt::Config config("C20",
    "well-formed decimals (blanks, sign, up to ~900 digits on either side of the point, leading and trailing zeros, exponents of up to 25 digits), "
    "values around the range of double, mutations, and the spellings of infinity and NaN; non-trivial: has a point or an exponent, or is malformed",
    2400000, 360000);

static bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
// the part between the blanks if s is of the first form
static std::optional<std::string> core(const std::string& s)
{
    std::size_t i = 0, j = s.size();
    while (i < j && blank(s[i])) ++i;
    while (j > i && blank(s[j - 1])) --j;
    std::string t = s.substr(i, j - i);
    std::size_t k = 0, digits = 0;
    auto digit = [&] { return k < t.size() && t[k] >= '0' && t[k] <= '9'; };
    if (k < t.size() && (t[k] == '+' || t[k] == '-')) ++k;
    while (digit()) ++k, ++digits;
    if (k < t.size() && t[k] == '.') ++k;
    while (digit()) ++k, ++digits;
    if (digits == 0) return std::nullopt;
    if (k < t.size() && (t[k] == 'e' || t[k] == 'E'))
    {
        ++k;
        if (k < t.size() && (t[k] == '+' || t[k] == '-')) ++k;
        if (!digit()) return std::nullopt;
        while (digit()) ++k;
    }
    if (k != t.size()) return std::nullopt;
    return t;
}
static std::string lower(std::string s)
{
    for (auto& c : s) if (c >= 'A' && c <= 'Z') c = char(c + 32);
    return s;
}
static void check(G& g, const std::string& s)
{
    auto t = core(s);
    Str x(s);
    if (!t)
    {
        std::string l;
        for (char c : lower(s)) if (!blank(c) && c != '+' && c != '-') l += c;
        if (l == "inf" || l == "infinity" || l == "nan")
        {
            g.label("unspecified spelling of infinity or NaN");
            return;
        }
        g.label("malformed");
        g.nontrivial();
        must_reject(g, [&] { x.to_decimal(); }, "to_decimal of " + quote(s));
    }
    else
    {
        double want = std::strtod(t->c_str(), nullptr), got = x.to_decimal();
        auto what = [&] { std::ostringstream os; os.precision(17); os << "to_decimal of " << quote(s) << ": got " << got << ", want " << want; return os.str(); };
        g.require_f(!std::isnan(got), what);
        const double edge = 1.7976931348e308;
        if (std::isinf(want))
        {
            g.label("overflow");
            g.require_f(got == want || (std::fabs(got) >= edge && (got < 0) == (want < 0)), what);
        }
        else if (std::fabs(want) < 1e-300)
        {
            if (want != 0) g.label("nearly zero");
            g.require_f(std::fabs(got - want) <= 1e-300, what);
        }
        else
        {
            g.require_f(std::fabs(got - want) <= 1e-12 * std::fabs(want) || (std::fabs(want) >= edge && std::isinf(got) && (got < 0) == (want < 0)), what);
        }
        g.nontrivial_if(t->find_first_of(".eE") != std::string::npos);
    }
    sames(g, x, s, "string after to_decimal");
}
static std::string blanks(G& g)
{
    std::string r;
    for (int n = g.pick({6, 2, 1}); n > 0; --n) r += " \t\n\r"[g.below(4)];
    return r;
}
static std::string digits(G& g, int max)
{
    int n = g.length(max, 6);
    std::string s;
    int style = g.pick({6, 1, 1});
    pbt::Rng r(n > 12 ? g.seed64() : 0);
    for (int i = 0; i < n; ++i)
    {
        s += style == 1 ? '0' : style == 2 ? '9' : char('0' + (n > 12 ? int(r.upto(9)) : g.below(10)));
    }
    return s;
}
static std::string sign(G& g)
{
    static const char* signs[] = {"", "-", "+"};
    return g.of(signs);
}
static std::string gen_decimal(G& g, int max)
{
    std::string s = blanks(g) + sign(g);
    std::string l = digits(g, max), r = g.coin() ? digits(g, max) : "";
    bool point = !r.empty() || g.chance(1, 4);
    if (l.empty() && r.empty()) l = "0";
    s += l + (point ? "." : "") + r;
    if (g.coin())
    {
        s += (g.coin() ? "e" : "E") + sign(g);
        switch (g.pick({5, 3, 1, 1}))
        {
            case 0: s += std::to_string(g.below(30)); break;
            case 1: s += std::to_string(g.range(280, 340) + (g.chance(1, 4) ? int(l.size() + r.size()) : 0)); break;
            case 2: s += "00" + std::to_string(g.below(400)); break;
            default:
            {
                static const char* huge[] = {"400", "999", "4000", "65536", "2147483647", "2147483648", "4294967296", "4294967297", "18446744073709551616", "99999999999999999999999"};
                s += g.of(huge);
            }
        }
    }
    return s + blanks(g);
}

PBT_SUB(well_formed, 6)
{
    std::string s = gen_decimal(g, g.chance(1, 10) ? 900 : 25);
    g.note("to_decimal of ", quote(s));
    if (s.size() > 300) g.label("over 300 characters");
    check(g, s);
}

PBT_SUB(mutated, 4)
{
    std::string s = g.chance(1, 12) ? blanks(g) : gen_decimal(g, 5);
    static const char odd[] = {'.', 'e', 'E', '+', '-', ' ', '\t', '\n', '\v', '\f', '\0', 'x', 'p', 'f', 'd', ',', '_', '/', ':', '\x80', '\xb1', 'n', 'i', '5', 'j'};
    for (int k = 1 + g.below(2); k > 0; --k)
    {
        char c = g.chance(1, 5) ? char(g.below(256)) : g.of(odd);
        std::size_t p = std::size_t(g.below(int(s.size()) + 1));
        switch (g.below(4))
        {
            case 0: s.insert(p, 1, c); break;
            case 1: s += c; break;
            case 2: if (p < s.size()) s[p] = c; break;
            default: s.erase(p, 1);
        }
    }
    g.note("to_decimal of ", quote(s));
    check(g, s);
}

PBT_SUB(special, 1)
{
    static const char* inf[] = {"inf", "INF", "Inf", "infinity", "INFINITY", "Infinity"};
    static const char* nan[] = {"nan", "NAN", "NaN"};
    static const char* junk[] = {"infi", "in", "na", "infinityx", "nanx", "+-inf", "inf0", "1inf", "infinit", "i", "n", "nan0", "-+nan", "einf"};
    std::string sg = sign(g);
    switch (g.below(4))
    {
        case 3: // a name that goes on
        {
            static const char more[] = {'\0', '\0', ' ', 'x', '0', '.', '(', 'f', 'n', 'i', '\n', '\t', '-', '\xff', '\x80'};
            std::string s = sg + (g.coin() ? g.of(inf) : g.of(nan));
            if (g.chance(1, 4)) s.insert(std::size_t(g.below(int(s.size()))), 1, g.of(more));
            for (int k = 1 + g.below(3); k > 0; --k) s += g.of(more);
            if (g.chance(1, 4)) s += g.coin() ? "inf" : "5";
            g.note("to_decimal of ", quote(s));
            if (lower(s).find("infinity") != std::string::npos && s.size() <= sg.size() + 8) return;
            check(g, s);
            break;
        }
        case 0:
        {
            std::string s = sg + g.of(inf);
            g.note("to_decimal of ", quote(s));
            double d = Str(s).to_decimal();
            g.require_f(std::isinf(d) && (d < 0) == (sg == "-"), [&] { return "to_decimal of " + quote(s) + " is " + std::to_string(d); });
            break;
        }
        case 1:
        {
            std::string s = sg + g.of(nan);
            g.note("to_decimal of ", quote(s));
            g.require_f(std::isnan(Str(s).to_decimal()), [&] { return "to_decimal of " + quote(s) + " is not NaN"; });
            break;
        }
        default:
        {
            std::string s = sg + g.of(junk);
            g.note("to_decimal of ", quote(s));
            check(g, s);
        }
    }
    g.nontrivial();
}

#include "strref.hpp"
#include "intref.hpp"

static pbt::Config config("C19",
    "well-formed strings for every base (blanks, sign, digits in both cases, leading zeros, up to ~400 digits), mutations of them (digits just "
    "outside the base, characters next to the digit ranges, inner blanks, misplaced signs, bytes), invalid bases; non-trivial: base other "
    "than 10 with at least 2 digits, or a malformed string",
    1500000, 240000);

static const char* BLANK = " \t\n\r";
static int value_of(char c)
{
    return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99;
}
static std::optional<Big> ref_parse(const std::string& s, int base)
{
    std::size_t i = 0, j = s.size();
    auto blank = [](char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; };
    while (i < j && blank(s[i])) ++i;
    while (j > i && blank(s[j - 1])) --j;
    bool neg = false;
    if (i < j && (s[i] == '+' || s[i] == '-')) neg = s[i++] == '-';
    if (i == j) return std::nullopt;
    Big v = 0;
    for (; i < j; ++i)
    {
        int d = value_of(s[i]);
        if (d >= base) return std::nullopt;
        v = v * base + d;
    }
    return neg ? Big(-v) : v;
}
static std::string blanks(G& g)
{
    std::string r;
    for (int n = g.pick({5, 2, 1, 1}); n > 0; --n) r += BLANK[g.below(4)];
    return r;
}
static std::string gen_number(G& g, int base, int max)
{
    static const char* lower = "0123456789abcdefghijklmnopqrstuvwxyz";
    static const char* upper = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";
    std::string s = blanks(g);
    static const char* signs[] = {"", "-", "+"};
    s += g.of(signs);
    int n = g.chance(1, 400) ? g.range(300, 1500) : std::max(1, g.length(max, 10)), style = g.pick({5, 1, 1});
    pbt::Rng r(n > 16 ? g.seed64() : 0);
    for (int i = 0; i < n; ++i)
    {
        int d = style == 1 ? base - 1 : style == 2 ? (i == 0) : n > 16 ? r.range(0, base - 1) : g.below(base);
        s += (n > 16 ? r.upto(1) == 1 : g.coin()) ? upper[d] : lower[d];
    }
    return s + blanks(g);
}
static void check(G& g, const std::string& s, int base)
{
    auto want = ref_parse(s, base);
    Str x(s);
    if (want)
    {
        same(g, x.to_integer(base), *want, "to_integer(base)");
        if (base == 10) same(g, x.to_integer(), *want, "to_integer()");
    }
    else
    {
        g.label("malformed");
        g.nontrivial();
        must_reject(g, [&] { x.to_integer(base); }, "to_integer(" + std::to_string(base) + ") of " + quote(s));
    }
    sames(g, x, s, "string after to_integer");
}

PBT_SUB(well_formed, 6)
{
    int base = g.chance(1, 3) ? 10 : g.range(2, 36);
    std::string s = gen_number(g, base, g.chance(1, 30) ? 400 : 40);
    g.note("to_integer(", base, ") of ", quote(s));
    g.nontrivial_if(base != 10 && s.size() >= 2);
    if (s.size() > 100) g.label("over 100 characters");
    check(g, s, base);
}

PBT_SUB(mutated, 5)
{
    int base = g.chance(1, 3) ? 10 : g.range(2, 36);
    std::string s = g.chance(1, 12) ? blanks(g) : gen_number(g, base, 8);
    static const char odd[] = {'/', ':', '@', '[', '`', '{', ' ', '\t', '\v', '\f', '\0', '.', 'e', 'E', 'x', '_', '+', '-', '\x80', '\xff', '\xb0', ',', 'z', 'Z', '9', '1'};
    for (int k = 1 + g.below(2); k > 0; --k)
    {
        char c = g.chance(1, 5) ? char(g.below(256)) : g.of(odd);
        if (g.chance(1, 4) && base < 36) // first digit outside of the base
        {
            c = "0123456789abcdefghijklmnopqrstuvwxyz"[base];
            if (g.coin() && c >= 'a') c = char(c - 'a' + 'A');
        }
        std::size_t p = std::size_t(g.below(int(s.size()) + 1));
        switch (g.below(4))
        {
            case 0: s.insert(p, 1, c); break;
            case 1: s += c; break;
            case 2: if (p < s.size()) s[p] = c; break;
            default: s.erase(p, 1);
        }
    }
    g.note("to_integer(", base, ") of ", quote(s));
    check(g, s, base);
}

PBT_SUB(every_character, 2)
{
    int base = g.range(2, 36);
    std::string s(1, char(g.below(256)));
    if (g.coin()) s = "1" + s;
    if (g.coin()) s += "0";
    g.note("to_integer(", base, ") of ", quote(s));
    g.nontrivial();
    check(g, s, base);
}

PBT_SUB(bad_base, 1)
{
    int base = g.any_int(40);
    std::string s = gen_number(g, base >= 2 && base <= 36 ? base : 10, 8);
    g.note("to_integer(", base, ") of ", quote(s));
    if (base >= 2 && base <= 36)
    {
        check(g, s, base);
        return;
    }
    g.label("invalid base");
    // also texts which hold no digit that the base could object to
    if (g.chance(1, 4)) s = (g.coin() ? "" : g.coin() ? "+" : " -") + std::string(1 + g.below(3), '0');
    Str x(s);
    must_reject(g, [&] { x.to_integer(base); }, "to_integer with base " + std::to_string(base));
}

#include "strref.hpp"
#include "longtext.hpp"

static pbt::Config config("C16",
    "strings over case boundaries, whitespace and control characters, non-ASCII bytes and all bytes, with leading and trailing runs of the "
    "stripped character; non-trivial: a character changes or is stripped",
    3800000, 600000);

PBT_SUB(letters, 4)
{
    Alphabet a = gen_alphabet(g);
    std::string s = gen_text(g, a, 300, 12);
    std::string lo = s, up = s;
    for (auto& c : lo) if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a');
    for (auto& c : up) if (c >= 'a' && c <= 'z') c = char(c - 'a' + 'A');
    g.note("s = ", quote(s));
    Str x = gen_str_of(g, s);
    sames(g, x.lower(), lo, "lower");
    sames(g, x.upper(), up, "upper");
    sames(g, x.lower().upper(), up, "upper of lower");
    sames(g, x.upper().lower(), lo, "lower of upper");
    sames(g, x, s, "string after case conversion");
    g.nontrivial_if(lo != s || up != s);
}

PBT_SUB(every_byte, 1)
{
    int b = g.below(256);
    std::string s(1 + std::size_t(g.below(3)), char(b));
    std::string lo = s, up = s;
    for (auto& c : lo) if (c >= 'A' && c <= 'Z') c = char(c - 'A' + 'a');
    for (auto& c : up) if (c >= 'a' && c <= 'z') c = char(c - 'a' + 'A');
    g.note("byte ", b);
    g.nontrivial();
    sames(g, Str(s).lower(), lo, "lower");
    sames(g, Str(s).upper(), up, "upper");
    sames(g, Str("x" + s + "y").strip(), "x" + s + "y", "strip of an interior byte");
    sames(g, Str(s + "y" + s).strip(), b <= 0x20 ? "y" : s + "y" + s, "strip");
    for (int c : {b, (b + 1) % 256, b ^ 0x20, b ^ 0x80})
    {
        signed char ch = (signed char)c;
        sames(g, Str(s + "yY" + s).strip(ch), char(c) == char(b) && b != 'y' && b != 'Y' ? "yY" : text(Str(s + "yY" + s).strip(ch)), "strip(c)");
        if (c != b && ch != 'y' && ch != 'Y') sames(g, Str(s + "yY" + s).strip(ch), s + "yY" + s, "strip of another character");
    }
}

PBT_SUB(strip, 4)
{
    Alphabet a = gen_alphabet(g);
    static const std::string ws = std::string("\0\x01\t\n\v\f\r\x1f ", 9);
    auto run = [&](bool blank, char c) {
        std::string r;
        for (int n = g.length(40, 4); n > 0; --n) r += blank ? ws[std::size_t(g.below(int(ws.size())))] : c;
        return r;
    };
    bool blank = g.coin();
    char c = a.one(g);
    if (!blank && g.chance(1, 20)) c = '\xff';
    std::string core = gen_text(g, a, 60);
    std::string s = run(blank, c) + core + run(blank, c);
    g.note("s = ", quote(s), blank ? "" : ", strip of ", blank ? std::string() : quote(std::string(1, c)));
    auto gone = [&](char d) { return blank ? (unsigned char)d <= 0x20 : d == c; };
    std::size_t i = 0, j = s.size();
    while (i < j && gone(s[i])) ++i;
    while (j > i && gone(s[j - 1])) --j;
    std::string want = s.substr(i, j - i);
    Str x = gen_str_of(g, s);
    sames(g, blank ? x.strip() : g.coin() ? x.strip(c) : x.strip((signed char)c), want, "strip");
    sames(g, x, s, "string after strip");
    g.nontrivial_if(want != s);
    if (want.empty() && !s.empty()) g.label("everything stripped");
}

// Short texts as a rule, and once in a while one of up to 140000 characters.
PBT_SUB(large, 1)
{
    const int n = longtext::gen_rare_size(g);
    const longtext::Long l(g, n, g.chance(1, 4));
    l.cases_and_strip(g);
    g.nontrivial_if(n > 1);
}

#include "strref.hpp"
#include "longtext.hpp"

static pbt::Config config("C14",
    "strings over small alphabets (so that patterns overlap and nearly occur), all bytes including NUL, lengths to ~5000 with capacity "
    "boundaries; patterns that are substrings, damaged substrings, prefixes, suffixes, longer or empty; arbitrary ranges including "
    "extreme ints; non-trivial: the pattern is not empty and occurs or occurs outside of the range only",
    2600000, 400000);

PBT_SUB(search, 8)
{
    Alphabet a = gen_alphabet(g);
    std::string s = gen_text(g, a, g.chance(1, 60) ? 5000 : 300), p = gen_pattern(g, a, s);
    const int n = int(s.size());
    Str x = gen_str_of(g, s), y = gen_str_of(g, p);
    int start = g.coin() ? 0 : gen_bound(g, n), stop = g.coin() ? INT32_MAX : gen_bound(g, n);
    g.note("s = ", quote(s), "\np = ", quote(p), "\nrange ", start, ", ", stop);
    int first = ref_find(s, p, 0, n);
    eqs(g, x.find(y), first, "find(p)");
    eqs(g, x.contains(y), first != -1, "contains(p)");
    g.nontrivial_if(!p.empty() && first != -1);
    if (first == -1) g.label("no occurrence");
    if (p.empty()) g.label("empty pattern");
    if (s.find('\0') != std::string::npos) g.label("with zero byte");
    if (n > 255) g.label("over 255 characters");

    // a position lies in [start, stop) whatever the sign of the bounds: one below zero cuts nothing off at the front
    int want = ref_find(s, p, std::max(start, 0), stop);
    eqs(g, x.find(y, start, stop), want, "find(p, start, stop)");
    eqs(g, x.contains(y, start, stop), want != -1, "contains(p, start, stop)");
    if (want != first) g.label("range changes the result");
    if (start < 0 || stop < 0) g.label("negative bound");
    if (p.empty())
    {
        eqs(g, x.count(y), n + 1, "count of the empty pattern");
    }
    else
    {
        int c = 0;
        for (int i = 0; i + int(p.size()) <= n;)
        {
            if (occurs_at(s, p, i))
            {
                ++c;
                i += int(p.size());
            }
            else
            {
                ++i;
            }
        }
        eqs(g, x.count(y), c, "count(p)");
        if (c > 1) g.label("several occurrences");
    }
    eqs(g, x.starts_with(y), occurs_at(s, p, 0), "starts_with(p)");
    eqs(g, x.ends_with(y), occurs_at(s, p, n - (long long)p.size()), "ends_with(p)");
    sames(g, x, s, "string after searching");
    sames(g, y, p, "pattern after searching");
    eqs(g, x.find(x), 0, "a string is found in itself");
    eqs(g, x.count(x), s.empty() ? 1 : 1, "count of itself");
    g.require(x.starts_with(x) && x.ends_with(x) && x.contains(x), "a string is a prefix and suffix of itself");
}

PBT_SUB(dense, 3) // all ranges of a short string
{
    std::string s, p;
    int n = g.below(7), m = g.below(4);
    for (int i = 0; i < n; ++i) s += "ab"[g.below(2)];
    for (int i = 0; i < m; ++i) p += "ab"[g.below(2)];
    Str x(s), y(p);
    g.note("s = ", quote(s), "\np = ", quote(p), "\nall ranges");
    g.nontrivial_if(m > 0 && ref_find(s, p, 0, n) != -1);
    for (int i = 0; i <= n + 2; ++i)
    {
        for (int j = 0; j <= n + 2; ++j)
        {
            eq(g, x.find(y, i, j), ref_find(s, p, i, j), [&] { return "find(p, " + std::to_string(i) + ", " + std::to_string(j) + ")"; });
            eqs(g, x.contains(y, i, j), ref_find(s, p, i, j) != -1, "contains(p, start, stop)");
        }
        eqs(g, x.find(y, i), ref_find(s, p, i, n), "find(p, start)");
    }
}

// Short texts as a rule, and once in a while one of up to 140000 characters.
PBT_SUB(large, 1)
{
    const int n = longtext::gen_rare_size(g);
    const longtext::Long l(g, n, g.chance(1, 4));
    l.searched(g);
    g.nontrivial_if(n > 1);
}

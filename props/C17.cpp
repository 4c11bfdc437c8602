#include "strref.hpp"
#include "longtext.hpp"

static pbt::Config config("C17",
    "strings over small alphabets, separators and patterns that occur, overlap, touch the ends or are empty, replacements that contain the "
    "pattern or zero bytes, lists of pieces; non-trivial: the separator or pattern occurs at least once",
    1700000, 260000);

static std::string show_list(const std::vector<std::string>& v)
{
    std::string r = "[";
    for (auto& e : v) r += quote(e) + " ";
    return r + "]";
}
static std::vector<std::string> texts(const pyincpp::List<Str>& l)
{
    std::vector<std::string> r;
    for (auto& e : l) r.push_back(text(e));
    return r;
}

PBT_SUB(split, 5)
{
    Alphabet a = gen_alphabet(g);
    std::string s = gen_text(g, a, g.chance(1, 50) ? 3000 : 200, 10), sep = gen_pattern(g, a, s);
    Str x = gen_str_of(g, s), y = gen_str_of(g, sep);
    g.note("s = ", quote(s), "\nsep = ", quote(sep));
    if (sep.empty())
    {
        g.label("empty separator");
        must_reject(g, [&] { x.split(y); }, "split by the empty string");
        must_reject(g, [&] { x.split(y, true); }, "split by the empty string");
        sames(g, x, s, "string after the rejected split");
        return;
    }
    auto keep = ref_split(s, sep, true), drop = ref_split(s, sep, false);
    g.nontrivial_if(keep.size() > 1);
    if (keep.size() != drop.size()) g.label("empty pieces");
    auto k = x.split(y, true), d = x.split(y), d2 = x.split(y, false);
    eqs(g, show_list(texts(k)), show_list(keep), "split(sep, true)");
    eqs(g, show_list(texts(d)), show_list(drop), "split(sep)");
    eqs(g, show_list(texts(d2)), show_list(drop), "split(sep, false)");
    eqs(g, k.size(), int(keep.size()), "number of pieces");
    sames(g, y.join(k), s, "sep.join(s.split(sep, true))");
    sames(g, x, s, "string after split");
    sames(g, y, sep, "separator after split");
    if (sep == " ")
    {
        eqs(g, show_list(texts(x.split())), show_list(drop), "split()");
    }
    if (!s.empty())
    {
        auto self = x.split(x, true);
        eqs(g, show_list(texts(self)), std::string("[\"\" \"\" ]"), "split by itself");
    }
}

PBT_SUB(default_split, 1)
{
    std::string s = gen_text(g, {"a b"}, 100, 10);
    g.note("s = ", quote(s));
    eqs(g, show_list(texts(Str(s).split())), show_list(ref_split(s, " ", false)), "split()");
    g.nontrivial_if(s.find(' ') != std::string::npos);
}

PBT_SUB(join, 3)
{
    Alphabet a = gen_alphabet(g);
    std::string sep = gen_text(g, a, 20, 3);
    std::vector<std::string> pieces;
    pyincpp::List<Str> list;
    int n = 0;
    while (g.more(n, 20, 5))
    {
        pieces.push_back(gen_text(g, a, 30, 4));
        list += Str(pieces.back());
        ++n;
    }
    g.note("sep = ", quote(sep), ", pieces ", show_list(pieces));
    std::string want;
    for (std::size_t i = 0; i < pieces.size(); ++i)
    {
        want += (i ? sep : std::string()) + pieces[i];
    }
    Str y = gen_str_of(g, sep);
    sames(g, y.join(list), want, "join");
    sames(g, y, sep, "separator after join");
    eqs(g, show_list(texts(list)), show_list(pieces), "pieces after join");
    g.nontrivial_if(n >= 2);
}

PBT_SUB(replace, 5)
{
    Alphabet a = gen_alphabet(g);
    std::string s = gen_text(g, a, g.chance(1, 50) ? 3000 : 200, 10), from = gen_pattern(g, a, s), to;
    switch (g.below(5))
    {
        case 0: to = ""; break;
        case 1: to = from + from; break;
        case 2: to = gen_text(g, a, 30, 3) + from + gen_text(g, a, 30, 2); break;
        case 3: to = from.substr(0, from.size() / 2); break;
        default: to = gen_text(g, a, 30, 4);
    }
    g.note("s = ", quote(s), "\nreplace ", quote(from), " by ", quote(to));
    Str x = gen_str_of(g, s), f = gen_str_of(g, from), t = gen_str_of(g, to);
    std::string want = ref_replace(s, from, to);
    sames(g, x.replace(f, t), want, "replace");
    sames(g, x, s, "string after replace");
    sames(g, f, from, "pattern after replace");
    sames(g, t, to, "replacement after replace");
    sames(g, x.replace(f, f), s.empty() && from.empty() ? "" : ref_replace(s, from, from), "replace by the pattern itself");
    sames(g, x.replace(x, t), ref_replace(s, s, to), "replace of the whole string");
    sames(g, x.replace(f, x), ref_replace(s, from, s), "replace by the string itself");
    g.nontrivial_if(ref_find(s, from, 0, (long long)s.size()) != -1);
    if (from.empty()) g.label("empty pattern");
}

// Short texts as a rule, and once in a while one of up to 140000 characters.
PBT_SUB(large, 1)
{
    const int n = longtext::gen_rare_size(g);
    const longtext::Long l(g, n, g.chance(1, 4));
    l.split_and_replaced(g);
    g.nontrivial_if(n > 1);
}

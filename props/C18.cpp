#include "strref.hpp"
#include "longtext.hpp"
#include "fraction.hpp"
#include "dict.hpp"

static pbt::Config config("C18",
    "templates over braces and text (nested, unbalanced, reversed, adjacent, filled placeholders, zero bytes) with 0 to 6 arguments whose "
    "printed form may contain braces, plus arguments of the library's and the built-in types; non-trivial: at least one placeholder "
    "and one argument",
    2400000, 360000);

struct Arg
{
    std::string s;
    friend std::ostream& operator<<(std::ostream& os, const Arg& a) { return os << a.s; }
};

static std::string ref_format(const std::string& s, const std::vector<std::string>& args)
{
    std::string out;
    std::size_t pos = 0;
    for (auto& a : args)
    {
        std::size_t o = pos;
        while (o < s.size() && s[o] != '{') ++o;
        std::size_t c = o + 1;
        while (c < s.size() && s[c] != '}') ++c;
        if (o >= s.size() || c >= s.size())
        {
            break;
        }
        out.append(s, pos, o - pos);
        out += a;
        pos = c + 1;
    }
    return out + s.substr(pos);
}
static std::string gen_template(G& g)
{
    static const char* parts[] = {"{}", "{", "}", "a", " ", "{0}", "}{", "{{}}", "text", "{ }", "%d", "\""};
    std::string s;
    if (g.chance(1, 5))
    {
        return gen_text(g, {std::string("{}{}ab\0\x80", 8)}, 100, 12);
    }
    int n = 0;
    while (g.more(n, 16, 6))
    {
        s += g.of(parts);
        ++n;
    }
    if (g.chance(1, 20))
    {
        s.insert(std::size_t(g.below(int(s.size()) + 1)), gen_text(g, {"ab{}"}, 600));
    }
    return s;
}
static void count(G& g, const std::string& s, std::size_t args)
{
    std::size_t n = 0, p = 0;
    while ((p = s.find('{', p)) != std::string::npos && (p = s.find('}', p)) != std::string::npos) ++n;
    g.nontrivial_if(n > 0 && args > 0);
    if (n > args) g.label("more placeholders than arguments");
    if (n < args) g.label("more arguments than placeholders");
}

PBT_SUB(text_arguments, 6)
{
    std::string s = gen_template(g);
    int n = g.below(7);
    std::vector<std::string> v;
    std::vector<Arg> a(6);
    for (int i = 0; i < n; ++i)
    {
        static const char* vals[] = {"", "x", "{}", "{", "}", "value", "}{", "{0}", "\"q\""};
        v.push_back(g.chance(1, 6) ? gen_text(g, {"ab{}"}, 60) : std::string(g.of(vals)));
        a[std::size_t(i)].s = v.back();
    }
    std::string shown;
    for (auto& e : v) shown += quote(e) + " ";
    g.note("template ", quote(s), "\narguments ", shown);
    count(g, s, v.size());
    Str x = gen_str_of(g, s);
    Str r = n == 0   ? x.format()
            : n == 1 ? x.format(a[0])
            : n == 2 ? x.format(a[0], a[1])
            : n == 3 ? x.format(a[0], a[1], a[2])
            : n == 4 ? x.format(a[0], a[1], a[2], a[3])
            : n == 5 ? x.format(a[0], a[1], a[2], a[3], a[4])
                     : x.format(a[0], a[1], a[2], a[3], a[4], a[5]);
    sames(g, r, ref_format(s, v), "format");
    sames(g, x, s, "template after format");
}

// arguments of user types: printing them formats other strings, changes the state of the stream it is given, or fails
struct Nested { int depth; int v; };
static std::ostream& operator<<(std::ostream& os, const Nested& n)
{
    const Str inner = n.depth > 0 ? Str("<{}|{}>").format(Nested{n.depth - 1, n.v}, n.v) : Str("[{}]").format(n.v);
    return os << std::string(inner.begin(), inner.end());
}
struct Careless { int v; };
static std::ostream& operator<<(std::ostream& os, const Careless& c) { return os << std::hex << std::showbase << std::setprecision(2) << std::boolalpha << std::setfill('#') << c.v; }
struct Failing {};
static std::ostream& operator<<(std::ostream& os, const Failing&)
{
    os << "half";
    throw 5;
}

PBT_SUB(user_arguments, 2)
{
    const std::string s = gen_template(g);
    const int v = g.range(0, 300), depth = g.below(4);
    std::string nested = "[" + std::to_string(v) + "]";
    for (int i = 0; i < depth; ++i) nested = "<" + nested + "|" + std::to_string(v) + ">";
    g.note("template ", quote(s), " with arguments of user types, depth ", depth);
    count(g, s, 3);
    const Str x = gen_str_of(g, s);
    const std::vector<std::string> want = {std::to_string(v), nested, "7"};
    auto plain = [&](const char* what) { sames(g, x.format(v, Nested{depth, v}, 7), ref_format(s, want), what); };
    if (g.coin()) plain("format with an argument that formats");
    sames(g, x.format(Nested{depth, v}, Nested{depth, v}), ref_format(s, {nested, nested}), "format with two arguments that format");
    if (g.coin())
    {
        std::ostringstream o;
        o << Careless{v};
        sames(g, x.format("a", Careless{v}), ref_format(s, {"a", o.str()}), "format with an argument that changes the stream");
        const std::vector<std::string> w = {"12", "2.71828", "1"};
        sames(g, x.format(12, 2.71828, true), ref_format(s, w), "format after one whose argument changed the stream");
    }
    if (g.coin())
    {
        try { (void)x.format("a", Failing(), "b"); } catch (int) {}
        plain("format after one whose argument failed");
    }
    sames(g, x, s, "template after format");
}

PBT_SUB(typed_arguments, 3)
{
    std::string s = gen_template(g);
    int i = g.any_int();
    long long big = (long long)g.seed64();
    Str t(gen_text(g, {"ab{}"}, 20, 3));
    pyincpp::Int z(std::to_string(big).c_str());
    pyincpp::Fraction f(g.range(-20, 20), 1 + g.below(9));
    pyincpp::List<int> l = {g.range(0, 9), g.range(0, 9)};
    pyincpp::Dict<int, Str> d = {{1, t}};
    const char* c = "{lit}";
    std::string st = "std {}";
    double dv = g.range(-64, 64) / 8.0;
    char ch = "x{}"[g.below(3)];
    g.note("template ", quote(s), " with typed arguments");
    Str x(s);
    std::vector<std::string> v1 = {show(i), show(t), show(z), show(f)}, v2 = {show(l), show(d), c, st}, v3 = {show(dv), std::string(1, ch), show(big), show(true)};
    count(g, s, 4);
    sames(g, x.format(i, t, z, f), ref_format(s, v1), "format(int, Str, Int, Fraction)");
    sames(g, x.format(l, d, c, st), ref_format(s, v2), "format(List, Dict, const char*, string)");
    sames(g, x.format(dv, ch, big, true), ref_format(s, v3), "format(double, char, long long, bool)");
    sames(g, x.format(x, x), ref_format(s, {show(x), show(x)}), "format with itself");
    sames(g, x, s, "template after format");
}

// Short texts as a rule, and once in a while one of up to 140000 characters.
PBT_SUB(large, 1)
{
    const int n = longtext::gen_rare_size(g);
    const longtext::Long l(g, n, g.chance(1, 4));
    l.formatted(g);
    g.nontrivial_if(n > 1);
}

// Text as the interchange format: what is printed reads back as the same value, through
// streams with mixed contents, through Str parsing and through the parts of printed containers.
#include "compose.hpp"
#include <variant>
using pyincpp::Complex;
using pyincpp::Deque;
using pyincpp::Dict;
using pyincpp::Fraction;
using pyincpp::Int;
using pyincpp::List;
using pyincpp::Set;
using pyincpp::Str;

static pbt::Config config("C37", "a case counts if at least one value other than zero or an empty text makes the round trip", 300000, 60000);

static std::string text(const Str& s) { return std::string(s.begin(), s.end()); }
static long long position(std::istream& in) { return in.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in); }

static std::string gap(G& g)
{
    static const char* const gaps[] = {" ", "\n", "\t", "  ", "\r\n", " \n\t"};
    return g.of(gaps);
}
static std::string bare(const Complex& z) // without the parentheses
{
    return text(Str(show(z)).slice(1, -1));
}

// ---------------------------------------------------------------- values of all types on one stream

typedef std::variant<Num, Frac, Cplx, std::string, int, Raw> Item;

template <typename M>
static void read_value(G& g, std::istream& in, const M& m)
{
    typedef typename Lib<M>::type T;
    const T want = Lib<M>::to(m);
    T got = Lib<M>::to(Lib<M>::gen(g)); // any old value
    g.require_f(bool(in >> got), [&] { return std::string("reading back ") + quote(printed(m)) + " fails"; });
    if (!(got == want) || show(got) != show(want))
    {
        g.fail(std::string("read back ") + quote(show(got)) + ", printed was " + quote(printed(m)));
    }
    ++g.steps;
}

PBT_SUB(mixed_stream, 5)
{
    std::vector<Item> items;
    std::vector<long long> ends; // where the value ends
    std::ostringstream out;
    bool something = false;
    while (g.more(int(items.size()), 12, 5))
    {
        std::string sep = items.empty() && g.coin() ? "" : gap(g);
        const int kind = g.below(6);
        out << sep;
        switch (kind)
        {
            case 0:
            {
                Num m = Lib<Num>::gen(g);
                out << Lib<Num>::to(m);
                something = something || m.digits != "0";
                items.push_back(m);
                break;
            }
            case 1:
            {
                Frac m = Lib<Frac>::gen(g);
                out << Lib<Frac>::to(m);
                something = something || m.n;
                items.push_back(m);
                break;
            }
            case 2:
            {
                Cplx m{g.range(-4000, 4000) / 4.0, g.range(-4000, 4000) / 4.0}; // six digits are enough
                auto wide = [&] { return std::strtod((std::to_string(g.range(-999999, 999999)) + "e" + std::to_string(g.range(-40, 40))).c_str(), nullptr); };
                if (g.chance(1, 4)) m.im = wide(); // printed with an exponent
                if (g.chance(1, 4)) m.re = wide();
                if (g.chance(1, 4)) m.im = 0;
                if (g.chance(1, 4)) m.re = 0;
                if (m.re == 0) m.re = 0; // no negative zero
                out << bare(Lib<Cplx>::to(m));
                something = something || m.re != 0;
                items.push_back(m);
                break;
            }
            case 3: // a line of its own
            {
                std::string line = "x";
                for (int k = g.length(30, 5); k > 0; --k) line += "ab 1/+-j,\t"[g.below(10)];
                out << "\n" << line << "\n";
                items.push_back(line);
                something = true;
                break;
            }
            case 4:
            {
                int v = g.any_int();
                out << v;
                items.push_back(v);
                break;
            }
            default:
            {
                std::string word = "w";
                for (int k = g.below(5); k > 0; --k) word += "ab1/+-j"[g.below(7)];
                out << word;
                items.push_back(Raw{word});
                break;
            }
        }
        ends.push_back((long long)out.tellp());
    }
    if (g.coin())
    {
        out << gap(g);
    }
    g.note("stream ", quote(out.str()));
    std::istringstream in(out.str());
    for (std::size_t k = 0; k < items.size(); ++k)
    {
        in.clear();
        const Item& m = items[k];
        if (auto p = std::get_if<Num>(&m)) read_value(g, in, *p);
        if (auto p = std::get_if<Frac>(&m)) read_value(g, in, *p);
        if (auto p = std::get_if<Cplx>(&m)) read_value(g, in, *p);
        if (auto p = std::get_if<std::string>(&m))
        {
            while (in.peek() <= 0x20) in.get();
            Str s("old");
            g.require(bool(in >> s), "reading the line back fails");
            eqs(g, quote(text(s)), quote(*p), "the line read back");
        }
        if (auto p = std::get_if<int>(&m))
        {
            int v = 0;
            g.require(bool(in >> v) && v == *p, "the int between the values is not there any more");
        }
        if (auto p = std::get_if<Raw>(&m))
        {
            std::string w;
            g.require(bool(in >> w) && w == p->s, "the word between the values is not there any more");
        }
        in.clear();
        g.require_f(position(in) == ends[k], [&] { return "after value " + std::to_string(k) + " the stream is at " + std::to_string(position(in)) + " and not at the end of the value, " + std::to_string(ends[k]); });
    }
    g.nontrivial_if(something);
    g.label(items.size() < 2 ? "up to one value" : "several values on one stream");
}

// ---------------------------------------------------------------- single values

PBT_SUB(ints, 3)
{
    const Num m = Lib<Num>::gen(g);
    const Int x = Lib<Num>::to(m);
    g.note("integer ", m.str());
    g.nontrivial_if(m.digits != "0");
    const std::string t = show(x);
    eqs(g, t, m.str(), "the printed integer");
    eqs(g, Int(t.c_str()), x, "Int of the printed text");
    eqs(g, Str(t).to_integer(), x, "to_integer of the printed text");
    eqs(g, Str(t).to_integer(10), x, "to_integer(10) of the printed text");
    eqs(g, Str("{}").format(x), Str(t), "format of the integer");
    eqs(g, (Str(" \t") + Str(t) + Str("\n ")).to_integer(), x, "to_integer of the text between blanks");
    // digits in another base, computed with the integer itself
    const int base = g.range(2, 36);
    std::string digits;
    Int rest = x.abs();
    while (!rest.is_zero() && digits.size() < 400)
    {
        int d = (rest % Int(base)).to_integer<int>();
        g.require(d >= 0 && d < base, "remainder is a digit");
        digits.insert(digits.begin(), (g.coin() ? "0123456789abcdefghijklmnopqrstuvwxyz" : "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ")[d]);
        rest /= Int(base);
    }
    if (digits.empty())
    {
        digits = "0";
    }
    g.note("in base ", base, ": ", digits);
    eqs(g, Str((m.negative ? "-" : "") + digits).to_integer(base), x, "to_integer of the digits in another base");
    if (m.digits.size() <= 15)
    {
        eqs(g, Str(t).to_decimal(), double(std::stoll(m.str())), "to_decimal of the printed integer");
        eqs(g, x.to_integer<long long>(), std::stoll(m.str()), "to_integer<long long>");
    }
    g.label("integer");
}

PBT_SUB(fractions, 2)
{
    const Frac m = Lib<Frac>::gen(g);
    const Fraction x = Lib<Frac>::to(m);
    g.note("fraction ", m.n, "/", m.d);
    g.nontrivial_if(m.n != 0);
    const List<Str> parts = Str(show(x)).split("/");
    g.require(parts.size() == (m.d == 1 ? 1 : 2), "the printed fraction has its parts");
    const int n = parts[0].to_integer().to_integer<int>(), d = parts.size() == 2 ? parts[1].to_integer().to_integer<int>() : 1;
    g.require(n == m.n && d == m.d, "the parts of the printed fraction");
    eqs(g, Fraction(n, d), x, "the fraction of its printed parts");
    // an unreduced spelling is the same value
    long long k = 1 + g.below(9);
    if (n * k <= INT_MAX && n * k >= -INT_MAX && d * k <= INT_MAX)
    {
        std::istringstream in(std::to_string(n * k) + "/" + std::to_string(d * k));
        Fraction y(7, 3);
        in >> y;
        eqs(g, y, x, "the fraction read in an unreduced spelling");
        eqs(g, show(y), show(x), "how it prints");
    }
    g.label("fraction");
}

PBT_SUB(decimals, 2)
{
    double v = g.coin() ? g.range(-1000000, 1000000) / 1024.0 : double(g.lrange(-1ll << 52, 1ll << 52)) * std::pow(2.0, g.range(-60, 10));
    const int precision = g.range(1, 17);
    std::ostringstream os;
    os.precision(precision);
    int style = g.below(3);
    if (style == 1) os << std::scientific;
    if (style == 2) os << std::fixed;
    os << v;
    g.note("text ", os.str());
    g.nontrivial_if(v != 0);
    const double want = std::strtod(os.str().c_str(), nullptr), got = Str(os.str()).to_decimal();
    g.require_f(std::fabs(got - want) <= 1e-12 * std::fabs(want), [&] { return "to_decimal of " + quote(os.str()) + " is " + std::to_string(got); });
    g.label("double");
}

// ---------------------------------------------------------------- parts of printed containers

static Str inside(const std::string& s) { return s.size() > 2 ? Str(s).slice(1, -1) : Str(); }

template <typename C>
static List<Str> shown(const C& c)
{
    List<Str> r;
    for (const auto& e : c)
    {
        r += Str(show(e));
    }
    return r;
}
template <typename C>
static void sequence(G& g, const C& c, const char* brackets, const char* name)
{
    const std::string t = show(c);
    eqs(g, t, std::string(1, brackets[0]) + text(Str(", ").join(shown(c))) + brackets[1], name);
    const List<Str> parts = inside(t).split(", ", true);
    if (c.is_empty())
    {
        eqs(g, t, std::string(brackets), "the empty container");
        return;
    }
    g.require_f(parts.size() == c.size(), [&] { return std::string(name) + " printed as " + quote(t) + " does not split into its elements"; });
    C back;
    int k = 0;
    for (const auto& e : c)
    {
        eqs(g, parts[k].to_integer(), e, "element of the printed container");
        ++k;
    }
}

PBT_SUB(containers, 3)
{
    auto m = Lib<std::vector<Num>>::gen(g);
    const List<Int> l = Lib<std::vector<Num>>::to(m);
    g.nontrivial_if(!m.empty());
    g.note("list ", show(l));
    sequence(g, l, "[]", "List");
    sequence(g, Deque<Int>(l.begin(), l.end()), "<>", "Deque");
    const Set<Int> s(l.begin(), l.end());
    sequence(g, s, "{}", "Set");
    Dict<Int, Int> d;
    int k = 0;
    for (const auto& e : l)
    {
        d.add(e, Int(k++));
    }
    const std::string t = show(d);
    if (!d.is_empty())
    {
        Dict<Int, Int> back;
        for (const auto& part : inside(t).split(", "))
        {
            const List<Str> kv = part.split(": ");
            g.require(kv.size() == 2, "an entry of the printed Dict is key: value");
            back.add(kv[0].to_integer(), kv[1].to_integer());
        }
        eqs(g, back, d, "the Dict read back from its printed form");
    }
    else
    {
        eqs(g, t, std::string("{}"), "the empty Dict");
    }
    // through one container after the other
    List<Int> sorted(s.begin(), s.end());
    List<Int> same = l;
    same.sort();
    same.uniquify();
    eqs(g, sorted, same, "the elements of the Set and of the sorted List without duplicates");
    eqs(g, d.keys(), s, "the keys of the Dict and the Set");
    g.label("container");
}

PBT_SUB(joined_text, 2)
{
    // texts without the separator survive join and split
    static const char* const seps[] = {",", ", ", "--", "; ", "|"};
    const std::string sep = g.of(seps);
    List<Str> l;
    bool some = false;
    std::string all;
    while (g.more(l.size(), 20, 6))
    {
        std::string s;
        for (int k = g.length(60, 5); k > 0; --k) s += "abc \t0"[g.below(6)];
        all += (l.size() ? sep : "") + s;
        l += Str(s);
        some = some || !s.empty();
    }
    g.note("list ", show(l), " separator ", sep);
    g.nontrivial_if(some);
    const Str joined = Str(sep).join(l);
    eqs(g, text(joined), all, "join");
    if (l.size() && !(l.size() == 1 && l[0].is_empty()))
    {
        eqs(g, joined.split(Str(sep), true), l, "split of the joined text");
    }
    eqs(g, Str(sep).join(joined.split(Str(sep), true)), joined, "join of the split text");
    std::istringstream in(all + "\n" + all);
    Str a, b;
    in >> a >> b;
    g.require(a == joined && b == joined, "the joined text read as a line");
    g.label("joined text");
}

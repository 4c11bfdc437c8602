#include "compose.hpp"

static pbt::Config config("C29",
    "values of every printable type and of 22 nested compositions up to depth 4, printed alone, repeatedly, between other output, into streams "
    "with generated fill character, adjustment, precision, float format and boolalpha flags; the reference prints plain models; "
    "non-trivial: the printed form has at least 5 characters",
    900000, 90000);

struct StreamState
{
    char fill;
    std::ios::fmtflags flags;
    std::streamsize precision;
    std::streamsize width;
};
static StreamState state_of(const std::ostream& os) { return {os.fill(), os.flags(), os.precision(), os.width()}; }

static void set_up(G& g, std::ostream& os) // state that does not change how integers are written
{
    if (g.coin()) return;
    os.fill("*0# x_"[g.below(6)]);
    switch (g.below(4))
    {
        case 0: break;
        case 1: os << std::left; break;
        case 2: os << std::internal; break;
        default: os << std::right;
    }
    if (g.chance(1, 3)) os << std::boolalpha;
    if (g.chance(1, 3)) os << std::setprecision(g.below(12));
    switch (g.below(6))
    {
        case 0: os << std::fixed; break;
        case 1: os << std::scientific; break;
        default: break;
    }
}

// Flags that do change how numbers are written: what the value looks like under them is not specified here, but the stream
// comes back as it was, and what is printed next looks as it does without the value in between.
template <typename V>
static void under_any_flags(G& g, const V& v)
{
    std::ostringstream os, ref;
    set_up(g, os);
    if (g.coin()) os << std::showpos;
    if (g.coin()) os << std::showbase;
    if (g.coin()) os << std::showpoint;
    if (g.coin()) os << std::uppercase;
    if (g.chance(1, 4)) os << std::unitbuf;
    switch (g.below(4))
    {
        case 0: os << std::hex; break;
        case 1: os << std::oct; break;
        case 2: os.unsetf(std::ios::basefield); break;
        default: break;
    }
    ref.copyfmt(os);
    g.note("stream flags ", int(os.flags()));
    const StreamState before = state_of(os);
    os << v;
    const StreamState after = state_of(os);
    g.require(after.flags == before.flags, "the stream's flags changed");
    g.require(after.fill == before.fill, "the stream's fill character changed");
    g.require(after.precision == before.precision, "the stream's precision changed");
    g.require(after.width == 0, "the stream's width is set");
    g.require(os.good() && os.exceptions() == std::ios::goodbit, "the stream's state changed");
    const std::size_t n = os.str().size();
    auto tail = [](std::ostream& o) { o << std::setw(9) << 42 << '|' << std::setw(12) << 2.5 << '|' << true << '|' << std::setw(6) << "ab" << '|' << -7 << '|' << 1e10 << '|' << 255; };
    tail(os);
    tail(ref);
    eqs(g, quote(os.str().substr(n)), quote(ref.str()), "output after the printed value");
    os.copyfmt(std::ios(nullptr));
    os.str("");
    os << v;
    std::ostringstream plain;
    plain << v;
    eqs(g, quote(os.str()), quote(plain.str()), "printed form after the flags are reset");
}

template <typename M>
static void one(G& g)
{
    M m = Lib<M>::gen(g);
    const auto v = Lib<M>::to(m);
    const auto same = Lib<M>::to(m);
    if (g.chance(1, 4)) under_any_flags(g, v);
    std::ostringstream os, ref;
    set_up(g, os);
    ref.copyfmt(os);
    g.note(Lib<M>::name(), " ", quote(printed(m)), os.fill() == ' ' ? "" : ", fill ", os.fill() == ' ' ? "" : std::string(1, os.fill()), ", flags ", int(os.flags()), ", precision ",
           os.precision());
    const StreamState before = state_of(os);
    std::ostream& ret = os << v;
    g.require(&ret == &os, "operator<< returns the stream");
    Lib<M>::print(ref, m);
    eqs(g, quote(os.str()), quote(ref.str()), "printed form");
    g.nontrivial_if(ref.str().size() >= 5);
    const StreamState after = state_of(os);
    g.require(after.fill == before.fill, "the stream's fill character changed");
    g.require(after.flags == before.flags, "the stream's flags changed");
    g.require(after.precision == before.precision, "the stream's precision changed");
    g.require(after.width == 0, "the stream's width is set");
    g.require(os.good() && os.exceptions() == std::ios::goodbit, "the stream's state changed");
    // what follows looks as without it
    auto tail = [](std::ostream& o) { o << std::setw(9) << 42 << '|' << std::setw(12) << 2.5 << '|' << true << '|' << std::setw(6) << "ab" << '|' << -7 << '|' << 1e10; };
    tail(os);
    tail(ref);
    eqs(g, quote(os.str()), quote(ref.str()), "output after the printed value");
    os << v;
    Lib<M>::print(ref, m);
    eqs(g, quote(os.str()), quote(ref.str()), "second print");
    g.require(v == same, "printing does not change the value");
}

typedef std::vector<int> VI;
PBT_SUB(ints, 3) { one<Num>(g); }
PBT_SUB(strs, 1) { one<std::string>(g); }
PBT_SUB(fractions, 1) { one<Frac>(g); }
PBT_SUB(complexes, 2) { one<Cplx>(g); }
PBT_SUB(lists, 2) { one<std::vector<int>>(g); }
PBT_SUB(lists_of_int, 2) { one<std::vector<Num>>(g); }
PBT_SUB(lists_of_strings, 1) { one<std::vector<Raw>>(g); }
PBT_SUB(lists_of_doubles, 1) { one<std::vector<double>>(g); }
PBT_SUB(lists_of_lists, 2) { one<std::vector<std::vector<std::string>>>(g); }
PBT_SUB(sets, 1) { one<std::set<int>>(g); }
PBT_SUB(sets_of_ints, 1) { one<std::set<Num>>(g); }
PBT_SUB(sets_of_lists, 1) { one<std::set<VI>>(g); }
PBT_SUB(sets_of_fractions, 1) { one<std::set<Frac>>(g); }
PBT_SUB(dicts, 2) { one<std::map<std::string, int>>(g); }
PBT_SUB(dicts_of_compositions, 2) { one<std::map<Num, std::vector<std::set<std::string>>>>(g); }
PBT_SUB(dicts_of_dicts, 2) { one<std::map<int, std::map<std::string, std::deque<Cplx>>>>(g); }
PBT_SUB(deques, 1) { one<std::deque<int>>(g); }
PBT_SUB(deques_of_nested, 1) { one<std::deque<std::vector<Frac>>>(g); }
PBT_SUB(tuples, 2) { one<std::tuple<int, std::string, Num, Cplx>>(g); }
PBT_SUB(singles, 1) { one<std::tuple<std::vector<std::tuple<Num>>>>(g); }
PBT_SUB(empties, 1) { one<std::tuple<>>(g); }
PBT_SUB(deep, 3) { one<std::vector<std::map<std::string, std::tuple<std::set<Num>, std::deque<std::vector<char>>>>>>(g); }

// containers of thousands of elements
PBT_SUB(long_containers, 1)
{
    const int n = g.chance(1, 3) ? g.below(70) : g.coin() ? (1 << g.range(7, 12)) + g.range(-2, 2) : g.range(100, 5000);
    pbt::Rng r(g.seed64());
    std::vector<int> v((std::size_t)n);
    for (auto& e : v) e = int(r.upto(99999)) - 50000;
    const int kind = g.below(6);
    g.note("container ", kind, " of ", n, " elements");
    auto joined = [&](const auto& c, char open, char close, auto text) {
        std::string s(1, open);
        bool first = true;
        for (const auto& e : c)
        {
            if (!first) s += ", ";
            first = false;
            s += text(e);
        }
        return s + close;
    };
    auto number = [](int e) { return std::to_string(e); };
    std::string got, want;
    switch (kind)
    {
        case 0: got = show(pyincpp::List<int>(v)); want = joined(v, '[', ']', number); break;
        case 1: got = show(pyincpp::Deque<int>(v.begin(), v.end())); want = joined(v, '<', '>', number); break;
        case 2:
        {
            const std::set<int> s(v.begin(), v.end());
            got = show(pyincpp::Set<int>(v.begin(), v.end()));
            want = joined(s, '{', '}', number);
            break;
        }
        case 3:
        {
            pyincpp::Dict<int, pyincpp::Int> d;
            std::map<int, int> m;
            for (int e : v) d.add(e, pyincpp::Int(e / 7)), m.insert({e, e / 7});
            got = show(d);
            want = joined(m, '{', '}', [](const auto& p) { return std::to_string(p.first) + ": " + std::to_string(p.second); });
            break;
        }
        case 4:
        {
            pyincpp::List<pyincpp::Str> l;
            for (int e : v) l += pyincpp::Str(std::to_string(e));
            got = show(l);
            want = joined(v, '[', ']', [](int e) { return '"' + std::to_string(e) + '"'; });
            break;
        }
        default:
        {
            pyincpp::List<pyincpp::List<int>> l;
            for (int e : v) l += pyincpp::List<int>{e};
            got = show(l);
            want = joined(v, '[', ']', [](int e) { return '[' + std::to_string(e) + ']'; });
        }
    }
    ++g.steps;
    g.nontrivial_if(n > 1);
    if (got != want)
    {
        std::size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
        g.fail("printed form of " + std::to_string(n) + " elements: first difference at character " + std::to_string(i) + ": got " + quote(got.substr(i, 40)) + ", want " + quote(want.substr(i, 40)));
    }
    if (n > 100) g.label("more than 100 elements");
}

#include "hugeref.hpp"

static pbt::Config config("C03",
    "literals from the grammar [sign] zeros digits (up to ~5000 digits) and mutations of them, whitespace-separated streams of "
    "tokens, all kinds of int values, and values at the limits of the machine types; non-trivial: a literal with sign or leading "
    "zeros or more than 18 digits, a malformed literal, a stream of several tokens, or a value within 2 of a type's limit",
    3500000, 480000);

// [sign] zeros digits
static std::string gen_literal(G& g, int max, Big& v)
{
    v = gen_nat(g, max);
    int sign = g.below(3);
    int zeros = g.pick({3, 1, 1}) == 0 ? 0 : g.length(300, 6);
    std::string s = std::string(sign == 1 ? "-" : sign == 2 ? "+" : "") + std::string(std::size_t(zeros), '0') + v.str();
    if (sign == 1)
    {
        v = -v;
    }
    return s;
}
static bool well_formed(const std::string& s)
{
    std::size_t i = !s.empty() && (s[0] == '+' || s[0] == '-');
    if (i >= s.size())
    {
        return false;
    }
    for (; i < s.size(); ++i)
    {
        if (s[i] < '0' || s[i] > '9')
        {
            return false;
        }
    }
    return true;
}
static std::string mutate(G& g, std::string s)
{
    static const char odd[] = {' ', '+', '-', '.', 'e', 'x', 'a', '/', ':', '_', ',', '\t', '\n', '0', '9', '\x7f', '\x80', '\xb2', '\xff'};
    int n = 1 + g.below(2);
    for (int i = 0; i < n; ++i)
    {
        char c = g.chance(1, 4) ? char(g.range(1, 255)) : g.of(odd);
        std::size_t p = std::size_t(g.below(int(s.size()) + 1));
        switch (g.below(5))
        {
            case 0: s.insert(p, 1, c); break;
            case 1: s.insert(0, 1, c); break;
            case 2: s += c; break;
            case 3:
                if (p < s.size()) s[p] = c;
                break;
            default: s.erase(p, g.coin() ? 1 : std::string::npos);
        }
    }
    return s;
}

static void describes(G& g, const Int& x, const Big& v, const char* what)
{
    const std::string text = v.str();
    eqs(g, show(x), text, what);
    eqs(g, x.digits(), v == 0 ? 0 : int(big_abs(v).str().size()), "digits()");
    eqs(g, x.is_zero(), v == 0, "is_zero()");
    eqs(g, x.is_positive(), v > 0, "is_positive()");
    eqs(g, x.is_negative(), v < 0, "is_negative()");
    eqs(g, x.is_even(), v % 2 == 0, "is_even()");
    eqs(g, x.is_odd(), v % 2 != 0, "is_odd()");
    std::istringstream is(text);
    Int back = 7;
    is >> back;
    g.require(back == x && x == back, "the printed form reads back as an equal integer");
    eqs(g, show(back), text, "printed form read back");
}

PBT_SUB(literal, 6)
{
    Big v;
    std::string s = gen_literal(g, g.chance(1, 30) ? 5000 : 60, v);
    g.note("literal ", quote(s));
    g.nontrivial_if(s != v.str() || s.size() > 18);
    if (s.size() > 100) g.label("over 100 characters");
    describes(g, Int(s.c_str()), v, "value of a literal");
    Int x = 3;
    x = s.c_str();
    describes(g, x, v, "assigned literal");
}

PBT_SUB(malformed, 4)
{
    Big v;
    std::string s = g.chance(1, 12) ? std::string() : mutate(g, gen_literal(g, 12, v));
    g.note("literal ", quote(s));
    if (well_formed(s))
    {
        std::string d = s;
        bool neg = d[0] == '-';
        if (d[0] == '-' || d[0] == '+') d.erase(0, 1);
        d.erase(0, std::min(d.find_first_not_of('0'), d.size() - 1));
        Big w = big(d);
        describes(g, Int(s.c_str()), neg ? Big(-w) : w, "value of a literal");
        return;
    }
    g.label("malformed literal");
    g.nontrivial();
    must_reject(g, [&] { Int x(s.c_str()); }, "literal " + quote(s));
    Int x = 42;
    must_reject(g, [&] { x = s.c_str(); }, "assigned literal " + quote(s));
    eqs(g, show(x), "42", "value after the rejected assignment");
}

PBT_SUB(stream, 3)
{
    // tokens separated by whitespace; one may be malformed
    std::string text;
    static const char* blanks[] = {" ", "\n", "\t", "  ", " \r\n ", "\v", "\f"};
    std::vector<std::string> tokens;
    std::vector<Big> values;
    int n = 0;
    while (g.more(n, 8, 3) || n == 0)
    {
        Big v;
        std::string s = gen_literal(g, 40, v);
        if (g.chance(1, 8))
        {
            s = mutate(g, s);
            std::string t;
            for (char c : s)
            {
                if (!std::strchr(" \t\n\v\f\r", c)) t += c;
            }
            s = t;
        }
        if (!s.empty())
        {
            tokens.push_back(s);
            values.push_back(v);
        }
        ++n;
    }
    if (g.coin()) text += g.of(blanks);
    for (std::size_t i = 0; i < tokens.size(); ++i)
    {
        if (i) text += g.of(blanks);
        text += tokens[i];
    }
    if (g.coin()) text += g.of(blanks);
    g.note("stream ", quote(text));
    g.nontrivial_if(tokens.size() > 1);
    std::istringstream is(text);
    for (std::size_t i = 0; i < tokens.size(); ++i)
    {
        Int x = 42;
        if (!well_formed(tokens[i]))
        {
            must_reject(g, [&] { is >> x; }, "token " + quote(tokens[i]));
            eqs(g, show(x), "42", "value after the rejected token");
            g.label("malformed token");
        }
        else
        {
            g.require(bool(is >> x), "reading a well-formed token succeeds");
            std::string d = tokens[i];
            bool neg = d[0] == '-';
            if (d[0] == '-' || d[0] == '+') d.erase(0, 1);
            d.erase(0, std::min(d.find_first_not_of('0'), d.size() - 1));
            Big w = big(d);
            same(g, x, neg ? Big(-w) : w, "token value");
        }
        if (i + 1 < tokens.size() && g.chance(1, 6)) // the rest of the stream is intact
        {
            std::string next;
            is >> next;
            eqs(g, next, tokens[i + 1], "next token");
            ++i;
        }
    }
    Int x = 42;
    must_reject(g, [&] { is >> x; }, "reading from an exhausted stream");
    std::istringstream empty(g.coin() ? "" : " \n");
    must_reject(g, [&] { empty >> x; }, "reading from an empty stream");
}

PBT_SUB(from_int, 2)
{
    int k = g.any_int(1000);
    g.note("int ", k);
    g.nontrivial_if(k <= INT32_MIN + 2 || k >= INT32_MAX - 2 || k < 0);
    describes(g, Int(k), k, "value of an int");
    Int x = 5;
    x = k;
    describes(g, x, k, "assigned int");
}

template <typename T>
static void machine(G& g, const char* name)
{
    const Big lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    Big v;
    switch (g.pick({2, 2, 1, 2}))
    {
        case 0: v = hi - g.below(12); break;
        case 1: v = lo + g.below(12); break;
        case 2: v = g.range(-3, 130); break;
        default: v = (Big(g.seed64()) << g.below(2)) % (hi - lo + 1) + lo;
    }
    if (v < lo) v = lo;
    if (v > hi) v = hi;
    g.note(name, " ", v.str());
    g.nontrivial_if(v - lo < 3 || hi - v < 3);
    Int x = gen_int_of(g, v);
    T t = x.to_integer<T>();
    g.require_f(Big(t) == v, [&] { return std::string("to_integer<") + name + ">: got " + Big(t).str() + ", want " + v.str(); });
    eqs(g, show(x), v.str(), "value after to_integer");
}

PBT_SUB(to_machine, 3)
{
    switch (g.below(10))
    {
        case 0: machine<int>(g, "int"); break;
        case 1: machine<long long>(g, "long long"); break;
        case 2: machine<unsigned long long>(g, "unsigned long long"); break;
        case 3: machine<signed char>(g, "signed char"); break;
        case 4: machine<unsigned char>(g, "unsigned char"); break;
        case 5: machine<short>(g, "short"); break;
        case 6: machine<unsigned short>(g, "unsigned short"); break;
        case 7: machine<unsigned>(g, "unsigned"); break;
        case 8: machine<long>(g, "long"); break;
        default: machine<unsigned long>(g, "unsigned long");
    }
}

// longer than any 16-bit index
PBT_SUB(long_literals, 1)
{
    if (!g.chance(1, 10)) { sub_literal(g); return; }
    const Dec a = gen_dec(g, gen_huge_length(g));
    const int zeros = g.chance(1, 3) ? gen_huge_length(g) : 0;
    std::string s = (a.neg ? "-" : g.coin() ? "+" : "") + std::string(std::size_t(zeros), '0') + a.mag;
    g.note("literal ", brief(a), " with ", zeros, " leading zeros");
    g.label(s.size() > 32768 ? "more than 32768 characters" : "hundreds of digits");
    g.nontrivial();
    const Int x(s.c_str());
    same_dec(g, x, a, "literal");
    g.require(x.digits() == int(a.mag.size()), "digits");
    g.require(x.is_negative() == a.neg && x.is_positive() == !a.neg && !x.is_zero() && x.is_even() == ((a.mag.back() - '0') % 2 == 0), "predicates");
    std::stringstream io;
    io << x << ' ' << s << "\n7";
    Int y, z, w;
    io >> y >> z >> w;
    same_dec(g, y, a, "printed and read");
    same_dec(g, z, a, "read");
    g.require(w == 7 && y == x && z == x, "the tokens that follow");
    s[std::size_t(g.range(1, int(s.size()) - 1))] = "x-+. a:/"[g.below(8)];
    must_reject(g, [&] { Int t(s.c_str()); }, "long malformed literal");
}

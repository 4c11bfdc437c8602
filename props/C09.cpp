#include "fracref.hpp"
#include <unordered_set>

static pbt::Config config("C09",
    "pairs of fractions: Farey neighbours (which are next to each other in double as well), same numerator or denominator, equal values "
    "built differently, opposite and extreme values; non-trivial: the values are equal but built differently, or closer than "
    "1e-6 relative, or the cross products exceed int, or a fraction without denominator is compared with a number of a built-in type",
    4500000, 700000);

static void gen_pair(G& g, Q& a, Q& b)
{
    a = gen_q(g);
    switch (g.pick({5, 3, 1}))
    {
        case 0: b = gen_q_related(g, a); break;
        case 1: // neighbours n/d and (n-1)/(d-1) with large terms
        {
            wide d = INT32_MAX - wide(g.draw(1u << g.below(30)));
            if (d < 3) d = 3;
            wide n = g.chance(1, 2) ? d - 1 - wide(g.below(5)) : wide(g.draw(u_int32_t(d - 1)));
            a = Q(n, d);
            b = Q(n - g.range(-1, 1), d - g.range(0, 1));
            if (g.coin()) { a.n = -a.n; b.n = -b.n; }
            g.label("large neighbours");
            break;
        }
        default: b = a;
    }
    if (!b.fits()) b = a;
}

static void check(G& g, const Fraction& x, const Fraction& y, const Q& a, const Q& b)
{
    int c = a.cmp(b);
    auto what = [&](const char* op) { return [&, op] { std::ostringstream os; os << a << " " << op << " " << b; return os.str(); }; };
    eq(g, x == y, c == 0, what("=="));
    eq(g, x != y, c != 0, what("!="));
    eq(g, x < y, c < 0, what("<"));
    eq(g, x <= y, c <= 0, what("<="));
    eq(g, x > y, c > 0, what(">"));
    eq(g, x >= y, c >= 0, what(">="));
    if (c == 0)
    {
        g.require(std::hash<Fraction>{}(x) == std::hash<Fraction>{}(y), "equal fractions have equal hashes");
    }
}

PBT_SUB(pair, 8)
{
    Q a, b;
    gen_pair(g, a, b);
    g.note("a = ", a, "\nb = ", b);
    Fraction x = gen_frac_of(g, a), y = gen_frac_of(g, b);
    double p = double((long long)a.n) / double((long long)a.d), q = double((long long)b.n) / double((long long)b.d);
    if (a == b) g.label("equal");
    if (!(a == b) && p == q) g.label("different with equal double value");
    g.nontrivial_if(a == b || std::fabs(p - q) < 1e-6 * std::fabs(p) || wabs(a.n * b.d) > INT32_MAX);
    check(g, x, y, a, b);
    check(g, y, x, b, a);
    check(g, x, x, a, a);
    samef(g, x, a, "left operand after comparisons");
    samef(g, y, b, "right operand after comparisons");
}

PBT_SUB(to_double, 3)
{
    Q a, b;
    gen_pair(g, a, b);
    g.note("a = ", a);
    Fraction x = gen_frac_of(g, a);
    double d = double(x);
    // correctly rounded: no neighbour of d is closer to n/d. Division of two exact doubles is correctly rounded.
    double want = double((long long)a.n) / double((long long)a.d);
    g.require_f(d == want, [&] { std::ostringstream os; os.precision(17); os << "double(" << a << "): got " << d << ", want " << want; return os.str(); });
    double implicit = x;
    g.require(implicit == want, "implicit conversion to double");
    g.nontrivial_if(a.d > 1);
}

PBT_SUB(order, 2)
{
    std::vector<Q> v;
    std::vector<Fraction> x;
    int n = 0;
    while (g.more(n, 24, 8))
    {
        v.push_back(n == 0 || g.coin() ? gen_q(g) : gen_q_related(g, v[std::size_t(g.below(n))]));
        x.push_back(gen_frac_of(g, v.back()));
        ++n;
    }
    g.note(show_seq(v));
    g.nontrivial_if(n >= 4);
    std::sort(x.begin(), x.end());
    std::sort(v.begin(), v.end(), [](const Q& a, const Q& b) { return a.cmp(b) < 0; });
    for (std::size_t i = 0; i < v.size(); ++i)
    {
        samef(g, x[i], v[i], "element of the sorted sequence");
    }
    std::unordered_set<Fraction> s(x.begin(), x.end());
    std::set<Fraction> o(x.begin(), x.end());
    std::size_t distinct = 0;
    for (std::size_t i = 0; i < v.size(); ++i)
    {
        distinct += i == 0 || !(v[i] == v[i - 1]);
        g.require(s.count(frac(v[i])) == 1 && o.count(frac(v[i])) == 1, "a stored fraction is found");
    }
    eqs(g, s.size(), distinct, "size of an unordered_set");
    eqs(g, o.size(), distinct, "size of a set");
}

template <typename T>
static void with_number(G& g, const Fraction& x, const Q& a, double value, T number, const char* type)
{
    // a built-in number equals the fraction if it is the fraction's double value
    bool want;
    if constexpr (std::is_integral_v<T>) want = a.d == 1 && wide(number) == a.n;
    else want = (long double)value == (long double)number;
    auto what = [&](const char* op) { return [&, op] { std::ostringstream os; os.precision(20); os << a << " " << op << " " << (long double)number << " (" << type << ")"; return os.str(); }; };
    eq(g, x == number, want, what("=="));
    eq(g, number == x, want, what("== (number on the left)"));
    eq(g, x != number, !want, what("!="));
    eq(g, number != x, !want, what("!= (number on the left)"));
}
PBT_SUB(numbers, 3)
{
    Q a = gen_q(g);
    if (g.coin()) a = Q(g.chance(1, 3) ? wide(g.any_int()) : wide(g.range(-4, 4)), 1);
    Fraction x = gen_frac_of(g, a);
    const double value = double((long long)a.n) / double((long long)a.d);
    g.note("a = ", a);
    g.nontrivial_if(a.d == 1);
    long long n = (long long)a.n;
    switch (g.below(5))
    {
        case 0: break;
        case 1: n += g.range(-2, 2); break;
        case 2: n += (long long)g.range(-3, 3) << 32; break; // the same value in the lower half
        case 3: n += (g.range(-1, 1)) * (1ll << g.below(62)); break;
        default: n = (long long)std::trunc(value); break;
    }
    double d = value;
    switch (g.below(5))
    {
        case 0: break;
        case 1: d = std::nextafter(d, g.coin() ? 1e10 : -1e10); break;
        case 2: d = std::trunc(d); break;
        case 3: d += g.range(-2, 2) * 0.5; break;
        default: d = -d;
    }
    switch (g.below(8))
    {
        case 0: with_number(g, x, a, value, int(n), "int"); break;
        case 1: with_number(g, x, a, value, n, "long long"); break;
        case 2: with_number(g, x, a, value, (unsigned long long)n, "unsigned long long"); break;
        case 3: with_number(g, x, a, value, unsigned(n), "unsigned"); break;
        case 4: with_number(g, x, a, value, d, "double"); break;
        case 5: with_number(g, x, a, value, float(d), "float"); break;
        case 6: with_number(g, x, a, value, bool(n & 1), "bool"); break;
        default: with_number(g, x, a, value, (signed char)(n), "signed char");
    }
    samef(g, x, a, "fraction after the comparisons");
}

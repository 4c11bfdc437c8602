#include "intref.hpp"

static pbt::Config config("C05",
    "bases and exponents bounded by the size of the result, huge exponents with a modulus, perfect squares and powers +-d and their "
    "midpoints for sqrt and log, factorials up to 1000, arguments outside the domains; non-trivial: the result has at least 3 "
    "digits or the argument is within 1 of a perfect square or power",
    800000, 90000);

using boost::multiprecision::pow;

PBT_SUB(power, 5)
{
    Big b, e;
    switch (g.pick({4, 3, 1}))
    {
        case 0: b = g.range(-12, 12); e = g.range(-3, 60); break;
        case 1: b = gen_big(g, 25); e = g.range(-2, 14); break;
        default: b = g.range(-1, 1); e = gen_big(g, 20);
    }
    if (big_abs(b).str().size() * std::size_t(e > 0 && e < 1000 ? int(e) : 1) > 600)
    {
        e %= 8;
    }
    g.note("pow(", brief(b), ", ", brief(e), ")");
    Int x = gen_int_of(g, b), y = gen_int_of(g, e);
    if (b == 0 && e < 0)
    {
        g.label("domain error");
        must_reject(g, [&] { Int::pow(x, y); }, "pow(0, negative)");
        must_reject(g, [&] { Int::pow(x, y, 7); }, "pow(0, negative, 7)");
        return;
    }
    Big want;
    if (b == 1 || b == -1) want = e % 2 == 0 ? Big(1) : b;
    else if (e < 0) want = 0;
    else if (b == 0) want = e == 0 ? 1 : 0;
    else want = pow(b, unsigned(e));
    g.nontrivial_if(big_abs(want) >= 100);
    if (e == 0) g.label("exponent 0");
    if (e < 0) g.label("negative exponent");
    same(g, Int::pow(x, y), want, "pow");
    same(g, x, b, "base after pow");
    same(g, y, e, "exponent after pow");
    if (e == b)
    {
        same(g, Int::pow(x, x), want, "pow(x, x)");
    }
    Big m = g.coin() ? gen_related(g, want, 30) : gen_big(g, 12);
    if (m != 0)
    {
        g.note("modulus ", brief(m));
        same(g, Int::pow(x, y, lit(m)), want % m, "pow with modulus");
    }
    same(g, Int::pow(x, y, 0), want, "pow with modulus 0 (none)");
}

PBT_SUB(modpower, 4)
{
    Big b = gen_big(g, 20), e = gen_nat(g, 14), m = gen_big(g, 14);
    if (m == 0) m = 1;
    g.note("pow(", brief(b), ", ", brief(e), ", ", brief(m), ")");
    Big want = boost::multiprecision::powm(big_abs(b), e, big_abs(m));
    if (b < 0 && e % 2 != 0) want = -want;
    if (e == 0) want = Big(1) % m;
    Int x = gen_int_of(g, b), y = gen_int_of(g, e), z = gen_int_of(g, m);
    same(g, Int::pow(x, y, z), want, "pow with modulus");
    same(g, z, m, "modulus after pow");
    g.nontrivial_if(e > 2 && want != 0);
    if (b < 0) g.label("negative base with modulus");
    if (m < 0) g.label("negative modulus");
}

PBT_SUB(root, 5)
{
    Big n;
    switch (g.pick({5, 2, 1}))
    {
        case 0: // around a square
        {
            Big r = gen_nat(g, 35);
            static const int d[] = {0, -1, 1, 2, -2};
            n = r * r + (g.chance(1, 6) ? r + g.range(-1, 1) : g.chance(1, 6) ? 2 * r : Big(g.of(d)));
            g.label("around a perfect square");
            g.nontrivial();
            break;
        }
        case 1: n = gen_nat(g, 60); break;
        default: n = gen_big(g, 10);
    }
    g.note("sqrt(", brief(n), ")");
    Int x = gen_int_of(g, n);
    if (n < 0)
    {
        g.label("domain error");
        must_reject(g, [&] { Int::sqrt(x); }, "sqrt of a negative integer");
        same(g, x, n, "argument of the rejected sqrt");
        return;
    }
    Big r = sqrt(n);
    if (r * r > n || (r + 1) * (r + 1) <= n)
    {
        std::abort(); // reference is wrong
    }
    same(g, Int::sqrt(x), r, "sqrt");
    same(g, x, n, "argument of sqrt");
    g.nontrivial_if(r >= 100);
}

PBT_SUB(logarithm, 4)
{
    Big b, n;
    switch (g.pick({3, 3, 1}))
    {
        case 0: b = g.range(2, 40); break;
        case 1: b = gen_nat(g, 12); break;
        default: b = gen_big(g, 3);
    }
    if (g.coin() && b >= 2)
    {
        int k = g.below(std::max(2, int(45 / big_abs(b).str().size())) + 1);
        n = pow(b, unsigned(k)) + g.range(-1, 1);
        g.label("around a perfect power");
        g.nontrivial();
    }
    else
    {
        n = gen_big(g, b > 1000 ? 60 : 30);
    }
    if (g.chance(1, 10))
    {
        n = g.range(-1, 1);
    }
    g.note("log(", brief(n), ", ", brief(b), ")");
    Int x = gen_int_of(g, n), y = gen_int_of(g, b);
    if (n <= 0 || b < 2)
    {
        g.label("domain error");
        must_reject(g, [&] { Int::log(x, y); }, "log outside its domain");
        return;
    }
    Big k = 0, p = b;
    while (p <= n)
    {
        p *= b;
        ++k;
    }
    same(g, Int::log(x, y), k, "log");
    same(g, x, n, "argument of log");
    same(g, y, b, "base of log");
    if (b == 10) g.label("base 10");
}

PBT_SUB(log10_large, 1)
{
    Big n = gen_nat(g, 300) + 1;
    g.note("log(", brief(n), ", 10)");
    same(g, Int::log(lit(n), 10), int(n.str().size()) - 1, "log base 10");
    g.nontrivial();
}

PBT_SUB(factorial, 2)
{
    static std::vector<Big> table = {1};
    int n = g.pick({8, 3, 1}) == 0 ? g.below(40) : g.chance(1, 8) ? g.length(1000, 40) : g.below(220);
    while (int(table.size()) <= n)
    {
        table.push_back(table.back() * int(table.size()));
    }
    if (g.chance(1, 10))
    {
        Big m = -gen_nat(g, 10) - 1;
        must_reject(g, [&] { lit(m).factorial(); }, "factorial of a negative integer");
        g.label("domain error");
        return;
    }
    g.note(n, "!");
    Int x = gen_int_of(g, n);
    same(g, x.factorial(), table[std::size_t(n)], "factorial");
    same(g, x, n, "argument of factorial");
    g.nontrivial_if(n >= 6);
    if (n > 100) g.label("factorial over 100");
}

// numbers of hundreds of digits
PBT_SUB(long_numbers, 1)
{
    const int digits = g.chance(1, 30) ? g.range(100, 900) : g.range(10, 120);
    const Big big_one = gen_nat(g, digits) + 1;
    switch (g.below(4))
    {
        case 0:
        {
            static const int d[] = {0, -1, 1};
            if (g.chance(1, 60)) // below a power of ten the root of thousands of digits is found in few steps
            {
                const unsigned k = unsigned(g.range(900, 1500));
                const Big r = pow(Big(10), k) - g.range(1, 100000), n = r * r + g.of(d);
                g.note("sqrt of the square of 10**", k, " - ", Big(pow(Big(10), k) - r).str(), ", plus ", Big(n - r * r).str());
                same(g, Int::sqrt(gen_int_of(g, n)), n < r * r ? Big(r - 1) : r, "sqrt");
                g.nontrivial();
                g.label("root of about a thousand digits");
                break;
            }
            const Big r = g.coin() ? big_one : Big(sqrt(big_one)), n = r * r + g.of(d);
            const Big want = n < 0 ? Big(0) : Big(sqrt(n));
            if (n < 0) return;
            g.note("sqrt(", brief(n), ")");
            same(g, Int::sqrt(gen_int_of(g, n)), want, "sqrt");
            g.nontrivial();
            break;
        }
        case 1:
        {
            const Big b = g.coin() ? Big(g.range(2, 1000)) : gen_nat(g, digits) + 2;
            static const int d[] = {0, -1, 1};
            Big n = big_one, p = 1;
            if (g.coin())
            {
                while (p <= n) p *= b;
                n = p + g.of(d);
            }
            int k = -1;
            for (p = 1; p <= n; p *= b) ++k;
            if (n <= 0) return;
            g.note("log(", brief(n), ", ", brief(b), ")");
            same(g, Int::log(gen_int_of(g, n), lit(b)), k, "log");
            g.nontrivial();
            break;
        }
        case 2:
        {
            const int e = g.range(2, 400);
            const Big b = gen_nat(g, std::max(1, digits * 4 / e));
            if (int(b.str().size()) * e > 4000) return;
            const bool negative = g.coin();
            g.note("pow(", negative ? "-" : "", brief(b), ", ", e, ")");
            Big want = pow(b, unsigned(e));
            if (negative && e % 2) want = -want;
            same(g, Int::pow(lit(negative ? Big(-b) : b), e), want, "pow");
            g.nontrivial();
            break;
        }
        default:
        {
            const int few = std::min(digits, 70);
            const Big b = gen_nat(g, few), e = gen_nat(g, few / 2), m = gen_nat(g, few) + 1;
            g.note("pow(", brief(b), ", ", brief(e), ", ", brief(m), ")");
            const Big want = e == 0 ? Big(Big(1) % m) : Big(boost::multiprecision::powm(b, e, m));
            same(g, Int::pow(lit(b), lit(e), lit(m)), want, "pow with modulus");
            g.nontrivial_if(e > 2 && want != 0);
        }
    }
    if (digits > 120) g.label("more than 120 digits");
}

#include "intref.hpp"

static pbt::Config config("C06",
    "small numbers densely, primes, squares and products of primes, Carmichael numbers and large numbers with a small factor for "
    "primality, strong pseudoprimes, related prime products and Carmichael numbers up to 10^15; starts at and around primes and prime gaps for next_prime; operand pairs with a chosen common factor, Fibonacci "
    "neighbours, zeros and both signs for gcd and lcm; non-trivial: a prime or a composite without factor below 7, a gap of at "
    "least 4, or a gcd above 1 of two different non-zero operands",
    420000, 36000);

static bool ref_prime(long long n)
{
    if (n < 2) return false;
    for (long long i = 2; i * i <= n; ++i)
    {
        if (n % i == 0) return false;
    }
    return true;
}
static long long some_prime(G& g, int max)
{
    long long n = g.range(2, max);
    while (!ref_prime(n)) ++n;
    return n;
}

PBT_SUB(prime, 10)
{
    long long n = 0;
    switch (g.pick({5, 2, 2, 2, 1, 2}))
    {
        case 0: n = g.range(-20, 3000); break;
        case 1: n = some_prime(g, 200000); break;
        case 2: { long long p = some_prime(g, 1500); n = p * p + 2 * g.range(-1, 1); g.label("square of a prime"); break; }
        case 3: { long long p = some_prime(g, 700), q = some_prime(g, 700); n = p * q; break; }
        case 4:
        {
            static const long long pseudo[] = {341, 561, 645, 1105, 1387, 1729, 1905, 2047, 2465, 2701, 2821, 3277, 4033, 4369, 4681, 5461, 6601, 8911, 10585, 15841, 29341, 25326001 % 1000003, 65537, 131071, 99991, 1194649};
            n = g.of(pseudo);
            g.label("pseudoprime or special prime");
            break;
        }
        default:
        {
            const auto& h = pbt::Hints::get().ints;
            n = h.empty() ? 97 : std::min<long long>(g.elem(h), 1000000) + g.range(-2, 2);
        }
    }
    g.note("is_prime(", n, ")");
    bool want = ref_prime(n);
    Int x = gen_int_of(g, n);
    eqs(g, x.is_prime(), want, "is_prime");
    eqs(g, show(x), std::to_string(n), "argument of is_prime");
    if (want) g.label("prime");
    g.nontrivial_if(want || (n > 49 && n % 2 && n % 3 && n % 5));
}

PBT_SUB(large_composite, 2)
{
    static const int f[] = {2, 3, 5, 7, 11, 13, 31, 97, 101, 331};
    Big n = Big(g.of(f)) * (gen_nat(g, 40) + 2);
    g.note("is_prime(", brief(n), ")");
    eqs(g, lit(n).is_prime(), false, "is_prime of a product");
    eqs(g, lit(-n).is_prime(), false, "is_prime of a negative number");
    g.nontrivial();
}

// Composites that pass probable-prime tests, and primes around machine-word limits.
PBT_SUB(pretenders, 1)
{
    // strong pseudoprimes to the first prime bases (OEIS A001262, A072276, A056915, A074773, A014233), Carmichael and Lucas pseudoprimes,
    // all with a factor small enough to be found
    static const long long strong[] = {2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 65281, 74665, 80581, 85489, 88357, 90751, 104653, 130561, 196093, 220729,
        1373653, 1530787, 1987021, 2284453, 3116107, 5173601, 6787327, 11541307, 13694761, 15978007, 16070429, 16879501, 25326001, 27509653, 27664033, 28527049, 54029741, 61832377,
        66096253, 74927161, 80375707, 161304001, 960946321, 1157839381, 3215031751,
        2152302898747, 3474749660383, 121, 703, 1891, 3281, 8401, 8911, 10585, 12403, 16531, 18721, 19345, 23521, 31621, 44287, 47197, 781, 1541, 5461, 5611,
        7813, 13021, 14981, 15751, 24211, 25351, 29539, 38081, 40501, 44801, 53971, 79381, 323, 377, 1159, 1829, 3827, 5459, 5777, 9071, 9179, 10877, 11419, 11663, 13919, 14839,
        5777, 10877, 16109, 18971, 22499, 24569, 25199, 40309, 58519, 75077, 97439};
    static const long long real[] = {32749, 65521, 65537, 46337, 46349, 131071, 262139, 524287, 999983, 1000003, 2147483629, 2147483647, 1000000007, 999999937, 4294967291, 4294967311};
    static const int small_real = 10;
    long long n = 0;
    bool want = false;
    switch (g.pick({6, 2, 3, 2, 2}))
    {
        case 0: n = g.of(strong); g.label("strong pseudoprime"); break;
        case 1: want = true; n = real[g.below(g.chance(1, 20) ? int(std::size(real)) : small_real)]; g.label("prime at a machine limit"); break;
        case 2: // (k + 1)(rk + 1), the usual shape of strong pseudoprimes
        {
            const int r = g.range(2, 6);
            long long p = some_prime(g, g.chance(1, 8) ? 40000 : 3000);
            while (!ref_prime(p) || !ref_prime(r * (p - 1) + 1)) ++p;
            n = p * (r * (p - 1) + 1);
            g.label("product of related primes");
            break;
        }
        case 3: // Chernick's Carmichael numbers
        {
            long long k = g.range(1, 2000);
            while (!ref_prime(6 * k + 1) || !ref_prime(12 * k + 1) || !ref_prime(18 * k + 1)) ++k;
            n = (6 * k + 1) * (12 * k + 1) * (18 * k + 1);
            g.label("Carmichael number");
            break;
        }
        default: // twin primes, prime powers
        {
            long long p = some_prime(g, 3000), q = p + 2;
            while (!ref_prime(q)) ++q;
            n = g.coin() ? p * q : g.coin() ? p * p * p : p * p * q;
            g.label("close or repeated factors");
        }
    }
    g.note("is_prime(", n, ")");
    eqs(g, gen_int_of(g, n).is_prime(), want, "is_prime");
    g.nontrivial();
}

PBT_SUB(next, 6)
{
    long long n;
    switch (g.pick({4, 2, 1, 1}))
    {
        case 0: n = g.range(-10, 2000); break;
        case 1: n = some_prime(g, 30000) + g.range(-1, 1); break;
        case 2: n = -(long long)(g.seed64() >> 2); break;
        default:
        {
            static const long long gaps[] = {113, 114, 523, 887, 1129, 1327, 1330, 9551, 15683, 19609, 31397, 31398};
            n = g.of(gaps) + g.range(-1, 1);
        }
    }
    long long want = n < 2 ? 2 : n + 1;
    while (!ref_prime(want)) ++want;
    g.note("next_prime(", n, ")");
    Int x = gen_int_of(g, n);
    same(g, x.next_prime(), want, "next_prime");
    same(g, x, n, "argument of next_prime");
    g.nontrivial_if(want - n >= 4);
}

PBT_SUB(divisors, 12)
{
    Big a, b;
    switch (g.pick({4, 3, 2, 1}))
    {
        case 0: a = g.range(-130, 130); b = g.range(-130, 130); break;
        case 1:
        {
            Big f = gen_nat(g, 18);
            a = f * gen_nat(g, 14);
            b = f * gen_nat(g, 14);
            if (g.coin()) a = -a;
            if (g.coin()) b = -b;
            break;
        }
        case 2: a = gen_big(g, 30); b = gen_related(g, a, 30); break;
        default: // Fibonacci neighbours: longest Euclid
        {
            Big p = 0, q = 1;
            for (int i = g.below(120); i > 0; --i) { Big t = p + q; p = q; q = t; }
            a = p; b = q;
            if (g.coin()) std::swap(a, b);
            if (g.coin()) a = -a;
            g.label("Fibonacci neighbours");
        }
    }
    g.note("a = ", brief(a), "\nb = ", brief(b));
    Big x = big_abs(a), y = big_abs(b);
    while (y != 0) { Big t = x % y; x = y; y = t; }
    Big l = a == 0 || b == 0 ? Big(0) : Big(big_abs(a) / x * big_abs(b));
    Int p = gen_int_of(g, a), q = gen_int_of(g, b);
    Int gg = Int::gcd(p, q), ll = Int::lcm(p, q);
    same(g, gg, x, "gcd(a, b)");
    same(g, Int::gcd(q, p), x, "gcd(b, a)");
    same(g, ll, l, "lcm(a, b)");
    same(g, Int::lcm(q, p), l, "lcm(b, a)");
    same(g, gg * ll, big_abs(a * b), "gcd * lcm");
    same(g, p, a, "first argument");
    same(g, q, b, "second argument");
    same(g, Int::gcd(p, p), big_abs(a), "gcd(a, a)");
    same(g, Int::lcm(p, p), big_abs(a), "lcm(a, a)");
    g.nontrivial_if(x > 1 && a != b && a != 0 && b != 0);
    if (a == 0 || b == 0) g.label("zero operand");
    if (a < 0 || b < 0) g.label("negative operand");
}

// numbers of hundreds of digits
PBT_SUB(long_divisors, 1)
{
    const bool huge = g.chance(1, 120); // the factor in common, so that few steps of the algorithm lead there
    const int digits = huge ? g.range(900, 1600) : g.chance(1, 30) ? g.range(100, 500) : g.range(10, 60);
    const Big f = gen_nat(g, digits) + 1;
    Big a = f * gen_nat(g, huge ? 5 : digits), b = f * gen_nat(g, huge ? 5 : digits);
    if (g.coin()) a = -a;
    if (g.coin()) b = -b;
    g.note("a = ", brief(a), "\nb = ", brief(b));
    Big x = big_abs(a), y = big_abs(b);
    while (y != 0) { Big t = x % y; x = y; y = t; }
    const Big l = a == 0 || b == 0 ? Big(0) : Big(big_abs(a) / x * big_abs(b));
    const Int p = gen_int_of(g, a), q = gen_int_of(g, b);
    same(g, Int::gcd(p, q), x, "gcd(a, b)");
    same(g, Int::lcm(p, q), l, "lcm(a, b)");
    same(g, p, a, "first argument");
    same(g, q, b, "second argument");
    g.nontrivial_if(x > 1 && a != b && a != 0 && b != 0);
    if (digits > 60) g.label("more than 60 digits");
}

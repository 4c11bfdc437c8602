#include "hugeref.hpp"

static pbt::Config config("C02",
    "dividend/divisor pairs built as q*b+r with chosen q, b, r (r = 0, 1, |b|-1), related pairs and small dense pairs, all sign "
    "combinations, zero divisors, and histories mixing / and % with the other operators; non-trivial: non-zero quotient and "
    "divisor of at least two digits, or a history with at least 3 divisions",
    900000, 120000);

static void gen_pair(G& g, Big& a, Big& b, int max)
{
    switch (g.pick({3, 4, 3}))
    {
        case 0:
            a = g.range(-130, 130);
            b = g.range(-130, 130);
            break;
        case 1: // a = q * b + r
        {
            Big q = gen_nat(g, max / 2), m = gen_nat(g, max / 2) + 1, r;
            switch (g.below(5))
            {
                case 0: r = 0; break;
                case 1: r = m - 1; break;
                case 2: r = 1; break;
                default: r = gen_nat(g, max / 2);
            }
            a = q * m + r % m;
            b = m;
            if (g.coin()) a = -a;
            if (g.coin()) b = -b;
            break;
        }
        default:
            a = gen_big(g, max);
            b = gen_related(g, a, max);
    }
}

static void check_pair(G& g, Int& x, Int& y, const Big& a, const Big& b)
{
    if (b == 0)
    {
        g.label("zero divisor");
        must_reject(g, [&] { x / y; }, "a / 0");
        must_reject(g, [&] { x % y; }, "a % 0");
        must_reject(g, [&] { x /= y; }, "a /= 0");
        same(g, x, a, "left operand after the rejected /=");
        must_reject(g, [&] { x %= y; }, "a %= 0");
        same(g, x, a, "left operand after the rejected %=");
        if (a == 0)
        {
            must_reject(g, [&] { x /= x; }, "0 /= itself");
            must_reject(g, [&] { x %= x; }, "0 %= itself");
        }
        return;
    }
    Big q = a / b, r = a % b; // cpp_int: truncated, remainder with the sign of the dividend
    if (r == 0) g.label("exact division");
    if (r != 0 && big_abs(r) == big_abs(b) - 1) g.label("largest remainder");
    if (q == 0) g.label("zero quotient");
    if ((a < 0) != (b < 0)) g.label("mixed signs");
    g.nontrivial_if(q != 0 && big_abs(b) >= 10);
    Int xq = x / y, xr = x % y;
    same(g, x, a, "dividend after the operation");
    same(g, y, b, "divisor after the operation");
    same(g, xq, q, "a / b");
    same(g, xr, r, "a % b");
    same(g, xq * y + xr, a, "(a / b) * b + a % b");
    Int u = x;
    g.require(WHERE(u /= y) == &u, "/= returns its left operand");
    same(g, u, q, "a /= b");
    same(g, y, b, "divisor after /=");
    Int v = x;
    g.require(WHERE(v %= y) == &v, "%= returns its left operand");
    same(g, v, r, "a %= b");
    same(g, y, b, "divisor after %=");
    same(g, u * y + v, a, "recombined compound results");
    same(g, v - y, r - b, "remainder minus divisor");
}

PBT_SUB(divide, 8)
{
    const int max = g.chance(1, 15) ? 400 : 70;
    Big a, b;
    gen_pair(g, a, b, max);
    g.note("a = ", brief(a), "\nb = ", brief(b));
    Int x = gen_int_of(g, a), y = gen_int_of(g, b);
    check_pair(g, x, y, a, b);
    if (a != 0)
    {
        same(g, x / x, 1, "a / a");
        same(g, x % x, 0, "a % a");
        Int s = x;
        s /= s;
        same(g, s, 1, "a /= a");
        s = x;
        s %= s;
        same(g, s, 0, "a %= a");
        ++s;
        same(g, s, 1, "increment of that zero");
    }
    int k = g.any_int();
    if (k != 0)
    {
        same(g, x / k, a / k, "a / int");
        same(g, x % k, a % k, "a % int");
    }
    if (a != 0)
    {
        same(g, Int(k) / x, Big(k) / a, "int / a");
        same(g, Int(k) % x, Big(k) % a, "int % a");
    }
}

PBT_SUB(small_pairs, 1)
{
    int i = g.range(-1100, 1100), j = g.range(-130, 130);
    g.note(i, " and ", j);
    Int x = i, y = j;
    check_pair(g, x, y, i, j);
}

PBT_SUB(history, 3)
{
    constexpr int N = 4;
    Int r[N];
    Big v[N];
    for (int i = 0; i < N; ++i)
    {
        v[i] = i == 0 ? gen_big(g, 50) : gen_related(g, v[0], 50);
        r[i] = lit(v[i]);
        g.note("r", i, " = ", brief(v[i]));
    }
    int ops = 0, divs = 0;
    while (g.more(ops, 40, 12))
    {
        int i = g.below(N), j = g.below(N), k = g.below(N);
        int op = g.below(10);
        ++ops;
        if (op == 4 && v[j].str().size() + v[k].str().size() > 300)
        {
            op = 5;
        }
        g.note("op ", op, " on r", i, ", r", j, ", r", k);
        Big a = v[j], b = v[k], c = v[i];
        switch (op)
        {
            case 0: // /
            case 1: // %
                if (b == 0)
                {
                    must_reject(g, [&] { op == 0 ? r[j] / r[k] : r[j] % r[k]; }, "division by zero in a history");
                }
                else
                {
                    ++divs;
                    r[i] = op == 0 ? r[j] / r[k] : r[j] % r[k];
                    v[i] = op == 0 ? a / b : a % b;
                }
                break;
            case 2: // /=
            case 3: // %=
                if (a == 0)
                {
                    must_reject(g, [&] { op == 2 ? r[i] /= r[j] : r[i] %= r[j]; }, "compound division by zero in a history");
                }
                else
                {
                    ++divs;
                    op == 2 ? r[i] /= r[j] : r[i] %= r[j];
                    v[i] = op == 2 ? c / a : c % a;
                }
                break;
            case 4: r[i] = r[j] * r[k]; v[i] = a * b; break;
            case 5: r[i] = r[j] - r[k]; v[i] = a - b; break;
            case 6: r[i] += r[j]; v[i] = c + a; break;
            case 7: --r[i]; v[i] = c - 1; break;
            case 8: r[i] = -r[j]; v[i] = -a; break;
            default: ++r[i]; v[i] = c + 1; break;
        }
        same(g, r[i], v[i], "register after the operation");
        same(g, r[j], v[j], "operand register after the operation");
    }
    g.nontrivial_if(divs >= 3);
    if (divs >= 3) g.label("history with 3 or more divisions");
}

// longer than any 16-bit index, divided by small and by nearly equal integers (else the time would be quadratic)
PBT_SUB(long_integers, 1)
{
    if (!g.chance(1, 60)) { sub_divide(g); return; }
    const int n = g.chance(1, 40) ? g.range(32700, 34000) : g.range(200, 1500);
    const Dec a = gen_dec(g, n);
    g.note("a = ", brief(a));
    g.label(n > 32000 ? "more than 32000 digits" : "hundreds of digits");
    g.nontrivial();
    const Int x(a.text().c_str());
    if (n < 2000)
    {
        const int k = g.range(1, 40000) * (g.coin() ? -1 : 1);
        g.note("k = ", k);
        int rest = 0;
        const std::string q = mag_div(a.mag, std::abs(k), rest);
        same_dec(g, x / k, Dec{q != "0" && a.neg != (k < 0), q}, "a / k");
        same_dec(g, x % k, Dec{a.neg && rest, std::to_string(rest)}, "a % k");
    }
    // b has at most three digits less, and the quotient is made up
    const int k = g.range(2, 900);
    const Dec b{g.coin(), a.mag};
    const Int y(b.text().c_str()), r(g.range(0, 9999));
    const Int big = y * k + (b.neg ? -r : r);
    same_dec(g, big / y, Dec{false, std::to_string(k)}, "(b * k + r) / b");
    g.require(big % y == (b.neg ? -r : r), "(b * k + r) % b");
    g.require(x / y == (a.neg == b.neg ? 1 : -1) && (x % y).is_zero(), "division by an integer of the same magnitude");
}

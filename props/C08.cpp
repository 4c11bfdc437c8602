#include "fracref.hpp"

static pbt::Config config("C08",
    "numerators and denominators over the whole int range (small, smooth, extreme, related operands with common factors), filtered by "
    "whether the exact result fits, sign and reduction variants of the constructor, register-machine histories; non-trivial: the "
    "exact result fits and the cross products do not fit int or have a common factor to cancel, or a history of at least 5 operations",
    3000000, 500000);

static Q ref(int op, const Q& a, const Q& b)
{
    return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : op == 3 ? a / b : a % b;
}
static Fraction bin(int op, const Fraction& a, const Fraction& b)
{
    return op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a * b : op == 3 ? a / b : a % b;
}
static const void* cmp(int op, Fraction& a, const Fraction& b)
{
    return op == 0 ? WHERE(a += b) : op == 1 ? WHERE(a -= b) : op == 2 ? WHERE(a *= b) : op == 3 ? WHERE(a /= b) : WHERE(a %= b);
}
static const char* names[] = {"a + b", "a - b", "a * b", "a / b", "a % b"};

PBT_SUB(construct, 3)
{
    int n = g.any_int(), d = g.chance(1, 12) ? 0 : g.chance(1, 2) ? g.any_int() : gen_den(g);
    if (g.chance(1, 4) && d != 0) // common factor
    {
        int k = 2 + g.below(50);
        n = n / k * k;
        d = d / k * k;
    }
    g.note("Fraction(", n, ", ", d, ")");
    if (d == 0)
    {
        g.label("zero denominator");
        must_reject(g, [&] { Fraction f(n, 0); }, "zero denominator");
        return;
    }
    Q q(n, d);
    if (!q.fits())
    {
        g.label("not representable");
        return;
    }
    g.nontrivial_if(q.d != d);
    Fraction f(n, d);
    samef(g, f, q, "Fraction(p, q)");
    eqs(g, show(f), show(q), "printed fraction");
    samef(g, Fraction(n), Q(n), "Fraction(p)");
    samef(g, Fraction(), Q(0), "Fraction()");
    Fraction h;
    h = f;
    samef(g, h, q, "assigned fraction");
}

PBT_SUB(wide_construct, 1)
{
    Q q = gen_q(g);
    long long k = 1 + (long long)(g.draw(1ull << g.below(31)));
    if (g.coin()) k = -k;
    g.note("Fraction(", (long long)(q.n * k), ", ", (long long)(q.d * k), ")");
    samef(g, Fraction((long long)(q.n * k), (long long)(q.d * k)), q, "Fraction(p, q) with large terms");
    g.nontrivial_if(k > 1000 || k < -1000);
}

PBT_SUB(binary, 10)
{
    Q a = gen_q(g), b = gen_q_related(g, a);
    int op = g.below(5);
    if (g.chance(1, 3)) // choose the result instead, so that it fits although the operands are large
    {
        Q r = gen_q(g);
        Q c = op == 0 ? r - b : op == 1 ? r + b : op == 2 ? (b.n ? r / b : r) : op == 3 ? r * b : b * Q(g.range(-9, 9)) + r;
        if (c.fits()) a = c;
    }
    g.note("a = ", a, "\nb = ", b, "\n", names[op]);
    Fraction x = gen_frac_of(g, a), y = gen_frac_of(g, b);
    if ((op == 3 || op == 4) && b.n == 0)
    {
        g.label("zero divisor");
        must_reject(g, [&] { bin(op, x, y); }, names[op]);
        must_reject(g, [&] { cmp(op, x, y); }, "compound division by zero");
        samef(g, x, a, "left operand after the rejected division");
        samef(g, y, b, "right operand after the rejected division");
        Fraction z = y;
        must_reject(g, [&] { cmp(op, z, z); }, "zero divided by itself");
        samef(g, z, b, "operand after the rejected division");
        return;
    }
    Q w = ref(op, a, b);
    if (!w.fits())
    {
        g.label("not representable");
        return;
    }
    if (a.n * b.d > INT32_MAX || a.n * b.d < INT32_MIN || a.d * b.d > INT32_MAX) { g.label("cross products over int"); g.nontrivial(); }
    if (wgcd(a.d, b.d) > 1 || wgcd(a.n, b.d) > 1 || wgcd(a.d, b.n) > 1) g.nontrivial();
    if (w.n == 0) g.label("zero result");
    Fraction r = bin(op, x, y);
    samef(g, r, w, names[op]);
    samef(g, x, a, "left operand");
    samef(g, y, b, "right operand");
    Fraction u = x;
    g.require(cmp(op, u, y) == &u, "compound assignment returns its left operand");
    samef(g, u, w, "compound form");
    samef(g, y, b, "right operand of the compound form");
    // with itself
    if (!((op == 3 || op == 4) && a.n == 0))
    {
        Q s = ref(op, a, a);
        if (s.fits())
        {
            Fraction v = x;
            samef(g, bin(op, v, v), s, "binary form with itself");
            cmp(op, v, v);
            samef(g, v, s, "compound form with itself");
        }
    }
    // chained
    Q c = gen_q(g);
    int op2 = g.below(3);
    Q t = ref(op2, w, c);
    if (t.fits())
    {
        samef(g, bin(op2, r, frac(c)), t, "result used further");
        cmp(op2, u, frac(c));
        samef(g, u, t, "compound result used further");
    }
}

PBT_SUB(small, 3)
{
    Q a(g.range(-9, 9), 1 + g.below(9)), b(g.range(-9, 9), 1 + g.below(9));
    int op = g.below(5);
    g.note("a = ", a, "\nb = ", b, "\n", names[op]);
    if (op >= 3 && b.n == 0)
    {
        must_reject(g, [&] { bin(op, frac(a), frac(b)); }, names[op]);
        return;
    }
    samef(g, bin(op, frac(a), frac(b)), ref(op, a, b), names[op]);
    Fraction u = frac(a);
    cmp(op, u, frac(b));
    samef(g, u, ref(op, a, b), "compound form");
    g.nontrivial_if(a.d != b.d);
}

PBT_SUB(unary, 3)
{
    Q a = gen_q(g);
    g.note("a = ", a);
    Fraction x = gen_frac_of(g, a);
    samef(g, +x, a, "+a");
    if (Q(-a.n, a.d).fits())
    {
        samef(g, -x, Q(-a.n, a.d), "-a");
        samef(g, -(-x), a, "-(-a)");
        samef(g, x.abs(), Q(wabs(a.n), a.d), "abs");
    }
    else if (a.n >= 0)
    {
        samef(g, x.abs(), a, "abs");
    }
    Q v = a;
    int n = 1 + g.below(5);
    bool down = g.coin();
    for (int i = 0; i < n; ++i)
    {
        v = down ? v - Q(1) : v + Q(1);
        if (!v.fits()) break;
        g.require((down ? WHERE(--x) : WHERE(++x)) == &x, "++ and -- return the object");
        samef(g, x, v, down ? "--" : "++");
        g.nontrivial_if(a.d != 1);
    }
}

PBT_SUB(history, 4)
{
    constexpr int N = 4;
    Fraction r[N];
    Q v[N];
    for (int i = 0; i < N; ++i)
    {
        v[i] = gen_q(g);
        r[i] = frac(v[i]);
        g.note("r", i, " = ", v[i]);
    }
    Blind blind(g);
    int ops = 0, done = 0;
    while (g.more(ops, 40, 12))
    {
        int i = g.below(N), j = g.below(N), k = g.below(N), op = g.below(14);
        ++ops;
        g.note("op ", op, " on r", i, ", r", j, ", r", k);
        if (op < 10)
        {
            bool compound = op >= 5;
            int o = op % 5;
            Q a = compound ? v[i] : v[j], b = compound ? v[j] : v[k];
            if (o >= 3 && b.n == 0)
            {
                must_reject(g, [&] { compound ? (void)cmp(o, r[i], r[j]) : (void)bin(o, r[j], r[k]); }, "division by zero in a history");
            }
            else
            {
                Q w = ref(o, a, b);
                if (!w.fits()) continue;
                if (compound) cmp(o, r[i], r[j]);
                else r[i] = bin(o, r[j], r[k]);
                v[i] = w;
                ++done;
            }
        }
        else if (op == 10) { Q w = v[i] + Q(1); if (w.fits()) { ++r[i]; v[i] = w; } }
        else if (op == 11) { Q w(-v[j].n, v[j].d); if (w.fits()) { r[i] = -r[j]; v[i] = w; } }
        else if (op == 12) { Fraction t(std::move(r[j])); Q w = v[j]; v[j] = Q(0); r[i] = t; v[i] = w; }
        else { r[i] = r[j]; v[i] = v[j]; }
        for (int m = 0; m < N; ++m)
        {
            samef(g, r[m], v[m], "register in a history");
        }
    }
    Blind::open_eyes();
    for (int m = 0; m < N; ++m)
    {
        samef(g, r[m], v[m], "register at the end");
    }
    g.nontrivial_if(done >= 5);
}

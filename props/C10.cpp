#include "fracref.hpp"

static pbt::Config config("C10",
    "pairs of fractions (whole int range, either sign, zeros, integers, built from common factors) whose gcd or lcm fits, against the "
    "gcd over the common denominator and the defining divisibility laws; non-trivial: both non-zero and different, and at least "
    "one of gcd and lcm fits and is no integer",
    4500000, 700000);

PBT_SUB(pair, 1)
{
    Q a, b;
    switch (g.pick({2, 3, 3}))
    {
        case 0: a = gen_q(g); b = gen_q_related(g, a); break;
        case 1: a = Q(g.range(-40, 40), 1 + g.below(24)); b = Q(g.range(-40, 40), 1 + g.below(24)); break;
        default: // common factor f
        {
            Q f(1 + g.below(1000), 1 + g.below(1000));
            a = f * Q(g.range(-300, 300), 1 + g.below(60));
            b = f * Q(g.range(-300, 300), 1 + g.below(60));
        }
    }
    if (!a.fits() || !b.fits())
    {
        throw pbt::Discard();
    }
    g.note("a = ", a, "\nb = ", b);
    Fraction x = gen_frac_of(g, a), y = gen_frac_of(g, b);
    // over the common denominator a.d * b.d
    wide n1 = a.n * b.d, n2 = b.n * a.d, m = wgcd(n1, n2);
    Q d = Q(m, a.d * b.d);
    Q l = a.n == 0 || b.n == 0 ? Q(0) : Q(wabs(n1) / m * 1, 1) * Q(wabs(b.n), b.d); // |a| * |b| / gcd = (|n1| / m) * |b|
    if (d.fits())
    {
        samef(g, Fraction::gcd(x, y), d, "gcd(a, b)");
        samef(g, Fraction::gcd(y, x), d, "gcd(b, a)");
        if (m != 0)
        {
            Q p = a / d, q = b / d;
            if (p.d != 1 || q.d != 1 || wgcd(p.n, q.n) != 1) std::abort(); // reference is wrong
        }
        if (d.d != 1) g.label("gcd is a proper fraction");
        g.nontrivial_if(a.n != 0 && b.n != 0 && !(a == b) && d.d != 1);
    }
    else g.label("gcd does not fit");
    if (l.fits())
    {
        samef(g, Fraction::lcm(x, y), l, "lcm(a, b)");
        samef(g, Fraction::lcm(y, x), l, "lcm(b, a)");
        if (l.d != 1) g.label("lcm is a proper fraction");
        g.nontrivial_if(a.n != 0 && b.n != 0 && !(a == b) && l.d != 1);
    }
    else g.label("lcm does not fit");
    if (a.n < 0 || b.n < 0) g.label("negative operand");
    if (a.n == 0 || b.n == 0) g.label("zero operand");
    Q self(wabs(a.n), a.d);
    if (self.fits())
    {
        samef(g, Fraction::gcd(x, x), self, "gcd(a, a)");
        samef(g, Fraction::lcm(x, x), self, "lcm(a, a)");
        samef(g, Fraction::gcd(x, Fraction(0)), self, "gcd(a, 0)");
        samef(g, Fraction::lcm(x, Fraction(0)), Q(0), "lcm(a, 0)");
    }
    samef(g, x, a, "first argument");
    samef(g, y, b, "second argument");
}

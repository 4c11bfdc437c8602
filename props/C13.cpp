#include "common.hpp"
#include "complex.hpp"
#include <complex>
using pyincpp::Complex;

static pbt::Config config("C13",
    "bases of modulus 1e-2 to 1e2 in every direction (axes and quadrants), real, imaginary and mixed exponents of modulus up to 8, "
    "bases near the unit circle with exponents up to 2^36, the "
    "zero cases, bases of modulus 2^-24 to 2^150, and pairs of numbers with equal, adjacent and different components (up to the extremes of double and infinity); "
    "non-trivial: mixed exponent, or a pair that differs in one component only",
    2500000, 500000);

typedef std::complex<long double> C;
static std::string text(const Complex& z)
{
    std::ostringstream os;
    os.precision(17);
    os << "(" << z.real() << ", " << z.imag() << ")";
    return os.str();
}
static double part(G& g, int max, int den) // multiple of 1/den
{
    return double(g.range(0, max * den) * (g.coin() ? -1 : 1)) / den + 0.0;
}

PBT_SUB(power, 6)
{
    double br = 0, bi = 0, er = 0, ei = 0;
    switch (g.pick({4, 1, 1, 1}))
    {
        case 0: br = part(g, 9, 8); bi = part(g, 9, 8); break;
        case 1: br = part(g, 60, 100); break;
        case 2: bi = part(g, 60, 100); break;
        default: br = g.range(-3, 3); bi = g.range(-3, 3);
    }
    switch (g.pick({4, 2, 1, 1}))
    {
        case 0: er = part(g, 5, 8); ei = part(g, 5, 8); break;
        case 1: er = g.range(-6, 6); break;
        case 2: er = part(g, 6, 4); break;
        default: ei = part(g, 6, 4);
    }
    if (g.chance(1, 12)) // near the unit circle, very large exponent
    {
        const double big = std::ldexp(1.0, g.range(8, 36)) + g.range(-3, 3);
        er = g.coin() ? big : -big;
        ei = g.chance(1, 5) ? part(g, 6, 4) : 0;
        br = 1 + g.range(-16, 16) / big;
        bi = g.chance(1, 3) ? g.range(-16, 16) / big : 0;
        if (g.chance(1, 3)) std::swap(br, bi);
        if (g.coin()) br = -br;
        if (g.chance(1, 4)) bi = -bi;
        g.label("large exponent");
    }
    else if (g.chance(1, 16)) // very large or small base, small exponent
    {
        const double f = std::ldexp(1.0, g.range(20, 150));
        const bool small = g.coin();
        br = small ? br * std::ldexp(1.0, -g.range(7, 24)) : br * f;
        bi = small ? bi * std::ldexp(1.0, -g.range(7, 24)) : bi * f;
        g.label("base far from 1");
    }
    br += 0.0;
    bi += 0.0;
    const Complex b(br, bi), e(er, ei);
    g.note("pow(", text(b), ", ", text(e), ")");
    Complex x = b, y = e;
    if (er == 0 && ei == 0)
    {
        Complex r = Complex::pow(x, y);
        g.label("exponent 0");
        g.require_f(r.real() == 1 && r.imag() == 0, [&] { return "pow(b, 0) is " + text(r); });
        return;
    }
    if (br == 0 && bi == 0)
    {
        g.label("base 0");
        must_reject(g, [&] { Complex::pow(x, y); }, "pow(0, e)");
        g.require(x.real() == 0 && x.imag() == 0 && y.real() == er && y.imag() == ei, "arguments of the rejected pow are unchanged");
        return;
    }
    g.nontrivial_if(er != 0 && ei != 0 && br != 0 && bi != 0);
    if (bi == 0 && br < 0) g.label("negative real base");
    C lg(std::log(std::hypot((long double)br, (long double)bi)), std::atan2((long double)bi, (long double)br));
    C t = C(er, ei) * lg;
    C want = std::exp(t);
    // the logarithm of a base near the unit circle has an absolute error, which the exponent multiplies
    long double tol = std::abs(want) * ((1 + std::abs(t)) * 1e-12L + std::hypot(er, ei) * 4e-15L);
    Complex r = Complex::pow(x, y);
    g.require_f(std::fabs(r.real() - want.real()) <= tol && std::fabs(r.imag() - want.imag()) <= tol,
                [&] { return "pow(" + text(b) + ", " + text(e) + "): got " + text(r) + ", want " + text(Complex(double(want.real()), double(want.imag()))); });
    g.require(x.real() == br && x.imag() == bi && y.real() == er && y.imag() == ei, "arguments of pow are unchanged");
    if (ei == 0) // real argument converts
    {
        Complex s = Complex::pow(x, er);
        g.require(s.real() == r.real() && s.imag() == r.imag(), "pow with a real exponent");
    }
    if (br == er && bi == ei)
    {
        Complex s = Complex::pow(x, x);
        g.require(s.real() == r.real() && s.imag() == r.imag(), "pow of a number to itself");
    }
}

static double gen_any(G& g)
{
    switch (g.pick({4, 2, 2, 1}))
    {
        case 0: return part(g, 20, 8);
        case 1: return std::ldexp(1 + double(g.draw(1u << 30)) / (1u << 30), g.range(-60, 60)) * (g.coin() ? -1 : 1);
        case 2:
        {
            static const double s[] = {0.0, -0.0, 1e300, -1e300, 1.7976931348623157e308, 5e-324, 2.2250738585072014e-308, INFINITY, -INFINITY, 1, 2, 0.1, 0.3};
            return g.of(s);
        }
        default:
            return std::ldexp(1.0, g.range(-1000, 1000));
    }
}

PBT_SUB(equality, 6)
{
    const double eps = std::numeric_limits<double>::epsilon();
    double re = gen_any(g), im = gen_any(g), re2 = re, im2 = im;
    auto change = [&](double v) -> double {
        switch (g.below(6))
        {
            case 0: return std::nextafter(v, g.coin() ? 1e308 : -1e308);
            case 1: return v + eps * (1 + g.below(4));
            case 2: return v - eps * (1 + g.below(4));
            case 3: return -v;
            case 4: return v * (1 + eps);
            default: return gen_any(g);
        }
    };
    int which = g.below(4);
    if (which & 1) re2 = change(re);
    if (which & 2) im2 = change(im);
    const Complex a(re, im), b(re2, im2);
    g.note(text(a), " and ", text(b));
    auto differ = [&](double p, double q) { return p != q && !(std::fabs(p - q) < eps); }; // by epsilon or more
    g.require(a == a && !(a != a), "a number equals itself");
    g.require_f(a == Complex(re, im) && Complex(re, im) == a, [&] { return text(a) + " does not equal a number with the same components"; });
    g.require_f((a == b) == (b == a) && (a != b) == (b != a) && (a == b) != (a != b), [&] { return "equality of " + text(a) + " and " + text(b) + " is not symmetric"; });
    if (re == re2 && im == im2)
    {
        g.require_f(a == b, [&] { return text(a) + " and " + text(b) + " have the same components but are unequal"; });
    }
    if (differ(re, re2) || differ(im, im2))
    {
        g.label("unequal");
        g.require_f(!(a == b) && a != b, [&] { return text(a) + " and " + text(b) + " compare equal"; });
        g.nontrivial_if(!(differ(re, re2) && differ(im, im2)));
    }
    if (im == 0)
    {
        g.require(a == re, "equal to its real value");
    }
}

#include "common.hpp"
#include "complex.hpp"
#include <complex>
using pyincpp::Complex;

static pbt::Config config("C12",
    "complex numbers with components 0, small integers, dyadic and decimal fractions and magnitudes 1e-6 to 1e6 (some 1e-12 to 1e60), related operands "
    "(equal, conjugate, negated, purely real or imaginary), against long double arithmetic with a tolerance of 1e-13 of the terms that each part is the sum of; "
    "non-trivial: both operands have non-zero real and imaginary part",
    3500000, 600000);

typedef std::complex<long double> C;

static double gen_part(G& g)
{
    double v;
    switch (g.pick({12, 12, 8, 8, 1}))
    {
        case 4: v = std::ldexp(1 + double(g.draw(1u << 30)) / (1u << 30), g.range(-40, 200)); break; // products and squares stay finite
        case 0: v = g.below(13); break;
        case 1: v = g.below(4096) / 64.0; break;
        case 2: v = g.below(2000000) / 1000.0; break;
        default:
        {
            static const double p[] = {1, 10, 1e2, 1e4, 1e6, 0.1, 1e-2, 1e-4, 1e-6};
            v = (1 + double(g.draw(1u << 30)) / (1u << 30)) * g.of(p);
        }
    }
    return g.coin() && v != 0 ? -v : v;
}
static Complex gen_c(G& g) { double re = gen_part(g); return Complex(re, gen_part(g)); }
static Complex related(G& g, const Complex& a)
{
    double re = a.real(), im = a.imag();
    switch (g.pick({6, 1, 1, 1, 1, 1}))
    {
        case 0: return gen_c(g);
        case 1: return Complex(re, im);
        case 2: return Complex(re, im == 0 ? 0 : -im);
        case 3: return Complex(re == 0 ? 0 : -re, im == 0 ? 0 : -im);
        case 4: return Complex(gen_part(g), 0);
        default: return Complex(0, gen_part(g));
    }
}
static C ref(const Complex& z) { return C(z.real(), z.imag()); }
static std::string text(const Complex& z)
{
    std::ostringstream os;
    os.precision(17);
    os << "(" << z.real() << ", " << z.imag() << ")";
    return os.str();
}
// size: the sum of the magnitudes of the products (or terms) that a part is the sum of, for each part
static void close(G& g, const Complex& got, const C& want, const C& size, const char* what)
{
    ++g.steps;
    if (!(std::fabs(got.real() - want.real()) <= 1e-13L * size.real() && std::fabs(got.imag() - want.imag()) <= 1e-13L * size.imag()))
    {
        std::ostringstream os;
        os.precision(20);
        os << what << ": got " << text(got) << ", want (" << want.real() << ", " << want.imag() << ")";
        g.fail(os.str());
    }
}
static void exact(G& g, const Complex& got, double re, double im, const char* what)
{
    g.require_f(got.real() == re && got.imag() == im, [&] { return std::string(what) + ": got " + text(got) + ", want " + text(Complex(re, im)); });
}
static bool zero(const Complex& z) { return z.real() == 0 && z.imag() == 0; }

static void apply(int op, const C& x, const C& y, C& w, C& size)
{
    const long double a = x.real(), b = x.imag(), c = y.real(), d = y.imag(), n = c * c + d * d;
    const auto mag = [](long double p, long double q) { return std::fabs(p) + std::fabs(q); };
    switch (op)
    {
        case 0: w = C(a + c, b + d); size = C(mag(a, c), mag(b, d)); break;
        case 1: w = C(a - c, b - d); size = C(mag(a, c), mag(b, d)); break;
        case 2: w = C(a * c - b * d, a * d + b * c); size = C(mag(a * c, b * d), mag(a * d, b * c)); break;
        default: w = C((a * c + b * d) / n, (b * c - a * d) / n); size = C(mag(a * c, b * d) / n, mag(b * c, a * d) / n);
    }
}
static Complex bin(int op, const Complex& x, const Complex& y) { return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; }
static const void* cmp(int op, Complex& x, const Complex& y) { return op == 0 ? WHERE(x += y) : op == 1 ? WHERE(x -= y) : op == 2 ? WHERE(x *= y) : WHERE(x /= y); }

PBT_SUB(arithmetic, 6)
{
    static const char* names[] = {"a + b", "a - b", "a * b", "a / b"};
    const Complex a = gen_c(g), b = related(g, a);
    int op = g.below(4);
    g.note(names[op], " with a = ", text(a), ", b = ", text(b));
    g.nontrivial_if(a.real() != 0 && a.imag() != 0 && b.real() != 0 && b.imag() != 0);
    Complex x = a, y = b;
    if (op == 3 && zero(b))
    {
        g.label("division by zero");
        must_reject(g, [&] { x / y; }, "a / 0");
        must_reject(g, [&] { x /= y; }, "a /= 0");
        exact(g, x, a.real(), a.imag(), "operand after the rejected division");
        Complex z = y;
        must_reject(g, [&] { z /= z; }, "0 /= itself");
        exact(g, z, 0, 0, "operand after the rejected division");
        return;
    }
    C w;
    C scale;
    apply(op, ref(a), ref(b), w, scale);
    close(g, bin(op, x, y), w, scale, names[op]);
    exact(g, x, a.real(), a.imag(), "left operand");
    exact(g, y, b.real(), b.imag(), "right operand");
    g.require(cmp(op, x, y) == &x, "compound assignment returns its left operand");
    close(g, x, w, scale, "compound form");
    exact(g, y, b.real(), b.imag(), "right operand of the compound form");
    if (!(op == 3 && zero(a)))
    {
        apply(op, ref(a), ref(a), w, scale);
        Complex s = a;
        close(g, bin(op, s, s), w, scale, "binary form with itself");
        cmp(op, s, s);
        close(g, s, w, scale, "compound form with itself");
    }
    double d = gen_part(g); // mixed with a real number
    if (!(op == 3 && d == 0))
    {
        apply(op, ref(a), C(d, 0), w, scale);
        close(g, bin(op, a, d), w, scale, "with a real number");
        Complex t = a;
        cmp(op, t, d);
        close(g, t, w, scale, "compound with a real number");
    }
}

PBT_SUB(parts, 4)
{
    double re = gen_part(g), im = gen_part(g);
    g.note("z = ", text(Complex(re, im)));
    const Complex z(re, im);
    g.nontrivial_if(re != 0 && im != 0);
    exact(g, z, re, im, "components");
    exact(g, Complex(re), re, 0, "components of a real number");
    exact(g, Complex(), 0, 0, "components of the default value");
    exact(g, -z, -re, -im, "-z");
    exact(g, +z, re, im, "+z");
    exact(g, z.conjugate(), re, -im, "conjugate");
    exact(g, z.conjugate().conjugate(), re, im, "conjugate of the conjugate");
    exact(g, z, re, im, "operand");
    long double m = std::hypot((long double)re, (long double)im);
    g.require_f(std::fabs(z.abs() - m) <= 1e-13L * m, [&] { return "abs of " + text(z) + " is " + std::to_string(z.abs()); });
    if (re != 0 || im != 0)
    {
        double t = z.arg();
        long double want = std::atan2((long double)im, (long double)re);
        g.require_f(std::fabs(t - want) <= 1e-13L, [&] { return "arg of " + text(z) + " is " + std::to_string(t); });
        g.require(t > -3.1415926535897936 && t <= 3.1415926535897936, "arg is in (-pi, pi]");
    }
    Complex c = z;
    exact(g, c, re, im, "copy");
    Complex d;
    d = c;
    exact(g, d, re, im, "assigned copy");
}

PBT_SUB(history, 3)
{
    // exact: small Gaussian integers stay exact in double
    constexpr int N = 3;
    Complex r[N];
    long long re[N], im[N];
    for (int i = 0; i < N; ++i)
    {
        re[i] = g.range(-9, 9);
        im[i] = g.range(-9, 9);
        r[i] = Complex(double(re[i]), double(im[i]));
        g.note("r", i, " = ", text(r[i]));
    }
    Blind blind(g);
    int ops = 0;
    while (g.more(ops, 30, 10))
    {
        int i = g.below(N), j = g.below(N), k = g.below(N), op = g.below(10);
        ++ops;
        long long m = 0;
        for (int t = 0; t < N; ++t) m = std::max({m, std::abs(re[t]), std::abs(im[t])});
        if (m > (1ll << 50)) break;
        if (m > (1ll << 24) && (op == 2 || op == 5)) op = 6;
        g.note("op ", op, " on r", i, ", r", j, ", r", k);
        long long a = re[i], b = im[i], c = re[j], d = im[j], e = re[k], f = im[k];
        switch (op)
        {
            case 0: r[i] = r[j] + r[k]; re[i] = c + e; im[i] = d + f; break;
            case 1: r[i] = r[j] - r[k]; re[i] = c - e; im[i] = d - f; break;
            case 2: r[i] = r[j] * r[k]; re[i] = c * e - d * f; im[i] = c * f + d * e; break;
            case 3: r[i] += r[j]; re[i] = a + c; im[i] = b + d; break;
            case 4: r[i] -= r[j]; re[i] = a - c; im[i] = b - d; break;
            case 5: r[i] *= r[j]; re[i] = a * c - b * d; im[i] = a * d + b * c; break;
            case 6: r[i] = -r[j]; re[i] = -c; im[i] = -d; break;
            case 7: r[i] = r[j].conjugate(); re[i] = c; im[i] = -d; break;
            case 8: if (i != j) { r[i] = std::move(r[j]); re[i] = c; im[i] = d; re[j] = im[j] = 0; } break;
            default: r[i] = r[j]; re[i] = c; im[i] = d;
        }
        for (int t = 0; t < N; ++t)
        {
            if (!Blind::on || g.chance(1, 12)) exact(g, r[t], double(re[t]), double(im[t]), "register in a history");
        }
    }
    for (int t = 0; t < N; ++t)
    {
        exact(g, r[t], double(re[t]), double(im[t]), "register at the end");
    }
    g.nontrivial_if(ops >= 5);
}

// Reference rationals and generators for Fraction.
#ifndef FRACREF_HPP
#define FRACREF_HPP
#include "common.hpp"
#include "fraction.hpp"
#include <optional>

using pyincpp::Fraction;
typedef __int128 wide;

inline std::ostream& operator<<(std::ostream& os, wide v)
{
    if (v < 0)
    {
        os << '-';
        v = -v;
    }
    std::string s;
    do
    {
        s += char('0' + int(v % 10));
        v /= 10;
    } while (v);
    return os << std::string(s.rbegin(), s.rend());
}
inline wide wabs(wide v) { return v < 0 ? -v : v; }
inline wide wgcd(wide a, wide b)
{
    a = wabs(a);
    b = wabs(b);
    while (b)
    {
        wide t = a % b;
        a = b;
        b = t;
    }
    return a;
}

struct Q // an exact rational in lowest terms, |terms| < 2^63 or so
{
    wide n = 0, d = 1;
    Q() = default;
    Q(wide num, wide den = 1)
    {
        if (den < 0)
        {
            num = -num;
            den = -den;
        }
        wide g = wgcd(num, den);
        n = num / g;
        d = den / g;
    }
    bool fits() const { return n >= INT32_MIN && n <= INT32_MAX && d >= 1 && d <= INT32_MAX; }
    bool operator==(const Q& o) const { return n == o.n && d == o.d; }
    int cmp(const Q& o) const
    {
        wide l = n * o.d, r = o.n * d;
        return l < r ? -1 : l > r;
    }
};
inline Q operator+(const Q& a, const Q& b) { return Q(a.n * b.d + b.n * a.d, a.d * b.d); }
inline Q operator-(const Q& a, const Q& b) { return Q(a.n * b.d - b.n * a.d, a.d * b.d); }
inline Q operator*(const Q& a, const Q& b) { return Q(a.n * b.n, a.d * b.d); }
inline Q operator/(const Q& a, const Q& b) { return Q(a.n * b.d, a.d * b.n); }
inline Q operator%(const Q& a, const Q& b)
{
    wide t = (a.n * b.d) / (a.d * b.n); // truncated quotient: a.d > 0
    return a - b * Q(t);
}
inline std::ostream& operator<<(std::ostream& os, const Q& q)
{
    return q.d == 1 ? os << q.n : os << q.n << "/" << q.d;
}

inline int gen_den(G& g)
{
    switch (g.pick({5, 3, 1, 1}))
    {
        case 0: return 1 + g.below(12);
        case 1:
        {
            static const int smooth[] = {1, 2, 4, 6, 8, 12, 60, 64, 97, 120, 360, 1000, 5040, 65536, 46341, 720720, 1000000, 1 << 30, 735134400, 2147483647};
            return g.of(smooth);
        }
        case 2: return 1 + int(g.draw(INT32_MAX - 1));
        default:
        {
            int v = g.any_int();
            return v > 0 ? v : v == INT32_MIN ? INT32_MAX : v == 0 ? 1 : -v;
        }
    }
}
inline Q gen_q(G& g)
{
    Q q;
    switch (g.pick({4, 3, 1}))
    {
        case 0: q = Q(g.range(0, 24) * (g.coin() ? -1 : 1), 1 + g.below(12)); break;
        case 1: q = Q(g.any_int(), gen_den(g)); break;
        default: q = Q(g.any_int());
    }
    return q;
}
// another fraction, related to a: equal, same denominator, reciprocal, neighbour, negated
inline Q gen_q_related(G& g, const Q& a)
{
    Q b;
    switch (g.pick({8, 1, 3, 1, 2, 1, 2}))
    {
        case 0: b = gen_q(g); break;
        case 1: b = a; break;
        case 2: b = Q(g.any_int(), a.d); break;
        case 3: b = a.n != 0 ? Q(a.d, a.n) : Q(0); break;
        case 4: b = Q(a.n + g.range(-1, 1), std::max<wide>(1, a.d + g.range(-1, 1))); break;
        case 5: b = Q(-a.n, a.d); break;
        default: // common factors, so that the result is small
        {
            wide f = 1 + g.below(12);
            b = Q(a.n / f, std::max<wide>(1, a.d / (1 + g.below(6))));
        }
    }
    return b.fits() ? b : Q(g.range(-5, 5), 1 + g.below(5));
}
inline Fraction frac(const Q& q) { return Fraction((long long)(q.n), (long long)(q.d)); }

// A Fraction of value q, by one of several ways.
inline Fraction gen_frac_of(G& g, const Q& q)
{
    switch (g.pick({5, 2, 1, 1, 1, 1}))
    {
        case 0: return frac(q);
        case 1: // unreduced, possibly with negative denominator
        {
            wide k = 1 + g.below(12);
            if (g.coin()) k = -k;
            if (wabs(q.n * k) <= INT32_MAX && q.d * wabs(k) <= INT32_MAX)
            {
                return Fraction(int(q.n * k), int(q.d * k));
            }
            return frac(q);
        }
        case 2: return q.n == INT32_MIN ? frac(q) : -frac(Q(-q.n, q.d));
        case 3:
        {
            Q d = Q(g.range(-9, 9), 1 + g.below(4)), s = q + d;
            return s.fits() ? frac(s) - frac(d) : frac(q);
        }
        case 4:
        {
            Q d = Q(1 + g.below(9), 1 + g.below(4)), s = q * d;
            return s.fits() ? frac(s) / frac(d) : frac(q);
        }
        default:
        {
            Fraction a = frac(q), b = std::move(a);
            a = b;
            return a;
        }
    }
}
inline void samef(G& g, const Fraction& f, const Q& q, const char* what)
{
    ++g.steps;
    if (Blind::on)
    {
        if (!g.chance(1, 4)) return;
        const int k = g.below(6);
        g.note("(look ", k, ")");
        const Fraction fresh((long long)(q.n), (long long)(q.d));
        bool ok = true;
        switch (k)
        {
            case 0: ok = wide(f.numerator()) == q.n; break;
            case 1: ok = wide(f.denominator()) == q.d; break;
            case 2: ok = g.coin() ? f == fresh : fresh == f; break;
            case 3: ok = g.coin() ? !(f < fresh) : !(fresh < f); break;
            case 4:
            {
                std::ostringstream a, b;
                a << f;
                b << fresh;
                ok = a.str() == b.str();
                break;
            }
            default:
            {
                const Fraction copy(f);
                ok = wide(copy.denominator()) == q.d && wide(copy.numerator()) == q.n;
            }
        }
        if (!ok)
        {
            std::ostringstream os;
            os << what << " (look " << k << "): got " << f.numerator() << "/" << f.denominator() << ", want " << q.n << "/" << q.d;
            g.fail(os.str());
        }
        return;
    }
    if (wide(f.numerator()) != q.n || wide(f.denominator()) != q.d)
    {
        std::ostringstream os;
        os << what << ": got " << f.numerator() << "/" << f.denominator() << ", want " << q.n << "/" << q.d;
        g.fail(os.str());
    }
    const Fraction fresh((long long)(q.n), (long long)(q.d));
    if (!(f == fresh) || f != fresh || f < fresh || f > fresh)
    {
        g.fail(std::string(what) + ": result does not compare equal to that fraction");
    }
}
#endif

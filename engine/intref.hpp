// Reference integers (boost cpp_int) and structured generators for Int.
#ifndef INTREF_HPP
#define INTREF_HPP
#include "common.hpp"
#include "int.hpp"
#include <boost/multiprecision/cpp_int.hpp>

using Big = boost::multiprecision::number<boost::multiprecision::cpp_int_backend<>, boost::multiprecision::et_off>;
using pyincpp::Int;

inline Int lit(const Big& v) // directly from the canonical literal
{
    return Int(v.str().c_str());
}
inline Big big(const std::string& s) { return Big(s); }
inline Big big_abs(const Big& v) { return v < 0 ? Big(-v) : v; }
inline Big pow10(int k) { return boost::multiprecision::pow(Big(10), unsigned(k)); }
inline std::string brief(const Big& v)
{
    std::string s = v.str();
    return s.size() > 300 ? s.substr(0, 140) + "...(" + std::to_string(s.size()) + " chars)..." + s.substr(s.size() - 140) : s;
}

// a digit string of length n >= 1, first digit not 0, in one of several textures
inline std::string gen_digits(G& g, int n)
{
    std::string s(std::size_t(n), '0');
    const int style = g.pick({6, 2, 2, 3, 3, 2, 2});
    switch (style)
    {
        case 0: // random
            if (n <= 12)
            {
                for (auto& c : s)
                {
                    c = char('0' + g.below(10));
                }
            }
            else
            {
                pbt::Rng r(g.seed64());
                for (auto& c : s)
                {
                    c = char('0' + r.upto(9));
                }
            }
            break;
        case 1: // power of ten
            break;
        case 2: // nines
            s.assign(std::size_t(n), '9');
            break;
        case 3: // sparse
        case 4: // nines with holes
        {
            char fill = style == 3 ? '0' : '9';
            s.assign(std::size_t(n), fill);
            int k = g.range(1, 4);
            for (int i = 0; i < k; ++i)
            {
                s[std::size_t(g.below(n))] = char('0' + g.below(10));
            }
            break;
        }
        case 5: // blocks of zeros and nines
        {
            pbt::Rng r(g.seed64());
            char c = '9';
            for (int i = 0; i < n;)
            {
                int len = r.range(1, std::max(1, n / 3));
                for (; len > 0 && i < n; --len)
                {
                    s[std::size_t(i++)] = c;
                }
                c = c == '9' ? '0' : '9';
            }
            break;
        }
        default: // one digit repeated, or a short period
        {
            int p = g.range(1, 3);
            std::string unit;
            for (int i = 0; i < p; ++i)
            {
                unit += char('0' + g.below(10));
            }
            for (int i = 0; i < n; ++i)
            {
                s[std::size_t(i)] = unit[std::size_t(i % p)];
            }
        }
    }
    if (s[0] == '0')
    {
        s[0] = '1';
    }
    return s;
}

inline Big gen_nat(G& g, int max_digits)
{
    switch (g.pick({4, 2, 8, 2, 1}))
    {
        case 0:
            return Big(g.range(0, 130));
        case 1:
        {
            long long v = g.any_int();
            return Big(v < 0 ? -v : v);
        }
        case 2:
        {
            int n = std::max(1, g.length(max_digits, 24));
            Big v = big(gen_digits(g, n));
            if (g.chance(1, 4))
            {
                v += g.range(-3, 3);
            }
            return v < 0 ? Big(0) : v;
        }
        case 3:
        {
            Big v = Big(1) << g.below(max_digits * 3);
            v += g.range(-2, 2);
            return v < 0 ? Big(0) : v;
        }
        default:
        {
            const auto& h = pbt::Hints::get().ints;
            return h.empty() ? Big(0) : Big(std::abs(g.elem(h)));
        }
    }
}
inline Big gen_big(G& g, int max_digits)
{
    Big v = gen_nat(g, max_digits);
    return g.chance(2, 5) ? Big(-v) : v;
}

// an operand related to a in a way that matters for carries, borrows and comparison
inline Big gen_related(G& g, const Big& a, int max_digits)
{
    Big m = big_abs(a), b;
    int len = int(m.str().size());
    switch (g.pick({8, 2, 2, 2, 2, 2}))
    {
        case 0:
            return gen_big(g, max_digits);
        case 1: // equal or next to it
            b = m + g.range(-2, 2);
            break;
        case 2: // same leading digits
        {
            Big p = pow10(g.below(len + 1));
            b = m / p * p + gen_nat(g, max_digits) % p;
            break;
        }
        case 3: // complement to a power of ten: long carries
            b = pow10(len + g.range(0, 2)) - m + g.range(-1, 1);
            break;
        case 4: // shifted copy
            b = g.coin() ? Big(m * pow10(g.below(4))) : Big(m / pow10(g.below(4)));
            break;
        default: // one digit different
        {
            Big p = pow10(g.below(len));
            b = m + p * g.range(-1, 1);
        }
    }
    return g.chance(2, 5) ? Big(-b) : b;
}

// An Int of value v, produced in one of several ways.
inline Int gen_int_of(G& g, const Big& v)
{
    switch (g.pick({8, 1, 1, 1, 1, 1, 1, 1}))
    {
        case 0:
            return lit(v);
        case 1: // padded literal
        {
            std::string s = big_abs(v).str();
            s.insert(0, std::string(std::size_t(g.below(12)), '0'));
            s.insert(0, v < 0 ? "-" : g.coin() ? "+" : "");
            return Int(s.c_str());
        }
        case 2: // from int
            if (v >= INT32_MIN && v <= INT32_MAX)
            {
                return Int(int(v));
            }
            return lit(v);
        case 3:
            return -lit(-v);
        case 4:
        {
            Big d = gen_related(g, v, 30);
            return lit(v + d) - lit(d);
        }
        case 5:
        {
            Big d = gen_related(g, v, 30);
            return lit(v - d) + lit(d);
        }
        case 6:
        {
            Int a = lit(v), b = std::move(a);
            a = b;
            return a;
        }
        default:
        {
            Int x = lit(v - 1);
            ++x;
            return x;
        }
    }
}

// x is an ordinary integer of value v
inline void same(G& g, const Int& x, const Big& v, const char* what)
{
    ++g.steps;
    if (Blind::on)
    {
        if (!g.chance(1, 4)) return;
        const int k = g.below(8);
        g.note("(look ", k, ")");
        const Int fresh(v.str().c_str());
        bool ok = true;
        switch (k)
        {
            case 0: ok = show(x) == v.str(); break;
            case 1: ok = g.coin() ? x == fresh : fresh == x; break;
            case 2: ok = g.coin() ? !(x < fresh) : !(fresh < x); break;
            case 3: ok = g.coin() ? !(x > fresh) : x <= fresh; break;
            case 4: ok = x.digits() == fresh.digits(); break;
            case 5: ok = x.is_zero() == (v == 0) && x.is_negative() == (v < 0); break;
            case 6: ok = x.is_even() == (v % 2 == 0); break;
            default:
            {
                const Int copy(x);
                ok = show(copy) == v.str();
            }
        }
        if (!ok) g.fail(std::string(what) + " (look " + std::to_string(k) + "): got " + show(x).substr(0, 600) + ", want " + v.str().substr(0, 600));
        return;
    }
    std::string want = v.str(), got = show(x);
    if (got != want)
    {
        g.fail(std::string(what) + ": got " + got.substr(0, 600) + ", want " + want.substr(0, 600));
    }
    const Int fresh(want.c_str());
    if (!(x == fresh) || !(fresh == x) || x != fresh || x < fresh || x > fresh || !(x <= fresh) || !(x >= fresh))
    {
        g.fail(std::string(what) + ": result prints " + got.substr(0, 600) + " but does not compare equal to that integer");
    }
    if (x.digits() != fresh.digits() || x.is_zero() != fresh.is_zero() || x.is_negative() != fresh.is_negative() || x.is_even() != fresh.is_even())
    {
        g.fail(std::string(what) + ": result prints " + got.substr(0, 600) + " but is not an ordinary integer of that value");
    }
}
inline bool carries(const Big& a, const Big& b) // adding |a| and |b| carries
{
    std::string s = big_abs(a).str(), t = big_abs(b).str();
    for (std::size_t i = 0; i < std::min(s.size(), t.size()); ++i)
    {
        if (s[s.size() - 1 - i] - '0' + t[t.size() - 1 - i] - '0' >= 10)
        {
            return true;
        }
    }
    return false;
}
#endif

// Decimal text arithmetic for integers too long for the reference integer: canonical texts such as "-120".
#ifndef HUGEREF_HPP
#define HUGEREF_HPP
#include "intref.hpp"

struct Dec
{
    bool neg = false;
    std::string mag = "0"; // no leading zeros
    std::string text() const { return (neg && mag != "0" ? "-" : "") + mag; }
    bool operator==(const Dec& o) const { return text() == o.text(); }
};
inline int mag_cmp(const std::string& a, const std::string& b)
{
    if (a.size() != b.size()) return a.size() < b.size() ? -1 : 1;
    const int c = a.compare(b);
    return c < 0 ? -1 : c > 0 ? 1 : 0;
}
inline std::string mag_trim(std::string s)
{
    const std::size_t i = s.find_first_not_of('0');
    return i == std::string::npos ? "0" : s.substr(i);
}
inline std::string mag_add(const std::string& a, const std::string& b)
{
    std::string r(std::max(a.size(), b.size()) + 1, '0');
    int carry = 0;
    for (std::size_t i = 0; i < r.size(); ++i)
    {
        const int s = (i < a.size() ? a[a.size() - 1 - i] - '0' : 0) + (i < b.size() ? b[b.size() - 1 - i] - '0' : 0) + carry;
        r[r.size() - 1 - i] = char('0' + s % 10);
        carry = s / 10;
    }
    return mag_trim(r);
}
inline std::string mag_sub(const std::string& a, const std::string& b) // a >= b
{
    std::string r(a.size(), '0');
    int borrow = 0;
    for (std::size_t i = 0; i < a.size(); ++i)
    {
        int s = (a[a.size() - 1 - i] - '0') - (i < b.size() ? b[b.size() - 1 - i] - '0' : 0) - borrow;
        borrow = s < 0;
        r[a.size() - 1 - i] = char('0' + (s < 0 ? s + 10 : s));
    }
    return mag_trim(r);
}
inline std::string mag_times(const std::string& a, int k) // k >= 0, small
{
    std::string r;
    long long carry = 0;
    for (std::size_t i = a.size(); i-- > 0;)
    {
        carry += (long long)(a[i] - '0') * k;
        r += char('0' + carry % 10);
        carry /= 10;
    }
    for (; carry; carry /= 10) r += char('0' + carry % 10);
    std::reverse(r.begin(), r.end());
    return mag_trim(r);
}
inline std::string mag_div(const std::string& a, int k, int& rest) // k > 0, small
{
    std::string r;
    long long c = 0;
    for (char d : a)
    {
        c = c * 10 + (d - '0');
        r += char('0' + c / k);
        c %= k;
    }
    rest = int(c);
    return mag_trim(r);
}
inline Dec dec_add(const Dec& a, const Dec& b)
{
    if (a.neg == b.neg) return {a.neg, mag_add(a.mag, b.mag)};
    const int c = mag_cmp(a.mag, b.mag);
    if (c == 0) return {};
    return c > 0 ? Dec{a.neg, mag_sub(a.mag, b.mag)} : Dec{b.neg, mag_sub(b.mag, a.mag)};
}
inline Dec dec_neg(Dec a)
{
    a.neg = !a.neg && a.mag != "0";
    return a;
}
inline int dec_cmp(const Dec& a, const Dec& b)
{
    if (a.neg != b.neg) return a.neg ? -1 : 1;
    return a.neg ? -mag_cmp(a.mag, b.mag) : mag_cmp(a.mag, b.mag);
}
inline std::string brief(const Dec& a)
{
    const std::string t = a.text();
    return t.size() <= 80 ? t : t.substr(0, 30) + "...(" + std::to_string(t.size()) + " characters)..." + t.substr(t.size() - 30);
}

// rarely longer than any 16-bit index, usually some hundreds of digits
inline int gen_huge_length(G& g)
{
    switch (g.pick({200, 3, 2, 1}))
    {
        case 0: return g.range(200, 2500);
        case 1: return (1 << g.range(12, 16)) + g.range(-2, 2);
        case 2: return g.range(32700, 70000);
        default: return g.range(70000, 150000);
    }
}
inline Dec gen_dec(G& g, int n) { return {g.coin(), gen_digits(g, n)}; }
inline Dec gen_related_dec(G& g, const Dec& a)
{
    Dec b = a;
    const int n = int(a.mag.size());
    switch (g.pick({2, 5, 2, 2, 1, 1}))
    {
        case 0: break;
        case 1: // one digit differs
        {
            const int i = g.coin() ? g.below(n) : g.coin() ? g.below(std::min(n, 3)) : n - 1 - g.below(std::min(n, 3));
            b.mag[std::size_t(i)] = char('0' + g.below(10));
            if (b.mag[0] == '0') b.mag[0] = '7';
            break;
        }
        case 2: b.mag += char('0' + g.below(10)); break;
        case 3: b.mag.resize(std::size_t(1 + g.below(n))); break;
        case 4: b.mag = mag_sub("1" + std::string(std::size_t(n), '0'), a.mag); break; // complement: long carries
        default: b.mag = gen_digits(g, 1 + g.below(n));
    }
    if (g.chance(1, 4)) b.neg = !b.neg && b.mag != "0";
    if (b.mag == "0") b.neg = false;
    return b;
}
inline void same_dec(G& g, const Int& x, const Dec& want, const char* what)
{
    ++g.steps;
    const std::string got = show(x), w = want.text();
    if (got != w)
    {
        std::size_t i = 0;
        while (i < got.size() && i < w.size() && got[i] == w[i]) ++i;
        g.fail(std::string(what) + ": got " + std::to_string(got.size()) + " characters, want " + std::to_string(w.size()) + ", first difference at character " + std::to_string(i));
    }
}
#endif

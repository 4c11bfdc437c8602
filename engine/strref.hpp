// Reference functions (naive, on std::string) and generators for Str.
#ifndef STRREF_HPP
#define STRREF_HPP
#include "common.hpp"
#include "str.hpp"
#include <optional>

using pyincpp::Str;

inline std::string text(const Str& s) { return std::string(s.begin(), s.end()); }

struct Alphabet
{
    std::string chars; // empty: all bytes
    char one(G& g) const { return chars.empty() ? char(g.below(256)) : chars[std::size_t(g.below(int(chars.size())))]; }
    char one(pbt::Rng& r) const { return chars.empty() ? char(r.upto(255)) : chars[std::size_t(r.upto(chars.size() - 1))]; }
};
inline Alphabet gen_alphabet(G& g)
{
    switch (g.pick({5, 3, 2, 2, 1, 1}))
    {
        case 0: return {"ab"};
        case 1: return {"abc ,"};
        case 2: return {std::string("aA zZ@[`{09/:_.,-+") + std::string(1, '\0')};
        case 3: return {std::string("a \t\n\v\f\r!\x1f\x7f", 10) + std::string("\x80\x85\xa0\xe9\xff\0\x01", 7)};
        case 4: return {std::string("\xc3\xa9\xc4\xd6\xf6\xdf\xe4" "aZ", 9)};
        default: return {""};
    }
}
inline std::string gen_text(G& g, const Alphabet& a, int max, int small = 8)
{
    int n = g.reach(max, small);
    std::string s(std::size_t(n), 'a');
    if (n <= 24)
    {
        for (auto& c : s)
        {
            c = a.one(g);
        }
        return s;
    }
    switch (g.pick({3, 2, 2}))
    {
        case 0:
        {
            pbt::Rng r(g.seed64());
            for (auto& c : s)
            {
                c = a.one(r);
            }
            break;
        }
        case 1: // periodic
        {
            int p = 1 + g.below(4);
            std::string unit;
            for (int i = 0; i < p; ++i)
            {
                unit += a.one(g);
            }
            for (std::size_t i = 0; i < s.size(); ++i)
            {
                s[i] = unit[i % unit.size()];
            }
            break;
        }
        default: // constant with a few exceptions
        {
            std::fill(s.begin(), s.end(), a.one(g));
            for (int k = g.below(4); k > 0; --k)
            {
                s[std::size_t(g.below(n))] = a.one(g);
            }
        }
    }
    return s;
}
// a pattern that has a chance to occur in s
inline std::string gen_pattern(G& g, const Alphabet& a, const std::string& s)
{
    int n = int(s.size());
    std::string p;
    switch (g.pick({6, 4, 1, 1, 2, 1}))
    {
        case 0: // short
            for (int k = 1 + g.below(3); k > 0; --k)
            {
                p += a.one(g);
            }
            return p;
        case 1: // substring, possibly damaged
        {
            int i = g.below(n + 1), len = g.chance(1, 4) ? g.below(n - i + 1) : g.below(std::min(n - i, 6) + 1);
            p = s.substr(std::size_t(i), std::size_t(len));
            if (!p.empty() && g.chance(1, 4))
            {
                p[std::size_t(g.below(int(p.size())))] = a.one(g);
            }
            return p;
        }
        case 2:
            return s;
        case 3:
            return s + a.one(g);
        case 4: // prefix or suffix
            p = s.substr(0, std::size_t(g.below(n + 1)));
            return g.coin() ? p : s.substr(p.size());
        default:
            return "";
    }
}
inline bool occurs_at(const std::string& s, const std::string& p, long long i)
{
    if (i < 0 || i + (long long)p.size() > (long long)s.size())
    {
        return false;
    }
    for (std::size_t k = 0; k < p.size(); ++k)
    {
        if (s[std::size_t(i) + k] != p[k])
        {
            return false;
        }
    }
    return true;
}
// smallest occurrence entirely within [start, stop); start >= 0
inline int ref_find(const std::string& s, const std::string& p, long long start, long long stop)
{
    stop = std::min<long long>(stop, (long long)s.size());
    for (long long i = start; i + (long long)p.size() <= stop; ++i)
    {
        if (occurs_at(s, p, i))
        {
            return int(i);
        }
    }
    return -1;
}
inline std::vector<std::string> ref_split(const std::string& s, const std::string& sep, bool keep)
{
    std::vector<std::string> r;
    std::string cur;
    std::size_t i = 0;
    while (i < s.size())
    {
        if (occurs_at(s, sep, (long long)i))
        {
            r.push_back(cur);
            cur.clear();
            i += sep.size();
        }
        else
        {
            cur += s[i++];
        }
    }
    r.push_back(cur);
    if (!keep)
    {
        r.erase(std::remove(r.begin(), r.end(), std::string()), r.end());
    }
    return r;
}
inline std::string ref_replace(const std::string& s, const std::string& from, const std::string& to)
{
    std::string r;
    if (from.empty())
    {
        for (char c : s)
        {
            r += to;
            r += c;
        }
        return r + to;
    }
    std::size_t i = 0;
    while (i < s.size())
    {
        if (occurs_at(s, from, (long long)i))
        {
            r += to;
            i += from.size();
        }
        else
        {
            r += s[i++];
        }
    }
    return r;
}
// x has exactly this text
inline void sames(G& g, const Str& x, const std::string& want, const char* what)
{
    ++g.steps;
    if (Blind::on)
    {
        if (!g.chance(1, 4)) return;
        const int k = g.below(6);
        g.note("(look ", k, ")");
        const Str fresh(want);
        const int n = int(want.size());
        bool ok = true;
        switch (k)
        {
            case 0: ok = x.size() == n && x.is_empty() == (n == 0); break;
            case 1: ok = text(x) == want; break;
            case 2: ok = g.coin() ? x == fresh : fresh == x; break;
            case 3: ok = g.coin() ? !(x < fresh) : !(fresh < x); break;
            case 4:
                if (n)
                {
                    int i = g.below(n);
                    ok = x[i] == want[std::size_t(i)] && x[i - n] == want[std::size_t(i)];
                }
                break;
            default: ok = std::string(x.begin(), x.end()) == want;
        }
        if (!ok) g.fail(std::string(what) + " (look " + std::to_string(k) + "): got " + quote(text(x)) + ", want " + quote(want));
        return;
    }
    if (x.size() != int(want.size()) || text(x) != want)
    {
        g.fail(std::string(what) + ": got " + quote(text(x)) + ", want " + quote(want));
    }
    const Str fresh(want);
    if (!(x == fresh) || x != fresh || x < fresh || x > fresh)
    {
        g.fail(std::string(what) + ": result does not compare equal to that string");
    }
}
inline Str gen_str_of(G& g, const std::string& s)
{
    switch (g.pick({5, 1, 1, 1, 1}))
    {
        case 0: return Str(s);
        case 1: return s.find('\0') == std::string::npos ? Str(s.c_str()) : Str(s);
        case 2: return s.empty() ? Str() : Str(s.substr(0, s.size() / 2)) + Str(s.substr(s.size() / 2));
        case 3: return Str(std::string(s.rbegin(), s.rend())).reverse();
        default:
        {
            Str a(s), b("other text which is long enough not to be stored inside");
            b = std::move(a);
            return b;
        }
    }
}
// positions a Python-like walk visits; bounds are valid
inline std::vector<int> ref_slice(int n, int start, int stop, int step)
{
    long long i = start < 0 ? start + n : start, e = stop < 0 ? stop + n : stop;
    std::vector<int> r;
    for (; step > 0 ? i < e : i > e; i += step)
    {
        r.push_back(int(i));
    }
    return r;
}
inline int gen_step(G& g, int n)
{
    switch (g.pick({6, 2, 1}))
    {
        case 0:
        {
            int s = 1 + g.below(4);
            return g.coin() ? -s : s;
        }
        case 1:
        {
            int s = 1 + g.below(n + 3);
            return g.coin() ? -s : s;
        }
        default:
            return g.any_int();
    }
}
inline int gen_bound(G& g, int n) // around [-n, n]
{
    switch (g.pick({8, 1, 1}))
    {
        case 0: return g.range(-n - 2, n + 2);
        case 1: return g.any_int();
        default: return g.coin() ? n + g.range(-1, 1) : -n + g.range(-1, 1);
    }
}
#endif

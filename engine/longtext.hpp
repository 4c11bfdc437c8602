// Texts of up to hundreds of thousands of characters, and what the operations of Str make of them.
#ifndef LONGTEXT_HPP
#define LONGTEXT_HPP

#include "common.hpp"
#include "str.hpp"

namespace longtext
{
using pyincpp::List;
using pyincpp::Str;

inline void same(G& g, const Str& x, const std::string& m, const char* what)
{
    ++g.steps;
    g.require_f(x.size() == int(m.size()) && std::equal(x.begin(), x.end(), m.begin()), [&] {
        std::size_t k = 0;
        while (k < m.size() && k < std::size_t(x.size()) && m[k] == x[int(k)]) ++k;
        return std::string(what) + ": " + std::to_string(x.size()) + " characters, want " + std::to_string(m.size()) + ", first difference at " + std::to_string(k);
    });
}
// sizes around the powers of two and ten that representations like, up to max
inline int gen_size(G& g, int max)
{
    static const int marks[] = {1000, 1024, 4096, 8192, 10000, 32767, 32768, 65535, 65536, 100000, 131072, 250000};
    int v = g.coin() ? g.of(marks) + g.range(-2, 2) : g.range(1000, 150000);
    return v <= max ? v : g.range(max / 4, max);
}
// mostly short, rarely long
inline int gen_rare_size(G& g)
{
    return g.chance(1, 300) ? gen_size(g, 140000) : g.range(1, 90);
}
struct Long
{
    std::string m;
    Str s;
    int n, i, j; // i <= j < n
    bool dense; // a pattern is found at almost every place

    Long(G& g, int size, bool dense_ = false)
        : m(std::size_t(size), 'a')
        , n(size)
        , dense(dense_)
    {
        pbt::Rng r(g.seed64());
        const int letters = g.range(2, 26), period = dense ? 1 + g.below(3) : g.coin() ? 1 << 30 : 1 + g.below(3000);
        for (int k = 0; k < n; ++k) m[std::size_t(k)] = k >= period ? m[std::size_t(k - period)] : char((r.upto(1) ? 'a' : 'A') + r.upto(pbt::u64(letters - 1)));
        s = Str(m);
        g.note("text of ", n, " characters, ", letters, " letters, period ", period);
        same(g, s, m, "constructed");
        i = g.range(0, n - 1);
        j = g.range(i, n - 1);
        g.note("positions ", i, " and ", j);
        if (n > 1000) g.label("over 1000 characters");
    }
    std::string sub(int from, int to) const { return m.substr(std::size_t(from), std::size_t(to - from)); }

    void rearranged(G& g) const
    {
        same(g, s >> i, sub(n - i, n) + sub(0, n - i), ">>");
        same(g, s << i, sub(i, n) + sub(0, i), "<<");
        same(g, s.reverse(), std::string(m.rbegin(), m.rend()), "reverse");
        same(g, s.slice(i, j), sub(i, j), "slice");
        same(g, s.slice(j, i, -1), std::string(m.rend() - 1 - j, m.rend() - 1 - i), "slice backwards");
        std::string third;
        for (int k = i; k < j; k += 3) third += m[std::size_t(k)];
        same(g, s.slice(i, j, 3), third, "slice of every third character");
        same(g, s.erase(i, j), sub(0, i) + sub(j, n), "erase");
        same(g, s + s, m + m, "+");
        same(g, s + Str(sub(i, j)), m + sub(i, j), "+ a part of it");
        same(g, Str(sub(i, j)) + s, sub(i, j) + m, "a part of it +");
        same(g, s * 3, m + m + m, "*");
        eqs(g, s[i], m[std::size_t(i)], "character");
        eqs(g, s[i - n], m[std::size_t(i)], "character from the end");
        must_reject(g, [&] { (void)s[n]; }, "index of the size of the text");
        must_reject(g, [&] { (void)s[-n - 1]; }, "index before the text");
    }
    void repeated(G& g) const // short texts, many times
    {
        const std::string p = sub(i, std::min(i + 3, n));
        std::string want;
        for (int k = 0; k < n; ++k) want += p;
        same(g, Str(p) * n, want, "repeated text");
    }
    void cases_and_strip(G& g) const
    {
        std::string lo = m, up = m;
        for (auto& c : lo) c = c >= 'A' && c <= 'Z' ? char(c + 32) : c;
        for (auto& c : up) c = c >= 'a' && c <= 'z' ? char(c - 32) : c;
        same(g, s.lower(), lo, "lower");
        same(g, s.upper(), up, "upper");
        const std::string blanks(std::size_t(g.range(1, n > 1000 ? 70000 : 90)), ' '), marks(blanks.size(), '#');
        same(g, Str(blanks + m + blanks).strip(), m, "strip");
        same(g, Str(marks + m + marks).strip('#'), m, "strip of a character");
        same(g, Str(blanks).strip(), "", "strip of blanks");
    }
    std::string pattern(G& g) const
    {
        return m.substr(std::size_t(j), std::size_t(dense ? 1 : g.range(1, 12)));
    }
    std::vector<std::string> parts(const std::string& p) const
    {
        std::vector<std::string> r;
        std::size_t at = 0;
        for (std::size_t q; (q = m.find(p, at)) != std::string::npos; at = q + p.size()) r.push_back(m.substr(at, q - at));
        r.push_back(m.substr(at));
        return r;
    }
    void searched(G& g) const
    {
        const std::string p = pattern(g);
        auto first = m.find(p, std::size_t(i));
        eqs(g, s.find(Str(p), i), first == std::string::npos ? -1 : int(first), "find");
        eqs(g, s.contains(Str(p), i), first != std::string::npos, "contains");
        const int cnt = int(parts(p).size()) - 1;
        eqs(g, s.count(Str(p)), cnt, "count");
        if (cnt > 100000) g.label("over 100000 occurrences of a pattern");
        eqs(g, s.count(Str()), n + 1, "count of the empty pattern");
        const auto last = (m + "#").find("#");
        eqs(g, Str(m + "#" + m).find(Str("#")), int(last), "find of a character that occurs once");
        eqs(g, s.find(s), 0, "find of the whole text");
        g.require((s + Str("#")).find(Str(m + "##")) == -1, "a text that is longer is not found");
        eqs(g, s.starts_with(s.slice(0, j)), true, "starts_with");
        eqs(g, s.starts_with(s.slice(0, j) + Str("#")), false, "starts_with");
        eqs(g, s.ends_with(s.slice(i, n - 1)), m.ends_with(sub(i, n - 1)), "ends_with");
        eqs(g, s.ends_with(s.slice(i, n)), true, "ends_with");
        eqs(g, s.ends_with(Str("#") + s.slice(i, n)), false, "ends_with");
    }
    void split_and_replaced(G& g) const
    {
        const std::string p = pattern(g);
        const auto want = parts(p);
        std::string replaced = want[0];
        for (std::size_t k = 1; k < want.size(); ++k) replaced += "<>" + want[k];
        same(g, s.replace(Str(p), Str("<>")), replaced, "replace");
        std::string between = "#";
        for (char c : m) (between += c) += '#';
        same(g, s.replace(Str(), Str("#")), between, "replace of the empty text");
        for (bool keep : {true, false})
        {
            const List<Str> l = s.split(Str(p), keep);
            int at = 0;
            for (auto& w : want)
            {
                if (!keep && w.empty()) continue;
                g.require(at < l.size() && l[at].size() == int(w.size()) && std::equal(w.begin(), w.end(), l[at].begin()), "a part of the split text");
                ++at;
            }
            eqs(g, l.size(), at, "number of parts");
            if (keep) same(g, Str(p).join(l), m, "join of the split text");
        }
    }
    void formatted(G& g) const
    {
        same(g, Str("{}-{}").format(s, 5), "\"" + m + "\"-5", "format");
        same(g, (s.slice(0, i) + Str("{}") + s.slice(i, j) + Str("{}") + s).format(7, "x"), sub(0, i) + "7" + sub(i, j) + "x" + m, "format of a long template");
        same(g, (Str("{") + s + Str("}") + s).format(7), "7" + m, "format of a long placeholder");
        same(g, s.format(1, 2), m, "format of a text without placeholders");
    }
    void compared(G& g) const
    {
        const Str c = s.slice(0, i) + Str("#") + s.slice(i, n - 1);
        g.require((c < s) == (sub(0, i) + "#" + sub(i, n - 1) < m) && c != s, "order of texts that differ in one place");
        g.require(std::hash<Str>{}(s) == std::hash<Str>{}(Str(m)) && s == Str(m), "equal texts");
    }
};
} // namespace longtext

#endif

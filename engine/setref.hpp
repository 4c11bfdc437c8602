// Models for Set and Dict.
#ifndef SETREF_HPP
#define SETREF_HPP
#include "elem.hpp"
#include "dict.hpp"
#include "list.hpp"
#include "set.hpp"
using pyincpp::Dict;
using pyincpp::Set;

typedef std::set<int> SetModel;
typedef std::map<int, int> DictModel;

inline Model members(const SetModel& m) { return Model(m.begin(), m.end()); }

template <typename T>
Set<T> gen_set(G& g, const Model& inserted) // order of insertion, with duplicates
{
    std::vector<T> v = elements<T>(inserted);
    switch (g.pick({4, 1, 1, 1, 1}))
    {
        case 0: return Set<T>(v.begin(), v.end());
        case 1:
        {
            Set<T> r;
            for (auto& e : v) r.add(e);
            return r;
        }
        case 2: return Set<T>(std::set<T>(v.begin(), v.end()));
        case 3:
        {
            InputRange<T> r(inserted);
            return Set<T>(r.begin(), r.end());
        }
        default:
            if (v.size() == 0) return Set<T>{};
            if (v.size() == 2) return Set<T>{v[0], v[1]};
            if (v.size() == 3) return Set<T>{v[0], v[1], v[2]};
            return Set<T>(v.begin(), v.end());
    }
}

// s is exactly the set m, by every way of looking at it; probes: values to look up
template <typename T>
void same_set(G& g, const Set<T>& s, const SetModel& m, int probes, const char* what, bool thorough = true)
{
    ++g.steps;
    const int n = int(m.size());
    auto bad = [&](const std::string& how) {
        g.fail(std::string(what) + " (" + how + "): got " + show_seq(s) + ", want " + show_seq(elements<T>(members(m))));
    };
    if (Blind::on)
    {
        if (!g.chance(1, 3)) return;
        const int k = g.below(11);
        g.note("(look ", k, ")");
        std::vector<T> v = elements<T>(members(m));
        int i = 0;
        switch (k)
        {
            case 0:
                if (s.size() != n) bad("size");
                break;
            case 1:
                if (s.is_empty() != (n == 0)) bad("is_empty");
                break;
            case 2:
                for (auto x = s.begin(); x != s.end(); ++x, ++i)
                    if (i >= n || !(*x == v[std::size_t(i)])) bad("iteration");
                if (i != n) bad("iteration");
                break;
            case 3:
                for (auto x = s.rbegin(); x != s.rend(); ++x, ++i)
                    if (i >= n || !(*x == v[std::size_t(n - 1 - i)])) bad("reverse iteration");
                if (i != n) bad("reverse iteration");
                break;
            case 4:
                i = g.below(probes);
                if (s.contains(make<T>(i)) != (m.count(i) != 0)) bad("contains of value " + std::to_string(i));
                break;
            case 5:
            {
                i = g.below(probes);
                auto f = s.find(make<T>(i));
                if ((f != s.end()) != (m.count(i) != 0) || (m.count(i) && !(*f == make<T>(i)))) bad("find of value " + std::to_string(i));
                break;
            }
            case 6:
                if (n && !(s.min() == v.front())) bad("min");
                break;
            case 7:
                if (n && !(s.max() == v.back())) bad("max");
                break;
            case 8:
            {
                const Set<T> c(s);
                for (auto& e : c)
                {
                    if (i >= n || !(e == v[std::size_t(i)])) bad("copy");
                    ++i;
                }
                if (i != n) bad("copy");
                break;
            }
            case 9:
            {
                const Set<T> fresh(v.begin(), v.end());
                if (g.coin() ? !(s == fresh) : !(fresh <= s)) bad("comparison with an equal set");
                break;
            }
            default:
            {
                const Set<T> fresh(v.begin(), v.end());
                std::ostringstream a, b;
                a << s;
                b << fresh;
                if (!std::is_same_v<T, double> && a.str() != b.str()) bad("printing"); // 0 and -0 are equal
            }
        }
        return;
    }
    if (s.size() != n || s.is_empty() != (n == 0)) bad("size() or is_empty()");
    auto it = m.begin();
    for (const auto& e : s)
    {
        if (it == m.end() || !(e == make<T>(*it))) bad("iteration");
        ++it;
    }
    if (it != m.end()) bad("iteration");
    if (!thorough) return;
    auto rit = m.rbegin();
    for (auto r = s.rbegin(); r != s.rend(); ++r, ++rit)
    {
        if (rit == m.rend() || !(*r == make<T>(*rit))) bad("reverse iteration");
    }
    if (rit != m.rend()) bad("reverse iteration");
    for (int v = 0; v < probes; ++v)
    {
        bool in = m.count(v) != 0;
        if (s.contains(make<T>(v)) != in) bad("contains of value " + std::to_string(v));
        auto f = s.find(make<T>(v));
        if ((f != s.end()) != in || (in && !(*f == make<T>(v)))) bad("find of value " + std::to_string(v));
    }
    if (n > 0)
    {
        if (!(s.min() == make<T>(*m.begin())) || !(s.max() == make<T>(*m.rbegin()))) bad("min() or max()");
    }
    std::vector<T> v = elements<T>(members(m));
    std::reverse(v.begin(), v.end());
    const Set<T> fresh(v.begin(), v.end());
    if (!(s == fresh) || s != fresh || !(s <= fresh) || !(s >= fresh) || s < fresh || s > fresh) bad("comparison with an equal set");
}

template <typename K, typename V>
Dict<K, V> gen_dict(G& g, const std::vector<std::pair<int, int>>& inserted)
{
    std::vector<std::pair<K, V>> v;
    for (auto& [a, b] : inserted) v.push_back({make<K>(a), make<V>(b)});
    switch (g.pick({4, 1, 1, 1}))
    {
        case 0: return Dict<K, V>(v.begin(), v.end());
        case 1:
        {
            Dict<K, V> r;
            for (auto& e : v) r.add(e.first, e.second);
            return r;
        }
        case 2: return Dict<K, V>(std::map<K, V>(v.begin(), v.end()));
        default:
            if (v.size() == 0) return Dict<K, V>{};
            if (v.size() == 2) return Dict<K, V>{{v[0].first, v[0].second}, {v[1].first, v[1].second}};
            return Dict<K, V>(v.begin(), v.end());
    }
}
inline DictModel dict_model(const std::vector<std::pair<int, int>>& inserted)
{
    DictModel m;
    for (auto& p : inserted) m.insert(p);
    return m;
}
inline std::vector<std::pair<int, int>> gen_pairs(G& g, int keys, int values, int max, int small)
{
    std::vector<std::pair<int, int>> r;
    for (int k : gen_model(g, keys, max, small)) r.push_back({k, g.below(values)});
    return r;
}
inline std::string show_pairs(const std::vector<std::pair<int, int>>& v)
{
    std::string r;
    for (auto& [a, b] : v) r += std::to_string(a) + ":" + std::to_string(b) + " ";
    return "{" + r + "}";
}
inline std::string show_dict_model(const DictModel& m) { return show_pairs({m.begin(), m.end()}); }
template <typename D>
std::string show_entries(const D& d)
{
    std::ostringstream os;
    os << "{";
    for (const auto& p : d) os << p.first << ": " << p.second << ", ";
    os << "}";
    return os.str();
}

template <typename K, typename V>
void same_dict(G& g, const Dict<K, V>& d, const DictModel& m, int probes, const char* what, bool thorough = true)
{
    ++g.steps;
    const int n = int(m.size());
    auto bad = [&](const std::string& how) {
        std::ostringstream os;
        for (auto& [k, v] : m) os << make<K>(k) << ": " << make<V>(v) << ", ";
        g.fail(std::string(what) + " (" + how + "): got " + show_entries(d) + ", want {" + os.str() + "}");
    };
    if (Blind::on)
    {
        if (!g.chance(1, 3)) return;
        const int k = g.below(12);
        g.note("(look ", k, ")");
        std::vector<std::pair<int, int>> v(m.begin(), m.end());
        int i = 0;
        const int key = g.below(probes);
        auto e = m.find(key);
        const bool in = e != m.end();
        switch (k)
        {
            case 0:
                if (d.size() != n) bad("size");
                break;
            case 1:
                if (d.is_empty() != (n == 0)) bad("is_empty");
                break;
            case 2:
                for (auto x = d.begin(); x != d.end(); ++x, ++i)
                    if (i >= n || !(x->first == make<K>(v[std::size_t(i)].first)) || !(x->second == make<V>(v[std::size_t(i)].second))) bad("iteration");
                if (i != n) bad("iteration");
                break;
            case 3:
                for (auto x = d.rbegin(); x != d.rend(); ++x, ++i)
                    if (i >= n || !(x->first == make<K>(v[std::size_t(n - 1 - i)].first)) || !(x->second == make<V>(v[std::size_t(n - 1 - i)].second))) bad("reverse iteration");
                if (i != n) bad("reverse iteration");
                break;
            case 4:
                if (d.contains(make<K>(key)) != in) bad("contains of key " + std::to_string(key));
                break;
            case 5:
            {
                auto f = d.find(make<K>(key));
                if ((f != d.end()) != in || (in && !(f->second == make<V>(e->second)))) bad("find of key " + std::to_string(key));
                break;
            }
            case 6:
            {
                const V& none = make<V>(DOMAIN_MAX - 1);
                if (!(d.get(make<K>(key), none) == (in ? make<V>(e->second) : none))) bad("get of key " + std::to_string(key));
                break;
            }
            case 7:
                if (in && !(d[make<K>(key)] == make<V>(e->second))) bad("[] of key " + std::to_string(key));
                break;
            case 8:
                if (n && !(d.min() == make<K>(v.front().first))) bad("min");
                if (n && !(d.max() == make<K>(v.back().first))) bad("max");
                break;
            case 9:
            {
                const Dict<K, V> c(d);
                for (auto& p : c)
                {
                    if (i >= n || !(p.first == make<K>(v[std::size_t(i)].first)) || !(p.second == make<V>(v[std::size_t(i)].second))) bad("copy");
                    ++i;
                }
                if (i != n) bad("copy");
                break;
            }
            default:
            {
                Dict<K, V> fresh;
                for (auto& [a, b] : v) fresh.add(make<K>(a), make<V>(b));
                if (k == 10 ? !(d == fresh) : fresh != d) bad("equality");
            }
        }
        return;
    }
    if (d.size() != n || d.is_empty() != (n == 0)) bad("size() or is_empty()");
    auto it = m.begin();
    for (const auto& p : d)
    {
        if (it == m.end() || !(p.first == make<K>(it->first)) || !(p.second == make<V>(it->second))) bad("iteration");
        ++it;
    }
    if (it != m.end()) bad("iteration");
    if (!thorough) return;
    auto rit = m.rbegin();
    for (auto r = d.rbegin(); r != d.rend(); ++r, ++rit)
    {
        if (rit == m.rend() || !(r->first == make<K>(rit->first)) || !(r->second == make<V>(rit->second))) bad("reverse iteration");
    }
    if (rit != m.rend()) bad("reverse iteration");
    const V& none = make<V>(DOMAIN_MAX - 1);
    for (int k = 0; k < probes; ++k)
    {
        const K& key = make<K>(k);
        auto e = m.find(k);
        bool in = e != m.end();
        if (d.contains(key) != in) bad("contains of key " + std::to_string(k));
        auto f = d.find(key);
        if ((f != d.end()) != in || (in && (!(f->first == key) || !(f->second == make<V>(e->second))))) bad("find of key " + std::to_string(k));
        if (!(d.get(key, none) == (in ? make<V>(e->second) : none))) bad("get of key " + std::to_string(k));
        if (in && !(d[key] == make<V>(e->second))) bad("[] of key " + std::to_string(k));
    }
    if (n > 0)
    {
        if (!(d.min() == make<K>(m.begin()->first)) || !(d.max() == make<K>(m.rbegin()->first))) bad("min() or max()");
    }
    Dict<K, V> fresh;
    for (auto r = m.rbegin(); r != m.rend(); ++r) fresh.add(make<K>(r->first), make<V>(r->second));
    if (!(d == fresh) || d != fresh) bad("equality");
}
#endif

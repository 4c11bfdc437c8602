#include "setref.hpp"

static pbt::Config config("C27",
    "histories of adds, assignments through [], removals, pops, extensions and clears on a dictionary and a second one as argument next "
    "to a std::map of ints, keys of small and large domains, key and value types int, string, big integer and a deep-copying "
    "move-detecting type; all observers compared after every operation; non-trivial: at least 4 operations and at least 2 entries at "
    "some point",
    800000, 80000);

template <typename K, typename V>
static void same_views(G& g, const Dict<K, V>& d, const DictModel& m, const char* what)
{
    SetModel keys, values;
    for (auto& [k, v] : m)
    {
        keys.insert(k);
        values.insert(v);
    }
    same_set<K>(g, d.keys(), keys, 8, what);
    same_set<V>(g, d.values(), values, 8, what);
    auto items = d.items();
    ++g.steps;
    bool ok = items.size() == int(m.size());
    auto it = m.begin();
    for (const auto& p : items)
    {
        ok = ok && it != m.end() && p.first == make<K>(it->first) && p.second == make<V>(it->second);
        if (!ok) break;
        ++it;
    }
    if (!ok) g.fail(std::string(what) + ": items() is " + show_entries(items) + " for the dictionary " + show_entries(d));
}

template <typename K, typename V>
static void history(G& g)
{
    const int dk = 1 + gen_domain(g), dv = 2 + g.below(12), probes = std::min(dk + 1, 24);
    auto i1 = gen_pairs(g, dk, dv, g.chance(1, 12) ? 150 : 10, 5), i2 = gen_pairs(g, dk, dv, 12, 5);
    Dict<K, V> d = gen_dict<K, V>(g, i1), t = gen_dict<K, V>(g, i2);
    DictModel m = dict_model(i1), o = dict_model(i2);
    g.note("dict from ", Elem<K>::name, " to ", Elem<V>::name, " of ", show_pairs(i1), ", other of ", show_pairs(i2));
    same_dict<K, V>(g, d, m, probes, "constructed dictionary");
    Blind blind(g);
    g.require((d == t) == (m == o) && (d != t) == (m != o), "equality of two dictionaries");
    std::size_t largest = m.size();
    int ops = 0;
    while (g.more(ops, 40, 10))
    {
        ++ops;
        const char* what = "?";
        const int k = g.below(dk), v = g.below(dv);
        const K& key = make<K>(k);
        const V& value = make<V>(v);
        switch (g.below(15))
        {
            case 0:
            case 1:
            {
                what = "add";
                g.note(what, " ", k, ": ", v);
                bool fresh = m.insert({k, v}).second;
                eqs(g, d.add(key, value), fresh, "value returned by add");
                break;
            }
            case 2:
            case 3:
            {
                what = "assignment through []";
                g.note("d[", k, "] = ", v);
                if (!m.count(k))
                {
                    must_reject(g, [&] { d[key] = value; }, "assignment to a missing key");
                    must_reject(g, [&] { (void)std::as_const(d)[key]; }, "reading a missing key");
                    break;
                }
                d[key] = value;
                m[k] = v;
                break;
            }
            case 4:
            case 5:
            {
                what = "remove";
                g.note(what, " ", k);
                bool in = m.erase(k) == 1;
                eqs(g, d.remove(key), in, "value returned by remove");
                break;
            }
            case 6:
            {
                what = "pop";
                g.note(what);
                if (m.empty())
                {
                    must_reject(g, [&] { d.pop(); }, "pop of an empty dictionary");
                    must_reject(g, [&] { d.min(); }, "min of an empty dictionary");
                    must_reject(g, [&] { d.max(); }, "max of an empty dictionary");
                    break;
                }
                auto p = d.pop();
                auto it = m.begin();
                while (it != m.end() && !(make<K>(it->first) == p.first)) ++it;
                g.require(it != m.end() && make<V>(it->second) == p.second, "pop returns an entry");
                m.erase(it);
                break;
            }
            case 7:
            {
                what = "extend";
                auto e = gen_pairs(g, dk, dv, 12, 4);
                if (g.coin())
                {
                    g.note(what, " by ", show_pairs(e));
                    std::vector<std::pair<K, V>> w;
                    for (auto& [a, b] : e) w.push_back({make<K>(a), make<V>(b)});
                    d.extend(w.begin(), w.end());
                }
                else
                {
                    g.note(what, " by other");
                    d.extend(t.begin(), t.end());
                    e.assign(o.begin(), o.end());
                }
                for (auto& p : e) m.insert(p);
                break;
            }
            case 8:
                what = "clear";
                if (!g.chance(1, 3)) break;
                g.note(what);
                d.clear();
                m.clear();
                break;
            case 9:
                what = "swap with other";
                g.note(what);
                std::swap(d, t);
                std::swap(m, o);
                break;
            case 10:
            {
                what = "views";
                g.note("keys, values and items");
                same_views<K, V>(g, d, m, "views of the dictionary");
                break;
            }
            case 11:
            {
                what = "get";
                g.note(what, " ", k, " default ", v);
                auto it = m.find(k);
                const int k2 = g.below(dk), v2 = g.below(dv);
                auto it2 = m.find(k2);
                const V value2 = make<V>(v2);
                auto&& got = d.get(key, value); // both results are held while the other is asked for
                auto&& got2 = d.get(make<K>(k2), value2);
                d.get(key, value2);
                eqs(g, got, it == m.end() ? value : make<V>(it->second), "get");
                eqs(g, got2, it2 == m.end() ? value2 : make<V>(it2->second), "second get");
                break;
            }
            case 12:
            {
                what = "remove and add again";
                g.note(what, " ", k, ": ", v);
                bool in = m.count(k) != 0;
                eqs(g, d.remove(key), in, "value returned by remove");
                eqs(g, d.remove(key), false, "value returned by the second remove");
                eqs(g, d.add(key, value), true, "value returned by add");
                eqs(g, d.add(key, make<V>((v + 1) % dv)), false, "value returned by the second add");
                m[k] = v;
                break;
            }
            case 13:
            {
                what = "extend by itself, copies and assignment";
                g.note(what);
                d.extend(d.begin(), d.end());
                Dict<K, V> c(d), e;
                e = c;
                c.clear();
                d = e;
                e.add(make<K>(dk), value);
                break;
            }
            default:
            {
                what = "pop until empty and refill";
                if (!g.chance(1, 3) || m.size() > 40) break;
                g.note(what);
                DictModel popped;
                for (int n = int(m.size()); n > 0; --n)
                {
                    auto p = d.pop();
                    for (auto& e : m)
                    {
                        if (make<K>(e.first) == p.first && make<V>(e.second) == p.second) popped.insert(e);
                    }
                }
                g.require(d.is_empty() && popped == m, "pops return every entry once");
                for (auto& e : m) d.add(make<K>(e.first), make<V>(e.second));
            }
        }
        same_dict<K, V>(g, d, m, probes, what);
        largest = std::max(largest, m.size());
    }
    same_views<K, V>(g, d, m, "views at the end");
    Blind::open_eyes();
    same_dict<K, V>(g, d, m, probes, "dictionary at the end");
    same_views<K, V>(g, d, m, "views at the very end");
    same_dict<K, V>(g, t, o, probes, "other dictionary at the end");
    g.require((d == t) == (m == o) && (t == d) == (m == o) && (d != t) == (m != o), "equality of two dictionaries at the end");
    g.nontrivial_if(ops >= 4 && largest >= 2);
    if (ops >= 15) g.label("history of 15 or more operations");
    if (largest > 24) g.label("dictionary of more than 24 entries");
}
PBT_SUB(int_to_int, 3) { history<int, int>(g); }
PBT_SUB(string_to_box, 2) { history<std::string, Box>(g); }
PBT_SUB(str_to_int, 1) { history<pyincpp::Str, pyincpp::Int>(g); }
PBT_SUB(box_to_string, 1) { history<Box, std::string>(g); }
PBT_SUB(twin_to_double, 1) { history<Twin, double>(g); }
PBT_SUB(double_to_twin, 1) { history<double, Twin>(g); }

// dictionaries of thousands of entries
static void same_large(G& g, const Dict<int, int>& d, const DictModel& m, int domain, const char* what)
{
    g.steps += 4;
    g.require_f(d.size() == int(m.size()) && d.is_empty() == m.empty(), [&] { return std::string(what) + ": size is " + std::to_string(d.size()) + ", want " + std::to_string(m.size()); });
    auto equal = [](const auto& x, const auto& y) { return x.first == y.first && x.second == y.second; };
    g.require_f(std::equal(m.begin(), m.end(), d.begin(), d.end(), equal), [&] { return std::string(what) + " (iteration): got " + show_entries(d) + ", want " + show_entries(m); });
    g.require_f(std::equal(m.rbegin(), m.rend(), d.rbegin(), d.rend(), equal), [&] { return std::string(what) + " (reverse iteration): got " + show_entries(d) + ", want " + show_entries(m); });
    if (!m.empty()) g.require(d.min() == m.begin()->first && d.max() == m.rbegin()->first, "min and max");
    for (int k = 0; k < 8; ++k)
    {
        const int v = g.below(domain);
        const auto it = m.find(v);
        g.require_f(d.contains(v) == (it != m.end()) && (d.find(v) != d.end()) == (it != m.end()), [&] { return std::string(what) + ": contains(" + std::to_string(v) + ")"; });
        g.require_f(d.get(v, -5) == (it != m.end() ? it->second : -5), [&] { return std::string(what) + ": get(" + std::to_string(v) + ")"; });
        if (it != m.end()) g.require_f(d[v] == it->second, [&] { return std::string(what) + ": [" + std::to_string(v) + "]"; });
        else must_reject(g, [&] { (void)d[v]; }, "reading a missing key");
    }
    if (g.chance(1, 4))
    {
        SetModel keys, values;
        for (auto& [k, v] : m)
        {
            keys.insert(k);
            values.insert(v);
        }
        const auto k = d.keys(), v = d.values();
        const auto i = d.items();
        g.require(k.size() == int(keys.size()) && std::equal(keys.begin(), keys.end(), k.begin(), k.end()), "keys()");
        g.require(v.size() == int(values.size()) && std::equal(values.begin(), values.end(), v.begin(), v.end()), "values()");
        g.require(i.size() == int(m.size()) && std::equal(m.begin(), m.end(), i.begin(), i.end(), equal), "items()");
    }
}
PBT_SUB(large, 1)
{
    const int n = vast(g, true), domain = n + n / 2 + 4;
    DictModel m, o;
    Dict<int, int> d, t;
    auto entries = [&](int count) {
        std::vector<std::pair<int, int>> v;
        const int f = g.below(1000);
        for (int k : spread(g, count, domain)) v.push_back({k, int((unsigned(k) * 2654435761u + unsigned(f)) % 1000u)});
        return v;
    };
    {
        const auto e = entries(n);
        d = Dict<int, int>(e.begin(), e.end());
        m.insert(e.begin(), e.end());
    }
    g.note("dictionary of ", m.size(), " entries, keys below ", domain);
    if (m.size() > 100) g.label("dictionary of more than 100 entries");
    g.nontrivial_if(m.size() > 1);
    same_large(g, d, m, domain, "constructed dictionary");
    for (int k = g.below(7); k > 0; --k)
    {
        const char* what = "?";
        switch (g.below(6))
        {
            case 0:
                what = "adds";
                for (auto& [key, value] : entries(g.below(n + 2))) g.require(d.add(key, value) == m.insert({key, value}).second, "value returned by add");
                break;
            case 1:
                what = "removals";
                for (int v : spread(g, g.below(n + 2), domain)) g.require(d.remove(v) == (m.erase(v) == 1), "value returned by remove");
                break;
            case 2:
                what = "pops";
                for (int c = g.below(n + 1); c > 0 && !m.empty(); --c)
                {
                    const auto p = d.pop();
                    const auto it = m.find(p.first);
                    g.require(it != m.end() && it->second == p.second, "pop returns an entry");
                    m.erase(it);
                }
                break;
            case 3:
            {
                what = "extend";
                const auto e = entries(g.below(n + 2));
                d.extend(e.begin(), e.end());
                m.insert(e.begin(), e.end());
                break;
            }
            case 4:
                what = "assignments";
                for (auto& [key, value] : entries(g.below(n + 2)))
                {
                    if (!m.count(key)) continue;
                    d[key] = value;
                    m[key] = value;
                }
                break;
            default:
                what = "copies";
                t = d;
                o = m;
                std::swap(d, t);
                g.require(d == t && !(d != t), "equality with a copy");
        }
        g.note(what);
        same_large(g, d, m, domain, what);
        g.require((d == t) == (m == o), "equality of two dictionaries");
    }
    same_large(g, t, o, domain, "other dictionary");
}

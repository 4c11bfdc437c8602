#include "elem.hpp"
#include "list.hpp"
using pyincpp::List;

static pbt::Config config("C21",
    "histories of edits on one list (and a second one as argument) next to a plain vector of the same elements, element types int, "
    "string, Int and a deep-copying move-detecting type, lengths to ~200, valid and invalid arguments; after every edit "
    "all observers are compared; non-trivial: at least 4 edits and a list of at least 3 elements at some point",
    1600000, 160000);

template <typename T>
static List<T> gen_list(G& g, const Model& m)
{
    std::vector<T> v = elements<T>(m);
    switch (g.pick({4, 1, 1, 1, 1}))
    {
        case 0: return List<T>(v);
        case 1: return List<T>(v.begin(), v.end());
        case 2:
        {
            InputRange<T> r(m);
            return List<T>(r.begin(), r.end());
        }
        case 3:
        {
            List<T> l;
            for (auto& e : v) l += e;
            return l;
        }
        default:
            if (m.size() == 0) return List<T>{};
            if (m.size() == 1) return List<T>(std::initializer_list<T>{v[0]});
            if (m.size() == 2) return List<T>{v[0], v[1]};
            if (m.size() == 3) return List<T>{v[0], v[1], v[2]};
            return List<T>(v);
    }
}

template <typename T>
static void history(G& g)
{
    const int d = gen_domain(g);
    Model m = gen_model(g, d, g.chance(1, 10) ? 150 : 12);
    Model o = gen_model(g, d, 12, 4);
    List<T> l = gen_list<T>(g, m), other = gen_list<T>(g, o);
    g.note(Elem<T>::name, " list ", show_model(m), ", other ", show_model(o));
    same_seq<T>(g, l, m, "constructed list");
    Blind blind(g);
    std::size_t longest = m.size();
    int ops = 0;
    while (g.more(ops, 40, 10))
    {
        const int n = int(m.size());
        int op = g.below(22);
        ++ops;
        const char* what = "?";
        bool thorough = true;
        switch (op)
        {
            case 0:
            {
                int v = g.below(d);
                what = "+= element";
                g.note(what, " ", v);
                g.require(WHERE(l += make<T>(v)) == &l, "+= returns the list");
                m.push_back(v);
                break;
            }
            case 1:
            {
                what = "insert";
                int v = g.below(d), i = g.chance(1, 8) ? gen_bound(g, n) : g.range(-n, n);
                g.note(what, " ", v, " at ", i);
                if (i < -n || i > n)
                {
                    must_reject(g, [&] { l.insert(i, make<T>(v)); }, "insert out of range");
                    what = "list after the rejected insert";
                    break;
                }
                l.insert(i, make<T>(v));
                m.insert(m.begin() + std::ptrdiff_t(at(i, m.size())), v);
                break;
            }
            case 2:
            {
                what = "remove";
                int i = g.chance(1, 8) || n == 0 ? gen_bound(g, n) : gen_index(g, n);
                g.note(what, " at ", i);
                if (i < -n || i >= n)
                {
                    must_reject(g, [&] { l.remove(i); }, "remove out of range");
                    what = "list after the rejected remove";
                    break;
                }
                T r = l.remove(i);
                eqs(g, r, make<T>(m[at(i, m.size())]), "element returned by remove");
                m.erase(m.begin() + std::ptrdiff_t(at(i, m.size())));
                break;
            }
            case 3:
            {
                what = "element assignment";
                int i = g.chance(1, 8) || n == 0 ? gen_bound(g, n) : gen_index(g, n), v = g.below(d);
                g.note("l[", i, "] = ", v);
                if (i < -n || i >= n)
                {
                    must_reject(g, [&] { l[i] = make<T>(v); }, "index out of range");
                    must_reject(g, [&] { (void)std::as_const(l)[i]; }, "const index out of range");
                    what = "list after the rejected index";
                    break;
                }
                l[i] = make<T>(v);
                m[at(i, m.size())] = v;
                eqs(g, l[i], make<T>(v), "element after assignment");
                break;
            }
            case 4:
            {
                what = "erase";
                int i = g.range(0, n), j = g.chance(1, 8) ? gen_bound(g, n) : g.range(i, n);
                g.note(what, " ", i, " to ", j);
                if (j > n || j < 0)
                {
                    must_reject(g, [&] { l.erase(i, j); }, "erase out of range");
                    what = "list after the rejected erase";
                    break;
                }
                if (j < i)
                {
                    try
                    {
                        l.erase(i, j);
                    }
                    catch (const std::runtime_error&)
                    {
                    }
                    what = "list after erase of a reversed range";
                    break;
                }
                g.require(WHERE(l.erase(i, j)) == &l, "erase returns the list");
                m.erase(m.begin() + i, m.begin() + j);
                break;
            }
            case 5:
            {
                what = "+= list";
                g.note(what);
                g.require(WHERE(l += other) == &l, "+= returns the list");
                m.insert(m.end(), o.begin(), o.end());
                break;
            }
            case 6:
            {
                what = "extend";
                Model e = gen_model(g, d, 20, 4);
                std::vector<T> v = elements<T>(e);
                g.note(what, " by ", show_model(e));
                if (g.coin())
                {
                    l.extend(v.begin(), v.end());
                }
                else
                {
                    InputRange<T> r(e);
                    l.extend(r.begin(), r.end());
                }
                m.insert(m.end(), e.begin(), e.end());
                break;
            }
            case 7:
            {
                what = "-= element";
                int v = g.below(d);
                g.note(what, " ", v);
                g.require(WHERE(l -= make<T>(v)) == &l, "-= returns the list");
                auto it = std::find(m.begin(), m.end(), v);
                if (it != m.end()) m.erase(it);
                break;
            }
            case 8:
            {
                what = "/= element";
                int v = g.below(d);
                g.note(what, " ", v);
                g.require(WHERE(l /= make<T>(v)) == &l, "/= returns the list");
                m.erase(std::remove(m.begin(), m.end(), v), m.end());
                break;
            }
            case 9:
            {
                what = "*=";
                int k = g.chance(1, 8) ? g.any_int() : g.below(4);
                g.note(what, " ", k);
                if (k < 0 || 1LL * k * n > INT32_MAX)
                {
                    must_reject(g, [&] { l *= k; }, "repeat count out of range");
                    what = "list after the rejected repeat";
                    break;
                }
                if (1LL * k * n > 400 || k > 100000) break;
                g.require(WHERE(l *= k) == &l, "*= returns the list");
                Model r;
                for (int i = 0; i < k; ++i) r.insert(r.end(), m.begin(), m.end());
                if (n == 0) r.clear();
                m = r;
                break;
            }
            case 10:
            case 11:
            {
                what = op == 10 ? ">>=" : "<<=";
                int k = g.coin() ? g.any_int() : gen_bound(g, n);
                g.note(what, " ", k);
                g.require((op == 10 ? WHERE(l >>= k) : WHERE(l <<= k)) == &l, "rotation returns the list");
                m = rotated_left(m, op == 10 ? -(long long)k : k);
                break;
            }
            case 12:
                what = "reverse";
                g.note(what);
                g.require(WHERE(l.reverse()) == &l, "reverse returns the list");
                std::reverse(m.begin(), m.end());
                break;
            case 13:
                what = "clear";
                if (!g.chance(1, 3)) break;
                g.note(what);
                l.clear();
                m.clear();
                break;
            case 14:
            {
                what = "swap with other";
                g.note(what);
                std::swap(l, other);
                std::swap(m, o);
                break;
            }
            case 15:
            {
                what = "assignment from other";
                if (!g.chance(1, 2)) break;
                g.note(what);
                l = other;
                m = o;
                break;
            }
            case 16:
            {
                what = "chained edits";
                int v = g.below(d), w = g.below(d);
                g.note("((l += ", v, ").reverse() -= ", w, ") <<= 1");
                (((l += make<T>(v)).reverse()) -= make<T>(w)) <<= 1;
                m.push_back(v);
                std::reverse(m.begin(), m.end());
                auto it = std::find(m.begin(), m.end(), w);
                if (it != m.end()) m.erase(it);
                if (!m.empty()) m = rotated_left(m, 1);
                break;
            }
            case 17:
                what = "sort";
                g.note(what);
                g.require(WHERE(l.sort()) == &l, "sort returns the list");
                std::sort(m.begin(), m.end());
                break;
            case 18:
            {
                what = "uniquify";
                g.note(what);
                g.require(WHERE(l.uniquify()) == &l, "uniquify returns the list");
                Model r;
                for (int v : m)
                {
                    if (std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v);
                }
                m = r;
                break;
            }
            case 19:
            {
                what = "clear and refill";
                if (!g.chance(1, 2)) break;
                g.note("clear and refill with ", n, " elements");
                l.clear();
                Model r;
                for (int i = n; i-- > 0;)
                {
                    l += make<T>(m[std::size_t(i)]);
                    r.push_back(m[std::size_t(i)]);
                }
                m = r;
                break;
            }
            case 20:
            {
                what = "write through all indices";
                g.note(what);
                for (int i = 0; i < n; ++i)
                {
                    int v = (m[std::size_t(i)] + 1) % d;
                    l[i % 2 ? i : i - n] = make<T>(v);
                    m[std::size_t(i)] = v;
                }
                break;
            }
            default:
            {
                what = "filter";
                int v = g.below(d);
                g.note(what, " elements above ", v);
                const T& t = make<T>(v);
                g.require(WHERE(l.filter([&](const T& e) { return e > t; })) == &l, "filter returns the list");
                m.erase(std::remove_if(m.begin(), m.end(), [&](int x) { return x <= v; }), m.end());
            }
        }
        same_seq<T>(g, l, m, what, thorough);
        longest = std::max(longest, m.size());
        if (m.size() > 400)
        {
            m.resize(100);
            l.erase(100, l.size());
            g.note("erase from 100 on");
            same_seq<T>(g, l, m, "erase of the tail");
        }
    }
    Blind::open_eyes();
    same_seq<T>(g, l, m, "list at the end");
    same_seq<T>(g, other, o, "other list at the end");
    g.nontrivial_if(ops >= 4 && longest >= 3);
    if (ops >= 15) g.label("history of 15 or more edits");
    if (longest > 40) g.label("list of more than 40 elements");
}

PBT_SUB(ints, 4) { history<int>(g); }
PBT_SUB(strings, 2) { history<std::string>(g); }
PBT_SUB(big_ints, 1) { history<pyincpp::Int>(g); }
PBT_SUB(boxes, 3) { history<Box>(g); }
PBT_SUB(doubles, 1) { history<double>(g); }
PBT_SUB(twins, 1) { history<Twin>(g); }

// Sizes up to tens of thousands now and then.
PBT_SUB(large, 1)
{
    const int n = vast(g, true), domain = g.coin() ? n + 2 : g.range(1, 30);
    Model m = spread(g, n, domain);
    List<int> l;
    const bool built = g.coin();
    if (built) l = List<int>(m.begin(), m.end());
    else for (int v : m) l += v;
    g.note(built ? "constructed" : "appended", " list of ", n, " elements below ", domain);
    if (n > 100) g.label("list of more than 100 elements");
    g.nontrivial_if(n > 1);
    auto same = [&](const char* what) {
        ++g.steps;
        const int size = int(m.size());
        if (l.size() != size || l.is_empty() != (size == 0) || !std::equal(m.begin(), m.end(), l.begin(), l.end()) || !std::equal(m.rbegin(), m.rend(), l.rbegin(), l.rend()))
        {
            g.fail(std::string(what) + " of a large list: " + std::to_string(l.size()) + " elements, want " + std::to_string(size) + " (or another order)");
        }
        for (int k = 0; k < 3 && size > 0; ++k)
        {
            const int i = k == 0 ? size - 1 : g.below(size);
            eqs(g, l[i], m[std::size_t(i)], "element by its index");
            eqs(g, l[i - size], m[std::size_t(i)], "element by its index from the end");
        }
    };
    same("construction");
    for (int k = g.below(8); k > 0; --k)
    {
        const int size = int(m.size()), i = size ? g.below(size) : 0, v = size && g.coin() ? m[std::size_t(i)] : g.below(domain);
        const char* what = "?";
        const int op = g.below(12);
        g.note("op ", op, " ", i, " ", v);
        switch (op)
        {
            case 0: what = "insert"; l.insert(i, v); m.insert(m.begin() + i, v); break;
            case 1: what = "insert from the end"; if (size) { l.insert(i - size, v); m.insert(m.begin() + i, v); } break;
            case 2: what = "remove"; if (size) { eqs(g, l.remove(g.coin() ? i : i - size), m[std::size_t(i)], "removed element"); m.erase(m.begin() + i); } break;
            case 3:
            case 4:
            {
                const Model e = spread(g, g.below(n + 2), domain);
                g.note(e.size(), " more");
                what = op == 3 ? "extend" : "+= list";
                op == 3 ? l.extend(e.begin(), e.end()) : (void)(l += List<int>(e.begin(), e.end()));
                m.insert(m.end(), e.begin(), e.end());
                break;
            }
            case 5: what = "-= element"; l -= v; if (auto it = std::find(m.begin(), m.end(), v); it != m.end()) m.erase(it); break;
            case 6: what = "/= element"; l /= v; m.erase(std::remove(m.begin(), m.end(), v), m.end()); break;
            case 7:
            {
                what = "rotation";
                const int r = g.coin() ? g.any_int() : i;
                g.note(r);
                const bool left = g.coin();
                left ? (void)(l <<= r) : (void)(l >>= r);
                if (size) std::rotate(m.begin(), m.begin() + (((left ? 1LL * r : -1LL * r) % size) + size) % size, m.end());
                break;
            }
            case 8: what = "reverse"; l.reverse(); std::reverse(m.begin(), m.end()); break;
            case 9:
            {
                what = "erase";
                const int j = g.range(i, size);
                g.note("to ", j);
                l.erase(i, j);
                m.erase(m.begin() + i, m.begin() + j);
                break;
            }
            case 10:
            {
                what = "*= n";
                const int times = size > 200000 ? 1 : g.below(4);
                Model r;
                for (int t = 0; t < times; ++t) r.insert(r.end(), m.begin(), m.end());
                l *= times;
                m = r;
                break;
            }
            default: what = "assignment"; if (size) { l[g.coin() ? i : i - size] = v; m[std::size_t(i)] = v; }
        }
        same(what);
    }
}

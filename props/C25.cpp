#include "setref.hpp"

static pbt::Config config("C25",
    "histories of adds, removals, pops, extensions and in-place algebra (also with itself and chained) on a set and a second one as "
    "argument next to a std::set of ints, small and large domains, element types int, string, big integer and a deep-copying "
    "move-detecting type; all observers compared after every operation; non-trivial: at least 4 operations and at least 2 elements at "
    "some point",
    1000000, 100000);

template <typename T>
static void history(G& g)
{
    const int d = 1 + gen_domain(g), probes = std::min(d + 1, 30);
    Model i1 = gen_model(g, d, g.chance(1, 10) ? 300 : 10, 6), i2 = gen_model(g, d, 20, 6);
    Set<T> s = gen_set<T>(g, i1), t = gen_set<T>(g, i2);
    SetModel m(i1.begin(), i1.end()), o(i2.begin(), i2.end());
    g.note(Elem<T>::name, " set of ", show_model(i1), ", other of ", show_model(i2));
    same_set<T>(g, s, m, probes, "constructed set");
    Blind blind(g);
    std::size_t largest = m.size();
    int ops = 0;
    while (g.more(ops, 40, 10))
    {
        ++ops;
        const char* what = "?";
        switch (g.below(16))
        {
            case 0:
            case 1:
            {
                what = "add";
                int v = g.below(d);
                g.note(what, " ", v);
                bool fresh = m.insert(v).second;
                eqs(g, s.add(make<T>(v)), fresh, "value returned by add");
                break;
            }
            case 2:
            case 3:
            {
                what = "remove";
                int v = g.below(d);
                g.note(what, " ", v);
                bool in = m.erase(v) == 1;
                eqs(g, s.remove(make<T>(v)), in, "value returned by remove");
                break;
            }
            case 4:
            {
                what = "pop";
                g.note(what);
                if (m.empty())
                {
                    must_reject(g, [&] { s.pop(); }, "pop of an empty set");
                    must_reject(g, [&] { s.min(); }, "min of an empty set");
                    must_reject(g, [&] { s.max(); }, "max of an empty set");
                    break;
                }
                T e = s.pop();
                auto it = m.begin();
                while (it != m.end() && !(make<T>(*it) == e)) ++it;
                g.require(it != m.end(), "pop returns a member");
                m.erase(it);
                break;
            }
            case 5:
            {
                what = "extend";
                Model e = gen_model(g, d, 20, 4);
                g.note(what, " by ", show_model(e));
                std::vector<T> v = elements<T>(e);
                switch (g.below(3))
                {
                    case 0: s.extend(v.begin(), v.end()); break;
                    case 1:
                    {
                        InputRange<T> r(e);
                        s.extend(r.begin(), r.end());
                        break;
                    }
                    default: s.extend(t.begin(), t.end()); e = members(o);
                }
                m.insert(e.begin(), e.end());
                break;
            }
            case 6:
                what = "clear";
                if (!g.chance(1, 3)) break;
                g.note(what);
                s.clear();
                m.clear();
                break;
            case 7:
            case 8:
            case 9:
            case 10:
            {
                int op = g.below(4);
                bool self = g.chance(1, 5);
                const Set<T>& arg = self ? s : t;
                const SetModel p = self ? m : o;
                SetModel r;
                const void* ret = nullptr;
                static const char* names[2][4] = {{"&=", "|=", "-=", "^="}, {"&= with itself", "|= with itself", "-= with itself", "^= with itself"}};
                what = names[self][op];
                g.note(what);
                for (int v : m)
                {
                    bool in = p.count(v) != 0;
                    if (op == 0 ? in : op == 1 ? true : !in) r.insert(v);
                }
                if (op == 1 || op == 3)
                {
                    for (int v : p)
                    {
                        if (op == 1 || m.count(v) == 0) r.insert(v);
                    }
                }
                switch (op)
                {
                    case 0: ret = WHERE(s &= arg); break;
                    case 1: ret = WHERE(s |= arg); break;
                    case 2: ret = WHERE(s -= arg); break;
                    default: ret = WHERE(s ^= arg);
                }
                g.require(ret == &s, "in-place operators return the set");
                m = r;
                break;
            }
            case 11:
                what = "swap with other";
                g.note(what);
                std::swap(s, t);
                std::swap(m, o);
                break;
            case 12:
            {
                what = "chained algebra";
                g.note("((s |= t) -= u) ^= t");
                Model um = gen_model(g, d, 8, 4);
                Set<T> u = gen_set<T>(g, um);
                g.note("u of ", show_model(um));
                ((s |= t) -= u) ^= t;
                m.insert(o.begin(), o.end());
                for (int v : um) m.erase(v);
                for (int v : o)
                {
                    if (!m.erase(v)) m.insert(v);
                }
                break;
            }
            case 13:
            {
                what = "pop until empty and refill";
                if (!g.chance(1, 3) || m.size() > 60) break;
                g.note(what);
                SetModel popped;
                for (int k = int(m.size()); k > 0; --k)
                {
                    T e = s.pop();
                    for (int v : m)
                    {
                        if (make<T>(v) == e) popped.insert(v);
                    }
                }
                g.require(s.is_empty() && s.size() == 0, "set after popping all its members");
                g.require(popped == m, "pops return every member once");
                for (int v : m) s.add(make<T>(v));
                break;
            }
            case 14:
            {
                what = "assignment and copies";
                g.note(what);
                Set<T> c(s), e;
                e = c;
                c.clear();
                s = e;
                e.add(make<T>(d));
                break;
            }
            default:
            {
                what = "remove and add again";
                int v = g.below(d);
                g.note(what, " ", v);
                bool in = m.count(v) != 0;
                eqs(g, s.remove(make<T>(v)), in, "value returned by remove");
                eqs(g, s.remove(make<T>(v)), false, "value returned by the second remove");
                eqs(g, s.add(make<T>(v)), true, "value returned by add");
                eqs(g, s.add(make<T>(v)), false, "value returned by the second add");
                m.insert(v);
            }
        }
        same_set<T>(g, s, m, probes, what);
        largest = std::max(largest, m.size());
    }
    Blind::open_eyes();
    same_set<T>(g, s, m, probes, "set at the end");
    same_set<T>(g, t, o, probes, "other set at the end");
    g.nontrivial_if(ops >= 4 && largest >= 2);
    if (ops >= 15) g.label("history of 15 or more operations");
    if (largest > 30) g.label("set of more than 30 elements");
}
PBT_SUB(ints, 4) { history<int>(g); }
PBT_SUB(strings, 2) { history<std::string>(g); }
PBT_SUB(big_ints, 1) { history<pyincpp::Int>(g); }
PBT_SUB(boxes, 2) { history<Box>(g); }
PBT_SUB(doubles, 1) { history<double>(g); }
PBT_SUB(twins, 1) { history<Twin>(g); }

// sets of thousands of elements
static void same_large(G& g, const Set<int>& s, const SetModel& m, int domain, const char* what)
{
    g.steps += 4;
    g.require_f(s.size() == int(m.size()) && s.is_empty() == m.empty(), [&] { return std::string(what) + ": size is " + std::to_string(s.size()) + ", want " + std::to_string(m.size()); });
    g.require_f(std::equal(m.begin(), m.end(), s.begin(), s.end()), [&] { return std::string(what) + " (iteration): got " + show_seq(s) + ", want " + show_seq(m); });
    g.require_f(std::equal(m.rbegin(), m.rend(), s.rbegin(), s.rend()), [&] { return std::string(what) + " (reverse iteration): got " + show_seq(s) + ", want " + show_seq(m); });
    if (!m.empty()) g.require(s.min() == *m.begin() && s.max() == *m.rbegin(), "min and max");
    for (int k = 0; k < 8; ++k)
    {
        const int v = g.below(domain);
        g.require_f(s.contains(v) == (m.count(v) == 1) && (s.find(v) != s.end()) == (m.count(v) == 1), [&] { return std::string(what) + ": contains(" + std::to_string(v) + ")"; });
    }
}
PBT_SUB(large, 1)
{
    const int n = vast(g, true), domain = n + n / 2 + 4;
    const Model i1 = spread(g, n, domain), i2 = spread(g, vast(g), domain);
    Set<int> s(i1.begin(), i1.end()), t(i2.begin(), i2.end());
    SetModel m(i1.begin(), i1.end()), o(i2.begin(), i2.end());
    g.note("sets of ", m.size(), " and ", o.size(), " elements below ", domain);
    if (m.size() > 100) g.label("set of more than 100 elements");
    g.nontrivial_if(m.size() > 1);
    same_large(g, s, m, domain, "constructed set");
    for (int k = g.below(7); k > 0; --k)
    {
        const char* what = "?";
        switch (g.below(8))
        {
            case 0:
                what = "adds";
                for (int v : spread(g, g.below(n + 2), domain)) g.require(s.add(v) == m.insert(v).second, "value returned by add");
                break;
            case 1:
            case 2:
                what = "removals";
                for (int v : spread(g, g.below(n + 2), domain)) g.require(s.remove(v) == (m.erase(v) == 1), "value returned by remove");
                break;
            case 3:
                what = "pops";
                for (int c = g.below(n + 1); c > 0 && !m.empty(); --c) g.require(m.erase(s.pop()) == 1, "pop returns a member");
                break;
            case 4:
            {
                what = "extend";
                const Model e = spread(g, g.below(n + 2), domain);
                s.extend(e.begin(), e.end());
                m.insert(e.begin(), e.end());
                break;
            }
            default:
            {
                const int op = g.below(4);
                static const char* names[] = {"&=", "|=", "-=", "^="};
                what = names[op];
                SetModel r;
                for (int v = 0; v < domain; ++v)
                {
                    const bool a = m.count(v), b = o.count(v);
                    if (op == 0 ? a && b : op == 1 ? a || b : op == 2 ? a && !b : a != b) r.insert(r.end(), v);
                }
                op == 0 ? (void)(s &= t) : op == 1 ? (void)(s |= t) : op == 2 ? (void)(s -= t) : (void)(s ^= t);
                m = r;
                break;
            }
        }
        g.note(what);
        same_large(g, s, m, domain, what);
        if (g.chance(1, 4))
        {
            std::swap(s, t);
            std::swap(m, o);
        }
    }
    same_large(g, t, o, domain, "other set");
}

#include "elem.hpp"
#include "deque.hpp"
#include "list.hpp"
using pyincpp::Deque;

static pbt::Config config("C24",
    "histories of pushes, pops, extensions (by vectors, single-pass ranges and the deque's own ranges), rotations, reversals, element "
    "assignments and rejected calls on one deque next to a plain vector, with bursts that cross the node size of the underlying deque, "
    "element types int, string, big integer and a deep-copying move-detecting type; all observers compared after every operation; "
    "non-trivial: at least 4 operations and at least 3 elements at some point",
    1500000, 150000);

template <typename T>
static Deque<T> gen_deque(G& g, const Model& m)
{
    std::vector<T> v = elements<T>(m);
    switch (g.pick({4, 1, 1, 1}))
    {
        case 0: return Deque<T>(v.begin(), v.end());
        case 1: return Deque<T>(std::deque<T>(v.begin(), v.end()));
        case 2:
        {
            Deque<T> r;
            for (auto it = v.rbegin(); it != v.rend(); ++it) r.push_front(*it);
            return r;
        }
        default:
            if (m.size() == 0) return Deque<T>{};
            if (m.size() == 2) return Deque<T>{v[0], v[1]};
            if (m.size() == 3) return Deque<T>{v[0], v[1], v[2]};
            return Deque<T>(v.begin(), v.end());
    }
}

template <typename T>
static void same_deque(G& g, const Deque<T>& q, const Model& m, const char* what, bool thorough = true)
{
    same_seq<T>(g, q, m, what, thorough);
    if (Blind::on && !g.chance(1, 8)) return;
    if (!m.empty())
    {
        Deque<T>& w = const_cast<Deque<T>&>(q);
        if (!(q.front() == make<T>(m.front())) || !(w.front() == make<T>(m.front()))) g.fail(std::string(what) + ": wrong front");
        if (!(q.back() == make<T>(m.back())) || !(w.back() == make<T>(m.back()))) g.fail(std::string(what) + ": wrong back");
    }
}

template <typename T>
static void history(G& g)
{
    const int d = gen_domain(g);
    Model m = gen_model(g, d, g.chance(1, 10) ? 300 : 12);
    Deque<T> q = gen_deque<T>(g, m);
    g.note(Elem<T>::name, " deque ", show_model(m));
    same_deque<T>(g, q, m, "constructed deque");
    Blind blind(g);
    std::size_t longest = m.size();
    int ops = 0;
    while (g.more(ops, 40, 10))
    {
        const int n = int(m.size());
        ++ops;
        const char* what = "?";
        switch (g.below(18))
        {
            case 0:
            {
                what = "push_back";
                int v = g.below(d);
                g.note(what, " ", v);
                q.push_back(make<T>(v));
                m.push_back(v);
                break;
            }
            case 1:
            {
                what = "push_front";
                int v = g.below(d);
                g.note(what, " ", v);
                q.push_front(make<T>(v));
                m.insert(m.begin(), v);
                break;
            }
            case 2:
            {
                what = "pop_back";
                g.note(what);
                if (n == 0)
                {
                    must_reject(g, [&] { q.pop_back(); }, "pop_back of an empty deque");
                    must_reject(g, [&] { (void)q.back(); }, "back of an empty deque");
                    must_reject(g, [&] { (void)std::as_const(q).back(); }, "const back of an empty deque");
                    break;
                }
                eqs(g, q.pop_back(), make<T>(m.back()), "pop_back");
                m.pop_back();
                break;
            }
            case 3:
            {
                what = "pop_front";
                g.note(what);
                if (n == 0)
                {
                    must_reject(g, [&] { q.pop_front(); }, "pop_front of an empty deque");
                    must_reject(g, [&] { (void)q.front(); }, "front of an empty deque");
                    must_reject(g, [&] { (void)std::as_const(q).front(); }, "const front of an empty deque");
                    break;
                }
                eqs(g, q.pop_front(), make<T>(m.front()), "pop_front");
                m.erase(m.begin());
                break;
            }
            case 4:
            case 5:
            {
                bool back = g.coin();
                what = back ? "extend_back" : "extend_front";
                Model e = gen_model(g, d, 30, 5);
                g.note(what, " by ", show_model(e));
                std::vector<T> v = elements<T>(e);
                switch (g.below(3))
                {
                    case 0: back ? q.extend_back(v.begin(), v.end()) : q.extend_front(v.begin(), v.end()); break;
                    case 1:
                    {
                        InputRange<T> r(e);
                        back ? q.extend_back(r.begin(), r.end()) : q.extend_front(r.begin(), r.end());
                        break;
                    }
                    default:
                    {
                        pyincpp::List<T> l(v);
                        back ? q.extend_back(l.begin(), l.end()) : q.extend_front(l.begin(), l.end());
                    }
                }
                m.insert(back ? m.end() : m.begin(), e.begin(), e.end());
                break;
            }
            case 6:
            {
                int i = g.range(0, n), j = g.chance(1, 3) ? n : g.range(i, n);
                bool back = g.coin();
                what = back ? "extend_back by its own range" : "extend_front by its own range";
                g.note(what, " ", i, " to ", j);
                Model e(m.begin() + i, m.begin() + j);
                if (g.chance(1, 4))
                {
                    what = "extend by its own reversed range";
                    g.note("(reversed, whole)");
                    e.assign(m.rbegin(), m.rend());
                    back ? q.extend_back(q.rbegin(), q.rend()) : q.extend_front(q.rbegin(), q.rend());
                }
                else
                {
                    auto first = q.begin() + i, last = q.begin() + j;
                    back ? q.extend_back(first, last) : q.extend_front(first, last);
                }
                m.insert(back ? m.end() : m.begin(), e.begin(), e.end());
                break;
            }
            case 7:
            case 8:
            {
                bool right = g.coin();
                what = right ? ">>=" : "<<=";
                int k = g.coin() ? g.any_int() : gen_bound(g, n);
                g.note(what, " ", k);
                g.require((right ? WHERE(q >>= k) : WHERE(q <<= k)) == &q, "rotation returns the deque");
                m = rotated_left(m, right ? -(long long)k : k);
                break;
            }
            case 9:
                what = "reverse";
                g.note(what);
                g.require(WHERE(q.reverse()) == &q, "reverse returns the deque");
                std::reverse(m.begin(), m.end());
                break;
            case 10:
                what = "clear";
                if (!g.chance(1, 3)) break;
                g.note(what);
                q.clear();
                m.clear();
                break;
            case 11:
            {
                what = "element assignment";
                int i = g.chance(1, 8) || n == 0 ? gen_bound(g, n) : gen_index(g, n), v = g.below(d);
                g.note("q[", i, "] = ", v);
                if (i < -n || i >= n)
                {
                    must_reject(g, [&] { q[i] = make<T>(v); }, "index out of range");
                    must_reject(g, [&] { (void)std::as_const(q)[i]; }, "const index out of range");
                    break;
                }
                q[i] = make<T>(v);
                m[at(i, m.size())] = v;
                break;
            }
            case 12:
            {
                what = "assignment through front and back";
                int v = g.below(d);
                if (n == 0) break;
                g.note(what, " ", v);
                if (g.coin())
                {
                    q.front() = make<T>(v);
                    m.front() = v;
                }
                else
                {
                    q.back() = make<T>(v);
                    m.back() = v;
                }
                break;
            }
            case 13:
            {
                what = "drain from both ends";
                int k = g.below(n + 1);
                g.note(what, " ", k, " elements");
                for (int i = 0; i < k; ++i)
                {
                    bool back = i % 2;
                    T e = back ? q.pop_back() : q.pop_front();
                    eqs(g, e, make<T>(back ? m.back() : m.front()), "drained element");
                    if (back) m.pop_back();
                    else m.erase(m.begin());
                }
                break;
            }
            case 14:
            {
                what = "queue: push_back and pop_front";
                int k = g.below(150);
                if (!g.chance(1, 4)) k %= 8;
                g.note(what, " ", k, " times");
                for (int i = 0; i < k; ++i)
                {
                    int v = (i * 7 + k) % d;
                    q.push_back(make<T>(v));
                    m.push_back(v);
                    eqs(g, q.pop_front(), make<T>(m.front()), "queue element");
                    m.erase(m.begin());
                }
                break;
            }
            case 15:
            {
                what = "burst of push_front";
                int k = g.below(90);
                if (!g.chance(1, 4)) k %= 8;
                g.note(what, " ", k);
                for (int i = 0; i < k; ++i)
                {
                    int v = (i * 5 + k) % d;
                    q.push_front(make<T>(v));
                    m.insert(m.begin(), v);
                }
                break;
            }
            case 16:
            {
                what = "copy and assign";
                g.note(what);
                Deque<T> c(q), e;
                e = c;
                c.clear();
                q = e;
                break;
            }
            default:
            {
                what = "chained rotations";
                int a = g.range(-5, 5), b = g.range(-5, 5);
                g.note("((q >>= ", a, ").reverse()) <<= ", b);
                ((q >>= a).reverse()) <<= b;
                m = rotated_left(m, -a);
                std::reverse(m.begin(), m.end());
                m = rotated_left(m, b);
            }
        }
        same_deque<T>(g, q, m, what);
        longest = std::max(longest, m.size());
        if (m.size() > 500)
        {
            g.note("pop_back until 100 elements are left");
            while (m.size() > 100)
            {
                m.pop_back();
                q.pop_back();
            }
            same_deque<T>(g, q, m, "drained deque");
        }
    }
    Blind::open_eyes();
    same_deque<T>(g, q, m, "deque at the end");
    g.nontrivial_if(ops >= 4 && longest >= 3);
    if (ops >= 15) g.label("history of 15 or more operations");
    if (longest > 64) g.label("deque of more than 64 elements");
}
PBT_SUB(ints, 4) { history<int>(g); }
PBT_SUB(strings, 2) { history<std::string>(g); }
PBT_SUB(big_ints, 1) { history<pyincpp::Int>(g); }
PBT_SUB(boxes, 3) { history<Box>(g); }
PBT_SUB(twins, 1) { history<Twin>(g); }

template <typename T>
static void compare(G& g)
{
    const int d = gen_domain(g);
    Model m = gen_model(g, d, 100, 6), o = gen_related_model(g, m, d);
    Deque<T> a = gen_deque<T>(g, m), b = gen_deque<T>(g, o);
    g.note(Elem<T>::name, " deques ", show_model(m), " and ", show_model(o));
    g.nontrivial_if(m.size() >= 2);
    if (m == o) g.label("equal deques");
    g.require((a == b) == (m == o) && (b == a) == (m == o), "==");
    g.require((a != b) == (m != o) && (b != a) == (m != o), "!=");
    g.require((a < b) == (m < o) && (b > a) == (m < o), "<");
    g.require((a > b) == (m > o) && (b < a) == (m > o), ">");
    g.require((a <= b) == (m <= o) && (b >= a) == (m <= o), "<=");
    g.require((a >= b) == (m >= o) && (b <= a) == (m >= o), ">=");
    g.require(a == a && a <= a && a >= a && !(a < a) && !(a > a) && !(a != a), "deque compared with itself");
    same_deque<T>(g, a, m, "deque after comparing", false);
}
PBT_SUB(compare_int, 1) { compare<int>(g); }
PBT_SUB(compare_string, 1) { compare<std::string>(g); }
PBT_SUB(compare_double, 1) { compare<double>(g); }
PBT_SUB(compare_twin, 1) { compare<Twin>(g); }

// Sizes up to tens of thousands now and then; the model is a vector for which pushes at the front are collected.
PBT_SUB(large, 1)
{
    const int n = vast(g, true);
    Model m = spread(g, n, n + 2);
    Deque<int> q;
    const bool built = g.coin();
    if (built)
    {
        q = Deque<int>(m.begin(), m.end());
    }
    else // from the middle
    {
        const int half = g.below(n + 1);
        for (int i = half; i < n; ++i) q.push_back(m[std::size_t(i)]);
        for (int i = half - 1; i >= 0; --i) q.push_front(m[std::size_t(i)]);
    }
    g.note(built ? "constructed" : "pushed", " deque of ", n, " elements");
    if (n > 100) g.label("deque of more than 100 elements");
    g.nontrivial_if(n > 1);
    auto same = [&](const char* what) {
        ++g.steps;
        const int size = int(m.size());
        if (q.size() != size || !std::equal(m.begin(), m.end(), q.begin(), q.end()) || !std::equal(m.rbegin(), m.rend(), q.rbegin(), q.rend()))
        {
            g.fail(std::string(what) + " of a large deque: " + std::to_string(q.size()) + " elements, want " + std::to_string(size) + " (or another order)");
        }
        for (int k = 0; k < 3 && size > 0; ++k)
        {
            const int i = k == 0 ? size - 1 : g.below(size);
            eqs(g, q[i], m[std::size_t(i)], "element by its index");
            eqs(g, q[i - size], m[std::size_t(i)], "element by its index from the end");
        }
    };
    same("construction");
    for (int k = g.below(6); k > 0; --k)
    {
        const int size = int(m.size());
        const char* what = "?";
        switch (g.below(7))
        {
            case 0:
            {
                what = "rotation";
                const int r = g.coin() ? g.any_int() : g.below(size + 1);
                g.note(what, " by ", r);
                const bool left = g.coin();
                left ? (void)(q <<= r) : (void)(q >>= r);
                if (size)
                {
                    const long long by = (((left ? 1LL * r : -1LL * r) % size) + size) % size;
                    std::rotate(m.begin(), m.begin() + by, m.end());
                }
                break;
            }
            case 1: what = "reverse"; g.note(what); q.reverse(); std::reverse(m.begin(), m.end()); break;
            case 2:
            {
                what = "pops";
                const int front = g.below(size + 1), back = g.below(size - front + 1);
                g.note(what, " ", front, " and ", back);
                for (int i = 0; i < front; ++i) g.require(q.pop_front() == m[std::size_t(i)], "pop_front");
                for (int i = 0; i < back; ++i) g.require(q.pop_back() == m[m.size() - 1 - std::size_t(i)], "pop_back");
                m = Model(m.begin() + front, m.end() - back);
                break;
            }
            case 3:
            case 4:
            {
                const Model e = spread(g, g.below(n + 2), n + 2);
                const bool front = g.coin();
                what = front ? "extend_front" : "extend_back";
                g.note(what, " ", e.size());
                front ? q.extend_front(e.begin(), e.end()) : q.extend_back(e.begin(), e.end());
                m.insert(front ? m.begin() : m.end(), e.begin(), e.end());
                break;
            }
            case 5:
            {
                what = "assignment";
                if (!size) break;
                const int i = g.below(size), v = g.below(n + 2);
                g.note(what, " at ", i);
                q[g.coin() ? i : i - size] = v;
                m[std::size_t(i)] = v;
                break;
            }
            default:
            {
                what = "comparison";
                Deque<int> c(q);
                g.require(c == q && !(c != q) && !(c < q) && c <= q, "a copy is equal");
                if (!size) break;
                const int i = g.below(size);
                c[i] += 1;
                g.require(c != q && q < c && c > q && !(c == q), "a copy that is changed in one place is greater");
            }
        }
        same(what);
    }
}

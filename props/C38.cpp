// Size does not matter: the same operations on values of ten thousands of elements, characters
// or digits, against simple models.
// @thorough_scale: 12
// @nofuzz: yes
// @cpu: 90
#include "intref.hpp"
#include "longtext.hpp"
#include "pyincpp.hpp"
#include <deque>
#include <map>
#include <set>
#include <fcntl.h>
#include <malloc.h>
#include <sys/file.h>
#include <sys/resource.h>
#include <unistd.h>
using pyincpp::Deque;
using pyincpp::Dict;
using pyincpp::List;
using pyincpp::Set;
using pyincpp::Str;

static pbt::Config config("C38", "a case counts if the value examined has more than 1000 elements, characters or digits", 2600, 420, 8);

using longtext::gen_size;
static void same_list(G& g, const List<int>& l, const std::vector<int>& m, const char* what)
{
    ++g.steps;
    g.require_f(l.size() == int(m.size()), [&] { return std::string(what) + ": size " + std::to_string(l.size()) + ", want " + std::to_string(m.size()); });
    auto it = std::mismatch(l.begin(), l.end(), m.begin()).first;
    g.require_f(it == l.end(), [&] { return std::string(what) + ": element " + std::to_string(it - l.begin()) + " of " + std::to_string(m.size()) + " is " + std::to_string(*it) + ", want " + std::to_string(m[std::size_t(it - l.begin())]); });
}

PBT_SUB(lists, 4)
{
    const int n = gen_size(g, 260000), distinct = g.coin() ? 1 << 30 : g.range(1, 40);
    pbt::Rng r(g.seed64());
    std::vector<int> m(static_cast<std::size_t>(n));
    for (auto& e : m)
    {
        e = int(r.upto(pbt::u64(distinct)));
    }
    List<int> l(m);
    g.note("list of ", n, " elements, ", distinct, " different");
    same_list(g, l, m, "constructed");
    const int steps = 3 + g.below(8);
    for (int k = 0; k < steps; ++k)
    {
        const int size = int(m.size());
        const int op = g.below(18), i = g.range(0, size - 1), j = g.range(i, size - 1);
        g.note("op ", op, " ", i, " ", j);
        switch (op)
        {
            case 0: l.insert(i, -5); m.insert(m.begin() + i, -5); break;
            case 1: eqs(g, l.remove(i - size), m[std::size_t(i)], "removed element"); m.erase(m.begin() + i); break;
            case 2: l.erase(i, j); m.erase(m.begin() + i, m.begin() + j); break;
            case 3: l <<= i; std::rotate(m.begin(), m.begin() + i, m.end()); break;
            case 4: l >>= i; std::rotate(m.begin(), m.end() - i, m.end()); break;
            case 5: l.reverse(); std::reverse(m.begin(), m.end()); break;
            case 6: l.sort(); std::stable_sort(m.begin(), m.end()); break;
            case 7:
            {
                int step = g.range(1, 5) * (g.coin() ? 1 : -1);
                std::vector<int> w;
                if (step > 0) for (int q = i; q < j; q += step) w.push_back(m[std::size_t(q)]);
                else for (int q = j; q > i; q += step) w.push_back(m[std::size_t(q)]);
                same_list(g, step > 0 ? l.slice(i, j, step) : l.slice(j, i, step), w, "slice");
                break;
            }
            case 8: eqs(g, l.count(m[std::size_t(i)]), int(std::count(m.begin(), m.end(), m[std::size_t(i)])), "count"); break;
            case 9: eqs(g, l.index(m[std::size_t(j)], i), int(std::find(m.begin() + i, m.end(), m[std::size_t(j)]) - m.begin()), "index"); break;
            case 10: l /= m[std::size_t(i)]; { int v = m[std::size_t(i)]; m.erase(std::remove(m.begin(), m.end(), v), m.end()); } break;
            case 11: l -= m[std::size_t(i)]; m.erase(std::find(m.begin(), m.end(), m[std::size_t(i)])); break;
            case 12:
                if (distinct <= 40)
                {
                    l.uniquify();
                    std::vector<int> w;
                    for (int e : m) if (std::find(w.begin(), w.end(), e) == w.end()) w.push_back(e);
                    m = w;
                }
                break;
            case 13:
                if (size < 150000)
                {
                    l *= 2;
                    m.resize(std::size_t(size) * 2);
                    for (int q = 0; q < size; ++q) m[std::size_t(size + q)] = m[std::size_t(q)];
                }
                break;
            case 14: l.filter([](const int& e) { return e % 3 != 1; }); m.erase(std::remove_if(m.begin(), m.end(), [](int e) { return e % 3 == 1; }), m.end()); break;
            case 15: l.map([](int& e) { e ^= 1; }); for (auto& e : m) e ^= 1; break;
            case 16:
                if (size < 150000)
                {
                    l += l;
                    const std::vector<int> w = m;
                    m.insert(m.end(), w.begin(), w.end());
                }
                break;
            default:
            {
                List<int> c(l);
                g.require(c == l && !(c < l), "a copy is equal");
                c[i] = c[i] ^ 1;
                g.require((c < l) == ((m[std::size_t(i)] ^ 1) < m[std::size_t(i)]) && c != l, "order of lists that differ in one element");
            }
        }
        same_list(g, l, m, "list");
        if (m.empty())
        {
            break;
        }
    }
    std::string want = "[";
    for (std::size_t q = 0; q < m.size(); ++q) want += (q ? ", " : "") + std::to_string(m[q]);
    g.require(show(l) == want + "]", "the printed list");
    g.nontrivial();
    g.label("List");
}

// Lists at the largest sizes an int can count. The element has no state and its copies do nothing, so that
// two thousand million of them take neither time nor (touched) memory.
struct Blank
{
    char unused;
    Blank() {}
    Blank(int) {}
    Blank(const Blank&) {}
    Blank& operator=(const Blank&) { return *this; }
    bool operator==(const Blank&) const { return true; }
    bool operator<(const Blank&) const { return false; }
};

// One process at a time may reserve more address space than usual, in case the memory is touched after all.
struct Room
{
    int lock;
    struct rlimit old;
    Room()
        : lock(open("/proc/self/exe", O_RDONLY))
    {
        flock(lock, LOCK_EX);
        mallopt(M_PERTURB, 0); // which would touch all of it
        getrlimit(RLIMIT_AS, &old);
        struct rlimit wide = old;
        wide.rlim_cur = old.rlim_cur == RLIM_INFINITY ? old.rlim_cur : 24ul << 30;
        setrlimit(RLIMIT_AS, &wide);
    }
    ~Room()
    {
        setrlimit(RLIMIT_AS, &old);
        const char* perturb = getenv("MALLOC_PERTURB_");
        mallopt(M_PERTURB, perturb ? atoi(perturb) : 0);
        close(lock);
    }
};

PBT_SUB(enormous, 1)
{
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__) || defined(__OPTIMIZE_SIZE__) || !defined(__OPTIMIZE__)
    const int n = (1 << 20) - g.below(3); // every element is visited in these builds
#else
    const int n = g.chance(2, 3) ? INT_MAX - g.below(3) : g.chance(1, 2) ? (1 << 30) + g.range(-2, 2) : g.range(1 << 16, INT_MAX);
#endif
    if (!g.chance(1, 6)) // enough of it
    {
        g.note("none");
        return;
    }
    const Room room;
    List<Blank> l((std::vector<Blank>(std::size_t(n))));
    g.note("list of ", n, " elements without state");
    g.nontrivial();
    g.label("enormous List");
    long long size = n;
    const auto rejects = [&](auto call, const char* what)
    {
        ++g.steps;
        bool rejected = false;
        try
        {
            call();
        }
        catch (const std::runtime_error&)
        {
            rejected = true;
        }
        g.require(rejected, what);
    };
    for (int k = 1 + g.below(4); k > 0; --k)
    {
        const int op = g.below(8);
        g.note("op ", op, " size ", size);
        switch (op)
        {
            case 0:
                if (size == INT_MAX) rejects([&] { l += Blank(); }, "appending to a full list is rejected");
                else { l += Blank(); ++size; }
                break;
            case 1:
            {
                const int i = g.coin() ? int(size) - 1 - g.below(4) : -1 - g.below(4);
                g.note("at ", i);
                if (size == INT_MAX) rejects([&] { l.insert(i, Blank()); }, "inserting into a full list is rejected");
                else { l.insert(i, Blank()); ++size; }
                break;
            }
            case 2:
            {
                const int extra = g.chance(1, 4) ? INT_MAX / 2 + g.range(-1, 1) : g.below(6);
                g.note("by ", extra);
                const List<Blank> e((std::vector<Blank>(std::size_t(extra > 10 && n <= 1 << 20 ? 1000 : extra))));
                if (size + e.size() > INT_MAX) rejects([&] { l += e; }, "extending a list beyond the largest size is rejected");
                else if (size + e.size() < INT_MAX - 2) { const int more = e.size(); l += e; size += more; }
                break;
            }
            case 3:
            {
                const int times = g.chance(1, 3) ? INT_MAX : g.range(2, 70000);
                g.note("times ", times);
                if (size * times > INT_MAX) rejects([&] { l *= times; }, "repeating a list beyond the largest size is rejected");
                else if (size * times < INT_MAX) { l *= times; size *= times; }
                break;
            }
            case 4:
            {
                const int b = int(size) - g.below(4), a = g.coin() ? b - g.below(std::min(b, 5) + 1) : g.range(0, b);
                g.note(a, " to ", b);
                l.erase(a, b);
                size -= b - a;
                break;
            }
            case 5:
            {
                const int start = g.coin() ? int(size) - 1 - g.below(3) : -1 - g.below(3), stop = g.coin() ? g.below(3) : -int(size) + g.below(3);
                const int step = -(int(size) / g.range(1, 50) + 1);
                g.note("slice ", start, " ", stop, " ", step);
                const long long first = start < 0 ? start + size : start, last = stop < 0 ? stop + size : stop;
                eqs(g, l.slice(start, stop, step).size(), int(first > last ? (first - last - 1) / -(long long)step + 1 : 0), "size of a slice, backwards");
                break;
            }
            case 6:
            {
                const int start = g.coin() ? g.below(3) : -int(size) + g.below(3), stop = g.coin() ? int(size) - g.below(3) : -1 - g.below(3);
                const int step = g.chance(1, 4) ? INT_MAX : int(size) / g.range(1, 50) + 1;
                g.note("slice ", start, " ", stop, " ", step);
                const long long first = start < 0 ? start + size : start, last = stop < 0 ? stop + size : stop;
                eqs(g, l.slice(start, stop, step).size(), int(first < last ? (last - first - 1) / step + 1 : 0), "size of a slice");
                break;
            }
            default:
                l.remove(g.coin() ? -1 : int(size) - 1);
                --size;
                g.require(&l[-1] == &l[int(size) - 1] && &l[0] == &l[-int(size)] && &l[-1] - &l[0] == size - 1, "elements at the ends");
                rejects([&] { l[int(size)]; }, "the index one past the end is rejected");
                rejects([&] { l[INT_MIN]; }, "the least index is rejected");
        }
        eqs(g, l.size(), int(size), "size");
        g.require(l.end() - l.begin() == size && !l.is_empty(), "the elements iterated");
        if (size < 100)
        {
            break;
        }
    }
}

PBT_SUB(deques, 2)
{
    const int n = gen_size(g, 260000);
    pbt::Rng r(g.seed64());
    Deque<int> d;
    std::deque<int> m;
    g.note("deque of ", n);
    for (int k = 0; k < n; ++k)
    {
        int e = int(r.upto(1000000));
        if (r.upto(2)) { d.push_back(e); m.push_back(e); }
        else { d.push_front(e); m.push_front(e); }
    }
    for (int k = 3 + g.below(6); k > 0; --k)
    {
        const int size = int(m.size()), i = g.range(0, size - 1);
        switch (g.below(7))
        {
            case 0: d <<= i; std::rotate(m.begin(), m.begin() + i, m.end()); break;
            case 1: d >>= i; std::rotate(m.begin(), m.end() - i, m.end()); break;
            case 2: d.reverse(); std::reverse(m.begin(), m.end()); break;
            case 3:
                for (int q = 0; q < i / 4; ++q)
                {
                    g.require(d.pop_front() == m.front() && d.pop_back() == m.back(), "popped elements");
                    m.pop_front();
                    m.pop_back();
                }
                break;
            case 4: d[i] = 7; m[std::size_t(i)] = 7; eqs(g, d[i - size], 7, "element"); break;
            case 5:
            {
                std::vector<int> more(std::size_t(g.range(0, 3000)));
                for (auto& e : more) e = int(r.upto(99));
                d.extend_back(more.begin(), more.end());
                m.insert(m.end(), more.begin(), more.end());
                d.extend_front(more.begin(), more.end());
                m.insert(m.begin(), more.begin(), more.end());
                break;
            }
            default: { Deque<int> c(d); g.require(c == d, "a copy is equal"); }
        }
        g.require(d.size() == int(m.size()) && std::equal(m.begin(), m.end(), d.begin()) && std::equal(m.rbegin(), m.rend(), d.rbegin()), "the deque has the elements of its model");
        if (m.size() < 10)
        {
            break;
        }
    }
    g.nontrivial();
    g.label("Deque");
}

PBT_SUB(sets_and_dicts, 3)
{
    const int n = gen_size(g, 70000), space = g.coin() ? n : n * 8;
    pbt::Rng r(g.seed64());
    std::vector<int> xs((std::size_t)n), ys((std::size_t)n);
    for (auto& e : xs) e = int(r.upto(pbt::u64(space)));
    for (auto& e : ys) e = int(r.upto(pbt::u64(space)));
    std::set<int> a, b;
    Set<int> x, y(ys.begin(), ys.end());
    Dict<int, int> d;
    std::map<int, int> dm;
    b.insert(ys.begin(), ys.end());
    for (int e : xs)
    {
        bool fresh = a.insert(e).second;
        g.require(x.add(e) == fresh, "add tells whether the element is new");
        g.require(d.add(e, e / 3) == fresh, "add tells whether the key is new");
        dm.insert({e, e / 3});
    }
    g.note("sets of ", a.size(), " and ", b.size());
    auto same_set = [&](const Set<int>& s, const std::set<int>& m, const char* what) { g.require_f(s.size() == int(m.size()) && std::equal(m.begin(), m.end(), s.begin()), [&] { return std::string(what) + " of large sets"; }); };
    std::set<int> u, v, w, z;
    std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::inserter(u, u.end()));
    std::set_intersection(a.begin(), a.end(), b.begin(), b.end(), std::inserter(v, v.end()));
    std::set_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(w, w.end()));
    std::set_symmetric_difference(a.begin(), a.end(), b.begin(), b.end(), std::inserter(z, z.end()));
    same_set(x, a, "elements");
    same_set(y, b, "elements by range");
    same_set(x | y, u, "union");
    same_set(x & y, v, "intersection");
    same_set(x - y, w, "difference");
    same_set(x ^ y, z, "symmetric difference");
    g.require((x & y) <= x && x <= (x | y) && ((x - y) <= x), "subset relations of large sets");
    g.require((x < (x | y)) == (u.size() > a.size()), "proper subset of large sets");
    for (int k = 0; k < n / 3; ++k)
    {
        int e = int(r.upto(pbt::u64(space)));
        bool there = a.erase(e) > 0;
        g.require(x.contains(e) == there && d.contains(e) == there, "contains");
        g.require(x.remove(e) == there && d.remove(e) == there, "remove tells whether it was there");
        dm.erase(e);
        if (!a.empty() && k % 64 == 0)
        {
            g.require(x.min() == *a.begin() && x.max() == *a.rbegin() && d.min() == *a.begin() && d.max() == *a.rbegin(), "min and max");
        }
    }
    same_set(x, a, "elements after removing");
    same_set(d.keys(), a, "keys");
    g.require(d.size() == int(dm.size()), "size of the large Dict");
    auto it = d.begin();
    for (auto& [k, val] : dm)
    {
        g.require(it->first == k && it->second == val && d[k] == val, "entry of the large Dict");
        ++it;
    }
    g.nontrivial();
    g.label("Set and Dict");
}

PBT_SUB(strings, 4)
{
    const bool dense = g.chance(1, 4);
    const longtext::Long l(g, dense ? g.range(150000, 400000) : longtext::gen_size(g, 260000), dense);
    l.rearranged(g);
    l.cases_and_strip(g);
    l.searched(g);
    l.split_and_replaced(g);
    l.formatted(g);
    l.compared(g);
    l.repeated(g);
    g.nontrivial();
    g.label("Str");
}

PBT_SUB(long_numbers, 3)
{
    const int n = g.chance(1, 8) ? g.range(3000, 9000) : g.range(1000, 3000), k = g.coin() ? g.range(1, n) : g.range(n - 20, n + 20);
    pbt::Rng r(g.seed64());
    const int style = g.below(4); // random, nines with holes, zeros with holes, nines
    auto digits = [&](int count) {
        std::string s;
        while (int(s.size()) < count) s += char('0' + (style == 0 ? r.upto(9) : style == 3 ? 9 : style == 1 ? (r.upto(30) ? 9 : r.upto(9)) : (r.upto(30) ? 0 : r.upto(9))));
        if (s[0] == '0') s[0] = '1';
        return s;
    };
    const std::string at = digits(n), bt = digits(k);
    const Big A(at), B(g.coin() ? Big(bt) : -Big(bt));
    const Int a(at.c_str()), b = lit(B);
    g.note("integers of ", n, " and ", k, " digits");
    auto check = [&](const Int& x, const Big& want, const char* what) {
        ++g.steps;
        g.require_f(show(x) == want.str(), [&] { return std::string(what) + " of integers of " + std::to_string(n) + " and " + std::to_string(k) + " digits: " + brief(Big(want)) + " expected"; });
    };
    check(a, A, "text");
    eqs(g, a.digits(), n, "digits");
    check(a + b, A + B, "sum");
    check(a - b, A - B, "difference");
    check(b - a, B - A, "difference");
    if (n + k < 3000 || g.chance(1, 12))
    {
        check(a * b, A * B, "product");
        check(a / b, A / B, "quotient");
        check(a % b, A % B, "remainder");
    }
    Int x = a;
    ++x;
    check(x, A + 1, "increment");
    g.require((a < b) == (A < B) && (a == b) == (A == B) && a < x && x > a, "comparison of long integers");
    g.require(std::hash<Int>{}(a) == std::hash<Int>{}(Int(at.c_str())), "hash of equal long integers");
    // the whole of it as a decimal
    std::string dec = at.substr(0, std::size_t(g.range(1, 300))) + "." + bt;
    const double want = std::strtod(dec.c_str(), nullptr), got = Str(dec).to_decimal();
    g.require_f(std::fabs(got - want) <= 1e-12 * std::fabs(want), [&] { return "to_decimal of " + std::to_string(dec.size()) + " characters"; });
    if (n < 1300 || g.chance(1, 10))
    {
        eqs(g, Str(at).to_integer(), a, "to_integer");
    }
    // blanks and zeros in front do not count, however many
    const std::string padding = std::string(std::size_t(g.coin() ? g.below(70000) : 0), ' ') + "-" + std::string(std::size_t(g.coin() ? g.below(70000) : 0), '0');
    const std::string tail = std::string(std::size_t(g.coin() ? g.below(70000) : 0), ' ');
    const int base = g.range(2, 36);
    const std::string few = at.substr(0, 1) == "1" && base == 2 ? "101" : "10";
    eqs(g, Str(padding + few + tail).to_integer(base), Int(few == "101" ? -5 : -base), "to_integer of a number among blanks and zeros");
    eqs(g, Str(padding + "12.5e-1" + tail).to_decimal(), -1.25, "to_decimal of a number among blanks and zeros");
    g.nontrivial();
    g.label("Int");
}

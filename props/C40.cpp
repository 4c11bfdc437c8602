// The work a call does grows as its task requires: element copies, moves and comparisons are
// counted, and so is the memory asked for; the bounds are several times what any direct
// implementation needs, and only exceeded by work of a higher order of growth.
#include "common.hpp"
#include "pyincpp.hpp"
#include <new>
using pyincpp::Deque;
using pyincpp::Dict;
using pyincpp::Int;
using pyincpp::List;
using pyincpp::Set;
using pyincpp::Str;
using pyincpp::Tuple;

static pbt::Config config("C40", "a case counts if a container of at least 100 elements (or a text or integer of at least 100 characters) is involved", 700000, 90000, 400);

static thread_local long long bytes = 0;
void* operator new(std::size_t n)
{
    bytes += (long long)n;
    void* p = std::malloc(n ? n : 1);
    if (!p)
    {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    bytes += (long long)n;
    return std::malloc(n ? n : 1);
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { std::free(p); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }

static thread_local long long moved = 0, compared = 0, printed = 0; // moved: copied or moved

struct Tick
{
    int v = 0;
    Tick(int n = 0) : v(n) {}
    Tick(const Tick& o) : v(o.v) { ++moved; }
    Tick(Tick&& o) noexcept : v(o.v) { ++moved; }
    Tick& operator=(const Tick& o)
    {
        v = o.v;
        ++moved;
        return *this;
    }
    Tick& operator=(Tick&& o) noexcept
    {
        v = o.v;
        ++moved;
        return *this;
    }
    bool operator==(const Tick& o) const
    {
        ++compared;
        return v == o.v;
    }
    std::strong_ordering operator<=>(const Tick& o) const
    {
        ++compared;
        return v <=> o.v;
    }
    friend std::ostream& operator<<(std::ostream& os, const Tick& t)
    {
        ++printed;
        return os << t.v;
    }
};
typedef std::pair<const Tick, Tick> Entry;

static double lg(double n) { return std::log2(n + 2); }

struct Cost // of what happens during its life
{
    G& g;
    const char* what;
    double moves, compares, memory; // how much it may be
    Cost(G& g, const char* what, double moves, double compares, double memory = -1) : g(g), what(what), moves(moves), compares(compares), memory(memory)
    {
        moved = compared = bytes = 0;
    }
    void done()
    {
        const long long m = moved, c = compared, b = bytes;
        check(m, moves, "elements copied or moved");
        check(c, compares, "elements compared");
        if (memory >= 0)
        {
            check(b, memory, "bytes of memory asked for");
        }
    }
    void check(long long n, double most, const char* of)
    {
        g.require_f(double(n) <= most, [&] {
            std::ostringstream os;
            os << what << ": " << n << " " << of << ", at most " << (long long)most << " are acceptable";
            return os.str();
        });
    }
};
// f is a call whose work is at most constant, logarithmic or linear in n
template <typename F>
static void constant(G& g, const char* what, F f)
{
    Cost c(g, what, 40, 40);
    f();
    c.done();
}
template <typename F>
static void lookup(G& g, const char* what, double n, F f)
{
    Cost c(g, what, 40, 16 * lg(n) + 40);
    f();
    c.done();
}
template <typename F>
static void linear(G& g, const char* what, double n, F f)
{
    Cost c(g, what, 20 * n + 64, 20 * n + 64);
    f();
    c.done();
}
template <typename F>
static void sorting(G& g, const char* what, double n, F f)
{
    Cost c(g, what, 12 * n * lg(n) + 64, 12 * n * lg(n) + 64);
    f();
    c.done();
}

static std::vector<Tick> values(G& g, int n, const char* name)
{
    std::vector<Tick> r;
    const int kind = g.below(4), domain = g.coin() ? 2 * n + 2 : 1 + g.below(30);
    const pbt::u64 seed = g.seed64();
    pbt::u64 x = seed;
    for (int i = 0; i < n; ++i)
    {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        r.push_back(kind == 0 ? int((x >> 33) % pbt::u64(domain)) : kind == 1 ? i : kind == 2 ? n - i : i % domain);
    }
    g.note(name, ": ", n, " elements", kind == 0 ? " at random" : kind == 1 ? " ascending" : kind == 2 ? " descending" : " periodic", " below ", domain);
    return r;
}
static int size_of(G& g)
{
    switch (g.below(4))
    {
        case 0: return g.below(20);
        case 1: return g.range(100, 400);
        case 2: return g.range(100, 2000);
        default: return (1 << g.range(5, 11)) + g.range(-1, 1);
    }
}

PBT_SUB(list, 4)
{
    const int n = size_of(g), m = size_of(g);
    const auto va = values(g, n, "a"), vb = values(g, m, "b");
    const List<Tick> b(vb), original(va);
    List<Tick> a = original;
    const int count = g.range(1, 5);
    g.nontrivial_if(n >= 100);
    const Tick x = g.coin() && n ? g.elem(va) : Tick(g.below(2 * n + 2));
    const int i = n ? g.below(n) : 0, j = n ? g.range(i, n) : 0;
    for (int k = 0; k < count; ++k)
    {
        const double size = a.size();
        const int op = g.below(34);
        g.note("operation ", op, " on ", a.size(), " elements");
        switch (op)
        {
            case 0: linear(g, "List(vector)", n, [&] { List<Tick> c(va); }); break;
            case 1: linear(g, "List(range)", n, [&] { List<Tick> c(va.begin(), va.end()); }); break;
            case 2: linear(g, "copy of a List", size, [&] { List<Tick> c(a); }); break;
            case 3: constant(g, "move of a List", [&] { List<Tick> c(std::move(a)); a = std::move(c); }); break;
            case 4: linear(g, "List ==", size + n, [&] { (void)(a == original); }); break;
            case 5: linear(g, "List <", size + n, [&] { (void)(a < original); (void)(original <= a); }); break;
            case 6:
                if (a.size()) constant(g, "List index and size", [&] { (void)a[0]; (void)a[-1]; (void)a[a.size() / 2]; (void)a.is_empty(); });
                break;
            case 7: linear(g, "List find, index and contains", 3 * size, [&] { (void)a.find(x); (void)a.index(x); (void)a.contains(x); }); break;
            case 8: linear(g, "List count", size, [&] { (void)a.count(x); }); break;
            case 9: linear(g, "List insert", size, [&] { a.insert(std::min(i, a.size()), x); }); break;
            case 10:
                if (a.size()) linear(g, "List remove", size, [&] { (void)a.remove(i % a.size()); });
                break;
            case 11: // one after another
            case 12:
            {
                const int times = g.range(20, 400);
                if (op == 11) linear(g, "appending elements one after another", size + times, [&] { for (int t = 0; t < times; ++t) a += x; });
                else linear(g, "appending short Lists and ranges one after another", size + 8 * times, [&] {
                    const List<Tick> one{x};
                    for (int t = 0; t < times; ++t)
                    {
                        a += one;
                        a.extend(va.begin(), va.begin() + std::min(n, t % 3));
                    }
                });
                break;
            }
            case 13: linear(g, "List += List", size + m, [&] { a += b; }); break;
            case 14: linear(g, "List -= element", size, [&] { a -= x; }); break;
            case 15:
                if (size < 10000) linear(g, "List *= n", 3 * size, [&] { a *= 3; });
                break;
            case 16: linear(g, "List /= element", size, [&] { a /= x; }); break;
            case 17: linear(g, "List >>=", size, [&] { a >>= i; }); break;
            case 18: linear(g, "List <<=", size, [&] { a <<= j; }); break;
            case 19: linear(g, "List reverse", size, [&] { a.reverse(); }); break;
            case 20:
            {
                Cost c(g, "List uniquify", 12 * size + 64, 2 * size * size + 64);
                a.uniquify();
                c.done();
                break;
            }
            case 21: sorting(g, "List sort", size, [&] { a.sort(); }); break;
            case 22: sorting(g, "List sort by a comparator", size, [&] { a.sort([](const Tick& p, const Tick& q) { return p > q; }); }); break;
            case 23: linear(g, "List erase", size, [&] { a.erase(std::min(i, a.size()), std::min(j, a.size())); }); break;
            case 24: linear(g, "List map", size, [&] { a.map([](Tick& t) { t.v ^= 1; }); }); break;
            case 25: linear(g, "List filter", size, [&] { a.filter([](const Tick& t) { return t.v % 3 != 0; }); }); break;
            case 26: linear(g, "List extend", size + m, [&] { a.extend(vb.begin(), vb.end()); }); break;
            case 27:
                if (n) linear(g, "List slice", n, [&] { (void)original.slice(i, j); (void)original.slice(i, j, 2); });
                break;
            case 28: linear(g, "List + List", n + m, [&] { (void)(original + b); }); break;
            case 29: linear(g, "List + element, List - element", 2 * n, [&] { (void)(original + x); (void)(original - x); }); break;
            case 30: linear(g, "List * n", 3 * n, [&] { (void)(original * 3); }); break;
            case 31: linear(g, "copy assignment of a List", size + n, [&] { a = original; }); break;
            case 32:
                linear(g, "printing a List", n, [&] {
                    std::ostringstream os;
                    printed = 0;
                    os << original;
                });
                g.require(printed <= n, "printing a List prints no element twice");
                break;
            case 33:
            {
                Cost c(g, "walking through a List", 0, 0, 0);
                long long sum = 0;
                for (const Tick& t : original) sum += t.v;
                for (auto it = original.rbegin(); it != original.rend(); ++it) sum -= it->v;
                c.done();
                g.require(sum == 0, "a List has the same elements in both directions");
                break;
            }
        }
        if (a.size() > 20000) a = original;
    }
    g.label("list");
}

PBT_SUB(deque, 3)
{
    const int n = size_of(g), m = size_of(g);
    const auto va = values(g, n, "a"), vb = values(g, m, "b");
    const Deque<Tick> original(va.begin(), va.end());
    Deque<Tick> a = original;
    const int count = g.range(1, 8);
    g.nontrivial_if(n >= 100);
    const Tick x(g.below(2 * n + 2));
    for (int k = 0; k < count; ++k)
    {
        const double size = a.size();
        const int op = g.below(18), by = g.any_int();
        g.note("operation ", op, " on ", a.size(), " elements");
        switch (op)
        {
            case 0: constant(g, "Deque push_back", [&] { a.push_back(x); }); break;
            case 1: constant(g, "Deque push_front", [&] { a.push_front(x); }); break;
            case 2:
                if (a.size()) constant(g, "Deque pop_back", [&] { (void)a.pop_back(); });
                break;
            case 3:
                if (a.size()) constant(g, "Deque pop_front", [&] { (void)a.pop_front(); });
                break;
            case 4:
                if (a.size()) constant(g, "Deque front, back and index", [&] { (void)a.front(); (void)a.back(); (void)a[0]; (void)a[-1]; (void)a[a.size() / 2]; });
                break;
            case 5: // a queue
            case 6:
            {
                const int times = g.range(20, 400);
                Cost c(g, "pushes at one end and pops at the other", 12 * times + 24, 24, 200.0 * times + 4096);
                for (int t = 0; t < times; ++t)
                {
                    op == 5 ? a.push_back(x) : a.push_front(x);
                    (void)(op == 5 ? a.pop_front() : a.pop_back());
                }
                c.done();
                break;
            }
            case 7: linear(g, "Deque(range)", n, [&] { Deque<Tick> c(va.begin(), va.end()); }); break;
            case 8: linear(g, "copy of a Deque", size, [&] { Deque<Tick> c(a); }); break;
            case 9: constant(g, "move of a Deque", [&] { Deque<Tick> c(std::move(a)); a = std::move(c); }); break;
            case 10: linear(g, "Deque ==", size + n, [&] { (void)(a == original); }); break;
            case 11: linear(g, "Deque <", size + n, [&] { (void)(a < original); }); break;
            case 12: linear(g, "Deque extend_back", size + m, [&] { a.extend_back(vb.begin(), vb.end()); }); break;
            case 13: linear(g, "Deque extend_front", size + m, [&] { a.extend_front(vb.begin(), vb.end()); }); break;
            case 14: linear(g, "Deque >>=", size, [&] { a >>= by; }); break;
            case 15: linear(g, "Deque <<=", size, [&] { a <<= by; }); break;
            case 16: linear(g, "Deque reverse", size, [&] { a.reverse(); }); break;
            case 17:
            {
                linear(g, "printing a Deque", n, [&] {
                    std::ostringstream os;
                    printed = 0;
                    os << original;
                });
                g.require(printed <= n, "printing a Deque prints no element twice");
                break;
            }
        }
        if (a.size() > 20000) a = original;
    }
    g.label("deque");
}

PBT_SUB(set, 4)
{
    const int n = size_of(g), m = size_of(g);
    const auto va = values(g, n, "a"), vb = values(g, m, "b");
    const Set<Tick> original(va.begin(), va.end()), b(vb.begin(), vb.end());
    Set<Tick> a = original;
    const int count = g.range(1, 8);
    g.nontrivial_if(original.size() >= 100);
    for (int k = 0; k < count; ++k)
    {
        const double size = a.size();
        const int op = g.below(22);
        const Tick x(g.below(2 * n + 2));
        g.note("operation ", op, " on ", a.size(), " elements");
        switch (op)
        {
            case 0: lookup(g, "Set contains", size, [&] { (void)a.contains(x); }); break;
            case 1: lookup(g, "Set find", size, [&] { (void)a.find(x); }); break;
            case 2: lookup(g, "Set add", size, [&] { (void)a.add(x); }); break;
            case 3: lookup(g, "Set remove", size, [&] { (void)a.remove(x); }); break;
            case 4:
                if (a.size()) lookup(g, "Set min and max", size, [&] { (void)a.min(); (void)a.max(); (void)a.is_empty(); });
                break;
            case 5:
                if (a.size()) lookup(g, "Set pop", size, [&] { (void)a.pop(); });
                break;
            case 6: sorting(g, "Set(range)", n, [&] { Set<Tick> c(va.begin(), va.end()); }); break;
            case 7: linear(g, "copy of a Set", size, [&] { Set<Tick> c(a); }); break;
            case 8: constant(g, "move of a Set", [&] { Set<Tick> c(std::move(a)); a = std::move(c); }); break;
            case 9: linear(g, "Set ==", size + n, [&] { (void)(a == original); }); break;
            case 10: sorting(g, "Set <=", size + n, [&] { (void)(a <= original); }); break;
            case 11: sorting(g, "Set > and >=", 2 * (size + n), [&] { (void)(a > original); (void)(a >= original); }); break;
            case 12: sorting(g, "Set &", n + m, [&] { (void)(original & b); }); break;
            case 13: sorting(g, "Set |", n + m, [&] { (void)(original | b); }); break;
            case 14: sorting(g, "Set -", n + m, [&] { (void)(original - b); }); break;
            case 15: sorting(g, "Set ^", n + m, [&] { (void)(original ^ b); }); break;
            case 16: sorting(g, "Set &=", size + m, [&] { a &= b; }); break;
            case 17: sorting(g, "Set |=", size + m, [&] { a |= b; }); break;
            case 18: sorting(g, "Set -=", size + m, [&] { a -= b; }); break;
            case 19: sorting(g, "Set ^=", size + m, [&] { a ^= b; }); break;
            case 20: sorting(g, "Set extend", size + m, [&] { a.extend(vb.begin(), vb.end()); }); break;
            case 21:
            {
                linear(g, "printing a Set", original.size(), [&] {
                    std::ostringstream os;
                    printed = 0;
                    os << original;
                });
                g.require(printed <= original.size(), "printing a Set prints no element twice");
                break;
            }
        }
    }
    g.label("set");
}

PBT_SUB(dict, 4)
{
    const int n = size_of(g), m = size_of(g);
    const auto ka = values(g, n, "keys of a"), kb = values(g, m, "keys of b");
    std::vector<Entry> va, vb;
    for (auto& k : ka) va.emplace_back(k, Tick(k.v * 7 % 31));
    for (auto& k : kb) vb.emplace_back(k, Tick(k.v % 5));
    const Dict<Tick, Tick> original(va.begin(), va.end());
    Dict<Tick, Tick> a = original;
    const int count = g.range(1, 8);
    g.nontrivial_if(original.size() >= 100);
    for (int k = 0; k < count; ++k)
    {
        const double size = a.size();
        const int op = g.below(18);
        const Tick x(g.below(2 * n + 2)), y(3);
        g.note("operation ", op, " on ", a.size(), " entries");
        switch (op)
        {
            case 0: lookup(g, "Dict contains", size, [&] { (void)a.contains(x); }); break;
            case 1: lookup(g, "Dict find", size, [&] { (void)a.find(x); }); break;
            case 2: lookup(g, "Dict add", size, [&] { (void)a.add(x, y); }); break;
            case 3: lookup(g, "Dict remove", size, [&] { (void)a.remove(x); }); break;
            case 4:
                if (a.size()) lookup(g, "Dict min and max", size, [&] { (void)a.min(); (void)a.max(); (void)a.is_empty(); });
                break;
            case 5:
                if (a.size()) lookup(g, "Dict pop", size, [&] { (void)a.pop(); });
                break;
            case 6: lookup(g, "Dict get", size, [&] { (void)a.get(x, y); }); break;
            case 7:
                lookup(g, "Dict [key]", size, [&] {
                    try
                    {
                        (void)a[x];
                        (void)std::as_const(a)[x];
                    }
                    catch (const std::runtime_error&)
                    {
                    }
                });
                break;
            case 8: sorting(g, "Dict(range)", 2 * n, [&] { Dict<Tick, Tick> c(va.begin(), va.end()); }); break;
            case 9: linear(g, "copy of a Dict", 2 * size, [&] { Dict<Tick, Tick> c(a); }); break;
            case 10: constant(g, "move of a Dict", [&] { Dict<Tick, Tick> c(std::move(a)); a = std::move(c); }); break;
            case 11: linear(g, "Dict ==", 2 * (size + n), [&] { (void)(a == original); }); break;
            case 12: sorting(g, "Dict keys", 2 * size, [&] { (void)a.keys(); }); break;
            case 13: sorting(g, "Dict values", 2 * size, [&] { (void)a.values(); }); break;
            case 14: sorting(g, "Dict items", 2 * size, [&] { (void)a.items(); }); break;
            case 15: sorting(g, "Dict extend", 2 * (size + m), [&] { a.extend(vb.begin(), vb.end()); }); break;
            case 16:
            {
                linear(g, "printing a Dict", 2 * original.size(), [&] {
                    std::ostringstream os;
                    printed = 0;
                    os << original;
                });
                g.require(printed <= 2 * original.size(), "printing a Dict prints no entry twice");
                break;
            }
            case 17:
            {
                Cost c(g, "walking through a Dict", 0, 0, 0);
                for (auto it = original.begin(); it != original.end(); ++it) (void)it->second;
                c.done();
                break;
            }
        }
    }
    g.label("dict");
}

// memory asked for, in proportion to the texts involved
template <typename F>
static void volume(G& g, const char* what, double n, F f)
{
    Cost c(g, what, 0, 0, 100 * n + 16384);
    f();
    c.done();
}
PBT_SUB(text, 4)
{
    const int n = g.chance(1, 4) ? g.range(20000, 60000) : g.range(200, 8000);
    const int letters = g.range(1, 5);
    pbt::u64 x = g.seed64();
    std::string s;
    for (int i = 0; i < n; ++i)
    {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        s += char('a' + (x >> 33) % pbt::u64(letters));
    }
    g.note("text of ", n, " characters, ", letters, " letters");
    g.nontrivial();
    const Str a(s);
    const Str p(s.substr(0, std::size_t(g.range(1, 3))));
    const int i = g.below(n), op = g.below(16);
    g.note("operation ", op);
    int hits = 0;
    for (std::size_t at = 0; (at = s.find(std::string(p.begin(), p.end()), at)) != std::string::npos; at += std::size_t(p.size())) ++hits;
    switch (op)
    {
        case 0: volume(g, "Str find, count, contains, starts_with, ends_with", n, [&] { (void)a.find(p); (void)a.count(p); (void)a.contains(p); (void)a.starts_with(p); (void)a.ends_with(p); }); break;
        case 1: volume(g, "Str comparison", n, [&] { (void)(a == p); (void)(a < p); (void)(a == a); }); break;
        case 2: volume(g, "Str + Str", 2 * n, [&] { (void)(a + a); }); break;
        case 3: volume(g, "Str * n", 5 * n, [&] { (void)(a * 5); }); break;
        case 4: volume(g, "Str lower and upper", 2 * n, [&] { (void)a.lower(); (void)a.upper(); }); break;
        case 5: volume(g, "Str strip", 2 * n, [&] { (void)a.strip(); (void)a.strip('a'); }); break;
        case 6: volume(g, "Str reverse", n, [&] { (void)a.reverse(); }); break;
        case 7: volume(g, "Str rotation", 2 * n, [&] { (void)(a >> i); (void)(a << i); }); break;
        case 8: volume(g, "Str slice", 2 * n, [&] { (void)a.slice(0, i); (void)a.slice(0, n, 2); }); break;
        case 9: volume(g, "Str erase", n, [&] { (void)a.erase(i / 2, i); }); break;
        case 10: volume(g, "Str replace", n + 4.0 * hits, [&] { (void)a.replace(p, Str("<->")); }); break;
        case 11: volume(g, "Str split", n + 64.0 * hits, [&] { (void)a.split(p, true); }); break;
        case 12:
        {
            const List<Str> parts = a.split(p, true);
            volume(g, "Str join", n + 64.0 * hits, [&] { (void)Str("<->").join(parts); });
            break;
        }
        case 13:
        {
            std::string t;
            for (int k = 0; k < 5; ++k) t += s.substr(0, 100) + "{}";
            const Str f(t + s);
            volume(g, "Str format", 3.0 * n + 1000, [&] { (void)f.format(1, "two", 3.5, a, 'c'); });
            break;
        }
        case 14:
            volume(g, "printing and reading a Str", 2 * n, [&] {
                std::stringstream io;
                io << a;
                Str b;
                io >> b;
            });
            break;
        case 15:
        {
            Cost c(g, "walking through a Str, its index and size", 0, 0, 0);
            long long sum = 0;
            for (char ch : a) sum += ch;
            for (auto it = a.rbegin(); it != a.rend(); ++it) sum -= *it;
            sum += a[i] - a[i - n];
            c.done();
            g.require(sum == 0, "a Str has the same characters in both directions");
            break;
        }
    }
    g.label("text");
}
PBT_SUB(integer, 2)
{
    const int n = g.range(100, 3000), m = g.range(100, 3000);
    std::string da = "1", db = "1";
    pbt::u64 x = g.seed64();
    const int digit = g.range(-1, 9);
    for (int i = 1; i < n; ++i) da += char('0' + (digit >= 0 ? digit : int((x = x * 6364136223846793005ull + 1) >> 33) % 10));
    for (int i = 1; i < m; ++i) db += char('0' + int((x = x * 6364136223846793005ull + 1) >> 33) % 10);
    if (g.coin()) da.insert(0, "-");
    Int a(da.c_str());
    const Int b(db.c_str());
    const int op = g.below(6);
    g.note("integers of ", n, " and ", m, " digits, operation ", op);
    g.nontrivial();
    switch (op)
    {
        case 0: volume(g, "Int(text)", n, [&] { Int c(da.c_str()); }); break;
        case 1: volume(g, "Int + and -", 2.0 * (n + m), [&] { (void)(a + b); (void)(a - b); }); break;
        case 2: volume(g, "Int += and -=", 2.0 * (n + m), [&] { a += b; a -= b; }); break;
        case 3: volume(g, "Int comparison", n + m, [&] { (void)(a < b); (void)(a == b); (void)(a == a); (void)a.is_even(); (void)a.is_positive(); (void)a.digits(); }); break;
        case 4:
            volume(g, "printing an Int", n, [&] {
                std::ostringstream os;
                os << a;
            });
            break;
        case 5: volume(g, "copy, move, opposite and absolute value of an Int", 4.0 * n, [&] { Int c(a); Int d(std::move(c)); (void)(-d); (void)d.abs(); }); break;
    }
    g.label("integer");
}

// Element lifetimes and faults in the middle of a call: element copies and comparisons that
// throw, allocations that fail.
#include "vm.hpp"
#include <new>

static pbt::Config config("C36", "a case counts if at least one fault was injected and reached the caller, or the history has at least eight calls", 500000, 100000, 300);

// ---------------------------------------------------------------- faults

static thread_local long live_blocks = 0;
static thread_local long alloc_budget = -1; // allocations until one fails; negative: none fails
static thread_local long alloc_failed = 0;

void* operator new(std::size_t n)
{
    if (alloc_budget >= 0 && alloc_budget-- == 0)
    {
        ++alloc_failed;
        throw std::bad_alloc();
    }
    void* p = std::malloc(n ? n : 1);
    if (!p)
    {
        throw std::bad_alloc();
    }
    ++live_blocks;
    return p;
}
void operator delete(void* p) noexcept
{
    live_blocks -= p != nullptr;
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    live_blocks -= p != nullptr;
    std::free(p);
}

void* operator new[](std::size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    try
    {
        return operator new(n);
    }
    catch (const std::bad_alloc&)
    {
        return nullptr;
    }
}
void* operator new[](std::size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }

struct Injected : std::exception
{
    const char* what() const noexcept override { return "injected"; }
};

static long alive = 0;
static long budget = -1; // copies and comparisons until one throws
static bool bad_use = false;
static void spend()
{
    if (budget >= 0 && budget-- == 0)
    {
        throw Injected();
    }
}

struct Trk
{
    const Trk* self;
    int v;
    Trk() : Trk(0) {}
    explicit Trk(int value) : self(this), v(value) { ++alive; }
    Trk(const Trk& o) : self(this), v(o.v)
    {
        o.check();
        spend();
        ++alive;
    }
    Trk(Trk&& o) noexcept : self(this), v(o.v)
    {
        o.check();
        if (&o != this) o.v = -1;
        ++alive;
    }
    Trk& operator=(const Trk& o)
    {
        check();
        o.check();
        spend();
        v = o.v;
        return *this;
    }
    Trk& operator=(Trk&& o) noexcept
    {
        check();
        o.check();
        int value = o.v;
        o.v = -1;
        v = value;
        return *this;
    }
    ~Trk()
    {
        check();
        self = nullptr;
        --alive;
    }
    void check() const
    {
        if (self != this) bad_use = true;
    }
    bool operator==(const Trk& o) const
    {
        check();
        o.check();
        spend();
        return v == o.v;
    }
    std::weak_ordering operator<=>(const Trk& o) const
    {
        check();
        o.check();
        spend();
        return v <=> o.v;
    }
    friend std::ostream& operator<<(std::ostream& os, const Trk& t) { return os << t.v; }
};

// ---------------------------------------------------------------- element operations that throw

struct Machine
{
    static constexpr int R = 3;
    List<Trk> l[R];
    Deque<Trk> d[R];
    Set<Trk> s[R];
    Dict<Trk, Trk> t[R];
};
typedef std::vector<int> Values;
static Values values(const List<Trk>& c)
{
    Values v;
    for (auto& e : c) { e.check(); v.push_back(e.v); }
    return v;
}
static Values values(const Deque<Trk>& c)
{
    Values v;
    for (auto& e : c) { e.check(); v.push_back(e.v); }
    return v;
}
static Values values(const Set<Trk>& c)
{
    Values v;
    for (auto& e : c) { e.check(); v.push_back(e.v); }
    return v;
}
static Values values(const Dict<Trk, Trk>& c)
{
    Values v;
    for (auto& e : c) { e.first.check(); e.second.check(); v.push_back(e.first.v); v.push_back(e.second.v); }
    return v;
}
struct Snapshot
{
    Values v[4][Machine::R];
};
static Snapshot snapshot(const Machine& m)
{
    Snapshot s;
    for (int r = 0; r < Machine::R; ++r)
    {
        s.v[0][r] = values(m.l[r]);
        s.v[1][r] = values(m.d[r]);
        s.v[2][r] = values(m.s[r]);
        s.v[3][r] = values(m.t[r]);
    }
    return s;
}
static const char* const kinds[] = {"List", "Deque", "Set", "Dict"};

// one call; the register of its kind and number a is the only one it may change
static const char* call(Machine& m, int kind, int op, int a, int b, int c, int n, int k, const Trk& x, const Trk& y)
{
    if (kind == 0)
    {
        List<Trk>& u = m.l[a];
        const List<Trk>&v = m.l[b], &w = m.l[c];
        const int size = u.size(), at = size ? n % size : 0;
        switch (op % 29)
        {
            case 26: { List<Trk> z(v); u = std::move(z); return "copy construction and move"; }
            case 27: { List<Trk> z{x, y, x, Trk(n % 9)}; u = z; return "initializer list"; }
            case 28: u.sort([](const Trk& p, const Trk& q) { return q.v % 3 < p.v % 3; }); return "sort by a comparator";
            case 0: u += x; return "+= element";
            case 1: u += v; return "+= list";
            case 2: u -= x; return "-=";
            case 3: u *= k % 4; return "*=";
            case 4: u /= x; return "/=";
            case 5: u >>= n; return ">>=";
            case 6: u <<= n; return "<<=";
            case 7: u.insert(at, x); return "insert";
            case 8: if (size) u.remove(at); return "remove";
            case 9: u.reverse(); return "reverse";
            case 10: u.uniquify(); return "uniquify";
            case 11: u.sort(); return "sort";
            case 12: if (size) u.erase(at / 2, at); return "erase";
            case 13: u.extend(v.begin(), v.end()); return "extend";
            case 14: if (v.size()) u = v.slice(0, v.size(), 1 + k % 3); return "slice";
            case 15: u = v + w; return "+";
            case 16: u = v + x; return "+ element";
            case 17: u = v - x; return "-";
            case 18: u = v * (k % 4); return "*";
            case 19: u = v / x; return "/";
            case 20: (void)(v == w); (void)(v < w); return "comparison";
            case 21: (void)v.index(x); (void)v.count(x); (void)v.contains(y); return "queries";
            case 22: u = v; return "copy";
            case 23: u.filter([](const Trk& t) { spend(); return t.v % 2 == 0; }); return "filter";
            case 24: u.map([](Trk& t) { spend(); t.v += 1; }); return "map";
            default: if (size) u[at] = x; return "element assignment";
        }
    }
    if (kind == 1)
    {
        Deque<Trk>& u = m.d[a];
        const Deque<Trk>&v = m.d[b], &w = m.d[c];
        const int size = u.size();
        switch (op % 15)
        {
            case 0: u.push_back(x); return "push_back";
            case 1: u.push_front(x); return "push_front";
            case 2: if (size) u.pop_back(); return "pop_back";
            case 3: if (size) u.pop_front(); return "pop_front";
            case 4: u.extend_back(v.begin(), v.end()); return "extend_back";
            case 5: u.extend_front(v.begin(), v.end()); return "extend_front";
            case 6: u >>= n; return ">>=";
            case 7: u <<= n; return "<<=";
            case 8: u.reverse(); return "reverse";
            case 9: (void)(v == w); (void)(v < w); return "comparison";
            case 10: u = v; return "copy";
            case 11: if (size) u[n % size] = x; return "element assignment";
            case 12: { Deque<Trk> z(v); u = z; return "copy construction"; }
            case 13: { Deque<Trk> z{x, y, x}; u = z; return "initializer list"; }
            default: u.clear(); return "clear";
        }
    }
    if (kind == 2)
    {
        Set<Trk>& u = m.s[a];
        const Set<Trk>&v = m.s[b], &w = m.s[c];
        switch (op % 20)
        {
            case 0:
            case 1: u.add(x); return "add";
            case 17: { Set<Trk> z(v); u = std::move(z); return "copy construction and move"; }
            case 18: if (n > 20) u.clear(); return "clear";
            case 19: (void)(v > w); (void)(v <= w); return "superset comparison";
            case 2: u.remove(x); return "remove";
            case 3: if (u.size()) u.pop(); return "pop";
            case 4: u &= v; return "&=";
            case 5: u |= v; return "|=";
            case 6: u -= v; return "-=";
            case 7: u ^= v; return "^=";
            case 8: u = v & w; return "&";
            case 9: u = v | w; return "|";
            case 10: u = v - w; return "-";
            case 11: u = v ^ w; return "^";
            case 12: (void)(v == w); (void)(v < w); (void)(v >= w); return "comparison";
            case 13: (void)v.contains(x); if (v.size()) { (void)v.min(); (void)v.max(); } return "queries";
            case 14: u.extend(m.l[b].begin(), m.l[b].end()); return "extend";
            case 15: u = v; return "copy";
            default: { Set<Trk> z{x, y, Trk(n % 9)}; u = z; return "initializer list"; }
        }
    }
    Dict<Trk, Trk>& u = m.t[a];
    const Dict<Trk, Trk>&v = m.t[b], &w = m.t[c];
    switch (op % 17)
    {
        case 0:
        case 1: u.add(x, y); return "add";
        case 10: if (u.size()) u.pop(); return "pop";
        case 11: (void)v.items(); return "items";
        case 12: { Dict<Trk, Trk> z(v); u = std::move(z); return "copy construction and move"; }
        case 13: { Dict<Trk, Trk> z{{x, y}, {y, x}, {Trk(n % 9), x}}; u = z; return "initializer list"; }
        case 14: if (n > 20) u.clear(); return "clear";
        case 15: if (u.size()) { auto p = u.pop(); (void)v.contains(p.first); } return "pop and lookup";
        case 2: u.remove(x); return "remove";
        case 3: if (u.contains(x)) u[x] = y; return "element assignment";
        case 4: if (v.contains(x)) (void)v[x]; return "lookup";
        case 5: (void)v.get(x, y); return "get";
        case 6: (void)v.keys(); (void)v.values(); return "keys and values";
        case 7: (void)(v == w); return "comparison";
        case 8: u = v; return "copy";
        case 9: if (v.size()) { (void)v.min(); (void)v.max(); } return "min and max";
        default: u.extend(v.begin(), v.end()); return "extend";
    }
}

static void element_faults(G& g, int only)
{
    const long before_alive = alive;
    bad_use = false;
    int steps = 0, thrown = 0;
    {
        Machine m;
        for (; g.more(steps, 50, 16); ++steps)
        {
            const int kind = only >= 0 ? only : g.below(4), op = g.below(29), a = g.below(3), b = g.below(3), c = g.below(3), n = g.range(0, 30), k = g.below(8);
            Trk x(g.below(9)), y(g.below(9));
            const Snapshot s = snapshot(m);
            const long fault = g.coin() ? g.below(g.coin() ? 6 : 40) : -1;
            g.note(kinds[kind], " op ", op, " on ", a, ",", b, ",", c, " n ", n, " k ", k, " elements ", x.v, ",", y.v, " fault after ", fault);
            const char* what = "?";
            bool caught = false, other = false;
            budget = fault;
            try
            {
                what = call(m, kind, op, a, b, c, n, k, x, y);
            }
            catch (const Injected&)
            {
                caught = true;
            }
            catch (const std::exception&)
            {
                other = true;
            }
            const bool reached = fault >= 0 && budget < 0;
            budget = -1;
            thrown += caught;
            g.require_f(!other, [&] { return std::string(kinds[kind]) + " call is rejected with another exception"; });
            g.require_f(!reached || caught, [&] { return std::string(what) + " of " + kinds[kind] + " hides the exception of an element"; });
            const Snapshot now = snapshot(m);
            g.require_f(!bad_use, [&] { return std::string("after a call of ") + kinds[kind] + ": an element was used outside its lifetime or moved in memory"; });
            std::size_t expect = 2; // x and y
            for (int r = 0; r < 3; ++r)
            {
                expect += now.v[0][r].size() + now.v[1][r].size() + now.v[2][r].size() + now.v[3][r].size();
                g.require_f(m.l[r].size() == int(now.v[0][r].size()) && m.d[r].size() == int(now.v[1][r].size()) && m.s[r].size() == int(now.v[2][r].size()) && m.t[r].size() * 2 == int(now.v[3][r].size()),
                            [&] { return std::string("size and iteration disagree after a call of ") + kinds[kind]; });
                for (int q = 0; q < 4; ++q)
                {
                    if (q == kind && r == a)
                    {
                        continue;
                    }
                    g.require_f(now.v[q][r] == s.v[q][r], [&] { return std::string("a call of ") + kinds[kind] + " changed another object: " + show_seq(s.v[q][r]) + " became " + show_seq(now.v[q][r]); });
                }
            }
            g.require_f(alive - before_alive == long(expect), [&] {
                return std::string("after a call of ") + kinds[kind] + (caught ? " ended by an exception" : "") + " there are " + std::to_string(alive - before_alive) + " elements alive, but the containers hold " +
                       std::to_string(expect - 2);
            });
            const Values& t = now.v[kind][a];
            if (kind >= 2)
            {
                for (std::size_t i = 0, w = kind == 3 ? 2 : 1; i + w < t.size(); i += w)
                {
                    g.require_f(t[i] < t[i + w], [&] { return std::string(kinds[kind]) + " is not sorted and unique: " + show_seq(t); });
                }
            }
            if (caught) // no element appears from nowhere
            {
                std::set<int> known{-1, 0, x.v, y.v, n % 9};
                for (int q = 0; q < 4; ++q)
                {
                    for (int r = 0; r < 3; ++r)
                    {
                        for (int e : s.v[q][r])
                        {
                            known.insert(e);
                            known.insert(e + 1); // map
                        }
                    }
                }
                for (int e : t)
                {
                    g.require_f(known.count(e) > 0, [&] { return std::string("after an exception ") + kinds[kind] + " holds an element nobody gave it: " + show_seq(t); });
                }
                if (g.coin()) // it can be cleared, and used again
                {
                    kind == 0 ? m.l[a].clear() : kind == 1 ? m.d[a].clear() : kind == 2 ? m.s[a].clear() : m.t[a].clear();
                }
                else
                {
                    // elements moved from may be left in a sequence; drop them
                    if (kind == 0) { List<Trk> z; for (int e : t) if (e >= 0) z += Trk(e); m.l[a] = z; }
                    if (kind == 1) { Deque<Trk> z; for (int e : t) if (e >= 0) z.push_back(Trk(e)); m.d[a] = z; }
                }
            }
            if (now.v[kind][a].size() > 60)
            {
                kind == 0 ? m.l[a].clear() : kind == 1 ? m.d[a].clear() : kind == 2 ? m.s[a].clear() : m.t[a].clear();
            }
        }
    }
    g.require_f(alive == before_alive, [&] { return std::string("elements alive after all containers are destroyed: ") + std::to_string(alive - before_alive); });
    g.nontrivial_if(thrown > 0 || steps >= 8);
    g.label(thrown ? "with exceptions of elements" : "without exceptions of elements");
}
PBT_SUB(elements, 4) { element_faults(g, -1); }
PBT_SUB(list_elements, 2) { element_faults(g, 0); }
PBT_SUB(deque_elements, 1) { element_faults(g, 1); }
PBT_SUB(set_elements, 1) { element_faults(g, 2); }
PBT_SUB(dict_elements, 1) { element_faults(g, 3); }

// ---------------------------------------------------------------- allocations that fail

static pbt::u64 registers(const Vm& vm, int except)
{
    Trace t;
    for (int r = 0; r < Vm::R; ++r)
    {
        if (r != except)
        {
            t.put(vm.i[r]);
            t.put(vm.s[r]);
            t.put(vm.f[r]);
            t.put(vm.z[r]);
            t.put(vm.l[r]);
            t.put(vm.li[r]);
            t.put(vm.ls[r]);
            t.put(vm.d[r]);
            t.put(vm.di[r]);
            t.put(vm.e[r]);
            t.put(vm.es[r]);
            t.put(vm.t[r]);
            t.put(vm.tl[r]);
        }
    }
    return t.h;
}

struct Plan
{
    Program v;
    std::vector<long> faults;
};
static long run_plan(G& g, const Plan& p, int& reached)
{
    const long before = live_blocks;
    {
        Vm vm;
        Trace out;
        for (std::size_t k = 0; k < p.v.size(); ++k)
        {
            const Instr& q = p.v[k];
            const bool inject = p.faults[k] >= 0;
            const pbt::u64 others = inject ? registers(vm, q.a) : 0;
            const long failed = alloc_failed;
            Trace local;
            alloc_budget = p.faults[k];
            bool caught = false;
            try
            {
                vm.run(q, vm, local);
            }
            catch (const std::exception&)
            {
                caught = true;
            }
            alloc_budget = -1;
            if (alloc_failed != failed)
            {
                ++reached;
                g.require_f(registers(vm, q.a) == others, [&] { return "a failed allocation in a call changed objects it does not modify: " + show_instr(q); });
                if (caught)
                {
                    // what was being modified can be shown, cleared, and takes new values
                    Trace shown;
                    shown.put(vm.l[q.a]);
                    shown.put(vm.li[q.a].size());
                    shown.put(vm.ls[q.a]);
                    shown.put(vm.d[q.a].size());
                    shown.put(vm.di[q.a]);
                    shown.put(vm.es[q.a]);
                    vm.i[q.a] = Int(77);
                    vm.s[q.a] = Str("after");
                    vm.li[q.a].clear();
                    vm.d[q.a].clear();
                    vm.e[q.a].clear();
                    vm.t[q.a].clear();
                    vm.tl[q.a].clear();
                    vm.ls[q.a].clear();
                }
            }
            vm.tidy(q);
        }
        vm.dump(out);
    }
    return live_blocks - before;
}

PBT_SUB(failing_allocations, 6)
{
    Plan p;
    p.v = gen_program(g, 40, 14);
    for (std::size_t k = 0; k < p.v.size(); ++k)
    {
        p.faults.push_back(g.chance(2, 5) ? g.below(g.coin() ? 3 : 30) : -1);
        g.note(show_instr(p.v[k]), p.faults.back() >= 0 ? ", allocation that fails: " + std::to_string(p.faults.back()) : "");
    }
    g.steps += p.v.size();
    int reached = 0;
    run_plan(g, p, reached);
    // tables built on first use are no leak: the same program once more, and again
    if (run_plan(g, p, reached) != 0)
    {
        long leak = run_plan(g, p, reached);
        g.require_f(leak == 0, [&] { return "memory blocks not released each time the program runs: " + std::to_string(leak); });
    }
    g.nontrivial_if(reached > 0 || p.v.size() >= 8);
    g.label(reached ? "with failed allocations" : "without failed allocations");
}

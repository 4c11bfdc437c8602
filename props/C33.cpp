// Random programs over the whole public interface: they end, throw standard exceptions only, do
// nothing the sanitizers object to, and their results do not depend on uninitialised memory.
// @flags: -ftrivial-auto-var-init=uninitialized
#include "vm.hpp"
#include <malloc.h>

static pbt::Config config("C33", "a program counts if at least five of its calls were executed, and at least one of them was rejected with an exception or passed an extreme argument", 240000, 40000, 300);

// leave a pattern in the stack memory and in freed heap blocks that later calls will use
__attribute__((noinline)) static void paint(int pattern)
{
    volatile unsigned char area[24000];
    for (unsigned k = 0; k < sizeof area; ++k)
    {
        area[k] = (unsigned char)pattern;
    }
#if !defined(__SANITIZE_ADDRESS__)
    mallopt(M_PERTURB, pattern);
#endif
    for (std::size_t size : {8, 16, 24, 40, 56, 72, 104, 200, 400})
    {
        void* p[6];
        for (auto& q : p)
        {
            q = std::malloc(size);
            std::memset(q, pattern, size);
            asm volatile("" : : "r"(q) : "memory");
        }
        for (auto& q : p)
        {
            std::free(q);
        }
    }
}

__attribute__((noinline)) static Trace painted(const Program& v, int pattern, Vm* result, bool keep)
{
    paint(pattern);
    return execute(v, nullptr, keep, result);
}

static void examine(G& g, const Program& v)
{
    note_program(g, "program", v);
    Vm vm;
    Trace first = painted(v, 0x00, &vm, g.verbose);
    g.steps += v.size();
    g.note("trace: ", first.text);
    bool extreme = false;
    for (auto& p : v)
    {
        extreme = extreme || p.n > 100000 || p.n < -100000 || p.m > 100000 || p.m < -100000;
    }
    g.nontrivial_if(v.size() >= 5 && (vm.rejected > 0 || extreme));
    g.label(v.size() < 5 ? "short program" : v.size() < 20 ? "5 to 19 calls" : "20 calls or more");
    if (vm.rejected)
    {
        g.label("with rejected calls");
    }
    Trace second = painted(v, 0xD7, nullptr, g.verbose);
    g.require_f(first.h == second.h, [&] { return "the results depend on uninitialised memory: " + first.text + " / " + second.text; });
}

PBT_SUB(programs, 6)
{
    Program v = gen_program(g, 60, 18);
    examine(g, v);
}

// build up one family of values, then hit it with calls of the same family
PBT_SUB(focused, 5)
{
    Program v;
    const int fam = g.below(7);
    g.label("focused");
    while (g.more(int(v.size()), 40, 14))
    {
        Instr p = gen_instr(g);
        p.op = fam * 100 + g.below(FAMILY_OPS[fam]);
        p.b = g.below(2) ? p.a : p.b; // often the same object
        v.push_back(p);
    }
    examine(g, v);
}

// one call repeated with neighbouring arguments
PBT_SUB(sweep, 3)
{
    Program v = gen_program(g, 12, 6);
    Instr p = gen_instr(g);
    g.label("sweep");
    const int width = g.range(1, 8);
    for (int k = 0; k < width; ++k)
    {
        Instr q = p;
        q.n = int(std::max<long long>(INT_MIN, std::min<long long>(INT_MAX, (long long)p.n + k - width / 2)));
        q.m = int(std::max<long long>(INT_MIN, std::min<long long>(INT_MAX, (long long)p.m - k + width / 2)));
        v.push_back(q);
    }
    examine(g, v);
}

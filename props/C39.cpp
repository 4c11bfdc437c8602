// The results do not depend on how a program was compiled: the same generated program gives the
// same results in builds by other compilers, at other optimisation levels, with unsigned plain
// characters, without assertions, in a later language standard, and over memory filled otherwise.
// @variants: clang g++-O0 g++-O3
// @flags: -DVM_PORTABLE
#include "remote.hpp"
#include <fcntl.h>
#include <sys/time.h>

static void start_builds();
static pbt::Config config("C39", "a case counts if its program made at least five calls and all builds of the list executed it", 120000, 24000, 200);
static const bool hooked = (pbt::Registry::get().worker_init = start_builds, true);

struct Build
{
    std::string path, name;
    int in = -1, out = -1;
};
static std::vector<Build> builds;

// ---------------------------------------------------------------- in the other builds

static bool serve()
{
    if (!std::getenv("PBT_SERVE"))
    {
        return false;
    }
    pbt::u64 size;
    while (read_all(0, &size, 8))
    {
        const bool keep = size >> 63;
        size &= ~(1ull << 63);
        std::string s(size, 0);
        if (!read_all(0, s.data(), size))
        {
            break;
        }
        struct itimerval limit = {{0, 0}, {10, 0}}; // SIGVTALRM ends the process
        setitimer(ITIMER_VIRTUAL, &limit, nullptr);
        const Trace t = execute(deserialize(s), nullptr, keep);
        const pbt::u64 h[2] = {t.h, t.text.size()};
        write_all(1, h, 16);
        write_all(1, t.text.data(), t.text.size());
    }
    _exit(0);
}
static const bool served = serve();

// ---------------------------------------------------------------- here

static void start(Build& b)
{
    int to[2], from[2];
    if (pipe2(to, O_CLOEXEC) != 0 || pipe2(from, O_CLOEXEC) != 0)
    {
        _exit(9);
    }
    if (fork() == 0)
    {
        dup2(to[0], 0);
        dup2(from[1], 1);
        for (int fd = 3; fd < 200; ++fd)
        {
            close(fd);
        }
        setenv("PBT_SERVE", "1", 1);
        execl(b.path.c_str(), b.path.c_str(), (char*)nullptr);
        _exit(127);
    }
    close(to[0]);
    close(from[1]);
    b.in = to[1];
    b.out = from[0];
}
static void start_builds()
{
    builds.clear();
    const char* list = std::getenv("PBT_VARIANTS");
    std::istringstream is(list ? list : "");
    Build b;
    while (is >> b.path)
    {
        b.name = b.path.substr(b.path.rfind('/') + 1);
        start(b);
        builds.push_back(b);
    }
}
static void ask(Build& b, const std::string& s, bool keep)
{
    const pbt::u64 size = s.size() | pbt::u64(keep) << 63;
    const char* p = reinterpret_cast<const char*>(&size);
    std::string all(p, p + 8);
    all += s;
    write_all(b.in, all.data(), all.size());
}
static bool answer(Build& b, pbt::u64& hash, std::string& text)
{
    pbt::u64 h[2];
    if (!read_all(b.out, h, 16))
    {
        return false;
    }
    hash = h[0];
    text.assign(h[1], 0);
    return read_all(b.out, text.data(), h[1]);
}

static void compare(G& g, const Program& v)
{
    note_program(g, "program", v);
    const std::string s = serialize(v);
    const Trace here = execute(v);
    for (Build& b : builds)
    {
        ask(b, s, false);
    }
    for (Build& b : builds)
    {
        pbt::u64 hash = 0;
        std::string text;
        if (!answer(b, hash, text))
        {
            g.require_f(false, [&] { return "the program ends its process when built as " + b.name; });
        }
        ++g.steps;
        if (hash != here.h)
        {
            for (Build& other : builds) // whose answers are not yet read
            {
                if (&other > &b)
                {
                    pbt::u64 ignored;
                    std::string more;
                    answer(other, ignored, more);
                }
            }
            const Trace again = execute(v, nullptr, true);
            g.require(again.h == here.h, "the program gives other results when repeated");
            ask(b, s, true);
            answer(b, hash, text);
            g.require_f(false, [&] { return "the program gives other results when built as " + b.name + "\nhere:  " + again.text + "\nthere: " + text; });
        }
    }
    g.steps += v.size();
    g.nontrivial_if(v.size() >= 5 && builds.size() > 0);
    static const char* const counts[] = {"no other build", "one other build", "two other builds", "three other builds"};
    g.label(counts[std::min<std::size_t>(builds.size(), 3)]);
}

PBT_SUB(mixed, 4)
{
    compare(g, gen_program(g, 60, 20));
}
// histories of one type
PBT_SUB(focused, 5)
{
    Program v;
    const int fam = g.below(8);
    while (g.more(int(v.size()), 50, 20))
    {
        Instr p = gen_instr(g);
        if (g.chance(5, 6))
        {
            p.op = fam * 100 + g.below(FAMILY_OPS[fam]);
            p.a = g.chance(2, 3) ? 0 : p.a;
            if (fam == 1 && p.s.empty()) p.s = gen_text(g);
            if (fam == 0 && g.coin()) p.s = gen_digits(g);
        }
        v.push_back(p);
    }
    compare(g, v);
}

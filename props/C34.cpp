// Results depend only on the values involved: a program gives the same results in a fresh
// process, after other programs, interleaved with another program, and in several threads at
// once (under ThreadSanitizer in one of the builds), and on operands made anew.
// @threads: yes
// @tsan: yes
#include "remote.hpp"
#include <thread>

static void start_zygote();
static pbt::u64 look_alone(const Program& v);
static pbt::Config config("C34", "a case counts if the programs compared executed at least eight calls, and another program ran before, between or beside them", 120000, 18000, 200);
static const bool hooked = (pbt::Registry::get().worker_init = start_zygote, true);

// ---------------------------------------------------------------- a process in which no call was ever made

#if !defined(PBT_LIBFUZZER) && !defined(PBT_TSAN)
static int zygote_in = -1, zygote_out = -1;

static void start_zygote()
{
    int to[2], from[2];
    if (pipe(to) != 0 || pipe(from) != 0)
    {
        _exit(9);
    }
    if (fork() == 0)
    {
        for (int fd = 3; fd < 200; ++fd) // the pipes of the workers must not stay open here
        {
            if (fd != to[0] && fd != from[1])
            {
                close(fd);
            }
        }
        pbt::u64 size;
        while (read_all(to[0], &size, 8))
        {
            std::string s(size, 0);
            if (!read_all(to[0], s.data(), size))
            {
                break;
            }
            pid_t pid = fork();
            if (pid == 0)
            {
                struct itimerval t = {{0, 0}, {20, 0}};
                signal(SIGVTALRM, SIG_DFL);
                setitimer(ITIMER_VIRTUAL, &t, nullptr);
                const Program v = deserialize(s);
                pbt::u64 h[2] = {1, v.size() == 2 && v[0].op < 0 ? look_alone(v) : execute(v).h};
                write_all(from[1], h, 16);
                _exit(0);
            }
            int status = 0;
            waitpid(pid, &status, 0);
            if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
            {
                pbt::u64 h[2] = {0, pbt::u64(status)};
                write_all(from[1], h, 16);
            }
        }
        _exit(0);
    }
    close(to[0]);
    close(from[1]);
    zygote_in = to[1];
    zygote_out = from[0];
}
static pbt::u64 fresh(G& g, const Program& v)
{
    std::string s = serialize(v);
    pbt::u64 size = s.size(), h[2];
    write_all(zygote_in, &size, 8);
    write_all(zygote_in, s.data(), s.size());
    if (!read_all(zygote_out, h, 16))
    {
        throw pbt::Discard();
    }
    g.require(h[0] == 1, "the program ends its process");
    return h[1];
}
#else
static void start_zygote() {}
static pbt::u64 fresh(G&, const Program& v)
{
    return v.size() == 2 && v[0].op < 0 ? look_alone(v) : execute(v).h;
}
#endif

static void same(G& g, const Program& v, const char* how, pbt::u64 want, const Trace& got)
{
    g.require_f(got.h == want, [&] {
        std::string m = std::string("the program gives other results ") + how;
        for (auto& p : v)
        {
            m += "\n" + show_instr(p);
        }
        return m + "\nnow: " + got.text;
    });
}

// a program that differs from v in one place: what it leaves behind must not show in v
static Program relative(G& g, const Program& v)
{
    Program w = v;
    for (int n = 1 + g.below(3); n > 0 && !w.empty(); --n)
    {
        std::size_t i = std::size_t(g.below(int(w.size())));
        switch (g.below(4))
        {
            case 0: w[i] = gen_instr(g); break;
            case 1: w[i].n ^= 1 << g.below(4); break;
            case 2: w.erase(w.begin() + long(i)); break;
            default: w[i].b = g.below(Vm::R);
        }
    }
    return w;
}

PBT_SUB(history, 5)
{
    Program v = gen_program(g, 40, 12);
    Program w = g.coin() ? relative(g, v) : gen_program(g, 40, 12);
    note_program(g, "program", v);
    note_program(g, "before it", w);
    const pbt::u64 want = fresh(g, v);
    same(g, v, "in a process with a history", want, execute(v, nullptr, true));
    for (int k = g.below(4); k >= 0; --k)
    {
        execute(w);
    }
    same(g, v, "after another program", want, execute(v, nullptr, true));
    same(g, v, "when repeated", want, execute(v, nullptr, true));
    g.steps += v.size() * 3;
    g.nontrivial_if(v.size() + w.size() >= 8);
    g.label("history");
}

// an object is no more than its value: a call gives the same results on operands with a history
// and on equal ones made anew
PBT_SUB(provenance, 4)
{
    Program v;
    const int fam = g.coin() ? -1 : g.below(8); // often histories of few types
    const int words = g.coin() ? 1000 : 3 + g.below(5); // and of few different calls
    while (g.more(int(v.size()), 30, 12))
    {
        if (int(v.size()) >= words && g.chance(3, 4))
        {
            v.push_back(v[std::size_t(g.below(words))]);
            continue;
        }
        Instr p = gen_instr(g);
        if (fam >= 0)
        {
            p.op = fam * 100 + g.below(FAMILY_OPS[fam]);
            p.a = g.chance(2, 3) ? 0 : p.a;
        }
        v.push_back(p);
    }
    note_program(g, "program", v);
    Vm a;
    for (std::size_t i = 0; i < v.size(); ++i)
    {
        Vm b;
        rebuild(a, b);
        Trace ta, tb;
        ta.keep = tb.keep = true;
        a.step(v[i], a, ta);
        b.step(v[i], b, tb);
        a.dump(ta);
        b.dump(tb);
        g.require_f(ta.h == tb.h, [&] { return "call " + std::to_string(i) + " gives other results on equal operands made anew\n" + show_instr(v[i]) + "\nwith history: " + ta.text + "\nmade anew: " + tb.text; });
    }
    g.steps += v.size() * 2;
    g.nontrivial_if(v.size() >= 8);
    g.label("operands made anew");
}

// two machines take turns
PBT_SUB(interleaved, 3)
{
    Program v = gen_program(g, 30, 12), w = g.coin() ? v : gen_program(g, 30, 12);
    note_program(g, "program", v);
    note_program(g, "interleaved with", w);
    const pbt::u64 want_v = fresh(g, v), want_w = fresh(g, w);
    Vm a, b;
    Trace ta, tb;
    std::size_t i = 0, k = 0;
    while (i < v.size() || k < w.size())
    {
        if (i < v.size() && (k >= w.size() || g.coin()))
        {
            a.step(v[i], a, ta);
            ++i;
        }
        else
        {
            b.step(w[k], b, tb);
            ++k;
        }
    }
    b.dump(tb);
    a.dump(ta);
    same(g, v, "when interleaved", want_v, ta);
    same(g, w, "when interleaved", want_w, tb);
    g.steps += v.size() + w.size();
    g.nontrivial_if(v.size() + w.size() >= 8);
    g.label("interleaved");
}

// threads with machines of their own, reading the registers of one shared machine
PBT_SUB(threads, 4)
{
    Program setup = gen_program(g, 30, 12);
    note_program(g, "shared machine", setup);
    Vm shared;
    execute(setup, nullptr, false, &shared);
    Trace before;
    shared.dump(before);
    const int count = g.range(2, 4);
    const bool alike = g.coin();
    std::vector<Program> programs;
    for (int t = 0; t < count; ++t)
    {
        programs.push_back(alike && t ? programs[0] : gen_program(g, 25, 10, true));
        note_program(g, "thread", programs.back());
    }
    const int rounds = 1 + g.below(3);
    std::vector<Trace> got((std::size_t)count), want((std::size_t)count);
    std::atomic<int> ready{0};
    std::vector<std::thread> threads;
    for (int t = 0; t < count; ++t)
    {
        threads.emplace_back([&, t] {
            ++ready;
            while (ready.load() < count)
            {
                std::this_thread::yield();
            }
            for (int r = 0; r < rounds; ++r)
            {
                Trace x = execute(programs[std::size_t(t)], &shared, true);
                if (r > 0 && x.h != got[std::size_t(t)].h)
                {
                    x.h = 0; // not even the same each time
                    got[std::size_t(t)] = x;
                    return;
                }
                got[std::size_t(t)] = x;
            }
        });
    }
    for (auto& t : threads)
    {
        t.join();
    }
    std::size_t calls = 0;
    for (int t = 0; t < count; ++t)
    {
        const Program& v = programs[std::size_t(t)];
        calls += v.size();
        want[std::size_t(t)] = execute(v, &shared);
        same(g, v, "in a thread beside others", want[std::size_t(t)].h, got[std::size_t(t)]);
    }
    Trace after;
    shared.dump(after);
    g.require(before.h == after.h, "reading the shared objects changed them");
    g.steps += calls;
    g.nontrivial_if(calls + setup.size() >= 8);
    g.label(alike ? "threads, the same program" : "threads, different programs");
}

// many threads call the same parsing or searching functions on shared values
PBT_SUB(hot, 2)
{
    Program v;
    const int fam = g.below(8), op = g.below(FAMILY_OPS[fam]);
    Program setup = gen_program(g, 20, 10);
    Vm shared;
    execute(setup, nullptr, false, &shared);
    const int n = g.range(2, 6);
    for (int k = 0; k < n; ++k)
    {
        Instr p = gen_instr(g);
        if (k & 1 || g.coin())
        {
            p.op = fam * 100 + op;
        }
        p.foreign = true;
        v.push_back(p);
    }
    note_program(g, "shared machine", setup);
    note_program(g, "each thread", v);
    const Trace want = execute(v, &shared, true);
    const int count = 3;
    std::vector<int> bad((std::size_t)count, 0);
    std::atomic<int> ready{0};
    std::vector<std::thread> threads;
    for (int t = 0; t < count; ++t)
    {
        threads.emplace_back([&, t] {
            ++ready;
            while (ready.load() < count)
            {
                std::this_thread::yield();
            }
            for (int r = 0; r < 6; ++r)
            {
                bad[std::size_t(t)] |= execute(v, &shared).h != want.h;
            }
        });
    }
    for (auto& t : threads)
    {
        t.join();
    }
    for (int t = 0; t < count; ++t)
    {
        g.require_f(!bad[std::size_t(t)], [&] {
            std::string m = "the program gives other results in a thread beside others";
            for (auto& p : v)
            {
                m += "\n" + show_instr(p);
            }
            return m;
        });
    }
    g.steps += v.size();
    g.nontrivial_if(v.size() + setup.size() >= 8);
    g.label("threads, one call");
}

// ---------------------------------------------------------------- what surrounds a call

struct OddPunct : std::numpunct<char> // 1.234,5
{
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "yes"; }
    std::string do_falsename() const override { return "no"; }
};
struct OddCtype : std::ctype<char>
{
    static const mask* odd_table()
    {
        static mask t[table_size];
        std::copy(classic_table(), classic_table() + table_size, t);
        t[(unsigned char)'_'] = t[(unsigned char)','] = space;
        t[(unsigned char)'b'] = t[(unsigned char)'B'] = digit;
        t[(unsigned char)'7'] = alpha;
        t[(unsigned char)'\t'] = punct;
        return t;
    }
    OddCtype() : std::ctype<char>(odd_table()) {}
    char do_tolower(char c) const override { return c == 'I' ? 'l' : std::ctype<char>::do_tolower(c); }
    char do_toupper(char c) const override { return c == 'i' ? 'L' : std::ctype<char>::do_toupper(c); }
    const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = do_tolower(*b); return e; }
    const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = do_toupper(*b); return e; }
};
struct Surroundings
{
    std::locale old;
    explicit Surroundings(int kind)
    {
        old = std::locale();
        if (kind & 1) std::locale::global(std::locale(std::locale::classic(), new OddPunct));
        if (kind & 2) std::locale::global(std::locale(std::locale(), new OddCtype));
        if (kind & 4) std::setlocale(LC_ALL, "C.utf8");
        std::srand(unsigned(kind));
    }
    ~Surroundings()
    {
        std::locale::global(old);
        std::setlocale(LC_ALL, "C");
    }
};
template <typename F>
static void attempt(std::ostringstream& os, int error, F f)
{
    errno = error;
    try
    {
        f();
    }
    catch (const std::runtime_error&)
    {
        os << "rejected";
    }
    os << '\n';
}
static std::string conversions(const std::vector<std::string>& texts, int base, int error)
{
    using namespace pyincpp;
    std::ostringstream os;
    os.imbue(std::locale::classic());
    os.precision(17);
    for (auto& t : texts)
    {
        const Str s(t);
        attempt(os, error, [&] { os << s.to_decimal(); });
        attempt(os, error, [&] { os << s.to_integer(base); });
        attempt(os, error, [&] { os << s.lower() << s.upper() << s.strip() << s.split(",", true) << s.find(".") << s.replace("e", s); });
        attempt(os, error, [&] { os << Int(t.c_str()); });
        attempt(os, error, [&] { os << Str("{} {}").format(s, Int(t.c_str()) * 1000007); });
        auto read = [&](auto value) {
            std::istringstream is(t);
            is.imbue(std::locale::classic());
            is >> value;
            os << value << is.rdstate() << is.tellg();
        };
        attempt(os, error, [&] { read(Fraction(1, 3)); });
        attempt(os, error, [&] { read(Complex(1, 3)); });
        attempt(os, error, [&] { read(Int(7)); });
        attempt(os, error, [&] { read(Str("x")); });
        attempt(os, error, [&] { os << Complex::pow(Complex(1.5, 2), Complex(double(t.size()), base)) << Complex(t.size() * 1e300, 3).abs(); });
        attempt(os, error, [&] { os << Int::sqrt(Int(int(t.size() * 123457))) << Int::log(Int(int(t.size() + 1) * 1000), 7) << List<Str>{s, s} << Dict<int, Str>{{12345, s}} << std::hash<Str>{}(s); });
    }
    return os.str();
}
PBT_SUB(surroundings, 2)
{
    std::vector<std::string> texts;
    while (g.more(int(texts.size()), 5, 3))
    {
        static const char chars[] = "0123456789012345678901234567890123456789....,,,---+++eeEE  \t_/jbBiIxfF7\xb5\xe9";
        std::string t;
        switch (g.below(5))
        {
            case 0: t = std::to_string(g.any_int()); break;
            case 1: t = std::to_string(g.range(-9999, 9999)) + "." + std::to_string(g.below(100000)); break;
            case 2: t = std::to_string(g.range(-999, 999)) + "." + std::to_string(g.range(100, 999)) + "." + std::to_string(g.range(100, 999)); break;
            default:;
        }
        if (t.empty() || g.chance(1, 3))
        {
            for (int n = g.below(9); n > 0; --n) t.insert(std::size_t(g.below(int(t.size()) + 1)), 1, chars[g.below(int(sizeof chars) - 1)]);
        }
        if (g.chance(1, 6)) t += "e" + std::to_string(g.range(-400, 400));
        texts.push_back(t);
        g.note("text ", quote(t));
    }
    static const int errors[] = {0, ERANGE, EDOM, EINVAL, ENOMEM};
    const int base = g.range(2, 36), kind = g.below(8), error = g.of(errors);
    g.note("base ", base, ", locale ", kind, ", errno ", error);
    const std::string want = conversions(texts, base, 0);
    std::string got;
    {
        Surroundings odd(kind);
        got = conversions(texts, base, error);
    }
    g.require_f(got == want, [&] { return "results depend on the global locale or on errno\nusually: " + want + "\nnow:     " + got; });
    g.steps += texts.size() * 11;
    g.nontrivial_if(!texts.empty() && (kind || error));
    g.label("other surroundings");
}

// ---------------------------------------------------------------- operands that resemble the previous ones

// the same objects take one value after another
struct Bench
{
    Int a, b;
    Str s, t;
    List<int> l;
    List<Str> w;
    Set<Str> set;
    Dict<Str, int> dict;
    Deque<int> d;
    Complex y, z;
};
constexpr int LOOKS = 19;
// p: the first operand, q: the second one
static std::string look(Bench& o, int kind, const Instr& p, const Instr& q)
{
    std::ostringstream os;
    os.precision(17);
    const std::string first = p.s, second = q.s; // keep their own terminators
    if (kind < 9)
    {
        o.a = Int(first.c_str());
        o.b = Int(second.c_str());
    }
    else if (kind < 14)
    {
        o.s = Str(first);
        o.t = Str(second);
    }
    else if (kind < 17)
    {
        o.l.clear();
        o.w.clear();
        o.set.clear();
        o.dict.clear();
        o.d.clear();
        for (char c : first)
        {
            o.l += c % 16;
            o.d.push_back(c % 16);
            o.w += Str(std::string(1, c));
            o.set.add(o.w[-1]);
            o.dict.add(o.w[-1], o.l.size());
        }
    }
    const int n = std::abs(p.n % 1000);
    switch (kind)
    {
        case 0: os << o.a + o.b << ' ' << o.a - o.b << ' ' << o.a * o.b; break;
        case 1: attempt(os, 0, [&] { os << o.a / o.b << ' ' << o.a % o.b; }); break;
        case 2: attempt(os, 0, [&] { os << Int::pow(o.a, n % 20) << ' ' << Int::pow(o.a, n % 20, o.b); }); break;
        case 3: os << Int::sqrt(o.a.abs()) << ' ' << Int::log(o.a.abs() + 1, n % 20 + 2); break;
        case 4: os << Int::gcd(o.a, o.b) << ' ' << Int::lcm(o.a, o.b); break;
        case 5: os << (o.a.digits() <= 10 || (o.a % 30030).is_zero() ? o.a.is_prime() : 2); break;
        case 6: os << (o.a.digits() <= 8 ? o.a.next_prime() : o.a); break;
        case 7: os << Int(n % 80).factorial(); break;
        case 8: os << o.a << (o.a < o.b) << (o.a == o.b) << o.a.digits() << o.a.is_even() << std::hash<Int>{}(o.a); break;
        case 9: attempt(os, 0, [&] { os << o.s.to_decimal(); }); attempt(os, 0, [&] { os << o.s.to_integer(n % 35 + 2); }); break;
        case 10: os << o.s.lower() << o.s.upper() << o.s.strip() << o.s.strip('0'); break;
        case 11: os << o.s.find(o.t) << o.s.count(o.t) << o.s.replace(o.t, "<>") << o.s.starts_with(o.t) << o.s.ends_with(o.t); attempt(os, 0, [&] { os << o.s.split(o.t, n & 1); }); break;
        case 12: os << o.s.format(n, o.t) << o.t.join(List<Str>{o.s, o.t, o.s}); break;
        case 13: os << std::hash<Str>{}(o.s) << (o.s < o.t) << (o.s == o.t) << (o.s * (n % 4)) << (o.s >> n) << o.s; break;
        case 14: os << o.l.contains(n % 16) << o.l.count(n % 16) << (o.l >>= n) << o.d << (o.l.sort(), o.l) << (o.l.uniquify(), o.l); break;
        case 15: os << o.w << (o.w + o.w) << (o.w - Str("0")) << Str(",").join(o.w); break;
        case 16: os << o.set << o.dict << o.dict.keys() << o.dict.values() << (o.set & Set<Str>{"0", "1", "e"}) << (o.set ^ Set<Str>{"0", "1", "e"}); break;
        case 17:
        {
            const Fraction x(p.n, p.m ? p.m : 1), y(q.n, q.m ? q.m : 1);
            os << x << ' ' << double(x) << (x < y) << (x == y) << (x == double(x)) << std::hash<Fraction>{}(x) << ' ' << Fraction(p.n % 1000, p.m % 1000 ? p.m % 1000 : 1) * Fraction(q.n % 1000, q.m % 1000 ? q.m % 1000 : 1);
            break;
        }
        default:
            o.y = Complex(p.x, p.y);
            o.z = Complex(q.x, q.y);
            os << o.y << o.y + o.z << o.y * o.z << o.y.abs() << o.y.arg() << std::hash<Complex>{}(o.y);
            attempt(os, 0, [&] { os << o.y / o.z; });
            attempt(os, 0, [&] { os << Complex::pow(o.y, o.z); });
    }
    return os.str();
}
static pbt::u64 text_hash(const std::string& s)
{
    pbt::u64 h = 1469598103934665603u;
    for (unsigned char c : s)
    {
        h = (h ^ c) * 1099511628211u;
    }
    return h;
}
static pbt::u64 look_alone(const Program& v)
{
    Bench o;
    return text_hash(look(o, -1 - v[0].op, v[0], v[1]));
}
static int near_int(G& g, int n)
{
    switch (g.below(6))
    {
        case 0: return int(unsigned(n) ^ (1u << g.below(32)));
        case 1: return int(0u - unsigned(n));
        case 2: return int(unsigned(n) + (1u << g.below(32)));
        case 3: return int(unsigned(n) << 16 | unsigned(n) >> 16);
        case 4: return g.any_int();
        default: return n;
    }
}
static double near_double(G& g, double x)
{
    switch (g.below(6))
    {
        case 0: return -x;
        case 1: return std::nextafter(x, INFINITY);
        case 2: return x + std::ldexp(1, -g.below(50));
        case 3: return double(int(x));
        case 4: return double(float(x));
        default: return x;
    }
}
// a text that agrees with s in much
static std::string near_text(G& g, std::string s, bool number)
{
    const std::size_t sign = number && !s.empty() && s[0] == '-';
    const int n = int(s.size() - sign);
    if (number && s.size() < 18 && g.coin())
    {
        __int128 v = std::stoll(s);
        static const int shifts[] = {31, 32, 32, 32, 33, 53, 62, 63, 64, 64, 65};
        v += (__int128(g.range(-3, 3)) << g.of(shifts));
        std::string r;
        for (unsigned __int128 u = v < 0 ? -v : v; u || r.empty(); u /= 10) r.insert(0, 1, char('0' + int(u % 10)));
        return (v < 0 ? "-" : "") + r;
    }
    if (n == 0) return s;
    const std::size_t i = sign + std::size_t(g.below(n)), k = sign + std::size_t(g.below(n));
    static const char other[] = "0123456789eE+-. aZ\t\0";
    switch (g.below(7))
    {
        case 0: std::swap(s[i], s[k]); break;
        case 1: s[i] = number ? char('0' + g.below(10)) : other[g.below(int(sizeof other))]; break;
        case 2: s[s.size() / 2] = number ? char('0' + g.below(10)) : other[g.below(int(sizeof other))]; break;
        case 3: number ? (void)(s = s.substr(0, sign) + s.substr(sign) + "0") : (void)(s += '\0'); break;
        case 4: number ? (void)(sign ? s.erase(0, 1) : s.insert(0, "-")) : std::reverse(s.begin(), s.end()); break;
        case 5: s.erase(i, number && n == 1 ? 0 : 1); break;
        default: s.insert(i, 1, number ? '1' : s[k]);
    }
    return s;
}
// a call gives the same results whichever calls came before on operands that resemble the present ones
PBT_SUB(lookalikes, 3)
{
    const int kind = g.below(LOOKS);
    const bool number = kind < 9;
    auto text = [&] { // of a first or second operand
        if (number) return kind == 5 || kind == 6 ? std::to_string(g.below(g.coin() ? 1000 : 200000)) : g.coin() ? std::to_string(g.any_int(1000)) : gen_digits(g);
        return g.coin() ? gen_text(g) : std::to_string(g.any_int(1000)) + (g.coin() ? "." + std::to_string(g.below(100000)) : "");
    };
    Program all;
    Instr p = gen_instr(g), q = gen_instr(g);
    p.op = q.op = -1 - kind;
    p.s = text();
    q.s = text();
    const int n = g.range(2, 4);
    for (int k = 0; k < n; ++k)
    {
        all.push_back(p);
        all.push_back(q);
        g.note("operation ", kind, " on ", quote(p.s), " ", quote(q.s), " ", p.n, " ", p.m, " ", q.n, " ", q.m, " ", p.x, " ", p.y, " ", q.x, " ", q.y);
        if (g.chance(2, 3))
        {
            p.s = near_text(g, p.s, number);
            p.n = near_int(g, p.n);
            p.m = near_int(g, p.m);
            p.x = near_double(g, p.x);
            p.y = near_double(g, p.y);
        }
        if (g.chance(1, 3))
        {
            q.s = near_text(g, q.s, number);
            q.n = near_int(g, q.n);
            q.m = near_int(g, q.m);
            q.x = near_double(g, q.x);
            q.y = near_double(g, q.y);
        }
        if (g.chance(1, 8))
        {
            std::swap(p, q);
        }
    }
    Bench o;
    std::vector<std::string> got;
    for (int k = 0; k < n; ++k)
    {
        got.push_back(look(o, kind, all[std::size_t(2 * k)], all[std::size_t(2 * k + 1)]));
    }
    const int k = g.below(n); // any of the calls
    const pbt::u64 want = fresh(g, {all[std::size_t(2 * k)], all[std::size_t(2 * k + 1)]});
    g.require_f(text_hash(got[std::size_t(k)]) == want, [&] { return "call " + std::to_string(k) + " gives other results than in a process where no call was made before: " + quote(got[std::size_t(k)]); });
    g.require_f(look(o, kind, all[0], all[1]) == got[0], [&] { return "the first call gives other results when repeated: " + quote(got[0]); });
    g.steps += std::size_t(n);
    g.nontrivial_if(n > 2);
    g.label("operands that resemble the previous ones");
}

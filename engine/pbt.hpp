// A small property-based testing engine.
//
// Every random decision of a property is one bounded draw, so a test case *is* the list of
// the numbers drawn (its choices). Random search, shrinking, replay files and the bytes of
// libFuzzer are four sources of the same choices.
//
// Cases run in forked workers, many cases after each other in one process (so state that
// leaks from one case into the next is observable), and the choices are recorded in shared
// memory, so that crashes, sanitizer reports and endless loops are failures that replay and
// shrink like any other.
#ifndef PBT_HPP
#define PBT_HPP

#include <algorithm>
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <fcntl.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{

typedef std::uint64_t u64;
typedef std::vector<u64> Choices;

struct Failure
{
    std::string message;
};
struct Discard
{
};

// ---------------------------------------------------------------- random numbers

struct Rng
{
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [0, max]
    u64 upto(u64 max)
    {
        if (max == ~0ull)
        {
            return next();
        }
        return u64((unsigned __int128)(next()) * (max + 1) >> 64);
    }
    int range(int lo, int hi) { return lo + int(upto(u64(hi - lo))); }
};

inline u64 mix(u64 a, u64 b)
{
    Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x1234567));
    r.next();
    return r.next();
}

// ---------------------------------------------------------------- hints: constants of the code under test

// Integer literals and characters found in the sources under test (like a fuzzing
// dictionary). They only steer generation, never the verdict.
struct Hints
{
    std::vector<long long> ints;
    std::vector<std::string> strs;
    std::vector<int> lens; // hints usable as a length
    static Hints& get()
    {
        static Hints h;
        return h;
    }
    std::vector<std::string> lines;
    void load(const char* path)
    {
        std::ifstream f(path);
        load(f);
    }
    void load(std::istream& f)
    {
        std::string line;
        while (std::getline(f, line))
        {
            lines.push_back(line);
            if (line.size() > 2 && line[0] == 'i')
            {
                long long v = std::atoll(line.c_str() + 2);
                ints.push_back(v);
                if (v >= 2 && v <= 5000)
                {
                    lens.push_back(int(v));
                }
            }
            else if (line.size() > 2 && line[0] == 's') // hex
            {
                std::string s;
                for (std::size_t i = 2; i + 1 < line.size(); i += 2)
                {
                    s += char(std::stoi(line.substr(i, 2), nullptr, 16));
                }
                strs.push_back(s);
            }
        }
    }
};

// ---------------------------------------------------------------- shared memory

constexpr int MAX_CHOICES = 1 << 16;
constexpr int MAX_MSG = 1 << 16;

struct Slot // one per worker
{
    volatile u64 index;      // of the running case
    volatile u64 in_case;    // 1 while a case runs
    volatile u64 timed_out;
    volatile u64 failed;
    volatile u64 ncases, ndiscard, nnontrivial;
    volatile u64 nchoices;
    volatile u64 peak_us;    // slowest case
    char message[MAX_MSG];
    u64 choices[MAX_CHOICES];
};

struct HashTable
{
    static constexpr u64 SIZE = 1 << 22;
    std::atomic<u64> count;
    std::atomic<u64> cell[SIZE];
    void insert(u64 h)
    {
        if (h == 0)
        {
            h = 1;
        }
        if (count.load(std::memory_order_relaxed) > SIZE / 4 * 3)
        {
            return; // full: undercounts
        }
        for (u64 i = h % SIZE;; i = (i + 1) % SIZE)
        {
            u64 cur = cell[i].load(std::memory_order_relaxed);
            if (cur == h)
            {
                return;
            }
            if (cur == 0)
            {
                u64 expected = 0;
                if (cell[i].compare_exchange_strong(expected, h))
                {
                    count.fetch_add(1);
                    return;
                }
                if (expected == h)
                {
                    return;
                }
            }
        }
    }
};

// shared memory between inaccessible areas, so that an overflowing heap block of the code under
// test does not reach it
template <typename T>
T* shared(std::size_t n = 1)
{
    const std::size_t guard = 64ul << 20, page = 4096, size = (sizeof(T) * n + page - 1) / page * page;
    void* all = mmap(nullptr, size + 2 * guard, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    void* p = all == MAP_FAILED ? all : mmap(static_cast<char*>(all) + guard, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED)
    {
        std::perror("mmap");
        _exit(9);
    }
    return static_cast<T*>(p);
}

// ---------------------------------------------------------------- generator

class G
{
public:
    enum Mode
    {
        RANDOM,
        REPLAY,
        BYTES
    };

private:
    Mode mode_;
    Rng rng_;
    const Choices* replay_ = nullptr;
    const std::uint8_t* data_ = nullptr;
    std::size_t data_size_ = 0, data_pos_ = 0;
    std::size_t pos_ = 0;
    u64* record_;
    volatile u64* nrecord_;
    u64 hash_ = 0x243F6A8885A308D3ull;

public:
    bool verbose = false;
    bool is_nontrivial = false;
    std::string text;               // verbose description of the case
    std::vector<const char*> labels;
    u64 steps = 0;                  // operations executed in this case

    G(u64 seed, u64* record, volatile u64* nrecord)
        : mode_(RANDOM), rng_(seed), record_(record), nrecord_(nrecord)
    {
        *nrecord_ = 0;
    }
    G(const Choices& c, u64* record, volatile u64* nrecord)
        : mode_(REPLAY), rng_(0), replay_(&c), record_(record), nrecord_(nrecord)
    {
        *nrecord_ = 0;
    }
    G(const std::uint8_t* data, std::size_t size, u64* record, volatile u64* nrecord)
        : mode_(BYTES), rng_(0), data_(data), data_size_(size), record_(record), nrecord_(nrecord)
    {
        *nrecord_ = 0;
    }

    // uniform in [0, max]; 0 is the simplest choice
    u64 draw(u64 max)
    {
        u64 v = 0;
        if (mode_ == RANDOM)
        {
            v = rng_.upto(max);
        }
        else if (mode_ == REPLAY)
        {
            v = pos_ < replay_->size() ? std::min((*replay_)[pos_], max) : 0;
        }
        else
        {
            int bytes = max < 256 ? 1 : max < 65536 ? 2 : 8;
            for (int i = 0; i < bytes; ++i)
            {
                v = v << 8 | (data_pos_ < data_size_ ? data_[data_pos_++] : 0);
            }
            if (max != ~0ull)
            {
                v %= max + 1;
            }
        }
        ++pos_;
        if (pos_ > MAX_CHOICES)
        {
            throw Discard(); // too long a case
        }
        record_[*nrecord_] = v;
        *nrecord_ = *nrecord_ + 1;
        hash_ = (hash_ ^ v) * 0x100000001B3ull;
        hash_ ^= hash_ >> 29;
        return v;
    }
    u64 hash() const { return hash_; }
    bool exhausted() const { return mode_ == BYTES && data_pos_ >= data_size_; }

    int below(int n) { return int(draw(u64(n - 1))); }            // [0, n)
    int range(int lo, int hi) { return lo + int(draw(u64((long long)hi - lo))); }
    long long lrange(long long lo, long long hi) { return (long long)((u64)lo + draw((u64)hi - (u64)lo)); }
    bool coin() { return draw(1) == 1; }
    bool chance(int num, int den) { return below(den) >= den - num; } // 0 = false
    // index by weight; index 0 is the simplest
    int pick(std::initializer_list<int> weights)
    {
        int sum = 0;
        for (int w : weights)
        {
            sum += w;
        }
        int r = below(sum), i = 0;
        for (int w : weights)
        {
            if (r < w)
            {
                return i;
            }
            r -= w;
            ++i;
        }
        return 0;
    }
    template <typename T, std::size_t N>
    const T& of(const T (&a)[N])
    {
        return a[below(int(N))];
    }
    template <typename C>
    const auto& elem(const C& c)
    {
        return c[below(int(c.size()))];
    }
    // continuation of a sequence: avg elements on average, at most max
    bool more(int have, int max, int avg)
    {
        return have < max && draw(u64(avg)) != 0;
    }
    u64 seed64() { return draw(~0ull); }

    void label(const char* l) { labels.push_back(l); }
    void nontrivial() { is_nontrivial = true; }
    void nontrivial_if(bool c)
    {
        if (c)
        {
            is_nontrivial = true;
        }
    }
    template <typename... A>
    void note(const A&... a)
    {
        if (verbose)
        {
            std::ostringstream os;
            (os << ... << a);
            text += os.str();
            text += '\n';
            if (text.size() > MAX_MSG)
            {
                text.resize(MAX_MSG);
            }
        }
    }
    [[noreturn]] void fail(const std::string& m) { throw Failure{m}; }
    void require(bool c, const char* m)
    {
        ++steps;
        if (!c)
        {
            throw Failure{m};
        }
    }
    template <typename F>
    void require_f(bool c, F describe)
    {
        ++steps;
        if (!c)
        {
            throw Failure{describe()};
        }
    }

    // an int with emphasis on small values, boundaries and constants of the code
    int any_int(int small = 20)
    {
        switch (pick({6, 3, 2, 1, 1}))
        {
            case 0:
                return range(0, small) * (coin() ? -1 : 1);
            case 1:
            {
                int shift = below(31);
                long long v = (1ll << shift) + range(-2, 2);
                v = coin() ? -v : v;
                return int(std::max<long long>(INT32_MIN, std::min<long long>(INT32_MAX, v)));
            }
            case 2:
            {
                static const int extremes[] = {INT32_MAX, INT32_MIN, INT32_MAX - 1, INT32_MIN + 1, INT32_MAX / 2, INT32_MIN / 2};
                return of(extremes);
            }
            case 3:
            {
                const auto& h = Hints::get().ints;
                if (h.empty())
                {
                    return 0;
                }
                long long v = elem(h) + range(-1, 1);
                v = coin() ? -v : v;
                return int(std::max<long long>(INT32_MIN, std::min<long long>(INT32_MAX, v)));
            }
            default:
                return int(lrange(INT32_MIN, INT32_MAX));
        }
    }

    // a length that is mostly within max, rarely a boundary beyond it
    int reach(int max, int small = 8)
    {
        if (max < 30 || !chance(1, 200))
        {
            return length(max, small);
        }
        const auto& h = Hints::get().lens;
        const int v = h.empty() || coin() ? (1 << (6 + below(6))) + range(-2, 2) : elem(h) + range(-2, 2);
        return v > 2500 ? 2500 : v < 0 ? 0 : coin() ? v : v / 2 + int(draw(u64(v / 2)));
    }

    // a length in [0, max]: mostly small, with emphasis on capacity boundaries and constants of the code
    int length(int max, int small = 8)
    {
        int v;
        switch (pick({10, 3, 2, 1}))
        {
            case 0:
                v = below(small + 1);
                break;
            case 1:
                v = (1 << below(13)) + range(-1, 1);
                break;
            case 2:
            {
                const auto& h = Hints::get().lens;
                v = h.empty() ? 10 : elem(h) + range(-1, 1);
                break;
            }
            default:
                v = range(0, max);
        }
        return v > max ? int(draw(u64(max))) : v < 0 ? 0 : v;
    }
};

// ---------------------------------------------------------------- registry

struct Sub
{
    const char* name;
    int weight;
    void (*run)(G&);
};
struct Registry
{
    const char* id = "?";
    const char* rule = "?";
    u64 cases = 100000;      // quick tier, fast build
    u64 cases_san = 20000;   // quick tier, sanitized build
    u64 chunk = 400;
    std::vector<Sub> subs;
    std::vector<std::pair<const char*, std::function<std::string()>>> known; // key -> "" or what fails
    void (*worker_init)() = nullptr;
    static Registry& get()
    {
        static Registry r;
        return r;
    }
};
struct AddSub
{
    AddSub(const char* n, int w, void (*f)(G&)) { Registry::get().subs.push_back({n, w, f}); }
};
struct Config
{
    Config(const char* id, const char* rule, u64 cases, u64 cases_san, u64 chunk = 400)
    {
        auto& r = Registry::get();
        r.id = id;
        r.rule = rule;
        r.cases = cases;
        r.cases_san = cases_san;
        r.chunk = chunk;
    }
};
#define PBT_SUB(name, weight)                          \
    static void sub_##name(pbt::G& g);                 \
    static pbt::AddSub add_##name(#name, weight, sub_##name); \
    static void sub_##name(pbt::G& g)

inline int sub_of(u64 index) // which sub-property the case with this index runs
{
    auto& subs = Registry::get().subs;
    int total = 0;
    for (auto& s : subs)
    {
        total += s.weight;
    }
    int r = int(Rng(index * 2 + 1).upto(u64(total - 1)));
    for (std::size_t i = 0; i < subs.size(); ++i)
    {
        if (r < subs[i].weight)
        {
            return int(i);
        }
        r -= subs[i].weight;
    }
    return 0;
}

// ---------------------------------------------------------------- running one case

struct Outcome
{
    enum Kind
    {
        OK,
        DISCARD,
        FAIL
    } kind = OK;
    std::string message;
};

inline thread_local unsigned turn = 0; // for values made in turns, restarted for every case
inline Outcome run_case(int sub, G& g)
{
    turn = 0;
    Outcome o;
    try
    {
        Registry::get().subs[std::size_t(sub)].run(g);
    }
    catch (const Failure& f)
    {
        o.kind = Outcome::FAIL;
        o.message = f.message;
    }
    catch (const Discard&)
    {
        o.kind = Outcome::DISCARD;
    }
    catch (const std::exception& e)
    {
        o.kind = Outcome::FAIL;
        o.message = std::string("unexpected exception: ") + e.what();
    }
    return o;
}

#ifdef PBT_LIBFUZZER

inline u64 fuzz_choices[MAX_CHOICES];
inline volatile u64 fuzz_nchoices;

inline void fuzz_one(const std::uint8_t* data, std::size_t size)
{
    if (size < 2)
    {
        return;
    }
    u64 index = data[0] * 256u + data[1];
    G g(data + 2, size - 2, fuzz_choices, &fuzz_nchoices);
    Outcome o = run_case(sub_of(index), g);
    if (o.kind == Outcome::FAIL)
    {
        std::fprintf(stderr, "PBT-FAILURE %s\n", o.message.c_str());
        __builtin_trap();
    }
}

#else

// ---------------------------------------------------------------- driver

struct Case
{
    int sub;
    Choices choices;
};

struct Driver
{
    Registry& reg = Registry::get();
    u64 seed = 1;
    u64 total = 0;
    int jobs = 8;
    double wall = 600;
    int case_cpu_s = 10;
    std::string build = "plain", out, replay_dir = ".";
    Slot* slots;
    HashTable* distinct;
    std::map<std::string, u64> labels;
    u64 n_cases = 0, n_discard = 0, n_nontrivial = 0, n_steps = 0, peak_us = 0;
    std::vector<u64> sample_index;
    std::set<int> sampled_subs;
    std::vector<std::string> unreproduced;
    bool stopped_early = false;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

    double elapsed() const
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    }

    static Slot*& current()
    {
        static Slot* s = nullptr;
        return s;
    }
    static void on_timer(int)
    {
        if (current())
        {
            current()->timed_out = 1;
        }
        _exit(44);
    }
    static void arm(int seconds)
    {
        struct itimerval t = {{0, 0}, {seconds, 0}};
        setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }
    void child_setup(Slot* s, const std::string& err)
    {
        current() = s;
        int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        if (fd >= 0)
        {
            dup2(fd, 2);
            dup2(fd, 1);
            close(fd);
        }
        signal(SIGVTALRM, on_timer);
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
        struct rlimit as = {2ul << 30, RLIM_INFINITY};
        setrlimit(RLIMIT_AS, &as);
#endif
        if (reg.worker_init)
        {
            reg.worker_init();
        }
    }
    u64 case_seed(u64 index) const
    {
        u64 h = 1469598103934665603ull;
        for (const char* p = reg.id; *p; ++p)
        {
            h = (h ^ u64((unsigned char)*p)) * 1099511628211ull;
        }
        return mix(mix(seed, h), index);
    }
    void set_failure(Slot* s, const std::string& m)
    {
        std::size_t n = std::min<std::size_t>(m.size(), MAX_MSG - 1);
        std::memcpy(s->message, m.data(), n);
        s->message[n] = 0;
        s->failed = 1;
    }

    // Child: run the cases [begin, end), report counters on fd.
    void work(Slot* s, u64 begin, u64 end, int fd)
    {
        std::map<std::string, u64> lab;
        u64 steps = 0;
        std::string samples;
        std::set<int> seen;
        for (u64 i = begin; i < end; ++i)
        {
            s->index = i;
            s->in_case = 1;
            arm(case_cpu_s);
            G g(case_seed(i), s->choices, &s->nchoices);
            int sub = sub_of(i);
            auto c0 = std::chrono::steady_clock::now();
            Outcome o = run_case(sub, g);
            u64 us = u64(std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - c0).count());
            if (us > s->peak_us)
            {
                s->peak_us = us;
            }
            if (o.kind == Outcome::FAIL)
            {
                arm(0);
                set_failure(s, o.message);
                _exit(3);
            }
            s->ncases = s->ncases + 1;
            steps += g.steps;
            lab[std::string("sub:") + reg.subs[std::size_t(sub)].name]++;
            if (o.kind == Outcome::DISCARD)
            {
                s->ndiscard = s->ndiscard + 1;
                continue;
            }
            std::sort(g.labels.begin(), g.labels.end(), [](const char* a, const char* b) { return std::strcmp(a, b) < 0; });
            const char* prev = "";
            for (const char* l : g.labels)
            {
                if (std::strcmp(prev, l) != 0)
                {
                    lab[l]++;
                }
                prev = l;
            }
            if (g.is_nontrivial)
            {
                s->nnontrivial = s->nnontrivial + 1;
                distinct->insert(mix(g.hash(), u64(sub)));
                if (seen.insert(sub).second)
                {
                    samples += "S " + std::to_string(i) + "\n";
                }
            }
        }
        arm(0);
        s->in_case = 0;
        std::string msg = "T " + std::to_string(steps) + "\n" + samples;
        for (auto& [k, v] : lab)
        {
            msg += "L " + std::to_string(v) + " " + k + "\n";
        }
        const char* p = msg.data();
        std::size_t left = msg.size();
        while (left > 0)
        {
            ssize_t n = write(fd, p, left);
            if (n <= 0)
            {
                break;
            }
            p += n;
            left -= std::size_t(n);
        }
        _exit(0);
    }

    struct Result
    {
        bool failed = false;
        bool timeout = false;
        std::string message;
        Choices choices; // as recorded, of the last case
        std::string text;
        std::size_t last = 0; // index of the case that failed
    };

    static std::string slurp(const std::string& f, std::size_t max = 6000)
    {
        std::ifstream in(f);
        std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        return s.size() > max ? s.substr(0, max) : s;
    }
    static std::string describe_status(int status, const Slot* s, const std::string& err, bool& timeout)
    {
        timeout = false;
        if (s->failed)
        {
            return std::string(s->message, strnlen(s->message, MAX_MSG));
        }
        if (s->timed_out)
        {
            timeout = true;
            return "does not terminate (case exceeded its CPU limit)";
        }
        std::string m;
        if (WIFSIGNALED(status))
        {
            m = std::string("killed by signal ") + std::to_string(WTERMSIG(status));
        }
        else
        {
            m = "process ended with exit status " + std::to_string(WEXITSTATUS(status));
        }
        std::string log = slurp(err);
        // the interesting line of a sanitizer report
        for (const char* key : {"runtime error:", "ERROR: AddressSanitizer", "WARNING: ThreadSanitizer", "Assertion", "terminate called"})
        {
            auto p = log.find(key);
            if (p != std::string::npos)
            {
                auto b = log.rfind('\n', p);
                b = b == std::string::npos ? 0 : b + 1;
                auto e = log.find('\n', p);
                m += "; " + log.substr(b, e == std::string::npos ? std::string::npos : e - b);
                break;
            }
        }
        return m;
    }

    // Run the given cases after each other in a fresh process.
    Result execute(const std::vector<Case>& cases, bool verbose = false, int cpu = 0, int slot = 0)
    {
        Slot* s = &slots[slot];
        s->index = 0;
        s->in_case = s->timed_out = s->failed = s->nchoices = 0;
        std::string err = replay_dir + "/." + std::to_string(getpid()) + ".x" + std::to_string(slot) + ".err";
        int p[2];
        if (pipe(p) != 0)
        {
            std::perror("pipe");
            _exit(9);
        }
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(p[0]);
            child_setup(s, err);
            std::string text;
            for (std::size_t i = 0; i < cases.size(); ++i)
            {
                s->index = i;
                s->in_case = 1;
                arm(cpu ? cpu : case_cpu_s);
                G g(cases[i].choices, s->choices, &s->nchoices);
                g.verbose = verbose;
                Outcome o = run_case(cases[i].sub, g);
                if (verbose)
                {
                    text += std::string("[") + reg.subs[std::size_t(cases[i].sub)].name + "]\n" + g.text;
                    text = text.substr(0, 60000);
                }
                if (o.kind == Outcome::FAIL)
                {
                    arm(0);
                    set_failure(s, o.message);
                    if (!text.empty() && write(p[1], text.data(), text.size()) < 0)
                    {
                    }
                    _exit(3);
                }
            }
            arm(0);
            s->in_case = 0;
            if (!text.empty() && write(p[1], text.data(), text.size()) < 0)
            {
            }
            _exit(0);
        }
        close(p[1]);
        Result r;
        char buf[4096];
        ssize_t n;
        while ((n = read(p[0], buf, sizeof buf)) > 0)
        {
            r.text.append(buf, std::size_t(n));
        }
        close(p[0]);
        int status = 0;
        waitpid(pid, &status, 0);
        if (!(WIFEXITED(status) && WEXITSTATUS(status) == 0))
        {
            r.failed = true;
            r.message = describe_status(status, s, err, r.timeout);
            r.choices = recorded(s);
            r.last = std::min<std::size_t>(u64(s->index), cases.size() - 1);
        }
        unlink(err.c_str());
        return r;
    }

    static Choices recorded(const Slot* s) // the code under test may have overwritten it
    {
        return Choices(s->choices, s->choices + std::min<u64>(u64(s->nchoices), u64(MAX_CHOICES)));
    }

    Choices choices_of(u64 index) // of a case of this run, without running the library: replays the recorded run
    {
        // The draws of a case may depend on results of the library, so run it in a fork.
        Slot* s = &slots[0];
        s->failed = s->timed_out = s->nchoices = 0;
        std::string err = replay_dir + "/." + std::to_string(getpid()) + ".c.err";
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            child_setup(s, err);
            arm(case_cpu_s);
            G g(case_seed(index), s->choices, &s->nchoices);
            run_case(sub_of(index), g);
            _exit(0);
        }
        int status;
        waitpid(pid, &status, 0);
        unlink(err.c_str());
        return recorded(s);
    }

    // ------------------------------------------------------------ shrinking

    bool simpler(const Choices& a, const Choices& b)
    {
        return a.size() != b.size() ? a.size() < b.size() : a < b;
    }
    int attempts = 0;
    double shrink_end = 0;
    bool budget(int limit) { return attempts < limit && elapsed() < shrink_end; }

    bool still_fails(const std::vector<Case>& prefix, int sub, Choices& c, int cpu)
    {
        ++attempts;
        std::vector<Case> cases = prefix;
        cases.push_back({sub, c});
        Result r = execute(cases, false, cpu);
        if (r.failed && r.last == cases.size() - 1)
        {
            if (simpler(r.choices, c) && !r.choices.empty())
            {
                c = r.choices; // what was really drawn
            }
            return true;
        }
        return false;
    }

    void shrink(const std::vector<Case>& prefix, int sub, Choices& best, bool timeout)
    {
        attempts = 0;
        shrink_end = elapsed() + (timeout ? 60 : 40);
        const int limit = timeout ? 60 : 4000;
        const int cpu = timeout ? 3 : 0;
        bool improved = true;
        while (improved && budget(limit))
        {
            improved = false;
            for (std::size_t k : {64, 32, 16, 8, 4, 3, 2, 1}) // delete
            {
                for (std::size_t i = best.size(); i-- > 0 && budget(limit);)
                {
                    if (i + k > best.size())
                    {
                        continue;
                    }
                    Choices c = best;
                    c.erase(c.begin() + long(i), c.begin() + long(i + k));
                    if (still_fails(prefix, sub, c, cpu) && simpler(c, best))
                    {
                        best = c;
                        improved = true;
                    }
                }
            }
            for (std::size_t k : {16, 4, 1}) // zero
            {
                for (std::size_t i = 0; i + k <= best.size() && budget(limit); i += k)
                {
                    Choices c = best;
                    std::fill(c.begin() + long(i), c.begin() + long(i + k), 0);
                    if (c != best && still_fails(prefix, sub, c, cpu) && simpler(c, best))
                    {
                        best = c;
                        improved = true;
                    }
                }
            }
            for (std::size_t i = 0; i < best.size() && budget(limit); ++i) // lower
            {
                u64 lo = 0;
                while (i < best.size() && lo < best[i] && budget(limit))
                {
                    u64 mid = lo + (best[i] - lo) / 2;
                    Choices c = best;
                    c[i] = mid;
                    if (still_fails(prefix, sub, c, cpu) && simpler(c, best))
                    {
                        best = c;
                        improved = true;
                    }
                    else
                    {
                        lo = mid + 1;
                    }
                }
            }
            for (std::size_t i = 0; i < best.size() && budget(limit); ++i) // lower a count and delete one element
            {
                for (std::size_t k = 1; k <= 3 && i < best.size() && best[i] > 0; ++k)
                {
                    for (std::size_t j = i + 1; j + k <= best.size() && j < i + 12 && budget(limit); ++j)
                    {
                        Choices c = best;
                        --c[i];
                        c.erase(c.begin() + long(j), c.begin() + long(j + k));
                        if (still_fails(prefix, sub, c, cpu) && simpler(c, best))
                        {
                            best = c;
                            improved = true;
                            break;
                        }
                    }
                }
            }
        }
        // Numbers may have become smaller through truncation only; remove trailing zeros.
        while (!best.empty() && best.back() == 0)
        {
            best.pop_back();
        }
    }

    // Number of reproductions in n executions.
    int reproduce(const std::vector<Case>& cases, int n, int need, Result* last = nullptr)
    {
        int hits = 0;
        for (int i = 0; i < n && hits < need; ++i)
        {
            Result r = execute(cases);
            if (r.failed)
            {
                ++hits;
                if (last)
                {
                    *last = r;
                }
            }
            if (hits + (n - i - 1) < need)
            {
                break;
            }
        }
        return hits;
    }

    std::string write_replay(const std::vector<Case>& cases, const std::string& message)
    {
        Result r = execute(cases, true);
        std::string path = replay_dir + "/" + reg.id + "-" + build + ".replay";
        std::ofstream f(path);
        f << "property " << reg.id << "\nbuild " << build << "\n";
        for (auto& h : Hints::get().lines)
        {
            f << "hint " << h << "\n";
        }
        std::istringstream ms(message);
        std::string line;
        while (std::getline(ms, line))
        {
            f << "# " << line << "\n";
        }
        std::istringstream ts(r.text);
        while (std::getline(ts, line))
        {
            f << "#   " << line << "\n";
        }
        for (auto& c : cases)
        {
            f << "case " << reg.subs[std::size_t(c.sub)].name;
            for (u64 v : c.choices)
            {
                f << ' ' << v;
            }
            f << "\n";
        }
        return path;
    }

    // A case failed in a worker that had run [begin, index] before. Returns true if it is a confirmed violation.
    bool confirm(u64 begin, u64 index, const Choices& recorded, const std::string& message, bool timeout)
    {
        std::cerr << "failure in case " << index << " (" << reg.subs[std::size_t(sub_of(index))].name << "): " << message << "\n";
        std::vector<Case> cases = {{sub_of(index), recorded}};
        Result last;
        const int tries = timeout ? 3 : 9;
        if (reproduce(cases, tries, 3, &last) >= 3)
        {
            Choices best = recorded;
            shrink({}, cases[0].sub, best, timeout);
            std::vector<Case> small = {{cases[0].sub, best}};
            if (reproduce(small, tries, 3, &last) >= 3)
            {
                cases = small;
            }
            report(cases, last.message);
            return true;
        }
        // Does it need the cases before it? Then the history is the failing input.
        std::vector<Case> all;
        for (u64 i = begin; i < index; ++i)
        {
            all.push_back({sub_of(i), choices_of(i)});
        }
        all.push_back(cases[0]);
        if (reproduce(all, tries, 3, &last) >= 3)
        {
            shrink_end = elapsed() + 40;
            for (std::size_t k = all.size() / 2; k >= 1 && elapsed() < shrink_end; k /= 2)
            {
                for (std::size_t i = 0; i + k < all.size() && elapsed() < shrink_end;)
                {
                    std::vector<Case> c = all;
                    c.erase(c.begin() + long(i), c.begin() + long(i + k));
                    if (execute(c).failed)
                    {
                        all = c;
                    }
                    else
                    {
                        i += k;
                    }
                }
            }
            if (reproduce(all, tries, 3, &last) >= 3)
            {
                report(all, last.message + " (only after the preceding cases)");
                return true;
            }
        }
        unreproduced.push_back(message);
        std::cerr << "not reproduced, ignored: " << message << "\n";
        return false;
    }

    std::string violation_path, violation_message;
    void report(const std::vector<Case>& cases, const std::string& message)
    {
        violation_message = message;
        violation_path = write_replay(cases, message);
    }

    // ------------------------------------------------------------ the search

    struct Worker
    {
        pid_t pid = 0;
        int fd = -1;
        u64 begin = 0, end = 0;
        std::string out;
    };

    void start(Worker& w, int slot, u64 begin, u64 end)
    {
        Slot* s = &slots[slot];
        s->in_case = s->timed_out = s->failed = s->nchoices = 0;
        s->ncases = s->ndiscard = s->nnontrivial = s->peak_us = 0;
        int p[2];
        if (pipe(p) != 0)
        {
            std::perror("pipe");
            _exit(9);
        }
        w.begin = begin;
        w.end = end;
        w.out.clear();
        std::string err = err_file(slot);
        fflush(nullptr);
        w.pid = fork();
        if (w.pid == 0)
        {
            close(p[0]);
            child_setup(s, err);
            work(s, begin, end, p[1]);
        }
        close(p[1]);
        w.fd = p[0];
    }
    std::string err_file(int slot) const
    {
        return replay_dir + "/." + std::to_string(getpid()) + ".w" + std::to_string(slot) + ".err";
    }

    int run()
    {
        std::vector<Worker> workers((std::size_t)jobs);
        u64 next = 0;
        int active = 0;
        bool stop = false, violated = false;
        u64 bad_begin = 0, bad_index = 0;
        Choices bad_choices;
        std::string bad_message;
        bool bad_timeout = false, bad = false;
        while (true)
        {
            for (int i = 0; i < jobs && !stop; ++i)
            {
                if (workers[std::size_t(i)].pid == 0 && next < total)
                {
                    if (elapsed() > wall)
                    {
                        stopped_early = true;
                        stop = true;
                        break;
                    }
                    u64 end = std::min(total, next + reg.chunk);
                    start(workers[std::size_t(i)], i, next, end);
                    next = end;
                    ++active;
                }
            }
            if (active == 0)
            {
                if (bad)
                {
                    bad = false;
                    if (confirm(bad_begin, bad_index, bad_choices, bad_message, bad_timeout))
                    {
                        violated = true;
                        break;
                    }
                    stop = false;
                    if (unreproduced.size() < 5)
                    {
                        continue;
                    }
                }
                break;
            }
            std::vector<struct pollfd> fds;
            std::vector<int> which;
            for (int i = 0; i < jobs; ++i)
            {
                if (workers[std::size_t(i)].pid)
                {
                    fds.push_back({workers[std::size_t(i)].fd, POLLIN, 0});
                    which.push_back(i);
                }
            }
            if (poll(fds.data(), fds.size(), -1) < 0)
            {
                continue;
            }
            for (std::size_t k = 0; k < fds.size(); ++k)
            {
                if (!fds[k].revents)
                {
                    continue;
                }
                int slot = which[k];
                Worker& w = workers[std::size_t(slot)];
                char buf[65536];
                ssize_t n = read(w.fd, buf, sizeof buf);
                if (n > 0)
                {
                    w.out.append(buf, std::size_t(n));
                    continue;
                }
                close(w.fd);
                int status = 0;
                waitpid(w.pid, &status, 0);
                w.pid = 0;
                --active;
                Slot* s = &slots[slot];
                n_cases += s->ncases;
                n_discard += s->ndiscard;
                n_nontrivial += s->nnontrivial;
                peak_us = std::max<u64>(peak_us, u64(s->peak_us));
                if (WIFEXITED(status) && WEXITSTATUS(status) == 0)
                {
                    std::istringstream is(w.out);
                    std::string line;
                    while (std::getline(is, line))
                    {
                        if (line[0] == 'T')
                        {
                            n_steps += std::stoull(line.substr(2));
                        }
                        else if (line[0] == 'S')
                        {
                            u64 idx = std::stoull(line.substr(2));
                            if (sampled_subs.insert(sub_of(idx)).second)
                            {
                                sample_index.push_back(idx);
                            }
                        }
                        else if (line[0] == 'L')
                        {
                            std::size_t sp = line.find(' ', 2);
                            labels[line.substr(sp + 1)] += std::stoull(line.substr(2, sp - 2));
                        }
                    }
                }
                else
                {
                    bool timeout;
                    std::string m = describe_status(status, s, err_file(slot), timeout);
                    if (s->index < w.begin || s->index >= w.end)
                    {
                        s->index = w.end - 1; // overwritten by the code under test
                    }
                    if (!bad || s->index < bad_index)
                    {
                        bad = true;
                        bad_begin = w.begin;
                        bad_index = s->index;
                        bad_choices = recorded(s);
                        bad_message = m;
                        bad_timeout = timeout;
                    }
                    stop = true; // let the other workers finish, then look at it
                }
                unlink(err_file(slot).c_str());
            }
        }
        write_stats(violated);
        return violated ? 1 : 0;
    }

    static std::string json(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s)
        {
            if (c == '"' || c == '\\')
            {
                r += '\\';
                r += char(c);
            }
            else if (c == '\n')
            {
                r += "\\n";
            }
            else if (c < 0x20 || c >= 0x7F)
            {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", c);
                r += b;
            }
            else
            {
                r += char(c);
            }
        }
        return r + "\"";
    }

    void write_stats(bool violated)
    {
        std::vector<std::string> samples;
        if (!violated)
        {
            std::sort(sample_index.begin(), sample_index.end());
            for (u64 i : sample_index)
            {
                if (samples.size() >= 12)
                {
                    break;
                }
                Result r = execute({{sub_of(i), choices_of(i)}}, true);
                samples.push_back(r.text.substr(0, 1500));
            }
        }
        std::ofstream f(out);
        f << "{\"build\":" << json(build) << ",\"cases\":" << n_cases << ",\"planned\":" << total << ",\"discarded\":" << n_discard
          << ",\"nontrivial\":" << n_nontrivial << ",\"distinct_nontrivial\":" << distinct->count.load()
          << ",\"checks\":" << n_steps << ",\"slowest_case_us\":" << peak_us << ",\"stopped_early\":" << (stopped_early ? "true" : "false")
          << ",\"rule\":" << json(reg.rule) << ",\"wall_s\":" << elapsed();
        f << ",\"labels\":{";
        bool first = true;
        for (auto& [k, v] : labels)
        {
            f << (first ? "" : ",") << json(k) << ":" << v;
            first = false;
        }
        f << "},\"samples\":[";
        first = true;
        for (auto& s : samples)
        {
            f << (first ? "" : ",") << json(s);
            first = false;
        }
        f << "],\"unreproduced\":[";
        first = true;
        for (auto& s : unreproduced)
        {
            f << (first ? "" : ",") << json(s);
            first = false;
        }
        f << "],\"violation\":" << (violated ? json(violation_path) : "null") << ",\"message\":" << json(violation_message) << "}\n";
    }

    int find_sub(const std::string& n)
    {
        for (std::size_t i = 0; i < reg.subs.size(); ++i)
        {
            if (n == reg.subs[i].name)
            {
                return int(i);
            }
        }
        return -1;
    }

    int replay(const std::string& file)
    {
        std::ifstream f(file);
        std::string line;
        std::string hints;
        std::vector<Case> cases;
        while (std::getline(f, line))
        {
            std::istringstream is(line);
            std::string w, name;
            is >> w;
            if (w == "hint")
            {
                hints += line.substr(5) + "\n";
            }
            if (w != "case")
            {
                continue;
            }
            is >> name;
            Case c{find_sub(name), {}};
            if (c.sub < 0)
            {
                std::cerr << "unknown case " << name << "\n";
                return 2;
            }
            u64 v;
            while (is >> v)
            {
                c.choices.push_back(v);
            }
            cases.push_back(c);
        }
        Hints::get() = Hints();
        std::istringstream hs(hints);
        Hints::get().load(hs);
        Result r = execute(cases, true);
        std::cout << r.text;
        std::cout << (r.failed ? "FAILS: " + r.message : std::string("passes")) << "\n";
        return r.failed ? 1 : 0;
    }

    // an input saved by libFuzzer: shrink it and write a replay file
    int fuzz_file(const std::string& file)
    {
        std::ifstream f(file, std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        if (d.size() < 2)
        {
            return 0;
        }
        int sub = sub_of(u64((unsigned char)d[0]) * 256 + (unsigned char)d[1]);
        // decode the bytes into choices by running the case in a fork
        Slot* s = &slots[0];
        s->failed = s->timed_out = s->nchoices = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            child_setup(s, "/dev/null");
            arm(case_cpu_s);
            G g(reinterpret_cast<const std::uint8_t*>(d.data()) + 2, d.size() - 2, s->choices, &s->nchoices);
            run_case(sub, g);
            _exit(0);
        }
        int status;
        waitpid(pid, &status, 0);
        bool timeout = s->timed_out != 0;
        Choices c = recorded(s);
        Result last;
        std::vector<Case> cases = {{sub, c}};
        if (reproduce(cases, 9, 3, &last) < 3)
        {
            return 0;
        }
        shrink({}, sub, c, timeout);
        std::vector<Case> small = {{sub, c}};
        if (reproduce(small, 9, 3, &last) >= 3)
        {
            cases = small;
        }
        report(cases, last.message);
        write_stats(true);
        return 1;
    }

    int known()
    {
        for (auto& [key, f] : reg.known)
        {
            std::string what;
            try
            {
                what = f();
            }
            catch (const std::exception& e)
            {
                what = e.what();
            }
            if (!what.empty())
            {
                std::cout << key << "\t" << what << "\n";
            }
        }
        return 0;
    }
};

inline int driver_main(int argc, char** argv)
{
    Driver d;
    std::string mode = argc > 1 ? argv[1] : "run";
    double scale = 1;
    u64 cases = 0;
    std::string file;
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
    d.build = "san";
    u64 base = d.reg.cases_san;
#else
    u64 base = d.reg.cases;
#endif
    for (int i = 2; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") d.seed = std::stoull(v);
        else if (k == "--scale") scale = std::stod(v);
        else if (k == "--cases") cases = std::stoull(v);
        else if (k == "--jobs") d.jobs = std::stoi(v);
        else if (k == "--wall") d.wall = std::stod(v);
        else if (k == "--build") d.build = v;
        else if (k == "--out") d.out = v;
        else if (k == "--dir") d.replay_dir = v;
        else if (k == "--hints") Hints::get().load(v.c_str());
        else if (k == "--file") file = v;
        else if (k == "--cpu") d.case_cpu_s = std::stoi(v);
        else
        {
            std::cerr << "unknown option " << k << "\n";
            return 2;
        }
    }
    d.total = cases ? cases : u64(double(base) * scale);
    d.slots = shared<Slot>(std::size_t(d.jobs));
    d.distinct = shared<HashTable>();
    signal(SIGPIPE, SIG_IGN);
    if (mode == "run")
    {
        return d.run();
    }
    if (mode == "replay")
    {
        return d.replay(file);
    }
    if (mode == "fuzzfile")
    {
        return d.fuzz_file(file);
    }
    if (mode == "known")
    {
        return d.known();
    }
    return 2;
}

#endif // PBT_LIBFUZZER

} // namespace pbt

#if defined(PBT_PART) && PBT_PART > 0 // one of several parts of a large harness: the first has the entry point
#elif defined(PBT_LIBFUZZER)
extern "C" int LLVMFuzzerInitialize(int*, char***)
{
    if (const char* h = std::getenv("PBT_HINTS"))
    {
        pbt::Hints::get().load(h);
    }
    if (pbt::Registry::get().worker_init)
    {
        pbt::Registry::get().worker_init();
    }
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size)
{
    pbt::fuzz_one(data, size);
    return 0;
}
#else
int main(int argc, char** argv)
{
    return pbt::driver_main(argc, argv);
}
#endif

#endif // PBT_HPP

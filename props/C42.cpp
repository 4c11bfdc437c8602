// @nofuzz: a case runs the compiler
// @thorough_scale: 12
#include "common.hpp"
#include "pyincpp.hpp"
#include <filesystem>
#include <spawn.h>
extern char** environ;

static pbt::Config config("C42",
    "programs of one to three source files, each with some of the library's headers in some order, repeated or not, before or after "
    "standard headers, with its own names for variables, functions and types, and pieces of code that use the included headers; compiled "
    "and linked, and their output compared with that of the same code in one file that includes everything; "
    "non-trivial: two files or two headers",
    110, 6, 3);

struct Piece
{
    const char* header;
    const char* code;
    void (*run)(std::ostream& os, int a, int b);
};
#define PIECE(HEADER, ...) {HEADER, #__VA_ARGS__, [](std::ostream& os, int a, int b) { __VA_ARGS__ }}
static const Piece pieces[] = {
    PIECE("int.hpp", pyincpp::Int x(a), y(b); os << x + y << ' ' << x * y - x << ' ' << (x < y) << ' ' << x.digits();),
    PIECE("int.hpp", pyincpp::Int x("123456789012345678901234567890"); os << x / (a * a + 1) << ' ' << x % (b * b + 1) << ' ' << x.is_even();),
    PIECE("int.hpp", os << pyincpp::Int::pow(a, 20) << ' ' << pyincpp::Int::gcd(a, b) << ' ' << pyincpp::Int::lcm(a, b) << ' ' << pyincpp::Int::sqrt(a * a) << ' ' << pyincpp::Int::log(a * a + 1, 3);),
    PIECE("int.hpp", os << pyincpp::Int(a * a % 50).factorial() << ' ' << pyincpp::Int(b).next_prime() << ' ' << pyincpp::Int(a).is_prime() << ' ' << (std::hash<pyincpp::Int>{}(a) == std::hash<pyincpp::Int>{}(pyincpp::Int(a) + b - b));),
    PIECE("int.hpp", std::istringstream is("77 -5"); pyincpp::Int x, y; is >> x >> y; ++x; --y; os << x << y << -x << y.abs() << x.to_integer<int>(); try { x /= pyincpp::Int(); } catch (const std::runtime_error& e) { os << e.what(); } pyincpp::Int r = pyincpp::Int::random(5); os << r.digits();),
    PIECE("str.hpp", pyincpp::Str s("some text, with words"); os << s.find("t") << s.upper() << s.replace("o", "00") << s.count("e") << (s << a) << (s >> b) << s[1];),
    PIECE("str.hpp", pyincpp::Str s(" 12 "); os << s.to_integer() + a << ' ' << s.to_decimal() + b << s.strip() << s.strip(' ') << s.lower() << s.reverse() << s * 3;),
    PIECE("str.hpp", pyincpp::Str s("a,b,,c"); auto parts = s.split(","); os << parts << pyincpp::Str("-").join(parts) << s.slice(0, 4, 2) << s.erase(1, 3) << pyincpp::Str("{} and {}").format(a, b);),
    PIECE("str.hpp", pyincpp::Str s("abc"), t("abd"); os << (s < t) << (s == t) << (s + t) << s.starts_with("ab") << t.ends_with("d") << s.contains("bc") << (std::hash<pyincpp::Str>{}(s) == std::hash<pyincpp::Str>{}("abc")); std::istringstream is("a line\nrest"); is >> s; os << s;),
    PIECE("list.hpp", pyincpp::List<int> l{a, b, 3, 1, 2}; l.sort(); os << l << l.index(3) << l.count(a) << l.slice(0, 5, 2); l <<= 1; os << l << l.remove(0);),
    PIECE("list.hpp", pyincpp::List<int> l{1, 2, a, 2, b}; l.uniquify().reverse(); l += 7; l -= 2; l *= 2; l.insert(1, 9); l /= 7; l.erase(0, 1); l.map([](int& v) { v *= 3; }).filter([](const int& v) { return v % 2 == 0; }); os << l << l.size() << (l + l) << (l == l);),
    PIECE("set.hpp", pyincpp::Set<int> s{a, b, 1, 2}, t{2, 3, b}; os << s << (s & t) << (s | t) << (s - t) << (s ^ t) << (s <= t) << s.min() << s.max() << s.contains(b) << s.pop() << s.size();),
    PIECE("set.hpp", pyincpp::Set<std::string> s; s.add("x"); s.add("y"); s.remove("x"); os << s << s.size() << (s == s); try { s.clear(); s.pop(); } catch (const std::runtime_error& e) { os << e.what(); }),
    PIECE("dict.hpp", pyincpp::Dict<int, int> d{{a, b}, {1, 2}}; d.add(5, 6); os << d << d.keys() << d.values() << d.items() << d.get(99, a) << d[a] << d.contains(5) << d.min() << d.max() << d.remove(1) << d.size();),
    PIECE("dict.hpp", pyincpp::Dict<std::string, double> d; d.add("k", 0.5); d["k"] += a; os << d << d.pop().second; try { os << d["none"]; } catch (const std::runtime_error& e) { os << e.what(); }),
    PIECE("deque.hpp", pyincpp::Deque<int> d{a, b, 3}; d.push_front(0); d.push_back(4); d >>= 1; os << d << d.front() << d.back() << d[-1] << d.pop_front() << d.pop_back() << d.size(); d <<= 1; d.reverse(); os << d << (d < d);),
    PIECE("tuple.hpp", pyincpp::Tuple<int, double, char> t(a, 0.5, 'c'); os << t << t.get<0>() << t.get<2>() << t.size() << (t == t) << (t != pyincpp::make_tuple(a, 0.5, 'd')) << t.rest() << pyincpp::make_tuple(b) << pyincpp::make_tuple();),
    PIECE("fraction.hpp", pyincpp::Fraction f(a, b * b + 1), h(1, 3); os << f + h << ' ' << f - h << ' ' << f * h << ' ' << f / h << ' ' << f % h << ' ' << (f < h) << ' ' << double(f) << ' ' << pyincpp::Fraction::gcd(f, h) << ' ' << pyincpp::Fraction::lcm(f, h) << (std::hash<pyincpp::Fraction>{}(f) == std::hash<pyincpp::Fraction>{}(f));),
    PIECE("fraction.hpp", std::istringstream is("6/-4 5"); pyincpp::Fraction f, h; is >> f >> h; ++f; os << f << ' ' << h << ' ' << f.abs() << ' ' << -f << ' ' << f.numerator() << f.denominator() << (h == 5);),
    PIECE("complex.hpp", pyincpp::Complex z(a, b), w(1, -2); os << z + w << z - w << z * w << z / w << z.conjugate() << (z == w) << z.real() << z.imag() << -z << (std::hash<pyincpp::Complex>{}(z) == std::hash<pyincpp::Complex>{}(z));),
    PIECE("complex.hpp", std::istringstream is("1.5+2j 3 4j"); pyincpp::Complex z, w, v; is >> z >> w >> v; os << z << w << v << pyincpp::Complex(3, 4).abs() << pyincpp::Complex(1, 0).arg() << pyincpp::Complex::pow(2, 3).real();),
};
static const char* const headers[] = {"int.hpp", "str.hpp", "list.hpp", "set.hpp", "dict.hpp", "deque.hpp", "tuple.hpp", "fraction.hpp", "complex.hpp", "utility.hpp", "pyincpp.hpp"};
static const char* const standard[] = {"algorithm", "vector", "string", "map", "set", "complex", "cmath", "iostream", "functional", "iomanip", "deque", "tuple", "list", "random", "numeric", "unordered_map", "bits/stdc++.h"};
// names that belong to the user
static const char* const own_names[] = {
    "static int count = 1, size = 2, find = 3; static int use_names() { return count + size + find; }\n",
    "struct list { int data; }; static list rank, distance; static int use_names() { return rank.data + distance.data; }\n",
    "static int print(int v) { return v; } static int gcd(int a, int) { return a; } static int use_names() { return print(1) + gcd(2, 3); }\n",
    "struct Int { int v; }; struct List { int v; }; struct Pair { int v; }; static int use_names() { return Int{1}.v + List{2}.v + Pair{3}.v; }\n",
    "namespace internal { static int check(int v) { return v; } } static int use_names() { return internal::check(4); }\n",
    "enum state { S_START, S_SIGN }; enum event { E_BLANK }; static const int BASE = 7; static int use_names() { return S_START + E_BLANK + BASE; }\n",
    "template <typename T> T swap(T a) { return a; } template <typename T> struct vector { T v; }; static int use_names() { return swap(1) + vector<int>{2}.v; }\n",
};

static int spawn(const std::string& command, const std::string& log) // exit status
{
    const std::string line = "exec " + command + " > " + log + " 2>&1 < /dev/null";
    const char* argv[] = {"sh", "-c", line.c_str(), nullptr};
    pid_t pid;
    if (posix_spawn(&pid, "/bin/sh", nullptr, nullptr, const_cast<char**>(argv), environ) != 0) return -1;
    int status;
    while (waitpid(pid, &status, 0) < 0)
        if (errno != EINTR) return -1;
    return WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
}
static std::string contents(const std::string& path)
{
    std::ifstream f(path);
    std::ostringstream os;
    os << f.rdbuf();
    return os.str();
}
static const char* const keywords =
    " alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class compl concept const consteval constexpr "
    "constinit const_cast continue co_await co_return co_yield decltype default delete do double dynamic_cast else enum explicit export extern false float "
    "for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register "
    "reinterpret_cast requires return short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef "
    "typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq include define ifdef ifndef endif elif pragma undef error defined "
    "std pyincpp main override final import module linux unix ";
struct Folder
{
    std::string path;
    Folder()
    {
        char t[] = "/tmp/pbt-c42-XXXXXX";
        if (!mkdtemp(t)) throw pbt::Discard();
        path = t;
    }
    ~Folder()
    {
        std::error_code e;
        std::filesystem::remove_all(path, e);
    }
};

// the identifiers that occur in the headers, without keywords and the macros of the standard headers: outside the library's
// namespace all of them are free for the user, the global ones also without the names that C libraries declare
struct Names
{
    std::vector<std::string> all, global;
};
static const Names& free_names()
{
    static const Names names = [] {
        std::set<std::string> found, taken;
        const char* cxx = std::getenv("PBT_CXX");
        const char* sources = std::getenv("PBT_SOURCES");
        if (!cxx || !sources) return Names();
        Folder dir;
        std::ofstream(dir.path + "/m.cpp") << "#include <bits/stdc++.h>\n";
        spawn(std::string(cxx) + " -std=c++20 -dM -E " + dir.path + "/m.cpp", dir.path + "/macros");
        std::istringstream macros(contents(dir.path + "/macros"));
        for (std::string line; std::getline(macros, line);)
            if (line.rfind("#define ", 0) == 0) taken.insert(line.substr(8, line.find_first_of(" (", 8) - 8));
        if (taken.size() < 100) return Names(); // no answer from the compiler
        for (auto& e : std::filesystem::directory_iterator(sources))
        {
            const std::string t = contents(e.path());
            for (std::size_t i = 0; i < t.size();)
            {
                auto word = [&](std::size_t k) { return k < t.size() && (std::isalnum((unsigned char)t[k]) || t[k] == '_'); };
                if (t.compare(i, 2, "//") == 0) i = std::min(t.find('\n', i), t.size());
                else if (t.compare(i, 2, "/*") == 0) i = std::min(t.find("*/", i), t.size() - 2) + 2;
                else if (t[i] == '"' || (t[i] == '\'' && !word(i - 1)))
                {
                    const char q = t[i++];
                    while (i < t.size() && t[i] != q && t[i] != '\n') i += t[i] == '\\' ? 2 : 1;
                    ++i;
                }
                else if (!word(i)) ++i;
                else
                {
                    std::size_t j = i;
                    while (word(j)) ++j;
                    const std::string w = t.substr(i, j - i);
                    const bool guard = w.size() > 4 && (w.substr(w.size() - 4) == "_HPP" || w.rfind("PYINCPP", 0) == 0);
                    if (!std::isdigit((unsigned char)w[0]) && w[0] != '_' && w.find("__") == std::string::npos && !guard && !taken.count(w) &&
                        std::string(keywords).find(" " + w + " ") == std::string::npos)
                        found.insert(w);
                    i = j;
                }
            }
        }
        Names r;
        r.all.assign(found.begin(), found.end());
        // one declaration per line: the lines with errors tell the names that are taken
        std::ofstream probe(dir.path + "/g.cpp");
        probe << "#include <bits/stdc++.h>\n";
        for (auto& w : r.all) probe << "static int " << w << ";\n";
        probe.close();
        const int rc = spawn(std::string(cxx) + " -std=c++20 -w -fmax-errors=0 -fsyntax-only " + dir.path + "/g.cpp", dir.path + "/errors");
        if (rc > 1) return r;
        const std::string errors = contents(dir.path + "/errors");
        for (std::size_t i = 0; i < r.all.size(); ++i)
            if (errors.find("/g.cpp:" + std::to_string(i + 2) + ":") == std::string::npos) r.global.push_back(r.all[i]);
        return r;
    }();
    return names;
}
static const bool looked = !free_names().all.empty(); // before the workers start

PBT_SUB(programs, 1)
{
    const char* cxx = std::getenv("PBT_CXX");
    const char* sources = std::getenv("PBT_SOURCES");
    if (!cxx || !sources) throw pbt::Discard();
    const int files = 1 + g.pick({3, 4, 1});
    int most = 0;
    Folder dir;
    std::ostringstream want;
    std::vector<std::string> texts;
    std::string main_text, calls;
    for (int f = 0; f < files; ++f)
    {
        std::vector<std::string> mine;
        const int n = 1 + g.pick({4, 3, 2, 1});
        for (int i = 0; i < n; ++i) mine.push_back(g.of(headers));
        most = std::max(most, n);
        std::string t;
        if (g.chance(1, 3)) t += std::string("#include <") + g.of(standard) + ">\n";
        const bool names_first = g.chance(1, 4); // types and namespaces only
        const int names = g.chance(1, 2) ? g.below(int(std::size(own_names))) : -1;
        if (names >= 3 && names_first) t += own_names[names];
        bool everything = false;
        for (std::size_t i = 0; i < mine.size(); ++i)
        {
            t += "#include \"" + mine[i] + "\"\n";
            if (g.chance(1, 5)) t += std::string("#include <") + g.of(standard) + ">\n";
            everything = everything || mine[i] == "pyincpp.hpp";
        }
        t += "#include <ostream>\n#include <sstream>\n#include <stdexcept>\n#include <string>\n";
        if (names >= 0 && (names < 3 || !names_first)) t += own_names[names];
        const bool global = names < 0 && g.coin();
        const auto& all = global ? free_names().global : free_names().all;
        int own = 0;
        if (!all.empty() && g.chance(2, 3))
        {
            if (!global) t += "namespace own\n{\n";
            std::set<std::string> used;
            for (int k = 1 + g.below(40); k > 0; --k)
            {
                const std::string name = g.elem(all);
                if (used.insert(name).second) t += "static int " + name + " = " + std::to_string(++own) + ";\n";
            }
            t += "static int sum_of_own()\n{\n    int own_total_ = 0;\n";
            for (auto& name : used) t += "    own_total_ += " + name + ";\n";
            t += "    return own_total_;\n}\n";
            if (!global) t += "}\n";
        }
        std::vector<const Piece*> usable;
        for (auto& p : pieces)
            if (everything || std::find(mine.begin(), mine.end(), p.header) != mine.end()) usable.push_back(&p);
        const std::string id = "file" + std::to_string(f);
        t += "void " + id + "(std::ostream& os)\n{\n";
        for (auto* p : usable)
        {
            if (usable.size() > 4 && !g.chance(4, int(usable.size()))) continue;
            const int a = g.range(3, 40), b = g.range(3, 40);
            t += "    { const int a = " + std::to_string(a) + ", b = " + std::to_string(b) + "; (void)a; (void)b; " + p->code + " os << '\\n'; }\n";
            p->run(want, a, b);
            want << '\n';
        }
        if (names >= 0) t += "    os << (use_names() > 0) << '\\n';\n";
        if (names >= 0) want << (names != 1) << '\n';
        if (own) t += "    os << " + std::string(global ? "" : "own::") + "sum_of_own() << '\\n';\n";
        if (own) want << own * (own + 1) / 2 << '\n';
        t += "}\n";
        main_text += "void " + id + "(std::ostream& os);\n";
        calls += "    " + id + "(os);\n";
        texts.push_back(t);
    }
    main_text = "#include <iostream>\n" + main_text + "int main()\n{\n    std::ostream& os = std::cout;\n" + calls + "}\n";
    const bool inside = g.coin(); // main in the last file, or in a file without the library
    if (inside) texts.back() += main_text;
    else texts.push_back(main_text);
    g.nontrivial_if(files > 1 || most > 1);
    g.label(files > 1 ? "several files" : "one file");
    std::string objects;
    for (std::size_t f = 0; f < texts.size(); ++f)
    {
        g.note("---- file ", f, "\n", texts[f]);
        const std::string base = dir.path + "/f" + std::to_string(f);
        std::ofstream(base + ".cpp") << texts[f];
        ++g.steps;
        const int rc = spawn(std::string(cxx) + " -std=c++20 -w -O0 -I" + sources + " -c " + base + ".cpp -o " + base + ".o", base + ".log");
        if (rc >= 2) throw pbt::Discard(); // the compiler did not get to an answer
        if (rc != 0)
        {
            const std::string log = contents(base + ".log");
            if (log.find("error") == std::string::npos || log.find("Killed") != std::string::npos || log.find("out of memory") != std::string::npos || log.find("No space left") != std::string::npos) throw pbt::Discard();
            g.fail("file " + std::to_string(f) + " of the program does not compile: " + log.substr(log.find("error"), 300));
        }
        objects += " " + base + ".o";
    }
    ++g.steps;
    if (spawn(std::string(cxx) + objects + " -o " + dir.path + "/program", dir.path + "/link.log") != 0)
    {
        const std::string log = contents(dir.path + "/link.log");
        const std::size_t at = std::min(log.find("multiple definition"), log.find("undefined reference"));
        if (at == std::string::npos) throw pbt::Discard();
        g.fail("the files of the program do not link: " + log.substr(at, 300));
    }
    ++g.steps;
    const int rc = spawn("timeout 60 " + dir.path + "/program", dir.path + "/out");
    if (rc == 124) throw pbt::Discard();
    const std::string got = contents(dir.path + "/out");
    if (rc != 0) g.fail("the program ends with status " + std::to_string(rc) + " after printing " + quote(got.substr(0, 500)));
    if (got != want.str())
    {
        std::istringstream x(got), y(want.str());
        std::string s, t;
        while (std::getline(x, s) && std::getline(y, t) && s == t) {}
        g.fail("the program prints " + quote(s) + " where the same code in one file prints " + quote(t));
    }
}

// Helpers shared by all properties.
#ifndef COMMON_HPP
#define COMMON_HPP
#include "pbt.hpp"

using pbt::G;

template <typename T>
std::string show(const T& v)
{
    std::ostringstream os;
    os << v;
    return os.str();
}
// where the result of an expression lies: tells a reference to an object from a copy of it
struct Where
{
    const void* p = nullptr;
};
template <typename T>
Where operator,(T&& v, Where)
{
    return {std::addressof(v)};
}
#define WHERE(...) (((__VA_ARGS__), Where{}).p)

inline std::string quote(const std::string& s) // printable form of arbitrary bytes
{
    if (s.size() > 400)
    {
        return quote(s.substr(0, 200)) + "...(" + std::to_string(s.size()) + " bytes)..." + quote(s.substr(s.size() - 100));
    }
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c < 0x20 || c >= 0x7F || c == '"' || c == '\\')
        {
            char b[8];
            std::snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        else
        {
            r += char(c);
        }
    }
    return r + "\"";
}
template <typename C>
std::string show_seq(const C& c)
{
    std::ostringstream os;
    os << "[";
    bool first = true;
    int n = 0;
    for (const auto& e : c)
    {
        os << (first ? "" : " ") << e;
        first = false;
        if (++n == 60)
        {
            os << " ...(" << c.size() << ")";
            break;
        }
    }
    os << "]";
    return os.str();
}

// f must throw std::runtime_error
template <typename F>
void must_reject(G& g, F f, const std::string& what)
{
    ++g.steps;
    bool ok = false;
    std::string other = "accepted";
    try
    {
        f();
    }
    catch (const std::runtime_error&)
    {
        ok = true;
    }
    catch (const pbt::Failure&)
    {
        throw;
    }
    catch (const std::exception& e)
    {
        other = std::string("rejected with another exception: ") + e.what();
    }
    if (!ok)
    {
        g.fail(what + ": must throw std::runtime_error, but it is " + other);
    }
}

template <typename A, typename B, typename W>
void eq(G& g, const A& got, const B& want, const W& what)
{
    ++g.steps;
    if (!(got == want))
    {
        std::ostringstream os;
        os << what() << ": got " << got << ", want " << want;
        g.fail(os.str());
    }
}
// eq with a literal name
template <typename A, typename B>
void eqs(G& g, const A& got, const B& want, const char* what)
{
    ++g.steps;
    if (!(got == want))
    {
        std::ostringstream os;
        os << what << ": got " << got << ", want " << want;
        g.fail(os.str());
    }
}
// Looking at everything after every operation would hide state that an operation leaves unfinished and the first look
// finishes: in some histories most operations are followed by no look at all, or by a single one of a random kind.
struct Blind
{
    static inline thread_local bool on = false;
    explicit Blind(G& g)
    {
        on = g.chance(1, 3);
        if (on) g.note("(looking rarely)");
    }
    ~Blind() { on = false; }
    Blind(const Blind&) = delete;
    static void open_eyes() { on = false; }
};
#endif

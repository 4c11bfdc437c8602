// Programs sent to other processes.
#ifndef REMOTE_HPP
#define REMOTE_HPP
#include "vm.hpp"
#include <unistd.h>

inline void write_all(int fd, const void* p, std::size_t n)
{
    const char* c = static_cast<const char*>(p);
    while (n)
    {
        ssize_t k = write(fd, c, n);
        if (k <= 0)
        {
            _exit(0);
        }
        c += k;
        n -= std::size_t(k);
    }
}
inline bool read_all(int fd, void* p, std::size_t n)
{
    char* c = static_cast<char*>(p);
    while (n)
    {
        ssize_t k = read(fd, c, n);
        if (k <= 0)
        {
            return false;
        }
        c += k;
        n -= std::size_t(k);
    }
    return true;
}
inline std::string serialize(const Program& v)
{
    std::ostringstream os;
    os.precision(17);
    for (auto& p : v)
    {
        pbt::u64 x, y;
        std::memcpy(&x, &p.x, 8);
        std::memcpy(&y, &p.y, 8);
        os << p.op << ' ' << p.a << ' ' << p.b << ' ' << p.c << ' ' << p.n << ' ' << p.m << ' ' << p.k << ' ' << x << ' ' << y << ' ' << p.s.size() << ' ' << p.s << '\n';
    }
    return os.str();
}
inline Program deserialize(const std::string& s)
{
    Program v;
    std::istringstream is(s);
    Instr p;
    pbt::u64 x, y;
    std::size_t n;
    while (is >> p.op >> p.a >> p.b >> p.c >> p.n >> p.m >> p.k >> x >> y >> n)
    {
        is.get();
        p.s.assign(n, 0);
        is.read(p.s.data(), std::streamsize(n));
        std::memcpy(&p.x, &x, 8);
        std::memcpy(&p.y, &y, 8);
        v.push_back(p);
    }
    return v;
}

#endif // REMOTE_HPP

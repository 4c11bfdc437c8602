// Comparison with and mutation of composed values together with their models.
#ifndef MUTATE_HPP
#define MUTATE_HPP
#include "compose.hpp"
using pyincpp::Complex;
using pyincpp::Deque;
using pyincpp::Dict;
using pyincpp::Fraction;
using pyincpp::Int;
using pyincpp::List;
using pyincpp::Set;
using pyincpp::Str;

template <typename M>
void is(G& g, const typename Lib<M>::type& x, const M& m, const char* what)
{
    ++g.steps;
    const auto fresh = Lib<M>::to(m);
    if (!(x == fresh) || !(fresh == x) || show(x) != printed(m))
    {
        g.fail(std::string(what) + ": got " + quote(show(x)) + ", want " + quote(printed(m)));
    }
}

// ---------------------------------------------------------------- mutations of x and its model m

inline void mutate(G& g, Int& x, Num& m)
{
    switch (g.below(5))
    {
        case 0: ++x; m = Num{}; { std::string s = show(x); m.negative = s[0] == '-'; m.digits = s.substr(m.negative); } break;
        case 1: x -= x; m = Num{}; break;
        case 2: x *= Int(1000000000); if (m.digits != "0") m.digits += "000000000"; break;
        case 3: x = -x; if (m.digits != "0") m.negative = !m.negative; break;
        default: m = Lib<Num>::gen(g); x = Lib<Num>::to(m);
    }
}
inline void mutate(G& g, Str& x, std::string& m)
{
    switch (g.below(4))
    {
        case 0: x = x + "z"; m += "z"; break;
        case 1: x = x.reverse(); std::reverse(m.begin(), m.end()); break;
        case 2: x = ""; m = ""; break;
        default: m = Lib<std::string>::gen(g); x = Lib<std::string>::to(m);
    }
}
inline void mutate(G& g, Fraction& x, Frac& m)
{
    switch (g.below(4))
    {
        case 0: x = -x; if (m.n != INT32_MIN) m.n = -m.n; break;
        case 1: x -= x; m = {0, 1}; break;
        case 2: if (m.n != 0) { x /= x; m = {1, 1}; } break;
        default: m = Lib<Frac>::gen(g); x = Lib<Frac>::to(m);
    }
}
inline void mutate(G& g, Complex& x, Cplx& m)
{
    switch (g.below(4))
    {
        case 0: x += Complex(1, -2); m.re += 1; m.im -= 2; break;
        case 1: x *= Complex(2); m.re *= 2; m.im *= 2; break;
        case 2: x -= x; m = {0, 0}; break;
        default: m = Lib<Cplx>::gen(g); x = Lib<Cplx>::to(m);
    }
}
template <typename E, typename T>
inline void mutate(G& g, List<T>& x, std::vector<E>& m)
{
    E e = Lib<E>::gen(g);
    const int n = int(m.size());
    switch (g.below(6))
    {
        case 0: x += Lib<E>::to(e); m.push_back(e); break;
        case 1: if (n) { int i = g.below(n); x.remove(i); m.erase(m.begin() + i); } break;
        case 2: if (n) { int i = g.below(n); x[i] = Lib<E>::to(e); m[std::size_t(i)] = e; } break;
        case 3: x.reverse(); std::reverse(m.begin(), m.end()); break;
        case 4: x.clear(); m.clear(); break;
        default: x.insert(0, Lib<E>::to(e)); m.insert(m.begin(), e);
    }
}
template <typename E, typename T>
inline void mutate(G& g, Deque<T>& x, std::deque<E>& m)
{
    E e = Lib<E>::gen(g);
    const int n = int(m.size());
    switch (g.below(6))
    {
        case 0: x.push_back(Lib<E>::to(e)); m.push_back(e); break;
        case 1: x.push_front(Lib<E>::to(e)); m.push_front(e); break;
        case 2: if (n) { x.pop_front(); m.pop_front(); } break;
        case 3: if (n) { int i = g.below(n); x[i] = Lib<E>::to(e); m[std::size_t(i)] = e; } break;
        case 4: x.clear(); m.clear(); break;
        default: if (n) { x >>= 1; std::rotate(m.begin(), m.end() - 1, m.end()); }
    }
}
template <typename E, typename T>
inline void mutate(G& g, Set<T>& x, std::set<E>& m)
{
    E e = Lib<E>::gen(g);
    switch (g.below(4))
    {
        case 0: x.add(Lib<E>::to(e)); m.insert(e); break;
        case 1: if (!m.empty()) { x.remove(Lib<E>::to(*m.rbegin())); m.erase(*m.rbegin()); } break;
        case 2: x.clear(); m.clear(); break;
        default: { Set<T> s{Lib<E>::to(e)}; x |= s; m.insert(e); }
    }
}
template <typename A, typename B, typename K, typename V>
inline void mutate(G& g, Dict<K, V>& x, std::map<A, B>& m)
{
    A a = Lib<A>::gen(g);
    B b = Lib<B>::gen(g);
    switch (g.below(4))
    {
        case 0: x.add(Lib<A>::to(a), Lib<B>::to(b)); m.insert({a, b}); break;
        case 1: if (!m.empty()) { x[Lib<A>::to(m.begin()->first)] = Lib<B>::to(b); m.begin()->second = b; } break;
        case 2: if (!m.empty()) { x.remove(Lib<A>::to(m.begin()->first)); m.erase(m.begin()); } break;
        default: x.clear(); m.clear();
    }
}

#endif

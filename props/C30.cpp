#include "elem.hpp"
#include "mutate.hpp"

static pbt::Config config("C30",
    "pairs of values of every type, copied and moved by constructor and assignment, then mutated alternately; operations whose argument "
    "is the object itself, one of its own elements or its own range, next to the same operation on an independent copy of the argument; "
    "const operations followed by a comparison with the model; non-trivial: a non-empty (non-zero) value",
    1200000, 130000);

template <typename M>
static void copies_and_moves(G& g)
{
    typedef typename Lib<M>::type T;
    M m = Lib<M>::gen(g), other = Lib<M>::gen(g);
    T x = Lib<M>::to(m);
    g.note(Lib<M>::name(), " ", quote(printed(m)), ", other ", quote(printed(other)));
    g.nontrivial_if(!(m == M{}));
    // copy, by constructor or over another value
    M mc = m;
    T c = g.coin() ? T(x) : Lib<M>::to(other);
    c = x;
    is<M>(g, c, m, "copy");
    is<M>(g, x, m, "source of the copy");
    for (int k = 1 + g.below(5); k > 0; --k)
    {
        if (g.coin())
        {
            mutate(g, c, mc);
            is<M>(g, c, mc, "changed copy");
            is<M>(g, x, m, "source after changing the copy");
        }
        else
        {
            mutate(g, x, m);
            is<M>(g, x, m, "changed source");
            is<M>(g, c, mc, "copy after changing the source");
        }
    }
    x = *&x;
    is<M>(g, x, m, "self-assigned value");
    // move
    bool construct = g.coin();
    T d = Lib<M>::to(other);
    if (construct)
    {
        T e(std::move(x));
        is<M>(g, e, m, "moved value");
        d = e;
    }
    else
    {
        d = std::move(x);
    }
    is<M>(g, d, m, construct ? "copy of the moved value" : "move-assigned value");
    is<M>(g, x, M{}, "source of the move");
    M mx{};
    if (g.coin())
    {
        mx = other;
        x = Lib<M>::to(other);
        is<M>(g, x, mx, "reused source of the move");
    }
    for (int k = 1 + g.below(4); k > 0; --k)
    {
        mutate(g, x, mx);
        is<M>(g, x, mx, "changed source of the move");
    }
    is<M>(g, d, m, "moved value after changing its source");
    std::swap(x, c);
    is<M>(g, x, mc, "swapped value");
    is<M>(g, c, mx, "other swapped value");
}
PBT_SUB(int_values, 3) { copies_and_moves<Num>(g); }
PBT_SUB(str_values, 2) { copies_and_moves<std::string>(g); }
PBT_SUB(fraction_values, 1) { copies_and_moves<Frac>(g); }
PBT_SUB(complex_values, 1) { copies_and_moves<Cplx>(g); }
PBT_SUB(list_values, 2) { copies_and_moves<std::vector<Num>>(g); }
PBT_SUB(deque_values, 2) { copies_and_moves<std::deque<std::string>>(g); }
PBT_SUB(set_values, 2) { copies_and_moves<std::set<Num>>(g); }
PBT_SUB(dict_values, 2) { copies_and_moves<std::map<std::string, std::vector<int>>>(g); }

// ---------------------------------------------------------------- own elements and own ranges as arguments

template <typename T>
static void list_arguments(G& g)
{
    const int d = gen_domain(g);
    Model m = gen_model(g, d, g.chance(1, 10) ? 100 : 17, 6);
    List<T> l;
    if (g.coin()) // capacity as it grows, or exact
        for (int v : m) l += make<T>(v);
    else
        l = List<T>(elements<T>(m));
    g.note(Elem<T>::name, " list ", show_model(m));
    g.nontrivial_if(!m.empty());
    int ops = 0;
    while (g.more(ops, 12, 4))
    {
        ++ops;
        const int n = int(m.size());
        const char* what = "?";
        const int i = n ? gen_index(g, n) : 0, j = n ? gen_index(g, n) : 0;
        const int vi = n ? m[at(i, m.size())] : 0;
        int op = g.below(13);
        if (n == 0 && op != 0 && op != 1) continue;
        if (n > 300) break;
        switch (op)
        {
            case 0: what = "l += l"; g.note(what); l += l; { const auto own = m; m.insert(m.end(), own.begin(), own.end()); } break;
            case 1: what = "l = l"; g.note(what); l = *&l; break;
            case 2: what = "l += l[i]"; g.note(what, " ", i); l += l[i]; m.push_back(vi); break;
            case 3: what = "l -= l[i]"; g.note(what, " ", i); l -= l[i]; m.erase(std::find(m.begin(), m.end(), vi)); break;
            case 4: what = "l /= l[i]"; g.note(what, " ", i); l /= l[i]; m.erase(std::remove(m.begin(), m.end(), vi), m.end()); break;
            case 5: what = "l.insert(j, l[i])"; g.note(what, " ", i, " ", j); l.insert(j, l[i]); m.insert(m.begin() + std::ptrdiff_t(at(j, m.size())), vi); break;
            case 6: what = "l[j] = l[i]"; g.note(what, " ", i, " ", j); l[j] = l[i]; m[at(j, m.size())] = vi; break;
            case 7:
            {
                what = "l.extend by its own range";
                int a = g.below(n + 1), b = g.range(a, n);
                g.note(what, " ", a, " ", b);
                Model e(m.begin() + a, m.begin() + b);
                l.extend(l.begin() + a, l.begin() + b);
                m.insert(m.end(), e.begin(), e.end());
                break;
            }
            case 8:
            {
                what = "queries with an own element";
                g.note(what, " ", i);
                int first = int(std::find(m.begin(), m.end(), vi) - m.begin());
                eqs(g, l.index(l[i]), first, "index of an own element");
                eqs(g, l.count(l[i]), int(std::count(m.begin(), m.end(), vi)), "count of an own element");
                g.require(l.contains(l[i]) && l.find(l[i]) - l.begin() == first, "contains and find of an own element");
                break;
            }
            case 9:
            {
                what = "copying operators with the list or its element";
                g.note(what, " ", i);
                Model w = m;
                w.insert(w.end(), m.begin(), m.end());
                same_seq<T>(g, l + l, w, "l + l");
                w = m;
                w.push_back(vi);
                same_seq<T>(g, l + l[i], w, "l + l[i]");
                w = m;
                w.erase(std::find(w.begin(), w.end(), vi));
                same_seq<T>(g, l - l[i], w, "l - l[i]");
                w = m;
                w.erase(std::remove(w.begin(), w.end(), vi), w.end());
                same_seq<T>(g, l / l[i], w, "l / l[i]");
                break;
            }
            case 10:
            {
                what = "l *= n and slices assigned to the list itself";
                g.note(what);
                l = l * 2;
                l = l.slice(0, n);
                break;
            }
            case 11:
            {
                what = "l = l.slice(...) of itself";
                g.note(what);
                l = l.slice(-1, -n - 1, -1);
                std::reverse(m.begin(), m.end());
                break;
            }
            default:
            {
                what = "insert of a removed element";
                g.note(what, " ", i);
                l.insert(0, l.remove(i));
                m.erase(m.begin() + std::ptrdiff_t(at(i, m.size())));
                m.insert(m.begin(), vi);
            }
        }
        same_seq<T>(g, l, m, what);
    }
}
PBT_SUB(list_arguments_int, 1) { list_arguments<int>(g); }
PBT_SUB(list_arguments_string, 2) { list_arguments<std::string>(g); }
PBT_SUB(list_arguments_box, 2) { list_arguments<Box>(g); }

template <typename T>
static void deque_arguments(G& g)
{
    const int d = gen_domain(g);
    Model m = gen_model(g, d, g.chance(1, 10) ? 150 : 17, 6);
    Deque<T> q;
    for (int v : m) q.push_back(make<T>(v));
    g.note(Elem<T>::name, " deque ", show_model(m));
    g.nontrivial_if(!m.empty());
    int ops = 0;
    while (g.more(ops, 12, 4))
    {
        ++ops;
        const int n = int(m.size());
        const char* what = "?";
        if (n == 0 || n > 400) break;
        const int i = gen_index(g, n), j = gen_index(g, n), vi = m[at(i, m.size())];
        switch (g.below(9))
        {
            case 0: what = "q.push_back(q[i])"; g.note(what, " ", i); q.push_back(q[i]); m.push_back(vi); break;
            case 1: what = "q.push_front(q[i])"; g.note(what, " ", i); q.push_front(q[i]); m.insert(m.begin(), vi); break;
            case 2: what = "q.push_back(q.front())"; g.note(what); q.push_back(q.front()); m.push_back(m.front()); break;
            case 3: what = "q.push_front(q.back())"; g.note(what); q.push_front(q.back()); m.insert(m.begin(), m.back()); break;
            case 4: what = "q[j] = q[i]"; g.note(what, " ", i, " ", j); q[j] = q[i]; m[at(j, m.size())] = vi; break;
            case 5:
            case 6:
            {
                bool back = g.coin();
                what = back ? "extend_back by its own range" : "extend_front by its own range";
                int a = g.below(n + 1), b = g.range(a, n);
                g.note(what, " ", a, " ", b);
                Model e(m.begin() + a, m.begin() + b);
                if (back) q.extend_back(q.begin() + a, q.begin() + b);
                else q.extend_front(q.begin() + a, q.begin() + b);
                m.insert(back ? m.end() : m.begin(), e.begin(), e.end());
                break;
            }
            case 7: what = "q = q"; g.note(what); q = *&q; break;
            default: what = "q.push_front(q.pop_back())"; g.note(what); q.push_front(q.pop_back()); m = rotated_left(m, -1);
        }
        same_seq<T>(g, q, m, what);
    }
}
PBT_SUB(deque_arguments_string, 2) { deque_arguments<std::string>(g); }
PBT_SUB(deque_arguments_box, 2) { deque_arguments<Box>(g); }

PBT_SUB(set_and_dict_arguments, 3)
{
    typedef std::string E;
    const int d = gen_domain(g);
    Model inserted = gen_model(g, d, 20, 6);
    std::set<int> m(inserted.begin(), inserted.end());
    Set<E> s;
    Dict<E, Box> t;
    std::map<int, int> tm;
    for (int v : m)
    {
        s.add(make<E>(v));
        t.add(make<E>(v), make<Box>(v + 5));
        tm[v] = v + 5;
    }
    g.note("set and dict of ", show_model(inserted));
    g.nontrivial_if(!m.empty());
    auto check = [&](const char* what) {
        g.require_f(s.size() == int(m.size()) && std::equal(s.begin(), s.end(), m.begin(), m.end(), [](const E& e, int v) { return e == make<E>(v); }),
                    [&] { return std::string(what) + ": set is " + show_seq(s); });
        g.require_f(t.size() == int(tm.size()) && std::equal(t.begin(), t.end(), tm.begin(), tm.end(),
                        [](const auto& e, const auto& v) { return e.first == make<E>(v.first) && e.second == make<Box>(v.second); }),
                    [&] { return std::string(what) + ": dict has keys " + show_seq(t.keys()); });
    };
    int ops = 0;
    while (g.more(ops, 12, 5) && !m.empty())
    {
        ++ops;
        int i = g.below(int(m.size())), v = *std::next(m.begin(), i);
        const E& own = *std::next(s.begin(), i);
        const char* what = "?";
        int op = g.below(14);
        g.note("op ", op, ", member ", v);
        switch (op)
        {
            case 0: what = "s.add(own)"; eqs(g, s.add(own), false, what); break;
            case 1: what = "s.remove(own)"; eqs(g, s.remove(own), true, what); t.remove(make<E>(v)); m.erase(v); tm.erase(v); break;
            case 2: what = "s.extend(own range)"; s.extend(s.begin(), s.end()); break;
            case 3: what = "s &= s"; s &= s; break;
            case 4: what = "s |= s"; s |= s; break;
            case 5: what = "queries with an own member"; g.require(s.contains(own) && *s.find(own) == own, what); break;
            case 6:
            {
                what = "operations with itself";
                g.require((s & s) == s && (s | s) == s && (s - s).is_empty() && (s ^ s).is_empty() && s <= s && s >= s && !(s < s) && !(s > s), what);
                Set<E> a(s), b(s);
                a -= a;
                b ^= b;
                g.require(a.is_empty() && b.is_empty(), "s -= s and s ^= s");
                break;
            }
            case 7: what = "s = s, t = t"; s = *&s; t = *&t; break;
            case 8: what = "t.add(own key, own value)"; eqs(g, t.add(t.find(make<E>(v))->first, t[make<E>(v)]), false, what); break;
            case 9: what = "t[key] = own value"; { int w = *m.begin(); t[make<E>(v)] = t[make<E>(w)]; tm[v] = tm[w]; } break;
            case 10: what = "t.remove(own key)"; eqs(g, t.remove(t.find(make<E>(v))->first), true, what); s.remove(make<E>(v)); m.erase(v); tm.erase(v); break;
            case 11: what = "t.extend(own range)"; t.extend(t.begin(), t.end()); break;
            case 12: what = "t.get(own key, own value)"; g.require(t.get(t.find(make<E>(v))->first, t[make<E>(*m.begin())]) == make<Box>(tm[v]), what); break;
            default: what = "views"; { auto k = t.keys(); k.clear(); auto w = t.values(); w.clear(); auto x = t.items(); x.clear(); }
        }
        check(what);
    }
}

PBT_SUB(value_arguments, 3)
{
    switch (g.below(3))
    {
        case 0:
        {
            Num m = Lib<Num>::gen(g);
            const Int x = Lib<Num>::to(m);
            const Int y = Lib<Num>::to(m); // independent equal value
            g.note("Int ", m.str());
            g.nontrivial_if(m.digits != "0");
            Int a(x), b(x), c(x), d(x), e(x), f(x);
            a += a;
            b -= b;
            c *= c;
            g.require(a == y + y && a == x + x, "x += x");
            g.require(b.is_zero() && b == x - x, "x -= x");
            g.require(c == y * y && c == x * x, "x *= x");
            if (m.digits != "0")
            {
                d /= d;
                e %= e;
                g.require(d == 1 && d == x / x, "x /= x");
                g.require(e.is_zero() && e == x % x, "x %= x");
                g.require(Int::gcd(x, x) == y.abs() && Int::lcm(x, x) == y.abs(), "gcd and lcm with itself");
                if (m.digits.size() <= 2 && !m.negative) g.require(Int::pow(f, f) == Int::pow(x, y) && Int::pow(f, f, f).is_zero(), "pow with itself");
                if (!m.negative && m.digits != "1") g.require(Int::log(x, x) == 1, "log with itself");
            }
            f = *&f;
            g.require(x == x && !(x < x) && !(x > x) && x <= x && x >= x, "comparison with itself");
            is<Num>(g, f, m, "self-assigned");
            is<Num>(g, x, m, "operand of const operations");
            break;
        }
        case 1:
        {
            std::string m = Lib<std::string>::gen(g);
            if (m.size() > 20) m.resize(20);
            const Str x = Lib<std::string>::to(m), y = Lib<std::string>::to(m);
            g.note("Str ", quote(m));
            g.nontrivial_if(!m.empty());
            g.require(x.find(x) == x.find(y) && x.count(x) == x.count(y) && x.contains(x) && x.starts_with(x) && x.ends_with(x), "searches for itself");
            g.require(x.replace(x, x) == x.replace(y, Str(m)) && x.replace("a", x) == x.replace("a", y), "replace with itself");
            g.require(x + x == x + y && x.join(List<Str>{x, x, x}) == y.join(List<Str>{y, y, y}), "concatenation and join with itself");
            if (!m.empty()) g.require(x.split(x, true) == y.split(x, true), "split by itself");
            Str z(x);
            z = z;
            z = z + z;
            g.require(z == x * 2, "z = z + z");
            (void)x.lower(); (void)x.upper(); (void)x.strip(); (void)x.reverse(); (void)(x << 3); (void)(x >> 3); (void)x.format(1, 2); (void)x.data();
            try { (void)x.to_integer(); } catch (const std::runtime_error&) {}
            try { (void)x.to_decimal(); } catch (const std::runtime_error&) {}
            is<std::string>(g, x, m, "string after const operations");
            break;
        }
        default:
        {
            int n = g.range(-900, 900), d = 1 + g.below(40);
            const Fraction x(n, d);
            const Complex c(n / 8.0, d / 4.0);
            g.note("Fraction ", n, "/", d, ", Complex ", n / 8.0, " ", d / 4.0);
            g.nontrivial_if(n != 0);
            Fraction a(x), b(x), e(x), f(x);
            a += a; b -= b; e *= e; f = *&f;
            g.require(a == x + Fraction(n, d) && b == Fraction(0) && e == x * Fraction(n, d) && f == x, "fraction combined with itself");
            Fraction p(x), q(x);
            if (n) { p /= p; q %= q; g.require(p == Fraction(1) && q == Fraction(0), "fraction divided by itself"); g.require(Fraction::gcd(x, x) == x.abs() && Fraction::lcm(x, x) == x.abs(), "gcd and lcm with itself"); }
            Complex u(c), v(c), w(c), z(c);
            u += u; v -= v; w *= w; z /= z;
            g.require(u == c + Complex(n / 8.0, d / 4.0) && v == Complex(0) && w == c * Complex(n / 8.0, d / 4.0) && std::abs(z.real() - 1) < 1e-9 && std::abs(z.imag()) < 1e-9, "complex combined with itself");
            g.require(x == Fraction(n, d) && c == Complex(n / 8.0, d / 4.0), "operands");
        }
    }
}

// ---------------------------------------------------------------- results are values of their own

// f() is bound to a reference, as `const auto&` and `auto&&` do it; later changes of the operands must not show in it
template <typename F, typename C>
static void held(G& g, const char* what, F&& f, C&& change)
{
    const auto& r = f();
    auto&& q = f();
    const std::string before = show(r);
    g.require_f(show(q) == before, [&] { return std::string(what) + " gives " + quote(before) + ", then " + quote(show(q)); });
    change();
    ++g.steps;
    g.require_f(show(r) == before && show(q) == before, [&] {
        return std::string("the result of ") + what + ", held by reference, was " + quote(before) + " and is " + quote(show(r)) + " after its operands changed";
    });
}
template <typename M>
struct Operands
{
    typedef typename Lib<M>::type T;
    M mx, my;
    T x, y;
    explicit Operands(G& g)
        : mx(Lib<M>::gen(g)), my(g.chance(1, 4) ? mx : g.chance(1, 4) ? M{} : Lib<M>::gen(g)), x(Lib<M>::to(mx)), y(Lib<M>::to(my))
    {
        g.note(Lib<M>::name(), " ", quote(printed(mx)), " and ", quote(printed(my)));
        g.nontrivial_if(!(mx == M{}));
    }
};
#define HELD(e) held(g, #e, [&]() -> decltype(auto) { return e; }, change); break
PBT_SUB(results_of_numbers, 2)
{
    switch (g.below(3))
    {
        case 0:
        {
            Operands<Num> o(g);
            Int &x = o.x, &y = o.y;
            const auto change = [&] { for (int k = 1 + g.below(3); k > 0; --k) { mutate(g, x, o.mx); mutate(g, y, o.my); } };
            if (g.chance(1, 4)) { y = g.range(-2, 2); o.my = Lib<Num>::gen(g); }
            if (y.is_zero() || x.digits() > 60) return;
            switch (g.below(16))
            {
                case 0: HELD(+x);
                case 1: HELD(-x);
                case 2: HELD(x.abs());
                case 3: HELD(x + y);
                case 4: HELD(x - y);
                case 5: HELD(x * y);
                case 6: HELD(x / y);
                case 7: HELD(x % y);
                case 8: HELD(Int::gcd(x, y));
                case 9: HELD(Int::lcm(x, y));
                case 10: HELD(Int::pow(x, Int(1)));
                case 11: HELD(Int::pow(x, Int(2), Int(1000007)));
                case 12: if (x.is_negative()) x = -x; HELD(Int::sqrt(x));
                case 13: if (!x.is_positive()) x = 3; HELD(Int::log(x, 10));
                case 14: HELD(+Int(x));
                default: x = g.below(30); HELD(x.factorial());
            }
            break;
        }
        case 1:
        {
            const int n = g.range(-40, 40), d = 1 + g.below(9), p = g.chance(1, 4) ? 0 : g.range(-40, 40), q = 1 + g.below(9);
            Fraction x(n, d), y(p, q);
            g.note("Fraction ", n, "/", d, " and ", p, "/", q);
            g.nontrivial_if(n != 0);
            const auto change = [&] { if (g.coin()) { ++x; --y; } else { x = Fraction(98765, 4); y = Fraction(-12345, 7); } };
            const int op = g.below(10);
            if (p == 0 && (op == 6 || op == 7)) return;
            switch (op)
            {
                case 0: HELD(+x);
                case 1: HELD(-x);
                case 2: HELD(x.abs());
                case 3: HELD(x + y);
                case 4: HELD(x - y);
                case 5: HELD(x * y);
                case 6: HELD(x / y);
                case 7: HELD(x % y);
                case 8: HELD(Fraction::gcd(x, y));
                default: HELD(Fraction::lcm(x, y));
            }
            break;
        }
        default:
        {
            Complex x(g.range(-4, 4), g.range(-4, 4)), y(g.range(-2, 2), g.range(-1, 1));
            g.note("Complex ", show(x), " and ", show(y));
            g.nontrivial_if(x != 0);
            const auto change = [&] { x += Complex(100, 7); y -= Complex(55, 2); };
            const int op = g.below(8);
            if (y == 0 && (op == 6 || op == 7)) return;
            if (x == 0 && op == 7) return;
            switch (op)
            {
                case 0: HELD(+x);
                case 1: HELD(-x);
                case 2: HELD(x.conjugate());
                case 3: HELD(x + y);
                case 4: HELD(x - y);
                case 5: HELD(x * y);
                case 6: HELD(x / y);
                default: HELD(Complex::pow(x, y));
            }
        }
    }
}
PBT_SUB(results_of_texts, 1)
{
    Operands<std::string> o(g);
    Str &x = o.x, &y = o.y;
    const auto change = [&] { for (int k = 1 + g.below(3); k > 0; --k) { mutate(g, x, o.mx); mutate(g, y, o.my); } };
    const int n = x.size(), k = g.range(-3, 3), a = g.below(n + 1), b = g.range(a, n);
    if (n > 400 || y.size() > 400) return;
    switch (g.below(20))
    {
        case 0: HELD(x + y);
        case 1: HELD(x + 'c');
        case 2: HELD(x * std::abs(k));
        case 3: HELD(x << k);
        case 4: HELD(x >> k);
        case 5: HELD(x.reverse());
        case 6: HELD(x.lower());
        case 7: HELD(x.upper());
        case 8: HELD(x.strip());
        case 9: HELD(x.erase(a, b));
        case 10: HELD(x.replace(y, x));
        case 11: if (!n) return; HELD(x.slice(0, n));
        case 12: if (!n) return; HELD(x.slice(-1, -n - 1, -1));
        case 13: if (y.is_empty()) return; HELD(x.split(y));
        case 14: if (y.is_empty()) return; HELD(x.split(y, true));
        case 15: HELD(y.join(List<Str>{x, y, x}));
        case 16: HELD(y.join(List<Str>{x}));
        case 17: HELD(x.format(y, 1));
        case 18: HELD(Str(x).strip('a'));
        default: HELD(x.count(y));
    }
}
PBT_SUB(results_of_sequences, 1)
{
    if (g.coin())
    {
        typedef std::vector<Num> M;
        Operands<M> o(g);
        List<Int> &x = o.x, &y = o.y;
        const auto change = [&] { for (int k = 1 + g.below(3); k > 0; --k) { mutate(g, x, o.mx); mutate(g, y, o.my); } };
        const int n = x.size(), k = g.below(4);
        if (n > 100 || y.size() > 100) return;
        const Int e = n && g.coin() ? x[g.below(n)] : Int(5);
        switch (g.below(9))
        {
            case 0: HELD(x + y);
            case 1: HELD(x + e);
            case 2: HELD(x - e);
            case 3: HELD(x / e);
            case 4: HELD(x * k);
            case 5: if (!n) return; HELD(x.slice(0, n));
            case 6: if (!n) return; HELD(x.slice(-1, -n - 1, -1));
            case 7: if (n < 2) return; { const Int& r = x.remove(0); o.mx.erase(o.mx.begin()); const std::string before = show(r); change(); g.require(show(r) == before, "a removed element held by reference"); } break;
            default: if (n < 2) return; { auto&& r = x.remove(-1); o.mx.pop_back(); const std::string before = show(r); change(); g.require(show(r) == before, "a removed element held by reference"); }
        }
        return;
    }
    typedef std::deque<std::string> M;
    Operands<M> o(g);
    Deque<Str>& x = o.x;
    if (x.is_empty()) return;
    const bool back = g.coin();
    const std::string want = show(back ? x.back() : x.front());
    auto&& r = back ? x.pop_back() : x.pop_front();
    back ? o.mx.pop_back() : o.mx.pop_front();
    for (int k = 1 + g.below(3); k > 0; --k) mutate(g, x, o.mx);
    g.require(show(r) == want, "a popped element held by reference");
}
PBT_SUB(results_of_sets, 1)
{
    if (g.coin())
    {
        typedef std::set<Num> M;
        Operands<M> o(g);
        Set<Int> &x = o.x, &y = o.y;
        const auto change = [&] { if (g.coin()) { x.clear(); y.clear(); x.add(77); y.add(-77); } for (int k = g.below(3); k > 0; --k) { o.mx.clear(); o.my.clear(); x = Lib<M>::to(o.mx); y = Lib<M>::to(o.my); mutate(g, x, o.mx); mutate(g, y, o.my); } };
        switch (g.below(7))
        {
            case 0: HELD(x & y);
            case 1: HELD(x | y);
            case 2: HELD(x - y);
            case 3: HELD(x ^ y);
            case 4: if (x.is_empty()) return; HELD(x.min());
            case 5: if (x.is_empty()) return; HELD(x.max());
            default: if (x.is_empty()) return; { auto&& r = x.pop(); const std::string before = show(r); change(); g.require(show(r) == before, "a popped element held by reference"); }
        }
        return;
    }
    typedef std::map<std::string, std::vector<int>> M;
    Operands<M> o(g);
    Dict<Str, List<int>>& x = o.x;
    const auto change = [&] { if (g.coin()) { x.clear(); x.add("q", List<int>{1, 2}); o.mx = {{"q", {1, 2}}}; } for (int k = 1 + g.below(3); k > 0; --k) mutate(g, x, o.mx); };
    switch (g.below(5))
    {
        case 0: HELD(x.keys());
        case 1: HELD(x.items());
        case 2: if (x.is_empty()) return; HELD(x.min());
        case 3: if (x.is_empty()) return; HELD(x.max());
        default: if (x.is_empty()) return; { auto&& r = x.pop(); const std::string key = show(r.first), value = show(r.second); x.clear(); g.require(show(r.first) == key && show(r.second) == value, "a popped entry held by reference"); }
    }
}

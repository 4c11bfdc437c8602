#include "compose.hpp"
using pyincpp::Tuple;

static pbt::Config config("C28",
    "tuples of 17 shapes of length 0 to 6 with equal, mixed and nested element types, built directly and by make_tuple; pairs of the "
    "same shape that are equal, differ in one position, or are independent; pairs of all shapes; non-trivial: length at least 2",
    1600000, 160000);

typedef std::tuple<std::tuple<>, std::tuple<int>, std::tuple<int, int>, std::tuple<int, double>, std::tuple<Raw, std::string>,
                   std::tuple<int, int, int>, std::tuple<int, bool, char>, std::tuple<Num, Frac, Cplx>, 
                   std::tuple<int, int, int, int, int, int>,
                   std::tuple<int, Num, std::string, Frac, Cplx, Raw>, std::tuple<std::tuple<int>>, std::tuple<std::tuple<int, int>, int>, std::tuple<int, std::tuple<int>, std::tuple<>>,
                   std::tuple<std::tuple<std::tuple<int>, int>, std::tuple<int>>, std::tuple<std::vector<int>, std::deque<int>>, std::tuple<std::map<int, std::string>, std::set<int>, std::vector<std::tuple<int>>>,
                   std::tuple<Num>>
    Shapes;
constexpr std::size_t NSHAPES = std::tuple_size_v<Shapes>;

template <typename T, typename M, std::size_t... I>
static void check_get(G& g, const T& t, const M& m, const char* what, std::index_sequence<I...>)
{
    (g.require_f(t.template get<int(I)>() == Lib<std::tuple_element_t<I, M>>::to(std::get<I>(m)),
                 [&] { return std::string(what) + ": wrong element at position " + std::to_string(I) + ": tuple prints " + show(t) + ", want " + printed(m); }),
     ...);
}
template <typename T>
static void check_rest(G& g, const T& t, const std::tuple<>& m, const char*)
{
    g.require(t.size() == 0, "size of the empty rest");
}
template <typename T, typename E, typename... Es>
static void check_rest(G& g, const T& t, const std::tuple<E, Es...>& m, const char* what)
{
    eqs(g, t.size(), int(1 + sizeof...(Es)), "size");
    check_get(g, t, m, what, std::index_sequence_for<E, Es...>());
    std::tuple<Es...> rest = std::apply([](const E&, const Es&... es) { return std::tuple<Es...>(es...); }, m);
    auto fresh = Lib<std::tuple<Es...>>::to(rest);
    g.require_f(t.rest() == fresh && !(t.rest() != fresh), [&] { return std::string(what) + ": rest() prints " + show(t.rest()) + ", want " + printed(rest); });
    check_rest(g, t.rest(), rest, "rest");
}
template <typename M, typename T = typename Lib<M>::type>
static void same_tuple(G& g, const T& t, const M& m, const char* what)
{
    check_rest(g, t, m, what);
    eqs(g, quote(show(t)), quote(printed(m)), "printed tuple");
}
// m with a new value at one position
template <typename M, std::size_t... I>
static void change(G& g, M& m, int at, std::index_sequence<I...>)
{
    ((at == int(I) ? void(std::get<I>(m) = Lib<std::tuple_element_t<I, M>>::gen(g)) : void()), ...);
}

template <typename M>
static void shape(G& g)
{
    constexpr int n = int(std::tuple_size_v<M>);
    M a = Lib<M>::gen(g), b = a;
    int at = -1;
    switch (g.pick({3, 2, 2}))
    {
        case 0:
            at = n ? g.below(n) : 0;
            change(g, b, at, std::make_index_sequence<std::size_t(n)>());
            break;
        case 1: break;
        default: b = Lib<M>::gen(g);
    }
    g.note(Lib<M>::name(), " ", printed(a), " and ", printed(b));
    g.nontrivial_if(n >= 2);
    const auto x = Lib<M>::to(a), y = Lib<M>::to(b);
    same_tuple<M>(g, x, a, "tuple");
    same_tuple<M>(g, y, b, "other tuple");
    const bool equal = a == b;
    if (equal) g.label("equal tuples");
    else if (at >= 0) g.label("tuples that differ in one element");
    g.require((x == y) == equal && (y == x) == equal, "==");
    g.require((x != y) == !equal && (y != x) == !equal, "!=");
    g.require(x == x && !(x != x), "tuple compared with itself");
    auto made = std::apply([](const auto&... e) { return pyincpp::make_tuple(Lib<std::decay_t<decltype(e)>>::to(e)...); }, a);
    g.require(made == x && x == made && !(made != x), "make_tuple gives the same tuple");
    same_tuple<M>(g, made, a, "made tuple");
    {
        // from variables, which the tuple does not follow
        auto variables = std::apply([](const auto&... e) { return std::make_tuple(Lib<std::decay_t<decltype(e)>>::to(e)...); }, a);
        const auto kept = std::apply([](auto&... e) { return pyincpp::make_tuple(e...); }, variables);
        g.require(kept == x && x == kept && !(kept != x), "make_tuple from variables gives the same tuple");
        variables = std::apply([](const auto&... e) { return std::make_tuple(Lib<std::decay_t<decltype(e)>>::to(e)...); }, b);
        same_tuple<M>(g, kept, a, "tuple made from variables that have changed");
        const typename Lib<M>::type built = std::apply([](auto&... e) { return typename Lib<M>::type(e...); }, variables);
        variables = std::apply([](const auto&... e) { return std::make_tuple(Lib<std::decay_t<decltype(e)>>::to(e)...); }, a);
        same_tuple<M>(g, built, b, "tuple built from variables that have changed");
    }
    auto copy = x;
    same_tuple<M>(g, copy, a, "copy");
    copy = y;
    same_tuple<M>(g, copy, b, "assigned copy");
    same_tuple<M>(g, x, a, "source of the copy");
    auto moved = std::move(copy);
    same_tuple<M>(g, moved, b, "moved tuple");
}

template <std::size_t... I>
static void one_shape(G& g, std::index_sequence<I...>)
{
    const int k = g.below(int(NSHAPES));
    ((k == int(I) ? shape<std::tuple_element_t<I, Shapes>>(g) : void()), ...);
}
PBT_SUB(shapes, 6) { one_shape(g, std::make_index_sequence<NSHAPES>()); }

// different shapes, values as equal as possible
template <typename A, typename B>
static void cross(G& g, const A& x, const B& y, bool want, const char* names)
{
    g.require_f((x == y) == want && (x != y) == !want, [&] {
        return std::string(names) + ": " + show(x) + " compared with " + show(y) + ": == gives " + (x == y ? "true" : "false") + ", != gives " + (x != y ? "true" : "false");
    });
}
PBT_SUB(different_shapes, 2)
{
    int a = g.range(-3, 3), b = g.coin() ? a : g.range(-3, 3), c = g.coin() ? b : g.range(-3, 3);
    g.note("values ", a, " ", b, " ", c);
    g.nontrivial();
    const Tuple<> e;
    const Tuple<int> i(a);
    const Tuple<long> l(a);
    const Tuple<double> d(a);
    const Tuple<int, int> ii(a, b);
    const Tuple<int, double> id(a, b);
    const Tuple<double, int> di(a, b);
    const Tuple<int, int, int> iii(a, b, c);
    const Tuple<int, int, long> iil(a, b, c);
    const Tuple<Tuple<int>> ti{i};
    const Tuple<Tuple<int>, int> tii(i, b);
    const Tuple<int, Tuple<int>> iti(a, Tuple<int>(b));
    const Tuple<pyincpp::Int> big(a);
    const Tuple<pyincpp::Int, int> bigi(a, b);
    const Tuple<int, pyincpp::Int> ibig(a, b);
#define ALL(F) F(e) F(i) F(l) F(d) F(ii) F(id) F(di) F(iii) F(iil) F(tii) F(iti) F(big) F(bigi) F(ibig)
#define ONE(y) cross(g, X, y, std::is_same_v<decltype(X), decltype(y)>, "tuples of different shapes");
#define ROW(x) { const auto& X_ = x; row(X_); }
    auto row = [&](const auto& X) {
#define CELL(y) cross(g, X, y, std::is_same_v<std::decay_t<decltype(X)>, std::decay_t<decltype(y)>>, "tuples of different shapes");
        ALL(CELL)
    };
#define R(x) row(x);
    ALL(R)
    cross(g, ti, e, false, "nested tuple and empty tuple");
    cross(g, ti, d, false, "nested tuple and number");
    cross(g, ii, Tuple<int, int>(b, a), a == b, "swapped elements");
    cross(g, iii, Tuple<int, int, int>(a, b, c + 1), false, "last element differs");
    cross(g, iii, Tuple<int, int, int>(a, b + 1, c), false, "middle element differs");
    cross(g, iii, Tuple<int, int, int>(a + 1, b, c), false, "first element differs");
}

// numbers whose equality is not that of their bytes, in objects whose padding differs
template <typename T>
static T number(G& g)
{
    if constexpr (std::is_same_v<T, bool>) return g.coin();
    return T(g.range(-2, 2));
}
template <typename T>
static T equal_number(G& g, T v)
{
    if constexpr (std::is_floating_point_v<T>)
    {
        return v == 0 && g.coin() ? -v : v;
    }
    return v;
}
template <typename... Ts>
static void alike(G& g)
{
    typedef std::tuple<Ts...> M;
    typedef Tuple<Ts...> T;
    constexpr int n = sizeof...(Ts);
    M a(number<Ts>(g)...);
    M b = std::apply([&](const Ts&... v) { return M(equal_number(g, v)...); }, a);
    if (g.coin())
    {
        [&]<std::size_t... I>(std::index_sequence<I...>) {
            const int at = g.below(n);
            ((at == int(I) ? void(std::get<I>(b) = number<Ts>(g)) : void()), ...);
        }(std::index_sequence_for<Ts...>());
    }
    const bool want = a == b;
    alignas(T) unsigned char room[2][sizeof(T)];
    std::memset(room[0], 0xA5, sizeof(T));
    std::memset(room[1], 0x5A, sizeof(T));
    const T& x = *std::apply([&](const Ts&... v) { return new (room[0]) T(v...); }, a);
    const T& y = *std::apply([&](const Ts&... v) { return new (room[1]) T(v...); }, b);
    const T z = x;
    const auto made = std::apply([&](const Ts&... v) { return pyincpp::make_tuple(v...); }, b);
    g.note(x, " ", y);
    g.require_f((x == y) == want && (y == x) == want && (x != y) == !want && (y != x) == !want, [&] { return show(x) + (want ? " equals " : " does not equal ") + show(y) + ", but == and != say otherwise"; });
    g.require(x == z && z == x && !(x != z) && y == made && !(made != y), "a copy is equal");
    g.require((z == made) == want, "equality of a copy and the tuple made of the values");
    g.require_f((x.rest() == y.rest()) == std::apply([&](const auto&, const auto&... v) { return std::apply([&](const auto&, const auto&... w) { return ((v == w) && ...); }, b); }, a), [&] { return "the rest of " + show(x) + " and of " + show(y); });
    g.nontrivial_if(n >= 2);
    g.label(want ? "numbers, equal" : "numbers, different");
}
PBT_SUB(numbers, 2)
{
    switch (g.below(9))
    {
        case 0: alike<double>(g); break;
        case 1: alike<double, double>(g); break;
        case 2: alike<int, double>(g); break;
        case 3: alike<float, int, float>(g); break;
        case 4: alike<char, int>(g); break;
        case 5: alike<bool, double, char>(g); break;
        case 6: alike<double, double, double, double, double, double>(g); break;
        case 7: alike<long double, char, short>(g); break;
        default: alike<int, short, char, bool, long>(g);
    }
}

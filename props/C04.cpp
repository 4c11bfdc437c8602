#include "hugeref.hpp"
#include <unordered_set>

static pbt::Config config("C04",
    "pairs and small lists of integers, related (equal, off by one, one digit different, same prefix, negated) or independent, each "
    "produced by one of several computations; non-trivial: the two magnitudes have equal length or the values are equal but were "
    "computed differently",
    2600000, 350000);

static void compare(G& g, const Int& x, const Int& y, const Big& a, const Big& b)
{
    auto what = [&](const char* op) { return [&, op] { return brief(a) + " " + op + " " + brief(b); }; };
    eq(g, x == y, a == b, what("=="));
    eq(g, x != y, a != b, what("!="));
    eq(g, x < y, a < b, what("<"));
    eq(g, x <= y, a <= b, what("<="));
    eq(g, x > y, a > b, what(">"));
    eq(g, x >= y, a >= b, what(">="));
    auto c = x <=> y;
    eq(g, c < 0, a < b, what("<=> (less)"));
    eq(g, c == 0, a == b, what("<=> (equal)"));
    if (a == b)
    {
        g.require_f(std::hash<Int>{}(x) == std::hash<Int>{}(y), [&] { return "equal integers " + brief(a) + " have different hashes"; });
    }
}

PBT_SUB(pair, 6)
{
    const int max = g.chance(1, 12) ? 800 : 50;
    Big a = gen_big(g, max), b = gen_related(g, a, max);
    g.note("a = ", brief(a), "\nb = ", brief(b));
    Int x = gen_int_of(g, a), y = gen_int_of(g, b);
    g.nontrivial_if(a == b || big_abs(a).str().size() == big_abs(b).str().size());
    if (a == b) g.label("equal values");
    if (a == -b && a != 0) g.label("opposite values");
    compare(g, x, y, a, b);
    compare(g, y, x, b, a);
    compare(g, x, x, a, a);
    same(g, x, a, "left operand after comparisons");
    same(g, y, b, "right operand after comparisons");
}

PBT_SUB(converted, 3)
{
    Big a = g.coin() ? Big(g.any_int()) : gen_big(g, 14);
    int k = g.chance(1, 3) && a >= INT32_MIN && a <= INT32_MAX ? int(a) : g.any_int();
    g.note("a = ", brief(a), ", int ", k);
    Int x = gen_int_of(g, a);
    eqs(g, x == k, a == k, "Int == int");
    eqs(g, k == x, a == k, "int == Int");
    eqs(g, x != k, a != k, "Int != int");
    eqs(g, x < k, a < k, "Int < int");
    eqs(g, x <= k, a <= k, "Int <= int");
    eqs(g, x > k, a > k, "Int > int");
    eqs(g, x >= k, a >= k, "Int >= int");
    eqs(g, k < x, Big(k) < a, "int < Int");
    eqs(g, k > x, Big(k) > a, "int > Int");
    eqs(g, k <= x, Big(k) <= a, "int <= Int");
    eqs(g, k >= x, Big(k) >= a, "int >= Int");
    std::string s = std::string(std::size_t(g.below(4)), '0') + std::to_string(std::abs((long long)k));
    if (k < 0) s.insert(0, "-");
    eqs(g, x == s.c_str(), a == k, "Int == literal");
    eqs(g, x < s.c_str(), a < k, "Int < literal");
    eqs(g, x > s.c_str(), a > k, "Int > literal");
    g.nontrivial_if(a == k || k == INT32_MIN);
}

PBT_SUB(order, 2)
{
    std::vector<Big> v;
    std::vector<Int> x;
    int n = 0;
    while (g.more(n, 30, 10))
    {
        v.push_back(n == 0 || g.chance(1, 3) ? gen_big(g, 30) : gen_related(g, v[std::size_t(g.below(n))], 30));
        x.push_back(gen_int_of(g, v.back()));
        ++n;
    }
    g.note("values ", show_seq(v));
    g.nontrivial_if(n >= 4);
    std::sort(x.begin(), x.end());
    std::vector<Big> w = v;
    std::sort(w.begin(), w.end());
    for (int i = 0; i < n; ++i)
    {
        same(g, x[std::size_t(i)], w[std::size_t(i)], "element of the sorted sequence");
    }
    std::unordered_set<Int> s(x.begin(), x.end());
    std::set<Int> o(x.rbegin(), x.rend());
    std::set<Big> r(w.begin(), w.end());
    eqs(g, s.size(), r.size(), "size of an unordered_set");
    eqs(g, o.size(), r.size(), "size of a set");
    for (auto& k : r)
    {
        g.require(s.count(lit(k)) == 1 && o.count(lit(k)) == 1, "a stored integer is found");
    }
}

PBT_SUB(computed, 3) // equal value by different computations
{
    Big a = gen_big(g, 40), d = gen_related(g, a, 40);
    Int x = lit(a), y = lit(d);
    g.note("a = ", brief(a), ", d = ", brief(d));
    g.nontrivial();
    Int e[] = {gen_int_of(g, a), (x + y) - y, (x - y) + y, -(-x), (x * 7) / 7, x * 1, x / 1, x - 0, Int(0) + x, Int(0) - (-x), x % (lit(big_abs(a)) + 1)};
    Int inc = x, dec = x;
    ++inc;
    --inc;
    --dec;
    ++dec;
    const std::size_t h = std::hash<Int>{}(x);
    for (auto& z : e)
    {
        compare(g, z, x, a, a);
        g.require(std::hash<Int>{}(z) == h, "equal integers have equal hashes");
    }
    compare(g, inc, x, a, a);
    compare(g, dec, x, a, a);
    if (d != 0)
    {
        compare(g, (x / y) * y + x % y, x, a, a);
    }
    Int zero[] = {x - x, x * 0, y - y, x % 1, Int(0) * y, -Int(0), Int("-0"), Int("000")};
    for (auto& z : zero)
    {
        compare(g, z, Int(0), 0, 0);
        compare(g, z, x, 0, a);
    }
}

// longer than any 16-bit index
PBT_SUB(long_integers, 1)
{
    if (!g.chance(1, 20)) { sub_pair(g); return; }
    const Dec a = gen_dec(g, gen_huge_length(g)), b = gen_related_dec(g, a);
    g.note("a = ", brief(a), "\nb = ", brief(b));
    g.label(a.mag.size() > 32768 ? "more than 32768 digits" : "hundreds of digits");
    g.nontrivial_if(a.mag.size() == b.mag.size());
    const Int x(a.text().c_str()), y(b.text().c_str());
    const int c = dec_cmp(a, b);
    g.require((x == y) == (c == 0) && (y == x) == (c == 0), "==");
    g.require((x != y) == (c != 0), "!=");
    g.require((x < y) == (c < 0) && (y > x) == (c < 0), "<");
    g.require((x > y) == (c > 0) && (y < x) == (c > 0), ">");
    g.require((x <= y) == (c <= 0) && (y >= x) == (c <= 0), "<=");
    g.require((x >= y) == (c >= 0) && (y <= x) == (c >= 0), ">=");
    const Int z = Int((std::string(b.neg ? "-" : "+") + "000" + b.mag).c_str());
    if (c == 0) g.require(x == z && std::hash<Int>{}(x) == std::hash<Int>{}(z), "equal integers have equal hashes");
    Int w = x;
    ++w;
    g.require(w > x && w >= x && w != x && x < w, "order of an integer and its successor");
    --w;
    g.require(w == x && std::hash<Int>{}(w) == std::hash<Int>{}(x), "hash after ++ and --");
}

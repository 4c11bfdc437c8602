#include "mutate.hpp"

static pbt::Config config("C31",
    "values of every type with valid edits between rejected calls: indices, bounds and insert positions outside (just outside and at the "
    "limits of int), operations on empty containers, missing keys, empty separators, zero divisors, steps and denominators, repeat counts "
    "that are negative or too large, arguments outside a function's domain, malformed literals and tokens; after each rejection the value "
    "is compared with its model and edited further; non-trivial: a non-empty (non-zero) value",
    900000, 90000);

static int outside(G& g, int lo, int hi) // an int outside [lo, hi)
{
    switch (g.pick({4, 2, 1}))
    {
        case 0: return g.coin() ? lo - 1 - g.below(3) : hi + g.below(3);
        case 1: return g.coin() ? INT32_MIN + g.below(3) : INT32_MAX - g.below(3);
        default: return g.coin() ? int(g.lrange(INT32_MIN, (long long)lo - 1)) : int(g.lrange(hi, INT32_MAX));
    }
}
static int bad_count(G& g, int n) // repeat count to reject for n elements
{
    if (n == 0 || g.coin()) return g.coin() ? -1 - g.below(3) : INT32_MIN + g.below(3);
    switch (g.below(3))
    {
        case 0: return int(std::min<long long>(INT32_MAX, INT32_MAX / n + 1LL + g.below(4)));
        case 1: return n == 1 ? -1 : INT32_MAX - g.below(3);
        default: return n == 1 ? -1 : int(g.lrange(INT32_MAX / n + 1LL, INT32_MAX));
    }
}
static std::string malformed_integer(G& g)
{
    static const char* fixed[] = {"", "+", "-", " ", "1 2", "--1", "+-1", "1-", "0x10", "1.0", "1e5", "12345678901234567890a", "a1", "- 1", "1,000", "\n", "1+1", "-+2", "/", ":", "1:"};
    if (g.coin()) return g.of(fixed);
    std::string s;
    for (int k = g.length(40, 6); k > 0; --k) s += char('0' + g.below(10));
    std::size_t at = std::size_t(g.below(int(s.size()) + 1));
    s.insert(at, 1, " +-./:a,_e"[g.below(10)]);
    if (at == 0 && (s[0] == '+' || s[0] == '-') && s.size() > 1) s += '-';
    return s;
}

// one rejected call; false if the value offers none of the drawn kind
static bool reject(G& g, Int& x, const Num& m)
{
    const Int& c = x;
    int op = g.below(21);
    if (op >= 18)
    {
        x = 0;
        const_cast<Num&>(m) = Num{};
    }
    g.note("rejected call ", op);
    switch (op)
    {
        case 0: must_reject(g, [&] { x /= Int(0); }, "x /= 0"); return true;
        case 1: must_reject(g, [&] { x %= Int(0); }, "x %= 0"); return true;
        case 2: must_reject(g, [&] { (void)(c / Int(0)); }, "x / 0"); return true;
        case 3: must_reject(g, [&] { (void)(c % Int("-0")); }, "x % 0"); return true;
        case 4: must_reject(g, [&] { x /= x - x; }, "x /= x - x"); return true;
        case 5: { std::string s = malformed_integer(g); g.note(quote(s)); must_reject(g, [&] { x = s.c_str(); }, "x = " + quote(s)); return true; }
        case 6: { std::string s = malformed_integer(g); g.note(quote(s)); must_reject(g, [&] { Int y(s.c_str()); }, "Int(" + quote(s) + ")"); return true; }
        case 7: { std::string s = malformed_integer(g); g.note(quote(s)); must_reject(g, [&] { x += s.c_str(); }, "x += " + quote(s)); return true; }
        case 8:
        {
            static const char* tokens[] = {"abc", "1a", "--1", "+", "-", "1.5", "1/2"};
            std::istringstream is(std::string(" ") + g.of(tokens) + " 5");
            must_reject(g, [&] { is >> x; }, "reading a malformed integer");
            return true;
        }
        case 9: if (!c.is_negative()) return false; must_reject(g, [&] { Int::sqrt(c); }, "sqrt of a negative integer"); return true;
        case 10: if (!c.is_negative()) return false; must_reject(g, [&] { (void)c.factorial(); }, "factorial of a negative integer"); return true;
        case 11: if (c.is_positive()) return false; must_reject(g, [&] { Int::log(c, 2); }, "log of an integer below 1"); return true;
        case 12: if (c >= 2) return false; must_reject(g, [&] { Int::log(100, c); }, "log to a base below 2"); return true;
        case 18: must_reject(g, [&] { x /= x; }, "x /= x of zero"); return true;
        case 19: must_reject(g, [&] { x %= x; }, "x %= x of zero"); return true;
        case 20: if (g.coin()) must_reject(g, [&] { (void)(c / c); }, "x / x of zero"); else must_reject(g, [&] { (void)(c % x); }, "x % x of zero"); return true;
        case 13: must_reject(g, [&] { Int::pow(0, Int(-1 - g.below(5))); }, "zero to a negative power"); return true;
        case 14: must_reject(g, [&] { Int::random(-2 - g.below(3)); }, "random with a negative digit count"); return true;
        case 15: must_reject(g, [&] { Int::random(INT32_MIN + g.below(3)); }, "random with a negative digit count"); return true;
        case 16: must_reject(g, [&] { x *= "1x"; }, "x *= malformed"); return true;
        default: must_reject(g, [&] { x -= ""; }, "x -= empty literal"); return true;
    }
}
static bool reject(G& g, Str& x, const std::string& m)
{
    const Str& c = x;
    const int n = int(m.size());
    int op = g.below(14);
    g.note("rejected call ", op);
    switch (op)
    {
        case 0: { int i = outside(g, -n, n); g.note(i); must_reject(g, [&] { (void)c[i]; }, "s[i]"); return true; }
        case 1: { int i = outside(g, -n, n); g.note(i); must_reject(g, [&] { (void)c.slice(i, 0); }, "slice start"); return true; }
        case 2: { int i = outside(g, -n - 1, n + 1); g.note(i); if (!n) return false; must_reject(g, [&] { (void)c.slice(0, i); }, "slice stop"); return true; }
        case 3: if (!n) return false; must_reject(g, [&] { (void)c.slice(0, n, 0); }, "slice with step 0"); return true;
        case 4: { int i = outside(g, 0, n + 1); g.note(i); must_reject(g, [&] { (void)c.erase(i, n); }, "erase start"); return true; }
        case 5: { int i = outside(g, 0, n + 1); g.note(i); if (i < 0) i = INT32_MAX; must_reject(g, [&] { (void)c.erase(0, i); }, "erase stop"); return true; }
        case 6: { int k = bad_count(g, n); g.note(k); must_reject(g, [&] { (void)(c * k); }, "repeat count"); return true; }
        case 7: must_reject(g, [&] { (void)c.split(""); }, "split by an empty separator"); return true;
        case 8: must_reject(g, [&] { (void)c.split(Str(), true); }, "split by an empty separator"); return true;
        case 9: { int b = outside(g, 2, 37); g.note(b); must_reject(g, [&] { (void)Str(g.coin() ? "101" : "0").to_integer(b); }, "base out of range"); return true; }
        case 12: if (n) return false; must_reject(g, [&] { (void)c.split(c, g.coin()); }, "split of an empty string by itself"); return true;
        case 13: if (!n) return false; { const int a = 1 + g.below(n), b = g.below(a); g.note(a, " ", b); must_reject(g, [&] { (void)c.erase(a, b); }, "erase with stop before start"); } return true;
        case 10: must_reject(g, [&] { (void)(c + "?").to_integer(36); }, "to_integer of a malformed string"); return true;
        default: must_reject(g, [&] { (void)(c + "x").to_decimal(); }, "to_decimal of a malformed string"); return true;
    }
}
static bool reject(G& g, Fraction& x, const Frac& m)
{
    const Fraction& c = x;
    int op = g.below(14);
    if (op >= 10)
    {
        x = 0;
        const_cast<Frac&>(m) = Frac{0, 1};
    }
    g.note("rejected call ", op);
    switch (op)
    {
        case 0: must_reject(g, [&] { x /= Fraction(0); }, "x /= 0"); return true;
        case 1: must_reject(g, [&] { x %= Fraction(0, 5); }, "x %= 0"); return true;
        case 2: must_reject(g, [&] { (void)(c / Fraction(0)); }, "x / 0"); return true;
        case 3: must_reject(g, [&] { (void)(c % Fraction(0)); }, "x % 0"); return true;
        case 10: must_reject(g, [&] { x /= x; }, "x /= x of zero"); return true;
        case 11: must_reject(g, [&] { x %= x; }, "x %= x of zero"); return true;
        case 12: must_reject(g, [&] { (void)(c / x); }, "x / x of zero"); return true;
        case 13: must_reject(g, [&] { (void)(c % c); }, "x % x of zero"); return true;
        case 4: { int n = g.chance(1, 3) ? 0 : g.any_int(); must_reject(g, [&] { x = Fraction(n, 0); }, "zero denominator"); return true; }
        case 5: must_reject(g, [&] { x /= x - x; }, "x /= x - x"); return true;
        case 6: if (x != Fraction(0)) return false; must_reject(g, [&] { x %= x; }, "0 % 0"); return true;
        default:
        {
            static const char* tokens[] = {"z", "1z/2", "1/z", "1|2", "1/2z", "1//2", "/2", "1/", "1/0", "0/0", "-", "1.5"};
            std::string s = g.of(tokens);
            g.note(s);
            std::istringstream is(s + " 7");
            bool failed = false;
            try
            {
                is >> x;
                failed = is.fail();
            }
            catch (const std::runtime_error&)
            {
                failed = true;
            }
            g.require(failed, "a malformed fraction is rejected");
        }
    }
    return true;
}
static bool reject(G& g, Complex& x, const Cplx& m)
{
    const Complex& c = x;
    int op = g.below(9);
    if (op >= 6)
    {
        x = 0;
        const_cast<Cplx&>(m) = Cplx{};
    }
    g.note("rejected call ", op);
    switch (op)
    {
        case 0: must_reject(g, [&] { x /= Complex(0); }, "x /= 0"); return true;
        case 1: must_reject(g, [&] { (void)(c / Complex(0, 0)); }, "x / 0"); return true;
        case 2: must_reject(g, [&] { x /= x - x; }, "x /= x - x"); return true;
        case 6: must_reject(g, [&] { x /= x; }, "x /= x of zero"); return true;
        case 7: must_reject(g, [&] { (void)(c / x); }, "x / x of zero"); return true;
        case 8: must_reject(g, [&] { (void)Complex::pow(c, -x + 1 + g.below(3)); }, "zero to a power"); return true;
        default:
        {
            static const char* tokens[] = {"z", "1z+2j", "1+z2j", "1+2zj", "1jj", "1+2", "1+2jz", "1+j2", "j", "1.5.2j"};
            std::string s = g.of(tokens);
            g.note(s);
            std::istringstream is(s + " 7");
            bool failed = false;
            try
            {
                is >> x;
                failed = is.fail();
            }
            catch (const std::runtime_error&)
            {
                failed = true;
            }
            g.require(failed, "a malformed complex number is rejected");
        }
    }
    return true;
}
template <typename E, typename T>
static bool reject(G& g, List<T>& x, const std::vector<E>& m)
{
    const List<T>& c = x;
    const int n = int(m.size());
    const T e = Lib<E>::to(E{});
    int op = g.below(15);
    g.note("rejected call ", op);
    switch (op)
    {
        case 14: if (!n) return false; { const int a = 1 + g.below(n), b = g.below(a); g.note(a, " ", b); must_reject(g, [&] { x.erase(a, b); }, "erase with stop before start"); } return true;
        case 0: { int i = outside(g, -n, n); g.note(i); must_reject(g, [&] { x[i] = e; }, "l[i] = e"); return true; }
        case 1: { int i = outside(g, -n, n); g.note(i); must_reject(g, [&] { (void)c[i]; }, "l[i]"); return true; }
        case 2:
        case 3: { int i = outside(g, -n, n + 1); g.note(i); must_reject(g, [&] { x.insert(i, e); }, "insert"); return true; }
        case 4:
        case 5: { int i = outside(g, -n, n); g.note(i); must_reject(g, [&] { x.remove(i); }, "remove"); return true; }
        case 6: { int i = outside(g, 0, n + 1); g.note(i); must_reject(g, [&] { x.erase(i, n); }, "erase start"); return true; }
        case 7: { int i = outside(g, 0, n + 1); if (i < 0) i = INT32_MAX; g.note(i); must_reject(g, [&] { x.erase(0, i); }, "erase stop"); return true; }
        case 8: { int i = outside(g, -n, n); g.note(i); must_reject(g, [&] { (void)c.slice(i, 0); }, "slice start"); return true; }
        case 9: { int i = outside(g, -n - 1, n + 1); g.note(i); if (!n) return false; must_reject(g, [&] { (void)c.slice(0, i); }, "slice stop"); return true; }
        case 10: if (!n) return false; must_reject(g, [&] { (void)c.slice(0, n, 0); }, "slice with step 0"); return true;
        case 11: { int k = bad_count(g, n); g.note(k); must_reject(g, [&] { (void)(c * k); }, "l * n"); return true; }
        case 12: { int k = bad_count(g, n); g.note(k); must_reject(g, [&] { x *= k; }, "l *= n"); return true; }
        default: { int i = g.below(n + 1), j = n + 1 + g.below(3); must_reject(g, [&] { x.erase(i, j); }, "erase past the end"); return true; }
    }
}
template <typename E, typename T>
static bool reject(G& g, Deque<T>& x, const std::deque<E>& m)
{
    const Deque<T>& c = x;
    const int n = int(m.size());
    int op = g.below(8);
    g.note("rejected call ", op);
    if (op < 6 && n > 0) op = 6 + op % 2;
    switch (op)
    {
        case 0: must_reject(g, [&] { x.pop_back(); }, "pop_back of an empty deque"); return true;
        case 1: must_reject(g, [&] { x.pop_front(); }, "pop_front of an empty deque"); return true;
        case 2: must_reject(g, [&] { (void)x.front(); }, "front of an empty deque"); return true;
        case 3: must_reject(g, [&] { (void)c.front(); }, "const front of an empty deque"); return true;
        case 4: must_reject(g, [&] { (void)x.back(); }, "back of an empty deque"); return true;
        case 5: must_reject(g, [&] { (void)c.back(); }, "const back of an empty deque"); return true;
        case 6: { int i = outside(g, -n, n); g.note(i); must_reject(g, [&] { x[i] = Lib<E>::to(E{}); }, "q[i] = e"); return true; }
        default: { int i = outside(g, -n, n); g.note(i); must_reject(g, [&] { (void)c[i]; }, "q[i]"); return true; }
    }
}
template <typename E, typename T>
static bool reject(G& g, Set<T>& x, const std::set<E>& m)
{
    if (!m.empty())
    {
        if (!g.chance(1, 3)) return false;
        x.clear(); // the only rejected calls are those on an empty set
        const_cast<std::set<E>&>(m).clear();
    }
    int op = g.below(3);
    g.note("rejected call ", op);
    switch (op)
    {
        case 0: must_reject(g, [&] { x.pop(); }, "pop of an empty set"); return true;
        case 1: must_reject(g, [&] { x.min(); }, "min of an empty set"); return true;
        default: must_reject(g, [&] { x.max(); }, "max of an empty set"); return true;
    }
}
template <typename A, typename B, typename K, typename V>
static bool reject(G& g, Dict<K, V>& x, const std::map<A, B>& m)
{
    const Dict<K, V>& c = x;
    int op = g.below(6);
    g.note("rejected call ", op);
    if (op < 3)
    {
        if (!m.empty())
        {
            if (!g.chance(1, 3)) return false;
            x.clear();
            const_cast<std::map<A, B>&>(m).clear();
        }
        switch (op)
        {
            case 0: must_reject(g, [&] { x.pop(); }, "pop of an empty dictionary"); return true;
            case 1: must_reject(g, [&] { x.min(); }, "min of an empty dictionary"); return true;
            default: must_reject(g, [&] { x.max(); }, "max of an empty dictionary"); return true;
        }
    }
    A a = Lib<A>::gen(g);
    if (m.count(a)) return false;
    const K key = Lib<A>::to(a);
    if (op == 3) must_reject(g, [&] { x[key] = Lib<B>::to(B{}); }, "assignment to a missing key");
    else if (op == 4) must_reject(g, [&] { (void)c[key]; }, "reading a missing key");
    else must_reject(g, [&] { (void)x[key]; }, "reading a missing key");
    return true;
}

template <typename M>
static void history(G& g)
{
    M m = Lib<M>::gen(g);
    auto x = Lib<M>::to(m);
    g.note(Lib<M>::name(), " ", quote(printed(m)));
    g.nontrivial_if(!(m == M{}));
    int ops = 0;
    do
    {
        if (reject(g, x, m))
        {
            is<M>(g, x, m, "value after the rejected call");
        }
        if (g.coin())
        {
            mutate(g, x, m);
            is<M>(g, x, m, "value edited after the rejected call");
            g.nontrivial_if(!(m == M{}));
        }
        ++ops;
    } while (g.more(ops, 12, 3));
}
PBT_SUB(int_values, 4) { history<Num>(g); }
PBT_SUB(str_values, 3) { history<std::string>(g); }
PBT_SUB(fraction_values, 2) { history<Frac>(g); }
PBT_SUB(complex_values, 2) { history<Cplx>(g); }
PBT_SUB(list_values, 3) { history<std::vector<int>>(g); }
PBT_SUB(list_of_int_values, 2) { history<std::vector<Num>>(g); }
PBT_SUB(deque_values, 3) { history<std::deque<std::string>>(g); }
PBT_SUB(set_values, 1) { history<std::set<Num>>(g); }
PBT_SUB(dict_values, 3) { history<std::map<std::string, std::vector<int>>>(g); }

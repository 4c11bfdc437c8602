#include "strref.hpp"
#include "longtext.hpp"

static pbt::Config config("C15",
    "strings of all alphabets and lengths, indices and bounds around [-n, n] and extreme ints, steps of every sign and size, rotations "
    "by any int, repeat counts including negative and overflowing ones; small strings with all slice arguments; non-trivial: string "
    "of at least 2 characters",
    1100000, 150000);

PBT_SUB(index, 3)
{
    Alphabet a = gen_alphabet(g);
    std::string s = gen_text(g, a, 300);
    const int n = int(s.size());
    Str x = gen_str_of(g, s);
    int i = gen_bound(g, n);
    g.note("s = ", quote(s), "\nindex ", i);
    g.nontrivial_if(n >= 2);
    if (i >= -n && i < n)
    {
        eqs(g, int(x[i]), int(s[std::size_t(i < 0 ? i + n : i)]), "s[i]");
    }
    else
    {
        g.label("index out of range");
        must_reject(g, [&] { (void)x[i]; }, "index out of range");
    }
    eqs(g, x.size(), n, "size");
    eqs(g, x.is_empty(), n == 0, "is_empty");
    sames(g, x, s, "string after indexing");
}

static void check_slice(G& g, const Str& x, const std::string& s, int start, int stop, int step)
{
    const int n = int(s.size());
    auto what = [&] { return "slice(" + std::to_string(start) + ", " + std::to_string(stop) + ", " + std::to_string(step) + ") of " + quote(s); };
    if (step == 0 || start < -n || start >= n || stop < -n - 1 || stop > n)
    {
        g.label("slice rejected");
        must_reject(g, [&] { x.slice(start, stop, step); }, what());
        return;
    }
    std::string want;
    for (int i : ref_slice(n, start, stop, step))
    {
        want += s[std::size_t(i)];
    }
    eq(g, quote(text(x.slice(start, stop, step))), quote(want), what);
    if (step == 1)
    {
        eq(g, quote(text(x.slice(start, stop))), quote(want), what);
    }
    if (want.size() >= 2) g.label("slice of at least 2");
}

PBT_SUB(slice, 5)
{
    Alphabet a = gen_alphabet(g);
    std::string s = gen_text(g, a, 300);
    const int n = int(s.size());
    Str x = gen_str_of(g, s);
    int start = gen_bound(g, n), stop = gen_bound(g, n), step = gen_step(g, n);
    g.note("s = ", quote(s), "\nslice(", start, ", ", stop, ", ", step, ")");
    g.nontrivial_if(n >= 2);
    check_slice(g, x, s, start, stop, step);
    sames(g, x, s, "string after slicing");
}

PBT_SUB(all_slices, 1)
{
    std::string s = std::string("abcdef").substr(0, std::size_t(g.below(6)));
    const int n = int(s.size());
    Str x(s);
    g.note("s = ", quote(s), ", all slices");
    g.nontrivial_if(n >= 2);
    for (int i = -n - 1; i <= n + 1; ++i)
    {
        for (int j = -n - 2; j <= n + 1; ++j)
        {
            bool out = i < -n || i >= n || j < -n - 1 || j > n;
            for (int k : {-7, -3, -2, -1, 0, 1, 2, 3, 7})
            {
                if (out ? k != 1 && k != -1 : k == 0 && i != 0)
                {
                    continue; // rejections are slow: not with every step
                }
                check_slice(g, x, s, i, j, k);
            }
        }
    }
}

PBT_SUB(erase, 3)
{
    Alphabet a = gen_alphabet(g);
    std::string s = gen_text(g, a, 300);
    const int n = int(s.size());
    Str x = gen_str_of(g, s);
    int i = gen_bound(g, n), j = gen_bound(g, n);
    if (g.coin() && i > j) std::swap(i, j);
    g.note("s = ", quote(s), "\nerase(", i, ", ", j, ")");
    g.nontrivial_if(n >= 2);
    auto what = [&] { return "erase(" + std::to_string(i) + ", " + std::to_string(j) + ")"; };
    if (i < 0 || j < 0 || i > n || j > n)
    {
        g.label("erase bound out of range");
        must_reject(g, [&] { x.erase(i, j); }, what());
    }
    else if (i > j)
    {
        g.label("erase reversed");
        try
        {
            sames(g, x.erase(i, j), s, "erase of a reversed range");
        }
        catch (const std::runtime_error&)
        {
        }
    }
    else
    {
        std::string want = s.substr(0, std::size_t(i)) + s.substr(std::size_t(j));
        sames(g, x.erase(i, j), want, "erase");
    }
    sames(g, x, s, "string after erase");
}

PBT_SUB(rearrange, 4)
{
    Alphabet a = gen_alphabet(g);
    std::string s = gen_text(g, a, 300), t = gen_text(g, a, 40);
    const long long n = (long long)s.size();
    Str x = gen_str_of(g, s), y = gen_str_of(g, t);
    int k = g.coin() ? g.any_int() : gen_bound(g, int(n));
    g.note("s = ", quote(s), "\nrotation ", k, ", t = ", quote(t));
    g.nontrivial_if(n >= 2);
    std::string left = s, right = s;
    for (long long i = 0; i < n; ++i)
    {
        left[std::size_t(i)] = s[std::size_t((((i + k) % n) + n) % n)];
        right[std::size_t((((i + k) % n) + n) % n)] = s[std::size_t(i)];
    }
    sames(g, x << k, left, "s << n");
    sames(g, x >> k, right, "s >> n");
    sames(g, x.reverse(), std::string(s.rbegin(), s.rend()), "reverse");
    sames(g, x + y, s + t, "s + t");
    sames(g, y + x, t + s, "t + s");
    sames(g, x + x, s + s, "s + s");
    char c = a.one(g);
    sames(g, x + c, s + c, "s + char");
    sames(g, x, s, "string after rearranging");
    sames(g, y, t, "other string after rearranging");
}

PBT_SUB(repeat, 2)
{
    Alphabet a = gen_alphabet(g);
    std::string s = gen_text(g, a, 300);
    const long long n = (long long)s.size();
    Str x = gen_str_of(g, s);
    int k = g.pick({5, 1}) == 0 ? g.below(9) : g.any_int();
    if (g.chance(1, 8) && n > 0) // just over the limit
    {
        k = int(std::min<long long>(INT32_MAX, INT32_MAX / n + 1 + g.below(3)));
    }
    g.note("s = ", quote(s), "\ntimes ", k);
    g.nontrivial_if(n >= 2 && k >= 2);
    if (k < 0)
    {
        g.label("negative count");
        must_reject(g, [&] { x * k; }, "negative repeat count");
    }
    else if (n * k > INT32_MAX)
    {
        g.label("too large count");
        must_reject(g, [&] { x * k; }, "too large repeat count");
    }
    else if (n * k <= 100000 && k <= 100000)
    {
        std::string want;
        for (int i = 0; i < k; ++i) want += s;
        sames(g, x * k, want, "s * n");
    }
    sames(g, x, s, "string after repeating");
}

// Short texts as a rule, and once in a while one of up to 140000 characters.
PBT_SUB(large, 1)
{
    const int n = longtext::gen_rare_size(g);
    const longtext::Long l(g, n, g.chance(1, 4));
    l.rearranged(g);
    l.repeated(g);
    g.nontrivial_if(n > 1);
}

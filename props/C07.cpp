#include "intref.hpp"
#include <random>

static pbt::Config config("C07",
    "digit counts (small, at capacity boundaries, up to 6000, default, negative) and seeds of the random source, which the harness "
    "interposes (std::random_device::_M_getval), including seeds chosen so that the default length is 0 or maximal; "
    "non-trivial: digit count 0 or at least 2",
    800000, 100000);

// The source of randomness is an input of the property.
static unsigned the_seed = 1;
static unsigned the_calls = 0;
unsigned int std::random_device::_M_getval()
{
    return the_seed + 0x9E3779B9u * the_calls++;
}

static std::vector<unsigned> interesting() // seeds with rare lengths or digits; only generation
{
    std::vector<unsigned> v;
    for (unsigned s = 0; s < 60000; ++s)
    {
        std::mt19937 gen(s);
        std::uniform_int_distribution<int> d(0, 4300);
        int n = d(gen);
        if (n <= 1 || n >= 4299)
        {
            v.push_back(s);
        }
    }
    return v;
}
static const std::vector<unsigned> special = interesting();

static void well_formed(G& g, const Int& x, int lo, int hi)
{
    std::string s = show(x);
    g.require(!s.empty(), "prints something");
    for (char c : s)
    {
        g.require(c >= '0' && c <= '9', "prints decimal digits only");
    }
    int n = s == "0" ? 0 : int(s.size());
    g.require(n == 0 || s[0] != '0', "no leading zeros");
    g.require_f(n >= lo && n <= hi, [&] { return "has " + std::to_string(n) + " digits, want " + std::to_string(lo) + ".." + std::to_string(hi); });
    eqs(g, x.digits(), n, "digits()");
    g.require(!x.is_negative() && x.is_zero() == (n == 0) && x.is_positive() == (n > 0), "sign predicates");
    const Int fresh(s.c_str());
    g.require(x == fresh && fresh == x && !(x < fresh) && !(x > fresh), "equals the integer it prints");
    g.require((x - fresh).is_zero(), "x - x == 0");
    Int y = x;
    ++y;
    g.require(y == fresh + 1 && y > x, "x + 1");
    g.require(show(x + fresh) == show(fresh + fresh), "x + x");
    g.require(x.is_even() == ((s.back() - '0') % 2 == 0), "parity");
    if (n <= 300)
    {
        same(g, x * 7, big(s) * 7, "x * 7");
        same(g, x / 3, big(s) / 3, "x / 3");
    }
}

PBT_SUB(length, 6)
{
    int d = g.length(g.chance(1, 40) ? 6000 : 300, 12);
    the_seed = unsigned(g.draw(0xFFFFFFFFu));
    the_calls = 0;
    g.note("random(", d, "), seed ", the_seed);
    g.nontrivial_if(d != 1);
    if (d == 0) g.label("0 digits");
    Int x = Int::random(d);
    well_formed(g, x, d, d);
}

// Digit counts around the ends of the narrower machine types and at counts whose products with small factors do not fit int.
PBT_SUB(long_length, 1)
{
    if (!g.chance(1, 40)) // a light case instead: most of the time goes into the other subs
    {
        well_formed(g, Int::random(2), 2, 2);
        return;
    }
    int e = g.chance(1, 12) ? 20 + g.below(2) : 12 + g.below(6);
    int d = (1 << e) + (g.coin() ? g.below(9) - 4 : g.below(1 << e));
    the_seed = unsigned(g.draw(0xFFFFFFFFu));
    the_calls = 0;
    g.note("random(", d, "), seed ", the_seed);
    g.label("thousands of digits");
    g.nontrivial();
    well_formed(g, Int::random(d), d, d);
}

PBT_SUB(short_length, 6)
{
    int d = g.below(4);
    the_seed = unsigned(g.draw(0xFFFFFFFFu));
    the_calls = 0;
    g.note("random(", d, "), seed ", the_seed);
    g.nontrivial_if(d != 1);
    well_formed(g, Int::random(d), d, d);
}

PBT_SUB(any_length, 1)
{
    bool s = g.chance(1, 3) && !special.empty();
    the_seed = s ? g.elem(special) : unsigned(g.draw(0xFFFFFFFFu));
    the_calls = 0;
    if (s) g.label("seed with extreme length");
    g.note("random(), seed ", the_seed);
    g.nontrivial();
    well_formed(g, g.coin() ? Int::random() : Int::random(-1), 0, 4300);
}

PBT_SUB(rejected, 1)
{
    int d = std::min(g.any_int(), -2);
    g.note("random(", d, ")");
    g.label("negative digit count");
    must_reject(g, [&] { Int::random(d); }, "random with a digit count below -1");
}

#include "hugeref.hpp"

static pbt::Config config("C01",
    "operand pairs from structured integer generators (powers of ten and two +-d, nines, sparse, shared prefixes, complements, "
    "mostly up to ~600 digits, rarely 1800), unary steps and register-machine histories; non-trivial: both operands non-zero and the operation "
    "carries/borrows, or the history has at least 5 operations",
    1500000, 200000);

PBT_SUB(binary, 8)
{
    const int max = g.chance(1, 8) ? 600 : 90;
    const bool wide = g.chance(1, 3000);
    Big a = wide ? Big(gen_digits(g, g.range(700, 1800))) : gen_big(g, max), b = gen_related(g, a, max), c = gen_big(g, 40);
    if (a == 0 || b == 0) g.label("zero operand");
    if ((a < 0) != (b < 0)) g.label("mixed signs");
    if (big_abs(a).str().size() != big_abs(b).str().size()) g.label("different lengths");
    if (carries(a, b)) g.label("carry");
    if (big_abs(a).str().size() > 100) g.label("over 100 digits");
    g.nontrivial_if(a != 0 && b != 0 && carries(a, b));
    int op = g.below(3), op2 = g.below(3);
    Int x = gen_int_of(g, a), y = gen_int_of(g, b);
    const Int z = lit(c);
    static const char* names[] = {"a + b", "a - b", "a * b"};
    g.note("a = ", brief(a), "\nb = ", brief(b), "\noperation ", names[op], ", then with c = ", brief(c));
    auto ref = [](int o, const Big& p, const Big& q) { return o == 0 ? Big(p + q) : o == 1 ? Big(p - q) : Big(p * q); };
    auto bin = [](int o, const Int& p, const Int& q) { return o == 0 ? p + q : o == 1 ? p - q : p * q; };
    auto cmp = [](int o, Int& p, const Int& q) { return o == 0 ? WHERE(p += q) : o == 1 ? WHERE(p -= q) : WHERE(p *= q); };
    Blind blind(g);
    Big w = ref(op, a, b);
    Int r = bin(op, x, y);
    same(g, x, a, "left operand after the operation");
    same(g, y, b, "right operand after the operation");
    same(g, r, w, names[op]);
    Int u = x;
    g.require(cmp(op, u, y) == &u, "compound assignment returns its left operand");
    same(g, u, w, "compound form");
    same(g, y, b, "right operand after the compound form");
    // computes like any other integer of that value
    same(g, bin(op2, r, z), ref(op2, w, c), "result as left operand");
    same(g, bin(op2, z, u), ref(op2, c, w), "result as right operand");
    cmp(op2, u, z);
    same(g, u, ref(op2, w, c), "compound with the result");
    // with itself
    Int s = x;
    cmp(op, s, s);
    same(g, s, ref(op, a, a), "compound form with itself");
    same(g, bin(op, x, x), ref(op, a, a), "binary form with itself");
    same(g, bin(op, y, x), ref(op, b, a), "swapped operands");
    // mixed with int
    int k = g.any_int();
    same(g, bin(op, x, k), ref(op, a, k), "with an int");
    cmp(op, x, k);
    same(g, x, ref(op, a, k), "compound with an int");
    Blind::open_eyes();
    same(g, r, w, "result at the end");
    same(g, u, ref(op2, w, c), "result of the compound forms at the end");
    same(g, x, ref(op, a, k), "left operand at the end");
    same(g, y, b, "right operand at the end");
}

PBT_SUB(unary, 3)
{
    Big a = gen_big(g, 120);
    Int x = gen_int_of(g, a);
    g.note("a = ", brief(a));
    same(g, -x, -a, "-a");
    same(g, -(-x), a, "-(-a)");
    same(g, +x, a, "+a");
    same(g, x.abs(), big_abs(a), "abs");
    same(g, x, a, "operand of unary operations");
    int n = 1 + g.below(25);
    bool down = g.coin(), carry = false;
    for (int i = 0; i < n; ++i)
    {
        std::size_t len = a.str().size();
        const void* r = down ? WHERE(--x) : WHERE(++x);
        a += down ? -1 : 1;
        carry = carry || a.str().size() != len || a == 0;
        g.require(r == &x, "++ and -- return the object");
        same(g, x, a, down ? "--" : "++");
    }
    same(g, x + x, a + a, "sum after the steps");
    if (carry) g.label("++/-- changes the length or reaches zero");
    g.nontrivial_if(carry);
}

PBT_SUB(history, 5)
{
    constexpr int N = 4;
    Int r[N];
    Big v[N];
    for (int i = 0; i < N; ++i)
    {
        v[i] = i == 0 ? gen_big(g, 60) : gen_related(g, v[0], 60);
        r[i] = lit(v[i]);
        g.note("r", i, " = ", brief(v[i]));
    }
    Blind blind(g);
    int ops = 0;
    while (g.more(ops, 40, 12))
    {
        int i = g.below(N), j = g.below(N), k = g.below(N);
        int op = g.below(14);
        g.note("op ", op, " on r", i, ", r", j, ", r", k);
        ++ops;
        if (v[j].str().size() + v[k].str().size() > 700 && (op == 2 || op == 5))
        {
            op -= 1;
        }
        if (v[i].str().size() + v[j].str().size() > 700 && op == 5)
        {
            op = 4;
        }
        switch (op)
        {
            case 0: r[i] = r[j] + r[k]; v[i] = v[j] + v[k]; break;
            case 1: r[i] = r[j] - r[k]; v[i] = v[j] - v[k]; break;
            case 2: r[i] = r[j] * r[k]; v[i] = v[j] * v[k]; break;
            case 3: r[i] += r[j]; v[i] += Big(v[j]); break;
            case 4: r[i] -= r[j]; v[i] -= Big(v[j]); break;
            case 5: r[i] *= r[j]; v[i] *= Big(v[j]); break;
            case 6: ++r[i]; ++v[i]; break;
            case 7: --r[i]; --v[i]; break;
            case 8: r[i] = -r[j]; v[i] = Big(-v[j]); break;
            case 9: r[i] = r[j].abs(); v[i] = big_abs(v[j]); break;
            case 10: r[i] = r[j]; v[i] = Big(v[j]); break;
            case 11:
            {
                if (i != j)
                {
                    r[i] = std::move(r[j]);
                    v[i] = v[j];
                    v[j] = 0;
                }
                break;
            }
            case 12: (r[i] += r[j]) -= r[k]; v[i] += Big(v[j]); v[i] -= Big(v[k]); break;
            default:
            {
                Int t(std::move(r[i]));
                r[i] = t * 3 - t;
                v[i] *= 2;
            }
        }
        same(g, r[i], v[i], "register after the operation");
        same(g, r[j], v[j], "operand register after the operation");
    }
    Blind::open_eyes();
    for (int i = 0; i < N; ++i)
    {
        same(g, r[i], v[i], "register at the end");
    }
    g.nontrivial_if(ops >= 5);
    if (ops >= 15) g.label("history of 15 or more operations");
}

// longer than any 16-bit index
PBT_SUB(long_integers, 1)
{
    if (!g.chance(1, 8)) { sub_unary(g); return; }
    const Dec a = gen_dec(g, gen_huge_length(g)), b = gen_related_dec(g, a);
    const int k = g.coin() ? g.range(-12, 12) : g.range(-30000, 30000);
    g.note("a = ", brief(a), "\nb = ", brief(b), "\nk = ", k);
    g.label(a.mag.size() > 32768 ? "more than 32768 digits" : "hundreds of digits");
    g.nontrivial();
    Int x(a.text().c_str()), y(b.text().c_str());
    same_dec(g, x + y, dec_add(a, b), "a + b");
    same_dec(g, x - y, dec_add(a, dec_neg(b)), "a - b");
    same_dec(g, y - x, dec_add(b, dec_neg(a)), "b - a");
    Dec p{a.neg != (k < 0), mag_times(a.mag, std::abs(k))};
    same_dec(g, x * k, p, "a * k");
    same_dec(g, Int(k) * x, p, "k * a");
    same_dec(g, -x, dec_neg(a), "-a");
    Int z = x;
    const bool down = g.coin();
    down ? --z : ++z;
    same_dec(g, z, dec_add(a, Dec{down, "1"}), down ? "--a" : "++a");
    z += y;
    z -= y;
    down ? ++z : --z;
    same_dec(g, z, a, "a after steps that cancel");
    z -= z;
    same_dec(g, z, Dec{}, "a -= a");
    same_dec(g, x, a, "a at the end");
}

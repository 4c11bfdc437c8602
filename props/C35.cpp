// A Str holds exactly the characters it was given: construction, copies, moves, iteration,
// comparison, printing and line input, against std::string.
#include "strref.hpp"

static pbt::Config config("C35", "a case counts if the texts involved have at least one character", 500000, 90000);

static std::string through_iterators(const Str& s)
{
    std::string r;
    for (auto it = s.begin(); it != s.end(); ++it)
    {
        r += *it;
    }
    return r;
}

// everything observable of x is the text
static void whole(G& g, const Str& x, const std::string& m, const char* what)
{
    const int n = int(m.size());
    sames(g, x, m, what);
    auto bad = [&](const char* which) { g.fail(std::string(what) + ": " + which + " does not agree with " + quote(m)); };
    if (through_iterators(x) != m) bad("forward iteration");
    if (std::string(x.rbegin(), x.rend()) != std::string(m.rbegin(), m.rend())) bad("backward iteration");
    if (x.end() - x.begin() != n || x.rend() - x.rbegin() != n) bad("the distance of the iterators");
    if (x.is_empty() != m.empty()) bad("is_empty");
    if (std::memcmp(x.data(), m.c_str(), m.size() + 1) != 0) bad("data");
    if (show(x) != "\"" + m + "\"") bad("the printed form");
    for (int k = 0; k < 6 && n > 0; ++k)
    {
        int i = k == 0 ? 0 : k == 1 ? n - 1 : g.below(n);
        if (x[i] != m[std::size_t(i)] || x[i - n] != m[std::size_t(i)]) bad("indexing");
    }
    if (std::hash<Str>{}(x) != std::hash<Str>{}(Str(m))) bad("the hash");
}

PBT_SUB(content, 4)
{
    const Alphabet a = gen_alphabet(g);
    const std::string m = gen_text(g, a, 3000, 10);
    g.note("text ", quote(m));
    g.nontrivial_if(!m.empty());
    const std::string chars(m.c_str()); // up to the first zero byte
    g.label(m.size() <= 15 ? "short text" : "long text");
    if (chars.size() != m.size())
    {
        g.label("text with zero bytes");
    }
    std::string source = m;
    Str x(source);
    source.assign(source.size() + 3, '#'); // the Str has its own copy
    whole(g, x, m, "from std::string");
    {
        std::vector<char> buffer(m.begin(), m.end());
        buffer.push_back(0);
        Str y(buffer.data());
        std::fill(buffer.begin(), buffer.end(), '#');
        whole(g, y, chars, "from characters");
    }
    Str copy(x);
    whole(g, copy, m, "copy");
    Str moved(std::move(copy));
    whole(g, moved, m, "moved");
    copy = moved; // a moved-from object takes a new value
    whole(g, copy, m, "assigned after being moved from");
    const std::string other = gen_text(g, a, 200, 20);
    Str target(other);
    target = x;
    whole(g, target, m, "assigned");
    Str second(other);
    second = std::move(target);
    whole(g, second, m, "move-assigned");
    target = Str(other);
    whole(g, target, other, "reassigned after being moved from");
    whole(g, x, m, "the source of the copies");
    x = x;
    whole(g, x, m, "assigned to itself");
    g.require(Str().is_empty() && Str().size() == 0 && show(Str()) == "\"\"", "the default Str is empty");
}

static std::string near(G& g, const std::string& m, const Alphabet& a)
{
    std::string r = m;
    switch (g.below(7))
    {
        case 0: break;
        case 1: r += a.one(g); break;
        case 2: if (!r.empty()) r.pop_back(); break;
        case 3: if (!r.empty()) r[std::size_t(g.below(int(r.size())))] = a.one(g); break;
        case 4: if (!r.empty()) r[std::size_t(g.below(int(r.size())))] ^= char(0x80); break;
        case 5: if (!r.empty()) r.back() = char(r.back() + (g.coin() ? 1 : -1)); break;
        default: r = gen_text(g, a, 40, 6);
    }
    return r;
}

PBT_SUB(order, 4)
{
    const Alphabet a = gen_alphabet(g);
    std::vector<std::string> m{gen_text(g, a, 300, 8)};
    while (m.size() < 3)
    {
        m.push_back(near(g, m[std::size_t(g.below(int(m.size())))], a));
    }
    g.note("texts ", quote(m[0]), " ", quote(m[1]), " ", quote(m[2]));
    g.nontrivial_if(!m[0].empty());
    for (auto& p : m)
    {
        for (auto& q : m)
        {
            const Str x = gen_str_of(g, p), y = gen_str_of(g, q);
            auto want = p <=> q;
            bool ok = (x == y) == (p == q) && (x != y) == (p != q) && (x < y) == (p < q) && (x <= y) == (p <= q) && (x > y) == (p > q) && (x >= y) == (p >= q) && ((x <=> y) == want);
            g.require_f(ok, [&] { return "comparison of " + quote(p) + " and " + quote(q) + " is not that of the texts"; });
            if (p == q)
            {
                g.require(std::hash<Str>{}(x) == std::hash<Str>{}(y), "equal texts have different hashes");
            }
        }
    }
    g.label(m[0] == m[1] ? "equal texts" : "different texts");
}

PBT_SUB(lines, 3)
{
    const Alphabet a = gen_alphabet(g);
    std::string input;
    bool last_ended = true;
    int count = 0;
    for (; g.more(count, 8, 3); ++count)
    {
        std::string line = gen_text(g, a, 300, 8);
        if (g.chance(1, 6))
        {
            line = g.coin() ? " " : "\t x \r";
        }
        last_ended = !g.chance(1, 5);
        input += line + (last_ended ? "\n" : "");
    }
    g.note("input ", quote(input));
    g.nontrivial_if(!input.empty());
    g.label(count == 0 ? "no line" : count == 1 ? "one line" : "several lines");
    std::istringstream in(input), ref(input);
    std::string m = gen_text(g, a, 40, 20); // the old value
    Str x(m);
    for (int k = 0; k <= count + 1; ++k)
    {
        if (g.chance(1, 5)) // something else is read in between
        {
            std::string w, v;
            in >> w;
            ref >> v;
            eqs(g, quote(w), quote(v), "the word between two lines");
            in.clear();
            ref.clear();
        }
        bool good = bool(in >> x);
        bool want = bool(std::getline(ref, m));
        g.require_f(good == want, [&] { return std::string("reading line ") + std::to_string(k) + (good ? " succeeds" : " fails"); });
        whole(g, x, m, "line");
        g.require_f(in.rdstate() == ref.rdstate(), [] { return std::string("stream state after a line"); });
    }
    in.clear();
    ref.clear();
    std::string rest((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    std::string want((std::istreambuf_iterator<char>(ref)), std::istreambuf_iterator<char>());
    eqs(g, quote(rest), quote(want), "the input left");
}

// several variables exchange their texts
PBT_SUB(histories, 4)
{
    const Alphabet a = gen_alphabet(g);
    constexpr int R = 4;
    Str x[R];
    std::string m[R];
    Blind blind(g);
    int steps = 0;
    for (; g.more(steps, 60, 14); ++steps)
    {
        int i = g.below(R), j = g.below(R), k = g.below(8);
        switch (k)
        {
            case 0: m[i] = gen_text(g, a, 200, 20); x[i] = Str(m[i]); break;
            case 1: x[i] = x[j]; m[i] = m[j]; break;
            case 2:
            {
                Str t(std::move(x[i])); // swap
                x[i] = x[j];
                x[j] = t;
                std::swap(m[i], m[j]);
                break;
            }
            case 3:
                if (i != j)
                {
                    std::swap(x[i], x[j]);
                    std::swap(m[i], m[j]);
                }
                break;
            case 4: x[i] = x[i] + x[j]; m[i] = m[i] + m[j]; break;
            case 5: m[i] = gen_text(g, a, 3, 3); m[i] = m[i].c_str(); x[i] = m[i].c_str(); break;
            case 6:
            {
                Str t = x[j];
                t = t + 'x';
                x[i] = std::move(t);
                m[i] = m[j] + 'x';
                break;
            }
            default:
                if (m[i].empty()) break;
                x[i] = x[i].slice(0, x[i].size() / 2); m[i] = m[i].substr(0, m[i].size() / 2);
        }
        if (m[i].size() > 2000)
        {
            m[i] = "";
            x[i] = "";
        }
        g.note("step ", k, " on ", i, " and ", j);
        for (int r = 0; r < R; ++r)
        {
            sames(g, x[r], m[r], "variable");
        }
    }
    Blind::open_eyes();
    for (int r = 0; r < R; ++r)
    {
        whole(g, x[r], m[r], "variable at the end");
    }
    g.nontrivial_if(steps >= 3);
    g.label("history");
}

// C03: precedence and associativity. Unparenthesised operator sequences are executed and compared with the
// precedence-table parser of the model, and with the same program with every grouping written out.
#include "lab.hpp"

static const char* const BIN[] = {"=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "||", "&&", "|", "&", "==", "!=",
                                  ">", ">=", "<", "<=", "+", "-", "*", "/", "%", "^", "?"};
static const int NBIN = sizeof(BIN) / sizeof(BIN[0]);
static const char* const PRE[] = {"-", "!", "+"};
static const char* const VARS[] = {"a", "b", "c", "d", "u", "v"};
static const double VALUES[] = {0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 13, 0.5, 1.5, 2.25, -1, -2, -3, 8, 12, 0.25};
static std::map<std::string, uint64_t> pair_seen;

void harness_init() {}
void harness_done()
{
    R.counters["set_operator_pairs_seen"] = pair_seen.size();
    for (auto& p : pair_seen)
    {
        R.distinct(hash_str("pair" + p.first));
    }
}

static std::string tail(Rng& r, const std::string& op, int depth);
static std::string operand(Rng& r, int depth);

// A chain of operators on one parenthesis level.
static std::string chain(Rng& r, int depth)
{
    std::string s = operand(r, depth);
    for (int n = r.range(1, r.chance(30) ? 3 : 2); n > 0; --n)
    {
        s += tail(r, r.chance(15) ? BIN[r.below(9)] : BIN[9 + r.below((uint32_t) NBIN - 9)], depth);
    }
    return s;
}

static std::string operand(Rng& r, int depth)
{
    std::string s;
    while (r.chance(18))
    {
        s += r.pick(PRE);
        s += " ";
    }
    int k = r.range(0, 19);
    if (depth > 0 && r.chance(18))
    {
        s += "(" + chain(r, depth - 1) + ")";
    }
    else if (k < 12)
    {
        s += r.pick(VARS);
    }
    else if (k < 16)
    {
        s += std::to_string(r.range(0, 9));
    }
    else if (k == 16 && depth > 0)
    {
        s += "(" + operand(r, 0) + BIN[15 + r.below((uint32_t) NBIN - 16)] + operand(r, 0) + ")";
    }
    else if (k == 17)
    {
        s += "gmem[" + std::to_string(r.range(0, 3)) + "]";
    }
    else if (k == 18)
    {
        static const char* const f[] = {"abs", "floor", "sqr", "sign"};
        s += std::string(r.pick(f)) + "(" + r.pick(VARS) + ")";
    }
    else
    {
        s += r.pick(VARS);
    }
    if (r.chance(8))
    {
        s += "[" + (r.chance(40) ? std::string() : std::to_string(r.range(0, 2))) + "]";
    }
    return s;
}

// One operator with its following operand ("?" also brings its ":").
static std::string tail(Rng& r, const std::string& op, int depth)
{
    if (op == "?")
    {
        std::string mid = operand(r, depth);
        if (r.chance(30))
        {
            mid += std::string(BIN[r.below(NBIN - 1)]) + operand(r, 0);
        }
        return " ? " + mid + " : " + operand(r, depth);
    }
    return " " + op + " " + operand(r, depth);
}

static void setup(Lab& lab, Rng r)
{
    for (auto v : VARS)
    {
        lab.set(v, (F) r.pick(VALUES));
    }
    Rng q = r;
    // a few memory slots so that subscripts see distinct numbers
    for (int i = 0; i < 8; ++i)
    {
        F v = (F) q.range(1, 20);
        *lab.mem.at(i) = v;
        *lab.gmem.at(i) = v + 30;
        lab.set("__i", (F) i);
        lab.set("__v", v);
        static const char* fill = "megabuf(__i)=__v;gmegabuf(__i)=__v+30";
        Code c(lab.ctx, fill);
        c.run();
    }
}

static bool one(const std::string& src, uint64_t seed)
{
    R.note("values seed " + std::to_string(seed));
    auto p = parse(src);
    if (!p->ok)
    {
        R.fail("harness:generator", "invalid program generated: " + src);
        return false;
    }
    Lab lab;
    setup(lab, Rng(seed));
    Lab::Result res = lab.check("C03", src, *p);
    if (res != Lab::MATCH)
    {
        return false;
    }
    std::string full = render(*p, p->root, 0);
    Lab lab2;
    setup(lab2, Rng(seed));
    if (lab2.check("C03:grouped", full) == Lab::MATCH)
    {
        R.count("grouping_pairs_compared");
    }
    return true;
}

void harness_case()
{
    Rng& r = R.rng;
    std::string src;
    uint64_t npairs = (uint64_t) NBIN * NBIN;
    std::vector<std::string> ops;
    if (R.case_index < npairs)
    {
        // every ordered pair of operators, several operand values
        std::string o1 = BIN[R.case_index / NBIN], o2 = BIN[R.case_index % NBIN];
        ops = {o1, o2};
        src = "a" + std::string(o1 == "?" ? " ? b : c" : " " + o1 + " b") + (o2 == "?" ? " ? d : u" : " " + o2 + " d");
    }
    else if (R.case_index < npairs + 3 * NBIN * 2)
    {
        // every prefix operator before/after every binary operator
        uint64_t k = R.case_index - npairs;
        std::string pre = PRE[k % 3], o = BIN[(k / 3) % NBIN];
        ops = {pre, o};
        src = k / 3 >= (uint64_t) NBIN ? pre + " a" + (o == "?" ? " ? b : c" : " " + o + " b")
                                       : "a" + (o == "?" ? " ? b : " + pre + " c" : " " + o + " " + pre + " b") + " ^ 2";
    }
    else if (R.case_index < npairs + 6 * NBIN + 2 * npairs)
    {
        // every ordered pair of operators with either grouping written out, a third operator in one of the operands
        uint64_t k = R.case_index - npairs - 6 * NBIN;
        std::string o1 = BIN[(k / 2) / NBIN], o2 = BIN[(k / 2) % NBIN], o3 = BIN[9 + r.below((uint32_t) NBIN - 9)];
        const char* pre = r.chance(20) ? r.pick(PRE) : "";
        auto op = [&](const std::string& l, const std::string& o, const std::string& rr) {
            return o == "?" ? l + " ? " + rr + " : " + r.pick(VARS) : l + " " + o + " " + rr;
        };
        ops = {o1, o2};
        std::string x = r.chance(50) ? "b" : op("b", o3, r.chance(50) ? "c" : "2");
        src = pre + (k % 2 ? op("a", o1, "(" + op(x, o2, "d") + ")") : op("(" + op(r.chance(50) ? "a" : op("a", o3, "u"), o1, "b") + ")", o2, "d"));
    }
    else
    {
        int n = r.range(2, r.chance(20) ? 14 : 6);
        int depth = r.chance(40) ? r.range(2, 3) : 1;
        if (depth > 1)
        {
            n = r.range(1, 3);
        }
        src = operand(r, depth);
        for (int i = 0; i < n; ++i)
        {
            std::string o = r.chance(25) ? BIN[r.below(9)] : BIN[9 + r.below(NBIN - 9)];
            ops.push_back(o);
            src += tail(r, o, depth);
        }
        if (r.chance(20))
        {
            src += ";" + operand(r, 1) + tail(r, BIN[r.below(NBIN)], 1);
        }
    }
    bool any = false;
    int tries = R.case_index < npairs + 6 * NBIN ? 8 : R.case_index < 3 * npairs + 6 * NBIN ? 4 : 2;
    for (int k = 0; k < tries; ++k)
    {
        ++R.evaluations;
        if (one(src, r.u64()))
        {
            any = true;
        }
        if (R.violations)
        {
            return;
        }
    }
    if (any)
    {
        R.distinct(hash_str(src));
        R.sample(src);
        for (size_t i = 0; i + 1 < ops.size(); ++i)
        {
            ++pair_seen[ops[i] + " then " + ops[i + 1]];
        }
    }
}

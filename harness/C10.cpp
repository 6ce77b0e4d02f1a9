// C10: layout, comments, letter case, redundant parentheses, unary plus and semicolons never change whether a text
// compiles nor what it computes (real library against itself); long identifiers are told apart over their whole length.
#include "lab.hpp"

void harness_init() {}
void harness_done() {}

struct World
{
    projectm_eval_context* ctx;
    projectm_eval_mem_buffer g;
    F regs[100];
    std::map<std::string, F*> vars;
    World()
    {
        memset(regs, 0, sizeof regs);
        g = projectm_eval_memory_buffer_create();
        ctx = projectm_eval_context_create(g, &regs);
    }
    ~World()
    {
        projectm_eval_context_destroy(ctx);
        projectm_eval_memory_buffer_destroy(g);
    }
    F& var(const std::string& n)
    {
        auto& p = vars[n];
        if (!p)
        {
            p = projectm_eval_context_register_variable(ctx, n.c_str());
        }
        return *p;
    }
};

struct Outcome
{
    bool compiled = false, finished = true;
    std::vector<double> seen;
};

static const int SLOTS[] = {0, 1, 2, 3, 4, 5, 100, 65535, 65536};

static Outcome outcome(const std::string& src, const std::vector<std::string>& names, uint64_t seed)
{
    Outcome o;
    World w;
    Rng q(seed);
    for (auto& n : names)
    {
        w.var(n) = (F) (q.chance(60) ? q.range(-2, 6) : q.range(-20, 20) * 0.37);
    }
    R.note_more("\n>>> " + src);
    Code c;
    {
        StepGuard g(3000000000ull);
        c.h = projectm_eval_code_compile(w.ctx, src.c_str());
    }
    o.compiled = (bool) c;
    const char* err = projectm_eval_get_error(w.ctx, nullptr, nullptr);
    if (o.compiled == (err != nullptr))
    {
        o.seen.push_back(-12345); // inconsistent error state: reported by comparison
    }
    if (!c)
    {
        return o;
    }
    F v = 0;
    for (int k = 0; k < 2; ++k)
    {
        if (!run_limited(c.h, 20000000, v))
        {
            o.finished = false;
            return o;
        }
        o.seen.push_back((double) v);
        for (auto& n : names)
        {
            o.seen.push_back((double) w.var(n));
        }
        for (int i = 0; i < 100; ++i)
        {
            o.seen.push_back((double) w.regs[i]);
        }
    }
    for (int g = 0; g < 2; ++g)
    {
        for (int s : SLOTS)
        {
            Code p(w.ctx, (g ? "gmegabuf(" : "megabuf(") + std::to_string(s) + ")");
            o.seen.push_back((double) p.run());
        }
    }
    return o;
}

static bool equal(const Outcome& a, const Outcome& b)
{
    if (a.compiled != b.compiled || a.seen.size() != b.seen.size())
    {
        return false;
    }
    for (size_t i = 0; i < a.seen.size(); ++i)
    {
        if (!same_number(a.seen[i], b.seen[i], 1e-12))
        {
            return false;
        }
    }
    return true;
}

// Redundant "+" in front of operands and "( )" around single-token operands; extra semicolons.
static std::vector<std::string> decorate(const std::vector<Token>& toks, Rng& r, bool valid, int& n)
{
    std::vector<std::string> out;
    bool operand = true; // the next token starts an operand
    std::vector<char> nest; // '(' list context, '[' index context
    for (size_t i = 0; toks[i].t != T_EOF; ++i)
    {
        const Token& t = toks[i];
        bool starts = operand && (t.t == T_NUM || t.t == T_VAR || t.t == T_FUNC || t.t == T_GMEM || (t.t == T_LPAR && toks[i + 1].t != T_RPAR));
        if (valid && starts && r.chance(15))
        {
            for (int k = r.range(1, 3); k > 0; --k)
            {
                out.push_back("+");
            }
            ++n;
        }
        if (valid && operand && (t.t == T_NUM || t.t == T_VAR) && r.chance(15))
        {
            int k = r.range(1, 3);
            for (int j = 0; j < k; ++j)
            {
                out.push_back("(");
            }
            out.push_back(t.text);
            for (int j = 0; j < k; ++j)
            {
                out.push_back(")");
            }
            operand = false;
            ++n;
            continue;
        }
        if (t.t == T_SEMI && valid && r.chance(30))
        {
            for (int k = r.range(1, 3); k > 0; --k)
            {
                out.push_back(";");
            }
            ++n;
        }
        if (t.t == T_LPAR || t.t == T_LBR)
        {
            nest.push_back(t.t == T_LPAR ? '(' : '[');
        }
        if (t.t == T_RPAR || t.t == T_RBR)
        {
            if (!nest.empty())
            {
                nest.pop_back();
            }
        }
        if (valid && (t.t == T_RPAR || (t.t == T_COMMA && !nest.empty() && nest.back() == '(')) && !operand && r.chance(15))
        {
            for (int k = r.range(1, 2); k > 0; --k)
            {
                out.push_back(";");
            }
            ++n;
        }
        out.push_back(t.text);
        operand = !(t.t == T_NUM || t.t == T_VAR || t.t == T_RPAR || t.t == T_RBR);
        if (t.t == T_FUNC || t.t == T_GMEM)
        {
            operand = false;
        }
    }
    if (valid && !toks.empty() && toks[0].t != T_EOF && r.chance(30))
    {
        for (int k = r.range(1, 3); k > 0; --k)
        {
            out.push_back(";");
        }
        ++n;
    }
    return out;
}

static void identifiers(Rng& r)
{
    // Names that agree for a long prefix stay different variables, in any letter case.
    int len = r.chance(50) ? r.range(1, 40) : r.range(40, 6000);
    std::string base;
    static const char al[] = "abcdefghijklmnopqrstuvwxyz_0123456789";
    for (int i = 0; i < len; ++i)
    {
        base += al[r.below(i ? 37 : 27)];
    }
    if (len < 12 && r.chance(30))
    {
        static const char* const words[] = {"reg0", "reg1", "reg00", "reg99", "reg001", "reg", "_reg01", "gmem_", "gme", "megabu", "megabuf1", "gmegabufs", "sins", "si", "if_", "loops", "whil", "rand1", "pi", "e", "phi", "x1f", "_a", "__a", "a__b", "a_b", "a1b1"};
        base = r.pick(words);
    }
    if (find_fn(base) || lower(base) == "gmem")
    {
        base += "_q";
    }
    std::string other = near_name(r, base);
    if (find_fn(other) || lower(other) == "gmem" || other == base)
    {
        return;
    }
    Layout l(r);
    World w;
    std::string src = l.swap_case(base) + "=5;" + l.swap_case(other) + "=7;" + l.swap_case(base) + "+=" + l.swap_case(base) + "*10";
    R.note(src);
    Code c(w.ctx, src);
    ++R.evaluations;
    R.count("identifier_pairs");
    if (!c)
    {
        R.fail("C10:identifier rejected", src);
        return;
    }
    c.run();
    F a = *projectm_eval_context_register_variable(w.ctx, l.swap_case(base).c_str());
    F b = *projectm_eval_context_register_variable(w.ctx, l.swap_case(other).c_str());
    if (a != 55 || b != 7)
    {
        R.fail("C10:identifier", src + fmt("\nleaves %g and %g, expected 55 and 7", (double) a, (double) b));
        return;
    }
    R.distinct(hash_str(src));
}

void harness_case()
{
    Rng& r = R.rng;
    R.note("");
    if (r.chance(10))
    {
        identifiers(r);
        return;
    }
    GenOpt o;
    o.regs = true;
    o.lists = true;
    o.loops = r.chance(30);
    o.blockops = true;
    o.max_depth = r.range(2, 5);
    o.vars = {"a", "b", "Long_Variable_Name_1", "x_", "_", "reg1", "i2", "e5", "pi", "e"};
    for (const char* n : {"$PI", "$pi", "$E", "$e", "$PHI", "$phi", "$x1f", "$XaBc", "$'a'", "$'Z'", "$' '", "$'/'", "$'*'", "1e3", "1E-2", "2.5e+1", ".5", "5.", "007", "$x0", "$'''"})
    {
        o.nums.push_back(n);
    }
    Gen g(r, o);
    std::string src = g.program(1, 4);
    bool mutate = r.chance(30);
    auto toks = lex(src);
    if (mutate && toks.size() > 2)
    {
        for (int k = r.range(1, 2); k > 0 && toks.size() > 2; --k)
        {
            size_t i = r.below((uint32_t) toks.size() - 1);
            switch (r.range(0, 2))
            {
                case 0: toks.erase(toks.begin() + (long) i); break;
                case 1: toks.insert(toks.begin() + (long) i, toks[r.below((uint32_t) toks.size() - 1)]); break;
                default: std::swap(toks[i], toks[r.below((uint32_t) toks.size() - 1)]);
            }
        }
        src.clear();
        for (auto& t : toks)
        {
            src += t.text + (t.t == T_EOF ? "" : " ");
        }
    }
    auto p = parse(src);
    std::vector<std::string> names = p->vars;
    for (auto it = names.begin(); it != names.end();)
    {
        int k;
        it = Lab::is_reg(*it, k) ? names.erase(it) : it + 1;
    }
    uint64_t seed = r.u64();
    Outcome a = outcome(src, names, seed);
    if (!a.finished)
    {
        R.count("abandoned_too_much_work");
        return;
    }
    for (int k = 0; k < 3; ++k)
    {
        Layout l(r);
        l.comments = k != 1;
        int decorations = 0;
        std::vector<Token> t2 = p->toks;
        if (k == 2 || r.chance(30))
        {
            auto d = decorate(p->toks, r, p->ok, decorations);
            t2.clear();
            for (auto& s : d)
            {
                Token t;
                t.t = T_VAR;
                t.text = s;
                t2.push_back(t);
            }
        }
        std::string other = l.text(t2);
        if (other.empty())
        {
            R.count("layouts_not_built");
            continue;
        }
        Outcome b = outcome(other, names, seed);
        R.count(a.compiled ? "layout_pairs_compiled" : "layout_pairs_rejected");
        R.count("decorations", (uint64_t) decorations);
        if (!b.finished)
        {
            R.count("abandoned_too_much_work");
            return;
        }
        if (!equal(a, b))
        {
            std::string d;
            for (size_t i = 0; i < a.seen.size() && i < b.seen.size(); ++i)
            {
                if (!same_number(a.seen[i], b.seen[i], 1e-12))
                {
                    d = fmt("observation %zu: ", i) + num(a.seen[i]) + " against " + num(b.seen[i]);
                    break;
                }
            }
            R.fail("C10:layout", "text 1 (" + std::string(a.compiled ? "compiled" : "rejected") + "):\n" + src + "\ntext 2 (" + (b.compiled ? "compiled" : "rejected") + "):\n" + other + "\n" + d);
            return;
        }
        ++R.evaluations;
        R.distinct(hash_str(other));
        R.sample(other);
    }
}

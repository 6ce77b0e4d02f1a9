// C08: compile-time optimisation is invisible. Each program is compared, on the real library, with variants that the
// optimiser cannot touch: literals replaced by variables, list elements protected from removal. Both are also
// compared with the (never optimising) model, over several executions with changing state.
#include "lab.hpp"

void harness_init() {}
void harness_done() {}

static MtStream stream;

struct World
{
    projectm_eval_context* ctx;
    projectm_eval_mem_buffer g;
    F regs[100];
    std::map<std::string, F*> vars;
    Code pm, pg;
    F* pi;
    World()
    {
        memset(regs, 0, sizeof regs);
        g = projectm_eval_memory_buffer_create();
        ctx = projectm_eval_context_create(g, &regs);
        pi = projectm_eval_context_register_variable(ctx, "__p");
        pm.h = projectm_eval_code_compile(ctx, "megabuf(__p)");
        pg.h = projectm_eval_code_compile(ctx, "gmegabuf(__p)");
    }
    ~World()
    {
        {
            Code a(std::move(pm)), b(std::move(pg));
        }
        projectm_eval_context_destroy(ctx);
        projectm_eval_memory_buffer_destroy(g);
    }
    F& var(const std::string& n)
    {
        auto& p = vars[n];
        if (!p)
        {
            p = projectm_eval_context_register_variable(ctx, n.c_str());
        }
        return *p;
    }
    F mem(bool global, int i)
    {
        *pi = (F) i;
        return global ? pg.run() : pm.run();
    }
};

// (the same library computes both, so they agree to the last bit)
static bool identical(double a, double b) { return same_number(a, b, 0); }

// Compares the observable state of two worlds.
static std::string compare(World& a, World& b, const std::vector<std::string>& names)
{
    for (auto& n : names)
    {
        if (!identical((double) a.var(n), (double) b.var(n)))
        {
            return "variable " + n + ": " + num((double) a.var(n)) + " against " + num((double) b.var(n));
        }
    }
    for (int i = 0; i < 100; ++i)
    {
        if (!identical((double) a.regs[i], (double) b.regs[i]))
        {
            return fmt("reg%02d: %s against %s", i, num((double) a.regs[i]).c_str(), num((double) b.regs[i]).c_str());
        }
    }
    static const int slots[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 100, 101, 65535, 65536};
    for (int g = 0; g < 2; ++g)
    {
        for (int s : slots)
        {
            if (!identical((double) a.mem(g, s), (double) b.mem(g, s)))
            {
                return fmt("%s[%d]: %s against %s", g ? "gmem" : "megabuf", s, num((double) a.mem(g, s)).c_str(), num((double) b.mem(g, s)).c_str());
            }
        }
    }
    return "";
}

// Literals become the value of a variable (as a non-assignable expression).
static std::string literals_to_variables(const std::vector<Token>& toks, std::vector<std::pair<std::string, F>>& consts)
{
    std::string s;
    for (auto& t : toks)
    {
        if (t.t == T_EOF)
        {
            break;
        }
        if (t.t == T_NUM)
        {
            std::string n = "lit" + std::to_string(consts.size());
            consts.push_back({n, t.val});
            s += "(" + n + "+0)";
        }
        else
        {
            s += t.text;
        }
        s += " ";
    }
    return s;
}

// Every list element but the last becomes an assignment, which must not be dropped.
static void protect(Parse& p, Node* n, int zz)
{
    for (auto* c : n->a)
    {
        protect(p, c, zz);
    }
    if (n->k == Node::LIST)
    {
        for (size_t i = 0; i + 1 < n->a.size(); ++i)
        {
            p.arena.emplace_back();
            Node* v = &p.arena.back();
            v->k = Node::VAR;
            v->var = zz;
            v->name = "zz";
            p.arena.emplace_back();
            Node* s = &p.arena.back();
            s->k = Node::CALL;
            s->f = F_SET;
            s->op = T_SET;
            s->a = {v, n->a[i]};
            n->a[i] = s;
        }
    }
}

static bool has_dropped_rand(const Node* n, bool dropped)
{
    if (n->k == Node::CALL && n->f == F_RAND && dropped)
    {
        return true;
    }
    for (size_t i = 0; i < n->a.size(); ++i)
    {
        bool d = dropped || (n->k == Node::LIST && i + 1 < n->a.size());
        if (has_dropped_rand(n->a[i], d))
        {
            return true;
        }
    }
    return false;
}

static std::string list_heavy(Rng& r, Gen& g, int depth)
{
    int n = r.range(2, 5);
    std::string s;
    for (int i = 0; i < n; ++i)
    {
        std::string e;
        switch (r.range(0, 7))
        {
            case 0: e = g.leaf(); break;
            case 1: e = "(" + (depth > 0 ? list_heavy(r, g, depth - 1) : g.expr(1)) + ")"; break;
            case 2: e = "if(" + g.leaf() + "," + (depth > 0 ? list_heavy(r, g, depth - 1) : g.expr(1)) + "," + g.expr(1) + ")"; break;
            case 3: e = "exec2(" + g.expr(1) + "," + (depth > 0 ? list_heavy(r, g, depth - 1) : g.expr(1)) + ")"; break;
            case 4: e = "loop(" + g.leaf() + "," + (depth > 0 ? list_heavy(r, g, depth - 1) : g.expr(1)) + ")"; break;
            case 5: e = r.pick(g.o.vars) + "=" + g.expr(1); break;
            default: e = g.expr(2); break;
        }
        s += (i ? ";" : "") + e;
        if (r.chance(15))
        {
            s += ";";
        }
    }
    return s;
}

static const char* const NAMES[] = {"a", "b", "c", "x"};

static void fill(World& w, Rng& r)
{
    for (auto n : NAMES)
    {
        w.var(n) = (F) (r.chance(60) ? r.range(-2, 5) : r.range(-20, 20) * 0.37);
    }
    for (int i = 0; i < 5; ++i)
    {
        w.regs[i] = (F) r.range(-3, 9);
    }
}

void harness_case()
{
    Rng& r = R.rng;
    ++R.evaluations;
    R.note("");
    GenOpt o;
    o.regs = true;
    o.lists = true;
    o.loops = true;
    o.blockops = r.chance(40);
    o.freembuf = r.chance(20);
    o.const_percent = r.chance(50) ? 85 : 50;
    o.rand = r.chance(25);
    o.max_depth = r.range(2, 5);
    o.loops = r.chance(70);
    o.odd_percent = o.loops ? 0 : 20;
    for (const char* n : {"1e-6", "0.00001", "65536", "-1", "$PI", "$x1F", "1e9", "8388608", "1e-160", "1e-155", "3e-310", "1e-300", "1e160", "1e300"})
    {
        if (r.chance(30) && !(o.loops && lex(n)[0].val > 60000))
        {
            o.nums.push_back(std::string(n)[0] == '-' ? "(" + std::string(n) + ")" : n);
        }
    }
    o.idx = {"0", "1", "2", "100", "65535"};
    for (const char* n : {"sqrt", "log", "log10", "exp", "asin", "acos", "tan", "invsqrt"})
    {
        o.fns1.push_back(n);
    }
    for (const char* n : {"pow", "atan2", "_mod", "_and", "_or"})
    {
        o.fns2.push_back(n);
    }
    if (o.rand)
    {
        for (int i = 0; i < 4; ++i)
        {
            o.fns1.push_back("rand");
        }
    }
    Gen g(r, o);
    if (o.rand)
    {
        g.o.lists = false;
        g.o.rand = true;
    }
    std::string src = r.chance(50) ? list_heavy(r, g, 2) : g.program(1, 4);
    if (o.rand)
    {
        src.clear();
        for (int i = r.range(1, 4); i > 0; --i)
        {
            src += r.pick(o.vars) + "=" + (r.chance(60) ? "rand(" + g.leaf() + ")" + r.pick(std::vector<std::string>{"+", "*", "-"}) : "") + g.expr(3) + (i > 1 ? ";" : "");
        }
    }
    auto p = parse(src);
    if (!p->ok)
    {
        R.fail("harness:generator", "invalid program generated: " + src);
        return;
    }
    bool uses_rand = false;
    for (auto& t : p->toks)
    {
        uses_rand = uses_rand || (t.t == T_FUNC && lower(t.text) == "rand");
    }
    if (uses_rand && p->root && has_dropped_rand(p->root, false))
    {
        R.count("skipped_rand_in_list");
        return;
    }
    uint64_t state_seed = r.u64();

    // 1. against the model, several executions of one handle with changing state
    {
        Lab lab;
        Rng q(state_seed);
        lab.mt = &stream;
        lab.max_steps = 60000;
        for (auto n : NAMES)
        {
            lab.set(n, (F) (q.chance(60) ? q.range(-2, 5) : q.range(-20, 20) * 0.37));
        }
        Env probe;
        MtStream saved = stream;
        lab.bind(*p, probe);
        for (auto& n : p->vars)
        {
            lab.var(n);
        }
        R.note_more("\n>>> " + src);
        Code c;
        {
            StepGuard guard(4000000000ull);
            c.h = projectm_eval_code_compile(lab.ctx, src.c_str());
        }
        if (!c)
        {
            R.fail("C08:rejected", src);
            return;
        }
        int runs = r.range(1, 4);
        for (int k = 0; k < runs; ++k)
        {
            Env e;
            lab.bind(*p, e);
            saved = stream;
            F want;
            if (!run_model(*p, e, want))
            {
                stream = saved;
                R.count(e.toolong ? "skipped_toolong" : "skipped_unspecified");
                if (e.toolong)
                {
                    return; // too much work for the real comparison, too
                }
                break;
            }
            F got;
            {
                StepGuard guard(20000000 + e.steps * 400);
                got = c.run();
            }
            R.count("executions_compared_with_model");
            std::string d = same_number((double) got, (double) want) ? lab.diff() : "result is " + num((double) got) + ", expected " + num((double) want);
            if (!d.empty())
            {
                R.fail("C08:model", fmt("execution %d of\n", k + 1) + src + "\n" + d);
                return;
            }
            for (auto n : NAMES)
            {
                if (r.chance(50))
                {
                    lab.set(n, (F) r.range(-3, 6));
                }
            }
            lab.regs_real[r.range(0, 4)] = 0;
            for (int i = 0; i < 100; ++i)
            {
                lab.regs_model[i] = lab.regs_real[i];
            }
        }
    }
    if (uses_rand)
    {
        R.distinct(hash_str(src));
        R.count("rand_programs");
        return;
    }

    // 2. real library against itself: literal and protected variants
    for (int variant = 0; variant < 2; ++variant)
    {
        std::vector<std::pair<std::string, F>> consts;
        std::string other;
        if (variant == 0)
        {
            other = literals_to_variables(p->toks, consts);
        }
        else
        {
            auto q = parse(src);
            int zz = (int) q->vars.size();
            q->vars.push_back("zz");
            if (q->root)
            {
                protect(*q, q->root, zz);
                other = render(*q, q->root, 0);
            }
        }
        World a, b;
        Rng q1(state_seed), q2(state_seed);
        fill(a, q1);
        fill(b, q2);
        for (auto& c : consts)
        {
            b.var(c.first) = c.second;
        }
        R.note_more("\n>>> against\n" + other);
        Code ca, cb;
        {
            StepGuard guard(4000000000ull);
            ca.h = projectm_eval_code_compile(a.ctx, src.c_str());
            cb.h = projectm_eval_code_compile(b.ctx, other.c_str());
        }
        if (!ca || !cb)
        {
            R.fail("C08:variant rejected", src + "\n" + other);
            return;
        }
        for (int k = 0; k < 3; ++k)
        {
            F va = 0, vb = 0;
            if (!run_limited(ca.h, 20000000, va) || !run_limited(cb.h, 200000000, vb))
            {
                R.count("abandoned_too_much_work");
                return;
            }
            double ra = (double) va, rb = (double) vb;
            R.count(variant ? "protected_list_comparisons" : "literal_variable_comparisons");
            std::vector<std::string> names(NAMES, NAMES + 4);
            std::string d = identical(ra, rb) ? compare(a, b, names) : "results " + num(ra) + " against " + num(rb);
            if (!d.empty())
            {
                R.fail(variant ? "C08:list element" : "C08:literal", fmt("execution %d\n", k + 1) + src + "\nagainst\n" + other + "\n" + d);
                return;
            }
            uint64_t s = r.u64();
            Rng s1(s), s2(s);
            fill(a, s1);
            fill(b, s2);
        }
    }
    R.distinct(hash_str(src));
    R.sample(src);
}

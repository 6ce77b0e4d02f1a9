// C09, purity: handles executed in a few states which come back again and again, some of them almost equal, in any order and
// by several handles (of the same and of other texts). In the same state every text gives exactly the same, to the last bit.
#include "lab.hpp"
#include "gen.hpp"

void harness_init() {}
void harness_done() {}

static const char* const VARS[] = {"a", "b", "c", "d"};
static const int64_t SLOTS[] = {0, 1, 2, 3, 65535, 65536, 8388607};

struct State
{
    F v[4], reg[5], mem[7], gmem[7];
};

struct Poke
{
    Code m, g;
    F *p, *q;
    explicit Poke(projectm_eval_context* c)
        : m(c, "megabuf(__p)=__q")
        , g(c, "gmegabuf(__p)=__q")
        , p(projectm_eval_context_register_variable(c, "__p"))
        , q(projectm_eval_context_register_variable(c, "__q"))
    {
    }
    void operator()(bool global, int64_t i, F v)
    {
        *p = (F) i;
        *q = v;
        (global ? g : m).run();
    }
};

static F ordinary_number(Rng& r)
{
    switch (r.range(0, 5))
    {
        case 0: return (F) r.range(0, 4);
        case 1: return (F) (r.range(-40, 40) * 0.25);
        case 2: return (F) (r.unit() * 10);
        case 3: return (F) (r.unit() * 2000 - 1000);
        case 4: return (F) std::exp(r.unit() * 20 - 10);
        default: return (F) r.range(-3, 70000);
    }
}

static State random_state(Rng& r)
{
    State s;
    for (F& x : s.v) { x = ordinary_number(r); }
    for (F& x : s.reg) { x = ordinary_number(r); }
    for (F& x : s.mem) { x = r.chance(30) ? 0 : ordinary_number(r); }
    for (F& x : s.gmem) { x = r.chance(30) ? 0 : ordinary_number(r); }
    return s;
}

static State near_state(Rng& r, State s)
{
    for (int n = r.range(1, 3); n > 0; --n)
    {
        F& x = r.chance(70) ? s.v[r.below(4)] : r.chance(50) ? s.reg[r.below(5)] : r.chance(50) ? s.mem[r.below(7)] : s.gmem[r.below(7)];
        static const double step[] = {1e-15, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3};
        switch (r.range(0, 3))
        {
            case 0: x = std::nextafter(x, r.chance(50) ? (F) 1e30 : (F) -1e30); break;
            case 1: x = -x; break;
            case 2: x += (F) (r.pick(step) * (r.chance(50) ? 1 : -1)); break;
            default: x *= (F) (1 + r.pick(step) * (r.chance(50) ? 1 : -1)); break;
        }
        if (std::fabs((double) x) < 1e-9)
        {
            x = 0;
        }
    }
    return s;
}

static std::vector<F> observe(Lab& lab, F result)
{
    std::vector<F> o{result};
    for (const char* n : VARS) { o.push_back(*lab.var(n).first); }
    for (F x : lab.regs_real) { o.push_back(x); }
    for (bool g : {false, true})
    {
        for (int64_t i : SLOTS) { o.push_back(lab.peek(g, i)); }
    }
    return o;
}

static bool bits(F a, F b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan((double) a) && std::isnan((double) b)); }

static std::string text(Rng& r, Gen& g)
{
    if (r.chance(50))
    {
        return g.program(1, 3);
    }
    // one function or operator applied to what differs between the states
    static const char* const args[] = {"a", "b", "c", "d", "reg00", "reg01", "megabuf(1)", "gmem[2]", "a*b", "a+reg02", "2", "0.5", "c-d", "-a"};
    if (r.chance(70))
    {
        const FnInfo* f;
        do
        {
            f = &r.pick(fn_table);
        } while (f->f == F_RAND || f->f == F_WHILE || f->f == F_LOOP || std::string(f->name).compare(0, 3, "mem") == 0);
        std::string s = std::string(f->name) + "(";
        for (int i = 0; i < f->argc; ++i)
        {
            s += std::string(i ? "," : "") + r.pick(args);
        }
        s += ")";
        return r.chance(50) ? s : "d=" + s + r.pick(std::vector<std::string>{"", "*2", "+a", ";b+=d"});
    }
    static const char* const ops[] = {"+", "-", "*", "/", "%", "^", "|", "&", "==", "!=", "<", ">", "<=", ">=", "&&", "||"};
    return r.pick(args) + std::string(r.pick(ops)) + r.pick(args) + r.pick(ops) + r.pick(args);
}

void harness_case()
{
    Rng& r = R.rng;
    GenOpt o;
    o.vars = {"a", "b", "c", "d"};
    o.regs = o.lists = true;
    o.loops = r.chance(30);
    o.blockops = r.chance(30);
    o.idx = {"0", "1", "2", "3", "65535", "65536", "8388607"};
    o.max_depth = r.range(1, 4);
    o.odd_percent = r.chance(30) ? 20 : 0;
    Gen g(r, o);
    Lab lab;
    for (const char* n : VARS) { lab.var(n); }
    struct Program
    {
        std::string src;
        std::shared_ptr<Parse> keep;
        std::vector<Code> handles;
        std::map<int, std::pair<std::vector<F>, std::string>> seen; // per state: what was observed and after which steps
    };
    std::string log;
    std::vector<Program> ps((size_t) r.range(1, 3));
    for (auto& p : ps)
    {
        p.src = text(r, g);
        auto parsed = parse(p.src);
        if (!parsed->ok)
        {
            R.fail("harness:generator", "invalid program generated: " + p.src);
            return;
        }
        for (int n = r.range(1, 2); n > 0; --n)
        {
            p.handles.emplace_back(lab.ctx, p.src);
            if (!p.handles.back())
            {
                R.fail("C09:rejected", p.src);
                return;
            }
        }
        log += "text: " + p.src + "\n";
    }
    Poke poke(lab.ctx);
    std::vector<State> states{random_state(r)};
    for (int n = r.range(1, 4); n > 0; --n)
    {
        states.push_back(r.chance(75) ? near_state(r, states[r.below((uint32_t) states.size())]) : random_state(r));
    }
    std::set<int64_t> dirty[2];
    int steps = r.range(8, 24);
    for (int k = 0; k < steps; ++k)
    {
        Program& p = ps[r.below((uint32_t) ps.size())];
        int si = (int) r.below((uint32_t) states.size());
        const State& s = states[(size_t) si];
        // bring the library and the model into the state
        for (int i = 0; i < 4; ++i) { lab.set(VARS[i], s.v[i]); }
        for (int i = 0; i < 100; ++i) { lab.regs_real[i] = lab.regs_model[i] = i < 5 ? s.reg[i] : (F) 0; }
        for (bool gl : {false, true})
        {
            for (int64_t i : dirty[gl]) { poke(gl, i, 0); }
            Memory& m = gl ? lab.gmem : lab.mem;
            m.clear();
            for (int i = 0; i < 7; ++i)
            {
                F x = gl ? s.gmem[i] : s.mem[i];
                poke(gl, SLOTS[i], x);
                *m.at(SLOTS[i]) = x;
            }
        }
        auto parsed = parse(p.src);
        Env e;
        e.fragile_check = true;
        e.fragile_rel = 1e-13;
        lab.bind(*parsed, e);
        F want;
        if (!run_model(*parsed, e, want) || e.fragile)
        {
            R.count("skipped_unspecified");
            return; // which slots it writes isn't known
        }
        for (bool gl : {false, true})
        {
            for (auto& page : (gl ? lab.gmem : lab.mem).pages)
            {
                for (int j = 0; j < 64; ++j)
                {
                    F x = (*page.second)[(size_t) j];
                    if (x != 0 || std::signbit(x)) // a negative zero isn't what the slot was, too
                    {
                        dirty[gl].insert(page.first * 64 + j);
                    }
                }
            }
        }
        bool fresh = r.chance(20);
        Code again;
        projectm_eval_code* h = p.handles[r.below((uint32_t) p.handles.size())].h;
        if (fresh)
        {
            again.h = projectm_eval_code_compile(lab.ctx, p.src.c_str());
            h = again.h;
        }
        log += fmt("state %d, %s%s\n", si, fresh ? "freshly compiled " : "", p.src.c_str());
        R.note(log);
        F got;
        {
            StepGuard guard(50000000 + e.steps * 400);
            got = projectm_eval_code_execute(h);
        }
        ++R.evaluations;
        R.count("executions_in_recurring_states");
        auto seen = observe(lab, got);
        auto it = p.seen.find(si);
        if (it == p.seen.end())
        {
            p.seen[si] = {seen, fmt("step %d", k + 1)};
            continue;
        }
        R.count("observations_compared_bit_by_bit", seen.size());
        for (size_t i = 0; i < seen.size(); ++i)
        {
            if (!bits(seen[i], it->second.first[i]))
            {
                std::string st;
                for (int j = 0; j < 4; ++j) { st += std::string(VARS[j]) + "=" + num((double) s.v[j]) + " "; }
                std::string what = i == 0 ? "the result" : i <= 4 ? std::string("variable ") + VARS[i - 1] : i <= 104 ? fmt("reg%02d", (int) i - 5) : fmt("%s[%lld]", i <= 111 ? "megabuf" : "gmegabuf", (long long) SLOTS[(i - 105) % 7]);
                R.fail("C09:state repeated", log + fmt("==> in the same state (%s) %s was ", st.c_str(), what.c_str()) + num((double) it->second.first[i]) + " in " + it->second.second + ", now it's " + num((double) seen[i]));
                return;
            }
        }
        R.distinct(hash_str(p.src) ^ hash_str(num((double) got)));
    }
}

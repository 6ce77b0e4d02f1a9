// C23: rand() against an independent MT19937 over the whole life of the process: many contexts, handles, argument
// kinds, compilations, resets and thousands of draws. One model stream per process, never resynchronised.
#include "lab.hpp"

static MtStream stream;
static uint64_t draws;
static std::set<std::string> kinds;

static uint32_t next()
{
    ++draws;
    return stream.next();
}

void harness_init() {}
void harness_done()
{
    R.counters["max_generator_periods_of_624_in_one_process"] = draws / 624;
    R.counters["draws_compared"] = draws;
    R.counters["set_argument_kinds"] = kinds.size();
}

static double bound(double n)
{
    double m = std::floor(n);
    return m < 1 ? 1 : m;
}

struct Arg
{
    std::string text;
    double v;
    std::string kind;
};

static Arg argument(Rng& r)
{
    switch (r.range(0, 13))
    {
        case 0: return {"0", 0, "zero"};
        case 1: return {"1", 1, "one"};
        case 2: return {"0.5", 0.5, "below one"};
        case 3: return {"1.999", 1.999, "below two"};
        case 4: return {"-5", -5, "negative"};
        case 5: return {"-0.5", -0.5, "negative fraction"};
        case 6: return {"2147483648", 2147483648.0, "2^31"};
        case 7: return {"4294967296", 4294967296.0, "2^32"};
        case 8: return {"1000000000000000000000000000000", 1e30, "huge"};
        case 9: return {"-1000000000000000000000000000000", -1e30, "negative huge"};
        case 10: {
            int n = r.range(2, 100000);
            return {std::to_string(n), (double) n, "integer"};
        }
        case 11: {
            double n = r.range(1, 1000) + 0.75;
            return {fmt("%.2f", n), n, "fraction"};
        }
        case 12: return {"100", 100, "100"};
        default: return {"10", 10, "10"};
    }
}

static bool expect(const std::string& src, double got, double n, const char* kind)
{
    double want = (double) (F) (next() * (1.0 / 4294967295.0) * (double) (F) bound(n));
    ++R.evaluations;
    R.distinct(hash_str(src + num(got)));
    kinds.insert(kind);
    if (!same_number(got, want, sizeof(F) == 4 ? 1e-6 : 1e-12))
    {
        R.fail("C23:value", src + fmt("\ndraw %llu of the process returned ", (unsigned long long) draws) + num(got) + ", the generator's value scaled to the argument is " + num(want));
        return false;
    }
    if (!(got >= 0) || !(got <= bound(n)))
    {
        R.fail("C23:range", src + "\nreturned " + num(got) + ", outside [0, " + num(bound(n)) + "]");
        return false;
    }
    return true;
}

static void direct(Rng& r)
{
    static F regs[100];
    projectm_eval_context* c[2] = {projectm_eval_context_create(nullptr, r.chance(50) ? &regs : nullptr), projectm_eval_context_create(nullptr, nullptr)};
    struct H
    {
        Code code;
        Arg a;
        int ctx;
        std::string src;
        int form;
    };
    std::vector<H> hs;
    F* n[2] = {projectm_eval_context_register_variable(c[0], "n"), projectm_eval_context_register_variable(c[1], "n")};
    F* o[2] = {projectm_eval_context_register_variable(c[0], "out"), projectm_eval_context_register_variable(c[1], "out")};
    auto add = [&] {
        Arg a = argument(r);
        int form = r.range(0, 7), k = r.range(0, 1);
        static const char* const f[] = {"rand(%s)", "rand(n)", "out=rand(%s);n", "1;2;rand(%s)", "if(1,rand(%s),rand(77))", "rand(%s)+rand(n)", "loop(5,out=rand(%s))", "0&&rand(3);1||rand(3);RAND(%s)"};
        std::string s = f[form];
        size_t p = s.find("%s");
        if (p != std::string::npos)
        {
            s.replace(p, 2, a.text);
        }
        hs.push_back({Code(c[k], s), a, k, s, form});
        R.note_more(s + "\n");
        if (!hs.back().code)
        {
            R.fail("C23:rejected", s);
            return false;
        }
        return true;
    };
    for (int i = 0; i < 3; ++i)
    {
        if (!add())
        {
            return;
        }
    }
    int steps = r.range(30, 200);
    bool ok = true;
    for (int i = 0; i < steps && ok; ++i)
    {
        switch (r.range(0, 14))
        {
            case 0:
                if (hs.size() < 12)
                {
                    ok = add();
                }
                continue;
            case 1: projectm_eval_code_compile(c[0], "rand(1"); R.count("compilations_between_draws"); continue;
            case 2: projectm_eval_context_reset_variables(c[r.range(0, 1)]); R.count("resets_between_draws"); continue;
            case 3: projectm_eval_context_free_memory(c[r.range(0, 1)]); R.count("resets_between_draws"); continue;
            case 4: {
                projectm_eval_context* t = projectm_eval_context_create(nullptr, nullptr);
                Code x(t, "rand(10)");
                if (r.chance(50))
                {
                    double g = (double) x.run();
                    ok = expect("rand(10) in a new context", g, 10, "new context");
                }
                {
                    Code y(std::move(x));
                }
                projectm_eval_context_destroy(t);
                R.count("contexts_between_draws");
                continue;
            }
            case 5: {
                // non-finite argument: consumes one value, result not specified
                H* h = nullptr;
                for (auto& x : hs)
                {
                    if (x.form == 1)
                    {
                        h = &x;
                    }
                }
                if (h)
                {
                    *n[h->ctx] = (F) (r.chance(50) ? NAN : INFINITY);
                    h->code.run();
                    next();
                    R.count("non_finite_arguments");
                }
                continue;
            }
            default: break;
        }
        H& h = hs[r.below((uint32_t) hs.size())];
        Arg v = argument(r);
        double nv = (double) (F) v.v;
        *n[h.ctx] = (F) v.v;
        R.note_more("run " + h.src + "\n");
        double g = (double) h.code.run();
        switch (h.form)
        {
            case 1: ok = expect(h.src + " n=" + v.text, g, nv, ("variable " + v.kind).c_str()); break;
            case 2: ok = expect(h.src, (double) *o[h.ctx], h.a.v, h.a.kind.c_str()); break;
            case 5: {
                double w = (double) (F) (next() * (1.0 / 4294967295.0) * (double) (F) bound(h.a.v));
                double w2 = (double) (F) (next() * (1.0 / 4294967295.0) * (double) (F) bound(nv));
                ++R.evaluations;
                if (!same_number(g, (double) (F) (w + w2), 1e-6))
                {
                    R.fail("C23:sum", h.src + " n=" + v.text + " is " + num(g) + ", expected " + num(w + w2) + " from two consecutive values of the generator");
                    ok = false;
                }
                break;
            }
            case 6:
                for (int k = 0; k < 4; ++k)
                {
                    next();
                }
                ok = expect(h.src, (double) *o[h.ctx], h.a.v, ("loop " + h.a.kind).c_str());
                break;
            default: ok = expect(h.src, g, h.a.v, h.a.kind.c_str());
        }
    }
    for (auto& h : hs)
    {
        Code x(std::move(h.code));
    }
    projectm_eval_context_destroy(c[0]);
    projectm_eval_context_destroy(c[1]);
    R.sample(hs.back().src);
}

static void programs(Rng& r)
{
    Lab lab;
    lab.mt = &stream;
    GenOpt o;
    o.rand = true;
    o.loops = r.chance(50);
    o.lists = false;
    o.fns1 = {"rand", "rand", "rand", "abs", "floor", "sign", "sqr"};
    o.nums = {"0", "1", "2", "3", "10", "100", "0.5", "7.75"};
    o.max_depth = r.range(1, 4);
    Gen g(r, o);
    Code draw_one(lab.ctx, "rand(1000000)");
    for (auto v : {"a", "b", "c", "x"})
    {
        lab.set(v, (F) r.range(-5, 30));
    }
    for (int i = 0; i < 4; ++i)
    {
        std::string s = g.expr(r.range(1, 4));
        while (s.find(';') != std::string::npos)
        {
            // Whether rand() is called at positions whose value is discarded isn't specified.
            s = g.expr(r.range(1, 4));
        }
        if (s.find("rand") == std::string::npos)
        {
            s = "rand(" + s + ")" + (r.chance(50) ? "-rand(3)" : "");
        }
        MtStream before = stream;
        ++R.evaluations;
        auto res = lab.check("C23", s);
        if (res == Lab::SKIP)
        {
            stream = before;
            return;
        }
        if (res == Lab::BAD)
        {
            return;
        }
        R.count("programs_compared");
        R.distinct(hash_str(s));
        if (!expect("rand(1000000) after\n" + s, (double) draw_one.run(), 1000000, "after a program"))
        {
            return;
        }
    }
}

// Very many draws in one execution.
static void long_run(Rng& r)
{
    Lab lab;
    int k = 1 << r.range(8, 20);
    k = std::min(1048576, k + r.range(-2, 2));
    Arg a = argument(r);
    int form = r.range(0, 3);
    static const char* const f[] = {"last=0;loop(%d,last=rand(%s));last", "n=0;while(last=rand(%s);(n+=1)<%d);last", "last=0;loop(%d,last=rand(%s)+0*rand(5));last", "last=0;loop(%d,if(1,last=rand(%s),0));last"};
    std::string s = f[form];
    std::string num_k = std::to_string(k);
    s.replace(s.find("%s"), 2, a.text);
    s.replace(s.find("%d"), 2, num_k);
    R.note(s);
    Code c(lab.ctx, s);
    if (!c)
    {
        R.fail("C23:rejected", s);
        return;
    }
    double got = (double) c.run();
    for (int i = 0; i < k - 1; ++i)
    {
        next();
        if (form == 2)
        {
            next();
        }
    }
    R.count("long_runs");
    bool ok = expect(s, got, a.v, "long run");
    if (form == 2)
    {
        next();
    }
    if (ok)
    {
        Code d(lab.ctx, "rand(1000000)");
        expect("rand(1000000) after\n" + s, (double) d.run(), 1000000, "after a long run");
    }
}

void harness_case()
{
    R.note("");
    if (R.rng.below(1000) < 4)
    {
        long_run(R.rng);
        return;
    }
    if (R.rng.chance(60))
    {
        direct(R.rng);
    }
    else
    {
        programs(R.rng);
    }
}

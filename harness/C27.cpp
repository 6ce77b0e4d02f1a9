// C27: linked with the library as its CMake project builds it in one configuration. Programs are compared with the model
// using the configuration's number type. What rounding can change is found by evaluating the model several times with
// random rounding noise: results may differ by that much (not at all where every step is exactly rounded), and programs
// whose outcome rounding can change fundamentally are not judged.
#include "gen.hpp"
#include "texts.hpp"
#ifdef HK_SHIM
#include "ns-eel.h"
#endif

#ifndef EXPECTED_SIZE
#define EXPECTED_SIZE 8
#define FAST_MATH 0
#endif

static MtStream stream;
static std::set<std::string> fns;
static const int64_t SLOTS[] = {0, 1, 2, 3, 4, 5, 65535, 65536, 8388607};

void harness_init()
{
    for (auto t : seeds)
    {
        corpus.push_back(t);
    }
    // The number types of the API and the shim.
    if (sizeof(PRJM_EVAL_F) != EXPECTED_SIZE)
    {
        R.fail("C27:size", fmt("PRJM_EVAL_F has %zu bytes for users of the library, %d are configured", sizeof(PRJM_EVAL_F), EXPECTED_SIZE));
    }
#ifdef HK_SHIM
    if (sizeof(EEL_F) != EXPECTED_SIZE)
    {
        R.fail("C27:size", fmt("EEL_F has %zu bytes for users of the shim, %d are configured", sizeof(EEL_F), EXPECTED_SIZE));
    }
#endif
}

void harness_done() { R.counters["set_functions_and_operators_compared"] = fns.size(); }

// Everything the model knows, re-creatable from the start.
struct Sim
{
    std::map<std::string, F> vars;
    F regs[100];
    Memory mem, gmem;
    MtStream mt;
    std::vector<double> obs;
    std::vector<std::string> names;
    uint64_t steps = 0;
    std::set<std::string> used;

    Sim(const std::map<std::string, F>& init, const MtStream& m)
        : vars(init)
        , mt(m)
    {
        memset(regs, 0, sizeof regs);
    }

    F* var(const std::string& n)
    {
        if (n.size() == 5 && n.compare(0, 3, "reg") == 0 && isdigit((unsigned char) n[3]) && isdigit((unsigned char) n[4]))
        {
            return &regs[(n[3] - '0') * 10 + n[4] - '0'];
        }
        return &vars[n];
    }

    bool run(const std::vector<std::unique_ptr<Parse>>& ps, double noise, Rng* nr)
    {
        obs.clear();
        names.clear();
        for (size_t i = 0; i < ps.size(); ++i)
        {
            Env e;
            for (auto& n : ps[i]->vars)
            {
                e.vars.push_back(var(n));
            }
            e.mem = &mem;
            e.gmem = &gmem;
            e.mt = &mt;
            e.max_steps = 20000;
            e.noise = noise;
            e.noise_ieee = FAST_MATH;
            e.noise_rng = nr;
            F r;
            if (!run_model(*ps[i], e, r))
            {
                return false;
            }
            steps += e.steps;
            for (int f = 0; f < F_COUNT; ++f)
            {
                if (e.fn_count[f])
                {
                    used.insert(std::to_string(f));
                }
            }
            auto add = [&](const std::string& n, F v) {
                obs.push_back((double) v);
                names.push_back(fmt("program %zu: ", i + 1) + n);
            };
            add("result", r);
            for (auto& v : vars)
            {
                add(v.first, v.second);
            }
            for (int k = 0; k < 5; ++k)
            {
                add(fmt("reg%02d", k), regs[k]);
            }
            for (int64_t s : SLOTS)
            {
                add(fmt("megabuf(%lld)", (long long) s), mem.get(s));
                add(fmt("gmegabuf(%lld)", (long long) s), gmem.get(s));
            }
        }
        return true;
    }
};

// The real library: the same observations.
static bool real(const std::vector<std::string>& src, const std::map<std::string, F>& init, bool shim, std::vector<double>& obs)
{
    static F regs[100];
    memset(regs, 0, sizeof regs);
    projectm_eval_mem_buffer g = projectm_eval_memory_buffer_create();
    projectm_eval_context* c = projectm_eval_context_create(g, &regs);
    std::map<std::string, F*> vars;
    for (auto& v : init)
    {
#ifdef HK_SHIM
        if (shim)
        {
            EEL_F* p = NSEEL_VM_regvar(c, v.first.c_str());
            *p = (EEL_F) v.second;
            vars[v.first] = (F*) p;
            continue;
        }
#endif
        vars[v.first] = projectm_eval_context_register_variable(c, v.first.c_str());
        *vars[v.first] = v.second;
    }
    F* p = projectm_eval_context_register_variable(c, "__p");
    projectm_eval_code* pm = projectm_eval_code_compile(c, "megabuf(__p)");
    projectm_eval_code* pg = projectm_eval_code_compile(c, "gmegabuf(__p)");
    bool ok = pm && pg;
    for (auto& s : src)
    {
        if (!ok)
        {
            break;
        }
        F result = 0;
#ifdef HK_SHIM
        if (shim)
        {
            std::string t = s;
            size_t last = t.rfind(';');
            t.insert(last == std::string::npos ? 0 : last + 1, "__r=(");
            t += ")";
            NSEEL_CODEHANDLE h = NSEEL_code_compile(c, &t[0], 0);
            if (!h)
            {
                ok = false;
                break;
            }
            NSEEL_code_execute(h);
            result = *(F*) NSEEL_VM_regvar(c, "__r");
            NSEEL_code_free(h);
        }
        else
#endif
        {
            Code h(c, s);
            if (!h)
            {
                ok = false;
                break;
            }
            result = h.run();
        }
        obs.push_back((double) result);
        for (auto& v : vars)
        {
            obs.push_back((double) *v.second);
        }
        for (int k = 0; k < 5; ++k)
        {
            obs.push_back((double) regs[k]);
        }
        for (int64_t k : SLOTS)
        {
            *p = (F) k;
            obs.push_back((double) projectm_eval_code_execute(pm));
            obs.push_back((double) projectm_eval_code_execute(pg));
        }
    }
    if (pm)
    {
        projectm_eval_code_destroy(pm);
    }
    if (pg)
    {
        projectm_eval_code_destroy(pg);
    }
    projectm_eval_context_destroy(c);
    projectm_eval_memory_buffer_destroy(g);
    return ok;
}

static const char* const precision[] = {"0.1+0.2", "a+b", "a*b", "a/b", "(a+1)-a", "a=0.1;a*3-0.3", "1/3*3-1", "16777216+1", "9007199254740992+1", "a=1;loop(30,a*=1.1);a", "a=0;loop(100,a+=0.1);a",
                                        "x=1;loop(60,x/=2);x+1", "$PI", "$E", "$PHI", "sqrt(2)", "sin($PI)", "100000000+a-100000000", "megabuf(0)=0.1;megabuf(0)*10-1", "gmem[1]=a/3;gmem[1]*3-a", "reg01=1/3;reg01*3",
                                        "a=b=c=0.7;a*b*c", "1.0000001-1", "123456789", "0.123456789123456789", "a%7", "a|b", "a&b", "floor(a)", "int(b/3)", "ceil(a/3)", "invsqrt(2)", "invsqrt(b*b+1)", "a=rand(1000)", "x=rand(7.5)", "a==b", "a<b", "!a", "sign(a-b)",
                                        "above(a,b)", "equal(0.1+0.2,0.3)", "a-b==0", "(0.1+0.2)==0.3", "0.000001&&1", "band(0.00002,1)", "bor(0,0.000001)", "1/0", "a/0", "a%0", "sigmoid(a,b)", "exp(a/10)", "log(b*b+1)", "pow(1.5,a)", "1.5^3", "atan2(a+100,b+100)", "min(a,b)", "max(a,b)",
                                        "memset(0,0.1,6);megabuf(3)+megabuf(5)", "memset(0,a,4);memcpy(1,0,4);megabuf(4)", "65535[]=a;65535[1]=b;65536[]", "a=3;while(b+=0.1;a-=1)", "if(a-b,0.1,0.2)+0.1", "abs(0-a)*0.1"};

// The same texts are accepted and the same errors reported at the same places, in every configuration.
static void texts_case(Rng& r)
{
    static F regs[100];
    projectm_eval_context* c = projectm_eval_context_create(nullptr, r.chance(50) ? &regs : nullptr);
    GenOpt o;
    o.regs = o.loops = o.lists = o.blockops = true;
    Gen g(r, o);
    for (int i = r.range(3, 8); i > 0 && !R.violations; --i)
    {
        std::string s = r.chance(30) ? soup_text(r) : g.program(1, 4);
        if (r.chance(60))
        {
            s = mutate(r, s);
        }
        auto p = parse(s);
        if (p->depth > 300)
        {
            continue;
        }
        R.note_more("\n" + s);
        projectm_eval_code* h = projectm_eval_code_compile(c, s.c_str());
        int line = -7, col = -7;
        const char* e = projectm_eval_get_error(c, &line, &col);
        std::string text = R.extra + ":\n" + s + "\n(compile " + (h ? "succeeded" : "failed") + ", error " + (e ? std::string("\"") + e + "\"" : "NULL") + fmt(" at %d:%d)", line, col);
        ++R.evaluations;
        R.distinct(hash_str(s));
        R.count(h ? "texts_accepted" : "texts_rejected");
        if (p->ok != (h != nullptr))
        {
            R.fail("C27:acceptance", text);
        }
        else if (h && e)
        {
            R.fail("C27:stale error", text);
        }
        else if (!h && (!e || !*e))
        {
            R.fail("C27:no message", text);
        }
        else if (!h && !p->at_eof && (line != p->line || col != p->col))
        {
            R.fail("C27:error position", text + fmt("\nexpected position %d:%d", p->line, p->col));
        }
        if (h)
        {
            projectm_eval_code_destroy(h);
        }
    }
    projectm_eval_context_destroy(c);
}

// Loops are limited in every configuration.
static void loops_case(Rng& r)
{
    static const struct
    {
        const char* src;
        double n;
        double result;
    } loops[] = {{"n=0;while((n+=1)<3000000);n", 1048576, 1048576}, {"n=0;while(n+=1)", 1048576, 1048576}, {"n=0;loop(3000000,n+=1)", 1048576, 1048576},
                 {"n=0;loop(1000000000000,n+=1)", 1048576, 1048576}, {"n=0;loop(1000000,n+=1)", 1000000, 1000000}, {"n=0;while((n+=1)<1000000)", 1000000, 0},
                 {"n=0;loop(-1,n+=1)", 0, -1}, {"n=0;loop(0.99,n+=1)*0", 0, 0}, {"n=0;loop(2.99,n+=1)", 2, 2}, {"n=0;loop(2,while((n+=1)<2000000))", 2000000, 0},
                 {"n=0;loop(2,loop(600000,n+=1))", 1200000, 1200000}};
    auto& l = r.pick(loops);
    projectm_eval_context* c = projectm_eval_context_create(nullptr, nullptr);
    F* n = projectm_eval_context_register_variable(c, "n");
    R.note_more(std::string("\n") + l.src);
    {
        StepGuard guard(400000000ull);
        Code h(c, l.src);
        double v = h ? (double) h.run() : NAN;
        ++R.evaluations;
        R.count("loops_run");
        if (!h || (double) *n != l.n || v != l.result)
        {
            R.fail("C27:loop limit", R.extra + ": " + l.src + fmt("\n%s iterations, result %s, expected %s and %s", num((double) *n).c_str(), num(v).c_str(), num(l.n).c_str(), num(l.result).c_str()));
        }
    }
    projectm_eval_context_destroy(c);
}

void harness_case()
{
    Rng& r = R.rng;
    R.note(R.extra);
    if (r.chance(12))
    {
        return texts_case(r);
    }
    if (r.range(0, 149) == 0)
    {
        return loops_case(r);
    }
    GenOpt o;
    o.regs = o.loops = o.lists = o.blockops = true;
    o.idx = {"0", "1", "2", "3", "65535", "65536", "8388607"};
    o.max_depth = r.range(1, 4);
    o.const_percent = r.chance(50) ? 40 : 25;
    for (auto f : {"sqrt", "exp", "log", "log10", "tan", "asin", "acos", "invsqrt"})
    {
        o.fns1.push_back(f);
    }
    for (auto f : {"pow", "atan2"})
    {
        o.fns2.push_back(f);
    }
    o.nums = {"0", "1", "2", "3", "10", "0.1", "0.3", "0.7", "1.1", "100000", "0.000001", "16777217", "1234567.891", "$PI", "$xFF"};
    Gen g(r, o);
    std::map<std::string, F> init;
    for (auto v : {"a", "b", "c", "x"})
    {
        init[v] = (F) (r.chance(50) ? r.range(-5, 30) : r.chance(50) ? r.range(-1000, 1000) / 7.0 : r.unit() * 3);
    }
    std::vector<std::string> src;
    std::vector<std::unique_ptr<Parse>> ps;
    int n = r.range(1, 3);
    for (int i = 0; i < n; ++i)
    {
        src.push_back(r.chance(40) ? std::string(r.pick(precision)) : g.program(1, 3));
        ps.push_back(parse(src.back()));
        if (!ps.back()->ok)
        {
            R.fail("harness:generator", src.back());
            return;
        }
        R.note_more("\n" + src.back());
    }
    Sim base(init, stream);
    if (!base.run(ps, 0, nullptr))
    {
        R.count("skipped_unspecified");
        return;
    }
    MtStream after = base.mt;
    std::vector<double> spread(base.obs.size(), 0);
    double amount = sizeof(F) == 4 ? 1.0 / (1 << 20) : 1.0 / (1ll << 49);
    for (int k = 0; k < 6; ++k)
    {
        Rng nr(r.u64());
        Sim s(init, stream);
        if (!s.run(ps, amount, &nr) || s.obs.size() != base.obs.size() || s.steps != base.steps)
        {
            R.count("skipped_rounding_dependent");
            return;
        }
        for (size_t i = 0; i < s.obs.size(); ++i)
        {
            spread[i] = std::fmax(spread[i], std::fabs(s.obs[i] - base.obs[i]));
        }
    }
    uint64_t exact = 0, close = 0;
    for (size_t i = 0; i < spread.size(); ++i)
    {
        if (spread[i] > (sizeof(F) == 4 ? 3e-3 : 1e-8) * std::fabs(base.obs[i]))
        {
            R.count("skipped_rounding_dependent");
            return;
        }
        ++(spread[i] == 0 ? exact : close);
    }
    bool shim = false;
#ifdef HK_SHIM
    // The shim returns no result; it's stored by the last instruction instead.
    shim = r.chance(50);
    for (auto& s : src)
    {
        // (only where the last instruction starts after the last semicolon)
        auto t = lex(s);
        int depth = 0;
        for (auto& k : t)
        {
            depth += k.text == "(" || k.text == "[" || (k.text.size() > 1 && k.text.back() == '(') || (k.text.size() > 1 && k.text.back() == '[');
            depth -= k.text == ")" || k.text == "]";
            if (depth && k.text == ";")
            {
                shim = false;
            }
        }
    }
    R.count("histories_through_the_shim", shim);
#endif
    std::vector<double> got;
    bool ok = real(src, init, shim, got);
    stream = after;
    ++R.evaluations;
    std::string all;
    for (auto& s : src)
    {
        all += s + "\n";
    }
    for (auto& v : init)
    {
        all += v.first + "=" + num((double) v.second) + " ";
    }
    R.distinct(hash_str(all));
    if (!ok)
    {
        R.fail("C27:rejected", R.extra + ": a valid program was rejected:\n" + all);
        return;
    }
    for (size_t i = 0; i < got.size(); ++i)
    {
        double tol = 4 * spread[i];
        if (!(std::fabs(got[i] - base.obs[i]) <= tol))
        {
            R.fail("C27:" + R.extra, R.extra + (shim ? " through the shim" : "") + ":\n" + all + "\n" + base.names[i] + " is " + num(got[i]) + ", expected " + num(base.obs[i]) + fmt(" with an error of at most %g", tol));
            return;
        }
    }
    fns.insert(base.used.begin(), base.used.end());
    R.count("values_compared_exactly", exact);
    R.count("values_compared_within_rounding", close);
    R.sample(all);
}

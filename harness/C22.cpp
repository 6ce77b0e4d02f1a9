// C22: threads with contexts of their own run random API histories at the same time; each must get exactly the results
// it gets running alone. rand() draws of all threads together must be the generator's stream.
#include "texts.hpp"
#include "threads.hpp"

static MtStream stream;
static std::set<std::string> kinds;

void harness_init()
{
    for (auto t : seeds)
    {
        corpus.push_back(t);
    }
    mt::install();
}

void harness_done()
{
    R.counters["contended_lock_acquisitions"] = (uint64_t) mt::contended.load();
    R.counters["delays_injected"] = (uint64_t) mt::injected.load();
    R.counters["set_operation_kinds"] = kinds.size();
}

struct Op
{
    enum Kind { CREATE, DESTROY, REG, SET, COMPILE, RUN, FREE, RESETVARS, FREEMEM, ERROR, DRAW, GMEM_SET, GMEM_GET } kind;
    int ctx = 0, handle = 0;
    std::string text;
    double v = 0;
    bool own_gmem = false, own_regs = false;
};
static const char* const names[] = {"create", "destroy", "register", "set", "compile", "run", "free", "resetvars", "freemem", "error", "draw", "gmem set", "gmem get"};

// Executes one thread's operations. `draws` is null in the run that gives the expected results.
struct Player
{
    const std::vector<Op>& ops;
    std::vector<std::string> log;
    std::vector<uint32_t>* draws;
    uint64_t executed = 0;

    Player(const std::vector<Op>& o, std::vector<uint32_t>* d)
        : ops(o)
        , draws(d)
    {
    }

    static std::string value(double v) { return v != v ? "nan" : num(v); }

    void play()
    {
        struct Ctx
        {
            projectm_eval_context* c = nullptr;
            projectm_eval_mem_buffer g = nullptr;
            std::vector<F> regs = std::vector<F>(100, 0);
            std::vector<projectm_eval_code*> hs;
            projectm_eval_code *set = nullptr, *get = nullptr, *rnd = nullptr;
        };
        Ctx cs[3];
        auto kill = [&](Ctx& x) {
            if (!x.c)
            {
                return;
            }
            for (auto h : x.hs)
            {
                if (h)
                {
                    projectm_eval_code_destroy(h);
                }
            }
            for (auto h : {x.set, x.get, x.rnd})
            {
                if (h)
                {
                    projectm_eval_code_destroy(h);
                }
            }
            projectm_eval_context_destroy(x.c);
            if (x.g)
            {
                projectm_eval_memory_buffer_destroy(x.g);
            }
            x = Ctx();
        };
        for (auto& o : ops)
        {
            Ctx& x = cs[o.ctx];
            ++executed;
            std::string l;
            switch (o.kind)
            {
                case Op::CREATE:
                    kill(x);
                    x.g = o.own_gmem ? projectm_eval_memory_buffer_create() : nullptr;
                    x.c = projectm_eval_context_create(x.g, o.own_regs ? (F(*)[100]) x.regs.data() : nullptr);
                    x.set = projectm_eval_code_compile(x.c, "gmegabuf(i)=v");
                    x.get = projectm_eval_code_compile(x.c, "gmem[i]");
                    x.rnd = projectm_eval_code_compile(x.c, "rand(4294967295)");
                    l = x.set && x.get && x.rnd ? "ok" : "failed";
                    break;
                case Op::DESTROY: kill(x); break;
                case Op::REG:
                    if (x.c)
                    {
                        F* p = projectm_eval_context_register_variable(x.c, o.text.c_str());
                        l = value((double) *p);
                    }
                    break;
                case Op::SET:
                    if (x.c)
                    {
                        *projectm_eval_context_register_variable(x.c, o.text.c_str()) = (F) o.v;
                    }
                    break;
                case Op::COMPILE:
                    if (x.c)
                    {
                        x.hs.push_back(projectm_eval_code_compile(x.c, o.text.c_str()));
                        int line = -1, col = -1;
                        const char* e = projectm_eval_get_error(x.c, &line, &col);
                        l = e ? std::string(e) + fmt(" at %d:%d", line, col) : "compiled";
                    }
                    break;
                case Op::RUN:
                    if (!x.hs.empty() && x.hs[(size_t) o.handle % x.hs.size()])
                    {
                        l = value((double) projectm_eval_code_execute(x.hs[(size_t) o.handle % x.hs.size()]));
                    }
                    break;
                case Op::FREE:
                    if (!x.hs.empty())
                    {
                        size_t k = (size_t) o.handle % x.hs.size();
                        if (x.hs[k])
                        {
                            projectm_eval_code_destroy(x.hs[k]);
                        }
                        x.hs.erase(x.hs.begin() + (long) k);
                    }
                    break;
                case Op::RESETVARS:
                    if (x.c)
                    {
                        projectm_eval_context_reset_variables(x.c);
                    }
                    break;
                case Op::FREEMEM:
                    if (x.c)
                    {
                        projectm_eval_context_free_memory(x.c);
                    }
                    break;
                case Op::ERROR:
                    if (x.c)
                    {
                        int line = -1;
                        const char* e = projectm_eval_get_error(x.c, &line, nullptr);
                        l = e ? std::string(e) + fmt(" line %d", line) : "no error";
                    }
                    break;
                case Op::DRAW:
                    if (x.c && draws)
                    {
                        for (int k = 0; k < o.handle; ++k)
                        {
                            double v = (double) projectm_eval_code_execute(x.rnd);
                            if (!(v >= 0 && v <= 4294967295.0))
                            {
                                l = "rand(4294967295) is " + value(v);
                            }
                            else
                            {
                                draws->push_back((uint32_t) llround(v));
                            }
                        }
                    }
                    break;
                case Op::GMEM_SET:
                case Op::GMEM_GET:
                    if (x.c)
                    {
                        *projectm_eval_context_register_variable(x.c, "i") = (F) o.handle;
                        *projectm_eval_context_register_variable(x.c, "v") = (F) o.v;
                        l = value((double) projectm_eval_code_execute(o.kind == Op::GMEM_SET ? x.set : x.get));
                    }
                    break;
            }
            log.push_back(l);
        }
        for (auto& x : cs)
        {
            kill(x);
        }
    }
};

static std::vector<Op> script(Rng& r, int id)
{
    std::vector<Op> ops;
    bool own_gmem[3], own_regs[3];
    auto create = [&](int c) {
        Op o{Op::CREATE};
        o.ctx = c;
        o.own_gmem = own_gmem[c] = r.chance(50);
        o.own_regs = own_regs[c] = r.chance(60);
        ops.push_back(o);
        if (!own_regs[c])
        {
            // This thread's share of the built-in registers keeps its values; start from 0.
            std::string z;
            for (int k = 0; k < 4; ++k)
            {
                z += fmt("reg%02d=0;", id * 10 + k);
            }
            Op p{Op::COMPILE};
            p.ctx = c;
            p.text = z;
            ops.push_back(p);
            p.kind = Op::RUN;
            p.handle = 0;
            ops.push_back(p);
        }
    };
    bool shared_gmem_cleared = false;
    create(0);
    int n = r.range(8, 45);
    for (int k = 0; k < n; ++k)
    {
        Op o{Op::RUN};
        o.ctx = r.chance(70) ? 0 : r.range(0, 2);
        o.handle = r.range(0, 1000);
        bool exists = false;
        for (auto& p : ops)
        {
            exists = p.ctx == o.ctx ? p.kind == Op::CREATE || (exists && p.kind != Op::DESTROY) : exists;
        }
        if (!exists)
        {
            create(o.ctx);
            continue;
        }
        int w = r.range(0, 99);
        if (w < 35)
        {
            o.kind = Op::COMPILE;
            if (r.chance(35))
            {
                // mostly invalid
                static const char* const inv[] = {"a=1;\n b=(2;\n c", "sin(1,2)", "nosuch(1)", "1 2", "a=#", "/* x", "if(1,2", ")", "a=1;;b", "gmem[", "\n\n\n  (1+", "exec3(1,2)", "x=$xZZ"};
                o.text = r.chance(60) ? std::string(r.pick(inv)) : mutate(r, r.pick(corpus));
                // never execute texts of unknown running time: make them invalid
                o.text += " 1 2 (";
            }
            else
            {
                GenOpt g;
                g.gmem = own_gmem[o.ctx];
                g.regs = own_regs[o.ctx];
                g.lists = g.blockops = g.freembuf = true;
                g.idx = {"0", "1", "2", "65535", "65536", "8388607"};
                g.max_depth = r.range(1, 4);
                Gen gen(r, g);
                o.text = gen.program(1, 4);
                if (r.chance(30))
                {
                    o.text += ";x=0;loop(" + std::to_string(r.range(1, 30)) + ",x+=1;y=x*2)";
                }
                if (!own_regs[o.ctx] && r.chance(60))
                {
                    o.text += fmt(";reg%02d=reg%02d+a;reg%02d+=1", id * 10, id * 10 + 1, id * 10 + 1);
                }
            }
        }
        else if (w < 60)
        {
            o.kind = Op::RUN;
        }
        else if (w < 64)
        {
            o.kind = Op::REG;
            o.text = r.pick(std::vector<std::string>{"a", "B", "newone", "x", "c", "Zz"});
        }
        else if (w < 70)
        {
            o.kind = Op::SET;
            o.text = r.pick(std::vector<std::string>{"a", "b", "c", "x"});
            o.v = r.range(-40, 40) * 0.25;
        }
        else if (w < 74)
        {
            o.kind = Op::FREE;
        }
        else if (w < 77)
        {
            o.kind = Op::RESETVARS;
        }
        else if (w < 80)
        {
            o.kind = Op::FREEMEM;
        }
        else if (w < 83)
        {
            o.kind = Op::ERROR;
        }
        else if (w < 88)
        {
            o.kind = Op::DRAW;
            o.handle = r.range(1, 40);
        }
        else if (w < 96)
        {
            o.kind = r.chance(60) ? Op::GMEM_SET : Op::GMEM_GET;
            o.handle = r.pick(std::vector<int>{0, 65536, 131072, 8323072}) + id * 50 + r.range(0, 5);
            o.v = r.range(1, 1000);
        }
        else
        {
            o.kind = Op::DESTROY;
        }
        ops.push_back(o);
    }
    (void) shared_gmem_cleared;
    return ops;
}

void harness_case()
{
    Rng& r = R.rng;
    static bool played = false;
    R.note("");
    if (played)
    {
        projectm_eval_memory_global_destroy();
    }
    long live0 = hk_live_allocs, bytes0 = hk_live_bytes;
    mt::misuse = 0;
    int n = r.range(2, 8);
    std::vector<std::vector<Op>> scripts;
    std::string text;
    for (int i = 0; i < n; ++i)
    {
        scripts.push_back(script(r, i));
        for (auto& o : scripts.back())
        {
            kinds.insert(names[o.kind]);
        }
    }
    std::vector<Player> alone, together;
    std::vector<std::vector<uint32_t>> draws((size_t) n);
    // The first case of a process, and half of the others, run the threads first: nothing the library might set up on
    // first use has been set up by then.
    bool threads_first = !played || r.chance(50);
    R.count("threads_ran_first", threads_first);
    R.count("processes_whose_first_calls_were_concurrent", !played);
    played = true;
    for (int i = 0; i < n; ++i)
    {
        alone.emplace_back(scripts[(size_t) i], nullptr);
        together.emplace_back(scripts[(size_t) i], &draws[(size_t) i]);
    }
    for (int pass = 0; pass < 2; ++pass)
    {
        if ((pass == 0) == threads_first)
        {
            R.note(fmt("%d threads", n));
            mt::run(n, r, [&](int id, Rng&) { together[(size_t) id].play(); });
        }
        else
        {
            for (int i = 0; i < n; ++i)
            {
                R.note(fmt("thread %d of %d running alone", i, n));
                alone[(size_t) i].play();
            }
        }
        if (!pass)
        {
            // The built-in memory keeps its contents: forget those of the first run, so that it's created again.
            projectm_eval_memory_global_destroy();
        }
    }
    projectm_eval_memory_global_destroy();
    bool ok = true;
    for (int i = 0; i < n && ok; ++i)
    {
        Player &a = alone[(size_t) i], &b = together[(size_t) i];
        R.evaluations += b.executed;
        for (size_t k = 0; k < a.log.size() && ok; ++k)
        {
            R.count("results_compared");
            if (a.log[k] != b.log[k])
            {
                const Op& o = a.ops[k];
                R.fail("C22:different", fmt("thread %d of %d, operation %zu (%s) context %d\n", i, n, k, names[o.kind], o.ctx) + o.text + "\nalone: " + a.log[k] + "\nwith other threads: " + b.log[k]);
                ok = false;
            }
        }
        for (auto& o : a.ops)
        {
            R.count("errors_or_programs_compiled_concurrently", o.kind == Op::COMPILE);
        }
    }
    // rand(): all draws together are the next values of the stream, and every thread sees them in order.
    std::map<uint32_t, std::vector<size_t>> pos;
    size_t total = 0;
    for (auto& d : draws)
    {
        total += d.size();
    }
    for (size_t k = 0; k < total; ++k)
    {
        pos[stream.next()].push_back(k);
    }
    R.count("draws_accounted_for", total);
    std::set<size_t> used;
    for (int i = 0; i < n && ok; ++i)
    {
        long last = -1;
        for (uint32_t v : draws[(size_t) i])
        {
            if (sizeof(F) == 4)
            {
                break;
            }
            auto it = pos.find(v);
            long found = -1;
            if (it != pos.end())
            {
                for (size_t p : it->second)
                {
                    if (!used.count(p) && (long) p > last)
                    {
                        found = (long) p;
                        break;
                    }
                }
            }
            if (found < 0)
            {
                R.fail("C22:rand", fmt("thread %d of %d: the generator value %u isn't one of the next %zu values of the stream, was delivered twice or out of order", i, n, v, total));
                ok = false;
                break;
            }
            used.insert((size_t) found);
            last = found;
        }
    }
    if (ok && mt::misuse)
    {
        R.fail("C22:mutex", "the mutex was requested while held, or released while not held");
        ok = false;
    }
    if (ok && (hk_live_allocs > live0 || hk_live_bytes > bytes0))
    {
        R.fail("C22:leak", fmt("%ld allocations (%ld bytes) are left after destroying everything", hk_live_allocs - live0, hk_live_bytes - bytes0));
    }
    R.count("threads_run", (uint64_t) n);
    R.sample(fmt("%d threads, e.g. compiling ", n) + [&] {
        for (auto& o : scripts[0])
        {
            if (o.kind == Op::COMPILE)
            {
                return o.text;
            }
        }
        return std::string("nothing");
    }());
}

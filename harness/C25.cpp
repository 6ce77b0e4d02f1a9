// C25: the same history through the ns-eel2 shim and through the native API, on contexts with equal state; everything
// observable must stay equal after every call. Calls on the shim's objects are sometimes made through the native API.
#include "gen.hpp"
#include "ns-eel.h"

static std::set<std::string> ops;

void harness_init() {}
void harness_done() { R.counters["set_shim_functions_exercised"] = ops.size(); }

struct Pair
{
    Rng& r;
    NSEEL_VMCTX s = nullptr;
    projectm_eval_context* n = nullptr;
    F regs[100] = {0};
    projectm_eval_mem_buffer sg = nullptr, ng = nullptr;
    bool builtin = false;
    struct H
    {
        NSEEL_CODEHANDLE s;
        projectm_eval_code* n;
        std::string src;
    };
    std::vector<H> hs;
    std::map<std::string, std::pair<F*, F*>> vars;
    H probe[3];
    std::vector<projectm_eval_mem_buffer> spare;
    // Another context which isn't touched by what happens to the first one.
    NSEEL_VMCTX other_ctx = nullptr;
    EEL_F *ov = nullptr, *om = nullptr, *og = nullptr;
    NSEEL_CODEHANDLE other_probe = nullptr;
    EEL_F *sp = nullptr;
    F* np = nullptr;
    std::string log;
    bool bad = false;

    explicit Pair(Rng& rr)
        : r(rr)
    {
    }

    void fail(const std::string& key, const std::string& m)
    {
        R.fail("C25:" + key, log + "==> " + m);
        bad = true;
    }

    void say(const std::string& m)
    {
        log += m + "\n";
        R.note_more("\n" + m);
    }

    projectm_eval_context* nat() { return (projectm_eval_context*) s; }
    bool other() { return r.chance(25); } // use the native API on the shim's object

    NSEEL_CODEHANDLE compile_s(const std::string& t)
    {
        if (other())
        {
            return projectm_eval_code_compile(nat(), t.c_str());
        }
        ops.insert("compile");
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        NSEEL_CODEHANDLE h = NSEEL_code_compile(s, b.data(), r.chance(80) ? 0 : r.range(-1, 20));
        if (memcmp(b.data(), t.c_str(), t.size() + 1))
        {
            fail("text changed", "NSEEL_code_compile changed the text passed in");
        }
        return h;
    }

    void free_s(NSEEL_CODEHANDLE h)
    {
        if (other())
        {
            projectm_eval_code_destroy((projectm_eval_code*) h);
        }
        else
        {
            ops.insert("code_free");
            NSEEL_code_free(h);
        }
    }

    void run_s(NSEEL_CODEHANDLE h)
    {
        if (other())
        {
            projectm_eval_code_execute((projectm_eval_code*) h);
        }
        else
        {
            ops.insert("execute");
            NSEEL_code_execute(h);
        }
    }

    EEL_F* reg_s(const std::string& name)
    {
        if (other())
        {
            return projectm_eval_context_register_variable(nat(), name.c_str());
        }
        ops.insert("regvar");
        return NSEEL_VM_regvar(s, name.c_str());
    }

    bool start()
    {
        NSEEL_quit();
        ops.insert("quit");
        s = NSEEL_VM_alloc();
        ops.insert("alloc");
        builtin = r.chance(40);
        ng = projectm_eval_memory_buffer_create();
        n = projectm_eval_context_create(ng, &regs);
        if (!s || !n)
        {
            fail("alloc", "NULL");
            return false;
        }
        if (!builtin)
        {
            sg = projectm_eval_memory_buffer_create();
            while (r.chance(25))
            {
                // Only the buffer set last is used.
                spare.push_back(projectm_eval_memory_buffer_create());
                projectm_eval_context* f = projectm_eval_context_create(spare.back(), nullptr);
                projectm_eval_code* h = projectm_eval_code_compile(f, "gmem[0]=gmem[1]=gmem[2]=gmem[65536]=gmem[65537]=gmem[8388607]=4321");
                projectm_eval_code_execute(h);
                projectm_eval_code_destroy(h);
                projectm_eval_context_destroy(f);
                NSEEL_VM_SetGRAM(s, (void**) (r.chance(50) ? sg : spare.back()));
                R.count("buffers_replaced");
            }
            NSEEL_VM_SetGRAM(s, (void**) sg);
            ops.insert("SetGRAM");
        }
        if (r.chance(60))
        {
            other_ctx = NSEEL_VM_alloc();
            ov = NSEEL_VM_regvar(other_ctx, "ov");
            om = NSEEL_VM_regvar(other_ctx, "om");
            og = NSEEL_VM_regvar(other_ctx, "og");
            *ov = 12.5;
            static char set[] = "megabuf(2)=77;gmegabuf(4000000)=88", get[] = "om=megabuf(2);og=gmegabuf(4000000)";
            NSEEL_CODEHANDLE h = NSEEL_code_compile(other_ctx, set);
            NSEEL_code_execute(h);
            NSEEL_code_free(h);
            other_probe = NSEEL_code_compile(other_ctx, get);
        }
        say(std::string("NSEEL_VM_alloc; ") + (builtin ? "built-in gmegabuf" : "SetGRAM"));
        // The shim's contexts use the built-in registers, which keep their values for the life of the process.
        std::string zero;
        for (int i = 0; i < 100; ++i)
        {
            zero += fmt("reg%02d=0;", i);
        }
        NSEEL_CODEHANDLE z = compile_s(zero);
        run_s(z);
        free_s(z);
        sp = reg_s("__p");
        np = projectm_eval_context_register_variable(n, "__p");
        static const char* const pt[] = {"__o=megabuf(__p)", "__o=gmegabuf(__p)", "__o=reg00+reg01*3+reg02*7+reg03*11+reg04*13+reg99*17"};
        for (int i = 0; i < 3; ++i)
        {
            probe[i] = {compile_s(pt[i]), projectm_eval_code_compile(n, pt[i]), pt[i]};
            if (!probe[i].s || !probe[i].n)
            {
                fail("compile", pt[i]);
                return false;
            }
        }
        var("__o");
        for (auto v : {"a", "b", "c", "x"})
        {
            var(v);
        }
        return true;
    }

    void var(const std::string& l)
    {
        Layout lay(r);
        F* a = reg_s(r.chance(30) ? lay.swap_case(l) : l);
        F* b = projectm_eval_context_register_variable(n, l.c_str());
        ++R.evaluations;
        if (vars.count(l) && (vars[l].first != a || vars[l].second != b))
        {
            fail("regvar", l + " moved");
        }
        vars[l] = {a, b};
    }

    static bool same(F a, F b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan(a) && std::isnan(b)); }

    void bystander()
    {
        *om = *og = 0;
        NSEEL_code_execute(other_probe);
        R.count("observations_of_another_context");
        if (*ov != 12.5 || *om != 77 || *og != 88)
        {
            fail("another context", fmt("variable %g, megabuf %g, gmegabuf %g of a context which isn't involved, expected 12.5, 77, 88", (double) *ov, (double) *om, (double) *og));
        }
    }

    void compare()
    {
        if (other_ctx && r.chance(30))
        {
            bystander();
        }
        static const int slots[] = {0, 1, 2, 3, 65535, 65536, 8388607};
        for (int g = 0; g < 3 && !bad; ++g)
        {
            for (int k : slots)
            {
                *sp = *np = (F) k;
                run_s(probe[g].s);
                projectm_eval_code_execute(probe[g].n);
                R.count("observations");
                F a = *vars["__o"].first, b = *vars["__o"].second;
                if (!same(a, b))
                {
                    fail(g == 2 ? "registers" : g ? "gmegabuf" : "megabuf", fmt("slot %d: shim ", k) + num((double) a) + ", native " + num((double) b));
                    return;
                }
                if (g == 2)
                {
                    break;
                }
            }
        }
        for (auto& v : vars)
        {
            R.count("observations");
            if (!same(*v.second.first, *v.second.second))
            {
                fail("variable", v.first + ": shim " + num((double) *v.second.first) + ", native " + num((double) *v.second.second));
                return;
            }
        }
        const char* e = NSEEL_code_getcodeerror(s);
        int l, c, l2, c2;
        const char* e1 = projectm_eval_get_error(nat(), &l2, &c2);
        const char* f = projectm_eval_get_error(n, &l, &c);
        ops.insert("getcodeerror");
        if ((e == nullptr) != (f == nullptr) || (e && strcmp(e, f)) || (e1 == nullptr) != (f == nullptr) || (f && (strcmp(e1, f) || l != l2 || c != c2)))
        {
            fail("error", std::string("shim: ") + (e ? e : "NULL") + ", native: " + (f ? f : "NULL"));
        }
        if (hk_lock_error || hk_lock_depth || hk_lock_calls != hk_unlock_calls)
        {
            fail("mutex", fmt("lock calls %ld, unlock calls %ld, depth %d", hk_lock_calls, hk_unlock_calls, hk_lock_depth));
        }
    }

    void step()
    {
        long k0;
        long ls = 0, ln = 0;
        auto count_locks = [&](const std::function<void()>& f) {
            k0 = hk_lock_calls;
            f();
            return hk_lock_calls - k0;
        };
        int op = r.range(0, 15);
        ++R.evaluations;
        std::string what = "?";
        if (op < 4)
        {
            GenOpt o;
            o.regs = o.lists = o.blockops = true;
            o.freembuf = true;
            o.odd_percent = 15;
            o.idx = {"0", "1", "2", "3", "65535", "65536", "8388607", "x"};
            o.max_depth = r.range(1, 4);
            Gen g(r, o);
            std::string src = g.program(1, 4);
            if (r.chance(40))
            {
                // loops whose counters the body can't reach: both sides always terminate quickly
                src += r.chance(50) ? ";loop(" + std::to_string(r.range(-1, 5)) + "," + g.expr(2) + ")"
                                    : fmt(";__w=%d;x+=while(", r.range(0, 5)) + g.expr(2) + ";__w-=1;__w>0)";
            }
            if (r.chance(30))
            {
                auto t = lex(src);
                std::string b;
                size_t cut = r.below((uint32_t) t.size());
                for (size_t i = 0; i + 1 < t.size(); ++i)
                {
                    b += i == cut ? r.pick(std::vector<std::string>{")", " 1 2 ", "sin(1,2)", "(", "#", "\n,"}) : t[i].text + (r.chance(20) ? "\n" : " ");
                }
                src = b;
            }
            if (r.chance(6))
            {
                src = r.pick(std::vector<std::string>{"", " ", "\n", ";", "/**/", "// x", "\n\n\na=1", "\n)", ";;", "0", "a", "\r\n", "a=2;\n", "\n\nsin(1,2)"});
            }
            if (r.chance(8))
            {
                // errors far behind the beginning
                int n = r.chance(50) ? r.range(2, 30) : r.range(31, 700);
                std::string before;
                for (int i = 0; i < n; ++i)
                {
                    before += r.chance(60) ? "\n" : r.chance(50) ? "0;" : "  /* x */";
                }
                src = before + src;
                R.count("long_texts");
            }
            say("compile " + src);
            H h;
            h.src = src;
            what = "compile";
            ls = count_locks([&] { h.s = compile_s(src); });
            ln = count_locks([&] { h.n = projectm_eval_code_compile(n, src.c_str()); });
            R.count(h.n ? "compiled" : "rejected");
            R.distinct(hash_str(src));
            if ((h.s == nullptr) != (h.n == nullptr))
            {
                fail("compile", std::string("shim ") + (h.s ? "compiled" : "rejected") + ", native " + (h.n ? "compiled" : "rejected"));
                return;
            }
            if (h.s)
            {
                hs.push_back(h);
            }
            else if (r.chance(30))
            {
                say("execute and free the missing handle");
                run_s(h.s);
                free_s(h.s);
                R.count("missing_handles_executed_and_freed");
            }
        }
        else if (op < 10)
        {
            if (!hs.empty())
            {
                H& h = hs[r.below((uint32_t) hs.size())];
                say("execute " + h.src);
                what = "execute";
                StepGuard guard(60000000);
                ls = count_locks([&] { run_s(h.s); });
                ln = count_locks([&] { projectm_eval_code_execute(h.n); });
                R.count("executions");
            }
        }
        else if (op == 10)
        {
            F v = (F) (r.range(-40, 40) * 0.25);
            auto it = vars.begin();
            std::advance(it, r.below((uint32_t) vars.size()));
            say("host: " + it->first + " = " + num((double) v));
            *it->second.first = *it->second.second = v;
        }
        else if (op == 11)
        {
            say("resetvars");
            what = "resetvars";
            ls = count_locks([&] { NSEEL_VM_resetvars(s); });
            ln = count_locks([&] { projectm_eval_context_reset_variables(n); });
            ops.insert("resetvars");
        }
        else if (op == 12)
        {
            say("freeRAM");
            what = "freeRAM";
            ls = count_locks([&] { NSEEL_VM_freeRAM(s); });
            ln = count_locks([&] { projectm_eval_context_free_memory(n); });
            ops.insert("freeRAM");
        }
        else if (op == 13)
        {
            var(lower(r.pick(std::vector<std::string>{"a", "b", "newone", fmt("v%d", r.range(0, 99)), "reg_x"})));
        }
        else if (op == 14)
        {
            if (!hs.empty())
            {
                size_t i = r.below((uint32_t) hs.size());
                say("free " + hs[i].src);
                what = "code_free";
                ls = count_locks([&] { free_s(hs[i].s); });
                ln = count_locks([&] { projectm_eval_code_destroy(hs[i].n); });
                hs.erase(hs.begin() + (long) i);
            }
        }
        else
        {
            // forwarding of the mutex functions themselves
            long a = hk_lock_calls, b = hk_unlock_calls;
            projectm_eval_memory_host_lock_mutex();
            bool ok = hk_lock_calls == a + 1 && hk_unlock_calls == b;
            projectm_eval_memory_host_unlock_mutex();
            ok = ok && hk_lock_calls == a + 1 && hk_unlock_calls == b + 1;
            R.count("mutex_forwardings");
            if (!ok)
            {
                fail("mutex forwarding", "the library's lock/unlock functions don't call NSEEL_HOSTSTUB_EnterMutex/LeaveMutex exactly once");
                return;
            }
        }
        if (ls != ln)
        {
            fail("locks", what + fmt(": %ld lock calls through the shim, %ld natively", ls, ln));
            return;
        }
        R.count("lock_calls_compared", (uint64_t) ls);
        if (!bad)
        {
            compare();
        }
    }

    void finish(bool free_gram_first)
    {
        for (auto& h : hs)
        {
            free_s(h.s);
            projectm_eval_code_destroy(h.n);
        }
        for (auto& h : probe)
        {
            if (h.s)
            {
                free_s(h.s);
                projectm_eval_code_destroy(h.n);
            }
        }
        long l0 = hk_lock_calls;
        if (sg && free_gram_first)
        {
            NSEEL_VM_FreeGRAM((void**) sg);
            ops.insert("FreeGRAM");
        }
        NSEEL_VM_free(s);
        ops.insert("VM_free");
        if (sg && !free_gram_first)
        {
            NSEEL_VM_FreeGRAM((void**) sg);
        }
        if (other_ctx)
        {
            // Still usable after the first context has been freed.
            bystander();
        }
        long l1 = hk_lock_calls;
        projectm_eval_context_destroy(n);
        projectm_eval_memory_buffer_destroy(ng);
        long l2 = hk_lock_calls;
        if (sg && l1 - l0 != l2 - l1)
        {
            fail("locks", fmt("destruction: %ld lock calls through the shim, %ld natively", l1 - l0, l2 - l1));
        }
        for (auto& b : spare)
        {
            projectm_eval_context* f = projectm_eval_context_create(b, nullptr);
            projectm_eval_code* h = projectm_eval_code_compile(f, "gmem[0]+gmem[1]+gmem[2]+gmem[3]+gmem[65535]+gmem[65536]+gmem[65537]+gmem[8388607]");
            if (projectm_eval_code_execute(h) != 4321 * 6)
            {
                fail("replaced buffer", "a buffer which isn't in use has been changed");
            }
            projectm_eval_code_destroy(h);
            projectm_eval_context_destroy(f);
            NSEEL_VM_FreeGRAM((void**) b);
        }
        if (other_ctx)
        {
            bystander();
            NSEEL_code_free(other_probe);
            NSEEL_VM_free(other_ctx);
        }
        NSEEL_quit();
    }
};

void harness_case()
{
    Rng& r = R.rng;
    R.note("");
    NSEEL_quit();
    long base = hk_live_allocs, bytes = hk_live_bytes;
    Pair p(r);
    if (p.start())
    {
        int n = r.range(15, 60);
        for (int i = 0; i < n && !p.bad; ++i)
        {
            p.step();
        }
    }
    if (p.bad)
    {
        return;
    }
    p.finish(r.chance(50));
    if (hk_live_allocs != base || hk_live_bytes != bytes)
    {
        p.fail("leak", fmt("%ld allocations left after NSEEL_VM_free, NSEEL_VM_FreeGRAM and NSEEL_quit", hk_live_allocs - base));
    }
    R.sample(p.log);
}

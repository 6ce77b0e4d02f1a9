// One real context next to its model, with full observation of variables, registers and memory.
#pragma once

#include "gen.hpp"

struct Lab
{
    projectm_eval_context* ctx = nullptr;
    projectm_eval_mem_buffer gbuf = nullptr;
    bool own_gbuf = false;
    F regs_real[100];
    F regs_model[100];
    std::map<std::string, std::pair<F*, F*>> vars; // lower-case name -> real, model
    std::deque<F> storage;
    Memory mem, gmem;
    MtStream* mt = nullptr;
    Code probe_mem, probe_gmem;
    F* probe_index = nullptr;
    std::set<int64_t> watch_mem, watch_gmem;
    uint64_t max_steps = 20000;
    bool exact_integers = false; // results which are integers have to be matched exactly
    Code* handle = nullptr; // if set, the program is compiled into it once and executed again from then on

    explicit Lab(bool custom_gmem = true)
    {
        memset(regs_real, 0, sizeof regs_real);
        memset(regs_model, 0, sizeof regs_model);
        if (custom_gmem)
        {
            gbuf = projectm_eval_memory_buffer_create();
            own_gbuf = true;
        }
        ctx = projectm_eval_context_create(gbuf, &regs_real);
        if (!ctx)
        {
            R.fail("setup:create", "projectm_eval_context_create returned NULL");
            exit(96);
        }
    }
    Lab(const Lab&) = delete;
    ~Lab()
    {
        {
            Code a(std::move(probe_mem)), b(std::move(probe_gmem));
        }
        projectm_eval_context_destroy(ctx);
        if (own_gbuf)
        {
            projectm_eval_memory_buffer_destroy(gbuf);
        }
    }

    static bool is_reg(const std::string& n, int& k)
    {
        if (n.size() == 5 && n.compare(0, 3, "reg") == 0 && isdigit((unsigned char) n[3]) && isdigit((unsigned char) n[4]))
        {
            k = (n[3] - '0') * 10 + n[4] - '0';
            return true;
        }
        return false;
    }

    std::pair<F*, F*>& var(const std::string& lname)
    {
        auto it = vars.find(lname);
        if (it == vars.end())
        {
            F* real = projectm_eval_context_register_variable(ctx, lname.c_str());
            storage.push_back(0);
            int k;
            F* model = is_reg(lname, k) ? &regs_model[k] : &storage.back();
            it = vars.insert({lname, {real, model}}).first;
        }
        return it->second;
    }

    void set(const std::string& lname, F v)
    {
        auto& p = var(lname);
        *p.first = v;
        *p.second = v;
    }

    void bind(const Parse& p, Env& e)
    {
        e.vars.clear();
        for (auto& n : p.vars)
        {
            e.vars.push_back(var(n).second);
        }
        e.mem = &mem;
        e.gmem = &gmem;
        e.mt = mt;
        e.max_steps = max_steps;
    }

    F peek(bool global, int64_t i)
    {
        if (!probe_index)
        {
            probe_index = projectm_eval_context_register_variable(ctx, "__p");
        }
        Code& c = global ? probe_gmem : probe_mem;
        if (!c)
        {
            c.h = projectm_eval_code_compile(ctx, global ? "gmegabuf(__p)" : "megabuf(__p)");
        }
        *probe_index = (F) i;
        return c.run();
    }

    // Returns an empty string or the first difference between real and model state.
    std::string diff(double rel = 1e-9, size_t max_slots = 600)
    {
        for (auto& v : vars)
        {
            if (!same_number((double) *v.second.first, (double) *v.second.second, rel))
            {
                return fmt("variable %s is %s, expected %s", v.first.c_str(), num((double) *v.second.first).c_str(),
                           num((double) *v.second.second).c_str());
            }
        }
        for (int i = 0; i < 100; ++i)
        {
            if (!same_number((double) regs_real[i], (double) regs_model[i], rel))
            {
                return fmt("reg%02d is %s, expected %s", i, num((double) regs_real[i]).c_str(), num((double) regs_model[i]).c_str());
            }
        }
        for (int g = 0; g < 2; ++g)
        {
            Memory& m = g ? gmem : mem;
            std::set<int64_t> slots = g ? watch_gmem : watch_mem;
            bool all = m.pages.size() * 64 <= max_slots;
            for (auto& p : m.pages)
            {
                for (int j = 0; j < 64; ++j)
                {
                    if (all || (*p.second)[(size_t) j] != 0 || j == 0 || j == 63)
                    {
                        slots.insert(p.first * 64 + j);
                    }
                }
                slots.insert(p.first * 64 + 64);
                slots.insert(p.first * 64 - 1);
            }
            size_t n = 0;
            for (int64_t s : slots)
            {
                if (s < 0 || s >= MEM_SLOTS)
                {
                    continue;
                }
                if (++n > max_slots * 4)
                {
                    break;
                }
                F real = peek(g, s);
                if (!same_number((double) real, (double) m.get(s), rel))
                {
                    return fmt("%s[%lld] is %s, expected %s", g ? "gmem" : "megabuf", (long long) s,
                               num((double) real).c_str(), num((double) m.get(s)).c_str());
                }
            }
        }
        return "";
    }

    enum Result
    {
        MATCH, SKIP, BAD
    };

    // Compiles, executes and compares one program (must be valid). `env` receives the model's event counts.
    Result check(const std::string& key, const std::string& src, Env* env_out = nullptr, double rel = 1e-9, bool state = true)
    {
        auto p = parse(src);
        if (!p->ok)
        {
            R.fail("harness:generator", "generator produced an invalid program: " + src);
            return BAD;
        }
        return check(key, src, *p, env_out, rel, state);
    }

    Result check(const std::string& key, const std::string& src, const Parse& p, Env* env_out = nullptr, double rel = 1e-9,
                 bool state = true)
    {
        Env local;
        Env& e = env_out ? *env_out : local;
        R.note_more("\n>>> " + src);
        bind(p, e);
        F want;
        bool defined = run_model(p, e, want);
        if (!defined)
        {
            R.count(e.toolong ? "skipped_toolong" : "skipped_unspecified");
            return SKIP; // model and real states differ now: the lab must not be used any more
        }
        F got;
        {
            StepGuard g(20000000 + e.steps * 400);
            Code own;
            Code& c = handle ? *handle : own;
            if (!c)
            {
                c.h = projectm_eval_code_compile(ctx, src.c_str());
            }
            if (!c)
            {
                int line, col;
                const char* err = projectm_eval_get_error(ctx, &line, &col);
                R.fail(key + ":rejected", fmt("valid program rejected (%d:%d %s):\n", line, col, err ? err : "(null)") + src);
                return BAD;
            }
            got = c.run();
        }
        R.count("programs_executed");
        R.count("model_steps", e.steps);
        bool integer = exact_integers && std::fabs((double) want) < 1e15 && want == std::floor(want);
        if (!same_number((double) got, (double) want, integer ? 0 : rel))
        {
            R.fail(key + ":value", "program:\n" + src + "\nresult " + num((double) got) + ", expected " + num((double) want));
            return BAD;
        }
        if (state)
        {
            std::string d = diff(rel);
            if (!d.empty())
            {
                R.fail(key + ":state", "program:\n" + src + "\nafter execution " + d);
                return BAD;
            }
        }
        return MATCH;
    }
};

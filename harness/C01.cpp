// C01: hostile texts and states. The oracle is the sanitizer (or a crash of the uninstrumented build): nothing may be
// reported, and the process must survive. Texts that reach new code are kept and mutated further.
#include "texts.hpp"

static unsigned covered;

static FILE* dump;

void harness_init()
{
    for (auto s : seeds)
    {
        corpus.push_back(s);
    }
    if (R.mode == "dump")
    {
        dump = fopen(R.extra.c_str(), "wb");
        if (!dump)
        {
            exit(96);
        }
    }
}

void harness_done()
{
    R.counters["max_texts_kept_for_new_edges"] = corpus.size() - sizeof(seeds) / sizeof(seeds[0]);
    if (dump)
    {
        fclose(dump);
    }
}

void harness_case()
{
    Rng& r = R.rng;
    if (dump)
    {
        std::string s = any_text(r);
        for (auto& c : s)
        {
            c = c ? c : ' ';
        }
        uint32_t n = (uint32_t) s.size();
        fwrite(&n, 4, 1, dump);
        fwrite(s.data(), 1, n, dump);
        ++R.evaluations;
        return;
    }
    F regs[100];
    for (auto& x : regs)
    {
        x = r.chance(80) ? 0 : extreme_value(r);
    }
    bool own = r.chance(50);
    projectm_eval_mem_buffer g = own ? projectm_eval_memory_buffer_create() : nullptr;
    projectm_eval_context* c = projectm_eval_context_create(g, r.chance(50) ? &regs : nullptr);
    std::vector<F*> vars;
    for (const char* n : {"a", "b", "c", "x", "x1", "reg00", "i", "tr"})
    {
        vars.push_back(projectm_eval_context_register_variable(c, n));
    }
    std::vector<projectm_eval_code*> handles;
    int texts = r.range(4, 10);
    for (int t = 0; t < texts; ++t)
    {
        std::string s = any_text(r);
        R.note(s);
        // exact-size copy, so that reading beyond the terminator is detected
        size_t n = strlen(s.c_str());
        char* text = new char[n + 1];
        memcpy(text, s.c_str(), n + 1);
        projectm_eval_code* h;
        {
            StepGuard guard(400000000ull);
            h = projectm_eval_code_compile(c, text);
        }
        memset(text, '(', n); // the library may not keep a pointer into the caller's text
        delete[] text;
        ++R.evaluations;
        R.distinct(hash_str(s));
        int line, col;
        const char* err = projectm_eval_get_error(c, r.chance(50) ? &line : nullptr, r.chance(50) ? &col : nullptr);
        if (err)
        {
            R.count("error_text_bytes", strlen(err));
        }
        R.count(h ? "compiled" : "rejected");
        if (h)
        {
            handles.push_back(h);
        }
        unsigned k = hk_edges_covered();
        if (k > covered)
        {
            covered = k;
            corpus.push_back(s.substr(0, 2000));
        }
        for (int e = r.range(1, 3); e > 0 && !handles.empty(); --e)
        {
            for (auto v : vars)
            {
                if (r.chance(40))
                {
                    *v = extreme_value(r);
                }
            }
            projectm_eval_code* x = e == 1 && h ? h : r.pick(handles);
            uint64_t budget = r.chance(2) ? 40000000 : 150000;
            F result;
            R.count(run_limited(x, budget, result) ? "executions_completed" : "executions_stopped_by_budget");
            k = hk_edges_covered();
            if (k > covered)
            {
                covered = k;
                corpus.push_back(s.substr(0, 2000));
            }
        }
        if (r.chance(15) && !handles.empty())
        {
            size_t i = r.below((uint32_t) handles.size());
            projectm_eval_code_destroy(handles[i]);
            handles.erase(handles.begin() + (long) i);
        }
        if (r.chance(10))
        {
            projectm_eval_context_free_memory(c);
        }
        if (r.chance(5))
        {
            projectm_eval_context_reset_variables(c);
        }
    }
    if (r.chance(50))
    {
        for (auto h : handles)
        {
            projectm_eval_code_destroy(h);
        }
        projectm_eval_context_destroy(c);
    }
    else
    {
        projectm_eval_context_destroy(c);
        for (auto h : handles)
        {
            projectm_eval_code_destroy(h);
        }
    }
    if (own)
    {
        projectm_eval_memory_buffer_destroy(g);
    }
    else if (r.chance(30))
    {
        projectm_eval_memory_global_destroy();
    }
    R.sample(corpus.back());
}

// C02: ledger of the library's allocations (wrapped allocator) and of the whole heap (mallinfo2): steady cycles don't
// grow, and nothing is left after everything has been destroyed, in any order, wherever compilation fails.
#include "gen.hpp"

#include <malloc.h>

static std::set<std::string> failure_points;

static const char* const breakers[] = {" ) ", " sin(1,2) ", " = = ", " 1 2 ", " # ", " ( ", " if(a) ", " , ", " gmem ", " [ ", " newa newb ", " a = ; ", " $ ", " loop(1,2,3) ", " a(1) ", " ] ", " rand() ", " megabuf(1,2) ", " _set(a) ", " ? ", " : ", " ! ", " ; ; ) "};

void harness_init() { mallopt(M_MXFAST, 0); }
void harness_done() { R.counters["set_distinct_failure_situations"] = failure_points.size(); }

static size_t heap()
{
    struct mallinfo2 m = mallinfo2();
    return m.uordblks + m.hblkhd;
}

// Whole-heap growth is noisy (allocator caches), so it only starts a long confirmation: every round must really cost memory.
template<class Cycle> static bool keeps_growing(Cycle cycle)
{
    size_t at[3];
    R.count("heap_growth_confirmations");
    for (int k = 0; k < 3; ++k)
    {
        for (int i = 0; i < 300; ++i)
        {
            cycle();
        }
        at[k] = heap();
    }
    return at[1] >= at[0] + 300 * 24 && at[2] >= at[1] + 300 * 24;
}

static std::string program(Rng& r)
{
    GenOpt o;
    o.regs = o.loops = o.lists = o.blockops = o.freembuf = o.rand = true;
    o.max_depth = r.range(1, 4);
    o.idx = {"0", "1", "65536", "200000", "8388607"};
    Gen g(r, o);
    return g.program(1, 5);
}

static std::string broken(Rng& r, const std::string& src, const char*& how, size_t& at)
{
    auto toks = lex(src);
    toks.pop_back();
    at = r.below((uint32_t) toks.size() + 1);
    int kind = r.range(0, 3);
    std::string s;
    how = kind == 0 ? "cut" : kind == 1 ? "drop" : kind == 2 ? "insert" : "double";
    for (size_t i = 0; i < toks.size() || i == at; ++i)
    {
        if (i == at)
        {
            if (kind == 0)
            {
                break;
            }
            if (kind == 1)
            {
                continue;
            }
            if (kind == 2)
            {
                how = r.pick(breakers);
                s += how;
            }
            else if (i < toks.size())
            {
                s += toks[i].text + " ";
            }
        }
        if (i < toks.size())
        {
            s += toks[i].text + " ";
        }
    }
    return s;
}

// The same cycle several times in one context: memory use settles after at most two rounds.
static void steady(Rng& r)
{
    long base = hk_live_allocs, base_bytes = hk_live_bytes;
    bool own = r.chance(60);
    bool given_regs = r.chance(60);
    static F regs[100];
    projectm_eval_mem_buffer g = own ? projectm_eval_memory_buffer_create() : nullptr;
    projectm_eval_context* c = projectm_eval_context_create(g, given_regs ? &regs : nullptr);
    std::vector<std::string> texts;
    int n = r.range(1, 5);
    std::string log;
    for (int i = 0; i < n; ++i)
    {
        std::string s = program(r);
        if (r.chance(60))
        {
            const char* how;
            size_t at;
            std::string b = broken(r, s, how, at);
            auto p = parse(b);
            if (!p->ok)
            {
                failure_points.insert(std::string(how) + "/" + (p->at_eof ? std::string("end") : p->argcount ? p->fn_name : p->toks[p->err_token].text.substr(0, 8)));
            }
            s = b;
        }
        texts.push_back(s);
        log += s + "\n";
    }
    R.note(log);
    int order = r.range(0, 2);
    bool reset = r.chance(30), freemem = r.chance(30);
    long live[8];
    long bytes[8];
    size_t heaps[8];
    projectm_eval_code* h[8];
    int ok = 0;
    for (int round = 0; round < 7; ++round)
    {
        ok = 0;
        for (size_t i = 0; i < texts.size(); ++i)
        {
            StepGuard guard(400000000ull);
            h[i] = projectm_eval_code_compile(c, texts[i].c_str());
            if (h[i])
            {
                ++ok;
                F v;
                run_limited(h[i], 200000, v);
            }
        }
        for (size_t i = 0; i < texts.size(); ++i)
        {
            size_t k = order == 0 ? i : texts.size() - 1 - i;
            if (h[k])
            {
                projectm_eval_code_destroy(h[k]);
            }
        }
        if (reset)
        {
            projectm_eval_context_reset_variables(c);
        }
        if (freemem)
        {
            projectm_eval_context_free_memory(c);
        }
        live[round] = hk_live_allocs;
        bytes[round] = hk_live_bytes;
        heaps[round] = heap();
    }
    R.evaluations += 7 * texts.size();
    R.count("compiled", 7 * (uint64_t) ok);
    R.count("rejected", 7 * (texts.size() - (size_t) ok));
    R.count("cycles", 7);
    for (auto& s : texts)
    {
        R.distinct(hash_str(s));
    }
    // Execution may use different memory blocks in different rounds (the programs read what they wrote); only the
    // blocks themselves may differ, and they are bounded by the address range. Failing texts and programs that
    // allocate no block must be steady exactly.
    long block = 65536 * (long) sizeof(F);
    long d = live[6] - live[2], db = bytes[6] - bytes[2];
    // Freeing the context's memory leaves the shared buffer alone, which may still grow.
    std::string low = log;
    for (char& ch : low)
    {
        ch = (char) tolower((unsigned char) ch);
    }
    bool none_left = freemem && low.find("gmem") == std::string::npos;
    long blocks = none_left ? 0 : d;
    if (d < 0 || (d > 0 && (none_left || db < blocks * block || d > 256)))
    {
        R.fail("C02:growth", log + fmt("live allocations after rounds 1..7 of the same compile/execute/destroy cycle: %ld %ld %ld %ld %ld %ld %ld (bytes %ld %ld .. %ld)", live[0], live[1], live[2], live[3], live[4], live[5], live[6], bytes[0],
                                       bytes[1], bytes[6]));
    }
    else if (d == 0 && db != 0)
    {
        R.fail("C02:growth bytes", log + fmt("live bytes grew from %ld to %ld in the same cycle", bytes[2], bytes[6]));
    }
    else if (d == 0 && heaps[6] > heaps[2] && keeps_growing([&] {
                 for (auto& t : texts)
                 {
                     StepGuard guard(400000000ull);
                     if (projectm_eval_code* x = projectm_eval_code_compile(c, t.c_str()))
                     {
                         projectm_eval_code_destroy(x);
                     }
                 }
             }))
    {
        R.fail("C02:heap growth", log + fmt("heap use grew from %zu to %zu bytes in the same cycle, although the wrapped allocations did not", heaps[2], heaps[6]));
    }
    int last = r.range(0, 2);
    projectm_eval_code* extra = projectm_eval_code_compile(c, "q=1+megabuf(3)+gmem[70000]");
    if (last == 0)
    {
        projectm_eval_code_destroy(extra);
    }
    if (last == 1 && own)
    {
        projectm_eval_memory_buffer_destroy(g);
    }
    projectm_eval_context_destroy(c);
    if (last != 0)
    {
        projectm_eval_code_destroy(extra);
    }
    if (last != 1 && own)
    {
        projectm_eval_memory_buffer_destroy(g);
    }
    if (!own)
    {
        projectm_eval_memory_global_destroy();
    }
    R.count("teardowns");
    if (hk_live_allocs != base || hk_live_bytes != base_bytes)
    {
        R.fail("C02:left over", log + fmt("%ld allocations (%ld bytes) are left after everything was destroyed (order %d)", hk_live_allocs - base, hk_live_bytes - base_bytes, last));
    }
    R.sample(log);
}

// One program broken at every token, each failing compile repeated.
static void every_token(Rng& r)
{
    long base = hk_live_allocs, base_bytes = hk_live_bytes;
    projectm_eval_context* c = projectm_eval_context_create(nullptr, nullptr);
    std::string src = program(r);
    auto toks = lex(src);
    toks.pop_back();
    if (toks.size() > 60)
    {
        toks.resize(60);
    }
    R.note(src);
    // All names known beforehand, so that nothing but the failing compile itself can allocate.
    for (const char* n : {"a", "b", "c", "x", "newa", "newb", "reg00"})
    {
        projectm_eval_context_register_variable(c, n);
    }
    for (size_t at = 0; at <= toks.size(); ++at)
    {
        std::string s;
        const char* how = r.chance(20) ? nullptr : r.pick(breakers);
        for (size_t i = 0; i < toks.size() || i == at; ++i)
        {
            if (i == at)
            {
                if (!how)
                {
                    break;
                }
                s += how;
            }
            if (i < toks.size())
            {
                s += toks[i].text + " ";
            }
        }
        R.note(s);
        long live[4] = {0};
        long bytes[4] = {0};
        size_t heaps[4] = {0};
        bool ok = false;
        for (int k = 0; k < 4; ++k)
        {
            StepGuard guard(400000000ull);
            projectm_eval_code* h = projectm_eval_code_compile(c, s.c_str());
            ok = h != nullptr;
            if (h)
            {
                projectm_eval_code_destroy(h);
            }
            live[k] = hk_live_allocs;
            bytes[k] = hk_live_bytes;
            heaps[k] = heap();
        }
        R.evaluations += 4;
        R.count(ok ? "compiled" : "rejected", 4);
        R.count("token_positions");
        R.distinct(hash_str(s));
        bool grows = heaps[3] > heaps[1] && keeps_growing([&] {
            StepGuard guard(400000000ull);
            if (projectm_eval_code* h = projectm_eval_code_compile(c, s.c_str()))
            {
                projectm_eval_code_destroy(h);
            }
        });
        if (live[3] != live[1] || bytes[3] != bytes[1] || grows)
        {
            R.fail(std::string("C02:") + (ok ? "compile" : "failed compile") + " grows", s + fmt("\nlive allocations after 1..4 compilations: %ld %ld %ld %ld, bytes %ld %ld %ld %ld, heap %zu %zu %zu %zu", live[0], live[1], live[2], live[3], bytes[0], bytes[1],
                                                                                           bytes[2], bytes[3], heaps[0], heaps[1], heaps[2], heaps[3]));
            break;
        }
    }
    projectm_eval_context_destroy(c);
    projectm_eval_memory_global_destroy();
    R.count("teardowns");
    if (hk_live_allocs != base || hk_live_bytes != base_bytes)
    {
        R.fail("C02:left over", src + fmt("\n%ld allocations (%ld bytes) are left after the context was destroyed", hk_live_allocs - base, hk_live_bytes - base_bytes));
    }
}

static std::string rep(const std::string& s, int n)
{
    std::string o;
    for (int i = 0; i < n; ++i)
    {
        o += s;
    }
    return o;
}

// Programs of every size, complete or broken at the end: many of them in one context, destroyed in any order.
static uint64_t biggest;
static void sizes(Rng& r)
{
    long base = hk_live_allocs, base_bytes = hk_live_bytes;
    static F regs[100];
    projectm_eval_mem_buffer g = r.chance(50) ? projectm_eval_memory_buffer_create() : nullptr;
    projectm_eval_context* c = projectm_eval_context_create(g, r.chance(50) ? &regs : nullptr);
    std::vector<projectm_eval_code*> h;
    std::string log;
    int n = r.range(1, 4), accepted = 0;
    for (int i = 0; i < n; ++i)
    {
        int size = (int) std::exp(r.unit() * std::log(r.chance(10) ? 12000.0 : 700.0));
        int lim = std::min(size, 600);
        std::string name = "v" + rep("n", std::min(size, 3000)), s;
        int k = r.range(0, 11);
        switch (k)
        {
            case 0: s = "a" + rep("+a", size); break;
            case 1: s = "a=1" + rep(";a+=b", std::min(size, 4000)); break;
            case 2: s = rep("sin(", lim) + "a" + rep(")", lim); break;
            case 3: s = rep("(", lim) + "a" + rep(")", lim); break;
            case 4: s = rep("-", lim) + "a" + rep("*!b", size); break;
            case 5: s = name + "=1;" + name + "+=2"; break;
            case 6:
                s = "0";
                for (int v = 0; v < lim; ++v)
                {
                    s += fmt("+var%d", v);
                }
                break;
            case 7: s = "1" + rep("0", size) + "+." + rep("5", size); break;
            case 8: s = rep("a=", lim) + "1"; break;
            case 9: s = rep("if(a,", std::min(lim, 300)) + "b" + rep(",0)", std::min(lim, 300)); break;
            case 10: s = "1" + rep("&&a", size) + rep("||megabuf(1)", lim); break;
            default: s = "exec3(" + rep("a=1;", lim) + "b,(" + rep("1;b;", lim) + "c),loop(2,gmem[3]+=1" + rep(";a", lim) + "))"; break;
        }
        if (r.chance(35))
        {
            s += r.pick(breakers);
        }
        biggest = std::max(biggest, (uint64_t) size);
        log += fmt("size %d: ", size) + (s.size() < 300 ? s : s.substr(0, 100) + fmt(" ...(%zu bytes)... ", s.size()) + s.substr(s.size() - 100)) + "\n";
        R.note(log);
        StepGuard guard(4000000000ull);
        int times = r.range(1, 2);
        long live = 0;
        for (int t = 0; t < 1 + times; ++t)
        {
            projectm_eval_code* x = projectm_eval_code_compile(c, s.c_str());
            ++R.evaluations;
            if (x)
            {
                F v;
                run_limited(x, 200000, v);
                if (t == 0 || r.chance(50))
                {
                    h.push_back(x);
                    ++accepted;
                }
                else
                {
                    projectm_eval_code_destroy(x);
                }
            }
            else if (t == 1)
            {
                live = hk_live_allocs;
            }
            else if (t == 2 && hk_live_allocs != live)
            {
                R.fail("C02:failed compile grows", log + fmt("live allocations after failing to compile it repeatedly: %ld, %ld", live, hk_live_allocs));
            }
        }
        R.distinct(hash_str(s));
    }
    R.count("programs_of_many_sizes", (uint64_t) n);
    R.count("compiled", (uint64_t) accepted);
    bool late = r.chance(30);
    if (late)
    {
        projectm_eval_context_destroy(c);
    }
    while (!h.empty())
    {
        size_t at = r.below((uint32_t) h.size());
        projectm_eval_code_destroy(h[at]);
        h.erase(h.begin() + (long) at);
    }
    if (!late)
    {
        projectm_eval_context_destroy(c);
    }
    if (g)
    {
        projectm_eval_memory_buffer_destroy(g);
    }
    projectm_eval_memory_global_destroy();
    R.count("teardowns");
    if (hk_live_allocs != base || hk_live_bytes != base_bytes)
    {
        R.fail("C02:left over", log + fmt("%ld allocations (%ld bytes) are left after everything was destroyed", hk_live_allocs - base, hk_live_bytes - base_bytes));
    }
    R.counters["max_program_size"] = biggest;
}

void harness_case()
{
    if (R.case_index % 10 == 9)
    {
        sizes(R.rng);
    }
    else if (R.case_index % 3 == 0)
    {
        every_token(R.rng);
    }
    else
    {
        steady(R.rng);
    }
}

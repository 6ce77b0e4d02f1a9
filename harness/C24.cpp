// C24: allocation failures. Creation: the k-th allocation, all from the k-th on, and random subsets fail, for every k.
// Execution: block allocations fail the same way; a failed access must behave exactly like an access to index -1 (twin
// context), blocks that exist must be unaffected, and everything must work again afterwards.
#include "lab.hpp"

static long seen_allocs, fail_from = -1, fail_to = -1; // failing range of allocation numbers, counted from arm()
static uint64_t fail_mask_seed;
static int fail_percent;
static bool blocks_only;
static const size_t BLOCK = 65536 * sizeof(F);
static std::set<std::string> situations;

static int decide(size_t size)
{
    if (blocks_only && size < BLOCK)
    {
        return 0;
    }
    long k = seen_allocs++;
    if (fail_percent)
    {
        return (int) (mix64(fail_mask_seed + (uint64_t) k) % 100) < fail_percent;
    }
    return fail_from >= 0 && k >= fail_from && k < fail_to;
}

static void arm(bool blocks, long from, long to, int percent = 0, uint64_t seed = 0)
{
    seen_allocs = 0;
    blocks_only = blocks;
    fail_from = from;
    fail_to = to;
    fail_percent = percent;
    fail_mask_seed = seed;
    hk_alloc_decide = decide;
}

static void disarm() { hk_alloc_decide = nullptr; }

void harness_init() {}
void harness_done() { R.counters["set_failure_situations"] = situations.size(); }

static bool works(projectm_eval_context* c, double v)
{
    Code x(c, fmt("zz=%g;megabuf(70000)=zz+1;gmem[70000]=zz+2;reg07=zz+3;sin(0)+zz", v));
    return x && (double) x.run() == v;
}

// ------------------------------------------------------------------ creation
static void creation(Rng& r)
{
    bool builtin_exists = r.chance(60), custom = r.chance(40), given_regs = r.chance(50);
    static F regs[100];
    R.note(fmt("creation: built-in gmegabuf %s, %s gmegabuf, %s registers", builtin_exists ? "exists" : "doesn't exist", custom ? "custom" : "built-in", given_regs ? "own" : "built-in"));
    projectm_eval_memory_global_destroy();
    Lab other; // must stay undisturbed; owns a custom gmegabuf
    F* zz = projectm_eval_context_register_variable(other.ctx, "zz");
    projectm_eval_context* keep = builtin_exists ? projectm_eval_context_create(nullptr, nullptr) : nullptr;
    projectm_eval_mem_buffer g = custom ? projectm_eval_memory_buffer_create() : nullptr;
    long base = hk_live_allocs, base_bytes = hk_live_bytes;

    // fault-free: how many allocations?
    arm(false, -1, -1);
    projectm_eval_context* c = projectm_eval_context_create(g, given_regs ? &regs : nullptr);
    disarm();
    long n = seen_allocs;
    if (!c)
    {
        R.fail("C24:create", "a context could not be created without failures");
        return;
    }
    projectm_eval_context_destroy(c);
    if (!builtin_exists)
    {
        projectm_eval_memory_global_destroy();
    }
    if (hk_live_allocs != base || hk_live_bytes != base_bytes)
    {
        R.fail("C24:leak", fmt("creating and destroying a context leaves %ld allocations", hk_live_allocs - base));
        return;
    }
    int style = r.range(0, 3);
    static const char* const names[] = {"single", "all from", "two", "random"};
    for (long k = 0; k < n; ++k)
    {
        if (style == 3)
        {
            arm(false, -1, -1, r.pick(std::vector<int>{1, 2, 5, 30, 90}), r.u64());
        }
        else
        {
            arm(false, k, style == 0 ? k + 1 : style == 1 ? LONG_MAX : k + 2);
        }
        long inj = hk_injected;
        R.note(fmt("create context (%s gmegabuf, built-in %s), failure style %s, k=%ld of %ld", custom ? "custom" : "built-in", builtin_exists ? "exists" : "doesn't exist", names[style], k, n));
        c = projectm_eval_context_create(g, given_regs ? &regs : nullptr);
        disarm();
        long injected = hk_injected - inj;
        ++R.evaluations;
        R.count("creations_with_failures", injected > 0);
        R.count("injected_failures", (uint64_t) injected);
        R.distinct(hash_str(fmt("%d/%d/%d/%d/%ld", style, builtin_exists, custom, given_regs, k)));
        situations.insert(fmt("create %d %d %d %ld", style, builtin_exists, custom, k));
        std::string what = fmt("context creation, %s, allocation %ld of %ld: ", names[style], k + 1, n);
        if (injected && c)
        {
            R.fail("C24:created anyway", what + "a context was returned although an allocation failed");
            projectm_eval_context_destroy(c);
            return;
        }
        if (!injected && !c)
        {
            R.fail("C24:create", what + "NULL without any failure");
            return;
        }
        if (c)
        {
            if (!works(c, 3))
            {
                R.fail("C24:broken", what + "the context doesn't work");
            }
            projectm_eval_context_destroy(c);
        }
        if (!builtin_exists)
        {
            projectm_eval_memory_global_destroy();
        }
        if (!custom && builtin_exists)
        {
            // works() allocated a block of the surviving built-in buffer
            base = c ? hk_live_allocs : base;
            base_bytes = c ? hk_live_bytes : base_bytes;
        }
        if (custom && c)
        {
            base = hk_live_allocs;
            base_bytes = hk_live_bytes;
        }
        if (hk_live_allocs != base || hk_live_bytes != base_bytes)
        {
            R.fail("C24:leak", what + fmt("%ld allocations (%ld bytes) are left", hk_live_allocs - base, hk_live_bytes - base_bytes));
            return;
        }
    }
    if (hk_lock_depth)
    {
        R.fail("C24:lock", "the host mutex is still held");
    }
    // buffers
    for (int k = 0; k < 3; ++k)
    {
        long b0 = hk_live_allocs, inj = hk_injected;
        arm(false, k, LONG_MAX);
        projectm_eval_mem_buffer b = projectm_eval_memory_buffer_create();
        disarm();
        ++R.evaluations;
        if ((hk_injected - inj > 0) != (b == nullptr))
        {
            R.fail("C24:buffer", fmt("buffer creation with failing allocation %d: %s", k + 1, b ? "a buffer was returned" : "NULL without failure"));
        }
        if (b)
        {
            projectm_eval_memory_buffer_destroy(b);
        }
        if (hk_live_allocs != b0)
        {
            R.fail("C24:leak", "buffer creation leaks");
        }
    }
    // everything still works
    c = projectm_eval_context_create(g, given_regs ? &regs : nullptr);
    if (!c || !works(c, 4) || !works(other.ctx, 5) || *zz != 5 || (keep && !works(keep, 6)))
    {
        R.fail("C24:afterwards", "contexts don't work after failed creations");
    }
    if (c)
    {
        projectm_eval_context_destroy(c);
    }
    if (keep)
    {
        projectm_eval_context_destroy(keep);
    }
    if (g)
    {
        projectm_eval_memory_buffer_destroy(g);
    }
    projectm_eval_memory_global_destroy();
}

// ------------------------------------------------------------------ execution: independent accesses to distinct blocks
struct Access
{
    bool global;
    int64_t i;
    int kind;
    std::string text(bool oob, int k) const
    {
        std::string idx = oob ? "(-1)" : std::to_string(i);
        std::string loc = global ? "gmem[" + idx + "]" : "megabuf(" + idx + ")";
        static const char* const t[] = {"r%d=(%s=%d)", "r%d=(%s+=%d)", "r%d=exec2(%s=%d,7)", "r%d=%s", "r%d=if(%s=%d,11,12)", "r%d=assign(%s,%d)+1", "(q=%s)=%d;r%d=q+%s", "r%d=_addop(%s,%d)"};
        std::string o;
        for (const char* p = t[kind]; *p; ++p)
        {
            if (p[0] == '%' && p[1] == 's')
            {
                o += loc;
                ++p;
            }
            else if (p[0] == '%' && p[1] == 'd')
            {
                o += p > t[kind] && p[-1] == 'r' ? std::to_string(k) : std::to_string(100 + k);
                ++p;
            }
            else
            {
                o += *p;
            }
        }
        return o;
    }
    bool writes() const { return kind != 3; }
};

static bool twin(Rng& r)
{
    int n = r.range(2, 7);
    std::vector<Access> a;
    std::set<std::pair<bool, int64_t>> used;
    std::string src;
    for (int k = 0; k < n; ++k)
    {
        Access x;
        do
        {
            x.global = r.chance(50);
            x.i = (int64_t) r.range(0, 127) * 65536 + (r.chance(30) ? 0 : r.chance(30) ? 65535 : r.range(0, 65535));
        } while (used.count({x.global, x.i >> 16}));
        used.insert({x.global, x.i >> 16});
        // kind 6 accesses its location twice; used only if all allocations fail
        x.kind = r.range(0, 5);
        a.push_back(x);
        src += (k ? ";" : "") + x.text(false, k);
    }
    int style = r.range(0, 3);
    for (long k = 0; k < (style == 3 ? 3 : n); ++k)
    {
        Lab lab;
        for (int j = 0; j < n; ++j)
        {
            lab.set(fmt("r%d", j), (F) -1);
        }
        lab.set("u", (F) 55);
        Code c(lab.ctx, src);
        R.note(fmt("failure style %d k=%ld\n", style, k) + src);
        if (!c)
        {
            R.fail("C24:rejected", src);
            return false;
        }
        long inj = hk_injected;
        if (style == 3)
        {
            arm(true, -1, -1, r.range(10, 90), r.u64());
        }
        else
        {
            arm(true, k, style == 0 ? k + 1 : style == 1 ? LONG_MAX : k + 2);
        }
        c.run();
        disarm();
        long injected = hk_injected - inj;
        ++R.evaluations;
        R.count("executions_with_failures", injected > 0);
        R.count("injected_failures", (uint64_t) injected);
        R.distinct(hash_str(src + fmt("%d/%ld", style, k)));
        situations.insert(fmt("execute %d %ld %d", style, k, n));
        // Which writes were discarded?
        std::vector<bool> lost((size_t) n, false);
        long discarded = 0;
        for (int j = 0; j < n; ++j)
        {
            double v = (double) lab.peek(a[(size_t) j].global, a[(size_t) j].i);
            if (a[(size_t) j].writes())
            {
                if (v == 0)
                {
                    lost[(size_t) j] = true;
                    ++discarded;
                }
                else if (v != 100 + j)
                {
                    R.fail("C24:slot", src + fmt("\nslot %lld is ", (long long) a[(size_t) j].i) + num(v));
                    return false;
                }
            }
            else if (v != 0)
            {
                R.fail("C24:slot", src + fmt("\nslot %lld that was only read is ", (long long) a[(size_t) j].i) + num(v));
                return false;
            }
        }
        if (discarded > injected)
        {
            R.fail("C24:discarded", src + fmt("\n%ld writes were discarded, but only %ld allocations failed", discarded, injected));
            return false;
        }
        R.count("discarded_writes", (uint64_t) discarded);
        // The same program with the failed accesses out of range must leave the same results.
        std::string src2;
        for (int j = 0; j < n; ++j)
        {
            src2 += (j ? ";" : "") + a[(size_t) j].text(lost[(size_t) j], j);
        }
        Lab two;
        for (int j = 0; j < n; ++j)
        {
            two.set(fmt("r%d", j), (F) -1);
        }
        Code d(two.ctx, src2);
        d.run();
        for (int j = 0; j < n; ++j)
        {
            F x = *lab.vars[fmt("r%d", j)].first, y = *two.vars[fmt("r%d", j)].first;
            R.count("results_compared");
            if (x != y)
            {
                R.fail("C24:result", src + fmt("\nstyle %d k %ld: r%d is ", style, k, j) + num((double) x) + ", an out-of-range access instead (" + src2 + ") leaves " + num((double) y));
                return false;
            }
        }
        if (*lab.vars["u"].first != 55 || hk_lock_depth)
        {
            R.fail("C24:disturbed", src + "\nanother variable changed or the mutex is still held");
            return false;
        }
        // Again with memory: everything succeeds.
        c.run();
        for (int j = 0; j < n; ++j)
        {
            double v = (double) lab.peek(a[(size_t) j].global, a[(size_t) j].i), w = 0;
            if (a[(size_t) j].writes())
            {
                w = 100 + j;
                if (a[(size_t) j].kind == 1 && !lost[(size_t) j])
                {
                    w += w;
                }
            }
            if (v != w)
            {
                R.fail("C24:again", src + fmt("\nrun again with memory available: slot %lld is ", (long long) a[(size_t) j].i) + num(v) + ", expected " + num(w));
                return false;
            }
        }
    }
    R.sample(src);
    return true;
}

// ------------------------------------------------------------------ execution: no further block can be allocated
static bool exhausted(Rng& r)
{
    Lab lab;
    std::set<int64_t> have[2];
    for (int g = 0; g < 2; ++g)
    {
        for (int k = r.range(0, 2); k > 0; --k)
        {
            int64_t b = r.range(0, 3);
            if (have[g].insert(b).second)
            {
                *projectm_eval_context_register_variable(lab.ctx, "__v") = (F) (b + 1);
                Code c(lab.ctx, fmt(g ? "gmem[%lld]=__v" : "megabuf(%lld)=__v", (long long) b * 65536 + 5));
                c.run();
                *(g ? lab.gmem : lab.mem).at(b * 65536 + 5) = (F) (b + 1);
            }
        }
    }
    GenOpt o;
    o.regs = o.lists = true;
    o.loops = r.chance(40);
    o.idx = {"0", "1", "5", "65536", "65541", "131072", "131077", "196608", "196613", "x"};
    o.max_depth = r.range(1, 4);
    Gen g(r, o);
    lab.mem.only = &have[0];
    lab.gmem.only = &have[1];
    for (auto v : {"a", "b", "c", "x"})
    {
        lab.set(v, (F) r.range(0, 9));
    }
    for (int k = 0; k < 4; ++k)
    {
        std::string s = g.program(1, 3);
        R.note("no memory: " + s);
        auto p = parse(s);
        Code c(lab.ctx, s);
        if (!p->ok || !c)
        {
            R.fail("C24:rejected", s);
            return false;
        }
        Env e;
        lab.bind(*p, e);
        F want;
        if (!run_model(*p, e, want))
        {
            R.count("skipped_unspecified");
            return true;
        }
        long inj = hk_injected;
        F got;
        {
            StepGuard guard(20000000 + e.steps * 400);
            arm(true, 0, LONG_MAX);
            got = c.run();
        }
        ++R.evaluations;
        R.count("programs_without_memory");
        R.count("injected_failures", (uint64_t) (hk_injected - inj));
        R.distinct(hash_str("x" + s));
        std::string d;
        if (!same_number((double) got, (double) want))
        {
            d = "result " + num((double) got) + ", expected " + num((double) want);
        }
        else
        {
            d = lab.diff(); // still without memory
        }
        disarm();
        if (!d.empty())
        {
            R.fail("C24:no memory", s + "\nwithout memory for further blocks (existing: megabuf " + fmt("%zu, gmegabuf %zu", have[0].size(), have[1].size()) + "): " + d);
            return false;
        }
    }
    // Memory available again.
    std::string d = lab.diff();
    if (d.empty())
    {
        lab.mem.only = lab.gmem.only = nullptr;
        std::string s = "megabuf(131072)=41;gmem[196608]=42;megabuf(131072)+gmem[196608]";
        Code c(lab.ctx, s);
        if (c.run() != 83)
        {
            d = "accesses still fail";
        }
    }
    if (!d.empty())
    {
        R.fail("C24:recovery", "with memory available again: " + d);
        return false;
    }
    R.count("recoveries");
    return true;
}

// ------------------------------------------------------------------ memset/memcpy stop at a block that can't be allocated
static bool blockops(Rng& r)
{
    Lab lab;
    bool global = false; // both functions work on megabuf
    F* d = projectm_eval_context_register_variable(lab.ctx, "d");
    F* s = projectm_eval_context_register_variable(lab.ctx, "s");
    F* n = projectm_eval_context_register_variable(lab.ctx, "n");
    Code set(lab.ctx, "memset(d,9,n)"), cpy(lab.ctx, "memcpy(d,s,n)"), put(lab.ctx, "megabuf(d)=s");
    std::set<int64_t> have;
    std::map<int64_t, F> slots;
    auto missing = [&](int64_t i) { return !have.count(i >> 16); };
    for (int64_t b = 0; b < 6; ++b)
    {
        if (r.chance(60))
        {
            have.insert(b);
        }
    }
    bool copy = r.chance(50);
    int64_t dst, src = 0, len = r.range(1, 200000);
    dst = r.chance(50) ? r.range(0, 65536 * 4) : r.range(0, 3) * 65536 + r.range(-40, 40);
    dst = dst < 0 ? 0 : dst;
    if (copy)
    {
        do
        {
            src = r.chance(50) ? r.range(0, 65536 * 4) : r.range(0, 3) * 65536 + r.range(0, 40);
            len = r.chance(50) ? r.range(1, 140000) : r.range(1, 90);
        } while ((src < dst && src + len > dst)); // the copy direction of overlapping areas is not specified
    }
    else if (r.chance(40))
    {
        len = r.range(1, 90);
    }
    // Values around all borders
    std::set<int64_t> watch;
    for (int64_t p : {dst, dst + len, src, src + len})
    {
        for (int64_t q = -3; q <= 3; ++q)
        {
            watch.insert(p + q);
        }
    }
    for (int64_t b = 0; b < 7; ++b)
    {
        for (int64_t q : {-2, -1, 0, 1, 30000})
        {
            watch.insert(b * 65536 + q);
            watch.insert(b * 65536 + q + dst - src);
            watch.insert(b * 65536 + q + src - dst);
        }
    }
    for (int k = 0; k < 40; ++k)
    {
        watch.insert(dst + r.range(0, (int) len));
    }
    for (int64_t p : watch)
    {
        if (p >= 0 && p < 6 * 65536 && !missing(p))
        {
            *d = (F) p;
            *s = (F) (p % 10007 + 1);
            put.run();
            slots[p] = *s;
        }
        if (copy && p - dst + src >= 0 && p - dst + src < 6 * 65536 && !missing(p - dst + src) && !slots.count(p - dst + src))
        {
            *d = (F) (p - dst + src);
            *s = (F) ((p - dst + src) % 10007 + 1);
            put.run();
            slots[p - dst + src] = *s;
        }
    }
    std::map<int64_t, F> old = slots;
    auto before = [&](int64_t i) {
        auto it = old.find(i);
        return it == old.end() ? (F) 0 : it->second;
    };
    // Where does it stop?
    int64_t stop = len;
    for (int64_t k = 0; k < len;)
    {
        if (missing(dst + k) || (copy && missing(src + k)))
        {
            stop = k;
            break;
        }
        int64_t step = 65536 - ((dst + k) & 65535);
        if (copy)
        {
            step = std::min(step, 65536 - ((src + k) & 65535));
        }
        k += step;
    }
    *d = (F) dst;
    *s = (F) src;
    *n = (F) len;
    std::string text = copy ? fmt("memcpy(%lld,%lld,%lld)", (long long) dst, (long long) src, (long long) len) : fmt("memset(%lld,9,%lld)", (long long) dst, (long long) len);
    text += " with only these blocks of 65536 slots:";
    for (int64_t b : have)
    {
        text += fmt(" %lld", (long long) b);
    }
    R.note(text);
    long inj = hk_injected;
    arm(true, 0, LONG_MAX);
    F res = (copy ? cpy : set).run();
    disarm();
    ++R.evaluations;
    R.count(copy ? "memcpy_without_memory" : "memset_without_memory");
    R.count("injected_failures", (uint64_t) (hk_injected - inj));
    R.distinct(hash_str(text));
    if (res != (F) dst)
    {
        R.fail("C24:block result", text + ": result " + num((double) res));
        return false;
    }
    for (int64_t p : watch)
    {
        if (p < 0 || p >= MEM_SLOTS)
        {
            continue;
        }
        F want = before(p);
        if (p >= dst && p < dst + stop)
        {
            want = copy ? before(p - dst + src) : (F) 9;
        }
        F got = lab.peek(global, p);
        R.count("slots_compared");
        if (got != want)
        {
            R.fail("C24:block operation", text + fmt(": slot %lld is ", (long long) p) + num((double) got) + ", expected " + num((double) want) + fmt(" (the operation can proceed for %lld slots)", (long long) stop));
            return false;
        }
    }
    // Again with memory: completes.
    (copy ? cpy : set).run();
    for (int64_t p : watch)
    {
        if (p < dst || p >= dst + len || p >= MEM_SLOTS)
        {
            continue;
        }
        if (!copy && lab.peek(global, p) != (F) 9)
        {
            R.fail("C24:block again", text + fmt(": repeated with memory available, slot %lld is not set", (long long) p));
            return false;
        }
    }
    return true;
}

void harness_case()
{
    Rng& r = R.rng;
    R.note("");
    switch (R.case_index % 8)
    {
        case 0: creation(r); break;
        case 1:
        case 2:
        case 3: twin(r); break;
        case 4:
        case 5: exhausted(r); break;
        default: blockops(r); break;
    }
    disarm();
}

// C20: monitor of the host mutex callbacks. Every API call must leave the mutex free, never request it while held, and
// hold it whenever a memory block is allocated or released; with failing allocations, in one thread (mode "") and in
// several threads with a real mutex (mode "threads").
#include "gen.hpp"

#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <unistd.h>

static thread_local int depth;
static std::atomic<long> locks, unlocks, block_allocs, block_frees, errors, contended;
static std::atomic<const char*> first_error;
static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
static bool threads;
static thread_local Rng* trng;
static thread_local const char* current_call = "?";
static const size_t BLOCK = 65536 * sizeof(F);

static void error(const char* what)
{
    const char* none = nullptr;
    first_error.compare_exchange_strong(none, what);
    ++errors;
}

static void pause_a_bit()
{
    if (trng && threads)
    {
        int k = trng->range(0, 39);
        if (k < 6)
        {
            sched_yield();
        }
        else if (k == 6)
        {
            usleep((useconds_t) trng->range(1, 60));
        }
    }
}

static void on_lock()
{
    ++locks;
    if (depth)
    {
        error("the mutex was requested while this thread already holds it (a non-recursive mutex deadlocks)");
        ++depth;
        return;
    }
    if (threads)
    {
        pause_a_bit();
        if (pthread_mutex_trylock(&mutex))
        {
            ++contended;
            pthread_mutex_lock(&mutex);
        }
        pause_a_bit();
    }
    depth = 1;
}

static void on_unlock()
{
    ++unlocks;
    if (depth != 1)
    {
        if (depth == 0)
        {
            error("the mutex was released by a thread that doesn't hold it");
        }
        depth -= depth > 0;
        return;
    }
    depth = 0;
    if (threads)
    {
        pause_a_bit();
        pthread_mutex_unlock(&mutex);
        pause_a_bit();
    }
}

static void on_alloc(size_t size, int is_free, void*)
{
    if (size < BLOCK)
    {
        return;
    }
    ++(is_free ? block_frees : block_allocs);
    if (!depth)
    {
        error(is_free ? "a memory block was released without holding the mutex" : "a memory block was allocated without holding the mutex");
    }
    pause_a_bit();
}

static thread_local int fail_percent;
static int decide(size_t size)
{
    return fail_percent && trng && (size >= BLOCK ? trng->chance(fail_percent) : trng->chance(fail_percent / 8));
}

// API calls with the check that the mutex is free afterwards.
struct Call
{
    explicit Call(const char* n) { current_call = n; }
    ~Call()
    {
        if (depth)
        {
            error("the mutex was still held when an API call returned");
        }
        current_call = "?";
    }
};

// Programs which use dozens of blocks at once.
static int rarely_bulk;
static std::atomic<long> bulk_programs;
static std::string memory_program(Rng& r)
{
    static const char* const idx[] = {"0", "1", "65535", "65536", "131071", "8388607", "8388608", "-1", "x", "x*65536", "x+65530", "4000000"};
    static const char* const t[] = {"megabuf(%i)=%i", "gmem[%i]=%i+1", "gmegabuf(%i)+megabuf(%i)", "memset(%i,1,%n)", "memcpy(%i,%i,%n)", "%i[%i]+=1", "freembuf(%i)", "a=gmem[%i]+rand(5)", "loop(3,gmem[%i]+=rand(gmem[%i]);x+=1)", "x=rand(128)",
                                    "rand(rand(megabuf(%i)))", "gmem[rand(100)*65536]=megabuf(rand(100)*65536)", "if(megabuf(%i)=1,gmem[%i]=2,0)", "while(x=x+1;gmem[x*65536]=1;x<4)", "megabuf(gmem[megabuf(%i)=65536]=131072)=1", "x=%i;1+1", "rand(%h)", "megabuf(%h)=gmem[%h]", "memset(%h,1,3)+memcpy(%h,%h,%n)+memset(%i,%h,2)", "gmegabuf(rand(%h))", "x=%h;rand(x);gmem[x]", "loop(2,rand(%h))"};
    static const char* const odd[] = {"1e9", "4294967296", "1e15", "9007199254740993", "1e17", "9223372036854775808", "1e20", "1e300", "-1e300", "-1e15", "1e-300", "(1e300*1e300)", "(1e300*1e300-1e300*1e300)", "0.5", "-0", "2147483647", "-2147483649"};
    static const char* const bulk[] = {"x=%b;loop(%b,megabuf(x*65536)=1;x+=1)", "x=%b;loop(%b,gmem[x*65536]=1;x+=1)", "memset(%b*65536,%i,%b*65536)", "memset(%b*65536+%i,x,%b*65536)", "memcpy(%b*65536,%b*65536,%b*65536)",
                                       "memset(0,1,128*65536)", "memset(0,1,127*65536)", "memcpy(0,65536,8388608)", "memcpy(65536,0,8388608)", "memset(0,2,8388608)"};
    if (r.chance(rarely_bulk))
    {
        std::string out;
        for (int n = r.range(1, 3); n > 0; --n)
        {
            std::string s = r.pick(bulk);
            for (size_t p; (p = s.find('%')) != std::string::npos;)
            {
                s.replace(p, 2, s[p + 1] == 'b' ? std::to_string(r.chance(50) ? r.range(0, 128) : r.range(0, 3)) : std::to_string(r.range(0, 65536)));
            }
            out += s + ";";
        }
        ++bulk_programs;
        return out;
    }
    static const char* const counts[] = {"0", "1", "3", "70000", "200000", "-1", "x"};
    std::string out;
    for (int n = r.range(1, 4); n > 0; --n)
    {
        std::string s = r.pick(t);
        for (size_t i = 0; i < s.size(); ++i)
        {
            if (s[i] == '%' && i + 1 < s.size() && (s[i + 1] == 'i' || s[i + 1] == 'n' || s[i + 1] == 'h'))
            {
                ++i;
                out += s[i] == 'i' ? r.pick(idx) : s[i] == 'h' ? r.pick(odd) : r.pick(counts);
            }
            else
            {
                out += s[i];
            }
        }
        out += ";";
    }
    return out;
}

static const char* const invalid[] = {"1+", "sin(1,2)", "(", "megabuf(", "a b", "#", "gmem[", "memset(1,2)"};

struct Totals
{
    uint64_t calls = 0, runs = 0, failed_creations = 0, compiled = 0;
    std::set<std::string> texts;
};

// Random API calls without any model; only the mutex and the blocks are watched.
static void work(Rng r, projectm_eval_mem_buffer shared, int steps, bool faults, Totals& t, std::string* log)
{
    trng = &r;
    static thread_local F regs[100];
    struct C
    {
        projectm_eval_context* c;
        std::vector<projectm_eval_code*> h;
        F* x;
        bool uses_own;
    };
    std::vector<C> cs;
    projectm_eval_mem_buffer own = nullptr;
    auto say = [&](const std::string& s) {
        if (log)
        {
            *log += s + "\n";
            R.note_more("\n" + s);
        }
    };
    auto destroy = [&](size_t i) {
        C c = cs[i];
        cs.erase(cs.begin() + (long) i);
        say("destroy context");
        for (auto h : c.h)
        {
            Call k("projectm_eval_code_destroy");
            projectm_eval_code_destroy(h);
            ++t.calls;
        }
        Call k("projectm_eval_context_destroy");
        projectm_eval_context_destroy(c.c);
        ++t.calls;
    };
    for (int i = 0; i < steps && !errors; ++i)
    {
        int op = cs.empty() ? 0 : r.range(0, 21);
        C* c = cs.empty() ? nullptr : &cs[r.below((uint32_t) cs.size())];
        ++t.calls;
        if (op == 0)
        {
            if (cs.size() > 3)
            {
                destroy(0);
            }
            if (!own && r.chance(30))
            {
                Call k("projectm_eval_memory_buffer_create");
                own = projectm_eval_memory_buffer_create();
            }
            fail_percent = faults && r.chance(50) ? r.range(5, 60) : 0;
            bool use_own = own && r.chance(40);
            projectm_eval_mem_buffer g = use_own ? own : r.chance(50) ? shared : nullptr;
            say(std::string("create context with ") + (!g ? "built-in" : g == own ? "own" : "shared") + " gmegabuf" + fmt(", %d%% failures", fail_percent));
            projectm_eval_context* n;
            {
                Call k("projectm_eval_context_create");
                n = projectm_eval_context_create(g, &regs);
            }
            fail_percent = 0;
            if (!n)
            {
                ++t.failed_creations;
                continue;
            }
            Call k("projectm_eval_context_register_variable");
            cs.push_back({n, {}, projectm_eval_context_register_variable(n, "x"), use_own});
        }
        else if (op < 6)
        {
            std::string s = r.chance(12) ? r.pick(invalid) : memory_program(r);
            say("compile " + s);
            Call k("projectm_eval_code_compile");
            projectm_eval_code* h = projectm_eval_code_compile(c->c, s.c_str());
            t.texts.insert(s);
            if (h)
            {
                ++t.compiled;
                c->h.push_back(h);
            }
        }
        else if (op < 15)
        {
            if (!c->h.empty())
            {
                *c->x = (F) r.range(0, 5);
                fail_percent = faults && r.chance(40) ? r.pick(std::vector<int>{30, 60, 100}) : 0;
                say(fmt("execute with %d%% failures", fail_percent));
                Call k("projectm_eval_code_execute");
                projectm_eval_code_execute(c->h[r.below((uint32_t) c->h.size())]);
                fail_percent = 0;
                ++t.runs;
            }
        }
        else if (op == 15)
        {
            say("free memory");
            Call k("projectm_eval_context_free_memory");
            projectm_eval_context_free_memory(c->c);
        }
        else if (op == 16)
        {
            Call k("projectm_eval_context_reset_variables");
            projectm_eval_context_reset_variables(c->c);
        }
        else if (op == 17)
        {
            Call k("projectm_eval_get_error");
            projectm_eval_get_error(c->c, nullptr, nullptr);
        }
        else if (op == 18 && !c->h.empty())
        {
            Call k("projectm_eval_code_destroy");
            projectm_eval_code_destroy(c->h.back());
            c->h.pop_back();
        }
        else if (op == 19)
        {
            destroy((size_t) (c - cs.data()));
        }
        else if (op == 20 && own)
        {
            while (!cs.empty())
            {
                destroy(0);
            }
            say("destroy own buffer");
            Call k("projectm_eval_memory_buffer_destroy");
            projectm_eval_memory_buffer_destroy(own);
            own = nullptr;
        }
        else if (op == 21 && !threads)
        {
            while (!cs.empty())
            {
                destroy(0);
            }
            say("destroy built-in gmegabuf");
            Call k("projectm_eval_memory_global_destroy");
            projectm_eval_memory_global_destroy();
        }
    }
    while (!cs.empty())
    {
        destroy(0);
    }
    if (own)
    {
        Call k("projectm_eval_memory_buffer_destroy");
        projectm_eval_memory_buffer_destroy(own);
    }
    trng = nullptr;
}

void harness_init()
{
    threads = R.mode == "threads";
    hk_on_lock = on_lock;
    hk_on_unlock = on_unlock;
    hk_alloc_seen = on_alloc;
    hk_alloc_decide = decide;
    hk_threaded = threads;
}

void harness_done()
{
    const char* p = threads ? "threads_" : "";
    auto put = [&](const char* n, long v) { R.counters[std::string(p) + n] = (uint64_t) v; };
    put("lock_calls", locks);
    put("block_allocations_seen", block_allocs);
    put("block_releases_seen", block_frees);
    put("injected_failures", hk_injected);
    put("bulk_programs", bulk_programs);
    if (threads)
    {
        put("lock_waits", contended);
    }
}

void harness_case()
{
    Rng& r = R.rng;
    R.note("");
    bool faults = r.chance(60);
    rarely_bulk = !threads && r.chance(4) ? 50 : 0;
    projectm_eval_mem_buffer shared;
    {
        Call k("projectm_eval_memory_buffer_create");
        shared = projectm_eval_memory_buffer_create();
    }
    std::string log;
    Totals t;
    if (!threads)
    {
        work(Rng(r.u64()), shared, r.range(20, 80), faults, t, &log);
    }
    else
    {
        int n = r.range(2, 6);
        std::vector<Totals> ts((size_t) n);
        std::vector<std::thread> th;
        std::vector<uint64_t> s;
        int steps = r.range(20, 60);
        for (int i = 0; i < n; ++i)
        {
            s.push_back(r.u64());
        }
        R.note(fmt("%d threads, %d steps each, faults %d", n, steps, faults));
        log = fmt("%d threads with %d random API calls each, faults %d\n", n, steps, faults);
        for (int i = 0; i < n; ++i)
        {
            th.emplace_back([&, i] { work(Rng(s[(size_t) i]), shared, steps, faults, ts[(size_t) i], nullptr); });
        }
        for (auto& x : th)
        {
            x.join();
        }
        for (auto& x : ts)
        {
            t.calls += x.calls;
            t.runs += x.runs;
            t.failed_creations += x.failed_creations;
            t.compiled += x.compiled;
            t.texts.insert(x.texts.begin(), x.texts.end());
        }
        R.count("thread_runs", (uint64_t) n);
    }
    {
        Call k("projectm_eval_memory_buffer_destroy");
        projectm_eval_memory_buffer_destroy(shared);
    }
    {
        Call k("projectm_eval_memory_global_destroy");
        projectm_eval_memory_global_destroy();
    }
    R.evaluations += t.calls;
    R.count("executions", t.runs);
    R.count("compiled", t.compiled);
    R.count("failed_creations", t.failed_creations);
    for (auto& s : t.texts)
    {
        R.distinct(hash_str(s));
    }
    if (!errors && locks != unlocks)
    {
        error("lock and unlock calls don't balance");
    }
    if (errors)
    {
        R.fail(std::string("C20:") + first_error.load(), log + "==> " + first_error.load() + fmt(" (%ld errors)", (long) errors));
        errors = 0;
        first_error = nullptr;
        R.violations += 5; // the mutex may be in any state now
        return;
    }
    R.sample(log);
}

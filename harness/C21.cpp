// C21: contexts sharing one gmegabuf execute in different threads. Every slot has one owner thread that writes unique
// values; everything written must be read back, nothing else may appear, and every block is created exactly once.
#include "threads.hpp"

void harness_init() { mt::install(); }
void harness_done()
{
    R.counters["contended_lock_acquisitions"] = (uint64_t) mt::contended.load();
    R.counters["delays_injected"] = (uint64_t) mt::injected.load();
}

static const int SLOTS = 8388608;

struct Thread
{
    projectm_eval_context* c = nullptr;
    F *i = nullptr, *v = nullptr, *o = nullptr, *n = nullptr;
    std::vector<projectm_eval_code*> store, load;
    projectm_eval_code* fill = nullptr;
    projectm_eval_code* sum = nullptr;
    std::map<int, F> written; // slot -> last value
    std::set<int> looked;     // slots that only this thread reads
    std::string error;
    uint64_t ops = 0;
    long private_blocks = 0;
};

static const char* const stores[] = {"gmegabuf(i)=v", "gmem[i]=v", "_gmem(i)=v", "gmem[i/2+i/2]+=v-gmem[i]", "if(v,gmem[i],gmegabuf(i))=v", "assign(gmegabuf(i),v)", "gmegabuf(i)=0;gmem[i]=v", "gmem[i]=v;o=gmem[i]", "megabuf(i)=v;gmem[i]=megabuf(i)"};
static const char* const loads[] = {"o=gmegabuf(i)", "o=gmem[i]", "o=_gmem(i)+0", "exec2(0,o=gmem[i])"};

static bool setup(Thread& t)
{
    t.i = projectm_eval_context_register_variable(t.c, "i");
    t.v = projectm_eval_context_register_variable(t.c, "v");
    t.o = projectm_eval_context_register_variable(t.c, "o");
    t.n = projectm_eval_context_register_variable(t.c, "n");
    for (auto s : stores)
    {
        t.store.push_back(projectm_eval_code_compile(t.c, s));
    }
    for (auto s : loads)
    {
        t.load.push_back(projectm_eval_code_compile(t.c, s));
    }
    t.fill = projectm_eval_code_compile(t.c, "k=0;loop(n,gmem[i+k]=v+k;k+=1)");
    t.sum = projectm_eval_code_compile(t.c, "k=0;o=0;loop(n,o+=gmem[i+k];k+=1)");
    for (auto h : t.store)
    {
        if (!h)
        {
            return false;
        }
    }
    for (auto h : t.load)
    {
        if (!h)
        {
            return false;
        }
    }
    return t.fill && t.sum;
}

void harness_case()
{
    Rng& r = R.rng;
    R.note("");
    projectm_eval_memory_global_destroy();
    long live0 = hk_live_allocs, bytes0 = hk_live_bytes;
    long allocs0 = mt::block_allocs, frees0 = mt::block_frees;
    mt::misuse = 0;
    bool custom = r.chance(50), create_inside = r.chance(40), destroy_inside = r.chance(30);
    int n = r.range(2, 6);
    int nblocks = r.range(1, 12);
    std::vector<int> blocks;
    for (int i = 0; i < nblocks; ++i)
    {
        // neighbouring blocks, the first and the last one included
        int b = r.chance(60) ? r.range(0, 15) : r.chance(30) ? 127 : r.range(101, 127);
        blocks.push_back(b);
    }
    int rounds = r.range(4, 60);
    int stride = r.pick(std::vector<int>{1, 1, 7, 512, 4096});
    R.note(fmt("%d threads, %s gmegabuf, blocks", n, custom ? "a custom" : "the built-in"));
    for (int b : blocks)
    {
        R.note_more(fmt(" %d", b));
    }
    projectm_eval_mem_buffer shared = custom ? projectm_eval_memory_buffer_create() : nullptr;
    std::vector<Thread> th((size_t) n);
    if (!create_inside)
    {
        for (auto& t : th)
        {
            t.c = projectm_eval_context_create(shared, nullptr);
            if (!setup(t))
            {
                R.fail("C21:setup", "a valid program was rejected");
                return;
            }
        }
    }
    // The slot numbers of thread t: block * 65536 + (k * n + t) * stride (mod the block size, owner preserved).
    auto slot = [&](int t, Rng& d) {
        int b = d.pick(blocks);
        int per = 65536 / stride / n;
        int k = d.chance(50) ? d.range(0, std::min(3, per - 1)) : d.chance(20) ? per - 1 : d.range(0, per - 1);
        return b * 65536 + (k * n + t) * stride;
    };
    std::vector<std::pair<int, F>> filled((size_t) n, {-1, 0});
    int fill_block = r.range(17, 100), fill_len = r.range(1, 300);
    mt::run(n, r, [&](int id, Rng& d) {
        Thread& t = th[(size_t) id];
        if (create_inside)
        {
            t.c = projectm_eval_context_create(shared, nullptr);
            if (!setup(t))
            {
                t.error = "a valid program was rejected";
                return;
            }
        }
        int seq = 0;
        for (int k = 0; k < rounds && t.error.empty(); ++k)
        {
            ++t.ops;
            int what = d.range(0, 9);
            if (what < 5)
            {
                int s = slot(id, d);
                F v = (F) (id * 65536 + ++seq);
                *t.i = (F) s;
                *t.v = v;
                size_t form = d.below((uint32_t) t.store.size());
                projectm_eval_code_execute(t.store[form]);
                t.written[s] = v;
            }
            else if (what < 8)
            {
                // read back an own slot; it was never written by anyone else
                int s;
                if (!t.written.empty() && d.chance(80))
                {
                    auto it = t.written.begin();
                    std::advance(it, d.below((uint32_t) t.written.size()));
                    s = it->first;
                }
                else
                {
                    s = slot(id, d);
                }
                *t.i = (F) s;
                projectm_eval_code_execute(t.load[d.below((uint32_t) t.load.size())]);
                F want = t.written.count(s) ? t.written[s] : 0;
                t.looked.insert(s);
                if (*t.o != want)
                {
                    t.error = fmt("thread %d reads ", id) + num((double) *t.o) + fmt(" from gmem[%d], it wrote ", s) + num((double) want) + " and no other thread writes there";
                }
            }
            else if (what == 8 && filled[(size_t) id].first < 0)
            {
                // a whole range at a block boundary, next to the other threads' ranges
                int s = fill_block * 65536 - (n * fill_len) / 2 + id * fill_len;
                *t.i = (F) s;
                *t.n = (F) fill_len;
                *t.v = (F) (id * 1000 + 1);
                projectm_eval_code_execute(t.fill);
                filled[(size_t) id] = {s, *t.v};
            }
            else if (filled[(size_t) id].first >= 0)
            {
                *t.i = (F) filled[(size_t) id].first;
                *t.n = (F) fill_len;
                projectm_eval_code_execute(t.sum);
                double want = 0;
                for (int j = 0; j < fill_len; ++j)
                {
                    want += (double) filled[(size_t) id].second + j;
                }
                if ((double) *t.o != want)
                {
                    t.error = fmt("thread %d: the sum of its range is ", id) + num((double) *t.o) + ", expected " + num(want);
                }
            }
        }
    });
    // All threads have ended: everything must be there.
    Thread reader;
    reader.c = projectm_eval_context_create(shared, nullptr);
    setup(reader);
    auto get = [&](int s) {
        *reader.i = (F) s;
        projectm_eval_code_execute(reader.load[1]);
        return *reader.o;
    };
    std::string bad;
    std::map<int, F> all;
    std::set<int> touched, priv;
    std::vector<std::set<int>> privs((size_t) n);
    for (int id = 0; id < n; ++id)
    {
        Thread& t = th[(size_t) id];
        R.evaluations += t.ops;
        if (bad.empty())
        {
            bad = t.error;
        }
        for (auto& w : t.written)
        {
            all[w.first] = w.second;
        }
        for (int s : t.looked)
        {
            touched.insert(s / 65536);
        }
        if (filled[(size_t) id].first >= 0)
        {
            for (int j = 0; j < fill_len; ++j)
            {
                all[filled[(size_t) id].first + j] = filled[(size_t) id].second + (F) j;
            }
        }
    }
    for (auto& w : all)
    {
        touched.insert(w.first / 65536);
    }
    for (auto& w : all)
    {
        R.count("slots_read_back");
        F v = get(w.first);
        if (v != w.second && bad.empty())
        {
            bad = fmt("after the threads ended gmem[%d] is ", w.first) + num((double) v) + ", the last value written was " + num((double) w.second);
        }
        for (int d : {-1, 1, stride})
        {
            int s = w.first + d;
            if (s >= 0 && s < SLOTS && s / 65536 == w.first / 65536 && !all.count(s) && bad.empty())
            {
                R.count("unwritten_slots_read");
                F u = get(s);
                if (u != 0)
                {
                    bad = fmt("gmem[%d] is ", s) + num((double) u) + ", but nobody wrote to it";
                }
            }
        }
    }
    // Private blocks: "megabuf(i)=v" creates blocks of the thread's own megabuf, which is destroyed with the context.
    long shared_before_destroy = mt::block_frees - frees0;
    if (shared_before_destroy != 0 && bad.empty())
    {
        bad = fmt("%ld blocks were released while in use", shared_before_destroy);
    }
    long created = mt::block_allocs - allocs0;
    auto destroy = [](Thread& t) {
        for (auto h : t.store)
        {
            projectm_eval_code_destroy(h);
        }
        for (auto h : t.load)
        {
            projectm_eval_code_destroy(h);
        }
        projectm_eval_code_destroy(t.fill);
        projectm_eval_code_destroy(t.sum);
        projectm_eval_context_destroy(t.c);
    };
    if (destroy_inside)
    {
        mt::run(n, r, [&](int id, Rng&) { destroy(th[(size_t) id]); });
    }
    else
    {
        for (auto& t : th)
        {
            destroy(t);
        }
    }
    long private_freed = mt::block_frees - frees0;
    destroy(reader);
    long shared_created = created - private_freed;
    if (bad.empty() && shared_created != (long) touched.size())
    {
        bad = fmt("%ld blocks of the shared memory were created, %zu were accessed", shared_created, touched.size());
    }
    if (custom)
    {
        projectm_eval_memory_buffer_destroy(shared);
    }
    else
    {
        projectm_eval_memory_global_destroy();
    }
    long freed = mt::block_frees - frees0;
    if (bad.empty() && freed != created)
    {
        bad = fmt("%ld blocks were created, but %ld were released with the buffer", created, freed);
    }
    if (bad.empty() && (hk_live_allocs > live0 || hk_live_bytes > bytes0))
    {
        bad = fmt("%ld allocations (%ld bytes) are left after destroying everything", hk_live_allocs - live0, hk_live_bytes - bytes0);
    }
    if (bad.empty() && mt::misuse)
    {
        bad = "the mutex was requested while held, or released while not held";
    }
    R.count("threads_run", (uint64_t) n);
    R.count("blocks_created", (uint64_t) shared_created);
    if (!bad.empty())
    {
        R.fail("C21:" + bad.substr(0, 24), fmt("%d threads, %s gmegabuf, %d rounds: ", n, custom ? "custom" : "built-in", rounds) + bad);
    }
    R.sample(fmt("%d threads, %s gmegabuf, %d operations each on %zu blocks", n, custom ? "custom" : "built-in", rounds, touched.size()));
}

// Shared runtime of all harnesses: deterministic per-case randomness, crash journal, statistics,
// hooks into the library's environment (host mutex, allocator, executed edges).
#pragma once

#include "projectm-eval.h"

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

typedef PRJM_EVAL_F F;

// ---------------------------------------------------------------- randomness
inline uint64_t mix64(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline uint64_t hash_str(const std::string& s, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : s)
    {
        h = (h ^ c) * 1099511628211ull;
    }
    return mix64(h);
}

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1)
        : s(mix64(seed))
    {
    }
    uint64_t u64() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    uint32_t below(uint32_t n) { return n ? (uint32_t) ((u64() >> 32) * (uint64_t) n >> 32) : 0; }
    int range(int lo, int hi) { return lo + (int) below((uint32_t) (hi - lo + 1)); }
    bool chance(int percent) { return (int) below(100) < percent; }
    double unit() { return (double) (u64() >> 11) / 9007199254740992.0; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below((uint32_t) v.size())]; }
    template<class T, size_t N> const T& pick(const T (&v)[N]) { return v[below((uint32_t) N)]; }
};

// ---------------------------------------------------------------- hooks (hooks.cpp)
extern "C" {
// Host mutex monitor.
extern volatile long hk_lock_calls, hk_unlock_calls;
extern volatile int hk_lock_depth;                // current depth (single-threaded use)
extern volatile int hk_lock_error;                // !=0: nested lock or unlock without lock
extern void (*hk_on_lock)(void);                  // optional, called instead of the default behaviour
extern void (*hk_on_unlock)(void);

// Allocator monitor (only if linked with --wrap).
extern volatile long hk_live_allocs;              // library allocations currently alive
extern volatile long hk_live_bytes;
extern volatile long hk_alloc_calls;              // all allocation calls so far
extern volatile long hk_injected;                 // injected failures so far
extern int (*hk_alloc_decide)(size_t size);       // return nonzero to make this allocation fail
extern void (*hk_alloc_seen)(size_t size, int is_free, void* ptr); // observer
extern int hk_threaded;                           // nonzero: no address table (no locking added)

// Executed edges of the library (if compiled with trace-pc-guard).
extern volatile uint64_t hk_edges;                // executed edges since start
extern volatile uint64_t hk_edge_limit;           // hk_edge_hang is called when exceeded
extern void (*hk_edge_hang)(void);
extern void (*hk_edge_pause)(void);              // threaded runs: called at every edge instead of counting
extern unsigned hk_edge_total;
extern unsigned char* hk_edge_map;                // one byte per edge: 1 = reached
unsigned hk_edges_covered(void);
}

// ---------------------------------------------------------------- run control
struct Run
{
    std::string prop;
    std::string tier = "quick";
    std::string mode;
    uint64_t seed = 1;
    uint64_t worker = 0, workers = 1, cases = 1000;
    long only_case = -1;
    std::string out, journal, hashes, extra;

    uint64_t case_index = 0;
    Rng rng;
    uint64_t evaluations = 0;
    int violations = 0;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct_hashes;
    std::vector<std::string> samples;

    void count(const char* name, uint64_t n = 1) { counters[name] += n; }
    void distinct(uint64_t h) { if (distinct_hashes.size() < 400000) distinct_hashes.insert(h); }
    void sample(const std::string& s)
    {
        if (samples.size() < 3 || (samples.size() < 8 && (case_index % 997) == 0))
        {
            samples.push_back(s.substr(0, 600));
        }
    }
    void note(const std::string& text);           // what is being executed now (kept for crash reports)
    void note_more(const std::string& text);
    void fail(const std::string& key, const std::string& msg);
    bool thorough() const { return tier == "thorough"; }
};

extern Run R;

// Limits the number of executed library edges until the guard is released; exceeding it ends the process
// with exit code 97, which the driver reports as a hang of the noted case.
struct StepGuard
{
    explicit StepGuard(uint64_t edges);
    ~StepGuard();
};

// Executes a handle with a limited number of library edges. Returns false (and abandons the execution) if exceeded.
bool run_limited(projectm_eval_code* h, uint64_t edges, F& result);

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string num(double v);
std::string json_escape(const std::string& s);

// Defined by each harness:
void harness_init();
void harness_case();
void harness_done();

// ---------------------------------------------------------------- small RAII helpers over the public API
struct Code
{
    projectm_eval_code* h = nullptr;
    Code() = default;
    Code(projectm_eval_context* c, const std::string& src)
        : h(projectm_eval_code_compile(c, src.c_str()))
    {
    }
    Code(const Code&) = delete;
    Code& operator=(const Code&) = delete;
    Code(Code&& o) noexcept
        : h(o.h)
    {
        o.h = nullptr;
    }
    ~Code()
    {
        if (h)
        {
            projectm_eval_code_destroy(h);
        }
    }
    explicit operator bool() const { return h != nullptr; }
    F run() { return projectm_eval_code_execute(h); }
};

inline bool same_number(double a, double b, double rel = 1e-9)
{
    if (a == b)
    {
        return true;
    }
    if (std::isnan(a) || std::isnan(b))
    {
        return std::isnan(a) && std::isnan(b);
    }
    double m = std::fmax(std::fabs(a), std::fabs(b));
    return std::fabs(a - b) <= rel * m;
}

// Real threads with a real host mutex, delays injected around the mutex, in the allocator and at library edges, and a
// record of the order in which the threads passed the synchronisation points.
#pragma once

#include "common.hpp"

#include <algorithm>
#include <atomic>
#include <pthread.h>
#include <sched.h>
#include <thread>
#include <unistd.h>

namespace mt
{
static pthread_mutex_t mutex = PTHREAD_MUTEX_INITIALIZER;
static std::atomic<long> locks{0}, contended{0}, misuse{0}, block_allocs{0}, block_frees{0}, injected{0};
static const size_t BLOCK = 65536 * sizeof(F);
static thread_local Rng* rng;          // null: not a worker thread, no delays
static thread_local int self;          // thread number
static thread_local int depth;
static thread_local int edge_percent;  // per mille: chance of giving up the processor at a library edge
static int lock_percent = 20, alloc_percent = 60;

// The sequence of (thread, event) at the synchronisation points; only touched while holding the mutex.
static uint64_t order_hash;
static uint64_t order_events;

__attribute__((no_sanitize("thread"))) static void pause(int percent)
{
    if (!rng || !rng->chance(percent))
    {
        return;
    }
    injected.fetch_add(1, std::memory_order_relaxed);
    switch (rng->range(0, 5))
    {
        case 0: usleep((useconds_t) rng->range(1, 80)); break;
        case 1:
        case 2: sched_yield(); break;
        default:
            for (volatile int i = rng->range(0, 2000); i > 0; i = i - 1)
            {
            }
    }
}

__attribute__((no_sanitize("thread"))) static void at_edge()
{
    if (rng && edge_percent && (int) rng->below(1000) < edge_percent)
    {
        pause(100);
    }
}

static void on_lock()
{
    pause(lock_percent);
    if (depth)
    {
        ++misuse; // would deadlock; reported by the harness
        ++depth;
        return;
    }
    if (pthread_mutex_trylock(&mutex))
    {
        contended.fetch_add(1, std::memory_order_relaxed);
        pthread_mutex_lock(&mutex);
    }
    depth = 1;
    locks.fetch_add(1, std::memory_order_relaxed);
    if (rng)
    {
        order_hash = mix64(order_hash * 31 + (uint64_t) self);
        ++order_events;
    }
    pause(lock_percent);
}

static void on_unlock()
{
    if (depth != 1)
    {
        ++misuse;
        depth -= depth > 0;
        return;
    }
    pause(lock_percent);
    depth = 0;
    pthread_mutex_unlock(&mutex);
    pause(lock_percent);
}

static void on_alloc(size_t size, int is_free, void*)
{
    if (size >= BLOCK)
    {
        (is_free ? block_frees : block_allocs).fetch_add(1, std::memory_order_relaxed);
        pause(alloc_percent);
    }
    else
    {
        pause(2);
    }
}

static void install()
{
    hk_threaded = 1;
    hk_on_lock = on_lock;
    hk_on_unlock = on_unlock;
    hk_alloc_seen = on_alloc;
    hk_edge_pause = at_edge;
}

// Runs f(0..n-1) in n threads that start at the same moment.
template<class Fn> static void run(int n, Rng& seeds, Fn f)
{
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    std::vector<uint64_t> s;
    int edge = seeds.chance(70) ? seeds.range(1, 60) : 0;
    for (int i = 0; i < n; ++i)
    {
        s.push_back(seeds.u64());
    }
    order_hash = 1;
    order_events = 0;
    for (int i = 0; i < n; ++i)
    {
        ts.emplace_back([&, i] {
            Rng r(s[(size_t) i]);
            Rng data(s[(size_t) i] ^ 0x5555);
            self = i;
            ready.fetch_add(1);
            while (ready.load() < n)
            {
            }
            edge_percent = edge;
            rng = &r;
            f(i, data);
            rng = nullptr;
        });
    }
    for (auto& t : ts)
    {
        t.join();
    }
    R.distinct(mix64(order_hash ^ order_events));
    R.count("ordered_lock_acquisitions", order_events);
}
} // namespace mt

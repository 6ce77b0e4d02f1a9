#include "common.hpp"

#include <cerrno>
#include <cstdarg>
#include <malloc.h>

extern "C" {
volatile long hk_lock_calls, hk_unlock_calls;
volatile int hk_lock_depth, hk_lock_error;
void (*hk_on_lock)(void);
void (*hk_on_unlock)(void);
volatile long hk_live_allocs, hk_live_bytes, hk_alloc_calls, hk_injected;
int (*hk_alloc_decide)(size_t size);
void (*hk_alloc_seen)(size_t size, int is_free, void* ptr);
int hk_threaded;
volatile uint64_t hk_edges;
volatile uint64_t hk_edge_limit = ~0ull;
void (*hk_edge_hang)(void);
void (*hk_edge_pause)(void);
unsigned hk_edge_total;
static unsigned char hk_map_storage[65536];
unsigned char* hk_edge_map = hk_map_storage;

static void default_lock()
{
    hk_lock_calls = hk_lock_calls + 1;
    if (hk_lock_depth != 0)
    {
        hk_lock_error = 1;
    }
    hk_lock_depth = hk_lock_depth + 1;
}

static void default_unlock()
{
    hk_unlock_calls = hk_unlock_calls + 1;
    if (hk_lock_depth != 1)
    {
        hk_lock_error = 2;
    }
    hk_lock_depth = hk_lock_depth - 1;
}

#ifdef HK_SHIM
void NSEEL_HOSTSTUB_EnterMutex()
#else
void projectm_eval_memory_host_lock_mutex()
#endif
{
    if (hk_on_lock)
    {
        hk_on_lock();
        return;
    }
    default_lock();
}

#ifdef HK_SHIM
void NSEEL_HOSTSTUB_LeaveMutex()
#else
void projectm_eval_memory_host_unlock_mutex()
#endif
{
    if (hk_on_unlock)
    {
        hk_on_unlock();
        return;
    }
    default_unlock();
}

unsigned hk_edges_covered(void)
{
    unsigned n = 0;
    for (unsigned i = 1; i <= hk_edge_total && i < sizeof(hk_map_storage); ++i)
    {
        n += hk_map_storage[i] != 0;
    }
    return n;
}

#ifdef HK_PCGUARD
__attribute__((no_sanitize("address", "undefined", "thread"))) void
__sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
    if (start == stop || *start)
    {
        return;
    }
    for (uint32_t* x = start; x < stop; x++)
    {
        *x = ++hk_edge_total;
    }
}

__attribute__((no_sanitize("address", "undefined", "thread"))) void
__sanitizer_cov_trace_pc_guard(uint32_t* guard)
{
    uint32_t g = *guard;
    if (g < sizeof(hk_map_storage) && !hk_map_storage[g])
    {
        hk_map_storage[g] = 1;
    }
    if (hk_edge_pause)
    {
        hk_edge_pause();
        return;
    }
    uint64_t n = hk_edges + 1;
    hk_edges = n;
    if (n > hk_edge_limit && hk_edge_hang)
    {
        hk_edge_limit = ~0ull;
        hk_edge_hang();
    }
}
#endif

#ifdef HK_WRAP
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void* __real_aligned_alloc(size_t, size_t);
int __real_posix_memalign(void**, size_t, size_t);
void __real_free(void*);

// Open-addressing table of live library allocations.
static struct Slot
{
    void* p;
    size_t n;
}* tab;
static size_t tab_cap, tab_used; // used includes tombstones
#define TOMB ((void*) 1)

static void tab_insert(void* p, size_t n);
static void tab_grow()
{
    size_t old_cap = tab_cap;
    Slot* old = tab;
    size_t live = 0;
    for (size_t i = 0; i < old_cap; ++i)
    {
        live += old[i].p && old[i].p != TOMB;
    }
    tab_cap = 1024;
    while (tab_cap < live * 4)
    {
        tab_cap *= 2;
    }
    tab = (Slot*) __real_calloc(tab_cap, sizeof(Slot));
    tab_used = 0;
    for (size_t i = 0; i < old_cap; ++i)
    {
        if (old[i].p && old[i].p != TOMB)
        {
            tab_insert(old[i].p, old[i].n);
        }
    }
    __real_free(old);
}

static void tab_insert(void* p, size_t n)
{
    if (tab_used * 2 >= tab_cap)
    {
        tab_grow();
    }
    size_t i = mix64((uint64_t) p) & (tab_cap - 1);
    while (tab[i].p && tab[i].p != TOMB)
    {
        i = (i + 1) & (tab_cap - 1);
    }
    if (!tab[i].p)
    {
        ++tab_used;
    }
    tab[i].p = p;
    tab[i].n = n;
}

static bool tab_remove(void* p, size_t* n)
{
    if (!tab_cap)
    {
        return false;
    }
    size_t i = mix64((uint64_t) p) & (tab_cap - 1);
    while (tab[i].p)
    {
        if (tab[i].p == p)
        {
            *n = tab[i].n;
            tab[i].p = TOMB;
            return true;
        }
        i = (i + 1) & (tab_cap - 1);
    }
    return false;
}

static void add(void* p, size_t n)
{
    if (!p)
    {
        return;
    }
    if (hk_threaded)
    {
        __atomic_add_fetch(&hk_live_allocs, 1, __ATOMIC_RELAXED);
        __atomic_add_fetch(&hk_live_bytes, (long) malloc_usable_size(p), __ATOMIC_RELAXED);
        return;
    }
    tab_insert(p, n);
    hk_live_allocs = hk_live_allocs + 1;
    hk_live_bytes = hk_live_bytes + (long) n;
}

static void sub(void* p)
{
    if (!p)
    {
        return;
    }
    if (hk_threaded)
    {
        __atomic_sub_fetch(&hk_live_allocs, 1, __ATOMIC_RELAXED);
        __atomic_sub_fetch(&hk_live_bytes, (long) malloc_usable_size(p), __ATOMIC_RELAXED);
        return;
    }
    size_t n;
    if (tab_remove(p, &n))
    {
        hk_live_allocs = hk_live_allocs - 1;
        hk_live_bytes = hk_live_bytes - (long) n;
    }
}

static bool refuse(size_t n)
{
    if (hk_threaded)
    {
        __atomic_add_fetch(&hk_alloc_calls, 1, __ATOMIC_RELAXED);
    }
    else
    {
        hk_alloc_calls = hk_alloc_calls + 1;
    }
    if (hk_alloc_seen)
    {
        hk_alloc_seen(n, 0, nullptr);
    }
    if (hk_alloc_decide && hk_alloc_decide(n))
    {
        hk_injected = hk_injected + 1;
        errno = ENOMEM;
        return true;
    }
    return false;
}

void* __wrap_malloc(size_t n)
{
    if (refuse(n))
    {
        return nullptr;
    }
    void* p = __real_malloc(n);
    if (p)
    {
        memset(p, 0xa5, n); // nothing may rely on fresh memory being zero
    }
    add(p, n);
    return p;
}

void* __wrap_calloc(size_t a, size_t b)
{
    if (refuse(a * b))
    {
        return nullptr;
    }
    void* p = __real_calloc(a, b);
    add(p, a * b);
    return p;
}

void* __wrap_realloc(void* old, size_t n)
{
    if (refuse(n))
    {
        return nullptr;
    }
    if (hk_threaded)
    {
        sub(old);
    }
    void* p = __real_realloc(old, n);
    if (!hk_threaded && (p || !n))
    {
        sub(old);
    }
    add(p, n);
    return p;
}

char* __wrap_strdup(const char* s)
{
    size_t n = strlen(s) + 1;
    char* p = (char*) __wrap_malloc(n);
    if (p)
    {
        memcpy(p, s, n);
    }
    return p;
}

char* __wrap_strndup(const char* s, size_t max)
{
    size_t n = strnlen(s, max);
    char* p = (char*) __wrap_malloc(n + 1);
    if (p)
    {
        memcpy(p, s, n);
        p[n] = 0;
    }
    return p;
}

int __wrap_vasprintf(char** out, const char* format, va_list args)
{
    va_list again;
    va_copy(again, args);
    int n = vsnprintf(nullptr, 0, format, again);
    va_end(again);
    char* p = n < 0 ? nullptr : (char*) __wrap_malloc((size_t) n + 1);
    if (!p)
    {
        *out = nullptr;
        return -1;
    }
    vsnprintf(p, (size_t) n + 1, format, args);
    *out = p;
    return n;
}

int __wrap_asprintf(char** out, const char* format, ...)
{
    va_list args;
    va_start(args, format);
    int n = __wrap_vasprintf(out, format, args);
    va_end(args);
    return n;
}

void* __wrap_reallocarray(void* old, size_t a, size_t b)
{
    if (b && a > SIZE_MAX / b)
    {
        errno = ENOMEM;
        return nullptr;
    }
    return __wrap_realloc(old, a * b);
}

void* __wrap_aligned_alloc(size_t alignment, size_t n)
{
    if (refuse(n))
    {
        return nullptr;
    }
    void* p = __real_aligned_alloc(alignment, n);
    if (p)
    {
        memset(p, 0xa5, n);
    }
    add(p, n);
    return p;
}

int __wrap_posix_memalign(void** out, size_t alignment, size_t n)
{
    if (refuse(n))
    {
        return ENOMEM;
    }
    int e = __real_posix_memalign(out, alignment, n);
    if (!e)
    {
        memset(*out, 0xa5, n);
        add(*out, n);
    }
    return e;
}

void __wrap_free(void* p)
{
    if (p && hk_alloc_seen)
    {
        hk_alloc_seen(malloc_usable_size(p), 1, p);
    }
    sub(p);
    if (p)
    {
        memset(p, 0x5b, malloc_usable_size(p)); // nothing may read freed memory
    }
    __real_free(p);
}
#endif
}

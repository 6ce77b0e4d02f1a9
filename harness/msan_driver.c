/* Runs dumped texts (u32 length + bytes) against the library built with MemorySanitizer. Plain C: every object that
   touches library memory is instrumented. argv: file seed journal */
#include "projectm-eval.h"

#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>

static long depth;
void projectm_eval_memory_host_lock_mutex() { ++depth; }
void projectm_eval_memory_host_unlock_mutex() { --depth; }

static volatile uint64_t edges, limit = ~0ull;
static jmp_buf env;
static unsigned char map[65536];
static unsigned total;

__attribute__((no_sanitize("memory"))) void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b)
{
    if (a == b || *a)
    {
        return;
    }
    for (; a < b; ++a)
    {
        *a = ++total;
    }
}
__attribute__((no_sanitize("memory"))) void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
    if (*g < sizeof map)
    {
        map[*g] = 1;
    }
    if (++edges > limit)
    {
        limit = ~0ull;
        longjmp(env, 1);
    }
}

static uint64_t rs;
static uint32_t rnd(uint32_t n)
{
    rs = rs * 6364136223846793005ull + 1442695040888963407ull;
    return (uint32_t) ((rs >> 33) % n);
}

static volatile double sink;

int main(int argc, char** argv)
{
    if (argc < 4)
    {
        return 96;
    }
    FILE* f = fopen(argv[1], "rb");
    int fd = open(argv[3], O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (!f || fd < 0 || ftruncate(fd, 65536))
    {
        return 96;
    }
    char* journal = mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    rs = strtoull(argv[2], NULL, 10);
    static volatile long texts, ok, runs, branches;
    static PRJM_EVAL_F regs[100];
    uint32_t n;
    while (fread(&n, 4, 1, f) == 1)
    {
        char* text = malloc(n + 1);
        if (fread(text, 1, n, f) != n)
        {
            return 96;
        }
        text[n] = 0;
        memset(journal, 0, 65536);
        memcpy(journal, text, n < 65000 ? n : 65000);
        projectm_eval_mem_buffer g = rnd(2) ? projectm_eval_memory_buffer_create() : NULL;
        struct projectm_eval_context* c = projectm_eval_context_create(g, rnd(2) ? &regs : NULL);
        PRJM_EVAL_F* a = projectm_eval_context_register_variable(c, "a");
        PRJM_EVAL_F* x = projectm_eval_context_register_variable(c, "x");
        /* values behind freshly registered variables must be initialised: branch on them */
        if (*a != 0 || *x != 0)
        {
            ++branches;
        }
        struct projectm_eval_code* volatile h = projectm_eval_code_compile(c, text);
        free(text);
        ++texts;
        int line = 0, col = 0;
        const char* e = projectm_eval_get_error(c, &line, &col);
        if (e && (strlen(e) > 1000 || line < 0 || col < -1))
        {
            ++branches;
        }
        if (h)
        {
            ++ok;
            for (volatile int k = 0; k < 2; ++k)
            {
                *a = (PRJM_EVAL_F) rnd(70000) - 3;
                *x = (PRJM_EVAL_F) rnd(5);
                if (!setjmp(env))
                {
                    limit = edges + 100000;
                    PRJM_EVAL_F r = projectm_eval_code_execute(h);
                    limit = ~0ull;
                    if (r > 0)
                    {
                        ++branches;
                    }
                    sink = r;
                }
                limit = ~0ull;
                ++runs;
                if (*a > 0 || *x > 0)
                {
                    ++branches;
                }
            }
            if (rnd(3) == 0)
            {
                projectm_eval_context_free_memory(c);
            }
            projectm_eval_code_destroy(h);
        }
        projectm_eval_context_destroy(c);
        if (g)
        {
            projectm_eval_memory_buffer_destroy(g);
        }
        else if (rnd(4) == 0)
        {
            projectm_eval_memory_global_destroy();
        }
    }
    unsigned reached = 0;
    for (unsigned i = 1; i <= total; ++i)
    {
        reached += map[i];
    }
    printf("{\"texts\":%ld,\"compiled\":%ld,\"runs\":%ld,\"branches\":%ld,\"edges\":%u,\"total\":%u}\n", texts, ok, runs, branches, reached, total);
    return 0;
}

#include "common.hpp"

#include <chrono>
#include <clocale>
#include <csetjmp>
#include <cstdarg>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

Run R;

static char* journal_mem;
static const size_t JOURNAL_SIZE = 1 << 20;
static FILE* out_file;
static int report_fd = -1;

// Journal: u64 case, u64 progress, u32 length, text
void Run::note(const std::string& text)
{
    if (!journal_mem)
    {
        return;
    }
    uint64_t* h = (uint64_t*) journal_mem;
    h[0] = case_index;
    h[1]++;
    size_t n = text.size() < JOURNAL_SIZE - 64 ? text.size() : JOURNAL_SIZE - 64;
    memcpy(journal_mem + 24, text.data(), n);
    h[2] = n;
}

void Run::note_more(const std::string& text)
{
    if (!journal_mem)
    {
        return;
    }
    uint64_t* h = (uint64_t*) journal_mem;
    h[1]++;
    size_t have = h[2];
    size_t room = JOURNAL_SIZE - 64 - have;
    size_t n = text.size() < room ? text.size() : room;
    memcpy(journal_mem + 24 + have, text.data(), n);
    h[2] = have + n;
}

std::string json_escape(const std::string& s)
{
    std::string o;
    char b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += (char) c;
        }
        else if (c < 32 || c >= 127)
        {
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
        {
            o += (char) c;
        }
    }
    return o;
}

std::string fmt(const char* f, ...)
{
    char buf[8192];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

std::string num(double v) { return fmt("%.17g", v); }

void Run::fail(const std::string& key, const std::string& msg)
{
    ++violations;
    if (out_file)
    {
        fprintf(out_file, "{\"t\":\"violation\",\"case\":%llu,\"key\":\"%s\",\"msg\":\"%s\"}\n",
                (unsigned long long) case_index, json_escape(key).c_str(), json_escape(msg.substr(0, 6000)).c_str());
        fflush(out_file);
    }
    else
    {
        dprintf(report_fd >= 0 ? report_fd : 1, "FAIL case=%llu key=%s\n%s\n", (unsigned long long) case_index,
                key.c_str(), msg.c_str());
    }
}

static void on_hang()
{
    if (journal_mem)
    {
        R.note_more("\n[step budget exceeded: logical hang]");
    }
    _exit(97);
}

StepGuard::StepGuard(uint64_t edges)
{
    hk_edge_hang = on_hang;
    hk_edge_limit = hk_edges + edges;
}
static jmp_buf limit_jmp;
static void on_limit() { longjmp(limit_jmp, 1); }

bool run_limited(projectm_eval_code* h, uint64_t edges, F& result)
{
    volatile bool ok = false;
    if (!setjmp(limit_jmp))
    {
        hk_edge_hang = on_limit;
        hk_edge_limit = hk_edges + edges;
        result = projectm_eval_code_execute(h);
        ok = true;
    }
    else
    {
        hk_lock_depth = 0;
    }
    hk_edge_limit = ~0ull;
    hk_edge_hang = on_hang;
    return ok;
}

StepGuard::~StepGuard() { hk_edge_limit = ~0ull; }

// 1: a case is being executed, 2: all cases are done. Tells the driver whether the library ended the process.
static void phase(uint64_t n)
{
    if (journal_mem)
    {
        memcpy(journal_mem + JOURNAL_SIZE - 8, &n, 8);
    }
}

static std::string arg(int argc, char** argv, const char* name, const char* def)
{
    for (int i = 1; i + 1 < argc; ++i)
    {
        if (!strcmp(argv[i], name))
        {
            return argv[i + 1];
        }
    }
    return def;
}

int main(int argc, char** argv)
{
    R.prop = arg(argc, argv, "--prop", "C00");
    R.tier = arg(argc, argv, "--tier", "quick");
    R.mode = arg(argc, argv, "--mode", "");
    R.extra = arg(argc, argv, "--extra", "");
    R.seed = strtoull(arg(argc, argv, "--seed", "1").c_str(), nullptr, 10);
    R.worker = strtoull(arg(argc, argv, "--worker", "0").c_str(), nullptr, 10);
    R.workers = strtoull(arg(argc, argv, "--workers", "1").c_str(), nullptr, 10);
    R.cases = strtoull(arg(argc, argv, "--cases", "100").c_str(), nullptr, 10);
    R.only_case = atol(arg(argc, argv, "--case", "-1").c_str());
    R.out = arg(argc, argv, "--out", "");
    R.journal = arg(argc, argv, "--journal", "");
    R.hashes = arg(argc, argv, "--hashes", "");

    report_fd = dup(1);
    if (!R.out.empty())
    {
        out_file = fopen(R.out.c_str(), "w");
        if (!out_file)
        {
            return 96;
        }
    }
    if (!R.journal.empty())
    {
        int fd = open(R.journal.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, JOURNAL_SIZE))
        {
            return 96;
        }
        journal_mem = (char*) mmap(nullptr, JOURNAL_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }

    double slow_limit = atof(arg(argc, argv, "--slow", "0").c_str());
    R.rng = Rng(mix64(R.seed * 1000003 + hash_str(R.prop + R.mode)));
    harness_init();
    uint64_t base = mix64(R.seed) ^ hash_str(R.prop + "/" + R.mode);
    for (uint64_t i = R.worker; i < R.cases; i += R.workers)
    {
        if (R.only_case >= 0 && (uint64_t) R.only_case != i)
        {
            continue;
        }
        R.case_index = i;
        phase(1);
        R.rng = Rng(mix64(base + i * 0x9e3779b97f4a7c15ull));
        R.note("");
        auto started = std::chrono::steady_clock::now();
        harness_case();
        double took = std::chrono::duration<double>(std::chrono::steady_clock::now() - started).count();
        if (slow_limit > 0 && took > slow_limit)
        {
            fprintf(stderr, "slow: case %llu, %.1f s\n", (unsigned long long) i, took);
        }
        if (R.violations >= 5)
        {
            break;
        }
    }
    if (R.violations < 5)
    {
        harness_done();
    }
    phase(2);

    if (out_file)
    {
        fprintf(out_file, "{\"t\":\"stats\",\"evaluations\":%llu,\"edges\":%u,\"edges_total\":%u,\"steps\":%llu,\"counters\":{",
                (unsigned long long) R.evaluations, hk_edges_covered(), hk_edge_total, (unsigned long long) hk_edges);
        bool first = true;
        for (auto& c : R.counters)
        {
            fprintf(out_file, "%s\"%s\":%llu", first ? "" : ",", json_escape(c.first).c_str(), (unsigned long long) c.second);
            first = false;
        }
        fprintf(out_file, "},\"samples\":[");
        for (size_t i = 0; i < R.samples.size(); ++i)
        {
            fprintf(out_file, "%s\"%s\"", i ? "," : "", json_escape(R.samples[i]).c_str());
        }
        fprintf(out_file, "]}\n");
        fclose(out_file);
    }
    else
    {
        printf("evaluations %llu violations %d distinct %zu edges %u/%u steps %llu\n", (unsigned long long) R.evaluations, R.violations,
               R.distinct_hashes.size(), hk_edges_covered(), hk_edge_total, (unsigned long long) hk_edges);
        for (auto& c : R.counters)
        {
            printf("  %s=%llu\n", c.first.c_str(), (unsigned long long) c.second);
        }
        for (auto& s : R.samples)
        {
            printf("  sample: %s\n", s.c_str());
        }
    }
    if (!R.hashes.empty())
    {
        FILE* f = fopen(R.hashes.c_str(), "wb");
        if (f)
        {
            for (uint64_t h : R.distinct_hashes)
            {
                fwrite(&h, 8, 1, f);
            }
            // Coverage map
            fclose(f);
        }
        f = fopen((R.hashes + ".cov").c_str(), "wb");
        if (f)
        {
            fwrite(hk_edge_map, 1, 65536, f);
            fclose(f);
        }
    }
    return R.violations ? 1 : 0;
}

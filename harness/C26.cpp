// C26: no output and no change of the process environment. File descriptors 0-2 are private memory files, system calls
// that do I/O or change process state are trapped (seccomp) while an API call is running, and snapshots of the process
// state are compared before and after.
#include "texts.hpp"

#include <cfenv>
#include <clocale>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <ucontext.h>
#include <unistd.h>

extern char** environ;

static volatile int in_api;
static volatile long trapped[512];
static volatile long trapped_total;
static bool filter_on;
static int fds[3];

// The only place from which trapped system calls are let through.
extern "C" long hk_raw_syscall(long n, long a, long b, long c, long d, long e, long f);
extern "C" char hk_raw_syscall_ret;
__asm__(".text\n.globl hk_raw_syscall\nhk_raw_syscall:\n mov %rdi,%rax\n mov %rsi,%rdi\n mov %rdx,%rsi\n mov %rcx,%rdx\n mov %r8,%r10\n mov %r9,%r8\n mov 8(%rsp),%r9\n syscall\n.globl hk_raw_syscall_ret\nhk_raw_syscall_ret:\n ret\n");

static void on_sys(int, siginfo_t* si, void* uc)
{
    ucontext_t* u = (ucontext_t*) uc;
    greg_t* g = u->uc_mcontext.gregs;
    long n = si->si_syscall;
    if (in_api)
    {
        trapped[n & 511] = trapped[n & 511] + 1;
        trapped_total = trapped_total + 1;
    }
    g[REG_RAX] = hk_raw_syscall(n, g[REG_RDI], g[REG_RSI], g[REG_RDX], g[REG_R10], g[REG_R8], g[REG_R9]);
}

static const int watched[] = {SYS_write, SYS_writev, SYS_pwrite64, SYS_read, SYS_readv, SYS_pread64, SYS_open, SYS_openat, SYS_creat, SYS_close, SYS_dup, SYS_dup2, SYS_dup3, SYS_pipe, SYS_pipe2, SYS_socket, SYS_connect, SYS_sendto, SYS_sendmsg,
                              SYS_rt_sigaction, SYS_chdir, SYS_fchdir, SYS_umask, SYS_kill, SYS_tgkill, SYS_execve, SYS_unlink, SYS_unlinkat, SYS_rename, SYS_mkdir, SYS_mkdirat, SYS_memfd_create, SYS_setitimer, SYS_alarm, SYS_setrlimit, SYS_setpriority};

static bool install_filter()
{
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_sys;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    if (sigaction(SIGSYS, &sa, nullptr) || prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0))
    {
        return false;
    }
    std::vector<sock_filter> f;
    uint64_t ok = (uint64_t) &hk_raw_syscall_ret;
    auto add = [&](uint16_t code, uint32_t k, uint8_t jt, uint8_t jf) { f.push_back(sock_filter{code, jt, jf, k}); };
    add(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, arch), 0, 0);
    add(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 1, 0);
    add(BPF_RET | BPF_K, SECCOMP_RET_ALLOW, 0, 0);
    // calls from hk_raw_syscall pass
    add(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer), 0, 0);
    add(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t) ok, 0, 3);
    add(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, instruction_pointer) + 4, 0, 0);
    add(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t) (ok >> 32), 0, 1);
    add(BPF_RET | BPF_K, SECCOMP_RET_ALLOW, 0, 0);
    add(BPF_LD | BPF_W | BPF_ABS, offsetof(seccomp_data, nr), 0, 0);
    for (int n : watched)
    {
        add(BPF_JMP | BPF_JEQ | BPF_K, (uint32_t) n, 0, 1);
        add(BPF_RET | BPF_K, SECCOMP_RET_TRAP, 0, 0);
    }
    add(BPF_RET | BPF_K, SECCOMP_RET_ALLOW, 0, 0);
    sock_fprog p = {(unsigned short) f.size(), f.data()};
    return prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p, 0, 0) == 0;
}

static char random_state[128];

static std::string describe_fds()
{
    std::string s;
    DIR* d = opendir("/proc/self/fd");
    if (!d)
    {
        return s;
    }
    std::map<int, std::string> m;
    while (dirent* e = readdir(d))
    {
        int n = atoi(e->d_name);
        if (e->d_name[0] == '.' || n == dirfd(d))
        {
            continue;
        }
        char b[300];
        ssize_t k = readlink((std::string("/proc/self/fd/") + e->d_name).c_str(), b, sizeof b - 1);
        m[n] = k > 0 ? std::string(b, (size_t) k) : "?";
    }
    closedir(d);
    for (auto& x : m)
    {
        s += fmt("%d=%s ", x.first, x.second.c_str());
    }
    return s;
}

static std::string snapshot()
{
    std::string s = "fds " + describe_fds();
    s += "\nlocale ";
    s += setlocale(LC_ALL, nullptr);
    s += uselocale((locale_t) 0) == LC_GLOBAL_LOCALE ? " global" : fmt(" thread %p", (void*) uselocale((locale_t) 0));
    s += fmt("\nrounding %d exceptions %d", fegetround(), fegetexcept());
    unsigned mx = 0;
    unsigned short cw = 0;
    __asm__ volatile("stmxcsr %0" : "=m"(mx));
    __asm__ volatile("fnstcw %0" : "=m"(cw));
    s += fmt(" mxcsr control %x x87 %x", mx & ~0x3fu, cw);
    s += "\nsignals ";
    for (int i = 1; i < 65; ++i)
    {
        struct sigaction sa;
        if (!sigaction(i, nullptr, &sa) && (void*) sa.sa_handler != (void*) SIG_DFL)
        {
            s += fmt("%d=%p/%x ", i, (void*) sa.sa_handler, sa.sa_flags);
        }
    }
    sigset_t m;
    sigemptyset(&m);
    sigprocmask(SIG_SETMASK, nullptr, &m);
    s += "mask ";
    for (int i = 1; i < 65; ++i)
    {
        s += sigismember(&m, i) == 1 ? '1' : '0';
    }
    char cwd[4096];
    s += std::string("\ncwd ") + (getcwd(cwd, sizeof cwd) ? cwd : "?");
    uint64_t h = 7;
    int n = 0;
    for (char** e = environ; e && *e; ++e, ++n)
    {
        h = hash_str(*e, h);
    }
    s += fmt("\nenvironment %d entries %llx at %p", n, (unsigned long long) h, (void*) environ);
    mode_t um = umask(0);
    umask(um);
    itimerval it;
    getitimer(ITIMER_REAL, &it);
    s += fmt("\numask %o timer %ld.%ld", um, it.it_value.tv_sec, it.it_value.tv_usec);
    // the C library's random number generators
    static unsigned short zero[3];
    unsigned short old[3];
    memcpy(old, seed48(zero), sizeof old);
    seed48(old);
    s += fmt("\nrandom %llx %x-%x-%x", (unsigned long long) hash_str(std::string(random_state, sizeof random_state)), old[0], old[1], old[2]);
    char name[17] = "";
    prctl(PR_GET_NAME, name, 0, 0, 0);
    s += std::string("\nname ") + name + fmt(" priority %d dumpable %d", getpriority(PRIO_PROCESS, 0), prctl(PR_GET_DUMPABLE, 0, 0, 0, 0));
    for (int i = 0; i < RLIM_NLIMITS; ++i)
    {
        rlimit l;
        if (!getrlimit((__rlimit_resource_t) i, &l))
        {
            s += fmt(" %llx/%llx", (unsigned long long) l.rlim_cur, (unsigned long long) l.rlim_max);
        }
    }
    DIR* d = opendir(".");
    std::set<std::string> names;
    while (dirent* e = d ? readdir(d) : nullptr)
    {
        names.insert(e->d_name);
    }
    if (d)
    {
        closedir(d);
    }
    s += "\nfiles here";
    for (auto& x : names)
    {
        s += " " + x;
    }
    return s;
}

static std::string scratch;

// Failing allocations of memory blocks in some histories.
static int fail_percent;
static bool fail_all;
static Rng fail_rng(1);
static int fail_some(size_t size)
{
    return (fail_all || size >= 65536 * sizeof(F)) && fail_percent && fail_rng.chance(fail_percent);
}

void harness_init()
{
    for (auto t : seeds)
    {
        corpus.push_back(t);
    }
    initstate(20, random_state, sizeof random_state);
    char t[] = "c26.XXXXXX";
    if (!mkdtemp(t) || chdir(t))
    {
        exit(96);
    }
    char b[4096];
    scratch = getcwd(b, sizeof b) ? b : "";
    for (int i = 0; i < 3; ++i)
    {
        fds[i] = memfd_create("std", 0);
        if (fds[i] < 0)
        {
            exit(96);
        }
    }
    if (write(fds[0], "x=1;\ninput\n", 11) != 11)
    {
        exit(96);
    }
    lseek(fds[0], 0, SEEK_SET);
    fflush(nullptr);
    for (int i = 0; i < 3; ++i)
    {
        dup2(fds[i], i);
    }
    setvbuf(stdout, nullptr, _IONBF, 0);
    filter_on = install_filter();
    R.counters["set_system_call_filter_active"] = filter_on;
}

void harness_done()
{
    if (!scratch.empty())
    {
        (void) !chdir("/");
        rmdir(scratch.c_str());
    }
}

struct Api
{
    Api() { in_api = 1; }
    ~Api()
    {
        in_api = 0;
        R.count("api_calls");
    }
};

static const char* const special[] = {"/* text with \n several * lines / of /* comment */ a=1", "/* unterminated", "// line", "# % @", "\x80\xff\xfe", "a=1 /* x */ b", "sin(1,2)", "1 +", "x = \"string\"", "printf(1)", "\\\\", "$", "$'", "$x", "$y1", "a=1;\r\nb=2;\r\n",
                                      "/***/ /**/ /* * */ a", "a /* \n\n\n */ # ", "?", "nofunc(1)", "'a'", "\"\"", "a..b", "\x01\x02\x03", "/*\\*/1", "/* é */ 2", "megabuf(0)=1;gmem[0]=2;1/0;sqrt(-1);log(0)", "loop(10000,a+=exp(a))"};

void harness_case()
{
    Rng& r = R.rng;
    R.note("");
    // Host states that a careless library could reset.
    static const int rounding[] = {FE_TONEAREST, FE_TONEAREST, FE_TOWARDZERO, FE_UPWARD};
    fesetround(r.pick(rounding));
    if (r.chance(30))
    {
        // flush-to-zero, as audio/graphics hosts set it
        unsigned mx = 0;
        __asm__ volatile("stmxcsr %0" : "=m"(mx));
        mx ^= 0x8000;
        __asm__ volatile("ldmxcsr %0" : : "m"(mx));
    }
    umask((mode_t) r.range(0, 63));
    if (!R.extra.empty())
    {
        // Host locales, for the process or the thread.
        std::stringstream ss(R.extra + " C");
        std::vector<std::string> names;
        std::string n;
        while (ss >> n)
        {
            names.push_back(n);
        }
        static locale_t thread_locale = (locale_t) 0;
        if (thread_locale)
        {
            uselocale(LC_GLOBAL_LOCALE);
            freelocale(thread_locale);
            thread_locale = (locale_t) 0;
        }
        static const int cats[] = {LC_ALL, LC_NUMERIC, LC_CTYPE};
        if (!setlocale(r.pick(cats), r.pick(names).c_str()))
        {
            exit(96);
        }
        if (r.chance(40))
        {
            thread_locale = newlocale(LC_ALL_MASK, r.pick(names).c_str(), (locale_t) 0);
            uselocale(thread_locale);
        }
        R.count("locale_changes_by_the_host");
    }
    std::vector<std::string> texts;
    for (int i = r.range(3, 10); i > 0; --i)
    {
        texts.push_back(r.chance(30) ? (r.chance(50) ? mutate(r, r.pick(special)) : r.pick(special)) : any_text(r));
    }
    static F regs[100];
    bool own = r.chance(50), use_regs = r.chance(50);
    std::string before = snapshot(), log;
    long t0 = trapped_total;
    projectm_eval_mem_buffer g = nullptr;
    projectm_eval_context* c;
    F* a;
    {
        Api x;
        g = own ? projectm_eval_memory_buffer_create() : nullptr;
    }
    {
        Api x;
        c = projectm_eval_context_create(g, use_regs ? &regs : nullptr);
    }
    {
        Api x;
        a = projectm_eval_context_register_variable(c, "a");
    }
    auto check = [&](const std::string& what) {
        off_t o1 = lseek(fds[1], 0, SEEK_END), o2 = lseek(fds[2], 0, SEEK_END), o0 = lseek(0, 0, SEEK_CUR);
        R.count("output_checks");
        std::string m;
        if (o1 || o2)
        {
            char b[400];
            ssize_t n = pread(o1 ? fds[1] : fds[2], b, sizeof b, 0);
            m = fmt("%ld bytes written to %s: ", (long) (o1 ? o1 : o2), o1 ? "standard output" : "standard error") + std::string(b, n > 0 ? (size_t) n : 0);
            (void) !ftruncate(fds[1], 0);
            (void) !ftruncate(fds[2], 0);
        }
        else if (o0)
        {
            m = "standard input was read";
            lseek(0, 0, SEEK_SET);
        }
        else if (trapped_total != t0)
        {
            m = "system calls during an API call:";
            for (int i = 0; i < 512; ++i)
            {
                if (trapped[i])
                {
                    m += fmt(" %d (%ld times)", i, trapped[i]);
                    trapped[i] = 0;
                }
            }
            t0 = trapped_total;
        }
        if (!m.empty())
        {
            R.fail("C26:" + m.substr(0, 30), what + "\n" + m);
            return false;
        }
        return true;
    };
    std::vector<projectm_eval_code*> hs;
    bool ok = true;
    long injected = hk_injected;
    if (r.chance(20))
    {
        // Contexts and buffers that can't be created.
        fail_all = true;
        fail_percent = r.pick(std::vector<int>{3, 20, 100});
        hk_alloc_decide = fail_some;
        for (int i = 0; i < 2; ++i)
        {
            Api x;
            projectm_eval_mem_buffer b = projectm_eval_memory_buffer_create();
            projectm_eval_context* n = projectm_eval_context_create(b, use_regs ? &regs : nullptr);
            if (n)
            {
                projectm_eval_context_destroy(n);
            }
            if (b)
            {
                projectm_eval_memory_buffer_destroy(b);
            }
        }
        fail_all = false;
    }
    fail_rng = Rng(r.u64());
    fail_percent = r.chance(80) ? 0 : r.pick(std::vector<int>{1, 5, 30, 100});
    hk_alloc_decide = fail_some;
    for (auto& s : texts)
    {
        R.note(s);
        log += s + "\n";
        projectm_eval_code* h;
        {
            StepGuard guard(400000000ull);
            Api x;
            h = projectm_eval_code_compile(c, s.c_str());
        }
        ++R.evaluations;
        R.distinct(hash_str(s));
        R.count(h ? "compiled" : "rejected");
        {
            Api x;
            int line;
            projectm_eval_get_error(c, &line, nullptr);
        }
        if (h)
        {
            hs.push_back(h);
            *a = extreme_value(r);
            F v;
            Api x;
            run_limited(h, 100000, v);
        }
        if (r.chance(20))
        {
            Api x;
            projectm_eval_context_reset_variables(c);
        }
        if (r.chance(20))
        {
            Api x;
            projectm_eval_context_free_memory(c);
        }
        fflush(nullptr);
        if (!check(s))
        {
            ok = false;
            break;
        }
    }
    fail_percent = 0;
    hk_alloc_decide = nullptr;
    R.count("allocations_failed", (uint64_t) (hk_injected - injected));
    for (auto h : hs)
    {
        Api x;
        projectm_eval_code_destroy(h);
    }
    {
        Api x;
        projectm_eval_context_destroy(c);
    }
    {
        Api x;
        if (own)
        {
            projectm_eval_memory_buffer_destroy(g);
        }
        else
        {
            projectm_eval_memory_global_destroy();
        }
    }
    fflush(nullptr);
    ok = ok && check(log + "(destruction)");
    std::string after = snapshot();
    R.count("snapshots_compared");
    if (ok && before != after)
    {
        R.fail("C26:environment", log + "before:\n" + before + "\nafter:\n" + after);
    }
    R.sample(texts[0]);
}

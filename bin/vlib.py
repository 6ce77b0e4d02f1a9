"""Shared machinery of all checks: mirrors /repo, builds instrumented variants of the library and the harnesses,
runs the workers, attributes crashes, applies the known-findings list and writes evidence."""
import fcntl, glob, hashlib, json, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
CC, CXX = "/usr/bin/clang", "/usr/bin/clang++"
BISON, FLEX, CMAKE = "/usr/bin/bison", "/usr/bin/flex", "/usr/bin/cmake"
NCPU = max(2, min(8, os.cpu_count() or 8))
# Sources whose committed generated files are current (as the official build decides it).
CURRENT = {"Compiler.y": "8eba315a3f8f473bb702aa5f93f4bb12d25e804a57195f01c600199862b92c1d",
           "Scanner.l": "19e8ed66dd8edb3a91fd56d3c56dbd02fc787cf208364581fe141ff5f34bf4a1"}

class CheckError(Exception):
    """The check itself could not run; not a statement about the property."""

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()

def read(p):
    with open(p, "rb") as f:
        return f.read()

def run(cmd, cwd=None, env=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if p.returncode:
        raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(cmd), p.stdout.decode("utf-8", "replace")[-4000:]))
    return p.stdout

def run_parallel(cmds, timeout=600):
    procs, todo, out = [], list(cmds), []
    while todo or procs:
        while todo and len(procs) < NCPU:
            c = todo.pop(0)
            procs.append((c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        c, p = procs.pop(0)
        o, _ = p.communicate(timeout=timeout)
        if p.returncode:
            for _, q in procs:
                q.kill()
            raise CheckError("command failed (%d): %s\n%s" % (p.returncode, " ".join(c), o.decode("utf-8", "replace")[-4000:]))

SKIP_DIRS = {".git", "_build"}

def repo_files():
    out = []
    for d, dirs, files in os.walk(REPO):
        dirs[:] = sorted(x for x in dirs if x not in SKIP_DIRS)
        for f in sorted(files):
            p = os.path.join(d, f)
            if os.path.isfile(p) and not os.path.islink(p):
                out.append(os.path.relpath(p, REPO))
    return out

class Tree:
    """A mirror of /repo's working tree with generated parser files that belong to its grammar."""
    def __init__(self):
        files = repo_files()
        h = hashlib.sha256()
        for f in files:
            h.update(f.encode() + b"\0" + hashlib.sha256(read(os.path.join(REPO, f))).digest())
        self.key = h.hexdigest()[:16]
        self.root = os.path.join(BUILD, "tree-" + self.key)
        self.src = os.path.join(self.root, "src")
        os.makedirs(BUILD, exist_ok=True)
        with Lock("tree"):
            self.prune()
            if not os.path.exists(os.path.join(self.root, "ok")):
                shutil.rmtree(self.root, ignore_errors=True)
                for f in files:
                    dst = os.path.join(self.src, f)
                    os.makedirs(os.path.dirname(dst), exist_ok=True)
                    shutil.copyfile(os.path.join(REPO, f), dst)
                self.generate()
                open(os.path.join(self.root, "ok"), "w").close()
            else:
                os.utime(self.root)

    def prune(self):
        old = sorted((d for d in glob.glob(os.path.join(BUILD, "tree-*")) if d != self.root and os.path.isdir(d)), key=os.path.getmtime)
        for d in old[:-3]:
            if time.time() - os.path.getmtime(d) > 1800:
                shutil.rmtree(d, ignore_errors=True)

    def generate(self):
        d = os.path.join(self.src, "projectm-eval")
        if sha256_file(os.path.join(d, "Compiler.y")) != CURRENT["Compiler.y"]:
            run([BISON, "--defines=Compiler.h", "-Wcounterexamples", "--no-lines", "-o", "Compiler.c", "Compiler.y"], cwd=d)
        if sha256_file(os.path.join(d, "Scanner.l")) != CURRENT["Scanner.l"]:
            run([FLEX, "--noline", "--prefix=prjm_eval_", "--header-file=Scanner.h", "-o", "Scanner.c", "Scanner.l"], cwd=d)

    def sources(self, shim=False):
        d = os.path.join(self.src, "projectm-eval")
        s = sorted(glob.glob(os.path.join(d, "**", "*.c"), recursive=True))
        if shim:
            s += sorted(glob.glob(os.path.join(self.src, "ns-eel2-shim", "**", "*.c"), recursive=True))
        return s

    def includes(self):
        return ["-I" + self.src, "-I" + os.path.join(self.src, "projectm-eval"), "-I" + os.path.join(self.src, "projectm-eval", "api")]

def sha256_file(p):
    return hashlib.sha256(read(p)).hexdigest()

class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.path = os.path.join(BUILD, "." + name + ".lock")
    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()

WRAPS = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "asprintf", "vasprintf", "reallocarray", "aligned_alloc", "posix_memalign"]
# Whatever the project's own build with gcc accepts has to compile here as well.
LENIENT = ["-w"] + ["-Wno-error=" + w for w in ("implicit-function-declaration", "implicit-int", "int-conversion", "incompatible-function-pointer-types", "return-type", "incompatible-pointer-types")]
SAN_ASAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
SAN_TSAN = ["-fsanitize=thread"]
VARIANTS = {
    # name: (library flags, harness flags, link flags, shim sources, wrap)
    "plain": (["-O1", "-g", "-fsanitize-coverage=trace-pc-guard"], ["-O1", "-DHK_PCGUARD"], [], False, True),
    "asan": (["-O1", "-g", "-fsanitize-coverage=trace-pc-guard"] + SAN_ASAN, ["-O1", "-DHK_PCGUARD", "-fsanitize=address", "-fno-omit-frame-pointer"], SAN_ASAN, False, True),
    "tsan": (["-O1", "-g", "-fsanitize-coverage=trace-pc-guard"] + SAN_TSAN, ["-O1", "-DHK_PCGUARD"] + SAN_TSAN, SAN_TSAN, False, True),
    "shim": (["-O1", "-g", "-fsanitize-coverage=trace-pc-guard"], ["-O1", "-DHK_PCGUARD", "-DHK_SHIM"], [], True, True),
    "shimasan": (["-O1", "-g", "-fsanitize-coverage=trace-pc-guard"] + SAN_ASAN, ["-O1", "-DHK_PCGUARD", "-DHK_SHIM", "-fsanitize=address", "-fno-omit-frame-pointer"], SAN_ASAN, True, True),
    # no allocation wrapper, no edge counters: the library as delivered, -O2
    "bare": (["-O2", "-g"], ["-O1"], [], False, False),
}

def build_variant(tree, variant, harness, extra_defs=()):
    """Compiles library and harness of a variant; returns the path of the executable."""
    libf, hf, lf, shim, wrap = VARIANTS[variant]
    out = os.path.join(tree.root, variant)
    hkey = sha(*(read(p) for p in sorted(glob.glob(os.path.join(HARNESS, "*.hpp")))))[:10]
    with Lock(variant):
        os.makedirs(out, exist_ok=True)
        cmds, objs = [], []
        for s in tree.sources(shim):
            o = os.path.join(out, "lib_" + os.path.relpath(s, tree.src).replace("/", "_") + ".o")
            objs.append(o)
            if not os.path.exists(o):
                cmds.append([CC] + libf + LENIENT + tree.includes() + ["-c", s, "-o", o + ".tmp"])
        hobjs = []
        for h in ["model", "runner", "hooks", harness]:
            s = os.path.join(HARNESS, h + ".cpp")
            o = os.path.join(out, "h_%s_%s_%s.o" % (h, hkey, sha(read(s), repr(hf), *extra_defs)[:10]))
            hobjs.append(o)
            if not os.path.exists(o):
                inc = ["-I" + os.path.join(tree.src, "ns-eel2-shim")] if shim else []
                cmds.append([CXX, "-std=c++17", "-g", "-w"] + hf + (["-DHK_WRAP"] if wrap else []) + list(extra_defs) + tree.includes() + inc + ["-c", s, "-o", o + ".tmp"])
        cmds.sort(key=lambda c: 0 if c[0] == CXX else 1)
        try:
            run_parallel(cmds)
        except subprocess.TimeoutExpired:
            raise CheckError("compiler timeout")
        for c in cmds:
            os.rename(c[-1], c[-1][:-4])
        exe = os.path.join(out, "x_%s_%s" % (harness, sha(*hobjs)[:10]))
        if not os.path.exists(exe):
            link = [CXX] + lf + hobjs + objs + (["-Wl," + ",".join("--wrap=" + w for w in WRAPS)] if wrap else []) + ["-lm", "-lpthread", "-o", exe + ".tmp"]
            run(link)
            os.rename(exe + ".tmp", exe)
    return exe

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=98:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4000:handle_abort=1:print_legend=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=98:halt_on_error=1:second_deadlock_stack=1:report_thread_leaks=1:memory_limit_mb=6000",
    "LSAN_OPTIONS": "exitcode=99",
}

def limits():
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (64 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except (ValueError, OSError):
        pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

class Worker:
    def __init__(self, exe, args, wdir, n, env):
        self.n = n
        self.out = os.path.join(wdir, "out.%d" % n)
        self.journal = os.path.join(wdir, "journal.%d" % n)
        self.hashes = os.path.join(wdir, "hashes.%d" % n)
        self.log = os.path.join(wdir, "log.%d" % n)
        e = dict(os.environ)
        for k in ("LD_PRELOAD", "LC_ALL", "LANG", "LC_NUMERIC", "LC_CTYPE"):
            e.pop(k, None)
        e.update(SAN_ENV)
        e.update(env or {})
        with open(self.log, "wb") as lf:
            self.p = subprocess.Popen([exe] + args + ["--out", self.out, "--journal", self.journal, "--hashes", self.hashes],
                                      stdout=lf, stderr=lf, stdin=subprocess.DEVNULL, env=e, cwd=wdir, preexec_fn=limits, start_new_session=True)

    def read_journal(self):
        try:
            b = read(self.journal)
            case, prog, n = struct.unpack("<QQQ", b[:24])
            return case, prog, b[24:24 + min(n, len(b) - 24)].decode("utf-8", "replace")
        except (OSError, struct.error):
            return None, 0, ""

    def in_case(self):
        try:
            return read(self.journal)[-8:] == struct.pack("<Q", 1)
        except OSError:
            return False

    def read_out(self):
        viol, stats = [], None
        try:
            for line in read(self.out).decode("utf-8", "replace").splitlines():
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("t") == "violation":
                    viol.append(d)
                elif d.get("t") == "stats":
                    stats = d
        except OSError:
            pass
        return viol, stats

    def read_log(self):
        try:
            return read(self.log)[-12000:].decode("utf-8", "replace")
        except OSError:
            return ""

def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()

def crash_key(log, rc):
    m = re.search(r"SUMMARY: (\w+): (.*)", log)
    if m:
        return "sanitizer:" + re.sub(r"/\S*/", "", m.group(2))[:120]
    m = re.search(r"runtime error: (.*)", log)
    if m:
        return "sanitizer:" + m.group(1)[:120]
    return "died:" + (signal.Signals(-rc).name if rc < 0 else "exit %d" % rc)

class Result:
    def __init__(self, prop):
        self.prop = prop
        self.violations = []   # dicts: key, msg, replay info
        self.evaluations = 0
        self.counters = {}
        self.samples = []
        self.distinct = set()
        self.edges = {}
        self.jobs = []
        self.notes = []

def run_job(res, tree, prop, tier, seed, job):
    """job: dict(src, variant, mode, cases, timeout, workers, env, defs, args)"""
    exe = job.get("exe") or build_variant(tree, job["variant"], job["src"], job.get("defs", ()))
    nw = job.get("workers", NCPU)
    cases = job["cases"]
    wdir = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    t0 = time.time()
    try:
        base = ["--prop", prop, "--tier", tier, "--seed", str(seed), "--cases", str(cases), "--mode", job.get("mode", ""), "--extra", job.get("extra", "")]
        ws = [Worker(exe, base + ["--worker", str(i), "--workers", str(nw)], wdir, i, job.get("env")) for i in range(nw)]
        deadline = t0 + job.get("timeout", 400)
        hung = []
        for w in ws:
            try:
                w.p.wait(max(0.1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                hung.append(w)
        slow = []
        for w in hung:
            case, prog, text = w.read_journal()
            kill(w.p)
            slow.append((w, case, text))
        maps = []
        for w in ws:
            viol, stats = w.read_out()
            for v in viol:
                add_violation(res, prop, tier, seed, job, cases, v["case"], v["key"], v["msg"], "")
            rc = w.p.returncode
            if w not in hung and rc not in (0, 1):
                case, prog, text = w.read_journal()
                log = w.read_log()
                if rc == 97:
                    add_violation(res, prop, tier, seed, job, cases, case, "hang:step budget", text, log)
                elif rc == 96:
                    if not viol:
                        raise CheckError("harness setup failed: " + log)
                elif rc == -9:
                    raise CheckError("worker was killed (memory?); case %s\n%s" % (case, log))
                else:
                    add_violation(res, prop, tier, seed, job, cases, case, crash_key(log, rc), text, log)
            elif w not in hung and not stats and not viol and w.in_case():
                case, prog, text = w.read_journal()
                add_violation(res, prop, tier, seed, job, cases, case, "died:exit %d" % rc, text, w.read_log())
            elif rc == 1 and not viol:
                raise CheckError("worker failed without a violation: " + w.read_log())
            elif rc == 0 and not stats:
                raise CheckError("worker ended without statistics: " + w.read_log())
            if stats:
                res.evaluations += stats["evaluations"]
                for k, n in stats["counters"].items():
                    if k.startswith("max_"):
                        res.counters[k] = max(res.counters.get(k, 0), n)
                    elif k.startswith("set_"):
                        res.counters[k[4:]] = max(res.counters.get(k[4:], 0), n)
                    else:
                        res.counters[k] = res.counters.get(k, 0) + n
                if len(res.samples) < 12:
                    res.samples += stats["samples"][:2]
                if stats["edges_total"]:
                    try:
                        maps.append(read(w.hashes + ".cov")[1:stats["edges_total"] + 1])
                    except OSError:
                        pass
            try:
                b = read(w.hashes)
                res.distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
            except OSError:
                pass
        if maps:
            n = sum(1 for t in zip(*maps) if any(t))
            res.edges[job.get("variant", "custom") + (":" + job["mode"] if job.get("mode") else "")] = "%d of %d library edges" % (n, len(maps[0]))
        for w, case, text in slow:
            if res.violations:
                break
            # Decide hang vs. slow machine: run the one case alone.
            solo = Worker(exe, base + ["--case", str(case), "--worker", "0", "--workers", "1"], wdir, 100 + w.n, job.get("env"))
            try:
                solo.p.wait(job.get("solo_timeout", 60))
                if solo.p.returncode == 97:
                    add_violation(res, prop, tier, seed, job, cases, case, "hang:step budget", text, solo.read_log())
                    continue
            except subprocess.TimeoutExpired:
                c2, p2, text2 = solo.read_journal()
                kill(solo.p)
                add_violation(res, prop, tier, seed, job, cases, case, "hang:wall clock", text2 or text, solo.read_log())
                continue
            raise CheckError("worker exceeded the time limit (case %s), but the case alone ends: machine too slow?" % case)
    finally:
        for w in ws:
            if w.p.poll() is None:
                kill(w.p)
        shutil.rmtree(wdir, ignore_errors=True)
    res.jobs.append({"harness": job.get("src"), "variant": job.get("variant"), "mode": job.get("mode", ""), "cases": cases, "workers": nw, "wall_s": round(time.time() - t0, 2)})

def custom_job(res, job, t0, cases, workers):
    res.jobs.append({"harness": job["name"], "variant": job.get("variant", "custom"), "mode": job.get("mode", ""), "cases": cases, "workers": workers, "wall_s": round(time.time() - t0, 2)})

def run_locales(res, tree, prop, tier, seed, job):
    """Runs a harness in host locales with a decimal comma and with Turkish case rules, compiled into a scratch folder."""
    d = os.path.join(BUILD, "locales")
    names = [("de_DE", "UTF-8", "de_DE.UTF-8"), ("tr_TR", "UTF-8", "tr_TR.UTF-8"), ("tr_TR", "ISO-8859-9", "tr_TR")]
    with Lock("locales"):
        os.makedirs(d, exist_ok=True)
        for src, cm, name in names:
            t = os.path.join(d, name)
            if not os.path.exists(os.path.join(t, "LC_NUMERIC")):
                shutil.rmtree(t, ignore_errors=True)
                run(["/usr/bin/localedef", "--no-archive", "-c", "-i", src, "-f", cm, t + ".tmp"])
                os.rename(t + ".tmp", t)
    run_job(res, tree, prop, tier, seed, dict(job, extra=" ".join(n for _, _, n in names), env={"LOCPATH": d}, run=None))

# name, C compiler, build type, number size, fast math, shim, installed package, only in the thorough tier
CONFIGS = [("gcc-Debug-8", "gcc", "Debug", 8, 1, 0, 0, 0), ("gcc-Release-8", "gcc", "Release", 8, 1, 1, 0, 0), ("gcc-Debug-4-shim", "gcc", "Debug", 4, 1, 1, 0, 0),
           ("gcc-Release-4-shim-installed", "gcc", "Release", 4, 1, 1, 1, 0), ("clang-Release-8", "clang", "Release", 8, 1, 0, 1, 0), ("clang-Release-4", "clang", "Release", 4, 1, 0, 0, 0),
           ("gcc-RelWithDebInfo-8", "gcc", "RelWithDebInfo", 8, 1, 0, 0, 1), ("gcc-MinSizeRel-4", "gcc", "MinSizeRel", 4, 1, 1, 0, 1), ("gcc-Release-8-no-fast-math", "gcc", "Release", 8, 0, 1, 0, 1),
           ("clang-Debug-4", "clang", "Debug", 4, 1, 1, 1, 1), ("clang-Release-4-no-fast-math", "clang", "Release", 4, 0, 0, 1, 1), ("clang-RelWithDebInfo-4", "clang", "RelWithDebInfo", 4, 1, 0, 0, 1)]

def build_config(tree, c):
    """Builds the C27 harness in a CMake project of its own that uses the library in configuration c."""
    name, cc, btype, size, fast, shim, installed, _ = c
    hk = sha(*(read(p) for p in sorted(glob.glob(os.path.join(HARNESS, "*.hpp")) + glob.glob(os.path.join(HARNESS, "consumer", "*"))) + [os.path.join(HARNESS, x + ".cpp") for x in ("C27", "model", "runner", "hooks")]))[:10]
    d = os.path.join(tree.root, "cfg-" + name + "-" + hk)
    exe = os.path.join(d, "build", "c27")
    if os.path.exists(os.path.join(d, "ok")):
        return exe
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CC", "CXX", "CMAKE_PREFIX_PATH")}
    common = ["-DCMAKE_C_COMPILER=/usr/bin/" + cc, "-DCMAKE_CXX_COMPILER=/usr/bin/" + {"gcc": "g++", "clang": "clang++"}[cc], "-DCMAKE_BUILD_TYPE=" + btype, "-DPROJECTM_EVAL_FLOAT_SIZE=%d" % size,
              "-DENABLE_FAST_MATH=" + ("ON" if fast else "OFF"), "-DBUILD_NS_EEL_SHIM=" + ("ON" if shim else "OFF"), "-DBUILD_TESTING=OFF", "-DCMAKE_DISABLE_FIND_PACKAGE_BISON=ON", "-DCMAKE_DISABLE_FIND_PACKAGE_FLEX=ON", "-G", "Unix Makefiles"]
    if cc == "clang":
        common.append("-DCMAKE_C_FLAGS=" + " ".join(LENIENT))
    is_fast = fast and btype in ("Release", "RelWithDebInfo")
    cons = common + ["-DHARNESS=" + HARNESS, "-DEXPECTED_SIZE=%d" % size, "-DFAST_MATH=%d" % is_fast, "-DCMAKE_CXX_FLAGS_RELEASE=-O1", "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O1", "-DCMAKE_CXX_FLAGS_MINSIZEREL=-O1", "-DCMAKE_CXX_FLAGS_DEBUG=-O1"]
    if installed:
        lb, pre = os.path.join(d, "lib"), os.path.join(d, "prefix")
        run([CMAKE, "-S", tree.src, "-B", lb, "-DCMAKE_INSTALL_PREFIX=" + pre, "-DENABLE_PROJECTM_EVAL_INSTALL=ON"] + common, env=env)
        run([CMAKE, "--build", lb, "-j4"], env=env)
        run([CMAKE, "--install", lb], env=env)
        cons.append("-DLIB_PREFIX=" + pre)
    else:
        cons.append("-DLIB_SOURCE=" + tree.src)
    run([CMAKE, "-S", os.path.join(HARNESS, "consumer"), "-B", os.path.join(d, "build")] + cons, env=env)
    run([CMAKE, "--build", os.path.join(d, "build"), "-j4"], env=env)
    open(os.path.join(d, "ok"), "w").close()
    return exe

def run_configs(res, tree, prop, tier, seed, job):
    """Runs the harness linked with every build configuration of the library."""
    from concurrent.futures import ThreadPoolExecutor
    cs = [c for c in CONFIGS if tier == "thorough" or not c[7]]
    with Lock("cfg"):
        with ThreadPoolExecutor(4) as ex:
            exes = list(ex.map(lambda c: build_config(tree, c), cs))
    for c, exe in zip(cs, exes):
        run_job(res, tree, prop, tier, seed, dict(job, exe=exe, extra=c[0], variant=c[0], run=None))
        if res.violations:
            break
    res.counters["configurations"] = len(cs)

def run_msan(res, tree, prop, tier, seed, job):
    """Generates texts with the C01 generator and runs them in a MemorySanitizer build of the library with a plain C driver."""
    t0 = time.time()
    gen = build_variant(tree, "plain", "C01")
    out = os.path.join(tree.root, "msan")
    flags = ["-O1", "-g"] + LENIENT + ["-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-omit-frame-pointer"]
    drv = os.path.join(HARNESS, "msan_driver.c")
    exe = os.path.join(out, "x_" + sha(read(drv))[:10])
    with Lock("msan"):
        os.makedirs(out, exist_ok=True)
        if not os.path.exists(exe):
            cmds, objs = [], []
            for s in tree.sources():
                o = os.path.join(out, "lib_" + os.path.basename(s) + ".o")
                objs.append(o)
                cmds.append([CC] + flags + ["-fsanitize-coverage=trace-pc-guard"] + tree.includes() + ["-c", s, "-o", o])
            o = os.path.join(out, "driver.o")
            objs.append(o)
            cmds.append([CC] + flags + tree.includes() + ["-c", drv, "-o", o])
            run_parallel(cmds)
            run([CC] + flags + objs + ["-lm", "-o", exe + ".tmp"])
            os.rename(exe + ".tmp", exe)
    wdir = tempfile.mkdtemp(prefix="run-", dir=BUILD)
    try:
        procs = []
        for i in range(NCPU):
            f = os.path.join(wdir, "texts.%d" % i)
            run([gen, "--prop", prop, "--tier", tier, "--seed", str(seed), "--cases", str(job["cases"]), "--worker", str(i), "--workers", str(NCPU), "--mode", "dump", "--extra", f])
            e = dict(os.environ, MSAN_OPTIONS="exit_code=98:halt_on_error=1")
            procs.append((i, subprocess.Popen([exe, f, str(seed * 100 + i), os.path.join(wdir, "j.%d" % i)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, preexec_fn=limits, start_new_session=True)))
        for i, p in procs:
            try:
                o, err = p.communicate(timeout=job.get("timeout", 400))
            except subprocess.TimeoutExpired:
                kill(p)
                raise CheckError("MemorySanitizer driver exceeded its time")
            o, err = o.decode("utf-8", "replace"), err.decode("utf-8", "replace")
            text = read(os.path.join(wdir, "j.%d" % i)).rstrip(b"\0").decode("utf-8", "replace") if os.path.exists(os.path.join(wdir, "j.%d" % i)) else ""
            if p.returncode == 96:
                raise CheckError("MemorySanitizer driver: " + err)
            if p.returncode:
                add_violation(res, prop, tier, seed, job, job["cases"], i, crash_key(err, p.returncode), text, err[-6000:])
                continue
            d = json.loads(o.strip().splitlines()[-1]) if o.strip() else None
            if not d:
                add_violation(res, prop, tier, seed, job, job["cases"], i, "died:exit 0", text, err[-6000:])
                continue
            res.evaluations += d["runs"]
            for k in ("texts", "compiled", "runs"):
                res.counters["msan_" + k] = res.counters.get("msan_" + k, 0) + d[k]
            res.counters["msan_edges"] = max(res.counters.get("msan_edges", 0), d["edges"])
    finally:
        for i, p in procs:
            if p.poll() is None:
                kill(p)
        shutil.rmtree(wdir, ignore_errors=True)
    custom_job(res, job, t0, job["cases"], NCPU)

def add_violation(res, prop, tier, seed, job, cases, case, key, msg, log):
    res.violations.append({"property": prop, "key": key, "msg": msg, "log": log, "tier": tier, "seed": seed, "case": case, "cases": cases,
                           "job": {k: job[k] for k in ("src", "variant", "mode", "extra", "name") if k in job}})

# ---------------------------------------------------------------- known findings
def known_findings(prop):
    out = []
    try:
        for line in read(os.path.join(VERIF, "known-findings.txt")).decode().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) contains=\"(.*?)\" (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    except OSError:
        pass
    return out

def finish(res, tier, seed, level, rule, assumptions, t0, need, extra=None):
    prop = res.prop
    new = []
    for v in res.violations:
        for key, contains, desc in known_findings(prop):
            if v["key"].startswith(key) and contains in v["msg"] + v["log"]:
                print("KNOWN-FINDING: property=%s %s" % (prop, desc))
                break
        else:
            new.append(v)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = {"evaluations": res.evaluations, "distinct_nontrivial": len(res.distinct), "rule": rule, "samples": res.samples[:8] or ["(none)"],
           "events_observed": res.counters, "edges_reached": res.edges, "jobs": res.jobs}
    if extra:
        cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": assumptions,
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = set()
        for v in new:
            if v["key"] in seen or len(seen) >= 5:
                continue
            seen.add(v["key"])
            name = "replays/%s-%s.json" % (prop, sha(v["key"], v["msg"], v["case"])[:12])
            with open(os.path.join(VERIF, name), "w") as f:
                json.dump(v, f, indent=1, sort_keys=True)
                f.write("\n")
            print("%s: %s (case %s)" % (prop, v["key"], v["case"]))
            for line in (v["msg"].strip()[-1500:] + ("\n" + v["log"].strip()[:1500] if v["log"] else "")).splitlines():
                print("    " + line)
            print("VIOLATION property=%s replay=%s" % (prop, name))
        return 1
    for name, minimum in need.items():
        have = res.evaluations if name == "evaluations" else len(res.distinct) if name == "distinct" else res.counters.get(name, 0)
        if have < minimum:
            print("%s: the monitors observed too little: %s is %d, at least %d expected" % (prop, name, have, minimum))
            return 2
    print("%s held: %d evaluations, %d distinct non-trivial cases, %.1f s" % (prop, res.evaluations, len(res.distinct), time.time() - t0))
    for k in sorted(res.counters):
        print("    %s: %d" % (k, res.counters[k]))
    for k in sorted(res.edges):
        print("    %s: %s" % (k, res.edges[k]))
    return 0

// C17: megabuf and gmegabuf against two plain maps, through every access form; exhaustive sweep of all slots.
#include "lab.hpp"

static std::set<std::string> seen;
void harness_init() {}
void harness_done() { R.counters["set_access_situations"] = seen.size(); }

struct Form
{
    const char* text; // %i index expression
    bool global;
};
static const Form FORMS[] = {{"megabuf(%i)", false}, {"_mem(%i)", false}, {"(%i)[]", false}, {"(%i)[0]", false}, {"0[%i]", false}, {"(%i)[j]", false},
                             {"gmegabuf(%i)", true}, {"_gmem(%i)", true}, {"gmem[%i]", true}, {"gmem[0+%i]", true}};
static const int NFORMS = 10;

struct World
{
    projectm_eval_context* ctx;
    projectm_eval_mem_buffer g = nullptr;
    F regs[100];
    F *i, *j, *v, *k;
    std::map<std::string, projectm_eval_code*> codes;
    std::unordered_map<int64_t, F> model[2];
    explicit World(bool own)
    {
        memset(regs, 0, sizeof regs);
        g = own ? projectm_eval_memory_buffer_create() : nullptr;
        ctx = projectm_eval_context_create(g, &regs);
        i = projectm_eval_context_register_variable(ctx, "i");
        j = projectm_eval_context_register_variable(ctx, "j");
        v = projectm_eval_context_register_variable(ctx, "v");
        k = projectm_eval_context_register_variable(ctx, "k");
    }
    ~World()
    {
        for (auto& c : codes)
        {
            projectm_eval_code_destroy(c.second);
        }
        projectm_eval_context_destroy(ctx);
        if (g)
        {
            projectm_eval_memory_buffer_destroy(g);
        }
        else
        {
            projectm_eval_memory_global_destroy();
        }
    }
    projectm_eval_code* code(const std::string& s)
    {
        auto& c = codes[s];
        if (!c)
        {
            c = projectm_eval_code_compile(ctx, s.c_str());
            if (!c)
            {
                R.fail("C17:rejected", s);
                exit(1);
            }
        }
        return c;
    }
};

static std::string place(const Form& f, const std::string& idx)
{
    std::string s = f.text;
    size_t p = s.find("%i");
    if (R.rng.chance(20))
    {
        // names in another letter case
        bool all = R.rng.chance(50);
        for (size_t i = 0; i < s.size(); ++i)
        {
            if (i != p && i != p + 1 && (all || R.rng.chance(40)))
            {
                s[i] = (char) toupper((unsigned char) s[i]);
            }
        }
    }
    return s.substr(0, p) + idx + s.substr(p + 2);
}

// Index expressions whose value is exactly that of i.
static const char* const WRAPS[] = {"(i)", "(k=i)", "(k=5;i)", "exec2(k=1,i)", "exec3(0,k=2,i)", "if(1,i,k)", "if(0,k=3,i)", "(i*1)", "(i+0)", "(-(-i))", "reg07", "(reg08=i)", "megabuf(8000000)",
                                    "gmem[8000000]", "(k=i;loop(3,q+=1);k)", "exec2(loop(2,k=i),k)", "(k=i;k)", "assign(k,i)", "_gmem(8000000)", "(8000000)[]", "if(i==i,i,i)", "(k=i;rand(5);k)",
                                    "(while(k=i;0);k)", "(gmem[8000001]=i)", "megabuf(8000001)=i", "assign(_mem(8000001),i)", "(q=4;gmegabuf(8000001)=i)"};

static double pick_index(Rng& r, const std::vector<int64_t>& used, std::string& what)
{
    switch (r.range(0, 12))
    {
        case 0:
        case 1:
        case 2:
            if (!used.empty())
            {
                what = "used";
                return (double) r.pick(used) + r.range(-1, 1);
            }
            what = "small";
            return r.range(0, 10);
        case 3: what = "block edge"; return 65536.0 * r.range(0, 128) + r.range(-2, 2);
        case 4: what = "end"; return 8388608.0 + r.range(-3, 3);
        case 5: what = "random"; return r.range(0, 8388607);
        case 6: what = "random fraction"; return r.range(0, 8388607) + r.unit() * 0.9997;
        case 7: {
            what = "just below integer";
            static const double d[] = {0.00009, 0.00005, 1e-6, 1e-9, 0.000099};
            return (double) r.range(0, 200000) - r.pick(d);
        }
        case 8: {
            what = "more than 0.0001 below integer";
            static const double d[] = {0.00011, 0.0002, 0.001, 0.00010001};
            return (double) r.range(0, 200000) - r.pick(d);
        }
        case 9: {
            what = "out of range";
            static const double d[] = {-1, -0.5, -0.00011, -2, -65536, -1e9, -1e18, -1e300, 8388608, 8388609, 1e7, 16777216, 2147483647, 2147483648.0, 4294967296.0, 4294967301.0, 9223372036854775808.0,
                                       18446744073709551616.0, 18446744073709551621.0, 1e18, 1e300, -4294967296.0, -4294967291.0, 8388607.99995, -9223372036854775808.0, 4294967295.0};
            return r.pick(d);
        }
        case 10: {
            what = "non-finite";
            return r.chance(34) ? NAN : r.chance(50) ? INFINITY : -INFINITY;
        }
        case 11: {
            what = "last slot";
            static const double d[] = {8388607, 8388607.5, 8388607.9998, 8388606.99995, 8388607.0001};
            return r.pick(d);
        }
        default: {
            what = "slot 0";
            static const double d[] = {0, -0.0, -0.00005, 0.5, 0.9998, -0.00009, 1e-300};
            return r.pick(d);
        }
    }
}

static int64_t slot(double idx)
{
    double t = std::floor(idx + 0.0001);
    return t >= 0 && t < (double) MEM_SLOTS ? (int64_t) t : -1;
}

static void history(Rng& r)
{
    World w(r.chance(50));
    std::vector<int64_t> used;
    std::string log;
    int n = r.range(20, 120);
    for (int k = 0; k < n; ++k)
    {
        const Form& f = FORMS[r.below(NFORMS)];
        std::string what;
        double idx = pick_index(r, used, what);
        int64_t s;
        bool split = strstr(f.text, "[j]");
        double jv = 0;
        std::string it = "i";
        if (split)
        {
            jv = r.chance(50) ? r.range(-3, 3) : r.range(-70000, 70000);
            if (!std::isfinite(idx) || std::fabs(idx) > 1e9)
            {
                jv = 0;
            }
            idx = std::floor(idx * 4) / 4; // keep the sum exact
        }
        s = slot(idx + jv);
        if (!split && !(idx != idx) && std::isfinite(idx) && r.chance(25))
        {
            it = (idx < 0 || std::signbit(idx) ? "-" : "") + fmt("%.17g", std::fabs(idx));
            if (strchr(f.text, '['))
            {
                it = "(" + it + ")";
            }
        }
        *w.i = (F) idx;
        *w.j = (F) jv;
        if (!split && it == "i" && r.chance(35))
        {
            it = r.pick(WRAPS);
            if (it.find('=') != std::string::npos && it[0] == 'm')
            {
                it = "(" + it + ")";
            }
            *w.k = 77;
            w.regs[7] = (F) idx;
            // The wrappers keep the index in high slots of either array.
            for (int h = 0; h < 2; ++h)
            {
                if (it.find("8000000") != std::string::npos)
                {
                    projectm_eval_code_execute(w.code(h ? "gmegabuf(8000000)=i" : "megabuf(8000000)=i"));
                    w.model[h][8000000] = *w.i;
                }
            }
            if (it.find("8000001") != std::string::npos)
            {
                w.model[it.find("gmem") != std::string::npos || it.find("gmega") != std::string::npos][8000001] = *w.i;
            }
            R.count("nested_index_expressions");
        }
        int op = r.range(0, 9);
        std::string acc = place(f, it), src;
        F value = (F) (r.chance(10) ? 0.0 : r.range(1, 1000000) * 0.5);
        *w.v = value;
        F want, have;
        auto& m = w.model[f.global];
        F old = s >= 0 && m.count(s) ? m[s] : (F) 0;
        switch (op)
        {
            case 0:
            case 1:
            case 2:
            case 3:
                src = acc + "=v";
                want = value;
                if (s >= 0)
                {
                    m[s] = value;
                    used.push_back(s);
                }
                break;
            case 4:
                src = acc + "+=v";
                want = old + value;
                if (s >= 0)
                {
                    m[s] = want;
                    used.push_back(s);
                }
                break;
            case 5:
                src = "assign(" + acc + ",v);" + acc;
                want = s >= 0 ? value : (F) 0;
                if (s >= 0)
                {
                    m[s] = value;
                    used.push_back(s);
                }
                break;
            default:
                src = acc;
                want = old;
        }
        std::string line = src + "   i=" + num(idx) + (split ? " j=" + num(jv) : "") + " v=" + num((double) value);
        log += line + "\n";
        R.note_more("\n" + line);
        if (it == "i" || it.find('i') != std::string::npos || it.find("reg") != std::string::npos || it.find("8000000") != std::string::npos)
        {
            have = projectm_eval_code_execute(w.code(src));
        }
        else
        {
            Code c(w.ctx, src);
            if (!c)
            {
                R.fail("C17:rejected", src);
                return;
            }
            have = c.run();
        }
        ++R.evaluations;
        R.count(s < 0 ? "out_of_range_accesses" : op <= 5 ? "writes" : "reads");
        seen.insert(std::string(f.text) + "/" + what + "/" + std::to_string(op) + (it == "i" ? "" : it.find('i') != std::string::npos ? it : "lit"));
        R.distinct(hash_str(line));
        if (!same_number((double) have, (double) want))
        {
            R.fail("C17:access", log + "returned " + num((double) have) + ", expected " + num((double) want));
            return;
        }
    }
    // All slots known to the model, their neighbours and the alias candidates must read back.
    for (int g = 0; g < 2; ++g)
    {
        std::set<int64_t> look;
        for (int h = 0; h < 2; ++h)
        {
            for (auto& p : w.model[h])
            {
                for (int64_t d : {(int64_t) 0, (int64_t) 1, (int64_t) -1, (int64_t) 65536, (int64_t) -65536, (int64_t) 128, (int64_t) 1024, (int64_t) 4194304})
                {
                    look.insert(p.first + d);
                }
            }
        }
        for (int64_t s : look)
        {
            if (s < 0 || s >= MEM_SLOTS || ((s >> 16) != 0 && !w.model[g].count(s) && r.chance(60)))
            {
                continue;
            }
            *w.i = (F) s;
            F have = projectm_eval_code_execute(w.code(g ? "gmegabuf(i)" : "megabuf(i)"));
            auto it = w.model[g].find(s);
            F want = it == w.model[g].end() ? (F) 0 : it->second;
            R.count("final_slots_compared");
            if (!same_number((double) have, (double) want))
            {
                R.fail("C17:contents", log + fmt("%s[%lld] is ", g ? "gmem" : "megabuf", (long long) s) + num((double) have) + ", expected " + num((double) want));
                return;
            }
        }
    }
    R.sample(log.substr(0, 300));
}

// Every slot of one array holds its own number, the other array stays zero.
static void sweep(bool global, uint64_t stride)
{
    World w(true);
    const char* acc = global ? "gmem[i]" : "megabuf(i)";
    projectm_eval_code* wr = w.code(std::string(acc) + "=v");
    projectm_eval_code* rd = w.code(acc);
    projectm_eval_code* other = w.code(global ? "megabuf(i)" : "gmem[i]");
    uint64_t n = (uint64_t) MEM_SLOTS;
    R.note(std::string("sweep ") + acc);
    uint64_t odd = 2 * (R.rng.u64() % (n / 2)) + 1; // visits all slots in a scattered order
    for (uint64_t k = 0; k < n; k += stride)
    {
        uint64_t s = (k * odd + k / 7 * 0) % n;
        *w.i = (F) s;
        *w.v = (F) (s + 1);
        projectm_eval_code_execute(wr);
    }
    for (uint64_t k = 0; k < n; k += stride)
    {
        uint64_t s = (k * odd) % n;
        *w.i = (F) s;
        F have = projectm_eval_code_execute(rd);
        if (have != (F) (s + 1))
        {
            R.fail("C17:sweep", fmt("%s with i=%llu is %s after writing i+1 to every slot", acc, (unsigned long long) s, num((double) have).c_str()));
            return;
        }
    }
    for (uint64_t s = 0; s < n; s += 65521)
    {
        *w.i = (F) s;
        if (projectm_eval_code_execute(other) != 0)
        {
            R.fail("C17:sweep other", fmt("the other array is not zero at %llu", (unsigned long long) s));
            return;
        }
    }
    for (double d : {-1.0, 8388608.0, 8388609.0, 1e300})
    {
        *w.i = (F) d;
        *w.v = 5;
        projectm_eval_code_execute(wr);
        if (projectm_eval_code_execute(rd) != 0)
        {
            R.fail("C17:sweep range", fmt("%s with i=%g is not zero", acc, d));
            return;
        }
    }
    R.count("swept_slots", n / stride);
    R.evaluations += n / stride;
}

// One slot in each of many blocks, of one or both arrays.
static void blocks(Rng& r)
{
    World w(r.chance(50));
    std::string log;
    int n = r.chance(50) ? 128 : r.range(20, 127);
    std::vector<int> order(128);
    for (int b = 0; b < 128; ++b)
    {
        order[(size_t) b] = b;
    }
    int way = r.range(0, 2); // ascending, descending, scattered
    for (int b = 0; b < 128; ++b)
    {
        std::swap(order[(size_t) b], order[(size_t) (way == 0 ? b : way == 1 ? std::max(b, 127 - b) : (int) r.below(128))]);
    }
    bool both = r.chance(50), global = r.chance(50);
    std::vector<std::pair<int, int64_t>> all;
    for (int k = 0; k < n; ++k)
    {
        for (int h = 0; h < 2; ++h)
        {
            if (!both && h != (int) global)
            {
                continue;
            }
            static const int offs[] = {0, 1, 65535, 65534, 32768};
            int64_t s = order[(size_t) k] * 65536LL + (r.chance(50) ? offs[r.below(5)] : (int) r.below(65536));
            const Form* f;
            do
            {
                f = &FORMS[r.below(NFORMS)];
            } while (f->global != (bool) h || strstr(f->text, "[j]"));
            std::string src = place(*f, "i") + "=v";
            *w.i = (F) s;
            *w.v = (F) (s + 1 + h * 10000000);
            projectm_eval_code_execute(w.code(src));
            w.model[h][s] = *w.v;
            all.push_back({h, s});
            std::string line = src + fmt("   i=%lld", (long long) s);
            log += line + "\n";
        }
    }
    R.note("blocks\n" + log);
    R.count("block_worlds");
    R.distinct(hash_str(log));
    for (int h = 0; h < 2; ++h)
    {
        std::set<int64_t> look;
        for (auto& p : all)
        {
            for (int d : {0, 1, -1})
            {
                look.insert(p.second + d);
            }
            look.insert(p.second & ~65535LL);
            look.insert(p.second | 65535LL);
        }
        for (int64_t s : look)
        {
            if (s < 0 || s >= MEM_SLOTS)
            {
                continue;
            }
            *w.i = (F) s;
            F have = projectm_eval_code_execute(w.code(h ? "gmegabuf(i)" : "megabuf(i)"));
            auto it = w.model[h].find(s);
            F want = it == w.model[h].end() ? (F) 0 : it->second;
            ++R.evaluations;
            R.count("block_slots_compared");
            if (!same_number((double) have, (double) want))
            {
                R.fail("C17:blocks", log + fmt("%s[%lld] is ", h ? "gmem" : "megabuf", (long long) s) + num((double) have) + ", expected " + num((double) want));
                return;
            }
        }
    }
}

void harness_case()
{
    R.note("");
    if (R.rng.below(100) < 2 && R.case_index >= 2)
    {
        blocks(R.rng);
        return;
    }
    if (R.case_index < 2)
    {
        sweep(R.case_index == 1, 1);
        return;
    }
    history(R.rng);
}

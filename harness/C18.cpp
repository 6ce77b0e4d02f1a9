// C18: memset() and memcpy() against the definition, with areas at block boundaries, overlaps and trimmed ranges.
#include <functional>

#include "lab.hpp"

static std::set<std::string> seen;
void harness_init() {}
void harness_done() { R.counters["set_block_situations"] = seen.size(); }

struct World
{
    projectm_eval_context* ctx;
    projectm_eval_mem_buffer g;
    F regs[100];
    F *i, *v, *d, *s, *c, *k;
    Code wr, rd, gwr, grd;
    World()
    {
        memset(regs, 0, sizeof regs);
        g = projectm_eval_memory_buffer_create();
        ctx = projectm_eval_context_create(g, &regs);
        i = reg("i");
        v = reg("v");
        d = reg("d");
        s = reg("s");
        c = reg("c");
        k = reg("k");
        wr.h = projectm_eval_code_compile(ctx, "megabuf(i)=v");
        rd.h = projectm_eval_code_compile(ctx, "megabuf(i)");
        gwr.h = projectm_eval_code_compile(ctx, "gmegabuf(i)=v");
        grd.h = projectm_eval_code_compile(ctx, "gmegabuf(i)");
    }
    F* reg(const char* n) { return projectm_eval_context_register_variable(ctx, n); }
    ~World()
    {
        {
            Code a(std::move(wr)), b(std::move(rd)), e(std::move(gwr)), f(std::move(grd));
        }
        projectm_eval_context_destroy(ctx);
        projectm_eval_memory_buffer_destroy(g);
    }
};

static double position(Rng& r)
{
    switch (r.range(0, 6))
    {
        case 0: return r.range(0, 40);
        case 1: return 65536.0 * r.range(0, 4) + r.range(-20, 20);
        case 2: return 8388608.0 + r.range(-60, 20);
        case 3: return r.range(0, 300000);
        case 4: return r.range(-60, 10);
        case 5: return r.range(0, 200) + r.unit();
        default: return 65536.0 * r.range(1, 127) + r.range(-5, 5);
    }
}

static double length(Rng& r)
{
    switch (r.range(0, 9))
    {
        case 0:
        case 1:
        case 2: return r.range(0, 40);
        case 3: return r.range(-5, 3);
        case 4: return r.range(0, 60) + r.unit();
        case 5: return 65536.0 * r.range(0, 2) + r.range(-3, 3);
        case 6: return r.range(0, 200000);
        case 7: return r.range(0, 40) - 0.00005;
        case 8: return r.range(0, 400);
        default: return r.range(0, 4) * 65536.0 + r.range(0, 70000);
    }
}

static double huge(Rng& r)
{
    static const double h[] = {8388608, 8388609, 1e9, 2147483647, 2147483648.0, 4294967295.0, 4294967296.0, 4294967300.0, 1e15, 1e18, 9223372036854775807.0, 1.8446744073709552e19, 1e300};
    return r.pick(h);
}

void harness_case()
{
    Rng& r = R.rng;
    World w;
    Memory m;
    std::string log;
    auto fill = [&](double centre, int before, int after) {
        if (!(std::fabs(centre) < 1e9))
        {
            return;
        }
        for (int64_t p = (int64_t) centre - before; p <= (int64_t) centre + after; ++p)
        {
            if (p >= 0 && p < MEM_SLOTS)
            {
                F val = (F) r.range(1, 1000000);
                *w.i = (F) p;
                *w.v = val;
                w.wr.run();
                *m.at(p) = val;
            }
        }
    };
    *w.i = 5;
    *w.v = 77;
    w.gwr.run();
    int ops = r.range(1, 6);
    std::set<int64_t> touched_edges;
    bool giant = false;
    for (int n = 0; n < ops; ++n)
    {
        bool copy = r.chance(60);
        double d = position(r), s = position(r), c = length(r);
        std::string what = copy ? "copy" : "set";
        if (copy && r.chance(60))
        {
            // overlapping areas in either direction
            double delta = r.chance(60) ? r.range(-20, 20) : r.chance(50) ? r.range(-70000, 70000) : 65536.0 * r.range(-2, 2);
            d = s + delta;
            what += delta < 0 ? " overlap down" : delta > 0 ? " overlap up" : " same";
        }
        bool fractions = r.chance(25);
        if (r.chance(12))
        {
            // A long area over blocks of which some have never been used.
            c = 65536.0 * r.range(1, 6) + (r.chance(40) ? 0 : r.chance(50) ? r.range(-3, 3) : r.range(0, 65535));
            if (r.chance(40))
            {
                d = 65536.0 * r.range(1, 100) + (r.chance(50) ? r.range(-2, 2) : r.range(0, 65535));
                s = r.chance(50) ? s : 65536.0 * r.range(1, 100) + r.range(-2, 2);
            }
            what += " long";
            int used = r.range(0, 3);
            for (int q = 0; q < used; ++q)
            {
                fill(65536.0 * std::floor((d + r.unit() * c) / 65536) + r.range(0, 65535), 1, 1);
            }
        }
        else if (!giant && r.below(1000) < 12)
        {
            // Up to the whole buffer, with a few recognisable places.
            giant = true;
            c = r.chance(50) ? 65536.0 * r.range(7, 128) + (r.chance(50) ? 0 : r.range(-70000, 70000)) : r.range(400000, 8388608);
            s = r.chance(50) ? position(r) : r.range(0, 8388607);
            d = r.chance(50) ? s + (r.chance(50) ? r.range(-70000, 70000) : 65536.0 * r.range(-20, 20)) : r.chance(50) ? r.range(0, 8388607) : position(r);
            what += " giant";
            for (int q = r.range(2, 20); q > 0; --q)
            {
                double at = s + r.unit() * c;
                fill(r.chance(60) ? std::floor(at / 65536) * 65536 : at, 2, 2);
            }
            fill(s, 3, 3);
        }
        else if (r.chance(6))
        {
            switch (r.range(0, 5))
            {
                case 0: c = huge(r); d = std::fmax(d, 8200000); break;
                case 1: c = -huge(r); break;
                case 2: d = huge(r); c = std::fmin(c, 1000); break;
                case 3: d = -huge(r); c = std::fmin(c, 1000); break;
                case 4: s = huge(r); c = std::fmin(c, 1000); break;
                default: s = -huge(r); c = std::fmin(c, 1000); break;
            }
            what += " huge";
        }
        if (fractions)
        {
            static const double f[] = {0.5, 0.9, 0.99, 0.995, 0.999, 0.9995, 0.9998, 0.1, 0.01, 0.0002};
            for (double* x : {&d, &s, &c})
            {
                if (std::fabs(*x) < 1e7 && r.chance(60))
                {
                    *x = std::floor(*x) + r.pick(f);
                }
            }
            what += " fractions";
        }
        if (std::trunc(c + 0.0001) > 65536)
        {
            what += " multi-block";
        }
        if (d < 0 || s < 0)
        {
            what += " before start";
        }
        if (d + c > (double) MEM_SLOTS || s + c > (double) MEM_SLOTS)
        {
            what += " past end";
        }
        // recognisable contents at all edges
        for (double e : {d, s, d + c, s + c})
        {
            if (std::fabs(e) < 1e7 && !r.chance(what.find("long") == std::string::npos ? 15 : 60))
            {
                fill(e, r.range(0, 12), r.range(0, 12));
            }
        }
        if (c > 0 && c < 300 && !r.chance(10))
        {
            fill(s, 2, (int) c + 2);
            if (r.chance(50))
            {
                fill(d, 2, (int) c + 2);
            }
        }
        for (int q = 0; q < 6 && c > 300 && c < 1e7 && what.find("long") == std::string::npos; ++q)
        {
            fill(s + r.unit() * c, 1, 1);
            fill(d + r.unit() * c, 1, 1);
            fill(std::floor((s + r.unit() * c) / 65536) * 65536, 2, 2);
            fill(std::floor((d + r.unit() * c) / 65536) * 65536, 2, 2);
        }
        F val = (F) (r.chance(30) ? (r.chance(20) ? -0.0 : 0.0) : r.chance(5) ? INFINITY : r.chance(5) ? 1e-300 : r.range(-50, 50));
        *w.d = (F) d;
        *w.s = (F) s;
        *w.c = (F) c;
        *w.v = val;
        *w.k = 123;
        std::string src = copy ? "memcpy(d,s,c)" : "memset(d,v,c)";
        if (r.chance(30))
        {
            auto lit = [](double x) { return (x < 0 ? "-" : "") + fmt("%.17g", std::fabs(x)); };
            src = copy ? "memcpy(" + lit(d) + "," + lit(s) + "," + lit(c) + ")" : "memset(" + lit(d) + ",v," + lit(c) + ")";
        }
        std::vector<std::function<void()>> inner;
        if (r.chance(15))
        {
            // Other bulk operations in the arguments are complete before this one begins.
            src = copy ? "memcpy(" : "memset(";
            for (int arg = 0; arg < 3; ++arg)
            {
                std::string plain = arg == 0 ? "d" : arg == 2 ? "c" : copy ? "s" : "v";
                plain = r.chance(40) ? plain + "*1" : plain; // a value of its own
                src += arg ? "," : "";
                if (r.chance(40))
                {
                    int64_t d2 = r.chance(50) && std::fabs(s) < 1e6 ? std::max((int64_t) 0, (int64_t) s + r.range(-5, 5)) : r.range(0, 70000), s2 = r.range(0, 300), c2 = r.range(0, 12);
                    bool copy2 = r.chance(60);
                    std::string call = copy2 ? fmt("memcpy(%lld,%lld,%lld)", (long long) d2, (long long) s2, (long long) c2) : fmt("memset(%lld,%lld,%lld)", (long long) d2, (long long) s2, (long long) c2);
                    src += r.chance(50) ? "exec2(" + call + "," + plain + ")" : "(" + call + ";" + plain + ")";
                    inner.push_back([&m, copy2, d2, s2, c2] {
                        if (copy2)
                        {
                            model_memcpy(m, (double) d2, (double) s2, (double) c2);
                        }
                        else
                        {
                            model_memset(m, (double) d2, (F) s2, (double) c2);
                        }
                    });
                    what += copy2 ? " inner copy" : " inner set";
                    R.count("bulk_operations_in_arguments");
                }
                else
                {
                    src += plain;
                }
            }
            src += ")";
        }
        std::string line = src + "   d=" + num(d) + " s=" + num(s) + " c=" + num(c) + " v=" + num((double) val);
        log += line + "\n";
        R.note_more("\n" + line);
        {
            StepGuard g(2000000000);
            Code code(w.ctx, src);
            if (!code)
            {
                R.fail("C18:rejected", src);
                return;
            }
            code.run();
        }
        for (auto& f : inner)
        {
            f();
        }
        if (copy)
        {
            model_memcpy(m, d, s, c);
        }
        else
        {
            model_memset(m, d, val, c);
        }
        ++R.evaluations;
        R.count(copy ? "memcpy_calls" : "memset_calls");
        R.distinct(hash_str(line));
        seen.insert(what);
        if (*w.k != 123 || *w.v != val || (*w.d != (F) d && d == d) || *w.c != (F) c)
        {
            R.fail("C18:variable changed", log);
            return;
        }
        // compare: edges densely, everything else sampled; complete for small areas
        std::set<int64_t> look;
        for (double e : {d, s, d + c, s + c})
        {
            if (std::fabs(e) < 1e7)
            {
                for (int k = -40; k <= 40; ++k)
                {
                    look.insert((int64_t) e + k);
                }
            }
        }
        for (auto& p : m.pages)
        {
            if (m.pages.size() < 200 || r.chance((int) (20000 / m.pages.size() + 1)))
            {
                for (int k = 0; k < 64; ++k)
                {
                    look.insert(p.first * 64 + k);
                }
            }
        }
        if (giant)
        {
            for (int64_t b = 0; b <= 128; ++b)
            {
                for (int k = -2; k <= 2; ++k)
                {
                    look.insert(b * 65536 + k);
                }
            }
        }
        for (int k = 0; k < 200; ++k)
        {
            look.insert(r.chance(50) ? r.range(0, 300000) : (int64_t) (d + r.unit() * std::fmin(c, 1e7)));
        }
        for (int64_t p : look)
        {
            if (p < 0 || p >= MEM_SLOTS)
            {
                continue;
            }
            *w.i = (F) p;
            F have = w.rd.run();
            R.count("slots_compared");
            if (have != m.get(p))
            {
                R.fail(copy ? "C18:memcpy" : "C18:memset", log + fmt("leaves megabuf[%lld] as ", (long long) p) + num((double) have) + ", expected " + num((double) m.get(p)));
                return;
            }
        }
    }
    *w.i = 5;
    if (w.grd.run() != 77)
    {
        R.fail("C18:gmegabuf changed", log);
        return;
    }
    *w.i = 6;
    if (w.grd.run() != 0)
    {
        R.fail("C18:gmegabuf changed", log);
    }
    R.sample(log.substr(0, 200));
}

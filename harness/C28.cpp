// C28: programs of every size. Each case picks a size (log-uniform) and a shape whose result is known in closed form or
// by executing the same instructions in small pieces. Library calls run on a thread with a normal (8 MB) stack.
#include "gen.hpp"

#include <algorithm>
#include <pthread.h>

static std::set<std::string> shapes;
static uint64_t max_instructions, max_operators, max_name, max_nesting, max_variables, max_text, max_arguments;

void harness_init() {}
void harness_done()
{
    R.counters["set_shapes"] = shapes.size();
    R.counters["max_instructions"] = max_instructions;
    R.counters["max_operators_in_a_chain"] = max_operators;
    R.counters["max_name_or_literal_length"] = max_name;
    R.counters["max_nesting"] = max_nesting;
    R.counters["max_variables"] = max_variables;
    R.counters["max_text_length"] = max_text;
    R.counters["max_arguments"] = max_arguments;
}

static int size(Rng& r, int lo, int hi)
{
    double l = std::log(lo), h = std::log(hi);
    int n = (int) std::exp(l + (h - l) * r.unit());
    if (r.chance(20))
    {
        // around powers of two and the growth steps of stacks and buffers
        int p = 1 << r.range(1, 16);
        n = p + r.range(-2, 2);
    }
    if (r.chance(8))
    {
        n = r.pick(std::vector<int>{200, 199, 201, 400, 800, 1600, 3200, 6400, 9999, 10000, 10001, 16384, 8192, 65536, 32768, 65535, 65537, 131072});
    }
    if (r.chance(5))
    {
        // counters of 8 or 16 bits
        n = (r.chance(50) ? 256 * r.range(1, 8) : 65536 * r.range(1, 3)) + r.range(-1, 5);
    }
    return std::max(lo, std::min(hi, n));
}

struct Ctx
{
    F regs[100];
    projectm_eval_mem_buffer g;
    projectm_eval_context* c;
    Ctx()
    {
        memset(regs, 0, sizeof regs);
        g = projectm_eval_memory_buffer_create();
        c = projectm_eval_context_create(g, &regs);
    }
    ~Ctx()
    {
        projectm_eval_context_destroy(c);
        projectm_eval_memory_buffer_destroy(g);
    }
    F* var(const std::string& n) { return projectm_eval_context_register_variable(c, n.c_str()); }
};

static std::string shorten(const std::string& s) { return s.size() < 400 ? s : s.substr(0, 150) + fmt(" ...(%zu bytes)... ", s.size()) + s.substr(s.size() - 150); }

static bool same_bits(F a, F b) { return memcmp(&a, &b, sizeof a) == 0 || (std::isnan((double) a) && std::isnan((double) b)); }

// Compiles and executes; false (after reporting) if rejected or different.
static bool expect(Ctx& x, const char* shape, const std::string& src, double want, uint64_t n, double rel = 0)
{
    max_text = std::max(max_text, (uint64_t) src.size());
    R.note(shape + fmt(" of size %llu: ", (unsigned long long) n) + shorten(src));
    Code h(x.c, src);
    ++R.evaluations;
    if (!h)
    {
        int l, c;
        const char* e = projectm_eval_get_error(x.c, &l, &c);
        R.fail(std::string("C28:") + shape, fmt("%s of size %llu is rejected (%d:%d %s): ", shape, (unsigned long long) n, l, c, e ? e : "NULL") + shorten(src));
        return false;
    }
    for (int k = 0; k < 2; ++k)
    {
        double got = (double) h.run();
        if (!(rel == 0 ? same_bits((F) got, (F) want) : same_number(got, want, rel)))
        {
            R.fail(std::string("C28:") + shape, fmt("%s of size %llu gives ", shape, (unsigned long long) n) + num(got) + (k ? " when executed again" : "") + ", expected " + num(want) + ": " + shorten(src));
            return false;
        }
    }
    R.distinct(hash_str(shape + num((double) n) + shorten(src)));
    return true;
}

static bool usable(Ctx& x)
{
    *x.var("__u") = 3;
    Code h(x.c, "__u=__u*2+1");
    F v = h ? h.run() : 0;
    if (!h || v != 7 || projectm_eval_get_error(x.c, nullptr, nullptr))
    {
        R.fail("C28:unusable", "after a program that was too big the context doesn't work anymore");
        return false;
    }
    return true;
}

static void chunks(Rng& r, int max)
{
    GenOpt o;
    o.regs = o.lists = o.blockops = o.freembuf = true;
    o.idx = {"0", "1", "2", "65535", "65536", "8388607", "x"};
    o.max_depth = r.range(1, 3);
    Gen g(r, o);
    int n = size(r, 1, max);
    std::vector<std::string> ins;
    for (int i = 0; i < n; ++i)
    {
        ins.push_back(r.chance(25) ? r.pick(o.vars) + "=" + g.literal() : r.chance(3) ? "loop(" + std::to_string(r.range(0, 4)) + "," + g.expr(1) + ")" : g.expr(r.range(1, o.max_depth)));
    }
    Ctx a, b;
    std::string whole;
    for (int i = 0; i < n; ++i)
    {
        whole += (i ? r.chance(10) ? ";\n" : ";" : "") + ins[(size_t) i];
    }
    max_instructions = std::max(max_instructions, (uint64_t) n);
    max_text = std::max(max_text, (uint64_t) whole.size());
    R.note(fmt("%d instructions as a whole and in pieces", n) + shorten(whole));
    F want = 0;
    // in pieces
    int per = r.chance(30) ? 1 : r.range(2, 60);
    for (int i = 0; i < n;)
    {
        int k = std::min(n - i, per == 1 ? 1 : r.range(1, per));
        std::string piece;
        for (int j = 0; j < k; ++j)
        {
            piece += (j ? ";" : "") + ins[(size_t) (i + j)];
        }
        Code h(b.c, piece);
        if (!h)
        {
            R.fail("C28:piece", "rejected: " + piece);
            return;
        }
        want = h.run();
        i += k;
    }
    Code h(a.c, whole);
    ++R.evaluations;
    if (!h)
    {
        R.fail("C28:instructions", fmt("%d instructions, each of which compiles, are rejected together: ", n) + shorten(whole));
        return;
    }
    F got = h.run();
    auto diff = [&](const std::string& what, F x, F y) {
        if (same_bits(x, y))
        {
            return false;
        }
        R.fail("C28:instructions", fmt("%d instructions as one program: ", n) + what + " is " + num((double) x) + ", executed in pieces it is " + num((double) y) + "\n" + shorten(whole));
        return true;
    };
    if (diff("the result", got, want))
    {
        return;
    }
    for (auto& v : o.vars)
    {
        if (diff(v, *a.var(v), *b.var(v)))
        {
            return;
        }
    }
    for (int k = 0; k < 100; ++k)
    {
        if (diff(fmt("reg%02d", k), a.regs[k], b.regs[k]))
        {
            return;
        }
    }
    for (const char* p : {"megabuf", "gmegabuf"})
    {
        Code pa(a.c, std::string(p) + "(__p)"), pb(b.c, std::string(p) + "(__p)");
        for (int s : {0, 1, 2, 3, 4, 5, 65535, 65536, 65537, 65538, 8388607})
        {
            *a.var("__p") = *b.var("__p") = (F) s;
            if (diff(fmt("%s(%d)", p, s), pa.run(), pb.run()))
            {
                return;
            }
        }
    }
    R.count("programs_compared_with_their_pieces");
    R.distinct(hash_str(whole));
    shapes.insert("pieces");
}

static std::string rep(const std::string& s, int n)
{
    std::string o;
    o.reserve(s.size() * (size_t) n);
    for (int i = 0; i < n; ++i)
    {
        o += s;
    }
    return o;
}

static std::string name(Rng& r, int n)
{
    static const char f[] = "abcdefghijklmnopqrstuvwxyz_ABCXYZ", c[] = "abcdefghijklmnopqrstuvwxyz_0123456789ABCXYZ";
    std::string s(1, f[r.below(sizeof f - 1)]);
    while ((int) s.size() < n)
    {
        s += c[r.below(sizeof c - 1)];
    }
    return s;
}

static void shape(Rng& r, bool small)
{
    Ctx x;
    int S = small ? 8 : 1; // divides the sizes in instrumented builds
    bool huge = !small && R.case_index % 1600 < 2;
    int k = huge ? R.case_index % 2 ? 0 : 18 : r.range(0, 29);
    std::string id = fmt("shape %d", k);
    *x.var("a") = 2;
    *x.var("b") = 3;
    bool ok = true;
    switch (k)
    {
        case 0: {
            // lists are appended to in quadratic time: very long ones only now and then
            int n = huge ? 65536 + r.range(2, 4) : size(r, 1, 20000 / S);
            max_instructions = std::max(max_instructions, (uint64_t) n);
            ok = expect(x, "sequence of instructions", "a=0" + rep(";a+=1", n), n, (uint64_t) n);
            break;
        }
        case 1: {
            int n = size(r, 1, 30000 / S);
            static const struct
            {
                const char *first, *more;
                double base, step;
            } t[] = {{"0", "+1", 0, 1}, {"a", "+b", 2, 3}, {"0", "-1", 0, -1}, {"a", "-b", 2, -3}, {"1", "*1", 1, 0}, {"a", "/1", 2, 0}};
            auto& q = r.pick(t);
            max_operators = std::max(max_operators, (uint64_t) n);
            ok = expect(x, "operator chain", q.first + rep(q.more, n), q.base + q.step * n, (uint64_t) n);
            break;
        }
        case 2: {
            int n = size(r, 1, 30000 / S);
            max_operators = std::max(max_operators, (uint64_t) n);
            // alternating 2 * 3 / 3 - ...
            std::string s = "b";
            double v = 3;
            static const char* const op[] = {"+2", "-1", "*2", "/2"};
            Rng q(r.u64());
            for (int i = 0; i < n; ++i)
            {
                int o = q.range(0, 1);
                s += op[o];
                v += o == 0 ? 2 : -1;
            }
            ok = expect(x, "mixed operator chain", s, v, (uint64_t) n);
            break;
        }
        case 3: {
            int n = size(r, 1, 20000 / S);
            max_operators = std::max(max_operators, (uint64_t) n);
            bool last = r.chance(50);
            ok = expect(x, "&& chain", "1" + rep("&&1", n - 1) + (last ? "&&1" : "&&0"), last, (uint64_t) n);
            ok = ok && expect(x, "|| chain", "0" + rep("||0", n - 1) + (last ? "||a" : "||0"), last, (uint64_t) n);
            break;
        }
        case 4: {
            int n = size(r, 1, 2800 / (small ? 4 : 1));
            max_nesting = std::max(max_nesting, (uint64_t) n);
            ok = expect(x, "nested parentheses", rep("(", n) + "a+1" + rep(")", n), 3, (uint64_t) n);
            break;
        }
        case 5: {
            int n = size(r, 1, 2500 / (small ? 4 : 1));
            max_nesting = std::max(max_nesting, (uint64_t) n);
            bool neg = n % 2;
            ok = expect(x, "prefix operators", rep("-", n) + "a", neg ? -2 : 2, (uint64_t) n);
            ok = ok && expect(x, "prefix operators", rep("!", n) + "a", neg ? 0 : 1, (uint64_t) n);
            break;
        }
        case 6: {
            int n = size(r, 1, 2500 / (small ? 4 : 1));
            max_nesting = std::max(max_nesting, (uint64_t) n);
            ok = expect(x, "assignment chain", rep("c=", n) + "5", 5, (uint64_t) n);
            ok = ok && expect(x, "assignment chain", "d=0;" + rep("d+=", n) + "1;d", std::ldexp(1.0, std::min(n, 1023) - 1) * (n > 1024 ? INFINITY : n == 1024 ? 2 : 1), (uint64_t) n, 1e-9);
            break;
        }
        case 7: {
            int n = size(r, 1, 1200 / (small ? 4 : 1));
            max_nesting = std::max(max_nesting, (uint64_t) n);
            // nested ternaries pick the innermost value
            ok = expect(x, "ternary chain", "c=" + std::to_string(n) + ";" + rep("c==0?7:", n) + "9", 9, (uint64_t) n);
            break;
        }
        case 8: {
            int n = size(r, 1, 900 / (small ? 3 : 1));
            max_nesting = std::max(max_nesting, (uint64_t) n);
            static const char* const f[] = {"abs(", "floor(", "int(", "min(9,", "max(1,", "exec2(1,", "exec3(1,2,", "if(1,", "0+(", "_neg(_neg(", "sqrt(sqr(", "megabuf(0)=(", "bnot(bnot(1)+", "loop(1,"};
            size_t w = r.below(sizeof f / sizeof *f);
            std::string open = f[w], close(open.size() - open.find('(') > 0 ? (size_t) std::count(open.begin(), open.end(), '(') - (size_t) std::count(open.begin(), open.end(), ')') : 1, ')');
            if (open == "if(1,")
            {
                close = ",8)";
            }
            double want = open == "loop(1," || open[0] == 'b' ? NAN : 4;
            if (open[0] == 'b')
            {
                // bnot(bnot(1)+v): bnot of a non-zero value is 0, of 0 it's 1
                want = std::min(n, 400) % 2 ? 0 : 1;
            }
            if (open == "loop(1,")
            {
                std::string s = "c=0;" + rep(open, n) + "c+=1" + rep(close, n) + ";c";
                ok = expect(x, "nested loops", s, 1, (uint64_t) n);
                break;
            }
            if (open == "sqrt(sqr(" || open == "bnot(bnot(1)+")
            {
                n = std::min(n, 400);
            }
            ok = expect(x, "nested calls", rep(open, n) + "4" + rep(close, n), want, (uint64_t) n);
            break;
        }
        case 9: {
            int n = size(r, 1, 100000 / S);
            max_name = std::max(max_name, (uint64_t) n);
            std::string a = name(r, n), b = a;
            if (find_fn(lower(a)))
            {
                break;
            }
            // differs in one character only
            size_t p = r.chance(50) ? b.size() - 1 : r.below((uint32_t) b.size());
            char was = (char) tolower(b[p]);
            b[p] = was == 'q' ? 'z' : 'q';
            if (r.chance(50))
            {
                b = near_name(r, a);
                if (lower(b) == lower(a))
                {
                    break;
                }
            }
            std::string c = a.substr(0, a.size() - 1);
            if (find_fn(lower(b)) || lower(a).compare(0, 3, "reg") == 0 || lower(b).compare(0, 3, "reg") == 0)
            {
                break;
            }
            ok = expect(x, "long names", a + "=5;" + b + "=7;" + a + "*10+" + b, 57, (uint64_t) n);
            F* pa = x.var(a);
            if (ok && (*pa != 5 || *x.var(b) != 7 || pa == x.var(b) || x.var(lower(a)) != pa))
            {
                R.fail("C28:long names", fmt("variables with names of %d characters aren't kept apart or found again: ", n) + shorten(a) + " and " + shorten(b));
                ok = false;
            }
            if (ok && n > 1 && lower(c) != lower(b) && !find_fn(lower(c)) && *x.var(c) != 0 && lower(c) != "a" && lower(c) != "b")
            {
                R.fail("C28:long names", "a prefix of a name finds the variable: " + shorten(c));
                ok = false;
            }
            break;
        }
        case 10: {
            int n = size(r, 1, 20000 / S);
            max_name = std::max(max_name, (uint64_t) n);
            std::string d;
            for (int i = 0; i < n; ++i)
            {
                d += (char) ('0' + r.range(0, 9));
            }
            int m = r.range(0, 3);
            if (m == 0)
            {
                ok = expect(x, "leading zeros", std::string((size_t) n, '0') + "17.5", 17.5, (uint64_t) n);
            }
            else if (m == 1)
            {
                ok = expect(x, "long fraction", "3." + d, (double) (F) parse_c_double("3." + d), (uint64_t) n, 1e-15);
            }
            else if (m == 2)
            {
                std::string s = d.substr(0, (size_t) std::min(n, 300));
                ok = expect(x, "long integer", s, (double) (F) parse_c_double(s), (uint64_t) n, 1e-15);
            }
            else
            {
                ok = expect(x, "long hexadecimal literal", "$x" + std::string((size_t) n, '0') + "FE", 254, (uint64_t) n);
            }
            break;
        }
        case 11: {
            int n = size(r, 1, 3000 / S);
            max_variables = std::max(max_variables, (uint64_t) n);
            std::string s;
            for (int i = 0; i < n; ++i)
            {
                s += fmt("var_%d=%d;", i, i * 3 + 1);
            }
            s += "0";
            for (int i = 0; i < n; ++i)
            {
                s += fmt("+var_%d", i);
            }
            double want = 0;
            std::vector<F*> ps;
            bool early = r.chance(50);
            for (int i = 0; i < n; ++i)
            {
                want += i * 3 + 1;
                if (early)
                {
                    ps.push_back(x.var(fmt("Var_%d", i)));
                }
            }
            ok = expect(x, "many variables", s, want, (uint64_t) n);
            for (int i = 0; i < n && ok; ++i)
            {
                F* p = x.var(fmt("vaR_%d", i));
                if (*p != (F) (i * 3 + 1) || (early && p != ps[(size_t) i]))
                {
                    R.fail("C28:many variables", fmt("of %d variables number %d has the value ", n, i) + num((double) *p) + fmt(" instead of %d, or has moved", i * 3 + 1));
                    ok = false;
                }
            }
            break;
        }
        case 12: {
            int n = size(r, 1, 1000000 / S);
            std::string gap = r.chance(30) ? std::string((size_t) n, ' ') : r.chance(50) ? std::string((size_t) n, '\n') : "/*" + std::string((size_t) n, r.chance(50) ? '*' : 'x') + "*/";
            ok = expect(x, "long gap", "a=4;" + gap + "a+1", 5, (uint64_t) n);
            break;
        }
        case 13: {
            int n = size(r, 1, 100000 / S);
            std::string comment = "//" + std::string((size_t) n, r.chance(50) ? '/' : 'y') + "\n";
            ok = expect(x, "long comment", comment + "a=4;" + comment + "a+1", 5, (uint64_t) n);
            break;
        }
        case 14:
        case 15: {
            // exact error position behind a lot of text
            int n = size(r, 1, (k == 14 ? 200000 : 25000) / S);
            bool lines = k == 14;
            std::string s = lines ? std::string((size_t) n, '\n') + "  1 2" : "a=1" + rep(";b=2", n) + ";1 2";
            int want_line = lines ? n + 1 : 1, want_col = lines ? 4 : (int) s.size() - 1;
            R.note("error after a long text");
            Code h(x.c, s);
            int l = -1, c = -1;
            const char* e = projectm_eval_get_error(x.c, &l, &c);
            ++R.evaluations;
            if (h || !e || l != want_line || c != want_col)
            {
                R.fail("C28:error position", fmt("the error behind %d %s is reported at %d:%d (%s), it is at %d:%d", n, lines ? "empty lines" : "instructions", l, c, e ? e : "no error", want_line, want_col));
                ok = false;
            }
            R.distinct(hash_str(fmt("%d %d", n, k)));
            ok = ok && usable(x);
            break;
        }
        case 16:
        case 17: {
            // too deep: an ordinary compile error
            int n = size(r, 10001, 60000);
            static const char* const open[] = {"(", "-", "sin(", "1+(", "c=", "if(1,", "!", "a?b:", "megabuf(", "exec3(1,2,", "1^(", "a[", "gmem[", "(1;"};
            std::string s = rep(r.pick(open), n) + (r.chance(50) ? "1" + rep(")", r.chance(50) ? n : 0) : "");
            R.note(fmt("nested %d levels: ", n) + shorten(s));
            Code h(x.c, s);
            const char* e = projectm_eval_get_error(x.c, nullptr, nullptr);
            ++R.evaluations;
            R.count("too_deep_texts");
            if (h || !e || !*e)
            {
                R.fail("C28:too deep", fmt("a text nested %d levels deep is %s: ", n, h ? "compiled" : "rejected without an error") + shorten(s));
                ok = false;
            }
            R.distinct(hash_str(shorten(s)));
            ok = ok && usable(x);
            break;
        }
        case 18: {
            int n = huge ? 65536 + r.range(2, 4) : size(r, 1, 20000 / S);
            max_instructions = std::max(max_instructions, (uint64_t) n);
            ok = expect(x, "long list in parentheses", "c=0;d=(c+=1" + rep(";c+=1", n) + ");d*1", n + 1, (uint64_t) n);
            break;
        }
        case 19: {
            int n = size(r, 1, 5000 / S);
            ok = expect(x, "long list in a loop", "c=0;loop(3,c+=1" + rep(";c+=1", n) + ");c", 3.0 * (n + 1), (uint64_t) n);
            ok = ok && expect(x, "long list in a branch", "c=0;if(a-2,c=9" + rep(";c=8", n) + ",c+=1" + rep(";c+=1", n) + ");c", n + 1, (uint64_t) n);
            break;
        }
        case 20: {
            int n = size(r, 1, 1048576 / S);
            ok = expect(x, "many iterations", fmt("c=0;loop(%d,c+=1);c", n), n, (uint64_t) n);
            ok = ok && expect(x, "many iterations", fmt("c=0;while(c+=1;c<%d);c", n), n, (uint64_t) n);
            break;
        }
        case 21: {
            // many handles and contexts at the same time
            int n = size(r, 1, 1500 / S);
            std::vector<Code> hs;
            for (int i = 0; i < n; ++i)
            {
                hs.emplace_back(x.c, fmt("h%d=%d;c+=1;h%d*2", i % 97, i, i % 97));
            }
            std::vector<int> order;
            for (int i = 0; i < n; ++i)
            {
                order.push_back(i);
            }
            for (int i = n - 1; i > 0; --i)
            {
                std::swap(order[(size_t) i], order[r.below((uint32_t) i + 1)]);
            }
            R.note(fmt("%d handles", n));
            ++R.evaluations;
            for (int i : order)
            {
                F v = hs[(size_t) i] ? hs[(size_t) i].run() : -1;
                if (v != (F) (2 * i))
                {
                    R.fail("C28:many handles", fmt("of %d handles number %d gives ", n, i) + num((double) v));
                    ok = false;
                    break;
                }
            }
            if (ok && *x.var("c") != (F) n)
            {
                R.fail("C28:many handles", fmt("%d handles counted to ", n) + num((double) *x.var("c")));
                ok = false;
            }
            break;
        }
        case 22: {
            int n = size(r, 1, 200 / (small ? 4 : 1));
            std::vector<std::unique_ptr<Ctx>> cs;
            R.note(fmt("%d contexts", n));
            ++R.evaluations;
            for (int i = 0; i < n; ++i)
            {
                cs.emplace_back(new Ctx());
                Code h(cs.back()->c, fmt("v=%d;megabuf(v)=v;gmem[0]=v", i));
                h.run();
            }
            for (int i = 0; i < n && ok; ++i)
            {
                Code h(cs[(size_t) i]->c, "v*10000+megabuf(v)*100+gmem[0]");
                F v = h.run();
                if (v != (F) (i * 10101))
                {
                    R.fail("C28:many contexts", fmt("of %d contexts number %d gives ", n, i) + num((double) v));
                    ok = false;
                }
            }
            break;
        }
        case 23: {
            // all 128 blocks of both memories
            int step = r.pick(std::vector<int>{65536, 65537, 131072, 262144});
            int n = 8388608 / step;
            ok = expect(x, "whole memory", fmt("i=0;loop(%d,megabuf(i*%d)=i+1;gmem[i*%d]=i+2;i+=1);i=0;c=0;loop(%d,c+=megabuf(i*%d)*2+gmem[i*%d];i+=1);c", n, step, step, n, step, step), [&] {
                double v = 0;
                for (int i = 0; i < n; ++i)
                {
                    v += (i + 1) * 2 + i + 2;
                }
                return v;
            }(), (uint64_t) n);
            break;
        }
        case 24: {
            // right operands nested by parentheses: 1-(1-(1-...
            int n = size(r, 1, 2000 / (small ? 4 : 1));
            max_nesting = std::max(max_nesting, (uint64_t) n);
            ok = expect(x, "nested right operands", rep("1-(", n) + "a" + rep(")", n), n % 2 ? -1 : 2, (uint64_t) n);
            break;
        }
        case 25: {
            int n = size(r, 1, 1500 / (small ? 4 : 1));
            max_nesting = std::max(max_nesting, (uint64_t) n);
            // a[b[c[..]]] pointer chasing: megabuf(i)=i+1, follow n links
            ok = expect(x, "nested memory accesses", "i=0;loop(2000,megabuf(i)=i+1;i+=1);" + rep("megabuf(", n) + "0" + rep(")", n), n, (uint64_t) n);
            ok = ok && expect(x, "nested memory accesses", rep("0[", n) + "0" + rep("]", n), n, (uint64_t) n);
            break;
        }
        case 26: {
            // many statements with the same constants and names in one instruction, as function arguments
            int n = size(r, 1, 700 / (small ? 4 : 1));
            max_nesting = std::max(max_nesting, (uint64_t) n);
            std::string s = "1";
            double v = 1;
            s = rep("min(1000000,1+max(0,", n) + "1" + rep("))", n);
            v = n + 1;
            ok = expect(x, "alternating nested calls", s, v, (uint64_t) n);
            break;
        }
        case 27: {
            // any number of arguments other than the right one is an ordinary error
            static const struct
            {
                const char* fn;
                int args;
            } fns[] = {{"sin", 1}, {"abs", 1}, {"rand", 1}, {"megabuf", 1}, {"pow", 2}, {"min", 2}, {"loop", 2}, {"exec2", 2}, {"if", 3}, {"exec3", 3}, {"memcpy", 3}, {"memset", 3}, {"nosuch", -1}};
            auto& f = r.pick(fns);
            int n = r.chance(50) ? size(r, 1, 140000 / S) : std::max(1, 256 * r.range(1, 3) * (r.chance(30) && !small ? 256 : 1) + f.args + r.range(-1, 1));
            static const char* const args[] = {"1", "a", "b+1", "c=2", "sin(a)", "0[]"};
            std::string arg = r.pick(args);
            std::string s = std::string(f.fn) + "(" + arg + rep("," + arg, n - 1) + ")";
            R.note(fmt("%d arguments: ", n) + shorten(s));
            max_arguments = std::max(max_arguments, (uint64_t) n);
            Code h(x.c, s);
            const char* e = projectm_eval_get_error(x.c, nullptr, nullptr);
            ++R.evaluations;
            R.count("argument_counts_compiled");
            if ((bool) h != (n == f.args) || (!h && (!e || !*e)))
            {
                R.fail("C28:arguments", fmt("%s() with %d arguments is %s: ", f.fn, n, h ? "compiled" : e ? "rejected" : "rejected without an error") + shorten(s));
                ok = false;
            }
            R.distinct(hash_str(fmt("%s %d", f.fn, n) + arg));
            ok = ok && usable(x);
            break;
        }
        case 28: {
            // instruction lists within instruction lists, in every place that takes a list
            int n = size(r, 1, 1200 / (small ? 4 : 1));
            max_nesting = std::max(max_nesting, (uint64_t) n);
            static const struct
            {
                const char *open, *close;
            } t[] = {{"(c+=1;", ")"}, {"(c+=1;c;", ")"}, {"if(1,(c+=1;", "),0)"}, {"if(0,0,(c+=1;", "))"}, {"exec2(0,(c+=1;", "))"}, {"exec3(c+=1,0,(0;", "))"}, {"loop(1,c+=1;", ")"},
                {"max(0,(c+=1;", "))"}, {"exec2(c+=1;0,", ")"}, {"0+(c+=1;", ")"}};
            std::string open, close;
            bool one = r.chance(50);
            size_t which = (size_t) r.range(0, 9);
            for (int i = 0; i < n; ++i)
            {
                auto& q = t[one ? which : (size_t) r.range(0, 9)];
                open += q.open;
                close = q.close + close;
            }
            ok = expect(x, "nested instruction lists", "c=0;d=" + open + "7" + close + ";d", 7, (uint64_t) n);
            ok = ok && expect(x, "nested instruction lists", "c=0;d=" + open + "7" + close + ";c", n, (uint64_t) n);
            ok = ok && expect(x, "nested instruction lists", open + "7" + close, 7, (uint64_t) n);
            break;
        }
        default: {
            // one long text compiled again and again into the same context
            int n = size(r, 10, 3000 / S);
            std::string s = "c=0" + rep(";c+=a", n) + ";c";
            for (int i = 0; i < 4 && ok; ++i)
            {
                *x.var("a") = (F) (i + 1);
                ok = expect(x, "repeated compilation", s, (i + 1.0) * n, (uint64_t) n);
                if (r.chance(50))
                {
                    Code bad(x.c, s + " 1");
                }
            }
            break;
        }
    }
    shapes.insert(id);
    (void) ok;
}

static void* body(void*)
{
    bool small = R.mode == "small";
    if (R.rng.chance(35) && (small || R.case_index % 1600 >= 2))
    {
        chunks(R.rng, small ? 1500 : R.thorough() ? 40000 : 12000);
    }
    else
    {
        shape(R.rng, small);
    }
    return nullptr;
}

void harness_case()
{
    R.note("");
    pthread_attr_t at;
    pthread_attr_init(&at);
    // Instrumented builds need several times the stack; they use smaller sizes instead of being judged by it.
    pthread_attr_setstacksize(&at, R.mode == "small" ? (size_t) 256 << 20 : (size_t) 8 << 20);
    pthread_t t;
    if (pthread_create(&t, &at, body, nullptr))
    {
        exit(96);
    }
    pthread_join(t, nullptr);
}

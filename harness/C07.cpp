// C07: iteration counts, results and termination of loop() and while().
#include "lab.hpp"

static std::set<std::string> seen;
void harness_init() {}
void harness_done() { R.counters["set_loop_situations"] = seen.size(); }

static const int64_t CAP = 1048576;

static double pick_count(Rng& r, std::string& what)
{
    static const struct
    {
        const char* what;
        double v;
    } fixed[] = {{"zero", 0}, {"negative", -1}, {"negative", -3.5}, {"hugeneg", -1e300}, {"frac<1", 0.5}, {"frac<1", 0.999}, {"one", 1},
                 {"frac>1", 1.9999}, {"frac>1", 1.5}, {"small", 2}, {"small", 3}, {"small", 7}, {"frac>1", 10.75}, {"hundreds", 250},
                 {"nan", NAN}, {"-inf", -INFINITY}, {"tiny", 1e-300}, {"-0", -0.0}, {"int64neg", -9223372036854775808.0}, {"thousands", 5000.25}, {"minint", -2147483649.0}};
    static const struct
    {
        const char* what;
        double v;
    } big[] = {{"cap", 1048576}, {"cap+1", 1048577}, {"cap-1", 1048575}, {"huge", 1e9}, {"huge", 1e18}, {"huge", 1e300}, {"inf", INFINITY}, {"2^31", 2147483648.0},
               {"2^32", 4294967296.0}, {"2^32+1", 4294967297.0}, {"2^63", 9223372036854775808.0}, {"2^64", 18446744073709551616.0}, {"frac cap", 1048576.9}};
    if (r.chance(12))
    {
        auto& b = r.pick(big);
        what = b.what;
        return b.v;
    }
    if (r.chance(30))
    {
        what = "random";
        return r.range(-5, 60) + (r.chance(40) ? r.unit() : 0);
    }
    auto& b = r.pick(fixed);
    what = b.what;
    return b.v;
}

static int64_t iterations(double v) { return v >= 1 ? (v >= (double) CAP ? CAP : (int64_t) v) : 0; }

struct Shot
{
    double result;
    std::map<std::string, double> vars;
};

static bool execute(projectm_eval_context* ctx, const std::string& src, uint64_t budget, double& result, int times = 1)
{
    R.note_more("\n>>> " + src);
    StepGuard g(budget);
    Code c(ctx, src);
    if (!c)
    {
        R.fail("C07:rejected", src);
        return false;
    }
    for (int i = 0; i < times; ++i)
    {
        result = (double) c.run();
    }
    R.count("programs_executed");
    return true;
}

struct Ctx
{
    projectm_eval_context* c;
    F regs[100];
    Ctx()
    {
        memset(regs, 0, sizeof regs);
        c = projectm_eval_context_create(nullptr, &regs);
    }
    ~Ctx() { projectm_eval_context_destroy(c); }
    F* operator[](const char* n) { return projectm_eval_context_register_variable(c, n); }
};

static bool expect(const std::string& key, const std::string& src, const std::string& what, double got, double want)
{
    R.count("quantities_compared");
    if (same_number(got, want))
    {
        return true;
    }
    R.fail(key, src + "\n" + what + " is " + num(got) + ", expected " + num(want));
    return false;
}

// loop(n, body) counted through a variable; n given as literal, variable, register, memory, expression with side effect
static void loop_case(Rng& r)
{
    std::string what;
    double n = pick_count(r, what);
    int form = r.range(0, 6);
    Ctx x;
    *x["n"] = (F) n;
    *x["c"] = 0;
    *x["e"] = 0;
    x.regs[7] = (F) n;
    n = (double) (F) n;
    bool literal_ok = std::isfinite(n);
    std::string cnt;
    switch (form)
    {
        case 0: cnt = literal_ok ? (n < 0 || std::signbit(n) ? "-" : "") + num(std::fabs(n)) : "n"; break;
        case 1: cnt = "n"; break;
        case 2: cnt = "reg07"; break;
        case 3: cnt = "(e+=1;n)"; break;
        case 4: cnt = "(megabuf(5)=n;megabuf(5))"; break;
        case 5: cnt = "(n+0)"; break;
        default: cnt = "exec2(e+=1,n)"; break;
    }
    int64_t k = iterations(n);
    uint64_t budget = 3000000 + (uint64_t) k * 300;
    static const char* const bodies[] = {"c=c+1", "c+=1;c*2", "n=0;c+=1", "n=n+1;c+=1", "exec2(c+=1,7)", "c+=1;n=-5;reg07=99;megabuf(5)=12"};
    int b = r.range(0, 5);
    std::string src = "loop(" + cnt + "," + bodies[b] + ")";
    bool wrapped = r.chance(30);
    std::string full = wrapped ? "res=" + src : src;
    double got = 0;
    ++R.evaluations;
    seen.insert("loop/" + what + "/" + std::to_string(form) + "/" + std::to_string(b));
    R.distinct(hash_str("loop/" + what + num(n) + "/" + std::to_string(form) + "/" + std::to_string(b) + (wrapped ? "w" : "")));
    if (!execute(x.c, full, budget, got))
    {
        return;
    }
    R.sample(full + "   [n=" + num(n) + "]: " + std::to_string(k) + " iterations");
    R.count("iterations_counted", (uint64_t) k);
    R.count(k == CAP ? "capped_loops" : k == 0 ? "zero_loops" : "counted_loops");
    std::string ctxt = full + " with n=" + num(n);
    if (!expect("C07:loop count", ctxt, "number of iterations", (double) *x["c"], (double) k))
    {
        return;
    }
    if (!expect("C07:count evaluated", ctxt, "evaluations of the count", (double) *x["e"], form == 3 || form == 6 ? 1 : 0))
    {
        return;
    }
    double want;
    if (k == 0)
    {
        want = n;
    }
    else
    {
        switch (b)
        {
            case 1: want = 2.0 * (double) k; break;
            case 4: want = 7; break;
            case 5: want = 12; break;
            default: want = (double) k;
        }
    }
    expect("C07:loop result", ctxt, "result", got, want);
}

static void nested_case(Rng& r)
{
    // Nested loops are limited individually.
    ++R.evaluations;
    Ctx x;
    std::string src, w1, w2;
    double a, b;
    if (r.chance(12))
    {
        a = r.range(1, 3);
        b = r.chance(50) ? 1e12 : 1048577;
        if (r.chance(50))
        {
            std::swap(a, b);
        }
    }
    else
    {
        a = r.range(-1, 40) + (r.chance(30) ? 0.5 : 0);
        b = r.range(-1, 40) + (r.chance(30) ? 0.7 : 0);
    }
    int64_t ka = iterations(a), kb = iterations(b);
    *x["n"] = (F) a;
    *x["m"] = (F) b;
    *x["o"] = 0;
    *x["i"] = 0;
    int form = r.range(0, 2);
    switch (form)
    {
        case 0: src = "loop(n,o+=1;loop(m,i+=1))"; break;
        case 1: src = "loop(n,exec2(o+=1,loop(m,i+=1;m)))"; break;
        default: src = "loop(n,o+=1;k=m;while(i+=1;k=k-1;k>=1))"; kb = std::max<int64_t>(kb, 1); break;
    }
    double got;
    R.distinct(hash_str(src + num(a) + num(b)));
    seen.insert("nested" + std::to_string(form) + (ka == CAP || kb == CAP ? "cap" : ""));
    if (form == 2 && b >= 2 && std::floor(b) != b)
    {
        kb = (int64_t) std::floor(b); // k=m; counts down while k>=1
    }
    if (!execute(x.c, src, 4000000 + (uint64_t) (ka * (kb + 2)) * 400, got))
    {
        return;
    }
    R.count("iterations_counted", (uint64_t) (ka * (kb + 1)));
    std::string ctxt = src + " with n=" + num(a) + " m=" + num(b);
    expect("C07:nested outer", ctxt, "outer iterations", (double) *x["o"], (double) ka) &&
        expect("C07:nested inner", ctxt, "inner iterations", (double) *x["i"], (double) ka * (double) kb);
}

// Two to four levels of loop() and while() in any mixture, any of them running into the iteration limit, several loops per
// level, in one or several programs executed repeatedly.
struct Level
{
    bool is_while;
    double n;
    int64_t runs;
    bool twice; // a second, independent loop follows in the same body
};

static std::string nest(const std::vector<Level>& v, size_t i, Rng& r)
{
    if (i == v.size())
    {
        return "";
    }
    std::string id = std::to_string(i), inner = nest(v, i + 1, r), one, s;
    std::string count = "n" + id;
    if (v[i].is_while)
    {
        // k counts down; the last value is the condition
        std::string body = "c" + id + "+=1;" + (inner.empty() ? "" : inner + ";") + "k" + id + "-=1;k" + id + ">=1";
        one = "k" + id + "=" + count + ";while(" + body + ")";
        if (r.chance(50))
        {
            one = "exec2(k" + id + "=" + count + ",while(" + body + "))";
        }
    }
    else
    {
        std::string body = r.chance(50) ? "c" + id + "+=1" + (inner.empty() ? "" : ";" + inner) : (inner.empty() ? "" : inner + ";") + "c" + id + "+=1";
        one = "loop(" + count + "," + body + ")";
        if (r.chance(20))
        {
            one = "d=" + one;
        }
    }
    s = one;
    if (v[i].twice)
    {
        s += ";" + one;
    }
    return s;
}

static void deep_case(Rng& r)
{
    ++R.evaluations;
    size_t levels = (size_t) r.range(1, 4);
    std::vector<Level> v(levels);
    // one level may run into the limit, the others share a budget of iterations
    int capped = r.chance(14) ? r.range(0, (int) levels - 1) : -1;
    double product = capped >= 0 ? (double) CAP : 1;
    bool large = capped < 0 && r.chance(4);
    if (large)
    {
        levels = (size_t) r.range(2, 3);
        v.resize(levels);
    }
    for (size_t i = 0; i < levels; ++i)
    {
        Level& l = v[i];
        l.is_while = r.chance(large ? 30 : 50);
        l.twice = (int) i != capped && r.chance(20);
        if ((int) i == capped)
        {
            static const double huge[] = {1048577, 1048600, 1100000, 3000000, 1e9, 1e15};
            l.n = r.pick(huge);
        }
        else if (large)
        {
            // every level counts far
            l.n = levels == 2 ? r.range(600, 1800) : r.range(100, 140);
            l.twice = false;
        }
        else
        {
            int64_t room = (int64_t) (3e6 / product);
            l.n = room <= 1 ? r.range(0, 1) : r.range(-1, (int) std::min<int64_t>(room, r.chance(20) ? 400 : r.chance(15) ? 2200 : 9));
            if (r.chance(20) && !l.is_while)
            {
                l.n += 0.5;
            }
        }
        l.runs = iterations(l.n);
        if (l.is_while)
        {
            l.runs = std::max<int64_t>(1, l.runs);
        }
        if ((int) i != capped)
        {
            product *= (double) std::max<int64_t>(1, l.runs) * (l.twice ? 2 : 1);
            l.twice = l.twice && product < 6e6;
        }
    }
    std::string src = nest(v, 0, r);
    Ctx x, y;
    std::vector<std::string> cn, nn;
    std::vector<double> want(levels);
    double outer = 1;
    std::string what;
    for (size_t i = 0; i < levels; ++i)
    {
        std::string id = std::to_string(i);
        *x[("n" + id).c_str()] = (F) v[i].n;
        *y[("n" + id).c_str()] = (F) v[i].n;
        outer *= (double) v[i].runs * (v[i].twice ? 2 : 1);
        want[i] = outer;
        what += (v[i].is_while ? " while:" : " loop:") + num(v[i].n);
    }
    int times = product < 100000 ? r.range(1, 3) : 1;
    bool two = product < 100000 && r.chance(30);
    R.note(src + what);
    StepGuard g((uint64_t) (4000000 + product * 3000.0 * (two ? 2 : 1) * times));
    Code c(x.c, src), d(two ? y.c : x.c, two ? src : "0");
    if (!c || !d)
    {
        R.fail("C07:rejected", src);
        return;
    }
    for (int t = 1; t <= times; ++t)
    {
        c.run();
        d.run();
        R.count("programs_executed");
        for (size_t i = 0; i < levels; ++i)
        {
            std::string id = "c" + std::to_string(i);
            R.count("iterations_counted", (uint64_t) want[i]);
            if (!expect("C07:levels", src + " with" + what + fmt(" execution %d", t), "number of iterations of level " + std::to_string(i), (double) *x[id.c_str()], want[i] * t) ||
                (two && !expect("C07:levels", src + " with" + what + fmt(" in a second context, execution %d", t), "number of iterations of level " + std::to_string(i), (double) *y[id.c_str()], want[i] * t)))
            {
                return;
            }
        }
    }
    R.count("loop_nests");
    R.distinct(hash_str(src + what));
    seen.insert(fmt("nest%zu/%d/%d", levels, capped, capped >= 0 ? v[(size_t) capped].is_while : 0));
}

static void while_case(Rng& r)
{
    ++R.evaluations;
    Ctx x;
    int form = r.range(0, 9);
    std::string src;
    double k = r.range(1, 200), want_c = 0, want = 0;
    if (r.chance(4) && form < 7)
    {
        k = 1048576 + r.range(-1, 3);
    }
    *x["k"] = (F) k;
    *x["c"] = 0;
    double cap = (double) CAP;
    switch (form)
    {
        case 0: src = "while(c=c+1;c<k)"; want_c = std::fmin(k, cap); want = k <= cap ? 0 : 1; break;
        case 1: src = "while(exec2(c=c+1,c<k))"; want_c = std::fmin(k, cap); want = k <= cap ? 0 : 1; break;
        case 2: src = "c=k;while(c=c-1)"; want_c = std::fmax(0, k - cap); want = want_c; break;
        case 3: src = "while(c+=1;k-c)"; want_c = std::fmin(k, cap); want = k <= cap ? 0 : k - cap; break;
        case 4: src = "while(c+=1;0)"; want_c = 1; want = 0; break;
        case 5: src = "while(c+=1;-1*(k-c))"; want_c = std::fmin(k, cap); want = k <= cap ? 0 : -(k - cap); break;
        case 6: src = "while(c+=1;(k-c)*1e-200)"; want_c = std::fmin(k, cap); want = k <= cap ? 0 : (k - cap) * 1e-200; break;
        case 7: src = "while(0)"; want = 0; break;
        case 8:
            if (!r.chance(10))
            {
                src = "while(c=c+1;c!=5)";
                want_c = 5;
                want = 0;
                break;
            }
            src = "while(c+=1;1)";
            want_c = cap;
            want = 1;
            break;
        default: src = "while(c+=1;if(c>=k,0,2))"; want_c = std::fmin(k, cap); want = k <= cap ? 0 : 2; break;
    }
    if (sizeof(F) == 4 && form == 6)
    {
        return;
    }
    double got;
    R.distinct(hash_str(src + num(k)));
    seen.insert("while" + std::to_string(form) + (k >= cap - 1 ? "cap" : ""));
    R.sample(src + "   [k=" + num(k) + "]");
    if (!execute(x.c, src, 3000000 + (uint64_t) (CAP * 400), got))
    {
        return;
    }
    R.count("iterations_counted", (uint64_t) (form == 2 ? k : want_c));
    std::string ctxt = src + " with k=" + num(k);
    if (expect("C07:while count", ctxt, "c", (double) *x["c"], want_c))
    {
        expect("C07:while result", ctxt, "result", got, want);
    }
}

// The conditions of a while() are read from a table; any value but zero continues.
static void table_case(Rng& r)
{
    ++R.evaluations;
    static const double go[] = {1, -1, 0.5, -0.25, 2, 1e10, -1e10, 1e18, -1e300, 1e300, INFINITY, -INFINITY, 4294967296.0, 2147483648.0, -2147483648.0, 0.9, 1e-5, -1e-12, 1e-20, 1e-200, 1e-290, -1e-290,
                                1048576, 255, 256, 65536, 1e9, 2e9, 3.999, 1e-30, -1e-30};
    Ctx x;
    F *i = x["i"], *v = x["v"], *c = x["c"];
    Code put(x.c, "megabuf(1000+i)=v");
    int n = r.range(0, 12);
    bool local = r.chance(30);
    std::string list;
    double first = 0;
    for (int k = 1; k <= n + 1; ++k)
    {
        *i = (F) k;
        *v = k <= n ? (F) r.pick(go) : r.chance(50) ? (F) 0 : (F) -0.0;
        if (k <= n && (*v == 0 || std::fabs((double) *v) < (sizeof(F) == 4 ? 1e-37 : 1e-299)))
        {
            *v = 3;
        }
        if (k == 1)
        {
            first = (double) *v;
        }
        list += num((double) *v) + " ";
        put.run();
    }
    static const char* const forms[] = {"while(c+=1;megabuf(1000+c))", "while(exec2(c+=1,megabuf(1000+c)))", "while(c+=1;t=megabuf(1000+c))", "while(c+=1;megabuf(1000+c)*1)", "while(c+=1;-megabuf(1000+c))",
                                        "loop(1,while(c=c+1;(c+1000)[]))", "while(c+=1;megabuf(1000+c);megabuf(1000+c)=megabuf(1000+c))", "while(if(1,c+=1,0);t=1;megabuf(1000+c))",
                                        "while(c+=1;o+=1;megabuf(c+1000));while(0)"};
    std::string src = r.pick(forms);
    if (local)
    {
        // the same over the iterations of a loop
        src = "loop(2,c=0;w=" + src + ")";
    }
    double got = 0;
    seen.insert("table/" + src);
    R.distinct(hash_str(src + list));
    if (!execute(x.c, src, 3000000, got))
    {
        return;
    }
    R.count("table_conditions", (uint64_t) n + 1);
    std::string ctxt = src + " with the conditions " + list + "(first " + num(first) + ")";
    if (expect("C07:while count", ctxt, "c", (double) *c, n + 1))
    {
        expect("C07:while result", ctxt, "result", std::fabs(got), 0);
    }
}

static void constant_case(Rng& r)
{
    // Constant loops: compilation and execution end within the limits and give the specified value.
    static const struct
    {
        const char* src;
        double want;
    } t[] = {{"loop(1e9,3)", 3}, {"loop(5,sqr(3))", 9}, {"loop(0,3)", 0}, {"loop(-4,3)", -4}, {"loop(0.5,3)", 0.5}, {"while(1)", 1}, {"while(0)", 0},
             {"while(5)", 5}, {"loop(1e300,loop(1e300,2))", 2}, {"loop(3,while(1))", 1}, {"while(while(1))", 1}, {"loop(1e9,loop(0,1))", 0},
             {"loop(2e6,while(0))", 0}, {"while(loop(1e9,0))", 0}, {"loop(while(2),5)", 5}, {"loop(loop(1e10,1),4)", 4}, {"x=loop(1e9,7);x+1", 8}, {"if(0,while(1),6)", 6},
             {"loop(0,while(1))", 0}, {"loop(1e9,1e9)", 1e9}, {"loop(2,while(1);while(1))", 1}};
    auto& c = r.pick(t);
    ++R.evaluations;
    Ctx x;
    double got;
    R.distinct(hash_str(c.src));
    seen.insert(std::string("const ") + c.src);
    R.count("constant_loops");
    if (execute(x.c, c.src, (uint64_t) CAP * 2000, got, r.range(1, 2)))
    {
        expect("C07:constant loop", c.src, "result", got, c.want);
    }
}

static void program_case(Rng& r)
{
    GenOpt o;
    o.loops = true;
    o.lists = true;
    o.max_depth = 5;
    o.trace_percent = 25;
    Gen g(r, o);
    std::string src = "loop(" + g.expr(1) + "," + g.expr(3) + ")";
    if (r.chance(50))
    {
        src = "loop(" + std::to_string(r.range(0, 5)) + "," + src + ";" + g.expr(2) + ")";
    }
    if (r.chance(40))
    {
        src += ";" + g.program(1, 2);
    }
    ++R.evaluations;
    Lab lab;
    lab.set("a", (F) r.range(-1, 6));
    lab.set("b", (F) r.range(0, 30) * (F) 0.5);
    lab.set("c", 3);
    Env e;
    if (lab.check("C07:program", src, &e) == Lab::MATCH)
    {
        R.count("iterations_counted", e.loop_iters);
        R.distinct(hash_str(src));
        seen.insert("program");
    }
}

// Loops of every length whose body is a single operation of any kind; the counter is a variable, register or memory slot.
static void body_case(Rng& r)
{
    ++R.evaluations;
    static const char* const counters[] = {"c", "c", "reg05", "megabuf(4)", "gmem[5]", "4[c0]"};
    // @ is the increment
    static const char* const bodies[] = {"@", "abs(@)", "-(@)", "!(@)", "sin(@)", "min(@,3)", "max(3,@)", "exec3(1,2,@)", "if(1,@,0)", "megabuf(0)=(@)", "(@)&&1", "(@)||1",
                                         "loop(1,@)", "assign(d,@)", "band(@,1)", "(@)+1", "1-(@)", "d=(@)", "d+=(@)", "gmem[@]", "while(@;0)", "0;@", "@;0", "(@)?1:0", "(@)&1",
                                         "((((@))))", "floor(sqrt(abs(@)))", "d=e=(@)", "exec2(@,0)", "sqr(d=(@))", "invsqrt(@)", "megabuf(@;1)", "(@)%7", "bnot(@)", "above(@,5)"};
    // true as long as less than n increments were made, $ is the counter
    static const char* const conditions[] = {"@;$<n", "(@)<n", "below(@,n)", "abs((@)<n)", "n-(@)", "if((@)<n,1,0)", "exec2(@,$<n)", "!((@)>=n)", "sign(max(n-(@),0))", "(@)<n?-1:0",
                                             "_noteq(@,n)", "tiny*((@)<n)", "(@)<n&&1", "d=((@)<n)", "megabuf(1)=((@)<n)", "loop(1,(@)<n)", "(@)>=n?0:-tiny", "((@)<n)|0", "-((@)<n)", "d=n;d-=(@)"};
    std::string counter = r.pick(std::vector<std::string>(std::begin(counters), std::end(counters)));
    std::string inc = r.chance(70) ? counter + "+=1" : r.chance(50) ? counter + "=" + counter + "+1" : counter + "-=-1";
    bool wh = r.chance(40);
    double n = std::floor(std::exp(r.unit() * std::log(1.3e6)));
    if (r.chance(15))
    {
        n = std::ldexp(1.0, r.range(0, 20)) + r.range(-1, 2);
    }
    if (r.chance(10))
    {
        static const double round[] = {10, 100, 1000, 10000, 100000, 500000, 1000000};
        n = r.pick(round) + r.range(-1, 1);
    }
    std::string t = wh ? r.pick(conditions) : r.pick(bodies), body;
    for (char ch : t)
    {
        body += ch == '@' ? inc : ch == '$' ? counter : std::string(1, ch);
    }
    std::string src = (wh ? "while(" : "loop(n,") + body + ")", read = src + ";" + counter;
    n = wh ? std::max(n, 1.0) : n;
    int64_t k = iterations(n);
    Ctx x;
    *x["n"] = (F) n;
    *x["c0"] = 1;
    *x["tiny"] = (F) 1e-200;
    std::string what = src + " with n=" + num(n);
    R.note(what);
    StepGuard g(4000000ull + (uint64_t) k * 600);
    Code c(x.c, read);
    if (!c)
    {
        R.fail("C07:rejected", src);
        return;
    }
    R.count("programs_executed");
    R.count("iterations_counted", (uint64_t) k);
    double got = (double) c.run();
    projectm_eval_context_free_memory(x.c);
    if (counter == "gmem[5]")
    {
        Code z(x.c, "gmem[5]=0");
        z.run();
    }
    R.count("loops_with_a_single_operation");
    R.distinct(hash_str(what));
    seen.insert("body/" + t);
    expect("C07:body", what, "number of iterations", got, (double) k);
}

void harness_case()
{
    Rng& r = R.rng;
    R.note("");
    int k = r.range(0, 99);
    if (k < 32)
    {
        loop_case(r);
    }
    else if (k < 42)
    {
        nested_case(r);
    }
    else if (k < 54)
    {
        deep_case(r);
    }
    else if (k < 64)
    {
        body_case(r);
    }
    else if (k < 68)
    {
        table_case(r);
    }
    else if (k < 77)
    {
        while_case(r);
    }
    else if (k < 81)
    {
        constant_case(r);
    }
    else
    {
        program_case(r);
    }
}

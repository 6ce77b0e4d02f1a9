// C05: assignments change exactly their target. Every variable, register and touched memory area holds a
// recognisable number beforehand; the complete state is compared with the model's reference semantics afterwards.
#include "lab.hpp"

void harness_init() {}
void harness_done() {}

static std::string alternating(Rng& r, Gen& g)
{
    auto loc = [&] { return g.location(); };
    auto val = [&] { return r.chance(50) ? std::to_string(r.range(2, 99)) : r.chance(50) ? "n*10" : g.expr(r.range(0, 1)); };
    static const char* tests[] = {"==", "<", ">", "!=", ">=", "<="};
    int k = r.range(2, 9);
    std::string step = r.chance(70) ? "(n+=1)" : "(n=n+1)";
    std::string cond = r.chance(25) ? step + "%" + std::to_string(r.range(2, 3)) : step + tests[r.range(0, 5)] + std::to_string(r.range(1, k));
    std::string x = r.chance(50) ? loc() : val();
    std::string y = r.chance(50) ? val() : loc();
    std::string z = r.chance(50) ? val() : loc();
    std::string second = r.chance(40) ? "(n==" + std::to_string(r.range(1, k)) + "?" + y + ":" + z + ")" : y;
    std::string body;
    switch (r.range(0, 3))
    {
        case 0: body = "(" + cond + ")?" + x + ":" + second; break;
        case 1: body = "if(" + cond + "," + x + "," + second + ")"; break;
        case 2: body = "exec2(" + loc() + ",if(" + cond + "," + x + "," + second + "))"; break;
        default: body = "exec3(" + cond + "," + val() + ",if(n==" + std::to_string(r.range(1, k)) + "," + x + "," + second + "))"; break;
    }
    std::string whole;
    switch (r.range(0, 3))
    {
        case 0: whole = "while(exec2(" + body + ",n<" + std::to_string(k) + "))"; break;
        case 1: whole = "while(n<" + std::to_string(k) + "&&1?(" + body + "):(n+=1)*0)"; break;
        default: whole = "loop(" + std::to_string(k) + "," + body + ")"; break;
    }
    static const char* ops[] = {"=", "+=", "-=", "*="};
    std::string outer = r.chance(60) ? "(" + whole + ")" + ops[r.range(0, 3)] + val() : r.chance(50) ? "e=" + whole : whole + ";n";
    return "n=0;" + outer;
}

// Programs aimed at particular reference chains, with % replaced by random parts.
static std::string directed(Rng& r, Gen& g)
{
    auto loc = [&] { return g.location(); };
    auto val = [&] { return g.expr(r.range(0, 2)); };
    std::string v = r.pick(g.o.vars), w = r.pick(g.o.vars);
    switch (r.range(0, 31))
    {
        case 0: return "if(" + val() + "," + loc() + "," + loc() + ")=" + val();
        case 1: return "(" + val() + "?" + loc() + ":" + loc() + ")" + r.pick(std::vector<std::string>{"=", "+=", "*="}) + val();
        case 2: return "exec2(" + loc() + "," + loc() + ")=" + val();
        case 3: return "exec3(" + loc() + "," + loc() + "," + loc() + ")=" + val();
        case 4: return "loop(" + std::to_string(r.range(-1, 3)) + "," + loc() + ")=" + val();
        case 5: return "loop(" + v + "," + w + ")=" + val();
        case 6: return "(" + v + "=" + w + ")" + "=" + val();
        case 7: return v + "=" + w + "=" + loc() + "=" + val();
        case 8: return "(" + val() + ";" + loc() + ")=" + val();
        case 9: return val() + "=" + val();
        case 10: return g.literal() + "=" + val() + ";" + g.literal();
        case 11: return "megabuf(-1)=" + val() + ";megabuf(8388608)=" + val() + ";gmegabuf(-5)=" + val() + ";gmegabuf(9000000)=" + val();
        case 12: return v + "+=" + v + "+=" + val();
        case 13: return "exec2(" + v + "=" + val() + "," + w + ")+=" + v;
        case 14: return "(" + v + "=" + r.pick(g.o.idx) + ")[]=" + val() + ";megabuf(" + v + ")+=1";
        case 15: return "while(" + v + "=min(" + v + ",3)-1;" + v + ">0?" + w + ":0)=" + val();
        case 16: return "(while(" + v + "=0))=" + val();
        case 17: return "assign(if(" + val() + "," + loc() + "," + g.literal() + ")," + val() + ")";
        case 18: return v + "=if(" + val() + "," + w + "," + v + ")=" + val() + ";" + w;
        case 19: return "(exec3(" + val() + "," + v + "=" + val() + "," + w + ")-=" + val() + ")*=" + val();
        case 20: return "sqr(" + v + "=" + val() + ");abs(" + w + ");min(" + v + "," + w + ")=" + val() + ";-" + v + "=" + val();
        // Iterations which alternate between references and values.
        case 21:
        case 22:
        case 23:
        case 24:
        case 25:
        case 26: return alternating(r, g);
        // What isn't a location isn't changed, whatever the values are.
        case 27:
        case 28:
        case 29: {
            static const char* ops[] = {"=", "+=", "-=", "*=", "/=", "|=", "&=", "%="};
            static const char* ones[] = {"sign(%)", "abs(%)", "floor(%)", "int(%)", "ceil(%)", "sqr(%)", "sqrt(%)", "_neg(%)", "_not(%)", "bnot(%)", "sin(%)", "exp(%)", "(-%)", "(!%)", "(!!%)", "(--%)",
                                         "(%+0)", "(0+%)", "(%-0)", "(%*1)", "(1*%)", "(%/1)", "(%^1)", "(%|0)", "(%&%)", "(%|%)", "min(%,%)", "max(%,%)", "min(%,9999)", "max(%,-9999)", "(%%9999)",
                                         "(%&&1)", "(%||0)", "(%==1)", "band(%,%)", "bor(%,%)", "pow(%,1)", "(%%1)", "equal(%,%)"};
            std::string form = r.pick(ones), at = loc(), s;
            for (size_t i = 0; i < form.size(); ++i)
            {
                // (a percent sign before a digit is the operator)
                s += form[i] == '%' && !(i + 1 < form.size() && isdigit((unsigned char) form[i + 1])) ? at : std::string(1, form[i]);
            }
            static const char* values[] = {"0", "1", "-1", "2", "0.5", "65536", "-0.25"};
            return (r.chance(80) ? at + "=" + r.pick(values) + ";" : "") + s + r.pick(ops) + val();
        }
        default: return "memset(" + r.pick(g.o.idx) + "," + val() + "," + std::to_string(r.range(0, 5)) + ")=" + val();
    }
}

void harness_case()
{
    Rng& r = R.rng;
    GenOpt o;
    o.vars = {"a", "b", "c", "d"};
    o.regs = true;
    o.loops = true;
    o.lists = true;
    o.blockops = true;
    o.freembuf = true;
    o.odd_percent = 15;
    o.idx = {"0", "1", "2", "65535", "65536", "8388607"};
    o.max_depth = r.chance(30) ? 5 : 3;
    Gen g(r, o);
    std::string src;
    if (r.chance(60))
    {
        int n = r.range(1, 3);
        for (int i = 0; i < n; ++i)
        {
            src += (i ? ";" : "") + directed(r, g);
        }
    }
    else
    {
        src = g.program(1, 4);
    }
    ++R.evaluations;
    R.note("");
    auto p = parse(src);
    if (!p->ok)
    {
        R.fail("harness:generator", "invalid program generated: " + src);
        return;
    }
    Lab lab;
    for (int i = 0; i < 100; ++i)
    {
        lab.regs_real[i] = lab.regs_model[i] = (F) (1000 + i);
    }
    int k = 0;
    for (const char* v : {"a", "b", "c", "d", "bystander", "e", "ab", "a_", "reg100", "reg1", "__z"})
    {
        lab.set(v, r.chance(50) ? (F) r.range(0, 3) : (F) (r.range(1, 40) * 0.25 + 100 * k));
        ++k;
    }
    if (lab.check("C05:setup", "megabuf(0)=3;megabuf(1)=1;megabuf(2)=50;megabuf(3)=60;megabuf(65535)=70;megabuf(65536)=80;megabuf(8388607)=90;"
                               "gmegabuf(0)=11;gmegabuf(1)=2;gmegabuf(65535)=71;gmegabuf(65536)=81;gmegabuf(8388607)=91", nullptr, 1e-9, false) != Lab::MATCH)
    {
        return;
    }
    // Executed twice: references kept from one execution must not leak into the next.
    Code kept;
    if (r.chance(60))
    {
        lab.handle = &kept;
        R.count("programs_executed_again");
    }
    for (int run = 0; run < 2; ++run)
    {
        Env e;
        Lab::Result res = lab.check("C05", src, *p, &e);
        if (res != Lab::MATCH)
        {
            return;
        }
        R.count("reference_writes", e.ref_writes);
        R.count("discarded_writes", e.value_writes);
        R.count("out_of_range_accesses", e.oob);
        if (e.ref_writes + e.value_writes)
        {
            R.distinct(hash_str(src));
            R.sample(src);
        }
    }
}

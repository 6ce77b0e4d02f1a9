// Hostile source texts and values, shared by several harnesses.
#pragma once

#include "gen.hpp"

static std::vector<std::string> corpus; // texts to mutate
static const char* const seeds[] = {
    "x=1;y=2;x+y",
    "loop(5,x+=1);while(x-=1)",
    "megabuf(0)=1;gmem[1]=megabuf(0);1[2]=3;gmem[]=2",
    "memset(0,1,100);memcpy(10,0,100);freembuf(0)",
    "a=b?c:d;a==b&&c||!d;a|b&c;a%b;a^b",
    "if(a,b,c);exec2(a,b);exec3(a,b,c);_if(1,2,3)",
    "a+=1;a-=1;a*=2;a/=3;a%=4;a|=5;a&=6;a^=7",
    "sin(cos(tan(asin(acos(atan(atan2(1,2)))))))",
    "sqr(2)+sqrt(2)+pow(2,3)+exp(1)+log(2)+log10(2)+abs(-1)+min(1,2)+max(1,2)+sign(-1)+rand(10)+floor(1.5)+int(2.5)+ceil(1.2)+invsqrt(2)+sigmoid(1,2)",
    "band(1,2)+bor(1,0)+bnot(1)+equal(1,1)+above(1,2)+below(1,2)",
    "_and(a,b)+_or(a,b)+_not(a)+_equal(a,b)+_noteq(a,b)+_below(a,b)+_above(a,b)+_beleq(a,b)+_aboeq(a,b)",
    "_set(a,1);assign(a,2);_add(1,2);_sub(1,2);_mul(1,2);_div(1,2);_mod(5,3);_neg(2)",
    "_mulop(a,2);_divop(a,2);_orop(a,2);_andop(a,2);_addop(a,2);_subop(a,2);_modop(a,2);_powop(a,2)",
    "$xFF+$'a'+$PI+$E+$PHI+1.5+.5+5.",
    "/* comment\n more */ a=1; // line\n b=2;\\\n c",
    "reg00=1;reg99=reg00;reg50+=1",
    "x = if(above(rand(10),5), (y=1;2), 3); a[b=1]; (a;b;c)=5",
    "a = ; b",
    "sin(1,2)",
    "((((((((((1))))))))))",
    "while(megabuf(x)=x;x=x+1;x<100)",
    "loop(0-1,a);loop(1048577,b+=1);while(0)",
    "-!+-!a;1--1;a?b?c:d:e?f:g",
    "memcpy(memset(a,b,c),gmem[a],if(b,c,d))",
    "loop(100,freembuf(i);megabuf(i)=i;i+=65536);megabuf(65536)"};

static const char* const extreme[] = {"0", "1", "2", "0.5", "-1", "1e308*10", "-1e308*10", "0/0", "(0-1)", "2147483647", "2147483648", "(0-2147483648)", "(0-2147483649)", "4294967295", "4294967296",
                                      "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "9007199254740993", "1000000000000000000000000000000", "8388607", "8388608", "8388607.9999",
                                      "8388607.99999", "8388606", "65535", "65536", "65535.9999", "0.9999", "0.99991", "(0-0.9999)", "(0-1.0001)", "(0-0.00001)", "(0-0)", "0.0000000001", "$xFFFFFFFF", "$x7FFFFFFF", "$xFFFFFFFFFFFFFFFF",
                                      "$x7FFFFFFFFFFFFFFF", "$x8000000000000000", "$x1FFFFFFFFFFFFFFFF", "1048576", "1048577", "sqrt(0-1)", "log(0)", "exp(1000)", "pow(0,0-1)", "1/0", "0-1/0", "invsqrt(0)", "invsqrt(0-1)", "exp(0-745)",
                                      ".00000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000001", "$PI", "99999999999999999999999999999999999999999999999999"};

static const char* const soup[] = {"=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "?", ":", "||", "&&", "|", "&", "==", "!=", ">", ">=", "<", "<=", "+", "-", "*", "/", "%", "!", "^", "[", "]", "(", ")", "(", ")", ",", ";", ";", "a", "b",
                                   "c", "x1", "reg00", "reg99", "1", "2.5", ".5", "5.", "0", "gmem", "gmem[", "sin(", "if(", "loop(", "while(", "exec3(", "exec2(", "memset(", "memcpy(", "freembuf(", "megabuf(", "gmegabuf(", "rand(", "$PI", "$xFF",
                                   "$'x'", "$", "$x", "$'", "'", "\"", "#", "@", "\\", "~", "`", "{", "}", "\n", "\r\n", "\t", " ", "/*", "*/", "//", "/* x */", "// y\n", "\x01", "\x7f", "\x80", "\xff", "\xc3\xa9", "..", "1.2.3", "1e5", "0x10", "a.b",
                                   "_", "__", "$PHI", "$E", "assign(", "_set(", "_mulop(", "min(", "max(", "band(", "1)", "2)", "a)", "b)"};

inline std::string soup_text(Rng& r)
{
    std::string s;
    int n = r.range(1, r.chance(10) ? 300 : 40);
    for (int i = 0; i < n; ++i)
    {
        s += r.pick(soup);
        if (r.chance(30))
        {
            s += ' ';
        }
    }
    return s;
}

inline std::string bytes(Rng& r)
{
    std::string s;
    int n = r.range(0, r.chance(10) ? 3000 : 60);
    int style = r.range(0, 2);
    for (int i = 0; i < n; ++i)
    {
        s += style == 0 ? (char) r.range(1, 255) : style == 1 ? (char) r.range(32, 126) : r.pick(std::vector<char>{'(', ')', '$', '\'', '/', '*', '\n', 'a', '1', '.', ';', '=', 'x', '|', '&'});
    }
    return s;
}

inline std::string mutate(Rng& r, std::string s)
{
    for (int n = r.range(1, 4); n > 0; --n)
    {
        size_t p = s.empty() ? 0 : r.below((uint32_t) s.size());
        size_t len = s.empty() ? 0 : 1 + r.below((uint32_t) std::min<size_t>(s.size() - p, 12));
        switch (r.range(0, 8))
        {
            case 0: s.insert(p, r.pick(soup)); break;
            case 1: s.erase(p, len); break;
            case 2: s.insert(p, s.substr(p, len)); break;
            case 3:
                if (!s.empty())
                {
                    s[p] = (char) r.range(1, 255);
                }
                break;
            case 4: s.insert(p, r.pick(extreme)); break;
            case 5:
                if (!s.empty())
                {
                    s.replace(p, len, r.pick(extreme));
                }
                break;
            case 6: {
                const std::string& o = r.pick(corpus);
                size_t q = o.empty() ? 0 : r.below((uint32_t) o.size());
                s = s.substr(0, p) + o.substr(q);
                break;
            }
            case 7: s += ";" + r.pick(corpus); break;
            default: s = s.substr(0, p); break;
        }
        if (s.size() > 6000)
        {
            s.resize(6000);
        }
    }
    for (auto& c : s)
    {
        if (!c)
        {
            c = ' ';
        }
    }
    return s;
}

inline std::string valid(Rng& r)
{
    GenOpt o;
    o.regs = o.loops = o.lists = o.blockops = o.freembuf = o.rand = true;
    o.fns1 = {"abs", "sign", "floor", "ceil", "int", "sqr", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "invsqrt", "rand", "bnot", "_not", "_neg", "megabuf", "gmegabuf", "freembuf", "_mem", "_gmem"};
    o.fns2 = {"min", "max", "above", "below", "equal", "band", "bor", "_add", "_sub", "_mul", "_div", "_mod", "_equal", "_noteq", "_above", "_below", "_aboeq", "_beleq", "sigmoid", "pow", "atan2", "_and", "_or"};
    o.afns = {"assign", "_set", "_addop", "_subop", "_mulop", "_divop", "_modop", "_orop", "_andop", "_powop"};
    o.max_depth = r.range(1, 5);
    o.nums.clear();
    for (int i = 0; i < 10; ++i)
    {
        o.nums.push_back(r.pick(extreme));
    }
    o.idx = {r.pick(extreme), r.pick(extreme), "0", "65535", r.pick(extreme), "x"};
    Gen g(r, o);
    return g.program(1, 5);
}

// Structures with a specific shape: scripts that change the memory their own references point into, extreme sizes.
inline std::string shaped(Rng& r)
{
    auto e = [&] { return std::string(r.chance(25) ? "a" : r.pick(extreme)); };
    switch (r.range(0, 13))
    {
        case 0: return "megabuf(" + e() + ")=exec2(freembuf(" + e() + ")," + e() + ")";
        case 1: return "(a=megabuf(" + e() + "));loop(3,freembuf(0);megabuf(65536)+=1);exec3(megabuf(" + e() + "),freembuf(" + e() + "),megabuf(" + e() + ")+=1)";
        case 2: return "memset(" + e() + "," + e() + "," + e() + ")";
        case 3: return "memcpy(" + e() + "," + e() + "," + e() + ")";
        case 4: return "megabuf(" + e() + ")=memcpy(" + e() + "," + e() + "," + e() + ")";
        case 5: return e() + "%" + e() + ";a=" + e() + ";a%=" + e() + ";b=" + e() + ";b|=" + e() + ";b&=" + e() + ";" + e() + "|" + e() + ";" + e() + "&" + e();
        case 6: return "loop(" + e() + ",a+=1);while(a-=1;" + e() + ")";
        case 7: {
            std::string s, t;
            int n = r.range(1, 400);
            const char* open = r.pick(std::vector<const char*>{"(", "sin(", "-", "!", "1+(", "a=(", "1?(", "if(1,2,", "megabuf(", "a[", "1;("});
            for (int i = 0; i < n; ++i)
            {
                s += open;
            }
            s += r.pick(soup);
            if (strchr(open, '(') || strchr(open, '['))
            {
                for (int i = r.chance(70) ? n : r.range(0, n + 1); i > 0; --i)
                {
                    s += strchr(open, '[') ? "]" : ")";
                }
            }
            return s;
        }
        case 8: return std::string((size_t) r.range(1, 4000), r.pick(std::vector<char>{'a', '1', '(', ')', ';', '-', '+', '.', '$', '/', '\n', 'A', '_', '\x80'}));
        case 9: return "$x" + std::string((size_t) r.range(0, 60), 'F') + "+" + std::string((size_t) r.range(0, 400), '9') + "." + std::string((size_t) r.range(0, 400), '9');
        case 10: return "/*" + bytes(r) + (r.chance(70) ? "*/" : "") + "a";
        case 11: {
            std::string s = "a";
            for (int i = r.range(1, 500); i > 0; --i)
            {
                s += r.pick(std::vector<const char*>{"+1", "-a", "*a", "==b", "=c", "?1:a", ";a", "^a", "&&a", "||a", "|a"});
            }
            return s;
        }
        case 12: return "gmem[" + e() + "]=" + e() + "[" + e() + "]=" + e() + ";gmem[]=" + e() + ";" + e() + "[]+=" + e();
        default: return std::string(r.pick(std::vector<const char*>{"floor", "ceil", "int", "sqr", "sqrt", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "log", "log10", "invsqrt", "rand", "bnot", "sign", "abs"})) + "(" + e() + ")" +
                        r.pick(std::vector<const char*>{"+", "*", "%", "|", "&", "^", "=="}) + r.pick(std::vector<const char*>{"pow", "atan2", "min", "max", "sigmoid", "band", "bor", "above", "equal"}) + "(" + e() + "," + e() + ")";
    }
}

inline F extreme_value(Rng& r)
{
    switch (r.range(0, 14))
    {
        case 0: return (F) NAN;
        case 1: return (F) INFINITY;
        case 2: return (F) -INFINITY;
        case 3: return sizeof(F) == 4 ? (F) FLT_MAX : (F) DBL_MAX;
        case 4: return sizeof(F) == 4 ? (F) 1e-45 : (F) 4.9e-324;
        case 5: return (F) -2147483648.0;
        case 6: return (F) 2147483648.0;
        case 7: return (F) 9223372036854775808.0;
        case 8: return (F) -9223372036854775808.0;
        case 9: return (F) 8388607.9999;
        case 10: return (F) -0.0;
        case 11: return (F) ((r.unit() - 0.5) * std::pow(10.0, r.range(-30, 30)));
        case 12: return (F) r.range(-3, 70000);
        case 13: return (F) 1e19;
        default: return (F) r.unit();
    }
}

inline std::string any_text(Rng& r)
{
    if (corpus.empty())
    {
        corpus.assign(std::begin(seeds), std::end(seeds));
    }
    switch (r.range(0, 9))
    {
        case 0: return soup_text(r);
        case 1: return bytes(r);
        case 2:
        case 3:
        case 4: return mutate(r, r.pick(corpus));
        case 5:
        case 6: return shaped(r);
        case 7: return mutate(r, valid(r));
        default: return valid(r);
    }
}

// Random program text. Programs are produced as token strings; their meaning is given by the reference parser.
#pragma once
#include <algorithm>

#include "model.hpp"

// A name which is similar to another one, but not the same.
inline std::string near_name(Rng& r, const std::string& of)
{
    static const char other[] = "abcdefghijklmnopqrstuvwxyz_0123456789";
    std::string n = of.empty() ? "x" : of;
    char x = other[r.below(37)];
    size_t at = 1 + r.below((uint32_t) n.size()), second = r.below((uint32_t) n.size());
    switch (r.range(0, 13))
    {
        case 0: n += x; break;
        case 1: n += n.size() < 400 ? n : "_"; break;
        case 2: n = n.size() > 1 ? n.substr(0, n.size() - 1) : n + "0"; break;
        case 3: n.insert(at, 1, x); break;
        case 4: n[n.size() - 1] = n.size() > 1 ? x : 'z'; break;
        case 5: std::swap(n[at - 1], n[n.size() - 1]); break;
        case 6: n = std::string(1, "abcxyz_"[r.below(7)]) + n; break;
        case 7: n = n.substr(0, at) + std::string((size_t) r.range(1, 60), x); break;
        case 8: std::swap(n[at - 1], n[second]); break; // same characters, other order
        case 9: std::reverse(n.begin(), n.end()); break;
        case 10: // same sum of characters
            if (at - 1 != second && isalnum((unsigned char) n[at - 1]) && isalnum((unsigned char) n[second]))
            {
                ++n[at - 1];
                --n[second];
            }
            break;
        case 11: std::rotate(n.begin(), n.begin() + (long) at - 1, n.end()); break;
        case 12: n[at - 1] = x; break;
        default: n.insert(at - 1, 1, n[at - 1]); break; // a doubled character
    }
    for (char& ch : n)
    {
        if (!isalnum((unsigned char) ch) && ch != '_')
        {
            ch = '_';
        }
    }
    if (isdigit((unsigned char) n[0]))
    {
        n[0] = 'q';
    }
    return n;
}

struct GenOpt
{
    std::vector<std::string> vars = {"a", "b", "c", "x"};
    std::vector<std::string> nums = {"0", "1", "2", "3", "5", "7", "0.5", "1.25", "10", "100"};
    std::vector<std::string> idx = {"0", "1", "2", "3"};   // memory indices
    bool mem = true, gmem = true, regs = false, assign = true, prefix = true, binary = true, ternary = true,
         funcs = true, loops = false, parens = true, lists = false, blockops = false, logic = true, bits = true,
         freembuf = false, rand = false;
    int trace_percent = 0;      // probability of a trace expression as leaf
    int trace_counter = 1;
    int const_percent = 40;     // literal vs. location leaves
    int odd_percent = 0;        // literals of any magnitude instead of those from the list
    int max_depth = 4;
    std::vector<std::string> fns1 = {"abs", "sign", "floor", "ceil", "int", "sqr", "sin", "cos", "atan", "bnot", "_not", "_neg"};
    std::vector<std::string> fns2 = {"min", "max", "above", "below", "equal", "band", "bor", "_add", "_sub", "_mul", "_div",
                                     "_equal", "_noteq", "_above", "_below", "_aboeq", "_beleq", "sigmoid"};
    std::vector<std::string> afns = {"assign", "_set", "_addop", "_subop", "_mulop", "_divop"};
};

struct Gen
{
    Rng& r;
    GenOpt o;
    Gen(Rng& rr, const GenOpt& oo)
        : r(rr)
        , o(oo)
    {
    }

    std::string literal()
    {
        if (!o.odd_percent || !r.chance(o.odd_percent))
        {
            return r.pick(o.nums);
        }
        switch (r.range(0, 5))
        {
            case 0: return std::to_string(r.range(11, 999));
            case 1: return std::to_string(r.range(1000, 99999));
            case 2: return std::to_string(r.range(100000, 2000000000));
            case 3: return std::to_string(r.range(0, 3000)) + "." + std::to_string(r.range(0, 9999));
            case 4: return std::to_string((1ll << r.range(4, 52)) + r.range(-1, 1));
            default: return "0." + std::string((size_t) r.range(0, 5), '0') + std::to_string(r.range(1, 99));
        }
    }

    std::string trace() { return "(tr=(tr*7+" + std::to_string(o.trace_counter++) + ")%100003)"; }

    // An index, now and then one with a side effect.
    std::string index()
    {
        std::string i = r.pick(o.idx);
        if (!o.assign || !r.chance(6))
        {
            return i;
        }
        std::string set = r.pick(o.vars) + "=" + std::to_string(r.range(0, 3));
        return r.chance(50) ? "(" + set + ";" + i + ")" : "exec2(" + set + "," + i + ")";
    }

    std::string location()
    {
        int k = r.range(0, 9);
        if (o.mem && k == 0)
        {
            switch (r.range(0, 3))
            {
                case 0: return "megabuf(" + index() + ")";
                case 1: return "_mem(" + index() + ")";
                case 2: return r.pick(o.idx) + "[]";
                default: return r.pick(o.idx) + "[" + index() + "]";
            }
        }
        if (o.gmem && k == 1)
        {
            switch (r.range(0, 3))
            {
                case 0: return "gmegabuf(" + index() + ")";
                case 1: return "gmem[]";
                case 2: return "_gmem(" + index() + ")";
                default: return "gmem[" + index() + "]";
            }
        }
        if (o.regs && k == 2)
        {
            return fmt("reg%02d", r.range(0, 4));
        }
        return r.pick(o.vars);
    }

    std::string leaf()
    {
        if (o.trace_percent && r.chance(o.trace_percent))
        {
            return trace();
        }
        return r.chance(o.const_percent) ? literal() : location();
    }

    // A reference-valued expression (target of an assignment).
    std::string target(int d)
    {
        if (d <= 0)
        {
            return location();
        }
        switch (r.range(0, 11))
        {
            case 0: return "if(" + expr(d - 1) + "," + target(d - 1) + "," + target(d - 1) + ")";
            case 1: return "(" + expr(d - 1) + "?" + target(d - 1) + ":" + target(d - 1) + ")";
            case 2: return "exec2(" + expr(d - 1) + "," + target(d - 1) + ")";
            case 3: return "exec3(" + expr(d - 1) + "," + expr(d - 1) + "," + target(d - 1) + ")";
            case 4: return "(" + location() + "=" + expr(d - 1) + ")";
            case 5: return "(" + expr(d - 1) + ";" + target(d - 1) + ")";
            case 6: return "assign(" + target(d - 1) + "," + expr(d - 1) + ")";
            case 7: return o.mem ? "megabuf(" + expr(d - 1) + ")" : location();
            case 8: return o.loops ? "loop(" + std::to_string(r.range(0, 3)) + "," + target(d - 1) + ")" : location();
            case 9: return r.chance(30) ? literal() : location();
            default: return location();
        }
    }

    std::string args(const std::vector<std::string>& a)
    {
        std::string s;
        for (size_t i = 0; i < a.size(); ++i)
        {
            s += (i ? "," : "") + a[i];
        }
        return "(" + s + ")";
    }

    std::string list(int d)
    {
        int n = r.range(2, 4);
        std::string s;
        for (int i = 0; i < n; ++i)
        {
            s += (i ? ";" : "") + expr(d);
        }
        return s;
    }

    // Argument position: may hold a list.
    std::string argx(int d)
    {
        if (o.lists && d > 0 && r.chance(15))
        {
            return list(d - 1);
        }
        return expr(d);
    }

    std::string expr(int d)
    {
        if (d <= 0)
        {
            return leaf();
        }
        for (;;)
        {
            switch (r.range(0, 15))
            {
                case 0: return leaf();
                case 1:
                case 2:
                case 3:
                case 4: {
                    if (!o.binary)
                    {
                        break;
                    }
                    std::vector<std::string> ops = {"+", "-", "*", "/", "%", "^"};
                    if (o.logic)
                    {
                        for (const char* x : {"==", "!=", "<", ">", "<=", ">=", "&&", "||"})
                        {
                            ops.push_back(x);
                        }
                    }
                    if (o.bits)
                    {
                        ops.push_back("|");
                        ops.push_back("&");
                    }
                    return expr(d - 1) + r.pick(ops) + expr(d - 1);
                }
                case 5: {
                    if (!o.prefix)
                    {
                        break;
                    }
                    static const char* const pre[] = {"-", "!", "+", "- ", "!"};
                    return std::string(r.pick(pre)) + expr(d - 1);
                }
                case 6:
                    if (!o.ternary)
                    {
                        break;
                    }
                    return expr(d - 1) + "?" + expr(d - 1) + ":" + expr(d - 1);
                case 7:
                case 8: {
                    if (!o.assign)
                    {
                        break;
                    }
                    static const char* const ao[] = {"=", "=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^="};
                    size_t n = o.bits ? 10 : 6;
                    return target(d - 1) + ao[r.below((uint32_t) n)] + expr(d - 1);
                }
                case 9:
                    if (!o.funcs)
                    {
                        break;
                    }
                    return r.pick(o.fns1) + args({argx(d - 1)});
                case 10:
                    if (!o.funcs)
                    {
                        break;
                    }
                    return r.pick(o.fns2) + args({argx(d - 1), argx(d - 1)});
                case 11:
                    if (!o.funcs)
                    {
                        break;
                    }
                    switch (r.range(0, 5))
                    {
                        case 0: return "if" + args({argx(d - 1), argx(d - 1), argx(d - 1)});
                        case 1: return "_if" + args({argx(d - 1), argx(d - 1), argx(d - 1)});
                        case 2: return "exec2" + args({argx(d - 1), argx(d - 1)});
                        case 3: return "exec3" + args({argx(d - 1), argx(d - 1), argx(d - 1)});
                        case 4: return "_and" + args({argx(d - 1), argx(d - 1)});
                        default: return "_or" + args({argx(d - 1), argx(d - 1)});
                    }
                case 12:
                    if (!o.assign || !o.funcs)
                    {
                        break;
                    }
                    return r.pick(o.afns) + args({target(d - 1), argx(d - 1)});
                case 13:
                    if (o.loops && r.chance(50))
                    {
                        if (r.chance(60))
                        {
                            return "loop" + args({r.chance(60) ? std::to_string(r.range(0, 4)) : expr(d - 2), argx(d - 1)});
                        }
                        // bounded while
                        std::string v = r.pick(o.vars);
                        return "while(" + argx(d - 2) + ";" + v + "=min(" + v + ",4)-1;" + v + ">0)";
                    }
                    if (o.blockops && r.chance(50))
                    {
                        if (r.chance(50))
                        {
                            return "memset" + args({r.chance(70) ? r.pick(o.idx) : expr(d - 1), expr(d - 1), std::to_string(r.range(-1, 6))});
                        }
                        return "memcpy" + args({r.chance(70) ? r.pick(o.idx) : expr(d - 1), r.pick(o.idx), std::to_string(r.range(-1, 6))});
                    }
                    if (o.freembuf && r.chance(30))
                    {
                        return "freembuf(" + expr(d - 1) + ")";
                    }
                    break;
                case 14:
                    if (!o.parens)
                    {
                        break;
                    }
                    return "(" + (o.lists && r.chance(40) ? list(d - 1) : expr(d - 1)) + ")";
                case 15:
                    if (!o.mem)
                    {
                        break;
                    }
                    if (r.chance(50))
                    {
                        return expr(d - 1) + "[" + (r.chance(30) ? std::string() : expr(d - 1)) + "]";
                    }
                    if (o.gmem)
                    {
                        return "gmem[" + expr(d - 1) + "]";
                    }
                    break;
            }
        }
    }

    std::string program(int min_instr, int max_instr)
    {
        int n = r.range(min_instr, max_instr);
        std::string s;
        for (int i = 0; i < n; ++i)
        {
            s += (i ? ";" : "") + expr(r.range(1, o.max_depth));
        }
        return s;
    }
};

// Re-renders a token sequence with arbitrary layout. Keeps the token texts (unless change_case is set).
struct Layout
{
    Rng& r;
    bool comments = true, change_case = true, newlines = true;
    explicit Layout(Rng& rr)
        : r(rr)
    {
    }
    std::string swap_case(const std::string& s)
    {
        std::string t = s;
        int mode = r.range(0, 3);
        for (auto& c : t)
        {
            bool up = mode == 0 ? true : mode == 1 ? false : r.chance(50);
            if (up && c >= 'a' && c <= 'z')
            {
                c = (char) (c - 32);
            }
            else if (!up && c >= 'A' && c <= 'Z')
            {
                c = (char) (c + 32);
            }
        }
        return t;
    }
    std::string gap(bool required)
    {
        std::string s;
        int n = required ? r.range(1, 2) : (r.chance(60) ? 0 : r.range(1, 3));
        for (int i = 0; i < n; ++i)
        {
            int k = r.range(0, comments ? 9 : 5);
            switch (k)
            {
                case 0:
                case 1:
                case 2: s += ' '; break;
                case 3: s += '\t'; break;
                case 4: s += newlines ? (r.chance(30) ? "\r\n" : "\n") : " "; break;
                case 5: s += r.chance(50) ? "\v" : "\f"; break;
                case 6:
                case 7: s += "/*" + junk(true) + "*/"; break;
                case 8: s += newlines ? "//" + junk(false) + "\n" : " "; break;
                default: s += "  "; break;
            }
        }
        return s;
    }
    std::string junk(bool multi)
    {
        static const char* const parts[] = {"x=1;", " ", "*", "/", "//", "/", "a(", ")", "\"", "'", "$", "text", "\t", "é", "123", "**", "/*", "#", "\\", "@", ";;", "%d%s%n", "\x01", "\xff", "\r", "\f", "\v", "\rx=1;", "a=5;b=a;", ")", "\\ "};
        std::string s;
        int n = r.range(0, 6);
        for (int i = 0; i < n; ++i)
        {
            if (r.chance(12))
            {
                s += (char) r.range(1, 255);
                continue;
            }
            s += r.pick(parts);
            if (multi && newlines && r.chance(20))
            {
                s += '\n';
            }
        }
        if (multi)
        {
            size_t p;
            while ((p = s.find("*/")) != std::string::npos)
            {
                s.erase(p, 1);
            }
            while (!s.empty() && s.back() == '*' && r.chance(50))
            {
                s.pop_back();
            }
        }
        else
        {
            for (auto& c : s)
            {
                if (c == '\n')
                {
                    c = ' ';
                }
            }
        }
        return s;
    }
    static bool joinable(const std::string& a, const std::string& b)
    {
        auto v = lex(a + b);
        return v.size() == 3 && v[0].text == a && v[1].text == b;
    }
    std::string text(const std::vector<Token>& toks)
    {
        std::vector<std::string> t;
        for (auto& k : toks)
        {
            if (k.t == T_EOF)
            {
                continue;
            }
            bool quoted = k.text.size() > 1 && k.text[0] == '$' && k.text[1] == '\'';
            t.push_back(change_case && !quoted ? swap_case(k.text) : k.text);
        }
        for (int attempt = 0; attempt < 2; ++attempt)
        {
            std::string s = gap(false);
            for (size_t i = 0; i < t.size(); ++i)
            {
                s += t[i];
                if (i + 1 < t.size())
                {
                    s += gap(attempt == 1 || !joinable(t[i], t[i + 1]));
                }
            }
            s += gap(false);
            auto v = lex(s);
            bool same = v.size() == t.size() + 1;
            for (size_t i = 0; same && i < t.size(); ++i)
            {
                same = v[i].text == t[i];
            }
            if (same)
            {
                return s;
            }
        }
        return "";
    }
};

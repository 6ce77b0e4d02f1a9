// C12: which texts compile, what error is reported where, and when it is cleared. Decided against the model's parser,
// over sequences of compilations in one context.
#include "lab.hpp"

static std::set<std::string> seen;
void harness_init() {}
void harness_done() { R.counters["set_offending_token_situations"] = seen.size(); }

static const char* const SOUP[] = {"1", "2.5", "a", "bb", "reg01", "gmem", "sin", "if", "loop", "exec3", "rand", "=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "?", ":",
                                   "||", "&&", "|", "&", "==", "!=", ">", ">=", "<", "<=", "+", "-", "*", "/", "%", "!", "^", "[", "]", "(", ")", ",", ";", "(", ")", "(", ")",
                                   "$", "$PI", "$x1F", "$'a'", "$'", "'", "\"", "#", "@", ".", "~", "`", "\\", "{", "}", "\x7f", "\x01", "\xc3\xa9", "\xff", "/*c*/", "//c\n", "\n", "\r\n", "\n\n", "\t", "()",
                                   "/*", "*/", "//", "$q", "_", "1e", "1e+", "..", "$x", "$xg"};

static std::string soup(Rng& r)
{
    std::string s;
    int n = r.range(1, r.chance(30) ? 25 : 8);
    for (int i = 0; i < n; ++i)
    {
        s += r.pick(SOUP);
        if (r.chance(60))
        {
            s += " ";
        }
    }
    return s;
}

static std::string bytes(Rng& r)
{
    std::string s;
    int n = r.range(1, 30);
    for (int i = 0; i < n; ++i)
    {
        s += (char) (r.chance(85) ? r.range(9, 126) : r.range(1, 255));
    }
    return s;
}

static std::string mutate(const std::string& src, Rng& r)
{
    auto toks = lex(src);
    for (int k = r.range(1, 3); k > 0 && toks.size() > 1; --k)
    {
        size_t i = r.below((uint32_t) toks.size() - 1);
        switch (r.range(0, 5))
        {
            case 0: toks.erase(toks.begin() + (long) i); break;
            case 1: toks.insert(toks.begin() + (long) i, toks[r.below((uint32_t) toks.size() - 1)]); break;
            case 2: std::swap(toks[i], toks[r.below((uint32_t) toks.size() - 1)]); break;
            case 3: {
                Token t;
                t.t = T_VAR;
                t.text = r.pick(SOUP);
                toks.insert(toks.begin() + (long) i, t);
                break;
            }
            case 4: toks[i].text = r.pick(SOUP); break;
            default: toks.resize(i + 1); toks.push_back(Token());
        }
    }
    std::string s;
    Layout l(r);
    l.change_case = false;
    for (auto& t : toks)
    {
        if (t.t != T_EOF)
        {
            s += t.text + l.gap(true);
        }
    }
    return s;
}

static std::string bad_argcount(Rng& r, Gen& g)
{
    const FnInfo& f = r.pick(fn_table);
    int n = f.argc;
    while (n == f.argc)
    {
        n = r.chance(80) ? r.range(1, 5) : r.chance(85) ? r.range(6, 40) : r.range(41, 400);
    }
    Layout l(r);
    std::string s = r.chance(50) ? g.expr(1) + r.pick(std::vector<std::string>{"+", ";", "*", ";\n", "=", "\n-"}) : "";
    s += l.gap(true) + l.swap_case(f.name) + l.gap(false) + "(";
    for (int i = 0; i < n; ++i)
    {
        s += (i ? "," : "") + l.gap(false) + g.expr(1);
    }
    s += ")";
    if (r.chance(40))
    {
        s += r.pick(std::vector<std::string>{"+1", ";a=2", ")", "[", " a", ";sin(1,2)"});
    }
    if (r.chance(30))
    {
        s = "abs(" + s + ")";
    }
    return s;
}

// Is the number n present in the message as a complete number?
static bool has_number(const std::string& m, int n)
{
    std::string s = std::to_string(n);
    for (size_t p = m.find(s); p != std::string::npos; p = m.find(s, p + 1))
    {
        bool before = p > 0 && isdigit((unsigned char) m[p - 1]), after = p + s.size() < m.size() && isdigit((unsigned char) m[p + s.size()]);
        if (!before && !after)
        {
            return true;
        }
    }
    return false;
}

static std::map<projectm_eval_code*, bool> harmless;
static bool check(projectm_eval_context* ctx, const std::string& src, std::vector<projectm_eval_code*>& handles)
{
    ++R.evaluations;
    R.note_more("\n>>> " + src);
    auto p = parse(src);
    if (p->depth > 1500)
    {
        return true;
    }
    projectm_eval_code* c;
    {
        StepGuard g(3000000000ull);
        c = projectm_eval_code_compile(ctx, src.c_str());
    }
    F none = 0;
    if (!c && R.rng.chance(30))
    {
        // Hosts don't have to check the handle.
        none = projectm_eval_code_execute(c);
        projectm_eval_code_destroy(c);
        R.count("missing_handles_executed_and_destroyed");
    }
    if (!handles.empty() && R.rng.chance(30))
    {
        // Only compilations change the error.
        StepGuard g(2000000000ull);
        size_t i = R.rng.below((uint32_t) handles.size());
        if (projectm_eval_code* h = handles[i])
        {
            handles.erase(handles.begin() + (long) i);
            if (R.rng.chance(50) && harmless[h])
            {
                projectm_eval_code_execute(h);
                R.count("handles_executed_before_asking");
            }
            if (R.rng.chance(30))
            {
                projectm_eval_context_reset_variables(ctx);
                projectm_eval_context_register_variable(ctx, "another_variable");
            }
            harmless.erase(h);
            projectm_eval_code_destroy(h);
        }
    }
    int line = -77, col = -77;
    const char* err = projectm_eval_get_error(ctx, &line, &col);
    std::string e = err ? err : "";
    if (c)
    {
        handles.push_back(c);
        std::string l = lower(src);
        harmless[c] = l.find("loop") == std::string::npos && l.find("while") == std::string::npos && l.find("mem") == std::string::npos; // quick
    }
    std::string ctxt = "text:\n" + src + "\n(compile " + (c ? "succeeded" : "failed") + ", error " + (err ? "\"" + e + "\"" : "NULL") + fmt(" at %d:%d)", line, col);
    if (none != 0)
    {
        R.fail("C12:missing handle", ctxt + "\nexecuting the missing handle gives " + num((double) none));
        return false;
    }
    if (p->ok != (c != nullptr))
    {
        // An empty text has no instructions; it must still be accepted.
        R.fail(p->ok ? "C12:valid rejected" : "C12:invalid accepted", ctxt + (p->ok ? "" : fmt("\nexpected an error at %d:%d", p->line, p->col)));
        return false;
    }
    if (c)
    {
        R.count("accepted");
        if (err)
        {
            R.fail("C12:stale error", ctxt + "\nan error is reported after a successful compilation");
            return false;
        }
        return true;
    }
    R.count("rejected");
    if (!err || e.empty())
    {
        R.fail("C12:no message", ctxt);
        return false;
    }
    const char* again = projectm_eval_get_error(ctx, nullptr, nullptr);
    if (!again || e != again)
    {
        R.fail("C12:error unstable", ctxt);
        return false;
    }
    // Each of the two positions can be asked for alone, in any order, any number of times.
    for (int k = 0; k < 4; ++k)
    {
        int l2 = -77, c2 = -77;
        int what = (int) ((R.evaluations >> 2) + (uint64_t) k) & 3;
        again = projectm_eval_get_error(ctx, what & 1 ? &l2 : nullptr, what & 2 ? &c2 : nullptr);
        if (!again || e != again || (what & 1 && l2 != line) || (what & 2 && c2 != col))
        {
            R.fail("C12:error unstable", ctxt + fmt("\nasked again for %s: %d:%d, message \"%s\"", what == 1 ? "the line only" : what == 2 ? "the column only" : what ? "both" : "neither", l2, c2, again ? again : "NULL"));
            return false;
        }
    }
    if (p->at_eof)
    {
        R.count("errors_at_end");
        // Position of the end of the text: somewhere between the last token and the end.
        int first = 1, last = p->line;
        for (auto& t : p->toks)
        {
            if (t.t != T_EOF)
            {
                first = t.line;
            }
        }
        if (line < first || line > last || col < 0)
        {
            R.fail("C12:position at end", ctxt + fmt("\nexpected a position between line %d and %d", first, last));
            return false;
        }
    }
    else if (line != p->line || col != p->col)
    {
        R.fail(p->argcount ? "C12:call position" : "C12:position", ctxt + fmt("\nexpected position %d:%d", p->line, p->col));
        return false;
    }
    if (p->argcount)
    {
        R.count("argument_count_errors");
        if (lower(e).find(lower(p->fn_name)) == std::string::npos || !has_number(e, p->fn_expected) || !has_number(e, p->fn_given))
        {
            R.fail("C12:argument count message", ctxt + fmt("\nshould name %s, %d expected and %d given", p->fn_name.c_str(), p->fn_expected, p->fn_given));
            return false;
        }
    }
    const Token& t = p->toks[p->err_token];
    std::string prev = p->err_token ? p->toks[p->err_token - 1].text : "";
    bool generic = p->err_token && (p->toks[p->err_token - 1].t < T_SET);
    seen.insert((generic ? std::to_string(p->toks[p->err_token - 1].t) : prev) + " then " + (t.t < T_SET ? std::to_string(t.t) : t.text) + (p->argcount ? "#" : ""));
    if (p->line > 1)
    {
        R.count("errors_on_later_lines");
    }
    return true;
}

void harness_case()
{
    Rng& r = R.rng;
    R.note("");
    harmless.clear();
    GenOpt o;
    o.lists = true;
    o.loops = true;
    o.regs = true;
    o.max_depth = 4;
    Gen g(r, o);
    F regs[100] = {0};
    projectm_eval_context* ctx = projectm_eval_context_create(nullptr, &regs);
    if (projectm_eval_get_error(ctx, nullptr, nullptr))
    {
        R.fail("C12:initial error", "a new context reports an error");
    }
    // What another context reports stays the same meanwhile.
    projectm_eval_context* other = nullptr;
    std::string other_src, other_message;
    const char* other_text = nullptr;
    int other_line = 0, other_col = 0;
    if (r.chance(30))
    {
        other = projectm_eval_context_create(nullptr, &regs);
        do
        {
            other_src = r.chance(40) ? bad_argcount(r, g) : r.chance(50) ? mutate(g.program(1, 3), r) : soup(r);
        } while (parse(other_src)->ok || parse(other_src)->depth > 1500);
        projectm_eval_code* none = projectm_eval_code_compile(other, other_src.c_str());
        other_text = projectm_eval_get_error(other, &other_line, &other_col);
        other_message = other_text ? other_text : "";
        if (none || !other_text)
        {
            R.fail("C12:invalid accepted", "in a second context, text:\n" + other_src);
            return;
        }
        R.count("errors_kept_in_another_context");
    }
    auto other_unchanged = [&](const std::string& after) {
        if (!other)
        {
            return;
        }
        int l = -7, c = -7;
        bool kept = other_message == other_text; // the text itself, before it's asked for again
        const char* t = projectm_eval_get_error(other, &l, &c);
        if (!kept || !t || other_message != t || l != other_line || c != other_col)
        {
            R.fail("C12:another context's error", "a context which compiled\n" + other_src + fmt("\nreported (%d:%d) ", other_line, other_col) + other_message + "\n" + (kept ? fmt("and now reports (%d:%d) ", l, c) + (t ? t : "nothing") : "in a text which was overwritten") + "\nafter another context compiled\n" + after);
        }
        other_text = t ? t : "";
    };
    std::vector<projectm_eval_code*> handles;
    for (int k = 0; k < 12 && !R.violations; ++k)
    {
        std::string src;
        Layout l(r);
        switch (r.range(0, 9))
        {
            case 0:
            case 1: src = soup(r); break;
            case 2: src = bytes(r); break;
            case 3:
            case 4:
            case 5: src = mutate(g.program(1, 3), r); break;
            case 6: src = bad_argcount(r, g); break;
            case 7: src = r.pick(std::vector<std::string>{"", " ", "\n\n", "/* */", "// x", "/* unterminated", ";", "()", ";;", "a;()", "a;();b", "(a;)", "sin(1;)", "()()", "a b", "1 2", "a(1)", "gmem", "gmem[", "gmem[]", "[1]", "a[", "a[]]", "(", ")", "a?", "a?b", "a?b:", ":", "sin", "sin(", "sin()", "sin(,)", "sin(1,)", "if(1,2)", "foo(1)", "$", "$'", "$'a", "1.2.3", "1e5e5", "a=", "=a", "a==", "*a", "a*", "!", "-", "+", "a;;;b", "(;)", "if(1,2,3", "a\nb", "a;\n\n  )", "/*\n\n*/ )", "//\n //\n  ]", "\r\n)", "a // c\n b", "a /* \n */ b"}); break;
            default: {
                src = g.program(1, 3);
                std::string t = l.text(lex(src));
                src = t.empty() ? src : t;
            }
        }
        if (src.find('\0') != std::string::npos)
        {
            src = src.substr(0, src.find('\0'));
        }
        if (r.below(1000) < 6)
        {
            // A long way to the error.
            int n = (1 << r.range(6, r.chance(15) ? 17 : 13)) + r.range(-3, 3);
            std::string pad;
            switch (r.range(0, 5))
            {
                case 0: pad = std::string((size_t) n, ' '); break;
                case 1: pad = std::string((size_t) n, '\n'); break;
                case 2: pad = "/*" + std::string((size_t) n, r.chance(50) ? '*' : '\n') + "*/"; break;
                case 3: pad = "//" + std::string((size_t) n, '/') + "\n"; break;
                case 4: pad = std::string((size_t) n, ';') ; pad = "1" + pad; break;
                default:
                    for (int i = 0; i < n; i += 4)
                    {
                        pad += r.chance(50) ? " \n\t " : "\r\n /**/";
                    }
            }
            auto toks = lex(src);
            size_t at = r.chance(50) ? 0 : r.below((uint32_t) toks.size());
            std::string s;
            for (size_t i = 0; i + 1 < toks.size(); ++i)
            {
                s += (i == at ? pad : "") + toks[i].text + (r.chance(50) ? " " : "\n");
            }
            src = toks.size() > 1 ? s : pad + src;
            R.count("far_positions");
        }
        if (check(ctx, src, handles))
        {
            R.distinct(hash_str(src));
            R.sample(src);
        }
        other_unchanged(src);
        if (r.below(1000) < 4)
        {
            // Nested too deeply for any parser stack: rejected with a message somewhere in the text.
            static const char* const open[] = {"(", "sin(", "a=", "1+(", "-", "gmem[", "if(1,"};
            std::string pad = r.chance(50) ? std::string((size_t) r.range(1, 5), '\n') : "", unit = r.pick(open), deep = pad;
            for (int i = r.range(10001, 30000); i > 0; --i)
            {
                deep += unit;
            }
            deep += r.chance(50) ? "1" : "";
            R.note(">>> a text nested too deeply: " + pad + unit + unit + unit + "...");
            projectm_eval_code* h = projectm_eval_code_compile(ctx, deep.c_str());
            int line = -7, col = -7;
            const char* e = projectm_eval_get_error(ctx, &line, &col);
            if (h || !e || !*e || line < 1 || line > (int) pad.size() + 1 || col < 0 || col > (int) deep.size())
            {
                R.fail("C12:too deep", fmt("a text nested too deeply (%zu characters, %zu lines) ", deep.size(), pad.size() + 1) + (h ? "is accepted" : fmt("is rejected at %d:%d with ", line, col) + (e ? "\"" + std::string(e) + "\"" : "no message")));
            }
            R.count("too_deep_texts");
            if (h)
            {
                handles.push_back(h);
            }
        }
        if (r.chance(20) && !handles.empty())
        {
            projectm_eval_code_destroy(handles.back());
            handles.pop_back();
        }
    }
    for (auto* h : handles)
    {
        projectm_eval_code_destroy(h);
    }
    projectm_eval_context_destroy(ctx);
    other_unchanged("(and was destroyed)");
    if (other)
    {
        projectm_eval_context_destroy(other);
    }
}

// C11: literals and case-insensitive names, in the C locale and (mode "locale") under host locales with a decimal
// comma and with Turkish letter case rules, set for the process or for the thread.
#include "lab.hpp"

#include <clocale>
#include <sstream>

static std::vector<std::string> locales;
static std::string current = "C";
static locale_t thread_locale = (locale_t) 0;

static void pick_locale(Rng& r)
{
    if (locales.empty())
    {
        return;
    }
    current = r.pick(locales);
    bool thread_only = r.chance(35);
    if (thread_locale)
    {
        uselocale(LC_GLOBAL_LOCALE);
        freelocale(thread_locale);
        thread_locale = (locale_t) 0;
    }
    if (thread_only)
    {
        setlocale(LC_ALL, "C");
        thread_locale = newlocale(LC_ALL_MASK, current.c_str(), (locale_t) 0);
        if (!thread_locale)
        {
            fprintf(stderr, "newlocale(%s) failed\n", current.c_str());
            exit(96);
        }
        uselocale(thread_locale);
        current += " (thread)";
    }
    else if (!setlocale(LC_ALL, current.c_str()))
    {
        fprintf(stderr, "setlocale(%s) failed\n", current.c_str());
        exit(96);
    }
}

void harness_init()
{
    std::stringstream ss(R.extra);
    std::string l;
    while (ss >> l)
    {
        locales.push_back(l);
    }
}

static std::set<std::string> seen;
void harness_done() { R.counters["set_literal_and_name_kinds"] = seen.size(); }

static std::string digits(Rng& r, int n)
{
    std::string s;
    for (int i = 0; i < n; ++i)
    {
        s += (char) ('0' + r.below(10));
    }
    return s;
}

static bool literal(const std::string& text, double want, const char* kind)
{
    ++R.evaluations;
    F w = (F) want;
    R.note("[" + current + "] " + text);
    F regs[100] = {0};
    projectm_eval_context* ctx = projectm_eval_context_create(nullptr, &regs);
    static const char* const frames[] = {"x=%s", "%s", "exec2(1,%s)", "reg00=%s;x", "megabuf(3)=%s", "(%s)", "x=1;%s", "-(%s)", "if(1,%s,2)"};
    int f = R.rng.range(0, 8);
    std::string src = frames[f];
    size_t at = src.find("%s");
    src.replace(at, 2, text);
    bool ok = true;
    {
        Code c(ctx, src);
        if (!c)
        {
            const char* err = projectm_eval_get_error(ctx, nullptr, nullptr);
            R.fail(std::string("C11:") + kind + " rejected", "[locale " + current + "] " + src + "\n" + (err ? err : ""));
            ok = false;
        }
        else
        {
            F got = c.run();
            if (f == 0)
            {
                got = *projectm_eval_context_register_variable(ctx, "x");
            }
            if (f == 3)
            {
                got = regs[0];
            }
            if (f == 7)
            {
                got = -got;
            }
            if (memcmp(&got, &w, sizeof w) != 0 && !(got == 0 && w == 0) &&
                // more than 53 bits: rounded in either direction
                !(kind == std::string("hex") && want > 9007199254740992.0 && std::fabs((double) got - want) <= want * 2.3e-16))
            {
                R.fail(std::string("C11:") + kind, "[locale " + current + "] " + src + "\ngives " + num((double) got) + ", expected " + num((double) w));
                ok = false;
            }
        }
    }
    projectm_eval_context_destroy(ctx);
    if (ok)
    {
        R.count("literals_compared");
        R.distinct(hash_str(text + current));
        seen.insert(kind + current);
        R.sample("[" + current + "] " + text + " = " + num(want));
    }
    return ok;
}

static bool decimal(Rng& r)
{
    std::string s;
    int form = r.range(0, 7);
    switch (form)
    {
        case 0: s = digits(r, r.range(1, 8)); break;
        case 1: s = digits(r, r.range(1, 8)) + "." + digits(r, r.range(1, 12)); break;
        case 2: s = "." + digits(r, r.range(1, 20)); break;
        case 3: s = digits(r, r.range(1, 6)) + "."; break;
        case 4: s = digits(r, r.range(10, 60)); break;
        case 5: s = "0." + std::string((size_t) r.range(0, 300), '0') + digits(r, r.range(1, 25)); break;
        case 6: s = std::string((size_t) r.range(0, 50), '0') + digits(r, r.range(1, 20)) + "." + digits(r, r.range(0, 40)); break;
        default: s = fmt("%.17g", std::ldexp(r.unit() + 0.5, r.range(-900, 900))); 
            for (auto& c : s) { if (c == ',') c = '.'; }
            break;
    }
    std::string kind = "decimal" + std::to_string(form);
    if (form != 7 && r.chance(40))
    {
        s += r.chance(50) ? "e" : "E";
        s += r.pick(std::vector<std::string>{"", "+", "-"});
        s += r.chance(80) ? std::to_string(r.range(0, 40)) : std::to_string(r.range(40, 280));
        kind += "exp";
    }
    double v = parse_c_double(s);
    if (!std::isfinite(v) || (v != 0 && std::fabs(v) < 2.3e-308))
    {
        return true;
    }
    return literal(s, v, kind.c_str());
}

static bool special(Rng& r)
{
    Layout l(r);
    switch (r.range(0, 4))
    {
        case 0: {
            int n = r.range(1, 16);
            uint64_t v = 0;
            std::string s = r.chance(50) ? "$x" : "$X";
            for (int i = 0; i < n; ++i)
            {
                unsigned d = r.below(16);
                v = v * 16 + d;
                s += r.chance(50) ? "0123456789abcdef"[d] : "0123456789ABCDEF"[d];
            }
            if (r.chance(20))
            {
                s.insert(2, (size_t) r.range(1, 3), '0');
            }
            return literal(s, (double) v, "hex");
        }
        case 1: {
            int c = r.range(32, 126);
            return literal(std::string("$'") + (char) c + "'", c, "char");
        }
        case 2: return literal(l.swap_case("$pi"), 3.141592653589793, "$PI");
        case 3: return literal(l.swap_case("$e"), 2.71828183, "$E");
        default: return literal(l.swap_case("$phi"), 1.61803399, "$PHI");
    }
}

static bool names(Rng& r)
{
    // Functions in any letter case, variables and registers in any letter case through script and API.
    ++R.evaluations;
    Layout l(r);
    F regs[100] = {0};
    projectm_eval_context* ctx = projectm_eval_context_create(nullptr, &regs);
    static const char* const words[] = {"title", "Iteration_INDEX", "i", "I", "ili", "bass_ATT_i", "min_i", "fI", "reg_i", "xIy", "WAVE_MYSTERY", "q1", "mid", "if_", "sin2"};
    std::string base = r.pick(words);
    std::string name = base;
    std::string fn;
    const FnInfo* f;
    do
    {
        f = &r.pick(fn_table);
    } while (f->f == F_WHILE || f->f == F_RAND || f->f == F_FREEMBUF);
    fn = l.swap_case(f->name);
    std::string src = l.swap_case(base) + "=" + fn + "(";
    std::string plain = std::string("ref_=") + f->name + "(";
    for (int i = 0; i < f->argc; ++i)
    {
        std::string a = fmt("%d", r.range(1, 3));
        src += (i ? "," : "") + a;
        plain += (i ? "," : "") + a;
    }
    int reg = r.range(0, 99);
    std::string regn = fmt("reg%02d", reg);
    src += ");" + l.swap_case(regn) + "=42;" + l.swap_case(base) + "+=" + l.swap_case("gmem") + "[" + l.swap_case("$x0") + "]";
    plain += ")";
    R.note("[" + current + "] " + src);
    bool ok = true;
    {
        F* before = projectm_eval_context_register_variable(ctx, l.swap_case(base).c_str());
        Code c(ctx, src), q(ctx, plain);
        F* after = projectm_eval_context_register_variable(ctx, l.swap_case(base).c_str());
        F* ref = projectm_eval_context_register_variable(ctx, "ref_");
        std::string where = "[locale " + current + "] " + src + "\n";
        if (!c || !q)
        {
            const char* err = projectm_eval_get_error(ctx, nullptr, nullptr);
            R.fail("C11:name rejected", where + (err ? err : ""));
            ok = false;
        }
        else
        {
            q.run();
            c.run();
            if (before != after || !same_number((double) *before, (double) *ref) || regs[reg] != 42)
            {
                R.fail("C11:name", where + fmt("%s: addresses %p and %p, value %s, expected %s; %s is %g, expected 42", base.c_str(), (void*) before, (void*) after,
                                               num((double) *before).c_str(), num((double) *ref).c_str(), regn.c_str(), (double) regs[reg]));
                ok = false;
            }
        }
    }
    projectm_eval_context_destroy(ctx);
    if (ok)
    {
        R.count("names_compared");
        R.distinct(hash_str(src + current));
        seen.insert(std::string("fn ") + f->name + current);
    }
    return ok;
}

void harness_case()
{
    Rng& r = R.rng;
    pick_locale(r);
    for (int k = 0; k < 10 && !R.violations; ++k)
    {
        int w = r.range(0, 9);
        if (w < 5)
        {
            decimal(r);
        }
        else if (w < 8)
        {
            special(r);
        }
        else
        {
            names(r);
        }
    }
    if (thread_locale)
    {
        uselocale(LC_GLOBAL_LOCALE);
        freelocale(thread_locale);
        thread_locale = (locale_t) 0;
    }
    setlocale(LC_ALL, "C");
    current = "C";
}

// C06: which arguments are evaluated, how often and in which order. Trace expressions fold a distinct number into
// an order-sensitive accumulator, so the final accumulator identifies the exact evaluation sequence.
#include "lab.hpp"

static std::set<std::string> seen;
void harness_init() {}
void harness_done() { R.counters["set_operations_traced"] = seen.size(); }

static int counter;
// Evaluates to `v`, leaving mark number n in the trace.
static std::string tr(const std::string& v)
{
    return "(tr=(tr*7+" + std::to_string(counter++) + ")%100003;" + v + ")";
}

struct Item
{
    std::string name;
    bool fn;
    int argc;
};

static std::vector<Item> make_items()
{
    std::vector<Item> v;
    for (auto& f : fn_table)
    {
        if (f.f != F_RAND)
        {
            v.push_back({f.name, true, f.argc});
        }
    }
    for (const char* o : {"+", "-", "*", "/", "%", "^", "|", "&", "||", "&&", "==", "!=", "<", ">", "<=", ">=", "=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "[", ";"})
    {
        v.push_back({o, false, 2});
    }
    v.push_back({"?:", false, 3});
    v.push_back({"gmem", false, 1});
    v.push_back({"[]", false, 1});
    v.push_back({"-", false, 1});
    v.push_back({"!", false, 1});
    return v;
}

static std::string build(const Item& it, const std::vector<std::string>& a)
{
    if (it.fn)
    {
        std::string s = it.name + "(";
        for (size_t i = 0; i < a.size(); ++i)
        {
            s += (i ? "," : "") + a[i];
        }
        return s + ")";
    }
    if (it.name == "?:")
    {
        return a[0] + "?" + a[1] + ":" + a[2];
    }
    if (it.name == "gmem")
    {
        return "gmem[" + a[0] + "]";
    }
    if (it.name == "[]")
    {
        return a[0] + "[]";
    }
    if (it.name == "[")
    {
        return a[0] + "[" + a[1] + "]";
    }
    if (it.argc == 1)
    {
        return it.name + a[0];
    }
    if (it.name == ";")
    {
        return "(" + a[0] + ";" + a[1] + ")";
    }
    return a[0] + it.name + a[1];
}

static std::string traced(const std::vector<Item>& items, Rng& r, int depth)
{
    static const char* const leaf[] = {"0", "1", "2", "a", "b", "0", "3", "-1", "0.00001", "0.000001", "a", "1e-10", "nz", "-nz", "-0.5", "1000000", "x", "nz", "reg05"};
    if (depth <= 0)
    {
        return tr(r.pick(leaf));
    }
    const Item& it = items[r.below((uint32_t) items.size())];
    if (it.name == "while")
    {
        return "while(" + tr("c=min(c,3)-1") + ";c>0)";
    }
    if (it.name == "loop")
    {
        return "loop(" + tr(std::to_string(r.range(-1, 3))) + "," + traced(items, r, depth - 1) + ")";
    }
    std::vector<std::string> a;
    for (int i = 0; i < it.argc; ++i)
    {
        a.push_back(r.chance(10) ? (it.fn ? std::string(r.pick(leaf)) : std::string("(") + r.pick(leaf) + ")") : r.chance(45) ? tr(r.pick(leaf)) : "(" + traced(items, r, depth - 1) + ")");
    }
    return build(it, a);
}

void harness_case()
{
    static std::vector<Item> items = make_items();
    Rng& r = R.rng;
    counter = r.range(1, 50);
    std::string src;
    std::string id;
    // first argument values that decide which branch is taken
    static const char* const decide[] = {"0", "1", "-1", "0.5", "x", "y", "0.000001", "1e-10", "-0.0000001", "2", "nz", "reg05"};
    uint64_t directed = items.size() * 24;
    if (R.case_index < directed)
    {
        const Item& it = items[R.case_index % items.size()];
        uint64_t k = R.case_index / items.size();
        std::vector<std::string> a;
        for (int i = 0; i < it.argc; ++i)
        {
            std::string d = i == 0 ? decide[k % 12] : (k & 1) ? "3" : r.pick(decide);
            // one of them may be a plain operand
            a.push_back(it.argc > 1 && i == (int) (k % 7) && r.chance(70) ? (it.fn ? d : "(" + d + ")") : tr(d));
        }
        if (it.name == "while")
        {
            a[0] = "(" + a[0] + ";c=min(c,4)-1;" + tr("c>0") + ")";
        }
        id = it.name + std::to_string(it.argc) + "/" + decide[k % 12];
        src = build(it, a);
        if (k >= 12)
        {
            src = "res=" + (it.fn ? src : "(" + src + ")") + ";tr";
        }
    }
    else if (r.chance(20))
    {
        // Two operations as arguments of a third one, mostly ones which direct the execution.
        static std::vector<Item> control;
        if (control.empty())
        {
            static const std::set<std::string> names = {"if", "exec2", "exec3", "loop", "while", "&&", "||", "?:", ";", "=", "+=", "[]", "_and", "memset", "assign", "megabuf"};
            for (auto& it : items)
            {
                if (names.count(it.name))
                {
                    control.push_back(it);
                }
            }
        }
        auto pick = [&] { return r.chance(75) ? r.pick(control) : items[r.below((uint32_t) items.size())]; };
        auto simple = [&](const Item& it) {
            static const char* const leaf[] = {"0", "1", "2", "a", "b", "nz", "reg05"};
            if (it.name == "while")
            {
                return "(c=3;while(" + tr("c=min(c,3)-1") + ";c>0))";
            }
            std::vector<std::string> a;
            for (int i = 0; i < it.argc; ++i)
            {
                a.push_back(tr(r.pick(leaf)));
            }
            return "(" + build(it, a) + ")";
        };
        const Item outer = pick();
        if (outer.name == "while")
        {
            src = "while(" + simple(pick()) + ";" + simple(pick()) + ";c=min(c,3)-1;c>0)";
        }
        else
        {
            std::vector<std::string> a;
            for (int i = 0; i < outer.argc; ++i)
            {
                a.push_back(i == 0 && outer.name == "loop" ? "min(3," + simple(pick()) + ")" : simple(pick()));
            }
            src = build(outer, a);
        }
        src = r.chance(50) ? src + ";tr" : src;
        R.count("operations_within_an_operation");
    }
    else if (r.below(1000) < 8)
    {
        // Decisions inside decisions inside decisions...
        static const char* const conditions[] = {"1", "0", "a", "b", "nz", "x", "y", "a>b", "reg05"};
        int levels = r.range(5, r.chance(50) ? 60 : 400), kind = r.range(0, 9);
        bool one_kind = r.chance(50), inwards = r.chance(50);
        src = tr("5");
        for (int i = 0; i < levels; ++i)
        {
            bool traced_condition = r.chance(15);
            std::string c = r.pick(conditions), branch = r.chance(levels > 60 ? 10 : 50) ? tr("2") : "7";
            c = traced_condition ? tr(c) : "(" + c + ")";
            switch (one_kind ? kind : inwards ? r.range(3, 8) : r.range(0, 9))
            {
                case 0: src = "(" + c + "&&(" + src + "))"; break;
                case 1: src = "(" + c + "||(" + src + "))"; break;
                case 2: src = "(" + c + "?" + branch + ":(" + src + "))"; break;
                case 3: src = "if(" + src + "," + branch + ",3)"; break;
                case 4: src = "exec2(" + branch + "," + src + ")"; break;
                case 5: src = "if(1," + src + "," + branch + ")"; break;
                case 6: src = "if(0," + branch + "," + src + ")"; break;
                case 7: src = "(1&&(" + src + "))"; break;
                case 8: src = "(0||(" + src + "))"; break;
                default: src = r.chance(50) ? "if(" + c + "," + branch + "," + src + ")" : "if(" + c + "," + src + "," + branch + ")";
            }
        }
        R.count("deeply_nested_decisions");
    }
    else if (r.chance(60))
    {
        int n = r.range(1, 4);
        for (int i = 0; i < n; ++i)
        {
            src += (i ? ";" : "") + traced(items, r, r.range(1, 4));
        }
    }
    else
    {
        GenOpt o;
        o.trace_percent = 60;
        o.lists = true;
        o.loops = true;
        o.max_depth = 4;
        Gen g(r, o);
        src = g.program(1, 4);
    }
    ++R.evaluations;
    R.note("");
    auto p = parse(src);
    if (!p->ok)
    {
        R.fail("harness:generator", "invalid program generated: " + src);
        return;
    }
    Lab lab;
    lab.set("tr", 1);
    lab.set("a", (F) r.range(0, 2));
    lab.set("b", (F) r.range(0, 2));
    lab.set("c", 3);
    lab.set("x", r.chance(50) ? 0 : (F) 1e-6);
    lab.set("y", (F) r.range(-1, 1));
    static const double tiny[] = {1e-200, 1e-285, -1e-293, 3e-300, 1e-150, -1e-20, 1e-7, -1e-6, 0.00002, 1e300, -1e300, 0.999, 1e9, 1e-299, INFINITY, -INFINITY};
    // (infinite numbers are non-zero as well)
    lab.set("nz", (F) r.pick(tiny));
    lab.set("reg05", (F) r.range(0, 1));
    Env e;
    if (lab.check("C06", src, *p, &e) == Lab::MATCH)
    {
        R.distinct(hash_str(src));
        R.count("short_circuits", e.short_circuits);
        R.count("if_evaluated", e.fn_count[F_IF]);
        for (int f = 0; f < F_COUNT; ++f)
        {
            if (e.fn_count[f])
            {
                R.count("calls_traced", e.fn_count[f]);
            }
        }
        if (!id.empty())
        {
            seen.insert(id);
        }
        R.sample(src);
    }
}

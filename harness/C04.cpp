// C04: values of every operator and function, for every kind of operand; compound assignment equivalence.
#include "lab.hpp"

struct Item
{
    std::string name;
    int kind; // 0 function, 1 binary, 2 prefix, 3 ternary, 4 compound, 5 subscript, 6 gmem subscript
    int argc;
};
static std::vector<Item> items;
static std::set<std::string> seen;

void harness_init()
{
    for (auto& f : fn_table)
    {
        items.push_back({f.name, 0, f.argc});
    }
    for (const char* o : {"+", "-", "*", "/", "%", "^", "|", "&", "||", "&&", "==", "!=", "<", ">", "<=", ">="})
    {
        items.push_back({o, 1, 2});
    }
    for (const char* o : {"-", "!", "+"})
    {
        items.push_back({o, 2, 1});
    }
    items.push_back({"?:", 3, 3});
    for (const char* o : {"=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&="})
    {
        items.push_back({o, 4, 2});
    }
    items.push_back({"[]", 5, 1});
    items.push_back({"[]", 5, 2});
    items.push_back({"gmem[]", 6, 1});
}

void harness_done()
{
    R.counters["set_operations_with_operand_kinds_seen"] = seen.size();
}

static const double PAL[] = {0, 0, 1, -1, 2, -2, 3, 0.5, -0.5, 0.25, 1.5, -1.5, 2.5, 7, 10, -10, 63, 64, 100, 255, 256, 1000,
                             65535, 65536, 1e-5, -1e-5, 1.1e-5, 0.9e-5, 2e-5, 5e-6, 1e-6, 1e-9, 1e-12, -1e-9, 1e-100, 1e-290, 0.9999, 0.99995, 1.00005, 3.99999,
                             2147483647, -2147483648.0, 2147483646.5, 1e6, 1048576, 8388607, 8388608, 1e9, 4294967296.0, 1e15, 1e100, 3.141592653589793,
                             0.7071067811865476, -0.3, 0.1, 0.2, 6.25, 12.75, 99.99, -7.3, 5, -5, 17, -17, 6, 4, 8, 9, 15, 16, 31, 32, 33};

static double value(Rng& r)
{
    switch (r.range(0, 9))
    {
        case 9: // next to values where functions change their behaviour
        {
            static const double at[] = {0, 1, -1, 1, -1, 2, 0.5, -0.5, 10, 1.5707963267948966, 3.141592653589793, 1e-5, 65536};
            return r.pick(at) + (r.chance(50) ? 1 : -1) * std::pow(10.0, -r.range(1, 16));
        }
        case 0: return r.range(-20, 20);
        case 7: return (r.chance(50) ? 1 : -1) * std::pow(10.0, r.unit() * 610 - 305); // every magnitude
        case 8: return r.chance(50) ? r.unit() * 1456 - 746 : (r.unit() - 0.5) * std::pow(10.0, r.range(1, 5));
        case 1: return (r.unit() - 0.5) * 10;
        case 2: return (r.unit() - 0.5) * std::pow(10.0, r.range(-7, 9));
        default: return r.pick(PAL);
    }
}

static const char* const KINDS[] = {"literal", "variable", "register", "megabuf", "gmegabuf", "expression", "call", "assignment"};

// Text of operand number k with the given value; prepares state in the lab.
static std::string operand(Lab& lab, Rng& r, int kind, int k, double v, std::vector<std::string>& setup)
{
    std::string n = std::to_string(k);
    std::string lit = num((double) (F) v);
    if (lit[0] == '-')
    {
        lit = "(" + lit + ")";
    }
    switch (kind)
    {
        case 0: return lit;
        case 1: lab.set("v" + n, (F) v); return "v" + n;
        case 2: lab.set("reg1" + n, (F) v); return r.chance(50) ? "reg1" + n : "REG1" + n;
        case 3: setup.push_back("megabuf(" + std::to_string(20 + k) + ")=" + lit); return "megabuf(" + std::to_string(20 + k) + ")";
        case 4: setup.push_back("gmegabuf(" + std::to_string(70000 + k) + ")=" + lit); return "gmegabuf(" + std::to_string(70000 + k) + ")";
        case 5: lab.set("w" + n, (F) v); return r.chance(50) ? "(w" + n + "+0)" : "(1*w" + n + ")";
        case 6: lab.set("u" + n, (F) v); return r.chance(50) ? "exec2(1,u" + n + ")" : "if(1,u" + n + ",7)";
        default: lab.set("s" + n, (F) v); return "(q" + n + "=s" + n + ")";
    }
}

// Arguments without a mathematical result: there's none, and the argument stays what it is.
static void no_result(Rng& r)
{
    static const struct
    {
        const char* text;
        int domain; // 0: |x| > 1, 1: x < 0
    } t[] = {{"asin(#)", 0}, {"acos(#)", 0}, {"log(#)", 1}, {"log10(#)", 1}, {"sqrt(#)", 1}, {"pow(#,0.5)", 1}, {"#^1.5", 1}, {"pow(#,-2.25)", 1}};
    auto& q = r.pick(t);
    double d = r.chance(50) ? std::pow(10.0, -r.unit() * 14) : std::pow(10.0, r.unit() * 6);
    F v = (F) (q.domain == 0 ? (r.chance(50) ? 1 : -1) * (1 + d) : -d);
    if (q.domain == 0 && std::fabs((double) v) <= 1 + 1e-15)
    {
        return;
    }
    std::string s = q.text, lit = num((double) v);
    bool literal = r.chance(30);
    s.replace(s.find('#'), 1, literal ? "(" + lit + ")" : r.chance(50) ? "v" : "megabuf(7)");
    Lab lab;
    lab.set("v", v);
    R.note("megabuf(7)=v;" + s + " with v " + lit);
    Code c(lab.ctx, "megabuf(7)=v;" + s), m(lab.ctx, "megabuf(7)");
    ++R.evaluations;
    R.count("arguments_without_result");
    for (int k = 0; k < 2; ++k)
    {
        double got = c ? (double) c.run() : 0;
        if (!std::isnan(got) || *lab.var("v").first != v || m.run() != v)
        {
            R.fail("C04:no result:" + std::string(q.text), s + " with " + lit + " gives " + num(got) + (*lab.var("v").first != v || m.run() != v ? " and changes its argument" : ""));
            return;
        }
    }
}

void harness_case()
{
    Rng& r = R.rng;
    no_result(r);
    const Item& it = items[R.case_index % items.size()];
    uint64_t round = R.case_index / items.size();
    for (int rep = 0; rep < 8; ++rep)
    {
        Lab lab;
        lab.exact_integers = true;
        static MtStream stream;
        MtStream before = stream;
        lab.mt = &stream;
        std::vector<std::string> setup, ops;
        std::string kinds = it.name + std::to_string(it.argc);
        std::vector<double> vals;
        std::vector<int> kind_of;
        for (int k = 0; k < it.argc; ++k)
        {
            int kind = (int) ((round + (uint64_t) rep * 3 + (uint64_t) k * (1 + round / 8)) % 8);
            if (r.chance(30))
            {
                kind = r.range(0, 7);
            }
            kind_of.push_back(kind);
            double v = value(r);
            Fn f = it.kind == 0 ? find_fn(it.name)->f : F_NONE;
            if (f == F_LOOP && k == 0)
            {
                v = std::fmin(v, 50);
            }
            if (f == F_WHILE)
            {
                v = 0; // anything else runs a million times: covered by C07
            }
            if ((f == F_MEMSET || f == F_MEMCPY) && k != 1 + (f == F_MEMCPY))
            {
                v = std::fmod(v, 200);
            }
            if (k == 1 && std::isfinite(vals[0]) && r.chance(20))
            {
                v = vals[0] + (r.chance(60) ? 0 : r.range(-1, 1));
            }
            if (it.name == "exp" && r.chance(40))
            {
                v = r.chance(50) ? 650 + r.unit() * 60 : -650 - r.unit() * 60;
            }
            if (k == 1 && (it.name == "pow" || it.name == "^" || it.name == "/" || it.name == "*") && r.chance(30))
            {
                // results of every magnitude up to the limits
                double m = r.unit() * 614 - 306;
                double l = std::log10(std::fabs(vals[0]));
                double w = it.name == "/" ? std::pow(10.0, l - m) : it.name == "*" ? std::pow(10.0, m - l) : m / l;
                if (std::isfinite(w))
                {
                    v = w;
                }
            }
            if (r.chance(12))
            {
                // results which are whole numbers
                if (it.name == "log10") { v = std::pow(10.0, r.range(-5, 22)); }
                else if (it.name == "sqrt") { v = r.range(0, 5000); v *= v; }
                else if (it.name == "pow" || it.name == "^") { v = k ? r.range(0, 12) : r.range(-15, 15); }
                else if (it.name == "/" || it.name == "_div") { v = k ? r.range(-40, 40) : r.range(-3000, 3000); }
                else if (it.name == "log") { v = 1; }
            }
            static const std::set<std::string> any_operand = {"+", "-", "*", "/", "_add", "_sub", "_mul", "_div", "+=", "-=", "*=", "/=", "_addop", "_subop", "_mulop", "_divop", "=", "_set", "assign", "_neg", "sqr", "abs"};
            if (r.chance(4) && any_operand.count(it.name))
            {
                // neither literals nor memory set-ups can spell these
                v = r.chance(50) ? NAN : r.chance(50) ? INFINITY : -INFINITY;
                kind = r.pick(std::vector<int>{1, 2, 5, 6, 7});
                kind_of.back() = kind;
                if (k == 0 && it.argc > 1)
                {
                    R.count("not_finite_operands");
                }
            }
            vals.push_back(v);
            kinds += std::string("/") + KINDS[kind];
            ops.push_back(operand(lab, r, kind, k, v, setup));
        }
        auto form = [&](const std::vector<std::string>& ops) {
            std::string e;
            switch (it.kind)
            {
                case 0:
                    e = it.name + "(";
                    for (int k = 0; k < it.argc; ++k)
                    {
                        e += (k ? "," : "") + ops[(size_t) k];
                    }
                    e += ")";
                    break;
                case 1:
                case 4: e = ops[0] + it.name + ops[1]; break;
                case 2: e = it.name + ops[0]; break;
                case 3: e = ops[0] + "?" + ops[1] + ":" + ops[2]; break;
                case 5: e = ops[0] + "[" + (it.argc > 1 ? ops[1] : "") + "]"; break;
                default: e = "gmem[" + ops[0] + "]"; break;
            }
            return e;
        };
        std::string e = form(ops);
        if (r.chance(30))
        {
            e = "res=(" + e + ")";
        }
        ++R.evaluations;
        R.note("");
        bool ok = true;
        for (auto& s : setup)
        {
            ok = ok && lab.check("C04:setup", s, nullptr, 1e-9, false) == Lab::MATCH;
        }
        for (int k = 0; k < 8; ++k)
        {
            // recognisable memory contents for subscripts
            lab.set("_i", (F) k);
        }
        if (!ok)
        {
            stream = before;
            continue;
        }
        static const std::set<std::string> arithmetic = {"+", "-", "*", "/", "_add", "_sub", "_mul", "_div", "+=", "-=", "*=", "/=", "_addop", "_subop", "_mulop", "_divop", "%", "_mod", "%=", "_modop",
                                                         "_neg", "abs", "min", "max", "sqr", "sqrt", "floor", "int", "ceil", "sign", "|", "&", "=", "_set", "assign"};
        double rel = arithmetic.count(it.name) ? 0 : 1e-9; // correctly rounded, so there's only one right result
        Lab::Result res = lab.check("C04:" + it.name, e, nullptr, rel);
        if (res == Lab::SKIP)
        {
            stream = before;
        }
        if (res == Lab::MATCH)
        {
            R.distinct(hash_str(kinds));
            R.distinct(hash_str(e) ^ hash_str(num(vals[0])));
            seen.insert(kinds);
            R.sample(e + "   [" + num(vals[0]) + "]");
            // The same again right after it with other operands, mostly with just one that is slightly different.
            for (int again = r.chance(50) ? r.range(1, 2) : 0; again > 0 && res == Lab::MATCH; --again)
            {
                before = stream;
                size_t k = r.below((uint32_t) vals.size());
                switch (r.range(0, 3))
                {
                    case 0: vals[k] = -vals[k]; break;
                    case 1: if (std::isfinite(vals[0]) && std::isfinite(vals[k])) { std::swap(vals[0], vals[k]); } break;
                    default: vals[k] += (r.chance(50) ? 1 : -1) * std::fmax(std::fabs(vals[k]), 1e-3) * std::pow(10.0, -r.range(2, 12)); break;
                }
                Fn f = it.kind == 0 ? find_fn(it.name)->f : F_NONE;
                if (f == F_WHILE || f == F_MEMSET || f == F_MEMCPY || f == F_LOOP)
                {
                    break;
                }
                setup.clear();
                ops.clear();
                for (size_t j = 0; j < vals.size(); ++j)
                {
                    ops.push_back(operand(lab, r, kind_of[j], (int) j, vals[j], setup));
                }
                for (auto& s : setup)
                {
                    ok = ok && lab.check("C04:setup", s, nullptr, 1e-9, false) == Lab::MATCH;
                }
                res = ok ? lab.check("C04:" + it.name, form(ops), nullptr, rel) : Lab::SKIP;
                if (res == Lab::SKIP)
                {
                    stream = before;
                }
                ++R.evaluations;
                R.count("repeated_with_similar_operands");
            }
        }
        if (R.violations)
        {
            return;
        }
        // Compound assignment: a OP= b equals a = a OP b on the real library, for every target kind.
        if (it.kind == 4 && it.name != "=")
        {
            std::string op = it.name.substr(0, it.name.size() - 1);
            static const char* const targets[] = {"v0", "reg10", "megabuf(20)", "gmegabuf(70000)", "20[]", "gmem[70000]"};
            for (const char* t : targets)
            {
                double a = value(r), b = value(r);
                if (r.chance(20))
                {
                    b = r.range(0, 3);
                }
                if (r.chance(3) && (op == "+" || op == "-" || op == "*" || op == "/"))
                {
                    (r.chance(60) ? a : b) = r.chance(50) ? NAN : r.chance(50) ? INFINITY : -INFINITY;
                }
                F result[2], left[2];
                for (int form = 0; form < 2; ++form)
                {
                    Lab l;
                    l.set("x", (F) a);
                    l.set("y", (F) b);
                    std::string src = std::string(t) + "=x;" + (form ? std::string(t) + "=" + t + op + "y" : std::string(t) + it.name + "y");
                    R.note(src + " with " + num(a) + ", " + num(b));
                    Code c(l.ctx, src);
                    if (!c)
                    {
                        R.fail("C04:compound:rejected", src);
                        return;
                    }
                    result[form] = c.run();
                    Code q(l.ctx, t);
                    left[form] = q.run();
                }
                ++R.evaluations;
                R.count("compound_pairs");
                if (!same_number((double) result[0], (double) result[1]) || !same_number((double) left[0], (double) left[1]) ||
                    !same_number((double) left[0], (double) result[0]))
                {
                    R.fail("C04:compound:" + it.name, fmt("%s %s b with %s, %s: result %s, stored %s; written out: result %s, stored %s", t,
                                                           it.name.c_str(), num(a).c_str(), num(b).c_str(), num((double) result[0]).c_str(),
                                                           num((double) left[0]).c_str(), num((double) result[1]).c_str(), num((double) left[1]).c_str()));
                    return;
                }
            }
        }
    }
}

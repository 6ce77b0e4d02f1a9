// Histories of API calls over several contexts, buffers, register arrays and handles, compared with a world model
// after every step. The property decides the mix of operations:
// C02 leaks, C09 handles, C13 compilation, C14 variables, C15 sharing, C16 resets, C19 destruction order.
#include "gen.hpp"

#include <condition_variable>
#include <functional>
#include <mutex>
#include <thread>

static std::set<std::string> seen_ops;
static std::string P;

struct Mem2
{
    Memory m;
};

struct Regs
{
    F real[100];
    F model[100];
    bool builtin = false;
};

struct Buf
{
    projectm_eval_mem_buffer real = nullptr;
    Memory model;
    bool alive = true;
    bool builtin = false;
};

struct Var
{
    F* real;
    F model;
};

struct Ctx
{
    projectm_eval_context* c = nullptr;
    Regs* regs = nullptr;
    Buf* g = nullptr;
    Memory mem;
    std::map<std::string, Var> vars;
    Code pm, pg;
    F* pi = nullptr;
    bool quiet = false;
    const char* error = nullptr; // of the last compilation: pointer, text and position
    std::string error_text;
    int error_line = 0, error_column = 0;
    std::vector<std::pair<int, projectm_eval_code*>> reg_probes;
    bool alive = true;
    int id = 0;
};

struct Handle
{
    projectm_eval_code* h = nullptr;
    Ctx* c = nullptr;
    std::string src;
    std::unique_ptr<Parse> p;
    bool uses_g = false;
    int runs = 0;
};

static Regs builtin_regs; // persists for the whole process
static Buf* builtin_buf;  // current generation
static std::vector<std::unique_ptr<Buf>> old_builtin;

void harness_init()
{
    P = R.prop;
    builtin_regs.builtin = true;
    memset(builtin_regs.model, 0, sizeof builtin_regs.model);
}

void harness_done()
{
    R.counters["set_operation_kinds"] = seen_ops.size();
}

static const int SLOTS[] = {0, 1, 2, 3, 4, 65535, 65536, 8388607};
static const int REG_PROBES[] = {0, 1, 2, 9, 50, 99};

struct World
{
    Rng& r;
    std::vector<std::unique_ptr<Ctx>> ctxs;
    std::vector<std::unique_ptr<Buf>> bufs;
    std::vector<std::unique_ptr<Regs>> regs;
    std::vector<Handle> handles;
    std::string log;
    int next_id = 1;
    bool stop = false;
    long base_allocs = hk_live_allocs, base_bytes = hk_live_bytes;

    std::vector<int> slots; // memory indices used by this world
    std::vector<int> own_slots;
    bool sparse;

    explicit World(Rng& rr)
        : r(rr)
    {
        // In some worlds, most blocks stay unused (also the first one).
        sparse = r.chance(25);
        slots.assign(sparse ? std::end(SLOTS) : std::begin(SLOTS), std::end(SLOTS));
        for (int i = sparse ? r.range(1, 3) : r.chance(60) ? r.range(1, 2) : 0; i > 0; --i)
        {
            int block = sparse ? (r.chance(60) ? r.range(1, 3) : r.range(0, 127)) : r.chance(30) ? 0 : r.range(0, 127);
            int place = r.chance(40) ? r.range(0, 65535) : r.chance(50) ? r.range(0, 3) : 65535 - r.range(0, 3);
            own_slots.push_back(block * 65536 + place);
            slots.push_back(own_slots.back());
        }
        for (int i = 0; i < 2; ++i)
        {
            regs.emplace_back(new Regs());
            for (int k = 0; k < 100; ++k)
            {
                regs.back()->real[k] = regs.back()->model[k] = (F) (k % 7 + i * 100);
            }
        }
    }

    projectm_eval_code* comp(Ctx* c, const std::string& src)
    {
        projectm_eval_code* h = projectm_eval_code_compile(c->c, src.c_str());
        note_error(c);
        if (!h && ++failures % 4 == 0)
        {
            projectm_eval_code_execute(h);
            projectm_eval_code_destroy(h);
        }
        return h;
    }
    int failures = 0;

    // Compiling takes nothing from the stream of random numbers: of the values drawn here, none is missing in between.
    // (Which values they are is not looked at unless they can be found further on in the stream.)
    void random_numbers(Ctx* c)
    {
        static MtStream stream;
        static const char* const texts[] = {"rand(100)", "rand(1)+rand(2)", "rand(0.5);rand(7)", "megabuf(rand(100))=1", "if(rand(2),rand(3),4)", "loop(3,rand(9))", "rand(sin(", "rand(1,2)", "rand(10) rand(5)", "exec3(rand(1),rand(2),rand(3))",
                                            "-rand(1000);1;2;rand(3);rand(4)", "gmem[rand(10)+5]", "while(rand(2))", "floor(rand(10))*2", "rand(rand(8))", "rand(8", "rand()", "memset(rand(2),3,rand(4))", "rand(65536)^2;", "(rand(5);7)"};
        for (int n = r.range(1, 6); n > 0; --n)
        {
            const char* t = r.pick(texts);
            say(fmt("c%d: compile ", c->id) + t);
            if (projectm_eval_code* h = comp(c, t))
            {
                projectm_eval_code_destroy(h);
            }
        }
        projectm_eval_code* h = comp(c, "rand(4294967295)");
        if (!h)
        {
            fail("rand rejected", "rand(4294967295) is rejected");
            return;
        }
        say(fmt("c%d: draw", c->id));
        double got = (double) projectm_eval_code_execute(h);
        projectm_eval_code_destroy(h);
        R.count("draws_between_compilations");
        auto is = [&](uint32_t y) { return std::fabs(got - (double) y) <= 2; };
        uint32_t want = stream.next();
        if (is(want))
        {
            return;
        }
        for (int k = 1; k <= 100; ++k)
        {
            if (is(stream.next()))
            {
                fail("rand consumed", fmt("%d random numbers were consumed by compiling", k));
                return;
            }
        }
    }

    static void note_error(Ctx* c)
    {
        c->error = projectm_eval_get_error(c->c, &c->error_line, &c->error_column);
        c->error_text = c->error ? c->error : "";
    }

    // The error belongs to the context and stays until its next compilation.
    void check_error(Ctx* c)
    {
        R.count("errors_asked_for_again");
        if (c->error && c->error_text != c->error)
        {
            fail("error text changed", fmt("c%d: the error was \"", c->id) + c->error_text + "\", now the text is \"" + std::string(c->error, strnlen(c->error, 200)) + "\"");
            return;
        }
        int line = -5, column = -5;
        const char* e = projectm_eval_get_error(c->c, &line, &column);
        if ((e == nullptr) != (c->error == nullptr) || (e && (e != c->error_text || line != c->error_line || column != c->error_column)))
        {
            fail("error changed", fmt("c%d: the error was \"", c->id) + c->error_text + fmt("\" at %d:%d, now it's \"", c->error_line, c->error_column) + (e ? e : "none") + fmt("\" at %d:%d", line, column));
        }
    }

    void say(const std::string& s)
    {
        log += s + "\n";
        R.note_more("\n" + s);
    }

    void fail(const std::string& key, const std::string& msg)
    {
        R.fail(P + ":" + key, log + "==> " + msg);
        stop = true;
    }

    std::vector<Ctx*> alive()
    {
        std::vector<Ctx*> v;
        for (auto& c : ctxs)
        {
            if (c->alive)
            {
                v.push_back(c.get());
            }
        }
        return v;
    }

    static int reg_index(const std::string& n)
    {
        std::string l = lower(n);
        if (l.size() == 5 && l.compare(0, 3, "reg") == 0 && isdigit((unsigned char) l[3]) && isdigit((unsigned char) l[4]))
        {
            return (l[3] - '0') * 10 + l[4] - '0';
        }
        return -1;
    }

    // Model location of a name; registers it on first use.
    F* location(Ctx* c, const std::string& lname)
    {
        int k = reg_index(lname);
        if (k >= 0)
        {
            return &c->regs->model[k];
        }
        auto it = c->vars.find(lname);
        if (it == c->vars.end())
        {
            it = c->vars.insert({lname, {nullptr, 0}}).first;
        }
        return &it->second.model;
    }

    std::string any_case(const std::string& s)
    {
        Layout l(r);
        return r.chance(40) ? l.swap_case(s) : s;
    }

    void register_var(Ctx* c, const std::string& lname)
    {
        std::string n = any_case(lname);
        F* p = projectm_eval_context_register_variable(c->c, n.c_str());
        ++R.evaluations;
        say(fmt("c%d: register ", c->id) + n.substr(0, 60));
        R.count("variables_registered");
        if (!p)
        {
            fail("register", "NULL returned");
            return;
        }
        int k = reg_index(lname);
        if (k >= 0)
        {
            if (!c->regs->builtin && p != &c->regs->real[k])
            {
                fail("register address", fmt("reg%02d is not the array entry given at creation", k));
            }
            if (!same_number((double) *p, (double) c->regs->model[k]))
            {
                fail("register value", fmt("reg%02d reads %s through the pointer, expected %s", k, num((double) *p).c_str(), num((double) c->regs->model[k]).c_str()));
            }
            return;
        }
        location(c, lname);
        Var& v = c->vars[lname];
        if (v.real && v.real != p)
        {
            fail("variable moved", lname + fmt(": %p before, %p now", (void*) v.real, (void*) p));
            return;
        }
        v.real = p;
        if (!same_number((double) *p, (double) v.model))
        {
            fail("variable value", lname + " is " + num((double) *p) + ", expected " + num((double) v.model));
            return;
        }
        for (auto& o : c->vars)
        {
            if (o.second.real == p && o.first != lname)
            {
                fail("variables share a location", lname + " and " + o.first);
                return;
            }
        }
        for (auto& x : ctxs)
        {
            if (x->alive && x.get() != c)
            {
                for (auto& o : x->vars)
                {
                    if (o.second.real == p)
                    {
                        fail("contexts share a variable", lname);
                        return;
                    }
                }
            }
        }
        R.distinct(hash_str(fmt("%zu/", c->vars.size()) + n));
    }

    Ctx* create()
    {
        std::unique_ptr<Ctx> c(new Ctx());
        c->id = next_id++;
        int rk = r.range(0, 2);
        c->regs = rk == 2 ? &builtin_regs : regs[(size_t) rk].get();
        std::vector<Buf*> usable;
        for (auto& b : bufs)
        {
            if (b->alive)
            {
                usable.push_back(b.get());
            }
        }
        bool builtin = usable.empty() || r.chance(35);
        if (builtin)
        {
            if (!builtin_buf)
            {
                old_builtin.emplace_back(new Buf());
                builtin_buf = old_builtin.back().get();
                builtin_buf->builtin = true;
            }
            c->g = builtin_buf;
        }
        else
        {
            c->g = r.pick(usable);
        }
        c->c = projectm_eval_context_create(builtin ? nullptr : c->g->real, rk == 2 ? nullptr : &c->regs->real);
        say(fmt("create c%d with %s registers, %s gmegabuf", c->id, rk == 2 ? "built-in" : rk ? "second" : "first", builtin ? "built-in" : fmt("custom %p", (void*) c->g->real).c_str()));
        ++R.evaluations;
        if (!c->c)
        {
            fail("create", "NULL returned");
            return nullptr;
        }
        // Observing leaves traces in the context itself, so some contexts are observed only in part or not at all.
        bool quiet = c->quiet = r.chance(30);
        if (!quiet || r.chance(30))
        {
            c->pi = projectm_eval_context_register_variable(c->c, "__probe");
            if (!quiet || r.chance(50))
            {
                c->pm.h = comp(c.get(), "megabuf(__probe)");
            }
            if (!quiet || r.chance(50))
            {
                c->pg.h = comp(c.get(), "gmegabuf(__probe)");
            }
        }
        if (!quiet || r.chance(20))
        {
            for (int k : REG_PROBES)
            {
                c->reg_probes.push_back({k, comp(c.get(), fmt("reg%02d", k))});
            }
        }
        R.count(quiet ? "contexts_observed_in_part" : "contexts_observed_fully");
        ctxs.push_back(std::move(c));
        return ctxs.back().get();
    }

    void destroy_ctx(Ctx* c)
    {
        say(fmt("destroy c%d", c->id));
        // Handles of the context may outlive it (they just must not be executed any more).
        bool probes_first = r.chance(50);
        auto drop = [&] {
            {
                Code a(std::move(c->pm)), b(std::move(c->pg));
            }
            for (auto& p : c->reg_probes)
            {
                projectm_eval_code_destroy(p.second);
            }
            c->reg_probes.clear();
        };
        if (probes_first)
        {
            drop();
        }
        projectm_eval_context_destroy(c->c);
        c->alive = false;
        if (!probes_first)
        {
            drop();
        }
        ++R.evaluations;
        for (size_t i = 0; i < handles.size();)
        {
            if (handles[i].c == c && r.chance(60))
            {
                say("destroy a handle of the destroyed context");
                projectm_eval_code_destroy(handles[i].h);
                handles.erase(handles.begin() + (long) i);
                R.count("handles_destroyed_after_context");
            }
            else
            {
                ++i;
            }
        }
    }

    // A name scripts can use as a variable?
    static bool scriptable(const std::string& n)
    {
        if (n.empty() || !(isalpha((unsigned char) n[0]) || n[0] == '_'))
        {
            return false;
        }
        for (unsigned char x : n)
        {
            if (x >= 128 || !(isalnum(x) || x == '_'))
            {
                return false;
            }
        }
        for (auto& f : fn_table)
        {
            if (n == f.name)
            {
                return false;
            }
        }
        return n != "gmem";
    }

    // Names only the host can use.
    std::string odd_name(Ctx* c)
    {
        static const char* const odd[] = {"", " ", "a ", " a", "a\n", "\t", "reg1/", "reg0:", "reg/0", "reg:0", "reg 1", "reg-1", "reg+1", "reg1a", "reg0x", "reg1 ", " reg1", "reg01 ", " reg01", "reg.1", "reg1.", "reg\xd9\xa1", "[", "{", "@", "`", "^", "~", "]", "}", "\\", "|",
                                          "a[", "a{", "a@", "a`", "\xc3\xa9", "\xc3\x89", "\xe9", "\xc9", "\xff", "\xdf", "\x80", "\x01", "!", "sin", "if", "loop", "megabuf", "gmem", "gmegabuf", "rand", "_if", "_mem", "exec2", "1", "0", "1.5", "$pi", "$", "a.b", "a-b", "x;y", "a=1",
                                          "//", "/*", "%s", "%n%n", "a%d", "r", "re", "reg", "reg0", "egg01", "rfg01", "seg01"};
        if (r.chance(20) && !c->vars.empty())
        {
            auto it = c->vars.begin();
            std::advance(it, r.below((uint32_t) c->vars.size()));
            return lower(it->first + r.pick(std::vector<std::string>{" ", ".", "[", "{", "@", "`", "\x7f", "\xe9"}));
        }
        return r.pick(odd);
    }

    std::string var_name(Ctx* c)
    {
        for (;;)
        {
            std::string n = var_name1(c);
            if (scriptable(n))
            {
                return n;
            }
        }
    }

    std::string last_long;
    std::string var_name1(Ctx* c)
    {
        static const char* const base[] = {"a", "b", "c", "x", "tr", "q1", "bass_att", "reg00", "reg01", "reg09", "reg99", "reg1", "reg100", "a1", "A_long_Variable_name_with_many_characters", "_"};
        if (!c->vars.empty() && r.chance(30))
        {
            auto it = c->vars.begin();
            std::advance(it, r.below((uint32_t) c->vars.size()));
            return it->first;
        }
        if (P == "C14" && r.below(100) < 3)
        {
            // a long one
            R.count("long_names");
            if (!last_long.empty() && r.chance(60))
            {
                std::string n = last_long;
                size_t at = r.chance(60) ? n.size() - 1 - r.below(20) : r.below((uint32_t) n.size() - 5) + 5;
                n[at] = n[at] == 'z' ? 'y' : 'z';
                return n;
            }
            size_t size = (size_t) (r.chance(50) ? r.range(30, 900) : (1 << r.range(5, 10)) + r.range(-3, 25));
            std::string n = fmt("long%u_", r.below(100));
            while (n.size() < size)
            {
                n += "abcdefghijklmnopqrstuvwxyz_0123456789"[r.below(37)];
            }
            return last_long = n;
        }
        if (P == "C15" && r.chance(10))
        {
            // Similar to a register's name: either it is one or it isn't.
            R.count("names_like_registers");
            return near_name(r, fmt("reg%02d", r.range(0, 99)));
        }
        if (P == "C14" && !c->vars.empty() && r.chance(25))
        {
            // a near miss of a known name
            auto it = c->vars.begin();
            std::advance(it, r.below((uint32_t) c->vars.size()));
            std::string n = near_name(r, it->first);
            bool function = isdigit((unsigned char) n[0]) != 0;
            for (auto& f : fn_table)
            {
                function |= n == f.name;
            }
            if (!function && n.size() < 1000)
            {
                R.count("near_miss_names");
                return n;
            }
        }
        if (P == "C14" && r.chance(50))
        {
            return lower(fmt("v%u_%s", r.below(400), r.chance(30) ? "abcdefghij_abcdefghij_abcdefghij" : "x"));
        }
        return lower(r.pick(base));
    }

    std::string program(Ctx* c, bool small)
    {
        GenOpt o;
        o.vars.clear();
        for (int i = 0; i < 4; ++i)
        {
            o.vars.push_back(any_case(var_name(c)));
        }
        o.regs = true;
        o.lists = true;
        o.odd_percent = r.chance(50) ? 25 : 0;
        o.loops = r.chance(50);
        o.blockops = r.chance(50);
        o.freembuf = P == "C16" || r.chance(10);
        o.idx.clear();
        if (!sparse)
        {
            o.idx = {"0", "1", "2", "3", "65535", "65536", "8388607", "4"};
        }
        for (int x : own_slots)
        {
            o.idx.push_back(std::to_string(x));
            o.idx.push_back(std::to_string(x));
        }
        o.max_depth = small ? 2 : r.range(2, 4);
        o.trace_percent = 10;
        Gen g(r, o);
        if (r.chance(4))
        {
            // nothing, or next to nothing
            static const char* const t[] = {"", " ", "\n", ";", ";;;", "/* nothing */", "// nothing", "();()", "()", "1", "\t\n;\n", "0;", "/**/;//"};
            std::string s = r.pick(t);
            if (parse(s)->ok)
            {
                R.count("empty_texts");
                return s;
            }
        }
        if (r.chance(25))
        {
            // simple state changes
            static const char* const t[] = {"%v=%v+1", "megabuf(%i)=%v+1;%v+=megabuf(%i)", "gmem[%i]+=1", "gmem[%i]=%v+2;gmem[%i]", "reg0%d+=1;%v=reg01", "memset(%i,%v,3);megabuf(%i)", "%v=megabuf(%i)+gmem[%i]",
                                            "memcpy(%i,%i,2);%v", "%i[]=%v;%v=%i[1]", "loop(3,%v+=1;gmem[%i]+=%v)", "reg99=%v;reg50+=1", "freembuf(%i);%v=megabuf(%i)", "%v=%i;freembuf(%v);%v+1", "freembuf(%v);memset(%v,%i,1);%v", "%v=%i;megabuf(%v);abs(-1);%v+gmem[%v]"};
            std::string s = r.pick(t), out;
            for (size_t i = 0; i < s.size(); ++i)
            {
                if (s[i] == '%')
                {
                    char k = s[++i];
                    out += k == 'v' ? r.pick(o.vars) : k == 'i' ? r.pick(o.idx) : std::to_string(r.range(0, 9));
                }
                else
                {
                    out += s[i];
                }
            }
            return out;
        }
        return g.program(1, small ? 2 : 4);
    }

    void compile(Ctx* c, bool invalid)
    {
        std::string src = program(c, r.chance(50));
        if (invalid)
        {
            auto toks = lex(src);
            int tries = 0;
            std::unique_ptr<Parse> p;
            do
            {
                std::string s;
                size_t cut = r.below((uint32_t) toks.size());
                for (size_t i = 0; i + 1 < toks.size(); ++i)
                {
                    if (i == cut)
                    {
                        s += r.pick(std::vector<std::string>{" ) ", " sin(1,2) ", " = = ", " 1 2 ", " # ", " ( ", " if(a) ", " , ", " gmem ", " [ ", " newvar1 newvar2 ", " a = ; ", "$"});
                    }
                    s += toks[i].text + " ";
                }
                p = parse(s);
                if (!p->ok)
                {
                    src = s;
                    break;
                }
            } while (++tries < 20);
            if (p->ok)
            {
                src = "1 +";
            }
        }
        if (r.chance(P == "C13" || P == "C02" ? 50 : 20))
        {
            // the same tokens over several lines, with comments
            Layout l(r);
            std::string s = lex(src).size() > 1 ? l.text(lex(src)) : "";
            if (!s.empty())
            {
                src = s;
                R.count("laid_out_texts");
            }
        }
        auto p = parse(src);
        if (invalid && p->ok)
        {
            src = "\n\n/* */\n\n1 + \n";
            p = parse(src);
        }
        if (invalid && p->line > 3)
        {
            R.count("errors_on_later_lines");
        }
        say(fmt("c%d: compile ", c->id) + src);
        ++R.evaluations;
        projectm_eval_code* h;
        {
            StepGuard g(3000000000ull);
            h = comp(c, src);
        }
        R.count(h ? "compiled" : "failed_compilations");
        if (P == "C13" && r.chance(10))
        {
            if (h)
            {
                projectm_eval_code_destroy(h);
            }
            random_numbers(c);
            h = stop ? nullptr : comp(c, src);
        }
        if (stop)
        {
            return;
        }
        const char* err = projectm_eval_get_error(c->c, nullptr, nullptr);
        if ((h != nullptr) != p->ok || (err != nullptr) == p->ok)
        {
            fail("compile", std::string(p->ok ? "a valid" : "an invalid") + " text " + (h ? "compiled" : "was rejected") + ", error " + (err ? err : "none"));
            return;
        }
        if (!h)
        {
            R.distinct(hash_str(src));
            return;
        }
        Handle x;
        x.h = h;
        x.c = c;
        x.src = src;
        for (auto& t : p->toks)
        {
            std::string l = lower(t.text);
            x.uses_g = x.uses_g || l == "gmem" || l == "gmegabuf" || l == "_gmem";
        }
        x.p = std::move(p);
        handles.push_back(std::move(x));
        R.count("handles_compiled");
    }

    // Deep copies for undoing a model run.
    static Memory copy(const Memory& m)
    {
        Memory n;
        for (auto& p : m.pages)
        {
            n.pages[p.first].reset(new std::array<F, 64>(*p.second));
        }
        return n;
    }

    void execute(Handle& x, bool fresh)
    {
        Ctx* c = x.c;
        if (!c->alive || (x.uses_g && !c->g->alive))
        {
            return;
        }
        Env e;
        for (auto& n : x.p->vars)
        {
            location(c, n);
        }
        for (auto& n : x.p->vars)
        {
            e.vars.push_back(location(c, n));
        }
        for (F* v : e.vars)
        {
            if (!ordinary(*v))
            {
                // What the operators do with such numbers isn't the subject here.
                R.count("skipped_special_input");
                return;
            }
        }
        e.mem = &c->mem;
        e.gmem = &c->g->model;
        e.max_steps = 3000;
        Memory m1 = copy(c->mem), m2 = copy(c->g->model);
        auto vars = c->vars;
        F saved[100];
        memcpy(saved, c->regs->model, sizeof saved);
        F want;
        bool ok = run_model(*x.p, e, want);
        // keep numbers within a range that stays specified
        for (auto& v : c->vars)
        {
            auto before = vars.find(v.first);
            if (before != vars.end() && memcmp(&before->second.model, &v.second.model, sizeof(F)) == 0)
            {
                continue;
            }
            ok = ok && std::fabs((double) v.second.model) < 1e9 && (v.second.model == 0 || std::fabs((double) v.second.model) > 1e-9);
        }
        if (!ok)
        {
            c->mem.pages.swap(m1.pages);
            c->g->model.pages.swap(m2.pages);
            for (auto& v : vars)
            {
                c->vars[v.first].model = v.second.model;
            }
            memcpy(c->regs->model, saved, sizeof saved);
            R.count("skipped_unspecified");
            return;
        }
        say(fmt("c%d: execute%s ", c->id, fresh ? " freshly compiled" : "") + x.src);
        StepGuard g(50000000 + e.steps * 400);
        F got;
        if (fresh)
        {
            Code f(c->c, x.src);
            note_error(c);
            got = f.run();
        }
        else
        {
            got = projectm_eval_code_execute(x.h);
            ++x.runs;
        }
        ++R.evaluations;
        R.count(fresh ? "executions_of_fresh_copies" : "executions");
        if (x.runs > 1)
        {
            R.count("repeated_executions");
        }
        R.distinct(hash_str(x.src) ^ hash_str(num((double) want)));
        if (!same_number((double) got, (double) want))
        {
            fail("result", "result " + num((double) got) + ", expected " + num((double) want));
        }
    }

    void verify()
    {
        for (auto& cp : ctxs)
        {
            Ctx* c = cp.get();
            if (!c->alive || stop)
            {
                continue;
            }
            if (r.chance(30))
            {
                check_error(c);
            }
            for (auto& v : c->vars)
            {
                if (!v.second.real)
                {
                    if (r.chance(c->quiet ? 95 : 50))
                    {
                        continue; // only mentioned in scripts so far
                    }
                    v.second.real = projectm_eval_context_register_variable(c->c, any_case(v.first).c_str());
                }
                else if (r.chance(P == "C14" ? 10 : 2))
                {
                    R.count("addresses_compared_again");
                    F* p = projectm_eval_context_register_variable(c->c, any_case(v.first).c_str());
                    if (p != v.second.real)
                    {
                        fail("variable moved", v.first + fmt(": %p before, %p now", (void*) v.second.real, (void*) p));
                        return;
                    }
                }
                R.count("observations");
                if (!same_number((double) *v.second.real, (double) v.second.model))
                {
                    fail("variable", fmt("c%d: ", c->id) + v.first + " is " + num((double) *v.second.real) + ", expected " + num((double) v.second.model));
                    return;
                }
            }
            for (auto& p : c->reg_probes)
            {
                R.count("observations");
                double got = (double) projectm_eval_code_execute(p.second), want = (double) c->regs->model[p.first];
                if (!same_number(got, want))
                {
                    fail("register", fmt("c%d: reg%02d is %s, expected %s", c->id, p.first, num(got).c_str(), num(want).c_str()));
                    return;
                }
            }
            for (int g = 0; g < 2; ++g)
            {
                if ((g && !c->g->alive) || !(g ? c->pg : c->pm))
                {
                    continue;
                }
                for (int s : slots)
                {
                    *c->pi = (F) s;
                    R.count("observations");
                    double got = (double) (g ? c->pg : c->pm).run(), want = (double) (g ? c->g->model : c->mem).get(s);
                    if (!same_number(got, want))
                    {
                        fail("memory", fmt("c%d: %s[%d] is %s, expected %s", c->id, g ? "gmem" : "megabuf", s, num(got).c_str(), num(want).c_str()));
                        return;
                    }
                }
            }
        }
        for (auto& a : regs)
        {
            for (int k = 0; k < 100; ++k)
            {
                if (!same_number((double) a->real[k], (double) a->model[k]))
                {
                    fail("register array", fmt("entry %d is %s, expected %s", k, num((double) a->real[k]).c_str(), num((double) a->model[k]).c_str()));
                    return;
                }
            }
        }
    }

    // A number of repetitions: mostly a few, sometimes beyond what 8- or 16-bit counters hold.
    int repetitions(int bits)
    {
        int b = r.range(3, bits);
        return r.chance(20) ? (1 << b) + r.range(-2, 2) : (int) (1u << b) + (int) r.below(1u << b);
    }

    projectm_eval_code* must_compile(Ctx* c, const std::string& src)
    {
        projectm_eval_code* h = comp(c, src);
        if (!h)
        {
            fail("repeated:compile", "\"" + src + "\" was rejected");
        }
        return h;
    }

    // The same operation very often.
    void burst(Ctx* c)
    {
        int kind = r.range(0, 6);
        R.count("repetition_bursts");
        switch (kind)
        {
            case 0: {
                // executions of one handle, optionally in turn with a second one
                say(fmt("c%d: ", c->id) + "execute counting programs very often");
                F* n = projectm_eval_context_register_variable(c->c, "many_runs");
                F* m = projectm_eval_context_register_variable(c->c, "many_runs2");
                location(c, "many_runs");
                location(c, "many_runs2");
                c->vars["many_runs"].real = n;
                c->vars["many_runs2"].real = m;
                *n = *m = 0;
                static const char* const t[] = {"many_runs+=1", "many_runs=many_runs+1;many_runs", "many_runs+=1;0;(many_runs)", "loop(1,many_runs+=1)", "if(1,many_runs+=1,0)", "many_runs=1+many_runs", "exec2(many_runs+=1,many_runs)"};
                projectm_eval_code* h = must_compile(c, r.pick(t));
                projectm_eval_code* h2 = r.chance(50) ? must_compile(c, "many_runs2=many_runs;many_runs2*2") : nullptr;
                int reps = repetitions(r.chance(20) ? 17 : 10);
                for (int i = 1; h && i <= reps && !stop; ++i)
                {
                    F got = projectm_eval_code_execute(h);
                    if (got != (F) i || *n != (F) i)
                    {
                        fail("repeated:execute", fmt("execution %d: result %g, many_runs is %g", i, (double) got, (double) *n));
                    }
                    if (h2 && (i & 3) == 1)
                    {
                        got = projectm_eval_code_execute(h2);
                        if (got != (F) (2 * i) || *m != (F) i)
                        {
                            fail("repeated:execute", fmt("execution of the second handle after %d executions: result %g, many_runs2 is %g", i, (double) got, (double) *m));
                        }
                    }
                }
                c->vars["many_runs"].model = *n;
                c->vars["many_runs2"].model = *m;
                R.count("burst_executions", (uint64_t) reps);
                projectm_eval_code_destroy(h);
                projectm_eval_code_destroy(h2);
                break;
            }
            case 1:
            case 2: {
                // failing compilations
                static const char* const bad[] = {"1+", "sin(1,2)", "a b", ")", "newvar_b=(1", "1 # 2", "if(1,2)", "x=;", "gmem", "3 4", "nofunc(1)", "a=1;b=2;;c="};
                std::string src = r.pick(bad);
                int reps = repetitions(r.chance(10) ? 12 : 8);
                bool vary = r.chance(40);
                say(fmt("c%d: compile invalid text %d times: ", c->id, reps) + src);
                for (int i = 0; i < reps && !stop; ++i)
                {
                    if (vary)
                    {
                        src = r.pick(bad);
                    }
                    projectm_eval_code* h = comp(c, src);
                    if (h || !projectm_eval_get_error(c->c, nullptr, nullptr))
                    {
                        fail("repeated:failed compilation", fmt("repetition %d: handle %p, error %s", i, (void*) h, projectm_eval_get_error(c->c, nullptr, nullptr) ? "set" : "not set"));
                    }
                }
                R.count("burst_failed_compilations", (uint64_t) reps);
                projectm_eval_code* h = must_compile(c, "1+1");
                if (h)
                {
                    if (projectm_eval_get_error(c->c, nullptr, nullptr))
                    {
                        fail("repeated:error kept", projectm_eval_get_error(c->c, nullptr, nullptr));
                    }
                    if (projectm_eval_code_execute(h) != 2)
                    {
                        fail("repeated:result", "1+1 isn't 2");
                    }
                    projectm_eval_code_destroy(h);
                }
                break;
            }
            case 3: {
                // compilations, all handles alive at the same time or one after another
                int reps = repetitions(r.chance(10) ? 12 : 8);
                bool keep = r.chance(50);
                say(fmt("c%d: compile %d programs%s", c->id, reps, keep ? ", destroy them afterwards" : ""));
                std::vector<projectm_eval_code*> hs;
                for (int i = 0; i < reps && !stop; ++i)
                {
                    hs.push_back(must_compile(c, fmt(i & 1 ? "%d" : "1*%d;0;abs(-%d)", i, i)));
                    if (!keep && hs.back())
                    {
                        F got = projectm_eval_code_execute(hs.back());
                        if (got != (F) i)
                        {
                            fail("repeated:result", fmt("program %d yields %g", i, (double) got));
                        }
                        projectm_eval_code_destroy(hs.back());
                        hs.pop_back();
                    }
                }
                for (size_t i = 0; i < hs.size(); ++i)
                {
                    if (hs[i] && !stop && projectm_eval_code_execute(hs[i]) != (F) i)
                    {
                        fail("repeated:result", fmt("program %zu yields another number", i));
                    }
                }
                while (!hs.empty())
                {
                    size_t i = r.below((uint32_t) hs.size());
                    projectm_eval_code_destroy(hs[i]);
                    hs[i] = hs.back();
                    hs.pop_back();
                }
                R.count("burst_compilations", (uint64_t) reps);
                break;
            }
            case 4: {
                // resets
                int reps = repetitions(r.chance(10) ? 12 : 7);
                bool memory = r.chance(50), use = r.chance(60);
                say(fmt("c%d: %s %d times", c->id, memory ? "free memory" : "reset variables", reps));
                projectm_eval_code* h = use ? must_compile(c, memory ? "megabuf(7)+=1" : "many_runs+=1") : nullptr;
                if (!memory && use)
                {
                    location(c, "many_runs");
                    if (!c->vars["many_runs"].real)
                    {
                        c->vars["many_runs"].real = projectm_eval_context_register_variable(c->c, "many_runs");
                    }
                }
                for (int i = 0; i < reps && !stop; ++i)
                {
                    if (memory)
                    {
                        projectm_eval_context_free_memory(c->c);
                    }
                    else
                    {
                        projectm_eval_context_reset_variables(c->c);
                    }
                    if (h && i + 1 < reps)
                    {
                        F got = projectm_eval_code_execute(h);
                        if (got != 1)
                        {
                            fail("repeated:reset", fmt("after reset %d the value is %g, expected 1", i + 1, (double) got));
                        }
                    }
                }
                projectm_eval_code_destroy(h);
                if (memory)
                {
                    c->mem.clear();
                }
                else
                {
                    if (c->pi)
                    {
                        *c->pi = 0;
                    }
                    for (auto& v : c->vars)
                    {
                        v.second.model = 0;
                    }
                }
                R.count("burst_resets", (uint64_t) reps);
                break;
            }
            case 5: {
                // many contexts and buffers at the same time
                int reps = repetitions(r.chance(10) ? 8 : 5);
                bool own = r.chance(50), shared_regs = r.chance(50);
                say(fmt("%d more contexts with %s buffers", reps, own ? "own" : "the same"));
                struct Extra
                {
                    projectm_eval_context* c;
                    projectm_eval_mem_buffer g;
                    projectm_eval_code* h;
                    F regs[100];
                };
                std::vector<std::unique_ptr<Extra>> x;
                projectm_eval_mem_buffer common = own ? nullptr : projectm_eval_memory_buffer_create();
                for (int i = 0; i < reps && !stop; ++i)
                {
                    x.emplace_back(new Extra());
                    Extra& e = *x.back();
                    memset(e.regs, 0, sizeof e.regs);
                    e.g = own ? projectm_eval_memory_buffer_create() : common;
                    e.c = projectm_eval_context_create(e.g, shared_regs ? &x[0]->regs : &e.regs);
                    e.h = e.c ? projectm_eval_code_compile(e.c, fmt("vv+=%d;megabuf(5)+=%d;gmem[6]+=%d;reg33+=%d;vv", i + 1, i + 2, i + 3, i + 4).c_str()) : nullptr;
                    if (!e.g || !e.c || !e.h)
                    {
                        fail("repeated:create", fmt("context %d could not be created or used", i));
                    }
                }
                double gsum = 0, rsum = 0;
                for (int i = 0; i < reps && !stop; ++i)
                {
                    if (projectm_eval_code_execute(x[(size_t) i]->h) != (F) (i + 1))
                    {
                        fail("repeated:contexts", fmt("context %d has another value in its variable", i));
                    }
                    gsum += i + 3;
                    rsum += i + 4;
                }
                for (int i = 0; i < reps && !stop; ++i)
                {
                    static const char* const what[] = {"vv", "megabuf(5)", "gmem[6]", "reg33"};
                    double want[] = {(double) i + 1, (double) i + 2, own ? i + 3 : gsum, shared_regs ? rsum : i + 4};
                    for (int k = 0; k < 4; ++k)
                    {
                        Code f(x[(size_t) i]->c, what[k]);
                        double got = f ? (double) f.run() : NAN;
                        if (got != want[k])
                        {
                            fail("repeated:contexts", fmt("%s of context %d of %d is %g, expected %g", what[k], i, reps, got, want[k]));
                        }
                    }
                }
                for (size_t left = x.size(); left > 0; --left)
                {
                    size_t i = r.below((uint32_t) left);
                    std::unique_ptr<Extra>& e = x[i];
                    if (r.chance(50))
                    {
                        projectm_eval_code_destroy(e->h);
                        projectm_eval_context_destroy(e->c);
                    }
                    else
                    {
                        projectm_eval_context_destroy(e->c);
                        projectm_eval_code_destroy(e->h);
                    }
                    if (own)
                    {
                        projectm_eval_memory_buffer_destroy(e->g);
                    }
                    std::swap(x[i], x[left - 1]);
                }
                if (!own)
                {
                    projectm_eval_memory_buffer_destroy(common);
                }
                R.count("burst_contexts", (uint64_t) reps);
                break;
            }
            default: {
                // contexts one after another
                int reps = repetitions(r.chance(10) ? 10 : 7);
                say(fmt("create and destroy a context %d times", reps));
                for (int i = 0; i < reps && !stop; ++i)
                {
                    projectm_eval_context* e = projectm_eval_context_create(c->g->alive && !c->g->builtin ? c->g->real : nullptr, &regs[0]->real);
                    F* v = e ? projectm_eval_context_register_variable(e, "vv") : nullptr;
                    projectm_eval_code* h = e ? projectm_eval_code_compile(e, i & 1 ? "vv+=1;megabuf(5)+=1" : "sin(") : nullptr;
                    if (!e || !v || *v != 0 || (i & 1 ? !h || projectm_eval_code_execute(h) != 1 || *v != 1 : h != nullptr))
                    {
                        fail("repeated:create", fmt("context %d isn't as good as new", i));
                    }
                    projectm_eval_code_destroy(h);
                    if (e)
                    {
                        projectm_eval_context_destroy(e);
                    }
                }
                R.count("burst_created_contexts", (uint64_t) reps);
            }
        }
    }

    static bool ordinary(F v)
    {
        double x = std::fabs((double) v);
        return x == 0 ? !std::signbit((double) v) : x > 1e-9 && x < 1e9;
    }

    F special_value()
    {
        switch (r.range(0, 9))
        {
            case 0: return (F) NAN;
            case 1: return (F) INFINITY;
            case 2: return (F) -INFINITY;
            case 3: return (F) -0.0;
            case 4: return sizeof(F) == 4 ? (F) 1e-44 : (F) 4.9e-324;
            case 5: return sizeof(F) == 4 ? (F) FLT_MAX : (F) -DBL_MAX;
            case 6: return (F) 1e-30;
            case 7: return (F) -1e-12;
            case 8: return (F) 8388608.0;
            default: return (F) 12345678912.5;
        }
    }

    void step()
    {
        // weights: create ctx, create buffer, register, host write, compile, bad compile, execute, fresh execute, destroy handle,
        //          reset vars, free memory, destroy ctx, destroy buffer, destroy global
        static const std::map<std::string, std::vector<int>> weights = {
            {"C09", {3, 1, 3, 12, 20, 3, 45, 12, 8, 2, 2, 1, 0, 0}},    {"C13", {2, 1, 6, 8, 35, 35, 20, 2, 6, 2, 2, 1, 0, 0}},
            {"C14", {3, 1, 50, 8, 12, 8, 12, 1, 4, 8, 2, 2, 0, 0}},     {"C15", {10, 5, 5, 12, 15, 2, 40, 2, 4, 3, 3, 4, 1, 1}},
            {"C02", {8, 5, 5, 4, 18, 14, 20, 4, 12, 3, 4, 8, 4, 3}},    {"C16", {4, 2, 8, 8, 15, 2, 30, 3, 4, 14, 14, 2, 0, 0}},    {"C19", {14, 8, 4, 6, 18, 4, 22, 2, 14, 2, 3, 14, 8, 6}},
            {"C22", {8, 4, 8, 8, 16, 8, 25, 8, 8, 4, 4, 5, 3, 2}}};
        const auto& w = weights.at(P);
        int total = 0;
        for (int x : w)
        {
            total += x;
        }
        int k = (int) r.below((uint32_t) total), op = 0;
        while (k >= w[(size_t) op])
        {
            k -= w[(size_t) op++];
        }
        auto a = alive();
        if (a.empty())
        {
            op = 0;
        }
        Ctx* c = a.empty() ? nullptr : r.pick(a);
        if (c && r.below(1000) < 12)
        {
            burst(c);
            if (!stop)
            {
                verify();
            }
            return;
        }
        static const char* const names[] = {"create", "buffer", "register", "host write", "compile", "bad compile", "execute", "fresh", "destroy handle", "reset", "free memory", "destroy ctx", "destroy buffer", "destroy global"};
        seen_ops.insert(names[op]);
        switch (op)
        {
            case 0:
                if (a.size() < (P == "C15" || P == "C19" || P == "C02" ? 5u : 3u))
                {
                    create();
                }
                break;
            case 1:
                if (bufs.size() < 6)
                {
                    bufs.emplace_back(new Buf());
                    bufs.back()->real = projectm_eval_memory_buffer_create();
                    say(fmt("create buffer %p", (void*) bufs.back()->real));
                    if (!bufs.back()->real)
                    {
                        fail("buffer", "NULL returned");
                    }
                    for (auto& b : bufs)
                    {
                        if (b != bufs.back() && b->alive && b->real == bufs.back()->real)
                        {
                            fail("buffer", "same handle as an existing buffer");
                        }
                    }
                }
                break;
            case 2:
                if (r.chance(P == "C14" ? 15 : 4))
                {
                    register_var(c, odd_name(c));
                    R.count("odd_names_registered");
                }
                else if (r.chance(10) && !c->vars.empty())
                {
                    auto it = c->vars.begin();
                    std::advance(it, r.below((uint32_t) c->vars.size()));
                    register_var(c, std::string(it->first));
                }
                else
                {
                    register_var(c, var_name(c));
                }
                if (r.below(1000) < (P == "C14" || P == "C16" ? 10u : 2u))
                {
                    // a lot of variables at once
                    int n = r.range(30, r.chance(20) ? 1200 : 300);
                    bool set = r.chance(50);
                    for (int k = 0; k < n && !stop; ++k)
                    {
                        std::string name = fmt("many%d", k);
                        register_var(c, name);
                        if (set && r.chance(50))
                        {
                            *c->vars[name].real = c->vars[name].model = (F) r.range(1, 9);
                        }
                    }
                    R.count("bursts_of_variables");
                }
                break;
            case 3: {
                F v = (F) (r.chance(50) ? r.range(-3, 6) : r.range(-400, 400) * 0.25);
                if (r.chance(15))
                {
                    v = (F) r.pick(std::vector<int>{127, 128, 255, 256, 1024, 65535, 65536, 65537, 131072, 8388607, 8388608, 8323072});
                }
                int what = r.range(0, 2);
                bool special = r.chance(P == "C13" || P == "C16" || P == "C14" || P == "C19" ? 25 : 10);
                if (special)
                {
                    v = special_value();
                    R.count("special_values_written");
                }
                if (what == 0 && !c->regs->builtin)
                {
                    int i = r.pick(REG_PROBES);
                    say(fmt("host: reg%02d of c%d = %g", i, c->id, (double) v));
                    c->regs->real[i] = c->regs->model[i] = v;
                }
                else
                {
                    for (auto& x : c->vars)
                    {
                        if (x.second.real && (r.chance(special ? 15 : 40) || (!special && !ordinary(x.second.model) && r.chance(70))))
                        {
                            say(fmt("host: %s of c%d = %g", x.first.c_str(), c->id, (double) v));
                            *x.second.real = x.second.model = v;
                            if (special)
                            {
                                v = special_value();
                            }
                            else
                            {
                                v += 1;
                            }
                        }
                    }
                }
                break;
            }
            case 4: compile(c, false); break;
            case 5: compile(c, true); break;
            case 6:
            case 7:
                if (!handles.empty())
                {
                    for (int n = r.range(1, op == 6 ? 4 : 1); n > 0 && !stop; --n)
                    {
                        Handle& h = handles[r.below((uint32_t) handles.size())];
                        for (int m = r.chance(30) ? r.range(1, 4) : 1; m > 0 && !stop; --m)
                        {
                            execute(h, op == 7);
                        }
                    }
                }
                break;
            case 8:
                if (!handles.empty())
                {
                    size_t i = r.below((uint32_t) handles.size());
                    say("destroy handle of " + handles[i].src);
                    projectm_eval_code_destroy(handles[i].h);
                    handles.erase(handles.begin() + (long) i);
                    R.count("handles_destroyed");
                }
                break;
            case 9:
                say(fmt("c%d: reset variables", c->id));
                R.count("variable_resets");
                projectm_eval_context_reset_variables(c->c);
                if (c->pi)
                {
                    *c->pi = 0;
                }
                for (auto& v : c->vars)
                {
                    v.second.model = 0;
                }
                break;
            case 10:
                say(fmt("c%d: free memory", c->id));
                R.count("memory_resets");
                projectm_eval_context_free_memory(c->c);
                c->mem.clear();
                break;
            case 11:
                R.count("contexts_destroyed");
                destroy_ctx(c);
                break;
            case 12: {
                std::vector<Buf*> v;
                for (auto& b : bufs)
                {
                    if (b->alive)
                    {
                        v.push_back(b.get());
                    }
                }
                if (!v.empty())
                {
                    Buf* b = r.pick(v);
                    say(fmt("destroy buffer %p", (void*) b->real));
                    R.count("buffers_destroyed");
                    b->alive = false;
                    projectm_eval_memory_buffer_destroy(b->real);
                }
                break;
            }
            default:
                say("destroy built-in global memory");
                R.count("global_memory_destroyed");
                projectm_eval_memory_global_destroy();
                if (builtin_buf)
                {
                    builtin_buf->alive = false;
                    builtin_buf = nullptr;
                }
        }
        if (!stop)
        {
            verify();
        }
    }

    // Destroys everything left in random order.
    void finish()
    {
        std::vector<std::function<void()>> todo;
        for (auto& h : handles)
        {
            projectm_eval_code* p = h.h;
            todo.push_back([p] { projectm_eval_code_destroy(p); });
        }
        handles.clear();
        for (auto& c : ctxs)
        {
            if (c->alive)
            {
                Ctx* p = c.get();
                todo.push_back([this, p] { destroy_ctx(p); });
            }
        }
        for (auto& b : bufs)
        {
            if (b->alive)
            {
                Buf* p = b.get();
                todo.push_back([p] {
                    p->alive = false;
                    projectm_eval_memory_buffer_destroy(p->real);
                });
            }
        }
        todo.push_back([] {
            projectm_eval_memory_global_destroy();
            if (builtin_buf)
            {
                builtin_buf->alive = false;
                builtin_buf = nullptr;
            }
        });
        say("destroy everything left in random order");
        while (!todo.empty())
        {
            size_t i = r.below((uint32_t) todo.size());
            todo[i]();
            todo.erase(todo.begin() + (long) i);
            R.count("objects_destroyed_at_end");
            if (P == "C19" && r.chance(40))
            {
                verify();
                if (stop)
                {
                    return;
                }
            }
        }
        old_builtin.clear();
        if ((P == "C02" || P == "C19") && (hk_live_allocs != base_allocs || hk_live_bytes != base_bytes))
        {
            fail("left over", fmt("%ld allocations (%ld bytes) of the library are left after everything was destroyed", hk_live_allocs - base_allocs, hk_live_bytes - base_bytes));
        }
        if (P == "C02" || P == "C19")
        {
            R.count("ledgers_balanced");
        }
    }
};

// Contexts, handles and buffers move from thread to thread (one at a time): long-lived ones and ones that end right away.
struct Worker
{
    std::mutex m;
    std::condition_variable cv;
    std::function<void()> job;
    bool busy = false;
    std::thread t;

    Worker()
        : t([this] { loop(); })
    {
        t.detach();
    }
    void loop()
    {
        for (;;)
        {
            std::unique_lock<std::mutex> l(m);
            cv.wait(l, [this] { return busy; });
            job();
            busy = false;
            cv.notify_all();
        }
    }
    void run(std::function<void()> f)
    {
        std::unique_lock<std::mutex> l(m);
        job = std::move(f);
        busy = true;
        cv.notify_all();
        cv.wait(l, [this] { return !busy; });
    }
};

static void handover_case(World& w, int n)
{
    static Worker* workers[3] = {new Worker(), new Worker(), new Worker()};
    int where = 0;
    auto elsewhere = [&](const std::function<void()>& f) {
        if (R.rng.chance(50))
        {
            where = R.rng.range(0, 5);
            R.count("thread_changes");
        }
        w.say(where == 0 ? "  (first thread)" : where <= 3 ? fmt("  (thread %d)", where) : "  (a new thread)");
        if (where == 0)
        {
            f();
        }
        else if (where <= 3)
        {
            workers[where - 1]->run(f);
        }
        else
        {
            std::thread(f).join();
        }
    };
    for (int i = 0; i < n && !w.stop; ++i)
    {
        elsewhere([&] { w.step(); });
    }
    if (!w.stop)
    {
        elsewhere([&] { w.finish(); });
    }
}

void harness_case()
{
    R.note("");
    World w(R.rng);
    w.bufs.emplace_back(new Buf());
    w.bufs.back()->real = projectm_eval_memory_buffer_create();
    w.create();
    if (R.rng.chance(60))
    {
        w.create();
    }
    int n = R.rng.range(15, 60);
    if (R.mode == "handover")
    {
        handover_case(w, n);
    }
    else
    {
        for (int i = 0; i < n && !w.stop; ++i)
        {
            w.step();
        }
        if (!w.stop)
        {
            w.finish();
        }
    }
    R.sample(w.log);
}

#include "model.hpp"

// ================================================================ lexer
static bool is_digit(char c) { return c >= '0' && c <= '9'; }
static bool is_hex(char c) { return is_digit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool is_name0(char c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool is_name(char c) { return is_name0(c) || is_digit(c); }

// Length of a decimal number at s[i..], 0 if none.
static size_t number_length(const std::string& s, size_t i)
{
    size_t p = i;
    size_t ints = 0, fracs = 0;
    while (p < s.size() && is_digit(s[p]))
    {
        ++p;
        ++ints;
    }
    if (p < s.size() && s[p] == '.')
    {
        size_t q = p + 1;
        while (q < s.size() && is_digit(s[q]))
        {
            ++q;
            ++fracs;
        }
        if (ints || fracs)
        {
            p = q;
        }
    }
    if (!ints && !fracs)
    {
        return 0;
    }
    if (p < s.size() && (s[p] == 'e' || s[p] == 'E'))
    {
        size_t q = p + 1;
        if (q < s.size() && (s[q] == '+' || s[q] == '-'))
        {
            ++q;
        }
        if (q < s.size() && is_digit(s[q]))
        {
            while (q < s.size() && is_digit(s[q]))
            {
                ++q;
            }
            p = q;
        }
    }
    return p - i;
}

std::vector<Token> lex(const std::string& s)
{
    std::vector<Token> out;
    size_t i = 0, line_start = 0;
    int line = 1;
    auto newline = [&](size_t pos) {
        ++line;
        line_start = pos + 1;
    };
    while (i < s.size())
    {
        char c = s[i];
        char d = i + 1 < s.size() ? s[i + 1] : 0;
        if (c == '\n')
        {
            newline(i++);
            continue;
        }
        if (c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f')
        {
            ++i;
            continue;
        }
        if (c == '/' && d == '*')
        {
            i += 2;
            while (i < s.size() && !(s[i] == '*' && i + 1 < s.size() && s[i + 1] == '/'))
            {
                if (s[i] == '\n')
                {
                    newline(i);
                }
                ++i;
            }
            i = i < s.size() ? i + 2 : i;
            continue;
        }
        if (c == '/' && d == '/')
        {
            while (i < s.size() && s[i] != '\n')
            {
                ++i;
            }
            continue;
        }
        Token t;
        t.line = line;
        t.col = (int) (i - line_start);
        size_t n = 0;
        if (c == '$')
        {
            t.t = T_NUM;
            std::string rest = lower(s.substr(i + 1, 3));
            if ((d == 'x' || d == 'X') && i + 2 < s.size() && is_hex(s[i + 2]))
            {
                n = 2;
                uint64_t v = 0;
                while (i + n < s.size() && is_hex(s[i + n]))
                {
                    if (v >> 60)
                    {
                        t.unspec = true;
                    }
                    char h = s[i + n];
                    v = v * 16 + (uint64_t) (is_digit(h) ? h - '0' : (h | 32) - 'a' + 10);
                    ++n;
                }
                t.val = (F) v;
            }
            else if (d == '\'' && i + 3 < s.size() && s[i + 2] != '\n' && s[i + 3] == '\'')
            {
                n = 4;
                unsigned char ch = (unsigned char) s[i + 2];
                t.unspec = ch >= 128;
                t.val = (F) ch;
            }
            else if (rest.substr(0, 3) == "phi")
            {
                n = 4;
                t.val = (F) 1.61803399;
            }
            else if (rest.substr(0, 2) == "pi")
            {
                n = 3;
                t.val = (F) 3.141592653589793;
            }
            else if (d == 'e' || d == 'E')
            {
                n = 2;
                t.val = (F) 2.71828183;
            }
            else
            {
                t.t = T_BAD;
                n = 1;
            }
        }
        else if (size_t len = number_length(s, i))
        {
            n = len;
            t.t = T_NUM;
            t.val = (F) parse_c_double(s.substr(i, n));
        }
        else if (is_name0(c))
        {
            while (i + n < s.size() && is_name(s[i + n]))
            {
                ++n;
            }
            std::string name = s.substr(i, n);
            t.t = lower(name) == "gmem" ? T_GMEM : find_fn(name) ? T_FUNC : T_VAR;
        }
        else
        {
            t.t = T_BAD;
            n = 1;
            for (int k = T_SET; k < T_COUNT; ++k)
            {
                size_t len = strlen(tok_text[k]);
                if ((len > n || t.t == T_BAD) && s.compare(i, len, tok_text[k]) == 0)
                {
                    t.t = (Tok) k;
                    n = len;
                }
            }
        }
        t.text = s.substr(i, n);
        out.push_back(t);
        i += n;
    }
    Token e;
    e.line = line;
    e.col = (int) (s.size() - line_start);
    out.push_back(e);
    return out;
}

// ================================================================ parser
// Binding levels, loosest to tightest.
enum
{
    L_SET = 1, L_ADDOP, L_MULOP, L_POWOP, L_TERNARY, L_BOOLOR, L_BOOLAND, L_BITOR, L_BITAND, L_EQ, L_GT, L_LT, L_ADD,
    L_MUL, L_MOD, L_NOT, L_POW, L_NEG, L_SUBSCRIPT
};

struct OpInfo
{
    int level;
    bool right;
    Fn f;
};

static OpInfo op_info(Tok t)
{
    switch (t)
    {
        case T_SET: return {L_SET, true, F_SET};
        case T_ADDOP: return {L_ADDOP, true, F_ADDOP};
        case T_SUBOP: return {L_ADDOP, true, F_SUBOP};
        case T_MULOP: return {L_MULOP, true, F_MULOP};
        case T_DIVOP: return {L_MULOP, true, F_DIVOP};
        case T_MODOP: return {L_MULOP, true, F_MODOP};
        case T_POWOP: return {L_POWOP, true, F_POWOP};
        case T_OROP: return {L_POWOP, true, F_OROP};
        case T_ANDOP: return {L_POWOP, true, F_ANDOP};
        case T_QUESTION: return {L_TERNARY, true, F_IF};
        case T_BOOLOR: return {L_BOOLOR, false, F_LOR};
        case T_BOOLAND: return {L_BOOLAND, false, F_LAND};
        case T_OR: return {L_BITOR, false, F_BITOR};
        case T_AND: return {L_BITAND, false, F_BITAND};
        case T_EQ: return {L_EQ, false, F_EQ};
        case T_NE: return {L_EQ, false, F_NE};
        case T_GT: return {L_GT, false, F_GT};
        case T_GE: return {L_GT, false, F_GE};
        case T_LT: return {L_LT, false, F_LT};
        case T_LE: return {L_LT, false, F_LE};
        case T_PLUS: return {L_ADD, false, F_ADD};
        case T_MINUS: return {L_ADD, false, F_SUB};
        case T_MUL: return {L_MUL, false, F_MUL};
        case T_DIV: return {L_MUL, false, F_DIV};
        case T_MOD: return {L_MOD, false, F_MOD};
        case T_POW: return {L_POW, false, F_POW};
        default: return {0, false, F_NONE};
    }
}

namespace
{
struct Parser
{
    Parse& p;
    size_t i = 0;
    int depth = 0;
    explicit Parser(Parse& pp)
        : p(pp)
    {
    }

    const Token& t(size_t k = 0) const { return p.toks[std::min(i + k, p.toks.size() - 1)]; }

    [[noreturn]] void error()
    {
        p.err_token = i;
        p.at_eof = t().t == T_EOF;
        p.line = t().line;
        p.col = t().col;
        throw Stop();
    }

    void expect(Tok k)
    {
        if (t().t != k)
        {
            error();
        }
        ++i;
    }

    struct Deeper
    {
        Parser& q;
        explicit Deeper(Parser& qq)
            : q(qq)
        {
            if (++q.depth > q.p.depth)
            {
                q.p.depth = q.depth;
            }
        }
        ~Deeper() { --q.depth; }
    };

    Node* node(Node::Kind k)
    {
        p.arena.emplace_back();
        p.arena.back().k = k;
        return &p.arena.back();
    }

    Node* call(Fn f, Tok op, std::vector<Node*> a)
    {
        Node* n = node(Node::CALL);
        n->f = f;
        n->op = op;
        n->a = std::move(a);
        return n;
    }

    // instruction-list; stops in front of a token it can't consume.
    Node* list()
    {
        Deeper d(*this);
        std::vector<Node*> items;
        items.push_back(expression(0));
        while (t().t == T_SEMI)
        {
            ++i;
            if (t().t == T_LPAR && t(1).t == T_RPAR)
            {
                i += 2; // "()" is an empty expression
                continue;
            }
            if (t().t == T_SEMI || t().t == T_EOF || t().t == T_RPAR || t().t == T_COMMA)
            {
                // An empty expression is valid here; whether the token is depends on the caller.
                continue;
            }
            items.push_back(expression(0));
        }
        if (items.size() == 1)
        {
            return items[0];
        }
        Node* n = node(Node::LIST);
        n->a = items;
        return n;
    }

    Node* primary()
    {
        const Token tk = t();
        switch (tk.t)
        {
            case T_NUM: {
                ++i;
                Node* n = node(Node::CONST);
                n->val = tk.val;
                n->unspec = tk.unspec;
                n->name = tk.text;
                p.unspec = p.unspec || tk.unspec;
                return n;
            }
            case T_VAR: {
                ++i;
                Node* n = node(Node::VAR);
                std::string name = lower(tk.text);
                size_t k = 0;
                while (k < p.vars.size() && p.vars[k] != name)
                {
                    ++k;
                }
                if (k == p.vars.size())
                {
                    p.vars.push_back(name);
                }
                n->var = (int) k;
                n->name = tk.text;
                return n;
            }
            case T_GMEM: {
                ++i;
                expect(T_LBR);
                if (t().t == T_RBR)
                {
                    ++i;
                    return call(F_GMEM, T_GMEM, {node(Node::CONST)});
                }
                Node* x = expression(0);
                expect(T_RBR);
                return call(F_GMEM, T_GMEM, {x});
            }
            case T_FUNC: {
                const size_t at = i;
                ++i;
                expect(T_LPAR);
                std::vector<Node*> args;
                args.push_back(list());
                while (t().t == T_COMMA)
                {
                    ++i;
                    args.push_back(list());
                }
                expect(T_RPAR);
                const FnInfo* f = find_fn(tk.text);
                if (f->argc != (int) args.size())
                {
                    p.argcount = true;
                    p.fn_name = tk.text;
                    p.fn_expected = f->argc;
                    p.fn_given = (int) args.size();
                    i = at;
                    error();
                }
                Node* n = call(f->f, T_FUNC, args);
                n->name = tk.text;
                return n;
            }
            case T_LPAR: {
                ++i;
                Node* n = list();
                expect(T_RPAR);
                return n;
            }
            case T_MINUS: {
                ++i;
                Deeper d(*this);
                return call(F_NEG, T_MINUS, {expression(L_NEG)});
            }
            case T_PLUS: {
                ++i;
                Deeper d(*this);
                return expression(L_NEG);
            }
            case T_NOT: {
                ++i;
                Deeper d(*this);
                return call(F_NOT, T_NOT, {expression(L_NOT)});
            }
            default: error();
        }
    }

    // Consumes operators that bind at least as tight as min_level.
    Node* expression(int min_level)
    {
        Deeper d(*this);
        Node* left = primary();
        for (;;)
        {
            Tok k = t().t;
            if (k == T_LBR)
            {
                if (L_SUBSCRIPT < min_level)
                {
                    return left;
                }
                ++i;
                if (t().t == T_RBR)
                {
                    ++i;
                    left = call(F_MEM, T_LBR, {left});
                }
                else
                {
                    Node* x = expression(0);
                    expect(T_RBR);
                    left = call(F_MEM, T_LBR, {call(F_ADD, T_LBR, {left, x})});
                }
                continue;
            }
            OpInfo o = op_info(k);
            if (!o.level || o.level < min_level)
            {
                return left;
            }
            ++i;
            if (k == T_QUESTION)
            {
                Node* yes = expression(0);
                expect(T_COLON);
                Node* no = expression(L_TERNARY);
                left = call(F_IF, T_QUESTION, {left, yes, no});
                continue;
            }
            Node* right = expression(o.right ? o.level : o.level + 1);
            left = call(o.f, k, {left, right});
        }
    }

    void program()
    {
        if (t().t == T_EOF)
        {
            p.empty = true;
            return;
        }
        p.root = list();
        if (t().t != T_EOF)
        {
            error();
        }
    }
};
} // namespace

std::unique_ptr<Parse> parse(const std::string& src)
{
    std::unique_ptr<Parse> p(new Parse());
    p->toks = lex(src);
    Parser q(*p);
    try
    {
        q.program();
        p->ok = true;
    }
    catch (Stop&)
    {
        p->ok = false;
    }
    return p;
}

// ================================================================ rendering
static std::string literal(const Node* n)
{
    if (!n->name.empty())
    {
        return n->name;
    }
    return num((double) n->val);
}

std::string render(const Parse& p, const Node* n, int style)
{
    auto sub = [&](const Node* c) {
        std::string s = render(p, c, style);
        if (c->k == Node::CONST || c->k == Node::VAR)
        {
            return s;
        }
        return "(" + s + ")";
    };
    switch (n->k)
    {
        case Node::CONST: return literal(n);
        case Node::VAR: return n->name;
        case Node::LIST: {
            std::string s;
            for (auto* c : n->a)
            {
                s += (s.empty() ? "" : ";") + sub(c);
            }
            return s;
        }
        case Node::CALL: break;
    }
    if (style == 1 && n->op != T_FUNC && n->f != F_BITAND && n->f != F_BITOR)
    {
        for (auto& f : fn_table)
        {
            if (f.f == n->f)
            {
                std::string s = std::string(f.name) + "(";
                for (size_t k = 0; k < n->a.size(); ++k)
                {
                    s += (k ? "," : "") + render(p, n->a[k], style);
                }
                return s + ")";
            }
        }
    }
    switch (n->op)
    {
        case T_FUNC: {
            std::string s = n->name + "(";
            for (size_t k = 0; k < n->a.size(); ++k)
            {
                s += (k ? "," : "") + render(p, n->a[k], style);
            }
            return s + ")";
        }
        case T_GMEM: return n->a[0]->k == Node::CONST && n->a[0]->name.empty() ? "gmem[]" : "gmem[" + sub(n->a[0]) + "]";
        case T_LBR:
            if (n->f == F_MEM && n->a[0]->k == Node::CALL && n->a[0]->op == T_LBR && n->a[0]->f == F_ADD)
            {
                return sub(n->a[0]->a[0]) + "[" + sub(n->a[0]->a[1]) + "]";
            }
            return sub(n->a[0]) + "[]";
        case T_QUESTION: return sub(n->a[0]) + "?" + sub(n->a[1]) + ":" + sub(n->a[2]);
        default:
            if (n->a.size() == 1)
            {
                return std::string(tok_text[n->op]) + sub(n->a[0]);
            }
            return sub(n->a[0]) + tok_text[n->op] + sub(n->a[1]);
    }
}

// ================================================================ evaluation
static const double TINY = sizeof(F) == 4 ? 1e-41 : 1e-300;

static F checked(Env& e, double exact)
{
    F r = (F) exact;
    if (!std::isfinite((double) r) || (r == 0 && exact != 0) ||
        (r != 0 && std::fabs((double) r) < (sizeof(F) == 4 ? 1.2e-38 : 1e-299)))
    {
        e.unspec = true;
        e.why = "range";
        throw Stop();
    }
    return r;
}

static F noisy(Env& e, F r, double scale = 1)
{
    if (r != 0)
    {
        r = (F) ((double) r * (1 + e.noise * scale * (2 * e.noise_rng->unit() - 1)));
    }
    return r;
}

// The result of a function of the C library (or of several rounded steps).
static F libm(Env& e, double exact, double arg = 1)
{
    F r = checked(e, exact);
    return e.noise == 0 || arg == 0 ? r : noisy(e, r);
}

// The result of one IEEE operation.
enum IeeeOp { I_ADD, I_SUB, I_MUL, I_DIV };
static F ieee(Env& e, IeeeOp op, F x, F y, F r)
{
    checked(e, (double) r);
    if (e.noise == 0 || !e.noise_ieee)
    {
        return r;
    }
    double a = (double) x, b = (double) y, s = (double) r;
    bool exact;
    if (op == I_ADD || op == I_SUB)
    {
        b = op == I_SUB ? -b : b;
        double bb = s - a, err = (a - (s - bb)) + (b - bb);
        exact = err == 0;
    }
    else
    {
        exact = op == I_MUL ? std::fma(a, b, -s) == 0 : std::fma(s, b, -a) == 0;
    }
    return exact ? r : noisy(e, r);
}

[[noreturn]] static void unspecified(Env& e, const char* why)
{
    e.unspec = true;
    e.why = why;
    throw Stop();
}

static int32_t to_int32(Env& e, F v)
{
    double d = (double) v;
    if (!(d > -2147483649.0 && d < 2147483648.0))
    {
        unspecified(e, "int range");
    }
    return (int32_t) d;
}

// Marks the outcome as rounding-dependent when a discontinuity is hit too closely.
static void near(Env& e, double a, double b)
{
    if (!e.fragile_check || a == b)
    {
        return;
    }
    double m = std::fmax(std::fabs(a), std::fabs(b));
    if (std::fabs(a - b) <= e.fragile_rel * m)
    {
        e.fragile = true;
    }
}

// Equality isn't specified for infinities, NaN and differences which are almost zero.
static void comparable(Env& e, double a, double b)
{
    double d = std::fabs(a - b);
    if (d != d || (d != 0 && d <= 2 * TINY))
    {
        unspecified(e, "equality");
    }
}

static void near_integer(Env& e, double v)
{
    if (e.fragile_check)
    {
        double r = std::nearbyint(v);
        if (v != r)
        {
            near(e, v, r);
        }
    }
}

F model_invsqrt(F x)
{
    F half = (F) (x * (F) 0.5);
    F y;
    if (sizeof(F) == 4)
    {
        uint32_t u;
        float f = (float) x;
        memcpy(&u, &f, 4);
        u = 0x5f3759dfu - (u >> 1);
        memcpy(&f, &u, 4);
        y = (F) f;
    }
    else
    {
        uint64_t u;
        double f = (double) x;
        memcpy(&u, &f, 8);
        u = 0x5fe6eb50c7b537a9ull - (u >> 1);
        memcpy(&f, &u, 8);
        y = (F) f;
    }
    return y * ((F) 1.5 - (half * y * y));
}

static double block_arg(double v) { return std::floor(v + 0.0001); }

void model_memset(Memory& m, double dest, F value, double count)
{
    double d = block_arg(dest), c = block_arg(count);
    double lo = std::fmax(d, 0), hi = std::fmin(d + c, (double) MEM_SLOTS);
    for (int64_t i = (int64_t) lo; lo < hi && i < (int64_t) hi; ++i)
    {
        *m.at(i) = value;
    }
}

void model_memcpy(Memory& m, double dest, double src, double count)
{
    double d = block_arg(dest), s = block_arg(src), c = block_arg(count);
    // Positions k in [0,c) with both d+k and s+k inside the buffer.
    double lo = std::fmax(0, std::fmax(-d, -s));
    double hi = std::fmin(c, std::fmin((double) MEM_SLOTS - d, (double) MEM_SLOTS - s));
    if (!(lo < hi))
    {
        return;
    }
    if (hi - lo > 20000)
    {
        // The same for large areas, looking at used parts only.
        int64_t s0 = (int64_t) s + (int64_t) lo, d0 = (int64_t) d + (int64_t) lo, n = (int64_t) hi - (int64_t) lo;
        std::vector<std::pair<int64_t, F>> values;
        for (auto& x : m.nonzero())
        {
            if (x.first >= s0 && x.first < s0 + n)
            {
                values.push_back({x.first - s0 + d0, x.second});
            }
        }
        for (auto& p : m.pages)
        {
            for (int j = 0; j < 64; ++j)
            {
                if (p.first * 64 + j >= d0 && p.first * 64 + j < d0 + n)
                {
                    (*p.second)[(size_t) j] = 0;
                }
            }
        }
        for (auto& x : values)
        {
            *m.at(x.first) = x.second;
        }
        return;
    }
    std::vector<F> tmp;
    tmp.reserve((size_t) (hi - lo));
    for (int64_t k = (int64_t) lo; k < (int64_t) hi; ++k)
    {
        tmp.push_back(m.get((int64_t) s + k));
    }
    for (int64_t k = (int64_t) lo; k < (int64_t) hi; ++k)
    {
        F v = tmp[(size_t) (k - (int64_t) lo)];
        if (v != 0 || m.get((int64_t) d + k) != 0)
        {
            *m.at((int64_t) d + k) = v;
        }
    }
}

static Val value(F v)
{
    Val r;
    r.v = v;
    return r;
}

static Val ref(F* p)
{
    Val r;
    r.ref = p;
    return r;
}

// a OP= b: the target's and the operand's current values are combined after both were evaluated.
static Val store(Env& e, Val target, F v)
{
    if (target.ref)
    {
        ++e.ref_writes;
        *target.ref = v;
        return target;
    }
    ++e.value_writes;
    return value(v);
}

static F model_pow(Env& e, double x, double y)
{
    double r = std::pow(x, y);
    // small integer powers are exact
    return libm(e, r, r == std::floor(r) && x == std::floor(x) && y == std::floor(y) && std::fabs(r) < (sizeof(F) == 4 ? 1e7 : 1e15) ? 0 : 1);
}

Val eval(const Node* n, Env& e)
{
    if (++e.steps > e.max_steps)
    {
        e.toolong = true;
        throw Stop();
    }
    switch (n->k)
    {
        case Node::CONST:
            if (n->unspec)
            {
                unspecified(e, "literal");
            }
            if (n->val != 0)
            {
                checked(e, (double) n->val);
            }
            return value(n->val);
        case Node::VAR: return ref(e.vars[(size_t) n->var]);
        case Node::LIST: {
            Val v;
            for (auto* c : n->a)
            {
                v = eval(c, e);
            }
            return v;
        }
        case Node::CALL: break;
    }
    ++e.fn_count[n->f];
    auto arg = [&](int k) { return eval(n->a[(size_t) k], e); };
    auto two = [&](double& a, double& b) {
        Val va = arg(0);
        Val vb = arg(1);
        a = (double) va.get();
        b = (double) vb.get();
    };
    double a, b;
    switch (n->f)
    {
        case F_IF: {
            Val c = arg(0);
            F cv = c.get();
            near(e, (double) cv, 0);
            return cv != 0 ? arg(1) : arg(2);
        }
        case F_LAND: {
            F l = arg(0).get();
            if (!(std::fabs((double) l) > TINY))
            {
                ++e.short_circuits;
                return value(0);
            }
            return value(std::fabs((double) arg(1).get()) > TINY ? (F) 1 : (F) 0);
        }
        case F_LOR: {
            F l = arg(0).get();
            if (!(std::fabs((double) l) < TINY))
            {
                ++e.short_circuits;
                return value(1);
            }
            return value(std::fabs((double) arg(1).get()) > TINY ? (F) 1 : (F) 0);
        }
        case F_LOOP: {
            Val c = arg(0);
            double cnt = (double) c.get();
            near_integer(e, cnt);
            if (!(cnt >= 1))
            {
                ++e.loops0;
                return c;
            }
            int64_t k = cnt >= 1048576.0 ? 1048576 : (int64_t) cnt;
            e.loop_caps += cnt >= 1048577.0;
            Val v;
            for (int64_t j = 0; j < k; ++j)
            {
                ++e.loop_iters;
                v = arg(1);
            }
            return v;
        }
        case F_WHILE: {
            Val v;
            int64_t left = 1048576;
            for (;;)
            {
                ++e.loop_iters;
                v = arg(0);
                if (!(std::fabs((double) v.get()) > TINY))
                {
                    break;
                }
                if (--left == 0)
                {
                    ++e.loop_caps;
                    break;
                }
            }
            return v;
        }
        case F_NOT: {
            double x = (double) arg(0).get();
            return value(std::fabs(x) < TINY ? (F) 1 : (F) 0);
        }
        case F_EQ: two(a, b); near(e, a, b); comparable(e, a, b); return value(a == b ? (F) 1 : (F) 0);
        case F_NE: two(a, b); near(e, a, b); comparable(e, a, b); return value(a == b ? (F) 0 : (F) 1);
        case F_LT: two(a, b); near(e, a, b); return value(a < b ? (F) 1 : (F) 0);
        case F_GT: two(a, b); near(e, a, b); return value(a > b ? (F) 1 : (F) 0);
        case F_LE: two(a, b); near(e, a, b); return value(a <= b ? (F) 1 : (F) 0);
        case F_GE: two(a, b); near(e, a, b); return value(a >= b ? (F) 1 : (F) 0);
        case F_SET: {
            Val t = arg(0);
            Val v = arg(1);
            return store(e, t, v.get());
        }
        case F_ADD: {
            Val x = arg(0), y = arg(1);
            return value(ieee(e, I_ADD, x.get(), y.get(), x.get() + y.get()));
        }
        case F_SUB: {
            Val x = arg(0), y = arg(1);
            return value(ieee(e, I_SUB, x.get(), y.get(), x.get() - y.get()));
        }
        case F_MUL: {
            Val x = arg(0), y = arg(1);
            F s = x.get() * y.get();
            if (s == 0 && x.get() != 0 && y.get() != 0)
            {
                unspecified(e, "underflow");
            }
            return value(ieee(e, I_MUL, x.get(), y.get(), s));
        }
        case F_DIV: {
            Val x = arg(0), y = arg(1);
            F d = y.get();
            if (d == 0)
            {
                return value(0);
            }
            if (std::fabs((double) d) <= 2 * TINY)
            {
                unspecified(e, "division by almost zero");
            }
            F s = x.get() / d;
            if (s == 0 && x.get() != 0)
            {
                unspecified(e, "underflow");
            }
            return value(ieee(e, I_DIV, x.get(), d, s));
        }
        case F_MOD: {
            two(a, b);
            near_integer(e, a);
            near_integer(e, b);
            int64_t x = to_int32(e, (F) a), y = to_int32(e, (F) b);
            return value(y == 0 ? (F) 0 : (F) (x % y));
        }
        case F_BITOR: {
            two(a, b);
            near_integer(e, a);
            near_integer(e, b);
            return value((F) (to_int32(e, (F) a) | to_int32(e, (F) b)));
        }
        case F_BITAND: {
            two(a, b);
            near_integer(e, a);
            near_integer(e, b);
            return value((F) (to_int32(e, (F) a) & to_int32(e, (F) b)));
        }
        case F_ADDOP: case F_SUBOP: case F_MULOP: case F_DIVOP: case F_MODOP: case F_OROP: case F_ANDOP: case F_POWOP: {
            Val t = arg(0);
            Val v = arg(1);
            F x = t.get(), y = v.get(), r = 0;
            switch (n->f)
            {
                case F_ADDOP: r = ieee(e, I_ADD, x, y, x + y); break;
                case F_SUBOP: r = ieee(e, I_SUB, x, y, x - y); break;
                case F_MULOP:
                    r = x * y;
                    if (r == 0 && x != 0 && y != 0)
                    {
                        unspecified(e, "underflow");
                    }
                    r = ieee(e, I_MUL, x, y, r);
                    break;
                case F_DIVOP:
                    if (y != 0 && std::fabs((double) y) <= 2 * TINY)
                    {
                        unspecified(e, "division by almost zero");
                    }
                    r = y == 0 ? (F) 0 : x / y;
                    if (r == 0 && x != 0 && y != 0)
                    {
                        unspecified(e, "underflow");
                    }
                    r = y == 0 ? r : ieee(e, I_DIV, x, y, r);
                    break;
                case F_POWOP:
                    if (x == 0 && std::signbit((double) x))
                    {
                        unspecified(e, "pow(-0)");
                    }
                    r = model_pow(e, (double) x, (double) y);
                    break;
                default: {
                    near_integer(e, (double) x);
                    near_integer(e, (double) y);
                    int64_t p = to_int32(e, x), q = to_int32(e, y);
                    r = n->f == F_MODOP ? (q == 0 ? (F) 0 : (F) (p % q)) : n->f == F_OROP ? (F) ((int32_t) p | (int32_t) q)
                                                                                          : (F) ((int32_t) p & (int32_t) q);
                }
            }
            checked(e, (double) r);
            return store(e, t, r);
        }
        case F_SIN: a = (double) arg(0).get(); return value(libm(e, std::sin(a), a));
        case F_COS: a = (double) arg(0).get(); return value(libm(e, std::cos(a), a));
        case F_TAN: a = (double) arg(0).get(); return value(libm(e, std::tan(a), a));
        case F_ASIN: a = (double) arg(0).get(); near(e, std::fabs(a), 1); return value(libm(e, std::asin(a), a));
        case F_ACOS: a = (double) arg(0).get(); near(e, std::fabs(a), 1); return value(libm(e, std::acos(a), a - 1));
        case F_ATAN: a = (double) arg(0).get(); return value(libm(e, std::atan(a), a));
        case F_ATAN2:
            two(a, b);
            if ((a == 0 && std::signbit(a)) || (b == 0 && std::signbit(b)) || (e.noise_ieee && (a == 0 || b == 0)))
            {
                unspecified(e, "signed zero"); // (without fast math only negative ones)
            }
            return value(libm(e, std::atan2(a, b)));
        case F_SQR: {
            F x = arg(0).get();
            F s = x * x;
            if (s == 0 && x != 0)
            {
                unspecified(e, "underflow");
            }
            return value(ieee(e, I_MUL, x, x, s));
        }
        case F_SQRT: {
            a = (double) arg(0).get();
            if (a < 0)
            {
                unspecified(e, "sqrt of negative");
            }
            return value(e.noise_ieee ? libm(e, std::sqrt(a)) : checked(e, std::sqrt(a)));
        }
        case F_POW:
            two(a, b);
            if (a == 0 && std::signbit(a))
            {
                unspecified(e, "pow(-0)");
            }
            return value(model_pow(e, a, b));
        case F_EXP: a = (double) arg(0).get(); return value(libm(e, std::exp(a), a));
        case F_NEG: return value(-arg(0).get());
        case F_LOG: a = (double) arg(0).get(); return value(libm(e, std::log(a), a - 1));
        case F_LOG10: a = (double) arg(0).get(); return value(libm(e, std::log10(a), a - 1));
        case F_ABS: a = (double) arg(0).get(); return value((F) std::fabs(a));
        case F_MIN: two(a, b); return value((F) (a < b ? a : b));
        case F_MAX: two(a, b); return value((F) (a > b ? a : b));
        case F_SIGN: a = (double) arg(0).get(); near(e, a, 0); return value(a == 0 ? (F) 0 : a < 0 ? (F) -1 : (F) 1);
        case F_RAND: {
            a = (double) arg(0).get();
            near_integer(e, a);
            if (!e.mt)
            {
                unspecified(e, "rand");
            }
            double m = std::floor(a);
            if (m < 1)
            {
                m = 1;
            }
            return value(libm(e, e.mt->next() * (1.0 / (double) 0xFFFFFFFF) * m));
        }
        case F_FLOOR: a = (double) arg(0).get(); near_integer(e, a); return value((F) std::floor(a));
        case F_CEIL: a = (double) arg(0).get(); near_integer(e, a); return value((F) std::ceil(a));
        case F_INVSQRT: {
            F x = arg(0).get();
            if (!(x > 0))
            {
                unspecified(e, "invsqrt of non-positive");
            }
            return value(libm(e, (double) model_invsqrt(x)));
        }
        case F_SIGMOID: {
            two(a, b);
            double t = 1 + std::exp(-a * b);
            if (!std::isfinite(t))
            {
                unspecified(e, "sigmoid");
            }
            F r = checked(e, 1.0 / t);
            return value(e.noise == 0 || a * b == 0 ? r : noisy(e, r, 1 + std::fabs(a * b)));
        }
        case F_BAND:
            two(a, b);
            near(e, std::fabs(a), 1e-5);
            near(e, std::fabs(b), 1e-5);
            if (std::fabs(std::fabs(a) - 1e-5) < 1e-12 || std::fabs(std::fabs(b) - 1e-5) < 1e-12)
            {
                e.fragile = true;
            }
            return value(std::fabs(a) > (double) (F) 1e-5 && std::fabs(b) > (double) (F) 1e-5 ? (F) 1 : (F) 0);
        case F_BOR:
            two(a, b);
            near(e, std::fabs(a), 1e-5);
            near(e, std::fabs(b), 1e-5);
            return value(std::fabs(a) > (double) (F) 1e-5 || std::fabs(b) > (double) (F) 1e-5 ? (F) 1 : (F) 0);
        case F_EXEC2: {
            arg(0);
            return arg(1);
        }
        case F_EXEC3: {
            arg(0);
            arg(1);
            return arg(2);
        }
        case F_MEM:
        case F_GMEM: {
            double x = (double) arg(0).get();
            near_integer(e, x + 0.0001);
            Memory* m = n->f == F_MEM ? e.mem : e.gmem;
            double idx = std::floor(x + 0.0001);
            if (!(idx >= 0 && idx < (double) MEM_SLOTS))
            {
                ++e.oob;
                return value(0);
            }
            return ref(m->at((int64_t) idx));
        }
        case F_FREEMBUF: arg(0); return value(0);
        case F_MEMSET: {
            Val d = arg(0), v = arg(1), c = arg(2);
            double dd = (double) d.get(), cc = (double) c.get();
            near_integer(e, dd + 0.0001);
            near_integer(e, cc + 0.0001);
            if (std::fabs(dd) > 1e15 || std::fabs(cc) > 1e15)
            {
                unspecified(e, "memset range");
            }
            e.steps += (uint64_t) std::fmin(std::fmax(cc, 0), 8388608.0) / 16;
            if (e.steps > e.max_steps)
            {
                e.toolong = true;
                throw Stop();
            }
            model_memset(*e.mem, dd, v.get(), cc);
            return d;
        }
        case F_MEMCPY: {
            Val d = arg(0), s = arg(1), c = arg(2);
            double dd = (double) d.get(), ss = (double) s.get(), cc = (double) c.get();
            near_integer(e, dd + 0.0001);
            near_integer(e, ss + 0.0001);
            near_integer(e, cc + 0.0001);
            if (std::fabs(dd) > 1e15 || std::fabs(cc) > 1e15 || std::fabs(ss) > 1e15)
            {
                unspecified(e, "memcpy range");
            }
            e.steps += (uint64_t) std::fmin(std::fmax(cc, 0), 8388608.0) / 16;
            if (e.steps > e.max_steps)
            {
                e.toolong = true;
                throw Stop();
            }
            model_memcpy(*e.mem, dd, ss, cc);
            return d;
        }
        default: break;
    }
    unspecified(e, "unknown");
}

bool run_model(const Parse& p, Env& e, F& result)
{
    result = 0;
    if (!p.root)
    {
        return true;
    }
    try
    {
        result = eval(p.root, e).get();
    }
    catch (Stop&)
    {
        return false;
    }
    return !e.unspec && !e.toolong;
}

// Executable reference model of the expression language, written from the documentation and independent of the
// library's sources: lexer, operator-precedence parser with exact error position, and an evaluator with explicit
// reference/value semantics. Templates are avoided: F is the number type of the build under test.
#pragma once

#include "common.hpp"

#include <array>
#include <climits>
#include <cfloat>
#include <deque>
#include <locale.h>
#include <memory>

// ---------------------------------------------------------------- tokens
enum Tok
{
    T_EOF, T_NUM, T_VAR, T_FUNC, T_GMEM, T_BAD,
    // operators: the enumerator is the spelling's index in tok_text
    T_SET, T_ADDOP, T_SUBOP, T_MULOP, T_DIVOP, T_MODOP, T_POWOP, T_OROP, T_ANDOP,
    T_QUESTION, T_COLON, T_BOOLOR, T_BOOLAND, T_OR, T_AND, T_EQ, T_NE, T_GT, T_GE, T_LT, T_LE,
    T_PLUS, T_MINUS, T_MUL, T_DIV, T_MOD, T_NOT, T_POW,
    T_LBR, T_RBR, T_LPAR, T_RPAR, T_COMMA, T_SEMI,
    T_COUNT
};

static const char* const tok_text[T_COUNT] = {
    "", "", "", "", "gmem", "",
    "=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=",
    "?", ":", "||", "&&", "|", "&", "==", "!=", ">", ">=", "<", "<=",
    "+", "-", "*", "/", "%", "!", "^",
    "[", "]", "(", ")", ",", ";"};

struct Token
{
    Tok t = T_EOF;
    std::string text;
    F val = 0;
    bool unspec = false; // literal whose value is not specified
    int line = 1, col = 0;
};

// ---------------------------------------------------------------- functions
enum Fn
{
    F_NONE, F_IF, F_LAND, F_LOR, F_LOOP, F_WHILE, F_NOT, F_EQ, F_NE, F_LT, F_GT, F_LE, F_GE, F_SET,
    F_ADD, F_SUB, F_MUL, F_DIV, F_MOD, F_MULOP, F_DIVOP, F_OROP, F_ANDOP, F_ADDOP, F_SUBOP, F_MODOP, F_POWOP,
    F_SIN, F_COS, F_TAN, F_ASIN, F_ACOS, F_ATAN, F_ATAN2, F_SQR, F_SQRT, F_POW, F_EXP, F_NEG, F_LOG, F_LOG10,
    F_ABS, F_MIN, F_MAX, F_SIGN, F_RAND, F_FLOOR, F_CEIL, F_INVSQRT, F_SIGMOID, F_BAND, F_BOR, F_EXEC2, F_EXEC3,
    F_MEM, F_GMEM, F_FREEMBUF, F_MEMCPY, F_MEMSET, F_BITOR, F_BITAND, F_COUNT
};

struct FnInfo
{
    const char* name;
    Fn f;
    int argc;
};

static const FnInfo fn_table[] = {
    {"if", F_IF, 3}, {"_if", F_IF, 3}, {"_and", F_LAND, 2}, {"_or", F_LOR, 2}, {"loop", F_LOOP, 2},
    {"while", F_WHILE, 1}, {"_not", F_NOT, 1}, {"bnot", F_NOT, 1}, {"_equal", F_EQ, 2}, {"equal", F_EQ, 2},
    {"_noteq", F_NE, 2}, {"_below", F_LT, 2}, {"below", F_LT, 2}, {"_above", F_GT, 2}, {"above", F_GT, 2},
    {"_beleq", F_LE, 2}, {"_aboeq", F_GE, 2}, {"_set", F_SET, 2}, {"assign", F_SET, 2}, {"_add", F_ADD, 2},
    {"_sub", F_SUB, 2}, {"_mul", F_MUL, 2}, {"_div", F_DIV, 2}, {"_mod", F_MOD, 2}, {"_mulop", F_MULOP, 2},
    {"_divop", F_DIVOP, 2}, {"_orop", F_OROP, 2}, {"_andop", F_ANDOP, 2}, {"_addop", F_ADDOP, 2},
    {"_subop", F_SUBOP, 2}, {"_modop", F_MODOP, 2}, {"sin", F_SIN, 1}, {"cos", F_COS, 1}, {"tan", F_TAN, 1},
    {"asin", F_ASIN, 1}, {"acos", F_ACOS, 1}, {"atan", F_ATAN, 1}, {"atan2", F_ATAN2, 2}, {"sqr", F_SQR, 1},
    {"sqrt", F_SQRT, 1}, {"pow", F_POW, 2}, {"_powop", F_POWOP, 2}, {"exp", F_EXP, 1}, {"_neg", F_NEG, 1},
    {"log", F_LOG, 1}, {"log10", F_LOG10, 1}, {"abs", F_ABS, 1}, {"min", F_MIN, 2}, {"max", F_MAX, 2},
    {"sign", F_SIGN, 1}, {"rand", F_RAND, 1}, {"floor", F_FLOOR, 1}, {"int", F_FLOOR, 1}, {"ceil", F_CEIL, 1},
    {"invsqrt", F_INVSQRT, 1}, {"sigmoid", F_SIGMOID, 2}, {"band", F_BAND, 2}, {"bor", F_BOR, 2},
    {"exec2", F_EXEC2, 2}, {"exec3", F_EXEC3, 3}, {"_mem", F_MEM, 1}, {"megabuf", F_MEM, 1}, {"_gmem", F_GMEM, 1},
    {"gmegabuf", F_GMEM, 1}, {"freembuf", F_FREEMBUF, 1}, {"memcpy", F_MEMCPY, 3}, {"memset", F_MEMSET, 3}};
static const int fn_table_size = sizeof(fn_table) / sizeof(fn_table[0]);

inline std::string lower(const std::string& s)
{
    std::string r = s;
    for (auto& c : r)
    {
        if (c >= 'A' && c <= 'Z')
        {
            c = (char) (c - 'A' + 'a');
        }
    }
    return r;
}

inline const FnInfo* find_fn(const std::string& name)
{
    static std::unordered_map<std::string, const FnInfo*> m;
    if (m.empty())
    {
        for (auto& f : fn_table)
        {
            m[f.name] = &f;
        }
    }
    auto it = m.find(lower(name));
    return it == m.end() ? nullptr : it->second;
}

// ---------------------------------------------------------------- lexer
inline double parse_c_double(const std::string& s)
{
    static locale_t c = newlocale(LC_ALL_MASK, "C", (locale_t) 0);
    return strtod_l(s.c_str(), nullptr, c);
}

std::vector<Token> lex(const std::string& src);

// ---------------------------------------------------------------- syntax tree
struct Node
{
    enum Kind
    {
        CONST, VAR, CALL, LIST
    } k = CONST;
    F val = 0;
    int var = -1;  // index into Parse::vars
    Fn f = F_NONE;
    Tok op = T_EOF; // spelling: operator token, or T_FUNC for call syntax
    std::string name; // call spelling
    bool unspec = false;
    std::vector<Node*> a;
};

struct Parse
{
    bool ok = false;
    bool unspec = false;      // contains something whose meaning is not specified
    bool empty = false;       // accepted, but no instruction
    // error
    bool at_eof = false;
    int line = 0, col = 0;
    bool argcount = false;
    std::string fn_name;
    int fn_expected = 0, fn_given = 0;
    size_t err_token = 0;
    // result
    Node* root = nullptr;
    std::vector<std::string> vars; // lower-case names
    std::deque<Node> arena;
    std::vector<Token> toks;
    int depth = 0; // nesting depth
};

// Takes the text; returns a heap object because nodes point into the arena.
std::unique_ptr<Parse> parse(const std::string& src);

// Renders a tree to text.
// style 0: operators with every grouping parenthesised; style 1: everything as function calls where possible
std::string render(const Parse& p, const Node* n, int style);

// ---------------------------------------------------------------- values and state
static const int64_t MEM_SLOTS = 8388608;

struct Memory
{
    const std::set<int64_t>* only = nullptr; // if set, only these blocks of 65536 slots can be accessed
    std::unordered_map<int64_t, std::unique_ptr<std::array<F, 64>>> pages;
    F* at(int64_t i)
    {
        if (i < 0 || i >= MEM_SLOTS || (only && !only->count(i >> 16)))
        {
            return nullptr;
        }
        auto& p = pages[i >> 6];
        if (!p)
        {
            p.reset(new std::array<F, 64>());
            p->fill(0);
        }
        return &(*p)[(size_t) (i & 63)];
    }
    F get(int64_t i) const
    {
        if (i < 0 || i >= MEM_SLOTS)
        {
            return 0;
        }
        auto it = pages.find(i >> 6);
        return it == pages.end() ? (F) 0 : (*it->second)[(size_t) (i & 63)];
    }
    void clear() { pages.clear(); }
    std::vector<std::pair<int64_t, F>> nonzero() const
    {
        std::vector<std::pair<int64_t, F>> r;
        for (auto& p : pages)
        {
            for (int j = 0; j < 64; ++j)
            {
                if ((*p.second)[(size_t) j] != 0)
                {
                    r.push_back({p.first * 64 + j, (*p.second)[(size_t) j]});
                }
            }
        }
        return r;
    }
};

// MT19937 reference stream of rand(), straight from the published algorithm.
struct MtStream
{
    uint32_t mt[624];
    int i = 624;
    explicit MtStream(uint32_t seed = 0x4141f00d)
    {
        mt[0] = seed;
        for (int k = 1; k < 624; ++k)
        {
            mt[k] = 1812433253u * (mt[k - 1] ^ (mt[k - 1] >> 30)) + (uint32_t) k;
        }
    }
    uint32_t next()
    {
        if (i >= 624)
        {
            for (int k = 0; k < 624; ++k)
            {
                uint32_t y = (mt[k] & 0x80000000u) | (mt[(k + 1) % 624] & 0x7fffffffu);
                mt[k] = mt[(k + 397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0);
            }
            i = 0;
        }
        uint32_t y = mt[i++];
        y ^= y >> 11;
        y ^= (y << 7) & 0x9d2c5680u;
        y ^= (y << 15) & 0xefc60000u;
        y ^= y >> 18;
        return y;
    }
};

// Where a program runs.
struct Env
{
    std::vector<F*> vars;   // bound to Parse::vars
    Memory* mem = nullptr;  // megabuf
    Memory* gmem = nullptr; // gmegabuf
    MtStream* mt = nullptr; // rand
    // limits and outcome
    uint64_t steps = 0, max_steps = 200000;
    bool unspec = false;    // outcome not specified (non-finite, tiny, conversion out of range, ...)
    bool toolong = false;
    bool fragile = false;   // outcome depends on rounding (only meaningful if fragile_check)
    bool fragile_check = false;
    double fragile_rel = 1e-6;
    uint64_t fn_count[F_COUNT] = {0};
    uint64_t short_circuits = 0, loops0 = 0, loop_iters = 0, loop_caps = 0, oob = 0, ref_writes = 0, value_writes = 0,
             late_deref = 0;
    std::string why;
    // Rounding noise (C27): every inexact result is changed by a random relative error up to this size.
    double noise = 0;
    bool noise_ieee = false; // also for + - * / and sqrt, which are exactly rounded without fast math
    Rng* noise_rng = nullptr;
};

struct Val
{
    F* ref = nullptr;
    F v = 0;
    F get() const { return ref ? *ref : v; }
};

struct Stop
{
}; // thrown when evaluation can't or needn't continue

Val eval(const Node* n, Env& e);

// Evaluates a whole program. Returns false if the outcome is unspecified or too long.
bool run_model(const Parse& p, Env& e, F& result);

// Model semantics of the two block operations (exposed for direct checks).
void model_memset(Memory& m, double dest, F value, double count);
void model_memcpy(Memory& m, double dest, double src, double count);
F model_invsqrt(F x);

// Hash-consed real-valued terms, boolean conditions, symbolic derivatives,
// numeric evaluation and a ring normal form used to discharge equalities.
#pragma once
#include <gmpxx.h>
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

typedef long double real_t;

enum class Op : uint8_t { Const, Var, Add, Sub, Mul, Div, Fn, Ite, Inf, NaN, Undef };
enum class FnK : uint8_t { Sqrt, Cosh, Sinh, Tanh, Exp, Log, Sin, Cos, Tan, Atan, Asin, Acos, Atan2, Fabs, Pow, Root, Floor, Uf };

struct Term;
struct BTerm;
typedef const Term* T;
typedef const BTerm* B;

struct Term {
    uint32_t id;
    Op op;
    FnK fn;
    int var;            // Var: index; Inf: sign
    T a, b;             // operands
    B c;                // Ite condition
    mpq_class* q;       // Const
    std::string* nm = nullptr;
};

enum class BOp : uint8_t { True, False, Lt, Le, Eq, And, Or, Not, BVar };
struct BTerm {
    uint32_t id;
    BOp op;
    T x, y;
    B a, b;
    int var;
};

struct VarInfo {
    std::string name;
    double lo, hi;                 // sampling range
    bool undef = false;            // value read from uninitialised memory
    bool atom = false;             // function-like atom introduced by a trusted contract
    bool isInt = false;
    T rootOf = nullptr;            // var with var^2 == rootOf
    std::map<int, T> diffs;        // registered partial derivatives
    bool hasDiffs = false;
};

struct Sample {                    // numeric assignment with evaluation cache
    std::vector<real_t> v;         // per var
    std::vector<bool> set;
    std::vector<real_t> cache; std::vector<bool> has;
    std::vector<char> bvals;       // bool vars
};

struct Terms {
    std::vector<VarInfo> vars;
    std::vector<std::string> bvars;
    T zero, one, half, minus1, inf, ninf, nan;
    B btrue, bfalse;
    Terms();
    T cst(const mpq_class& q);
    T cst(double d);               // exact value of the double (inf / nan handled)
    T var(const std::string& name, double lo = -2, double hi = 2);
    T varTerm(int i);
    T add(T, T); T sub(T, T); T mul(T, T); T div(T, T); T neg(T);
    T fn(FnK, T, T = nullptr);
    T ite(B, T, T);
    B lt(T, T); B le(T, T); B eq(T, T);
    B land(B, B); B lor(B, B); B lnot(B);
    B bvar(const std::string&);
    T diff(T t, int var);
    bool dependsUndef(T t);
    std::string str(T t, int depth = 6);
    std::string str(B b, int depth = 6);
    real_t eval(T t, Sample& s);
    int evalB(B b, Sample& s, real_t margin = 0);   // 1 true, 0 false, -1 undecided (within margin)
    bool isConst(T t) const { return t->op == Op::Const; }
    size_t count() const { return nodes; }
    void varsOf(T t, std::set<int>& out);
    void varsOf(B t, std::set<int>& out);
    size_t nodes = 0;
private:
    struct Key { Op op; FnK fn; int var; T a, b; B c; bool operator==(const Key& o) const { return op==o.op&&fn==o.fn&&var==o.var&&a==o.a&&b==o.b&&c==o.c; } };
    struct KH { size_t operator()(const Key& k) const { size_t h=(size_t)k.op*1315423911u+(size_t)k.fn*2654435761u+k.var*97u; h^=(size_t)k.a*0x9E3779B97F4A7C15ull; h=(h<<7)|(h>>57); h^=(size_t)k.b*0xC2B2AE3D27D4EB4Full; h=(h<<9)|(h>>55); h^=(size_t)k.c; return h; } };
    std::unordered_map<Key, T, KH> tab;
    std::map<mpq_class, T> consts;
    std::vector<T> varTerms;
    struct BKey { BOp op; T x, y; B a, b; int var; bool operator<(const BKey& o) const { return std::tie(op,x,y,a,b,var)<std::tie(o.op,o.x,o.y,o.a,o.b,o.var);} };
    std::map<BKey, B> btab;
    uint32_t bcount = 0;
    std::unordered_map<uint64_t, T> dmemo;
    std::unordered_map<uint32_t, char> undefMemo;
    T mk(Op, FnK, int, T, T, B);
    B mkb(BOp, T, T, B, B, int);
};
extern Terms TT;

// ---- normal form -------------------------------------------------------
// Laurent polynomials over generators; relations: sqrt/root squares, sinh^2,
// sin^2, fabs^2; denominators with several terms become generators inv(D).
typedef std::vector<std::pair<int,int>> MV;     // (generator, exponent), sorted
struct Mono { uint32_t id; Mono() : id(0) {} explicit Mono(uint32_t i) : id(i) {} Mono(const MV& v); const MV& v() const; bool operator==(const Mono& o) const { return id == o.id; } bool operator<(const Mono& o) const { return id < o.id; } };
Mono mmul(Mono a, Mono b);
// sum of coefficient * monomial, sorted by monomial, no zero coefficients
struct Poly { std::vector<std::pair<Mono, mpq_class>> t; size_t size() const { return t.size(); } bool empty() const { return t.empty(); }
    std::vector<std::pair<Mono, mpq_class>>::const_iterator begin() const { return t.begin(); } std::vector<std::pair<Mono, mpq_class>>::const_iterator end() const { return t.end(); } 
    Poly() {} Poly(Mono m, const mpq_class& c) { if (sgn(c)) t.push_back({m, c}); } };
struct Acc { std::unordered_map<uint32_t, mpq_class> h; void add(Mono m, const mpq_class& c) { auto r = h.emplace(m.id, c); if (!r.second) r.first->second += c; } Poly poly() const; };
struct NormalForm {
    struct Gen { enum K { VarG, FnG, InvG } k; int var; FnK fn; Poly arg, arg2; std::string key; MV lead; bool eager = false; int partner = -1; };
    std::vector<Gen> gens;
    std::map<std::string,int> genIdx;
    std::unordered_map<uint32_t, Poly> memo;
    std::unordered_map<uint32_t, Poly> redMemo;   // reduced form of single monomials
    size_t budget = 4000000; bool overflow = false; size_t work = 0, workLimit = 60000000;
    Poly norm(T t);
    bool isZero(const Poly& p);          // decides p == 0 after clearing denominators
    bool equal(T a, T b);                // true => proved equal
    std::map<int,T> rewrites;            // var -> term (solved equalities of the path condition)
    std::string polyStr(const Poly& p);
private:
    Poly padd(const Poly&, const Poly&, int sign);
    Poly pmul(const Poly&, const Poly&);
    Poly ppow(const Poly&, int);
    Poly pinv(const Poly&);
    Poly reduce(const Poly&);
    const Poly* redMono(Mono m);         // nullptr: already reduced
    Poly collect(Poly p, int gi, int k); // p * arg(gi)^k without inv(arg(gi))
    int gen(Gen g);
    std::string key(const Poly&);
    bool divide(const Poly& n, const Poly& d, Poly& q);
    Poly cancel(const Poly& p);
};

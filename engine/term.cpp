#include "term.h"
#include <cmath>
#include <sstream>
#include <cassert>
#include <algorithm>
Terms TT;
T ufDiff(int var, int wrt);

Terms::Terms() {
    zero = cst(mpq_class(0)); one = cst(mpq_class(1)); half = cst(mpq_class(1,2)); minus1 = cst(mpq_class(-1));
    inf = mk(Op::Inf, FnK::Uf, 1, nullptr, nullptr, nullptr);
    ninf = mk(Op::Inf, FnK::Uf, -1, nullptr, nullptr, nullptr);
    nan = mk(Op::NaN, FnK::Uf, 0, nullptr, nullptr, nullptr);
    btrue = mkb(BOp::True, nullptr, nullptr, nullptr, nullptr, 0);
    bfalse = mkb(BOp::False, nullptr, nullptr, nullptr, nullptr, 0);
}
T Terms::mk(Op op, FnK fn, int var, T a, T b, B c) {
    Key k{op, fn, var, a, b, c};
    auto it = tab.find(k);
    if (it != tab.end()) return it->second;
    Term* t = new Term{(uint32_t)nodes++, op, fn, var, a, b, c, nullptr, nullptr};
    tab.emplace(k, t);
    return t;
}
T Terms::cst(const mpq_class& q) {
    auto it = consts.find(q);
    if (it != consts.end()) return it->second;
    Term* t = new Term{(uint32_t)nodes++, Op::Const, FnK::Uf, 0, nullptr, nullptr, nullptr, new mpq_class(q), nullptr};
    consts[q] = t;
    return t;
}
T Terms::cst(double d) {
    if (std::isnan(d)) return nan;
    if (std::isinf(d)) return d > 0 ? inf : ninf;
    return cst(mpq_class(d));
}
T Terms::var(const std::string& name, double lo, double hi) {
    VarInfo vi; vi.name = name; vi.lo = lo; vi.hi = hi;
    vars.push_back(vi);
    T t = mk(Op::Var, FnK::Uf, (int)vars.size() - 1, nullptr, nullptr, nullptr);
    varTerms.push_back(t);
    return t;
}
T Terms::varTerm(int i) { return varTerms[i]; }
static bool sp(T a) { return a->op == Op::Inf || a->op == Op::NaN; }
T Terms::neg(T a) { return mul(minus1, a); }
T Terms::add(T a, T b) {
    if (sp(a) || sp(b)) { if (a->op==Op::NaN||b->op==Op::NaN) return nan; if (sp(a)&&sp(b)) return a==b?a:nan; return sp(a)?a:b; }
    if (isConst(a) && isConst(b)) return cst(mpq_class(*a->q + *b->q));
    if (a == zero) return b; if (b == zero) return a;
    if (a->id > b->id) std::swap(a, b);
    return mk(Op::Add, FnK::Uf, 0, a, b, nullptr);
}
T Terms::sub(T a, T b) {
    if (sp(a) || sp(b)) { if (a->op==Op::NaN||b->op==Op::NaN) return nan; if (sp(a)&&sp(b)) return a!=b?a:nan; return sp(a)?a:(b==inf?ninf:inf); }
    if (isConst(a) && isConst(b)) return cst(mpq_class(*a->q - *b->q));
    if (b == zero) return a; if (a == b) return zero;
    if (a == zero) return neg(b);
    return mk(Op::Sub, FnK::Uf, 0, a, b, nullptr);
}
T Terms::mul(T a, T b) {
    if (sp(a) || sp(b)) { if (a->op==Op::NaN||b->op==Op::NaN) return nan; T o = sp(a)?b:a; T s = sp(a)?a:b; if (isConst(o)) { int sg = sgn(*o->q); if (!sg) return nan; return sg>0?s:(s==inf?ninf:inf);} if (sp(o)) return o==s?inf:ninf; return nan; }
    if (isConst(a) && isConst(b)) return cst(mpq_class(*a->q * *b->q));
    if (a == zero || b == zero) return zero;
    if (a == one) return b; if (b == one) return a;
    if (isConst(b)) std::swap(a, b);
    if (isConst(a) && b->op == Op::Mul && isConst(b->a)) return mul(cst(mpq_class(*a->q * *b->a->q)), b->b);
    if (!isConst(a) && a->id > b->id) std::swap(a, b);
    return mk(Op::Mul, FnK::Uf, 0, a, b, nullptr);
}
T Terms::div(T a, T b) {
    if (sp(a) || sp(b)) { if (sp(a)||b->op==Op::NaN) return (sp(a)&&sp(b))?nan:(a->op==Op::Inf&&isConst(b)&&sgn(*b->q)<0?(a==inf?ninf:inf):a); return zero; }
    if (isConst(b)) {
        if (sgn(*b->q) == 0) { if (isConst(a)) { int s = sgn(*a->q); return s==0?nan:(s>0?inf:ninf);} return nan; }
        return mul(cst(mpq_class(1 / *b->q)), a);
    }
    if (a == zero) return zero;
    if (a == b) return one;
    return mk(Op::Div, FnK::Uf, 0, a, b, nullptr);
}
T Terms::fn(FnK f, T a, T b) {
    if (a->op == Op::NaN) return nan;
    if (a->op == Op::Inf) { switch (f) { case FnK::Fabs: case FnK::Cosh: return inf; case FnK::Sqrt: case FnK::Log: return a==inf?inf:nan; case FnK::Sinh: return a; case FnK::Tanh: return a==inf?one:minus1; case FnK::Exp: return a==inf?inf:zero; default: return nan; } }
    if (isConst(a)) {
        const mpq_class& q = *a->q;
        switch (f) {
        case FnK::Sqrt: {
            if (sgn(q) < 0) return nan;
            mpz_class n = q.get_num(), d = q.get_den();
            if (mpz_perfect_square_p(n.get_mpz_t()) && mpz_perfect_square_p(d.get_mpz_t())) { mpz_class sn = sqrt(n), sd = sqrt(d); return cst(mpq_class(sn, sd)); }
            break; }
        case FnK::Cosh: case FnK::Exp: case FnK::Cos: if (a == zero) return one; break;
        case FnK::Sinh: case FnK::Tanh: case FnK::Sin: case FnK::Tan: case FnK::Atan: case FnK::Asin: if (a == zero) return zero; break;
        case FnK::Log: if (a == one) return zero; break;
        case FnK::Acos: if (a == one) return zero; break;
        case FnK::Fabs: return cst(mpq_class(abs(q)));
        case FnK::Floor: { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t()); return cst(mpq_class(r)); }
        default: break;
        }
    }
    if (f == FnK::Pow && b && isConst(b)) {
        const mpq_class& e = *b->q;
        if (e.get_den() == 1 && abs(e.get_num()) <= 16) {
            long n = e.get_num().get_si(); T r = one;
            for (long i = 0; i < std::labs(n); ++i) r = mul(r, a);
            return n < 0 ? div(one, r) : r;
        }
        if (e.get_den() == 2 && abs(e.get_num()) <= 33) { // half-integer powers
            long k = e.get_num().get_si(), m = (std::labs(k) - 1) / 2; T r = fn(FnK::Sqrt, a);
            for (long i = 0; i < m; ++i) r = mul(r, a);
            return k < 0 ? div(one, r) : r;
        }
    }
    // even / odd functions: pull a leading negative constant out
    if (f == FnK::Fabs && a->op == Op::Fn && a->fn == FnK::Fabs) return a;
    return mk(Op::Fn, f, 0, a, b, nullptr);
}
T Terms::ite(B c, T a, T b) {
    if (c == btrue) return a; if (c == bfalse) return b; if (a == b) return a;
    return mk(Op::Ite, FnK::Uf, 0, a, b, c);
}
B Terms::mkb(BOp op, T x, T y, B a, B b, int v) {
    BKey k{op, x, y, a, b, v};
    auto it = btab.find(k); if (it != btab.end()) return it->second;
    BTerm* t = new BTerm{bcount++, op, x, y, a, b, v};
    btab[k] = t; return t;
}
static bool cmpSpecial(T x, T y, int& r) { // returns true if decided; r: -1,0,1, 2 unordered
    if (x->op == Op::NaN || y->op == Op::NaN) { r = 2; return true; }
    if (x->op == Op::Inf || y->op == Op::Inf) {
        int sx = x->op == Op::Inf ? x->var : 0, sy = y->op == Op::Inf ? y->var : 0;
        r = sx < sy ? -1 : sx > sy ? 1 : 0; return true;
    }
    if (x->op == Op::Const && y->op == Op::Const) { r = cmp(*x->q, *y->q); r = r<0?-1:r>0?1:0; return true; }
    if (x == y) { r = 0; return true; }
    return false;
}
B Terms::lt(T x, T y) { int r; if (cmpSpecial(x, y, r)) return r == -1 ? btrue : bfalse; return mkb(BOp::Lt, x, y, nullptr, nullptr, 0); }
B Terms::le(T x, T y) { int r; if (cmpSpecial(x, y, r)) return (r == -1 || r == 0) ? btrue : bfalse; return mkb(BOp::Le, x, y, nullptr, nullptr, 0); }
B Terms::eq(T x, T y) { int r; if (cmpSpecial(x, y, r)) return r == 0 ? btrue : bfalse; if (x->id > y->id) std::swap(x, y); return mkb(BOp::Eq, x, y, nullptr, nullptr, 0); }
B Terms::land(B a, B b) { if (a == bfalse || b == bfalse) return bfalse; if (a == btrue) return b; if (b == btrue) return a; if (a == b) return a; return mkb(BOp::And, nullptr, nullptr, a, b, 0); }
B Terms::lor(B a, B b) { if (a == btrue || b == btrue) return btrue; if (a == bfalse) return b; if (b == bfalse) return a; if (a == b) return a; return mkb(BOp::Or, nullptr, nullptr, a, b, 0); }
B Terms::lnot(B a) {
    if (a == btrue) return bfalse; if (a == bfalse) return btrue;
    if (a->op == BOp::Not) return a->a;
    if (a->op == BOp::Lt) return le(a->y, a->x);
    if (a->op == BOp::Le) return lt(a->y, a->x);
    return mkb(BOp::Not, nullptr, nullptr, a, nullptr, 0);
}
B Terms::bvar(const std::string& n) { bvars.push_back(n); return mkb(BOp::BVar, nullptr, nullptr, nullptr, nullptr, (int)bvars.size() - 1); }

bool Terms::dependsUndef(T t) {
    if (!t) return false;
    auto it = undefMemo.find(t->id); if (it != undefMemo.end()) return it->second;
    bool r = false;
    if (t->op == Op::Var) r = vars[t->var].undef;
    else { if (t->a) r = dependsUndef(t->a); if (!r && t->b) r = dependsUndef(t->b); }
    undefMemo[t->id] = r; return r;
}
T Terms::diff(T t, int v) {
    switch (t->op) {
    case Op::Const: case Op::Inf: return zero;
    case Op::NaN: return nan;
    case Op::Var: {
        if (t->var == v) return one;
        VarInfo& vi = vars[t->var];
        if (vi.rootOf) return div(diff(vi.rootOf, v), mul(cst(mpq_class(2)), t));
        if (vi.hasDiffs) { uint64_t k = ((uint64_t)t->id << 24) ^ (uint64_t)v; auto im = dmemo.find(k); if (im != dmemo.end()) return im->second; T r = ufDiff(t->var, v); dmemo[k] = r; return r; }
        return zero; }
    default: break;
    }
    uint64_t k = ((uint64_t)t->id << 24) ^ (uint64_t)v;
    auto it = dmemo.find(k); if (it != dmemo.end()) return it->second;
    T r = zero, da = t->a ? diff(t->a, v) : zero;
    switch (t->op) {
    case Op::Add: r = add(da, diff(t->b, v)); break;
    case Op::Sub: r = sub(da, diff(t->b, v)); break;
    case Op::Mul: r = add(mul(da, t->b), mul(t->a, diff(t->b, v))); break;
    case Op::Div: { T db = diff(t->b, v); r = div(da, t->b); if (db != zero) r = sub(r, div(mul(t->a, db), mul(t->b, t->b))); break; }
    case Op::Ite: r = ite(t->c, da, diff(t->b, v)); break;
    case Op::Fn: {
        if (da == zero && (!t->b || diff(t->b, v) == zero)) { r = zero; break; }
        T a = t->a, d = nullptr;
        switch (t->fn) {
        case FnK::Sqrt: d = div(half, t); break;
        case FnK::Cosh: d = fn(FnK::Sinh, a); break;
        case FnK::Sinh: d = fn(FnK::Cosh, a); break;
        case FnK::Tanh: d = sub(one, mul(t, t)); break;
        case FnK::Exp: d = t; break;
        case FnK::Log: d = div(one, a); break;
        case FnK::Sin: d = fn(FnK::Cos, a); break;
        case FnK::Cos: d = neg(fn(FnK::Sin, a)); break;
        case FnK::Tan: d = add(one, mul(t, t)); break;
        case FnK::Atan: d = div(one, add(one, mul(a, a))); break;
        case FnK::Asin: d = div(one, fn(FnK::Sqrt, sub(one, mul(a, a)))); break;
        case FnK::Acos: d = neg(div(one, fn(FnK::Sqrt, sub(one, mul(a, a))))); break;
        case FnK::Fabs: d = div(t, a); break;
        case FnK::Atan2: { // atan2(a=y, b=x)
            T den = add(mul(a, a), mul(t->b, t->b)); T db = diff(t->b, v);
            r = div(sub(mul(t->b, da), mul(a, db)), den); goto done; }
        case FnK::Pow: { T db = diff(t->b, v); if (db == zero) { d = mul(t->b, fn(FnK::Pow, a, sub(t->b, one))); break; }
            r = mul(t, add(mul(db, fn(FnK::Log, a)), div(mul(t->b, da), a))); goto done; }
        default: d = nan; break;
        }
        r = mul(d, da);
        break; }
    default: break;
    }
done:
    dmemo[k] = r; return r;
}
std::string Terms::str(T t, int depth) {
    if (!t) return "?";
    if (depth <= 0) return "...";
    switch (t->op) {
    case Op::Const: { std::string s = t->q->get_str(); if (s.size() > 24) { std::ostringstream o; o.precision(12); o << t->q->get_d(); return o.str(); } return s; }
    case Op::Var: return vars[t->var].name;
    case Op::Inf: return t->var > 0 ? "inf" : "-inf";
    case Op::NaN: return "nan";
    case Op::Add: return "(" + str(t->a, depth-1) + " + " + str(t->b, depth-1) + ")";
    case Op::Sub: return "(" + str(t->a, depth-1) + " - " + str(t->b, depth-1) + ")";
    case Op::Mul: return str(t->a, depth-1) + "*" + str(t->b, depth-1);
    case Op::Div: return "(" + str(t->a, depth-1) + ")/(" + str(t->b, depth-1) + ")";
    case Op::Ite: return "ite(" + str(t->c, depth-1) + "," + str(t->a, depth-1) + "," + str(t->b, depth-1) + ")";
    case Op::Fn: { static const char* n[] = {"sqrt","cosh","sinh","tanh","exp","log","sin","cos","tan","atan","asin","acos","atan2","fabs","pow","root","floor","uf"};
        return std::string(n[(int)t->fn]) + "(" + str(t->a, depth-1) + (t->b ? "," + str(t->b, depth-1) : "") + ")"; }
    default: return "undef";
    }
}
std::string Terms::str(B b, int depth) {
    if (depth <= 0) return "...";
    switch (b->op) {
    case BOp::True: return "true"; case BOp::False: return "false";
    case BOp::Lt: return str(b->x, depth-1) + " < " + str(b->y, depth-1);
    case BOp::Le: return str(b->x, depth-1) + " <= " + str(b->y, depth-1);
    case BOp::Eq: return str(b->x, depth-1) + " == " + str(b->y, depth-1);
    case BOp::And: return "(" + str(b->a, depth-1) + " && " + str(b->b, depth-1) + ")";
    case BOp::Or: return "(" + str(b->a, depth-1) + " || " + str(b->b, depth-1) + ")";
    case BOp::Not: return "!(" + str(b->a, depth-1) + ")";
    case BOp::BVar: return bvars[b->var];
    }
    return "?";
}
real_t Terms::eval(T t, Sample& s) {
    if (t->op == Op::Const) return (real_t)t->q->get_d();
    if (t->op == Op::Var) {
        if ((size_t)t->var >= s.v.size()) return NAN;
        if (!s.set[t->var] && vars[t->var].rootOf) { s.v[t->var] = sqrtl(eval(vars[t->var].rootOf, s)); s.set[t->var] = true; }
        return s.v[t->var]; }
    if (t->op == Op::Inf) return t->var > 0 ? INFINITY : -INFINITY;
    if (t->op == Op::NaN) return NAN;
    if (t->id < s.has.size() && s.has[t->id]) return s.cache[t->id];
    real_t r = NAN;
    real_t a = t->op == Op::Ite ? 0 : eval(t->a, s), b = (t->b && t->op != Op::Ite) ? eval(t->b, s) : 0;
    switch (t->op) {
    case Op::Add: r = a + b; break; case Op::Sub: r = a - b; break; case Op::Mul: r = a * b; break; case Op::Div: r = a / b; break;
    case Op::Ite: { int c = evalB(t->c, s); r = c ? eval(t->a, s) : eval(t->b, s); break; }
    case Op::Fn: switch (t->fn) {
        case FnK::Sqrt: r = sqrtl(a); break; case FnK::Cosh: r = coshl(a); break; case FnK::Sinh: r = sinhl(a); break; case FnK::Tanh: r = tanhl(a); break;
        case FnK::Exp: r = expl(a); break; case FnK::Log: r = logl(a); break; case FnK::Sin: r = sinl(a); break; case FnK::Cos: r = cosl(a); break; case FnK::Tan: r = tanl(a); break;
        case FnK::Atan: r = atanl(a); break; case FnK::Asin: r = asinl(a); break; case FnK::Acos: r = acosl(a); break; case FnK::Atan2: r = atan2l(a, b); break;
        case FnK::Fabs: r = fabsl(a); break; case FnK::Pow: r = powl(a, b); break; case FnK::Floor: r = floorl(a); break; default: break; } break;
    default: break;
    }
    if (s.has.size() <= t->id) { s.has.resize(nodes + 1024, false); s.cache.resize(nodes + 1024); }
    s.has[t->id] = true; s.cache[t->id] = r;
    return r;
}
int Terms::evalB(B b, Sample& s, real_t m) {
    switch (b->op) {
    case BOp::True: return 1; case BOp::False: return 0;
    case BOp::Lt: case BOp::Le: case BOp::Eq: {
        real_t x = eval(b->x, s), y = eval(b->y, s);
        if (std::isnan(x) || std::isnan(y)) return m > 0 ? -1 : 0;
        real_t d = x - y, tol = m * (1 + fabsl(x) + fabsl(y));
        if (b->op == BOp::Eq) { if (fabsl(d) > tol) return 0; if (m > 0 && d != 0) return -1; return d == 0 ? 1 : (m > 0 ? -1 : 0); }
        if (m > 0 && fabsl(d) <= tol) return -1;
        return b->op == BOp::Lt ? d < 0 : d <= 0; }
    case BOp::And: { int x = evalB(b->a, s, m), y = evalB(b->b, s, m); if (x == 0 || y == 0) return 0; return (x < 0 || y < 0) ? -1 : 1; }
    case BOp::Or: { int x = evalB(b->a, s, m), y = evalB(b->b, s, m); if (x == 1 || y == 1) return 1; return (x < 0 || y < 0) ? -1 : 0; }
    case BOp::Not: { int x = evalB(b->a, s, m); return x < 0 ? -1 : !x; }
    case BOp::BVar: return (size_t)b->var < s.bvals.size() ? s.bvals[b->var] : 0;
    }
    return -1;
}
void Terms::varsOf(T t, std::set<int>& out) {
    std::set<T> seen; std::vector<T> st{t};
    while (!st.empty()) { T x = st.back(); st.pop_back(); if (!x || !seen.insert(x).second) continue;
        if (x->op == Op::Var) { out.insert(x->var); if (vars[x->var].rootOf) st.push_back(vars[x->var].rootOf); }
        if (x->c) varsOf(x->c, out);
        st.push_back(x->a); st.push_back(x->b); }
}
void Terms::varsOf(B b, std::set<int>& out) {
    if (!b) return; if (b->x) varsOf(b->x, out); if (b->y) varsOf(b->y, out); varsOf(b->a, out); varsOf(b->b, out);
}

// ---------------------------------------------------------------- normal form
namespace { struct MTab { std::vector<const MV*> v; std::map<MV, uint32_t>* dummy = nullptr; struct H { size_t operator()(const MV& m) const { size_t h = 1469598103934665603ull; for (auto& e : m) { h ^= (size_t)e.first * 0x9E3779B97F4A7C15ull + (size_t)(unsigned)e.second; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
    std::unordered_map<MV, uint32_t, H> idx; std::unordered_map<uint64_t, uint32_t> mul; MTab() { get(MV()); }
    uint32_t get(const MV& m) { auto r = idx.emplace(m, (uint32_t)v.size()); if (r.second) v.push_back(&r.first->first); return r.first->second; } };
MTab& mt() { static MTab t; return t; } }
Mono::Mono(const MV& v) : id(mt().get(v)) {}
const MV& Mono::v() const { return *mt().v[id]; }
static MV vmul(const MV& a, const MV& b) {
    MV r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j >= b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i >= a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else { int e = a[i].second + b[j].second; if (e) r.push_back({a[i].first, e}); ++i; ++j; }
    }
    return r;
}
static MV vinv(MV m) { for (auto& e : m) e.second = -e.second; return m; }
static int expo(const MV& m, int g) { for (auto& e : m) if (e.first == g) return e.second; return 0; }
static MV without(const MV& m, int g) { MV r; for (auto& e : m) if (e.first != g) r.push_back(e); return r; }
Mono mmul(Mono a, Mono b) {
    if (!a.id) return b; if (!b.id) return a; if (b < a) std::swap(a, b);
    MTab& t = mt(); if (t.mul.size() > 12000000) t.mul.clear();
    auto r = t.mul.emplace(((uint64_t)a.id << 32) | b.id, 0); if (r.second) { uint32_t i = t.get(vmul(a.v(), b.v())); r.first->second = i; } return Mono(r.first->second);
}
Poly Acc::poly() const { Poly p; p.t.reserve(h.size()); for (auto& kv : h) if (sgn(kv.second)) p.t.push_back({Mono(kv.first), kv.second}); std::sort(p.t.begin(), p.t.end(), [](const std::pair<Mono, mpq_class>& a, const std::pair<Mono, mpq_class>& b) { return a.first < b.first; }); return p; }
Poly NormalForm::padd(const Poly& a, const Poly& b, int sign) {
    Poly r; r.t.reserve(a.size() + b.size()); size_t i = 0, j = 0; work += (a.size() + b.size()) / 8 + 1; if (work > workLimit) overflow = true;
    while (i < a.size() || j < b.size()) {
        if (j >= b.size() || (i < a.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i >= a.size() || b.t[j].first < a.t[i].first) { r.t.push_back(b.t[j++]); if (sign < 0) { mpq_class& c = r.t.back().second; c = -c; } }
        else { mpq_class c = sign > 0 ? mpq_class(a.t[i].second + b.t[j].second) : mpq_class(a.t[i].second - b.t[j].second); if (sgn(c)) r.t.push_back({a.t[i].first, c}); ++i; ++j; }
    }
    return r;
}
Poly NormalForm::pmul(const Poly& a, const Poly& b) {
    if (a.empty() || b.empty() || overflow) return Poly();
    if (a.size() * b.size() > budget) { overflow = true; return Poly(); }
    work += a.size() * b.size(); if (work > workLimit) { overflow = true; return Poly(); }
    if (a.size() == 1 && !a.t[0].first.id) { Poly r = b; for (auto& x : r.t) x.second *= a.t[0].second; return r; }
    if (b.size() == 1 && !b.t[0].first.id) { Poly r = a; for (auto& x : r.t) x.second *= b.t[0].second; return r; }
    Acc r; for (auto& x : a) for (auto& y : b) r.add(mmul(x.first, y.first), x.second * y.second);
    return reduce(r.poly());
}
Poly NormalForm::ppow(const Poly& p, int n) { Poly r(Mono(), 1); for (int i = 0; i < n; ++i) { r = pmul(r, p); if (overflow) break; } return r; }
std::string NormalForm::key(const Poly& p) {
    std::string s; for (auto& kv : p) { s += kv.second.get_str(); for (auto& e : kv.first.v()) { s += "g" + std::to_string(e.first) + "^" + std::to_string(e.second); } s += ";"; } return s;
}
// order in which rewriting decreases: generators are created after those in their definition
static bool lexLess(const MV& a, const MV& b) { size_t i = a.size(), j = b.size(); while (i && j) { if (a[i-1].first != b[j-1].first) { if (a[i-1].first > b[j-1].first) return a[i-1].second < 0; return b[j-1].second > 0; } if (a[i-1].second != b[j-1].second) return a[i-1].second < b[j-1].second; --i; --j; } if (i) return a[i-1].second < 0; if (j) return b[j-1].second > 0; return false; }
int NormalForm::gen(Gen g) {
    auto it = genIdx.find(g.key); if (it != genIdx.end()) return it->second;
    if (g.k == Gen::FnG && (g.fn == FnK::Sinh || g.fn == FnK::Sin)) { Gen c; c.k = Gen::FnG; c.var = 0; c.fn = g.fn == FnK::Sinh ? FnK::Cosh : FnK::Cos; c.arg = g.arg; c.key = std::string(g.fn == FnK::Sinh ? "cosh" : "cos") + "(" + key(g.arg) + ")"; g.partner = gen(c); }
    if (g.k == Gen::InvG && g.arg.size() <= 12) { // inv(P) * lead(P) = 1 - inv(P) * (P - lead(P)), once lead(P) has coefficient 1
        size_t best = 0; for (size_t i = 1; i < g.arg.size(); ++i) if (lexLess(g.arg.t[best].first.v(), g.arg.t[i].first.v())) best = i;
        bool pos = true; for (auto& kv : g.arg) for (auto& e : kv.first.v()) if (e.second < 0) pos = false;
        if (pos && g.arg.t[best].first.id) { g.eager = true; g.lead = g.arg.t[best].first.v(); } }
    gens.push_back(g); genIdx[g.key] = (int)gens.size() - 1; return (int)gens.size() - 1;
}
const Poly* NormalForm::redMono(Mono m) {
    auto it = redMemo.find(m.id); if (it != redMemo.end()) return it->second.size() == 1 && it->second.t[0].first == m && it->second.t[0].second == 1 ? nullptr : &it->second;
    const MV& v = m.v(); Poly r; bool found = false;
    auto sum = [&](Mono rest, const Poly& f) { Acc a; for (auto& kv : f) { Mono n = mmul(rest, kv.first); const Poly* q = redMono(n); if (!q) a.add(n, kv.second); else for (auto& y : *q) a.add(y.first, kv.second * y.second); ++work; } return a.poly(); };
    for (size_t i = v.size(); i-- > 0 && !found;) { int gi = v[i].first, e = v[i].second; const Gen& g = gens[gi];
        if (g.k == Gen::FnG && (g.fn == FnK::Sqrt || g.fn == FnK::Root || g.fn == FnK::Fabs) && (e > 1 || e < 0)) {
            int odd = ((e % 2) + 2) % 2, n = (e - odd) / 2; MV rest = without(v, gi); if (odd) rest = vmul(rest, MV{{gi, 1}});
            Poly f = g.arg; if (g.fn == FnK::Fabs) f = pmul(f, f); if (n < 0) { f = pinv(f); n = -n; } f = ppow(f, n); if (overflow) return nullptr;
            r = sum(Mono(rest), f); found = true; }
        else if (g.k == Gen::FnG && (g.fn == FnK::Sinh || g.fn == FnK::Sin) && e > 1) {
            int ci = g.partner; bool h = g.fn == FnK::Sinh; Poly f; { Acc a; a.add(Mono(MV{{ci, 2}}), h ? 1 : -1); a.add(Mono(), h ? -1 : 1); f = a.poly(); }
            r = sum(Mono(vmul(v, MV{{gi, -2}})), f); found = true; }
        else if (g.k == Gen::InvG && g.eager && e >= 1) {
            bool div = true; for (auto& l : g.lead) if (expo(v, l.first) < l.second) { div = false; break; }
            if (!div) continue;
            MV rest = vmul(v, vinv(g.lead)); mpq_class lc; Mono lm(g.lead); for (auto& kv : g.arg) if (kv.first == lm) lc = kv.second;
            Acc f; f.add(Mono(MV{{gi, -1}}), 1 / lc); for (auto& kv : g.arg) if (!(kv.first == lm)) f.add(kv.first, -kv.second / lc);
            r = sum(Mono(rest), f.poly()); found = true; }
    }
    if (overflow) return nullptr;
    if (work > workLimit) { overflow = true; return nullptr; }
    if (!found) { redMemo[m.id] = Poly(m, 1); return nullptr; }
    Poly& st = redMemo[m.id]; st = r; return &st;
}
// apply the algebraic relations of the generators
Poly NormalForm::reduce(const Poly& p) {
    bool need = false; for (auto& kv : p) { if (redMono(kv.first)) need = true; if (overflow) return p; }
    if (!need) return p;
    Acc a; for (auto& kv : p) { const Poly* q = redMono(kv.first); if (!q) a.add(kv.first, kv.second); else { for (auto& y : *q) a.add(y.first, kv.second * y.second); work += q->size(); } }
    if (work > workLimit) overflow = true;
    return a.poly();
}
Poly NormalForm::collect(Poly p, int gi, int k) {
    Poly D = gens[gi].arg; std::vector<Poly> Dp; for (int j = 0; j <= k; ++j) { Dp.push_back(ppow(D, j)); if (overflow) return p; }
    Acc a; for (auto& kv : p) { int j = expo(kv.first.v(), gi); Mono rest = j ? Mono(without(kv.first.v(), gi)) : kv.first; for (auto& d : Dp[k - j]) { a.add(mmul(rest, d.first), kv.second * d.second); } work += Dp[k - j].size(); if (work > workLimit) { overflow = true; return p; } }
    return a.poly();
}
Poly NormalForm::pinv(const Poly& p) {
    if (p.empty()) { overflow = true; return Poly(); }
    if (p.size() == 1) return reduce(Poly(Mono(vinv(p.t[0].first.v())), 1 / p.t[0].second));
    // clear nested inverses first: multiply numerator and denominator by D^k
    int gi = -1, gk = 0; for (auto& kv : p) for (auto& e : kv.first.v()) if (gens[e.first].k == Gen::InvG) gi = std::max(gi, e.first);
    if (gi >= 0) { for (auto& kv : p) gk = std::max(gk, expo(kv.first.v(), gi)); Poly num = reduce(collect(p, gi, gk)); if (overflow) return Poly(); Poly in = pinv(num); if (overflow) return Poly(); return pmul(in, ppow(gens[gi].arg, gk)); }
    // pull out the monomial content so that Laurent factors cancel
    std::map<int,int> mn; bool first = true;
    for (auto& kv : p) { std::map<int,int> cur; for (auto& e : kv.first.v()) cur[e.first] = e.second;
        if (first) { mn = cur; first = false; } else { for (auto it = mn.begin(); it != mn.end(); ++it) { auto f = cur.find(it->first); int v = f == cur.end() ? 0 : f->second; it->second = std::min(it->second, v); }
            for (auto& c : cur) if (!mn.count(c.first)) mn[c.first] = std::min(0, c.second); } }
    MV inv; for (auto& e : mn) if (e.second) inv.push_back({e.first, -e.second});
    Acc pr; Mono im(inv); size_t li = 0; for (size_t i = 1; i < p.size(); ++i) if (lexLess(p.t[li].first.v(), p.t[i].first.v())) li = i; mpq_class lead = p.t[li].second;
    for (auto& kv : p) pr.add(mmul(kv.first, im), kv.second / lead);
    // rational function in an irreducible denominator: generator inv(prim)
    Gen g; g.k = Gen::InvG; g.var = 0; g.fn = FnK::Uf; g.arg = pr.poly(); g.key = "inv(" + key(g.arg) + ")";
    int ni = gen(g);
    return reduce(Poly(mmul(im, Mono(MV{{ni, 1}})), 1 / lead));
}
bool NormalForm::divide(const Poly& n, const Poly& d, Poly& q) {
    // exact multivariate division on non-negative exponents (lexicographic)
    q = Poly();
    for (auto& kv : n) for (auto& e : kv.first.v()) if (e.second < 0) return false;
    for (auto& kv : d) for (auto& e : kv.first.v()) if (e.second < 0) return false;
    struct L { bool operator()(const Mono& a, const Mono& b) const { return lexLess(a.v(), b.v()); } };
    std::map<Mono, mpq_class, L> r; for (auto& kv : n) r[kv.first] = kv.second;
    size_t li = 0; for (size_t i = 1; i < d.size(); ++i) if (lexLess(d.t[li].first.v(), d.t[i].first.v())) li = i;
    MV dl = vinv(d.t[li].first.v()); mpq_class dc = d.t[li].second; Acc qa; size_t steps = 0;
    while (!r.empty()) {
        if (++steps > 2000 || r.size() > 20000) return false;
        auto lr = std::prev(r.end()); MV m = vmul(lr->first.v(), dl); for (auto& e : m) if (e.second < 0) return false;
        mpq_class c = lr->second / dc; Mono mm(m); qa.add(mm, c);
        for (auto& kv : d) { Mono x = mmul(kv.first, mm); auto& v = r[x]; v -= c * kv.second; if (sgn(v) == 0) r.erase(x); }
        work += d.size();
    }
    q = qa.poly(); return true;
}
// clear inv(D) generators by cancelling them against the numerator
Poly NormalForm::cancel(const Poly& p0) {
    Poly p = p0;
    for (int guard = 0; guard < 32; ++guard) {
        bool changed = false; std::set<int> invs;
        for (auto& kv : p) for (auto& e : kv.first.v()) if (gens[e.first].k == Gen::InvG && !gens[e.first].eager) invs.insert(e.first);
        for (int gi : invs) {
            // group: p = sum_j inv^j * P_j ; bring to common denominator inv^k * N
            int k = 0; for (auto& kv : p) k = std::max(k, expo(kv.first.v(), gi));
            if (k <= 0) continue;
            Poly D = gens[gi].arg, N = collect(p, gi, k); if (overflow) return p0;
            // Laurent content of N
            std::map<int,int> mn; for (auto& kv : N) for (auto& e : kv.first.v()) if (e.second < 0) { auto& v = mn[e.first]; v = std::min(v, e.second); }
            MV up, down; for (auto& e : mn) { up.push_back({e.first, -e.second}); down.push_back(e); }
            Acc na; for (auto& kv : N) na.add(mmul(kv.first, Mono(up)), kv.second); Poly Np = na.poly();
            int k0 = k; Poly q;
            while (k > 0 && !Np.empty() && divide(Np, D, q)) { Np = q; --k; }
            if (k != k0 || Np.empty()) {
                MV g; if (k) g.push_back({gi, k}); Mono f = mmul(Mono(down), Mono(g)); Acc np; for (auto& kv : Np) np.add(mmul(kv.first, f), kv.second);
                p = reduce(np.poly()); changed = true; break; }
        }
        if (!changed) break;
    }
    return p;
}
Poly NormalForm::norm(T t) {
    Poly r;
    if (overflow) return r;
    switch (t->op) {
    case Op::Const: return Poly(Mono(), *t->q);
    case Op::Inf: case Op::NaN: case Op::Undef: overflow = true; return r;
    default: break;
    }
    auto it = memo.find(t->id); if (it != memo.end()) return it->second;
    switch (t->op) {
    case Op::Var: {
        auto rw = rewrites.find(t->var); if (rw != rewrites.end()) { r = norm(rw->second); break; }
        VarInfo& vi = TT.vars[t->var];
        Gen g; g.var = t->var; g.k = Gen::VarG; g.fn = FnK::Uf; g.key = "v" + std::to_string(t->var);
        if (vi.rootOf) { g.k = Gen::FnG; g.fn = FnK::Root; g.arg = norm(vi.rootOf); }
        r = Poly(Mono(MV{{gen(g), 1}}), 1); break; }
    case Op::Add: r = padd(norm(t->a), norm(t->b), 1); break;
    case Op::Sub: r = padd(norm(t->a), norm(t->b), -1); break;
    case Op::Mul: r = pmul(norm(t->a), norm(t->b)); break;
    case Op::Div: { Poly i = pinv(norm(t->b)); if (!overflow) r = cancel(pmul(norm(t->a), i)); break; }
    case Op::Ite: overflow = true; return r;
    case Op::Fn: {
        Poly a = cancel(norm(t->a)); Poly b; if (t->b) b = norm(t->b); if (overflow) return r;
        FnK f = t->fn;
        int sign = 1;
        // canonical sign of the argument for even/odd functions
        if (f == FnK::Cosh || f == FnK::Sinh || f == FnK::Tanh || f == FnK::Sin || f == FnK::Cos || f == FnK::Tan || f == FnK::Fabs) {
            if (a.empty()) { if (f == FnK::Cosh || f == FnK::Cos) r = Poly(Mono(), 1); break; }
            if (sgn(a.t.back().second) < 0) { for (auto& kv : a.t) kv.second = -kv.second; if (f != FnK::Cosh && f != FnK::Cos && f != FnK::Fabs) sign = -1; }
        }
        auto mkg = [&](FnK k, const char* nm) { Gen g; g.k = Gen::FnG; g.fn = k; g.var = 0; g.arg = a; g.arg2 = b; g.key = std::string(nm) + "(" + key(a) + (t->b ? "," + key(b) : "") + ")"; return gen(g); };
        switch (f) {
        case FnK::Tanh: r = Poly(mmul(Mono(MV{{mkg(FnK::Sinh, "sinh"), 1}}), Mono(MV{{mkg(FnK::Cosh, "cosh"), -1}})), sign); break;
        case FnK::Tan: r = Poly(mmul(Mono(MV{{mkg(FnK::Sin, "sin"), 1}}), Mono(MV{{mkg(FnK::Cos, "cos"), -1}})), sign); break;
        case FnK::Cosh: r = Poly(Mono(MV{{mkg(f, "cosh"), 1}}), 1); break;
        case FnK::Sinh: r = Poly(Mono(MV{{mkg(f, "sinh"), 1}}), sign); break;
        case FnK::Sin: r = Poly(Mono(MV{{mkg(f, "sin"), 1}}), sign); break;
        case FnK::Cos: r = Poly(Mono(MV{{mkg(f, "cos"), 1}}), 1); break;
        case FnK::Fabs: r = Poly(Mono(MV{{mkg(f, "fabs"), 1}}), 1); break;
        case FnK::Sqrt: {
            if (a.empty()) break;
            // sqrt of a constant square, or of a single even monomial of roots
            if (a.size() == 1 && !a.t[0].first.id) { T c = TT.fn(FnK::Sqrt, TT.cst(a.t[0].second)); if (c->op == Op::Const) { r = Poly(Mono(), *c->q); break; } }
            r = Poly(Mono(MV{{mkg(f, "sqrt"), 1}}), 1); break; }
        default: { static const char* n[] = {"sqrt","cosh","sinh","tanh","exp","log","sin","cos","tan","atan","asin","acos","atan2","fabs","pow","root","floor","uf"};
            r = Poly(Mono(MV{{mkg(f, n[(int)f]), 1}}), 1); break; }
        }
        break; }
    default: break;
    }
    if (overflow) return Poly();
    memo[t->id] = r;
    return r;
}
bool NormalForm::isZero(const Poly& p0) {
    Poly p = p0;
    for (int guard = 0; guard < 64; ++guard) {
        if (overflow) return false;
        if (p.empty()) return true;
        int gi = -1, k = 0; for (auto& kv : p) for (auto& e : kv.first.v()) if (gens[e.first].k == Gen::InvG) gi = std::max(gi, e.first);
        if (gi < 0) return false;
        static bool dbg = getenv("VP_NF"); if (dbg) { fprintf(stderr, "isZero %zu terms: %s\n", p.size(), polyStr(p).c_str()); for (size_t i = 0; i < gens.size(); ++i) fprintf(stderr, "  gen %zu %s eager %d args %zu\n", i, gens[i].key.substr(0, 200).c_str(), gens[i].eager, gens[i].arg.size()); }
        for (auto& kv : p) k = std::max(k, expo(kv.first.v(), gi));
        p = reduce(collect(p, gi, k));
    }
    return false;
}
bool NormalForm::equal(T a, T b) {
    if (a == b) return true;
    overflow = false; work = 0;
    Poly x = norm(a); if (overflow) return false; Poly y = norm(b); if (overflow) return false;
    return isZero(padd(x, y, -1));
}
std::string NormalForm::polyStr(const Poly& p) { std::string s; int n = 0; for (auto& kv : p) { if (n++ > 12) { s += " ..."; break; } s += " + " + kv.second.get_str(); for (auto& e : kv.first.v()) s += "*" + (gens[e.first].k == Gen::VarG ? TT.vars[gens[e.first].var].name : gens[e.first].key.substr(0, 40)) + "^" + std::to_string(e.second); } return s; }

#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <cmath>
double g_solverTime = 0; long g_solverCalls = 0;
namespace {
struct Tr {
    z3::context& c; z3::expr_vector axioms;
    std::unordered_map<uint32_t, z3::expr> tm; std::unordered_map<uint32_t, z3::expr> bm;
    std::map<int, z3::expr> vars; std::map<int, z3::expr> bvars;
    std::map<std::pair<int, std::string>, z3::expr> fns; NormalForm nf;
    Tr(z3::context& c) : c(c), axioms(c) {}
    z3::expr num(const mpq_class& q) { return c.real_val(q.get_str().c_str()); }
    z3::expr fnApp(FnK f, T arg, T arg2, uint32_t id) {
        z3::expr a = tr(arg);
        std::string nm = "f" + std::to_string((int)f) + "_" + std::to_string(id);
        z3::expr r = c.real_const(nm.c_str());
        switch (f) {
        case FnK::Sqrt: axioms.push_back(r >= 0 && r * r == a); break;
        case FnK::Fabs: axioms.push_back(r == z3::ite(a >= 0, a, -a)); break;
        case FnK::Cosh: axioms.push_back(r >= 1); axioms.push_back(z3::implies(a != 0, r > 1)); axioms.push_back(z3::implies(a == 0, r == 1)); break;
        case FnK::Tanh: axioms.push_back(r > -1 && r < 1); axioms.push_back((a > 0) == (r > 0)); axioms.push_back((a < 0) == (r < 0)); break;
        case FnK::Sinh: axioms.push_back((a > 0) == (r > 0)); axioms.push_back((a < 0) == (r < 0)); break;
        case FnK::Exp: axioms.push_back(r > 0); axioms.push_back((a > 0) == (r > 1)); axioms.push_back((a == 0) == (r == 1)); break;
        case FnK::Sin: case FnK::Cos: axioms.push_back(r >= -1 && r <= 1); break;
        default: break;
        }
        return r;
    }
    z3::expr tr(T t) {
        auto it = tm.find(t->id); if (it != tm.end()) return it->second;
        z3::expr r = c.real_val(0);
        switch (t->op) {
        case Op::Const: r = num(*t->q); break;
        case Op::Var: { r = c.real_const(("v" + std::to_string(t->var)).c_str()); vars.emplace(t->var, r);
            if (TT.vars[t->var].rootOf) { tm.emplace(t->id, r); axioms.push_back(r * r == tr(TT.vars[t->var].rootOf)); return r; }
            if (TT.vars[t->var].isInt) { r = z3::to_real(c.int_const(("i" + std::to_string(t->var)).c_str())); vars.erase(t->var); vars.emplace(t->var, r); }
            break; }
        case Op::Add: r = tr(t->a) + tr(t->b); break; case Op::Sub: r = tr(t->a) - tr(t->b); break;
        case Op::Mul: r = tr(t->a) * tr(t->b); break; case Op::Div: r = tr(t->a) / tr(t->b); break;
        case Op::Ite: r = z3::ite(trb(t->c), tr(t->a), tr(t->b)); break;
        case Op::Fn: r = fnApp(t->fn, t->a, t->b, t->id); break;
        default: r = c.real_const("special"); break;
        }
        tm.emplace(t->id, r); return r;
    }
    z3::expr trb(B b) {
        auto it = bm.find(b->id); if (it != bm.end()) return it->second;
        z3::expr r = c.bool_val(true);
        switch (b->op) {
        case BOp::True: break; case BOp::False: r = c.bool_val(false); break;
        case BOp::Lt: r = tr(b->x) < tr(b->y); break; case BOp::Le: r = tr(b->x) <= tr(b->y); break; case BOp::Eq: r = tr(b->x) == tr(b->y); break;
        case BOp::And: r = trb(b->a) && trb(b->b); break; case BOp::Or: r = trb(b->a) || trb(b->b); break; case BOp::Not: r = !trb(b->a); break;
        case BOp::BVar: r = c.bool_const(("b" + std::to_string(b->var)).c_str()); bvars.emplace(b->var, r); break;
        }
        bm.emplace(b->id, r); return r;
    }
};
}
SolveResult solve(const std::vector<B>& conds, unsigned timeoutMs) {
    auto t0 = std::chrono::steady_clock::now(); g_solverCalls++;
    SolveResult res; res.r = SolveResult::UNK;
    try {
        z3::context c; c.set("timeout", (int)timeoutMs);
        z3::solver s(c); Tr tr(c);
        std::vector<z3::expr> es;
        for (B b : conds) es.push_back(tr.trb(b));
        for (auto& e : es) s.add(e);
        for (unsigned i = 0; i < tr.axioms.size(); ++i) s.add(tr.axioms[i]);
        auto r = s.check();
        if (r == z3::unsat) res.r = SolveResult::UNSAT;
        else if (r == z3::sat) { res.r = SolveResult::SAT; z3::model m = s.get_model();
            for (auto& kv : tr.vars) { z3::expr v = m.eval(kv.second, true); double d = 0;
                if (v.is_numeral()) { std::string dd = v.get_decimal_string(20); if (!dd.empty() && dd.back()=='?') dd.pop_back(); d = std::stod(dd); } else if (v.is_algebraic()) { std::string dd = v.get_decimal_string(20); if (!dd.empty() && dd.back()=='?') dd.pop_back(); d = std::stod(dd); }
                res.model[kv.first] = d; }
            for (auto& kv : tr.bvars) res.bmodel[kv.first] = m.eval(kv.second, true).is_true(); }
    } catch (std::exception& e) { } catch (z3::exception& e) { }
    g_solverTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    return res;
}

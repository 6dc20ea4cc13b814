#include "exec.h"
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <iostream>
#include <algorithm>
using namespace llvm;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

enum BI { B_NONE = 1, B_IOS, B_ZERO, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_DEL, B_DELARR, B_MEMCPY, B_MEMSET, B_MEMCMP, B_STRLEN, B_MEMCHR, B_STRCMP,
          B_MATH1, B_MATH2, B_GUARD, B_ATEXIT, B_DYNCAST, B_THROW, B_ABORT, B_VP, B_FMIN, B_FMAX, B_ARG0, B_UNREACH, B_HASHBYTES, B_STRSTR, B_VSNPRINTF, B_EMPTYSTR };

double Exec::rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return (double)(rng >> 11) / 9007199254740992.0; }

static bool pre(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static const std::map<std::string, FnK> math1 = {{"sqrt",FnK::Sqrt},{"cosh",FnK::Cosh},{"sinh",FnK::Sinh},{"tanh",FnK::Tanh},{"exp",FnK::Exp},{"log",FnK::Log},{"sin",FnK::Sin},{"cos",FnK::Cos},{"tan",FnK::Tan},{"atan",FnK::Atan},{"asin",FnK::Asin},{"acos",FnK::Acos},{"fabs",FnK::Fabs},{"floor",FnK::Floor}};

int Exec::classify(const std::string& n) {
    if (pre(n, "vp_")) return B_VP;
    if (n == "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEEC1Ev" || n == "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEED1Ev") return B_NONE; // stubs/libstdcxx
    if (pre(n, "_ZNSo") || pre(n, "_ZNSi") || pre(n, "_ZStlsI") || pre(n, "_ZStrsI") || pre(n, "_ZSt4endl") || pre(n, "_ZSt4ends") || pre(n, "_ZSt5flush") || pre(n, "_ZNSt8ios_base") || pre(n, "_ZNKSt8ios_base") || pre(n, "_ZNSt9basic_ios") || pre(n, "_ZNKSt9basic_ios") ||
        pre(n, "_ZNSt7__cxx1118basic_stringstream") || pre(n, "_ZNSt7__cxx1119basic_ostringstream") || pre(n, "_ZNKSt7__cxx1119basic_ostringstream") || pre(n, "_ZNKSt7__cxx1118basic_stringstream") || pre(n, "_ZNSt7__cxx1119basic_istringstream") || pre(n, "_ZNSt7__cxx1115basic_stringbuf") || pre(n, "_ZNKSt7__cxx1115basic_stringbuf") || pre(n, "_ZNSt15basic_streambuf") || pre(n, "_ZNSt6locale") || pre(n, "_ZNSt13basic_ostream") || pre(n, "_ZSt16__ostream_insert") ||
        pre(n, "_ZN5EigenlsI") || pre(n, "_ZNSt14basic_ofstream") || pre(n, "_ZSt19__throw_ios_failure")) return B_IOS;
    if (n == "malloc") return B_MALLOC; if (n == "calloc") return B_CALLOC; if (n == "realloc") return B_REALLOC; if (n == "free") return B_FREE;
    if (n == "_Znwm" || n == "_ZnwmSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t") return B_NEW;
    if (n == "_Znam" || n == "_ZnamSt11align_val_t" || n == "_ZnamRKSt9nothrow_t") return B_NEWARR;
    if (pre(n, "_ZdlPv")) return B_DEL; if (pre(n, "_ZdaPv")) return B_DELARR;
    if (n == "memcpy" || n == "memmove") return B_MEMCPY; if (n == "memset") return B_MEMSET;
    if (n == "memcmp" || n == "bcmp") return B_MEMCMP; if (n == "strlen") return B_STRLEN; if (n == "memchr") return B_MEMCHR; if (n == "strcmp") return B_STRCMP;
    if (n.find("8toStringB5cxx11Ev") != std::string::npos && (pre(n, "_ZNK8iDynTree") || pre(n, "_ZN8iDynTree"))) return B_EMPTYSTR;
    if (math1.count(n)) return B_MATH1; if (n == "atan2" || n == "pow") return B_MATH2; if (n == "fmin") return B_FMIN; if (n == "fmax") return B_FMAX;
    if (n == "__cxa_guard_acquire") return B_GUARD; if (n == "__cxa_guard_release" || n == "__cxa_guard_abort") return B_ZERO;
    if (n == "__cxa_atexit") return B_ZERO; if (n == "__dynamic_cast") return B_DYNCAST;
    if (n == "__cxa_throw" || pre(n, "_ZSt20__throw") || pre(n, "_ZSt17__throw") || pre(n, "_ZSt19__throw") || pre(n, "_ZSt24__throw") || pre(n, "_ZSt16__throw") || pre(n, "_ZSt25__throw") || pre(n, "_ZSt21__throw") || pre(n, "_ZSt28__throw") || n == "__cxa_rethrow" || n == "__cxa_bad_cast" || n == "__cxa_throw_bad_array_new_length") return B_THROW;
    if (n == "abort" || n == "_ZSt9terminatev" || n == "__cxa_pure_virtual" || n == "exit" || n == "__assert_fail" || n == "__clang_call_terminate") return B_ABORT;
    if (pre(n, "pthread_") || pre(n, "__pthread") || n == "__gthread_active" || n == "usleep" || pre(n, "_ZNSt6chrono") || n == "printf" || n == "puts" || n == "putchar" || n == "fflush" || n == "_ZNSt6thread20hardware_concurrencyEv") return B_ZERO;
    if (n == "_ZSt11_Hash_bytesPKvmm") return B_HASHBYTES;
    if (n == "__cxa_allocate_exception") return B_MALLOC;
    if (n == "strstr") return B_STRSTR;
    if (n == "vsnprintf") return B_VSNPRINTF;
    return B_NONE;
}

bool Exec::load(const std::string& path, bool) {
    SMDiagnostic err;
    auto m = getLazyIRFileModule(path, err, ctx);
    if (!m) { std::cerr << "cannot load " << path << ": " << err.getMessage().str() << "\n"; return false; }
    for (auto& F : *m) if (!F.isDeclaration() && !F.hasLocalLinkage() && !F.hasAvailableExternallyLinkage()) { auto it = defs.find(F.getName().str()); if (it == defs.end()) defs[F.getName().str()] = &F; else if (it->second->isWeakForLinker() && !F.isWeakForLinker()) it->second = &F; }
    for (auto& G : m->globals()) if (!G.isDeclaration() && !G.hasLocalLinkage() && !G.hasAvailableExternallyLinkage()) gdefs.emplace(G.getName().str(), &G);
    for (auto& Al : m->aliases()) if (auto* F = dyn_cast<Function>(Al.getAliaseeObject())) defs.emplace(Al.getName().str(), F);
    if (!DL) DL = new DataLayout(m->getDataLayout());
    mods.push_back(std::move(m));
    return true;
}
Function* Exec::resolve(Function* F) {
    if (F->hasLocalLinkage()) return F;
    std::string nm = F->getName().str(); if (nm.rfind("_ZN9__gnu_cxx12__to_xstring", 0) == 0) nm = "stub_to_xstring"; // C variadic: contract in stubs/libstdcxx.cpp
    auto ct = defs.find("vpcontract_" + nm); if (ct != defs.end()) { assumptions.insert("calls of " + nm + " replaced by its contract, verified on its own"); return ct->second; }
    auto it = defs.find(nm);
    return it == defs.end() ? F : it->second;
}
FuncInfo* Exec::info(Function* F) {
    F = resolve(F);
    auto it = finfo.find(F); if (it != finfo.end()) return it->second;
    FuncInfo* fi = new FuncInfo; fi->F = F; fi->name = F->getName().str(); fi->builtin = classify(fi->name);
    fi->addr = nextFaddr; nextFaddr += 16; faddr[fi->addr] = fi; finfo[F] = fi;
    return fi;
}
FuncInfo* Exec::infoByName(const std::string& n) { auto it = defs.find(n); return it == defs.end() ? nullptr : info(it->second); }

uint64_t Exec::gvAddr(const GlobalVariable* g0) {
    const GlobalVariable* g = g0;
    if (!g->hasLocalLinkage()) { auto it = gdefs.find(g->getName().str()); if (it != gdefs.end()) g = it->second; }
    auto it = gaddr.find(g); if (it != gaddr.end()) return it->second;
    if (g->isDeclaration()) {
        auto e = extg.find(g->getName().str());
        if (e != extg.end()) { gaddr[g] = e->second; return e->second; }
        RegP r = std::make_shared<Region>(); r->base = nextG; r->size = 2048; r->data.assign(2048, 0); r->st.assign(2048, 1); r->name = g->getName().str();
        if (r->name == "__libc_single_threaded") r->data[0] = 1;
        nextG += 4096; globInit.push_back(r); extg[r->name] = r->base; gaddr[g] = r->base; gbyaddr[r->base] = g; return r->base;
    }
    uint64_t sz = DL->getTypeAllocSize(g->getValueType());
    RegP r = std::make_shared<Region>(); r->base = nextG; r->size = sz; r->data.assign(sz, 0); r->st.assign(sz, 1); r->name = g->getName().str(); r->ro = g->isConstant();
    nextG += (sz + 64 + 63) / 64 * 64; gaddr[g] = r->base; gbyaddr[r->base] = g;
    globInit.push_back(r);
    if (g->hasInitializer()) initGlobal(r, 0, g->getInitializer());
    return r->base;
}
void Exec::initGlobal(RegP r, uint64_t off, const Constant* C) {
    Type* ty = C->getType(); uint64_t n = DL->getTypeStoreSize(ty);
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
    if (auto* ds = dyn_cast<ConstantDataSequential>(C)) { uint64_t es = DL->getTypeAllocSize(ds->getElementType()); for (unsigned i = 0; i < ds->getNumElements(); ++i) initGlobal(r, off + i * es, ds->getElementAsConstant(i)); return; }
    if (auto* ca = dyn_cast<ConstantArray>(C)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) initGlobal(r, off + i * es, ca->getOperand(i)); return; }
    if (auto* cs = dyn_cast<ConstantStruct>(C)) { const StructLayout* sl = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); ++i) initGlobal(r, off + sl->getElementOffset(i), cs->getOperand(i)); return; }
    Val v = constant(C); uint64_t bits = 0;
    if (v.k == Val::I) bits = v.i;
    else if (v.k == Val::D) { double d = v.t->op == Op::Const ? v.t->q->get_d() : v.t->op == Op::Inf ? v.t->var * INFINITY : NAN; memcpy(&bits, &d, 8); }
    else throw Unsupported("global initializer");
    for (uint64_t i = 0; i < n && i < 8; ++i) r->data[off + i] = (bits >> (8 * i)) & 255;
}
static std::unordered_map<uint64_t, T> dblCache;
static T dblTerm(uint64_t bits) { auto it = dblCache.find(bits); if (it != dblCache.end()) return it->second; double d; memcpy(&d, &bits, 8); T t = TT.cst(d); dblCache[bits] = t; return t; }
static bool exactBits(T t, uint64_t& bits) {
    double d;
    if (t->op == Op::Const) { d = t->q->get_d(); if (dblTerm(*(uint64_t*)&d) != t) return false; }
    else if (t->op == Op::Inf) d = t->var * INFINITY; else if (t->op == Op::NaN) d = NAN; else return false;
    memcpy(&bits, &d, 8); return true;
}
Val Exec::constant(const Constant* C) {
    Type* ty = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C)) return Val::Int(ci->getValue().getBitWidth() > 64 ? ci->getValue().trunc(64).getZExtValue() : ci->getZExtValue());
    if (auto* cf = dyn_cast<ConstantFP>(C)) { double d = ty->isDoubleTy() ? cf->getValueAPF().convertToDouble() : ty->isFloatTy() ? (double)cf->getValueAPF().convertToFloat() : NAN; uint64_t b; memcpy(&b, &d, 8); return Val::Dbl(dblTerm(b)); }
    if (isa<ConstantPointerNull>(C)) return Val::Int(0);
    if (isa<UndefValue>(C)) { if (ty->isStructTy() || ty->isArrayTy() || ty->isVectorTy()) { std::vector<Val> v; unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements(); for (unsigned i = 0; i < n; ++i) v.push_back(Val::Undef()); return Val::Agg(v); } return Val::Undef(); }
    if (auto* f = dyn_cast<Function>(C)) return Val::Int(info(const_cast<Function*>(f))->addr);
    if (auto* g = dyn_cast<GlobalVariable>(C)) return Val::Int(gvAddr(g));
    if (auto* a = dyn_cast<GlobalAlias>(C)) return constant(a->getAliasee());
    if (isa<ConstantAggregateZero>(C) || isa<ConstantArray>(C) || isa<ConstantStruct>(C) || isa<ConstantVector>(C) || isa<ConstantDataSequential>(C)) {
        std::vector<Val> v; unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
        for (unsigned i = 0; i < n; ++i) v.push_back(constant(C->getAggregateElement(i))); return Val::Agg(v); }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
        if (auto* gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) throw Unsupported("constexpr gep"); Val b = constant(cast<Constant>(gep->getPointerOperand())); return Val::Int(b.i + off.getSExtValue()); }
        switch (ce->getOpcode()) {
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: case Instruction::Trunc: case Instruction::ZExt: return constant(ce->getOperand(0));
        case Instruction::Sub: return Val::Int(constant(ce->getOperand(0)).i - constant(ce->getOperand(1)).i);
        case Instruction::Add: return Val::Int(constant(ce->getOperand(0)).i + constant(ce->getOperand(1)).i);
        default: break; }
    }
    throw Unsupported("constant kind");
}
void Exec::decode(FuncInfo* fi) {
    if (fi->ready) return;
    Function* F = fi->F;
    if (F->isMaterializable()) { if (auto e = F->materialize()) { consumeError(std::move(e)); throw Unsupported("cannot materialize " + fi->name); } }
    DenseMap<const llvm::Value*, int> slot; DenseMap<const BasicBlock*, int> bbi; int ns = 0;
    for (auto& A : F->args()) slot[&A] = ns++;
    int bn = 0; for (auto& BB : *F) { bbi[&BB] = bn++; for (auto& I : BB) if (!I.getType()->isVoidTy()) slot[&I] = ns++; }
    fi->nslots = ns;
    DenseMap<const llvm::Value*, int> cmap;
    auto opnd = [&](const llvm::Value* v) -> int {
        auto it = slot.find(v); if (it != slot.end()) return it->second;
        auto ic = cmap.find(v); if (ic != cmap.end()) return ic->second;
        if (auto* C = dyn_cast<Constant>(v)) { Val cv; try { cv = constant(C); } catch (Unsupported&) { cv = Val::Undef(); } fi->consts.push_back(cv); int k = -(int)fi->consts.size(); cmap[v] = k; return k; }
        fi->consts.push_back(Val::Undef()); return -(int)fi->consts.size(); };
    fi->bbs.resize(bn); bn = 0;
    for (auto& BB : *F) {
        BBInfo& bi = fi->bbs[bn++];
        for (auto& I : BB) {
            if (auto* phi = dyn_cast<PHINode>(&I)) { std::vector<std::pair<int,int>> in; for (unsigned k = 0; k < phi->getNumIncomingValues(); ++k) in.push_back({bbi[phi->getIncomingBlock(k)], opnd(phi->getIncomingValue(k))}); bi.phis.push_back({slot[&I], in}); continue; }
            CI ci; ci.I = &I; ci.op = I.getOpcode(); ci.dst = I.getType()->isVoidTy() ? -1 : slot[&I];
            if (isa<DbgInfoIntrinsic>(I)) continue;
            if (auto* cb = dyn_cast<CallBase>(&I)) {
                for (auto& a : cb->args()) ci.ops.push_back(opnd(a.get()));
                if (Function* cf = cb->getCalledFunction()) ci.callee = info(cf); else { if (auto* ga = dyn_cast<GlobalAlias>(cb->getCalledOperand())) { if (auto* af = dyn_cast<Function>(ga->getAliaseeObject())) ci.callee = info(af); } ci.ops.push_back(opnd(cb->getCalledOperand())); }
            } else if (auto* gep = dyn_cast<GetElementPtrInst>(&I)) {
                ci.ops.push_back(opnd(gep->getPointerOperand()));
                for (auto gi = gep_type_begin(gep), ge = gep_type_end(gep); gi != ge; ++gi) {
                    const llvm::Value* ix = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull()) { ci.gepOff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
                    int64_t es = DL->getTypeAllocSize(gi.getIndexedType());
                    if (auto* c = dyn_cast<ConstantInt>(ix)) ci.gepOff += c->getSExtValue() * es;
                    else ci.gepIdx.push_back({opnd(ix), es});
                }
            } else for (auto& o : I.operands()) if (!isa<BasicBlock>(o.get())) ci.ops.push_back(opnd(o.get()));
            if (auto* t = dyn_cast<BranchInst>(&I)) for (unsigned k = 0; k < t->getNumSuccessors(); ++k) bi.succ.push_back(bbi[t->getSuccessor(k)]);
            if (auto* t = dyn_cast<SwitchInst>(&I)) { bi.succ.push_back(bbi[t->getDefaultDest()]); for (auto& c : t->cases()) bi.succ.push_back(bbi[c.getCaseSuccessor()]); }
            if (auto* t = dyn_cast<InvokeInst>(&I)) bi.succ.push_back(bbi[t->getNormalDest()]);
            bi.insts.push_back(std::move(ci));
        }
    }
    fi->ready = true;
}

// ------------------------------------------------------------------ memory
RegP* Exec::find(State& s, uint64_t a) {
    std::vector<RegP>* v = a >= 0x700000000000ull ? &s.stk : a >= 0x100000000000ull ? &s.heap : &s.glob;
    if (v == &s.glob && v->size() < globInit.size()) for (size_t i = v->size(); i < globInit.size(); ++i) v->push_back(globInit[i]);
    size_t lo = 0, hi = v->size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if ((*v)[m]->base <= a) lo = m + 1; else hi = m; }
    if (!lo) return nullptr;
    RegP& r = (*v)[lo - 1];
    if (a > r->base + r->size) return nullptr;
    return &r;
}
static std::string hex(uint64_t a) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)a); return b; }
Region& Exec::rd(State& s, uint64_t a, uint64_t n, uint64_t& off) {
    memChecks++;
    RegP* r = find(s, a); if (!r) throw PathFault(a < 4096 ? "null pointer read" : "read outside any object at " + hex(a));
    if ((*r)->freed) throw PathFault("read after free");
    off = a - (*r)->base; if (off + n > (*r)->size) throw PathFault("read past the end of an object of " + std::to_string((*r)->size) + " bytes at offset " + std::to_string(off));
    return **r;
}
Region& Exec::wr(State& s, uint64_t a, uint64_t n, uint64_t& off) {
    memChecks++;
    RegP* r = find(s, a); if (!r) throw PathFault(a < 4096 ? "null pointer write" : "write outside any object at " + hex(a));
    if ((*r)->freed) throw PathFault("write after free");
    off = a - (*r)->base; if (off + n > (*r)->size) throw PathFault("write past the end of an object of " + std::to_string((*r)->size) + " bytes at offset " + std::to_string(off));
    if (r->use_count() > 1) *r = std::make_shared<Region>(**r);
    return **r;
}
uint64_t Exec::allocHeap(State& s, uint64_t n, int kind, const char* nm) {
    if (n > (1ull << 28)) throw Unsupported("huge allocation");
    RegP r = std::make_shared<Region>(); r->base = s.heapTop; r->size = n; r->data.assign(n, 0xAB); r->st.assign(n, 0); r->heap = true; r->allocKind = kind; r->name = nm;
    s.heapTop += (n + 32 + 15) / 16 * 16; s.heap.push_back(r); return r->base;
}
uint64_t Exec::allocStack(State& s, uint64_t n, uint64_t) {
    RegP r = std::make_shared<Region>(); r->base = s.stkTop; r->size = n; r->data.assign(n, 0xAB); r->st.assign(n, 0);
    s.stkTop += (n + 32 + 63) / 64 * 64; s.stk.push_back(r); return r->base;
}
void Exec::freeHeap(State& s, uint64_t a, int kind) {
    if (!a) return;
    RegP* r = find(s, a); if (!r || (*r)->base != a || !(*r)->heap) throw PathFault("free of a pointer that was not allocated");
    if ((*r)->freed) throw PathFault("double free");
    if ((*r)->allocKind != kind) throw PathFault("mismatched allocation and deallocation");
    RegP n = std::make_shared<Region>(); n->base = (*r)->base; n->size = (*r)->size; n->freed = true; n->heap = true; n->name = (*r)->name; *r = n;
}
Val Exec::loadTy(State& s, uint64_t a, Type* ty) {
    if (ty->isIntegerTy() || ty->isPointerTy()) {
        uint64_t n = ty->isPointerTy() ? 8 : DL->getTypeStoreSize(ty), off; Region& r = rd(s, a, n, off);
        if (n > 8) { // i128 and the like: split into words
            std::vector<Val> v; for (uint64_t k = 0; k < n; k += 8) v.push_back(loadTy(s, a + k, Type::getInt64Ty(ctx))); return Val::Agg(v); }
        if (r.st[off] == 2 && n == 8) return r.sym[(uint32_t)off];
        Val v = Val::Int(0); uint64_t um = 0;
        for (uint64_t i = 0; i < n; ++i) { uint8_t st = r.st[off + i]; if (st == 1) v.i |= (uint64_t)r.data[off + i] << (8 * i); else if (st == 0) um |= 0xffull << (8 * i); else if (st == 4) { v.i |= (uint64_t)r.data[off + i] << (8 * i); um |= (uint64_t)r.ub[(uint32_t)(off + i)] << (8 * i); } else throw Unsupported("partial read of a symbolic cell"); }
        if (um == (n == 8 ? ~0ull : (1ull << (8 * n)) - 1)) return Val::Undef();
        v.um = um; v.i &= ~um; return v;
    }
    if (ty->isDoubleTy()) {
        uint64_t off; Region& r = rd(s, a, 8, off);
        if (r.st[off] == 2) { Val v = r.sym[(uint32_t)off]; if (v.k == Val::D) return v; throw Unsupported("double read of a non-double symbolic cell"); }
        uint64_t bits = 0; bool und = false;
        for (int i = 0; i < 8; ++i) { if (r.st[off + i] == 1) bits |= (uint64_t)r.data[off + i] << (8 * i); else if (r.st[off + i] == 0 || r.st[off + i] == 4) und = true; else throw Unsupported("misaligned double read"); }
        if (und) { T t = TT.var("uninit#" + std::to_string(TT.vars.size()), -50, 50); TT.vars.back().undef = true; newSampleVal(s, t->var, true); uint64_t o2; Region& w = wr(s, a, 8, o2); for (int i = 0; i < 8; ++i) w.st[o2 + i] = i ? 3 : 2; w.sym[(uint32_t)o2] = Val::Dbl(t); return Val::Dbl(t); }
        return Val::Dbl(dblTerm(bits));
    }
    if (ty->isFloatTy()) { uint64_t off; Region& r = rd(s, a, 4, off); uint32_t b = 0; for (int i = 0; i < 4; ++i) b |= (uint32_t)r.data[off + i] << (8 * i); float f; memcpy(&f, &b, 4); return Val::Dbl(TT.cst((double)f)); }
    std::vector<Val> v;
    if (auto* st = dyn_cast<StructType>(ty)) { const StructLayout* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(loadTy(s, a + sl->getElementOffset(i), st->getElementType(i))); return Val::Agg(v); }
    if (ty->isArrayTy()) { Type* e = ty->getArrayElementType(); for (unsigned i = 0; i < ty->getArrayNumElements(); ++i) v.push_back(loadTy(s, a + i * DL->getTypeAllocSize(e), e)); return Val::Agg(v); }
    if (auto* vt = dyn_cast<FixedVectorType>(ty)) { Type* e = vt->getElementType(); for (unsigned i = 0; i < vt->getNumElements(); ++i) v.push_back(loadTy(s, a + i * DL->getTypeAllocSize(e), e)); return Val::Agg(v); }
    throw Unsupported("load type");
}
static void killSym(Region& r, uint64_t off, uint64_t n) { // a write over [off,off+n) destroys symbolic cells it overlaps
    uint64_t lo = off;
    if (n == 0) return;
    while (lo > 0 && r.st[lo] == 3) --lo;
    uint64_t end = off + n;
    for (uint64_t i = lo; i < end; ) { if (r.st[i] == 2) { r.sym.erase((uint32_t)i); for (uint64_t k = i; k < i + 8 && k < r.size; ++k) if (k < off || k >= end) r.st[k] = 0; else r.st[k] = 0; i += 8; } else ++i; }
}
void Exec::storeTy(State& s, uint64_t a, Type* ty, const Val& v) {
    if (ty->isIntegerTy() || ty->isPointerTy()) {
        uint64_t n = ty->isPointerTy() ? 8 : DL->getTypeStoreSize(ty), off;
        if (n > 8) { if (v.k == Val::A) { for (uint64_t k = 0; k < n; k += 8) storeTy(s, a + k, Type::getInt64Ty(ctx), (*v.agg)[k / 8]); return; } if (v.k == Val::I) { for (uint64_t k = 0; k < n; k += 8) storeTy(s, a + k, Type::getInt64Ty(ctx), Val::Int(k ? 0 : v.i)); return; } throw Unsupported("wide store"); }
        Val w = v;
        if (w.k == Val::Bx) w = Val::Int(concretize(s, w.b));
        Region& r = wr(s, a, n, off); killSym(r, off, n);
        if (w.k == Val::I) { for (uint64_t i = 0; i < n; ++i) { r.data[off + i] = (w.i >> (8 * i)) & 255; uint8_t u = (w.um >> (8 * i)) & 255; r.st[off + i] = u == 0 ? 1 : u == 255 ? 0 : 4; if (u && u != 255) r.ub[(uint32_t)(off + i)] = u; } return; }
        if (w.k == Val::U) { for (uint64_t i = 0; i < n; ++i) r.st[off + i] = 0; return; }
        if (n == 8) { if (w.k == Val::D) { uint64_t bits; if (exactBits(w.t, bits)) { for (int i = 0; i < 8; ++i) { r.data[off + i] = (bits >> (8 * i)) & 255; r.st[off + i] = 1; } return; } }
            for (int i = 0; i < 8; ++i) r.st[off + i] = i ? 3 : 2; r.sym[(uint32_t)off] = w; return; }
        throw Unsupported("store of a narrow symbolic value");
    }
    if (ty->isDoubleTy()) {
        uint64_t off; Region& r = wr(s, a, 8, off); killSym(r, off, 8);
        if (v.k == Val::U) { for (int i = 0; i < 8; ++i) r.st[off + i] = 0; return; }
        T t = toT(v); uint64_t bits;
        if (exactBits(t, bits)) { for (int i = 0; i < 8; ++i) { r.data[off + i] = (bits >> (8 * i)) & 255; r.st[off + i] = 1; } return; }
        for (int i = 0; i < 8; ++i) r.st[off + i] = i ? 3 : 2; r.sym[(uint32_t)off] = Val::Dbl(t); return;
    }
    if (ty->isFloatTy()) { T t = toT(v); if (t->op != Op::Const) throw Unsupported("symbolic float"); float f = (float)t->q->get_d(); uint32_t b; memcpy(&b, &f, 4); uint64_t off; Region& r = wr(s, a, 4, off); killSym(r, off, 4); for (int i = 0; i < 4; ++i) { r.data[off + i] = (b >> (8 * i)) & 255; r.st[off + i] = 1; } return; }
    if (v.k == Val::U) { uint64_t off, n = DL->getTypeStoreSize(ty); Region& r = wr(s, a, n, off); killSym(r, off, n); for (uint64_t i = 0; i < n; ++i) r.st[off + i] = 0; return; }
    if (v.k != Val::A) throw Unsupported("store aggregate");
    if (auto* st = dyn_cast<StructType>(ty)) { const StructLayout* sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(s, a + sl->getElementOffset(i), st->getElementType(i), (*v.agg)[i]); return; }
    if (ty->isArrayTy()) { Type* e = ty->getArrayElementType(); for (unsigned i = 0; i < ty->getArrayNumElements(); ++i) storeTy(s, a + i * DL->getTypeAllocSize(e), e, (*v.agg)[i]); return; }
    if (auto* vt = dyn_cast<FixedVectorType>(ty)) { Type* e = vt->getElementType(); for (unsigned i = 0; i < vt->getNumElements(); ++i) storeTy(s, a + i * DL->getTypeAllocSize(e), e, (*v.agg)[i]); return; }
    throw Unsupported("store type");
}
void Exec::copyMem(State& s, uint64_t d, uint64_t src, uint64_t n) {
    if (!n) return;
    uint64_t so, dof; Region& r0 = rd(s, src, n, so);
    std::vector<uint8_t> data(r0.data.begin() + so, r0.data.begin() + so + n), st(r0.st.begin() + so, r0.st.begin() + so + n);
    std::vector<std::pair<uint32_t, Val>> sy;
    for (auto it = r0.sym.lower_bound((uint32_t)so); it != r0.sym.end() && it->first < so + n; ++it) { if (it->first + 8 > so + n) throw Unsupported("copy splits a symbolic cell"); sy.push_back({it->first - (uint32_t)so, it->second}); }
    if (st[0] == 3) throw Unsupported("copy splits a symbolic cell");
    std::vector<std::pair<uint32_t, uint8_t>> ub; for (auto it = r0.ub.lower_bound((uint32_t)so); it != r0.ub.end() && it->first < so + n; ++it) ub.push_back({it->first - (uint32_t)so, it->second});
    Region& w = wr(s, d, n, dof); killSym(w, dof, n);
    for (auto& p : ub) w.ub[(uint32_t)dof + p.first] = p.second;
    std::copy(data.begin(), data.end(), w.data.begin() + dof); std::copy(st.begin(), st.end(), w.st.begin() + dof);
    for (auto& p : sy) w.sym[(uint32_t)dof + p.first] = p.second;
}
void Exec::setMem(State& s, uint64_t d, int c, uint64_t n) {
    if (!n) return; uint64_t off; Region& r = wr(s, d, n, off); killSym(r, off, n);
    std::fill(r.data.begin() + off, r.data.begin() + off + n, (uint8_t)c); std::fill(r.st.begin() + off, r.st.begin() + off + n, 1);
}
std::string Exec::readStr(State& s, uint64_t a) {
    std::string o; for (int i = 0; i < 4096; ++i) { uint64_t off; Region& r = rd(s, a + i, 1, off); if (r.st[off] != 1) throw Unsupported("string contents"); if (!r.data[off]) break; o += (char)r.data[off]; } return o;
}

// ------------------------------------------------------------------ logic
T Exec::toT(const Val& v) {
    if (v.k == Val::D) return v.t;
    if (v.k == Val::I) return dblTerm(v.i);
    if (v.k == Val::U) { T t = TT.var("uninit#" + std::to_string(TT.vars.size()), -50, 50); TT.vars.back().undef = true; return t; }
    throw Unsupported("value used as a double");
}
void Exec::newSampleVal(State& s, int var, bool atom) {
    VarInfo& vi = TT.vars[var]; int k = 0;
    for (auto& sp : s.samples) {
        if (sp.use_count() > 1) sp = std::make_shared<Sample>(*sp);
        if (sp->v.size() <= (size_t)var) { sp->v.resize(var + 1, NAN); sp->set.resize(var + 1, false); }
        if (sp->set[var]) { ++k; continue; }
        double x;
        if (vi.rootOf) { real_t r = TT.eval(vi.rootOf, *sp); x = r >= 0 ? sqrtl(r) * (rnd() < 0.5 ? 1 : -1) : NAN; }
        else { x = vi.lo + (vi.hi - vi.lo) * rnd(); int sel = (int)(rnd() * 40); if (!atom) { if (sel == 0) x = 0; else if (sel == 1) x = 1; else if (sel == 2) x = vi.lo; else if (sel == 3) x = vi.hi; else if (sel == 4) x *= 1e-4; x = std::min(std::max(x, vi.lo), vi.hi); } }
        sp->v[var] = x; sp->set[var] = true; ++k;
    }
}
T Exec::newInput(State& s, const std::string& name, double lo, double hi) {
    size_t k = s.nInputs++;
    T t;
    if (k < inputVars.size() && inputNames[k] == name) t = TT.varTerm(inputVars[k]);
    else { t = TT.var(name, lo, hi); if (k < inputVars.size()) { /* diverging naming: keep the slot private to this path */ } else { inputVars.push_back(t->var); inputNames.push_back(name); } }
    TT.vars[t->var].lo = lo; TT.vars[t->var].hi = hi;
    s.inputs.push_back({name, t->var});
    newSampleVal(s, t->var, false);
    return t;
}
void Exec::addPc(State& s, B b) {
    if (b == TT.btrue) return;
    if (b->op == BOp::And) { addPc(s, b->a); addPc(s, b->b); return; }
    s.pc.push_back(b); s.known.insert(b);
    std::vector<std::shared_ptr<Sample>> keep; for (auto& sp : s.samples) if (TT.evalB(b, *sp) == 1) keep.push_back(sp);
    s.samples.swap(keep);
}
void Exec::resample(State& s) { // samples exhausted: ask the solver for a model of the path condition
    SolveResult r = solve(s.pc, 4000);
    if (r.r == SolveResult::UNSAT) throw PathEnd("infeasible");
    if (r.r == SolveResult::SAT) {
        for (int k = 0; k < 6; ++k) {
            auto sp = std::make_shared<Sample>(); sp->v.resize(TT.vars.size(), NAN); sp->set.resize(TT.vars.size(), true); sp->bvals.resize(TT.bvars.size(), 0);
            for (size_t i = 0; i < TT.vars.size(); ++i) { auto it = r.model.find((int)i); VarInfo& vi = TT.vars[i]; if (it != r.model.end()) sp->v[i] = it->second; else if (vi.rootOf) sp->set[i] = false; else sp->v[i] = vi.lo + (vi.hi - vi.lo) * rnd(); }
            for (auto& kv : r.bmodel) sp->bvals[kv.first] = kv.second;
            // later inputs must still be drawn for this sample
            bool ok = true; for (B b : s.pc) if (TT.evalB(b, *sp) != 1) { ok = false; break; }
            if (ok) s.samples.push_back(sp);
        }
        if (s.samples.empty()) s.feasUnknown = true;
    } else s.feasUnknown = true;
}
void Exec::assume(State& s, B b) {
    if (b == TT.btrue) return; if (b == TT.bfalse) throw PathEnd("assumption false");
    addPc(s, b);
    if (s.samples.empty() && !s.feasUnknown) resample(s);
}
static std::string backtrace(State& s);
bool Exec::concretize(State& s, B b) {
    if (b == TT.btrue) return true; if (b == TT.bfalse) return false;
    if (s.known.count(b)) return true; B nb = TT.lnot(b); if (s.known.count(nb)) return false;
    if (b->op == BOp::And) { return concretize(s, b->a) && concretize(s, b->b); }
    if (b->op == BOp::Or) { return concretize(s, b->a) || concretize(s, b->b); }
    if (b->op == BOp::Not) return !concretize(s, b->a);
    bool t = false, f = false; for (auto& sp : s.samples) { int e = TT.evalB(b, *sp); if (e == 1) t = true; else if (e == 0) f = true; }
    SolveResult mt, mf; bool solvedT = false, solvedF = false;
    if (!t) { auto c = s.pc; c.push_back(b); mt = solve(c, 2000); solvedT = true; if (mt.r == SolveResult::UNSAT) { if (!f && s.samples.empty()) { } s.known.insert(nb); return false; } }
    if (!f) { auto c = s.pc; c.push_back(nb); mf = solve(c, 2000); solvedF = true; if (mf.r == SolveResult::UNSAT) { s.known.insert(b); return true; } }
    static bool traceForks = getenv("VP_FORK"); if (traceForks) fprintf(stderr, "FORK %s IN %s\n", TT.str(b).substr(0, 200).c_str(), backtrace(s).c_str());
    if (++paths > maxPaths) throw Unsupported("too many paths");
    State* o = new State(s); o->pathId = paths;
    auto adopt = [&](State& st, B c, bool solved, SolveResult& m) {
        addPc(st, c);
        if (st.samples.empty()) {
            if (solved && m.r == SolveResult::SAT) {
                for (int k = 0; k < 6; ++k) {
                    auto sp = std::make_shared<Sample>(); sp->v.resize(TT.vars.size(), NAN); sp->set.resize(TT.vars.size(), true); sp->bvals.resize(TT.bvars.size(), 0);
                    for (size_t i = 0; i < TT.vars.size(); ++i) { auto it = m.model.find((int)i); VarInfo& vi = TT.vars[i]; if (it != m.model.end()) sp->v[i] = it->second; else if (vi.rootOf) sp->set[i] = false; else sp->v[i] = vi.lo + (vi.hi - vi.lo) * rnd(); }
                    for (auto& kv : m.bmodel) sp->bvals[kv.first] = kv.second;
                    bool ok = true; for (B x : st.pc) if (TT.evalB(x, *sp) != 1) { ok = false; break; }
                    if (ok) st.samples.push_back(sp);
                }
            }
            if (st.samples.empty()) st.feasUnknown = true;
        } };
    adopt(*o, nb, solvedF, mf);
    work.push_back(o);
    adopt(s, b, solvedT, mt);
    return true;
}
bool Exec::truth(State& s, const Val& v) {
    if (v.k == Val::I) { if (v.um & 1) throw PathFault("branch on an uninitialised value"); return v.i & 1; }
    if (v.k == Val::Bx) return concretize(s, v.b);
    if (v.k == Val::U) throw PathFault("branch on an uninitialised value");
    throw Unsupported("branch condition");
}
uint64_t Exec::ciInt(State& s, const Val& v) { if (v.k == Val::Bx) return concretize(s, v.b); if (v.k == Val::U || (v.k == Val::I && v.um)) throw PathFault("use of an uninitialised integer"); return ci64(v); }

void Exec::prove(State& s, B g, const std::string& label) {
    ObRec o; o.label = label; o.path = s.pathId; o.seq = s.seq;
    auto done = [&](const char* st, const char* be) { o.status = st; o.backend = be; if (std::string(st) == "discharged") backendCount[be]++; obs.push_back(o); };
    auto cex = [&](Sample& sp) { for (auto& in : s.inputs) o.cex.push_back({in.name, (double)((size_t)in.var < sp.v.size() ? sp.v[in.var] : 0)}); o.ints = s.ints; };
    if (g == TT.btrue) return done("discharged", "evaluation");
    if (s.known.count(g)) return done("discharged", "path condition");
    o.detail = TT.str(g, 7);
    if (g == TT.bfalse) { if (s.samples.empty() && s.feasUnknown) { auto r = solve(s.pc, 10000); if (r.r == SolveResult::UNSAT) return done("discharged", "z3 (infeasible path)"); } if (!s.samples.empty()) cex(*s.samples[0]); else o.ints = s.ints; return done(s.samples.empty() && s.feasUnknown ? "unknown" : "refuted", "evaluation"); }
    for (auto& sp : s.samples) if (TT.evalB(g, *sp, 1e-9L) == 0) { cex(*sp);
        if (g->op == BOp::Eq || g->op == BOp::Le || g->op == BOp::Lt) { char b[200]; snprintf(b, 200, " | lhs=%.12Lg rhs=%.12Lg", TT.eval(g->x, *sp), TT.eval(g->y, *sp)); o.detail += b; }
        return done("refuted", "counterexample"); }
    std::function<bool(B)> pr = [&](B b) -> bool {
        if (b == TT.btrue || s.known.count(b)) return true;
        if (b->op == BOp::And) return pr(b->a) && pr(b->b);
        if (b->op == BOp::Eq) { if (nf.equal(b->x, b->y)) return true;
            // use solved equalities of the path condition as rewrites
            NormalForm n2; for (B p : s.pc) if (p->op == BOp::Eq) { if (p->x->op == Op::Var && !n2.rewrites.count(p->x->var)) { std::set<int> vs; TT.varsOf(p->y, vs); if (!vs.count(p->x->var)) n2.rewrites[p->x->var] = p->y; } else if (p->y->op == Op::Var) { std::set<int> vs; TT.varsOf(p->x, vs); if (!vs.count(p->y->var)) n2.rewrites[p->y->var] = p->x; } }
            if (!n2.rewrites.empty() && n2.equal(b->x, b->y)) return true; }
        return false; };
    if (pr(g)) return done("discharged", "ring normal form");
    auto c = s.pc; c.push_back(TT.lnot(g));
    SolveResult r = solve(c, 15000);
    if (r.r == SolveResult::UNSAT) return done("discharged", "z3");
    if (r.r == SolveResult::SAT) {
        Sample sp; sp.v.resize(TT.vars.size(), NAN); sp.set.resize(TT.vars.size(), true); sp.bvals.resize(TT.bvars.size(), 0);
        for (size_t i = 0; i < TT.vars.size(); ++i) { auto it = r.model.find((int)i); VarInfo& vi = TT.vars[i]; if (it != r.model.end()) sp.v[i] = it->second; else if (vi.rootOf) sp.set[i] = false; else sp.v[i] = vi.lo + (vi.hi - vi.lo) * rnd(); }
        for (auto& kv : r.bmodel) sp.bvals[kv.first] = kv.second;
        bool ok = TT.evalB(g, sp, 1e-9L) == 0; for (B p : s.pc) if (TT.evalB(p, sp) != 1) ok = false;
        if (ok) { cex(sp); return done("refuted", "z3 model"); }
    }
    done("unknown", "");
}

// ------------------------------------------------------------------ calls
void Exec::pushCall(State& s, FuncInfo* fi, const std::vector<Val>& args, int retSlot) {
    if (fi->F->isDeclaration() && !fi->F->isMaterializable()) throw Unsupported("call of undefined function " + fi->name);
    decode(fi);
    if (s.stack.size() > 2000) throw Unsupported("call depth");
    fi->calls++;
    Frame f; f.f = fi; f.slots.resize(fi->nslots); f.stackMark = s.stk.size(); f.retSlot = retSlot;
    for (size_t i = 0; i < args.size() && i < fi->F->arg_size(); ++i) f.slots[i] = args[i];
    // byval arguments get a private copy
    size_t k = 0; for (auto& A : fi->F->args()) { if (k < args.size() && A.hasByValAttr()) { uint64_t n = DL->getTypeAllocSize(A.getParamByValType()); uint64_t a = allocStack(s, n, 16); copyMem(s, a, ci64(args[k]), n); f.slots[k] = Val::Int(a); } ++k; }
    s.stack.push_back(std::move(f));
}
static void jumpTo(Frame& f, const FuncInfo* fi, int to) { const BBInfo& nb = fi->bbs[to]; if (!nb.phis.empty()) { llvm::SmallVector<Val, 8> vals; for (auto& p : nb.phis) { bool ok = false; for (auto& in : p.second) if (in.first == f.bb) { vals.push_back(in.second >= 0 ? f.slots[in.second] : fi->consts[-in.second - 1]); ok = true; break; } if (!ok) throw Unsupported("phi"); } for (size_t i = 0; i < vals.size(); ++i) f.slots[nb.phis[i].first] = vals[i]; } f.prev = f.bb; f.bb = to; f.ip = 0; }
void Exec::ret(State& s, const Val& v) {
    Frame& f = s.stack.back(); size_t mark = f.stackMark; int rs = f.retSlot;
    if (s.stk.size() > mark) { s.stkTop = s.stk[mark]->base; s.stk.resize(mark); }
    s.stack.pop_back();
    if (s.stack.empty()) return;
    Frame& c = s.stack.back(); if (rs >= 0) c.slots[rs] = v;
    if (c.pend >= 0) { int to = c.pend; c.pend = -1; jumpTo(c, c.f, to); } // normal return of an invoke
}
static uint64_t hashBytes(const uint8_t* p, size_t n, uint64_t seed) { uint64_t h = seed ^ 0xcbf29ce484222325ull; for (size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 0x100000001b3ull; } return h ^ (h >> 29); }

static bool dynCast(Exec& E, State& s, uint64_t tiAddr, uint64_t want, int depth) {
    if (tiAddr == want) return true; if (depth > 20) return false;
    auto it = E.gbyaddr.find(tiAddr); if (it == E.gbyaddr.end()) return false; const GlobalVariable* g = it->second;
    auto wi = E.gbyaddr.find(want); if (wi != E.gbyaddr.end() && wi->second->getName() == g->getName()) return true;
    if (!g->hasInitializer()) return false;
    auto* cs = dyn_cast<ConstantStruct>(g->getInitializer()); if (!cs) return false;
    for (unsigned i = 2; i < cs->getNumOperands(); ++i) if (auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts())) if (dynCast(E, s, E.gvAddr(b), want, depth + 1)) return true;
    return false;
}
bool Exec::callBuiltin(State& s, Frame& f, const CI& ci, FuncInfo* fi, const std::vector<Val>& args) {
    int dst = ci.dst; auto setR = [&](const Val& v) { if (dst >= 0) s.stack.back().slots[dst] = v; };
    Type* rt = ci.I->getType();
    switch (fi->builtin) {
    case B_IOS: {
        auto* cb = cast<CallBase>(ci.I);
        if (cb->hasStructRetAttr() && !args.empty()) { uint64_t a = ci64(args[0]); // std::string result: empty string
            storeTy(s, a, Type::getInt64Ty(ctx), Val::Int(a + 16)); storeTy(s, a + 8, Type::getInt64Ty(ctx), Val::Int(0)); setMem(s, a + 16, 0, 16); return true; }
        if (dst >= 0) { if (rt->isPointerTy()) setR(args.empty() ? Val::Int(0) : args[0]); else if (rt->isDoubleTy()) setR(Val::Dbl(TT.zero)); else setR(Val::Int(0)); }
        return true; }
    case B_ZERO: if (dst >= 0) setR(rt->isDoubleTy() ? Val::Dbl(TT.zero) : Val::Int(0)); return true;
    case B_MALLOC: setR(Val::Int(allocHeap(s, ciInt(s, args[0]), 0, "malloc"))); return true;
    case B_CALLOC: { uint64_t n = ciInt(s, args[0]) * ciInt(s, args[1]); uint64_t a = allocHeap(s, n, 0, "calloc"); setMem(s, a, 0, n); setR(Val::Int(a)); return true; }
    case B_REALLOC: { uint64_t p = ci64(args[0]), n = ciInt(s, args[1]); uint64_t a = allocHeap(s, n, 0, "realloc"); if (p) { RegP* r = find(s, p); if (!r) throw PathFault("realloc of unknown pointer"); copyMem(s, a, p, std::min(n, (*r)->size)); freeHeap(s, p, 0); } setR(Val::Int(a)); return true; }
    case B_FREE: freeHeap(s, ci64(args[0]), 0); return true;
    case B_NEW: setR(Val::Int(allocHeap(s, ciInt(s, args[0]), 1, "new"))); return true;
    case B_NEWARR: setR(Val::Int(allocHeap(s, ciInt(s, args[0]), 2, "new[]"))); return true;
    case B_DEL: freeHeap(s, ci64(args[0]), 1); return true;
    case B_DELARR: freeHeap(s, ci64(args[0]), 2); return true;
    case B_MEMCPY: copyMem(s, ci64(args[0]), ci64(args[1]), ciInt(s, args[2])); setR(args[0]); return true;
    case B_MEMSET: setMem(s, ci64(args[0]), (int)ciInt(s, args[1]), ciInt(s, args[2])); setR(args[0]); return true;
    case B_MEMCMP: case B_STRCMP: { uint64_t n = fi->builtin == B_STRCMP ? (1u << 20) : ciInt(s, args[2]), a = ci64(args[0]), b = ci64(args[1]); int64_t r = 0;
        for (uint64_t i = 0; i < n; ++i) { uint64_t o1, o2; Region& x = rd(s, a + i, 1, o1); uint8_t p = x.data[o1], ps = x.st[o1]; Region& y = rd(s, b + i, 1, o2); uint8_t q = y.data[o2]; if (ps != 1 || y.st[o2] != 1) throw Unsupported("memcmp on symbolic data"); if (p != q) { r = p < q ? -1 : 1; break; } if (fi->builtin == B_STRCMP && !p) break; }
        setR(Val::Int((uint32_t)(int32_t)r)); return true; }
    case B_STRLEN: setR(Val::Int(readStr(s, ci64(args[0])).size())); return true;
    case B_MEMCHR: { uint64_t a = ci64(args[0]), n = ciInt(s, args[2]); uint8_t c = (uint8_t)ciInt(s, args[1]); uint64_t r = 0; for (uint64_t i = 0; i < n; ++i) { uint64_t o; Region& x = rd(s, a + i, 1, o); if (x.st[o] != 1) throw Unsupported("memchr"); if (x.data[o] == c) { r = a + i; break; } } setR(Val::Int(r)); return true; }
    case B_EMPTYSTR: { uint64_t a = ci64(args[0]); storeTy(s, a, Type::getInt64Ty(ctx), Val::Int(a + 16)); storeTy(s, a + 8, Type::getInt64Ty(ctx), Val::Int(0)); setMem(s, a + 16, 0, 16); return true; }
    case B_STRSTR: { std::string h = readStr(s, ci64(args[0])), n = readStr(s, ci64(args[1])); size_t p = h.find(n); setR(Val::Int(p == std::string::npos ? 0 : args[0].i + p)); return true; }
    case B_HASHBYTES: { uint64_t a = ci64(args[0]), n = ciInt(s, args[1]); std::vector<uint8_t> b; for (uint64_t i = 0; i < n; ++i) { uint64_t o; Region& x = rd(s, a + i, 1, o); if (x.st[o] != 1) throw Unsupported("hash of symbolic data"); b.push_back(x.data[o]); } setR(Val::Int(hashBytes(b.data(), n, ci64(args[2])))); return true; }
    case B_MATH1: setR(Val::Dbl(TT.fn(math1.at(fi->name), toT(args[0])))); return true;
    case B_MATH2: setR(Val::Dbl(TT.fn(fi->name == "pow" ? FnK::Pow : FnK::Atan2, toT(args[0]), toT(args[1])))); return true;
    case B_FMIN: case B_FMAX: { T a = toT(args[0]), b = toT(args[1]); bool lt = concretize(s, TT.lt(a, b)); setR(Val::Dbl((fi->builtin == B_FMIN) == lt ? a : b)); return true; }
    case B_GUARD: { uint64_t o; Region& r = rd(s, ci64(args[0]), 8, o); if (r.data[o]) setR(Val::Int(0)); else { uint64_t o2; Region& w = wr(s, ci64(args[0]), 8, o2); w.data[o2] = 1; setR(Val::Int(1)); } return true; }
    case B_DYNCAST: {
        uint64_t p = ci64(args[0]); if (!p) { setR(Val::Int(0)); return true; }
        uint64_t vt = ci64(loadTy(s, p, Type::getInt64Ty(ctx))); uint64_t ti = ci64(loadTy(s, vt - 8, Type::getInt64Ty(ctx))); int64_t top = (int64_t)ci64(loadTy(s, vt - 16, Type::getInt64Ty(ctx)));
        bool ok = dynCast(*this, s, ti, ci64(args[2]), 0); if (top != 0 && ok) throw Unsupported("dynamic_cast with offset");
        setR(Val::Int(ok ? p + top : 0)); return true; }
    case B_THROW: throw PathFault("uncaught exception from " + fi->name);
    case B_ABORT: throw PathFault("abort: " + fi->name);
    case B_VP: break;
    default: return false;
    }
    const std::string& n = fi->name;
    auto str = [&](int k) { return readStr(s, ci64(args[k])); };
    if (n == "vp_dblstr_") { // decimal rendering of a number; a symbolic number is named after its (shared) term
        T t = toT(args[0]); char b[64]; if (t->q) snprintf(b, sizeof b, "%f", t->q->get_d()); else snprintf(b, sizeof b, "v%lu", (unsigned long)t->id);
        size_t m = strlen(b); for (size_t i = 0; i <= m; ++i) storeTy(s, ci64(args[1]) + i, Type::getInt8Ty(ctx), Val::Int((uint8_t)b[i])); setR(Val::Int(m)); return true; }
    if (n == "vp_real_") { T lo = toT(args[1]), hi = toT(args[2]); setR(Val::Dbl(newInput(s, str(0), lo->q ? lo->q->get_d() : -2, hi->q ? hi->q->get_d() : 2))); return true; }
    if (n == "vp_nreal_") { setR(Val::Int(s.nInputs)); return true; }
    if (n == "vp_choose_") { int64_t lo = (int64_t)ci64(args[1]), hi = (int64_t)ci64(args[2]); std::string nm = str(0); if (ci.op == Instruction::Invoke) throw Unsupported("vp_choose_ must be nothrow");
        for (int64_t v = hi; v > lo; --v) { if (++paths > maxPaths) throw Unsupported("too many paths"); State* o = new State(s); o->pathId = paths; o->ints.push_back({nm, v}); if (dst >= 0) o->stack.back().slots[dst] = Val::Int(v); o->stack.back().ip++; work.push_back(o); }
        s.ints.push_back({nm, lo}); setR(Val::Int(lo)); return true; }
    if (n == "vp_assume_") { if (args[0].k == Val::Bx) assume(s, args[0].b); else if (args[0].k == Val::I) { if (!(args[0].i & 1)) throw PathEnd("assumption false"); } else throw Unsupported("assume"); return true; }
    if (n == "vp_assert_") { s.seq++; B g = args[0].k == Val::Bx ? args[0].b : args[0].k == Val::I ? ((args[0].i & 1) ? TT.btrue : TT.bfalse) : nullptr; std::string l = str(1); if (!g) throw PathFault("assertion on an uninitialised value: " + l); prove(s, g, l); return true; }
    if (n == "vp_eq_") { s.seq++; T a = toT(args[0]), b = toT(args[1]); std::string l = str(2); if (a == b && a->op != Op::NaN) prove(s, TT.btrue, l); else if (a->op == Op::NaN || b->op == Op::NaN) prove(s, TT.bfalse, l); else prove(s, TT.eq(a, b), l); return true; }
    if (n == "vp_diff_") { T t = toT(args[0]); int64_t k = (int64_t)ci64(args[1]); if ((size_t)k >= s.inputs.size()) throw Unsupported("vp_diff index"); setR(Val::Dbl(TT.diff(t, s.inputs[k].var))); return true; }
    if (n == "vp_diff2_") { T t = toT(args[0]); int64_t k = (int64_t)ci64(args[1]), l = (int64_t)ci64(args[2]); setR(Val::Dbl(TT.diff(TT.diff(t, s.inputs.at(k).var), s.inputs.at(l).var))); return true; }
    if (n == "vp_root_") { T p = toT(args[0]); std::string key = "root:" + std::to_string(p->id); auto it = atomVars.find(key); T t; if (it != atomVars.end()) t = TT.varTerm(it->second); else { t = TT.var("root" + std::to_string(TT.vars.size())); TT.vars.back().rootOf = p; TT.vars.back().atom = true; atomVars[key] = t->var; }
        newSampleVal(s, t->var, true); setR(Val::Dbl(t)); return true; }
    if (n == "vp_uf_") { // uninterpreted function of real arguments; derivatives are further uninterpreted functions
        std::string nm = str(0); int64_t k = (int64_t)ci64(args[2]); uint64_t p = ci64(args[1]); std::vector<T> as; for (int64_t i = 0; i < k; ++i) as.push_back(toT(loadTy(s, p + 8 * i, Type::getDoubleTy(ctx))));
        std::string d = str(3); // comma separated sorted multi-index of partial derivatives
        extern T ufAtom(Exec&, const std::string&, const std::vector<T>&, std::vector<int>);
        std::vector<int> mi; { std::string cur; for (char c : d + ",") { if (c == ',') { if (!cur.empty()) mi.push_back(atoi(cur.c_str())); cur.clear(); } else cur += c; } }
        T t = ufAtom(*this, nm, as, mi); newSampleVal(s, t->var, true); setR(Val::Dbl(t)); return true; }
    if (n == "vp_sym_") { setR(Val::Int(1)); return true; }
    if (n == "vp_isundef_") { T t = toT(args[0]); setR(Val::Int(TT.dependsUndef(t))); return true; }
    if (n == "vp_stat_") { stats[str(0)] += (int64_t)ci64(args[1]); return true; }
    if (n == "vp_assumption_") { assumptions.insert(str(0)); return true; }
    if (n == "vp_print_") { std::cerr << str(0) << " = " << TT.str(toT(args[1]), 12) << "\n"; return true; }
    throw Unsupported("intrinsic " + n);
}
// uninterpreted function atoms ------------------------------------------------
struct UfInfo { std::string name; std::vector<T> args; std::vector<int> mi; };
static std::map<int, UfInfo> ufs;
T ufAtom(Exec& E, const std::string& name, const std::vector<T>& args, std::vector<int> mi) {
    std::sort(mi.begin(), mi.end());
    std::string key = "uf:" + name + "["; for (int m : mi) key += std::to_string(m) + ","; key += "]";
    for (T a : args) key += "|" + std::to_string(a->id);
    auto it = E.atomVars.find(key); if (it != E.atomVars.end()) return TT.varTerm(it->second);
    std::string vn = name; for (int m : mi) vn += "_d" + std::to_string(m);
    T t = TT.var(vn, -1.5, 1.5); TT.vars.back().atom = true; TT.vars.back().hasDiffs = true; E.atomVars[key] = t->var; ufs[t->var] = {name, args, mi};
    return t;
}
Exec* g_exec = nullptr;
T ufDiff(int var, int wrt) { // chain rule through the arguments
    UfInfo u = ufs[var]; T r = TT.zero;
    for (size_t k = 0; k < u.args.size(); ++k) { T d = TT.diff(u.args[k], wrt); if (d == TT.zero) continue; auto mi = u.mi; mi.push_back((int)k); r = TT.add(r, TT.mul(ufAtom(*g_exec, u.name, u.args, mi), d)); }
    return r;
}

// ------------------------------------------------------------------ interpreter
static uint64_t maskw(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static int64_t sext(uint64_t v, unsigned w) { if (w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); v = maskw(v, w); return (int64_t)((v ^ m) - m); }
static Val binInt(unsigned op, const Val& a, const Val& b, unsigned w, Exec& E, State& s);

static Val mapVec(const Val& a, const Val& b, std::function<Val(const Val&, const Val&)> f) { std::vector<Val> r; for (size_t i = 0; i < a.agg->size(); ++i) r.push_back(f((*a.agg)[i], b.k == Val::A ? (*b.agg)[i] : b)); return Val::Agg(r); }

static Val fpBin(Exec& E, unsigned op, const Val& a, const Val& b) {
    if (a.k == Val::A) return mapVec(a, b, [&](const Val& x, const Val& y) { return fpBin(E, op, x, y); });
    T x = E.toT(a), y = E.toT(b);
    switch (op) { case Instruction::FAdd: return Val::Dbl(TT.add(x, y)); case Instruction::FSub: return Val::Dbl(TT.sub(x, y)); case Instruction::FMul: return Val::Dbl(TT.mul(x, y)); case Instruction::FDiv: return Val::Dbl(TT.div(x, y)); }
    throw Unsupported("fp op");
}
static bool special(T t) { return t->op == Op::NaN; }
static Val fcmpV(Exec& E, CmpInst::Predicate p, const Val& a, const Val& b) {
    if (a.k == Val::A) return mapVec(a, b, [&](const Val& x, const Val& y) { return fcmpV(E, p, x, y); });
    T x = E.toT(a), y = E.toT(b); B r = nullptr; bool un = special(x) || special(y);
    switch (p) {
    case CmpInst::FCMP_FALSE: r = TT.bfalse; break; case CmpInst::FCMP_TRUE: r = TT.btrue; break;
    case CmpInst::FCMP_ORD: r = un ? TT.bfalse : TT.btrue; break; case CmpInst::FCMP_UNO: r = un ? TT.btrue : TT.bfalse; break;
    case CmpInst::FCMP_OEQ: r = un ? TT.bfalse : TT.eq(x, y); break; case CmpInst::FCMP_UEQ: r = un ? TT.btrue : TT.eq(x, y); break;
    case CmpInst::FCMP_ONE: r = un ? TT.bfalse : TT.lnot(TT.eq(x, y)); break; case CmpInst::FCMP_UNE: r = un ? TT.btrue : TT.lnot(TT.eq(x, y)); break;
    case CmpInst::FCMP_OLT: r = un ? TT.bfalse : TT.lt(x, y); break; case CmpInst::FCMP_ULT: r = un ? TT.btrue : TT.lt(x, y); break;
    case CmpInst::FCMP_OLE: r = un ? TT.bfalse : TT.le(x, y); break; case CmpInst::FCMP_ULE: r = un ? TT.btrue : TT.le(x, y); break;
    case CmpInst::FCMP_OGT: r = un ? TT.bfalse : TT.lt(y, x); break; case CmpInst::FCMP_UGT: r = un ? TT.btrue : TT.lt(y, x); break;
    case CmpInst::FCMP_OGE: r = un ? TT.bfalse : TT.le(y, x); break; case CmpInst::FCMP_UGE: r = un ? TT.btrue : TT.le(y, x); break;
    default: throw Unsupported("fcmp");
    }
    if (r == TT.btrue) return Val::Int(1); if (r == TT.bfalse) return Val::Int(0);
    return Val::Bool(r);
}
static Val mkB(B b) { if (b == TT.btrue) return Val::Int(1); if (b == TT.bfalse) return Val::Int(0); return Val::Bool(b); }
static B asB(const Val& v) { if (v.k == Val::Bx) return v.b; if (v.k == Val::I) return (v.i & 1) ? TT.btrue : TT.bfalse; throw PathFault("logic on an uninitialised value"); }
static Val binInt(unsigned op, const Val& a0, const Val& b0, unsigned w, Exec& E, State& s) {
    if (a0.k == Val::A) return mapVec(a0, b0, [&](const Val& x, const Val& y) { return binInt(op, x, y, w, E, s); });
    if (w == 1 && (a0.k == Val::Bx || b0.k == Val::Bx)) {
        B x = asB(a0), y = asB(b0);
        switch (op) { case Instruction::And: return mkB(TT.land(x, y)); case Instruction::Or: return mkB(TT.lor(x, y)); case Instruction::Xor: if (y == TT.btrue) return mkB(TT.lnot(x)); if (x == TT.btrue) return mkB(TT.lnot(y)); if (y == TT.bfalse) return mkB(x); if (x == TT.bfalse) return mkB(y); return mkB(TT.lor(TT.land(x, TT.lnot(y)), TT.land(TT.lnot(x), y))); }
    }
    Val a = a0, b = b0;
    if (a.k == Val::Bx) a = Val::Int(E.concretize(s, a.b)); if (b.k == Val::Bx) b = Val::Int(E.concretize(s, b.b));
    if ((a.k == Val::U && b.k != Val::I && b.k != Val::U) || (b.k == Val::U && a.k != Val::I && a.k != Val::U)) return Val::Undef();
    const uint64_t full = maskw(~0ull, w); auto bits = [&](Val& v) { if (v.k == Val::U) { v = Val::Int(0); v.um = full; } }; bits(a); bits(b);
    if (a.k == Val::D || b.k == Val::D) {  // bit tricks on doubles: sign flips and masks
        if (a.k != Val::D) std::swap(a, b);
        if (b.k == Val::I) { if (op == Instruction::Xor && b.i == 0x8000000000000000ull) return Val::Dbl(TT.neg(a.t)); if (op == Instruction::And && b.i == 0x7fffffffffffffffull) return Val::Dbl(TT.fn(FnK::Fabs, a.t)); }
        throw Unsupported("integer operation on the bits of a double"); }
    uint64_t x = E.ci64(a), y = E.ci64(b), r = 0; int64_t sx = sext(x, w), sy = sext(y, w);
    if (a.um | b.um) { uint64_t ua = a.um, ub = b.um, u = full; x &= ~ua; y &= ~ub;
        switch (op) { case Instruction::And: u = (ua & ub) | (ua & y) | (ub & x); r = x & y; break; case Instruction::Or: u = (ua & ~(y & ~ub)) | (ub & ~(x & ~ua)); r = x | y; break; case Instruction::Xor: u = ua | ub; r = x ^ y; break;
        case Instruction::Shl: if (!ub && y < w) { u = ua << y; r = x << y; } break; case Instruction::LShr: if (!ub && y < w) { u = ua >> y; r = x >> y; } break; case Instruction::AShr: if (!ub && y < w) { u = maskw((uint64_t)(sext(ua, w) >> y), w); r = (uint64_t)(sext(x, w) >> y); } break;
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: if (ub) throw PathFault("division by an uninitialised value"); break; }
        u &= full; if (u == full) return Val::Undef(); Val v = Val::Int(maskw(r, w) & ~u); v.um = u; return v; }
    switch (op) {
    case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
    case Instruction::UDiv: if (!y) throw PathFault("integer division by zero"); r = x / y; break; case Instruction::SDiv: if (!y) throw PathFault("integer division by zero"); r = (uint64_t)(sx / sy); break;
    case Instruction::URem: if (!y) throw PathFault("integer division by zero"); r = x % y; break; case Instruction::SRem: if (!y) throw PathFault("integer division by zero"); r = (uint64_t)(sx % sy); break;
    case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break; case Instruction::AShr: r = y >= w ? (sx < 0 ? ~0ull : 0) : (uint64_t)(sx >> y); break;
    case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
    }
    Val v = Val::Int(maskw(r, w)); return v;
}
static Val icmpV(Exec& E, State& s, CmpInst::Predicate p, const Val& a0, const Val& b0, unsigned w) {
    if (a0.k == Val::A) return mapVec(a0, b0, [&](const Val& x, const Val& y) { return icmpV(E, s, p, x, y, w); });
    Val a = a0, b = b0;
    if (w == 1 && (a.k == Val::Bx || b.k == Val::Bx) && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) { B x = asB(a), y = asB(b); B e = TT.lor(TT.land(x, y), TT.land(TT.lnot(x), TT.lnot(y))); return mkB(p == CmpInst::ICMP_EQ ? e : TT.lnot(e)); }
    if (a.k == Val::Bx) a = Val::Int(E.concretize(s, a.b)); if (b.k == Val::Bx) b = Val::Int(E.concretize(s, b.b));
    if (a.k == Val::U || b.k == Val::U) return Val::Undef();
    if (a.um | b.um) { uint64_t d = (a.i ^ b.i) & ~(a.um | b.um); if (d && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) return Val::Int(p == CmpInst::ICMP_NE); return Val::Undef(); }
    uint64_t x = E.ci64(a), y = E.ci64(b); int64_t sx = sext(x, w), sy = sext(y, w); bool r = false;
    switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_SLT: r = sx < sy; break; case CmpInst::ICMP_SLE: r = sx <= sy; break; case CmpInst::ICMP_SGT: r = sx > sy; break; case CmpInst::ICMP_SGE: r = sx >= sy; break; default: break; }
    return Val::Int(r);
}
static unsigned width(Type* t) { t = t->getScalarType(); return t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 64; }

void Exec::step(State& s) {
    Frame& f = s.stack.back(); const FuncInfo* fi = f.f; const BBInfo& bb = fi->bbs[f.bb]; const CI& ci = bb.insts[f.ip];
    auto op = [&](int k) -> const Val& { int o = ci.ops[k]; return o >= 0 ? f.slots[o] : fi->consts[-o - 1]; };
    auto jump = [&](int to) { jumpTo(f, fi, to); };
    const Instruction& I = *ci.I; Type* ty = I.getType();
    switch (ci.op) {
    case Instruction::Ret: { Val v; if (I.getNumOperands()) v = op(0); ret(s, v); return; }
    case Instruction::Br: if (bb.succ.size() == 1) jump(bb.succ[0]); else { bool t = truth(s, op(0)); jump(bb.succ[t ? 0 : 1]); } return;
    case Instruction::Switch: { auto* sw = cast<SwitchInst>(&I); uint64_t v = ciInt(s, op(0)); int k = 1, to = bb.succ[0]; for (auto& c : sw->cases()) { if (c.getCaseValue()->getZExtValue() == v) { to = bb.succ[k]; break; } ++k; } jump(to); return; }
    case Instruction::Unreachable: throw PathFault("unreachable code reached in " + fi->name);
    case Instruction::FNeg: { Val a = op(0); f.slots[ci.dst] = a.k == Val::A ? mapVec(a, a, [&](const Val& x, const Val&) { return Val::Dbl(TT.neg(toT(x))); }) : Val::Dbl(TT.neg(toT(a))); break; }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: f.slots[ci.dst] = fpBin(*this, ci.op, op(0), op(1)); break;
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        f.slots[ci.dst] = binInt(ci.op, op(0), op(1), width(ty), *this, s); break;
    case Instruction::ICmp: f.slots[ci.dst] = icmpV(*this, s, cast<CmpInst>(&I)->getPredicate(), op(0), op(1), width(I.getOperand(0)->getType())); break;
    case Instruction::FCmp: f.slots[ci.dst] = fcmpV(*this, cast<CmpInst>(&I)->getPredicate(), op(0), op(1)); break;
    case Instruction::Select: {
        const Val& c = op(0);
        if (c.k == Val::A) { std::vector<Val> r; const Val &x = op(1), &y = op(2); for (size_t i = 0; i < c.agg->size(); ++i) r.push_back(truth(s, (*c.agg)[i]) ? (*x.agg)[i] : (*y.agg)[i]); f.slots[ci.dst] = Val::Agg(r); break; }
        if (c.k == Val::Bx && ty->isIntegerTy(1)) { // boolean select stays symbolic
            const Val &x = op(1), &y = op(2); if ((x.k == Val::Bx || x.k == Val::I) && (y.k == Val::Bx || y.k == Val::I)) { B xb = asB(x), yb = asB(y); f.slots[ci.dst] = mkB(TT.lor(TT.land(c.b, xb), TT.land(TT.lnot(c.b), yb))); if (yb == TT.bfalse) f.slots[ci.dst] = mkB(TT.land(c.b, xb)); if (xb == TT.btrue) f.slots[ci.dst] = mkB(TT.lor(c.b, yb)); break; } }
        if (c.k == Val::U) { f.slots[ci.dst] = Val::Undef(); break; }
        f.slots[ci.dst] = truth(s, c) ? op(1) : op(2); break; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: {
        std::function<Val(const Val&)> cv = [&](const Val& a) -> Val {
            if (a.k == Val::A && ci.op != Instruction::BitCast) return mapVec(a, a, [&](const Val& x, const Val&) { return cv(x); });
            unsigned wi = width(I.getOperand(0)->getType()), wo = width(ty);
            if (a.k == Val::U && ci.op == Instruction::ZExt) { Val r = Val::Int(0); r.um = maskw(~0ull, wi); return r; }
            if (a.k == Val::U) return ci.op == Instruction::Freeze ? (ty->isDoubleTy() ? a : Val::Int(0)) : a;
            if (a.k == Val::I && a.um && ci.op == Instruction::Freeze) { Val r = Val::Int(a.i & ~a.um); return r; }
            if (a.k == Val::Bx) { if (ci.op == Instruction::Freeze) return a; if (ci.op == Instruction::Trunc) return a; bool t = concretize(s, a.b); return Val::Int(t ? (ci.op == Instruction::SExt ? maskw(~0ull, wo) : 1) : 0); }
            switch (ci.op) {
            case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: { Val r = a; return r; }
            case Instruction::SExt: { Val r = Val::Int(maskw((uint64_t)sext(ci64(a), wi), wo)); r.um = maskw((uint64_t)sext(a.um, wi), wo); return r; }
            case Instruction::Trunc: { if (a.k == Val::D) throw Unsupported("trunc of a double"); Val r = Val::Int(maskw(ci64(a), wo)); r.um = a.um & maskw(~0ull, wo); if (r.um == maskw(~0ull, wo)) return Val::Undef(); return r; }
            case Instruction::BitCast:
                if (ty->isDoubleTy() && a.k == Val::I) return Val::Dbl(dblTerm(a.i));
                if (ty->isIntegerTy(64) && a.k == Val::D) { uint64_t b; if (exactBits(a.t, b)) return Val::Int(b); return a; }
                return a;
            default: return a; } };
        f.slots[ci.dst] = cv(op(0)); break; }
    case Instruction::SIToFP: case Instruction::UIToFP: { unsigned w = width(I.getOperand(0)->getType()); std::function<Val(const Val&)> cv = [&](const Val& a) -> Val { if (a.k == Val::A) return mapVec(a, a, [&](const Val& x, const Val&) { return cv(x); }); uint64_t v = ciInt(s, a); return Val::Dbl(ci.op == Instruction::SIToFP ? TT.cst(mpq_class((long)sext(v, w))) : TT.cst(mpq_class((unsigned long)v))); }; f.slots[ci.dst] = cv(op(0)); break; }
    case Instruction::FPToSI: case Instruction::FPToUI: { T t = toT(op(0)); if (t->op != Op::Const) throw Unsupported("conversion of a symbolic real to an integer"); mpz_class z = t->q->get_num() / t->q->get_den(); f.slots[ci.dst] = Val::Int(maskw((uint64_t)z.get_si(), width(ty))); break; }
    case Instruction::FPExt: case Instruction::FPTrunc: f.slots[ci.dst] = op(0); break;
    case Instruction::Alloca: { auto* al = cast<AllocaInst>(&I); uint64_t n = DL->getTypeAllocSize(al->getAllocatedType()) * ciInt(s, op(0)); f.slots[ci.dst] = Val::Int(allocStack(s, n, al->getAlign().value())); break; }
    case Instruction::GetElementPtr: {
        const Val& p = op(0); if (p.k == Val::U) { f.slots[ci.dst] = p; break; } if (p.k == Val::A) throw Unsupported("vector gep");
        uint64_t a = ci64(p) + (uint64_t)ci.gepOff; for (auto& g : ci.gepIdx) { const Val& iv = g.first >= 0 ? f.slots[g.first] : fi->consts[-g.first - 1]; unsigned w = 64; for (auto& o : I.operands()) { (void)o; } a += (uint64_t)((int64_t)ciInt(s, iv) * g.second); (void)w; }
        f.slots[ci.dst] = Val::Int(a); break; }
    case Instruction::Load: { if (op(0).k == Val::U) throw PathFault("load through an uninitialised pointer"); f.slots[ci.dst] = loadTy(s, ci64(op(0)), ty); break; }
    case Instruction::Store: { if (op(1).k == Val::U) throw PathFault("store through an uninitialised pointer"); Val v = op(0); storeTy(s, ci64(op(1)), I.getOperand(0)->getType(), v); break; }
    case Instruction::AtomicRMW: { auto* r = cast<AtomicRMWInst>(&I); Val v = op(1); uint64_t a = ci64(op(0)); Val old = loadTy(s, a, ty); unsigned w = width(ty); Val nv; switch (r->getOperation()) { case AtomicRMWInst::Add: nv = Val::Int(maskw(ci64(old) + ci64(v), w)); break; case AtomicRMWInst::Sub: nv = Val::Int(maskw(ci64(old) - ci64(v), w)); break; case AtomicRMWInst::Xchg: nv = v; break; default: throw Unsupported("atomicrmw"); } storeTy(s, a, ty, nv); f.slots[ci.dst] = old; break; }
    case Instruction::AtomicCmpXchg: { uint64_t a = ci64(op(0)); Type* et = I.getOperand(1)->getType(); Val old = loadTy(s, a, et); bool eq = ci64(old) == ci64(op(1)); if (eq) storeTy(s, a, et, op(2)); f.slots[ci.dst] = Val::Agg({old, Val::Int(eq)}); break; }
    case Instruction::Fence: break;
    case Instruction::ExtractValue: { auto* ev = cast<ExtractValueInst>(&I); Val v = op(0); for (unsigned k : ev->indices()) { if (v.k == Val::U) break; v = (*v.agg)[k]; } f.slots[ci.dst] = v; break; }
    case Instruction::InsertValue: { auto* iv = cast<InsertValueInst>(&I); Val v = op(0); Val x = op(1); auto idx = iv->getIndices(); std::function<Val(const Val&, unsigned, Type*)> ins = [&](const Val& a, unsigned d, Type* t) -> Val { if (d == idx.size()) return x; std::vector<Val> e; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements(); if (a.k == Val::A) e = *a.agg; else e.assign(n, Val::Undef()); Type* et = t->isStructTy() ? t->getStructElementType(idx[d]) : t->getArrayElementType(); e[idx[d]] = ins(e[idx[d]], d + 1, et); return Val::Agg(e); }; f.slots[ci.dst] = ins(v, 0, ty); break; }
    case Instruction::ExtractElement: { const Val& v = op(0); uint64_t k = ciInt(s, op(1)); f.slots[ci.dst] = v.k == Val::U ? v : v.agg->at(k); break; }
    case Instruction::InsertElement: { Val v = op(0); std::vector<Val> e; unsigned n = cast<FixedVectorType>(ty)->getNumElements(); if (v.k == Val::A) e = *v.agg; else e.assign(n, Val::Undef()); e[ciInt(s, op(2))] = op(1); f.slots[ci.dst] = Val::Agg(e); break; }
    case Instruction::ShuffleVector: { auto* sv = cast<ShuffleVectorInst>(&I); Val a = op(0), b = op(1); unsigned n = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements(); std::vector<Val> e; for (int m : sv->getShuffleMask()) { if (m < 0) e.push_back(Val::Undef()); else if ((unsigned)m < n) e.push_back(a.k == Val::A ? (*a.agg)[m] : a); else e.push_back(b.k == Val::A ? (*b.agg)[m - n] : b); } f.slots[ci.dst] = Val::Agg(e); break; }
    case Instruction::LandingPad: case Instruction::Resume: throw PathFault("exception handling");
    case Instruction::Call: case Instruction::Invoke: {
        auto* cb = cast<CallBase>(&I); FuncInfo* cf = const_cast<FuncInfo*>(ci.callee);
        unsigned na = cb->arg_size();
        if (!cf) { const Val& p = op(na); if (p.k == Val::U) throw PathFault("call through an uninitialised pointer"); uint64_t a = ci64(p); auto it = faddr.find(a); if (it == faddr.end()) throw PathFault(a < 4096 ? "call through a null pointer" : "call through a bad function pointer"); cf = it->second; }
        if (cf->F->isIntrinsic()) {
            auto id = cf->F->getIntrinsicID(); Val r = Val::Int(0); unsigned w = width(ty);
            auto elt = [&](std::function<Val(const Val&)> g, const Val& a) { return a.k == Val::A ? mapVec(a, a, [&](const Val& x, const Val&) { return g(x); }) : g(a); };
            auto m1 = [&](FnK k) { return elt([&](const Val& x) { return Val::Dbl(TT.fn(k, toT(x))); }, op(0)); };
            switch (id) {
            case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t n = ciInt(s, op(2)); if (n) copyMem(s, ci64(op(0)), ci64(op(1)), n); break; }
            case Intrinsic::memset: { uint64_t n = ciInt(s, op(2)); if (n) { if (op(1).k == Val::U) { uint64_t off; Region& rg = wr(s, ci64(op(0)), n, off); killSym(rg, off, n); for (uint64_t i = 0; i < n; ++i) rg.st[off + i] = 0; } else setMem(s, ci64(op(0)), (int)ciInt(s, op(1)), n); } break; }
            case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: break;
            case Intrinsic::stacksave: r = Val::Int(0); break;
            case Intrinsic::expect: r = op(0); break;
            case Intrinsic::is_constant: r = Val::Int(0); break;
            case Intrinsic::objectsize: r = Val::Int(~0ull); break;
            case Intrinsic::fabs: r = m1(FnK::Fabs); break; case Intrinsic::sqrt: r = m1(FnK::Sqrt); break; case Intrinsic::exp: r = m1(FnK::Exp); break; case Intrinsic::log: r = m1(FnK::Log); break; case Intrinsic::sin: r = m1(FnK::Sin); break; case Intrinsic::cos: r = m1(FnK::Cos); break; case Intrinsic::floor: r = m1(FnK::Floor); break;
            case Intrinsic::pow: r = Val::Dbl(TT.fn(FnK::Pow, toT(op(0)), toT(op(1)))); break;
            case Intrinsic::powi: { int64_t e = sext(ciInt(s, op(1)), 32); r = Val::Dbl(TT.fn(FnK::Pow, toT(op(0)), TT.cst(mpq_class((long)e)))); break; }
            case Intrinsic::fmuladd: case Intrinsic::fma: r = Val::Dbl(TT.add(TT.mul(toT(op(0)), toT(op(1))), toT(op(2)))); break;
            case Intrinsic::maxnum: case Intrinsic::minnum: { T a = toT(op(0)), b = toT(op(1)); bool lt = concretize(s, TT.lt(a, b)); r = Val::Dbl((id == Intrinsic::minnum) == lt ? a : b); break; }
            case Intrinsic::copysign: { T a = toT(op(0)), b = toT(op(1)); bool ng = concretize(s, TT.lt(b, TT.zero)); T fa = TT.fn(FnK::Fabs, a); r = Val::Dbl(ng ? TT.neg(fa) : fa); break; }
            case Intrinsic::umax: r = Val::Int(std::max(ciInt(s, op(0)), ciInt(s, op(1)))); break; case Intrinsic::umin: r = Val::Int(std::min(ciInt(s, op(0)), ciInt(s, op(1)))); break;
            case Intrinsic::smax: r = Val::Int(sext(ciInt(s, op(0)), w) > sext(ciInt(s, op(1)), w) ? op(0).i : op(1).i); break; case Intrinsic::smin: r = Val::Int(sext(ciInt(s, op(0)), w) < sext(ciInt(s, op(1)), w) ? op(0).i : op(1).i); break;
            case Intrinsic::abs: { int64_t v = sext(ciInt(s, op(0)), w); r = Val::Int(maskw((uint64_t)(v < 0 ? -v : v), w)); break; }
            case Intrinsic::usub_sat: { uint64_t a = ciInt(s, op(0)), b = ciInt(s, op(1)); r = Val::Int(a > b ? a - b : 0); break; }
            case Intrinsic::uadd_with_overflow: { unsigned ww = width(I.getOperand(0)->getType()); uint64_t a = ciInt(s, op(0)), b = ciInt(s, op(1)), v = maskw(a + b, ww); r = Val::Agg({Val::Int(v), Val::Int(v < a)}); break; }
            case Intrinsic::umul_with_overflow: { unsigned __int128 v = (unsigned __int128)ciInt(s, op(0)) * ciInt(s, op(1)); r = Val::Agg({Val::Int((uint64_t)v), Val::Int((uint64_t)(v >> 64) != 0)}); break; }
            case Intrinsic::smul_with_overflow: { __int128 v = (__int128)(int64_t)ciInt(s, op(0)) * (int64_t)ciInt(s, op(1)); r = Val::Agg({Val::Int((uint64_t)v), Val::Int(v != (__int128)(int64_t)v)}); break; }
            case Intrinsic::ctlz: { uint64_t v = ciInt(s, op(0)); r = Val::Int(v ? __builtin_clzll(v) - (64 - w) : w); break; }
            case Intrinsic::cttz: { uint64_t v = ciInt(s, op(0)); r = Val::Int(v ? __builtin_ctzll(v) : w); break; }
            case Intrinsic::ctpop: r = Val::Int(__builtin_popcountll(ciInt(s, op(0)))); break;
            case Intrinsic::fshl: { uint64_t a = ciInt(s, op(0)), b = ciInt(s, op(1)), k = ciInt(s, op(2)) % w; r = Val::Int(maskw(k ? (a << k) | (b >> (w - k)) : a, w)); break; }
            case Intrinsic::bswap: { uint64_t v = ciInt(s, op(0)); r = Val::Int(w == 64 ? __builtin_bswap64(v) : w == 32 ? __builtin_bswap32((uint32_t)v) : __builtin_bswap16((uint16_t)v)); break; }
            case Intrinsic::trap: throw PathFault("trap");
            case Intrinsic::vector_reduce_fadd: { T acc = toT(op(0)); for (auto& e : *op(1).agg) acc = TT.add(acc, toT(e)); r = Val::Dbl(acc); break; }
            default: throw Unsupported("intrinsic " + cf->name);
            }
            if (ci.dst >= 0) f.slots[ci.dst] = r;
        } else {
            std::vector<Val> args; args.reserve(na); for (unsigned k = 0; k < na; ++k) args.push_back(op(k));
            if (cf->builtin != B_NONE) { if (callBuiltin(s, f, ci, cf, args)) { if (ci.op == Instruction::Invoke) { Frame& ff = s.stack.back(); (void)ff; goto advInvoke; } break; } }
            // advance the caller first, then push the callee
            if (ci.op == Instruction::Invoke) { int dst = ci.dst; f.pend = bb.succ[0]; try { pushCall(s, cf, args, dst); } catch (Unsupported&) { s.stack.back().pend = -1; throw; } return; }
            f.ip++; int dst = ci.dst; try { pushCall(s, cf, args, dst); } catch (Unsupported&) { s.stack.back().ip--; throw; } return;
        }
        if (ci.op == Instruction::Invoke) {
        advInvoke:
            Frame& ff = s.stack.back(); (void)ff; jump(bb.succ[0]); return; }
        break; }
    default: throw Unsupported(std::string("opcode ") + I.getOpcodeName());
    }
    s.stack.back().ip++;
}
static std::string backtrace(State& s) { std::string r; int n = 0; for (auto it = s.stack.rbegin(); it != s.stack.rend() && n < 10; ++it, ++n) r += (n ? " < " : "") + it->f->name; return r; }

static bool prof = getenv("VP_PROF"); static std::map<std::string, long> profile, deep;
void Exec::run(State& s) {
    while (!s.stack.empty()) {
        if ((++totalInsts & 0xffff) == 0 && deadline && now() > deadline) throw Unsupported("time budget exhausted");
        if (totalInsts > maxInsts) throw Unsupported("instruction budget exhausted");
        if (prof && !(totalInsts & 63)) { profile[s.stack.back().f->name]++; if (!(totalInsts & 4095)) for (size_t i = s.stack.size() > 14 ? 14 : s.stack.size(); i-- > 0;) deep[std::to_string(i) + s.stack[i].f->name]++; }
        step(s);
    }
}
static void dumpProf() { for (auto* m : {&profile, &deep}) { std::vector<std::pair<long, std::string>> v; for (auto& p : *m) v.push_back({p.second, p.first}); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 40; ++i) fprintf(stderr, "%ld %s\n", v[i].first, v[i].second.c_str()); } }
void Exec::runSpec(const std::string& fn) {
    if (prof) atexit(dumpProf);
    g_exec = this;
    FuncInfo* fi = infoByName(fn); if (!fi) { errors.push_back("no such spec " + fn); return; }
    State* s0 = new State; s0->known.insert(TT.btrue);
    for (int i = 0; i < nSamples; ++i) { auto sp = std::make_shared<Sample>(); s0->samples.push_back(sp); }
    // global constructors of every module
    try {
        for (auto& m : mods) if (auto* gc = m->getGlobalVariable("llvm.global_ctors")) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) for (auto& o : ca->operands()) { auto* cs = cast<ConstantStruct>(o.get()); if (auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) { pushCall(*s0, info(F), {}, -1); run(*s0); } }
        pushCall(*s0, fi, {}, -1);
    } catch (std::exception& e) { errors.push_back(std::string("initialisation: ") + e.what() + " in " + backtrace(*s0)); return; }
    work.push_back(s0); paths = 1;
    while (!work.empty()) {
        State* s = work.back(); work.pop_back();
        try { run(*s); stats["paths_completed"]++; }
        catch (PathEnd& e) { stats["paths_infeasible"]++; }
        catch (PathFault& e) {
            if (getenv("VP_TRACE") && !s->stack.empty()) { auto& f = s->stack.back(); const CI& ci = f.f->bbs[f.bb].insts[f.ip]; std::string d; llvm::raw_string_ostream os(d); ci.I->getParent()->print(os); os << "\nAT "; ci.I->print(os); fprintf(stderr, "%s\n", d.c_str()); }
            bool feas = !s->samples.empty();
            if (!feas) { auto r = solve(s->pc, 10000); if (r.r == SolveResult::UNSAT) { stats["paths_infeasible"]++; delete s; continue; } feas = r.r == SolveResult::SAT; }
            ObRec o; o.label = "memory and exception safety"; o.status = feas ? "refuted" : "unknown"; o.backend = "execution"; o.path = s->pathId; o.detail = std::string(e.what()) + " in " + backtrace(*s); o.ints = s->ints;
            if (!s->samples.empty()) for (auto& in : s->inputs) o.cex.push_back({in.name, (double)s->samples[0]->v[in.var]});
            obs.push_back(o); }
        catch (Unsupported& e) { errors.push_back(std::string(e.what()) + " in " + backtrace(*s)); if (errors.size() > 20) { delete s; break; } if (std::string(e.what()).find("budget") != std::string::npos || std::string(e.what()).find("too many") != std::string::npos) { delete s; break; } }
        catch (std::exception& e) { errors.push_back(std::string("internal: ") + e.what() + " in " + backtrace(*s)); }
        delete s;
    }
    for (State* s : work) delete s; work.clear();
    for (auto& kv : finfo) if (kv.second->calls) repoFns.insert(kv.second->name);
}

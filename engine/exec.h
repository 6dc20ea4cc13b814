#pragma once
#include "term.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/ADT/DenseMap.h>
#include <llvm/ADT/SmallVector.h>
#include <deque>
#include <stdexcept>

struct Val {
    enum K : uint8_t { I, D, Bx, A, S, P, U } k = I;
    uint64_t i = 0;                    // I: bits; P: region base address
    uint64_t um = 0;                   // I: mask of undefined bits
    union { T t; B b; const std::vector<Val>* agg; };   // D,S,P: term (P: offset term)
    Val() : t(nullptr) {}
    static Val Int(uint64_t v) { Val r; r.k = I; r.i = v; return r; }
    static Val Dbl(T t) { Val r; r.k = D; r.t = t; return r; }
    static Val Bool(B b) { Val r; r.k = Bx; r.b = b; return r; }
    static Val Agg(std::vector<Val> v) { Val r; r.k = A; r.agg = new std::vector<Val>(std::move(v)); return r; }
    static Val Sym(T t) { Val r; r.k = S; r.t = t; return r; }
    static Val Ptr(uint64_t base, T off) { Val r; r.k = P; r.i = base; r.t = off; return r; }
    static Val Undef() { Val r; r.k = U; return r; }
};

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };
struct PathFault : std::runtime_error { using std::runtime_error::runtime_error; };   // memory/exception fault: a safety obligation fails
struct PathEnd : std::runtime_error { using std::runtime_error::runtime_error; };     // infeasible / assumption false
struct Refork {};

// array-valued region contents for symbolic sizes / symbolic indices
struct SymWrite { T off; T len; Val v; std::shared_ptr<struct ArrSnap> src; T srcOff; T lamVar = nullptr; T lamBody = nullptr; };
struct ArrSnap {                    // persistent array of doubles (8-byte elements), indices in elements
    enum K { Undef, Zero, Input, Store } k = Undef;
    int inputId = 0;
    std::shared_ptr<ArrSnap> prev; SymWrite w;
};

struct Region {
    uint64_t base = 0, size = 0;
    std::vector<uint8_t> data, st;      // st: 0 undefined, 1 concrete, 2 head of an 8-byte symbolic cell, 3 tail, 4 partly undefined byte (bits in ub)
    std::map<uint32_t, Val> sym; std::map<uint32_t, uint8_t> ub;
    bool freed = false, heap = false, ro = false;
    uint8_t allocKind = 0;
    std::string name;
    T symSize = nullptr;                // symbolic byte size => array region
    std::shared_ptr<ArrSnap> arr;
};
typedef std::shared_ptr<Region> RegP;

struct FuncInfo;
struct CI {                              // decoded instruction
    const llvm::Instruction* I; unsigned op; int dst; llvm::SmallVector<int, 4> ops; 
    const FuncInfo* callee = nullptr; int64_t gepOff = 0; llvm::SmallVector<std::pair<int, int64_t>, 2> gepIdx;
};
struct BBInfo { std::vector<CI> insts; std::vector<std::pair<int, std::vector<std::pair<int,int>>>> phis; std::vector<int> succ; };
struct FuncInfo {
    llvm::Function* F = nullptr; std::string name; bool ready = false; int builtin = 0; uint64_t addr = 0;
    std::vector<BBInfo> bbs; std::vector<Val> consts; int nslots = 0; bool repo = false; unsigned long calls = 0;
};
struct Frame { const FuncInfo* f; int bb = 0, ip = 0, prev = -1, pend = -1; std::vector<Val> slots; size_t stackMark = 0; int retSlot = -1; };
struct InputRec { std::string name; int var; };

struct State {
    std::vector<Frame> stack;
    std::vector<RegP> heap, stk, glob;
    uint64_t heapTop = 0x100000000000ull, stkTop = 0x700000000000ull;
    std::vector<B> pc; std::set<B> known;
    std::vector<std::shared_ptr<Sample>> samples;
    std::vector<InputRec> inputs; size_t nInputs = 0; size_t nBools = 0, nChoices = 0;
    std::vector<std::pair<std::string,long>> ints;
    std::vector<uint32_t> newUndef;
    int pathId = 0; long seq = 0; unsigned long insts = 0; bool feasUnknown = false;
    std::string trace;
};

struct ObRec { std::string label, status, backend, detail; int path; long seq = -1; std::vector<std::pair<std::string,double>> cex; std::vector<std::pair<std::string,long>> ints; };

struct Exec {
    llvm::LLVMContext ctx;
    std::vector<std::unique_ptr<llvm::Module>> mods;
    std::map<std::string, llvm::Function*> defs;
    std::map<std::string, llvm::GlobalVariable*> gdefs;
    std::unordered_map<const llvm::Function*, FuncInfo*> finfo;
    std::unordered_map<uint64_t, FuncInfo*> faddr; uint64_t nextFaddr = 0x08000000;
    std::unordered_map<const llvm::GlobalVariable*, uint64_t> gaddr; std::map<std::string, uint64_t> extg; uint64_t nextG = 0x10000000;
    std::vector<RegP> globInit; std::map<uint64_t, const llvm::GlobalVariable*> gbyaddr;
    const llvm::DataLayout* DL = nullptr;
    std::vector<State*> work;
    std::vector<ObRec> obs; std::map<std::string, long> backendCount;
    unsigned long maxInsts = 4000000000ul, totalInsts = 0; int maxPaths = 4000, paths = 0; double deadline = 0; size_t maxPathErr = 0;
    std::vector<std::string> errors, faults;
    std::vector<int> inputVars; std::vector<std::string> inputNames;
    std::vector<B> boolVars; std::map<std::string,int> atomVars;
    std::set<std::string> repoFns, contractsUsed; std::set<std::string> assumptions;
    std::map<std::string,long> stats;
    NormalForm nf; unsigned seed = 1; uint64_t rng = 88172645463325252ull;
    bool verbose = false; int nSamples = 48; long memChecks = 0;

    bool load(const std::string& path, bool isContract);
    void runSpec(const std::string& fn);
    // implementation
    FuncInfo* info(llvm::Function* F);
    FuncInfo* infoByName(const std::string&);
    void decode(FuncInfo* fi);
    Val constant(const llvm::Constant* C);
    uint64_t gvAddr(const llvm::GlobalVariable* g);
    void initGlobal(RegP r, uint64_t off, const llvm::Constant* C);
    llvm::Function* resolve(llvm::Function* F);
    void run(State& s);
    void step(State& s);
    bool callBuiltin(State& s, Frame& f, const CI& ci, FuncInfo* fi, const std::vector<Val>& args);
    int classify(const std::string& name);
    void pushCall(State& s, FuncInfo* fi, const std::vector<Val>& args, int retSlot);
    void ret(State& s, const Val& v);
    // memory
    RegP* find(State& s, uint64_t addr);
    Region& rd(State& s, uint64_t addr, uint64_t n, uint64_t& off);
    Region& wr(State& s, uint64_t addr, uint64_t n, uint64_t& off);
    uint64_t allocHeap(State& s, uint64_t n, int kind, const char* nm);
    uint64_t allocStack(State& s, uint64_t n, uint64_t align);
    void freeHeap(State& s, uint64_t a, int kind);
    Val loadTy(State& s, uint64_t addr, llvm::Type* ty);
    void storeTy(State& s, uint64_t addr, llvm::Type* ty, const Val& v);
    void copyMem(State& s, uint64_t dst, uint64_t src, uint64_t n);
    void setMem(State& s, uint64_t dst, int c, uint64_t n);
    std::string readStr(State& s, uint64_t a);
    // logic
    bool concretize(State& s, B b);
    bool truth(State& s, const Val& v);
    void addPc(State& s, B b);
    void assume(State& s, B b);
    void prove(State& s, B goal, const std::string& label);
    T newInput(State& s, const std::string& name, double lo, double hi);
    void newSampleVal(State& s, int var, bool atom);
    double rnd();
    T toT(const Val& v);
    uint64_t ci64(const Val& v) { if (v.k != Val::I) throw Unsupported("symbolic integer where a concrete one is needed"); return v.i; }
    uint64_t ciInt(State& s, const Val& v);
    void resample(State& s);
};

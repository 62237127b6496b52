#include <tuple>
// vpsym: a small symbolic executor for LLVM bitcode.
//
// Executes a harness entry function of a linked bitcode module. Inputs made
// with vp_sym() are symbolic bit-vectors; every branch, assertion and memory
// access over them is decided by the SMT solver (Z3). All feasible paths are
// explored; loops end when the solver says the exit is the only feasible
// branch. Work is spread over processes by fork().
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <map>
#include <set>
#include <deque>
#include <memory>
#include <functional>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
using namespace llvm;

// ------------------------------------------------------------ options
static std::string OUT = ".", ENTRY = "vp_main";
static int JOBS = 8; static double TIMEOUT = 600; static u64 MAXINST = 20000000; static int NSAMPLES = 2;
static unsigned SOLVER_MS1 = 4000, SOLVER_MS = 300000; static u64 MEMMB = 3000;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double T0;

struct Shared { volatile int active; volatile int stop; volatile int viol; volatile int incomplete; };
static Shared *SH;

// ------------------------------------------------------------ stats
static u64 nPaths, nForks, nQueries, nQSat, nQUnsat, nCacheHit, nInst, nAsserts, nAssumeCut, nModelReuse, nFixed;
static double tSolver;
static std::map<std::string, std::string> COVERS;          // label -> witness
static std::vector<std::string> SAMPLES;
static std::map<std::string, u64> FUNCS;
static std::vector<std::string> ERRORS;

static void fatal(const std::string &m);

// ------------------------------------------------------------ memory objects
struct SByte { E e; uint8_t idx; };
struct Obj { int rc; u64 addr, size; bool ro; char kind; std::vector<uint8_t> c; std::vector<SByte> s; int tabid; };
static u64 nObjs;
struct ObjP { Obj *p; ObjP(Obj *q = nullptr) : p(q) { if (p) p->rc++; } ObjP(const ObjP &o) : p(o.p) { if (p) p->rc++; }
    ObjP(ObjP &&o) noexcept : p(o.p) { o.p = nullptr; }
    ObjP &operator=(ObjP o) noexcept { std::swap(p, o.p); return *this; }
    ~ObjP() { if (p && --p->rc == 0) delete p; } Obj *operator->() const { return p; } };

// ------------------------------------------------------------ decoded code
struct Operand { int slot; E c; };
struct DFunc;
struct DInst {
    const Instruction *I; unsigned op; int dst; unsigned w;       // w: result width (ints/ptr)
    std::vector<Operand> ops;
    std::vector<std::pair<Operand, u64>> gepv; u64 gepc;          // variable indices with scale; constant offset
    std::vector<int> succ;
    Function *callee; DFunc *dcallee; int intr;
    std::vector<unsigned> aggidx;
    struct SwT { int target; std::vector<std::pair<u64, u64>> ranges; };
    std::vector<SwT> sw; int swdef; std::unordered_map<u64, int> swmap;
    // every target only selects the value of one phi of block tabX: result by case value
    int tabX = -1, tabPhi = -1; bool tabDefOp = false; unsigned tabW = 0; u64 tabDef = 0; std::vector<std::pair<u64, u64>> tabVals;
};
struct DBlock { const BasicBlock *bb; unsigned first; std::map<int, std::vector<std::pair<int, Operand>>> phis; };
struct DFunc { Function *F; std::vector<DInst> code; std::vector<DBlock> blocks; int nslots; std::vector<int> argslots; };

static Module *M; static const DataLayout *DL; static LLVMContext CTX;
static std::unordered_map<const Function *, DFunc *> DFUNCS;
static std::unordered_map<u64, Function *> FADDR; static std::unordered_map<const Function *, u64> ADDRF;
static std::unordered_map<const GlobalVariable *, u64> GADDR;
static std::vector<ObjP> ROBJS;            // constant globals, sorted by address
static std::vector<ObjP> RWGLOBALS;        // initial writable globals

struct Frame { DFunc *f; int block, pc; std::vector<E> regs; std::vector<u64> allocas; std::vector<E> va; };
struct ModelP { std::shared_ptr<Model> m; };
struct State {
    std::vector<Frame> st;
    std::vector<ObjP> objs;               // sorted by address; released ones stay as empty blocks of kind 'x' for a while
    size_t dead = 0;
    u64 next;
    std::vector<E> cons; std::unordered_set<u64> *dummy = nullptr;
    Support fixed; bool bigvars;
    std::shared_ptr<Model> model;
    std::vector<std::pair<E, std::string>> vars;
    u64 inst; unsigned depth;
};

static std::deque<State *> WORK;
static State *S;                          // current

// ------------------------------------------------------------ model / solver
static Z3_solver SOLVER, SOLVER2;      // SOLVER2: slower to start, better at arithmetic
static bool subset(const Support &a, const Support &b) { for (int i = 0; i < 4; i++) if (a.m[i] & ~b.m[i]) return false; return true; }
static bool overlap(const Support &a, const Support &b) { for (int i = 0; i < 4; i++) if (a.m[i] & b.m[i]) return true; return false; }
static void merge(Support &a, const Support &b) { for (int i = 0; i < 4; i++) a.m[i] |= b.m[i]; }

struct QKey { std::vector<uint32_t> v; bool operator==(const QKey &o) const { return v == o.v; } };
struct QHash { size_t operator()(const QKey &k) const { u64 h = 1469598103934665603ULL; for (auto x : k.v) h = (h ^ x) * 1099511628211ULL; return h; } };
struct QRes { bool sat; std::vector<std::pair<uint32_t, u64>> vals; };
static std::unordered_map<QKey, QRes, QHash> QCACHE;

static void collectVars(E e, std::vector<E> &out, std::unordered_set<E> &seen) {
    if (e->op == CONST || !seen.insert(e).second) return;
    if (e->op == VAR) { out.push_back(e); return; }
    for (int i = 0; i < 3; i++) if (e->k[i]) collectVars(e->k[i], out, seen);
}

// Is (path constraints && e) satisfiable? On success *out receives a model.
static std::string where(State *s);
static bool satisfiable(State *s, E e, std::shared_ptr<Model> *out) {
    if (isC(e)) { if (e->c && out) *out = s->model; return e->c; }
    Support sup = e->sup;
    std::vector<char> in(s->cons.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < s->cons.size(); i++) if (!in[i] && overlap(s->cons[i]->sup, sup)) { in[i] = 1; merge(sup, s->cons[i]->sup); ch = true; } }
    QKey key; for (size_t i = 0; i < s->cons.size(); i++) if (in[i]) key.v.push_back(s->cons[i]->id);
    std::sort(key.v.begin(), key.v.end()); key.v.push_back(e->id);
    auto it = QCACHE.find(key);
    const QRes *res;
    if (it != QCACHE.end()) { nCacheHit++; res = &it->second; }
    else {
        nQueries++;
        double t = now();
        Z3_solver sv = SOLVER; Z3_lbool r = Z3_L_UNDEF;
        bool anyHeavy = false, done = false;
        if (!e->heavy) for (size_t i = 0; i < s->cons.size(); i++) if (in[i] && s->cons[i]->heavy) { anyHeavy = true; break; }
        if (anyHeavy) {     // first without the expensive constraints
            Z3_solver_push(Z, sv);
            for (size_t i = 0; i < s->cons.size(); i++) if (in[i] && !s->cons[i]->heavy) Z3_solver_assert(Z, sv, zBool(s->cons[i]));
            Z3_solver_assert(Z, sv, zBool(e));
            r = Z3_solver_check(Z, sv);
            if (r == Z3_L_FALSE) done = true;
            else if (r == Z3_L_TRUE) {
                Z3_model m = Z3_solver_get_model(Z, sv); Z3_model_inc_ref(Z, m);
                std::vector<E> vs; std::unordered_set<E> seen;
                for (size_t i = 0; i < s->cons.size(); i++) if (in[i]) collectVars(s->cons[i], vs, seen);
                collectVars(e, vs, seen);
                Model nm = *s->model;
                for (E v : vs) { Z3_ast a; u64 val = 0; if (Z3_model_eval(Z, m, zBV(v), true, &a)) Z3_get_numeral_uint64(Z, a, (uint64_t *)&val);
                    if (nm.size() <= (v->c >> 8)) nm.resize((v->c >> 8) + 1, 0); nm[v->c >> 8] = val; }
                Z3_model_dec_ref(Z, m);
                done = true;
                for (size_t i = 0; i < s->cons.size() && done; i++) if (in[i] && s->cons[i]->heavy && !eval(s->cons[i], &nm)) done = false;
            }
            if (!done) Z3_solver_pop(Z, sv, 1);
        }
        for (int attempt = 0; !done && attempt < 2; attempt++) {
            sv = attempt ? SOLVER2 : SOLVER;
            Z3_solver_push(Z, sv);
            for (size_t i = 0; i < s->cons.size(); i++) if (in[i]) Z3_solver_assert(Z, sv, zBool(s->cons[i]));
            Z3_solver_assert(Z, sv, zBool(e));
            r = Z3_solver_check(Z, sv);
            if (r != Z3_L_UNDEF || attempt) break;
            Z3_solver_pop(Z, sv, 1);
        }
        QRes q; q.sat = r == Z3_L_TRUE;
        if (r == Z3_L_UNDEF) {
            std::string why = Z3_solver_get_reason_unknown(Z, sv);
            Z3_solver_pop(Z, sv, 1); fatal("solver gave no answer: " + why); }
        if (q.sat) {
            nQSat++;
            Z3_model m = Z3_solver_get_model(Z, sv); Z3_model_inc_ref(Z, m);
            std::vector<E> vs; std::unordered_set<E> seen;
            for (size_t i = 0; i < s->cons.size(); i++) if (in[i]) collectVars(s->cons[i], vs, seen);
            collectVars(e, vs, seen);
            for (E v : vs) { Z3_ast a; u64 val = 0;
                if (Z3_model_eval(Z, m, zBV(v), true, &a)) Z3_get_numeral_uint64(Z, a, (uint64_t *)&val);
                q.vals.push_back({(uint32_t)(v->c >> 8), val}); }
            Z3_model_dec_ref(Z, m);
        } else nQUnsat++;
        Z3_solver_pop(Z, sv, 1);
        tSolver += now() - t;
        static bool slow = getenv("VPSYM_SLOW") != nullptr;
        if (slow && now() - t > 0.02) fprintf(stderr, "slow %.3f %s %s\n", now() - t, q.sat ? "sat" : "unsat", where(s).c_str());
        if (slow && now() - t > 0.02 && getenv("VPSYM_DUMP")) { static int n; if (n++ == 20) { for (size_t i = 0; i < s->cons.size(); i++) if (in[i]) fprintf(stderr, "C %s\n", Z3_ast_to_string(Z, zBool(s->cons[i]))); fprintf(stderr, "Q %s\n", Z3_ast_to_string(Z, zBool(e))); } }
        if (QCACHE.size() > 400000) QCACHE.clear();
        res = &(QCACHE[key] = q);
    }
    if (res->sat && out) {
        auto nm = std::make_shared<Model>(*s->model);
        for (auto &p : res->vals) { if (nm->size() <= p.first) nm->resize(p.first + 1, 0); (*nm)[p.first] = p.second; }
        *out = nm;
        if (!eval(e, nm.get())) fatal("internal: model does not satisfy the query");
    }
    return res->sat;
}

static void addCons(State *s, E e) {
    if (isC(e)) { if (!e->c) fatal("internal: false constraint"); return; }
    if (e->op == AND && e->w == 1) { addCons(s, e->k[0]); addCons(s, e->k[1]); return; }
    for (E c : s->cons) if (c == e) return;
    s->cons.push_back(e);
    if (e->op == EQ && isC(e->k[1]) && e->k[0]->op == VAR) {
        u64 i = e->k[0]->c >> 8; if (i < 256) s->fixed.m[i >> 6] |= 1ULL << (i & 63);
    }
}
static bool known(State *s, E e) { return !s->bigvars && subset(e->sup, s->fixed); }

static std::string valuesOf(State *s) {
    std::string r; char b[128];
    for (auto &v : s->vars) { snprintf(b, sizeof b, "%s %u 0x%llx\n", v.second.c_str(), (unsigned)v.first->w, (unsigned long long)eval(v.first, s->model.get())); r += b; }
    return r;
}
static std::string where(State *s) {
    std::string r;
    for (int i = (int)s->st.size() - 1; i >= 0 && i > (int)s->st.size() - 8; i--) {
        Frame &f = s->st[i]; int pc = f.pc; if (pc >= (int)f.f->code.size()) pc = f.f->code.size() - 1;
        r += (r.empty() ? "" : " < ") + f.f->F->getName().str();
        if (auto &L = f.f->code[pc].I->getDebugLoc()) r += ":" + std::to_string(L.getLine());
    }
    return r;
}
static void dumpResult();
static void violation(State *s, const std::string &kind) {
    SH->viol = 1; SH->stop = 1;
    FILE *f = fopen((OUT + "/viol." + std::to_string(getpid())).c_str(), "w");
    fprintf(f, "# %s\n# at %s\n", kind.c_str(), where(s).c_str());
    fputs(valuesOf(s).c_str(), f); fclose(f);
    dumpResult(); SH->active = SH->active - 1; fflush(nullptr); _exit(0);
}
static void fatal(const std::string &m) {
    ERRORS.push_back(m + (S ? " at " + where(S) : ""));
    SH->incomplete = 1; SH->stop = 1; dumpResult(); SH->active = SH->active - 1; fflush(nullptr); _exit(0);
}

// ------------------------------------------------------------ constants and globals
static E constE(const Constant *C);
static u64 constAddr(const Constant *C) { E e = constE(C); if (!isC(e)) fatal("symbolic constant"); return e->c; }
static E constE(const Constant *C) {
    Type *T = C->getType();
    if (auto *CI = dyn_cast<ConstantInt>(C)) {
        if (CI->getBitWidth() > 64) fatal("integer wider than 64 bits");
        return K(CI->getZExtValue(), CI->getBitWidth()); }
    if (isa<ConstantPointerNull>(C)) return K(0, 64);
    if (auto *GV = dyn_cast<GlobalVariable>(C)) { auto it = GADDR.find(GV); if (it == GADDR.end()) fatal("no address for global " + GV->getName().str()); return K(it->second, 64); }
    if (auto *F = dyn_cast<Function>(C)) return K(ADDRF.at(F), 64);
    if (auto *GA = dyn_cast<GlobalAlias>(C)) return constE(GA->getAliasee());
    if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) {
        if (T->isIntegerTy()) return K(0, T->getIntegerBitWidth());
        if (T->isPointerTy()) return K(0, 64);
        if (auto *ST = dyn_cast<StructType>(T)) { std::vector<E> v; for (unsigned i = 0; i < ST->getNumElements(); i++) v.push_back(constE(C->getAggregateElement(i))); return mkAgg(v); }
        fatal("undef constant of unsupported type");
    }
    if (auto *CS = dyn_cast<ConstantStruct>(C)) { std::vector<E> v; for (unsigned i = 0; i < CS->getNumOperands(); i++) v.push_back(constE(CS->getOperand(i))); return mkAgg(v); }
    if (auto *CE = dyn_cast<ConstantExpr>(C)) {
        switch (CE->getOpcode()) {
        case Instruction::GetElementPtr: { APInt off(64, 0); auto *G = cast<GEPOperator>(CE);
            if (!G->accumulateConstantOffset(*DL, off)) fatal("constant GEP");
            return mkAdd(constE(cast<Constant>(G->getPointerOperand())), K(off.getZExtValue(), 64)); }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constE(CE->getOperand(0));
        case Instruction::PtrToInt: { E e = constE(CE->getOperand(0)); unsigned w = T->getIntegerBitWidth(); return w < 64 ? mkExtract(e, 0, w) : e; }
        case Instruction::IntToPtr: return mkZext(constE(CE->getOperand(0)), 64);
        case Instruction::Trunc: return mkExtract(constE(CE->getOperand(0)), 0, T->getIntegerBitWidth());
        case Instruction::ZExt: return mkZext(constE(CE->getOperand(0)), T->getIntegerBitWidth());
        case Instruction::SExt: return mkSext(constE(CE->getOperand(0)), T->getIntegerBitWidth());
        case Instruction::Sub: return mkSub(constE(CE->getOperand(0)), constE(CE->getOperand(1)));
        case Instruction::Add: return mkAdd(constE(CE->getOperand(0)), constE(CE->getOperand(1)));
        default: break;
        }
    }
    std::string s; raw_string_ostream os(s); C->print(os); fatal("unsupported constant " + os.str()); return nullptr;
}
static void initBytes(const Constant *C, uint8_t *p) {
    Type *T = C->getType(); u64 sz = DL->getTypeAllocSize(T);
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) { memset(p, 0, sz); return; }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { u64 es = CD->getElementByteSize();
        if (CD->getElementType()->isFloatingPointTy()) { memcpy(p, CD->getRawDataValues().data(), sz); return; }
        for (unsigned i = 0; i < CD->getNumElements(); i++) { u64 v = CD->getElementAsInteger(i); memcpy(p + i * es, &v, es); } return; }
    if (auto *CA = dyn_cast<ConstantArray>(C)) { u64 es = DL->getTypeAllocSize(CA->getType()->getElementType());
        for (unsigned i = 0; i < CA->getNumOperands(); i++) initBytes(CA->getOperand(i), p + i * es); return; }
    if (auto *CS = dyn_cast<ConstantStruct>(C)) { auto *L = DL->getStructLayout(CS->getType());
        for (unsigned i = 0; i < CS->getNumOperands(); i++) initBytes(CS->getOperand(i), p + L->getElementOffset(i)); return; }
    if (auto *CF = dyn_cast<ConstantFP>(C)) { u64 v = CF->getValueAPF().bitcastToAPInt().getZExtValue(); memcpy(p, &v, sz); return; }
    u64 v = constAddr(C); memcpy(p, &v, sz > 8 ? 8 : sz);
}
static Obj *newObj(u64 addr, u64 size, char kind) { Obj *o = new Obj; o->rc = 0; o->addr = addr; o->size = size; o->ro = false; o->kind = kind; o->c.assign(size, 0); o->tabid = -1; return o; }
static void loadGlobals() {
    u64 a = 0x1000;
    for (Function &F : *M) { ADDRF[&F] = a; FADDR[a] = &F; a += 16; }
    a = 0x10000000;
    for (GlobalVariable &G : M->globals()) {
        if (!G.getValueType()->isSized()) continue;
        GADDR[&G] = a; a += (DL->getTypeAllocSize(G.getValueType()) + 256 + 63) & ~63ULL; }
    for (GlobalVariable &G : M->globals()) {
        if (!GADDR.count(&G)) continue;
        if (G.getName().starts_with("llvm.")) continue;
        Obj *o = newObj(GADDR[&G], DL->getTypeAllocSize(G.getValueType()), 'g');
        if (G.hasInitializer()) initBytes(G.getInitializer(), o->c.data());
        o->ro = G.isConstant();
        (o->ro ? ROBJS : RWGLOBALS).push_back(ObjP(o));
    }
    auto lt = [](const ObjP &x, const ObjP &y) { return x.p->addr < y.p->addr; };
    std::sort(ROBJS.begin(), ROBJS.end(), lt); std::sort(RWGLOBALS.begin(), RWGLOBALS.end(), lt);
}

// ------------------------------------------------------------ decoding
static unsigned widthOf(Type *T) {
    if (T->isIntegerTy()) { if (T->getIntegerBitWidth() > 64) fatal("integer wider than 64 bits"); return T->getIntegerBitWidth(); }
    if (T->isPointerTy()) return 64;
    if (T->isVoidTy() || T->isStructTy() || T->isArrayTy()) return 0;
    return 255;
}
// Cases whose targets do nothing but pick the same values for the phis of the
// same block are one target.
static void finishSwitch(DFunc *d, int bi, DInst &x) {
    typedef std::vector<std::pair<int, std::pair<int, E>>> Phis;   // slot, operand
    auto edge = [&](int t, int &X, Phis &ph) {
        DBlock &b = d->blocks[t]; unsigned end = t + 1 < (int)d->blocks.size() ? d->blocks[t + 1].first : d->code.size();
        int from = bi; X = t;
        if (b.phis.empty() && end - b.first == 1 && d->code[b.first].op == Instruction::Br && d->code[b.first].ops.empty()) { from = t; X = d->code[b.first].succ[0]; }
        ph.clear(); auto it = d->blocks[X].phis.find(from);
        if (it != d->blocks[X].phis.end()) for (auto &p : it->second) ph.push_back({p.first, {p.second.slot, p.second.c}});
    };
    std::map<std::pair<int, Phis>, int> canon; std::map<int, int> rep;
    auto canonical = [&](int t) { auto r = rep.find(t); if (r != rep.end()) return r->second; int X; Phis ph; edge(t, X, ph);
        auto it = canon.find({X, ph}); if (it == canon.end()) it = canon.emplace(std::make_pair(X, ph), t).first; rep[t] = it->second; return it->second; };
    x.swdef = canonical(x.swdef);
    std::map<int, std::vector<u64>> byT;
    for (auto &c : x.swmap) { c.second = canonical(c.second); if (c.second != x.swdef) byT[c.second].push_back(c.first); }
    for (auto &p : byT) { auto &v = p.second; std::sort(v.begin(), v.end()); DInst::SwT st; st.target = p.first;
        for (u64 c : v) if (!st.ranges.empty() && st.ranges.back().second + 1 == c) st.ranges.back().second = c; else st.ranges.push_back({c, c});
        x.sw.push_back(st); }
    if (x.swmap.size() < 12) return;
    int X; Phis ph; edge(x.swdef, X, ph);
    if (ph.size() != 1) return;
    if (ph[0].second.first >= 0) { if (ph[0].second.first != x.ops[0].slot) return; x.tabDefOp = true; } else { if (!ph[0].second.second || !isC(ph[0].second.second)) return; x.tabDef = ph[0].second.second->c; }
    int slot = ph[0].first; unsigned w = 0;
    for (auto &B : d->blocks) for (auto &e : B.phis) for (auto &p : e.second) if (p.first == slot && p.second.c) w = p.second.c->w;
    const PHINode *P = nullptr; for (auto &I : *d->blocks[X].bb) if (auto *q = dyn_cast<PHINode>(&I)) { P = q; break; }
    if (!P || !P->getType()->isIntegerTy() || P->getType()->getIntegerBitWidth() != w || w == 1) return;
    std::map<int, u64> vals;
    for (auto &c : x.swmap) { auto it = vals.find(c.second); if (it == vals.end()) { if (c.second == x.swdef) { if (x.tabDefOp) continue; it = vals.emplace(c.second, x.tabDef).first; } else { int X2; Phis p2; edge(c.second, X2, p2);
            if (X2 != X || p2.size() != 1 || p2[0].first != slot || p2[0].second.first >= 0 || !p2[0].second.second || !isC(p2[0].second.second)) return; it = vals.emplace(c.second, p2[0].second.second->c).first; } }
        x.tabVals.push_back({c.first, it->second}); }
    x.tabX = X; x.tabPhi = slot; x.tabW = w;
}
static DFunc *decode(Function *F) {
    auto it = DFUNCS.find(F); if (it != DFUNCS.end()) return it->second;
    DFunc *d = new DFunc; DFUNCS[F] = d; d->F = F;
    std::unordered_map<const Value *, int> slot; std::unordered_map<const BasicBlock *, int> bbi; int n = 0;
    for (auto &A : F->args()) { d->argslots.push_back(n); slot[&A] = n++; }
    int b = 0; for (auto &B : *F) { bbi[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
    d->nslots = n;
    auto opnd = [&](const Value *V) -> Operand {
        auto s = slot.find(V); if (s != slot.end()) return {s->second, nullptr};
        if (auto *C = dyn_cast<Constant>(V)) return {-1, constE(C)};
        return {-2, nullptr}; };
    for (auto &B : *F) {
        DBlock db; db.bb = &B; db.first = d->code.size();
        for (auto &I : B) {
            if (auto *P = dyn_cast<PHINode>(&I)) {
                for (unsigned i = 0; i < P->getNumIncomingValues(); i++)
                    db.phis[bbi[P->getIncomingBlock(i)]].push_back({slot[P], opnd(P->getIncomingValue(i))});
                continue; }
            if (isa<DbgInfoIntrinsic>(I)) continue;
            DInst x; x.I = &I; x.op = I.getOpcode(); x.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; x.w = widthOf(I.getType());
            x.callee = nullptr; x.dcallee = nullptr; x.intr = 0; x.gepc = 0; x.swdef = -1;
            if (auto *Br = dyn_cast<BranchInst>(&I)) {
                if (Br->isConditional()) x.ops.push_back(opnd(Br->getCondition()));
                for (unsigned i = 0; i < Br->getNumSuccessors(); i++) x.succ.push_back(bbi[Br->getSuccessor(i)]);
            } else if (auto *SW = dyn_cast<SwitchInst>(&I)) {
                x.ops.push_back(opnd(SW->getCondition())); x.swdef = bbi[SW->getDefaultDest()];
                for (auto &c : SW->cases()) x.swmap[c.getCaseValue()->getZExtValue()] = bbi[c.getCaseSuccessor()];
            } else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
                x.ops.push_back(opnd(G->getPointerOperand()));
                for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                    if (StructType *ST = gi.getStructTypeOrNull()) x.gepc += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
                    else { u64 sc = DL->getTypeAllocSize(gi.getIndexedType()); 
                        if (auto *CI = dyn_cast<ConstantInt>(gi.getOperand())) x.gepc += (u64)CI->getSExtValue() * sc;
                        else x.gepv.push_back({opnd(gi.getOperand()), sc}); } }
            } else if (auto *C = dyn_cast<CallBase>(&I)) {
                for (auto &a : C->args()) { if (a->getType()->isMetadataTy()) x.ops.push_back({-2, nullptr}); else x.ops.push_back(opnd(a)); }
                Value *cv = C->getCalledOperand()->stripPointerCasts();
                if (auto *FF = dyn_cast<Function>(cv)) x.callee = FF; else if (isa<InlineAsm>(cv)) x.callee = nullptr, x.intr = -1;
                x.ops.push_back(x.intr == -1 ? Operand{-2, nullptr} : opnd(C->getCalledOperand()));
            } else if (auto *EV = dyn_cast<ExtractValueInst>(&I)) { x.ops.push_back(opnd(EV->getAggregateOperand())); for (auto i : EV->indices()) x.aggidx.push_back(i);
            } else if (auto *IV = dyn_cast<InsertValueInst>(&I)) { x.ops.push_back(opnd(IV->getAggregateOperand())); x.ops.push_back(opnd(IV->getInsertedValueOperand())); for (auto i : IV->indices()) x.aggidx.push_back(i);
            } else for (auto &o : I.operands()) x.ops.push_back(opnd(o.get()));
            d->code.push_back(std::move(x));
        }
        d->blocks.push_back(std::move(db));
    }
    for (size_t bi = 0; bi < d->blocks.size(); bi++) {
        unsigned end = bi + 1 < d->blocks.size() ? d->blocks[bi + 1].first : d->code.size();
        if (end > d->blocks[bi].first && d->code[end - 1].op == Instruction::Switch) finishSwitch(d, bi, d->code[end - 1]);
    }
    return d;
}

// ------------------------------------------------------------ memory access
static int findIdx(const std::vector<ObjP> &v, u64 a) {
    int lo = 0, hi = v.size();
    while (lo < hi) { int m = (lo + hi) / 2; if (v[m].p->addr <= a) lo = m + 1; else hi = m; }
    return lo - 1;
}
// object containing [a, a+n) or null
static Obj *findObj(State *s, u64 a, u64 n) {
    int i = findIdx(s->objs, a);
    if (i >= 0) { Obj *o = s->objs[i].p; if (a - o->addr <= o->size && n <= o->size - (a - o->addr)) return o; }
    i = findIdx(ROBJS, a);
    if (i >= 0) { Obj *o = ROBJS[i].p; if (a - o->addr <= o->size && n <= o->size - (a - o->addr)) return o; }
    return nullptr;
}
static Obj *writable(State *s, u64 a, u64 n) {
    int i = findIdx(s->objs, a); if (i < 0) return nullptr;
    Obj *o = s->objs[i].p; if (a - o->addr > o->size || n > o->size - (a - o->addr)) return nullptr;
    if (o->rc > 1) { Obj *c = new Obj(*o); c->rc = 0; s->objs[i] = ObjP(c); o = c; }
    return o;
}
static E byteAt(Obj *o, u64 off) {
    if (!o->s.empty() && o->s[off].e) return mkExtract(o->s[off].e, o->s[off].idx * 8, 8);
    return K(o->c[off], 8);
}
static E readObj(Obj *o, u64 off, unsigned n) {
    if (!o->s.empty()) {
        bool any = false; for (unsigned i = 0; i < n; i++) if (o->s[off + i].e) { any = true; break; }
        if (any) {
            E e0 = o->s[off].e;
            if (e0 && e0->w == n * 8) { bool all = true; for (unsigned i = 0; i < n; i++) if (o->s[off + i].e != e0 || o->s[off + i].idx != i) { all = false; break; } if (all) return e0; }
            E r = byteAt(o, off); for (unsigned i = 1; i < n; i++) r = mkConcat(byteAt(o, off + i), r);
            return r;
        }
    }
    u64 v = 0; memcpy(&v, &o->c[off], n); return K(v, n * 8);
}
static void writeObj(Obj *o, u64 off, unsigned n, E e) {
    if (isC(e)) { u64 v = e->c; memcpy(&o->c[off], &v, n); if (!o->s.empty()) for (unsigned i = 0; i < n; i++) o->s[off + i].e = nullptr; }
    else { if (o->s.empty()) o->s.assign(o->size, SByte{nullptr, 0}); for (unsigned i = 0; i < n; i++) o->s[off + i] = SByte{e, (uint8_t)i}; }
}
static void memfault(State *s, u64 a, u64 n, const char *what) {
    char b[160];
    const char *cls = a < 0x1000 ? "null pointer" : "out of bounds or freed memory";
    int i = findIdx(s->objs, a);
    if (i >= 0 && s->objs[i].p->kind != 'x' && a < s->objs[i].p->addr + s->objs[i].p->size + 4096) snprintf(b, sizeof b, "invalid %s of %llu bytes: %s (offset %llu of a %llu-byte block)", what, (unsigned long long)n, cls, (unsigned long long)(a - s->objs[i].p->addr), (unsigned long long)s->objs[i].p->size);
    else snprintf(b, sizeof b, "invalid %s of %llu bytes: %s", what, (unsigned long long)n, cls);
    violation(s, b);
}

// ------------------------------------------------------------ forking
static State *clone(State *s) { nForks++; State *n = new State(*s); n->depth++; return n; }
static void maybeSpawn();
// Make expression e concrete on this path. Other feasible values continue on a
// sibling path that re-executes the current instruction.
static u64 concretize(E e) {
    if (isC(e)) return e->c;
    u64 v = eval(e, S->model.get());
    if (known(S, e)) return v;
    E eq = mkEq(e, K(v, e->w));
    std::shared_ptr<Model> m2;
    if (satisfiable(S, mkNot(eq), &m2)) {
        State *o = clone(S); addCons(o, mkNot(eq)); o->model = m2; WORK.push_back(o);
        addCons(S, eq);
        if (e->op != VAR) { // remember in canonical form
        }
    }
    return v;
}
static E tabulate(E e);
// Decide a condition; forks when both outcomes are feasible.
static bool decide(E c, State **other = nullptr) {
    if (other) *other = nullptr;
    if (isC(c)) return c->c;
    if (c->tab) { c = tabulate(c); if (isC(c)) return c->c; }
    bool v = eval(c, S->model.get());
    if (known(S, c)) { nFixed++; return v; }
    for (E k : S->cons) { if (k == c) return true; if (isNot(k) && k->k[0] == c) return false; if (isNot(c) && c->k[0] == k) return false; }
    E neg = v ? mkNot(c) : c;
    std::shared_ptr<Model> m2;
    if (satisfiable(S, neg, &m2)) {
        State *o = clone(S); addCons(o, neg); o->model = m2; WORK.push_back(o); if (other) *other = o;
        addCons(S, v ? c : mkNot(c));
    }
    return v;
}
// ------------------------------------------------------------ intervals
static int trailing(E e);
// Signed bounds of expressions under the path condition; used to simplify
// division by constants and strided table lookups.
typedef __int128 i128;
struct Iv { i128 lo, hi; bool ok() const { return lo <= hi; } };
static i128 smin(unsigned w) { return -((i128)1 << (w - 1)); }
static i128 smax(unsigned w) { return ((i128)1 << (w - 1)) - 1; }
static bool fits(const Iv &v, unsigned w) { return v.lo >= smin(w) && v.hi <= smax(w); }
struct Bounds : std::unordered_map<const Expr *, Iv> { std::unordered_map<const Expr *, Iv> u; };   // signed; unsigned
static Iv ivOf(E e, Bounds &b, int depth = 0);
static Iv ivRaw(E e, Bounds &b, int depth) {
    unsigned w = e->w; Iv full{smin(w), smax(w)};
    if (isC(e)) { i128 v = (i128)sx(e->c, w); return {v, v}; }
    if (depth > 40) return full;
    switch (e->op) {
    case ADD: { Iv x = ivOf(e->k[0], b, depth + 1), y = ivOf(e->k[1], b, depth + 1); Iv r{x.lo + y.lo, x.hi + y.hi}; return fits(r, w) ? r : full; }
    case SUB: { Iv x = ivOf(e->k[0], b, depth + 1), y = ivOf(e->k[1], b, depth + 1); Iv r{x.lo - y.hi, x.hi - y.lo}; return fits(r, w) ? r : full; }
    case MUL: if (isC(e->k[1]) && w <= 64) { Iv x = ivOf(e->k[0], b, depth + 1); i128 c = (i128)sx(e->k[1]->c, w);
            Iv r = c >= 0 ? Iv{x.lo * c, x.hi * c} : Iv{x.hi * c, x.lo * c}; return fits(r, w) ? r : full; } return full;
    case SHL: if (isC(e->k[1]) && e->k[1]->c < w) { Iv x = ivOf(e->k[0], b, depth + 1); i128 c = (i128)1 << e->k[1]->c; Iv r{x.lo * c, x.hi * c}; return fits(r, w) ? r : full; } return full;
    case LSHR: if (isC(e->k[1]) && e->k[1]->c > 0 && e->k[1]->c < w) { Iv x = ivOf(e->k[0], b, depth + 1); if (x.lo >= 0) return {x.lo >> e->k[1]->c, x.hi >> e->k[1]->c}; return {0, ((i128)1 << (w - e->k[1]->c)) - 1}; } return full;
    case ZEXT: { unsigned w2 = e->k[0]->w; Iv x = w2 > 1 ? ivOf(e->k[0], b, depth + 1) : Iv{-1, 0}; if (x.lo >= 0) return x; Iv r{0, ((i128)1 << w2) - 1}; auto it = b.u.find(e->k[0]); if (it != b.u.end()) { r.lo = std::max(r.lo, it->second.lo); r.hi = std::min(r.hi, it->second.hi); } return r; }
    case CONCAT: { E h = e->k[0], l = e->k[1]; if (h->w < 2) return full; Iv x = ivOf(h, b, depth + 1); if (x.lo < 0) return full; return {x.lo << l->w, (x.hi << l->w) + (((i128)1 << l->w) - 1)}; }
    case SEXT: return e->k[0]->w > 1 ? ivOf(e->k[0], b, depth + 1) : Iv{-1, 0};
    case EXTRACT: if (e->c == 0 && w > 1) { Iv x = ivOf(e->k[0], b, depth + 1); if (fits(x, w)) return x; }
        else if (e->c > 0 && w > 1) { Iv x = ivOf(e->k[0], b, depth + 1); if (x.lo >= 0) { Iv r{x.lo >> e->c, x.hi >> e->c}; if (fits(r, w)) return r; } } return full;
    case AND: if (isC(e->k[1]) && sx(e->k[1]->c, w) >= 0) { Iv x = ivOf(e->k[0], b, depth + 1); return {0, x.lo >= 0 ? std::min(x.hi, (i128)e->k[1]->c) : (i128)e->k[1]->c}; } return full;
    case OR: { Iv x = ivOf(e->k[0], b, depth + 1), y = ivOf(e->k[1], b, depth + 1); if (x.lo < 0 || y.lo < 0) return full;
        for (int side = 0; side < 2; side++) { int tz = trailing(e->k[side]); Iv &o = side ? x : y; if (tz < 64 && o.hi < ((i128)1 << tz)) return {x.lo + y.lo, x.hi + y.hi}; }
        i128 m = 1; while (m <= x.hi || m <= y.hi) m <<= 1; return {std::max(x.lo, y.lo), m - 1}; }
    case TABLE: { static std::unordered_map<u64, Iv> mm; auto it = mm.find(e->c); if (it == mm.end()) { Iv r{smax(w), smin(w)}; for (u64 v : TABLES[e->c]->v) { i128 q = (i128)sx(v, w); r.lo = std::min(r.lo, q); r.hi = std::max(r.hi, q); } it = mm.emplace(e->c, r).first; } return it->second; }
    case UDIV: case SDIV: if (isC(e->k[1]) && sx(e->k[1]->c, w) > 0) { Iv x = ivOf(e->k[0], b, depth + 1); i128 c = (i128)sx(e->k[1]->c, w); if (x.lo >= 0 || e->op == SDIV) return {x.lo / c, x.hi / c}; } return full;
    case UREM: case SREM: if (isC(e->k[1]) && sx(e->k[1]->c, w) > 0) { Iv x = ivOf(e->k[0], b, depth + 1); i128 c = (i128)sx(e->k[1]->c, w);
            if (x.lo >= 0) return {0, std::min(x.hi, c - 1)}; if (e->op == SREM) return {-(c - 1), c - 1}; return {0, c - 1}; } return full;
    case ITE: { Iv x = ivOf(e->k[1], b, depth + 1), y = ivOf(e->k[2], b, depth + 1); return {std::min(x.lo, y.lo), std::max(x.hi, y.hi)}; }
    default: return full;
    }
}
static Iv ivOf(E e, Bounds &b, int depth) {
    Iv r = ivRaw(e, b, depth);
    auto it = b.find(e);
    if (it != b.end()) { r.lo = std::max(r.lo, it->second.lo); r.hi = std::min(r.hi, it->second.hi); }
    return r;
}
// e lies in v: note it, and push it down to the operands
static void ivNote(E e, Iv v, Bounds &b, int depth = 0) {
    if (isC(e) || e->w <= 1 || depth > 20) return;
    unsigned w = e->w;
    auto it = b.find(e);
    if (it == b.end()) b[e] = v; else { v.lo = std::max(v.lo, it->second.lo); v.hi = std::min(v.hi, it->second.hi); it->second = v; }
    switch (e->op) {
    case ADD: if (isC(e->k[1])) { i128 c = (i128)sx(e->k[1]->c, w); Iv x = ivOf(e->k[0], b); Iv s{x.lo + c, x.hi + c}; if (fits(s, w)) ivNote(e->k[0], {v.lo - c, v.hi - c}, b, depth + 1); } break;
    case MUL: if (isC(e->k[1]) && w <= 64) { i128 c = (i128)sx(e->k[1]->c, w); Iv x = ivOf(e->k[0], b); if (c > 0 && fits({x.lo * c, x.hi * c}, w)) {
            auto fl = [&](i128 a) { return a >= 0 ? a / c : -((-a + c - 1) / c); }; ivNote(e->k[0], {-fl(-v.lo), fl(v.hi)}, b, depth + 1); } } break;
    case SEXT: ivNote(e->k[0], v, b, depth + 1); break;
    case ZEXT: if (e->k[0]->w > 1 && v.hi <= smax(e->k[0]->w)) ivNote(e->k[0], {std::max(v.lo, (i128)0), v.hi}, b, depth + 1); break;
    case EXTRACT: if (e->c == 0) { Iv x = ivOf(e->k[0], b); if (fits(x, w)) ivNote(e->k[0], v, b, depth + 1); } break;
    default: break;
    }
}
static void ivCons(E c, bool pos, Bounds &b) {
    if (isNot(c)) { ivCons(c->k[0], !pos, b); return; }
    if (c->op == AND && pos) { ivCons(c->k[0], true, b); ivCons(c->k[1], true, b); return; }
    if (c->op == OR && !pos) { ivCons(c->k[0], false, b); ivCons(c->k[1], false, b); return; }
    auto unote = [&](E e, i128 lo, i128 hi) { auto it = b.u.find(e); if (it == b.u.end()) b.u[e] = {lo, hi}; else { it->second.lo = std::max(it->second.lo, lo); it->second.hi = std::min(it->second.hi, hi); } };
    if (c->op == INSET && pos && !SETS[c->c]->r.empty()) { auto &r = SETS[c->c]->r; E x = c->k[0]; i128 lo = r.front().first, hi = r.back().second; if (x->w > 1) { unote(x, lo, hi); if (hi <= smax(x->w)) ivNote(x, {lo, hi}, b); } return; }
    if (c->op != EQ && c->op != SLT && c->op != ULT) return;
    if (c->op != SLT && c->k[0]->w > 1 && isC(c->k[0]) != isC(c->k[1])) { E x = c->k[0], y = c->k[1]; i128 all = (i128)mask(x->w), k = (i128)(isC(x) ? x : y)->c;
        if (c->op == EQ) { if (pos) unote(isC(x) ? y : x, k, k); }
        else if (isC(y)) { if (pos) unote(x, 0, k - 1); else unote(x, k, all); }
        else { if (pos) unote(y, k + 1, all); else unote(y, 0, k); } }
    E x = c->k[0], y = c->k[1]; unsigned w = x->w; if (w <= 1) return;
    if (isC(x) == isC(y)) return;
    i128 k = (i128)sx((isC(x) ? x : y)->c, w);
    if (c->op == EQ) { if (pos) ivNote(isC(x) ? y : x, {k, k}, b); return; }
    if (c->op == SLT) {
        if (isC(y)) ivNote(x, pos ? Iv{smin(w), k - 1} : Iv{k, smax(w)}, b);
        else ivNote(y, pos ? Iv{k + 1, smax(w)} : Iv{smin(w), k}, b);
        return;
    }
    // unsigned
    if (isC(y)) { if (pos) { if (k > 0) ivNote(x, {0, k - 1}, b); } else { if (k < 0) ivNote(x, {k, -1}, b); else { Iv r = ivOf(x, b); if (r.lo >= 0) ivNote(x, {k, smax(w)}, b); } } }
    else { if (!pos) { if (k >= 0) ivNote(y, {0, k}, b); } else { if (k < 0) ivNote(y, {k + 1, -1}, b); else { Iv r = ivOf(y, b); if (r.lo >= 0) ivNote(y, {k + 1, smax(w)}, b); } } }
}
static void pathBounds(Bounds &b) { for (int pass = 0; pass < 2; pass++) for (E c : S->cons) ivCons(c, true, b); }
static bool linear(E e) {
    if (isC(e) || e->op == VAR) return true;
    switch (e->op) { case ADD: case SUB: return linear(e->k[0]) && linear(e->k[1]); case MUL: case SHL: return isC(e->k[1]) && linear(e->k[0]);
    case ZEXT: case SEXT: return linear(e->k[0]); case EXTRACT: return e->c == 0 && linear(e->k[0]); default: return false; }
}
// A function of one input that is known to lie in a small interval, as a table
// lookup (or, if it is a condition, a set membership) on that input.
static bool oneVar(E e, E &v, std::unordered_set<E> &seen) {
    if (e->op == CONST || !seen.insert(e).second) return true;
    if (seen.size() > 4000) return false;
    if (e->op == VAR) { if (v && v != e) return false; v = e; return true; }
    for (int i = 0; i < 3; i++) if (e->k[i] && !oneVar(e->k[i], v, seen)) return false;
    return true;
}
static E tabulate(E e) {
    int n = 0; for (int i = 0; i < 4; i++) n += __builtin_popcountll(e->sup.m[i]);
    if (n != 1 || e->op == AGG) return e;
    E v = nullptr; std::unordered_set<E> seen; if (!oneVar(e, v, seen) || !v || v == e || v->w < 2) return e;
    if (e->op == INSET && e->k[0] == v) return e;
    if (e->op == TABLE && (e->k[0] == v || e->k[0]->op == ADD && e->k[0]->k[0] == v && isC(e->k[0]->k[1]))) return e;
    Bounds b; for (int pass = 0; pass < 2; pass++) for (E c : S->cons) if (overlap(c->sup, v->sup)) ivCons(c, true, b);
    i128 lo = 0, hi = (i128)mask(v->w); auto u = b.u.find(v); if (u != b.u.end()) { lo = std::max(lo, u->second.lo); hi = std::min(hi, u->second.hi); }
    Iv iv = ivOf(v, b); if (iv.lo >= 0) { lo = std::max(lo, iv.lo); hi = std::min(hi, iv.hi); }
    if (lo > hi || hi - lo >= 2048) return e;
    static std::map<std::tuple<E, u64, u64>, E> cache; auto key = std::make_tuple(e, (u64)lo, (u64)hi); auto it = cache.find(key); if (it != cache.end()) return it->second;
    if (cache.size() > 200000) cache.clear();
    Model m = *S->model; size_t ix = v->c >> 8; if (m.size() <= ix) m.resize(ix + 1, 0);
    std::vector<u64> vals; bool same = true;
    for (u64 x = lo; x <= (u64)hi; x++) { m[ix] = x; modelChanged(); vals.push_back(eval(e, &m)); if (vals.back() != vals[0]) same = false; }
    modelChanged();
    E r;
    if (same) r = K(vals[0], e->w);
    else if (e->w == 1) { std::vector<std::pair<u64, u64>> rg; for (size_t i = 0; i < vals.size(); i++) if (vals[i]) { u64 x = (u64)lo + i; if (!rg.empty() && rg.back().second + 1 == x) rg.back().second = x; else rg.push_back({x, x}); } r = mkInSet(rg, v); }
    else {
        static std::map<std::pair<unsigned, std::vector<u64>>, u64> pool; auto pk = std::make_pair((unsigned)e->w, vals); auto pi = pool.find(pk); u64 id;
        if (pi != pool.end()) id = pi->second; else { Table *t = new Table; t->v = vals; id = TABLES.size(); TABLES.push_back(t); if (pool.size() > 100000) pool.clear(); pool[pk] = id; }
        r = mk(TABLE, e->w, id, mkSub(v, K((u64)lo, v->w)));
    }
    return cache[key] = r;
}
static int SPLITDIV;
static E doDiv(Op op, E a, E bE) {
    if (!isC(a) || !isC(bE)) { E e = mkDiv(op, a, bE), t = tabulate(e); if (t != e) return t; }
    if (isC(a) || !isC(bE) || a->op == ZEXT) return mkDiv(op, a, bE);
    unsigned w = a->w; i128 C = (i128)sx(bE->c, w);
    if (C <= 1 || (C & (C - 1)) == 0 && (op == UDIV || op == UREM)) return mkDiv(op, a, bE);
    Bounds b; pathBounds(b);
    Iv r = ivOf(a, b);
    if (!r.ok()) return mkDiv(op, a, bE);
    bool sgn = op == SDIV || op == SREM, rem = op == UREM || op == SREM;
    if (!sgn && r.lo < 0) return mkDiv(op, a, bE);
    // a = x * (C * m) + y with 0 <= y < C
    if (a->op == ADD) for (int side = 0; side < 2; side++) {
        E mx = a->k[side], y = a->k[1 - side];
        if (mx->op != MUL || !isC(mx->k[1])) continue;
        i128 M = (i128)sx(mx->k[1]->c, w); if (M <= 0 || M % C) continue;
        Iv iy = ivOf(y, b), ix = ivOf(mx->k[0], b);
        if (iy.lo < 0 || iy.hi >= C || !fits({ix.lo * M, ix.hi * M}, w) || !fits({ix.lo * M + iy.lo, ix.hi * M + iy.hi}, w)) continue;
        E q = mkMul(mx->k[0], K((u64)(M / C), w));
        if (ix.lo >= 0) return rem ? y : q;
        if (!sgn) continue;
        if (ix.hi >= 0) { decide(mkSlt(mx->k[0], K(0, w))); return doDiv(op, a, bE); }
        if (decide(mkEq(y, K(0, w)))) return rem ? K(0, w) : q;
        return rem ? mkSub(y, K((u64)C, w)) : mkAdd(q, K(1, w));
    }
    i128 ql = r.lo / C, qh = r.hi / C;
    if (ql == qh) return rem ? mkSub(a, K((u64)(ql * C), w)) : K((u64)ql, w);
    if (SPLITDIV && qh - ql < SPLITDIV && linear(a)) {
        i128 v = (i128)sx(eval(a, S->model.get()), w) / C;
        i128 lo = v > 0 ? v * C : v == 0 ? -(C - 1) : v * C - (C - 1), hi = v >= 0 ? v * C + C - 1 : v * C;
        if (lo > r.lo) decide(mkSlt(a, K((u64)lo, w)));
        if (hi < r.hi) decide(mkSlt(K((u64)hi, w), a));
        Bounds b2; pathBounds(b2); Iv r2 = ivOf(a, b2);
        if (r2.ok() && r2.lo / C == v && r2.hi / C == v) return rem ? mkSub(a, K((u64)(v * C), w)) : K((u64)v, w);
    }
    if (r.lo >= 0 || r.hi <= 0) {
        // a = base + t (or base - t) with base a multiple of C: divide the narrower t
        bool ng = r.lo < 0;
        i128 kq = ng ? -((-r.hi) / C) : r.lo / C, base = kq * C, top = ng ? base - r.lo : r.hi - base;
        unsigned k = 2; while (((i128)1 << k) <= top || ((i128)1 << k) <= C) k++;
        if (k < w) {
            E t = mkExtract(ng ? mkSub(K((u64)base, w), a) : mkSub(a, K((u64)base, w)), 0, k);
            E d = mkZext(mkDiv(rem ? UREM : UDIV, t, K((u64)C, k)), w);
            if (rem) return ng ? mkSub(K(0, w), d) : d;
            return ng ? mkSub(K((u64)kq, w), d) : mkAdd(K((u64)kq, w), d);
        }
        if (sgn && !ng) return mkDiv(rem ? UREM : UDIV, a, bE);
    }
    return mkDiv(op, a, bE);
}
static int trailing(E e) {
    if (isC(e)) return e->c ? __builtin_ctzll(e->c) : 64;
    switch (e->op) {
    case SHL: return isC(e->k[1]) ? trailing(e->k[0]) + (int)e->k[1]->c : 0;
    case ADD: case OR: case SUB: return std::min(trailing(e->k[0]), trailing(e->k[1]));
    case MUL: return trailing(e->k[0]) + trailing(e->k[1]);
    case ZEXT: case SEXT: return trailing(e->k[0]);
    default: return 0;
    }
}
static E doLoad(E a, unsigned n, bool isPtr) {
    if (isC(a)) { Obj *o = findObj(S, a->c, n); if (!o) memfault(S, a->c, n, "read"); return readObj(o, a->c - o->addr, n); }
    u64 v = eval(a, S->model.get());
    Obj *o = findObj(S, v, n);
    if (!o) memfault(S, v, n, "read");
    bool plain = o->s.empty() || std::all_of(o->s.begin(), o->s.end(), [](const SByte &b) { return !b.e; });
    if (!isPtr && plain && o->size >= n && o->size <= (o->ro ? 32u << 20 : 65536) && !known(S, a)) {
        // table lookup over a concrete array
        E off = mkSub(a, K(o->addr, 64));
        decide(mkUle(off, K(o->size - n, 64)));    // siblings fall outside this object
        if (known(S, a)) { u64 vv = eval(a, S->model.get()); return readObj(o, vv - o->addr, n); }
        // off = var * 2^k + phase: read only every 2^k-th place
        E var = off; u64 phase = 0;
        {   // stride that is no power of two
            E lin = off; u64 c = 0; if (off->op == ADD && isC(off->k[1])) { lin = off->k[0]; c = off->k[1]->c; }
            u64 m = 0; E x = nullptr;
            if (lin->op == MUL && isC(lin->k[1])) { m = lin->k[1]->c; x = lin->k[0]; }
            if (m >= n && m < 4096 && (m & (m - 1)) && (i64)c > -(i64)65536 && (i64)c < 65536) {
                Bounds bs; pathBounds(bs); Iv iv = ivOf(x, bs);
                i64 sh = (i64)c >= 0 ? (i64)(c / m) : -(i64)((-(i64)c + m - 1) / m); u64 ph = c - sh * m;   // off = (x + sh) * m + ph
                if (iv.ok() && iv.lo + sh >= 0 && (iv.hi + sh) * (i128)m + ph + n <= o->size + (i128)m * 4096) {
                    Table *t = new Table; for (u64 p = ph; p + n <= o->size; p += m) { u64 q = 0; memcpy(&q, &o->c[p], n); t->v.push_back(q); }
                    static std::map<std::tuple<u64, unsigned, u64, u64>, u64> cache2;
                    auto key = std::make_tuple(o->addr, n, m, ph); u64 tid;
                    if (o->ro && cache2.count(key)) { tid = cache2[key]; delete t; } else { tid = TABLES.size(); TABLES.push_back(t); if (o->ro) cache2[key] = tid; }
                    return mk(TABLE, n * 8, tid, mkAdd(x, K((u64)sh, 64)));
                }
            }
        }
        if (off->op == ADD && isC(off->k[1])) { var = off->k[0]; phase = off->k[1]->c; }
        int tz = std::min(trailing(var), 12); u64 stride = 1ULL << tz;
        if (phase >= stride) { if (phase & (1ULL << 63)) { stride = 1; phase = 0; var = off; } else { var = off; phase &= stride - 1; if (phase) var = mkSub(off, K(phase, 64)); } }
        if (stride < n && n > 1) { u64 cv = concretize(a); return readObj(o, cv - o->addr, n); }
        static std::map<std::tuple<u64, unsigned, u64, u64>, u64> cache;   // read-only objects only
        u64 tid;
        if ((o->size - phase) / stride > 1024) {      // big: only the part that can be reached
            E ix = stride == 1 ? var : mkLshr(var, K(tz, 64)); u64 cnt = o->size < phase + n ? 0 : (o->size - phase - n) / stride + 1;
            Bounds bs; pathBounds(bs); Iv iv = ivOf(ix, bs);
            if (iv.ok() && iv.lo >= 0 && iv.hi < cnt && iv.hi - iv.lo + 1 < cnt) {
                static std::map<std::tuple<u64, unsigned, u64, u64, u64, u64>, u64> cache3;
                auto k3 = std::make_tuple(o->addr, n, stride, phase, (u64)iv.lo, (u64)iv.hi);
                if (o->ro && cache3.count(k3)) tid = cache3[k3];
                else { Table *t = new Table; for (u64 i = iv.lo; i <= (u64)iv.hi; i++) { u64 q = 0; memcpy(&q, &o->c[phase + i * stride], n); t->v.push_back(q); }
                    tid = TABLES.size(); TABLES.push_back(t); if (o->ro) cache3[k3] = tid; }
                auto &tv = TABLES[tid]->v; bool same = true; for (u64 q : tv) if (q != tv[0]) { same = false; break; }
                if (same) return K(tv[0], n * 8);
                return mk(TABLE, n * 8, tid, mkSub(ix, K((u64)iv.lo, 64)));
            }
        }
        auto key = std::make_tuple(o->addr, n, stride, phase);
        if (o->ro && cache.count(key)) tid = cache[key];
        else {
            Table *t = new Table; for (u64 p = phase; p + n <= o->size; p += stride) { u64 q = 0; memcpy(&q, &o->c[p], n); t->v.push_back(q); }
            tid = TABLES.size(); TABLES.push_back(t);
            if (o->ro) cache[key] = tid;
        }
        E ix = stride == 1 ? var : mkLshr(var, K(tz, 64));
        E r = mk(TABLE, n * 8, tid, ix);
        return ix->tab ? tabulate(r) : r;
    }
    u64 cv = concretize(a); o = findObj(S, cv, n); if (!o) memfault(S, cv, n, "read");
    return readObj(o, cv - o->addr, n);
}
static void doStore(E a, unsigned n, E v) {
    u64 cv = concretize(a); Obj *o = writable(S, cv, n);
    if (!o) memfault(S, cv, n, "write");
    writeObj(o, cv - o->addr, n, v);
}
static u64 newBlock(State *s, u64 size, char kind, int fill) {
    Obj *o = newObj(s->next, size, kind); if (fill) memset(o->c.data(), fill, size);
    s->objs.push_back(ObjP(o)); u64 a = s->next;
    s->next += ((size + 15) & ~15ULL) + 256; return a;
}
static void eraseAt(State *s, int i) {
    if (i + 1 == (int)s->objs.size()) { s->objs.pop_back(); return; }
    u64 a = s->objs[i].p->addr; s->objs[i] = ObjP(newObj(a, 0, 'x'));
    if (++s->dead > 64 && s->dead > s->objs.size() / 2) {
        s->objs.erase(std::remove_if(s->objs.begin(), s->objs.end(), [](const ObjP &o) { return o.p->kind == 'x'; }), s->objs.end());
        s->dead = 0;
    }
}
static void eraseObj(State *s, u64 a) { int i = findIdx(s->objs, a); if (i < 0 || s->objs[i].p->addr != a || s->objs[i].p->kind == 'x') fatal("internal: erase"); eraseAt(s, i); }
static std::string cstr(u64 a) { std::string r; for (;; a++) { Obj *o = findObj(S, a, 1); if (!o) memfault(S, a, 1, "read"); E b = readObj(o, a - o->addr, 1); u64 c = concretize(b); if (!c) return r; r += (char)c; } }

// ------------------------------------------------------------ external functions
typedef std::vector<E> Args;
static E extRet; static bool extVoid;
static bool callExternal(const std::string &n, Args &A, DInst &x) {
    extRet = nullptr;
    auto W = [&](u64 v) { extRet = K(v, x.w ? x.w : 64); return true; };
    if (n == "vp_sym") {      // uint64_t vp_sym(unsigned bits, const char *name)
        unsigned w = concretize(A[0]); std::string nm = cstr(concretize(A[1]));
        E v = mkVar(S->vars.size(), w); S->vars.push_back({v, nm});
        if (S->vars.size() > 256) S->bigvars = true;
        extRet = mkZext(v, 64); return true; }
    if (n == "vp_assume_") {
        E c = mkNot(mkEq(A[0], K(0, A[0]->w)));
        if (isC(c)) { if (!c->c) { nAssumeCut++; return false; } return true; }
        if (eval(c, S->model.get())) { if (!known(S, c)) addCons(S, c); return true; }
        if (known(S, c)) { nAssumeCut++; return false; }
        std::shared_ptr<Model> m; if (!satisfiable(S, c, &m)) { nAssumeCut++; return false; }
        S->model = m; addCons(S, c); return true; }
    if (n == "vp_assert_") {  // (int cond, const char *msg)
        nAsserts++;
        E c = mkNot(mkEq(A[0], K(0, A[0]->w)));
        if (isC(c) && c->c) return true;
        std::string msg = cstr(concretize(A[1]));
        if (!eval(c, S->model.get())) violation(S, "assertion: " + msg);
        if (isC(c)) violation(S, "assertion: " + msg);
        if (known(S, c)) return true;
        std::shared_ptr<Model> m;
        if (satisfiable(S, mkNot(c), &m)) { S->model = m; violation(S, "assertion: " + msg); }
        return true; }
    if (n == "vp_cover_") { std::string l = cstr(concretize(A[0])); if (!COVERS.count(l)) COVERS[l] = valuesOf(S); return true; }
    if (n == "vp_urem") { int k = SPLITDIV; SPLITDIV = 0; extRet = doDiv(UREM, A[0], A[1]); SPLITDIV = k; return true; }
    if (n == "vp_concrete") { u64 v = concretize(A[0]); extRet = K(v, 64); return true; }   // uint64_t vp_concrete(uint64_t)
    if (n == "vp_is_symbolic") return W(!isC(A[0]));
    if (n == "abort" || n == "__assert_fail" || n == "llvm.trap" || n == "llvm.ubsantrap" || n == "__assert") violation(S, n == "__assert_fail" ? "assertion inside the library failed: " + cstr(concretize(A[0])) : "abort() called");
    if (n == "exit" || n == "_exit") { violation(S, "exit() called"); }
    if (n == "malloc" || n == "vp_malloc") {
        u64 sz = concretize(A[0]); if (sz > (64u << 20)) return W(0);
        return W(newBlock(S, sz, 'h', 0xbe)); }
    if (n == "calloc") { u64 a = concretize(A[0]), b = concretize(A[1]); if (b && a > (64u << 20) / b) return W(0); return W(newBlock(S, a * b, 'h', 0)); }
    if (n == "free" || n == "vp_free") {
        u64 a = concretize(A[0]); if (!a) return true;
        int i = findIdx(S->objs, a);
        if (i < 0 || S->objs[i].p->addr != a || S->objs[i].p->kind != 'h') violation(S, "invalid or double free");
        eraseAt(S, i); return true; }
    if (n == "realloc" || n == "vp_realloc") {
        u64 a = concretize(A[0]), sz = concretize(A[1]);
        if (!a) { if (sz > (64u << 20)) return W(0); return W(newBlock(S, sz, 'h', 0xbe)); }
        int i = findIdx(S->objs, a);
        if (i < 0 || S->objs[i].p->addr != a || S->objs[i].p->kind != 'h') violation(S, "realloc of an invalid pointer");
        if (!sz) { eraseAt(S, i); return W(0); }
        if (sz > (64u << 20)) return W(0);
        ObjP old = S->objs[i]; u64 na = newBlock(S, sz, 'h', 0xbe); Obj *o = S->objs.back().p;
        u64 k = std::min(sz, old->size); memcpy(o->c.data(), old->c.data(), k);
        if (!old->s.empty()) { o->s.assign(sz, SByte{nullptr, 0}); std::copy(old->s.begin(), old->s.begin() + k, o->s.begin()); }
        eraseObj(S, a); return W(na); }
    if (n == "malloc_usable_size") { u64 a = concretize(A[0]); if (!a) return W(0); Obj *o = findObj(S, a, 0); return W(o ? o->size : 0); }
    bool mv = n.compare(0, 12, "llvm.memmove") == 0 || n == "memmove", cp = n.compare(0, 11, "llvm.memcpy") == 0 || n == "memcpy" || n == "__memcpy_chk" || n == "__memmove_chk" || n == "mempcpy";
    if (mv || cp) {
        u64 len = concretize(A[2]), d = concretize(A[0]), s = concretize(A[1]);
        extRet = n == "mempcpy" ? K(d + len, 64) : K(d, 64);
        if (!len) return true;
        Obj *so = findObj(S, s, len); if (!so) memfault(S, s, len, "read (memory copy)");
        if (cp && d < s + len && s < d + len && d != s) violation(S, "memcpy of overlapping blocks");
        u64 soff = s - so->addr;
        std::vector<uint8_t> c(so->c.begin() + soff, so->c.begin() + soff + len); std::vector<SByte> sb;
        if (!so->s.empty()) sb.assign(so->s.begin() + soff, so->s.begin() + soff + len);
        Obj *o = writable(S, d, len); if (!o) memfault(S, d, len, "write (memory copy)");
        u64 off = d - o->addr; memcpy(&o->c[off], c.data(), len);
        if (!sb.empty()) { if (o->s.empty()) o->s.assign(o->size, SByte{nullptr, 0}); std::copy(sb.begin(), sb.end(), o->s.begin() + off); }
        else if (!o->s.empty()) for (u64 i = 0; i < len; i++) o->s[off + i].e = nullptr;
        return true; }
    if (n.compare(0, 11, "llvm.memset") == 0 || n == "memset" || n == "__memset_chk") {
        u64 len = concretize(A[2]), d = concretize(A[0]); extRet = K(d, 64); if (!len) return true;
        E v = A[1]->w > 8 ? mkExtract(A[1], 0, 8) : A[1];
        Obj *o = writable(S, d, len); if (!o) memfault(S, d, len, "write (memory set)");
        for (u64 i = 0; i < len; i++) writeObj(o, d - o->addr + i, 1, v);
        return true; }
    auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
    if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.va_end") || pre("llvm.stackrestore") || pre("llvm.assume") || pre("llvm.experimental.noalias") || pre("llvm.donothing") || pre("llvm.prefetch")) return true;
    if (pre("llvm.va_start")) {           // the x86-64 va_list; integer and pointer arguments only
        Frame &f = S->st.back(); u64 named = f.f->argslots.size(), nva = f.va.size();
        u64 regs = newBlock(S, 176, 's', 0xbe), over = newBlock(S, nva * 8 + 8, 's', 0xbe);
        S->st.back().allocas.push_back(regs); S->st.back().allocas.push_back(over);
        u64 slot = named, ov = 0;
        for (size_t i = 0; i < nva; i++) { E v = S->st.back().va[i]; if (!v) fatal("unsupported variadic argument"); if (v->w < 64) v = mkZext(v, 64);
            if (slot < 6) doStore(K(regs + 8 * slot++, 64), 8, v); else { doStore(K(over + 8 * ov++, 64), 8, v); } }
        doStore(A[0], 4, K(std::min<u64>(named, 6) * 8, 32)); doStore(mkAdd(A[0], K(4, 64)), 4, K(48, 32));
        doStore(mkAdd(A[0], K(8, 64)), 8, K(over, 64)); doStore(mkAdd(A[0], K(16, 64)), 8, K(regs, 64)); return true; }
    if (pre("llvm.va_copy")) {
        for (u64 i = 0; i < 24; i += 8) doStore(mkAdd(A[0], K(i, 64)), 8, doLoad(mkAdd(A[1], K(i, 64)), 8, i > 0));
        return true; }
    if (pre("llvm.stacksave")) return W(0);
    if (pre("llvm.expect")) { extRet = A[0]; return true; }
    if (pre("llvm.objectsize")) return W(~0ULL);
    if (pre("llvm.is.constant")) return W(isC(A[0]));
    if (pre("llvm.umin")) { extRet = mkIte(mkUlt(A[0], A[1]), A[0], A[1]); return true; }
    if (pre("llvm.umax")) { extRet = mkIte(mkUlt(A[0], A[1]), A[1], A[0]); return true; }
    if (pre("llvm.smin")) { extRet = mkIte(mkSlt(A[0], A[1]), A[0], A[1]); return true; }
    if (pre("llvm.smax")) { extRet = mkIte(mkSlt(A[0], A[1]), A[1], A[0]); return true; }
    if (pre("llvm.abs")) { extRet = mkIte(mkSlt(A[0], K(0, A[0]->w)), mkSub(K(0, A[0]->w), A[0]), A[0]); return true; }
    if (pre("llvm.usub.sat")) { extRet = mkIte(mkUlt(A[0], A[1]), K(0, A[0]->w), mkSub(A[0], A[1])); return true; }
    if (pre("llvm.uadd.sat")) { E t = mkAdd(A[0], A[1]); extRet = mkIte(mkUlt(t, A[0]), K(~0ULL, A[0]->w), t); return true; }
    if (pre("llvm.cttz")) { unsigned w = A[0]->w; E r = K(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(mkExtract(A[0], i, 1), K(i, w), r); extRet = r; return true; }
    if (pre("llvm.ctlz")) { unsigned w = A[0]->w; E r = K(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(mkExtract(A[0], i, 1), K(w - 1 - i, w), r); extRet = r; return true; }
    if (pre("llvm.ctpop")) { unsigned w = A[0]->w; E r = K(0, w); for (unsigned i = 0; i < w; i++) r = mkAdd(r, mkZext(mkExtract(A[0], i, 1), w)); extRet = r; return true; }
    if (pre("llvm.bswap")) { unsigned w = A[0]->w; E r = mkExtract(A[0], 0, 8); for (unsigned i = 8; i < w; i += 8) r = mkConcat(r, mkExtract(A[0], i, 8)); extRet = r; return true; }
    if (pre("llvm.fshl") || pre("llvm.fshr")) { unsigned w = A[0]->w; E sh = mkDiv(UREM, A[2], K(w, w)); E inv = mkSub(K(w, w), sh);
        E z = mkEq(sh, K(0, w));
        if (n[8] == 'l') extRet = mkIte(z, A[0], mkOr(mkShl(A[0], sh), mkLshr(A[1], inv))); else extRet = mkIte(z, A[1], mkOr(mkLshr(A[1], sh), mkShl(A[0], inv)));
        return true; }
    if (n.find(".with.overflow") != std::string::npos) {
        E a = A[0], b = A[1], r, o; unsigned w = a->w;
        if (pre("llvm.uadd")) { r = mkAdd(a, b); o = mkUlt(r, a); }
        else if (pre("llvm.usub")) { r = mkSub(a, b); o = mkUlt(a, b); }
        else if (pre("llvm.umul")) { r = mkMul(a, b); o = mkMulO(UMULO, a, b); }
        else if (pre("llvm.smul")) { r = mkMul(a, b); o = mkMulO(SMULO, a, b); }
        else { bool sub = pre("llvm.ssub"); r = sub ? mkSub(a, b) : mkAdd(a, b); E z = K(0, w);
            E sa = mkSlt(a, z), sb = mkSlt(b, z), sr = mkSlt(r, z);
            if (sub) sb = mkNot(sb);
            o = mkAnd(mkNot(mkXor(sa, sb)), mkXor(sa, sr)); }
        extRet = mkAgg({r, o}); return true; }
    if (n == "snprintf" || n == "sprintf") {
        size_t ai = n == "sprintf" ? 1 : 2; u64 d = concretize(A[0]), sz = n == "sprintf" ? ~0ULL : concretize(A[1]);
        std::string f = cstr(concretize(A[ai++])); std::vector<E> out; char b[64];
        for (size_t i = 0; i < f.size(); i++) {
            if (f[i] != '%') { out.push_back(K((uint8_t)f[i], 8)); continue; }
            std::string sp = "%"; i++;
            while (i < f.size() && (isdigit(f[i]) || strchr("-+ #.lhzjt", f[i]))) sp += f[i++];
            char cv = f[i]; std::string len; std::string flags; for (char ch : sp.substr(1)) if (strchr("lhzjt", ch)) len += ch; else flags += ch;
            if (cv == '%') { out.push_back(K('%', 8)); continue; }
            if (ai >= A.size()) fatal("snprintf: too few arguments");
            E a = A[ai++];
            if (cv == 'c' && flags.empty()) { out.push_back(mkExtract(a, 0, 8)); continue; }
            if (cv == 's' && flags.empty()) { std::string t = cstr(concretize(a)); for (char ch : t) out.push_back(K((uint8_t)ch, 8)); continue; }
            if (strchr("diuxXo", cv)) { u64 v = concretize(a); long long q = (cv == 'd' || cv == 'i') ? sx(v, a->w) : (long long)v;
                if (len == "hh") q = (cv == 'd' || cv == 'i') ? (signed char)q : (unsigned char)q; else if (len == "h") q = (cv == 'd' || cv == 'i') ? (short)q : (unsigned short)q;
                snprintf(b, sizeof b, ("%" + flags + "ll" + cv).c_str(), q); for (char *p = b; *p; p++) out.push_back(K((uint8_t)*p, 8)); continue; }
            fatal("snprintf: unsupported conversion in " + f);
        }
        for (u64 i = 0; sz && i <= out.size(); i++) { bool last = i == out.size() || i == sz - 1;
            Obj *o = writable(S, d + i, 1); if (!o) memfault(S, d + i, 1, "write (snprintf)");
            writeObj(o, d + i - o->addr, 1, last ? K(0, 8) : out[i]); if (last) break; }
        return W(out.size()); }
    if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fputs") return W(0);
    fatal("call of unmodelled function " + n); return false;
}

// ------------------------------------------------------------ interpreter
static E val(Frame &f, const Operand &o) { if (o.slot >= 0) return f.regs[o.slot]; if (!o.c) fatal("unsupported operand"); return o.c; }
static void gotoBlock(Frame &f, int b) {
    DBlock &db = f.f->blocks[b];
    if (!db.phis.empty()) { auto it = db.phis.find(f.block);
        if (it != db.phis.end()) { std::vector<E> t; t.reserve(it->second.size()); for (auto &p : it->second) t.push_back(val(f, p.second)); size_t i = 0; for (auto &p : it->second) f.regs[p.first] = t[i++]; } }
    f.block = b; f.pc = db.first;
}
static void pushFrame(State *s, DFunc *d, const Args &a) {
    if (s->st.size() > 3000) violation(s, "runaway recursion");
    Frame f; f.f = d; f.block = 0; f.pc = 0; f.regs.assign(d->nslots, nullptr);
    for (size_t i = 0; i < d->argslots.size(); i++) { if (i >= a.size()) fatal("too few arguments in call of " + d->F->getName().str());
        E v = a[i]; unsigned w = widthOf(d->F->getArg(i)->getType()); if (w && w <= 64 && v->w != w && v->op != AGG) v = v->w > w ? mkExtract(v, 0, w) : mkZext(v, w);
        f.regs[d->argslots[i]] = v; }
    if (d->F->isVarArg()) for (size_t i = d->argslots.size(); i < a.size(); i++) f.va.push_back(a[i]);
    s->st.push_back(std::move(f));
    FUNCS[d->F->getName().str()]++;
}

// run S until it ends; true when it completed normally
static void runState() {
    for (;;) {
        if ((++nInst & 1023) == 0) { if (SH->stop) return; if (now() - T0 > TIMEOUT) { ERRORS.push_back("time limit"); SH->incomplete = 1; SH->stop = 1; return; } }
        if (++S->inst > MAXINST) violation(S, "no termination within the instruction limit");
        Frame &f = S->st.back(); DInst &x = f.f->code[f.pc];
        switch (x.op) {
        case Instruction::Ret: {
            E r = x.ops.empty() ? nullptr : val(f, x.ops[0]);
            for (u64 a : f.allocas) eraseObj(S, a);
            S->st.pop_back();
            if (S->st.empty()) { nPaths++; if ((int)SAMPLES.size() < NSAMPLES) SAMPLES.push_back(valuesOf(S)); return; }
            Frame &g = S->st.back(); DInst &c = g.f->code[g.pc];
            if (c.dst >= 0 && r) { if (c.w && c.w <= 64 && r->op != AGG && r->w != c.w) r = r->w > c.w ? mkExtract(r, 0, c.w) : mkZext(r, c.w); g.regs[c.dst] = r; }
            g.pc++; continue; }
        case Instruction::Br: {
            if (x.ops.empty()) { gotoBlock(f, x.succ[0]); continue; }
            E c = val(f, x.ops[0]); State *o; 
            bool v = decide(c, &o);
            if (o) { Frame &of = o->st.back(); gotoBlock(of, x.succ[v ? 1 : 0]); maybeSpawn(); }
            gotoBlock(S->st.back(), x.succ[v ? 0 : 1]); continue; }
        case Instruction::Switch: {
            E c = val(f, x.ops[0]);
            auto tgt = [&](u64 v) { auto it = x.swmap.find(v); return it == x.swmap.end() ? x.swdef : it->second; };
            u64 cv = eval(c, S->model.get()); int t = tgt(cv);
            if (isC(c) || known(S, c)) { gotoBlock(f, t); continue; }
            if (x.sw.empty()) { gotoBlock(f, t); continue; }
            Bounds bs; pathBounds(bs); Iv iv = ivOf(c, bs);
            if (x.tabX >= 0 && (!x.tabDefOp || x.tabW == c->w) && iv.ok() && iv.lo >= 0 && iv.hi - iv.lo < (1 << 21)) {
                static std::map<std::tuple<const Instruction *, u64, u64>, std::pair<u64, bool>> cache;
                auto key = std::make_tuple(x.I, (u64)iv.lo, (u64)iv.hi); auto it = cache.find(key);
                if (it == cache.end()) {
                    Table *tb = new Table; u64 n = iv.hi - iv.lo + 1; tb->v.resize(n);
                    for (u64 i = 0; i < n; i++) tb->v[i] = (x.tabDefOp ? (u64)iv.lo + i : x.tabDef) & mask(x.tabW);
                    for (auto &p : x.tabVals) if (p.first >= (u64)iv.lo && p.first <= (u64)iv.hi) tb->v[p.first - (u64)iv.lo] = p.second;
                    bool same = true; for (u64 q : tb->v) if (q != tb->v[0]) { same = false; break; }
                    TABLES.push_back(tb); it = cache.emplace(key, std::make_pair(TABLES.size() - 1, same)).first;
                }
                E r = it->second.second ? K(TABLES[it->second.first]->v[0], x.tabW) : mk(TABLE, x.tabW, it->second.first, mkSub(c, K((u64)iv.lo, c->w)));
                f.regs[x.tabPhi] = r; f.block = x.tabX; f.pc = f.f->blocks[x.tabX].first; continue;
            }
            auto condOf = [&](int t) -> E { if (t == x.swdef) { std::vector<std::pair<u64, u64>> all; for (auto &s : x.sw) all.insert(all.end(), s.ranges.begin(), s.ranges.end());
                    std::sort(all.begin(), all.end()); std::vector<std::pair<u64, u64>> mg; for (auto &r : all) if (!mg.empty() && mg.back().second + 1 == r.first) mg.back().second = r.second; else mg.push_back(r);
                    return mkNot(mkInSet(mg, c)); }
                for (auto &s : x.sw) if (s.target == t) return mkInSet(s.ranges, c); return K(0, 1); };
            E mine = condOf(t); E rest = mkNot(mine); std::vector<State *> others;
            if (x.sw.size() > 12) {
                std::vector<int> ts; ts.push_back(x.swdef); for (auto &s : x.sw) ts.push_back(s.target);
                for (int t2 : ts) { if (t2 == t) continue;
                    if (t2 != x.swdef && iv.ok()) { bool any = false; for (auto &s : x.sw) if (s.target == t2) { for (auto &r : s.ranges) { i128 lo = sx(r.first, c->w), hi = sx(r.second, c->w); if (lo > hi || (lo <= iv.hi && hi >= iv.lo)) { any = true; break; } } break; } if (!any) continue; }
                    E c2 = condOf(t2); std::shared_ptr<Model> m2; if (!satisfiable(S, c2, &m2)) continue;
                    State *o = clone(S); addCons(o, c2); o->model = m2; gotoBlock(o->st.back(), t2); others.push_back(o); }
            } else for (;;) { std::shared_ptr<Model> m2; if (!satisfiable(S, rest, &m2)) break;
                int t2 = tgt(eval(c, m2.get())); E c2 = condOf(t2);
                State *o = clone(S); addCons(o, c2); o->model = m2; gotoBlock(o->st.back(), t2); others.push_back(o);
                rest = mkAnd(rest, mkNot(c2)); }
            if (!others.empty()) addCons(S, mine);
            gotoBlock(f, t);
            for (auto o : others) WORK.push_back(o);
            if (!others.empty()) maybeSpawn();
            continue; }
        case Instruction::Unreachable: violation(S, "unreachable code reached (undefined behaviour)"); return;
        case Instruction::Alloca: { auto *AI = cast<AllocaInst>(x.I); u64 n = concretize(val(f, x.ops[0])); u64 sz = DL->getTypeAllocSize(AI->getAllocatedType()) * n;
            if (sz > (64u << 20)) violation(S, "huge stack allocation");
            u64 a = newBlock(S, sz, 's', 0xbe); Frame &g = S->st.back(); g.allocas.push_back(a); g.regs[x.dst] = K(a, 64); g.pc++; continue; }
        case Instruction::Load: { 
            Type *T = x.I->getType(); if (x.w == 0 || x.w == 255) fatal("load of unsupported type");
            unsigned n = (x.w + 7) / 8; E r = doLoad(val(f, x.ops[0]), n, T->isPointerTy());
            if (r->w != x.w) r = mkExtract(r, 0, x.w);
            Frame &g = S->st.back(); g.regs[x.dst] = r; g.pc++; continue; }
        case Instruction::Store: {
            E v = val(f, x.ops[0]); if (v->op == AGG) fatal("store of an aggregate");
            unsigned n = (v->w + 7) / 8; if (v->w != n * 8) v = mkZext(v, n * 8);
            doStore(val(f, x.ops[1]), n, v); S->st.back().pc++; continue; }
        case Instruction::GetElementPtr: {
            E a = mkAdd(val(f, x.ops[0]), K(x.gepc, 64));
            for (auto &p : x.gepv) { E i = val(f, p.first); if (i->w < 64) i = mkSext(i, 64); a = mkAdd(a, mkMul(i, K(p.second, 64))); }
            f.regs[x.dst] = a; f.pc++; continue; }
        case Instruction::Add: f.regs[x.dst] = mkAdd(val(f, x.ops[0]), val(f, x.ops[1])); f.pc++; continue;
        case Instruction::Sub: f.regs[x.dst] = mkSub(val(f, x.ops[0]), val(f, x.ops[1])); f.pc++; continue;
        case Instruction::Mul: f.regs[x.dst] = mkMul(val(f, x.ops[0]), val(f, x.ops[1])); f.pc++; continue;
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
            E a = val(f, x.ops[0]), b = val(f, x.ops[1]);
            if (!isC(b) || !b->c) { E z = mkEq(b, K(0, b->w)); std::shared_ptr<Model> m; if (isC(z) ? z->c : satisfiable(S, z, &m)) { if (m) S->model = m; violation(S, "division by zero"); } }
            Op o = x.op == Instruction::UDiv ? UDIV : x.op == Instruction::SDiv ? SDIV : x.op == Instruction::URem ? UREM : SREM;
            E q = doDiv(o, a, b); S->st.back().regs[x.dst] = q; S->st.back().pc++; continue; }
        case Instruction::And: f.regs[x.dst] = mkAnd(val(f, x.ops[0]), val(f, x.ops[1])); f.pc++; continue;
        case Instruction::Or: f.regs[x.dst] = mkOr(val(f, x.ops[0]), val(f, x.ops[1])); f.pc++; continue;
        case Instruction::Xor: f.regs[x.dst] = mkXor(val(f, x.ops[0]), val(f, x.ops[1])); f.pc++; continue;
        case Instruction::Shl: f.regs[x.dst] = mkShl(val(f, x.ops[0]), val(f, x.ops[1])); f.pc++; continue;
        case Instruction::LShr: f.regs[x.dst] = mkLshr(val(f, x.ops[0]), val(f, x.ops[1])); f.pc++; continue;
        case Instruction::AShr: f.regs[x.dst] = mkAshr(val(f, x.ops[0]), val(f, x.ops[1])); f.pc++; continue;
        case Instruction::ICmp: {
            E a = val(f, x.ops[0]), b = val(f, x.ops[1]), r;
            switch (cast<ICmpInst>(x.I)->getPredicate()) {
            case CmpInst::ICMP_EQ: r = mkEq(a, b); break; case CmpInst::ICMP_NE: r = mkNot(mkEq(a, b)); break;
            case CmpInst::ICMP_ULT: r = mkUlt(a, b); break; case CmpInst::ICMP_UGT: r = mkUlt(b, a); break;
            case CmpInst::ICMP_ULE: r = mkUle(a, b); break; case CmpInst::ICMP_UGE: r = mkUle(b, a); break;
            case CmpInst::ICMP_SLT: r = mkSlt(a, b); break; case CmpInst::ICMP_SGT: r = mkSlt(b, a); break;
            case CmpInst::ICMP_SLE: r = mkSle(a, b); break; default: r = mkSle(b, a); break; }
            f.regs[x.dst] = r; f.pc++; continue; }
        case Instruction::Select: {
            E c = val(f, x.ops[0]); E a = val(f, x.ops[1]), b = val(f, x.ops[2]);
            if (!isC(c) && a != b && x.I->getType()->isPointerTy()) { // pointers stay concrete
                State *o; bool v = decide(c, &o); if (o) { Frame &of = o->st.back(); of.regs[x.dst] = v ? b : a; of.pc++; }
                Frame &g = S->st.back(); g.regs[x.dst] = v ? a : b; g.pc++; if (o) maybeSpawn(); continue; }
            f.regs[x.dst] = mkIte(c, a, b); f.pc++; continue; }
        case Instruction::Trunc: f.regs[x.dst] = mkExtract(val(f, x.ops[0]), 0, x.w); f.pc++; continue;
        case Instruction::ZExt: f.regs[x.dst] = mkZext(val(f, x.ops[0]), x.w); f.pc++; continue;
        case Instruction::SExt: f.regs[x.dst] = mkSext(val(f, x.ops[0]), x.w); f.pc++; continue;
        case Instruction::PtrToInt: case Instruction::IntToPtr: { E a = val(f, x.ops[0]); f.regs[x.dst] = a->w > x.w ? mkExtract(a, 0, x.w) : mkZext(a, x.w); f.pc++; continue; }
        case Instruction::BitCast: { E a = val(f, x.ops[0]); if (a->w != x.w) fatal("bitcast"); f.regs[x.dst] = a; f.pc++; continue; }
        case Instruction::Freeze: f.regs[x.dst] = val(f, x.ops[0]); f.pc++; continue;
        case Instruction::ExtractValue: { E a = val(f, x.ops[0]); for (unsigned i : x.aggidx) a = AGGS[a->c][i]; f.regs[x.dst] = a; f.pc++; continue; }
        case Instruction::InsertValue: { E a = val(f, x.ops[0]); if (x.aggidx.size() != 1) fatal("nested insertvalue"); std::vector<E> v = AGGS[a->c]; v[x.aggidx[0]] = val(f, x.ops[1]); f.regs[x.dst] = mkAgg(v); f.pc++; continue; }
        case Instruction::Call: {
            if (x.intr == -1) { // inline assembly: only empty compiler barriers
                f.pc++; continue; }
            Args A; for (size_t i = 0; i + 1 < x.ops.size(); i++) A.push_back(x.ops[i].slot == -2 ? nullptr : val(f, x.ops[i]));
            Function *F = x.callee;
            if (!F) { u64 a = concretize(val(f, x.ops.back())); auto it = FADDR.find(a); if (it == FADDR.end()) violation(S, a ? "call through an invalid function pointer" : "call through a null pointer"); F = it->second; }
            if (!F->isDeclaration()) { pushFrame(S, decode(F), A); continue; }
            if (!callExternal(F->getName().str(), A, x)) return;      // path cut
            Frame &g = S->st.back();
            if (x.dst >= 0) { E r = extRet; if (!r) fatal("no result from " + F->getName().str()); if (x.w && x.w <= 64 && r->op != AGG && r->w != x.w) r = r->w > x.w ? mkExtract(r, 0, x.w) : mkZext(r, x.w); g.regs[x.dst] = r; }
            g.pc++; if (!WORK.empty()) maybeSpawn(); continue; }
        default: fatal(std::string("unsupported instruction ") + x.I->getOpcodeName());
        }
    }
}

// ------------------------------------------------------------ processes
static double lastSpawn;
static void resetStats() { nPaths = nForks = nQueries = nQSat = nQUnsat = nCacheHit = nInst = nAsserts = nAssumeCut = nModelReuse = nFixed = 0; tSolver = 0; COVERS.clear(); SAMPLES.clear(); FUNCS.clear(); ERRORS.clear(); }
static void maybeSpawn() {
    if (SH->active >= JOBS || WORK.empty()) return;
    double t = now(); if (t - lastSpawn < 0.02) return;
    if (__sync_add_and_fetch(&SH->active, 1) > JOBS) { __sync_sub_and_fetch(&SH->active, 1); return; }
    lastSpawn = t; fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { __sync_sub_and_fetch(&SH->active, 1); return; }
    if (p == 0) {
        resetStats(); lastSpawn = now();
        State *take = WORK.front(); WORK.clear();
        // leave the current state to the parent: run only the taken one
        S = nullptr; WORK.push_back(take);
        extern void workLoop(); workLoop();
        dumpResult(); __sync_sub_and_fetch(&SH->active, 1); fflush(nullptr); _exit(0);
    }
    delete WORK.front(); WORK.pop_front();
}
void workLoop() {
    while (!WORK.empty() && !SH->stop) {
        S = WORK.back(); WORK.pop_back();
        runState();
        delete S; S = nullptr;
    }
}
static std::string esc(const std::string &s) { std::string r; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\\') r += "\\\\"; else r += c; } return r; }
static void dumpResult() {
    FILE *f = fopen((OUT + "/res." + std::to_string(getpid())).c_str(), "w");
    fprintf(f, "paths %llu\nforks %llu\nqueries %llu\nsat %llu\nunsat %llu\ncachehits %llu\ninst %llu\nasserts %llu\nassumecut %llu\nfixed %llu\nsolver_s %.6f\n",
        (unsigned long long)nPaths, (unsigned long long)nForks, (unsigned long long)nQueries, (unsigned long long)nQSat, (unsigned long long)nQUnsat, (unsigned long long)nCacheHit, (unsigned long long)nInst, (unsigned long long)nAsserts, (unsigned long long)nAssumeCut, (unsigned long long)nFixed, tSolver);
    for (auto &c : COVERS) fprintf(f, "cover %s\t%s\n", c.first.c_str(), esc(c.second).c_str());
    for (auto &s : SAMPLES) fprintf(f, "sample %s\n", esc(s).c_str());
    for (auto &p : FUNCS) fprintf(f, "func %s %llu\n", p.first.c_str(), (unsigned long long)p.second);
    for (auto &e : ERRORS) fprintf(f, "error %s\n", esc(e).c_str());
    fprintf(f, "end\n"); fclose(f);
}

int main(int argc, char **argv) {
    std::string file;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto v = [&](const char *p) { return a.substr(strlen(p)); };
        if (a.rfind("--out=", 0) == 0) OUT = v("--out="); else if (a.rfind("--entry=", 0) == 0) ENTRY = v("--entry=");
        else if (a.rfind("--jobs=", 0) == 0) JOBS = atoi(v("--jobs=").c_str()); else if (a.rfind("--timeout=", 0) == 0) TIMEOUT = atof(v("--timeout=").c_str());
        else if (a.rfind("--max-inst=", 0) == 0) MAXINST = strtoull(v("--max-inst=").c_str(), 0, 10); else if (a.rfind("--split-div=", 0) == 0) SPLITDIV = atoi(v("--split-div=").c_str()); else if (a.rfind("--samples=", 0) == 0) NSAMPLES = atoi(v("--samples=").c_str());
        else if (a.rfind("--mem-mb=", 0) == 0) MEMMB = strtoull(v("--mem-mb=").c_str(), 0, 10);
        else file = a;
    }
    T0 = now();
    SH = (Shared *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)SH, 0, sizeof *SH);
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    struct rlimit rs; getrlimit(RLIMIT_STACK, &rs);
    if (rs.rlim_cur != RLIM_INFINITY && rs.rlim_cur < (1u << 29) && !getenv("VPSYM_REEXEC")) {   // deep expression recursion
        rs.rlim_cur = rs.rlim_max == RLIM_INFINITY ? (1u << 29) : std::min<rlim_t>(rs.rlim_max, 1u << 29);
        setenv("VPSYM_REEXEC", "1", 1); if (!setrlimit(RLIMIT_STACK, &rs)) execv("/proc/self/exe", argv); }
    SH->active = 1;
    Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true"); Z = Z3_mk_context(cfg);
    Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fatal(std::string("z3: ") + Z3_get_error_msg(c, e)); });
    SOLVER = Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z, SOLVER);
    SOLVER2 = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV")); Z3_solver_inc_ref(Z, SOLVER2);
    { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), SOLVER_MS1); Z3_solver_set_params(Z, SOLVER, p); }
    { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), SOLVER_MS); Z3_solver_set_params(Z, SOLVER2, p); }
    SMDiagnostic err; auto mod = parseIRFile(file, err, CTX); if (!mod) { err.print("vpsym", errs()); return 2; }
    M = mod.release(); DL = &M->getDataLayout();
    loadGlobals();
    Function *F = M->getFunction(ENTRY); if (!F || F->isDeclaration()) { fprintf(stderr, "no entry %s\n", ENTRY.c_str()); return 2; }
    State *s = new State; s->next = 0x100000000ULL; s->model = std::make_shared<Model>(); s->inst = 0; s->depth = 0; s->bigvars = false; memset(&s->fixed, 0, sizeof s->fixed);
    s->objs = RWGLOBALS; S = s; pushFrame(s, decode(F), {}); S = nullptr;
    WORK.push_back(s);
    pid_t root = getpid();
    // the exploration itself runs in a child so that the root can reap everything
    SH->active = 1;
    pid_t c = fork();
    if (c == 0) { workLoop(); dumpResult(); __sync_sub_and_fetch(&SH->active, 1); fflush(nullptr); _exit(0); }
    int st, bad = 0; double t0 = now();
    (void)root; (void)t0;
    for (;;) { pid_t q = waitpid(-1, &st, WNOHANG); if (q > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { bad++; SH->incomplete = 1; SH->stop = 1; } continue; }
        if (q < 0) break;
        if (now() - T0 > TIMEOUT + 30) { kill(0, SIGKILL); }
        usleep(2000); }
    FILE *f = fopen((OUT + "/final").c_str(), "w");
    fprintf(f, "wall %.3f\ncrashed %d\nviolation %d\nincomplete %d\n", now() - T0, bad, SH->viol, SH->incomplete); fclose(f);
    return SH->viol ? 1 : SH->incomplete ? 2 : 0;
}

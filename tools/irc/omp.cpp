// C11 (and the thread side of C04): what the threads of generated OpenMP site loops write to.
#include "core.h"
#include "roots.h"
#include "llvm/Analysis/LoopInfo.h"
#include <deque>
#include <iostream>

namespace {
// where a pointer may point, seen from one function
struct Org {
    enum K { Local, Fresh, Param, Global, Unknown } k;
    int n = 0;                // Param: index
    int deep = 0;             // reached through loaded pointers
    const Value *v = nullptr; // Local: alloca; Global: variable
    bool operator<(const Org &o) const { return std::tie(k, n, deep, v) < std::tie(o.k, o.n, o.deep, o.v); }
    bool operator==(const Org &o) const { return std::tie(k, n, deep, v) == std::tie(o.k, o.n, o.deep, o.v); }
};
using Orgs = std::set<Org>;
struct Sum {
    std::map<Org, const Instruction *> writes; // Param, Global and Unknown; with one instruction that does it
    Orgs rets;
    std::set<Org> stored; // pointers kept in memory of a parameter
};
struct Eff {
    Program &P;
    std::map<const Function *, Sum> S;
    std::map<const Function *, std::map<const Value *, Orgs>> memo;
    std::map<const Value *, Orgs> held; // pointers an alloca may hold
    Eff(Program &p) : P(p) {}
    static const std::set<std::string> &pure() {
        static const std::set<std::string> s = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "sinh", "cosh", "tanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "pow", "sqrt", "cbrt", "fabs", "floor", "ceil", "round", "lround", "llround", "trunc", "fmod", "hypot", "erf", "erfc", "tgamma", "fmax", "fmin", "copysign", "ldexp", "remainder", "rint", "lrint", "nearbyint",
            "sinf", "cosf", "tanf", "asinf", "acosf", "atanf", "atan2f", "sinhf", "coshf", "tanhf", "expf", "exp2f", "expm1f", "logf", "log2f", "log10f", "log1pf", "powf", "sqrtf", "cbrtf", "fabsf", "floorf", "ceilf", "roundf", "truncf", "fmodf", "hypotf", "erff", "erfcf", "fmaxf", "fminf", "copysignf", "asinh", "acosh", "atanh", "asinhf", "acoshf", "atanhf",
            "sinl", "cosl", "expl", "logl", "powl", "sqrtl", "fabsl", "abs", "labs", "llabs", "strlen", "memcmp", "bcmp", "omp_get_thread_num", "omp_get_num_threads", "omp_get_max_threads", "sincos", "sincosf", "strcmp", "__errno_location", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_Unwind_Resume", "__cxa_begin_catch", "__cxa_end_catch", "__clang_call_terminate", "_ZSt9terminatev", "__assert_fail", "abort", "exit", "nan", "nanf", "lgamma", "lgammaf", "MPI_Wtime", "clock_gettime", "clock", "frexp", "modf"};
        return s;
    }
    static bool fresh(StringRef n) { return n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "calloc" || n == "aligned_alloc" || n == "_ZnwmSt11align_val_t" || n == "__cxa_allocate_exception"; }
    static void deeper(const Orgs &in, Orgs &out, Eff *E) {
        for (auto o : in) {
            if (o.k == Org::Local) { if (E) for (auto &h : E->held[o.v]) out.insert(h); continue; }
            if (o.k == Org::Fresh) { out.insert(o); continue; }
            if (o.k == Org::Param || o.k == Org::Global) o.deep = 1;
            out.insert(o);
        }
    }
    Orgs of(const Function *F, const Value *V, std::set<const Value *> &busy) {
        V = V->stripPointerCasts();
        if (isa<ConstantPointerNull>(V) || isa<UndefValue>(V)) return {};
        if (auto *G = dyn_cast<GlobalVariable>(V)) return {{Org::Global, 0, 0, G}};
        if (isa<Function>(V)) return {};
        if (auto *A = dyn_cast<AllocaInst>(V)) return {{Org::Local, 0, 0, A}};
        if (auto *A = dyn_cast<Argument>(V)) return {{Org::Param, (int)A->getArgNo(), 0, nullptr}};
        if (auto *G = dyn_cast<GEPOperator>(V)) return of(F, G->getPointerOperand(), busy);
        auto &mm = memo[F];
        auto it = mm.find(V);
        if (it != mm.end()) return it->second;
        if (!busy.insert(V).second) return {};
        Orgs r;
        if (auto *L = dyn_cast<LoadInst>(V)) {
            Orgs b = of(F, L->getPointerOperand(), busy);
            deeper(b, r, this);
        } else if (auto *PN = dyn_cast<PHINode>(V)) { for (auto &i : PN->incoming_values()) for (auto &o : of(F, i, busy)) r.insert(o); }
        else if (auto *Se = dyn_cast<SelectInst>(V)) { for (auto *x : {Se->getTrueValue(), Se->getFalseValue()}) for (auto &o : of(F, x, busy)) r.insert(o); }
        else if (auto *C = dyn_cast<CallBase>(V)) {
            auto *G = P.callee(C);
            if (G && fresh(G->getName())) r.insert({Org::Fresh});
            else if (G && G->isDeclaration()) {
                bool any = false;
                for (auto &a : C->args()) if (a->getType()->isPointerTy()) { any = true; for (auto &o : of(F, a, busy)) r.insert(o); }
                if (!any) { if (pure().count(G->getName().str())) r.insert({Org::Fresh}); else r.insert({Org::Unknown}); }
            } else if (G) {
                for (auto &o : S[G].rets) for (auto &x : map(F, C, o, busy)) r.insert(x);
            } else r.insert({Org::Unknown});
        } else if (isa<ExtractValueInst>(V) || isa<InsertValueInst>(V)) {
            for (auto &o : cast<Instruction>(V)->operands()) if (!isa<Constant>(o)) for (auto &x : of(F, o, busy)) r.insert(x);
        } else if (auto *I = dyn_cast<IntToPtrInst>(V)) { for (auto &o : of(F, I->getOperand(0), busy)) r.insert(o); if (r.empty()) r.insert({Org::Unknown}); }
        else if (auto *I = dyn_cast<PtrToIntInst>(V)) r = of(F, I->getOperand(0), busy);
        else if (auto *B = dyn_cast<BinaryOperator>(V)) { for (auto &o : B->operands()) if (!isa<Constant>(o)) for (auto &x : of(F, o, busy)) r.insert(x); }
        else if (V->getType()->isPointerTy() || V->getType()->isAggregateType()) r.insert({Org::Unknown});
        busy.erase(V);
        if (busy.empty()) mm[V] = r;
        return r;
    }
    Orgs of(const Function *F, const Value *V) { std::set<const Value *> b; return of(F, V, b); }
    // an origin of the callee seen from the caller
    Orgs map(const Function *F, const CallBase *C, const Org &o, std::set<const Value *> &busy) {
        if (o.k != Org::Param) return {o};
        if (o.n >= (int)C->arg_size()) return {{Org::Unknown}};
        Orgs b = of(F, C->getArgOperand(o.n), busy), r;
        if (!o.deep) return b;
        deeper(b, r, this);
        // what the things held hold in turn
        Orgs r2;
        deeper(r, r2, this);
        for (auto &x : r2) r.insert(x);
        return r;
    }
    // everything an instruction writes to
    void effects(const Function *F, const Instruction *I, const std::function<void(const Org &)> &w) {
        auto put = [&](const Value *p) { for (auto &o : of(F, p)) w(o); };
        if (auto *St = dyn_cast<StoreInst>(I)) { if (!St->isAtomic()) put(St->getPointerOperand()); return; }
        auto *C = dyn_cast<CallBase>(I);
        if (!C) return;
        if (auto *M = dyn_cast<MemIntrinsic>(C)) { put(M->getRawDest()); return; }
        if (isa<IntrinsicInst>(C)) return;
        auto *G = P.callee(C);
        if (!G) { if (C->isInlineAsm()) return; w({Org::Unknown}); return; }
        StringRef n = G->getName();
        if (G->isDeclaration()) {
            if (n.starts_with("__kmpc") || n.starts_with("__cxa_guard") || fresh(n) || pure().count(n.str()) || n.starts_with("__cxa_throw")) {
                if (n == "sincos" || n == "sincosf") { put(C->getArgOperand(1)); put(C->getArgOperand(2)); }
                if (n == "frexp" || n == "modf") put(C->getArgOperand(1));
                return;
            }
            if (G->doesNotAccessMemory() || G->onlyReadsMemory()) return;
            bool any = false;
            for (auto &a : C->args()) if (a->getType()->isPointerTy()) { any = true; put(a); }
            if (!any) w({Org::Global, 0, 0, G});
            return;
        }
        for (auto &e : S[G].writes) { std::set<const Value *> b; for (auto &o : map(F, C, e.first, b)) w(o); }
    }
    // blocks from which the function can still return
    std::map<const Function *, std::set<const BasicBlock *>> liveMemo;
    const std::set<const BasicBlock *> &live(const Function *F) {
        auto it = liveMemo.find(F);
        if (it != liveMemo.end()) return it->second;
        auto &L = liveMemo[F];
        std::set<const BasicBlock *> ends;
        std::vector<const BasicBlock *> w;
        for (auto &B : *F) {
            bool nr = false;
            for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) if (noReturnCall(P, C)) nr = true;
            if (nr) ends.insert(&B);
            else if (isa<ReturnInst>(B.getTerminator())) w.push_back(&B);
        }
        while (!w.empty()) {
            auto *B = w.back();
            w.pop_back();
            if (ends.count(B) || !L.insert(B).second) continue;
            for (auto *p : predecessors(B)) w.push_back(p);
        }
        return L;
    }
    bool step(Function *F) {
        Sum n;
        auto &L = live(F);
        memo[F].clear();
        // what locals hold
        for (int round = 0; round < 2; round++) for (auto &I : instructions(F)) {
            auto keep = [&](const Value *p, const Orgs &what) { for (auto &o : of(F, p)) { if (o.k == Org::Local) for (auto &x : what) held[o.v].insert(x); } };
            if (auto *St = dyn_cast<StoreInst>(&I)) { if (St->getValueOperand()->getType()->isPointerTy()) keep(St->getPointerOperand(), of(F, St->getValueOperand())); }
            else if (auto *M = dyn_cast<MemTransferInst>(&I)) { Orgs r; deeper(of(F, M->getRawSource()), r, this); Orgs keepers; for (auto &x : r) keepers.insert(x); keep(M->getRawDest(), keepers); }
            else if (auto *C = dyn_cast<CallBase>(&I)) {
                if (isa<IntrinsicInst>(C)) continue;
                auto *G = P.callee(C);
                if (!G || G->isDeclaration()) continue;
                // the callee may keep what it is given, or new storage, in memory it is given
                std::set<int> wr;
                for (auto &e : S[G].writes) if (e.first.k == Org::Param) wr.insert(e.first.n);
                if (wr.empty()) continue;
                for (auto &o : S[G].stored) { std::set<const Value *> b; Orgs x = map(F, C, o, b); for (int k : wr) if (k < (int)C->arg_size()) keep(C->getArgOperand(k), x); }
            }
            memo[F].clear();
        }
        for (auto &I : instructions(F)) {
            if (!L.count(I.getParent())) continue;
            effects(F, &I, [&](const Org &o) { if (o.k == Org::Param || o.k == Org::Unknown) n.writes.emplace(o, &I); else if (o.k == Org::Global) { auto *G = dyn_cast<GlobalVariable>(o.v); if (!G || !G->isThreadLocal()) n.writes.emplace(o, &I); } });
            if (auto *R = dyn_cast<ReturnInst>(&I)) if (auto *v = R->getReturnValue()) if (v->getType()->isPointerTy() || v->getType()->isAggregateType()) for (auto &o : of(F, v)) if (o.k != Org::Local) n.rets.insert(o);
            auto kept = [&](const Value *to, const Orgs &what) { bool out = false; for (auto &o : of(F, to)) if (o.k != Org::Local) out = true; if (out) for (auto &x : what) if (x.k != Org::Local) n.stored.insert(x); };
            if (auto *St = dyn_cast<StoreInst>(&I)) if (St->getValueOperand()->getType()->isPointerTy()) kept(St->getPointerOperand(), of(F, St->getValueOperand()));
            if (auto *M = dyn_cast<MemTransferInst>(&I)) { Orgs r; deeper(of(F, M->getRawSource()), r, this); kept(M->getRawDest(), r); }
            if (auto *C = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(C)) if (auto *G = P.callee(C)) if (!G->isDeclaration()) for (auto &o : S[G].stored) { std::set<const Value *> b; for (auto &x : map(F, C, o, b)) if (x.k != Org::Local) n.stored.insert(x); }
        }
        auto &o = S[F];
        bool ch = n.writes.size() != o.writes.size() || n.rets != o.rets || n.stored != o.stored;
        o = n;
        return ch;
    }
};
} // namespace
static const Value *bare(const Value *V) {
    while (auto *C = dyn_cast<CastInst>(V)) V = C->getOperand(0);
    return V;
}
static const Value *object(const Value *V) {
    for (;;) {
        V = V->stripPointerCasts();
        if (auto *G = dyn_cast<GEPOperator>(V)) if (G->hasAllZeroIndices()) { V = G->getPointerOperand(); continue; }
        return V;
    }
}
int checkOmp(Program &P, const std::vector<std::string> &args) {
    std::string dbg;
    for (auto &a : args) if (a.compare(0, 6, "debug=") == 0) dbg = a.substr(6);
    auto out = [](const Function *F) { return F->getName().contains("omp_outlined"); };
    // parallel regions and everything called in them
    std::set<Function *> regions, closure;
    for (auto *F : P.functions()) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(C)) if (G->getName().starts_with("__kmpc_fork_call") && C->arg_size() > 2)
        if (auto *R = dyn_cast<Function>(C->getArgOperand(2)->stripPointerCasts())) {
            // the region proper is behind a wrapper when there is debug information
            Function *B = R;
            for (auto &J : instructions(R)) if (auto *D = dyn_cast<CallBase>(&J)) if (auto *H = P.callee(D)) if (out(H) && !H->isDeclaration()) B = const_cast<Function *>(H);
            regions.insert(B);
        }
    std::vector<Function *> w(regions.begin(), regions.end());
    for (size_t i = 0; i < w.size(); i++) {
        closure.insert(w[i]);
        for (auto &I : instructions(w[i])) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(C)) if (!G->isDeclaration() && !closure.count(const_cast<Function *>(G))) { closure.insert(const_cast<Function *>(G)); w.push_back(const_cast<Function *>(G)); }
    }
    Eff E(P);
    // bottom up until nothing changes
    std::map<const Function *, std::vector<Function *>> callers;
    for (auto *F : closure) for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(C)) callers[G].push_back(F);
    std::deque<Function *> q(w.rbegin(), w.rend());
    std::set<Function *> inq(q.begin(), q.end());
    long steps = 0;
    while (!q.empty() && steps < 200000) {
        Function *F = q.front();
        q.pop_front();
        inq.erase(F);
        steps++;
        if (regions.count(F)) continue;
        if (E.step(F)) for (auto *c : callers[F]) if (inq.insert(c).second) q.push_back(c);
    }
    long nown = 0, nreg = 0, nwr = 0, nset = 0, nred = 0, nloops = 0, natom = 0;
    for (auto *R : regions) {
        nreg++;
        E.step(R);
        bool show = !dbg.empty() && P.dem(R).find(dbg) != std::string::npos;
        DominatorTree DT(*R);
        LoopInfo LI(DT);
        std::string name = R->getName().str();
        std::string dm = P.dem(R);
        size_t cut = dm.find(" (.omp");
        if (cut == std::string::npos) cut = dm.find(".omp");
        name = cut == std::string::npos ? dm : dm.substr(0, cut);
        if (name.size() > 120) name = stripTemplates(name);
        std::set<std::string> rep;
        std::string key = P.q(R);
        { size_t p = key.find(".omp"); if (p != std::string::npos) key = key.substr(0, p); p = key.find(" (.omp"); if (p != std::string::npos) key = key.substr(0, p); }
        auto say = [&](const char *rule, const Instruction *I, const std::string &m) { if (rep.insert(rule + P.loc(I) + m).second) finding(rule, key, P.loc(I), name + ": " + m); };
        // the loop the threads share, its counter, and values which are different in every iteration
        const CallBase *init = nullptr;
        std::vector<const CallBase *> red, endRed, crit, endCrit;
        for (auto &I : instructions(R)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(C)) {
            StringRef n = G->getName();
            if (n.starts_with("__kmpc_for_static_init") || n.starts_with("__kmpc_dispatch_init")) init = C;
            if (n.starts_with("__kmpc_reduce")) red.push_back(C);
            if (n.starts_with("__kmpc_end_reduce")) endRed.push_back(C);
            if (n == "__kmpc_critical") crit.push_back(C);
            if (n == "__kmpc_end_critical") endCrit.push_back(C);
        }
        if (init) nloops++;
        std::set<const Value *> iv;
        if (init) for (auto *L : LI) { // outermost loops
            if (!DT.dominates(init->getParent(), L->getHeader())) continue;
            for (auto &PN : L->getHeader()->phis()) {
                bool up = false;
                for (auto &in : PN.incoming_values()) if (auto *B = dyn_cast<BinaryOperator>(bare(in))) if (B->getOpcode() == Instruction::Add && bare(B->getOperand(0)) == &PN) if (auto *c = dyn_cast<ConstantInt>(B->getOperand(1))) up |= !c->isZero();
                if (up && PN.getType()->isIntegerTy()) iv.insert(&PN);
            }
        }
        // v = counter * constant + something the same in all iterations
        std::function<int(const Value *, int)> aff = [&](const Value *V, int d) -> int { // 0: invariant, 1: own, 2: unknown
            V = bare(V);
            if (iv.count(V)) return 1;
            if (isa<Constant>(V) || isa<Argument>(V)) return 0;
            if (d > 8) return 2;
            if (auto *L = dyn_cast<LoadInst>(V)) {
                for (auto &o : E.of(R, L->getPointerOperand())) if (o.k != Org::Param || o.deep) return 2;
                return 0;
            }
            if (auto *B = dyn_cast<BinaryOperator>(V)) {
                int a = aff(B->getOperand(0), d + 1), b = aff(B->getOperand(1), d + 1);
                if (a == 2 || b == 2) return 2;
                if (B->getOpcode() == Instruction::Add) return a + b == 2 ? 2 : a + b;
                if (B->getOpcode() == Instruction::Sub) return b == 0 ? a : 2;
                if (B->getOpcode() == Instruction::Mul || B->getOpcode() == Instruction::Shl) { if (a == 1 && b == 0) { auto *c = dyn_cast<ConstantInt>(bare(B->getOperand(1))); return c && (B->getOpcode() == Instruction::Shl || !c->isZero()) ? 1 : 2; } return a + b == 0 ? 0 : 2; }
                return a + b == 0 ? 0 : 2;
            }
            return 2;
        };
        auto guarded = [&](const Instruction *I) {
            auto inside = [&](const std::vector<const CallBase *> &b, const std::vector<const CallBase *> &e) {
                for (auto *x : b) if (DT.dominates(x, I)) {
                    bool over = false;
                    for (auto *y : e) if (DT.dominates(y, I) && DT.dominates(x, y)) over = true;
                    if (!over) return true;
                }
                return false;
            };
            return inside(crit, endCrit);
        };
        // the variables combined over threads, and what combines them
        std::map<const Value *, const Value *> pairs; // shared -> private
        auto inRed = [&](const Instruction *I) {
            for (auto *x : red) if (DT.dominates(x, I)) return true;
            return false;
        };
        std::map<const Value *, std::string> combOp; // shared argument -> operation
        // values that differ between iterations
        std::set<const Value *> dep(iv.begin(), iv.end());
        for (bool ch = true; ch;) {
            ch = false;
            for (auto &I : instructions(R)) {
                auto is = [&](const Value *v) { return dep.count(v) || dep.count(object(v)); };
                bool d = false;
                if (auto *St = dyn_cast<StoreInst>(&I)) {
                    if (is(St->getValueOperand())) for (auto &o : E.of(R, St->getPointerOperand())) if (o.k == Org::Local) ch |= dep.insert(o.v).second;
                    continue;
                }
                if (auto *L = dyn_cast<LoadInst>(&I)) { d = is(L->getPointerOperand()); for (auto &o : E.of(R, L->getPointerOperand())) if (o.k == Org::Local && dep.count(o.v)) d = true; }
                else for (auto &o : I.operands()) if (!isa<BasicBlock>(o) && is(o)) d = true;
                if (!d) continue;
                ch |= dep.insert(&I).second;
                if (isa<CallBase>(&I)) E.effects(R, &I, [&](const Org &o) { if (o.k == Org::Local) ch |= dep.insert(o.v).second; });
            }
        }
        // an element of an array selected by the iteration's own site
        auto ownElement = [&](const Value *p) {
            for (int n = 0; n < 10; n++) {
                p = p->stripPointerCasts();
                auto *g = dyn_cast<GEPOperator>(p);
                if (!g) return false;
                for (auto &i : g->indices()) if (dep.count(i)) return true;
                p = g->getPointerOperand();
            }
            return false;
        };
        for (auto &I : instructions(R)) {
            if (!E.live(R).count(I.getParent())) continue;
            if (isa<AtomicRMWInst>(&I) || isa<AtomicCmpXchgInst>(&I)) { natom++; continue; }
            if (inRed(&I)) {
                // shared = shared op private
                if (auto *St = dyn_cast<StoreInst>(&I)) if (auto *A = dyn_cast<Argument>(object(St->getPointerOperand()))) if (auto *B = dyn_cast<BinaryOperator>(bare(St->getValueOperand()))) {
                    std::string op = B->getOpcodeName();
                    const Value *priv = nullptr;
                    for (auto &o : B->operands()) if (auto *L = dyn_cast<LoadInst>(bare(o))) if (auto *Al = dyn_cast<AllocaInst>(object(L->getPointerOperand()))) priv = Al;
                    if (priv) { pairs[A] = priv; combOp[A] = op == "fadd" || op == "add" ? "+" : op == "fmul" || op == "mul" ? "*" : op; nred++; }
                }
                if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(C)) if (G->getName().contains("omp_combiner") && C->arg_size() >= 2) {
                    auto *A = dyn_cast<Argument>(object(C->getArgOperand(0)));
                    auto *Al = dyn_cast<AllocaInst>(object(C->getArgOperand(1)));
                    if (A && Al) {
                        std::string op = "?";
                        for (auto &J : instructions(G)) if (auto *D = dyn_cast<CallBase>(&J)) if (auto *H = P.callee(D)) { std::string q = P.q(H); if (q.size() >= 10 && q.compare(q.size() - 10, 10, "operator+=") == 0) op = "+"; if (q.size() >= 10 && q.compare(q.size() - 10, 10, "operator*=") == 0) op = "*"; }
                        if (!pairs.count(A)) nred++;
                        pairs[A] = Al;
                        combOp[A] = op;
                    }
                }
                // only what the reduction hands over may be touched here
                E.effects(R, &I, [&](const Org &o) {
                    if (o.k == Org::Param && !o.deep) return;
                    if (o.k == Org::Local || o.k == Org::Fresh) return;
                    if (o.k == Org::Param && o.deep) return; // inside the combined object
                    if (o.k == Org::Global) { auto *g = dyn_cast<GlobalVariable>(o.v); if (g && g->isThreadLocal()) return; say("global-write", &I, "threads write to the global " + (o.v ? o.v->getName().str() : "")); }
                });
                continue;
            }
            if (guarded(&I)) continue;
            if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(C)) {
                std::string q = P.q(G);
                // a mode switch: every thread stores the same constant
                if (q == "hila::set_allreduce" && C->arg_size() == 1 && isa<ConstantInt>(C->getArgOperand(0))) continue;
                if (q == "Field::set_value_at" || q == "Field::field_struct::set" || q == "field_storage::set") {
                    nset++;
                    unsigned k = C->arg_size() - 1;
                    // the index is the last argument (the storage's own size may follow it)
                    bool own = false;
                    for (unsigned j = 1; j <= k; j++) if (C->getArgOperand(j)->getType()->isIntegerTy() && aff(C->getArgOperand(j), 0) == 1) own = true;
                    // the storage's own loops over a table of (distinct) elements
                    if (!own && key.compare(0, 15, "field_storage::") == 0)
                        for (unsigned j = 1; j <= k; j++) if (auto *T = dyn_cast<LoadInst>(bare(C->getArgOperand(j)))) if (T->getType()->isIntegerTy() && ownElement(T->getPointerOperand())) own = true;
                    if (!init) say("not-shared-out", &I, "every thread of a parallel region writes the field element");
                    else if (!own) say("other-site", &I, "a thread writes a field element that is not the one of its own iteration");
                    continue;
                }
            }
            E.effects(R, &I, [&](const Org &o) {
                nwr++;
                if (o.k == Org::Local || o.k == Org::Fresh) return;
                std::string what;
                if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(C)) what = " (in " + P.q(G) + ")";
                if (o.k == Org::Param) {
                    if (o.n < 2) return; // thread numbers
                    // an element addressed by the own index
                    if (auto *St = dyn_cast<StoreInst>(&I)) if (ownElement(St->getPointerOperand())) { nown++; return; }
                    if (auto *M = dyn_cast<MemIntrinsic>(&I)) if (ownElement(M->getRawDest())) { nown++; return; }
                    if (auto *C = dyn_cast<CallBase>(&I)) if (!isa<IntrinsicInst>(C) && o.deep == 0) {
                        // written through an argument which is an own element
                        bool all = true;
                        for (auto &a : C->args()) if (a->getType()->isPointerTy() && E.of(R, a).count(o) && !ownElement(a)) all = false;
                        if (all) { nown++; return; }
                    }
                    say("shared-write", &I, "a variable shared between threads is written in the parallel region" + what);
                } else if (o.k == Org::Global) {
                    auto *g = dyn_cast<GlobalVariable>(o.v);
                    if (g && g->isThreadLocal()) return;
                    say("global-write", &I, "threads write to the global " + demangle((o.v ? o.v->getName().str() : "")) + what);
                } else say("unknown-write", &I, "threads write to memory which may be shared" + what);
            });
        }
        // reductions: neutral start and the same operation in the loop and between threads
        for (auto &e : pairs) {
            const Value *priv = e.second;
            bool prod = combOp[e.first] == "*";
            if (combOp[e.first] != "+" && combOp[e.first] != "*") { say("wrong-operation", &*inst_begin(R), "threads' partial results are combined with neither a sum nor a product"); continue; }
            bool got = false;
            for (auto &I : instructions(R)) {
                if (inRed(&I)) continue;
                if (auto *St = dyn_cast<StoreInst>(&I)) if (object(St->getPointerOperand()) == priv) {
                    const Value *x = bare(St->getValueOperand());
                    if (auto *c = dyn_cast<Constant>(x)) {
                        double v = -1;
                        if (auto *ci = dyn_cast<ConstantInt>(c)) v = ci->getSExtValue();
                        if (auto *cf = dyn_cast<ConstantFP>(c)) v = cf->getValueAPF().convertToDouble();
                        if (c->isNullValue()) v = 0;
                        got = true;
                        if (v != (prod ? 1 : 0)) say("not-neutral", &I, "a thread's part of a reduction does not start from the neutral value");
                        continue;
                    }
                    std::string op = "?";
                    if (auto *B = dyn_cast<BinaryOperator>(x)) { op = B->getOpcodeName(); op = op == "fadd" || op == "add" || op == "fsub" || op == "sub" ? "+" : op == "fmul" || op == "mul" ? "*" : op; }
                    if (auto *In = dyn_cast<IntrinsicInst>(x)) if (In->getIntrinsicID() == Intrinsic::fmuladd || In->getIntrinsicID() == Intrinsic::fma) op = "+";
                    if (isa<PHINode>(x) || isa<SelectInst>(x)) continue;
                    if (op != combOp[e.first]) say("wrong-operation", &I, "a thread's part of a reduction is accumulated with another operation than the threads' parts are combined with");
                }
                if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(C)) if (C->arg_size() && C->getArgOperand(0)->getType()->isPointerTy() && object(C->getArgOperand(0)) == priv) {
                    std::string q = P.q(G);
                    auto ends = [&](const char *s) { size_t n = strlen(s); return q.size() >= n && q.compare(q.size() - n, n, s) == 0; };
                    if ((ends("operator+=") || ends("operator-=")) && prod) say("wrong-operation", &I, "a thread's part of a product is accumulated as a sum");
                    if (ends("operator*=") && !prod) say("wrong-operation", &I, "a thread's part of a sum is accumulated as a product");
                }
            }
            (void)got;
        }
        if (show) std::cerr << name << " pairs " << pairs.size() << " iv " << iv.size() << "\n";
    }
    stat_("parallel_regions", nreg);
    stat_("parallel_loops", nloops);
    stat_("functions_called_in_regions", closure.size());
    stat_("writes_judged", nwr);
    stat_("element_writes", nset);
    stat_("own_array_elements", nown);
    stat_("thread_reductions", nred);
    stat_("atomic_updates", natom);
    return 0;
}

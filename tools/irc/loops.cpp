// C03, C04: the code generated for site loops.
#include "roots.h"
#include "tstate.h"
#include "llvm/Analysis/LoopInfo.h"
#include <iostream>

namespace {
// identities of values inside one function: equal identities are equal values (as long as memory the address expressions
// are read from does not change during a loop statement)
struct Ids {
    Program &P;
    std::map<const Value *, std::string> memo;
    Ids(Program &p) : P(p) {}
    const std::string &of(const Value *V) {
        auto it = memo.find(V);
        if (it != memo.end()) return it->second;
        memo[V] = "~";
        return memo[V] = mk(V);
    }
    std::string leaf(const Value *V) {
        char b[40];
        snprintf(b, sizeof b, "v%p", (const void *)V);
        return b;
    }
    std::string mk(const Value *V) {
        if (auto *C = dyn_cast<ConstantInt>(V)) return C->getBitWidth() == 1 ? std::to_string(C->getZExtValue()) : std::to_string(C->getSExtValue());
        if (auto *C = dyn_cast<ConstantFP>(V)) { double d = C->getValueAPF().convertToDouble(); return std::to_string(d); }
        if (isa<GlobalValue>(V)) return "@" + V->getName().str();
        if (auto *C = dyn_cast<CastInst>(V)) return of(C->getOperand(0));
        if (auto *F = dyn_cast<FreezeInst>(V)) return of(F->getOperand(0));
        if (auto *G = dyn_cast<GEPOperator>(V)) {
            bool z = true;
            for (auto &i : G->indices()) if (auto *C = dyn_cast<ConstantInt>(i)) { if (!C->isZero()) z = false; } else z = false;
            if (z) return of(G->getPointerOperand());
            std::string s = "gep(" + of(G->getPointerOperand());
            for (auto &i : G->indices()) s += "," + of(i);
            return s + ")";
        }
        if (auto *L = dyn_cast<LoadInst>(V)) return "<" + of(L->getPointerOperand()) + ">";
        if (auto *B = dyn_cast<BinaryOperator>(V)) return std::string(B->getOpcodeName()) + "(" + of(B->getOperand(0)) + "," + of(B->getOperand(1)) + ")";
        if (auto *C = dyn_cast<CallBase>(V)) if (auto *G = P.callee(C)) {
            static const std::set<std::string> pure = {"operator-", "opp_parity", "opp_dir", "Lattice::ref", "Lattice::operator->", "Parity::operator-", "operator+", "is_up_dir", "abs", "GaugeField::operator[]", "std::vector::operator[]", "std::array::operator[]"};
            if (pure.count(P.q(G))) {
                std::string s = P.q(G) + "(";
                for (auto &a : C->args()) s += of(a) + ",";
                return s + ")";
            }
        }
        return leaf(V);
    }
};
struct SiteLoop {
    const CallBase *begin = nullptr;
    std::string par;
    std::vector<const PHINode *> idx;
    std::set<const BasicBlock *> body; // all blocks of the loops over the index
    bool has(const Instruction *I) const { return body.count(I->getParent()) > 0; }
};
struct NbRead { const CallBase *I; std::string f, d; const Value *dir; SiteLoop *L; };
struct Gather { const CallBase *I; std::string f, d, p; };
} // namespace
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static const Value *bare(const Value *V) {
    while (true) {
        if (auto *C = dyn_cast<CastInst>(V)) V = C->getOperand(0);
        else if (auto *F = dyn_cast<FreezeInst>(V)) V = F->getOperand(0);
        else return V;
    }
}
static bool zeroGep(const Value *V, const Value *&base) {
    if (auto *G = dyn_cast<GEPOperator>(V)) if (G->hasAllZeroIndices()) { base = G->getPointerOperand(); return true; }
    return false;
}
static const Value *object(const Value *V) {
    const Value *b;
    for (;;) { V = V->stripPointerCasts(); if (zeroGep(V, b)) V = b; else return V; }
}
static bool isCtor(StringRef n) { return n.starts_with("_ZN") && (n.find("C2E") != StringRef::npos || n.find("C1E") != StringRef::npos || n.find("C2I") != StringRef::npos || n.find("C1I") != StringRef::npos); }
// the number a value stands for when it is a constant (or a variable only ever set to one): found = true
static bool constNum(Program &P, const Value *V, double &v, int depth = 0) {
    V = bare(V);
    if (auto *C = dyn_cast<ConstantInt>(V)) { v = C->getBitWidth() == 1 ? C->getZExtValue() : C->getSExtValue(); return true; }
    if (auto *C = dyn_cast<ConstantFP>(V)) { v = C->getValueAPF().convertToDouble(); return true; }
    if (isa<ConstantPointerNull>(V)) { v = 0; return true; }
    if (!V->getType()->isPointerTy()) return false;
    if (auto *A = dyn_cast<AllocaInst>(object(V))) {
        if (depth > 2) return false;
        bool got = false;
        for (auto *U : A->users()) if (auto *C = dyn_cast<CallBase>(U)) {
            if (!isa<IntrinsicInst>(C) && C->getCalledFunction() && C->arg_size() == 2 && object(C->getArgOperand(0)) == A && isCtor(C->getCalledFunction()->getName())) {
                double w;
                if (!constNum(P, C->getArgOperand(1), w, depth + 1) || (got && w != v)) return false;
                v = w;
                got = true;
            }
        }
        for (auto *U : A->users()) if (auto *S = dyn_cast<StoreInst>(U)) if (S->getPointerOperand() == A) { double w; if (!constNum(P, S->getValueOperand(), w, depth + 1) || (got && w != v)) return false; v = w; got = true; }
        return got;
    }
    if (auto *G = dyn_cast<GlobalVariable>(V)) if (G->isConstant() && G->hasInitializer()) return constNum(P, G->getInitializer(), v, depth + 1);
    return false;
}
int checkLoops(Program &P, const std::vector<std::string> &args) {
    std::string dbg;
    bool reads = true, sums = true;
    for (auto &a : args) {
        if (a.compare(0, 6, "debug=") == 0) dbg = a.substr(6);
        if (a == "reads") sums = false;
        if (a == "sums") reads = false;
    }
    long nother = 0, nl = 0, nr = 0, nguard = 0, nsum = 0, nprod = 0, nred = 0, nrv = 0, nw = 0, nfn = 0;
    for (auto *F : P.functions()) {
        if (P.isStd(F)) continue;
        std::vector<std::unique_ptr<SiteLoop>> loops;
        DominatorTree *DTp = nullptr;
        std::unique_ptr<DominatorTree> DT;
        std::unique_ptr<LoopInfo> LI;
        Ids E(P);
        for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(C)) if (P.q(G) == "lattice_struct::loop_begin") {
            if (!DT) { DT = std::make_unique<DominatorTree>(*F); LI = std::make_unique<LoopInfo>(*DT); DTp = DT.get(); }
            auto L = std::make_unique<SiteLoop>();
            L->begin = C;
            L->par = E.of(C->getArgOperand(1));
            std::vector<const Value *> w{C};
            for (size_t k = 0; k < w.size(); k++) for (auto *U : w[k]->users()) {
                if (isa<CastInst>(U)) w.push_back(U);
                if (auto *PN = dyn_cast<PHINode>(U)) if (auto *lp = LI->getLoopFor(PN->getParent())) if (lp->getHeader() == PN->getParent()) { L->idx.push_back(PN); for (auto *b : lp->blocks()) L->body.insert(b); }
            }
            // the index runs from loop_begin to loop_end of the same lattice and parity, one by one
            bool bound = false, step = true;
            for (auto *PN : L->idx) {
                for (auto &in : PN->incoming_values()) {
                    const Value *x = bare(in);
                    if (x == C) continue;
                    auto *B = dyn_cast<BinaryOperator>(x);
                    auto *one = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
                    if (!B || B->getOpcode() != Instruction::Add || bare(B->getOperand(0)) != PN || !one || !one->isOne()) step = false;
                }
                for (auto *U : PN->users()) if (auto *Cm = dyn_cast<ICmpInst>(U)) {
                    bool onPN = bare(Cm->getOperand(0)) == PN;
                    auto *end = dyn_cast<CallBase>(bare(Cm->getOperand(onPN ? 1 : 0)));
                    auto *EG = end ? P.callee(end) : nullptr;
                    auto pr = onPN ? Cm->getPredicate() : Cm->getSwappedPredicate();
                    if (EG && P.q(EG) == "lattice_struct::loop_end" && E.of(end->getArgOperand(1)) == L->par && E.of(end->getArgOperand(0)) == E.of(C->getArgOperand(0)) &&
                        (pr == ICmpInst::ICMP_SLT || pr == ICmpInst::ICMP_ULT || pr == ICmpInst::ICMP_NE)) bound = true;
                }
            }
            if (!L->idx.empty()) { if (!bound || !step) finding("site-range", P.q(F), P.loc(C), shortDem(P, F) + ": a site loop does not run over exactly the sites from loop_begin to loop_end of one parity"); loops.push_back(std::move(L)); }
            else nother++;
        }
        (void)DTp;
        if (loops.empty()) continue;
        nfn++;
        nl += loops.size();
        bool show = !dbg.empty() && P.dem(F).find(dbg) != std::string::npos;
        std::vector<NbRead> nb;
        std::vector<Gather> sg, wg;
        std::map<const Instruction *, std::string> wr, al; // element writes in loops, allocations: field
        std::map<const Instruction *, Gather> mk;
        unsigned ndirs = 0; // from the neighbour arrays
        std::map<const AllocaInst *, bool> dirVars; // variables that run over all directions
        auto loopOf = [&](const Instruction *I) -> SiteLoop * { for (auto &L : loops) if (L->has(I)) return L.get(); return nullptr; };
        for (auto &I : instructions(F)) {
            auto *C = dyn_cast<CallBase>(&I);
            auto *G = C ? P.callee(C) : nullptr;
            if (!G) continue;
            const std::string &q = P.q(G);
            auto self = [&]() { return E.of(C->getArgOperand(G->hasStructRetAttr() ? 1 : 0)); };
            if (q == "Field::start_gather") sg.push_back({C, self(), E.of(C->getArgOperand(1)), E.of(C->getArgOperand(2))});
            else if (q == "Field::wait_gather" || q == "Field::gather") { wg.push_back({C, self(), E.of(C->getArgOperand(1)), E.of(C->getArgOperand(2))}); if (q == "Field::gather") sg.push_back(wg.back()); }
            else if (q == "Field::mark_changed") mk[C] = {C, self(), "", E.of(C->getArgOperand(1))};
            else if (q == "Field::check_alloc" || q == "Field::allocate") al[C] = self();
            else if (q == "Field::get_value_at" || q == "Field::set_value_at" || q == "Field::field_struct::get" || q == "Field::field_struct::set") {
                const Value *ix = bare(C->getArgOperand(C->arg_size() - 1));
                auto *L = loopOf(C);
                if (!L) continue;
                if (q == "Field::set_value_at") { wr[C] = self(); nw++; continue; }
                auto *ld = dyn_cast<LoadInst>(ix);
                if (!ld) continue;
                auto *g1 = dyn_cast<GEPOperator>(ld->getPointerOperand());
                auto *l2 = g1 ? dyn_cast<LoadInst>(g1->getPointerOperand()) : nullptr;
                if (!l2) continue;
                Path p = P.path(l2->getPointerOperand());
                if (p.lastMember().find("neighbours") == std::string::npos && p.lastMember().find("neighb") == std::string::npos) continue;
                // the direction
                std::string d = "0";
                const Value *dv = nullptr;
                if (auto *g2 = dyn_cast<GEPOperator>(l2->getPointerOperand())) {
                    Path pb = P.path(g2->getPointerOperand());
                    if (auto *AT = dyn_cast<ArrayType>(g2->getSourceElementType())) ndirs = AT->getNumElements();
                    if (pb.lastMember() == p.lastMember()) { dv = *(g2->idx_end() - 1); d = E.of(dv); }
                }
                nb.push_back({C, self(), d, dv, L});
            }
        }
        nr += nb.size();
        // fetches in a loop over all directions
        auto runsOverAll = [&](const Value *d) -> bool {
            d = bare(d);
            if (auto *ld = dyn_cast<LoadInst>(d)) {
                auto *A = dyn_cast<AllocaInst>(ld->getPointerOperand());
                if (!A) return false;
                auto it = dirVars.find(A);
                if (it != dirVars.end()) return it->second;
                bool zero = false, up = false, lim = false, other = false;
                for (auto *U : A->users()) {
                    if (auto *S = dyn_cast<StoreInst>(U)) { auto *c = dyn_cast<ConstantInt>(S->getValueOperand()); if (S->getPointerOperand() == A && c && c->isZero()) zero = true; else other = true; }
                    else if (auto *C = dyn_cast<CallBase>(U)) {
                        if (isa<IntrinsicInst>(C)) continue;
                        auto *G = P.callee(C);
                        if (G && P.q(G) == "operator++") up = true; else other = true;
                    } else if (auto *L2 = dyn_cast<LoadInst>(U)) {
                        for (auto *U2 : L2->users()) if (auto *C = dyn_cast<ICmpInst>(U2)) { auto *c = dyn_cast<ConstantInt>(C->getOperand(1)); if (c && c->getZExtValue() == ndirs && (C->getPredicate() == ICmpInst::ICMP_ULT || C->getPredicate() == ICmpInst::ICMP_SLT || C->getPredicate() == ICmpInst::ICMP_NE)) lim = true; else other = true; }
                    } else other = true;
                }
                return dirVars[A] = zero && up && lim && !other;
            }
            if (auto *PN = dyn_cast<PHINode>(d)) {
                bool zero = false, up = false, lim = false;
                for (auto &in : PN->incoming_values()) {
                    const Value *x = bare(in);
                    if (auto *c = dyn_cast<ConstantInt>(x)) { if (!c->isZero()) return false; zero = true; continue; }
                    auto *B = dyn_cast<BinaryOperator>(x);
                    auto *c = B ? dyn_cast<ConstantInt>(B->getOperand(1)) : nullptr;
                    if (!B || B->getOpcode() != Instruction::Add || bare(B->getOperand(0)) != PN || !c || !c->isOne()) return false;
                    up = true;
                }
                for (auto *U : PN->users()) if (auto *C = dyn_cast<ICmpInst>(U)) { auto *c = dyn_cast<ConstantInt>(C->getOperand(1)); if (c && c->getZExtValue() == ndirs && (C->getPredicate() == ICmpInst::ICMP_ULT || C->getPredicate() == ICmpInst::ICMP_SLT || C->getPredicate() == ICmpInst::ICMP_NE)) lim = true; }
                return zero && up && lim;
            }
            return false;
        };
        if (ndirs) {
            for (auto *v : {&sg, &wg}) for (auto &g : *v) if (runsOverAll(g.I->getArgOperand(1))) g.d = "*";
        }
        auto name = shortDem(P, F);
        // ---- C03
        if (reads) for (auto &L : loops) {
            std::set<std::string> fd; // field and direction read in this loop
            std::vector<NbRead *> here;
            for (auto &r : nb) if (r.L == L.get()) { here.push_back(&r); fd.insert(r.f + "|" + r.d); }
            std::set<std::string> written;
            for (auto &w : wr) if (L->has(w.first)) written.insert(w.second);
            if (here.empty() && written.empty()) continue;
            std::map<const Instruction *, const Gather *> S, W;
            std::map<const Instruction *, std::string> readAt;
            auto needs = [&](const Gather &g) { if (g.d != "*") return fd.count(g.f + "|" + g.d) > 0; for (auto *r : here) if (r->f == g.f) return true; return false; };
            auto any = [](const std::string &fdir) { return fdir.substr(0, fdir.find('|')) + "|*"; };
            auto okPar = [&](const std::string &p) { return p == L->par || p == "3"; };
            for (auto &g : sg) if (needs(g) && okPar(g.p)) S[g.I] = &g;
            for (auto &g : wg) if (needs(g) && okPar(g.p)) W[g.I] = &g;
            for (auto *r : here) readAt[r->I] = r->f + "|" + r->d;
            // the test for sites with remote neighbours: (wait_arr_[index] & mask) != 0
            std::map<const Value *, std::set<std::string>> maskHas;
            std::function<bool(const Value *, std::set<std::string> &, std::set<const Value *> &)> maskTree = [&](const Value *m, std::set<std::string> &has, std::set<const Value *> &sn) -> bool {
                m = bare(m);
                if (!sn.insert(m).second) return true;
                if (auto *B = dyn_cast<BinaryOperator>(m)) {
                    if (B->getOpcode() == Instruction::Or || B->getOpcode() == Instruction::Add) return maskTree(B->getOperand(0), has, sn) && maskTree(B->getOperand(1), has, sn);
                    return false;
                }
                if (auto *C = dyn_cast<CallBase>(m)) { auto i = S.find(C); if (i != S.end()) has.insert(i->second->f + "|" + i->second->d); return true; }
                if (auto *PN = dyn_cast<PHINode>(m)) {
                    for (auto &in : PN->incoming_values()) if (!maskTree(in, has, sn)) return false;
                    return true;
                }
                return isa<ConstantInt>(m);
            };
            auto isTest = [&](const Value *V, std::set<std::string> &has, const Value *&mask) -> bool {
                auto *C = dyn_cast<ICmpInst>(bare(V));
                if (!C || C->getPredicate() != ICmpInst::ICMP_NE) return false;
                auto *Z = dyn_cast<ConstantInt>(C->getOperand(1));
                auto *A = dyn_cast<BinaryOperator>(bare(C->getOperand(0)));
                if (!Z || !Z->isZero() || !A || A->getOpcode() != Instruction::And) return false;
                for (int k = 0; k < 2; k++) {
                    auto *ld = dyn_cast<LoadInst>(bare(A->getOperand(k)));
                    if (!ld || P.path(ld->getPointerOperand()).hasMember("lattice_struct::wait_arr_") == false) continue;
                    auto *g = dyn_cast<GEPOperator>(ld->getPointerOperand());
                    bool ixOk = false;
                    if (g) for (auto *PN : L->idx) if (bare(*(g->idx_end() - 1)) == PN) ixOk = true;
                    if (!ixOk) continue;
                    mask = bare(A->getOperand(1 - k));
                    std::set<const Value *> sn;
                    if (!maskTree(mask, has, sn)) has.clear();
                    return true;
                }
                return false;
            };
            std::set<const PHINode *> roundPhi;
            std::map<const Value *, std::pair<std::set<std::string>, const Value *>> tests; // test -> covered pairs, mask
            std::map<const Value *, std::pair<const Value *, const Value *>> guards;         // branch condition -> test, round
            for (auto *B : L->body) {
                auto *Br = dyn_cast<BranchInst>(B->getTerminator());
                if (!Br || !Br->isConditional()) continue;
                const Value *V = Br->getCondition();
                std::set<std::string> has;
                const Value *mask = nullptr;
                if (isTest(V, has, mask)) { tests[V] = {has, mask}; guards[V] = {V, nullptr}; continue; }
                if (auto *C = dyn_cast<ICmpInst>(V)) if (C->isEquality()) for (int k = 0; k < 2; k++) {
                    const Value *t = bare(C->getOperand(k));
                    if (!isTest(t, has, mask)) continue;
                    tests[t] = {has, mask};
                    guards[V] = {t, C->getOperand(1 - k)};
                    if (auto *PN = dyn_cast<PHINode>(bare(C->getOperand(1 - k)))) roundPhi.insert(PN);
                    break;
                }
            }
            if (!guards.empty()) nguard++;
            std::set<const Value *> masks;
            for (auto &t : tests) masks.insert(t.second.second);
            auto inBody = [&](const BasicBlock *B) { // does the block lead to the accesses of this round only
                for (auto *r : here) if (DT->dominates(B, r->I->getParent())) return true;
                for (auto &w : wr) if (L->has(w.first) && DT->dominates(B, w.first->getParent())) return true;
                return false;
            };
            // the fetch is started before the loop, not inside it
            for (auto &s : S) if (L->has(s.first)) finding("started-in-loop", P.q(F) + "|" + std::to_string(nl), P.loc(s.first), name + ": the halo fetch is started inside the site loop");
            std::set<std::string> rep;
            auto say = [&](const char *rule, const Instruction *I, const std::string &m) { if (rep.insert(rule + P.loc(I)).second) finding(rule, P.q(F), P.loc(I), name + ": " + m); };
            Typestate T(P, F);
            T.maxStates = 400;
            T.maxSteps = 200000;
            // the round counter is part of the state
            auto roundName = [&](const PHINode *R) { char b[40]; snprintf(b, sizeof b, "r%p", (const void *)R); return std::string(b); };
            T.onEdge = [&](const BasicBlock *from, const BasicBlock *to, TState &st) {
                for (auto *R : roundPhi) if (R->getParent() == to) {
                    const Value *in = bare(R->getIncomingValueForBlock(from));
                    std::string k = roundName(R);
                    long n = 3;
                    if (auto *c = dyn_cast<ConstantInt>(in)) n = c->getZExtValue();
                    else if (auto *B = dyn_cast<BinaryOperator>(in)) {
                        auto *one = dyn_cast<ConstantInt>(B->getOperand(1));
                        if (B->getOpcode() == Instruction::Add && bare(B->getOperand(0)) == R && one && st.res.count(k)) n = std::min<long>(3, st.res[k] + one->getZExtValue());
                    }
                    st.res[k] = n;
                    if (n < 3) st.phis[R] = ConstantInt::get(R->getType(), n);
                    if (n == 1) st.res.erase("skip");
                }
                (void)0;
            };
            T.effect = [&](const Instruction *I, TState &st) {
                auto *C = dyn_cast<CallBase>(I);
                if (!C) return;
                auto a = al.find(C);
                if (a != al.end()) { if (written.count(a->second)) st.res["a|" + a->second] = 1; return; }
                auto s = S.find(C);
                if (s != S.end()) st.res["s|" + s->second->f + "|" + s->second->d] = 1;
                auto w = W.find(C);
                if (w != W.end()) { if (st.res.count("s|" + w->second->f + "|" + w->second->d)) st.res["w|" + w->second->f + "|" + w->second->d] = 1; return; }
                auto m = mk.find(C);
                if (m != mk.end()) {
                    if (st.res.count("d|" + m->second.f) && okPar(m->second.p)) st.res.erase("d|" + m->second.f);
                    for (auto i = st.res.begin(); i != st.res.end();) if (starts(i->first, ("s|" + m->second.f + "|").c_str()) || starts(i->first, ("w|" + m->second.f + "|").c_str())) i = st.res.erase(i); else ++i;
                    return;
                }
                if (auto *G = P.callee(C)) if (P.q(G) == "lattice_struct::loop_begin") {
                    if (st.res.count("skip")) { say("sites-not-visited", L->begin, "sites with neighbours on other ranks are not visited on every path"); st.res.erase("skip"); }
                    st.res.erase("g");
                    // another loop's statement begins: what this one holds is over
                    if (C != L->begin) for (auto i = st.res.begin(); i != st.res.end();) if (i->first[0] == 'w' || i->first[0] == 's') i = st.res.erase(i); else ++i;
                    return;
                }
                auto r = readAt.find(C);
                if (r != readAt.end()) {
                    bool started = st.res.count("s|" + r->second) || st.res.count("s|" + any(r->second)), waited = st.res.count("w|" + r->second) || st.res.count("w|" + any(r->second));
                    if (!started) say("not-fetched", C, "a neighbour element is read without a halo fetch of that field, direction and parity before the loop on every path");
                    else if (!waited) {
                        bool ok = false;
                        if (st.res.count("g")) for (auto &t : tests) if (t.second.first.count(r->second) || t.second.first.count(any(r->second))) ok = true;
                        if (ok) for (auto &t : tests) if (!t.second.first.count(r->second) && !t.second.first.count(any(r->second))) ok = false;
                        if (!ok) say("not-completed", C, "a neighbour element is read at a site that may need remote data before the fetch has completed");
                    }
                }
                auto x = wr.find(C);
                if (x != wr.end() && L->has(C)) {
                    if (!st.res.count("a|" + x->second)) say("not-allocated", C, "a field is written in a site loop without being allocated before it on every path");
                    st.res["d|" + x->second] = 1;
                }
            };
            T.onBranch = [&](const Value *V, bool val, TState &st) {
                // a disjunction with all but one side known
                for (int n = 0; n < 4; n++) {
                    auto *B = dyn_cast<BinaryOperator>(V);
                    auto *Sl = dyn_cast<SelectInst>(V);
                    const Value *a = nullptr, *b = nullptr;
                    bool isOr = false;
                    if (B && B->getType()->isIntegerTy(1) && (B->getOpcode() == Instruction::Or || B->getOpcode() == Instruction::And)) { a = B->getOperand(0); b = B->getOperand(1); isOr = B->getOpcode() == Instruction::Or; }
                    else if (Sl && Sl->getType()->isIntegerTy(1)) {
                        auto *t = dyn_cast<ConstantInt>(Sl->getTrueValue()), *f = dyn_cast<ConstantInt>(Sl->getFalseValue());
                        if (t && t->isOne()) { a = Sl->getCondition(); b = Sl->getFalseValue(); isOr = true; }
                        else if (f && f->isZero()) { a = Sl->getCondition(); b = Sl->getTrueValue(); isOr = false; }
                    }
                    if (!a) break;
                    int ca = T.cond(a, st), cb = T.cond(b, st);
                    if (ca == (isOr ? 0 : 1)) V = b;
                    else if (cb == (isOr ? 0 : 1)) V = a;
                    else break;
                }
                auto num = [&](const Value *x) -> long { auto *c = dyn_cast<ConstantInt>(bare(T.resolve(bare(x), st))); return c ? c->getSExtValue() : -1; };
                auto g = guards.find(V);
                if (g != guards.end()) {
                    long c = 0;
                    bool t = val;
                    if (g->second.second) {
                        c = num(g->second.second);
                        auto *C = cast<ICmpInst>(V);
                        bool eq = (C->getPredicate() == ICmpInst::ICMP_EQ) == val;
                        if (c != 0 && c != 1) return eq ? false : true;
                        t = eq ? c != 0 : c == 0;
                    }
                    if (st.res.count("mz") && t) return false; // no bit set
                    // the branch this leads to
                    bool entered = false;
                    for (auto *U : V->users()) if (auto *Br = dyn_cast<BranchInst>(U)) if (L->body.count(Br->getParent())) { if (inBody(Br->getSuccessor(val ? 0 : 1)) && !inBody(Br->getSuccessor(val ? 1 : 0))) entered = true; }
                    if (t) st.res.erase("g"); else st.res["g"] = 1;
                    if (!entered && t) st.res["skip"] = 1;
                    if (!entered && !t && c == 0) say("sites-not-visited", L->begin, "sites without remote neighbours are not visited in the first round");
                    return true;
                }
                if (auto *C = dyn_cast<ICmpInst>(V)) {
                    // a loop over all directions is entered at least once
                    if (auto *ld = dyn_cast<LoadInst>(bare(C->getOperand(0)))) if (auto *A = dyn_cast<AllocaInst>(ld->getPointerOperand())) {
                        auto it = dirVars.find(A);
                        if (it != dirVars.end() && it->second) {
                            std::string k = "it|" + E.leaf(A);
                            if (val) st.res[k] = 1;
                            else if (!st.res.erase(k)) return false;
                        }
                    }
                    // nothing to wait for
                    for (int k = 0; k < 2; k++) if (C->isEquality() && masks.count(bare(C->getOperand(k)))) if (auto *Z = dyn_cast<ConstantInt>(C->getOperand(1 - k))) if (Z->isZero()) {
                        bool zero = (C->getPredicate() == ICmpInst::ICMP_EQ) == val;
                        if (zero && st.res.count("skip")) return false;
                        if (zero) st.res["mz"] = 1; else { if (st.res.count("mz")) return false; }
                    }
                }
                return true;
            };
            T.atReturn = [&](const Instruction *I, const TState &st) {
                if (st.res.count("skip")) say("sites-not-visited", L->begin, "sites with neighbours on other ranks are not visited on every path");
                for (auto &e : st.res) if (e.first[0] == 'd') say("not-marked-after-loop", L->begin, "a field written in the site loop is not marked as changed for the loop's parity on every path");
            };
            T.run();
            if (T.gaveUp) { note("gave up: " + name + " " + P.loc(L->begin)); stat_("gave_up", 1); }
            if (show) std::cerr << name << " loop " << P.loc(L->begin) << " par " << L->par << " reads " << here.size() << " started " << S.size() << " waited " << W.size() << " guards " << guards.size() << " steps " << T.steps << "\n";
        }
        // ---- C04
        if (!sums) continue;
        auto qOf = [&](const CallBase *C) -> std::string { auto *G = P.callee(C); return G ? P.q(G) : ""; };
        auto leafName = [](const std::string &q) { size_t p = q.rfind("::"); return p == std::string::npos ? q : q.substr(p + 2); };
        // partial sums: variables handed to the combining calls
        struct Var { const Value *V; std::set<std::string> kinds; };
        std::map<const Value *, std::set<std::string>> vars;
        std::set<std::string> rvs;
        for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) {
            std::string q = qOf(C);
            if (q == "hila_reduce_sum_setup") vars[object(C->getArgOperand(0))].insert("sum");
            if (q == "hila::reduce_node_product") vars[object(C->getArgOperand(0))].insert("prod");
            if (q == "Reduction::reduce_sum_node") vars[object(C->getArgOperand(1))].insert("red");
            if (q == "ReductionVector::init_sum" || q == "ReductionVector::init_product" || q == "ReductionVector::reduce_sum" || q == "ReductionVector::reduce_product") if (!starts(P.q(F), "ReductionVector::")) rvs.insert(E.of(C->getArgOperand(0)));
            // scalars accumulated in a site loop and combined never are not seen here: they are found as stores below
        }
        std::set<std::string> rep;
        auto say = [&](const char *rule, const Instruction *I, const std::string &m) { if (rep.insert(rule + P.loc(I)).second) finding(rule, P.q(F), P.loc(I), name + ": " + m); };
        // what a store or call does to the variable: 'i' set to a number, '+', '*', '=' anything else
        auto changes = [&](const Value *V, const Instruction *I, double &num, const Value *&operand) -> char {
            operand = nullptr;
            if (auto *S = dyn_cast<StoreInst>(I)) {
                if (object(S->getPointerOperand()) != V) return 0;
                if (constNum(P, S->getValueOperand(), num)) return 'i';
                const Value *x = bare(S->getValueOperand());
                if (auto *N = dyn_cast<UnaryOperator>(x)) x = bare(N->getOperand(0));
                if (auto *M = dyn_cast<IntrinsicInst>(x)) if (M->getIntrinsicID() == Intrinsic::fmuladd || M->getIntrinsicID() == Intrinsic::fma) {
                    auto *L = dyn_cast<LoadInst>(bare(M->getArgOperand(2)));
                    if (L && object(L->getPointerOperand()) == V) { operand = M->getArgOperand(0); return '+'; }
                }
                auto *B = dyn_cast<BinaryOperator>(x);
                if (!B) return '=';
                for (int k = 0; k < 2; k++) {
                    auto *L = dyn_cast<LoadInst>(bare(B->getOperand(k)));
                    if (!L || object(L->getPointerOperand()) != V) continue;
                    operand = B->getOperand(1 - k);
                    if (B->getOpcode() == Instruction::FAdd || B->getOpcode() == Instruction::Add) return '+';
                    if (B->getOpcode() == Instruction::FMul || B->getOpcode() == Instruction::Mul) return '*';
                    if (k == 0 && (B->getOpcode() == Instruction::FSub || B->getOpcode() == Instruction::Sub)) return '-';
                }
                return '=';
            }
            auto *C = dyn_cast<CallBase>(I);
            if (!C) return 0;
            if (auto *M = dyn_cast<MemSetInst>(C)) { if (object(M->getRawDest()) != V) return 0; num = 0; auto *Z = dyn_cast<ConstantInt>(M->getValue()); return Z && Z->isZero() ? 'i' : '='; }
            if (auto *M = dyn_cast<MemTransferInst>(C)) { return object(M->getRawDest()) == V ? '=' : 0; }
            auto *G = P.callee(C);
            if (!G || !C->arg_size() || isa<IntrinsicInst>(C)) return 0;
            unsigned k = 0;
            if (G->hasStructRetAttr()) k = 1;
            if (k >= C->arg_size() || !C->getArgOperand(k)->getType()->isPointerTy() || object(C->getArgOperand(k)) != V) return 0;
            std::string n = leafName(P.q(G));
            if (k + 1 < C->arg_size()) operand = C->getArgOperand(k + 1);
            if (n == "operator+=") return '+';
            if (n == "operator*=") return '*';
            if (n == "operator-=") return '-';
            if (n == "operator=" || isCtor(G->getName())) {
                if (operand && constNum(P, operand, num)) return 'i';
                if (!operand) return 0;
                return '=';
            }
            return 0;
        };
        for (auto &ve : vars) {
            const Value *V = ve.first;
            if (!isa<AllocaInst>(V) && !isa<Argument>(V)) continue;
            // only variables that are accumulated in a site loop
            SiteLoop *L = nullptr;
            std::map<const Instruction *, char> eff;
            std::map<const Instruction *, double> effNum;
            std::map<const Instruction *, const Value *> effOp;
            bool inLoop = false;
            for (auto &I : instructions(F)) {
                double n = 0;
                const Value *op;
                char c = changes(V, &I, n, op);
                if (!c) continue;
                eff[&I] = c;
                effNum[&I] = n;
                effOp[&I] = op;
                if (auto *l = loopOf(&I)) if (c != 'i') { inLoop = true; L = l; }
            }
            if (!inLoop) continue;
            bool isRed = ve.second.count("red"), isProd = ve.second.count("prod");
            (isRed ? nred : isProd ? nprod : nsum)++;
            // where the value comes from and goes to
            std::set<std::string> oldSrc, dst;
            auto src = [&](const Value *v) -> std::string {
                if (!v) return "?";
                if (v->getType()->isPointerTy()) {
                    // a copy made for the call
                    if (auto *A = dyn_cast<AllocaInst>(object(v))) for (auto *U : A->users()) {
                        if (auto *C = dyn_cast<CallBase>(U)) if (!isa<IntrinsicInst>(C) && C->arg_size() == 2 && C->getCalledFunction() && isCtor(C->getCalledFunction()->getName()) && object(C->getArgOperand(0)) == A && C->getArgOperand(1)->getType()->isPointerTy()) return E.of(v) + " copy of " + E.of(object(C->getArgOperand(1)));
                        if (auto *M = dyn_cast<MemTransferInst>(U)) if (object(M->getRawDest()) == A) return E.of(v) + " copy of " + E.of(object(M->getRawSource()));
                    }
                    return E.of(v);
                }
                v = bare(v);
                if (auto *ld = dyn_cast<LoadInst>(v)) return E.of(ld->getPointerOperand());
                return "value " + E.of(v);
            };
            enum { NONE, NEUTRAL, ACC, SETUP, COMB, DONE };
            Typestate T(P, F);
            T.maxStates = 400;
            T.maxSteps = 200000;
            T.effect = [&](const Instruction *I, TState &st) {
                int s = st.res.count("v") ? st.res["v"] : NONE;
                auto e = eff.find(I);
                if (e != eff.end()) {
                    bool in = L->has(I);
                    char c = e->second;
                    if (c == 'i' && !in) {
                        if (s == ACC) say("partial-lost", I, "a partial reduction is restarted before it has been combined");
                        double want = isProd ? 1 : 0;
                        if (effNum[I] != want) say("not-neutral", I, "the partial of a reduction does not start from the neutral value");
                        st.res["v"] = NEUTRAL;
                        st.res.erase("old");
                        return;
                    }
                    if (in) {
                        if (s == NONE || s == COMB || s == DONE) say("not-neutral", I, "the partial of a reduction is accumulated without having been set to the neutral value");
                        if (s == SETUP) say("accumulated-late", I, "a partial is changed between handing it over and combining it");
                        if (isProd ? c != '*' : (c != '+' && c != '-')) say("wrong-operation", I, "a partial is accumulated with another operation than it is combined with");
                        st.res["v"] = ACC;
                        return;
                    }
                    // outside of the loop: the previous value, by one rank
                    if (c == 'i' || s == DONE) return;
                    if (isRed) { say("previous-value", I, "the partial of a Reduction is changed outside of the loop"); return; }
                    if (isProd ? c != '*' : c != '+') say("wrong-operation", I, "the previous value enters with another operation than the reduction");
                    if (!st.res.count("r0") || st.res["r0"] != 1) say("previous-value", I, "the previous value of a reduced variable is contributed by more than one rank");
                    if (st.res.count("old")) say("previous-value", I, "the previous value of a reduced variable is contributed twice");
                    st.res["old"] = 1;
                    oldSrc.insert(src(effOp[I]));
                    return;
                }
                if (auto *C = dyn_cast<CallBase>(I)) {
                    std::string q = qOf(C);
                    if (q == "hila::myrank") return;
                    if (q == "hila_reduce_sums") {
                        if (s == SETUP) st.res["v"] = COMB;
                        return;
                    }
                    bool sum = q == "hila_reduce_sum_setup" && object(C->getArgOperand(0)) == V, prod = q == "hila::reduce_node_product" && object(C->getArgOperand(0)) == V,
                         red = q == "Reduction::reduce_sum_node" && object(C->getArgOperand(1)) == V;
                    if (sum || prod || red) {
                        if (L->has(C)) say("combined-in-loop", C, "a partial is combined over ranks inside the site loop");
                        if (s == NONE || s == DONE || s == COMB || s == SETUP) say("combined-twice", C, "a reduction is combined over ranks more than once, or without a partial");
                        if (!red) {
                            bool r0 = st.res.count("r0") && st.res["r0"] == 1, known = st.res.count("r0");
                            if ((!known || r0) && !st.res.count("old")) say("previous-value", C, "the previous value of a reduced variable is lost: no rank contributes it");
                        }
                        st.res["v"] = sum ? SETUP : red ? DONE : COMB;
                        st.res.erase("old");
                        if (!sum) st.res.erase("r0");
                        return;
                    }
                }
                // the combined value goes back
                const Value *to = nullptr;
                bool rd = false;
                if (auto *ld = dyn_cast<LoadInst>(I)) if (object(ld->getPointerOperand()) == V && s == COMB && !L->has(I)) { st.res["v"] = DONE; st.res.erase("r0"); return; }
                if (auto *S = dyn_cast<StoreInst>(I)) { const Value *x = bare(S->getValueOperand()); if (auto *ld = dyn_cast<LoadInst>(x)) if (object(ld->getPointerOperand()) == V) { rd = true; to = S->getPointerOperand(); } }
                if (auto *M = dyn_cast<MemTransferInst>(I)) if (object(M->getRawSource()) == V) { rd = true; to = M->getRawDest(); }
                if (auto *C = dyn_cast<CallBase>(I)) if (!isa<IntrinsicInst>(C) && C->arg_size() >= 2 && C->getArgOperand(1)->getType()->isPointerTy() && object(C->getArgOperand(1)) == V && leafName(qOf(C)) == "operator=") { rd = true; to = C->getArgOperand(0); }
                if (rd && !L->has(I)) {
                    if (s == COMB || s == DONE) { st.res["v"] = DONE; dst.insert(E.of(to)); st.res.erase("r0"); }
                    else say("not-combined", I, "the value of a reduction is used before it has been combined over ranks");
                }
            };
            T.onBranch = [&](const Value *Vb, bool val, TState &st) {
                bool neg = false;
                const Value *x = Vb;
                if (auto *C = dyn_cast<ICmpInst>(x)) if (C->isEquality()) for (int k = 0; k < 2; k++) {
                    auto *call = dyn_cast<CallBase>(bare(C->getOperand(k)));
                    auto *z = dyn_cast<ConstantInt>(C->getOperand(1 - k));
                    if (!call || !z) continue;
                    if (qOf(call) != "hila::myrank") continue;
                    bool eq = (C->getPredicate() == ICmpInst::ICMP_EQ) == val;
                    // one rank: equal to some constant
                    st.res["r0"] = eq ? 1 : 0;
                }
                (void)neg;
                return true;
            };
            T.atReturn = [&](const Instruction *I, const TState &st) {
                auto i = st.res.find("v");
                int s = i == st.res.end() ? NONE : i->second;
                if (s == ACC || s == NEUTRAL || s == SETUP) say("not-combined", L->begin, "a reduction is not combined over ranks on every path after its loop");
                if (s == COMB) say("result-lost", L->begin, "the combined value of a reduction is not put back into its variable");
            };
            T.run();
            if (T.gaveUp) { note("gave up: " + name + " (reduction)"); stat_("gave_up", 1); }
            if (show) { for (auto &d : dst) std::cerr << "  dst " << d << "\n"; for (auto &d : oldSrc) std::cerr << "  old " << d << "\n"; }
            for (auto &d : dst) for (auto &o : oldSrc) if (d != o && o.find("value ") != 0 && (o.find(" copy of ") == std::string::npos || (d != o.substr(0, o.find(" copy of ")) && d != o.substr(o.find(" copy of ") + 9)))) say("result-lost", L->begin, "the result of a reduction goes to another variable than its previous value came from");
            if (show) std::cerr << name << " var " << P.loc(L->begin) << " kind " << *ve.second.begin() << " effects " << eff.size() << " old " << oldSrc.size() << " dst " << dst.size() << "\n";
        }
        // scalars accumulated in a site loop that no combining call gets: the loop's partials are allocas written only there
        for (auto &rv : rvs) {
            nrv++;
            std::map<const Instruction *, char> upd; // updates in site loops
            SiteLoop *L = nullptr;
            for (auto &I : instructions(F)) {
                auto *l = loopOf(&I);
                if (!l) continue;
                auto *C = dyn_cast<CallBase>(&I);
                if (!C || qOf(C) != "ReductionVector::operator[]" || E.of(C->getArgOperand(0)) != rv) continue;
                double n;
                const Value *op;
                for (auto *U : C->users()) if (auto *UI = dyn_cast<Instruction>(U)) {
                    char c = changes(C, UI, n, op);
                    if (c) { upd[UI] = c; L = l; }
                }
            }
            if (!L) continue;
            Typestate T(P, F);
            T.maxSteps = 200000;
            enum { NONE, SUM, PROD, SUMA, PRODA };
            T.effect = [&](const Instruction *I, TState &st) {
                int s = st.res.count("v") ? st.res["v"] : NONE;
                auto u = upd.find(I);
                if (u != upd.end()) {
                    if (s == NONE) say("not-neutral", I, "a ReductionVector is accumulated in a site loop without preparing it");
                    else if ((s == SUM || s == SUMA) != (u->second != '*')) say("wrong-operation", I, "a ReductionVector is accumulated with another operation than prepared");
                    if (s == SUM || s == SUMA) st.res["v"] = SUMA;
                    if (s == PROD || s == PRODA) st.res["v"] = PRODA;
                    return;
                }
                auto *C = dyn_cast<CallBase>(I);
                if (!C) return;
                std::string q = qOf(C);
                if (q == "lattice_struct::loop_begin" && (s == SUM || s == PROD)) for (auto &l : loops) if (l->begin == C) for (auto &u2 : upd) if (l->has(u2.first)) st.res["v"] = s == SUM ? SUMA : PRODA;
                if (q == "ReductionVector::init_sum" || q == "ReductionVector::init_product") {
                    if (E.of(C->getArgOperand(0)) != rv) return;
                    if (s != NONE) say("combined-twice", C, "a ReductionVector is prepared again before it has been combined");
                    if (L->has(C)) say("combined-in-loop", C, "a ReductionVector is prepared inside the site loop");
                    st.res["v"] = q == "ReductionVector::init_sum" ? SUM : PROD;
                }
                if (q == "ReductionVector::reduce_sum" || q == "ReductionVector::reduce_product") {
                    if (E.of(C->getArgOperand(0)) != rv) return;
                    if (L->has(C)) say("combined-in-loop", C, "a ReductionVector is combined over ranks inside the site loop");
                    if (s == NONE) say("combined-twice", C, "a ReductionVector is combined without having been prepared");
                    else if ((s == SUM || s == SUMA) != (q == "ReductionVector::reduce_sum")) say("wrong-operation", C, "a ReductionVector is combined with another operation than prepared");
                    st.res.erase("v");
                }
            };
            T.atReturn = [&](const Instruction *I, const TState &st) { if (st.res.count("v") && st.res.at("v") >= SUMA) say("not-combined", L->begin, "a ReductionVector is not combined over ranks on every path after its loop"); };
            T.run();
            if (T.gaveUp) stat_("gave_up", 1);
            if (show) std::cerr << name << " rv updates " << upd.size() << "\n";
        }
    }
    stat_("functions_with_site_loops", nfn);
    stat_("site_loops", nl);
    stat_("loops_other_shape", nother);
    stat_("neighbour_reads", nr);
    stat_("loops_with_overlap", nguard);
    stat_("loop_element_writes", nw);
    stat_("sum_partials", nsum);
    stat_("product_partials", nprod);
    stat_("Reduction_partials", nred);
    stat_("reduction_vectors", nrv);
    return 0;
}

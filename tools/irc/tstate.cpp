#include "tstate.h"
#include <algorithm>
#include <deque>
#include <iostream>
#include <sstream>

bool pureCall(const std::string &q) {
    static const std::set<std::string> S = {"hila::myrank", "hila::number_of_nodes", "hila::is_comm_initialized", "Lattice::operator->",
                                            "hila::is_device_rng_on", "hila::partitions_struct::number"};
    return S.count(q) > 0;
}

// canonical text of a condition; equal texts have equal values as long as nothing in `deps` ran again
std::string Typestate::key(const Value *V, bool &neg, std::set<const Instruction *> &deps, std::vector<std::string> *loads) {
    neg = false;
    std::function<std::string(const Value *, int)> txt = [&](const Value *X, int d) -> std::string {
        if (auto *C = dyn_cast<ConstantInt>(X)) return std::to_string(C->getSExtValue());
        if (isa<ConstantPointerNull>(X)) return "null";
        if (isa<Argument>(X) || isa<GlobalValue>(X)) return rootName(X);
        if (d > 8) { if (auto *I = dyn_cast<Instruction>(X)) deps.insert(I); return rootName(X); }
        if (auto *L = dyn_cast<LoadInst>(X)) {
            Path p = P.path(L->getPointerOperand());
            std::string s;
            if (auto *I = dyn_cast<Instruction>(p.root)) {
                if (!isa<AllocaInst>(I)) deps.insert(I);
                for (auto &st : p.steps) if (st.kind == Step::Any) { deps.insert(L); break; }
            } else for (auto &st : p.steps) if (st.kind == Step::Any) { deps.insert(L); break; }
            s = ptr(L->getPointerOperand());
            if (loads) loads->push_back(s);
            return "<" + s + ">";
        }
        if (auto *C = dyn_cast<CallBase>(X)) {
            const Function *G = P.callee(C);
            if (G && pureCall(P.q(G))) {
                std::string s = P.q(G) + "(";
                for (auto &a : C->args()) s += txt(a, d + 1) + ",";
                return s + ")";
            }
            deps.insert(C);
            return rootName(X);
        }
        if (auto *I = dyn_cast<Instruction>(X)) {
            if (isa<CastInst>(I) && !I->getOperand(0)->getType()->isIntegerTy(1)) return txt(I->getOperand(0), d + 1);
            if (auto *Cm = dyn_cast<ICmpInst>(I)) {
                std::string a = txt(Cm->getOperand(0), d + 1), b = txt(Cm->getOperand(1), d + 1);
                auto p = Cm->getPredicate();
                if (p == ICmpInst::ICMP_EQ && b < a) std::swap(a, b);
                if (p == ICmpInst::ICMP_NE) { if (b < a) std::swap(a, b); return "!(" + a + "==" + b + ")"; }
                return "(" + a + ICmpInst::getPredicateName(p).str() + b + ")";
            }
            if (isa<BinaryOperator>(I)) {
                std::string s = std::string(I->getOpcodeName()) + "(";
                for (auto &o : I->operands()) s += txt(o, d + 1) + ",";
                return s + ")";
            }
            deps.insert(I);
        }
        return rootName(X);
    };
    if (auto *B = dyn_cast<BinaryOperator>(V))
        if (B->getOpcode() == Instruction::Xor)
            if (auto *C = dyn_cast<ConstantInt>(B->getOperand(1)))
                if (C->isOne() && V->getType()->isIntegerTy(1)) {
                    bool n;
                    std::string s = key(B->getOperand(0), n, deps, loads);
                    neg = !n;
                    return s;
                }
    if (auto *C = dyn_cast<CastInst>(V))
        if (C->getOperand(0)->getType()->isIntegerTy() && (C->getOpcode() == Instruction::Trunc || C->getOpcode() == Instruction::ZExt))
            return key(C->getOperand(0), neg, deps, loads);
    if (auto *C = dyn_cast<ICmpInst>(V)) {
        std::string a = txt(C->getOperand(0), 0), b = txt(C->getOperand(1), 0);
        switch (C->getPredicate()) {
        case ICmpInst::ICMP_NE: neg = true; [[fallthrough]];
        case ICmpInst::ICMP_EQ:
            // a boolean against zero is the boolean
            if (auto *Z = dyn_cast<ConstantInt>(C->getOperand(1)))
                if (Z->isZero()) {
                    const Value *x = C->getOperand(0);
                    while (auto *cs = dyn_cast<CastInst>(x)) x = cs->getOperand(0);
                    if (isa<ICmpInst>(x) || x->getType()->isIntegerTy(1)) {
                        bool n;
                        std::string s = key(x, n, deps, loads);
                        neg = !neg;
                        neg = neg != n;
                        return s;
                    }
                    // integer flag: same text as its truncation
                    neg = !neg;
                    return a;
                }
            if (b < a) std::swap(a, b);
            return a + "==" + b;
        case ICmpInst::ICMP_SGE: neg = true; return a + "<" + b;
        case ICmpInst::ICMP_SLT: return a + "<" + b;
        case ICmpInst::ICMP_SGT: return b + "<" + a;
        case ICmpInst::ICMP_SLE: neg = true; return b + "<" + a;
        case ICmpInst::ICMP_UGE: neg = true; return a + "<u" + b;
        case ICmpInst::ICMP_ULT: return a + "<u" + b;
        case ICmpInst::ICMP_UGT: return b + "<u" + a;
        case ICmpInst::ICMP_ULE: neg = true; return b + "<u" + a;
        default: break;
        }
    }
    return txt(V, 0);
}

void Typestate::prepare() {
    for (auto &B : *F) {
        std::vector<const Value *> cs;
        if (auto *Br = dyn_cast<BranchInst>(B.getTerminator())) { if (Br->isConditional()) cs.push_back(Br->getCondition()); }
        for (auto &I : B) if (auto *S = dyn_cast<SelectInst>(&I)) cs.push_back(S->getCondition());
        for (auto *c : cs) {
            bool neg;
            std::set<const Instruction *> deps;
            std::vector<std::string> loads;
            std::string k = key(c, neg, deps, &loads);
            keyMemo[c] = {k, neg};
            keyCount[k]++;
            for (auto *d : deps) keyDeps[k].insert(d->getParent());
            for (auto &l : loads) keyLoads[l].insert(k);
        }
    }
    // phis that decide something: reach a condition or a tracked use
    for (auto &B : *F)
        for (auto &PN : B.phis()) {
            bool c = false;
            for (auto &in : PN.incoming_values()) if (isa<Constant>(in) || (trackPhi && trackPhi(in)) || isa<PHINode>(in)) c = true;
            if (!c) continue;
            // used by a comparison, branch, switch, cast or call within a few steps
            std::vector<const Value *> w{&PN};
            std::set<const Value *> seen;
            bool use = false;
            for (int n = 0; !w.empty() && n < 60 && !use; n++) {
                auto *v = w.back(); w.pop_back();
                if (!seen.insert(v).second) continue;
                for (auto *U : v->users()) {
                    if (isa<BranchInst>(U) || isa<SwitchInst>(U) || isa<ICmpInst>(U) || isa<SelectInst>(U)) { use = true; break; }
                    if (isa<CallBase>(U) && v->getType()->isPointerTy()) { use = true; break; }
                    if (isa<StoreInst>(U) && trackPhi && PN.getType()->isPointerTy()) { use = true; break; }
                    if (isa<PHINode>(U) || isa<CastInst>(U) || isa<BinaryOperator>(U)) w.push_back(U);
                }
            }
            if (use) usefulPhi.insert(&PN);
        }
}

const Value *Typestate::resolve(const Value *V, const TState &S, int depth) {
    for (int i = 0; i < 20; i++) {
        V = V->stripPointerCasts();
        if (auto *PN = dyn_cast<PHINode>(V)) {
            auto it = S.phis.find(PN);
            if (it == S.phis.end()) return V;
            V = it->second;
            continue;
        }
        if (auto *Sel = dyn_cast<SelectInst>(V)) {
            if (depth > 6) return V;
            int c = cond(Sel->getCondition(), S);
            if (c < 0) return V;
            V = c ? Sel->getTrueValue() : Sel->getFalseValue();
            continue;
        }
        return V;
    }
    return V;
}

int Typestate::cond(const Value *V, const TState &S) {
    V = resolve(V, S, 3);
    if (auto *C = dyn_cast<ConstantInt>(V)) return C->isZero() ? 0 : 1;
    auto it = keyMemo.find(V);
    if (it != keyMemo.end()) {
        auto f = S.facts.find(it->second.first);
        if (f != S.facts.end()) return f->second != it->second.second;
    }
    if (auto *C = dyn_cast<CastInst>(V)) if (C->getOperand(0)->getType()->isIntegerTy() && !isa<SExtInst>(C)) {
        int c = cond(C->getOperand(0), S);
        if (C->getOpcode() == Instruction::ZExt || c >= 0) return c;
    }
    if (auto *B = dyn_cast<BinaryOperator>(V)) {
        int a = cond(B->getOperand(0), S), b = cond(B->getOperand(1), S);
        if (B->getType()->isIntegerTy(1)) {
            if (B->getOpcode() == Instruction::And) { if (a == 0 || b == 0) return 0; if (a == 1 && b == 1) return 1; }
            if (B->getOpcode() == Instruction::Or) { if (a == 1 || b == 1) return 1; if (a == 0 && b == 0) return 0; }
            if (B->getOpcode() == Instruction::Xor && a >= 0 && b >= 0) return a != b;
        }
        return -1;
    }
    if (auto *C = dyn_cast<ICmpInst>(V)) {
        const Value *a = resolve(C->getOperand(0), S, 3), *b = resolve(C->getOperand(1), S, 3);
        auto strip = [&](const Value *x) {
            while (auto *cs = dyn_cast<CastInst>(x)) {
                if (!cs->getOperand(0)->getType()->isIntegerTy() || cs->getOpcode() == Instruction::Trunc) break;
                x = resolve(cs->getOperand(0), S, 3);
            }
            return x;
        };
        a = strip(a); b = strip(b);
        auto *ca = dyn_cast<ConstantInt>(a), *cb = dyn_cast<ConstantInt>(b);
        if (ca && cb) {
            APInt x = ca->getValue().sextOrTrunc(64), y = cb->getValue().sextOrTrunc(64);
            if (ca->getType()->isIntegerTy(1)) x = APInt(64, ca->getZExtValue());
            if (cb->getType()->isIntegerTy(1)) y = APInt(64, cb->getZExtValue());
            return ICmpInst::compare(x, y, C->getPredicate());
        }
        if (C->isEquality()) {
            if (a == b) return C->getPredicate() == ICmpInst::ICMP_EQ;
            auto isNull = [](const Value *v) { return isa<ConstantPointerNull>(v); };
            auto isAcq = [&](const Value *v) { return (trackPhi && trackPhi(v)) || isa<AllocaInst>(v) || isa<GlobalVariable>(v); };
            if ((isNull(a) && isAcq(b)) || (isNull(b) && isAcq(a))) return C->getPredicate() == ICmpInst::ICMP_NE;
            if (isNull(a) && isNull(b)) return C->getPredicate() == ICmpInst::ICMP_EQ;
            if (cb && a->getType()->isIntegerTy(1) ) {
                int c = cond(a, S);
                if (c >= 0) return (C->getPredicate() == ICmpInst::ICMP_EQ) == (c == (int)cb->getZExtValue());
            }
            // bool widened to i8/i32 compared with 0
            if (cb && cb->isZero()) {
                int c = isa<ICmpInst>(a) || isa<BinaryOperator>(a) || a->getType()->isIntegerTy(1) ? cond(a, S) : -1;
                if (c >= 0) return (C->getPredicate() == ICmpInst::ICMP_EQ) == (c == 0);
            }
        }
    }
    return -1;
}

void Typestate::assume(const Value *V, bool val, TState &S, int depth) {
    V = resolve(V, S, 3);
    auto it = keyMemo.find(V);
    if (it != keyMemo.end() && keyCount[it->second.first] > 1) S.facts[it->second.first] = val != it->second.second;
    if (depth > 4) return;
    if (auto *PN = dyn_cast<PHINode>(V)) { (void)PN; }
    if (auto *B = dyn_cast<BinaryOperator>(V)) {
        if (B->getOpcode() == Instruction::And && val) { assume(B->getOperand(0), true, S, depth + 1); assume(B->getOperand(1), true, S, depth + 1); }
        if (B->getOpcode() == Instruction::Or && !val) { assume(B->getOperand(0), false, S, depth + 1); assume(B->getOperand(1), false, S, depth + 1); }
        if (B->getOpcode() == Instruction::Xor)
            if (auto *C = dyn_cast<ConstantInt>(B->getOperand(1))) if (C->isOne()) assume(B->getOperand(0), !val, S, depth + 1);
    }
    // a comparison with a constant fixes the value of the other side if that is a phi we track
    if (auto *C = dyn_cast<ICmpInst>(V))
        if (C->isEquality() && (C->getPredicate() == ICmpInst::ICMP_EQ) == val) {
            const Value *a = C->getOperand(0);
            while (isa<CastInst>(a)) a = cast<CastInst>(a)->getOperand(0);
            if (auto *PN = dyn_cast<PHINode>(a))
                if (usefulPhi.count(PN) && isa<Constant>(C->getOperand(1)) && PN->getType() == C->getOperand(1)->getType() && !S.phis.count(PN))
                    S.phis[PN] = C->getOperand(1);
        }
}

void Typestate::run(TState init) {
    prepare();
    // states with the same resources are merged; what differs between them is forgotten
    std::map<const BasicBlock *, std::map<std::map<std::string, int>, TState>> seen;
    std::deque<std::pair<const BasicBlock *, TState>> work;
    auto push = [&](const BasicBlock *B, TState s) {
        auto &v = seen[B];
        auto it = v.find(s.res);
        if (it == v.end()) {
            if (v.size() >= maxStates) { gaveUp = true; return; }
            v[s.res] = s;
            work.push_back({B, std::move(s)});
            return;
        }
        TState &o = it->second;
        bool ch = false;
        for (auto i = o.facts.begin(); i != o.facts.end();) {
            auto f = s.facts.find(i->first);
            if (f == s.facts.end() || f->second != i->second) { i = o.facts.erase(i); ch = true; } else ++i;
        }
        for (auto i = o.phis.begin(); i != o.phis.end();) {
            auto f = s.phis.find(i->first);
            if (f == s.phis.end() || f->second != i->second) { i = o.phis.erase(i); ch = true; } else ++i;
        }
        if (ch) work.push_back({B, o});
    };
    push(&F->getEntryBlock(), init);
    // facts die when what they depend on runs again
    std::map<const BasicBlock *, std::vector<std::string>> kills;
    for (auto &e : keyDeps) for (auto *B : e.second) kills[B].push_back(e.first);
    while (!work.empty()) {
        if (++steps > maxSteps) { gaveUp = true; return; }
        auto [B, S] = work.front();
        work.pop_front();
        {
            // a merged state may have replaced it meanwhile
            auto &v = seen[B];
            auto it = v.find(S.res);
            if (it != v.end()) S = it->second;
        }
        auto kb = kills.find(B);
        if (kb != kills.end()) for (auto &k : kb->second) S.facts.erase(k);
        bool dead = false;
        for (auto &I : *B) {
            if (isa<PHINode>(I)) continue;
            if (auto *St = dyn_cast<StoreInst>(&I)) {
                if (!keyLoads.empty()) {
                    auto it = keyLoads.find(ptr(St->getPointerOperand()));
                    if (it != keyLoads.end()) for (auto &k : it->second) S.facts.erase(k);
                }
            }
            effect(&I, S);
            if (auto *CB = dyn_cast<CallBase>(&I)) {
                if (endsRun && endsRun(CB)) { atReturn(CB, S); dead = true; break; }
                if (noReturnCall(P, CB)) { dead = true; break; }
            }
        }
        if (dead) continue;
        auto *T = B->getTerminator();
        if (isa<ReturnInst>(T)) { atReturn(T, S); continue; }
        auto go = [&](const BasicBlock *N, TState s) {
            // phis take their values in parallel
            std::vector<std::pair<const PHINode *, const Value *>> nv;
            for (auto &PN : N->phis()) {
                const Value *in = resolve(PN.getIncomingValueForBlock(B), s);
                bool keep = usefulPhi.count(&PN) && ((isa<Constant>(in) && !isa<ConstantExpr>(in)) || (trackPhi && trackPhi(in)));
                nv.push_back({&PN, keep ? in : nullptr});
            }
            for (auto &e : nv) { if (e.second) s.phis[e.first] = e.second; else s.phis.erase(e.first); }
            if (onEdge) onEdge(B, N, s);
            push(N, std::move(s));
        };
        if (auto *Br = dyn_cast<BranchInst>(T)) {
            if (!Br->isConditional()) { go(Br->getSuccessor(0), S); continue; }
            int c = cond(Br->getCondition(), S);
            if (c != 0) { TState s = S; assume(Br->getCondition(), true, s); if (!onBranch || onBranch(Br->getCondition(), true, s)) go(Br->getSuccessor(0), std::move(s)); }
            if (c != 1) { TState s = S; assume(Br->getCondition(), false, s); if (!onBranch || onBranch(Br->getCondition(), false, s)) go(Br->getSuccessor(1), std::move(s)); }
            continue;
        }
        if (auto *Sw = dyn_cast<SwitchInst>(T)) {
            const Value *v = resolve(Sw->getCondition(), S);
            if (auto *C = dyn_cast<ConstantInt>(v)) { go(Sw->findCaseValue(C)->getCaseSuccessor(), S); continue; }
        }
        std::set<const BasicBlock *> done;
        for (auto *N : successors(B)) if (done.insert(N).second) go(N, S);
    }
}

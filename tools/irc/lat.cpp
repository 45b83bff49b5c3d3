// C14: an operation leaves the lattice current that was current at its start.
#include "roots.h"
#include "tstate.h"
#include <algorithm>
#include <iostream>

// operations whose purpose is to change the current lattice
static const std::set<std::string> SWITCH = {
    "Lattice::switch_to", "Lattice::switch_to_base", "Lattice::block", "Lattice::unblock", "Lattice::setup", "Lattice::set_lattice_pointer",
    "lattice_struct::block_by_factor", "lattice_struct::setup_blocked_lattice", "lattice_struct::setup_base_lattice", "hila::initialize",
    "lattice_struct::setup"};

int checkLat(Program &P, const std::vector<std::string> &args) {
    std::set<std::string> base;
    bool list = false, dbg = false;
    size_t maxInst = 3;
    for (auto &a : args) {
        if (a.compare(0, 6, "roots=") == 0) base = readList(a.substr(6));
        if (a == "list") list = true;
        if (a == "debug") dbg = true;
        if (a.compare(0, 4, "max=") == 0) maxInst = std::stoul(a.substr(4));
    }
    GlobalVariable *G = P.M->getNamedGlobal("lattice");
    if (!G) { stat_("operations", 0); return 0; }
    // a store of a pointer into the first word of the global
    auto isCur = [&](const Value *p) {
        p = p->stripPointerCasts();
        if (p == G) return true;
        APInt off(64, 0);
        return p->stripAndAccumulateConstantOffsets(P.M->getDataLayout(), off, true) == G && off.isZero();
    };
    // functions that may store to it: directly, or through a member function called on it
    auto storesThis = [&](const Function *F) {
        // member of Lattice which stores into its first member
        if (F->arg_empty()) return false;
        for (auto &I : instructions(F))
            if (auto *S = dyn_cast<StoreInst>(&I))
                if (S->getValueOperand()->getType()->isPointerTy()) {
                    Path p = P.path(S->getPointerOperand());
                    if (isCur(S->getPointerOperand())) return true;
                    if (P.q(F).compare(0, 9, "Lattice::") == 0 && p.root == F->getArg(0) && p.lastMember() == "Lattice::lat_ptr") return true;
                    // first member information can be lost
                    if (S->getPointerOperand()->stripPointerCasts() == F->getArg(0) && P.q(F).compare(0, 9, "Lattice::") == 0) return true;
                }
        return false;
    };
    std::set<const Function *> direct;
    for (auto *F : P.functions()) if (!P.isStd(F) && storesThis(F)) {
        // constructors of other Lattice objects do not count
        const std::string &q = P.q(F);
        if (q == "Lattice::Lattice" || q == "Lattice::operator=") continue;
        direct.insert(F);
    }
    auto op = [&](const CallBase *C) { auto *F = P.callee(C); return F && direct.count(F); };
    auto reach = reaching(P, op, 30, [&](const Function *F) { return P.isStd(F); });
    for (auto *F : direct) reach[F] = 0;
    Inliner IN(P, [&](const Function *F) {
        if (P.isStd(F)) return true;
        if (reach.count(F)) return false;
        return F->getInstructionCount() > 25;
    });
    IN.maxInstr = 60000;
    std::map<std::string, std::vector<Function *>> byName;
    long sw = 0;
    for (auto &e : reach) {
        const std::string &q = P.q(e.first);
        if (P.isStd(e.first)) continue;
        if (SWITCH.count(q)) { sw++; continue; }
        if (q.compare(0, 4, "main") == 0) continue;
        byName[q].push_back(const_cast<Function *>(e.first));
    }
    long nroots = 0, paths = 0, gave = 0, skipped = 0;
    for (auto &bn : byName) {
        auto &fs = bn.second;
        bool inBase = base.count(bn.first) > 0;
        // an unlisted function which only the library calls is examined inside its callers
        if (!inBase && bn.first.find("::") == std::string::npos) continue; // user code
        if (!inBase && !list) {
            bool calledByLib = false;
            for (auto *F : fs) {
                auto it = P.callers.find(F);
                if (it == P.callers.end()) continue;
                for (auto *C : it->second) {
                    const std::string &cq = P.q(C->getFunction());
                    if (base.count(cq) || SWITCH.count(cq)) calledByLib = true;
                    // through another unlisted helper
                    if (byName.count(cq) && cq != bn.first && cq.find("::") != std::string::npos) calledByLib = true;
                }
            }
            if (calledByLib) continue;
        }
        std::sort(fs.begin(), fs.end(), [](Function *a, Function *b) { return a->getName() < b->getName(); });
        std::vector<Function *> pick;
        size_t step = std::max<size_t>(1, fs.size() / maxInst);
        for (size_t i = 0; i < fs.size() && pick.size() < maxInst; i += step) pick.push_back(fs[i]);
        bool good = true, any = false;
        for (auto *F : pick) {
            Function *C = IN.run(F, "sroa,early-cse<memssa>,sccp,simplifycfg");
            if (!C) { skipped++; good = false; continue; }
            Typestate T(P, C);
            if (getenv("DUMPF") && bn.first == getenv("DUMPF")) { C->print(errs()); }
            // res["cur"]: 0/absent initial lattice current, otherwise number of the value stored
            std::map<const Value *, int> num;
            std::vector<const Value *> vals{nullptr};
            bool bad = false;
            std::string where;
            // values that are the lattice current at the start
            auto isInit = [&](const Value *v, const TState &S) {
                v = T.resolve(v, S);
                auto it = S.res.find("init#" + std::to_string((long)num[v]));
                return num[v] && it != S.res.end();
            };
            int next = 1;
            for (auto &I : instructions(C)) {
                if (auto *L = dyn_cast<LoadInst>(&I)) if (isCur(L->getPointerOperand())) num[L] = next++;
            }
            T.trackPhi = [&](const Value *v) { return num.count(v) && num[v]; };
            auto curInit = [](const TState &S) { return !S.res.count("cur"); };
            T.effect = [&](const Instruction *I, TState &S) {
                if (auto *L = dyn_cast<LoadInst>(I)) {
                    if (num.count(L) && num[L]) {
                        std::string k = "init#" + std::to_string((long)num[L]);
                        if (curInit(S)) S.res[k] = 1; else S.res.erase(k);
                        return;
                    }
                    // a copy kept in memory
                    if (L->getType()->isPointerTy()) {
                        auto r = S.res.find("at:" + T.ptr(L->getPointerOperand()));
                        if (!num.count(L)) num[L] = 0;
                        if (r != S.res.end()) { if (!num[L]) num[L] = next++; S.res["init#" + std::to_string((long)num[L])] = 1; }
                        else if (num[L]) S.res.erase("init#" + std::to_string((long)num[L]));
                    }
                    return;
                }
                if (auto *St = dyn_cast<StoreInst>(I)) {
                    if (!St->getValueOperand()->getType()->isPointerTy()) return;
                    if (isCur(St->getPointerOperand())) {
                        if (isInit(St->getValueOperand(), S)) S.res.erase("cur"); else { S.res["cur"] = 1; where = P.loc(I); }
                        return;
                    }
                    std::string dst = "at:" + T.ptr(St->getPointerOperand());
                    if (isInit(St->getValueOperand(), S)) S.res[dst] = 1; else S.res.erase(dst);
                    return;
                }
            };
            // lattice == value tests tell what is current
            T.onBranch = [&](const Value *V, bool val, TState &S) {
                auto *Cm = dyn_cast<ICmpInst>(V);
                if (!Cm || !Cm->isEquality()) return true;
                bool eq = (Cm->getPredicate() == ICmpInst::ICMP_EQ) == val;
                const Value *a = T.resolve(Cm->getOperand(0), S), *b = T.resolve(Cm->getOperand(1), S);
                for (int k = 0; k < 2; k++, std::swap(a, b)) {
                    auto *L = dyn_cast<LoadInst>(a);
                    if (!L || !isCur(L->getPointerOperand())) continue;
                    if (!isInit(b, S)) continue;
                    if (eq) { S.res.erase("cur"); S.res["init#" + std::to_string((long)num[L])] = 1; }
                    else if (curInit(S) && isInit(L, S)) return false;
                }
                return true;
            };
            T.endsRun = [&](const CallBase *) { return false; };
            std::string badAt;
            T.atReturn = [&](const Instruction *I, const TState &S) {
                paths++;
                if (S.res.count("cur")) { bad = true; if (badAt.empty()) badAt = P.loc(I); }
            };
            T.maxStates = 2000;
            T.maxSteps = 200000;
            T.run();
            any = true;
            nroots++;
            if (T.gaveUp) { gave++; if (dbg) note("gave up " + shortDem(P, F)); good = false; IN.drop(C); continue; }
            if (bad) good = false;
            if (bad && list) note("changes the lattice: " + bn.first);
            if (bad && !list)
                finding("lattice", bn.first, P.loc(F), shortDem(P, F) + ": a path returns (" + badAt + ") with a lattice current that is not the one current at the start");
            if (!list) inst(bn.first);
            IN.drop(C);
        }
        if (list && any && good) std::cout << "ROOT\t" << bn.first << "\n";
    }
    stat_("operations", nroots);
    stat_("switching_functions", sw);
    stat_("path_ends_examined", paths);
    stat_("operations_too_large", skipped);
    stat_("operations_given_up", gave);
    return 0;
}

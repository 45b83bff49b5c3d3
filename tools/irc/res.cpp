// C12: timers, memory blocks, plans and files held by an operation are released before it returns.
#include "roots.h"
#include "tstate.h"
#include <algorithm>
#include <iostream>

static bool timerStart(Program &P, const Function *F) { return P.q(F) == "hila::timer::start"; }
static bool timerStop(Program &P, const Function *F) { return P.q(F) == "hila::timer::stop"; }

static const std::map<std::string, std::string> ACQ = {
    {"malloc", "memory"}, {"memalloc", "memory"}, {"d_malloc", "memory"}, {"calloc", "memory"}, {"aligned_alloc", "memory"},
    {"fftw_malloc", "fftw memory"}, {"fftwf_malloc", "fftw memory"}, {"fftw_alloc_complex", "fftw memory"}, {"fftwf_alloc_complex", "fftw memory"},
    {"fftw_plan_dft_1d", "fftw plan"}, {"fftwf_plan_dft_1d", "fftw plan"}, {"fftw_plan_dft", "fftw plan"}, {"fftwf_plan_dft", "fftw plan"},
    {"fftw_plan_many_dft", "fftw plan"}, {"fftwf_plan_many_dft", "fftw plan"},
    {"fopen", "file"}, {"fopen64", "file"}, {"popen", "pipe"}};
static const std::map<std::string, std::set<std::string>> REL = {
    {"free", {"memory"}}, {"d_free", {"memory"}}, {"fftw_free", {"fftw memory"}}, {"fftwf_free", {"fftw memory"}},
    {"fftw_destroy_plan", {"fftw plan"}}, {"fftwf_destroy_plan", {"fftw plan"}}, {"fclose", {"file"}}, {"pclose", {"pipe"}}};

int checkRes(Program &P, const std::vector<std::string> &args) {
    std::set<std::string> base;
    bool list = false, dbg = false;
    size_t maxInst = 3;
    for (auto &a : args) {
        if (a.compare(0, 6, "roots=") == 0) base = readList(a.substr(6));
        if (a == "list") list = true;
        if (a == "debug") dbg = true;
        if (a.compare(0, 4, "max=") == 0) maxInst = std::stoul(a.substr(4));
    }
    auto nameOf = [&](const Function *F) -> std::string {
        std::string q = P.q(F);
        if (q.compare(0, 5, "std::") == 0) q = q.substr(5);
        return q;
    };
    auto acqKind = [&](const Function *F) -> std::string { auto it = ACQ.find(nameOf(F)); return it == ACQ.end() ? "" : it->second; };
    auto isRel = [&](const Function *F) { return REL.count(nameOf(F)) > 0; };
    auto op = [&](const CallBase *C) {
        auto *F = P.callee(C);
        if (!F || P.isStd(C->getFunction())) return false;
        return timerStart(P, F) || timerStop(P, F) || !acqKind(F).empty() || isRel(F);
    };
    auto prim = [&](const Function *F) { return timerStart(P, F) || timerStop(P, F) || !acqKind(F).empty() || isRel(F); };
    auto reach = reaching(P, op, 4, [&](const Function *F) { return P.isStd(F) || prim(F); });
    Inliner IN(P, [&](const Function *F) {
        if (P.isStd(F) || prim(F) || pureCall(P.q(F))) return true;
        if (reach.count(F)) return false;
        return F->getInstructionCount() > 40;
    });
    IN.maxInstr = 25000;
    std::map<std::string, std::vector<Function *>> byName;
    for (auto &e : reach) {
        if (P.isStd(e.first) || prim(e.first)) continue;
        const std::string &q = P.q(e.first);
        if (q.compare(0, 4, "main") == 0) continue;
        if (list ? e.second > 2 : !base.count(q) && e.second > 0) continue;
        byName[q].push_back(const_cast<Function *>(e.first));
    }
    long nroots = 0, nops = 0, gave = 0, skipped = 0, exits = 0;
    for (auto &bn : byName) {
        auto &fs = bn.second;
        std::sort(fs.begin(), fs.end(), [](Function *a, Function *b) { return a->getName() < b->getName(); });
        // spread over the instantiations
        std::vector<Function *> pick;
        size_t step = std::max<size_t>(1, fs.size() / maxInst);
        for (size_t i = 0; i < fs.size() && pick.size() < maxInst; i += step) pick.push_back(fs[i]);
        bool allBalanced = true, any = false;
        for (auto *F : pick) {
            Function *C = IN.run(F, "sroa,early-cse<memssa>,sccp,simplifycfg");
            if (!C) { skipped++; if (dbg) note("too large " + bn.first); allBalanced = false; continue; }
            Typestate T(P, C);
            std::map<std::string, const CallBase *> site;
            std::map<const Value *, std::string> siteKey;
            std::map<std::string, std::string> kindOf;
            int n = 0;
            std::set<std::pair<std::string, std::string>> problems; // (rule, detail)
            std::map<std::string, std::string> where;
            for (auto &I : instructions(C)) if (auto *CB = dyn_cast<CallBase>(&I)) {
                auto *G = P.callee(CB);
                if (!G) continue;
                std::string k = acqKind(G);
                if (!k.empty()) { std::string id = k + "#" + std::to_string(n++); siteKey[CB] = id; kindOf[id] = k; site[id] = CB; }
                if (prim(G)) nops++;
            }
            T.trackPhi = [&](const Value *v) { return siteKey.count(v) > 0; };
            T.endsRun = [&](const CallBase *CB) { auto *G = P.callee(CB); return G && P.q(G) == "hila::finishrun"; };
            auto prob = [&](const std::string &rule, const std::string &d, const Instruction *I) {
                if (problems.insert({rule, d}).second) where[rule + d] = P.loc(I);
            };
            // pointers read to be stored elsewhere in the same block (swaps)
            std::map<const LoadInst *, int> moved;
            for (auto &I : instructions(C)) if (auto *L = dyn_cast<LoadInst>(&I)) if (L->getType()->isPointerTy() && L->hasOneUse()) if (auto *St = dyn_cast<StoreInst>(*L->user_begin())) if (St->getParent() == L->getParent() && St->getValueOperand() == L) moved.emplace(L, (int)moved.size());
            auto held = [&](const Value *v, TState &S) -> std::string {
                v = T.resolve(v, S);
                auto it = siteKey.find(v);
                if (it != siteKey.end()) return it->second;
                if (auto *L = dyn_cast<LoadInst>(v)) {
                    auto ld = moved.find(L); // its content when it was read
                    if (ld != moved.end()) {
                        auto r = S.res.find("ld:" + std::to_string(ld->second));
                        if (r == S.res.end()) return "";
                        for (auto &sk : siteKey) if (std::stoi(sk.second.substr(sk.second.rfind('#') + 1)) == r->second) return sk.second;
                        return "";
                    }
                    std::string p = "at:" + T.ptr(L->getPointerOperand());
                    auto r = S.res.find(p);
                    if (r != S.res.end()) for (auto &sk : siteKey) if (std::stoi(sk.second.substr(sk.second.rfind('#') + 1)) == r->second) return sk.second;
                }
                return "";
            };
            std::map<std::string, std::set<int>> deltas;
            T.effect = [&](const Instruction *I, TState &S) {
                if (auto *L = dyn_cast<LoadInst>(I)) {
                    auto ld = moved.find(L);
                    if (ld == moved.end()) return;
                    auto r = S.res.find("at:" + T.ptr(L->getPointerOperand()));
                    if (r != S.res.end()) S.res["ld:" + std::to_string(ld->second)] = r->second;
                    return;
                }
                if (auto *St = dyn_cast<StoreInst>(I)) {
                    if (!St->getValueOperand()->getType()->isPointerTy()) return;
                    std::string h = held(St->getValueOperand(), S);
                    if (auto *L = dyn_cast<LoadInst>(St->getValueOperand())) { auto ld = moved.find(L); if (ld != moved.end()) S.res.erase("ld:" + std::to_string(ld->second)); }
                    std::string dst = T.ptr(St->getPointerOperand());
                    S.res.erase("at:" + dst);
                    if (h.empty()) return;
                    if (kindOf[h].compare(0, 6, "object") && isa<AllocaInst>(P.path(St->getPointerOperand()).root) && dst.find("->") == std::string::npos)
                        S.res["at:" + dst] = std::stoi(h.substr(h.rfind('#') + 1));
                    else if (S.res.count(h) && S.res[h] == 1)
                        S.res[h] = 3; // handed over to an object
                    return;
                }
                auto *CB = dyn_cast<CallBase>(I);
                if (!CB) return;
                auto *G = P.callee(CB);
                if (!G) return;
                if (timerStart(P, G) || timerStop(P, G)) {
                    std::string k = "timer " + T.ptr(CB->getArgOperand(0));
                    int &v = S.res[k];
                    v += timerStart(P, G) ? 1 : -1;
                    if (v == 0) S.res.erase(k);
                    else if (v > 3 || v < -3) { prob("timer", k + " is started and stopped unevenly in a loop", CB); v = v > 0 ? 3 : -3; }
                    return;
                }
                auto it = siteKey.find(CB);
                if (it != siteKey.end()) {
                    int &v = S.res[it->second];
                    if (v == 1) prob("leak", kindOf[it->second] + " acquired again while the previous one is still held", CB);
                    v = 1;
                    return;
                }
                if (isRel(G) && CB->arg_size()) {
                    std::string h = held(CB->getArgOperand(0), S);
                    if (h.empty()) return;
                    int &v = S.res[h];
                    if (v == 2) prob("double-release", kindOf[h] + " is released twice", CB);
                    if (!REL.at(nameOf(G)).count(kindOf[h])) prob("wrong-release", kindOf[h] + " is released by " + nameOf(G), CB);
                    v = 2;
                    return;
                }
                // put into a container: the container's owner has it now
                if (P.isStd(G))
                    for (auto &arg : CB->args()) {
                        if (!arg->getType()->isPointerTy()) continue;
                        std::string h = held(arg, S);
                        if (!h.empty() && S.res.count(h) && S.res[h] == 1 && &arg != CB->arg_begin()) { S.res[h] = 3; continue; }
                        std::string pfx = "at:" + T.ptr(arg);
                        if (!isa<AllocaInst>(P.path(arg).root)) continue;
                        for (auto &r : std::map<std::string, int>(S.res))
                            if (r.first.compare(0, pfx.size(), pfx) == 0)
                                for (auto &sk : siteKey)
                                    if (std::stoi(sk.second.substr(sk.second.rfind('#') + 1)) == r.second && S.res[sk.second] == 1) S.res[sk.second] = 3;
                    }
            };
            T.atReturn = [&](const Instruction *I, const TState &S) {
                exits++;
                for (auto &r : S.res) {
                    if (r.first.compare(0, 6, "timer ") == 0) deltas[r.first].insert(r.second);
                    else if (r.first.compare(0, 3, "at:") != 0 && r.first.compare(0, 3, "ld:") != 0 && r.second == 1) {
                        if (auto *R = dyn_cast<ReturnInst>(I)) if (R->getReturnValue()) {
                            TState s = S;
                            const Value *v = T.resolve(R->getReturnValue(), S);
                            if (siteKey.count(v) && siteKey[v] == r.first) continue;
                        }
                        prob("leak", kindOf[r.first] + " is not released on a path that returns", site[r.first]);
                    }
                }
                for (auto &d : deltas) if (!S.res.count(d.first)) d.second.insert(0);
                deltas["exit"].insert(0);
            };
            // a timer absent at an earlier exit counts 0 there
            std::vector<std::set<std::string>> exitsSeen;
            auto ar = T.atReturn;
            T.atReturn = [&](const Instruction *I, const TState &S) {
                std::set<std::string> here;
                for (auto &r : S.res) if (r.first.compare(0, 6, "timer ") == 0) here.insert(r.first);
                exitsSeen.push_back(here);
                ar(I, S);
            };
            T.run();
            for (auto &d : deltas) for (auto &h : exitsSeen) if (!h.count(d.first)) { d.second.insert(0); break; }
            any = true;
            nroots++;
            if (T.gaveUp) { gave++; if (dbg) note("gave up " + shortDem(P, F)); allBalanced = false; IN.drop(C); continue; }
            bool inBase = base.count(bn.first) > 0;
            bool helper = !inBase && P.callers.count(F);
            bool bal = problems.empty();
            for (auto &d : deltas) {
                if (d.first == "exit") continue;
                if (d.second.size() == 1 && *d.second.begin() == 0) continue;
                bal = false;
                std::string v;
                for (int x : d.second) v += (v.empty() ? "" : ",") + std::to_string(x);
                std::string tn = d.first.substr(6);
                if (list || (helper && d.second.size() == 1)) continue;
                // how it is named must not depend on addresses
                size_t z = tn.find("0x");
                if (z != std::string::npos) tn = tn.substr(0, z) + "?";
                finding("timer", bn.first + "/" + tn, P.loc(F), shortDem(P, F) + ": timer " + tn + " is not stopped exactly as often as started on every path (balance " + v + ")");
            }
            if (!list)
                for (auto &p : problems) {
                    if (helper && p.first == "leak") continue;
                    finding(p.first, bn.first + "/" + p.second, where[p.first + p.second], shortDem(P, F) + ": " + p.second);
                }
            if (list && !bal) {
                note("unbalanced " + bn.first);
                for (auto &p : problems) note("   " + p.second);
                for (auto &d : deltas) if (!(d.second.size() == 1 && *d.second.begin() == 0)) note("   " + d.first);
            }
            if (!bal) allBalanced = false;
            if (!list) inst(bn.first + " (" + std::to_string(n) + " acquisitions)");
            IN.drop(C);
        }
        if (list && any && allBalanced) std::cout << "ROOT\t" << bn.first << "\n";
    }
    stat_("operations", nroots);
    stat_("acquire_release_sites", nops);
    stat_("path_ends_examined", exits);
    stat_("operations_too_large", skipped);
    stat_("operations_given_up", gave);
    return 0;
}

// C16: how the library ends the run.  Every call that ends the process outside hila::finishrun does so with a status that is
// certainly not zero; hila::terminate and hila::error never come back; hila::finishrun is not called from operations.
#include "ai.h"
#include <iostream>

static bool ends(const std::string &n) { return n == "exit" || n == "_exit" || n == "_Exit" || n == "quick_exit"; }

int checkFin(Program &P, const std::vector<std::string> &args) {
    bool dbg = false;
    for (auto &a : args) if (a == "debug") dbg = true;
    long calls = 0, finish = 0, enders = 0, paths = 0, gave = 0, sites = 0;
    // functions of the library: qualified ones, and those defined in the library's own units
    std::set<const DIFile *> libFiles;
    auto lib = [&](const Function *F) {
        const std::string &q = P.q(F);
        if (q == "main" || P.isStd(F)) return false;
        if (q.compare(0, 6, "hila::") == 0 || q.find("Field") == 0 || q.find("Lattice") == 0 || q.find("lattice_struct") == 0) return true;
        auto *SP = F->getSubprogram();
        if (!SP || !SP->getUnit()) return false;
        return SP->getUnit()->getFilename().contains("libraries/") || SP->getUnit()->getFilename().contains("lib3_") || SP->getUnit()->getFilename().contains("lib4_") || SP->getUnit()->getFilename().contains("lib2_") || SP->getFilename().contains("libraries/");
    };
    // ---- terminate and error: every path ends the process, not with success
    auto name = [&](const CallBase *C) -> std::string { auto *F = P.callee(C); return F ? F->getName().str() : ""; };
    std::set<const Function *> endsBad;
    for (auto *F : P.functions()) {
        const std::string &q = P.q(F);
        if (q != "hila::terminate" && q != "hila::error" && q != "hila::finishrun") continue;
        const bool fin = q == "hila::finishrun";
        Inliner IN(P, [&](const Function *G) { const std::string &g = P.q(G); return P.isStd(G) || g.find("timestamp") != std::string::npos || g.find("report") != std::string::npos || g.find("finish_communications") != std::string::npos || g.find("FFT_delete") != std::string::npos || g.find("synchronize") != std::string::npos || (g != "hila::terminate" && g != "hila::error" && G->getInstructionCount() > 400); });
        Function *C = IN.run(F, "sroa,mem2reg,simplifycfg");
        if (!C) { gave++; continue; }
        inst(q);
        enders++;
        std::set<std::string> told;
        auto tell = [&](const std::string &rule, const Instruction *I, const std::string &what) { if (told.insert(rule).second) finding(rule, q, I ? P.loc(I) : P.loc(F), what); };
        for (long status = 0; status < 3; status++) for (int rank = 0; rank < 2; rank++) {
            AI A(P);
            A.maxSteps = 60000;
            A.maxSame = 8;
            A.onCall = [&](const CallBase *CB, AState &, AVal &r) {
                auto *G = P.callee(CB);
                if (G && P.q(G) == "hila::myrank") { r = AVal::num(rank); return true; }
                return false;
            };
            bool any = false;
            A.onReturn = [&](const Instruction *I, const AVal &, AState &) { paths++; any = true; tell("comes-back", I, q + " comes back to its caller"); };
            A.onDead = [&](const Instruction *I, AState &S) {
                auto *CB = dyn_cast<CallBase>(I);
                if (!CB) return;
                std::string n = name(CB);
                if (n.find("assert_fail") != std::string::npos) return;
                paths++;
                any = true;
                auto *G = P.callee(CB);
                if (G && (P.q(G) == "hila::terminate" || P.q(G) == "hila::error")) return; // decided by itself
                if (n == "MPI_Abort" || ends(n)) {
                    AVal v = A.eval(CB->getArgOperand(n == "MPI_Abort" ? 1 : 0), S);
                    calls++;
                    if (fin) { if (v.k != AVal::Int || v.i != 0) tell("normal-end-status", I, "the normal end of a run reports status " + v.str()); }
                    else if (v.k != AVal::Int || (v.i & 255) == 0) tell("status-zero", I, q + (q == "hila::terminate" ? "(" + std::to_string(status) + ")" : "") + " ends the process with status " + v.str());
                }
            };
            A.run(C, AState(), {q == "hila::terminate" ? AVal::num(status) : AVal::addr("*MSG", 0)});
            if (A.gaveUp) gave++;
            if (!any && !A.gaveUp) note(q + ": no end found");
            if (q != "hila::terminate") break;
        }
        endsBad.insert(F);
        IN.drop(C);
    }
    // ---- every other end of the process
    std::function<bool(const Function *, const std::set<std::string> &, int)> onlyFrom = [&](const Function *F, const std::set<std::string> &ok, int depth) {
        if (ok.count(P.q(F))) return true;
        auto it = P.callers.find(F);
        if (it == P.callers.end() || it->second.empty() || depth > 6) return false;
        for (auto *C : it->second) if (!onlyFrom(C->getFunction(), ok, depth + 1)) return false;
        return true;
    };
    std::function<bool(const Value *, const Function *, int)> nonZero = [&](const Value *V, const Function *F, int depth) -> bool {
        if (auto *C = dyn_cast<ConstantInt>(V)) return (C->getZExtValue() & 255) != 0;
        if (auto *PN = dyn_cast<PHINode>(V)) { if (depth > 4) return false; for (auto &x : PN->incoming_values()) if (!nonZero(x, F, depth + 1)) return false; return true; }
        if (auto *SI = dyn_cast<SelectInst>(V)) return nonZero(SI->getTrueValue(), F, depth + 1) && nonZero(SI->getFalseValue(), F, depth + 1);
        if (auto *AR = dyn_cast<Argument>(V)) {
            auto it = P.callers.find(F);
            if (it == P.callers.end() || depth > 4) return false;
            for (auto *C : it->second) if (C->arg_size() <= AR->getArgNo() || !nonZero(C->getArgOperand(AR->getArgNo()), C->getFunction(), depth + 1)) return false;
            return !it->second.empty();
        }
        return false;
    };
    static const std::set<std::string> setup{
        "hila::initialize", "hila::cmdlinearguments::quit_with_help", "hila::cmdlineargs::quit_with_help", "lattice_struct::setup", "lattice_struct::setup_layout", "lattice_struct::setup_base_lattice",
        "report_too_large_node", "hila::setup_partitions", "hila::split_into_partitions", "setup_partitions", "setup_output", "split_into_partitions", "hila::finishrun"};
    for (auto *F : P.functions()) {
        if (!lib(F)) continue;
        const std::string &q = P.q(F);
        for (auto &I : instructions(F)) {
            auto *CB = dyn_cast<CallBase>(&I);
            if (!CB) continue;
            std::string n = name(CB);
            auto *G = P.callee(CB);
            if (ends(n) || n == "MPI_Abort") {
                if (q == "hila::terminate" || q == "hila::error" || q == "hila::finishrun" || endsBad.count(F)) continue;
                if (P.callers[F].empty() && n == "MPI_Abort") continue; // not used by anything
                calls++;
                inst("end " + q);
                if (onlyFrom(F, {"hila::finishrun", "hila::terminate", "hila::error"}, 0)) continue; // part of these, decided there
                if (!nonZero(CB->getArgOperand(n == "MPI_Abort" ? 1 : 0), F, 0)) finding("status-zero", q, P.loc(CB), "the run is ended here with a status that is or can be zero");
            }
            if (G && (P.q(G) == "hila::terminate" || P.q(G) == "hila::error")) {
                sites++;
            }
            if (G && P.q(G) == "hila::finishrun") {
                finish++;
                if (dbg) std::cout << "FINISH " << q << " " << P.loc(CB) << "\n";
                if (q.compare(0, 12, "hila::input:") == 0 || q.find("N4hila5input") != std::string::npos || q.find("cmdline") != std::string::npos || setup.count(q) || q.compare(0, 21, "lattice_struct::setup") == 0 || q.compare(0, 12, "hila::setup_") == 0) { inst("normal end " + q); continue; }
                std::set<std::string> ok = setup;
                bool fine = true;
                std::function<void(const Function *, int, std::set<const Function *> &)> up = [&](const Function *X, int d, std::set<const Function *> &seen) {
                    const std::string &x = P.q(X);
                    if (!seen.insert(X).second) return;
                    if (x.compare(0, 12, "hila::input:") == 0 || x.find("N4hila5input") != std::string::npos || x.find("cmdline") != std::string::npos || setup.count(x) || x.compare(0, 21, "lattice_struct::setup") == 0 || x.compare(0, 12, "hila::setup_") == 0) return;
                    auto it = P.callers.find(X);
                    if (it == P.callers.end() || it->second.empty()) { fine = false; return; }
                    for (auto *C : it->second) up(C->getFunction(), d + 1, seen);
                };
                std::set<const Function *> seen;
                up(F, 0, seen);
                if (!fine) finding("ends-as-success", q, P.loc(CB), "the run is ended in the normal way (status zero) from within an operation of the library that is not part of the set-up, the reading of parameters or the command line");
                else inst("normal end " + q);
            }
        }
    }
    stat_("ending_functions", enders);
    stat_("ending_paths", paths);
    stat_("ends_judged", calls);
    stat_("error_call_sites", sites);
    stat_("normal_end_call_sites", finish);
    stat_("given_up", gave);
    return 0;
}

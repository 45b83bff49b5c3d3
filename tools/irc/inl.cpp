#include "inl.h"
#include <algorithm>
#include "llvm/Analysis/AssumptionCache.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/Transforms/Utils/BasicBlockUtils.h"
#include "llvm/Transforms/Utils/Local.h"

void runPasses(Function &F, const char *passes) {
    static LoopAnalysisManager LAM;
    static FunctionAnalysisManager FAM;
    static CGSCCAnalysisManager CGAM;
    static ModuleAnalysisManager MAM;
    static std::unique_ptr<PassBuilder> PB;
    if (!PB) {
        PB = std::make_unique<PassBuilder>();
        PB->registerModuleAnalyses(MAM);
        PB->registerCGSCCAnalyses(CGAM);
        PB->registerFunctionAnalyses(FAM);
        PB->registerLoopAnalyses(LAM);
        PB->crossRegisterProxies(LAM, FAM, CGAM, MAM);
    }
    FunctionPassManager FPM;
    if (auto e = PB->parsePassPipeline(FPM, passes)) { errs() << "bad passes " << passes << "\n"; exit(3); }
    FPM.run(F, FAM);
    FAM.clear(F, F.getName());
    FAM.clear();
    LAM.clear();
}

bool noReturnCall(Program &P, const CallBase *C) {
    if (C->doesNotReturn()) return true;
    const Function *F = P.callee(C);
    if (!F) return false;
    if (F->hasFnAttribute(Attribute::NoReturn)) return true;
    if (F->isDeclaration()) {
        StringRef n = F->getName();
        return n == "exit" || n == "abort" || n == "_exit" || n == "__assert_fail";
    }
    // all paths end in unreachable
    static std::map<const Function *, int> memo;
    auto it = memo.find(F);
    if (it != memo.end()) return it->second == 1;
    memo[F] = 0;
    std::set<const BasicBlock *> seen;
    std::vector<const BasicBlock *> w{&F->getEntryBlock()};
    bool ret = false;
    while (!w.empty() && !ret) {
        auto *B = w.back(); w.pop_back();
        if (!seen.insert(B).second) continue;
        bool dead = false;
        for (auto &I : *B)
            if (auto *D = dyn_cast<CallBase>(&I))
                if (noReturnCall(P, D)) { dead = true; break; }
        if (dead) continue;
        if (isa<ReturnInst>(B->getTerminator())) ret = true;
        for (auto *S : successors(B)) w.push_back(S);
    }
    memo[F] = ret ? 2 : 1;
    return !ret;
}

// trivial std helpers that only pass values along
bool throughStdBasic(const std::string &q) {
    static const char *pre[] = {"std::array", "std::__array_traits", "std::initializer_list", "std::begin", "std::end", "std::move", "std::forward", "std::min", "std::max",
                                "std::swap", "std::addressof", "std::__addressof", "std::exchange", "std::__exchange", "std::pair", "std::as_const"};
    for (auto *p : pre) {
        size_t n = strlen(p);
        if (q.compare(0, n, p) == 0 && (q.size() == n || q[n] == ':' || q[n] == '<')) return true;
    }
    return false;
}

Function *Inliner::run(Function *F, const char *passes) {
    ValueToValueMapTy vm;
    Function *C = CloneFunction(F, vm);
    C->setName(F->getName() + ".inl");
    C->setLinkage(GlobalValue::InternalLinkage);
    C->setComdat(nullptr);
    // call site -> history of inlined functions
    std::vector<std::pair<const Function *, int>> hist;
    auto inHist = [&](int h, const Function *G) {
        for (; h >= 0; h = hist[h].second) if (hist[h].first == G) return true;
        return false;
    };
    std::vector<std::pair<CallBase *, int>> work;
    for (auto &I : instructions(C)) if (auto *CB = dyn_cast<CallBase>(&I)) work.push_back({CB, -1});
    long size = C->getInstructionCount();
    while (!work.empty()) {
        auto [CB, h] = work.back();
        work.pop_back();
        Function *G = const_cast<Function *>(Program::callee(CB));
        if (!G || G->isDeclaration() || G == F || inHist(h, G) || (keep(G) && !throughStdBasic(P.q(G)))) continue;
        if (noReturnCall(P, CB)) {
            // keep as a call, and make the end of the path visible
            if (!isa<UnreachableInst>(CB->getNextNode())) {
                // calls later in this block disappear with it
                std::set<Instruction *> dead;
                for (Instruction *n = CB->getNextNode(); n; n = n->getNextNode()) dead.insert(n);
                work.erase(std::remove_if(work.begin(), work.end(), [&](auto &w) { return dead.count(w.first); }), work.end());
                changeToUnreachable(CB->getNextNode());
            }
            continue;
        }
        if (CB->getFunctionType() != G->getFunctionType()) continue;
        size += G->getInstructionCount();
        if (size > maxInstr) { C->eraseFromParent(); return nullptr; }
        InlineFunctionInfo ifi;
        auto r = InlineFunction(*CB, ifi);
        if (!r.isSuccess()) continue;
        inlined++;
        hist.push_back({G, h});
        int nh = hist.size() - 1;
        for (auto *n : ifi.InlinedCallSites) work.push_back({n, nh});
    }
    runPasses(*C, passes);
    return C;
}

// Whole-root inlining: an operation with all its helpers as one function, so that how the code is cut into functions
// does not matter to the analyses.
#pragma once
#include "core.h"

struct Inliner {
    Program &P;
    // callees that stay calls (primitives the analysis looks at)
    std::function<bool(const Function *)> keep;
    long maxInstr = 60000;
    long inlined = 0;
    Inliner(Program &p, std::function<bool(const Function *)> k) : P(p), keep(k) {}
    // a copy of F with everything inlined and `passes` run; the caller erases it with drop(). nullptr: too large
    Function *run(Function *F, const char *passes = "sroa,simplifycfg");
    void drop(Function *C) { C->eraseFromParent(); }
};
void runPasses(Function &F, const char *passes);
// does the call never come back
bool noReturnCall(Program &P, const CallBase *C);

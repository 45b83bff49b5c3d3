// Path-sensitive typestate propagation over one (inlined) function.
#pragma once
#include "inl.h"
#include "poly.h"

struct TState {
    std::map<std::string, int> res;                // resource -> state
    std::map<std::string, bool> facts;             // branch condition -> value on this path
    std::map<const PHINode *, const Value *> phis; // what a phi stands for on this path (constants and acquisitions)
    bool operator<(const TState &o) const {
        if (res != o.res) return res < o.res;
        if (facts != o.facts) return facts < o.facts;
        return phis < o.phis;
    }
};

struct Typestate {
    Program &P;
    PolyEnv E;
    Function *F;
    // effect of an instruction; may look at resolve()
    std::function<void(const Instruction *, TState &)> effect;
    // at a normal return (or a call that ends the run normally)
    std::function<void(const Instruction *, const TState &)> atReturn;
    std::function<bool(const Value *)> trackPhi;   // values worth remembering through phis (besides constants)
    // told about each branch taken; returns false when the branch cannot be taken in this state
    std::function<bool(const Value *, bool, TState &)> onBranch;
    std::function<void(const BasicBlock *, const BasicBlock *, TState &)> onEdge; // told about each edge, after its phis
    std::function<bool(const CallBase *)> endsRun; // call treated as a return
    size_t maxStates = 200;                        // per block
    long steps = 0, maxSteps = 60000;
    // canonical text of a pointer, remembered
    const std::string &ptr(const Value *V) {
        auto it = ptrMemo.find(V);
        if (it == ptrMemo.end()) it = ptrMemo.emplace(V, E.ptr(V)).first;
        return it->second;
    }
    bool gaveUp = false;
    Typestate(Program &p, Function *f) : P(p), E(p), F(f) {}
    void run(TState init = {});
    const Value *resolve(const Value *V, const TState &S, int depth = 0);
    // 1 true, 0 false, -1 unknown
    int cond(const Value *V, const TState &S);
    std::string key(const Value *V, bool &neg, std::set<const Instruction *> &deps, std::vector<std::string> *loads = nullptr);
  private:
    std::map<const Value *, std::string> ptrMemo;
    std::map<const Value *, std::pair<std::string, bool>> keyMemo;
    std::map<std::string, int> keyCount;
    std::map<std::string, std::set<const BasicBlock *>> keyDeps;
    std::map<std::string, std::set<std::string>> keyLoads;
    std::set<const PHINode *> usefulPhi;
    void prepare();
    void assume(const Value *V, bool val, TState &S, int depth = 0);
};

// functions whose result stays the same during an operation
bool pureCall(const std::string &q);

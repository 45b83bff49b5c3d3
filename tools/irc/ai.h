// Abstract interpretation of (inlined) functions over a finite domain: known integers, addresses with known offsets, and
// everything else as an opaque term.  Branches on unknown terms go both ways and are remembered, so equal terms decide alike.
#pragma once
#include "inl.h"

struct AVal {
    enum K { Sym, Int, Addr } k = Sym;
    long i = 0;    // Int: value, Addr: byte offset
    std::string s; // Sym: term, Addr: base
    static AVal num(long v) { AVal a; a.k = Int; a.i = v; return a; }
    static inline size_t longest = 400; // terms beyond this are replaced by a name for them
    static AVal sym(const std::string &t) { AVal a; a.k = Sym; a.s = t.size() > longest ? std::string(t.find('#') == std::string::npos ? "h" : "#9.") + std::to_string(std::hash<std::string>()(t)) : t; return a; }
    static AVal addr(const std::string &b, long o) { AVal a; a.k = Addr; a.i = o; a.s = b; return a; }
    bool operator==(const AVal &o) const { return k == o.k && i == o.i && s == o.s; }
    bool operator<(const AVal &o) const { return k != o.k ? k < o.k : i != o.i ? i < o.i : s < o.s; }
    std::string str() const { return k == Int ? std::to_string(i) : k == Addr ? s + (i ? "+" + std::to_string(i) : "") : s; }
};

typedef std::pair<std::string, long> Cell; // base, offset

struct AState {
    std::map<const Value *, AVal> env;
    std::map<Cell, AVal> mem;
    std::map<std::string, long> facts; // decided terms
    std::map<std::string, long> user;  // the analysis' own state
    std::vector<std::string> trace;    // the analysis' own events
    std::map<const BasicBlock *, int> hot, rounds; // loops whose end could not be decided; rounds made
    std::map<const BasicBlock *, std::map<Cell, AVal>> snap; // local counters at the last arrival at a loop's head
    std::map<std::string, int> ver; // changes made to container objects
    int fresh = 0;
    bool snapped(const BasicBlock *B, const Cell &c) const { auto i = snap.find(B); return i != snap.end() && i->second.count(c); }
};

struct AI {
    Program &P;
    const DataLayout &DL;
    // handle a call: set the result and return true, or false for the default treatment
    std::function<bool(const CallBase *, AState &, AVal &)> onCall;
    // a call which ends the path (besides calls that do not return): true ends it silently
    std::function<void(const Cell &, bool known, const AVal &, const Instruction *, AState &)> onStore, onLoad;
    std::function<void(const Instruction *, const AVal &, AState &)> onReturn;
    std::function<void(const BasicBlock *header, AState &)> onWiden; // a loop is followed for an unknown number of rounds
    std::function<void(const Instruction *, AState &)> onDead; // at calls that do not return
    std::function<AVal(const Cell &, Type *, AState &)> initial; // first load of an unwritten cell (default: opaque)
    long steps = 0, maxSteps = 400000;
    long paths = 0;
    long copyWord = 8, maxCopy = 64; // memcpy from memory not yet known: word size, bytes followed
    int maxRounds = 600;              // of a loop whose end is known
    bool joinWords = false;           // a load of two words gives both
    bool packInts = false;            // words of two integers: numbers of 8 bytes are kept as two of 4
    int maxSame = 0;   // at most this many states per block, phi values and analysis state (0: all)
    long dropped = 0;
    bool gaveUp = false;
    AI(Program &p) : P(p), DL(p.M->getDataLayout()) {}
    AVal eval(const Value *V, AState &S);
    void run(Function *F, AState init, const std::vector<AVal> &args);
    AVal fold(unsigned op, const AVal &a, const AVal &b, unsigned bits);
    AVal simp(const AVal &a, const AState &S) {
        if (a.k == AVal::Sym) { auto it = S.facts.find(a.s); if (it != S.facts.end()) return AVal::num(it->second); }
        return a;
    }
    AVal load(const AVal &p, Type *T, AState &S, const Instruction *I);
    void store(const AVal &p, const AVal &v, AState &S, const Instruction *I);
  private:
    std::map<const Instruction *, int> id_;
    int id(const Value *V) { auto it = id_.find((const Instruction *)V); if (it == id_.end()) it = id_.emplace((const Instruction *)V, (int)id_.size()).first; return it->second; }
    AVal cmp(const CmpInst *C, AState &S);
    bool assume(const AVal &c, bool v, AState &S);
};
// byte offset of a member in a (debug info) class; -1 when unknown. path: "a.b.c"
long diOffset(const DICompositeType *T, const std::string &path, const DIType **out = nullptr);
const DICompositeType *diType(Program &P, const std::string &name, const std::string &file = "");
// the components of a vector term
std::vector<std::string> components(const std::string &t, unsigned n);

// Random numbers (C17): what the generator of every rank is seeded with, and the check in front of site loops that draw.
#include "ai.h"
#include "roots.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include <algorithm>
#include <iostream>

namespace {
// what a value looks like as a function of the rank number n
struct Dep {
    enum K { None, Inj, Lossy, Some } k = None; // none; injective in the low `bits` bits; part of the number was lost; depends somehow
    int bits = 0;
    int zeros = 0; // low bits known to be zero
    int sh = 0;    // the number was shifted up by this many bits
    std::string str() const { return k == None ? "does not depend on the rank" : k == Inj ? "distinct for " + std::to_string(bits) + " bits of rank number" : k == Lossy ? "loses part of the rank number" : "depends on the rank"; }
};
struct Term { std::string op; std::vector<Term> a; bool atom = false; };
Term parse(const std::string &s, size_t &p) {
    Term t;
    if (p < s.size() && s[p] == '[') { // memory content
        int d = 0;
        size_t st = p;
        for (; p < s.size(); p++) { if (s[p] == '[') d++; if (s[p] == ']' && --d == 0) { p++; break; } }
        while (p < s.size() && s[p] != ',' && s[p] != ')' && s[p] != '(') p++;
        t.op = s.substr(st, p - st);
        t.atom = true;
        return t;
    }
    size_t st = p;
    while (p < s.size() && s[p] != '(' && s[p] != ',' && s[p] != ')') p++;
    t.op = s.substr(st, p - st);
    if (p >= s.size() || s[p] != '(') { t.atom = true; return t; }
    p++;
    while (p < s.size() && s[p] != ')') {
        t.a.push_back(parse(s, p));
        if (p < s.size() && s[p] == ',') p++;
    }
    if (p < s.size()) p++;
    while (p < s.size() && s[p] != ',' && s[p] != ')') t.op += s[p++]; // marks of calls
    return t;
}
bool isNum(const Term &t, long &v) {
    if (!t.atom || t.op.empty()) return false;
    char *e;
    v = strtol(t.op.c_str(), &e, 10);
    return *e == 0;
}
Dep dep(const Term &t) {
    Dep r;
    long c = 0;
    if (isNum(t, c)) { r.zeros = c == 0 ? 64 : __builtin_ctzl((unsigned long)c); return r; }
    if (t.atom || t.a.empty()) {
        if (t.op.find("RANK") != std::string::npos) { r.k = Dep::Inj; r.bits = 32; }
        return r;
    }
    std::vector<Dep> d;
    bool any = false;
    for (auto &x : t.a) { d.push_back(dep(x)); any |= d.back().k != Dep::None; }
    const std::string &o = t.op;
    auto lossy = [&]() { for (auto &x : d) if (x.k == Dep::Some) return Dep{Dep::Some, 0, 0, 0}; return Dep{Dep::Lossy, 0, 0, 0}; };
    if (d.size() == 1 && (o == "zext" || o == "sext" || o == "trunc" || o == "freeze")) return d[0];
    if (d.size() == 2) {
        const Dep &x = d[0], &y = d[1];
        if (o == "shl" && isNum(t.a[1], c)) { Dep q = x; q.zeros = std::min(64L, x.zeros + c); if (q.k == Dep::Inj) { q.sh += c; q.bits = (int)std::max(0L, std::min((long)q.bits, 64L - q.sh)); } return q; }
        if (!any) { if (o == "mul") r.zeros = std::min(64, x.zeros + y.zeros); else if (o == "add" || o == "sub" || o == "xor" || o == "or") r.zeros = std::min(x.zeros, y.zeros); return r; }
        if (o == "add" || o == "sub" || o == "xor") {
            if (x.k == Dep::Inj || y.k == Dep::Inj) {
                if (x.k == Dep::None) return Dep{Dep::Inj, y.bits, 0, y.sh};
                if (y.k == Dep::None) return Dep{Dep::Inj, x.bits, 0, x.sh};
                // the low bits come from one of the two alone
                Dep best{Dep::Some, 0, 0, 0};
                if (x.k == Dep::Inj && !x.sh && std::min(x.bits, y.zeros) >= 16) best = Dep{Dep::Inj, std::min(x.bits, y.zeros), 0, 0};
                if (y.k == Dep::Inj && !y.sh && std::min(y.bits, x.zeros) >= std::max(16, best.bits)) best = Dep{Dep::Inj, std::min(y.bits, x.zeros), 0, 0};
                return best;
            }
            if (x.k == Dep::None || y.k == Dep::None) { const Dep &i = x.k == Dep::None ? y : x; return Dep{i.k, i.bits, 0, i.sh}; }
            return Dep{x.k == Dep::Lossy && y.k == Dep::Lossy ? Dep::Lossy : Dep::Some, 0, 0, 0};
        }
        if (o == "mul") {
            if (isNum(t.a[0], c) || isNum(t.a[1], c)) { const Dep &i = x.k == Dep::None ? y : x; if (c == 0) return Dep(); if (c & 1) return i; int z = __builtin_ctzl((unsigned long)c); return Dep{i.k, i.k == Dep::Inj ? std::max(0, std::min(i.bits, 64 - i.sh - z)) : 0, std::min(64, i.zeros + z), i.sh + z}; }
            return Dep{Dep::Some, 0, 0, 0};
        }
        if (o == "and" && isNum(t.a[0], c)) { Term u = t; std::swap(u.a[0], u.a[1]); return dep(u); }
        if ((o == "and" || o == "urem" || o == "srem") && isNum(t.a[1], c)) {
            unsigned long m = o == "and" ? (unsigned long)c + 1 : (unsigned long)c;
            int k = m && !(m & (m - 1)) ? __builtin_ctzl(m) : 0;
            if (o == "and" && c == -1) k = 64;
            if (x.k == Dep::Inj && std::min(x.bits, k - x.sh) >= 16) return Dep{Dep::Inj, std::min(x.bits, k - x.sh), x.zeros, x.sh};
            if (o != "and" && x.k == Dep::Inj && ((unsigned long)c >> x.sh) >= 65536) return Dep{Dep::Some, 0, 0, 0};
            return x.k == Dep::Inj || x.k == Dep::Lossy ? Dep{Dep::Lossy, 0, 0, 0} : x;
        }
        if (o == "lshr" && x.k == Dep::Inj && isNum(t.a[1], c) && c >= 0 && c <= x.sh) return Dep{Dep::Inj, x.bits, std::max(0, x.zeros - (int)c), x.sh - (int)c};
        if (o == "lshr" || o == "ashr" || o == "udiv" || o == "sdiv" || o == "or") return lossy();
        if (o == "eq" || o == "ne" || o == "slt" || o == "ult" || o == "sgt" || o == "ugt") return lossy();
    }
    if (o.compare(0, 3, "cmp") == 0 || o == "umin" || o == "umax" || o == "smin" || o == "smax") return any ? lossy() : r;
    if (any) return Dep{Dep::Some, 0, 0, 0}; // a function of it
    return r;
}
bool isEngine(const std::string &q) { return q.find("mersenne_twister_engine") != std::string::npos || q.find("_engine") != std::string::npos; }
std::string last(const std::string &q) { size_t k = q.rfind("::"); return k == std::string::npos ? q : q.substr(k + 2); }
bool clockish(const std::string &s) { for (auto n : {"clock_gettime", "clock", "gettimeofday", "random_device", "_rdtsc", "readcyclecounter", "getpid", "time(", "now", "/dev/"}) if (s.find(n) != std::string::npos) return true; return false; }
} // namespace

int checkRng(Program &P, const std::vector<std::string> &args) {
    bool dbg = false;
    for (auto &a : args) if (a == "debug") dbg = true;
    long seedPaths = 0, seedings = 0, randLoops = 0, siteLoops = 0, draws = 0, gave = 0, flagStores = 0, judged = 0;
    // ---- the generators hila::random() draws from
    std::set<const GlobalVariable *> drawn;
    const Function *randomF = nullptr;
    std::set<const Function *> drawers;
    for (auto *F : P.functions()) {
        const std::string &q = P.q(F);
        if (q != "hila::random" && q != "hila::host_random") continue;
        if (q == "hila::random") randomF = F;
        drawers.insert(F);
        for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) for (auto &o : C->args()) {
            Path p = P.path(o.get());
            if (auto *G = dyn_cast_or_null<GlobalVariable>(p.root)) { std::string s; raw_string_ostream os(s); G->getValueType()->print(os); if (s.find("engine") != std::string::npos) drawn.insert(G); }
        }
    }
    if (!randomF) { note("hila::random not found"); return 0; }
    // ---- A: seeding
    std::set<std::string> seeded; // generators that are seeded on every path
    auto keptName = [](const std::string &q) {
        return q == "hila::myrank" || q == "hila::number_of_nodes" || q.compare(0, 15, "hila::broadcast") == 0 || q.find("is_initialized") != std::string::npos || q == "hila::error" || q == "hila::terminate" || q.find("partitions_struct") != std::string::npos || q.find("hila::timer") == 0 || q.find("hila::log") == 0;
    };
    Inliner IN(P, [&](const Function *F) { return P.isStd(F) || keptName(P.q(F)) || F->getInstructionCount() > 3000; });
    IN.maxInstr = 20000;
    const char *pass = "sroa,early-cse<memssa>,simplifycfg";
    std::string flag; // the global is_rng_seeded() tells
    for (auto *F : P.functions()) if (P.q(F) == "hila::is_rng_seeded") for (auto &I : instructions(F)) if (auto *L = dyn_cast<LoadInst>(&I)) if (auto *G = dyn_cast<GlobalVariable>(L->getPointerOperand())) flag = "@" + G->getName().str();
    if (flag.empty()) note("the flag behind is_rng_seeded is not found");
    for (auto *F : P.functions()) {
        const std::string &q = P.q(F);
        if (q != "hila::seed_random" && q != "hila::initialize_host_rng") continue;
        const bool top = q == "hila::seed_random";
        Function *C = IN.run(F, pass);
        if (!C) { gave++; continue; }
        inst(q);
        std::set<std::string> told;
        auto tell = [&](const std::string &rule, const Instruction *I, const std::string &what) { if (told.insert(rule).second) finding(rule, q, I ? P.loc(I) : P.loc(F), what); };
        bool all = true;
        long rets = 0;
        for (int parts = 1; parts <= 2; parts++) for (int given = 0; given <= (top ? 1 : 0); given++) { // top: 0 the clock decides, 1 a given seed
            AI A(P);
            A.maxSteps = 400000;
            A.maxSame = 6;
            AVal::longest = 60000;
            A.onCall = [&](const CallBase *CB, AState &S, AVal &r) {
                auto *G = P.callee(CB);
                if (!G) return false;
                const std::string &g = P.q(G);
                if (g == "hila::myrank") { r = AVal::sym("RANK"); return true; }
                if (g == "hila::number_of_nodes") { r = AVal::sym("NODES"); return true; }
                if (g.find("partitions_struct::number") != std::string::npos) { r = AVal::num(parts); return true; }
                if (g.find("partitions_struct") != std::string::npos) { r = AVal::sym("PARTITION"); return true; }
                if (g.find("is_initialized") != std::string::npos) { r = AVal::num(1); return true; }
                auto deliver = [&](unsigned k) {
                    AVal p = A.eval(CB->getArgOperand(k), S);
                    if (p.k == AVal::Addr) {
                        auto it = S.mem.find({p.s, p.i});
                        std::string was = it != S.mem.end() ? it->second.str() : "";
                        S.mem[{p.s, p.i}] = AVal::sym("AGREED");
                    }
                    r = AVal::sym("AGREED");
                };
                if (g.compare(0, 15, "hila::broadcast") == 0 && CB->arg_size()) { deliver(0); return true; }
                if (G->getName() == "MPI_Bcast") { deliver(0); r = AVal::num(0); return true; }
                // clocks write into structures given to them
                if (clockish(G->getName().str()) || clockish(g)) {
                    for (auto &o : CB->args()) if (o->getType()->isPointerTy()) { AVal p = A.eval(o.get(), S); if (p.k == AVal::Addr) for (long x = 0; x < 32; x += 8) S.mem[{p.s, p.i + x}] = AVal::sym("CLOCK" + std::to_string(x)); }
                    r = AVal::sym("CLOCK");
                    return true;
                }
                if (P.isStd(G) && isEngine(g) && CB->arg_size()) {
                    std::string l = last(g);
                    AVal eng = A.eval(CB->getArgOperand(0), S);
                    if ((l == "seed" || l == "mersenne_twister_engine" || l == "operator=") && CB->arg_size() >= 2) {
                        AVal v = A.eval(CB->getArgOperand(1), S);
                        if (v.k == AVal::Addr && CB->getArgOperand(1)->getType()->isPointerTy()) { // seed given by reference
                            auto it = S.mem.find({v.s, v.i});
                            v = it != S.mem.end() ? it->second : AVal::sym("[" + v.str() + "]");
                        }
                        S.user["seeded " + eng.str()] = 1;
                        std::string t = v.str();
                        seedings++;
                        if (dbg) std::cout << q << " partitions " << parts << " given " << given << ": " << t << "\n";
                        size_t p0 = 0;
                        Dep d = dep(parse(t, p0));
                        bool vague = false; // part of the value is not spelled out
                        for (size_t i = 0; i + 9 < t.size() && !vague; i++) if ((t[i] == 'h' && (i == 0 || !isalnum(t[i - 1])) && isdigit(t[i + 1]) && isdigit(t[i + 8])) || t.compare(i, 3, "#9.") == 0) vague = true;
                        const bool fixed = A.simp(AVal::sym("RANK"), S).k == AVal::Int; // what one certain rank does
                        if (!fixed) judged++;
                        if (fixed || vague) { }
                        else if (d.k == Dep::None || d.k == Dep::Lossy || (d.k == Dep::Inj && d.bits < 16))
                            tell("same-seed", CB, "the value the generator is seeded with " + d.str() + ": " + t.substr(0, 160));
                        if (parts == 2 && !vague && t.find("PARTITION") == std::string::npos) tell("same-seed-partitions", CB, "the value the generator is seeded with does not depend on the lattice partition: " + t.substr(0, 160));
                        if (top && given == 0 && !vague) {
                            if (t.find("CLOCK") != std::string::npos) tell("seed-not-agreed", CB, "a seed taken from the clock is used without being made common to all ranks: " + t.substr(0, 160));
                            else if (t.find("AGREED") == std::string::npos) tell("seed-not-agreed", CB, "with no seed given, the generator is seeded without a value common to all ranks: " + t.substr(0, 160));
                        }
                        if (top && given == 1 && !vague && t.find("SEED") == std::string::npos && t.find("AGREED") == std::string::npos) tell("seed-ignored", CB, "the given seed does not enter the value the generator is seeded with: " + t.substr(0, 160));
                        r = AVal::num(0);
                        return true;
                    }
                }
                return false;
            };
            A.onReturn = [&](const Instruction *I, const AVal &, AState &S) {
                seedPaths++;
                rets++;
                for (auto *G : drawn) if (!S.user.count("seeded @" + G->getName().str())) { all = false; tell("not-seeded", I, "a path through " + q + " leaves the generator of hila::random unseeded"); }
            };
            AState in;
            std::vector<AVal> av{top && !given ? AVal::num(0) : AVal::sym("SEED"), AVal::num(1)};
            if (top && given) in.facts["eq(SEED,0)"] = 0, in.facts["ne(SEED,0)"] = 1;
            A.run(C, in, av);
            if (A.gaveUp) gave++;
        }
        if (!judged) note(q + ": no seed value of a general rank");
        if (!rets) { note(q + " has no returning path"); gave++; }
        (void)all;
        IN.drop(C);
    }
    // ---- B: the check function, and the flag
    std::set<const Function *> checks;
    for (auto *F : P.functions()) {
        if (P.q(F) != "hila::check_that_rng_is_initialized") continue;
        checks.insert(F);
        Function *C = IN.run(F, pass);
        if (!C) { gave++; continue; }
        inst(P.q(F));
        for (int v = 0; v < 2; v++) {
            AI A(P);
            long rets = 0;
            bool dep = false;
            A.initial = [&](const Cell &c, Type *, AState &) -> AVal { if (c.first == flag && c.second == 0) { dep = true; return AVal::num(v); } return AVal::sym("[" + AVal::addr(c.first, c.second).str() + "]"); };
            A.onCall = [&](const CallBase *CB, AState &, AVal &r) { auto *G = P.callee(CB); if (G && P.q(G) == "hila::is_rng_seeded") { dep = true; r = AVal::num(v); return true; } return false; };
            A.onReturn = [&](const Instruction *, const AVal &, AState &) { rets++; };
            AState in;
            A.run(C, in, {});
            if (!flag.empty() && v == 0 && rets) finding("check-passes-unseeded", P.q(F), P.loc(F), dep ? "the check in front of random site loops returns although the generator is not seeded" : "the check in front of random site loops does not look at whether the generator is seeded");
            if (!flag.empty() && v == 1 && !rets) finding("check-fails-seeded", P.q(F), P.loc(F), "the check in front of random site loops ends the run although the generator is seeded");
        }
        IN.drop(C);
    }
    if (checks.empty()) note("hila::check_that_rng_is_initialized not found");
    if (!flag.empty()) {
        // who sets the flag; it starts false
        auto *G = P.M->getGlobalVariable(flag.substr(1), true);
        if (G && G->hasInitializer() && !G->getInitializer()->isNullValue()) finding("flag-set", flag, P.loc(randomF), "the generator counts as seeded from the start");
        auto seedReach = reaching(P, [&](const CallBase *C) { auto *H = P.callee(C); return H && isEngine(P.q(H)) && last(P.q(H)) == "seed"; }, 6, [&](const Function *F) { return P.isStd(F); });
        if (G) for (auto *F : P.functions()) for (auto &I : instructions(F)) if (auto *S = dyn_cast<StoreInst>(&I)) if (S->getPointerOperand() == G) {
            flagStores++;
            if (auto *CI = dyn_cast<ConstantInt>(S->getValueOperand())) if (CI->isZero()) continue;
            if (!seedReach.count(F)) finding("flag-set", P.q(F), P.loc(S), P.q(F) + " marks the generator as seeded without seeding it");
        }
    }
    // ---- C: site loops that draw
    auto isDraw = [&](const CallBase *C) { auto *G = P.callee(C); return G && (drawers.count(G) || P.q(G) == "hila::random" || P.q(G) == "hila::host_random" || P.q(G) == "hila::gaussrand" || P.q(G) == "hila::gaussrand2" || P.q(G) == "rng_elsewhere"); };
    auto reach = reaching(P, isDraw, 12, [&](const Function *F) { return P.isStd(F); });
    for (auto *F : P.functions()) {
        if (P.isStd(F)) continue;
        std::vector<const CallBase *> ends, chk, drawC;
        for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(C)) {
            const std::string &g = P.q(G);
            if (g.compare(0, 7, "lattice") == 0 && last(g) == "loop_end") ends.push_back(C);
            else if (checks.count(G) || g == "hila::check_that_rng_is_initialized") chk.push_back(C);
            else if (isDraw(C) || reach.count(G)) drawC.push_back(C);
        }
        if (ends.empty()) continue;
        DominatorTree DT(*const_cast<Function *>(F));
        LoopInfo LI(DT);
        // site loops: loops left when the index reaches loop_end
        std::map<const Loop *, const CallBase *> site;
        auto comesFrom = [&](const Value *V) -> const CallBase * {
            for (int k = 0; k < 12; k++) {
                if (auto *C = dyn_cast<CastInst>(V)) V = C->getOperand(0);
                else if (auto *B = dyn_cast<BinaryOperator>(V); B && isa<ConstantInt>(B->getOperand(1))) V = B->getOperand(0);
                else break;
            }
            auto *C = dyn_cast<CallBase>(V);
            return C && std::find(ends.begin(), ends.end(), C) != ends.end() ? C : nullptr;
        };
        for (auto *L : LI.getLoopsInPreorder()) {
            SmallVector<BasicBlock *, 4> ex;
            L->getExitingBlocks(ex);
            for (auto *X : ex) if (auto *B = dyn_cast<BranchInst>(X->getTerminator())) if (B->isConditional()) if (auto *Cm = dyn_cast<ICmpInst>(B->getCondition()))
                for (int k = 0; k < 2; k++) if (auto *E = comesFrom(Cm->getOperand(k))) site[L] = E;
        }
        siteLoops += site.size();
        std::set<const Loop *> rl;
        for (auto *C : drawC) {
            const Loop *L = LI.getLoopFor(C->getParent());
            while (L && !site.count(L)) L = L->getParentLoop();
            if (!L) continue;
            draws++;
            if (rl.insert(L).second) { randLoops++; inst("random loop in " + P.q(F)); }
            bool ok = false;
            for (auto *K : chk) if (DT.dominates(K, L->getHeader()->getTerminator()) && !L->contains(K->getParent())) ok = true;
            if (!ok) finding("loop-unchecked", P.q(F), P.loc(C), P.q(F) + ": a site loop draws random numbers (through " + P.q(P.callee(C)) + ") without checking before that the generator is seeded");
        }
    }
    stat_("generators", drawn.size());
    stat_("seedings", seedings);
    stat_("seed_values_judged", judged);
    stat_("seed_paths", seedPaths);
    stat_("flag_stores", flagStores);
    stat_("site_loops", siteLoops);
    stat_("random_site_loops", randLoops);
    stat_("draws_in_site_loops", draws);
    stat_("given_up", gave);
    return 0;
}

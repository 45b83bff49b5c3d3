// Non-blocking messages outside the halo exchange (C05), and the life of reduction objects (C04, C05).
//  A: operations that start messages with requests of their own: all of them are waited for before the operation returns.
//  B: Reduction and ReductionVector: reachable abstract states of one object under every sequence of its public operations.
#include "ai.h"
#include "roots.h"
#include "tstate.h"
#include "llvm/Analysis/LoopInfo.h"
#include <algorithm>
#include <deque>
#include <iostream>

static bool start(StringRef n) { return n.starts_with("MPI_I") && n != "MPI_Init" && n != "MPI_Initialized" && n != "MPI_Iprobe" && n != "MPI_Init_thread"; }
static const std::set<std::string> ACC{"operator[]", "data", "size", "begin", "end", "front", "back", "empty", "cbegin", "cend"};
static std::string lastPart(const std::string &q) { size_t k = q.rfind("::"); return k == std::string::npos ? q : q.substr(k + 2); }
// small accessors of containers are looked through
static bool throughStd(Program &P, const Function *F) {
    const std::string &q = P.q(F);
    if (q.compare(0, 10, "std::array") == 0 || q.compare(0, 19, "std::__array_traits") == 0) return true;
    if (q.compare(0, 17, "__gnu_cxx::__norm") == 0 || q.compare(0, 19, "__gnu_cxx::operator") == 0 || q.compare(0, 15, "bool __gnu_cxx:") == 0) return true;
    if (q.compare(0, 11, "std::vector") == 0 && ACC.count(lastPart(q))) return true;
    if (q.compare(0, 11, "std::vector") == 0 && lastPart(q) == "_M_data_ptr") return true;
    return false;
}
static std::string rootOf(const std::string &s) {
    size_t cut = 0;
    for (int d = 0; cut < s.size(); cut++) { char c = s[cut]; if (c == '(' || c == '[') d++; else if (c == ')' || c == ']') d--; else if (c == '+' && !d) break; }
    return s.substr(0, cut);
}
static bool isMpi(StringRef n) { return n.starts_with("MPI_"); }
static int typeSize(const std::string &t) {
    if (t.find("long_double") != std::string::npos) return 16;
    if (t.find("double") != std::string::npos || t.find("long") != std::string::npos) return 8;
    if (t.find("float") != std::string::npos || t.find("int") != std::string::npos || t.find("unsigned") != std::string::npos) return 4;
    return 1;
}

// --------------------------------------------------------------------------------------------------------------- A
static void local(Program &P, long &nroots, long &npaths, long &nstarts, long &gave) {
    auto op = [&](const CallBase *C) { auto *F = P.callee(C); return F && (start(F->getName()) || F->getName().starts_with("MPI_Wait")); };
    auto reach = reaching(P, op, 12, [&](const Function *F) { return P.isStd(F); });
    // candidates: functions whose requests live in themselves; climb when the request comes from the caller
    std::set<Function *> roots;
    std::set<const Function *> done;
    std::deque<std::pair<const Function *, int>> work;
    for (auto &r : reach) if (r.second == 0 && !P.isStd(r.first)) work.push_back({r.first, 0});
    std::map<const Function *, std::set<unsigned>> via; // argument of a helper through which requests come
    while (!work.empty()) {
        auto *F = work.front().first;
        int lvl = work.front().second;
        work.pop_front();
        if (lvl > 6) continue;
        std::set<unsigned> args;
        bool own = false;
        for (auto &I : instructions(F)) {
            auto *C = dyn_cast<CallBase>(&I);
            auto *G = C ? P.callee(C) : nullptr;
            if (!G) continue;
            std::vector<const Value *> reqs;
            if (op(C)) {
                auto *S = mpiSig(G->getName());
                int ix = G->getName() == "MPI_Wait" ? 0 : G->getName().starts_with("MPI_Waita") ? 1 : G->getName() == "MPI_Isend" || G->getName() == "MPI_Irecv" ? 6 : (int)C->arg_size() - 1;
                if (S && S->req >= 0) ix = S->req;
                reqs.push_back(C->getArgOperand(ix));
            } else if (via.count(G)) for (unsigned a : via[G]) if (a < C->arg_size()) reqs.push_back(C->getArgOperand(a));
            for (auto *R : reqs) {
                Path p = P.path(R);
                // elements of a container: the container
                const Value *V = p.root;
                for (int k = 0; k < 8 && V; k++) {
                    auto *CB = dyn_cast<CallBase>(V);
                    if (!CB || !CB->arg_size()) break;
                    p = P.path(CB->getArgOperand(0));
                    V = p.root;
                }
                if (V && isa<AllocaInst>(V)) own = true;
                else if (auto *A = dyn_cast_or_null<Argument>(V)) {
                    const std::string &q = P.q(F);
                    bool member = A->getArgNo() == 0 && q.find("::") != std::string::npos && (q.compare(0, 7, "Field::") == 0 && q.find("field_struct") == std::string::npos || q.compare(0, 9, "Reduction") == 0);
                    if (!member) args.insert(A->getArgNo());
                } else if (V && isa<CallBase>(V)) own = true;
            }
        }
        if (own) roots.insert(const_cast<Function *>(F));
        if (!args.empty() && via[F] != args) {
            via[F] = args;
            auto it = P.callers.find(F);
            if (it != P.callers.end()) for (auto *C : it->second) work.push_back({C->getFunction(), lvl + 1});
        }
    }
    Inliner IN(P, [&](const Function *F) {
        if (throughStd(P, F)) return false;
        if (P.isStd(F)) return true;
        if (reach.count(F)) return false;
        const std::string &q = P.q(F);
        if (q.compare(0, 11, "hila::timer") == 0 || pureCall(q) || q.compare(0, 7, "lattice") == 0 || q.compare(0, 7, "Lattice") == 0 || q.compare(0, 7, "field_s") == 0) return true;
        return F->getInstructionCount() > 40;
    });
    IN.maxInstr = 40000;
    for (auto *R : roots) {
        const std::string name = shortDem(P, R);
        Function *C = IN.run(R, "sroa,early-cse<memssa>,simplifycfg");
        if (!C) { gave++; note("too large: " + name); continue; }
        nroots++;
        if (getenv("REQDBG")) std::cerr << "ROOT " << name << " " << C->getInstructionCount() << std::endl;
        inst(name);
        auto report = [&](const std::string &rule, const Instruction *I, const std::string &msg) {
            finding(rule, P.q(R), I ? P.loc(I) : P.loc(R), name + ": " + msg);
        };
        AI A(P);
        A.maxSteps = 3000000;
        struct Left { const Instruction *I; std::set<std::string> arrays; std::map<std::string, long> facts; };
        std::vector<Left> left;
        std::map<std::string, std::set<std::string>> counts; // array -> unknown numbers waited for
        std::map<std::string, std::string> sizes;            // container -> size it was made with
        std::map<const CallBase *, const Value *> waitBound; // MPI_Wait on element 0..bound-1 of an array: the bound
        // loops that start messages
        std::map<const BasicBlock *, bool> starts;
        {
            DominatorTree DT(*C);
            LoopInfo LI(DT);
            for (auto &B : *C) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(CB)) if (start(G->getName()))
                for (const Loop *L = LI.getLoopFor(&B); L; L = L->getParentLoop()) starts[L->getHeader()] = true;
            for (auto &B : *C) for (auto &I : B) if (auto *CB = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(CB)) if (G->getName() == "MPI_Wait")
                if (auto *L = LI.getLoopFor(&B)) {
                    // the only way out is the counter, which starts at 0 and goes up by one; the wait is in every round
                    auto *X = L->getExitingBlock();
                    auto *Br = X ? dyn_cast<BranchInst>(X->getTerminator()) : nullptr;
                    auto *Cm = Br && Br->isConditional() ? dyn_cast<ICmpInst>(Br->getCondition()) : nullptr;
                    if (!Cm || X != L->getHeader() || !L->getLoopLatch() || !DT.dominates(&B, L->getLoopLatch())) continue;
                    for (auto &PN : L->getHeader()->phis()) {
                        const ConstantInt *st = nullptr;
                        for (unsigned i = 0; i < PN.getNumIncomingValues(); i++) if (!L->contains(PN.getIncomingBlock(i))) {
                            st = dyn_cast<ConstantInt>(PN.getIncomingValue(i));
                            if (!st || !st->isZero()) { st = nullptr; break; }
                        }
                        auto *nx = dyn_cast<BinaryOperator>(PN.getIncomingValueForBlock(L->getLoopLatch()));
                        if (!st || !st->isZero() || !nx || nx->getOpcode() != Instruction::Add || nx->getOperand(0) != &PN || !isa<ConstantInt>(nx->getOperand(1)) || !cast<ConstantInt>(nx->getOperand(1))->isOne()) continue;
                        auto strip = [](const Value *v) { while (auto *c = dyn_cast<CastInst>(v)) v = c->getOperand(0); return v; };
                        bool lt = Cm->getPredicate() == ICmpInst::ICMP_SLT || Cm->getPredicate() == ICmpInst::ICMP_ULT || Cm->getPredicate() == ICmpInst::ICMP_NE;
                        if (!lt || strip(Cm->getOperand(0)) != &PN) continue;
                        // the request is the counter's element
                        const Value *R = CB->getArgOperand(0);
                        auto *Ge = dyn_cast<GetElementPtrInst>(R);
                        auto *In = dyn_cast<CallBase>(R);
                        const Value *ix = Ge ? Ge->getOperand(Ge->getNumOperands() - 1) : In && In->arg_size() == 2 ? In->getArgOperand(1) : nullptr;
                        if (ix && strip(ix) == &PN) waitBound[CB] = Cm->getOperand(1);
                    }
                }
        }
        A.onWiden = [&](const BasicBlock *H, AState &S) { if (starts.count(H)) S.user["wide"] = 1; };
        A.maxSame = 8;
        A.onCall = [&](const CallBase *CB, AState &S, AVal &r) {
            auto *G = P.callee(CB);
            if (!G) return false;
            StringRef n = G->getName();
            if (start(n)) {
                nstarts++;
                auto *sg = mpiSig(n);
                int ix = n == "MPI_Isend" || n == "MPI_Irecv" ? 6 : (int)CB->arg_size() - 1;
                if (sg && sg->req >= 0) ix = sg->req;
                AVal rq = A.eval(CB->getArgOperand(ix), S), b = A.eval(CB->getArgOperand(0), S);
                std::string slot = rq.str();
                bool wide = slot.find('~') != std::string::npos;
                if (slot.find('#') != std::string::npos) { wide = true; slot = "~any"; }
                if (wide) S.user["wide"] = 1;
                if (S.user["pend " + slot] && !wide) report("request-reused", CB, n.str() + " uses a request that is still in flight");
                S.user["pend " + slot] = 1;
                S.user[std::string(n == "MPI_Irecv" ? "rbuf " : "sbuf ") + slot + "|" + b.str()] = 1;
                r = AVal::num(0);
                return true;
            }
            auto finish = [&](const std::string &slot) {
                S.user["waited " + (slot.find('#') != std::string::npos ? std::string("~any") : rootOf(slot))] = 1;
                S.user["pend " + slot] = 0;
                for (auto i = S.user.begin(); i != S.user.end();) {
                    if (i->first.compare(1, 4, "buf ") == 0 && i->first.compare(5, slot.size() + 1, slot + "|") == 0) i = S.user.erase(i); else ++i;
                }
            };
            auto waitArray = [&](const AVal &cnt, const AVal &base) { // an unknown number: all of this array
                std::vector<std::string> sl;
                std::string rt = rootOf(base.str());
                counts[rt].insert(cnt.str());
                S.user["waited " + (rt.find('#') != std::string::npos ? std::string("~any") : rt)] = 1;
                auto sz = rt.size() > 2 && rt[0] == '[' ? sizes.find(rt.substr(1, rt.size() - 2)) : sizes.end();
                if (sz != sizes.end() && cnt.k == AVal::Sym && cnt.s.find('~') == std::string::npos && !S.user["wide"] && sz->second != cnt.s)
                    report("wait-count", CB, n.str() + " waits for " + cnt.s + " of the " + sz->second + " requests");
                for (auto &u : S.user) if (u.second && u.first.compare(0, 5, "pend ") == 0 && rootOf(u.first.substr(5)) == rt) sl.push_back(u.first.substr(5));
                for (auto &x : sl) finish(x);
            };
            if (n == "MPI_Wait" && waitBound.count(CB)) {
                AVal cnt = A.eval(waitBound[CB], S);
                if (cnt.k == AVal::Sym) { waitArray(cnt, A.eval(CB->getArgOperand(0), S)); r = AVal::num(0); return true; }
            }
            if (n == "MPI_Wait") {
                std::string slot = A.eval(CB->getArgOperand(0), S).str();
                if (!S.user["pend " + slot] && !S.user["wide"]) report("wait-without-start", CB, "MPI_Wait on a request that is not in flight");
                finish(slot);
                r = AVal::num(0);
                return true;
            }
            if (n == "MPI_Waitall") {
                AVal cnt = A.eval(CB->getArgOperand(0), S), base = A.eval(CB->getArgOperand(1), S);
                if (cnt.k == AVal::Int && base.k == AVal::Addr && !S.user["wide"]) {
                    for (long k = 0; k < cnt.i && k < 64; k++) {
                        std::string slot = AVal::addr(base.s, base.i + 8 * k).str();
                        if (!S.user["pend " + slot]) { report("wait-without-start", CB, "MPI_Waitall is told of a request that was not started"); break; }
                        finish(slot);
                    }
                } else waitArray(cnt, base);
                r = AVal::num(0);
                return true;
            }
            if (P.isStd(G) && lastPart(P.q(G)) == "vector" && CB->arg_size() > 1 && CB->getArgOperand(1)->getType()->isIntegerTy())
                sizes[A.eval(CB->getArgOperand(0), S).str()] = A.eval(CB->getArgOperand(1), S).str();
            // handing a buffer in flight to somebody, or giving its memory back
            if (S.user["wide"]) return false;
            bool dtor = P.isStd(G) && lastPart(P.q(G))[0] == '~';
            static const std::set<std::string> mod{"resize", "push_back", "clear", "assign", "operator=", "swap", "reserve", "emplace_back", "insert", "erase", "pop_back", "shrink_to_fit"};
            bool change = P.isStd(G) && mod.count(lastPart(P.q(G)));
            if (CB->arg_size() && (dtor || change)) {
                AVal o = A.eval(CB->getArgOperand(0), S);
                for (auto &u : S.user) if (u.second && u.first.compare(1, 4, "buf ") == 0) {
                    std::string b = u.first.substr(u.first.find('|') + 1);
                    if (rootOf(b).compare(0, 1 + o.str().size(), "[" + o.str()) == 0) report("freed-in-flight", CB, "a container is " + std::string(dtor ? "destroyed" : "changed") + " while a message to or from its memory is in flight");
                }
            }
            if (!P.isStd(G) && !isa<IntrinsicInst>(CB) && !pureCall(P.q(G)))
                for (unsigned i = 0; i < CB->arg_size(); i++) {
                    if (!CB->getArgOperand(i)->getType()->isPointerTy()) continue;
                    std::string b = A.eval(CB->getArgOperand(i), S).str();
                    for (auto &u : S.user) if (u.second && u.first.compare(1, 4, "buf ") == 0 && u.first.substr(u.first.find('|') + 1) == b) {
                        bool ro = CB->paramHasAttr(i, Attribute::ReadOnly);
                        if (u.first[0] == 'r') report("used-in-flight", CB, "a receive buffer is handed to " + P.q(G) + " before the message has been waited for");
                        else if (!ro && G->isDeclaration() == false) { }
                    }
                }
            if (auto *MI = dyn_cast<MemTransferInst>(CB)) {
                std::string d = A.eval(MI->getRawDest(), S).str(), s = A.eval(MI->getRawSource(), S).str();
                for (auto &u : S.user) if (u.second && u.first.compare(1, 4, "buf ") == 0) {
                    std::string b = u.first.substr(u.first.find('|') + 1);
                    if (b == d || (b == s && u.first[0] == 'r')) report("used-in-flight", CB, "a message buffer is copied " + std::string(b == d ? "to" : "from") + " before the message has been waited for");
                }
            }
            return false;
        };
        auto touch = [&](const Cell &c, bool st, const Instruction *I, AState &S) {
            if (S.user["wide"]) return;
            std::string a = AVal::addr(c.first, c.second).str();
            for (auto &u : S.user) if (u.second && u.first.compare(1, 4, "buf ") == 0) {
                if (!st && u.first[0] == 's') continue;
                std::string b = u.first.substr(u.first.find('|') + 1);
                if (b == a) report("used-in-flight", I, std::string("a message buffer is ") + (st ? "written" : "read") + " before the message has been waited for");
            }
        };
        A.onStore = [&](const Cell &c, bool, const AVal &, const Instruction *I, AState &S) { touch(c, true, I, S); };
        A.onLoad = [&](const Cell &c, bool, const AVal &, const Instruction *I, AState &S) { touch(c, false, I, S); };
        A.onReturn = [&](const Instruction *I, const AVal &, AState &S) {
            npaths++;
            const bool wide = S.user["wide"]; // more rounds than followed one by one: only arrays nothing was ever waited for in
 // more rounds than followed one by one
            Left l{I, {}, {}};
            for (auto &u : S.user) if (u.second && u.first.compare(0, 5, "pend ") == 0) {
                std::string rt = rootOf(u.first.substr(5));
                if (wide && (rt == "~any" || S.user.count("waited " + rt) || S.user.count("waited ~any"))) continue;
                l.arrays.insert(rt);
            }
            if (l.arrays.empty()) return;
            l.facts = S.facts;
            left.push_back(l);
        };
        AState init;
        A.run(C, init, {});
        for (auto &l : left)
            for (auto &a : l.arrays) {
                // a path on which the number of requests is taken to be none although some were started does not exist
                bool none = false;
                for (auto &t : counts[a]) {
                    auto f = [&](const std::string &k, long v) { auto it = l.facts.find(k); return it != l.facts.end() && it->second == v; };
                    if (f("slt(0," + t + ")", 0) || f("slt(" + t + ",1)", 1) || f("eq(" + t + ",0)", 1) || f("ult(0," + t + ")", 0)) none = true;
                }
                if (!none) report("not-waited", l.I, "returns while a message it started is in flight");
            }
        if (A.gaveUp) { gave++; note("gave up: " + name + " after " + std::to_string(A.steps) + " steps"); }
        if (getenv("REQDBG")) std::cerr << "  paths " << A.paths << " dropped " << A.dropped << " steps " << A.steps << std::endl;
        IN.drop(C);
    }
}

// --------------------------------------------------------------------------------------------------------------- B
namespace {
struct Node { std::map<Cell, AVal> mem; std::map<std::string, long> facts, user;
    bool operator<(const Node &o) const { return std::tie(mem, facts, user) < std::tie(o.mem, o.facts, o.user); } };
struct Op { std::string name, q; Function *F; std::vector<AVal> args; bool ctor, dtor, scalarArg; };
}
static void objects(Program &P, const std::string &cls, size_t maxInst, long &nnodes, long &nruns, long &nstarts, long &gave, bool dbg) {
    std::map<std::string, std::map<std::string, Function *>> byType; // object type -> public members
    for (auto *F : P.functions()) {
        const std::string &q = P.q(F);
        if (q.compare(0, cls.size() + 2, cls + "::")) continue;
        auto *SP = F->getSubprogram();
        auto *D = SP && SP->getDeclaration() ? SP->getDeclaration() : SP;
        if (D && !D->isPublic() && !(D->getFlags() & DINode::FlagArtificial)) continue;
        std::string d = P.dem(F);
        size_t p = d.find(cls + "<");
        if (p == std::string::npos) continue;
        int depth = 0;
        size_t e = p + cls.size();
        for (; e < d.size(); e++) { if (d[e] == '<') depth++; if (d[e] == '>' && --depth == 0) break; }
        byType[d.substr(p, e - p + 1)][d] = F;
    }
    std::vector<std::pair<std::string, size_t>> order;
    for (auto &t : byType) order.push_back({t.first, t.second.size()});
    std::stable_sort(order.begin(), order.end(), [](auto &a, auto &b) { return a.second > b.second; });
    auto op = [&](const CallBase *C) { auto *F = P.callee(C); return F && F->getName().starts_with("MPI_"); };
    auto reach = reaching(P, op, 12, [&](const Function *F) { return P.isStd(F); });
    Inliner IN(P, [&](const Function *F) {
        if (throughStd(P, F)) return false;
        if (P.isStd(F)) return true;
        const std::string &q = P.q(F);
        if (q.compare(0, 11, "hila::timer") == 0 || pureCall(q)) return true;
        if (q.compare(0, cls.size() + 2, cls + "::") == 0) return false;
        if (reach.count(F)) return false;
        return F->getInstructionCount() > 60;
    });
    for (size_t ti = 0; ti < order.size() && ti < maxInst; ti++) {
        const std::string &type = order[ti].first;
        std::vector<Op> ops;
        std::vector<Function *> clones;
        for (auto &m : byType[type]) {
            Function *C = IN.run(m.second, "sroa,early-cse<memssa>,simplifycfg");
            if (!C) { gave++; continue; }
            clones.push_back(C);
            std::string q = P.q(m.second), l = lastPart(q);
            bool sret = C->arg_size() && C->hasParamAttribute(0, Attribute::StructRet);
            unsigned self = sret ? 1 : 0;
            if (C->arg_size() <= self) continue; // static
            bool ctor = l == cls, dtor = l == "~" + cls;
            // flag arguments take both values
            std::vector<std::vector<AVal>> variants{{}};
            for (unsigned i = 0; i < C->arg_size(); i++) {
                Type *T = C->getArg(i)->getType();
                std::vector<AVal> vals;
                if (i == self) vals = {AVal::addr("*F", 0)};
                else if (T->isIntegerTy(1) || T->isIntegerTy(8)) vals = {AVal::num(0), AVal::num(1)};
                else if (T->isPointerTy()) vals = {AVal::addr("@arg" + std::to_string(i), 0)};
                else vals = {AVal::sym("arg" + std::to_string(i))};
                std::vector<std::vector<AVal>> nv;
                for (auto &v : variants) for (auto &x : vals) { nv.push_back(v); nv.back().push_back(x); }
                variants = nv;
            }
            for (auto &v : variants) {
                std::string n = l;
                bool flag = false;
                for (unsigned i = 0; i < v.size(); i++) if (i != self && v[i].k == AVal::Int) { n += "(" + std::to_string(v[i].i) + ")"; flag = true; }
                ops.push_back({n, l, C, v, ctor, dtor, flag});
            }
        }
        bool haveCtor = false;
        for (auto &o : ops) haveCtor |= o.ctor;
        if (!haveCtor || clones.size() < 5) { for (auto *c : clones) IN.drop(c); continue; }
        inst(type + ": " + std::to_string(ops.size()) + " operations");
        std::map<Node, std::string> seen;
        std::deque<Node> work;
        auto project = [&](AState &S, Node &N) {
            for (auto &m : S.mem) if (m.first.first == "*F" && m.second.k == AVal::Int) N.mem[m.first] = m.second;
            for (auto &u : S.user) if (u.second && u.first[0] != '~') N.user[u.first] = u.second;
            for (auto &f : S.facts) if (f.first.find("myrank") != std::string::npos && f.first.find('#') == std::string::npos && f.first.find('[') == std::string::npos) N.facts.insert(f);
        };
        auto report = [&](const std::string &rule, const Op &o, const Instruction *I, const std::string &msg) {
            finding(rule, cls + "::" + o.q, I ? P.loc(I) : "", type + ": " + msg);
        };
        auto runOp = [&](const Op &o, const AState &init, const std::string &hist) {
            AI A(P);
            A.maxSteps = 300000;
            std::string at = " (" + hist + (hist.empty() ? "" : " ") + o.name + ")";
            auto inBuf = [&](const std::string &base, long off, AState &S) {
                for (auto &u : S.user) if (u.second && u.first.compare(0, 4, "buf ") == 0) {
                    std::string b = u.first.substr(4);
                    if (b.compare(0, 3, "*F+") == 0 || b == "*F") { long s = b == "*F" ? 0 : atol(b.c_str() + 3); if (base == "*F" && off >= s && off < s + u.second) return true; }
                    else if (rootOf(b) == rootOf(base)) return true;
                }
                return false;
            };
            A.onCall = [&](const CallBase *CB, AState &S, AVal &r) {
                auto *G = P.callee(CB);
                if (!G) return false;
                std::string n = G->getName().str();
                const std::string &q = P.q(G);
                if (q == "hila::is_comm_initialized") { r = AVal::num(1); return true; }
                bool red = n == "MPI_Ireduce" || n == "MPI_Iallreduce" || n == "MPI_Reduce" || n == "MPI_Allreduce";
                if (red) {
                    bool nbl = n[4] == 'I';
                    std::string sl = nbl ? A.eval(CB->getArgOperand(CB->arg_size() - 1), S).str() : "";
                    AVal recv = A.eval(CB->getArgOperand(1), S), cnt = A.eval(CB->getArgOperand(2), S);
                    std::string dt = A.eval(CB->getArgOperand(3), S).str(), mop = A.eval(CB->getArgOperand(4), S).str();
                    if (S.user["pend"]) report(nbl ? "request-reused" : "used-in-flight", o, CB, "a reduction is started while one is in flight" + at);
                    // which accumulation does it combine
                    bool sum = mop.find("sum") != std::string::npos, prod = mop.find("prod") != std::string::npos;
                    if (!S.user["open"]) report("combined-twice", o, CB, "values already combined over ranks are combined again" + at);
                    else if ((S.user["open"] == 1 && !sum) || (S.user["open"] == 2 && !prod)) report("wrong-operation", o, CB, std::string("a ") + (S.user["open"] == 1 ? "sum" : "product") + " is combined with " + mop + at);
                    S.user["open"] = 0;
                    S.user["~combined"]++;
                    if (nbl) {
                        nstarts++;
                        S.user["pend"] = 1;
                        if (S.user["slot " + sl] == 0) S.user["slot " + sl] = 1;
                        S.user["buf " + recv.str()] = recv.s == "*F" ? (cnt.k == AVal::Int ? cnt.i * typeSize(dt) : 8) : 1;
                    }
                    r = AVal::num(0);
                    return true;
                }
                if (n == "MPI_Wait") {
                    std::string sl = A.eval(CB->getArgOperand(0), S).str();
                    if (!S.user["pend"]) report("wait-without-start", o, CB, "waits for a reduction that is not in flight" + at);
                    else if (!S.user["slot " + sl]) report("wait-without-start", o, CB, "waits on another request than the one started" + at);
                    else {
                        S.user["pend"] = 0;
                        for (auto i = S.user.begin(); i != S.user.end();) if (i->first.compare(0, 4, "buf ") == 0 || i->first.compare(0, 5, "slot ") == 0) i = S.user.erase(i); else ++i;
                    }
                    r = AVal::num(0);
                    return true;
                }
                if (S.user["pend"] && P.isStd(G) && CB->arg_size() && !ACC.count(lastPart(q))) {
                    for (auto &a : CB->args()) {
                        if (!a->getType()->isPointerTy()) continue;
                        AVal v = A.eval(a, S);
                        if (v.k == AVal::Addr && v.s == "*F") report("used-in-flight", o, CB, "storage is changed or copied by " + q + " while a reduction on it is in flight" + at);
                    }
                }
                return false;
            };
            auto touch = [&](const char *w, const Cell &c, const Instruction *I, AState &S) {
                if (!S.user["pend"] || !I) return;
                if (o.q == "operator[]" || o.q == "front" || o.q == "back") return; // references: the user's own responsibility
                if (c.first != "*F" && c.first.find("*F") == std::string::npos) return;
                if (inBuf(c.first, c.second, S)) report("used-in-flight", o, I, std::string("the value is ") + w + " while a reduction on it is in flight" + at);
            };
            A.onStore = [&](const Cell &c, bool, const AVal &, const Instruction *I, AState &S) { touch("changed", c, I, S); };
            A.onLoad = [&](const Cell &c, bool, const AVal &, const Instruction *I, AState &S) { touch("read", c, I, S); };
            A.onReturn = [&](const Instruction *I, const AVal &, AState &S) {
                if (o.dtor) {
                    if (S.user["pend"]) report("not-waited", o, I, "the object is destroyed while a reduction on it is in flight" + at);
                    return;
                }
                bool acc = o.q.compare(0, 10, "reduce_sum") == 0 || o.q.compare(0, 14, "reduce_product") == 0;
                if (acc && !S.user["~combined"]) S.user["open"] = o.q.compare(0, 10, "reduce_sum") == 0 ? 1 : 2;
                if (S.user["~combined"] > 1) report("combined-twice", o, I, "one operation combines over ranks more than once" + at);
                // assigned anew: nothing left to combine is lost by purpose
                if (o.q == "value" || o.q == "reduce") {
                    if (S.user["open"]) report("not-combined", o, I, "the value is given out before its parts have been combined over ranks" + at);
                    if (S.user["pend"]) report("not-waited", o, I, "the value is given out while its reduction is in flight" + at);
                }
                if (o.q == "wait" && S.user["pend"]) report("not-waited", o, I, "returns while the reduction is in flight" + at);
                Node N;
                project(S, N);
                if (seen.count(N)) return;
                if (seen.size() > 3000) { gave++; return; }
                seen[N] = hist + (hist.empty() ? "" : " ") + o.name;
                work.push_back(N);
            };
            AState st = init;
            // an accumulation adds something to combine before it combines
            if (o.q.compare(0, 10, "reduce_sum") == 0) { st.user["open"] = st.user["open"] == 2 ? 2 : 1; if (init.user.count("open") && init.user.at("open") == 2) return; }
            if (o.q.compare(0, 14, "reduce_product") == 0) { if (init.user.count("open") && init.user.at("open") == 1) return; st.user["open"] = 2; }
            nruns++;
            A.run(o.F, st, o.args);
            if (A.gaveUp) { gave++; note("gave up: " + type + " " + o.name); }
        };
        for (auto &o : ops) if (o.ctor) runOp(o, AState(), "");
        while (!work.empty()) {
            Node N = work.front();
            work.pop_front();
            std::string hist = seen[N];
            for (auto &o : ops) {
                if (o.ctor) continue;
                // the mode is chosen before anything is accumulated in it
                if (o.q == "delayed" && N.user.count("open")) continue;
                AState S;
                S.mem = N.mem; S.facts = N.facts; S.user = N.user;
                runOp(o, S, hist);
            }
        }
        if (dbg) for (auto &s : seen) { std::cerr << type << " [" << s.second << "]"; for (auto &m : s.first.mem) std::cerr << " " << m.first.second << "=" << m.second.str(); for (auto &m : s.first.facts) std::cerr << " " << m.first << "=" << m.second; for (auto &m : s.first.user) std::cerr << " " << m.first << "=" << m.second; std::cerr << "\n"; }
        nnodes += seen.size();
        for (auto *c : clones) IN.drop(c);
    }
}

int checkReqs(Program &P, const std::vector<std::string> &args) {
    size_t maxInst = 1;
    bool dbg = false, obj = true, loc = true;
    for (auto &a : args) { if (a.compare(0, 4, "max=") == 0) maxInst = std::stoul(a.substr(4)); if (a == "debug") dbg = true; if (a == "noobj") obj = false; if (a == "noloc") loc = false; }
    long nroots = 0, npaths = 0, nstarts = 0, gave = 0, nnodes = 0, nruns = 0, nst2 = 0;
    if (loc) local(P, nroots, npaths, nstarts, gave);
    if (obj) { objects(P, "Reduction", maxInst, nnodes, nruns, nst2, gave, dbg); objects(P, "ReductionVector", maxInst, nnodes, nruns, nst2, gave, dbg); }
    stat_("local_operations", nroots);
    stat_("local_paths", npaths);
    stat_("local_starts", nstarts);
    stat_("object_states", nnodes);
    stat_("object_operation_runs", nruns);
    stat_("object_starts", nst2);
    stat_("reqs_given_up", gave);
    return 0;
}

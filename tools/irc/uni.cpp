// Do all ranks enter the same collective operations? For every collective call in a whole (inlined) operation: is one of the
// branches that decide whether it executes, or its root, computed from a value that may differ between ranks.
#include "roots.h"
#include "llvm/Analysis/CFG.h"
#include <deque>
#include <algorithm>
#include <iostream>
#include <fstream>
#include <sstream>
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace {
bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
// library functions that are collective as a whole and leave the same value in their first argument on all ranks
bool equalizer(const std::string &q) { return q == "hila::broadcast" || q == "hila::broadcast_array" || q == "hila::broadcast2" || q == "Reduction::value"; }
bool sumAll(const std::string &q) { return q == "hila_reduce_sum_setup" || q == "hila::reduce_node_sum" || q == "hila::reduce_node_product" || q == "hila_reduce_sums" || q == "hila::reduce_sums"; }
bool streamFn(const std::string &q) {
    static const char *pre[] = {"std::basic_ios", "std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream", "std::basic_filebuf", "std::basic_istream",
                                "std::basic_ostream", "std::getline", "std::operator>>", "std::operator<<", "std::basic_stringstream", "std::basic_istringstream",
                                "std::basic_ostringstream", "std::basic_stringbuf", "std::ws", "std::endl", "std::flush", "std::ios_base", "std::operator==", "std::operator!=", "std::__cxx11::basic_"};
    for (auto *p : pre) if (starts(q, p)) return true;
    return false;
}
// functions of the C library whose result or output depends on the machine or the moment
const char *localSource(StringRef n) {
    static const std::map<std::string, const char *> m = {
        {"MPI_Comm_rank", "the rank number"}, {"time", "the clock"}, {"clock", "the clock"}, {"gettimeofday", "the clock"}, {"clock_gettime", "the clock"}, {"MPI_Wtime", "the clock"},
        {"fopen", "the file system"}, {"fopen64", "the file system"}, {"popen", "the file system"}, {"fread", "file content"}, {"fgets", "file content"}, {"fscanf", "file content"}, {"__isoc99_fscanf", "file content"}, {"__isoc23_fscanf", "file content"},
        {"fwrite", "the file system"}, {"fclose", "the file system"}, {"pclose", "the file system"}, {"stat", "the file system"}, {"access", "the file system"}, {"rename", "the file system"}, {"remove", "the file system"}, {"unlink", "the file system"},
        {"mkdir", "the file system"}, {"chdir", "the file system"}, {"open", "the file system"}, {"opendir", "the file system"}, {"rand", "a per-rank random number"}, {"drand48", "a per-rank random number"}, {"random", "a per-rank random number"},
        {"getpid", "the process id"}, {"gethostname", "the host name"}, {"MPI_Recv", "a received message"}, {"MPI_Irecv", "a received message"}, {"MPI_Test", "message progress"}, {"MPI_Testall", "message progress"}, {"MPI_Iprobe", "message progress"},
        {"MPI_Get_processor_name", "the host name"}, {"__isoc99_scanf", "standard input"}, {"getrusage", "the clock"}, {"omp_get_wtime", "the clock"}, {"sysconf", "the machine"}, {"clearerr", ""}, {"ferror", "the file system"}, {"feof", "the file system"}};
    auto it = m.find(n.str());
    return it == m.end() ? nullptr : it->second;
}
// members of the library's data structures that hold rank-local values
const char *localMember(const std::string &m) {
    if (starts(m, "lattice_struct::node_struct::") || starts(m, "node_struct::")) {
        if (m.find("::parent") != std::string::npos || m.find("::divisions") != std::string::npos || m.find("merged_subnodes_dir") != std::string::npos) return nullptr;
        return "the rank's own part of the lattice";
    }
    if (m.find("comm_node_struct::") != std::string::npos) return "the rank's own message partners";
    if (m.find("special_boundary_struct::") != std::string::npos) return "the rank's own boundary sites";
    static const std::set<std::string> l = {"lattice_struct::wait_arr_", "lattice_struct::neighb", "lattice_struct::mynode", "field_storage::fieldbuf", "SiteSelect::sites", "SiteSelect::current_index", "SiteValueSelect::values",
        "timer::t_start", "timer::t_total", "timer::t_initial", "timer::count", "hila::timer::t_start", "hila::timer::t_total", "hila::timer::t_initial", "hila::timer::count"};
    if (l.count(m)) return "data of the rank's own sites";
    return nullptr;
}
const char *localGlobal(Program &P, const GlobalVariable *G) {
    std::string n = demangle(G->getName().str());
    if (n.find("time_to_finish") != std::string::npos || n.find("signal") != std::string::npos) return "a signal or the clock";
    return nullptr;
}
struct Node { // a value, or the content of memory as seen at an instruction
    const Value *v = nullptr;
    int p = -1; // interned path
    const Instruction *at = nullptr;
    bool content = false; // everything reachable under the path
    bool operator<(const Node &o) const { if (v != o.v) return v < o.v; if (at != o.at) return at < o.at; if (content != o.content) return content < o.content; return p < o.p; }
};
struct Uni {
    Program &P;
    Function *F;
    std::set<const BasicBlock *> live;
    std::map<const BasicBlock *, std::vector<bool>> cd; // direct, then transitive
    std::vector<const Instruction *> branches;
    std::map<const Instruction *, int> branchNo;
    std::map<Path, int> pathNo;
    std::vector<Path> pathOf;
    std::map<std::tuple<int, bool, int>, int> aliasMemo;
    int intern(const Path &p0) {
        Path p;
        p.root = p0.root;
        for (auto &x : p0.steps) if (x.kind != Step::Any || p.steps.empty() || p.steps.back().kind != Step::Any) p.steps.push_back(x); auto it = pathNo.emplace(p, (int)pathOf.size()); if (it.second) pathOf.push_back(p); return it.first->second; }
    // offset from a base, where constant
    struct Range { const Value *base = nullptr; int64_t off = 0; uint64_t size = 0; };
    std::map<int, Range> ranges;
    void range(int id, const Value *p, Type *T) { if (T->isSized()) rangeN(id, p, P.M->getDataLayout().getTypeStoreSize(T).getFixedValue()); }
    void rangeN(int id, const Value *p, uint64_t size) {
        auto old = ranges.find(id);
        if (old != ranges.end()) { if (old->second.size < size) old->second.size = size; return; }
        APInt o(64, 0);
        auto &DL = P.M->getDataLayout();
        auto *b = p->stripAndAccumulateConstantOffsets(DL, o, true);
        ranges[id] = {b, o.getSExtValue(), size};
    }
    std::string self;
    std::function<bool(const Function *)> opaque; // operation judged on its own
    std::function<bool(const CallBase *)> resultDiffers;
    bool verbose = false;
    std::set<std::pair<const BasicBlock *, const BasicBlock *>> never; // edges not taken
    std::map<const Value *, int> known; // boolean arguments of this call
    int fold(const Value *v, int d) {
        if (d > 6) return -1;
        auto it = known.find(v);
        if (it != known.end()) return it->second;
        if (auto *C = dyn_cast<ConstantInt>(v)) return C->getBitWidth() == 1 ? (int)C->getZExtValue() : -1;
        if (isa<TruncInst>(v) || isa<ZExtInst>(v)) return fold(cast<CastInst>(v)->getOperand(0), d + 1);
        if (auto *S = dyn_cast<SelectInst>(v)) {
            if (!v->getType()->isIntegerTy(1)) return -1;
            int c = fold(S->getCondition(), d + 1);
            if (c >= 0) return fold(c ? S->getTrueValue() : S->getFalseValue(), d + 1);
            int a = fold(S->getTrueValue(), d + 1), b = fold(S->getFalseValue(), d + 1);
            return a == b ? a : -1;
        }
        auto *B = dyn_cast<BinaryOperator>(v);
        if (!B || !v->getType()->isIntegerTy(1)) return -1;
        int a = fold(B->getOperand(0), d + 1), b = fold(B->getOperand(1), d + 1);
        if (B->getOpcode() == Instruction::And) return a == 0 || b == 0 ? 0 : a == 1 && b == 1 ? 1 : -1;
        if (B->getOpcode() == Instruction::Or) return a == 1 || b == 1 ? 1 : a == 0 && b == 0 ? 0 : -1;
        if (B->getOpcode() == Instruction::Xor) return a < 0 || b < 0 ? -1 : a ^ b;
        return -1;
    }
    // branches on memory that holds a known constant
    bool prune() {
        size_t before = never.size();
        for (auto &B : *F) {
            auto *Br = dyn_cast<BranchInst>(B.getTerminator());
            if (!Br || !Br->isConditional() || !live.count(&B) || Br->getSuccessor(0) == Br->getSuccessor(1)) continue;
            const Value *c = Br->getCondition();
            int k = fold(c, 0);
            if (k >= 0) { never.insert({&B, Br->getSuccessor(k ? 1 : 0)}); continue; }
            auto *T = dyn_cast<TruncInst>(c);
            const LoadInst *L = dyn_cast<LoadInst>(T ? T->getOperand(0) : c);
            if (!L) continue;
            const Path p = path(L->getPointerOperand());
            if (!isa<AllocaInst>(p.root) || derefs(p)) continue;
            int id = intern(p);
            range(id, L->getPointerOperand(), L->getType());
            std::vector<const Instruction *> defs;
            bool entry, cleaned;
            reaching(id, false, L, defs, entry, cleaned);
            if (verbose) { errs() << "prune? " << p.str() << " " << P.loc(L) << " entry " << entry << cleaned << "\n"; for (auto *d : defs) errs() << "    " << P.loc(d) << *d << "\n"; }
            if (entry || cleaned || defs.empty()) continue;
            int val = -1;
            bool ok = true;
            for (auto *d : defs) {
                auto *S = dyn_cast<StoreInst>(d);
                auto *k = S ? dyn_cast<ConstantInt>(S->getValueOperand()) : nullptr;
                // reductions deliver to all ranks unless asked otherwise
                if (S && !k) { const Value *v = S->getValueOperand(); while (auto *Z = dyn_cast<CastInst>(v)) v = Z->getOperand(0); if (auto *C = dyn_cast<CallBase>(v)) if (auto *G = P.callee(C)) if (P.q(G) == "hila::get_allreduce") k = ConstantInt::getTrue(F->getContext()); }
                if (!k || (val >= 0 && val != (int)k->getZExtValue())) { ok = false; break; }
                val = k->getZExtValue();
            }
            if (!ok || val < 0) continue;
            never.insert({&B, Br->getSuccessor(val & 1 ? 1 : 0)});
        }
        return never.size() != before;
    }
    std::set<std::string> first; // members at offset 0 of their struct
    bool aggregate(int id) { auto it = ranges.find(id); return it == ranges.end(); }
    int aliasOf(int q, bool content, int d) { auto it = aliasMemo.emplace(std::make_tuple(q, content, d), -1); if (it.second) it.first->second = aliasR(q, content, d); return it.first->second; }
    int aliasR(int q, bool content, int d) {
        int a = alias(pathOf[q], content, pathOf[d]);
        if (!a || content) return a;
        auto x = ranges.find(q), y = ranges.find(d);
        if (x == ranges.end() || y == ranges.end()) return a;
        auto &s = x->second, &t = y->second;
        if (s.base == t.base) return s.off < t.off + (int64_t)t.size && t.off < s.off + (int64_t)s.size ? a == 3 && t.size >= s.size && t.off == s.off ? 2 : a : 0;
        if (a == 3) { // a plain store through a pointer to the enclosing object reaches its first member only
            auto u = noAny(pathOf[q]), v = noAny(pathOf[d]);
            for (size_t i = v.size(); i < u.size(); i++) if (u[i].kind == Step::Member && !first.count(u[i].name)) return 0;
            return 1;
        }
        return a;
    }
    std::vector<const Instruction *> writers;
    std::map<const Instruction *, int> wpath;
    std::map<const Value *, Path> paths;
    std::map<const BasicBlock *, std::vector<const Instruction *>> wIn;
    bool endsAtExit = false;
    long queries = 0, gaveUp = 0;
    Uni(Program &p, Function *f) : P(p), F(f) {}
    const Path &path(const Value *V) { auto it = paths.find(V); if (it == paths.end()) it = paths.emplace(V, P.path(V)).first; return it->second; }
    bool finishes(const CallBase *C) { auto *G = P.callee(C); return G && P.q(G) == "hila::finishrun"; }
    // a path that ends the program in an error; the orderly end is an operation of all ranks
    bool ends(const BasicBlock &B) { for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) if (noReturnCall(P, C)) return !finishes(C); return false; }
    bool finish(const BasicBlock &B) { for (auto &I : B) if (auto *C = dyn_cast<CallBase>(&I)) if (finishes(C)) return true; return false; }
    void cfg() {
        std::set<const BasicBlock *> dead;
        for (auto &B : *F) if (ends(B)) dead.insert(&B);
        for (int round = 0; round < 2; round++) {
            live.clear();
            std::vector<const BasicBlock *> w;
            for (auto &B : *F) if ((isa<ReturnInst>(B.getTerminator()) || (isa<UnreachableInst>(B.getTerminator()) && finish(B))) && !dead.count(&B)) w.push_back(&B);
            if (w.empty()) { endsAtExit = true; for (auto *B : dead) w.push_back(B); }
            for (auto *b : w) live.insert(b);
            std::set<const BasicBlock *> exits(w.begin(), w.end());
            while (!w.empty()) { auto *B = w.back(); w.pop_back(); for (auto *p : predecessors(B)) if (!dead.count(p) && !never.count({p, B}) && live.insert(p).second) w.push_back(p); }
            // and reached from the entry
            std::set<const BasicBlock *> fw{&F->getEntryBlock()};
            w.push_back(&F->getEntryBlock());
            while (!w.empty()) { auto *B = w.back(); w.pop_back(); for (auto *x : successors(B)) if (!never.count({B, x}) && fw.insert(x).second) w.push_back(x); }
            for (auto it = live.begin(); it != live.end();) if (fw.count(*it)) ++it; else it = live.erase(it);
            for (auto it = exits.begin(); it != exits.end();) if (fw.count(*it)) ++it; else it = exits.erase(it);
            // post-dominators on the live part, by sets of bits
            std::vector<const BasicBlock *> bl;
            for (auto &B : *F) if (live.count(&B)) bl.push_back(&B);
            std::map<const BasicBlock *, int> num;
            // order: reverse of a depth-first search from the exits backwards
            std::vector<const BasicBlock *> order;
            { std::set<const BasicBlock *> seen; std::vector<std::pair<const BasicBlock *, int>> st;
              std::function<void(const BasicBlock *)> dfs = [&](const BasicBlock *r) {
                  std::vector<std::pair<const BasicBlock *, std::vector<const BasicBlock *>>> s;
                  if (!seen.insert(r).second) return;
                  s.push_back({r, {}}); for (auto *p : predecessors(r)) s.back().second.push_back(p);
                  while (!s.empty()) { auto &t = s.back(); if (t.second.empty()) { order.push_back(t.first); s.pop_back(); continue; } auto *n = t.second.back(); t.second.pop_back(); if (!live.count(n) || (dead.count(n) && !exits.count(n)) || never.count({n, t.first}) || !seen.insert(n).second) continue; s.push_back({n, {}}); for (auto *p : predecessors(n)) s.back().second.push_back(p); }
              };
              for (auto *e : exits) dfs(e); }
            std::reverse(order.begin(), order.end());
            int n = order.size();
            for (int i = 0; i < n; i++) num[order[i]] = i + 1; // 0: virtual exit
            std::vector<int> ip(n + 1, -1);
            ip[0] = 0;
            auto meet = [&](int a, int b) { while (a != b) { while (a > b) a = ip[a]; while (b > a) b = ip[b]; } return a; };
            for (bool ch = true; ch;) {
                ch = false;
                for (int i = 0; i < n; i++) {
                    int k = exits.count(order[i]) ? 0 : -1;
                    for (auto *s : successors(order[i])) { auto it = num.find(s); if (it == num.end() || never.count({order[i], s}) || ip[it->second] < 0) continue; k = k < 0 ? it->second : meet(k, it->second); }
                    if (k >= 0 && ip[i + 1] != k) { ip[i + 1] = k; ch = true; }
                }
            }
            cd.clear(); branches.clear(); branchNo.clear(); ipdom.clear();
            for (int i = 0; i < n; i++) {
                auto *B = order[i];
                std::set<const BasicBlock *> succ;
                for (auto *s : successors(B)) if (num.count(s) && !never.count({B, s})) succ.insert(s);
                if (succ.size() < 2) continue;
                branchNo[B->getTerminator()] = branches.size();
                branches.push_back(B->getTerminator());
            }
            std::vector<std::vector<int>> direct(n);
            for (int i = 0; i < n; i++) {
                auto it = branchNo.find(order[i]->getTerminator());
                if (it == branchNo.end()) continue;
                std::set<const BasicBlock *> succ;
                for (auto *s : successors(order[i])) if (num.count(s) && !never.count({order[i], s})) succ.insert(s);
                for (auto *s : succ) for (int k = num[s]; k > 0 && k != ip[i + 1]; k = ip[k]) direct[k - 1].push_back(it->second);
            }
            for (int i = 0; i < n; i++) ipdom[order[i]] = ip[i + 1] > 0 ? order[ip[i + 1] - 1] : nullptr;
            int nb = branches.size();
            std::vector<int> blockOf(nb);
            for (int b = 0; b < nb; b++) blockOf[b] = num[branches[b]->getParent()] - 1;
            std::vector<std::vector<bool>> bits(n, std::vector<bool>(nb));
            for (int i = 0; i < n; i++) {
                std::vector<int> st(direct[i]);
                while (!st.empty()) { int b = st.back(); st.pop_back(); if (bits[i][b]) continue; bits[i][b] = true; for (int x : direct[blockOf[b]]) if (!bits[i][x]) st.push_back(x); }
                cd[order[i]] = std::move(bits[i]);
            }
            break;
        }
    }
    void index() {
        for (auto &I : instructions(F)) {
            if (!live.count(I.getParent())) continue;
            if (auto *C = dyn_cast<CallBase>(&I)) { std::string n = collName(C); if (!n.empty()) collIn[I.getParent()].push_back(n); }
            if (auto *S = dyn_cast<StoreInst>(&I)) { int n = wpath[&I] = intern(path(S->getPointerOperand())); range(n, S->getPointerOperand(), S->getValueOperand()->getType()); wIn[I.getParent()].push_back(&I); }
            else if (auto *M = dyn_cast<MemIntrinsic>(&I)) { int n = wpath[&I] = intern(path(M->getRawDest())); if (auto *L = dyn_cast<ConstantInt>(M->getLength())) rangeN(n, M->getRawDest(), L->getZExtValue()); wIn[I.getParent()].push_back(&I); }
            else if (auto *C = dyn_cast<CallBase>(&I)) {
                if (isa<IntrinsicInst>(C)) continue;
                bool any = false;
                for (auto &a : C->args()) if (a->getType()->isPointerTy() && !isa<Constant>(a)) any = true;
                for (auto &a : C->args()) if (isa<GlobalVariable>(a->stripPointerCasts())) any = true;
                if (any) wIn[I.getParent()].push_back(&I);
            }
        }
    }
    static std::string tail(const Path &p) { std::string t; size_t k = 0; for (size_t i = 0; i < p.steps.size(); i++) if (p.steps[i].kind == Step::Deref) k = i + 1; bool mem = false; for (size_t i = k; i < p.steps.size(); i++) if (p.steps[i].kind == Step::Member) { t += p.steps[i].name + "/"; mem = true; } return mem ? t : ""; }
    static bool derefs(const Path &p) { for (auto &s : p.steps) if (s.kind == Step::Deref) return true; return false; }
    static std::vector<Step> noAny(const Path &p) { std::vector<Step> r; for (auto &s : p.steps) if (s.kind != Step::Any) r.push_back(s); return r; }
    bool isIdent(const Value *r) { return isa<AllocaInst>(r) || isa<GlobalVariable>(r); }
    // 0: different memory, 1: may be the same, 2: exactly the same, 3: q lies inside d
    int alias(const Path &q, bool content, const Path &d) {
        if (q.root != d.root) {
            bool dq = derefs(q), dd = derefs(d);
            if (!dq && !dd && isIdent(q.root) && isIdent(d.root)) return 0;
            if (dq != dd && ((!dq && isa<AllocaInst>(q.root)) || (!dd && isa<AllocaInst>(d.root)))) return 0;
            std::string a = tail(q), b = tail(d);
            return !a.empty() && a == b ? 1 : 0;
        }
        auto a = noAny(q), b = noAny(d);
        size_t n = std::min(a.size(), b.size());
        for (size_t i = 0; i < n; i++) if (!(a[i] == b[i])) {
            return 0;
        }
        bool any = false;
        for (auto &s : q.steps) any |= s.kind == Step::Any;
        for (auto &s : d.steps) any |= s.kind == Step::Any;
        if (a.size() == b.size()) return any ? 1 : 2;
        if (a.size() > b.size()) { // the write is to an enclosing object, or to the pointer that leads there
            for (size_t i = n; i < a.size(); i++) if (a[i].kind == Step::Deref) return 0;
            return 3;
        }
        if (content) return 1;
        for (size_t i = n; i < b.size(); i++) if (b[i].kind == Step::Deref) return 0;
        return 1;
    }
    const Instruction *condOf(const Instruction *T) { return T; }
    struct Def { const Instruction *I; bool entry; };
    // definitions of memory reaching an instruction
    void reaching(int qn, bool content, const Instruction *at, std::vector<const Instruction *> &defs, bool &entry, bool &cleaned) {
        queries++;
        const Path q = pathOf[qn];
        entry = cleaned = false;
        std::set<const BasicBlock *> seen;
        std::vector<const BasicBlock *> w;
        auto scan = [&](const BasicBlock *B, const Instruction *from) -> bool { // true: killed
            auto it = wIn.find(B);
            if (it != wIn.end()) for (size_t k = it->second.size(); k-- > 0;) {
                auto *I = it->second[k];
                if (from && !I->comesBefore(from)) continue;
                if (isa<StoreInst>(I)) { int a = aliasOf(qn, content, wpath[I]); if (a) { defs.push_back(I); if (a == 2 && !content) return true; } continue; }
                if (isa<MemIntrinsic>(I)) { int a = aliasOf(qn, content, wpath[I]); if (a) { defs.push_back(I); if (a >= 2 && !content) return true; } continue; }
                auto *C = cast<CallBase>(I);
                auto *G = P.callee(C);
                std::string gn = G ? G->getName().str() : "", gq = G ? P.q(G) : "";
                // what makes values the same on all ranks
                int arg = -1;
                if (gq == "hila::broadcast2" && C->arg_size() > 1) {
                    auto *o = C->getArgOperand(1);
                    auto a = noAny(q), b = noAny(path(o));
                    bool same = o->getType()->isPointerTy() && q.root == path(o).root && b.size() <= a.size();
                    for (size_t i = 0; same && i < b.size(); i++) same = a[i] == b[i];
                    if (same) { cleaned = true; return true; }
                }
                if (gn == "MPI_Bcast") arg = 0; else if (gn == "MPI_Allreduce") arg = 1;
                else if (gn == "MPI_Comm_size" || gn == "MPI_Comm_split" || gn == "MPI_Iallreduce") arg = gn == "MPI_Comm_size" ? 1 : gn == "MPI_Comm_split" ? 3 : 1;
                else if (equalizer(gq)) { arg = 0; if (C->arg_size() > 1 && C->paramHasAttr(0, Attribute::StructRet)) arg = 1; }
                else if (sumAll(gq)) arg = 0;
                if (arg >= 0 && arg < (int)C->arg_size() && C->getArgOperand(arg)->getType()->isPointerTy()) {
                    const Path &d = path(C->getArgOperand(arg));
                    auto a = noAny(q), b = noAny(d);
                    if (q.root == d.root) {
                        size_t n = std::min(a.size(), b.size());
                        bool same = true;
                        for (size_t i = 0; i < n; i++) same &= a[i] == b[i];
                        bool pair = false; // a value and its rank
                        if (gn == "MPI_Allreduce") { auto *op = C->getArgOperand(4)->stripPointerCasts(); pair = op->hasName() && op->getName().contains("loc"); }
                        if (starts(gn, "MPI_") && !content && !pair) for (size_t i = n; i < a.size(); i++) if (a[i].kind == Step::Member && !first.count(a[i].name)) same = false;
                        if (same && (b.size() <= a.size() || content)) { cleaned = true; return true; }
                    }
                    if (equalizer(gq) && C->paramHasAttr(0, Attribute::StructRet)) { int x = alias(q, content, path(C->getArgOperand(0))); if (x) { cleaned = true; return true; } }
                    continue;
                }
                if (gn == "MPI_Allreduce" || gn == "MPI_Bcast") continue;
                if (G && opaque && opaque(G)) continue;
                if (harmless(gn, gq)) continue;
                for (unsigned i = 0; i < C->arg_size(); i++) {
                    auto *a = C->getArgOperand(i);
                    if (!a->getType()->isPointerTy() || isa<ConstantPointerNull>(a)) continue;
                    if (C->onlyReadsMemory(i) || readOnlyArg(gn, gq, i)) continue;
                    if (isa<Function>(a->stripPointerCasts())) continue;
                    int dn = intern(path(a));
                    const Path &d = pathOf[dn];
                    int x = aliasOf(qn, content, dn);
                    if (!content && starts(gn, "MPI_")) { // the data at the pointer only
                        if (!x) x = alias(q, content, d);
                        if (!x) continue;
                        auto u = noAny(q), v = noAny(d);
                        bool in = true;
                        for (size_t j = v.size(); j < u.size(); j++) if (u[j].kind == Step::Member && !first.count(u[j].name)) in = false;
                        if (!in) continue;
                    } else
                    // a call may write all of an object it is given
                    if (!x && q.root == d.root && d.steps.size() <= q.steps.size()) { bool pre = true; auto u = noAny(q), v = noAny(d); for (size_t j = 0; j < v.size() && pre; j++) pre = j < u.size() && u[j] == v[j]; if (pre) x = 1; }
                    if (q.root != d.root && (derefs(q) || derefs(d) || isa<Argument>(d.root)) ) { if (!isIdent(q.root) || derefs(q)) { if (x == 0) continue; } }
                    if (x) { defs.push_back(I); break; }
                }
            }
            return false;
        };
        if (scan(at->getParent(), at)) return;
        if (at->getParent() == &F->getEntryBlock()) entry = true;
        for (auto *p : predecessors(at->getParent())) if (live.count(p) && !never.count({p, at->getParent()})) w.push_back(p);
        while (!w.empty()) {
            auto *B = w.back();
            w.pop_back();
            if (!seen.insert(B).second) continue;
            if (scan(B, nullptr)) continue;
            if (B == &F->getEntryBlock()) entry = true;
            for (auto *p : predecessors(B)) if (live.count(p) && !never.count({p, B})) w.push_back(p);
        }
    }
    bool harmless(const std::string &gn, const std::string &gq) {
        if (starts(gn, "__cxa") || starts(gn, "_Zd") || gn == "free" || gn == "MPI_Barrier" || gn == "MPI_Send" || gn == "MPI_Isend" || gn == "printf" || gn == "fprintf" || gn == "puts" || gn == "putchar" || gn == "strlen" || gn == "memcmp" || gn == "strcmp" || gn == "strncmp") return true;
        if (gq == self) return true; // the operation itself, called again
        if (starts(gq, "hila::timer") || starts(gq, "timer::") || gq == "get_next_msg_tag" || gq == "hila::myrank" || gq == "hila::terminate" || gq == "hila::error") return true;
        return false;
    }
    bool readOnlyArg(const std::string &gn, const std::string &gq, unsigned i) {
        if (starts(gn, "MPI_")) return !mpiOut(gn, i);
        if (starts(gq, "std::operator<<") || gq.find("basic_ostream::") != std::string::npos) return i > 0;
        return false;
    }
    static bool mpiOut(const std::string &n, unsigned i) {
        static const std::map<std::string, std::set<unsigned>> m = {{"MPI_Recv", {0, 6}}, {"MPI_Irecv", {0}}, {"MPI_Comm_rank", {1}}, {"MPI_Comm_size", {1}}, {"MPI_Test", {1, 2}}, {"MPI_Testall", {2, 3}}, {"MPI_Reduce", {1}}, {"MPI_Ireduce", {1}},
            {"MPI_Allreduce", {1}}, {"MPI_Iallreduce", {1}}, {"MPI_Bcast", {0}}, {"MPI_Gather", {3}}, {"MPI_Allgather", {3}}, {"MPI_Scatter", {3}}, {"MPI_Comm_split", {3}}, {"MPI_Iprobe", {3, 4}}, {"MPI_Get_count", {2}}, {"MPI_Get_processor_name", {0, 1}}, {"MPI_Init", {0, 1}}, {"MPI_Init_thread", {0, 1, 3}}};
        auto it = m.find(n);
        return it != m.end() && it->second.count(i);
    }
    const char *memberSource(const Path &p) {
        for (auto it = p.steps.rbegin(); it != p.steps.rend(); ++it) {
            if (it->kind != Step::Member) continue;
            if (auto *s = localMember(it->name)) return s;
        }
        return nullptr;
    }
    bool stringStream(const Value *root) {
        for (int n = 0; n < 8; n++) { // a stream function returns its stream
            auto *C = dyn_cast<CallBase>(root);
            if (!C || !C->arg_size() || !C->getArgOperand(0)->getType()->isPointerTy()) break;
            auto *G = P.callee(C);
            if (!G || !streamFn(P.q(G))) break;
            root = path(C->getArgOperand(0)).root;
        }
        auto *A = dyn_cast<AllocaInst>(root);
        if (!A) return false;
        auto *T = dyn_cast<StructType>(A->getAllocatedType());
        return T && T->hasName() && T->getName().contains("string") ;
    }
    // what a node depends on; a source gives a reason instead
    std::string deps(const Node &N, std::vector<Node> &out) {
        auto val = [&](const Value *v) { if (!isa<Constant>(v) && !isa<BasicBlock>(v)) out.push_back({v, -1, nullptr, false}); };
        auto mem = [&](const Path &p, const Instruction *at, bool content) { out.push_back({nullptr, intern(p), at, content}); };
        auto conds = [&](const BasicBlock *B, const BasicBlock *than, const Instruction *extra) {
            std::vector<const Instruction *> s;
            auto it = cd.find(B), jt = cd.find(than);
            if (it != cd.end()) for (size_t b = 0; b < it->second.size(); b++) if (it->second[b] && (jt == cd.end() || !jt->second[b])) s.push_back(branches[b]);
            if (extra && branchNo.count(extra) && (jt == cd.end() || !jt->second[branchNo[extra]])) s.push_back(extra);
            for (auto *x : s) {
                if (auto *Br = dyn_cast<BranchInst>(x)) { if (Br->isConditional()) val(Br->getCondition()); }
                else if (auto *Sw = dyn_cast<SwitchInst>(x)) val(Sw->getCondition());
            }
        };
        auto callDeps = [&](const CallBase *C) -> std::string {
            auto *G = P.callee(C);
            std::string gn = G ? G->getName().str() : "", gq = G ? P.q(G) : "";
            if (auto *s = localSource(gn)) { if (*s) return s; return ""; }
            if (gq == "hila::myrank") return "the rank number";
            if (gq == "hila::random" || gq == "hila::gaussrand" || gq == "hila::gaussrand2") return "a per-rank random number";
            if (equalizer(gq) || sumAll(gq)) return "";
            if (G && opaque && opaque(G)) return resultDiffers(C) ? "the result of " + gq : "";
            if (gq == "hila::number_of_nodes" || gq == "hila::get_allreduce") return "";
            if (starts(gq, "hila::timer") || starts(gq, "timer::") || gq == "hila::gettime") return gq.find("start") == std::string::npos && gq.find("stop") == std::string::npos ? "the clock" : "";
            if (streamFn(gq) || streamFn(G ? P.dem(G) : "")) {
                // state of, or input from, a file
                std::string nm = gq;
                bool reads = nm.find("basic_istream") != std::string::npos || nm.find("basic_ios") != std::string::npos || nm.find("fstream") != std::string::npos || nm.find("filebuf") != std::string::npos || nm.find("getline") != std::string::npos || nm.find("operator>>") != std::string::npos || nm.find("basic_ostream") != std::string::npos;
                if (reads && C->arg_size()) {
                    bool str = false;
                    for (auto &a : C->args()) if (a->getType()->isPointerTy() && stringStream(path(a).root) && !starts(nm, "std::getline")) str = true;
                    if (starts(nm, "std::getline")) str = stringStream(path(C->getArgOperand(0)).root);
                    if (!str) return "the state or content of a file";
                }
            }
            for (auto &a : C->args()) {
                if (isa<Constant>(a) && !isa<GlobalVariable>(a->stripPointerCasts())) continue;
                if (a->getType()->isPointerTy()) mem(path(a), C, true); else val(a);
            }
            return "";
        };
        if (N.v) {
            auto *V = N.v;
            if (isa<Constant>(V) || isa<Argument>(V) || isa<AllocaInst>(V)) return "";
            auto *I = dyn_cast<Instruction>(V);
            if (!I) return "";
            if (auto *L = dyn_cast<LoadInst>(I)) { range(intern(path(L->getPointerOperand())), L->getPointerOperand(), L->getType()); mem(path(L->getPointerOperand()), L, false); return ""; }
            if (auto *PN = dyn_cast<PHINode>(I)) {
                for (unsigned k = 0; k < PN->getNumIncomingValues(); k++) {
                    auto *B = PN->getIncomingBlock(k);
                    if (!live.count(B) || never.count({B, PN->getParent()})) continue;
                    val(PN->getIncomingValue(k));
                }
                // which of them, when they are not the same
                for (unsigned k = 0; k < PN->getNumIncomingValues(); k++) {
                    auto *B = PN->getIncomingBlock(k);
                    if (!live.count(B) || never.count({B, PN->getParent()})) continue;
                    auto *T = B->getTerminator();
                    conds(B, PN->getParent(), T->getNumSuccessors() > 1 ? T : nullptr);
                }
                return "";
            }
            if (auto *C = dyn_cast<CallBase>(I)) { if (isa<IntrinsicInst>(C)) { for (auto &a : C->args()) if (!a->getType()->isMetadataTy()) val(a); return ""; } return callDeps(C); }
            if (isa<GetElementPtrInst>(I) || isa<CastInst>(I) || true) for (auto &o : I->operands()) val(o);
            return "";
        }
        // memory
        const Path NP = pathOf[N.p];
        if (auto *PN = dyn_cast<PHINode>(NP.root)) {
            for (unsigned k = 0; k < PN->getNumIncomingValues(); k++) if (live.count(PN->getIncomingBlock(k))) { if (PN->getIncomingValue(k) == PN) continue; Path p = path(PN->getIncomingValue(k)); if (p.root == PN) continue; p.steps.insert(p.steps.end(), NP.steps.begin(), NP.steps.end()); if (p.steps.size() < 14) mem(p, N.at, N.content); val(PN); }
        }
        if (auto *S = dyn_cast<SelectInst>(NP.root)) for (auto *v : {S->getTrueValue(), S->getFalseValue()}) { Path p = path(v); p.steps.insert(p.steps.end(), NP.steps.begin(), NP.steps.end()); if (p.steps.size() < 14) mem(p, N.at, N.content); val(S->getCondition()); }
        if (auto *s = memberSource(NP)) return s;
        if (auto *G = dyn_cast<GlobalVariable>(NP.root)) { if (G->isConstant()) return ""; if (auto *s = localGlobal(P, G)) return s; }
        std::vector<const Instruction *> defs;
        bool entry, cleaned;
        reaching(N.p, N.content, N.at, defs, entry, cleaned);
        const Constant *same = nullptr;
        bool allSame = !entry && !cleaned && !defs.empty();
        for (auto *I : defs) { auto *S = dyn_cast<StoreInst>(I); auto *k = S ? dyn_cast<Constant>(S->getValueOperand()) : nullptr; if (!k || (same && same != k)) allSame = false; same = k; }
        for (auto *I : defs) {
            if (!allSame && (defs.size() > 1 || entry || cleaned)) conds(I->getParent(), N.at->getParent(), nullptr);
            if (auto *S = dyn_cast<StoreInst>(I)) { val(S->getValueOperand()); continue; }
            if (auto *M = dyn_cast<MemTransferInst>(I)) {
                Path src = path(M->getRawSource());
                const Path d = pathOf[wpath[I]];
                auto a = noAny(NP), b = noAny(d);
                for (size_t i = b.size(); i < a.size(); i++) src.steps.push_back(a[i]);
                mem(src, I, N.content);
                continue;
            }
            if (isa<MemSetInst>(I)) continue;
            auto *C = cast<CallBase>(I);
            std::string s = callDeps(C);
            if (!s.empty()) return s;
        }
        return "";
    }
    std::map<const Instruction *, bool> balMemo;
    std::function<std::string(const CallBase *)> collName;
    std::map<const BasicBlock *, const BasicBlock *> ipdom;
    std::map<const BasicBlock *, std::vector<std::string>> collIn;
    // the same collectives in the same order whichever way is taken
    bool balanced(const Instruction *T) {
        auto it = balMemo.find(T);
        if (it != balMemo.end()) return it->second;
        bool &r = balMemo[T];
        r = false;
        const BasicBlock *J = ipdom.count(T->getParent()) ? ipdom[T->getParent()] : nullptr;
        std::set<std::set<std::string>> arms;
        for (auto *s : successors(T->getParent())) {
            if (!live.count(s) || never.count({T->getParent(), s})) continue;
            std::set<std::string> seqs;
            std::set<const BasicBlock *> on;
            bool bad = false;
            long steps = 0;
            // sets of sequences, bottom up; a loop must be free of collectives
            std::map<const BasicBlock *, std::set<std::string>> memo;
            std::function<std::set<std::string>(const BasicBlock *)> go = [&](const BasicBlock *B) -> std::set<std::string> {
                if (B == J) return {""};
                auto m = memo.find(B);
                if (m != memo.end()) return m->second;
                if (++steps > 3000) { bad = true; return {}; }
                on.insert(B);
                std::set<std::string> tails, res;
                bool any = false;
                for (auto *n : successors(B)) {
                    if (!live.count(n) || never.count({B, n})) continue;
                    any = true;
                    if (on.count(n)) { // a loop: nothing collective inside
                        std::set<const BasicBlock *> body{n, B};
                        std::vector<const BasicBlock *> w{B};
                        while (!w.empty()) { auto *x = w.back(); w.pop_back(); if (x == n) continue; for (auto *p : predecessors(x)) if (live.count(p) && body.insert(p).second) w.push_back(p); }
                        for (auto *x : body) if (collIn.count(x)) bad = true;
                        continue;
                    }
                    for (auto &t : go(n)) tails.insert(t);
                }
                if (!any) tails.insert("");
                on.erase(B);
                std::string me;
                if (collIn.count(B)) for (auto &c : collIn[B]) me += c + ";";
                for (auto &t : tails) res.insert(me + t);
                if (res.size() > 64) bad = true;
                memo[B] = res;
                return res;
            };
            auto s2 = go(s);
            if (bad) return r;
            arms.insert(s2);
        }
        return r = arms.size() == 1;
    }
    // the chain from a node to a source
    std::map<Node, std::pair<std::string, std::vector<Node>>> depMemo;
    std::set<Node> clean;
    std::map<Node, std::pair<std::string, std::vector<std::string>>> bad;
    bool differs(const Node &start, std::string &why, std::vector<std::string> &chain) {
        if (clean.count(start)) return false;
        auto it = bad.find(start);
        if (it != bad.end()) { why = it->second.first; chain = it->second.second; return true; }
        if (!differs0(start, why, chain)) return false;
        bad[start] = {why, chain};
        return true;
    }
    bool differs0(const Node &start, std::string &why, std::vector<std::string> &chain) {
        std::map<Node, Node> from;
        std::set<Node> seen{start};
        std::deque<Node> q{start};
        while (!q.empty()) {
            Node n = q.front();
            q.pop_front();
            if (seen.size() > 40000) { gaveUp++; clean.insert(start); return false; }
            auto it = depMemo.find(n);
            if (it == depMemo.end()) { std::vector<Node> o; std::string s = deps(n, o); it = depMemo.emplace(n, std::make_pair(s, o)).first; }
            if (!it->second.first.empty()) {
                why = it->second.first;
                for (Node x = n;;) { chain.push_back(show(x)); auto f = from.find(x); if (f == from.end()) break; x = f->second; }
                return true;
            }
            for (auto &o : it->second.second) if (!clean.count(o) && seen.insert(o).second) { from[o] = n; q.push_back(o); }
        }
        clean.insert(seen.begin(), seen.end());
        return false;
    }
    std::string show(const Node &n) {
        std::string s;
        raw_string_ostream os(s);
        if (n.v) { if (auto *I = dyn_cast<Instruction>(n.v)) os << P.loc(I) << " "; n.v->print(os); } else { os << "mem " << pathOf[n.p].str() << " at " << P.loc(n.at) << (n.content ? " (content)" : ""); }
        if (!n.v && verbose) { std::vector<const Instruction *> d; bool e, c; reaching(n.p, n.content, n.at, d, e, c); for (auto *x : d) { os << "\n        def " << P.loc(x) << " "; x->print(os); if (wpath.count(x)) os << " PATH " << pathOf[wpath[x]].str(); } return os.str(); }
        return os.str().substr(0, 200);
    }
};
} // namespace

static int uniPart(Program &P, const std::vector<std::string> &args, std::atomic<int> *next);

// the operations are shared out between processes
int checkUni(Program &P, const std::vector<std::string> &args) {
    int jobs = 8;
    for (auto &a : args) if (starts(a, "jobs=")) jobs = atoi(a.c_str() + 5);
    auto *next = (std::atomic<int> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (next == MAP_FAILED) return 3;
    new (next) std::atomic<int>(0);
    if (jobs <= 1) return uniPart(P, args, next);
    std::cout.flush();
    std::vector<std::pair<pid_t, FILE *>> kids;
    for (int j = 0; j < jobs; j++) {
        FILE *f = tmpfile();
        if (!f) return 3;
        pid_t pid = fork();
        if (pid < 0) return 3;
        if (pid == 0) {
            dup2(fileno(f), 1);
            int rc = uniPart(P, args, next);
            std::cout.flush();
            fflush(stdout);
            _exit(rc);
        }
        kids.push_back({pid, f});
    }
    int rc = 0;
    std::map<std::string, long> sum;
    for (auto &k : kids) {
        int st = 0;
        waitpid(k.first, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 3;
        rewind(k.second);
        std::string all;
        char buf[65536];
        for (size_t n; (n = fread(buf, 1, sizeof buf, k.second)) > 0;) all.append(buf, n);
        std::istringstream is(all);
        for (std::string l; std::getline(is, l);) {
            if (starts(l, "STAT\t")) { size_t t = l.find('\t', 5); sum[l.substr(5, t - 5)] += atol(l.c_str() + t + 1); }
            else std::cout << l << "\n";
        }
        fclose(k.second);
    }
    for (auto &s : sum) stat_(s.first, s.second);
    if (rc) std::cerr << "a part of the analysis failed\n";
    return rc;
}

static int uniPart(Program &P, const std::vector<std::string> &args, std::atomic<int> *next) {
    std::string only, dbg;
    for (auto &a : args) { if (starts(a, "only=")) only = a.substr(5); if (a == "dump") dbg = a; }
    int coarse = 0; // 1: library operations judged on their own stay calls; 2: all functions judged on their own do
    const std::map<const Function *, int> *lvp = nullptr;
    auto collName = [&](const CallBase *C) -> std::string {
        auto *G = P.callee(C);
        if (!G) return "";
        if (auto *s = mpiSig(G->getName())) if (s->collective) return G->getName().str();
        if (G->getName() == "MPI_Finalize" || G->getName() == "MPI_Comm_split" || G->getName() == "MPI_Comm_free" || G->getName() == "MPI_Comm_dup") return G->getName().str();
        const std::string &q = P.q(G);
        if (q == "get_next_msg_tag") return "the next message tag";
        if (q == "hila::finishrun") return q;
        if (q == "hila_reduce_sum_setup") return "";
        if (equalizer(q) || sumAll(q)) return q;
        if (coarse && lvp && lvp->count(G)) return q;
        return "";
    };
    auto lv = reaching(P, [&](const CallBase *C) { return !collName(C).empty(); }, 100, [&](const Function *G) { const std::string &q = P.q(G); return G->doesNotReturn() || q == "hila::terminate" || q == "hila::error" || q == "hila::finishrun" || q == "hila::finish_communications"; });
    for (auto *F : P.functions()) if (P.q(F) == "hila::finishrun") lv.erase(F);
    for (auto it = lv.begin(); it != lv.end();) if (starts(P.q(it->first), "cmdlinearguments::") || P.q(it->first) == "quit_with_help") it = lv.erase(it); else ++it; // ends on all ranks alike: the arguments are the same
    lvp = &lv;
    long ncoarse = 0;
    Inliner IN(P, [&](const Function *G) {
        const std::string &q = P.q(G);
        if (q == "hila::finishrun") return true;
        if (coarse && lv.count(G) && (coarse > 1 || q.find("::") != std::string::npos)) return true;
        if (q == "hila::myrank" || q == "hila::number_of_nodes" || q == "get_next_msg_tag" || equalizer(q) || sumAll(q) || q == "hila::get_allreduce") return true;
        if (starts(q, "hila::timer::") || starts(q, "timer::") || q == "hila::gettime" || q == "hila::random") return true;
        return streamFn(q);
    });
    IN.maxInstr = 80000;
    std::set<std::string> firstMembers;
    for (auto *T : P.M->getIdentifiedStructTypes()) if (T->getNumElements()) firstMembers.insert(P.member(T, 0));
    std::map<std::string, int> taken;
    long nroots = 0, ncoll = 0, nbranch = 0, queries = 0, toolarge = 0, gave = 0;
    std::map<std::pair<const Function *, std::string>, bool> resMemo;
    std::function<bool(const CallBase *)> resultDiffers = [&](const CallBase *call) {
        auto *G = P.callee(call);
        std::string flags; // boolean arguments that are constants
        for (auto &a : call->args()) { auto *k = dyn_cast<ConstantInt>(a); flags += k && k->getBitWidth() == 1 ? (k->isZero() ? 'f' : 't') : '?'; }
        auto key = std::make_pair((const Function *)G, flags);
        auto it = resMemo.emplace(key, false);
        if (!it.second || G->getReturnType()->isVoidTy()) return it.first->second;
        int was = coarse;
        coarse = P.q(G).find("::") == std::string::npos && !starts(P.q(G), "_ZN");
        Function *C = IN.run(const_cast<Function *>(G), "sroa,mem2reg,simplifycfg");
        if (C) {
            Uni U(P, C);
            U.collName = collName;
            U.first = firstMembers;
            U.self = P.q(G);
            for (size_t i = 0; i < flags.size() && i < C->arg_size(); i++) if (flags[i] != '?') U.known[C->getArg(i)] = flags[i] == 't';
            U.cfg();
            U.index();
            for (int round = 0; round < 3 && U.prune(); round++) { U.cfg(); U.paths.clear(); U.wIn.clear(); U.collIn.clear(); U.index(); }
            std::string why;
            std::vector<std::string> chain;
            for (auto &B : *C) if (U.live.count(&B)) if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) if (auto *v = R->getReturnValue()) if (!isa<Constant>(v) && U.differs({v, -1, nullptr, false}, why, chain)) { resMemo[key] = true; if (!dbg.empty()) { errs() << "result of " << P.q(G) << " differs: " << why << "\n"; for (auto &s : chain) errs() << "  <- " << s << "\n"; } }
            IN.drop(C);
        }
        coarse = was;
        return resMemo[key];
    };
    std::set<std::string> rep, sites;
    std::vector<Function *> fs;
    std::map<std::string, std::vector<Function *>> byName;
    for (auto *F : P.functions()) if (lv.count(F) && !P.isStd(F)) {
        std::string q = P.q(F);
        if (!only.empty() && P.dem(F).find(only) == std::string::npos) continue;
        if (F->getName() == "main" || q.find(".omp") != std::string::npos) continue;
        if (++taken[q] > 2) continue;
        byName[q].push_back(F);
    }
    std::vector<std::pair<std::string, Function *>> todo;
    for (auto &b : byName) for (auto *F : b.second) todo.push_back({b.first, F});
    std::stable_sort(todo.begin(), todo.end(), [](auto &a, auto &b) { return a.first.find("::") == std::string::npos && b.first.find("::") != std::string::npos; });
    for (int k; (k = next->fetch_add(1)) < (int)todo.size();) {
        Function *F = todo[k].second;
        std::string q = todo[k].first;
        Function *C = nullptr;
        for (coarse = q.find("::") == std::string::npos && !starts(q, "_ZN"); !C && coarse <= 2; coarse += !C) C = IN.run(F, "sroa,mem2reg,simplifycfg");
        ncoarse += coarse > 0 && C;
        if (!C) { toolarge++; note("too large: " + q); continue; }
        nroots++;
        if (!dbg.empty()) errs() << q << " " << C->getInstructionCount() << "\n";
        Uni U(P, C);
        U.collName = collName;
        U.first = firstMembers;
        U.self = q;
        if (coarse) { U.opaque = [&](const Function *G) { return lv.count(G) && (coarse > 1 || P.q(G).find("::") != std::string::npos) && !equalizer(P.q(G)) && !sumAll(P.q(G)); }; U.resultDiffers = resultDiffers; }
        U.verbose = !only.empty();
        U.cfg();
        U.index();
        for (int round = 0; round < 3 && U.prune(); round++) { U.cfg(); U.paths.clear(); U.wIn.clear(); U.collIn.clear(); U.index(); }
        for (auto &I : instructions(C)) {
            auto *CB = dyn_cast<CallBase>(&I);
            if (!CB || !U.live.count(CB->getParent())) continue;
            std::string cn = collName(CB);
            if (cn.empty()) continue;
            ncoll++;
            sites.insert(cn + P.loc(CB));
            auto tell = [&](const char *rule, const Node &n, const Instruction *at, const std::string &what) {
                std::string why;
                std::vector<std::string> chain;
                if (!U.differs(n, why, chain)) return;
                std::string key = q + "|" + cn;
                if (!rep.insert(std::string(rule) + P.loc(CB) + P.loc(at) + q).second) return;
                finding(rule, key, P.loc(at), q + ": " + what + " " + cn + " (at " + P.loc(CB) + ") depends on " + why + ", which can differ between ranks");
                if (!dbg.empty()) for (auto &s : chain) std::cout << "   <- " << s << "\n";
            };
            auto it = U.cd.find(CB->getParent());
            if (it != U.cd.end()) for (size_t b = 0; b < it->second.size(); b++) if (it->second[b]) {
                auto *T = U.branches[b];
                if (U.balanced(T)) continue;
                nbranch++;
                const Value *c = nullptr;
                if (auto *B = dyn_cast<BranchInst>(T)) { if (B->isConditional()) c = B->getCondition(); }
                else if (auto *S = dyn_cast<SwitchInst>(T)) c = S->getCondition();
                if (!c || isa<Constant>(c)) continue;
                tell("rank-dependent", {c, -1, nullptr, false}, T, "whether or how often a rank executes");
            }
            if (auto *s = mpiSig(P.callee(CB)->getName())) if (P.callee(CB)->getName() == "MPI_Bcast") { auto *r = CB->getArgOperand(3); if (!isa<Constant>(r)) tell("root-differs", {r, -1, nullptr, false}, CB, "the root of"); (void)s; }
            if (equalizer(P.q(P.callee(CB)))) { auto *r = CB->getArgOperand(CB->arg_size() - 1); if (r->getType()->isIntegerTy() && !isa<Constant>(r)) tell("root-differs", {r, -1, nullptr, false}, CB, "the root of"); }
        }
        queries += U.queries; gave += U.gaveUp;
        if (!dbg.empty()) errs() << "   queries " << U.queries << " nodes " << U.depMemo.size() << "\n";
        IN.drop(C);
    }
    stat_("operations", nroots);
    stat_("collective_calls", ncoll);
    stat_("collective_sites", sites.size());
    stat_("deciding_branches", nbranch);
    stat_("memory_queries", queries);
    stat_("given_up", gave);
    stat_("operations_by_parts", ncoarse);
    stat_("too_large", toolarge);
    return 0;
}

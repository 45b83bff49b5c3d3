// C02: after elements of a field have been changed the change is recorded (mark_changed) before the operation returns and
// before neighbours are fetched; for the parity of what was changed.
#include "roots.h"
#include "poly.h"
#include <algorithm>
#include <iostream>

namespace {
struct Sum { std::set<unsigned> dirty, marks; bool operator==(const Sum &o) const { return dirty == o.dirty && marks == o.marks; } };
}
static bool starts(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
// the field whose storage (reached through its pointer) an address belongs to
static std::string fieldOf(std::string t, bool storage) {
    for (auto *m : {".Field::fs", ".Field::field_struct::payload", ".field_storage::fieldbuf"}) {
        size_t p = t.find(m);
        if (p != std::string::npos) t = t.substr(0, p);
    }
    if (!storage) return t;
    size_t p = t.rfind("->");
    if (p == std::string::npos) return t;
    t = t.substr(0, p);
    // the pointer is the field's first member
    size_t h = t.rfind("::#0");
    if (h != std::string::npos && h + 4 == t.size()) { size_t d = t.rfind('.'); if (d != std::string::npos) t = t.substr(0, d); }
    return t;
}
static bool storageLevel(const std::string &q) { return starts(q, "Field::field_struct::") || starts(q, "field_storage::"); }
int checkMark(Program &P, const std::vector<std::string> &args) {
    bool dbg = false;
    std::set<std::string> ops;
    for (auto &a : args) { if (a == "debug") dbg = true; if (a.compare(0, 4, "ops=") == 0) ops = readList(a.substr(4)); }
    // parts of the halo exchange write copies, not elements
    auto halo = [&](const std::string &q) {
        for (auto *n : {"place_comm_elements", "place_recv_elements", "set_local_boundary_elements", "allocate_field", "free_field", "gather_elements_negated"})
            if (q.find(n) != std::string::npos) return true;
        return false;
    };
    auto isMark = [&](const Function *F) { return F && (P.q(F) == "Field::mark_changed"); };
    std::vector<Function *> fs;
    for (auto *F : P.functions()) if (!P.isStd(F)) fs.push_back(F);
    std::map<const Function *, Sum> sum;
    std::map<const Function *, std::unique_ptr<PolyEnv>> env;
    long writes = 0, marks = 0, nf = 0, uses = 0, loops = 0;
    std::set<std::string> writers;
    bool final_ = false;
    for (int round = 0; round < 14; round++) {
        bool changed = false;
        for (auto *F : fs) {
            const std::string &q = P.q(F);
            if (halo(q) || isMark(F)) continue;
            // anything of interest here
            bool any = false;
            for (auto &I : instructions(F)) {
                if (auto *S = dyn_cast<StoreInst>(&I)) { (void)S; if (q.find("field_storage") != std::string::npos) any = true; }
                if (auto *C = dyn_cast<CallBase>(&I)) { auto *G = P.callee(C); if (G && (isMark(G) || sum.count(G))) any = true; if (isa<MemTransferInst>(C) && q.find("field") != std::string::npos) any = true; }
                if (any) break;
            }
            if (!any) continue;
            auto &E = env[F];
            if (!E) E = std::make_unique<PolyEnv>(P);
            auto argOf = [&](const std::string &t) -> int {
                for (unsigned k = 0; k < F->arg_size(); k++) {
                    if (!F->getArg(k)->getType()->isPointerTy()) continue;
                    std::string r = E->ptr(F->getArg(k));
                    if (t == r || (starts(t, r.c_str()) && (t[r.size()] == '.' || t[r.size()] == '-' || t[r.size()] == '['))) return k;
                }
                return -1;
            };
            // effects per block, in order
            struct Eff { char k; std::string f; const Instruction *I; };
            std::map<const BasicBlock *, std::vector<Eff>> eff;
            for (auto &B : *F) for (auto &I : B) {
                auto *S = dyn_cast<StoreInst>(&I);
                auto *M = dyn_cast<MemTransferInst>(&I);
                if (S || M) {
                    const Value *D = S ? S->getPointerOperand() : M->getRawDest();
                    Path p = P.path(D);
                    bool buf = false;
                    for (size_t k = 0; k + 1 < p.steps.size(); k++)
                        if (p.steps[k].kind == Step::Member && p.steps[k].name == "field_storage::fieldbuf") for (size_t j = k + 1; j < p.steps.size(); j++) if (p.steps[j].kind == Step::Deref) buf = true;
                    if (buf) { eff[&B].push_back({'w', fieldOf(E->ptr(D), !storageLevel(q)), &I}); if (round == 0) writers.insert(q); }
                    continue;
                }
                auto *C = dyn_cast<CallBase>(&I);
                auto *G = C ? P.callee(C) : nullptr;
                if (!G || halo(P.q(G))) continue;
                if (isMark(G)) { eff[&B].push_back({'m', fieldOf(E->ptr(C->getArgOperand(0)), false), &I}); continue; }
                const std::string &gq = P.q(G);
                if (gq == "Field::start_gather" || gq == "Field::gather") eff[&B].push_back({'u', fieldOf(E->ptr(C->getArgOperand(0)), false), &I});
                auto it = sum.find(G);
                if (it == sum.end()) continue;
                for (unsigned k : it->second.dirty) if (k < C->arg_size()) eff[&B].push_back({'w', fieldOf(E->ptr(C->getArgOperand(k)), storageLevel(gq) && !storageLevel(q)), &I});
                for (unsigned k : it->second.marks) if (k < C->arg_size()) eff[&B].push_back({'m', fieldOf(E->ptr(C->getArgOperand(k)), storageLevel(gq) && !storageLevel(q)), &I});
            }
            if (eff.empty()) continue;
            // may be changed and not recorded; recorded on every path
            // changed since the copies were last invalid (on some path); invalid (on every path)
            struct St { std::set<std::string> dirty, marked; bool operator==(const St &o) const { return dirty == o.dirty && marked == o.marked; } };
            std::map<const BasicBlock *, St> in, out;
            std::set<const BasicBlock *> visited;
            std::vector<const BasicBlock *> work{&F->getEntryBlock()};
            auto flow = [&](const BasicBlock *B, St d, bool judge) {
                for (auto &e : eff[B]) {
                    if (e.k == 'w' && !d.marked.count(e.f)) d.dirty.insert(e.f);
                    if (e.k == 'm') { d.dirty.erase(e.f); d.marked.insert(e.f); }
                    if (e.k == 'u') {
                        d.marked.erase(e.f);
                        if (judge && d.dirty.count(e.f) && !starts(q, "Field::gather"))
                            finding("use-before-mark", q, P.loc(e.I), shortDem(P, F) + ": neighbours of a field are fetched between changing its elements and recording the change");
                    }
                }
                return d;
            };
            in[&F->getEntryBlock()];
            while (!work.empty()) {
                auto *B = work.back();
                work.pop_back();
                auto o = flow(B, in[B], false);
                if (visited.count(B) && o == out[B]) continue;
                visited.insert(B);
                out[B] = o;
                bool dead = false;
                for (auto &I : *B) if (auto *C = dyn_cast<CallBase>(&I)) if (noReturnCall(P, C)) dead = true;
                if (dead) continue;
                for (auto *T : successors(B)) {
                    auto it = in.find(T);
                    if (it == in.end()) { in[T] = o; work.push_back(T); continue; }
                    St n = it->second;
                    n.dirty.insert(o.dirty.begin(), o.dirty.end());
                    for (auto m = n.marked.begin(); m != n.marked.end();) if (!o.marked.count(*m)) m = n.marked.erase(m); else ++m;
                    if (!(n == it->second)) { it->second = n; work.push_back(T); }
                }
            }
            if (final_) for (auto *B : visited) flow(B, in[B], true);
            Sum s;
            for (auto *B : visited) if (isa<ReturnInst>(B->getTerminator()))
                for (auto &f : out[B].dirty) { int k = argOf(f); if (k >= 0) s.dirty.insert(k); }
            // marks on every path: no return reachable without passing one
            std::set<std::string> mf;
            for (auto &e : eff) for (auto &x : e.second) if (x.k == 'm') mf.insert(x.f);
            for (auto &f : mf) {
                std::set<const BasicBlock *> seen;
                std::vector<const BasicBlock *> w{&F->getEntryBlock()};
                bool miss = false;
                while (!w.empty() && !miss) {
                    auto *B = w.back();
                    w.pop_back();
                    if (!seen.insert(B).second) continue;
                    bool has = false;
                    for (auto &x : eff[B]) if (x.k == 'm' && x.f == f) has = true;
                    if (has) continue;
                    bool dead = false;
                    for (auto &I : *B) if (auto *C = dyn_cast<CallBase>(&I)) if (noReturnCall(P, C)) dead = true;
                    if (dead) continue;
                    if (isa<ReturnInst>(B->getTerminator())) miss = true;
                    for (auto *T : successors(B)) w.push_back(T);
                }
                int k = argOf(f);
                if (!miss && k >= 0) s.marks.insert(k);
            }
            if (!(s == sum[F])) { sum[F] = s; changed = true; }
            if (s.dirty.empty() && s.marks.empty()) sum.erase(F);
            if (dbg && round == 4) { std::cerr << q << ":"; for (auto &e : eff) for (auto &x : e.second) std::cerr << " " << x.k << ":" << x.f; std::cerr << " | dirty"; for (auto d : s.dirty) std::cerr << " " << d; std::cerr << "\n"; }
            if (round == 11 || (round && false)) { }
        }
        if (final_) break;
        if (!changed || round == 12) final_ = true;
    }
    // who leaves a change unrecorded: the listed operations, code with site loops, and whatever nobody calls
    auto primitive = [&](const std::string &q) { return storageLevel(q) || starts(q, "Field::set_value_at") || starts(q, "Field::set_vector_at"); };
    for (auto *F : fs) {
        auto it = sum.find(F);
        if (it == sum.end()) continue;
        nf++;
        const std::string &q = P.q(F);
        if (it->second.dirty.empty() || primitive(q)) continue;
        bool direct = false;
        for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (auto *G = P.callee(C)) if (starts(P.q(G), "Field::set_value_at") && !starts(q, "Field::")) direct = true;
        auto c = P.callers.find(F);
        bool top = c == P.callers.end() || c->second.empty();
        if (ops.count(q) || direct || top) finding("not-marked", q, P.loc(F), shortDem(P, F) + ": changes elements of a field without recording the change on every path");
        else note("propagated: " + q);
    }
    // parity of the record against the parity of the change
    for (auto *F : fs) {
        auto &E = env[F];
        if (!E || isMark(F)) continue;
        std::map<std::string, std::vector<std::pair<std::string, const Instruction *>>> wr;
        std::vector<std::pair<const CallBase *, std::string>> mk;
        for (auto &I : instructions(F)) {
            auto *C = dyn_cast<CallBase>(&I);
            auto *G = C ? P.callee(C) : nullptr;
            if (!G) continue;
            if (isMark(G)) { marks++; mk.push_back({C, E->of(C->getArgOperand(1)).str()}); }
            if (starts(P.q(G), "Field::set_value_at") || starts(P.q(G), "Field::set_vector_at")) { writes++; wr[fieldOf(E->ptr(C->getArgOperand(0)), false)].push_back({E->of(C->getArgOperand(C->arg_size() - 1)).str(), &I}); }
        }
        // elements given by a list: any parity
        if (starts(P.q(F), "Field::") && !storageLevel(P.q(F))) for (auto &I : instructions(F)) {
            auto *C = dyn_cast<CallBase>(&I);
            auto *G = C ? P.callee(C) : nullptr;
            auto it = G ? sum.find(G) : sum.end();
            if (it == sum.end() || !storageLevel(P.q(G)) || !it->second.dirty.count(0)) continue;
            std::string f = fieldOf(E->ptr(C->getArgOperand(0)), true);
            for (auto &m : mk) {
                if (fieldOf(E->ptr(m.first->getArgOperand(0)), false) != f) continue;
                const Value *pv = m.first->getArgOperand(1);
                std::vector<const Value *> w{pv};
                std::set<const Value *> sn;
                bool part = false;
                while (!w.empty()) {
                    const Value *v = w.back(); w.pop_back();
                    if (!sn.insert(v).second) continue;
                    if (auto *S = dyn_cast<SelectInst>(v)) { w.push_back(S->getTrueValue()); w.push_back(S->getFalseValue()); }
                    else if (auto *PN = dyn_cast<PHINode>(v)) for (auto &i : PN->incoming_values()) w.push_back(i);
                    else if (auto *CI = dyn_cast<ConstantInt>(v)) { if (!CI->equalsInt(3)) part = true; }
                }
                bool full = false;
                for (auto &m2 : mk) if (m2.second == "3" && fieldOf(E->ptr(m2.first->getArgOperand(0)), false) == f) full = true;
                if (part && !full) finding("wrong-parity", P.q(F), P.loc(m.first), shortDem(P, F) + ": a list of elements is changed but the change may be recorded for one parity only");
            }
        }
        for (auto &w : wr) for (auto &x : w.second) {
            // what was changed: the sites of a loop over a parity, or one coordinate
            std::string want, kind;
            size_t p = x.first.find("loop_begin(");
            auto arg2 = [&](size_t open) { // second argument of the call whose '(' is at open
                int d = 0; size_t a = std::string::npos;
                for (size_t k = open; k < x.first.size(); k++) {
                    char ch = x.first[k];
                    if (ch == '(' || ch == '[' || ch == '{' || ch == '<') d++;
                    else if (ch == ')' || ch == ']' || ch == '}' || (ch == '>' && x.first[k - 1] != '-')) d--;
                    else if (ch == ',' && d == 1) { if (a == std::string::npos) a = k + 1; else return x.first.substr(a, k - a); }
                }
                return std::string("?");
            };
            if (p != std::string::npos) { want = arg2(p + 10); kind = "loop"; loops++; }
            else if ((p = x.first.find("site_index(")) != std::string::npos) { want = arg2(p + 10); kind = "site"; }
            if (want.empty() || want == "?") continue;
            bool ok = false, all = false, any = false;
            std::string have;
            for (auto &m : mk) {
                if (fieldOf(E->ptr(m.first->getArgOperand(0)), false) != w.first) continue;
                any = true;
                if (m.second == "3") all = true;
                if (kind == "loop" && m.second == want) ok = true;
                if (kind == "site" && m.second.find("parity(" + want + ",") != std::string::npos && m.second.find("opp_parity") == std::string::npos) ok = true;
                // not comparable: a value that is neither a constant nor a parity function nor the loop's
                if (kind == "site" && m.second != "1" && m.second != "2" && m.second.find("parity(") == std::string::npos) ok = true;
                if (kind == "loop" && want.find_first_not_of("0123456789") != std::string::npos && m.second.find_first_not_of("0123456789") != std::string::npos && m.second.find("opp_parity") == std::string::npos && !starts(m.second, "1*arg") && m.second.find("var") == std::string::npos) ok = true;
                have += " " + m.second;
            }
            if (any && !ok && !all) finding("wrong-parity", P.q(F), P.loc(x.second), shortDem(P, F) + ": elements of parity " + want + " are changed but the change is recorded for" + have);
        }
    }
    stat_("element_changes", writes);
    stat_("change_records", marks);
    stat_("loop_writes", loops);
    for (auto &w : writers) inst(w);
    stat_("element_writers", writers.size());
    stat_("functions_summarised", nf);
    return 0;
}

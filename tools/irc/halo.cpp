// The halo exchange protocol of Field: reachable abstract states of one field and one direction under every sequence of
// fetches, waits and changes.  Used by C05 (requests) and C02 (copies of changed elements are not used).
#include "ai.h"
#include "roots.h"
#include "tstate.h"
#include <algorithm>
#include <deque>
#include <iostream>

namespace {
struct Op { std::string name; Function *F; std::vector<AVal> args; char kind; int par; int bc; };
struct Node { std::map<Cell, AVal> mem; std::map<std::string, long> facts, user;
    bool operator<(const Node &o) const { return std::tie(mem, facts, user) < std::tie(o.mem, o.facts, o.user); } };
}
static bool nb(const std::string &n) { return n == "MPI_Isend" || n == "MPI_Irecv"; }

int checkHalo(Program &P, const std::vector<std::string> &args) {
    bool dbg = false, dirichlet = false;
    size_t maxInst = 2, maxNodes = getenv("MAXN") ? atoi(getenv("MAXN")) : 6000;
    std::vector<int> dirs{0};
    for (auto &a : args) {
        if (a == "debug") dbg = true;
        if (a == "dirichlet") dirichlet = true;
        if (a == "alldirs") dirs = {-1};
        if (a == "twodirs") dirs = {0, -2};
        if (a.compare(0, 4, "max=") == 0) maxInst = std::stoul(a.substr(4));
    }
    // operations that matter: message calls, and everything leading to one
    auto op = [&](const CallBase *C) { auto *F = P.callee(C); return F && (F->getName().starts_with("MPI_I") || F->getName().starts_with("MPI_Wait")); };
    auto reach = reaching(P, op, 12, [&](const Function *F) { return P.isStd(F); });
    Inliner IN(P, [&](const Function *F) {
        const std::string &q = P.q(F);
        if (q.compare(0, 10, "std::array") == 0 || q.compare(0, 19, "std::__array_traits") == 0) return false;
        if (P.isStd(F)) return true;
        if (q.compare(0, 11, "hila::timer") == 0 || pureCall(q) || q == "get_next_msg_tag") return true;
        if (reach.count(F)) return false;
        if (q.compare(0, 7, "Field::") == 0) return F->getInstructionCount() > 400;
        return F->getInstructionCount() > 60;
    });
    IN.maxInstr = 60000;
    const char *pass = "sroa,early-cse<memssa>,simplifycfg";
    // instances of Field that have the operations
    std::map<std::string, std::map<std::string, Function *>> byType;
    for (auto *F : P.functions()) {
        const std::string &q = P.q(F);
        if (q.compare(0, 7, "Field::")) continue;
        std::string d = P.dem(F);
        size_t p = d.find("Field<");
        if (p == std::string::npos) continue;
        int depth = 0;
        size_t e = p + 5;
        for (; e < d.size(); e++) { if (d[e] == '<') depth++; if (d[e] == '>' && --depth == 0) break; }
        byType[d.substr(p, e - p + 1)][q.substr(7)] = F;
    }
    std::vector<std::string> types;
    for (auto &t : byType) {
        bool all = true;
        for (auto n : {"allocate", "start_gather", "wait_gather", "mark_changed", "clear"}) if (!t.second.count(n)) all = false;
        if (all) types.push_back(t.first);
    }
    size_t step = std::max<size_t>(1, types.size() / maxInst);
    long nfields = 0, nnodes = 0, nruns = 0, npaths = 0, gave = 0, msgs = 0;
    for (size_t ti = 0, used = 0; ti < types.size() && used < maxInst; ti += step, used++) {
        auto &fn = byType[types[ti]];
        std::map<std::string, Function *> C;
        bool bad = false;
        for (auto n : {"allocate", "start_gather", "wait_gather", "mark_changed", "clear", "gather", "set_boundary_condition"}) {
            if (!fn.count(n)) continue;
            C[n] = IN.run(fn[n], pass);
            if (!C[n]) bad = true;
        }
        if (bad) { gave++; for (auto &c : C) if (c.second) IN.drop(c.second); continue; }
        if (dbg && getenv("DUMPF") && C.count(getenv("DUMPF"))) C[getenv("DUMPF")]->print(errs());
        // number of directions: the direction loop of mark_changed is in the code; drivers are built for 2 to 4 dimensions
        int ndirs = 0;
        if (auto *T = diType(P, "Field::field_struct")) {
            const DIType *at = nullptr;
            diOffset(T, "send_buffer", &at);
            if (auto *A = dyn_cast_or_null<DICompositeType>(at)) if (A->getElements().size()) ndirs = A->getSizeInBits() / 64;
        }
        std::vector<int> ds = dirs;
        if (ds[0] < 0) { ds.clear(); for (int d = 0; d < std::max(ndirs, 2); d++) ds.push_back(d); }
        for (auto &d : ds) if (d == -2) d = std::max(ndirs, 2) - 1;
        long shiftOff = -1;
        if (auto *T = diType(P, "Field::field_struct")) shiftOff = diOffset(T, "shift_buffer");
        for (int d0 : ds) {
            auto report = [&](const std::string &rule, const std::string &key, const Instruction *I, const std::string &msg) {
                finding(rule, key, I ? P.loc(I) : P.loc(fn["start_gather"]), types[ti] + ": " + msg);
            };
            const AVal self = AVal::addr("*F", 0);
            std::vector<Op> ops;
            const char *pn[4] = {"", "EVEN", "ODD", "ALL"};
            for (int p = 1; p <= 3; p++) {
                ops.push_back({std::string("start_gather(") + pn[p] + ")", C["start_gather"], {self, AVal::num(d0), AVal::num(p)}, 's', p, 0});
                ops.push_back({std::string("wait_gather(") + pn[p] + ")", C["wait_gather"], {self, AVal::num(d0), AVal::num(p)}, 'w', p, 0});
                ops.push_back({std::string("mark_changed(") + pn[p] + ")", C["mark_changed"], {self, AVal::num(p)}, 'c', p, 0});
                if (C.count("gather")) ops.push_back({std::string("gather(") + pn[p] + ")", C["gather"], {self, AVal::num(d0), AVal::num(p)}, 'g', p, 0});
            }
            if (C.count("set_boundary_condition") && d0 >= 0)
                for (int b = 0; b < (dirichlet ? 3 : 2); b++)
                    ops.push_back({"set_boundary_condition(" + std::to_string(b) + ")", C["set_boundary_condition"], {self, AVal::num(d0), AVal::num(b)}, 'b', 3, b});
            ops.push_back({"clear", C["clear"], {self}, 'd', 3, 0});
            auto affects = [](int changed, int q) { return changed == 3 || q != changed; }; // q: loop parity reading the copies
            auto covers = [](int k, int q) { return k == 3 || k == q; };
            std::map<std::string, int> slotPar; // request slot -> parity of the message
            std::map<Node, std::string> seen;   // state -> history
            std::deque<Node> work;
            // what is remembered between operations: the field's own data, decisions on the geometry, messages in flight
            auto project = [&](const AState &S, Node &N) {
                std::vector<std::pair<std::string, std::string>> ren; // blocks of memory the field holds get lasting names
                for (auto &m : S.mem) {
                    if (m.first.first[0] == '%') continue;
                    if (m.first.first[0] == '@' && m.first.first != "@lattice") continue;
                    if (m.second.k == AVal::Sym) continue;
                    AVal v = m.second;
                    if (v.k == AVal::Addr) {
                        if (v.i == 0 && v.s == "[" + AVal::addr(m.first.first, m.first.second).str() + "]") continue; // never changed
                        if (v.s.find('#') != std::string::npos) {
                            if (m.first.first[0] != '*') continue;
                            std::string nn = "*b" + std::to_string(m.first.second);
                            ren.push_back({v.s, nn});
                            v.s = nn;
                        } else if (v.s[0] == '[' && m.first.first[0] == '*' && v.s.find("attice") != std::string::npos && v.s != "[@lattice]") continue; // tables of the lattice
                    }
                    if (m.first.first[0] != '*' && m.first.first[0] != '@') continue;
                    N.mem[m.first] = v;
                }
                for (auto &u : S.user) {
                    if (u.second == 0 || u.first[0] == '~') continue;
                    std::string k = u.first;
                    for (auto &r : ren) { size_t p = k.find(r.first); if (p != std::string::npos) k.replace(p, r.first.size(), r.second); }
                    N.user[k] = u.second;
                }
                for (auto &f : S.facts) {
                    const std::string &t = f.first;
                    if (t.find('#') != std::string::npos || t.find('~') != std::string::npos || t.find(".inl") != std::string::npos || t[0] == 'v' || t.find("(v") != std::string::npos) continue;
                    if (t.find("lt(") != std::string::npos || t.find("mul(") != std::string::npos) continue; // sizes
                    if (!dirichlet && t.find("myrank") == std::string::npos && t.find("[@lattice]+") != std::string::npos) continue;
                    if (!dirichlet && t.find("myrank") == std::string::npos && t.find("Lattice::operator->(@lattice,)+") != std::string::npos) continue;
                    if (t.find("*new") != std::string::npos && t.find("myrank") == std::string::npos) continue;
                    N.facts.insert(f);
                }
            };
            auto add = [&](const AState &S, const std::string &hist) {
                Node N;
                project(S, N);
                if (seen.count(N)) return;
                if (seen.size() > maxNodes) { gave++; return; }
                seen[N] = hist;
                if (dbg && getenv("NODES") && seen.size() < 8) { std::cout << "NODE " << hist << std::endl; for (auto &m : N.mem) std::cout << "   " << m.first.first << "+" << m.first.second << "=" << m.second.str() << "\n"; for (auto &f : S.facts) std::cout << (N.facts.count(f.first) ? "   F " : "   f ") << f.first << "=" << f.second << "\n"; for (auto &f : N.user) std::cout << "   U " << f.first << "=" << f.second << std::endl; }
                work.push_back(N);
            };
            bool stop = false;
            std::map<const CallBase *, bool> sendPacked; // was the buffer filled by the operation that sends it, on some path
            auto runOp = [&](const Op &o, const AState &init, const std::string &hist, const std::function<void(const Instruction *, const AVal &, AState &)> &done) {
                AI A(P);
                A.onCall = [&](const CallBase *CB, AState &S, AVal &r) {
                    auto *G = P.callee(CB);
                    if (!G) return false;
                    std::string n = G->getName().str();
                    const std::string &q = P.q(G);
                    if (n == "_Znwm") { r = AVal::addr("*new" + std::to_string(S.user["nnew"]++), 0); return true; }
                    if (q == "hila::is_comm_initialized") { r = AVal::num(1); return true; }
                    if (nb(n)) {
                        msgs++;
                        std::string slot = A.eval(CB->getArgOperand(6), S).str();
                        if (S.user["pend " + slot]) report("request-reused", n, CB, n + " uses a request that is still in flight (after: " + hist + " " + o.name + ")");
                        S.user["pend " + slot] = 1;
                        std::string buf = A.eval(CB->getArgOperand(0), S).str();
                        if (n == "MPI_Irecv") {
                            int k = slotPar.count(slot) ? slotPar[slot] : 0;
                            if (!k && hist.empty()) { k = slotPar[slot] = o.par; }
                            S.user["pf " + slot] = 1;
                            S.user["remote"] = 1;
                            S.user["~recv"] = 1;
                        } else {
                            bool pk = false;
                            for (auto &u : S.user) if (u.first.compare(0, 8, "~packed ") == 0 && (u.first.compare(8, buf.size(), buf) == 0 || buf.compare(0, u.first.size() - 8, u.first, 8) == 0)) pk = true;
                            sendPacked[CB] = sendPacked[CB] || pk;
                            if (!pk && getenv("PKDBG")) { std::cerr << "UNPACKED " << o.name << " " << buf << " after " << hist << "\n"; for (auto &u : S.user) std::cerr << "   " << u.first << "=" << u.second << "\n"; }
                            S.user["sbuf " + slot + "|" + buf] = 1;
                            S.user["~send"] = 1;
                        }
                        return true;
                    }
                    if (n == "MPI_Wait") {
                        std::string slot = A.eval(CB->getArgOperand(0), S).str();
                        if (!S.user["pend " + slot]) report("wait-without-start", n, CB, "MPI_Wait on a request that is not in flight (after: " + hist + " " + o.name + ")");
                        S.user["pend " + slot] = 0;
                        if (slotPar.count(slot)) {
                            if (S.user["pf " + slot]) for (int q = 1; q <= 2; q++) if (covers(slotPar[slot], q)) S.user["stale " + std::to_string(q)] = 0;
                            S.user["pf " + slot] = 0;
                        }
                        for (auto i = S.user.begin(); i != S.user.end();) { if (i->first.compare(0, 5 + slot.size() + 1, "sbuf " + slot + "|") == 0) i = S.user.erase(i); else ++i; }
                        return true;
                    }
                    if (n == "free" || n == "_ZdlPv" || n == "_ZdlPvm" || q == "d_free" || q == "field_storage::free_field" || q == "field_storage::free_mpi_buffer") {
                        for (auto &u : S.user) if (u.second && u.first.compare(0, 5, "pend ") == 0) { report("freed-in-flight", "free", CB, "memory of the field is freed while a message is in flight (after: " + hist + " " + o.name + ")"); break; }
                        return q != "d_free" ? true : true;
                    }
                    // the store of shifted copies
                    if (shiftOff >= 0 && P.isStd(G) && CB->arg_size()) {
                        AVal o = A.eval(CB->getArgOperand(0), S);
                        static const std::set<std::string> mod{"clear", "resize", "operator=", "swap", "erase", "assign"};
                        size_t k = q.rfind("::");
                        if (o.k == AVal::Addr && o.i == shiftOff && k != std::string::npos && mod.count(q.substr(k + 2)) && o.s.find("lattice") == std::string::npos) S.user["~shift"] = 1;
                        if (o.k == AVal::Addr && o.i == shiftOff) S.user["~shiftobj"] = 1;
                    }
                    // filling a buffer
                    if (G->getReturnType()->isVoidTy() && !P.isStd(G) && q.compare(0, 11, "hila::timer"))
                        for (auto &a : CB->args()) {
                            if (!a->getType()->isPointerTy()) continue;
                            std::string b = A.eval(a, S).str();
                            for (auto &u : S.user) if (u.second && u.first.compare(0, 5, "sbuf ") == 0 && u.first.substr(u.first.find('|') + 1) == b)
                                report("send-buffer-reused", q, CB, "the send buffer is handed to " + q + " while the message is in flight (after: " + hist + " " + o.name + ")");
                            S.user["~packed " + b] = 1;
                        }
                    return false;
                };
                // packing done in place
                A.onStore = [&](const Cell &c, bool, const AVal &, const Instruction *I, AState &S) {
                    if (c.first[0] == '%' || c.first[0] == '@' || c.first == "*F" || c.first.compare(0, 4, "*new") == 0) return;
                    size_t cut = 0;
                    for (int dep = 0; cut < c.first.size(); cut++) { char ch = c.first[cut]; if (ch == '(' || ch == '[') dep++; else if (ch == ')' || ch == ']') dep--; else if (ch == '+' && !dep) break; }
                    S.user["~packed " + c.first.substr(0, cut)] = 1;
                    for (auto &u : S.user) if (u.second && u.first.compare(0, 5, "sbuf ") == 0) {
                        std::string b = u.first.substr(u.first.find('|') + 1);
                        if (c.first.compare(0, b.size(), b) == 0) report("send-buffer-reused", "store", I, "the send buffer is written while the message is in flight (after: " + hist + " " + o.name + ")");
                    }
                };
                A.onReturn = [&](const Instruction *I, const AVal &v, AState &S) { npaths++; done(I, v, S); };
                if (dbg) A.onDead = [&](const Instruction *I, AState &S) { std::cerr << "DEAD " << o.name << " " << P.loc(I) << "\n"; };
                nruns++;
                A.maxSteps = 300000;
                A.run(o.F, init, o.args);
                if (A.gaveUp) { gave++; if (dbg) note("gave up " + o.name); }
            };
            AState S0;
            S0.mem[{"*F", 0}] = AVal::num(0);
            std::vector<AState> first;
            {
                Op al{"allocate", C["allocate"], {self}, 'a', 3, 0};
                runOp(al, S0, "", [&](const Instruction *, const AVal &, AState &S) {
                    S.user["stale 1"] = S.user["stale 2"] = 1;
                    first.push_back(S);
                });
            }
            if (first.empty()) { note("no path through allocate of " + types[ti]); gave++; continue; }
            for (auto &S : first) add(S, "");
            if (work.size() > 8) { }
            std::set<std::string> reported;
            bool sawRemote = false;
            while (!work.empty() && !stop) {
                Node N = work.front();
                work.pop_front();
                std::string hist = seen[N];
                for (auto &o : ops) {
                    AState S;
                    S.mem = N.mem; S.facts = N.facts; S.user = N.user;
                    auto W = [&](int p) -> std::string { return "started " + std::to_string(p); };
                    if (o.kind == 'w' && !N.user.count(W(o.par))) continue;
                    if (o.kind == 'c' || o.kind == 'b')
                        for (int q = 1; q <= 2; q++) if (affects(o.par, q)) {
                            S.user["stale " + std::to_string(q)] = 1;
                            for (auto &sl : slotPar) if (covers(sl.second, q)) S.user["pf " + sl.first] = 0;
                        }
                    // a wait belongs to a fetch with no change in between
                    if (o.kind == 'c' || o.kind == 'b') S.user[W(1)] = S.user[W(2)] = S.user[W(3)] = 0;
                    bool any = false;
                    std::string h = hist + (hist.empty() ? "" : " ") + o.name;
                    runOp(o, S, hist, [&](const Instruction *I, const AVal &v, AState &E) {
                        any = true;
                        bool remote = E.user.count("remote") && E.user["remote"] == 1;
                        if (remote) sawRemote = true;
                        auto stale = [&](int p) { return (covers(p, 1) && E.user["stale 1"]) || (covers(p, 2) && E.user["stale 2"]); };
                        auto fact = [&](int p) { for (int q = 1; q <= 2; q++) if (covers(p, q)) E.user["stale " + std::to_string(q)] = 0; };
                        if (o.kind == 's') {
                            bool zero = v.k == AVal::Int && v.i == 0;
                            if (v.k != AVal::Int) report("mask", o.name, I, "the result of the fetch is not known (after " + h + ")");
                            // nothing to receive in this geometry: decided by the first fetch of anything
                            if (hist.empty() && !E.user.count("~recv")) { E.user["remote"] = 2; }
                            if (E.user["remote"] == 2) fact(o.par);
                            if (zero && remote && stale(o.par)) report("stale-copies", "start_gather", I, "the fetch reports nothing to wait for while copies are older than the last change (" + h + ")");
                            E.user[W(o.par)] = zero ? 0 : 1;
                        }
                        if (o.kind == 'w' || o.kind == 'g') {
                            if (remote && stale(o.par)) report("stale-copies", "wait_gather", I, "after the wait copies are older than the last change (" + h + ")");
                            E.user[W(o.par)] = 0;
                            for (auto &u : E.user) if (u.second && u.first.compare(0, 5, "pend ") == 0) {
                                std::string sl = u.first.substr(5);
                                if (slotPar.count(sl) && covers(slotPar[sl], o.par) && slotPar[sl] == o.par && remote)
                                    report("not-waited", "wait_gather", I, "a message the wait is for is still in flight after it (" + h + ")");
                            }
                        }
                        if ((o.kind == 'c' || o.kind == 'b') && shiftOff >= 0 && !E.user["~shift"]) {
                            bool none = false; // nothing was stored
                            for (auto &f : E.facts) if (f.second == 1 && f.first.compare(0, 11, "std::vector") == 0 && f.first.find("::empty") != std::string::npos && f.first.find("+" + std::to_string(shiftOff)) != std::string::npos) none = true;
                            if (!none) report("stale-copies", "shift_buffer", I, "stored shifted copies of the field survive a recorded change (" + h + ")");
                        }
                        if (o.kind == 'c' || o.kind == 'b') {
                            for (auto &u : E.user) if (u.second && u.first.compare(0, 5, "pend ") == 0) {
                                std::string sl = u.first.substr(5);
                                if (!slotPar.count(sl)) continue;
                                bool aff = false;
                                for (int q = 1; q <= 2; q++) if (covers(slotPar[sl], q) && affects(o.par, q)) aff = true;
                                if (aff) report("not-dropped", "mark_changed", I, "a fetch of changed elements is still in flight after the change was recorded (" + h + ")");
                            }
                        }
                        if (o.kind == 'd') return; // the field is gone
                        add(E, h);
                    });
                    if (!any && o.kind != 'd') report("ends-run", o.name.substr(0, o.name.find('(')), &o.F->getEntryBlock().front(), "the operation never returns (" + h + ")");
                }
            }
            if (!sawRemote) { note("no remote geometry reached for " + types[ti]); gave++; }
            for (auto &sp : sendPacked) if (!sp.second) report("send-unpacked", "MPI_Isend", sp.first, "the buffer sent is not filled by the operation that sends it");
            if (dbg && getenv("NODES")) {
                std::map<std::string, std::map<std::string, int>> h;
                for (auto &n : seen) { for (auto &f : n.first.facts) h["F " + f.first][std::to_string(f.second)]++; for (auto &f : n.first.user) h["U " + f.first][std::to_string(f.second)]++; for (auto &f : n.first.mem) h["M " + f.first.first + "+" + std::to_string(f.first.second)][f.second.str()]++; }
                for (auto &x : h) { std::cout << "H " << x.first; for (auto &y : x.second) std::cout << "  " << y.first << ":" << y.second; std::cout << "\n"; }
            }
            nnodes += seen.size();
            inst(types[ti] + " direction " + std::to_string(d0));
        }
        nfields++;
        for (auto &c : C) IN.drop(c.second);
    }
    stat_("field_types", nfields);
    stat_("protocol_states", nnodes);
    stat_("operation_runs", nruns);
    stat_("paths", npaths);
    stat_("message_starts", msgs);
    stat_("given_up", gave);
    return 0;
}

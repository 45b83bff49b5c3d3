// C09, C10, C18: what the library does with files.  Whole file operations are interpreted for the first rank and for another
// one, in worlds where everything works, where a file cannot be opened, where reading or writing fails, and where closing
// fails.  The other rank gets by broadcast what the first rank sent.
#include "ai.h"
#include <climits>
#include <iostream>

namespace {
enum World { FINE, OPENFAIL, DATAFAIL, CLOSEFAIL };
const char *wname[] = {"", "the file cannot be opened", "reading or writing the file fails", "closing the file fails"};
struct Outcome {
    std::string end;                // "return", "return 0", "return 1", "ended", "finished"
    std::vector<std::string> trace; // events
    std::vector<AVal> bcast;
    std::map<std::string, long> facts;
    const Instruction *at = nullptr;
};
std::string firstParam(Program &P, const Function *F) {
    std::string d = P.dem(F);
    int depth = 0;
    size_t st = std::string::npos;
    for (size_t i = 0; i < d.size(); i++) {
        if (d[i] == '<') depth++;
        if (d[i] == '>') depth--;
        if (d[i] == '(' && depth == 0) { st = i + 1; break; }
    }
    if (st == std::string::npos) return "";
    size_t e = st;
    for (depth = 0; e < d.size(); e++) { if (d[e] == '<' || d[e] == '(') depth++; if (d[e] == '>' || d[e] == ')') { if (!depth) break; depth--; } if (d[e] == ',' && !depth) break; }
    return d.substr(st, e - st);
}
std::string tail(const std::string &q) { size_t k = q.rfind("::"); return k == std::string::npos ? q : q.substr(k + 2); }
} // namespace

int checkIo(Program &P, const std::vector<std::string> &args) {
    bool dbg = false;
    size_t maxInst = 2;
    std::string only, what = "all";
    for (auto &a : args) {
        if (a == "debug") dbg = true;
        if (a.compare(0, 4, "max=") == 0) maxInst = std::stoul(a.substr(4));
        if (a.compare(0, 5, "only=") == 0) only = a.substr(5);
        if (a.compare(0, 5, "what=") == 0) what = a.substr(5);
    }
    long runs = 0, outs = 0, gave = 0, judged = 0, events = 0;
    const std::string BF = "basic_ofstream", BI = "basic_ifstream";
    auto stream = [&](const Function *F) { return firstParam(P, F).find("fstream<") != std::string::npos; };
    auto keep = [&](const Function *F) {
        const std::string &q = P.q(F);
        if (P.isStd(F)) return true;
        if (q == "hila::broadcast" || q == "hila::broadcast2" || q == "hila::broadcast_array" || q == "hila::terminate" || q == "hila::error" || q == "hila::finishrun" || q == "hila::myrank" || q == "hila::random" || q == "hila::gettime" || q == "hila::timestamp" || q.find("hila::prettyprint") == 0 || q == "hila::seed_random") return true;
        if (q.compare(0, 12, "hila::input:") == 0 || P.dem(F).find("hila::input") == 0 || F->getName().contains("N4hila5input")) return true;
        if ((q == "Field::write" || q == "Field::read") && stream(F)) return true;
        if (q == "Field::write_subvolume_internal" && stream(F)) return true;
        if (q.find("gather_elements") != std::string::npos || q.find("scatter_elements") != std::string::npos) return true;
        return F->getInstructionCount() > 1500;
    };
    struct Root { Function *F; std::string q, kind; bool returns, config; };
    std::vector<Root> roots;
    std::map<std::string, size_t> seen;
    for (auto *F : P.functions()) {
        const std::string &q = P.q(F);
        std::string fp = firstParam(P, F);
        bool str = fp.find("basic_string<") != std::string::npos || fp.find("std::string") != std::string::npos;
        std::string kind;
        bool ret = false;
        if (q == "hila::open_input_file") kind = "open-in", ret = true;
        else if (q == "hila::open_output_file") kind = "open-out", ret = true;
        else if (q == "hila::close_file") kind = "close", ret = true;
        else if ((q == "Field::write" || q == "Field::write_subvolume" || q == "Field::write_slice" || q == "GaugeField::write" || q == "PlaquetteField::write") && str) kind = "write";
        else if ((q == "Field::read" || q == "GaugeField::read" || q == "PlaquetteField::read") && str) kind = "read";
        else if ((q == "write_fields" || q == "read_fields") && str) kind = q == "write_fields" ? "write" : "read";
        else if (q.size() > 14 && q.compare(q.size() - 14, 14, "::config_write") == 0) kind = "config-write";
        else if (q.size() > 13 && q.compare(q.size() - 13, 13, "::config_read") == 0) kind = "config-read";
        else if (q == "checkpoint") kind = "checkpoint";
        else continue;
        if (!only.empty() && only != q) continue;
        std::string key = q + (kind == "close" || kind == "open-in" || kind == "open-out" ? P.dem(F) : "");
        if (seen[key]++ >= maxInst) continue;
        roots.push_back({F, q, kind, ret, kind.compare(0, 6, "config") == 0});
    }
    Inliner IN(P, keep);
    IN.maxInstr = 60000;
    // outcomes of one rank
    auto explore = [&](Function *C, const Root &R, World w, int rank, long exists, long saveOld, const std::vector<AVal> &in, std::vector<Outcome> &out) {
        AI A(P);
        A.maxSteps = 300000;
        A.maxSame = 24;
        auto tagOf = [&](const AVal &a, AState &S) -> std::string {
            if (a.k == AVal::Addr && a.s[0] == '@') {
                auto *G = P.M->getGlobalVariable(a.s.substr(1), true);
                if (G && G->hasInitializer()) if (auto *D = dyn_cast<ConstantDataArray>(G->getInitializer())) if (D->isCString()) return "\"" + D->getAsCString().str() + "\"";
            }
            auto it = S.mem.find({"tag:" + a.str(), 0});
            return it != S.mem.end() ? it->second.str() : a.str();
        };
        auto setTag = [&](const AVal &a, const std::string &t, AState &S) { S.mem[{"tag:" + a.str(), 0}] = AVal::sym(t); };
        A.initial = [&](const Cell &c, Type *, AState &) -> AVal {
            if (c.first == "@lattice" && c.second == 0) return AVal::addr("*LAT", 0);
            return AVal::sym("[" + AVal::addr(c.first, c.second).str() + "]");
        };
        A.onCall = [&](const CallBase *CB, AState &S, AVal &r) {
            auto *G = P.callee(CB);
            if (!G) return false;
            const std::string &g = P.q(G);
            const std::string t = tail(g);
            auto arg = [&](unsigned i) { return i < CB->arg_size() ? A.eval(CB->getArgOperand(i), S) : AVal(); };
            auto fail = [&]() { S.user["failed"] = 1; };
            if (g == "hila::myrank") { r = AVal::num(rank); return true; }
            if (g == "hila::broadcast" || g == "hila::broadcast2") {
                long k = S.user["nbcast"]++;
                AVal v;
                AVal p = arg(0);
                Type *T = CB->getType()->isIntegerTy() ? CB->getType() : Type::getInt8Ty(P.ctx);
                if (T->isIntegerTy(1)) T = Type::getInt8Ty(P.ctx);
                if (rank == 0) {
                    v = A.load(p, T, S, CB);
                    S.trace.push_back("B:" + std::to_string(v.k == AVal::Int) + ":" + (v.k == AVal::Int ? std::to_string(v.i) : v.str()));
                } else {
                    v = k < (long)in.size() ? in[k] : AVal::sym("BCAST" + std::to_string(k));
                    A.store(p, v, S, CB);
                    S.trace.push_back("B");
                }
                r = v;
                return true;
            }
            if (g == "hila::broadcast_array") { S.trace.push_back("BA"); r = AVal::num(0); return true; }
            if ((g == "Field::write" || g == "Field::read") && stream(G)) {
                S.trace.push_back((g == "Field::write" ? "FW:" : "FR:") + arg(0).str() + ":" + arg(1).str());
                if (g == "Field::read" && CB->arg_size() > 2 && !G->arg_empty()) { // size of what is in the file
                    AVal sz = arg(2);
                    std::string l;
                    if (sz.k == AVal::Addr) for (long o = 0; o < 64; o += 4) { auto it = S.mem.find({sz.s, sz.i + o}); if (it == S.mem.end()) break; l += it->second.str() + ","; }
                    S.trace.back() += ":" + l;
                }
                if (w == DATAFAIL) fail();
                r = AVal::num(0);
                return true;
            }
            if (g == "Field::write_subvolume_internal") { S.trace.push_back("FW:" + arg(0).str() + ":" + arg(1).str()); if (w == DATAFAIL) fail(); r = AVal::num(0); return true; }
            if (g == "hila::random" || g == "hila::gettime") { r = AVal::sym(t + "#" + std::to_string(S.fresh++)); return true; }
            if (g.compare(0, 12, "hila::input:") == 0 || G->getName().contains("N4hila5input")) return false;
            if (!P.isStd(G)) return false;
            // ---- files
            if (g.find(BF) != std::string::npos || g.find(BI) != std::string::npos) {
                AVal me = arg(0);
                if (t == "open" || (t == BF.substr(0) || t == BI.substr(0)) ) {
                    if (t != "open" && CB->arg_size() < 3) { return false; } // default construction
                    unsigned na = 1;
                    while (na < CB->arg_size() && !CB->getArgOperand(na)->getType()->isPointerTy()) na++;
                    std::string nm = tagOf(arg(na), S);
                    S.trace.push_back(std::string("OPEN:") + (g.find(BF) != std::string::npos ? "out:" : "in:") + me.str() + ":" + nm);
                    const bool cfg = R.kind != "checkpoint" || nm.find("run_status") == std::string::npos;
                    S.user["failed"] = w == OPENFAIL && cfg;
                    S.user["open"] = !(w == OPENFAIL && cfg);
                    S.user["other"] = !cfg;
                    r = AVal::num(0);
                    return true;
                }
                if (t == "close" || (!t.empty() && t[0] == '~')) {
                    if (t[0] == '~' && !S.user["open"]) { r = AVal::num(0); return true; }
                    S.trace.push_back("CLOSE:" + me.str());
                    if (w == CLOSEFAIL && !S.user["other"]) fail();
                    if (R.kind == "close" && w == DATAFAIL) fail();
                    if (t == "close") S.user["open"] = 0;
                    r = AVal::num(0);
                    return true;
                }
                if (t == "is_open") { r = AVal::num(S.user["open"]); return true; }
                return false;
            }
            if (g.find("basic_ios::") != std::string::npos) {
                if (t == "fail" || t == "operator!") { r = AVal::num(S.user["failed"] != 0); S.trace.push_back("ASK"); return true; }
                if (t == "good" || t == "operator bool") { r = AVal::num(!S.user["failed"]); S.trace.push_back("ASK"); return true; }
                if (t == "bad") { r = AVal::num(S.user["failed"] != 0); return true; }
                if (t == "rdstate") { r = AVal::num(S.user["failed"] ? 4 : 0); return true; }
                if (t == "exceptions" || t == "clear" || t == "setstate") { if (t == "clear") S.user["failed"] = 0; r = AVal::num(0); return true; }
                return false;
            }
            if (g == "std::ostream::write" || g == "std::basic_ostream::write") {
                AVal p = arg(1), n = arg(2);
                AVal v = p.k == AVal::Addr && n.k == AVal::Int && n.i == 8 ? A.load(p, Type::getInt64Ty(P.ctx), S, CB) : AVal::sym("data");
                S.trace.push_back("W:" + n.str() + ":" + v.str());
                if (w == DATAFAIL) fail();
                r = arg(0);
                return true;
            }
            if (g == "std::istream::read" || g == "std::basic_istream::read") {
                AVal p = arg(1), n = arg(2);
                long k = S.user["reads"]++;
                if (p.k == AVal::Addr) A.store(p, AVal::sym("R" + std::to_string(k) + "."), S, CB);
                S.trace.push_back("R:" + n.str() + ":" + std::to_string(k));
                if (w == DATAFAIL) fail();
                r = arg(0);
                return true;
            }
            if (g.find("basic_ostream") != std::string::npos && t == "operator<<") { S.trace.push_back("TEXT:" + arg(0).str()); return false; }
            // ---- names
            if (g.find("filesystem") != std::string::npos) {
                if (t == "exists") { S.trace.push_back("EXISTS:" + tagOf(arg(0), S)); std::string n = tagOf(arg(0), S); r = n[0] == '(' || n[0] == '"' ? AVal::sym("exists " + n) : AVal::num(exists); return true; } // (a composed name is another file)
                if (t == "rename" || t == "copy_file" || t == "copy") { S.trace.push_back("RENAME:" + tagOf(arg(0), S) + ":" + tagOf(arg(1), S) + (t == "rename" ? "" : ":copy")); r = AVal::num(0); return true; }
                if (t == "remove" || t == "remove_all" || t == "resize_file") { S.trace.push_back("REMOVE:" + tagOf(arg(0), S)); r = AVal::num(1); return true; }
                if (t == "path" && CB->arg_size() >= 2) { setTag(arg(0), tagOf(arg(1), S), S); r = AVal::num(0); return true; }
                return false;
            }
            if (g.find("basic_string") != std::string::npos) {
                if (t == "basic_string" && CB->arg_size() >= 2) { setTag(arg(0), tagOf(arg(1), S), S); r = AVal::num(0); return true; }
                if (t == "operator=" || t == "assign") { setTag(arg(0), tagOf(arg(1), S), S); r = arg(0); return true; }
                if (t == "operator+=" || t == "append") { setTag(arg(0), "(" + tagOf(arg(0), S) + "+" + tagOf(arg(1), S) + ")", S); r = arg(0); return true; }
                if (t == "c_str" || t == "data") { r = arg(0); return true; }
                return false;
            }
            if (g == "std::operator+" && CB->arg_size() == 3) { setTag(arg(0), "(" + tagOf(arg(1), S) + "+" + tagOf(arg(2), S) + ")", S); r = AVal::num(0); return true; }
            if ((g == "rename" || g == "remove" || g == "unlink")) { S.trace.push_back((g == "rename" ? "RENAME:" : "REMOVE:") + tagOf(arg(0), S) + (g == "rename" ? ":" + tagOf(arg(1), S) : "")); r = AVal::num(0); return true; }
            return false;
        };
        auto take = [&](const std::string &end, const Instruction *I, AState &S) {
            Outcome o;
            o.end = end;
            o.trace = S.trace;
            o.facts = S.facts;
            o.at = I;
            for (auto &t : S.trace) if (t.compare(0, 2, "B:") == 0) o.bcast.push_back(t[2] == '1' ? AVal::num(atol(t.c_str() + 4)) : AVal::sym(t.substr(4)));
            events += S.trace.size();
            out.push_back(o);
            outs++;
        };
        A.onReturn = [&](const Instruction *I, const AVal &v, AState &S) { take(R.returns ? (v.k == AVal::Int ? (v.i & 1 ? "return 1" : "return 0") : "return ?") : "return", I, S); };
        A.onDead = [&](const Instruction *I, AState &S) {
            auto *CB = dyn_cast<CallBase>(I);
            auto *G = CB ? P.callee(CB) : nullptr;
            if (!G || G->getName().contains("assert_fail")) return;
            const std::string &g = P.q(G);
            take(g == "hila::finishrun" ? "finished" : "ended", I, S);
        };
        std::vector<AVal> av;
        unsigned k = 0;
        for (auto &a : C->args()) {
            if (a.getType()->isPointerTy()) av.push_back(AVal::addr("*A" + std::to_string(k), 0));
            else if (R.kind == "checkpoint" && a.getType()->isIntegerTy(1)) av.push_back(AVal::num(saveOld));
            else if (a.getType()->isIntegerTy(1)) av.push_back(AVal::num(1));
            else av.push_back(AVal::sym("ARG" + std::to_string(k)));
            k++;
        }
        A.run(C, AState(), av);
        runs++;
        if (A.gaveUp) { gave++; if (dbg) std::cout << "GAVE UP " << R.q << " world " << w << " rank " << rank << "\n"; }
    };
    auto pos = [](const Outcome &o, const std::string &start, size_t from = 0) { for (size_t i = from; i < o.trace.size(); i++) if (o.trace[i].compare(0, start.size(), start) == 0) return (long)i; return -1L; };
    auto wanted = [&](const char *c) { return what == "all" || what == c; };
    std::map<std::string, std::vector<std::string>> headerW, headerR; // per class instance
    std::map<std::string, std::string> locW, locR;
    std::map<std::string, std::map<std::string, std::set<std::string>>> order; // fields in the file, of writer and reader
    for (auto &R : roots) {
        bool c09 = R.kind == "checkpoint", c18 = R.config || ((R.kind == "write" || R.kind == "read"));
        if (what == "c09" && !c09) continue;
        if (what == "c18" && !c18) continue;
        Function *C = IN.run(R.F, "sroa,mem2reg,simplifycfg");
        if (!C) { gave++; note(R.q + " too large"); continue; }
        inst(R.q + " " + P.dem(R.F).substr(0, 60));
        std::set<std::string> told;
        auto tell = [&](const char *prop, const std::string &rule, const Instruction *I, const std::string &msg) { if (wanted(prop) && told.insert(rule).second) finding(rule, R.q, I ? P.loc(I) : P.loc(R.F), R.q + ": " + msg); };
        for (int w = FINE; w <= CLOSEFAIL; w++) {
            if ((R.kind == "open-in" || R.kind == "open-out") && w > OPENFAIL) continue;
            if (R.kind == "close" && w == OPENFAIL) continue;
            for (int ex = 0; ex < (c09 ? 2 : 1); ex++) for (int so = 0; so < (c09 ? 2 : 1); so++) {
                std::vector<Outcome> o0;
                explore(C, R, (World)w, 0, ex, so, {}, o0);
                if (dbg) for (auto &o : o0) { std::cout << R.q << " world " << w << " exists " << ex << " keep " << so << " -> " << o.end << " :"; for (auto &t : o.trace) std::cout << " " << t; std::cout << "\n"; if (R.config && o.end == "return") for (auto &f : o.facts) std::cout << "   fact " << f.first << " = " << f.second << "\n"; }
                bool back = false;
                for (auto &o : o0) {
                    judged++;
                    const bool returned = o.end.compare(0, 6, "return") == 0;
                    if (returned && o.end != "return 0") back = true;
                    if (w != FINE) {
                        // (the file may not have been touched at all on this path, e.g. a wrong header)
                        bool touched = R.kind == "close" || (w == OPENFAIL ? pos(o, "OPEN:") >= 0 : w == DATAFAIL ? pos(o, "FW:") >= 0 || pos(o, "FR:") >= 0 || pos(o, "W:") >= 0 || pos(o, "R:") >= 0 : pos(o, "CLOSE:") >= 0);
                        if (touched && returned && o.end != "return 0") tell("c10", "failure-ignored", o.at, std::string("goes on as if all was well although ") + wname[w]);
                        if (touched && o.end == "finished") tell("c10", "failure-as-success", o.at, std::string("ends the run as a normal end although ") + wname[w]);
                        if (w == OPENFAIL) {
                            long k = pos(o, "OPEN:");
                            if (k >= 0) for (size_t i = k; i < o.trace.size(); i++) if (o.trace[i].compare(0, 2, "W:") == 0 || o.trace[i].compare(0, 2, "R:") == 0 || o.trace[i].compare(0, 3, "FW:") == 0 || o.trace[i].compare(0, 3, "FR:") == 0) tell("c10", "used-unopened", o.at, "the file is used although it could not be opened");
                        }
                    } else if (!c09 && o.end == "return 0") tell("c10", "success-as-failure", o.at, "reports failure although nothing failed");
                    // ---- the other rank
                    std::vector<Outcome> o1;
                    explore(C, R, (World)w, 1, ex, so, o.bcast, o1);
                    for (auto &x : o1) {
                        judged++;
                        std::string why = w == FINE ? "in a run without failures" : wname[w];
                        if (x.end.compare(0, 6, "return") != 0 != (o.end.compare(0, 6, "return") != 0) || (R.returns && x.end != o.end)) tell("c10", "ranks-differ", o.at ? o.at : x.at, "the first rank and the others do not agree how it went (first: " + o.end + ", other: " + x.end + "; " + why + ")");
                        for (auto &t : x.trace) {
                            if (t.compare(0, 5, "OPEN:") == 0 || t.compare(0, 2, "W:") == 0 || t.compare(0, 2, "R:") == 0) tell("c10", "file-on-other-rank", x.at, "another rank than the first uses the file: " + t);
                            if (c09 && (t.compare(0, 7, "RENAME:") == 0 || t.compare(0, 7, "REMOVE:") == 0 || t.compare(0, 9, "OPEN:out:") == 0)) tell("c09", "file-on-other-rank", x.at, "another rank than the first touches the files: " + t);
                        }
                    }
                    // ---- C09
                    if (c09) {
                        long oc = -1, os = -1;
                        std::string cfg, me;
                        for (size_t i = 0; i < o.trace.size(); i++) if (o.trace[i].compare(0, 9, "OPEN:out:") == 0) {
                            if (o.trace[i].find("run_status") != std::string::npos) { if (os < 0) os = i; }
                            else if (oc < 0) { oc = i; size_t c = o.trace[i].find(':', 9); me = o.trace[i].substr(9, c - 9); cfg = o.trace[i].substr(c + 1); }
                        }
                        long rn = pos(o, "RENAME:"), rm = pos(o, "REMOVE:");
                        if (oc < 0 && returned) tell("c09", "not-written", o.at, "no configuration is written");
                        if (oc >= 0) {
                            bool moved = false;
                            for (long i = 0; i < (long)o.trace.size(); i++) {
                                const std::string &t = o.trace[i];
                                if (t.compare(0, 7, "RENAME:") == 0) {
                                    bool copy = t.size() > 5 && t.compare(t.size() - 5, 5, ":copy") == 0;
                                    std::string b = t.substr(7, t.size() - 7 - (copy ? 5 : 0));
                                    if (b.compare(0, cfg.size() + 1, cfg + ":") == 0 && b.substr(cfg.size() + 1) != cfg) { if (i < oc) moved = true; else if (!ex || true) tell("c09", "moved-late", o.at, "the file is moved after writing of the new one has begun"); }
                                }
                                if (t.compare(0, 7, "REMOVE:") == 0) tell("c09", "removed", o.at, "a file is removed while a checkpoint is made: " + t);
                            }
                            if (so && ex && !moved) tell("c09", "not-kept", o.at, "the previous configuration is not moved aside before the new one is written in its place");
                            long cl = pos(o, "CLOSE:" + me, oc);
                            if (os >= 0 && (cl < 0 || cl > os)) tell("c09", "status-early", o.at, "the run-status file is written before the configuration file is closed");
                            if (os >= 0 && os < oc) tell("c09", "status-early", o.at, "the run-status file is written before the configuration file");
                            long fw = 0;
                            for (long i = oc; i < (cl < 0 ? (long)o.trace.size() : cl); i++) if (o.trace[i].compare(0, 3, "FW:") == 0) fw++;
                            if (returned && !fw) tell("c09", "not-written", o.at, "no field data is written between opening and closing the configuration");
                            for (long i = cl < 0 ? (long)o.trace.size() : cl; i < (long)o.trace.size(); i++) if (o.trace[i].compare(0, 3, "FW:") == 0) tell("c09", "status-early", o.at, "field data is written after the file was closed");
                        } else if (os >= 0) tell("c09", "status-early", o.at, "the run-status file is written without the configuration");
                        if (w != FINE && os >= 0) tell("c09", "status-after-failure", o.at, std::string("the run-status file is written although ") + wname[w]);
                        if (w == FINE && returned && os < 0) tell("c09", "no-status", o.at, "a checkpoint is made without writing the run-status file");
                        if (returned && os >= 0 && w == FINE) {
                            size_t c = o.trace[os].find(':', 9);
                            if (pos(o, "CLOSE:" + o.trace[os].substr(9, c - 9), os) < 0) tell("c09", "status-not-closed", o.at, "the run-status file is not closed");
                        }
                        (void)rn; (void)rm;
                    }
                    // ---- C18
                    if (!R.config && c18 && w == FINE && returned) {
                        std::string d = P.dem(R.F);
                        std::string key;
                        if (R.q == "write_fields" || R.q == "read_fields") key = d.substr(d.find('<'), d.find('(') == std::string::npos ? std::string::npos : d.rfind('(') - d.find('<')) + " fields";
                        else if (R.q == "Field::write" || R.q == "Field::read" || R.q == "GaugeField::write" || R.q == "GaugeField::read" || R.q == "PlaquetteField::write" || R.q == "PlaquetteField::read") { size_t k = d.find("::write("); if (k == std::string::npos) k = d.find("::read("); key = d.substr(0, k); size_t sp = key.find(R.q.substr(0, R.q.find(':'))); key = key.substr(sp == std::string::npos ? 0 : sp); }
                        std::string seq;
                        for (auto &t : o.trace) if (t.compare(0, 3, "FW:") == 0 || t.compare(0, 3, "FR:") == 0) seq += t.substr(3, t.find(':', 3) - 3) + " ";
                        if (!key.empty()) order[key][R.kind].insert(seq);
                    }
                    if (R.config && w == FINE && returned) {
                        std::string d = P.dem(R.F), cls = d.substr(0, d.find("::config_"));
                        std::vector<std::string> h;
                        for (auto &t : o.trace) {
                            if (t.compare(0, 2, "W:") == 0) h.push_back("item " + t.substr(2));
                            if (t.compare(0, 2, "R:") == 0) h.push_back("item " + t.substr(2));
                            if (t.compare(0, 3, "FW:") == 0 || t.compare(0, 3, "FR:") == 0) { size_t a = t.find(':', 3), b = t.find(':', a + 1); h.push_back("field " + t.substr(3, a - 3) + (b == std::string::npos ? "" : " size " + t.substr(b + 1))); }
                        }
                        if (R.kind == "config-write") {
                            if (headerW.count(cls) && headerW[cls] != h) tell("c18", "not-one-layout", o.at, "what is written is not the same on all paths");
                            headerW[cls] = h;
                            locW[cls] = P.loc(R.F);
                        } else {
                            for (auto &f : o.facts) h.push_back("fact " + std::to_string(f.second) + " " + f.first);
                            headerR[cls + "|" + std::to_string(headerR.size())] = h;
                            locR[cls] = P.loc(R.F);
                        }
                    }
                }
                if (w == FINE && !back) { if (gave) note(R.q + " not decided"); else tell("c10", "success-as-failure", nullptr, "never succeeds"); }
            }
        }
        IN.drop(C);
    }
    // ---- C18: header and data of writer and reader
    long pairs = 0, items = 0;
    if (wanted("c18")) for (auto &hw : headerW) {
        for (auto &hr : headerR) {
            if (hr.first.compare(0, hw.first.size() + 1, hw.first + "|") != 0) continue;
            pairs++;
            std::vector<std::string> iw, ir, fw, fr, facts;
            auto split = [&](const std::vector<std::string> &h, std::vector<std::string> &i, std::vector<std::string> &f, bool rd) {
                bool data = false;
                for (auto &x : h) {
                    if (x.compare(0, 5, "item ") == 0) { if (data) finding("layout", "GaugeField::config", rd ? locR[hw.first] : locW[hw.first], hw.first + ": header items come after field data"); i.push_back(x.substr(5)); }
                    else if (x.compare(0, 6, "field ") == 0) { data = true; f.push_back(x.substr(6)); }
                    else facts.push_back(x.substr(5));
                }
            };
            split(hw.second, iw, fw, false);
            split(hr.second, ir, fr, true);
            const std::string loc = locR[hw.first];
            auto bad = [&](const std::string &rule, const std::string &m) { finding(rule, "GaugeField::config", loc, hw.first + ": " + m); };
            if (iw.size() != ir.size()) { bad("layout", "the writer puts " + std::to_string(iw.size()) + " items into the header and the reader takes " + std::to_string(ir.size())); continue; }
            std::vector<std::string> sizes; // terms of the lattice sizes
            for (size_t k = 0; k < iw.size(); k++) {
                items++;
                std::string sw = iw[k].substr(0, iw[k].find(':')), sr = ir[k].substr(0, ir[k].find(':')), v = iw[k].substr(iw[k].find(':') + 1);
                if (sw != sr) { bad("layout", "header item " + std::to_string(k) + " is written with " + sw + " bytes and read with " + sr); continue; }
                std::string R = "R" + std::to_string(k) + ".";
                const bool num = !v.empty() && (isdigit(v[0]) || v[0] == '-') && v.find_first_not_of("-0123456789") == std::string::npos;
                bool checked = false, wrong = false;
                std::string core = v; // lattice size without conversions
                while (core.size() > 5 && (core.compare(0, 5, "sext(") == 0 || core.compare(0, 5, "zext(") == 0)) core = core.substr(5, core.size() - 6);
                if (!core.empty() && core.back() == ',') core.pop_back();
                for (auto &f : facts) {
                    if (f.find(R) == std::string::npos) continue;
                    if (num) {
                        // equality with the written constant holds
                        if (f.compare(0, 2, "1 ") == 0 && f.find("eq(") != std::string::npos && f.find(v) != std::string::npos) checked = true;
                        if (f.compare(0, 2, "0 ") == 0 && f.find("ne(") != std::string::npos && f.find(v) != std::string::npos) checked = true;
                        if (f == v + " " + R) checked = true;
                    } else if (f.find(core) != std::string::npos) {
                        // the recorded size equals or divides the present one
                        size_t sp = f.find(' ');
                        long val = atol(f.c_str());
                        std::string t = f.substr(sp + 1);
                        while (t.compare(0, 4, "not(") == 0 && val >= 0 && val < 2) t = t.substr(4), val = !val;
                        bool eq = t.compare(0, 3, "eq(") == 0, ne = t.compare(0, 3, "ne(") == 0, rem = t.compare(0, 5, "srem(") == 0 || t.compare(0, 5, "urem(") == 0;
                        if (eq || ne || rem) { if ((eq && val == 1) || (!eq && val == 0)) checked = true; else wrong = true; }
                        else if (t.compare(0, 4, "and(") == 0 || t.compare(0, 3, "or(") == 0 || t.compare(0, 6, "select") == 0 || t.compare(0, 4, "xor(") == 0) checked = true;
                    }
                }
                if (wrong) checked = false;
                if (!checked) bad(num ? "not-checked" : "size-not-checked", "header item " + std::to_string(k) + " (" + (num ? v : "lattice size " + core) + ") is not compared with the present value before the data is used");
                if (!num) sizes.push_back(R);
            }
            if (fw.size() != fr.size()) { bad("layout", std::to_string(fw.size()) + " field components are written and " + std::to_string(fr.size()) + " read"); continue; }
            for (size_t k = 0; k < fw.size(); k++) {
                items++;
                std::string a = fw[k].substr(0, fw[k].find(' ')), b = fr[k].substr(0, fr[k].find(' '));
                if (a != b) bad("layout", "field component number " + std::to_string(k) + " in the file is " + a + " for the writer and " + b + " for the reader");
                size_t s = fr[k].find(" size ");
                if (s != std::string::npos) {
                    std::string l = fr[k].substr(s + 6);
                    size_t p = 0;
                    for (auto &z : sizes) { size_t n = l.find(z, p); if (n == std::string::npos) { bad("size-not-used", "the lattice size in the file is not what the data is read with: " + l); break; } p = n + z.size(); }
                }
            }
        }
    }
    if (wanted("c18")) for (auto &o : order) {
        if (!o.second.count("write") || !o.second.count("read")) continue;
        pairs++;
        items++;
        if (o.second["write"] != o.second["read"]) finding("layout", "field order", "field_io.h", o.first + ": fields are written in the order " + *o.second["write"].begin() + "and read in the order " + *o.second["read"].begin());
    }
    stat_("file_operations", roots.size());
    stat_("situations", runs);
    stat_("outcomes", outs);
    stat_("outcomes_judged", judged);
    stat_("events", events);
    stat_("layout_pairs", pairs);
    stat_("layout_items", items);
    stat_("given_up", gave);
    return 0;
}

// C06: arguments of the MPI data calls, as polynomials over the arguments of the library entry point.
#include "inl.h"
#include "poly.h"
#include <algorithm>
#include <iostream>
#include <sstream>

static std::vector<std::string> split(const std::string &s, const std::string &sep) {
    std::vector<std::string> r;
    size_t p = 0;
    for (;;) {
        size_t q = s.find(sep, p);
        r.push_back(s.substr(p, q == std::string::npos ? q : q - p));
        if (q == std::string::npos) return r;
        p = q + sep.size();
    }
}

static bool isTimer(Program &P, const Function *F) {
    const std::string &q = P.q(F);
    return q == "hila::timer::start" || q == "hila::timer::stop" || q == "hila::timer::init";
}

// symbols a datatype or operation operand can stand for
static void symbols(Program &P, const Value *V, std::set<std::string> &out, int depth = 0) {
    V = V->stripPointerCasts();
    if (depth > 12) { out.insert("?"); return; }
    if (auto *PN = dyn_cast<PHINode>(V)) { for (auto &i : PN->incoming_values()) if (i != PN) symbols(P, i, out, depth + 1); return; }
    if (auto *S = dyn_cast<SelectInst>(V)) { symbols(P, S->getTrueValue(), out, depth + 1); symbols(P, S->getFalseValue(), out, depth + 1); return; }
    if (auto *G = dyn_cast<GlobalValue>(V)) { out.insert(G->getName().str()); return; }
    if (auto *L = dyn_cast<LoadInst>(V)) {
        if (auto *G = dyn_cast<GlobalVariable>(L->getPointerOperand()->stripPointerCasts())) { out.insert("*" + G->getName().str()); return; }
        if (auto *A = dyn_cast<AllocaInst>(L->getPointerOperand())) {
            bool any = false;
            for (auto *U : A->users()) if (auto *S = dyn_cast<StoreInst>(U)) if (S->getPointerOperand() == A) { symbols(P, S->getValueOperand(), out, depth + 1); any = true; }
            if (any) return;
        }
    }
    if (isa<ConstantPointerNull>(V) || isa<UndefValue>(V)) return;
    out.insert("?");
}

struct MT { long size; int base; int parts; }; // parts 2: complex of base
static const std::map<std::string, MT> MTYPES = {
    {"ompi_mpi_byte", {1, 0, 1}}, {"ompi_mpi_char", {1, 0, 1}}, {"ompi_mpi_int", {4, 1, 1}}, {"ompi_mpi_int32_t", {4, 1, 1}},
    {"ompi_mpi_unsigned", {4, 2, 1}}, {"ompi_mpi_uint32_t", {4, 2, 1}}, {"ompi_mpi_long", {8, 3, 1}}, {"ompi_mpi_int64_t", {8, 3, 1}},
    {"ompi_mpi_long_long_int", {8, 3, 1}}, {"ompi_mpi_unsigned_long", {8, 4, 1}}, {"ompi_mpi_uint64_t", {8, 4, 1}},
    {"ompi_mpi_unsigned_long_long", {8, 4, 1}}, {"ompi_mpi_float", {4, 5, 1}}, {"ompi_mpi_double", {8, 6, 1}},
    {"ompi_mpi_long_double", {16, 7, 1}}, {"ompi_mpi_c_float_complex", {8, 5, 2}}, {"ompi_mpi_c_double_complex", {16, 6, 2}},
    {"ompi_mpi_cxx_cplex", {8, 5, 2}}, {"ompi_mpi_cxx_dblcplex", {16, 6, 2}}};
static const std::map<int, std::string> LOCTYPES = {{1, "ompi_mpi_2int"}, {3, "ompi_mpi_long_int"}, {5, "ompi_mpi_float_int"},
                                                    {6, "ompi_mpi_double_int"}, {7, "ompi_mpi_longdbl_int"}};

// heap blocks a pointer can point into
static void newBlocks(Program &P, const Value *V, std::vector<const CallBase *> &out, int depth = 0) {
    if (depth > 8) return;
    Path pp = P.path(V);
    for (auto &st : pp.steps) if (st.kind == Step::Deref) return;
    V = pp.root;
    if (auto *PN = dyn_cast<PHINode>(V)) { for (auto &i : PN->incoming_values()) if (i != PN) newBlocks(P, i, out, depth + 1); return; }
    if (auto *C = dyn_cast<CallBase>(V)) {
        auto *F = P.callee(C);
        if (F && F->getName() == "_Znwm") out.push_back(C);
    }
}

int checkArgs(Program &P, const std::vector<std::string> &args) {
    bool dump = args.size() && args[0] == "dump";
    Inliner IN(P, [&](const Function *F) {
        const std::string &q = P.q(F);
        return isTimer(P, F) || q.find("::n_sites") != std::string::npos || q == "hila::myrank" ||
               q == "lattice_struct::node_rank" || q == "lattice_struct::site_index" || q == "std::vector::resize";
    });
    std::map<std::string, std::vector<long>> meta;
    for (auto &G : P.M->globals()) {
        StringRef n = G.getName();
        if (!n.starts_with("c06m__") || !G.hasInitializer()) continue;
        if (auto *A = dyn_cast<ConstantDataArray>(G.getInitializer())) {
            std::vector<long> v;
            for (unsigned i = 0; i < A->getNumElements(); i++) v.push_back(A->getElementAsInteger(i));
            meta[n.substr(6).str()] = v;
        }
    }
    std::vector<Function *> roots;
    for (auto *F : P.functions()) if (F->getName().starts_with("c06__")) roots.push_back(F);
    long calls = 0, nroots = 0, blocksSeen = 0;
    std::map<std::string, std::pair<std::set<std::string>, std::set<std::string>>> p2p; // kind of field op -> send, recv sizes
    auto baseName = [](int b) { static const char *n[] = {"byte", "int", "unsigned", "long", "unsigned long", "float", "double", "long double"}; return std::string(n[b]); };
    for (auto *F : roots) {
        std::string fn = F->getName().str();
        auto part = split(fn, "__");
        std::string kind = part[1];
        Function *C = IN.run(F, "sroa,mem2reg,sccp,simplifycfg");
        if (!C) { note("too large: " + fn); continue; }
        nroots++;
        PolyEnv E(P);
        std::vector<CallBase *> mpi;
        for (auto &I : instructions(C)) if (auto *CB = dyn_cast<CallBase>(&I)) {
            auto *G = P.callee(CB);
            if (!G || !G->getName().starts_with("MPI_")) continue;
            auto *s = mpiSig(G->getName());
            if (s && s->count >= 0) mpi.push_back(CB);
        }
        calls += mpi.size();
        if (dump) std::cout << "ROOT " << fn << "\n";
        std::vector<long> mt{1, 1, 0};
        if (part.size() > 2 && meta.count(part[2])) mt = meta[part[2]];
        long esize = mt[0];
        std::string nspec = part.size() > 3 ? part[3] : "";
        std::string opspec = part.size() > 4 ? part[4] : "";
        bool sawReduce = false, sawAllred = false;
        std::set<std::string> vlens;
        std::vector<std::string> sizesMain;
        bool vecHead = false;
        for (auto *CB : mpi) {
            const Function *G = P.callee(CB);
            std::string mn = G->getName().str();
            auto *s = mpiSig(mn);
            const Value *cnt = CB->getArgOperand(s->count), *typ = CB->getArgOperand(s->type), *buf = CB->getArgOperand(s->buf);
            std::set<std::string> ts;
            symbols(P, typ, ts);
            Poly n = E.of(cnt);
            std::string bp = E.ptr(buf);
            bool isRed = mn.find("reduce") != std::string::npos || mn.find("Reduce") != std::string::npos;
            std::string tstr;
            for (auto &t : ts) tstr += t + " ";
            std::set<std::string> ops;
            if (isRed) symbols(P, CB->getArgOperand(s->type + 1), ops);
            std::string ostr;
            for (auto &t : ops) ostr += t + " ";
            if (dump) { std::cout << "  " << mn << " type=" << tstr << " op=" << ostr << " n=" << n.str() << " buf=" << bp << "\n"; continue; }
            std::string where = P.loc(CB);
            std::string opName = kind + " of " + (part.size() > 2 ? part[2] : "") + (nspec.empty() ? "" : " x " + nspec);
            std::string key = fn.substr(5) + "/" + mn;
            if (ts.size() != 1 || *ts.begin() == "?") { note("datatype not resolved in " + fn + " " + mn + ": " + tstr); continue; }
            std::string t = *ts.begin();
            if (kind == "minmax") {
                if (mn == "MPI_Allreduce" || mn == "MPI_Reduce") {
                    auto lt = LOCTYPES.find(mt[2]);
                    long c;
                    if (lt == LOCTYPES.end() || t != lt->second) finding("reduction-type", key, where, opName + ": combines value and rank as " + t + ", must be " + lt->second);
                    if (!n.isConst(c) || c != 1) finding("count", key, where, opName + ": count " + n.str() + ", must be 1");
                } else if (mn == "MPI_Bcast") {
                    long c;
                    auto it = MTYPES.find(t);
                    long cs = meta.count("cvec") ? meta["cvec"][0] : 0;
                    if (it == MTYPES.end() || !n.isConst(c) || c * it->second.size != cs) finding("count", key, where, opName + ": location broadcast of " + n.str() + " x " + t + ", must be " + std::to_string(cs) + " bytes");
                }
                inst(fn + " " + mn);
                continue;
            }
            bool custom = t[0] == '*';
            auto it = MTYPES.find(t);
            if (!custom && it == MTYPES.end()) { finding("datatype", key, where, opName + ": MPI datatype " + t + " is not a number type of the library"); continue; }
            if (isRed) {
                if (mn.find("Allreduce") != std::string::npos || mn.find("allreduce") != std::string::npos) sawAllred = true; else sawReduce = true;
                if (custom) continue;
                if (it->second.base == 0) { finding("reduction-type", key, where, opName + ": reduction as " + t); continue; }
            }
            if (kind == "reduce" || kind == "setup") {
                if (!isRed) continue;
                std::string want = opspec == "prod" ? "ompi_mpi_op_prod" : "ompi_mpi_op_sum";
                if (ops.size() != 1 || *ops.begin() != want) finding("operation", key, where, opName + ": reduced with " + ostr + ", must be " + want);
                if (it->second.base != mt[2] || (it->second.parts > 1 && opspec == "prod"))
                    finding("reduction-type", key, where, opName + ": number type is " + baseName(mt[2]) + ", reduced as " + t);
            }
            if (kind == "bcast" || kind == "send" || kind == "recv" || kind == "reduce" || kind == "setup") {
                Poly bytes = pscale(n, it->second.size, 1);
                if (nspec == "1" || nspec == "R1") {
                    if (!(bytes == pconst(esize))) finding("count", key, where, opName + ": transfers " + bytes.str() + " bytes, the value has " + std::to_string(esize));
                    std::string root = kind == "send" || kind == "recv" ? "arg0" : "arg0";
                    sizesMain.push_back(mn);
                    if (!isa<AllocaInst>(P.path(buf).root) && bp.compare(0, 4, root) && bp != "null" && !(isRed && bp.find("inttoptr") == std::string::npos && isa<Constant>(buf)))
                        note("buffer " + bp + " in " + fn + " " + mn);
                } else if (nspec[0] == 'a') {
                    Poly want;
                    want.add({"arg" + nspec.substr(1)}, esize, 1);
                    if (!(bytes == want)) finding("count", key, where, opName + ": transfers " + bytes.str() + " bytes, the values have " + want.str());
                    sizesMain.push_back(mn);
                } else if (nspec[0] == 'v' || nspec[0] == 'r') {
                    long c;
                    if (n.isConst(c)) {
                        // the length itself
                        if (c * it->second.size != 8 && c * it->second.size != 4) finding("count", key, where, opName + ": length sent as " + bytes.str() + " bytes");
                        vecHead = true;
                    } else {
                        bool ok = bytes.m.size() == 1 && bytes.m.begin()->first.size() == 1;
                        if (ok) {
                            bool by = bytes.m.begin()->first[0].compare(0, 6, "bytes(") == 0;
                            ok = bytes.m.begin()->second == std::make_pair(by ? 1L : esize, 1L);
                        }
                        if (!ok) finding("count", key, where, opName + ": transfers " + bytes.str() + " bytes, must be " + std::to_string(esize) + " x the length");
                        sizesMain.push_back(mn);
                        vlens.insert(pscale(bytes, 1, esize).str());
                    }
                }
            }
            if (kind == "bcaststring") {
                Poly bytes = pscale(n, it->second.size, 1);
                long c;
                bool ok = bytes.isConst(c) ? c == 4 || c == 8 : bytes.m.size() == 1 && bytes.m.begin()->first.size() == 1 && bytes.m.begin()->second == std::make_pair(1L, 1L);
                if (!ok) finding("count", key, where, "broadcast of a string transfers " + bytes.str() + " bytes");
            }
            if (kind == "field" && !s->collective) {
                Poly bytes = pscale(n, it->second.size, 1);
                bool ok = !bytes.m.empty();
                for (auto &e : bytes.m) if (e.second.second != 1 || e.second.first % esize) ok = false;
                if (!ok) finding("count", key, where, part[3] + " of field elements of " + std::to_string(esize) + " bytes: transfers " + bytes.str() + " bytes");
            }
            if (kind == "field" && mn == "MPI_Bcast") {
                Poly bytes = pscale(n, it->second.size, 1);
                if (part[3] == "elem" && !(bytes == pconst(esize))) finding("count", key, where, "broadcast of an element of " + std::to_string(esize) + " bytes transfers " + bytes.str());
            }
            if (kind == "field" && !s->collective) {
                std::string v = pscale(n, it->second.size, 1).str();
                for (auto &pr : std::vector<std::pair<std::string, std::string>>{{"from_node", "X_node"}, {"to_node", "X_node"}})
                    for (size_t k; (k = v.find(pr.first)) != std::string::npos;) v.replace(k, pr.first.size(), pr.second);
                bool snd = mn.find("send") != std::string::npos || mn.find("Send") != std::string::npos;
                auto &pp = p2p[fn];
                (snd ? pp.first : pp.second).insert(v);
            }
            // is the block the data arrives in large enough
            {
                int rb = isRed ? s->buf + 1 : (mn.find("ecv") != std::string::npos || mn == "MPI_Bcast") ? s->buf : -1;
                std::vector<const CallBase *> blocks;
                if (rb >= 0) newBlocks(P, CB->getArgOperand(rb), blocks);
                for (auto *B : blocks) {
                    Poly d = padd(E.of(B->getArgOperand(0)), pscale(n, it->second.size, 1), -1);
                    bool neg = !d.m.empty();
                    for (auto &e : d.m) if (e.second.first > 0) neg = false;
                    if (neg) finding("receive-block", key, where, opName + ": " + pscale(n, it->second.size, 1).str() + " bytes arrive in a block of " + E.of(B->getArgOperand(0)).str() + " bytes");
                    blocksSeen++;
                }
            }
            inst(fn + " " + mn + " " + t + " " + n.str().substr(0, 100));
        }
        if (!dump && (kind == "reduce") && nspec != "r0" && !sawAllred) finding("operation", fn.substr(5), P.loc(F), "no all-reduce in " + fn);
        if (!dump && (kind == "reduce") && !sawReduce && !sawAllred) finding("operation", fn.substr(5), P.loc(F), "nothing is reduced in " + fn);
        if (!dump && (kind == "bcast" || kind == "send" || kind == "recv") && sizesMain.empty())
            finding("not-sent", fn.substr(5), P.loc(F), "the value itself is not transferred by " + kind + " of " + part[2]);
        // the receiver's list gets the received length
        if (!dump && nspec == "v0")
            for (auto &I : instructions(C)) if (auto *CB = dyn_cast<CallBase>(&I)) {
                auto *G = P.callee(CB);
                if (!G || P.q(G) != "std::vector::resize" || CB->arg_size() < 2) continue;
                std::string bp = E.ptr(CB->getArgOperand(0));
                if (bp != "arg0") continue;
                Poly n = E.of(CB->getArgOperand(1));
                if (!vlens.count(n.str())) finding("count", fn.substr(5) + "/resize", P.loc(CB), kind + " of a list of " + part[2] + ": resized to " + n.str() + ", which is not the transferred length");
            }
        // the coalesced reductions
        if (!dump && kind == "setup" && (mt[2] == 5 || mt[2] == 6)) {
            bool ok = false;
            std::string seen;
            long ratio = mt[0] / mt[1];
            for (auto &I : instructions(C)) if (auto *S = dyn_cast<StoreInst>(&I)) {
                auto *G = dyn_cast<GlobalVariable>(S->getPointerOperand()->stripPointerCasts());
                if (!G || !S->getValueOperand()->getType()->isIntegerTy(32)) continue;
                Poly v = E.of(S->getValueOperand());
                Poly want = pconst(ratio);
                want.add({"<@" + G->getName().str() + ">"}, 1, 1);
                seen += G->getName().str() + " = " + v.str() + "; ";
                if (v == want && G->getName().contains(mt[2] == 5 ? "float" : "double")) ok = true;
            }
            if (!ok && !sawAllred) finding("count", fn.substr(5), P.loc(F), "a value of " + std::to_string(ratio) + " numbers is not queued as that many numbers of its type (" + seen + ")");
            inst(fn);
        }
        if (!dump && kind == "sums") {
            for (auto *CB : mpi) {
                const Function *G = P.callee(CB);
                auto *s = mpiSig(G->getName());
                std::set<std::string> ts;
                symbols(P, CB->getArgOperand(s->type), ts);
                Poly n = E.of(CB->getArgOperand(s->count));
                std::string b = E.ptr(CB->getArgOperand(s->buf));
                std::string t = ts.empty() ? "?" : *ts.begin();
                std::string ty = t == "ompi_mpi_double" ? "double" : t == "ompi_mpi_float" ? "float" : "?";
                bool ok = ts.size() == 1 && ty != "?" && n.str().find(ty) != std::string::npos && b.find(ty) != std::string::npos &&
                          n.m.size() == 1 && n.m.begin()->first.size() == 1 && n.m.begin()->second == std::make_pair(1L, 1L);
                std::set<std::string> ops;
                symbols(P, CB->getArgOperand(s->type + 1), ops);
                if (ops.size() != 1 || *ops.begin() != "ompi_mpi_op_sum") ok = false;
                if (!ok) finding("count", "hila_reduce_sums/" + G->getName().str() + "/" + t, P.loc(CB), "queued reductions: " + n.str() + " numbers from " + b + " reduced as " + t);
            }
            if (mpi.size() < 2) finding("operation", "hila_reduce_sums", P.loc(F), "queued reductions are not reduced");
        }
        IN.drop(C);
    }
    std::map<std::string, std::set<std::string>> fft; // element type + direction of flow -> sizes
    for (auto *F : P.functions()) {
        std::string qn = P.q(F);
        bool ga = qn == "hila_fft::gather_data", sc = qn == "hila_fft::scatter_data";
        if (!ga && !sc) continue;
        Function *C = IN.run(F, "sroa,mem2reg,sccp,simplifycfg");
        if (!C) continue;
        nroots++;
        PolyEnv E(P);
        std::string ty = P.dem(F);
        long esize = ty.find("Complex<double>") != std::string::npos ? 16 : ty.find("Complex<float>") != std::string::npos ? 8 : 0;
        for (auto &I : instructions(C)) if (auto *CB = dyn_cast<CallBase>(&I)) {
            auto *G = P.callee(CB);
            auto *s = G ? mpiSig(G->getName()) : nullptr;
            if (!s || s->count < 0 || s->collective) continue;
            calls++;
            std::set<std::string> ts;
            symbols(P, CB->getArgOperand(s->type), ts);
            auto it = MTYPES.find(ts.empty() ? "" : *ts.begin());
            if (it == MTYPES.end()) { note("datatype in " + qn); continue; }
            Poly b = pscale(E.of(CB->getArgOperand(s->count)), it->second.size, 1);
            bool snd = G->getName().contains("end");
            std::string key = ty.substr(0, ty.find("::")) + (ga == snd ? " packed" : " pencil");
            if (dump) std::cout << key << " " << G->getName().str() << " " << b.str() << "\n";
            bool ok = !b.m.empty();
            for (auto &e : b.m) if (esize && (e.second.second != 1 || e.second.first % esize)) ok = false;
            if (!ok && !dump) finding("count", qn + "/" + G->getName().str() + "/" + ty, P.loc(CB), "FFT exchange of elements of " + std::to_string(esize) + " bytes transfers " + b.str() + " bytes");
            Poly shortp; // how the member is reached does not matter
            for (auto &e : b.m) {
                std::vector<std::string> mono;
                for (auto a : e.first) {
                    size_t k = a.rfind("::");
                    mono.push_back(k == std::string::npos ? a : a.substr(k + 2));
                }
                std::sort(mono.begin(), mono.end());
                shortp.add(mono, e.second.first, e.second.second);
            }
            fft[key].insert(shortp.str());
            inst(qn + " " + G->getName().str() + " " + b.str().substr(0, 120));
        }
        IN.drop(C);
    }
    for (auto &e : fft) if (e.second.size() > 1 && !dump) {
        std::string a;
        for (auto &x : e.second) a += x + " | ";
        finding("matching-sizes", e.first, "hila_fft", "gather_data and scatter_data disagree on the size of the same column block: " + a);
    }
    for (auto &e : p2p) {
        auto &snd = e.second.first, &rcv = e.second.second;
        if (snd.empty() || rcv.empty()) continue;
        if (snd != rcv) {
            std::string a, b;
            for (auto &x : snd) a += x + " | ";
            for (auto &x : rcv) b += x + " | ";
            finding("matching-sizes", e.first.substr(5), "", "sends " + a + " bytes but the matching receive takes " + b);
        }
    }
    stat_("entry_points", nroots);
    stat_("mpi_data_calls", calls);
    stat_("receive_blocks", blocksSeen);
    stat_("inlined_calls", IN.inlined);
    return 0;
}

// Boundary conditions (C15): every way in which values cross a lattice edge, over all combinations of direction, boundary
// conditions, position of the rank and parity: which elements are copied where, and with which sign.
#include "ai.h"
#include <algorithm>
#include <iostream>
#include <sys/wait.h>
#include <unistd.h>

namespace {
long sizeOfName(std::string s) { // bytes of an element type, 0 when not known
    while (!s.empty() && s.back() == ' ') s.pop_back();
    while (!s.empty() && s[0] == ' ') s.erase(0, 1);
    static const std::map<std::string, long> b{{"double", 8}, {"float", 4}, {"int", 4}, {"unsigned int", 4}, {"long", 8}, {"unsigned long", 8}, {"long long", 8}, {"short", 2}};
    auto it = b.find(s);
    if (it != b.end()) return it->second;
    size_t p = s.find('<');
    if (p == std::string::npos || s.back() != '>') return 0;
    std::string n = s.substr(0, p), in = s.substr(p + 1, s.size() - p - 2);
    std::vector<std::string> a;
    int d = 0;
    size_t st = 0;
    for (size_t i = 0; i <= in.size(); i++) {
        if (i < in.size() && in[i] == '<') d++;
        if (i < in.size() && in[i] == '>') d--;
        if (i == in.size() || (in[i] == ',' && d == 0)) { a.push_back(in.substr(st, i - st)); st = i + 1; }
    }
    if (n == "Complex" && a.size() == 1) return 2 * sizeOfName(a[0]);
    if (n == "Matrix" && a.size() == 3) return atol(a[0].c_str()) * atol(a[1].c_str()) * sizeOfName(a[2]);
    if ((n == "SU") && a.size() == 2) { long k = atol(a[0].c_str()); return k * k * 2 * sizeOfName(a[1]); }
    return 0;
}
long baseSize(const std::string &s) { // of the innermost number type
    size_t a = s.rfind('<') == std::string::npos ? 0 : s.rfind('<') + 1;
    std::string in = s.substr(a);
    size_t e = in.find('>');
    if (e != std::string::npos) in = in.substr(0, e);
    size_t c = in.rfind(',');
    if (c != std::string::npos) in = in.substr(c + 1);
    return sizeOfName(in);
}
// a copied element: sign and byte offset in the field; sign 0 when it is something else
int copied(std::string t, long &off, const char *from, long bs) {
    int s = 1;
    for (;;) {
        auto wrap = [&](const std::string &p) { if (t.compare(0, p.size(), p) || t.back() != ')') return false; t = t.substr(p.size(), t.size() - p.size() - 1); return true; };
        if (wrap("fneg(") || wrap("sub(0,") || wrap("fsub(fp:-0,") || wrap("fsub(fp:0,") || wrap("fmul(fp:-1,") || wrap("mul(-1,")) { s = -s; if (t.size() && t.back() == ',') t.pop_back(); continue; }
        break;
    }
    long part = 0;
    if (t.compare(0, 15, "extractelement(") == 0) {
        size_t c = t.rfind(',', t.size() - 3);
        if (c == std::string::npos) return 0;
        part = atol(t.c_str() + c + 1) * bs;
        t = t.substr(15, c - 15);
    }
    const std::string f = std::string("[*") + from;
    if (t.compare(0, f.size(), f) || t.back() != ']') return 0;
    std::string r = t.substr(f.size(), t.size() - f.size() - 1);
    off = 0;
    if (!r.empty()) { if (r[0] != '+') return 0; char *e; off = strtol(r.c_str() + 1, &e, 10); if (*e) return 0; }
    off += part;
    return s;
}
struct Geo { // situation of the rank
    int ndirs, d, bcD, bcOther;
    bool up, down; // at the upper, lower lattice edge of the direction's axis
};
} // namespace

// ---------------------------------------------------------------------------------------------------- tables and protocol
namespace {
struct Common { const DICompositeType *FS, *LS, *SB; int ndirs, ndim; long runs = 0, judged = 0, gave = 0, insts = 0; };
bool stdKeep(Program &P, const Function *F) {
    const std::string &q = P.q(F);
    if (q.compare(0, 10, "std::array") == 0 || q.compare(0, 19, "std::__array_traits") == 0) return false;
    return P.isStd(F) || q.compare(0, 11, "hila::timer") == 0;
}
std::string dname(const Common &K, int d) { return std::string(d < K.ndim ? "e" : "-e") + std::to_string(d < K.ndim ? d : K.ndirs - 1 - d); }

// the lattice's tables for sign-changed halo copies
void tables(Program &P, Common &K, bool dbg) {
    auto *LS = K.LS, *SB = K.SB;
    long oMin = diOffset(LS, "mynode.min"), oSize = diOffset(LS, "mynode.size"), oVol = diOffset(LS, "mynode.volume"), oL = diOffset(LS, "l_size"), oSpec = diOffset(LS, "special_boundaries"), oAlloc = diOffset(LS, "mynode.field_alloc_size"), oDiv = diOffset(LS, "nodes.n_divisions"), oNb = diOffset(LS, "neighb"), oCo = diOffset(LS, "mynode.coordinates");
    long sSpec = SB->getSizeInBits() / 8;
    auto so = [&](const char *m) { return diOffset(SB, m); };
    if (oVol < 0 || oDiv < 0 || oNb < 0 || so("neighbours") < 0) { note("lattice members not found"); return; }
    Inliner IN(P, [&](const Function *F) {
        const std::string &q = P.q(F);
        if (stdKeep(P, F)) return true;
        return q == "lattice_struct::coordinate" || q == "lattice_struct::site_parity" || q == "lattice_struct::coordinates" || q.find("memalloc") != std::string::npos || q.find("reduce_node_sum") != std::string::npos || F->getInstructionCount() > 2000;
    });
    IN.maxInstr = 30000;
    const int nd = K.ndim, V = 1 << nd;
    std::vector<std::vector<int>> co; // even sites first
    for (int p = 0; p < 2; p++) for (int i = 0; i < V; i++) if (__builtin_popcount(i) % 2 == p) { std::vector<int> c; for (int k = 0; k < nd; k++) c.push_back(i >> k & 1); co.push_back(c); }
    for (auto *F : P.functions()) {
        const std::string &q = P.q(F);
        const bool init = q == "lattice_struct::init_special_boundaries", get = q == "lattice_struct::get_neighbour_array";
        if (!init && !get) continue;
        Function *C = IN.run(F, "sroa,early-cse<memssa>,simplifycfg");
        if (!C) { K.gave++; continue; }
        K.insts++;
        inst(q);
        std::set<std::string> told;
        auto tell = [&](const std::string &rule, const std::string &what) { if (told.insert(rule).second) finding(rule, q, P.loc(F), what); };
        int combos = 1;
        for (int k = 0; k < nd; k++) combos *= 3;
        for (int cb = 0; cb < combos; cb++) {
            std::vector<int> st; // 0: the axis is not divided, 1: the lower, 2: the upper of two ranks
            for (int k = 0, x = cb; k < nd; k++, x /= 3) st.push_back(x % 3);
            auto mn = [&](int k) { return st[k] == 2 ? 2 : 0; };
            auto edge = [&](int d) { int k = d < nd ? d : K.ndirs - 1 - d; return st[k] == 0; }; // halo made of own sites
            auto isNb = [&](int d, int i) { return 500 + 20 * d + i; };
            for (int d = 0; d < (get ? K.ndirs : 1); d++) for (int bc = 0; bc < (get ? 2 : 1); bc++) for (int done = 0; done < (get ? 2 : 1); done++) {
                if (get && cb % 3 != cb && cb % 2) continue;
                AI A(P);
                A.maxSteps = 400000;
                A.initial = [&](const Cell &c, Type *T, AState &) -> AVal {
                    auto vec = [&](long o) { return c.second >= o && c.second < o + 4 * nd ? (int)((c.second - o) / 4) : -1; };
                    int k;
                    if (c.first == "@lattice" && c.second == 0) return AVal::addr("*LAT", 0);
                    if (c.first == "*LAT") {
                        if ((k = vec(oMin)) >= 0) return AVal::num(mn(k));
                        if ((k = vec(oSize)) >= 0) return AVal::num(2);
                        if ((k = vec(oL)) >= 0) return AVal::num(st[k] ? 4 : 2);
                        if ((k = vec(oDiv)) >= 0) return AVal::num(st[k] ? 2 : 1);
                        if (c.second == oVol) return AVal::num(V);
                        if (c.second == oAlloc) return AVal::num(100);
                        if (c.second == oCo) return AVal::addr("*CO", 0);
                        if (c.second >= oNb && c.second < oNb + 8 * K.ndirs) return AVal::addr("*NB" + std::to_string((c.second - oNb) / 8), 0);
                        if (c.second >= oSpec && c.second < oSpec + K.ndirs * sSpec) {
                            int e = (c.second - oSpec) / sSpec;
                            long o = (c.second - oSpec) % sSpec;
                            bool nd_ = edge(e);
                            if (o == so("n_even") || o == so("n_odd")) return AVal::num(nd_ ? V / 4 : 0);
                            if (o == so("n_total")) return AVal::num(nd_ ? V / 2 : 0);
                            if (o == so("offset")) return AVal::num(1000 + 100 * e);
                            if (o == so("is_needed")) return AVal::num(nd_);
                            if (o == so("neighbours")) return done ? AVal::addr("*SN" + std::to_string(e), 0) : AVal::num(0);
                            if (o == so("move_index")) return done ? AVal::addr("*SM" + std::to_string(e), 0) : AVal::num(0);
                        }
                    }
                    if (c.first.compare(0, 3, "*NB") == 0) return AVal::num(isNb(atol(c.first.c_str() + 3), c.second / 4));
                    if (c.first == "*CO" && c.second >= 0 && c.second < 4 * nd * V) return AVal::num(co[c.second / 4 / nd][c.second / 4 % nd] + mn(c.second / 4 % nd));
                    (void)T;
                    return AVal::sym("[" + AVal::addr(c.first, c.second).str() + "]");
                };
                int fresh = 0;
                A.onCall = [&](const CallBase *CB, AState &S, AVal &r) {
                    auto *G = P.callee(CB);
                    if (!G) return false;
                    const std::string &g = P.q(G);
                    auto ai = [&](unsigned k) { return k < CB->arg_size() ? A.eval(CB->getArgOperand(k), S) : AVal(); };
                    if (g == "lattice_struct::coordinate") { AVal i = ai(1), e = ai(2); if (i.k == AVal::Int && e.k == AVal::Int && i.i >= 0 && i.i < V && e.i >= 0 && e.i < nd) { r = AVal::num(co[i.i][e.i] + mn(e.i)); return true; } }
                    if (g == "lattice_struct::site_parity") { AVal i = ai(1); if (i.k == AVal::Int && i.i >= 0 && i.i < V) { int x = 0; for (int k = 0; k < nd; k++) x += co[i.i][k] + mn(k); r = AVal::num(x % 2 ? 2 : 1); return true; } }
                    if (g.find("memalloc") != std::string::npos && G->getReturnType()->isPointerTy()) { r = AVal::addr("*NEW" + std::to_string(fresh++ % 64), 0); return true; }
                    if (g.find("reduce_node_sum") != std::string::npos) { r = AVal::num(0); return true; }
                    return false;
                };
                A.onReturn = [&](const Instruction *, const AVal &rv, AState &S) {
                    auto cell = [&](const std::string &o, long k) -> AVal { auto i = S.mem.find({o, k}); return i == S.mem.end() ? A.initial({o, k}, nullptr, S) : i->second; };
                    auto spec = [&](int e, const char *m) { return cell("*LAT", oSpec + e * sSpec + so(m)); };
                    K.judged++;
                    if (init) {
                        long end = 100;
                        std::vector<std::pair<long, long>> used;
                        for (int e = 0; e < K.ndirs; e++) {
                            AVal need = spec(e, "is_needed"), tot = spec(e, "n_total"), ev = spec(e, "n_even"), od = spec(e, "n_odd"), off = spec(e, "offset");
                            if (need.k != AVal::Int || tot.k != AVal::Int || ev.k != AVal::Int || od.k != AVal::Int) { K.gave++; return; }
                            std::string w = " (direction " + dname(K, e) + ", axis " + (edge(e) ? "not divided" : "divided over ranks") + ")";
                            if ((need.i != 0) != edge(e)) { tell("halo-table", "special boundary is made needed wrongly" + w); continue; }
                            if (!edge(e)) { if (tot.i) tell("halo-table", "halo places are reserved for a direction other ranks fill" + w); continue; }
                            if (tot.i != V / 2 || ev.i != V / 4 || od.i != V / 4) tell("halo-table", "the numbers of halo sites are not those of the boundary" + w);
                            if (off.k != AVal::Int) { K.gave++; return; }
                            used.push_back({off.i, off.i + tot.i});
                            end += V / 2;
                        }
                        std::sort(used.begin(), used.end());
                        for (size_t k = 0; k < used.size(); k++) if (used[k].first < 100 || (k && used[k].first < used[k - 1].second)) tell("halo-overlap", "halo places of two directions overlap, or lie in the ordinary field");
                        AVal al = cell("*LAT", oAlloc);
                        if (al.k == AVal::Int && !used.empty() && al.i < used.back().second) tell("halo-overlap", "the field's allocation size does not cover the halo places");
                        return;
                    }
                    std::string w = " (direction " + dname(K, d) + (bc ? ", antiperiodic" : ", periodic") + (edge(d) ? ", axis not divided" : ", axis divided over ranks") + (done ? ", tables made before" : "") + ")";
                    std::string nb = "*NB" + std::to_string(d);
                    if (rv.k != AVal::Addr) { K.gave++; return; }
                    if (!bc || !edge(d)) { if (rv.s != nb || rv.i) tell("neighbour-table", "the neighbour table is not the ordinary one" + w); return; }
                    if (done) { if (rv.s == nb) tell("neighbour-table", "the ordinary neighbour table is used at an antiperiodic boundary" + w); return; }
                    if (rv.s == nb) { tell("neighbour-table", "the ordinary neighbour table is used at an antiperiodic boundary" + w); return; }
                    AVal mi = spec(d, "move_index"), off = AVal::num(1000 + 100 * d);
                    if (mi.k != AVal::Addr) { tell("neighbour-table", "the list of halo copies is not made" + w); return; }
                    int kk = 0, ax = d < nd ? d : K.ndirs - 1 - d;
                    for (int i = 0; i < V; i++) {
                        AVal n = cell(rv.s, rv.i + 4 * i);
                        bool at = co[i][ax] == (d < nd ? 1 : 0);
                        if (n.k != AVal::Int) { tell("neighbour-table", "a site has no neighbour entry" + w); return; }
                        if (!at && n.i != isNb(d, i)) tell("neighbour-table", "an inner site's neighbour is not the ordinary one" + w);
                        if (at) {
                            if (n.i < off.i || n.i >= off.i + V / 2) { tell("neighbour-table", "the neighbour of a site at the antiperiodic edge is not a halo site" + w); continue; }
                            AVal m = cell(mi.s, mi.i + 4 * (n.i - off.i));
                            if (m.k != AVal::Int || m.i != isNb(d, i)) tell("neighbour-table", "a halo site is not filled from the neighbour of the site that reads it" + w);
                            // even readers' halo sites come first
                            if ((n.i - off.i < V / 4) != (i < V / 2)) tell("neighbour-table", "halo sites of even readers do not come first" + w);
                            kk++;
                        }
                    }
                };
                AState in;
                std::vector<AVal> av{AVal::addr("*LAT", 0)};
                if (get) { av.push_back(AVal::num(d)); av.push_back(AVal::num(bc)); }
                A.run(C, in, av);
                K.runs++;
                if (A.gaveUp) { K.gave++; if (dbg) std::cout << q << " gave up\n"; }
            }
        }
        IN.drop(C);
    }
}

// setting and copying boundary conditions; a started fetch fills every halo it announces
void protocol(Program &P, Common &K, bool dbg, size_t maxInst) {
    auto *FS = K.FS;
    long oBC = diOffset(FS, "boundary_condition"), oNb = diOffset(FS, "neighbours"), oGs = diOffset(FS, "gather_status_arr"), oLat = diOffset(FS, "mylattice"), oAs = diOffset(FS, "assigned_to");
    auto *FT = diType(P, "Field");
    long oFs = FT ? diOffset(FT, "fs") : 0;
    if (oFs < 0) oFs = 0;
    if (oBC < 0 || oNb < 0 || oGs < 0) { note("field members not found"); return; }
    static const std::set<std::string> names{"Field::set_boundary_condition", "Field::copy_boundary_condition", "Field::start_communication", "Field::field_struct::allocate_payload"};
    std::map<std::string, std::map<std::string, Function *>> by;
    for (auto *F : P.functions()) if (names.count(P.q(F))) by[P.q(F)][P.dem(F)] = F;
    auto kept = [&](const std::string &q) {
        return q == "lattice_struct::get_neighbour_array" || q == "Field::field_struct::set_local_boundary_elements" || q == "Field::field_struct::gather_comm_elements" || q == "Field::mark_changed" || q == "Field::will_change" || q == "Field::check_alloc" || q == "Field::allocate" || q.find("get_next_msg_tag") != std::string::npos || q.find("assert_all_ranks") != std::string::npos || q.find("get_receive_buffer") != std::string::npos || q.find("allocate_mpi_buffer") != std::string::npos;
    };
    Inliner IN(P, [&](const Function *F) { return stdKeep(P, F) || kept(P.q(F)) || F->getInstructionCount() > 2000; });
    IN.maxInstr = 30000;
    for (auto &b : by) {
        size_t n = 0;
        for (auto &m : b.second) {
            if (n++ >= maxInst) break;
            Function *C = IN.run(m.second, "sroa,early-cse<memssa>,simplifycfg");
            if (!C) { K.gave++; continue; }
            K.insts++;
            inst(b.first + " " + m.first.substr(0, 80));
            std::set<std::string> told;
            auto tell = [&](const std::string &rule, const std::string &what) { if (told.insert(rule).second) finding(rule, b.first, P.loc(m.second), what); };
            const bool set = b.first == "Field::set_boundary_condition", copy = b.first == "Field::copy_boundary_condition", startc = b.first == "Field::start_communication";
            if (!set && !copy && !startc) { IN.drop(C); continue; }
            for (int d = 0; d < (copy ? 1 : K.ndirs); d++) for (int v = set ? 0 : 1; v < (startc ? 4 : 2); v++) for (int pat = 0; pat < (copy ? (1 << K.ndim) : set ? 2 : 1); pat++) {
                AI A(P);
                A.maxSteps = 300000;
                A.initial = [&](const Cell &c, Type *T, AState &) -> AVal {
                    if (c.first == "@lattice" && c.second == 0) return AVal::addr("*LAT", 0);
                    for (int k = 1; k <= 2; k++) {
                        std::string f = k == 1 ? "*F1" : "*F2", fs = k == 1 ? "*S1" : "*S2";
                        if (c.first == f && c.second == oFs) return AVal::addr(fs, 0);
                        if (c.first != fs) continue;
                        if (c.second == oLat) return AVal::addr("*LAT", 0);
                        if (c.second >= oBC && c.second < oBC + 4 * K.ndirs) {
                            int e = (c.second - oBC) / 4, ax = e < K.ndim ? e : K.ndirs - 1 - e;
                            return AVal::num(copy ? (k == 2 ? pat >> ax & 1 : !(pat >> ax & 1)) : set ? pat : 0);
                        }
                        if (c.second >= oNb && c.second < oNb + 8 * K.ndirs) return AVal::addr(fs + "old" + std::to_string((c.second - oNb) / 8), 0);
                        if (c.second >= oGs && c.second < oGs + 12 * K.ndirs) return AVal::num(0);
                        if (oAs >= 0 && c.second == oAs) return AVal::num(3);
                    }
                    (void)T;
                    return AVal::sym("[" + AVal::addr(c.first, c.second).str() + "]");
                };
                A.onCall = [&](const CallBase *CB, AState &S, AVal &r) {
                    auto *G = P.callee(CB);
                    if (!G) return false;
                    const std::string &g = P.q(G);
                    auto arg = [&](unsigned k) { return k < CB->arg_size() ? A.eval(CB->getArgOperand(k), S).str() : std::string(); };
                    if (g == "lattice_struct::get_neighbour_array") { r = AVal::addr("*GN_" + arg(1) + "_" + arg(2), 0); return true; }
                    if (g == "Field::field_struct::set_local_boundary_elements") { S.user["local " + arg(1) + " " + arg(2)] = 1; r = AVal::num(0); return true; }
                    if (g == "Field::field_struct::gather_comm_elements") { S.user["packed " + arg(1) + " " + arg(2) + " " + arg(3)] = 1; r = AVal::num(0); return true; }
                    if (kept(g) && !G->getReturnType()->isPointerTy()) { r = G->getReturnType()->isVoidTy() ? AVal::num(0) : AVal::sym("call" + g); return true; }
                    if (G->getName() == "MPI_Isend" && startc) {
                        K.judged++;
                        bool ok = false;
                        std::string b0 = arg(0), pre = "packed " + std::to_string(d) + " " + std::to_string(v) + " ";
                        for (auto &u : S.user) if (u.first.compare(0, pre.size(), pre) == 0 && u.first.substr(pre.size()) == b0) ok = true;
                        if (!ok) tell("sent-without-packing", "elements are sent without gather_comm_elements for this direction and parity into the sent buffer (direction " + dname(K, d) + ", parity " + std::to_string(v) + ")");
                        r = AVal::num(0);
                        return true;
                    }
                    return false;
                };
                A.onReturn = [&](const Instruction *, const AVal &, AState &S) {
                    auto cell = [&](const std::string &o, long k) -> AVal { auto i = S.mem.find({o, k}); return i == S.mem.end() ? A.initial({o, k}, nullptr, S) : i->second; };
                    K.judged++;
                    for (int e = 0; e < K.ndirs; e++) {
                        int ax = e < K.ndim ? e : K.ndirs - 1 - e, dx = d < K.ndim ? d : K.ndirs - 1 - d;
                        if (startc) {
                            for (int q = 0; q < 3; q++) {
                                AVal g = cell("*S1", oGs + 4 * (q * K.ndirs + e));
                                if (g.k == AVal::Int && g.i != 0 && !S.user.count("local " + std::to_string(e) + " " + std::to_string(q + 1)))
                                    tell("local-copies-missing", "a fetch is announced without the rank's own halo copies for it (direction " + dname(K, e) + ", parity " + std::to_string(q + 1) + ")");
                            }
                            continue;
                        }
                        bool mine = copy || ax == dx;
                        int want = copy ? pat >> ax & 1 : mine ? v : pat;
                        std::string w = " (" + std::string(copy ? "copied, " : "set for ") + dname(K, copy ? e : d) + (v ? ", antiperiodic" : ", periodic") + "; direction " + dname(K, e) + ")";
                        AVal b = cell("*S1", oBC + 4 * e), nbv = cell("*S1", oNb + 8 * e);
                        if (b.k == AVal::Int && b.i != want) tell("condition-not-set", std::string(mine ? "the boundary condition is not recorded" : "another direction's boundary condition changes") + w);
                        if (nbv.k != AVal::Addr) continue;
                        std::string wn = mine ? "*GN_" + std::to_string(e) + "_" + std::to_string(want) : "*S1old" + std::to_string(e);
                        if (copy && nbv.s == "*S1old" + std::to_string(e) && b.k == AVal::Int && b.i == want && !(pat >> ax & 1) == want) continue;
                        if (nbv.s != wn) tell("neighbours-not-set", std::string("the field's neighbour table does not follow the boundary condition") + w);
                    }
                };
                AState in;
                std::vector<AVal> av{AVal::addr("*F1", 0)};
                if (set || startc) { av.push_back(AVal::num(d)); av.push_back(AVal::num(v)); }
                if (copy) av.push_back(AVal::addr("*F2", 0));
                A.run(C, in, av);
                K.runs++;
                if (A.gaveUp) K.gave++;
                if (dbg && d == 0 && pat == 0) std::cout << b.first << " d " << d << " v " << v << " paths " << A.paths << " judged " << K.judged << (A.gaveUp ? " GAVE UP" : "") << "\n";
            }
            IN.drop(C);
        }
    }
}
} // namespace

int checkBc(Program &P, const std::vector<std::string> &args) {
    bool dbg = false;
    size_t maxInst = 6;
    std::string only;
    for (auto &a : args) { if (a == "debug") dbg = true; if (a.compare(0, 4, "max=") == 0) maxInst = std::stoul(a.substr(4)); if (a.compare(0, 5, "only=") == 0) only = a.substr(5); }
    auto *FS = diType(P, "Field::field_struct"), *LS = diType(P, "lattice_struct"), *CN = diType(P, "lattice_struct::comm_node_struct"), *SB = diType(P, "lattice_struct::special_boundary_struct");
    if (!FS || !LS || !CN || !SB) { note("no debug types"); return 0; }
    const DIType *at = nullptr;
    long oBC = diOffset(FS, "boundary_condition", &at), oLat = diOffset(FS, "mylattice"), oVL = diOffset(FS, "vector_lattice"), oNb = diOffset(FS, "neighbours");
    int ndirs = at ? at->getSizeInBits() / 32 : 0, ndim = ndirs / 2;
    long oMin = diOffset(LS, "mynode.min"), oSize = diOffset(LS, "mynode.size"), oPar = diOffset(LS, "mynode.parent"), oL = diOffset(LS, "l_size"), oSpec = diOffset(LS, "special_boundaries"), oAlloc = diOffset(LS, "mynode.field_alloc_size"),
         oVolN = diOffset(LS, "mynode.volume"), oDiv = diOffset(LS, "nodes.n_divisions"), oNeigh = diOffset(LS, "neighb");
    long sSpec = SB->getSizeInBits() / 8;
    if (oBC < 0 || oLat < 0 || !ndirs || oMin < 0 || oSize < 0 || oPar < 0 || oL < 0 || oSpec < 0) { note("members not found"); return 0; }
    auto so = [&](const char *m) { return diOffset(SB, m); };
    auto co = [&](const char *m) { return diOffset(CN, m); };
    long runs = 0, pathsN = 0, copies = 0, opaque = 0, insts = 0, gave = 0, vecs = 0;
    // the rank's geometry as far as the code may ask for it
    auto geoCell = [&](const Geo &g, const Cell &c, AVal &v) {
        int axis = g.d < ndim ? g.d : ndirs - 1 - g.d;
        if (c.first == "@lattice" && c.second == 0) { v = AVal::addr("*LAT", 0); return true; }
        if (c.first == "*FS") {
            if (c.second == 0) { v = AVal::addr("*FB", 0); return true; }
            if (c.second == oLat) { v = AVal::addr("*LAT", 0); return true; }
            if (oVL >= 0 && c.second == oVL) { v = AVal::addr("*VL", 0); return true; }
            if (c.second >= oBC && c.second < oBC + 4 * ndirs) { v = AVal::num((c.second - oBC) / 4 == g.d ? g.bcD : g.bcOther); return true; }
        }
        if (c.first == "*LAT") {
            if (c.second == oPar) { v = AVal::addr("*LAT", 0); return true; }
            if (c.second == oAlloc) { v = AVal::num(900); return true; }
            auto vec = [&](long o) { return c.second >= o && c.second < o + 4 * ndim ? (int)((c.second - o) / 4) : -1; };
            int k;
            // axis of the direction as asked, the others the other way round
            auto U = [&](int x) { return x == axis ? g.up : !g.up; };
            auto D = [&](int x) { return x == axis ? g.down : !g.down; };
            if ((k = vec(oMin)) >= 0) { v = AVal::num(D(k) ? 0 : 4); return true; }
            if ((k = vec(oSize)) >= 0) { v = AVal::num(4); return true; }
            if ((k = vec(oL)) >= 0) { v = AVal::num((D(k) ? 0 : 4) + 4 + (U(k) ? 0 : 4)); return true; }
        }
        return false;
    };
    auto isStdKeep = [&](const Function *F) {
        const std::string &q = P.q(F);
        if (q.compare(0, 10, "std::array") == 0 || q.compare(0, 19, "std::__array_traits") == 0) return false;
        return P.isStd(F) || q.compare(0, 11, "hila::timer") == 0;
    };
    Inliner IN(P, [&](const Function *F) {
        const std::string &q = P.q(F);
        if (isStdKeep(F)) return true;
        if (q.size() > 22 && q.find("get_vectorized_lattice") != std::string::npos) return true;
        return F->getInstructionCount() > 3000;
    });
    IN.maxInstr = 60000;
    const char *pass = "sroa,early-cse<memssa>,simplifycfg";
    std::map<std::string, std::map<std::string, Function *>> byName; // function -> element type -> instance
    for (auto *F : P.functions()) {
        const std::string &q = P.q(F);
        for (auto n : {"Field::field_struct::gather_comm_elements", "Field::field_struct::set_local_boundary_elements", "Field::field_struct::place_comm_elements"})
            if (q == n) {
                std::string d = P.dem(F);
                size_t p = d.find("Field<");
                int depth = 0;
                size_t e = p + 5;
                for (; e < d.size(); e++) { if (d[e] == '<') depth++; if (d[e] == '>' && --depth == 0) break; }
                byName[n][d.substr(p + 6, e - p - 6)] = F;
            }
    }
    const char *pn[4] = {"", "EVEN", "ODD", "ALL"};
    auto dirName = [&](int d) { std::string s = d < ndim ? "e" : "-e"; s += std::to_string(d < ndim ? d : ndirs - 1 - d); return s; };
    for (auto &bn : byName) {
        const bool send = bn.first.find("gather_comm") != std::string::npos, place = bn.first.find("place_comm") != std::string::npos;
        std::vector<std::pair<std::string, Function *>> pick, all(bn.second.begin(), bn.second.end());
        std::stable_sort(all.begin(), all.end(), [&](auto &a, auto &b) { long x = sizeOfName(a.first), y = sizeOfName(b.first); return (x ? x : 9999) < (y ? y : 9999); });
        size_t step = std::max<size_t>(1, all.size() / maxInst);
        // all the simple types, then spread
        for (size_t i = 0; i < all.size(); i++) if ((sizeOfName(all[i].first) && sizeOfName(all[i].first) <= 8) || i % step == 0) pick.push_back(all[i]);
        for (auto &pk : pick) {
            long es = sizeOfName(pk.first);
            if (!only.empty() && pk.first != only) continue;
            if (!es || es > 300) continue;
            Function *C = IN.run(pk.second, pass);
            if (!C) { gave++; continue; }
            insts++;
            inst(bn.first + " " + pk.first);
            const long bs = baseSize(pk.first), W0 = bs >= 4 && bs <= 8 && oVL >= 0 ? 32 / bs : 1;
            const DICompositeType *VT = nullptr;
            auto vi = P.di_.find("vectorized_lattice_struct");
            if (W0 > 1 && vi != P.di_.end()) for (auto *c : vi->second) if (c->getName() == "vectorized_lattice_struct<" + std::to_string(W0) + ">") VT = c;
            const long W = VT ? W0 : 1, E = bs ? es / bs : 1; // vector length, numbers in an element
            if (VT) vecs++;
            enum { PERM, BCOPY, HOFF, NHALO, HIDX, LOCALC, LEAVES, RLIST, RSIZE, NVO };
            long VO[NVO] = {-1, -1, -1, -1, -1, -1, -1, -1, -1};
            if (VT) { int k = 0; for (auto m : {"is_boundary_permutation", "boundary_permutation", "halo_offset", "n_halo_vectors", "halo_index", "only_local_boundary_copy", "boundary_leaves_node", "recv_list", "recv_list_size"}) VO[k++] = diOffset(VT, m); }
            if (VT && (VO[PERM] < 0 || VO[BCOPY] < 0 || VO[HOFF] < 0 || VO[NHALO] < 0 || VO[HIDX] < 0)) { note("vector layout members not found"); gave++; IN.drop(C); continue; }
            std::set<std::string> told;
            bool decided = false;
            auto tell = [&](const std::string &rule, const std::string &what) { if (told.insert(rule).second) finding(rule, bn.first, P.loc(pk.second), "Field<" + pk.first + ">: " + what); };
            for (int d = 0; d < ndirs; d++) for (int bc = 0; bc < 2; bc++) for (int up = 0; up < 2; up++) for (int down = 0; down < 2; down++) for (int par = 1; par <= 3; par++)
            for (int mode = 0; mode < (VT ? 3 : 1); mode++) { // vector layout: 0 permutation, 1 only local copies, 2 other ranks fill the halo
                if (par != 3 && (d != 0 && d != ndirs - 1)) continue;
                if (send && mode == 1) continue;
                if (place && (up || down)) continue;
                Geo g{ndirs, d, bc, 1 - bc, (bool)up, (bool)down};
                bool upDir = d < ndim;
                const int axis = upDir ? d : ndirs - 1 - d;
                bool edge = send ? (upDir ? g.down : g.up) : (upDir ? g.up : g.down); // the values cross the lattice edge
                int want = bc == 1 && edge && !place ? -1 : 1;
                const long ne = 16, no = 32, base = 1000;
                const char *mn[] = {", permuted vectors", ", local vectors", ", vectors from other ranks"};
                std::string where = std::string(" (direction ") + dirName(d) + (bc ? ", antiperiodic" : ", periodic") + (edge ? ", at the lattice edge" : ", inside the lattice") + ", " + pn[par] + (VT ? mn[mode] : "") + ")";
                auto leaves = [](long lane) { return lane % 2 == 1; }; // these lanes cross the edge of the rank
                AI A(P);
                A.maxSteps = 600000;
                A.maxRounds = 4000;
                A.copyWord = bs;
                A.joinWords = true;
                A.maxCopy = 1 << 16;
                std::map<Cell, long> width; // bytes stored at once
                A.onStore = [&](const Cell &c, bool, const AVal &, const Instruction *I, AState &) {
                    if (auto *SI = dyn_cast<StoreInst>(I)) if (c.first == "*BUF" || c.first == "*FB") width[c] = A.DL.getTypeStoreSize(SI->getValueOperand()->getType());
                };
                A.initial = [&](const Cell &c, Type *T, AState &) -> AVal {
                    AVal v;
                    if (geoCell(g, c, v)) return v;
                    if (c.first == "*TO") {
                        if (c.second == co("sites")) return AVal::num(ne + no);
                        if (c.second == co("evensites")) return AVal::num(ne);
                        if (c.second == co("oddsites")) return AVal::num(no);
                        if (c.second == co("sitelist")) return AVal::addr("*SL", 0);
                    }
                    if (c.first == "*SL" && c.second >= 0) return AVal::num(64 + c.second / 4);
                    if (c.first == "*LAT" && c.second >= oSpec && c.second < oSpec + ndirs * sSpec) {
                        int k = (c.second - oSpec) / sSpec;
                        long o = (c.second - oSpec) % sSpec;
                        if (o == so("n_even")) return AVal::num(ne);
                        if (o == so("n_odd")) return AVal::num(no);
                        if (o == so("n_total")) return AVal::num(ne + no);
                        if (o == so("offset")) return AVal::num(base + 100 * k);
                        if (o == so("is_needed")) return AVal::num(1);
                        if (o == so("move_index")) return AVal::addr("*MI" + std::to_string(k), 0);
                    }
                    if (c.first.compare(0, 3, "*MI") == 0 && c.second >= 0) return AVal::num(20 + 3 * (c.second / 4) + atol(c.first.c_str() + 3));
                    if (c.first == "*VL" && VT) {
                        auto in = [&](int k, long n) { return VO[k] >= 0 && c.second >= VO[k] && c.second < VO[k] + n; };
                        if (in(PERM, ndim)) return AVal::num(c.second - VO[PERM] == axis ? mode == 0 : mode != 0);
                        if (in(LOCALC, ndirs)) { int k = c.second - VO[LOCALC]; return AVal::num((k < ndim ? k : ndirs - 1 - k) == axis ? mode == 1 : mode != 1); }
                        if (in(BCOPY, 4 * ndirs * W)) return AVal::num(((c.second - VO[BCOPY]) / 4 % W) ^ 1);
                        if (in(LEAVES, ndirs * W)) return AVal::num((c.second - VO[LEAVES]) / W == d ? leaves((c.second - VO[LEAVES]) % W) : !leaves((c.second - VO[LEAVES]) % W));
                        if (in(HOFF, 4 * ndirs)) return AVal::num(base + 100 * ((c.second - VO[HOFF]) / 4));
                        if (in(NHALO, 4 * ndirs)) return AVal::num(4);
                        if (in(HIDX, 8 * ndirs)) return AVal::addr("*HI" + std::to_string((c.second - VO[HIDX]) / 8), 0);
                        if (in(RLIST, 8 * ndirs)) return AVal::addr("*RL" + std::to_string((c.second - VO[RLIST]) / 8), 0);
                        if (in(RSIZE, 4 * ndirs)) return AVal::num(16);
                    }
                    if (c.first.compare(0, 3, "*HI") == 0 && c.second >= 0) return AVal::num(20 + 3 * (c.second / 4) + atol(c.first.c_str() + 3));
                    if (c.first.compare(0, 3, "*RL") == 0 && c.second >= 0) return AVal::num(8000 + 5 * (c.second / 4) + 1000 * atol(c.first.c_str() + 3));
                    (void)T;
                    return AVal::sym("[" + AVal::addr(c.first, c.second).str() + "]");
                };
                A.onCall = [&](const CallBase *CB, AState &, AVal &r) {
                    auto *G = P.callee(CB);
                    if (G && P.q(G).find("get_vectorized_lattice") != std::string::npos) { r = AVal::addr("*VL", 0); return true; }
                    return false;
                };
                // place of a number in the field, or in a buffer filled with whole vectors: site * E + number within the element
                auto inVec = [&](long o) { long v = o / (W * es), r = o % (W * es), e = r / (W * bs), l = r % (W * bs) / bs; return (v * W + l) * E + e; };
                auto inPlain = [&](long o) { return o / bs; };
                long before = copies;
                A.onReturn = [&](const Instruction *, const AVal &, AState &S) {
                    pathsN++;
                    std::string dst = send ? "*BUF" : "*FB";
                    std::set<long> got; // numbers, counted over the elements
                    bool seen = false, some = false;
                    for (auto m = S.mem.lower_bound({dst, LONG_MIN}); m != S.mem.end() && m->first.first == dst; ++m) {
                        long o0 = m->first.second, src0 = 0;
                        std::string t = m->second.str();
                        if (!send && t == "[" + AVal::addr("*FB", o0).str() + "]") continue; // as it was
                        if (place && !t.find("[*FB")) continue;
                        auto wi = width.find(m->first);
                        long wd = wi == width.end() ? bs : wi->second;
                        std::vector<std::string> parts;
                        if (t.compare(0, 4, "vec(") == 0) parts = components(t, wd / bs);
                        for (long x = 0; x < wd; x += bs) {
                            int s = copied(parts.empty() ? t : parts[x / bs], src0, place ? "BUF" : "FB", bs);
                            if (!s) {
                                if (dbg && opaque < 3) std::cout << "OPAQUE " << pk.first << where << " " << o0 << " " << t << "\n";
                                opaque++;
                                some = true;
                                continue;
                            }
                            long o = o0 + x, src = src0 + (parts.empty() ? x : 0);
                            copies++;
                            seen = decided = true;
                            const bool bufVec = send && VT && mode == 2;
                            long to = send ? (bufVec ? inVec(o) : inPlain(o)) : VT ? inVec(o) : inPlain(o), fr = place ? inPlain(src) : VT ? inVec(src) : inPlain(src);
                            got.insert(to);
                            int w = want;
                            if (!send && VT && mode == 0 && want < 0) {
                                if (VO[LEAVES] < 0) w = s; // no knowledge of which lanes leave the rank
                                else if (!leaves(to / E % W)) w = 1;
                            }
                            if (s != w) tell(w < 0 ? "sign-not-changed" : "sign-changed", std::string("an element ") + (send ? "sent to another rank" : place ? "received" : "copied to the halo") + (w < 0 ? " keeps its sign although it crosses an antiperiodic boundary" : " changes its sign") + where);
                            if (to % E != fr % E) { tell("wrong-element", "a component goes to another place in the element" + where); continue; }
                            long j = to / E, f = fr / E;
                            if (send) { if (dbg && f != 64 + j + (par == 2 ? ne : 0)) std::cout << "WRONG " << pk.first << where << " o " << o0 << " x " << x << " j " << j << " f " << f << " src " << src << " " << t << "\n"; if (f != 64 + j + (par == 2 ? ne : 0)) tell("wrong-element", "another element than listed is sent" + where); }
                            else if (place) { if (j != 8000 + 5 * (f + (par == 2 ? 8 : 0)) + 1000 * d) tell("wrong-element", "a received element does not go to the site listed for it" + where); }
                            else if (!VT) { long k = j - base - 100 * d; if (f != 20 + 3 * k + d) tell("wrong-element", "a halo element does not come from the site listed for it" + where); }
                            else {
                                long v = j / W - base - 100 * d, l = j % W;
                                if (f / W != 20 + 3 * v + d || f % W != (mode == 0 ? l ^ 1 : l)) tell("wrong-element", "a halo element does not come from the vector and lane listed for it" + where);
                            }
                        }
                    }
                    if (some) return;
                    // which part
                    auto part = [&](long lo, long n) { return (long)got.size() == n * E && *got.begin() == lo * E && *got.rbegin() == (lo + n) * E - 1; };
                    if (send) { if (!part(0, par == 1 ? ne : par == 2 ? no : ne + no)) tell("incomplete", "not all listed elements are sent, or too many" + where); }
                    else if (place) {
                        if (VT && mode == 0) { if ((long)got.size() != (par == 3 ? 16 : 8) * E) tell("incomplete", "not all received elements are put in place" + where); }
                        else if (seen) tell("wrong-element", "elements received in place are moved" + where);
                    } else if (!VT) {
                        bool need = bc == 1 && edge;
                        if (!need && seen) tell("sign-changed", "halo elements are written although the direction is not antiperiodic there" + where);
                        if (need && got.empty()) tell("not-copied", "no sign-changed copies are made at an antiperiodic boundary" + where);
                        if (need && !got.empty() && !part(base + 100 * d + (par == 2 ? ne : 0), par == 1 ? ne : par == 2 ? no : ne + no)) tell("incomplete", "the copies made are not those of the parity" + where);
                    } else if (mode == 2) { if (seen) tell("wrong-element", "halo vectors filled by other ranks are overwritten" + where); }
                    else if (!part((base + 100 * d + (par == 2 ? 2 : 0)) * W, (par == 3 ? 4 : 2) * W)) tell("incomplete", "the copies made are not those of the parity" + where);
                };
                AState init;
                std::vector<AVal> av{AVal::addr("*FS", 0), AVal::num(d), AVal::num(par)};
                if (send || place) { av.push_back(AVal::addr("*BUF", 0)); av.push_back(AVal::addr("*TO", 0)); }
                A.run(C, init, av);
                runs++;
                if (A.gaveUp) gave++;
                if (dbg) std::cout << bn.first << " " << pk.first << where << " paths " << A.paths << " copies " << copies - before << (A.gaveUp ? " GAVE UP" : "") << " opaque " << opaque << "\n";
            }
            if (decided) inst("decided " + bn.first + " " + pk.first);
            IN.drop(C);
        }
    }
    (void)oVolN; (void)oDiv; (void)oNeigh; (void)oNb;
    Common K{FS, LS, SB, ndirs, ndim};
    if (only.empty()) { tables(P, K, dbg); protocol(P, K, dbg, maxInst); }
    stat_("table_and_protocol_functions", K.insts);
    stat_("table_and_protocol_runs", K.runs);
    stat_("table_and_protocol_judgements", K.judged);
    gave += K.gave;
    stat_("vectorised_instances", vecs);
    stat_("transport_instances", insts);
    stat_("situations", runs);
    stat_("paths", pathsN);
    stat_("element_copies_judged", copies);
    stat_("element_copies_opaque", opaque);
    stat_("given_up", gave);
    return 0;
}

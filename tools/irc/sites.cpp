// C18: which site each element in a file belongs to.  The writer and the readers of a field are interpreted on small lattices
// with a small write buffer, so that the file has several pieces: the writer gives the order of sites in the file, and the
// readers have to put each element back where it came from.
#include "ai.h"
#include <iostream>

namespace {
typedef std::vector<int> Site;
std::string str(const Site &s) { std::string r = "("; for (size_t k = 0; k < s.size(); k++) r += (k ? "," : "") + std::to_string(s[k]); return r + ")"; }
struct Out {
    bool known = true, ended = false;
    std::vector<std::string> file;            // written elements "E(x,y,z).l"
    std::vector<std::vector<Site>> lists;     // coordinate lists, in order
    std::map<Site, std::vector<std::string>> got; // site -> values it gets
    std::map<Site, int> times;
    bool touched = false, text = false;
    long read = 0;
    std::string why;
};
} // namespace

int checkSites(Program &P, const std::vector<std::string> &args) {
    bool dbg = false;
    for (auto &a : args) if (a == "debug") dbg = true;
    auto *FS = diType(P, "Field::field_struct"), *LS = diType(P, "lattice_struct");
    long runs = 0, elems = 0, gave = 0, ops = 0;
    auto done = [&]() { stat_("site_runs", runs); stat_("site_elements", elems); stat_("site_operations", ops); stat_("site_given_up", gave); return 0; };
    if (!FS || !LS) { note("types not found"); return done(); }
    const long oL = diOffset(LS, "l_size"), oV = diOffset(LS, "l_volume"), oM = diOffset(FS, "mylattice");
    if (oL < 0 || oV < 0 || oM < 0) { note("members not found"); return done(); }
    auto tail = [](const std::string &q) { size_t k = q.rfind("::"); return k == std::string::npos ? q : q.substr(k + 2); };
    auto open = [&](const Function *F) {
        const std::string &q = P.q(F);
        return q.compare(0, 27, "__gnu_cxx::__normal_iterator") == 0 || q.find("__normal_iterator") != std::string::npos || q.compare(0, 11, "__gnu_cxx::") == 0 || q == "std::min" || q == "std::max" || q == "std::swap" || q == "std::move" || q == "std::forward" || q.compare(0, 10, "std::array") == 0 || q.compare(0, 19, "std::__array_traits") == 0;
    };
    Inliner IN(P, [&](const Function *F) {
        const std::string &q = P.q(F);
        if (P.isStd(F)) return !open(F);
        return q == "hila::myrank" || q.find("gather_elements") != std::string::npos || q.find("scatter_elements") != std::string::npos || q.find("memalloc") != std::string::npos || q == "hila::terminate" || q == "hila::error" || q == "Field::allocate" || q == "Field::is_allocated" || q == "Field::will_change" || q == "Field::mark_changed" || q.find("assert_all_ranks_present") != std::string::npos || F->getInstructionCount() > 2000;
    });
    IN.maxInstr = 30000;
    struct Op { Function *F; int kind; int comps; std::string T; }; // 0 write, 1 read, 2 read of a given size, 3 subvolume
    std::vector<Op> list;
    int nd = 0;
    for (auto *F : P.functions()) {
        const std::string &q = P.q(F);
        std::string d = P.dem(F);
        int kind = -1;
        if (F->arg_size() < 2 || d.find("fstream<") == std::string::npos) continue;
        if (q == "Field::write") kind = 0;
        else if (q == "Field::read") kind = d.find("CoordinateVector") == std::string::npos ? 1 : 2;
        else if (q == "Field::write_subvolume_internal") kind = 3;
        else continue;
        for (auto &t : std::vector<std::pair<std::string, int>>{{"Field<double>::", 1}, {"Field<Complex<double>>::", 2}, {"Field<Complex<double> >::", 2}, {"Field<Matrix_t<3, 1, double, Matrix<3, 1, double>>>::", 3}, {"Field<Matrix<3, 1, double>>::", 3}, {"Field<Matrix<3, 1, double> >::", 3}})
            if (d.find(t.first) != std::string::npos) { list.push_back({F, kind, t.second, t.first}); break; }
    }
    if (auto *T = diType(P, "lattice_struct")) { // number of dimensions from the size of l_size
        const DIType *E = nullptr;
        diOffset(T, "l_size", &E);
        if (E) nd = E->getSizeInBits() / 32;
    }
    if (nd < 1 || nd > 4) { note("number of dimensions not found"); return done(); }

    auto explore = [&](Function *C, const Op &O, int rank, const Site &L, const Site &a, const Site &b, bool binary, bool flt, std::vector<Out> &outs) {
        std::vector<Out> store;
        AI A(P);
        if (dbg) std::cout << P.dem(O.F).substr(0, 60) << " kind " << O.kind << " rank " << rank << " lattice " << str(L) << str(a) << str(b) << std::endl;
        A.maxSteps = 400000;
        A.maxRounds = 4000;
        A.maxSame = 300;
        A.copyWord = 4;
        A.packInts = true;
        bool lostAny = false;
        A.initial = [&](const Cell &c, Type *T, AState &) -> AVal {
            if (c.first == "@lattice" && c.second == 0) return AVal::addr("*LAT", 0);
            if (c.first == "*LAT") {
                if (c.second >= oL && c.second < oL + 4 * nd) return AVal::num(L[(c.second - oL) / 4]);
                if (c.second == oV) { long v = 1; for (int x : L) v *= x; return AVal::num(v); }
            }
            if (c.first == "*FS" && c.second == oM) return AVal::addr("*LAT", 0);
            if (c.first == "*A0" && T->isPointerTy()) return AVal::addr("*FS", 0);
            if (c.first == "*A2" && c.second < 4 * nd) return AVal::num(a[c.second / 4]);
            if (c.first == "*A3" && c.second < 4 * nd) return AVal::num(b[c.second / 4]);
            return AVal::sym("[" + AVal::addr(c.first, c.second).str() + "]");
        };
        auto lose = [&](AState &S, const std::string &w) { S.user["lost"] = 1; S.trace.push_back("?" + w); };
        const long esz = 8 * O.comps;
        auto siteOf = [&](const AVal &base, long j, AState &S, Site &s) {
            s.clear();
            for (int k = 0; k < nd; k++) {
                Cell c{base.s, base.i + j * 4 * nd + 4 * k};
                auto it = S.mem.find(c);
                if (it == S.mem.end()) { // the upper half of a word
                    auto w = S.mem.find({c.first, c.second - 4});
                    if (w != S.mem.end() && w->second.k == AVal::Int) { s.push_back((int)(w->second.i >> 32)); continue; }
                }
                if (it == S.mem.end() || it->second.k != AVal::Int) return false;
                s.push_back((int)it->second.i);
            }
            return true;
        };
        auto handle = [&](const CallBase *CB, AState &S, AVal &r) {
            auto *G = P.callee(CB);
            if (!G) return false;
            const std::string &g = P.q(G);
            const std::string t = tail(g);
            auto arg = [&](unsigned i) { return i < CB->arg_size() ? A.eval(CB->getArgOperand(i), S) : AVal(); };
            r = AVal::num(0);
            if (g == "hila::myrank") { r = AVal::num(rank); return true; }
            if (g == "Field::is_allocated") { r = AVal::num(1); return true; }
            if (g == "Field::allocate" || g == "Field::will_change" || g == "Field::mark_changed" || g == "free" || g.find("operator delete") == 0) return true;
            if (g.find("memalloc") != std::string::npos || g.find("operator new") == 0 || g == "malloc") { r = AVal::addr("*BUF" + std::to_string(S.fresh++), 0); return true; }
            if (g.find("gather_elements") != std::string::npos || g.find("scatter_elements") != std::string::npos) {
                const bool in = g.find("scatter") != std::string::npos;
                AVal b = arg(1), v = arg(2);
                auto n = S.user.find("vs:" + v.str());
                if (n == S.user.end() || (rank == 0 && b.k != AVal::Addr)) { lose(S, "list"); return true; }
                std::string ev = "L:";
                for (long j = 0; j < n->second; j++) {
                    Site s;
                    if (!siteOf(AVal::addr("*V[" + v.str() + "]", 0), j, S, s)) { std::string w; for (int k = 0; k < nd; k++) { auto it = S.mem.find({"*V[" + v.str() + "]", j * 4 * nd + 4 * k}); w += " " + (it == S.mem.end() ? std::string("-") : it->second.str()); } lose(S, "site " + std::to_string(j) + w); return true; }
                    ev += str(s) + ";";
                    if (rank != 0) continue;
                    for (int l = 0; l < O.comps; l++) {
                        Cell c{b.s, b.i + j * esz + 8 * l};
                        if (in) { auto it = S.mem.find(c); S.trace.push_back("P:" + str(s) + ":" + (it == S.mem.end() ? std::string("nothing") : it->second.str())); }
                        else S.mem[c] = AVal::sym("E" + str(s) + "." + std::to_string(l) + ";");
                    }
                }
                S.trace.push_back(ev);
                return true;
            }
            if (g.compare(0, 13, "std::vector::") == 0) {
                AVal me = arg(0);
                const std::string key = "vs:" + me.str();
                AVal data = AVal::addr("*V[" + me.str() + "]", 0);
                auto known = S.user.find(key);
                if (t == "vector") {
                    // (vector(n, allocator)), (vector(allocator)), (vector())
                    AVal n = arg(1);
                    if (CB->arg_size() == 1 || (CB->arg_size() == 2 && CB->getArgOperand(1)->getType()->isPointerTy() && n.k != AVal::Int && S.user.find("vs:" + n.str()) == S.user.end())) S.user[key] = 0;
                    else if (CB->arg_size() >= 2 && CB->getArgOperand(1)->getType()->isIntegerTy() && n.k == AVal::Int) S.user[key] = n.i;
                    else if (n.k == AVal::Addr && S.user.count("vs:" + n.str())) { // copy
                        S.user[key] = S.user["vs:" + n.str()];
                        for (long o = 0; o < 4 * nd * S.user[key]; o += 4) { auto it = S.mem.find({"*V[" + n.str() + "]", o}); if (it != S.mem.end()) S.mem[{data.s, o}] = it->second; }
                    } else lose(S, "vector");
                    return true;
                }
                if (known == S.user.end()) { lose(S, "unknown vector"); return true; }
                if (t == "operator[]" || t == "at") {
                    AVal i = arg(1);
                    if (i.k != AVal::Int) lose(S, "index");
                    r = AVal::addr(data.s, i.k == AVal::Int ? i.i * 4 * nd : 1000000);
                    return true;
                }
                if (t == "data" || t == "begin" || t == "front" || t == "cbegin") { r = data; return true; }
                if (t == "end" || t == "cend") { r = AVal::addr(data.s, known->second * 4 * nd); return true; }
                if (t == "back") { r = AVal::addr(data.s, (known->second - 1) * 4 * nd); return true; }
                if (t == "size") { r = AVal::num(known->second); return true; }
                if (t == "empty") { r = AVal::num(known->second == 0); return true; }
                if (t == "resize") { AVal n = arg(1); if (n.k == AVal::Int) known->second = n.i; else lose(S, "resize"); return true; }
                if (t == "clear") { known->second = 0; return true; }
                if (t == "reserve" || t == "shrink_to_fit" || t == "~vector") return true;
                if (t == "push_back" || t == "emplace_back") {
                    AVal p = arg(1);
                    if (p.k != AVal::Addr) { lose(S, "push_back"); return true; }
                    for (int k = 0; k < nd; k++) { auto it = S.mem.find({p.s, p.i + 4 * k}); AVal x = it != S.mem.end() ? it->second : A.load(AVal::addr(p.s, p.i + 4 * k), Type::getInt32Ty(P.ctx), S, CB); S.mem[{data.s, known->second * 4 * nd + 4 * k}] = x; }
                    known->second++;
                    return true;
                }
                lose(S, g);
                return true;
            }
            if (g == "std::ostream::write" || g == "std::basic_ostream::write") {
                AVal p = arg(1), n = arg(2);
                if (p.k != AVal::Addr || n.k != AVal::Int) { lose(S, "write " + p.str() + " , " + n.str()); return true; }
                const long step = flt ? 4 : 8;
                if (n.i % step) S.trace.push_back("W:part of a number");
                for (long o = 0; o + step <= n.i; o += step) { auto it = S.mem.find({p.s, p.i + o}); S.trace.push_back("W:" + (it == S.mem.end() ? std::string("nothing") : it->second.str())); }
                r = arg(0);
                return true;
            }
            if (g == "std::istream::read" || g == "std::basic_istream::read") {
                AVal p = arg(1), n = arg(2);
                if (p.k != AVal::Addr || n.k != AVal::Int) { lose(S, "read"); return true; }
                S.trace.push_back("R:");
                for (long o = 0; o + 8 <= n.i; o += 8) S.mem[{p.s, p.i + o}] = AVal::sym("F" + std::to_string(S.user["fpos"]++));
                if (n.i % 8) lose(S, "part of a number read");
                r = arg(0);
                return true;
            }
            if (t == "operator<<" && P.isStd(G)) {
                AVal v = arg(1);
                if (v.str().find("E(") != std::string::npos) S.trace.push_back("W:" + v.str());
                r = arg(0);
                return true;
            }
            if (t == "precision") return true;
            return false;
        };
        A.onCall = [&](const CallBase *CB, AState &S, AVal &r) {
            bool h = !A.dropped && handle(CB, S, r);
            if (A.dropped || S.user.count("lost")) { lostAny = true; if (dbg && !S.trace.empty()) std::cout << "lost " << S.trace.back() << std::endl; r = AVal::sym("!end"); return true; }
            return h;
        };
        auto take = [&](AState &S, bool ended) {
            Out o;
            o.ended = ended;
            o.known = !S.user.count("lost");
            o.read = S.user.count("fpos") ? S.user["fpos"] : 0;
            for (auto &t : S.trace) {
                if (t[0] == '?') o.why = t;
                if (t.compare(0, 2, "W:") == 0) { o.file.push_back(t.substr(2)); o.touched = true; }
                if (t.compare(0, 2, "R:") == 0) o.touched = true;
                auto sites = [&](const std::string &x) { Site s; size_t k = 1; while (k < x.size() && x[k] != ')') { s.push_back(atoi(x.c_str() + k)); k = x.find_first_of(",)", k); if (k != std::string::npos && x[k] == ',') k++; } return s; };
                if (t.compare(0, 2, "L:") == 0) { std::vector<Site> l; size_t k = 2; while (k < t.size()) { size_t e = t.find(';', k); l.push_back(sites(t.substr(k, e - k))); k = e + 1; } o.lists.push_back(l); }
                if (t.compare(0, 2, "P:") == 0) { size_t e = t.find("):", 2); o.got[sites(t.substr(2, e - 1))].push_back(t.substr(e + 2)); }
            }
            outs.push_back(o);
        };
        A.onReturn = [&](const Instruction *, const AVal &, AState &S) { take(S, false); };
        A.onDead = [&](const Instruction *I, AState &S) {
            auto *G = P.callee(dyn_cast<CallBase>(I));
            if (G && G->getName().contains("assert_fail")) return;
            if (dbg) std::cout << "ends at " << P.loc(I) << std::endl; take(S, true); };
        std::vector<AVal> av;
        unsigned k = 0, nb = 0;
        for (auto &x : C->args()) {
            if (x.getType()->isPointerTy()) av.push_back(AVal::addr("*A" + std::to_string(k), 0));
            else if (x.getType()->isIntegerTy(1)) av.push_back(AVal::num(nb++ == 0 ? binary : flt));
            else if (x.getType()->isIntegerTy()) av.push_back(AVal::num(6));
            else av.push_back(AVal::sym("ARG" + std::to_string(k)));
            k++;
        }
        AState S0;
        long vol = 1;
        for (int k = 0; k < nd; k++) {
            S0.mem[{"*LAT", oL + 4 * k}] = AVal::num(L[k]);
            S0.mem[{"*A2", 4 * k}] = AVal::num(a[k]);
            S0.mem[{"*A3", 4 * k}] = AVal::num(b[k]);
            vol *= L[k];
        }
        S0.mem[{"*LAT", oV}] = AVal::num(vol);
        A.run(C, S0, av);
        runs++;
        if (A.gaveUp) { if (dbg) std::cout << "gave up after " << A.steps << "\n"; return false; }
        if (dbg && (A.dropped || outs.empty())) std::cout << "dropped " << A.dropped << " outs " << outs.size() << std::endl;
        if (A.dropped || lostAny) return false;
        for (auto &o : outs) if (!o.known) { if (dbg) std::cout << "lost: " << o.why << "\n"; return false; }
        return !outs.empty();
    };
    // lattices: several pieces, the last one not full; exactly full pieces; one piece
    auto lat = [&](int i) { static const int s[4][4] = {{4, 3, 2, 1}, {2, 4, 3, 1}, {5, 2, 1, 2}, {4, 4, 2, 2}}; Site x(s[i], s[i] + nd); return x; };
    auto volume = [](const Site &s) { long v = 1; for (int x : s) v *= x; return v; };
    auto parse = [&](const std::string &e, Site &s, int &l) {
        size_t k = e.find("E(");
        if (k == std::string::npos || e.find("E(", k + 1) != std::string::npos) return false;
        k += 2;
        s.clear();
        while (k < e.size()) { s.push_back(atoi(e.c_str() + k)); k = e.find_first_of(",)", k); if (k == std::string::npos) return false; if (e[k++] == ')') break; }
        if (e[k] != '.') return false;
        l = atoi(e.c_str() + k + 1);
        return (int)s.size() == nd;
    };
    std::map<std::string, std::map<Site, std::vector<Site>>> order; // type -> lattice -> sites in the order of the file
    for (int pass = 0; pass < 4; pass++) for (auto &O : list) {
        if (O.kind != pass) continue;
        Function *C = IN.run(O.F, "sroa,mem2reg,early-cse,simplifycfg");
        if (!C) { gave++; continue; }
        ops++;
        inst(P.dem(O.F).substr(0, 80));
        std::set<std::string> told;
        const std::string q = P.q(O.F), loc = P.loc(O.F);
        auto tell = [&](const std::string &rule, const std::string &m) { if (told.insert(rule).second) finding(rule, q, loc, q + " (" + O.T.substr(0, O.T.size() - 2) + "): " + m); };
        // what is written: sites in order, each number once
        auto written = [&](const Out &o, const std::string &where, std::vector<Site> &sq) {
            for (size_t k = 0; k < o.file.size(); k++) {
                Site s;
                int l = -1;
                elems++;
                if (!parse(o.file[k], s, l)) { tell("not-an-element", "number " + std::to_string(k) + " written is not an element of the field (" + o.file[k].substr(0, 40) + "; " + where + ")"); return false; }
                if (l != (int)(k % O.comps) || (l && s != sq.back())) { tell("element-parts", "the parts of an element are not written in their order (" + where + ")"); return false; }
                if (!l) sq.push_back(s);
            }
            return true;
        };
        auto small = [&](int i) { return lat(i); };
        for (int li = 0; li < 4; li++) {
            Site L = small(li);
            std::vector<std::pair<Site, Site>> cases; // a, b
            Site zero(nd, 0), top = L;
            for (auto &x : top) x--;
            if (O.kind < 2) cases.push_back({zero, zero});
            if (O.kind == 2) {
                cases.push_back({L, zero});
                for (int m = 1; m < (1 << nd); m++) { // lattices which fit an even number of times
                    Site a = L;
                    bool ok = true;
                    for (int k = 0; k < nd; k++) if (m >> k & 1) { if (L[k] % 2) ok = false; a[k] = L[k] / 2; }
                    if (ok) cases.push_back({a, zero});
                }
            }
            if (O.kind == 3) {
                cases.push_back({zero, top});
                Site lo = zero, hi = top;
                if (hi[0] > 1) lo[0] = 1, hi[0]--;
                cases.push_back({lo, top});
                cases.push_back({zero, hi});
                for (int k = 0; k < nd; k++) { Site h = top; h[k] = 0; cases.push_back({zero, h}); Site l = zero; l[k] = top[k]; cases.push_back({l, top}); }
            }
            for (auto &cs : cases) for (int binary = O.kind == 0 || O.kind == 3 ? 0 : 1; binary < 2; binary++) for (int flt = 0; flt < (O.kind == 3 && binary ? 2 : 1); flt++) {
                std::vector<Out> o0, o1;
                bool f0 = O.kind == 0 ? binary : O.kind == 3 ? binary : true;
                if (!explore(C, O, 0, L, cs.first, cs.second, f0, flt, o0) || !explore(C, O, 1, L, cs.first, cs.second, f0, flt, o1)) { gave++; continue; }
                std::string where = "lattice " + str(L) + (O.kind == 2 ? ", lattice of the file " + str(cs.first) : O.kind == 3 ? ", from " + str(cs.first) + " to " + str(cs.second) : "") + (binary ? "" : ", text");
                for (auto &o : o0) {
                    if (o.ended) { tell("ends", "does not succeed (" + where + ")"); continue; }
                    for (auto &x : o1) {
                        if (x.lists != o.lists) tell("lists-differ", "the ranks do not go through the same sites (" + where + ")");
                        if (x.touched) tell("file-on-other-rank", "another rank than the first uses the file (" + where + ")");
                    }
                    auto twice = [&](const std::vector<Site> &v) { std::set<Site> s(v.begin(), v.end()); return s.size() != v.size(); };
                    if (O.kind == 0) {
                        std::vector<Site> sq;
                        if (!written(o, where, sq)) continue;
                        if ((long)sq.size() != volume(L) || twice(sq)) tell("not-each-once", std::to_string(sq.size()) + " elements of " + std::to_string(volume(L)) + " sites are written" + (twice(sq) ? ", some of them twice" : "") + " (" + where + ")");
                        auto &w = order[O.T][L];
                        if (!w.empty() && w != sq) tell("order-differs", "text and binary files do not have the same order of sites (" + where + ")");
                        w = sq;
                    } else if (O.kind == 3) {
                        std::vector<Site> sq, want;
                        if (!written(o, where, sq)) continue;
                        for (auto &s : order[O.T][L]) { bool in = true; for (int k = 0; k < nd; k++) if (s[k] < cs.first[k] || s[k] > cs.second[k]) in = false; if (in) want.push_back(s); }
                        if (order[O.T][L].empty()) continue;
                        if (sq.size() != want.size() || twice(sq)) tell("not-each-once", std::to_string(sq.size()) + " elements of " + std::to_string(want.size()) + " sites are written" + (twice(sq) ? ", some of them twice" : "") + " (" + where + ")");
                        else if (sq != want) tell("order-differs", "the sites do not come in the order in which whole fields are written (" + where + ")");
                    } else {
                        Site from = O.kind == 1 ? L : cs.first;
                        // the order of sites in a file of that lattice: x fastest unless the writer says otherwise
                        std::vector<Site> sq;
                        auto w = order[O.T].find(from);
                        if (w != order[O.T].end()) sq = w->second;
                        else {
                            // the writer on the lattice of the file
                            for (auto &W : list) if (W.kind == 0 && W.T == O.T) {
                                Function *CW = IN.run(W.F, "sroa,mem2reg,early-cse,simplifycfg");
                                std::vector<Out> ow;
                                Site z(nd, 0);
                                if (CW && explore(CW, W, 0, from, z, z, true, false, ow)) for (auto &x : ow) { std::vector<Site> s; for (size_t k = 0; k < x.file.size(); k += O.comps) { Site c; int l; if (parse(x.file[k], c, l)) s.push_back(c); } sq = s; }
                                if (CW) IN.drop(CW);
                            }
                            order[O.T][from] = sq;
                        }
                        if (sq.empty()) { gave++; continue; }
                        std::map<Site, long> at;
                        for (size_t k = 0; k < sq.size(); k++) at[sq[k]] = k;
                        if (o.read != (long)sq.size() * O.comps) tell("amount", std::to_string(o.read) + " numbers are read from a file of " + std::to_string(sq.size() * O.comps) + " (" + where + ")");
                        if ((long)o.got.size() != volume(L)) tell("not-all-sites", std::to_string(o.got.size()) + " of " + std::to_string(volume(L)) + " sites get a value (" + where + ")");
                        for (auto &g : o.got) {
                            elems++;
                            Site s = g.first;
                            bool in = true;
                            for (int k = 0; k < nd; k++) if (s[k] < 0 || s[k] >= L[k]) in = false;
                            if (!in) { tell("site-outside", "site " + str(s) + " is not on the lattice (" + where + ")"); continue; }
                            for (int k = 0; k < nd; k++) s[k] %= from[k];
                            auto p = at.find(s);
                            if (p == at.end()) continue;
                            bool good = (int)g.second.size() % O.comps == 0;
                            for (size_t l = 0; l < g.second.size(); l++) if (g.second[l] != "F" + std::to_string(p->second * O.comps + l % O.comps)) good = false;
                            if (!good) tell("wrong-site", "site " + str(g.first) + " gets " + (g.second.empty() ? std::string("nothing") : g.second[0]) + " and not number " + std::to_string(p->second * O.comps) + ", which the writer puts there (" + where + ")");
                        }
                    }
                }
            }
        }
        IN.drop(C);
    }
    return done();
}

#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/APFloat.h"
#include <climits>
#include "ai.h"
#include "llvm/ADT/BitVector.h"
#include "llvm/IR/CFG.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/IR/Dominators.h"
#include "tstate.h"
#include <deque>
#include <algorithm>

static long sext(long v, unsigned bits) {
    if (bits >= 64) return v;
    unsigned long m = 1UL << (bits - 1);
    unsigned long x = (unsigned long)v & ((1UL << bits) - 1);
    if (bits == 1) return x;
    return (long)((x ^ m) - m);
}
static unsigned long zext(long v, unsigned bits) { return bits >= 64 ? (unsigned long)v : (unsigned long)v & ((1UL << bits) - 1); }

AVal AI::fold(unsigned op, const AVal &a, const AVal &b, unsigned bits) {
    if (a.k == AVal::Int && b.k == AVal::Int) {
        long x = a.i, y = b.i;
        unsigned long ux = zext(x, bits), uy = zext(y, bits);
        switch (op) {
        case Instruction::Add: return AVal::num(sext(x + y, bits));
        case Instruction::Sub: return AVal::num(sext(x - y, bits));
        case Instruction::Mul: return AVal::num(sext(x * y, bits));
        case Instruction::And: return AVal::num(sext(x & y, bits));
        case Instruction::Or: return AVal::num(sext(x | y, bits));
        case Instruction::Xor: return AVal::num(sext(x ^ y, bits));
        case Instruction::Shl: if (uy < 64) return AVal::num(sext(x << uy, bits)); break;
        case Instruction::LShr: if (uy < 64) return AVal::num(sext(ux >> uy, bits)); break;
        case Instruction::AShr: if (uy < 64) return AVal::num(sext(sext(x, bits) >> uy, bits)); break;
        case Instruction::SDiv: if (y) return AVal::num(sext(x / y, bits)); break;
        case Instruction::UDiv: if (uy) return AVal::num(sext(ux / uy, bits)); break;
        case Instruction::SRem: if (y) return AVal::num(sext(x % y, bits)); break;
        case Instruction::URem: if (uy) return AVal::num(sext(ux % uy, bits)); break;
        }
    }
    if (b.k == AVal::Int && b.i == 0 && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl)) return a;
    if (a.k == AVal::Int && a.i == 0 && (op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor)) return b;
    if (op == Instruction::And || op == Instruction::Mul) {
        if ((a.k == AVal::Int && a.i == 0) || (b.k == AVal::Int && b.i == 0)) return AVal::num(0);
        if (op == Instruction::Mul) { if (a.k == AVal::Int && a.i == 1) return b; if (b.k == AVal::Int && b.i == 1) return a; }
        if (bits == 1 && op == Instruction::And) { if (a.k == AVal::Int && a.i) return b; if (b.k == AVal::Int && b.i) return a; }
    }
    if (op == Instruction::Or && bits == 1 && ((a.k == AVal::Int && a.i) || (b.k == AVal::Int && b.i))) return AVal::num(1);
    if (op == Instruction::Sub && a == b) return AVal::num(0);
    // (x + c) + d
    std::string A = a.str(), B = b.str();
    if ((op == Instruction::Add || op == Instruction::Mul || op == Instruction::And || op == Instruction::Or || op == Instruction::Xor) && B < A) std::swap(A, B);
    return AVal::sym(std::string(Instruction::getOpcodeName(op)) + "(" + A + "," + B + ")");
}

AVal AI::cmp(const CmpInst *C, AState &S) {
    AVal a = eval(C->getOperand(0), S), b = eval(C->getOperand(1), S);
    auto p = C->getPredicate();
    if (isa<FCmpInst>(C)) return simp(AVal::sym(std::string("f") + CmpInst::getPredicateName(p).str() + "(" + a.str() + "," + b.str() + ")"), S);
    unsigned bits = C->getOperand(0)->getType()->isIntegerTy() ? C->getOperand(0)->getType()->getIntegerBitWidth() : 64;
    if (a.k == AVal::Int && b.k == AVal::Int) {
        APInt x(64, C->isSigned() || C->isEquality() ? sext(a.i, bits) : (long)zext(a.i, bits)), y(64, C->isSigned() || C->isEquality() ? sext(b.i, bits) : (long)zext(b.i, bits));
        return AVal::num(ICmpInst::compare(x, y, p));
    }
    if (C->isEquality()) {
        bool eq = p == ICmpInst::ICMP_EQ;
        if (a == b) return AVal::num(eq);
        if (a.k == AVal::Addr && b.k == AVal::Addr && a.s == b.s) return AVal::num(eq == (a.i == b.i));
        // addresses of objects are not null, and distinct objects differ
        auto obj = [](const AVal &v) { return v.k == AVal::Addr && (v.s[0] == '%' || v.s[0] == '@' || v.s[0] == '*'); };
        if ((obj(a) && b.k == AVal::Int && b.i == 0) || (obj(b) && a.k == AVal::Int && a.i == 0)) return AVal::num(!eq);
        if (obj(a) && obj(b) && a.s != b.s) return AVal::num(!eq);
        // boolean term against 0/1
        if (bits == 1) {
            const AVal &t = a.k == AVal::Int ? b : a, &c = a.k == AVal::Int ? a : b;
            if (c.k == AVal::Int && t.k == AVal::Sym) {
                if ((c.i != 0) == eq) return t;
                return simp(AVal::sym("not(" + t.s + ")"), S);
            }
        }
        std::string A = a.str(), B = b.str();
        if (a.k != AVal::Int && (b.k == AVal::Int || A < B)) { } else std::swap(A, B);
        AVal t = simp(AVal::sym("eq(" + A + "," + B + ")"), S);
        if (eq) return t;
        if (t.k == AVal::Int) return AVal::num(!t.i);
        return simp(AVal::sym("not(" + t.s + ")"), S);
    }
    if (a == b) return AVal::num(C->isTrueWhenEqual());
    std::string A = a.str(), B = b.str();
    bool neg = false, swap = false;
    const char *n = C->isSigned() ? "slt" : "ult";
    switch (p) {
    case ICmpInst::ICMP_SLT: case ICmpInst::ICMP_ULT: break;
    case ICmpInst::ICMP_SGT: case ICmpInst::ICMP_UGT: swap = true; break;
    case ICmpInst::ICMP_SGE: case ICmpInst::ICMP_UGE: neg = true; break;
    default: neg = swap = true;
    }
    if (swap) std::swap(A, B);
    AVal t = simp(AVal::sym(std::string(n) + "(" + A + "," + B + ")"), S);
    if (!neg) return t;
    if (t.k == AVal::Int) return AVal::num(!t.i);
    return simp(AVal::sym("not(" + t.s + ")"), S);
}

// returns false when contradicting
bool AI::assume(const AVal &c, bool v, AState &S) {
    if (c.k == AVal::Int) return (c.i != 0) == v;
    if (c.k != AVal::Sym) return true;
    auto it = S.facts.find(c.s);
    if (it != S.facts.end()) return (it->second != 0) == v;
    if (c.s.compare(0, 4, "not(") == 0 && c.s.back() == ')') {
        S.facts[c.s] = v;
        return assume(AVal::sym(c.s.substr(4, c.s.size() - 5)), !v, S);
    }
    S.facts[c.s] = v;
    S.facts["not(" + c.s + ")"] = !v;
    // x == constant fixes x
    if (v && c.s.compare(0, 3, "eq(") == 0) {
        size_t k = c.s.rfind(',');
        std::string num = c.s.substr(k + 1, c.s.size() - k - 2), x = c.s.substr(3, k - 3);
        char *e;
        long n = strtol(num.c_str(), &e, 10);
        if (!num.empty() && !*e) { if (S.facts.count(x) && S.facts[x] != n) return false; S.facts[x] = n; }
    }
    if (c.s.compare(0, 4, "and(") == 0 || c.s.compare(0, 3, "or(") == 0) {
        // split at the top level comma
        bool isAnd = c.s[0] == 'a';
        if (isAnd == v) {
            int d = 0;
            size_t st = c.s.find('(') + 1;
            for (size_t k = st; k < c.s.size(); k++) {
                if (c.s[k] == '(') d++;
                else if (c.s[k] == ')') d--;
                else if (c.s[k] == ',' && d == 0) return assume(AVal::sym(c.s.substr(st, k - st)), v, S) && assume(AVal::sym(c.s.substr(k + 1, c.s.size() - k - 2)), v, S);
            }
        }
    }
    return true;
}

// a load from a constant table
static bool constLoad(Program &P, const AVal &p, Type *T, const DataLayout &DL, AVal &v) {
    auto *G = P.M->getGlobalVariable(p.s.substr(1), true);
    if (!G || !G->isConstant() || !G->hasDefinitiveInitializer() || p.i < 0) return false;
    Constant *C = ConstantFoldLoadFromConst(G->getInitializer(), T, APInt(64, p.i), DL);
    auto *CI = dyn_cast_or_null<ConstantInt>(C);
    if (!CI || CI->getBitWidth() > 64) return false;
    v = AVal::num(CI->getBitWidth() == 1 ? (long)CI->getZExtValue() : CI->getSExtValue());
    return true;
}

std::vector<std::string> components(const std::string &t, unsigned n) {
    std::vector<std::string> r;
    if (t.compare(0, 4, "vec(") == 0 && t.back() == ')') {
        int d = 0;
        size_t st = 4;
        for (size_t i = 4; i < t.size(); i++) {
            char c = t[i];
            if (c == '(' || c == '[') d++;
            if ((c == ',' || i + 1 == t.size()) && d == 0) { r.push_back(t.substr(st, i - st)); st = i + 1; }
            else if (c == ')' || c == ']') d--;
        }
        if (r.size() == n || !n) return r;
        r.clear();
    }
    for (unsigned k = 0; k < n; k++) r.push_back(t == "undef" || t == "poison" ? "undef" : "extractelement(" + t + "," + std::to_string(k) + ",)");
    return r;
}
AVal AI::load(const AVal &p, Type *T, AState &S, const Instruction *I) {
    if (p.k == AVal::Addr) {
        Cell c{p.s, p.i};
        auto it = S.mem.find(c);
        AVal v;
        if (it != S.mem.end()) v = simp(it->second, S);
        if (it != S.mem.end() && joinWords && !T->isPointerTy() && DL.getTypeStoreSize(T) == 2 * (uint64_t)copyWord) { // made of two pieces
            auto i2 = S.mem.find({p.s, p.i + copyWord});
            if (i2 != S.mem.end()) { v = AVal::sym("vec(" + v.str() + "," + i2->second.str() + ")"); }
        }
        if (packInts && v.k == AVal::Int && T->isIntegerTy(64)) {
            auto i2 = S.mem.find({p.s, p.i + 4});
            if (i2 != S.mem.end() && i2->second.k == AVal::Int) v.i = (long)(((unsigned long)i2->second.i << 32) | (v.i & 0xffffffffL));
        }
        if (it != S.mem.end()) { }
        else if (p.s[0] == '@' && constLoad(P, p, T, DL, v)) { }
        else {
            if (initial) v = initial(c, T, S); else v = AVal::sym("[" + p.str() + "]");
            if (v.k == AVal::Sym && T->isPointerTy()) v = AVal::addr(v.s, 0);
            v = simp(v, S);
            // content of own fresh memory that was never written stays opaque but must not be shared over time
            if (p.s[0] != '%') S.mem[c] = v;
        }
        if (T->isPointerTy() && v.k == AVal::Sym) v = AVal::addr(v.s, 0);
        if (onLoad) onLoad(c, true, v, I, S);
        return v;
    }
    if (onLoad) onLoad({p.str(), 0}, false, AVal(), I, S);
    AVal v = AVal::sym("[" + p.str() + "]#" + std::to_string(S.fresh++));
    return v;
}

void AI::store(const AVal &p, const AVal &v, AState &S, const Instruction *I) {
    if (p.k == AVal::Addr) {
        Cell c{p.s, p.i};
        S.mem[c] = v;
        if (packInts && isa_and_nonnull<StoreInst>(I) && cast<StoreInst>(I)->getValueOperand()->getType()->isIntegerTy(64)) {
            if (v.k == AVal::Int) S.mem[c] = AVal::num((int)v.i), S.mem[{p.s, p.i + 4}] = AVal::num((int)(v.i >> 32));
            else S.mem.erase({p.s, p.i + 4});
        }
        // an element at an unknown place of an object: what is known of that place's object is lost
        if (onStore) onStore(c, true, v, I, S);
        return;
    }
    if (onStore) onStore({p.str(), 0}, false, v, I, S);
}

AVal AI::eval(const Value *V, AState &S) {
    if (auto *C = dyn_cast<ConstantInt>(V)) return AVal::num(C->getBitWidth() <= 64 ? (C->getBitWidth() == 1 ? (long)C->getZExtValue() : C->getSExtValue()) : 0);
    if (isa<ConstantPointerNull>(V)) return AVal::num(0);
    if (auto *C = dyn_cast<ConstantFP>(V)) {
        SmallString<32> s;
        C->getValueAPF().toString(s);
        return AVal::sym("fp:" + std::string(s.str()));
    }
    if (auto *G = dyn_cast<GlobalValue>(V)) return AVal::addr("@" + G->getName().str(), 0);
    if (auto *CE = dyn_cast<ConstantExpr>(V)) {
        if (auto *GEP = dyn_cast<GEPOperator>(CE)) {
            APInt off(64, 0);
            if (GEP->accumulateConstantOffset(DL, off)) {
                AVal b = eval(GEP->getPointerOperand(), S);
                if (b.k == AVal::Addr) return AVal::addr(b.s, b.i + off.getSExtValue());
            }
        }
        return AVal::sym("ce" + std::to_string(id(V)));
    }
    if (isa<UndefValue>(V)) return AVal::sym("undef");
    if (isa<ConstantAggregateZero>(V) ) return AVal::sym("zero");
    if (isa<Constant>(V)) return AVal::sym("const" + std::to_string(id(V)));
    auto it = S.env.find(V);
    if (it != S.env.end()) return simp(it->second, S);
    return AVal::sym("v" + std::to_string(id(V)));
}

void AI::run(Function *F, AState init, const std::vector<AVal> &args) {
    struct Item { const BasicBlock *B; const Instruction *at; AState S; };
    id_.clear();
    int n = 0;
    for (auto &I : instructions(F)) id_[&I] = n++;
    for (unsigned i = 0; i < F->arg_size(); i++) init.env[F->getArg(i)] = i < args.size() ? args[i] : AVal::sym("A" + std::to_string(i));
    for (unsigned i = 0; i < F->arg_size(); i++)
        if (init.env[F->getArg(i)].k == AVal::Sym && F->getArg(i)->getType()->isPointerTy()) init.env[F->getArg(i)] = AVal::addr(init.env[F->getArg(i)].s, 0);
    // values needed later, per block
    std::map<const BasicBlock *, BitVector> live;
    {
        std::map<const BasicBlock *, std::pair<BitVector, BitVector>> gk; // used before defined, defined
        for (auto &B : *F) {
            BitVector g(n), k(n);
            for (auto &I : B) {
                if (!isa<PHINode>(I)) for (auto &o : I.operands()) if (auto *J = dyn_cast<Instruction>(o.get())) if (!k.test(id_[J])) g.set(id_[J]);
                k.set(id_[&I]);
            }
            gk[&B] = {g, k};
            live[&B] = g;
        }
        bool ch = true;
        while (ch) {
            ch = false;
            for (auto &B : llvm::reverse(*F)) {
                BitVector o(n);
                for (auto *T : successors(&B)) {
                    o |= live[T];
                    for (auto &PN : T->phis()) {
                        o.reset(id_[&PN]);
                    }
                    for (auto &PN : T->phis()) if (auto *J = dyn_cast<Instruction>(PN.getIncomingValueForBlock(&B))) o.set(id_[J]);
                }
                o.reset(gk[&B].second);
                o |= gk[&B].first;
                // a phi of this block is live in it by definition
                for (auto &PN : B.phis()) o.set(id_[&PN]);
                if (o != live[&B]) { live[&B] = o; ch = true; }
            }
        }
    }
    std::deque<Item> work;
    work.push_back({&F->getEntryBlock(), &F->getEntryBlock().front(), init});
    DominatorTree DT(*F);
    LoopInfo LI(DT);
    std::map<const BasicBlock *, std::set<std::pair<uint64_t, uint64_t>>> seen;
    std::map<const BasicBlock *, int> arrivals;
    std::map<std::pair<const BasicBlock *, std::string>, int> same;
    // the state as a text in which opaque values are numbered by their first appearance
    auto keyOf = [&](AState &S) {
        std::string t;
        std::map<int, const AVal *> e;
        for (auto &x : S.env) { auto *J = dyn_cast<Instruction>(x.first); e[J ? id_[J] : -1 - (int)cast<Argument>(x.first)->getArgNo()] = &x.second; }
        auto put = [&](const AVal &v) { t += char('0' + v.k); t += v.s; t += '+'; t += std::to_string(v.i); t += ';'; };
        for (auto &x : e) { t += std::to_string(x.first) + "="; put(*x.second); }
        for (auto &m : S.mem) { t += m.first.first + "@" + std::to_string(m.first.second) + "="; put(m.second); }
        std::set<std::string> toks;
        auto scan = [&](const std::string &u, const std::function<bool(const std::string &)> &f) {
            for (size_t i = u.find('#'); i != std::string::npos; i = u.find('#', i + 1)) {
                size_t j = i + 1;
                while (j < u.size() && (isdigit(u[j]) || u[j] == '.')) j++;
                if (!f(u.substr(i, j - i))) return;
            }
        };
        scan(t, [&](const std::string &k) { toks.insert(k); return true; });
        for (auto f = S.facts.begin(); f != S.facts.end();) {
            bool any = false, livet = false;
            scan(f->first, [&](const std::string &k) { any = true; if (toks.count(k)) { livet = true; return false; } return true; });
            if (any && !livet) { f = S.facts.erase(f); continue; } // about a value nothing refers to any more
            t += f->first + "=" + std::to_string(f->second) + ";";
            ++f;
        }
        for (auto &u : S.user) if (u.second) t += u.first + "=" + std::to_string(u.second) + ";";
        for (auto &u : S.trace) t += u + ";";
        std::string c;
        std::map<std::string, int> num;
        size_t last = 0;
        for (size_t i = t.find('#'); i != std::string::npos; i = t.find('#', i + 1)) {
            size_t j = i + 1;
            while (j < t.size() && (isdigit(t[j]) || t[j] == '.')) j++;
            c.append(t, last, i - last);
            auto it = num.emplace(t.substr(i, j - i), (int)num.size()).first;
            c += "#" + std::to_string(it->second);
            last = j;
        }
        c.append(t, last, std::string::npos);
        uint64_t h1 = std::hash<std::string>()(c);
        uint64_t h2 = 1469598103934665603ULL;
        for (unsigned char ch : c) h2 = (h2 ^ ch) * 1099511628211ULL;
        return std::make_pair(h1, h2);
    };
    auto go = [&](const BasicBlock *from, const BasicBlock *to, AState &S) {
        std::vector<std::pair<const PHINode *, AVal>> nv;
        for (auto &PN : to->phis()) nv.push_back({&PN, eval(PN.getIncomingValueForBlock(from), S)});
        const Loop *L = LI.getLoopFor(to);
        bool header = L && L->getHeader() == to;
        if (header && !L->contains(from)) { S.hot.erase(to); S.snap.erase(to); }
        auto locals = [&]() {
            std::map<Cell, AVal> m;
            for (auto i = S.mem.lower_bound({"%", LONG_MIN}); i != S.mem.end() && i->first.first[0] == '%'; ++i) if (i->second.k == AVal::Int || (i->second.k == AVal::Sym && S.snapped(to, i->first))) m[i->first] = i->second;
            return m;
        };
        // a loop whose end is not known: values that change from round to round become opaque
        if (header && L->contains(from)) {
            int &h = S.hot[to];
            if (h >= 2 || ++S.rounds[to] > maxRounds) {
                // counters kept in local objects
                auto now = locals();
                for (auto &o : S.snap[to]) {
                    auto c = now.find(o.first);
                    if (c == now.end() || c->second == o.second) continue;
                    if (onWiden) onWiden(to, S);
                    std::string w = "wm" + o.first.first + "." + std::to_string(o.first.second) + "~";
                    for (auto f = S.facts.begin(); f != S.facts.end();) { if (f->first.find(w) != std::string::npos) f = S.facts.erase(f); else ++f; }
                    for (auto m = S.mem.begin(); m != S.mem.end();) { if (m->first.first.find(w) != std::string::npos) m = S.mem.erase(m); else ++m; }
                    S.mem[o.first] = AVal::sym(w);
                }
                for (auto &e : nv) {
                    auto old = S.env.find(e.first);
                    if (old != S.env.end() && old->second == e.second) continue;
                    if (onWiden) onWiden(to, S);
                    e.second = AVal::sym("w" + std::to_string(id(e.first)) + "~");
                    // what was decided about the earlier value says nothing about this one
                    for (auto f = S.facts.begin(); f != S.facts.end();) { if (f->first.find(e.second.s) != std::string::npos) f = S.facts.erase(f); else ++f; }
                    // nor do places computed from it hold what they held
                    for (auto m = S.mem.begin(); m != S.mem.end();) { if (m->first.first.find(e.second.s) != std::string::npos) m = S.mem.erase(m); else ++m; }
                }
            }
        }
        if (header) S.snap[to] = locals();
        for (auto &e : nv) S.env[e.first] = e.second;
        {
            auto &lv = live[to];
            for (auto i = S.env.begin(); i != S.env.end();) { auto *J = dyn_cast<Instruction>(i->first); if (J && !lv.test(id_[J])) i = S.env.erase(i); else ++i; }
        }
        if (!to->getSinglePredecessor()) {
            if (++arrivals[to] > 50000) { gaveUp = true; return; }
            if (!seen[to].insert(keyOf(S)).second) return;
            if (maxSame) {
                std::string t;
                for (auto &PN : to->phis()) { const AVal &v = S.env[&PN]; if (v.k == AVal::Int) t += std::to_string(v.i); t += ','; }
                for (auto &u : S.user) if (u.second) t += u.first + "=" + std::to_string(u.second) + ";";
                if (++same[{to, t}] > maxSame) { dropped++; return; }
            }
        }
        work.push_back({to, &to->front(), std::move(S)});
    };
    while (!work.empty()) {
        Item it = std::move(work.back());
        work.pop_back();
        const BasicBlock *B = it.B;
        AState &S = it.S;
        bool dead = false;
        for (const Instruction *I = it.at; I && !dead; I = I->getNextNode()) {
            if (++steps > maxSteps) { gaveUp = true; return; }
            if (steps % 20000 == 0 && getenv("AISTEP")) {
                std::string w; int mx = 0; const BasicBlock *mb = nullptr;
                for (auto &a : arrivals) if (a.second > mx) { mx = a.second; mb = a.first; }
                errs() << "STEP " << steps << " work " << work.size() << " most " << mx << " at " << (mb ? P.loc(mb->getTerminator()) : "") << " env " << S.env.size() << " mem " << S.mem.size() << " user " << S.user.size() << " facts " << S.facts.size() << "\n";
                int k = 0; for (auto &u : S.user) if (k++ < 8) errs() << "    " << u.first << "=" << u.second << "\n";
            }
            if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
            if (auto *L = dyn_cast<LoadInst>(I)) { S.env[I] = load(eval(L->getPointerOperand(), S), L->getType(), S, I); continue; }
            if (auto *St = dyn_cast<StoreInst>(I)) { store(eval(St->getPointerOperand(), S), eval(St->getValueOperand(), S), S, I); continue; }
            if (isa<AllocaInst>(I)) { S.env[I] = AVal::addr("%" + F->getName().str().substr(0, 24) + "." + std::to_string(id(I)), 0); continue; }
            if (auto *G = dyn_cast<GetElementPtrInst>(I)) {
                AVal b = eval(G->getPointerOperand(), S);
                long off = 0;
                std::string sym;
                for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
                    if (StructType *ST = gi.getStructTypeOrNull()) { off += DL.getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
                    AVal ix = eval(gi.getOperand(), S);
                    long sz = DL.getTypeAllocSize(gi.getIndexedType());
                    if (ix.k == AVal::Int) off += ix.i * sz;
                    else sym += "+" + std::to_string(sz) + "*" + ix.str();
                }
                if (b.k == AVal::Addr) S.env[I] = AVal::addr(sym.empty() ? b.s : AVal::sym(b.str() + sym).s, sym.empty() ? b.i + off : off);
                else if (b.k == AVal::Int && b.i == 0 && sym.empty()) S.env[I] = AVal::num(off);
                else S.env[I] = AVal::addr(AVal::sym(b.str() + sym).s, off);
                continue;
            }
            if (auto *Bo = dyn_cast<BinaryOperator>(I)) {
                AVal a = eval(Bo->getOperand(0), S), b = eval(Bo->getOperand(1), S);
                if (I->getType()->isIntegerTy() && I->getType()->getIntegerBitWidth() <= 64) {
                    unsigned bits = I->getType()->getIntegerBitWidth();
                    // negation of a boolean
                    if (bits == 1 && Bo->getOpcode() == Instruction::Xor && b.k == AVal::Int && b.i && a.k == AVal::Sym) {
                        S.env[I] = a.s.compare(0, 4, "not(") == 0 ? simp(AVal::sym(a.s.substr(4, a.s.size() - 5)), S) : simp(AVal::sym("not(" + a.s + ")"), S);
                        continue;
                    }
                    if (Bo->getOpcode() == Instruction::Sub && a.k == AVal::Addr && b.k == AVal::Addr && a.s == b.s) S.env[I] = AVal::num(a.i - b.i);
                    else S.env[I] = simp(fold(Bo->getOpcode(), a, b, bits), S);
                } else S.env[I] = AVal::sym(std::string(Bo->getOpcodeName()) + "(" + a.str() + "," + b.str() + ")");
                continue;
            }
            if (auto *C = dyn_cast<CmpInst>(I)) { S.env[I] = I->getType()->isIntegerTy(1) ? cmp(C, S) : AVal::sym("vcmp" + std::to_string(id(I))); continue; }
            if (auto *C = dyn_cast<CastInst>(I)) {
                AVal a = eval(C->getOperand(0), S);
                Type *st = C->getSrcTy(), *dt = C->getDestTy();
                if (a.k == AVal::Int && st->isIntegerTy() && dt->isIntegerTy()) {
                    unsigned sb = st->getIntegerBitWidth(), db = dt->getIntegerBitWidth();
                    if (C->getOpcode() == Instruction::ZExt) a.i = zext(a.i, sb);
                    else a.i = sext(a.i, std::min(sb, db));
                } else if (a.k == AVal::Sym && C->getOpcode() == Instruction::Trunc && dt->isIntegerTy(1)) {
                    // a stored bool
                } else if (a.k == AVal::Int && !dt->isIntegerTy() && !dt->isPointerTy()) a = AVal::sym("fp:" + std::to_string(a.i));
                S.env[I] = a;
                continue;
            }
            if (auto *Se = dyn_cast<SelectInst>(I)) {
                AVal c = eval(Se->getCondition(), S);
                if (c.k == AVal::Int) { S.env[I] = eval(c.i ? Se->getTrueValue() : Se->getFalseValue(), S); continue; }
                AVal t = eval(Se->getTrueValue(), S), f = eval(Se->getFalseValue(), S);
                if (t == f) { S.env[I] = t; continue; }
                if (!Se->getCondition()->getType()->isIntegerTy(1)) { S.env[I] = AVal::sym("sel" + std::to_string(id(I))); continue; }
                AState S2 = S;
                if (assume(c, false, S2)) { S2.env[I] = f; work.push_back({B, I->getNextNode(), std::move(S2)}); }
                if (!assume(c, true, S)) { dead = true; break; }
                S.env[I] = t;
                continue;
            }
            if (auto *CB = dyn_cast<CallBase>(I)) {
                AVal r;
                if (onCall && onCall(CB, S, r)) {
                    if (r.k == AVal::Sym && !r.s.empty() && CB->getType()->isPointerTy()) r = AVal::addr(r.s, 0);
                    if (r.s == "!end") { dead = true; break; }
                    S.env[I] = simp(r, S);
                    continue;
                }
                if (noReturnCall(P, CB)) { if (onDead) onDead(CB, S); dead = true; break; }
                if (auto *MI = dyn_cast<MemTransferInst>(CB)) {
                    AVal d = eval(MI->getRawDest(), S), s = eval(MI->getRawSource(), S), l = eval(MI->getLength(), S);
                    if (d.k == AVal::Addr && l.k == AVal::Int) {
                        std::vector<std::pair<Cell, AVal>> nv;
                        for (auto m = S.mem.lower_bound({d.s, d.i}); m != S.mem.end() && m->first.first == d.s && m->first.second < d.i + l.i;) m = S.mem.erase(m);
                        if (s.k == AVal::Addr) {
                            for (auto m = S.mem.lower_bound({s.s, s.i}); m != S.mem.end() && m->first.first == s.s && m->first.second < s.i + l.i; ++m)
                                nv.push_back({{d.s, m->first.second - s.i + d.i}, m->second});
                            if (s.s[0] == '@') { // a constant table of integers
                                auto *G = P.M->getGlobalVariable(s.s.substr(1), true);
                                auto *AT = G && G->isConstant() && G->hasDefinitiveInitializer() ? dyn_cast<ArrayType>(G->getValueType()) : nullptr;
                                if (AT && AT->getElementType()->isIntegerTy()) {
                                    long sz = DL.getTypeAllocSize(AT->getElementType());
                                    for (long o = 0; o < l.i; o += sz) { AVal cv; if (constLoad(P, AVal::addr(s.s, s.i + o), AT->getElementType(), DL, cv)) { nv.push_back({{d.s, d.i + o}, cv}); S.mem[{d.s, d.i + o}] = cv; } }
                                    if (!nv.empty()) { for (auto &e : nv) S.mem[e.first] = e.second; continue; }
                                }
                            }
                            // vectors are taken apart where words are copied
                            if (joinWords) {
                                std::vector<std::pair<Cell, AVal>> more;
                                for (auto &e : nv) {
                                    std::string t = e.second.str();
                                    if (t.compare(0, 4, "vec(") != 0) continue;
                                    auto c = components(t, 0);
                                    for (size_t k = 1; k < c.size(); k++) more.push_back({{e.first.first, e.first.second + (long)k * copyWord}, AVal::sym(c[k])});
                                    if (!c.empty()) e.second = AVal::sym(c[0]);
                                }
                                nv.insert(nv.end(), more.begin(), more.end());
                            }
                            // words not known yet get the name of their source
                            for (long o = 0; o < l.i && o < maxCopy; o += copyWord) if (!S.mem.count({s.s, s.i + o}) && std::none_of(nv.begin(), nv.end(), [&](auto &e) { return e.first == Cell{d.s, d.i + o}; })) nv.push_back({{d.s, d.i + o}, AVal::sym("[" + AVal::addr(s.s, s.i + o).str() + "]")});
                        }
                        for (auto &e : nv) S.mem[e.first] = e.second;
                    }
                    continue;
                }
                if (auto *MS = dyn_cast<MemSetInst>(CB)) {
                    AVal d = eval(MS->getRawDest(), S), l = eval(MS->getLength(), S), v = eval(MS->getValue(), S);
                    if (d.k == AVal::Addr && l.k == AVal::Int) {
                        for (auto m = S.mem.lower_bound({d.s, d.i}); m != S.mem.end() && m->first.first == d.s && m->first.second < d.i + l.i;) m = S.mem.erase(m);
                        if (v.k == AVal::Int && (v.i == 0 || v.i == -1)) for (long o = 0; o < l.i && o < 4096; o++) S.mem[{d.s, d.i + o}] = AVal::num(v.i);
                    }
                    continue;
                }
                if (auto *II = dyn_cast<IntrinsicInst>(CB)) {
                    std::string t = II->getCalledFunction()->getName().str() + "(";
                    for (auto &a : II->args()) t += eval(a, S).str() + ",";
                    if (II->getIntrinsicID() == Intrinsic::expect) S.env[I] = eval(II->getArgOperand(0), S);
                    else if (!I->getType()->isVoidTy()) S.env[I] = AVal::sym(t + ")");
                    continue;
                }
                const Function *G = Program::callee(CB);
                std::string t = G ? P.q(G) : "?";
                bool pure = G && pureCall(t);
                if (G && !pure && P.isStd(G)) {
                    // accessors of containers give the same result until the container is changed
                    static const std::set<std::string> acc{"operator[]", "at", "size", "data", "begin", "end", "empty", "front", "back", "c_str", "length", "cbegin", "cend", "good", "is_open"};
                    size_t k = t.rfind("::");
                    AVal o = CB->arg_size() ? eval(CB->getArgOperand(0), S) : AVal();
                    if (CB->arg_size() && o.k != AVal::Int) {
                        int &v = S.ver[o.str()];
                        if (acc.count(k == std::string::npos ? t : t.substr(k + 2))) { pure = true; t += "." + std::to_string(v); }
                        else v++;
                    }
                }
                t += "(";
                for (auto &a : CB->args()) {
                    AVal v = eval(a, S);
                    t += v.str() + ",";
                    // a callee may change what it gets the address of, if that is a local object
                    if (!pure && v.k == AVal::Addr && v.s[0] == '%')
                        for (auto m = S.mem.lower_bound({v.s, LONG_MIN}); m != S.mem.end() && m->first.first == v.s;) m = S.mem.erase(m);
                }
                t += ")";
                if (!pure) t += "#" + std::to_string(id(CB)) + "." + std::to_string(S.fresh++);
                if (!I->getType()->isVoidTy()) { AVal v = AVal::sym(t); if (I->getType()->isPointerTy()) v = AVal::addr(v.s, 0); S.env[I] = simp(v, S); }
                continue;
            }
            if (auto *R = dyn_cast<ReturnInst>(I)) {
                paths++;
                AVal v;
                if (R->getReturnValue()) v = eval(R->getReturnValue(), S);
                if (onReturn) onReturn(I, v, S);
                dead = true;
                break;
            }
            if (auto *Br = dyn_cast<BranchInst>(I)) {
                if (!Br->isConditional()) { go(B, Br->getSuccessor(0), S); dead = true; break; }
                AVal c = eval(Br->getCondition(), S);
                if (c.k == AVal::Int) { go(B, Br->getSuccessor(c.i ? 0 : 1), S); dead = true; break; }
                for (const Loop *L = LI.getLoopFor(B); L; L = L->getParentLoop())
                    if (!L->contains(Br->getSuccessor(0)) || !L->contains(Br->getSuccessor(1))) S.hot[L->getHeader()]++;
                AState S2 = S;
                if (assume(c, false, S2)) go(B, Br->getSuccessor(1), S2);
                if (assume(c, true, S)) go(B, Br->getSuccessor(0), S);
                dead = true;
                break;
            }
            if (auto *Sw = dyn_cast<SwitchInst>(I)) {
                AVal c = eval(Sw->getCondition(), S);
                if (c.k == AVal::Int) {
                    const BasicBlock *T = Sw->getDefaultDest();
                    for (auto &cs : Sw->cases()) if (cs.getCaseValue()->getSExtValue() == sext(c.i, cs.getCaseValue()->getBitWidth())) T = cs.getCaseSuccessor();
                    go(B, T, S);
                } else {
                    AState D = S;
                    bool dok = true;
                    for (auto &cs : Sw->cases()) {
                        AVal t = AVal::sym("eq(" + c.str() + "," + std::to_string(cs.getCaseValue()->getSExtValue()) + ")");
                        AState S2 = S;
                        if (assume(simp(t, S2), true, S2)) go(B, cs.getCaseSuccessor(), S2);
                        dok = dok && assume(simp(t, D), false, D);
                    }
                    if (dok) go(B, Sw->getDefaultDest(), D);
                }
                dead = true;
                break;
            }
            if (isa<UnreachableInst>(I)) { if (getenv("AIDBG")) errs() << "UNREACH " << P.loc(I) << "\n"; dead = true; break; }
            if (auto *EV = dyn_cast<ExtractValueInst>(I)) { S.env[I] = AVal::sym(eval(EV->getAggregateOperand(), S).str() + "." + std::to_string(EV->getIndices()[0])); continue; }
            if (!I->getType()->isVoidTy()) {
                if (auto *IE = dyn_cast<InsertElementInst>(I)) { // a vector of known components
                    auto *VT = dyn_cast<FixedVectorType>(IE->getType());
                    AVal ix = eval(IE->getOperand(2), S), el = eval(IE->getOperand(1), S), ve = eval(IE->getOperand(0), S);
                    if (VT && ix.k == AVal::Int && VT->getNumElements() <= 16) {
                        std::vector<std::string> c = components(ve.str(), VT->getNumElements());
                        if (ix.i >= 0 && ix.i < (long)c.size()) c[ix.i] = el.str();
                        std::string t = "vec(";
                        for (size_t k = 0; k < c.size(); k++) t += (k ? "," : "") + c[k];
                        S.env[I] = AVal::sym(t + ")");
                        continue;
                    }
                }
                if (auto *EE = dyn_cast<ExtractElementInst>(I)) {
                    auto *VT = dyn_cast<FixedVectorType>(EE->getOperand(0)->getType());
                    AVal ix = eval(EE->getOperand(1), S), ve = eval(EE->getOperand(0), S);
                    if (VT && ix.k == AVal::Int && VT->getNumElements() <= 16 && ve.str().compare(0, 4, "vec(") == 0) {
                        std::vector<std::string> c = components(ve.str(), VT->getNumElements());
                        if (ix.i >= 0 && ix.i < (long)c.size()) { S.env[I] = AVal::sym(c[ix.i]); continue; }
                    }
                }
                std::string t = std::string(I->getOpcodeName()) + "(";
                for (auto &o : I->operands()) if (!isa<BasicBlock>(o)) t += eval(o, S).str() + ",";
                S.env[I] = AVal::sym(t + ")");
            }
        }
    }
}

const DICompositeType *diType(Program &P, const std::string &name, const std::string &) {
    auto it = P.di_.find(name);
    const DICompositeType *best = nullptr;
    if (it != P.di_.end()) for (auto *c : it->second) if (!c->isForwardDecl()) { best = c; break; }
    return best;
}
long diOffset(const DICompositeType *T, const std::string &path, const DIType **out) {
    size_t k = path.find('.');
    std::string m = path.substr(0, k), rest = k == std::string::npos ? "" : path.substr(k + 1);
    for (auto *e : T->getElements())
        if (auto *D = dyn_cast_or_null<DIDerivedType>(e)) {
            if (D->getTag() == dwarf::DW_TAG_inheritance) {
                if (auto *B = dyn_cast_or_null<DICompositeType>(D->getBaseType())) { long o = diOffset(B, path, out); if (o >= 0) return o + D->getOffsetInBits() / 8; }
                continue;
            }
            if (D->getTag() != dwarf::DW_TAG_member || D->isStaticMember() || D->getName() != m) continue;
            long o = D->getOffsetInBits() / 8;
            const DIType *t = D->getBaseType();
            while (auto *q = dyn_cast_or_null<DIDerivedType>(t)) { if (q->getTag() == dwarf::DW_TAG_pointer_type) break; t = q->getBaseType(); }
            if (out) *out = t;
            if (rest.empty()) return o;
            if (auto *c = dyn_cast_or_null<DICompositeType>(t)) { long r = diOffset(c, rest, out); return r < 0 ? -1 : o + r; }
            return -1;
        }
    return -1;
}

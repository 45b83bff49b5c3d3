#include "poly.h"
#include <algorithm>
#include <numeric>
#include <sstream>
void Poly::add(const std::vector<std::string> &mono, long n, long d) {
    auto &e = m.emplace(mono, std::make_pair(0L, 1L)).first->second;
    long nn = e.first * d + n * e.second, dd = e.second * d, g = std::gcd(nn, dd);
    if (g < 0) g = -g;
    if (g > 1) { nn /= g; dd /= g; }
    if (dd < 0) { nn = -nn; dd = -dd; }
    e = {nn, dd};
    if (!nn) m.erase(mono);
}
std::string Poly::str() const {
    std::ostringstream o;
    if (m.empty()) return "0";
    bool first = true;
    for (auto &e : m) {
        if (!first) o << " + ";
        first = false;
        o << e.second.first;
        if (e.second.second != 1) o << "/" << e.second.second;
        for (auto &a : e.first) o << "*" << a;
    }
    return o.str();
}
bool Poly::isConst(long &v) const {
    if (m.empty()) { v = 0; return true; }
    if (m.size() == 1 && m.begin()->first.empty() && m.begin()->second.second == 1) { v = m.begin()->second.first; return true; }
    return false;
}
Poly pconst(long c) { Poly p; if (c) p.add({}, c, 1); return p; }
Poly padd(const Poly &a, const Poly &b, long s) {
    Poly r = a;
    for (auto &e : b.m) r.add(e.first, s * e.second.first, e.second.second);
    return r;
}
Poly pmul(const Poly &a, const Poly &b) {
    Poly r;
    for (auto &x : a.m) for (auto &y : b.m) {
        std::vector<std::string> v = x.first;
        v.insert(v.end(), y.first.begin(), y.first.end());
        std::sort(v.begin(), v.end());
        r.add(v, x.second.first * y.second.first, x.second.second * y.second.second);
    }
    return r;
}
Poly pscale(const Poly &a, long n, long d) {
    Poly r;
    for (auto &e : a.m) r.add(e.first, e.second.first * n, e.second.second * d);
    return r;
}
std::string rootName(const Value *V) {
    if (auto *A = dyn_cast<Argument>(V)) return "arg" + std::to_string(A->getArgNo());
    if (isa<GlobalValue>(V)) return "@" + V->getName().str();
    std::ostringstream o;
    o << (isa<AllocaInst>(V) ? "var" : "v") << (const void *)V;
    return o.str();
}
std::string PolyEnv::ptr(const Value *V, int depth) {
    Path p = P.path(V);
    std::string s;
    if (name) s = name(p.root);
    if (s.empty()) {
        auto *PN = dyn_cast<PHINode>(p.root);
        if (PN && depth < 6) {
            std::set<std::string> alt;
            bool ok = busy.insert(PN).second;
            if (ok) {
                for (auto &in : PN->incoming_values()) alt.insert(ptr(in, depth + 1));
                busy.erase(PN);
            } else alt.insert("rec");
            s = "phi{";
            for (auto &a : alt) s += a + ";";
            s += "}";
        } else if (auto *C = dyn_cast<CallBase>(p.root)) {
            const Function *F = P.callee(C);
            std::string n = F ? P.q(F) : "?";
            if (n.compare(0, 12, "operator new") == 0 || n == "malloc" || !F || depth > 5) s = rootName(p.root);
            else {
                s = n + "(";
                for (auto &a : C->args()) s += (a->getType()->isPointerTy() ? ptr(a, depth + 1) : of(a, depth + 1).str()) + ",";
                s += ")";
            }
        } else if (isa<ConstantPointerNull>(p.root)) s = "null";
        else s = rootName(p.root);
    }
    for (auto &t : p.steps) s += t.kind == Step::Member ? "." + t.name : t.kind == Step::Any ? "[]" : "->";
    return s;
}
std::string PolyEnv::atom(const Value *V, int depth) {
    if (name) { std::string s = name(V); if (!s.empty()) return s; }
    if (isa<Argument>(V)) return rootName(V);
    if (auto *L = dyn_cast<LoadInst>(V)) return "<" + ptr(L->getPointerOperand(), depth + 1) + ">";
    if (V->getType()->isPointerTy()) return ptr(V, depth + 1);
    if (auto *C = dyn_cast<CallBase>(V)) {
        const Function *F = P.callee(C);
        std::string s = (F ? P.q(F) : "?") + "(";
        for (auto &a : C->args()) s += (a->getType()->isPointerTy() ? ptr(a, depth + 1) : of(a, depth + 1).str()) + ",";
        return s + ")";
    }
    if (auto *I = dyn_cast<Instruction>(V)) {
        if (isa<PHINode>(I) || isa<SelectInst>(I)) {
            std::set<std::string> alt;
            if (auto *PN = dyn_cast<PHINode>(I)) {
                if (!busy.insert(PN).second) return "rec";
                for (auto &in : PN->incoming_values()) alt.insert(of(in, depth + 1).str());
                busy.erase(PN);
            } else { alt.insert(of(I->getOperand(1), depth + 1).str()); alt.insert(of(I->getOperand(2), depth + 1).str()); }
            if (alt.size() == 1 && depth < 30) return *alt.begin();
            std::string s = "phi{";
            for (auto &a : alt) s += a + ";";
            return s + "}";
        }
        std::string s = I->getOpcodeName();
        s += "(";
        for (auto &o : I->operands()) s += (o->getType()->isPointerTy() ? ptr(o, depth + 1) : of(o, depth + 1).str()) + ",";
        return s + ")";
    }
    return rootName(V);
}
// end - begin of the same container -> bytes(container)
static Poly lengths(const Poly &p) {
    Poly r = p;
    for (bool again = true; again;) {
        again = false;
        for (auto &e : r.m) {
            for (size_t i = 0; i < e.first.size(); i++) {
                const std::string &a = e.first[i];
                size_t k = a.find("_M_finish->");
                if (k == std::string::npos || a.substr(k) != "_M_finish->") continue;
                std::string full = a.substr(0, k), base = full;
                size_t q = base.rfind(".std::_Vector_base");
                if (q != std::string::npos) base = base.substr(0, q);
                for (size_t z; (z = base.find(".std::vector::<base>")) != std::string::npos;) base.erase(z, 20);
                for (std::string cand : {full + "_M_start->", base + "->"}) {
                    std::vector<std::string> other = e.first;
                    other[i] = cand;
                    std::sort(other.begin(), other.end());
                    auto o = r.m.find(other);
                    if (o == r.m.end() || o->second.first != -e.second.first || o->second.second != e.second.second) continue;
                    std::vector<std::string> mono = e.first, fm = e.first;
                    mono[i] = "bytes(" + base + ")";
                    std::sort(mono.begin(), mono.end());
                    auto c = e.second;
                    r.m.erase(other);
                    r.m.erase(fm);
                    r.add(mono, c.first, c.second);
                    again = true;
                    break;
                }
                if (again) break;
            }
            if (again) break;
        }
    }
    return r;
}
static bool hasBytes(const std::vector<std::string> &m) {
    for (auto &a : m) if (a.compare(0, 6, "bytes(") == 0) return true;
    return false;
}
Poly PolyEnv::of(const Value *V, int depth) {
    auto it = memo.find(V);
    if (it != memo.end()) return it->second;
    Poly r;
    auto atomP = [&]() { Poly p; p.add({atom(V, depth)}, 1, 1); return p; };
    if (depth > 40) return atomP();
    if (auto *C = dyn_cast<ConstantInt>(V)) return pconst(C->getSExtValue());
    if (auto *C = dyn_cast<CastInst>(V)) {
        switch (C->getOpcode()) {
        case Instruction::SExt: case Instruction::ZExt: case Instruction::Trunc: case Instruction::PtrToInt:
        case Instruction::BitCast:
            if (C->getSrcTy()->isIntegerTy(1)) break;
            r = of(C->getOperand(0), depth + 1);
            memo[V] = r;
            return r;
        default: break;
        }
    }
    if (auto *B = dyn_cast<BinaryOperator>(V)) {
        auto *c1 = dyn_cast<ConstantInt>(B->getOperand(1));
        switch (B->getOpcode()) {
        case Instruction::Add: r = padd(of(B->getOperand(0), depth + 1), of(B->getOperand(1), depth + 1)); memo[V] = r; return r;
        case Instruction::Sub: r = padd(of(B->getOperand(0), depth + 1), of(B->getOperand(1), depth + 1), -1); r = lengths(r); memo[V] = r; return r;
        case Instruction::Mul: r = pmul(of(B->getOperand(0), depth + 1), of(B->getOperand(1), depth + 1)); memo[V] = r; return r;
        case Instruction::Shl:
            if (c1) { r = pscale(of(B->getOperand(0), depth + 1), 1L << c1->getZExtValue(), 1); memo[V] = r; return r; }
            break;
        case Instruction::AShr: case Instruction::LShr:
            if (c1 && B->isExact()) { r = pscale(of(B->getOperand(0), depth + 1), 1, 1L << c1->getZExtValue()); memo[V] = r; return r; }
            break;
        case Instruction::SDiv: case Instruction::UDiv:
            if (c1 && !c1->isZero()) {
                Poly a = of(B->getOperand(0), depth + 1);
                long d = c1->getSExtValue();
                bool ok = B->isExact();
                if (!ok) { ok = true; for (auto &e : a.m) if (!hasBytes(e.first) && (e.second.second != 1 || e.second.first % d)) ok = false; }
                if (ok) { r = pscale(a, 1, d); memo[V] = r; return r; }
            }
            break;
        default: break;
        }
    }
    if (auto *PN = dyn_cast<PHINode>(V)) {
        if (V->getType()->isIntegerTy() && busy.insert(PN).second) {
            bool same = true, first = true;
            Poly x;
            for (auto &in : PN->incoming_values()) {
                if (in == PN) continue;
                Poly y = of(in, depth + 1);
                if (first) { x = y; first = false; } else if (!(x == y)) same = false;
            }
            busy.erase(PN);
            if (same && !first) return x;
        }
    }
    if (V->getType()->isPointerTy()) {
        // pointers inside size computations (end - begin)
        Poly p;
        p.add({ptr(V, depth + 1)}, 1, 1);
        return p;
    }
    r = atomP();
    memo[V] = r;
    return r;
}

#include "core.h"
#include <iostream>

std::string Path::str() const {
    std::string s;
    raw_string_ostream o(s);
    if (!root) return "?";
    if (root->hasName()) o << root->getName(); else if (auto *A = dyn_cast<Argument>(root)) o << "arg" << A->getArgNo(); else o << "tmp";
    for (auto &t : steps)
        if (t.kind == Step::Member) { auto p = t.name.rfind("::"); o << "." << t.name.substr(p == std::string::npos ? 0 : p + 2); }
        else if (t.kind == Step::Any) o << "[]";
        else o << "->";
    return o.str();
}

static bool isOpTok(const std::string &s, size_t i) {
    static const std::string op = "operator";
    return s.compare(i, op.size(), op) == 0 && (i == 0 || !(isalnum(s[i - 1]) || s[i - 1] == '_')) &&
           !(i + op.size() < s.size() && (isalnum(s[i + op.size()]) || s[i + op.size()] == '_'));
}

// remove template argument lists, respecting operator names
std::string stripTemplates(const std::string &s) {
    std::string r;
    int d = 0;
    for (size_t i = 0; i < s.size(); i++) {
        if (d == 0 && isOpTok(s, i)) {
            r += "operator";
            i += 8;
            while (i < s.size() && strchr("<>-=+*/!&|^%~[],", s[i])) {
                // a template list following the operator symbol starts with '<' preceded by a symbol and is not part of it
                if (s[i] == '<' && r.back() != 'r' && !(r.back() == '<')) break;
                r += s[i++];
            }
            if (i + 1 < s.size() && s[i] == '(' && s[i + 1] == ')') { r += "()"; i += 2; }
            i--;
            continue;
        }
        if (s[i] == '<') { d++; continue; }
        if (s[i] == '>' && d > 0) { d--; continue; }
        if (d == 0) r += s[i];
    }
    return r;
}

std::string qualified(const std::string &dm) {
    std::string s = stripTemplates(dm);
    // cut the parameter list
    std::string anon = "(anonymous namespace)";
    size_t p;
    while ((p = s.find(anon)) != std::string::npos) s.replace(p, anon.size(), "{anon}");
    size_t i = 0;
    int lam = 0;
    for (; i < s.size(); i++) {
        if (s[i] == '{') lam++;
        if (s[i] == '}') lam--;
        if (lam) continue;
        if (isOpTok(s, i)) {
            i += 8;
            if (s.compare(i, 2, "()") == 0) i += 2;
            // conversion operator: keep up to '('
            while (i < s.size() && s[i] != '(') i++;
            break;
        }
        if (s[i] == '(') {
            // "foo(int)::bar()": a local entity; keep going after the matching parenthesis
            int d = 0; size_t j = i;
            for (; j < s.size(); j++) { if (s[j] == '(') d++; if (s[j] == ')' && --d == 0) break; }
            size_t k = j + 1;
            if (s.compare(k, 6, " const") == 0) k += 6;
            if (k + 1 < s.size() && s[k] == ':' && s[k + 1] == ':') { s.erase(i, k - i); i--; continue; }
            break;
        }
    }
    s = s.substr(0, i);
    // drop the return type
    size_t op = std::string::npos;
    for (size_t j = 0; j < s.size(); j++) if (isOpTok(s, j)) { op = j; break; }
    size_t sp = (op == std::string::npos) ? s.rfind(' ') : s.rfind(' ', op);
    if (op == 0) sp = std::string::npos;
    if (sp != std::string::npos && s.find('{') == std::string::npos) s = s.substr(sp + 1);
    return s;
}

bool Program::load(const std::vector<std::string> &files, std::string &err) {
    for (auto &f : files) {
        SMDiagnostic d;
        auto m = parseIRFile(f, d, ctx);
        if (!m) { err = f + ": " + d.getMessage().str(); return false; }
        if (!M) { M = std::move(m); continue; }
        // one main only, the last wins nothing: rename to keep all of them
        if (auto *F = m->getFunction("main")) F->setName("main." + std::to_string((unsigned)std::hash<std::string>{}(f)));
        // several programs are analysed at once: what a later program defines again is its own
        for (auto &GV : m->global_values()) {
            if (GV.isDeclaration() || GV.hasLocalLinkage() || GV.isWeakForLinker() || GV.hasAppendingLinkage() ||
                GV.hasAvailableExternallyLinkage()) continue;
            auto *O = M->getNamedValue(GV.getName());
            if (O && !O->isDeclaration() && !O->isWeakForLinker()) GV.setLinkage(GlobalValue::InternalLinkage);
        }
        if (Linker::linkModules(*M, std::move(m))) { err = "link " + f; return false; }
    }
    DebugInfoFinder fin;
    fin.processModule(*M);
    for (auto *T : fin.types())
        if (auto *C = dyn_cast<DICompositeType>(T))
            if (C->getTag() == dwarf::DW_TAG_class_type || C->getTag() == dwarf::DW_TAG_structure_type ||
                C->getTag() == dwarf::DW_TAG_union_type) {
                if (C->isForwardDecl()) continue;
                std::string n = stripTemplates(C->getName().str());
                for (auto *S = C->getScope(); S; S = S->getScope())
                    if (isa<DICompositeType>(S) || isa<DINamespace>(S)) {
                        std::string sn = stripTemplates(S->getName().str());
                        if (!sn.empty()) n = sn + "::" + n;
                    }
                di_[n].push_back(C);
            }
    for (auto &F : *M)
        for (auto *U : F.users())
            if (auto *C = dyn_cast<CallBase>(U))
                if (C->getCalledOperand()->stripPointerCasts() == &F) callers[&F].push_back(C);
    return true;
}

const std::string &Program::dem(const Function *F) {
    auto it = dem_.find(F);
    if (it != dem_.end()) return it->second;
    return dem_[F] = demangle(F->getName().str());
}

const std::string &Program::q(const Function *F) {
    auto it = q_.find(F);
    if (it != q_.end()) return it->second;
    return q_[F] = qualified(dem(F));
}

std::string Program::structName(const StructType *T) {
    if (!T->hasName()) return "";
    std::string n = T->getName().str();
    for (const char *p : {"class.", "struct.", "union."})
        if (n.compare(0, strlen(p), p) == 0) { n = n.substr(strlen(p)); break; }
    // linker/clang suffix .123 (possibly repeated)
    for (;;) {
        size_t p = n.rfind('.');
        if (p == std::string::npos || p + 1 >= n.size()) break;
        if (n.find_first_not_of("0123456789", p + 1) != std::string::npos) break;
        n = n.substr(0, p);
    }
    if (n.size() > 5 && n.compare(n.size() - 5, 5, ".base") == 0) n = n.substr(0, n.size() - 5);
    return stripTemplates(n);
}

const std::string &Program::member(const StructType *T, unsigned idx) {
    auto it = members_.find(T);
    if (it == members_.end()) {
        std::vector<std::string> v(T->getNumElements());
        std::string sn = structName(T);
        const DICompositeType *best = nullptr;
        auto d = di_.find(sn);
        if (d == di_.end()) {
            // nested struct named without its namespace or the other way round
            for (auto &e : di_)
                if (e.first.size() > sn.size() + 2 && e.first.compare(e.first.size() - sn.size() - 2, 2, "::") == 0 &&
                    e.first.compare(e.first.size() - sn.size(), sn.size(), sn) == 0) { d = di_.find(e.first); break; }
        }
        const DataLayout &DL = M->getDataLayout();
        const StructLayout *SL = T->isSized() ? DL.getStructLayout(const_cast<StructType *>(T)) : nullptr;
        if (d != di_.end() && SL) {
            for (auto *C : d->second) {
                if (!best) best = C;
                if (C->getSizeInBits() == SL->getSizeInBits()) { best = C; break; }
            }
        }
        for (unsigned i = 0; i < v.size(); i++) {
            v[i] = sn + "::#" + std::to_string(i);
            if (!best || !SL) continue;
            uint64_t off = SL->getElementOffsetInBits(i);
            for (auto *E : best->getElements())
                if (auto *D = dyn_cast<DIDerivedType>(E)) {
                    if (D->isStaticMember()) continue;
                    if (D->getOffsetInBits() != off) continue;
                    if (D->getTag() == dwarf::DW_TAG_member) { v[i] = sn + "::" + D->getName().str(); break; }
                    if (D->getTag() == dwarf::DW_TAG_inheritance) { v[i] = sn + "::<base>"; }
                }
        }
        it = members_.emplace(T, v).first;
    }
    return it->second[idx];
}

const Function *Program::callee(const CallBase *C) {
    return dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts());
}

Path Program::path(const Value *V, int depth) {
    Path p;
    if (depth > 40) { p.root = V; return p; }
    if (auto *G = dyn_cast<GEPOperator>(V)) {
        p = path(G->getPointerOperand(), depth + 1);
        auto gti = gep_type_begin(G);
        bool first = true;
        for (auto ge = gep_type_end(G); gti != ge; ++gti) {
            Value *ix = gti.getOperand();
            if (first) {
                first = false;
                auto *ci = dyn_cast<ConstantInt>(ix);
                if (!ci || !ci->isZero()) p.steps.push_back({Step::Any, ""});
                continue;
            }
            if (auto *ST = gti.getStructTypeOrNull()) {
                unsigned k = cast<ConstantInt>(ix)->getZExtValue();
                p.steps.push_back({Step::Member, member(ST, k)});
            } else
                p.steps.push_back({Step::Any, ""});
        }
        return p;
    }
    if (auto *L = dyn_cast<LoadInst>(V)) {
        const Value *ptr = L->getPointerOperand();
        if (auto *A = dyn_cast<AllocaInst>(ptr)) {
            // single-store slot: the stored value
            const Value *st = nullptr; int n = 0; bool other = false;
            for (auto *U : A->users()) {
                if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == A) { st = S->getValueOperand(); n++; } else other = true; }
                else if (isa<LoadInst>(U)) {}
                else if (auto *II = dyn_cast<IntrinsicInst>(U)) { if (!II->isLifetimeStartOrEnd() && !isa<DbgInfoIntrinsic>(II)) other = true; }
                else other = true;
            }
            if (n == 1 && !other) return path(st, depth + 1);
        }
        p = path(ptr, depth + 1);
        p.steps.push_back({Step::Deref, ""});
        return p;
    }
    if (auto *C = dyn_cast<CastInst>(V)) {
        if (C->getOpcode() == Instruction::BitCast || C->getOpcode() == Instruction::AddrSpaceCast ||
            C->getOpcode() == Instruction::PtrToInt || C->getOpcode() == Instruction::IntToPtr)
            return path(C->getOperand(0), depth + 1);
    }
    if (auto *P = dyn_cast<PHINode>(V)) {
        if (P->getNumIncomingValues() == 1) return path(P->getIncomingValue(0), depth + 1);
        // an iterator: starts somewhere and steps
        if (P->getType()->isPointerTy() && depth < 20) {
            const Value *start = nullptr;
            bool ok = true, steps = false;
            for (auto &in : P->incoming_values()) {
                const Value *v = in;
                int k = 0;
                while (auto *G = dyn_cast<GEPOperator>(v)) { if (++k > 6) break; v = G->getPointerOperand(); }
                if (v == P) { steps = true; continue; }
                if (start && start != in) ok = false;
                start = in;
            }
            if (ok && start && steps) {
                p = path(start, depth + 1);
                p.steps.push_back({Step::Any, ""});
                return p;
            }
        }
    }
    if (auto *C = dyn_cast<CallBase>(V)) {
        const Function *F = callee(C);
        if (F && !F->isDeclaration() && depth < 12) {
            Path r = retPath(F, depth + 1);
            if (r.root) {
                if (auto *A = dyn_cast<Argument>(r.root)) {
                    if (A->getArgNo() < C->arg_size()) {
                        p = path(C->getArgOperand(A->getArgNo()), depth + 1);
                        p.steps.insert(p.steps.end(), r.steps.begin(), r.steps.end());
                        return p;
                    }
                } else if (isa<GlobalValue>(r.root)) return r;
            }
        }
        if (F && F->isDeclaration()) {
            StringRef n = F->getName();
            if (n == "__dynamic_cast" && C->arg_size()) return path(C->getArgOperand(0), depth + 1);
        }
    }
    p.root = V;
    return p;
}

// access path of a small accessor's result in terms of its arguments
Path Program::retPath(const Function *F, int depth) {
    auto key = std::make_pair(F, 0);
    auto it = retCache_.find(key);
    if (it != retCache_.end()) return it->second;
    Path r;
    if (F->size() > 6 || retBusy_.count(F) || !F->getReturnType()->isPointerTy()) return r;
    retBusy_.insert(F);
    bool first = true, ok = true;
    for (auto &B : *F)
        if (auto *R = dyn_cast<ReturnInst>(B.getTerminator())) {
            Path x = path(R->getReturnValue(), depth);
            if (!x.root || !(isa<Argument>(x.root) || isa<GlobalValue>(x.root))) ok = false;
            if (first) { r = x; first = false; } else if (!(r == x)) ok = false;
        }
    if (!ok) r = Path();
    retBusy_.erase(F);
    retCache_[key] = r;
    return r;
}

std::string Program::loc(const Instruction *I) {
    if (auto &D = I->getDebugLoc()) {
        auto *L = D.get();
        while (L->getInlinedAt() && 0) L = L->getInlinedAt();
        std::string f = L->getFilename().str();
        size_t p = f.rfind('/');
        return (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(L->getLine());
    }
    return loc(I->getFunction());
}

std::string Program::loc(const Function *F) {
    if (auto *S = F->getSubprogram()) {
        std::string f = S->getFilename().str();
        size_t p = f.rfind('/');
        return (p == std::string::npos ? f : f.substr(p + 1)) + ":" + std::to_string(S->getLine());
    }
    return "?";
}

std::vector<Function *> Program::functions() {
    std::vector<Function *> r;
    for (auto &F : *M) if (!F.isDeclaration()) r.push_back(&F);
    return r;
}

bool Program::isStd(const Function *F) {
    const std::string &n = q(F);
    return n.compare(0, 5, "std::") == 0 || n.compare(0, 11, "__gnu_cxx::") == 0 || n.compare(0, 5, "MPI::") == 0;
}

// ------------------------------------------------------------------------------------------------------------
static std::string esc(std::string s) {
    for (auto &c : s) if (c == '\t' || c == '\n') c = ' ';
    return s;
}
void finding(const std::string &rule, const std::string &key, const std::string &where, const std::string &msg) {
    static std::set<std::string> seen;
    if (!seen.insert(rule + "|" + key + "|" + where).second) return;
    std::cout << "FINDING\t" << esc(rule) << "\t" << esc(key) << "\t" << esc(where) << "\t" << esc(msg) << "\n";
}
void stat_(const std::string &name, long v) { std::cout << "STAT\t" << name << "\t" << v << "\n"; }
void inst(const std::string &w) { std::cout << "INST\t" << esc(w) << "\n"; }
void note(const std::string &w) { std::cout << "NOTE\t" << esc(w) << "\n"; }

//                       name            comm buf cnt typ req peer tag coll
static const MpiSig SIGS[] = {
    {"MPI_Bcast", 4, 0, 1, 2, -1, 3, -1, true},
    {"MPI_Ibcast", 4, 0, 1, 2, 5, 3, -1, true},
    {"MPI_Reduce", 6, 0, 2, 3, -1, 5, -1, true},
    {"MPI_Ireduce", 6, 0, 2, 3, 7, 5, -1, true},
    {"MPI_Allreduce", 5, 0, 2, 3, -1, -1, -1, true},
    {"MPI_Iallreduce", 5, 0, 2, 3, 6, -1, -1, true},
    {"MPI_Scan", 5, 0, 2, 3, -1, -1, -1, true},
    {"MPI_Exscan", 5, 0, 2, 3, -1, -1, -1, true},
    {"MPI_Barrier", 0, -1, -1, -1, -1, -1, -1, true},
    {"MPI_Ibarrier", 0, -1, -1, -1, 1, -1, -1, true},
    {"MPI_Comm_split", 0, -1, -1, -1, -1, -1, -1, true},
    {"MPI_Comm_dup", 0, -1, -1, -1, -1, -1, -1, true},
    {"MPI_Comm_create", 0, -1, -1, -1, -1, -1, -1, true},
    {"MPI_Comm_free", -1, -1, -1, -1, -1, -1, -1, true},
    {"MPI_Gather", 7, 0, 1, 2, -1, 6, -1, true},
    {"MPI_Gatherv", 8, 0, 1, 2, -1, 7, -1, true},
    {"MPI_Scatter", 7, 0, 1, 2, -1, 6, -1, true},
    {"MPI_Scatterv", 8, 0, 2, 3, -1, 7, -1, true},
    {"MPI_Allgather", 6, 0, 1, 2, -1, -1, -1, true},
    {"MPI_Allgatherv", 7, 0, 1, 2, -1, -1, -1, true},
    {"MPI_Alltoall", 6, 0, 1, 2, -1, -1, -1, true},
    {"MPI_Alltoallv", 8, 0, 1, 3, -1, -1, -1, true},
    {"MPI_Send", 5, 0, 1, 2, -1, 3, 4, false},
    {"MPI_Ssend", 5, 0, 1, 2, -1, 3, 4, false},
    {"MPI_Bsend", 5, 0, 1, 2, -1, 3, 4, false},
    {"MPI_Rsend", 5, 0, 1, 2, -1, 3, 4, false},
    {"MPI_Recv", 5, 0, 1, 2, -1, 3, 4, false},
    {"MPI_Isend", 5, 0, 1, 2, 6, 3, 4, false},
    {"MPI_Issend", 5, 0, 1, 2, 6, 3, 4, false},
    {"MPI_Irecv", 5, 0, 1, 2, 6, 3, 4, false},
    {"MPI_Sendrecv", 10, 0, 1, 2, -1, 3, 4, false},
    {"MPI_Probe", 2, -1, -1, -1, -1, 0, 1, false},
    {"MPI_Iprobe", 2, -1, -1, -1, -1, 0, 1, false},
    {"MPI_Comm_rank", 0, -1, -1, -1, -1, -1, -1, false},
    {"MPI_Comm_size", 0, -1, -1, -1, -1, -1, -1, false},
    {"MPI_Abort", 0, -1, -1, -1, -1, -1, -1, false},
};
const MpiSig *mpiSig(StringRef n) {
    for (auto &s : SIGS) if (n == s.name) return &s;
    return nullptr;
}

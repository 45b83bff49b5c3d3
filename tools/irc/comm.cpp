// C13: which communicator every MPI call uses.
#include "core.h"

namespace {
struct Comm {
    Program &P;
    std::set<const Function *> allowedRoots, allowed;
    std::string W = "ompi_mpi_comm_world";
    long nLat = 0, nWorld = 0, nCalls = 0, nStores = 0;
    Comm(Program &p) : P(p) {}

    // kinds a communicator value can have
    enum { LAT = 1, WORLD = 2, OTHER = 4, NUL = 8, SPLIT = 16 };
    std::string why;

    int kind(const Value *V, std::set<const Value *> &seen) {
        if (!seen.insert(V).second) return 0;
        if (auto *C = dyn_cast<Constant>(V)) {
            const Value *s = C->stripPointerCasts();
            StringRef n = s->getName();
            if (n == W) return WORLD;
            if (n == "ompi_mpi_comm_null" || isa<ConstantPointerNull>(C)) return NUL;
            why = n.str();
            return OTHER;
        }
        if (auto *S = dyn_cast<SelectInst>(V)) return kind(S->getTrueValue(), seen) | kind(S->getFalseValue(), seen);
        if (auto *Ph = dyn_cast<PHINode>(V)) {
            int k = 0;
            for (auto &U : Ph->incoming_values()) k |= kind(U, seen);
            return k;
        }
        if (auto *A = dyn_cast<Argument>(V)) {
            int k = 0;
            for (auto *C : P.callers[A->getParent()])
                if (A->getArgNo() < C->arg_size()) k |= kind(C->getArgOperand(A->getArgNo()), seen);
            return k;
        }
        if (auto *L = dyn_cast<LoadInst>(V)) return memKind(P.path(L->getPointerOperand()), L->getPointerOperand(), seen);
        if (auto *C = dyn_cast<CallBase>(V)) {
            const Function *F = P.callee(C);
            if (F && !F->isDeclaration()) {
                int k = 0;
                for (auto &B : *F)
                    if (auto *R = dyn_cast<ReturnInst>(B.getTerminator()))
                        if (R->getReturnValue()) k |= kind(R->getReturnValue(), seen);
                return k;
            }
        }
        why = "unresolved value";
        return OTHER;
    }
    // contents of a memory slot
    int memKind(const Path &p, const Value *ptr, std::set<const Value *> &seen) {
        std::string m = p.steps.empty() ? "" : (p.steps.back().kind == Step::Member ? p.steps.back().name : "");
        if (m == "lattice_struct::mpi_comm_lat") return LAT;
        const Value *root = p.root;
        if (p.steps.empty() && (isa<AllocaInst>(root) || isa<GlobalVariable>(root))) {
            int k = 0;
            if (auto *G = dyn_cast<GlobalVariable>(root))
                if (G->hasInitializer() && !G->getInitializer()->isNullValue()) k |= kind(G->getInitializer(), seen);
            for (auto *U : root->users()) {
                if (auto *S = dyn_cast<StoreInst>(U)) { if (S->getPointerOperand() == root) k |= kind(S->getValueOperand(), seen); }
                else if (auto *C = dyn_cast<CallBase>(U)) {
                    const Function *F = P.callee(C);
                    if (!F) continue;
                    if (F->getName() == "MPI_Comm_split" && C->getArgOperand(3) == root) k |= SPLIT;
                    else if (F->getName() == "MPI_Comm_dup" && C->getArgOperand(1) == root) k |= kind(C->getArgOperand(0), seen);
                }
            }
            return k;
        }
        // a member of some struct: all stores to that member in the program
        if (!m.empty()) {
            int k = 0;
            for (auto *F : P.functions())
                for (auto &I : instructions(F))
                    if (auto *S = dyn_cast<StoreInst>(&I)) {
                        if (!S->getValueOperand()->getType()->isPointerTy()) continue;
                        Path q = P.path(S->getPointerOperand());
                        if (!q.steps.empty() && q.steps.back().kind == Step::Member && q.steps.back().name == m)
                            k |= kind(S->getValueOperand(), seen);
                    }
            return k;
        }
        if (auto *A = dyn_cast_or_null<Argument>(root)) {
            if (p.steps.empty()) {
                int k = 0;
                for (auto *C : P.callers[A->getParent()])
                    if (A->getArgNo() < C->arg_size()) {
                        const Value *v = C->getArgOperand(A->getArgNo());
                        k |= memKind(P.path(v), v, seen);
                    }
                return k;
            }
        }
        why = "unresolved slot " + p.str();
        return OTHER;
    }

    bool rootName(const std::string &n) {
        return n == "hila::initialize_communications" || n == "hila::finish_communications" || n == "hila::abort_communications" ||
               n == "hila::split_into_partitions" || n == "hila::synchronize_partitions";
    }
    // F may use the communicator of the whole job: it is one of the start/split/sync/end routines, or only those call it
    bool isAllowed(const Function *F, std::set<const Function *> &busy) {
        if (rootName(P.q(F))) return true;
        if (!busy.insert(F).second) return true;
        auto &cs = P.callers[F];
        if (cs.empty() || F->hasAddressTaken()) return false;
        for (auto *C : cs) if (!isAllowed(C->getFunction(), busy)) return false;
        return true;
    }

    int run() {
        std::map<std::string, int> roots;
        for (auto *F : P.functions()) {
            if (P.isStd(F)) continue;
            if (rootName(P.q(F))) roots[P.q(F)]++;
            for (auto &I : instructions(F)) {
                if (auto *S = dyn_cast<StoreInst>(&I)) {
                    // writers of a lattice's communicator
                    Path p = P.path(S->getPointerOperand());
                    if (!p.steps.empty() && p.steps.back().kind == Step::Member && p.steps.back().name == "lattice_struct::mpi_comm_lat") {
                        nStores++;
                        std::set<const Value *> seen;
                        int k = kind(S->getValueOperand(), seen);
                        std::set<const Function *> busy;
                        if ((k & WORLD) && !isAllowed(F, busy))
                            finding("lattice-communicator-widened", P.q(F) + "|mpi_comm_lat", P.loc(&I),
                                    "a lattice is given the communicator of the whole job outside start-up: its communication leaves the partition");
                        if (k & OTHER)
                            finding("lattice-communicator-unknown", P.q(F) + "|mpi_comm_lat", P.loc(&I),
                                    "a lattice is given a communicator (" + why + ") that is neither a lattice's own nor the result of the partition split");
                        inst("store " + P.q(F) + " " + P.loc(&I) + " mpi_comm_lat <- " + kindStr(k));
                    }
                    continue;
                }
                auto *C = dyn_cast<CallBase>(&I);
                if (!C) continue;
                const Function *G = P.callee(C);
                if (!G) continue;
                const MpiSig *s = mpiSig(G->getName());
                if (!s) {
                    // every other use of MPI that names a communicator
                    for (auto &A : C->args())
                        if (auto *K = dyn_cast<Constant>(A.get()))
                            if (K->stripPointerCasts()->getName() == W && G->getName().starts_with("MPI_")) {
                                std::set<const Function *> busy;
                                if (!isAllowed(F, busy))
                                    finding("whole-job-communicator", P.q(F) + "|" + G->getName().str(), P.loc(&I),
                                            G->getName().str() + " on the communicator of the whole job");
                            }
                    continue;
                }
                if (s->comm < 0) continue;
                nCalls++;
                std::set<const Value *> seen;
                why.clear();
                int k = kind(C->getArgOperand(s->comm), seen);
                std::set<const Function *> busy;
                bool ok = isAllowed(F, busy);
                if (k & LAT) nLat++;
                if (k & WORLD) nWorld++;
                if (k & WORLD && !ok)
                    finding("whole-job-communicator", P.q(F) + "|" + s->name, P.loc(&I),
                            std::string(s->name) + " in " + P.dem(F) + " can use the communicator of the whole job; only partition set-up, partition synchronisation and job start/end may");
                if (k & OTHER)
                    finding("unknown-communicator", P.q(F) + "|" + s->name, P.loc(&I),
                            std::string(s->name) + " uses a communicator (" + why + ") that is not that of the caller's lattice");
                if (P.q(F) == "hila::synchronize_partitions" && s->collective && !(k & WORLD))
                    finding("partition-sync-local", P.q(F) + "|" + s->name, P.loc(&I),
                            "the partitions are synchronised on a communicator that does not span them");
                if (std::string(s->name) == "MPI_Comm_split") checkSplit(F, C);
                inst(P.q(F) + " " + s->name + " " + P.loc(&I) + " comm=" + kindStr(k));
            }
        }
        stat_("mpi_calls", nCalls);
        stat_("mpi_calls_on_lattice_communicator", nLat);
        stat_("mpi_calls_on_job_communicator", nWorld);
        stat_("lattice_communicator_stores", nStores);
        stat_("roots_found", roots.size());
        return 0;
    }
    std::string kindStr(int k) {
        std::string s;
        if (k & LAT) s += "lattice ";
        if (k & WORLD) s += "job ";
        if (k & SPLIT) s += "split ";
        if (k & NUL) s += "null ";
        if (k & OTHER) s += "unknown ";
        return s;
    }
    // a split result that lands in the lattice: rank and size of the lattice must be read from it afterwards
    bool mustRefresh(const Function *F, const Instruction *from, const char *fn, std::set<const Function *> &busy) {
        // forward must-reach on CFG from `from` to return; noreturn calls end a path
        std::set<const BasicBlock *> seen;
        std::function<bool(const Instruction *)> go = [&](const Instruction *I) -> bool {
            for (; I; I = I->getNextNode()) {
                if (auto *C = dyn_cast<CallBase>(I)) {
                    const Function *G = P.callee(C);
                    if (G && G->getName() == fn) {
                        std::set<const Value *> s2;
                        int k = kind(C->getArgOperand(0), s2);
                        if (!(k & WORLD)) return true;
                    }
                    if (G && !G->isDeclaration() && !P.isStd(G) && busy.insert(G).second) {
                        bool r = mustRefresh(G, &*G->getEntryBlock().begin(), fn, busy);
                        busy.erase(G);
                        if (r) return true;
                    }
                    if (G && (P.q(G) == "hila::finishrun" || P.q(G) == "hila::terminate" || P.q(G) == "hila::error")) return true;
                }
                if (isa<UnreachableInst>(I)) return true;
                if (isa<ReturnInst>(I)) return false;
                if (I->isTerminator()) {
                    for (auto *S : successors(I->getParent())) {
                        if (!seen.insert(S).second) continue;
                        if (!go(&*S->begin())) return false;
                    }
                    return true;
                }
            }
            return true;
        };
        return go(from);
    }
    void checkSplit(const Function *F, const CallBase *C) {
        for (const char *fn : {"MPI_Comm_rank", "MPI_Comm_size"}) {
            std::set<const Function *> busy{F};
            if (!mustRefresh(F, C->getNextNode(), fn, busy))
                finding("split-without-refresh", P.q(F) + "|" + fn, P.loc(C),
                        std::string("after the partition split a path returns without asking ") + fn + " of the new communicator: rank/size still those of the whole job");
        }
    }
};
} // namespace

int checkComm(Program &P, const std::vector<std::string> &) { return Comm(P).run(); }

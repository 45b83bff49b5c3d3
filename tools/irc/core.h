// Core of the IR analyses: program loading, names, access paths, call graph.
#pragma once
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SetVector.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/Analysis/CFG.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

struct Step {
    enum Kind { Member, Any, Deref } kind;
    std::string name; // "struct::member" for Member
    bool operator==(const Step &o) const { return kind == o.kind && name == o.name; }
    bool operator<(const Step &o) const { return kind != o.kind ? kind < o.kind : name < o.name; }
};

// Where a pointer value points: a root value, and the member selections and loads applied to it.
struct Path {
    const Value *root = nullptr;
    std::vector<Step> steps;
    bool operator==(const Path &o) const { return root == o.root && steps == o.steps; }
    bool operator<(const Path &o) const { return root != o.root ? root < o.root : steps < o.steps; }
    std::string str() const;
    // last Member step, e.g. "lattice_struct::mpi_comm_lat"
    std::string lastMember() const {
        for (auto it = steps.rbegin(); it != steps.rend(); ++it)
            if (it->kind == Step::Member) return it->name;
        return "";
    }
    bool hasMember(const std::string &n) const {
        for (auto &s : steps) if (s.kind == Step::Member && s.name == n) return true;
        return false;
    }
};

struct Program {
    LLVMContext ctx;
    std::unique_ptr<Module> M;
    std::map<const Function *, std::string> dem_, q_;
    std::map<const StructType *, std::vector<std::string>> members_;
    std::map<const Function *, std::vector<CallBase *>> callers; // direct callers
    std::map<std::string, std::vector<const DICompositeType *>> di_;

    bool load(const std::vector<std::string> &files, std::string &err);
    const std::string &dem(const Function *F);
    const std::string &q(const Function *F); // qualified name without template and call arguments
    const std::string &member(const StructType *T, unsigned idx);
    std::string structName(const StructType *T); // without class./struct. prefix and numeric suffix
    Path path(const Value *V, int depth = 0);
    Path retPath(const Function *F, int depth);
    static const Function *callee(const CallBase *C);
    std::string loc(const Instruction *I);
    std::string loc(const Function *F);
    std::vector<Function *> functions(); // defined functions
    bool isStd(const Function *F);        // libstdc++ / MPI C++ wrappers
    std::map<std::pair<const Function *, int>, Path> retCache_;
    std::set<const Function *> retBusy_;
};

std::string qualified(const std::string &demangled);
std::string stripTemplates(const std::string &s);

// ---- output
void finding(const std::string &rule, const std::string &key, const std::string &where, const std::string &msg);
void stat_(const std::string &name, long v);
void inst(const std::string &what);
void note(const std::string &what);

// ---- MPI call table
struct MpiSig { const char *name; int comm, buf, count, type, req, peer, tag; bool collective; };
const MpiSig *mpiSig(StringRef name);

typedef int (*CheckFn)(Program &, const std::vector<std::string> &args);

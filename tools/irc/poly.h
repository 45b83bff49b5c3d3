// Integer values as polynomials over symbolic atoms, so that differently written equal expressions compare equal.
#pragma once
#include "core.h"
struct Poly {
    // monomial (sorted atoms) -> rational coefficient num/den
    std::map<std::vector<std::string>, std::pair<long, long>> m;
    std::string str() const;
    bool operator==(const Poly &o) const { return str() == o.str(); }
    bool operator<(const Poly &o) const { return str() < o.str(); }
    void add(const std::vector<std::string> &mono, long n, long d);
    bool isConst(long &v) const;
};
Poly pconst(long c);
Poly padd(const Poly &a, const Poly &b, long sign = 1);
Poly pmul(const Poly &a, const Poly &b);
Poly pscale(const Poly &a, long num, long den);
struct PolyEnv {
    Program &P;
    std::function<std::string(const Value *)> name; // own atom names ("" = default)
    std::map<const Value *, Poly> memo;
    std::set<const Value *> busy;
    PolyEnv(Program &p) : P(p) {}
    Poly of(const Value *V, int depth = 0);
    std::string atom(const Value *V, int depth);
    std::string ptr(const Value *V, int depth = 0); // canonical text of a pointer
};
std::string rootName(const Value *V);

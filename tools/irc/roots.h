// Choice of the operations an analysis works on, and bottom-up relevance.
#pragma once
#include "inl.h"
// functions from which a call accepted by `op` is reachable (through direct calls, at most `depth` levels)
std::map<const Function *, int> reaching(Program &P, const std::function<bool(const CallBase *)> &op, int depth,
                                         const std::function<bool(const Function *)> &stop);
// lines of a data file, without comments
std::set<std::string> readList(const std::string &file);
std::string shortDem(Program &P, const Function *F); // q() and the template arguments of the class or function

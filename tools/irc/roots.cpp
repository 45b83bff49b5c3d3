#include "roots.h"
#include <fstream>
#include <deque>
std::map<const Function *, int> reaching(Program &P, const std::function<bool(const CallBase *)> &op, int depth,
                                         const std::function<bool(const Function *)> &stop) {
    std::map<const Function *, int> lvl;
    std::deque<const Function *> w;
    for (auto *F : P.functions()) {
        for (auto &I : instructions(F)) if (auto *C = dyn_cast<CallBase>(&I)) if (op(C)) { lvl[F] = 0; w.push_back(F); break; }
    }
    while (!w.empty()) {
        auto *F = w.front(); w.pop_front();
        int l = lvl[F];
        if (l >= depth || stop(F)) continue;
        auto it = P.callers.find(F);
        if (it == P.callers.end()) continue;
        for (auto *C : it->second) {
            auto *G = C->getFunction();
            if (lvl.emplace(G, l + 1).second) w.push_back(G);
        }
    }
    return lvl;
}
std::set<std::string> readList(const std::string &file) {
    std::set<std::string> r;
    std::ifstream f(file);
    std::string l;
    while (std::getline(f, l)) {
        if (l.empty() || l[0] == '#') continue;
        while (!l.empty() && isspace((unsigned char)l.back())) l.pop_back();
        r.insert(l);
    }
    return r;
}
std::string shortDem(Program &P, const Function *F) {
    std::string s = P.dem(F);
    size_t p = s.find('(');
    if (p != std::string::npos && s.compare(p, 2, "()") == 0 && s.find('(', p + 2) != std::string::npos) p = s.find('(', p + 2);
    s = s.substr(0, p);
    return s.size() > 120 ? s.substr(0, 120) : s;
}

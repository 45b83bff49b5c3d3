#include "core.h"
#include <iostream>
int checkComm(Program &, const std::vector<std::string> &);
int dumpNames(Program &, const std::vector<std::string> &);
int checkArgs(Program &, const std::vector<std::string> &);
int checkLat(Program &, const std::vector<std::string> &);
int checkHalo(Program &, const std::vector<std::string> &);
int checkReqs(Program &, const std::vector<std::string> &);
int checkMark(Program &, const std::vector<std::string> &);
int checkOmp(Program &, const std::vector<std::string> &);
int checkLoops(Program &, const std::vector<std::string> &);
int checkUni(Program &, const std::vector<std::string> &);
int checkRng(Program &, const std::vector<std::string> &);
int checkIo(Program &, const std::vector<std::string> &);
int checkSites(Program &, const std::vector<std::string> &);
int checkFin(Program &, const std::vector<std::string> &);
int checkBc(Program &, const std::vector<std::string> &);
int checkRes(Program &, const std::vector<std::string> &);
static std::map<std::string, CheckFn> CH = {{"comm", checkComm}, {"names", dumpNames}, {"args", checkArgs}, {"res", checkRes}, {"loops", checkLoops}, {"omp", checkOmp}, {"uni", checkUni}, {"bc", checkBc}, {"rng", checkRng}, {"io", checkIo}, {"sites", checkSites}, {"fin", checkFin}, {"lat", checkLat}, {"mark", checkMark}, {"halo", checkHalo}, {"reqs", checkReqs}};

int main(int argc, char **argv) {
    if (argc < 3) { std::cerr << "irc check[,key=value...] files\n"; return 3; }
    std::vector<std::string> args, files;
    std::string s = argv[1];
    size_t p = 0;
    for (;;) { size_t q = s.find(',', p); args.push_back(s.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; }
    for (int i = 2; i < argc; i++) files.push_back(argv[i]);
    auto it = CH.find(args[0]);
    if (it == CH.end()) { std::cerr << "unknown check " << args[0] << "\n"; return 3; }
    Program P;
    std::string err;
    if (!P.load(files, err)) { std::cerr << "load: " << err << "\n"; return 3; }
    long nf = 0, ni = 0;
    for (auto *F : P.functions()) { nf++; ni += F->getInstructionCount(); }
    stat_("modules", files.size());
    stat_("functions", nf);
    stat_("instructions", ni);
    args.erase(args.begin());
    int rc = it->second(P, args);
    std::cout << "DONE\n";
    return rc;
}

int dumpNames(Program &P, const std::vector<std::string> &a) {
    for (auto *F : P.functions()) {
        if (P.isStd(F)) continue;
        std::cout << P.q(F) << "   <-  " << P.dem(F).substr(0, 150) << "\n";
    }
    return 0;
}

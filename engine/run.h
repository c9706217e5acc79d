#pragma once
#include <array>
#include "expr.h"
#include "solver.h"
struct Options
{
    bool merge = true, mergeMixed = true; size_t adaptive = 40; unsigned mergeWidth = 64; size_t maxFork = 600; u32 maxIter = 100000; u64 maxSteps = 20000000;
    int maxPerSite = 1; size_t stopFirst = 0; double timeLimit = 0; std::string out; std::vector<u64> params; std::vector<std::string> refs; int witnesses = 24; bool verbose = false; bool pure = true, pureUnary = false, clean = false, poolStrings = false;
    std::string entry = "vf_main"; u64 seed = 1;
};
extern Options opt;
struct Violation { std::string kind, msg, loc; std::vector<std::array<u64, 4>> values; };
struct Witness { std::vector<std::array<u64, 4>> values; std::vector<u64> outs; std::vector<int> reached; };
struct Report
{
    std::vector<Violation> violations; std::map<std::string, int> seenViol; std::vector<Witness> witnesses; std::set<int> reached;
    u64 checks = 0, assertsTrivial = 0, assertQueries = 0, auxVars = 0, paths = 0, assumesPruned = 0; std::map<std::string, u64> fnCalls; std::set<std::string> stubs;
};
extern Report rep;
struct StopRun {}; struct TimeUp {};
struct SymVar { u64 ord, lo, hi; Var* var; };
extern std::vector<SymVar> symVars;
double elapsed();

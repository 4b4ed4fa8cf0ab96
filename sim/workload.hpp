// Self-contained operations over recordings, result files, tools and arrays (C11, C12).
#pragma once
#include "results.hpp"

namespace sim {
struct Ctx { // what the operations need besides the code under test
    std::map<int, Rec> recs;
    std::map<int, MRes> res;
    void setup(const Plan &p);
};
bool is_setup(const Op &o);
// one operation; whatever it makes is dropped when it returns; what it saw is appended to log
void run_op(Ctx &C, const Op &op, std::string &log);
struct GenOps { int task = -1; bool rand = true; };
void gen_ops(Rng &r, Plan &p, int n, const GenOps &g);
} // namespace sim

// C12: unrelated tasks never influence each other.
#include "workload.hpp"

using namespace sim;
namespace {
struct Step { int id; std::string name, log, kinds; bool threw = false; };
std::vector<const Op *> ops_of(Ctx &C, const Plan &p, int task) {
    std::vector<const Op *> v;
    for (auto &op : p.ops) {
        if (is_setup(op) || op.i("task") != task) continue;
        if (op.name == "write" && !C.res.count((int)op.i("res"))) continue;
        v.push_back(&op);
    }
    return v;
}
Step run_step(Ctx &C, const Op &op) {
    Step s;
    s.id = op.id;
    s.name = op.name;
    Outcome o;
    {
        OpScope sc(op.id);
        o = guarded([&] { run_op(C, op, s.log); });
    }
    s.threw = o.threw;
    s.kinds = fired_kinds_in_op(op.id);
    if (o.threw) s.log += " failed: " + o.what.substr(0, o.what.find("\nstack:")); // kj appends return addresses
    return s;
}
std::vector<Step> run_task(Ctx &C, const Plan &p, int task) { // one task's operations, in order
    HarnessScope hs;
    std::vector<Step> v;
    for (auto *op : ops_of(C, p, task)) v.push_back(run_step(C, *op));
    return v;
}
// the tasks take turns on one thread, operation by operation
std::vector<std::vector<Step>> take_turns(Ctx &C, const Plan &p, int n) {
    std::vector<std::vector<Step>> got(n);
    std::vector<std::vector<const Op *>> todo;
    for (int k = 0; k < n; ++k) todo.push_back(ops_of(C, p, k));
    std::vector<size_t> at(n);
    int cur = 0;
    for (int turn = 0;; ++turn) {
        for (auto &s : p.sched) if (s.first == turn && s.second < n && at[s.second] < todo[s.second].size() && s.second != cur) { cur = s.second; ++R->switches; }
        for (int k = 0; k < n && at[cur] >= todo[cur].size(); ++k) cur = (cur + 1) % n;
        if (at[cur] >= todo[cur].size()) break;
        got[cur].push_back(run_step(C, *todo[cur][at[cur]++]));
        R->yields = turn + 1;
    }
    return got;
}
void execute(const Plan &p) {
    HarnessScope hs;
    Ctx C;
    C.setup(p);
    int n = (int)p.opt("tasks", 2);
    ref_start([&](const std::string &req) -> std::string { // a task alone, nothing failing
        auto v = run_task(C, p, std::stoi(req));
        Out o;
        for (auto &s : v) o.pod(s.id).str(s.log);
        return o.s;
    });
    std::vector<std::map<int, std::string>> alone(n);
    for (int k = 0; k < n; ++k) {
        std::string a = ref_ask(std::to_string(k));
        In i(a);
        while (i.p + 4 <= a.size()) { int id = i.pod<int>(); alone[k][id] = i.str(); }
    }
    std::vector<std::vector<Step>> got(n);
    std::vector<bool> fin(n, true);
    if (p.opt("turns")) {
        got = take_turns(C, p, n);
        probe(4);
    } else {
        std::vector<std::function<void()>> fns;
        for (int k = 0; k < n; ++k) fns.push_back([&, k] { got[k] = run_task(C, p, k); });
        auto f = TaskSet::run(fns, true);
        fin.assign(f.begin(), f.end());
    }
    for (int k = 0; k < n; ++k) {
        if (!fin[k]) violate("harness", "a task did not finish");
        for (auto &s : got[k]) {
            checked();
            const std::string &want = alone[k][s.id];
            if (s.log == want) { probe(0); if (s.threw) probe(2); if (!s.kinds.empty()) probe(3); continue; }
            if (s.kinds.empty()) {
                size_t q = 0;
                while (q < s.log.size() && q < want.size() && s.log[q] == want[q]) ++q;
                violate("differs:" + s.name, strf("op %d %s of task %d, undisturbed itself, gave '%s' where it gives '%s' when its task runs alone", s.id, s.name.c_str(), k, s.log.substr(q > 40 ? q - 40 : 0, 300).c_str(), want.substr(q > 40 ? q - 40 : 0, 300).c_str()));
            }
            if (!s.threw) violate("fault:" + s.name, strf("op %d %s of task %d [%s] ended normally with '%s' instead of '%s'", s.id, s.name.c_str(), k, s.kinds.c_str(), s.log.substr(0, 300).c_str(), want.substr(0, 300).c_str()));
            probe(1);
            break; // what follows in this task may rest on the failed operation
        }
    }
    if (open_sim_fds()) violate("fd", strf("%d descriptors are still open after all tasks", open_sim_fds()));
}
Plan generate(uint64_t seed, bool thorough) {
    Rng r(mix(seed, 12));
    Plan p;
    int n = 2 + (int)r.below(2);
    p.opts["tasks"] = std::to_string(n);
    if (r.chance(0.35)) p.opts["turns"] = "1";
    bool twins = r.chance(0.45); // all tasks go through the same operations, over data of their own
    Rng start = r;
    for (int k = 0; k < n; ++k) {
        GenOps g;
        g.task = k;
        g.rand = false; // tasks draw from one entropy source
        if (twins) r = start;
        size_t from = p.ops.size();
        gen_ops(r, p, 1 + (int)r.below(thorough ? 6 : 4), g);
        if (!twins || !k) continue;
        Rng q(mix(seed, 1200 + k));
        for (size_t i = from; i < p.ops.size(); ++i) {
            auto &o = p.ops[i];
            if (o.name == "rec") {
                o.set("seed", q.below(100000)).set("T", 4 << q.below(2));
                if (q.chance(0.5)) o.setd("foff", (q.chance(0.6) ? -1 : 1) * (double)q.range(750, 3000) / (1 << 28)).setd("tsamp", 1 + 0.5 * (double)q.below(30));
            } else if (o.name == "res") o.set("seed", q.below(1000000));
            else if (o.name == "arr" && q.chance(0.7)) o.set("a", 1 + (int64_t)q.below(9)).set("b", 1 + (int64_t)q.below(20));
        }
    }
    return p;
}
Property c12() {
    Property p;
    p.id = "C12";
    p.what = "unrelated tasks";
    p.generate = generate;
    p.execute = execute;
    p.kinds[C_READ] = {"short", "eio", "eintr"};
    p.kinds[C_WRITE] = {"short", "enospc", "eintr"};
    p.kinds[C_OPEN] = {"emfile", "eacces"};
    p.kinds[C_CLOSE] = {"eio", "enospc"};
    p.kinds[C_SEEK] = {"eio"};
    p.kinds[C_STAT] = {"eio"};
    p.kinds[C_ALLOC] = {"fail"};
    p.kinds[C_NEW] = {"fail"};
    p.faultable = [](const Op &o) { return !is_setup(o); };
    p.fault_runs = 0;
    p.schedules = true;
    p.sched_runs = 9;
    p.max_faults = 2;
    p.quick_plans = 1700;
    p.thorough_plans = 30000;
    p.probe_names = {"operations equal to their task alone", "operations failed by a fault of their own", "failing operations that failed the same way alone", "operations that absorbed a fault", "runs in which the tasks take turns on one thread"};
    p.real_components = "every operation of bland and bliss over files, the three tools, HDF5, Cap'n Proto";
    p.stub_components = "threads: real threads of which the simulator lets one run at a time, with read-write locks and once-initialisation simulated; disk: in-memory files with fault injection; allocator wrapped";
    p.rule = "two or three tasks with files and arrays of their own run on threads that switch at file operations, allocations (of arrays and of objects) and between any two basic blocks of bliss and bland as the seeded schedule says (or take turns on one thread, operation by operation); every operation must report exactly what it reports when its task runs alone, except operations struck by a fault of their own.";
    return p;
}
Register r12(c12());
} // namespace

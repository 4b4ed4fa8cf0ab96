// C11: operations give back every resource they take, also when they fail.
#include "workload.hpp"
#include <hdf5.h>

using namespace sim;
namespace {
constexpr int ROUNDS = 5; // the first one warms caches up
struct Snap { MemStat m; int fds = 0; int64_t h5 = 0, ids = 0; std::string log; };
int64_t h5_ids() { // handles still open, of those made since the last call: a kind's numbers only ever go up
    static hid_t last[3] = {-1, -1, -1};
    int64_t n = 0;
    hid_t now[3] = {H5Screate(H5S_SCALAR), H5Tcopy(H5T_NATIVE_INT), H5Pcreate(H5P_DATASET_XFER)};
    for (int k = 0; k < 3; ++k) {
        if (last[k] > 0) for (hid_t i = last[k] + 1; i < now[k]; ++i) n += H5Iis_valid(i) > 0;
        last[k] = now[k];
    }
    H5Sclose(now[0]);
    H5Tclose(now[1]);
    H5Pclose(now[2]);
    return n;
}
Snap snap(const std::string &log, const Snap *before) {
    HarnessScope h;
    H5garbage_collect();
    Snap s;
    s.m = mem_live();
    s.fds = open_sim_fds();
    s.h5 = H5Fget_obj_count(H5F_OBJ_ALL, H5F_OBJ_FILE | H5F_OBJ_DATASET | H5F_OBJ_GROUP | H5F_OBJ_ATTR);
    s.ids = h5_ids() + (before ? before->ids : 0);
    s.log = log;
    return s;
}
void compare(const std::vector<Snap> &v, const std::string &what) {
    const Snap &first = v[1];
    for (size_t k = 0; k < v.size(); ++k) {
        checked();
        if (v[k].fds) violate("fd", what + strf(": %d descriptors are still open after round %zu, when everything was dropped", v[k].fds, k));
        if (v[k].h5 > 0) violate("h5-object", what + strf(": %lld HDF5 objects are still open after round %zu", (long long)v[k].h5, k));
    }
    for (size_t k = 2; k < v.size(); ++k) if (v[k].log != first.log) { probe(3); return; } // rounds took different courses
    auto grow = [&](const char *name, auto get) {
        checked();
        for (size_t k = 2; k < v.size(); ++k) if (get(v[k]) <= get(v[k - 1])) return;
        std::string s;
        for (size_t k = 1; k < v.size(); ++k) s += strf(" %lld", (long long)get(v[k]));
        violate(std::string("growth:") + name, what + ": live " + name + " after each round with the same outcome:" + s + " (outcome" + first.log.substr(0, 600) + ")");
    };
    grow("array blocks", [](const Snap &s) { return s.m.n_arr; });
    grow("array bytes", [](const Snap &s) { return s.m.b_arr; });
    grow("objects", [](const Snap &s) { return s.m.n_new; });
    grow("object bytes", [](const Snap &s) { return s.m.b_new; });
    grow("malloc blocks", [](const Snap &s) { return s.m.n_mal; });
    grow("HDF5 handles", [](const Snap &s) { return s.ids; });
    probe(0);
}
void execute(const Plan &p) {
    HarnessScope hs;
    std::vector<Snap> v;
    if (p.opt("world")) {
        World w(p);
        w.setup();
        for (int k = 0; k < ROUNDS; ++k) {
            std::string log;
            for (auto &op : p.ops) {
                w.step(op);
                log += strf(" %d%s", op.id, fired_kinds_in_op(op.id).c_str());
            }
            { OpScope s(MAXOPS, false); w.objs.clear(); w.ccs.clear(); }
            v.push_back(snap(log, v.empty() ? nullptr : &v.back()));
            if (getenv("SIM_LEAK")) { if (k == 2) leak_trace(true); if (k == 3) leak_report(); }
        }
        compare(v, "history");
        probe(1);
        return;
    }
    Ctx C;
    C.setup(p);
    for (int k = 0; k < ROUNDS; ++k) {
        std::string log;
        for (auto &op : p.ops) {
            if (is_setup(op)) continue;
            if (op.name == "write" && !C.res.count((int)op.i("res"))) continue;
            log += strf(" | %d %s", op.id, op.name.c_str());
            Outcome o;
            {
                OpScope s(op.id);
                o = guarded([&] { run_op(C, op, log); });
            }
            if (o.threw) log += " failed: " + o.what.substr(0, 80);
            log += " " + fired_kinds_in_op(op.id);
            if (o.threw && k == 0) probe(2);
            if (open_sim_fds()) violate("fd", strf("op %d %s [%s]%s: %d descriptors are still open after it %s", op.id, op.name.c_str(), fired_kinds_in_op(op.id).c_str(), op.s("f").c_str(), open_sim_fds(), o.threw ? ("failed: " + o.what).c_str() : "ended"));
        }
        v.push_back(snap(log, v.empty() ? nullptr : &v.back()));
        if (getenv("SIM_LEAK")) { if (k == 2) leak_trace(true); if (k == 3) leak_report(); }
    }
    compare(v, "operations");
}
Plan generate(uint64_t seed, bool thorough) {
    Rng r(mix(seed, 11));
    if (r.chance(0.3)) {
        WorldMix m;
        m.pipeline = r.chance(0.7);
        m.min_ops = 4;
        m.max_ops = 12;
        m.bad = 0.6;
        m.dev = 0.8;
        m.max_recs = 2;
        m.events = 0.5;
        Plan p = r.chance(0.2) ? gen_cadence(seed, false) : gen_world(seed, thorough, m);
        p.opts["world"] = "1";
        return p;
    }
    Plan p;
    gen_ops(r, p, 1 + (int)r.below(thorough ? 8 : 5), GenOps{});
    return p;
}
Property c11() {
    Property p;
    p.id = "C11";
    p.what = "resources given back";
    p.generate = generate;
    p.execute = execute;
    p.kinds[C_READ] = {"eio", "short"};
    p.kinds[C_OPEN] = {"emfile", "eacces", "enospc"};
    p.kinds[C_STAT] = {"eio"};
    p.kinds[C_SEEK] = {"eio"};
    p.kinds[C_WRITE] = {"enospc", "eio", "short"};
    p.kinds[C_CLOSE] = {"eio", "edquot"};
    p.kinds[C_ALLOC] = {"fail", "fail"};
    p.kinds[C_NEW] = {"fail", "fail"};
    p.kinds[C_CALLBACK] = {"fail"};
    p.faultable = [](const Op &o) { return !is_setup(o); };
    // a file HDF5 cannot close stays in its tables: the library's, and out of reach of the code under test
    p.class_ok = [](const Op &o, int c) { return c != C_CLOSE || o.name == "write" || o.name == "read" || o.name == "convert" || o.name == "gen" || o.name == "arr"; };
    p.fault_runs = 4;
    p.max_faults = 2;
    p.quick_plans = 1100;
    p.thorough_plans = 40000;
    p.probe_names = {"runs whose rounds took the same course", "object histories repeated", "failing operations repeated", "runs whose rounds differed (only descriptors judged)"};
    p.real_components = "every operation of bland and bliss over files, the three tools, HDF5, Cap'n Proto";
    p.stub_components = "disk: in-memory files with fault injection; allocator wrapped for accounting and failures";
    p.rule = "a seeded list of operations is repeated five times in one process with the same faults at the same points, dropping every object each round; descriptors and HDF5 objects must be back to none after every round, and live array and object memory must not grow from round to round.";
    return p;
}
Register r11(c11());
} // namespace

// C01, C02, C03: histories over scans, targets, cadences and channels.
#include "world.hpp"

using namespace sim;
namespace {
void execute(const Plan &p) {
    World w(p);
    w.run();
}
std::vector<const char *> probes() {
    return {"operations struck by a fault", "operations that failed and were repeated", "operations that absorbed a fault", "reads whose stages fail", "drift planes compared", "non-empty hit lists compared", "devices refused",
            "out-of-range requests", "multi-channel hit unions", "event searches", "events found"};
}
const char *real = "bliss core, flaggers, preprocess, estimators, drift_search, file_types, bland and HDF5 (real code, real library)";
const char *stub = "disk: in-memory files with fault injection; allocator failures and memory contents simulated; no CUDA device";
Property c01() {
    Property p;
    p.id = "C01";
    p.what = "evaluation history";
    p.generate = [](uint64_t s, bool t) {
        WorldMix m;
        m.pipeline = true;
        m.stage = 2.5;
        m.read = 4;
        m.get = 5;
        m.hits = 1.5;
        m.bad = 0.05;
        return gen_world(s, t, m);
    };
    p.execute = execute;
    p.kinds[C_READ] = {"short", "eintr"};
    p.fault_runs = 1;
    p.max_faults = 3;
    p.quick_plans = 4500;
    p.thorough_plans = 60000;
    p.probe_names = probes();
    p.real_components = real;
    p.stub_components = stub;
    p.rule = "seeded histories of opens, stagings, copies, slices, groupings, reads and repeated product requests over generated recordings; every product compared with a fresh single evaluation made by a pristine process with every stage applied once and materialised.";
    return p;
}
Property c02() {
    Property p = c01();
    p.id = "C02";
    p.what = "isolation of copies and slices";
    p.generate = [](uint64_t s, bool t) {
        WorldMix m;
        m.pipeline = (s % 3) == 0;
        m.slice = 3;
        m.copy = 2;
        m.stage = 2;
        m.read = 4;
        m.get = 2;
        m.hits = 0.6;
        m.meta = 2;
        m.bad = 1;
        m.dev = 1;
        m.group = 2.5;
        m.ccops = 1.5;
        m.assemble = 0.6;
        return gen_world(s, t, m);
    };
    p.quick_plans = 8000;
    p.thorough_plans = 200000;
    p.rule = "seeded trees of copies, slices, groupings, device changes and stagings, interleaved with evaluations; every object's metadata, lookups and channels are compared with the recording's geometry and with fresh single evaluations.";
    return p;
}
Property c03() {
    Property p = c01();
    p.id = "C03";
    p.what = "failed evaluations";
    p.generate = [](uint64_t s, bool t) {
        WorldMix m;
        m.pipeline = true;
        m.min_ops = 6;
        m.max_ops = 20;
        m.dev = 0.8;
        return gen_world(s, t, m);
    };
    p.kinds[C_READ] = {"eio", "eio", "short"};
    p.kinds[C_OPEN] = {"emfile", "eacces", "eio"};
    p.kinds[C_STAT] = {"eio"};
    p.kinds[C_SEEK] = {"eio"};
    p.kinds[C_ALLOC] = {"fail"};
    p.kinds[C_NEW] = {"fail"};
    p.fault_runs = 12;
    p.max_faults = 3;
    p.quick_plans = 2500;
    p.thorough_plans = 40000;
    p.rule = "as C01, each history also run with I/O errors, truncated reads, refused opens and allocation failures placed at counted calls inside its operations; a failing operation is repeated at once without faults and must then equal the undisturbed evaluation.";
    return p;
}
Property c15() {
    Property p = c03();
    p.id = "C15";
    p.what = "event search";
    p.generate = gen_cadence;
    p.fault_runs = 4;
    p.quick_plans = 1500;
    p.thorough_plans = 40000;
    p.rule = "seeded cadences with a target observed one to three times and others in between, staged at scan, target or cadence level, searched repeatedly between reads, copies, slices and device changes; events compared with a search over channels each evaluated once and alone, their hits with those of the ON scans; fault runs fail storage or memory inside the search.";
    return p;
}
Register r1(c01()), r2(c02()), r3(c03()), r15(c15());
} // namespace

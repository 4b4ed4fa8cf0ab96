// C07: .dat reports are complete and agree with the hits they were made from.
#include "results.hpp"
#include <file_types/cpnp_files.hpp>
#include <file_types/dat_file.hpp>
#include <file_types/hits_file.hpp>

using namespace sim;
extern "C" int bliss_hits_to_dat_main(int, char **);
namespace {
void execute(const Plan &p) {
    for (auto &op : p.ops) {
        HarnessScope hs;
        if (op.name == "reader") continue;
        std::string path = "/simdisk/" + op.s("path", "r.dat");
        if (op.name == "put") { // something is already there
            disk_put(path, std::vector<uint8_t>(op.i("n"), 'x'));
            continue;
        }
        MRes m;
        std::shared_ptr<bliss::scan> sc;
        if (op.i("real")) sc = real_scan(op, 0xffff, m);
        else {
            m = make_result("scan", (uint64_t)op.i("seed"), op.i("n"));
            OpScope s(op.id, false);
            sc = std::make_shared<bliss::scan>(build_scan(m.obs[0][0]));
        }
        std::vector<bliss::hit> hits;
        bool tool = op.name == "tool";
        for (auto &c : m.obs[0][0]) for (auto &h : c.hits) hits.push_back(tool ? stored(h) : h);
        if (!hits.empty()) probe(3);
        MChan md = m.obs[0][0][0];
        std::string in = "/simdisk/in" + std::to_string(op.id) + ".capnp", where = strf("op %d %s (%zu hits)", op.id, op.name.c_str(), hits.size());
        int rc = 0;
        auto run = [&](bool faults) {
            OpScope s(op.id, faults);
            return guarded([&] {
                if (tool) {
                    std::vector<std::string> a = {"bliss_hits_to_dat", op.i("long") ? "--input" : "-i", in};
                    if (op.i("out")) a.insert(op.i("first") ? a.begin() + 1 : a.end(), {op.i("long") ? "--output" : "-o", path});
                    switch (op.i("bad")) { // command lines the tool cannot understand
                    case 1: a.resize(1); break;
                    case 2: a.push_back("--nosuch"); break;
                    case 3: a.push_back("extra"); break;
                    case 4: a.push_back("-o"); if (op.i("out")) a.push_back("-o"); break;
                    case 5: a = {a[0], "-i"}; break;
                    case 6: a = {a[0], "-o", path}; break;
                    }
                    std::vector<char *> av;
                    for (auto &x : a) av.push_back(&x[0]);
                    av.push_back(nullptr);
                    rc = bliss_hits_to_dat_main((int)a.size(), av.data());
                } else if (op.i("form") == 0) bliss::write_scan_hits_to_dat_file(*sc, path);
                else if (op.i("form") == 1) bliss::write_scan_hits_to_file(*sc, path, "dat");
                else bliss::write_scan_hits_to_file(*sc, path); // by extension
            });
        };
        if (tool) {
            if (!op.i("out")) path = "/simdisk/cwd/in" + std::to_string(op.id) + ".dat";
            OpScope s(op.id, false);
            auto o = guarded([&] { bliss::write_scan_hits_to_capnp_file(*sc, in); });
            if (o.threw) violate("write:refused", where + ": writing the input failed: " + o.what);
            std::string mode = op.s("input");
            if (mode == "absent") disk_remove(in);
            if (mode == "cut") { auto f = disk_get(in); std::vector<uint8_t> b(f->bytes.begin(), f->bytes.begin() + op.i("by") % f->bytes.size()); disk_put(in, b); }
            if (op.i("bad")) {
                auto x = run(false); // (the manual is printed by functions that may not fail)
                checked();
                probe(6);
                if (!x.threw && rc == 0) violate("status:command", where + strf(": exit status 0 although the command line cannot be understood (%d)", (int)op.i("bad")));
                continue;
            }
            if (mode == "absent" || mode == "cut") {
                auto x = run(true);
                checked();
                probe(4);
                if (!x.threw && rc == 0) violate("tool:input", where + ": an input that is " + mode + " was converted with exit status 0");
                continue;
            }
        }
        auto o = run(true);
        checked();
        bool hard = hard_fault_in_op(op.id);
        std::string kinds = fired_kinds_in_op(op.id);
        if (o.threw || rc) {
            if (!hard) violate("refused", where + strf(": failed with nothing refused [%s]: status %d ", kinds.c_str(), rc) + o.what);
            probe(1);
            rc = 0;
            o = run(false);
            if (o.threw || rc) violate("retry", where + ": still fails when repeated without faults: " + o.what);
        } else if (!kinds.empty() && !hard) probe(0);
        auto f = disk_get(path);
        if (!f) violate("missing", where + " [" + kinds + "]: reported success but there is no " + path);
        std::string d = report_diff(std::string(f->bytes.begin(), f->bytes.end()), md, md.foff, hits);
        if (!d.empty()) violate("incomplete", where + " [" + kinds + "]: reported success but the report does not hold the scan's hits: " + d);
        probe(2);
        note(strf("d %zu", f->bytes.size()));
        if (!op.i("back")) continue;
        // reading the report back: its header's values, or a failure if it cannot be read
        std::shared_ptr<bliss::scan> got;
        auto back = [&](bool faults) { OpScope s(op.id + 1, faults); return guarded([&] { got = std::make_shared<bliss::scan>(bliss::read_scan_hits_from_dat_file(path)); }); };
        auto b = back(true);
        checked();
        kinds = fired_kinds_in_op(op.id + 1);
        if (b.threw) {
            if (!hard_fault_in_op(op.id + 1)) violate("reader:refused", where + ": reading the report back failed with nothing refused [" + kinds + "]: " + b.what);
            b = back(false);
            if (b.threw) violate("reader:retry", where + ": reading the report back still fails when repeated without faults: " + b.what);
        }
        auto off = [](double a, double b, double tol) { return !(std::fabs(a - b) <= tol) && !(std::isnan(a) && std::isnan(b)) && a != b; };
        if (off(got->tstart(), md.tstart, std::fabs(md.tstart) * 1e-12) || off(got->tsamp(), md.tsamp, 6e-7 + std::fabs(md.tsamp) * 1e-9) || off(got->foff(), md.foff, 6e-13 + std::fabs(md.foff) * 1e-9))
            violate("reader:header", where + " [" + kinds + strf("]: the report read back says it starts at %.17g, sampled every %.9g s in channels of %.9g MHz; it was written for %.17g, %.9g and %.9g", got->tstart(), got->tsamp(), got->foff(), md.tstart, md.tsamp, md.foff));
        probe(5);
    }
}
Plan generate(uint64_t seed, bool thorough) {
    Rng r(mix(seed, 7));
    Plan p;
    int n = 1 + (int)r.below(thorough ? 6 : 4);
    for (int k = 0; k < n; ++k) {
        static const char *paths[] = {"r.dat", "s.dat", "t.dat"};
        std::string path = paths[r.below(3)];
        if (r.chance(0.2)) p.add("put").set("path", path).set("n", r.below(20000));
        auto &o = p.add(r.chance(0.5) ? "dat" : "tool");
        o.set("path", path).set("form", r.below(3)).set("out", r.chance(0.7));
        if (o.name == "dat" && o.i("form") == 1) o.set("path", "report.txt");
        if (r.chance(0.2)) {
            int64_t nco = 1 + r.below(3);
            o.set("real", 1).set("fpc", 32 << r.below(2)).set("nco", nco).set("T", 8).set("seed", (int64_t)(r.next() % 100000000)).set("tones", 3).set("layout", 0).set("slice", r.chance(0.3)).set("off", r.below(8)).set("cnt", r.below(8)).set("stages", real_stages(r)).set("lazy", r.chance(0.7));
        } else {
            double u = r.unit();
            o.set("seed", (int64_t)(r.next() % 100000000)).set("n", u < 0.15 ? 0 : u < 0.7 ? 1 + (int64_t)r.below(20) : u < 0.95 ? (int64_t)r.below(300) : (int64_t)r.below(3000));
        }
        bool back = r.chance(0.4);
        if (back) o.set("back", 1);
        if (o.name == "tool" && r.chance(0.15)) o.set("input", r.chance(0.3) ? "absent" : "cut").set("by", r.below(1 << 20));
        if (o.name == "tool") { o.set("long", r.chance(0.3)).set("first", r.chance(0.3)); if (r.chance(0.03)) o.set("bad", 1 + (int64_t)r.below(6)); }
        if (back) p.add("reader"); // the number of its reading
    }
    return p;
}
Property c07() {
    Property p;
    p.id = "C07";
    p.what = "dat reports";
    p.generate = generate;
    p.execute = execute;
    p.kinds[C_READ] = {"short", "eintr", "eio"};
    p.kinds[C_OPEN] = {"eio", "eacces", "emfile", "enospc"};
    p.kinds[C_STAT] = {"eio"};
    p.kinds[C_WRITE] = {"short", "short", "eintr", "enospc", "eio", "edquot"};
    p.kinds[C_CLOSE] = {"eio", "enospc", "edquot"};
    p.kinds[C_NEW] = {"fail"};
    p.kinds[C_ALLOC] = {"fail"};
    p.fault_runs = 6;
    p.max_faults = 3;
    p.quick_plans = 3000;
    p.thorough_plans = 100000;
    p.probe_names = {"reports split or interrupted and complete", "operations failed by a fault", "reports parsed and compared", "scans with hits", "unreadable inputs refused", "reports read back", "command lines refused"};
    p.real_components = "write_scan_hits_to_dat_file, write_scan_hits_to_file, bliss_hits_to_dat (its main), the Cap'n Proto reader and the search pipeline";
    p.stub_components = "disk: in-memory files with fault injection";
    p.rule = "seeded scans (synthetic, or searched recordings evaluated while the report is written) are reported over short, interrupted, refused and lost writes and failing reads; every report that claimed success is parsed row by row and compared with the hits.";
    return p;
}
Register r07(c07());
} // namespace

// C05: result files are complete and read back.  C06: readers of cut-off or failing result files are honest.
#include "results.hpp"
#include <file_types/cpnp_files.hpp>
#include <file_types/dat_file.hpp>

using namespace sim;
namespace {
const char *KINDS[] = {"hits", "hits", "events", "events", "chan", "scan", "scan", "target", "cadence"};

struct FileState {
    enum { ABSENT, WHOLE, PARTIAL, UNKNOWN } st = ABSENT;
    MRes given; // of the last write
};
struct Run {
    const Plan &p;
    bool c06;
    std::map<std::string, FileState> files;
    Run(const Plan &q, bool six) : p(q), c06(six) {}

    // reads without faults and compares; what: "" or the reason it differs
    std::string compare(const std::string &path, const MRes &given, int form, MRes *out = nullptr) {
        MRes got;
        Outcome o = guarded([&] { got = read_result(given.kind, path, form); });
        checked();
        if (o.threw) return "reading it failed: " + o.what;
        if (out) *out = got;
        return result_diff(got, stored(given));
    }
    void write(const Op &op) {
        std::string path = "/simdisk/" + op.s("path");
        MRes m = make_result(op.s("kind"), (uint64_t)op.i("seed"), op.i("n"));
        int form = (int)op.i("form");
        std::string where = strf("op %d write %s (%lld) to %s", op.id, m.kind.c_str(), (long long)op.i("n"), path.c_str());
        bool crash = false;
        for (auto &f : p.faults) if (f.op == op.id && f.kind == "crash") crash = true;
        FileState &fs = files[path], old = fs;
        auto before = disk_get(path);
        std::vector<uint8_t> old_bytes = before ? before->bytes : std::vector<uint8_t>();
        Outcome o;
        bool finished = true;
        auto body = [&] { OpScope s(op.id); o = guarded([&] { write_result(m, path, form); }); };
        if (crash) finished = TaskSet::run({body}, false)[0];
        else body();
        fs.given = m;
        if (!finished) { fs.st = FileState::PARTIAL; probe(8); return; }
        bool hard = hard_fault_in_op(op.id);
        std::string kinds = fired_kinds_in_op(op.id);
        checked();
        if (o.threw) {
            if (!hard) violate("write:refused", where + " failed with nothing refused [" + kinds + "]: " + o.what);
            probe(1);
            fs.st = FileState::PARTIAL;
            auto now = disk_get(path);
            if (!now || (before && now->bytes == old_bytes)) fs = old; // nothing was touched
            if (c06) return;
            fs.given = m;
            // storage works again: the same write succeeds
            OpScope s(op.id, false);
            o = guarded([&] { write_result(m, path, form); });
            if (o.threw) violate("write:retry", where + " still fails when repeated without faults: " + o.what);
        } else if (!kinds.empty() && !hard) probe(0);
        fs.st = FileState::WHOLE;
        OpScope s(op.id, false);
        std::string d = compare(path, m, form);
        if (!d.empty()) violate("write:incomplete", where + " returned normally [" + kinds + "] but the file does not hold what was given: " + d);
        probe(2);
        note(strf("w %s %zu", m.kind.c_str(), disk_get(path)->bytes.size()));
    }
    void read(const Op &op) {
        std::string path = "/simdisk/" + op.s("path");
        FileState &fs = files[path];
        auto f = disk_get(path);
        std::string where = strf("op %d read %s", op.id, path.c_str());
        std::string kind = fs.st == FileState::ABSENT ? op.s("kind") : fs.given.kind;
        int form = (int)op.i("form");
        MRes got;
        Outcome o;
        { OpScope s(op.id); o = guarded([&] { got = read_result(kind, path, form); }); }
        checked();
        bool hard = hard_fault_in_op(op.id);
        std::string kinds = fired_kinds_in_op(op.id);
        where += " as " + kind + (kinds.empty() ? "" : " [" + kinds + "]");
        if (!f) {
            if (!o.threw) violate("read:absent", where + ": an absent file was read");
            probe(3);
            return;
        }
        if (fs.st == FileState::UNKNOWN || fs.st == FileState::ABSENT) return;
        size_t whole = whole_messages(f->bytes), total = record_count(fs.given);
        bool list = kind == "hits" || kind == "events", complete = whole >= total && (fs.st == FileState::WHOLE || whole == total);
        where += strf(" (%zu bytes, %zu of %zu records)", f->bytes.size(), whole, total);
        if (o.threw) {
            if (hard) { probe(4); return; }
            if (list || complete) violate("read:refused", where + ": failed although " + (list ? "the complete records are readable: " : "it is whole: ") + o.what);
            probe(5);
            return;
        }
        // it returned: everything durable, exactly as given, in order
        MRes want = stored(fs.given);
        if (list) {
            size_t n = kind == "hits" ? got.hits.size() : got.events.size();
            if (n < whole || n > total) violate("read:count", where + strf(": returned %zu records", n));
            want.hits.resize(std::min(n, want.hits.size()));
            want.events.resize(std::min(n, want.events.size()));
            if (n < total) probe(6);
        } else if (!complete) violate("read:partial", where + ": returned a result from a file that was not completely written");
        std::string d = result_diff(got, want);
        if (!d.empty()) violate("read:altered", where + ": " + d);
        probe(7);
        note(strf("r %zu %zu", whole, total));
    }
    void rewrite(const Op &op) { // reading and writing again gives the same result
        std::string path = "/simdisk/" + op.s("path"), to = "/simdisk/" + op.s("to");
        FileState &fs = files[path];
        if (fs.st != FileState::WHOLE || path == to) return;
        std::string where = strf("op %d copy %s %s -> %s", op.id, fs.given.kind.c_str(), path.c_str(), to.c_str());
        Outcome o;
        std::string k = fs.given.kind;
        auto copy = [&] {
            using namespace bliss;
            if (k == "hits") write_hits_to_capnp_file(read_hits_from_capnp_file(path), to);
            else if (k == "events") { auto m = read_result(k, path, 0); write_result(m, to, 0); }
            else if (k == "chan") write_coarse_channel_hits_to_capnp_file(read_coarse_channel_hits_from_capnp_file(path), to);
            else if (k == "scan") write_scan_hits_to_capnp_file(read_scan_hits_from_capnp_file(path), to);
            else if (k == "target") write_observation_target_hits_to_capnp_files(read_observation_target_hits_from_capnp_files(path), to);
            else write_cadence_hits_to_capnp_files(read_cadence_hits_from_capnp_files(path), to);
        };
        { OpScope s(op.id); o = guarded(copy); }
        checked();
        FileState &ts = files[to];
        if (o.threw) {
            if (!hard_fault_in_op(op.id)) violate("rewrite:refused", where + ": " + o.what);
            ts.st = disk_get(to) ? FileState::UNKNOWN : FileState::ABSENT;
            probe(1);
            return;
        }
        ts.st = FileState::WHOLE;
        ts.given = fs.given;
        OpScope s(op.id, false);
        std::string d = compare(to, fs.given, 0);
        if (!d.empty()) violate("rewrite:differs", where + " [" + fired_kinds_in_op(op.id) + "]: " + d);
        probe(9);
    }
    void real(const Op &op) { // a searched recording, written and read back
        std::string path = "/simdisk/" + op.s("path"), where = strf("op %d search and write", op.id);
        MRes m;
        int64_t mask = op.i("mask");
        auto sc = real_scan(op, mask, m);
        Outcome o;
        { OpScope s(op.id); o = guarded([&] { bliss::write_scan_hits_to_capnp_file(*sc, path); }); }
        checked();
        FileState &fs = files[path];
        fs.st = FileState::UNKNOWN;
        if (o.threw) {
            if (!hard_fault_in_op(op.id)) violate("write:refused", where + " failed with nothing refused: " + o.what);
            probe(1);
            OpScope s(op.id, false);
            o = guarded([&] { bliss::write_scan_hits_to_capnp_file(*sc, path); });
            if (o.threw) violate("write:retry", where + " still fails when repeated without faults: " + o.what);
        }
        size_t nh = 0;
        for (auto &c : m.obs[0][0]) nh += c.hits.size();
        if (nh) probe(10);
        OpScope s(op.id, false);
        std::string d = compare(path, m, 0);
        if (!d.empty()) violate("write:incomplete", where + strf(" (channels evaluated: %llx) returned normally but the file does not hold what was given: ", (unsigned long long)mask) + d);
        fs.st = FileState::UNKNOWN;
    }
    void step(const Op &op) {
        HarnessScope h;
        std::string path = "/simdisk/" + op.s("path");
        if (op.name == "write") write(op);
        else if (op.name == "read") read(op);
        else if (op.name == "copy") rewrite(op);
        else if (op.name == "real") real(op);
        else if (op.name == "cut") { // what was not durable is lost
            auto f = disk_get(path);
            if (!f || files[path].st == FileState::ABSENT) return;
            size_t n = f->bytes.size(), keep;
            std::string m = op.s("mode");
            if (m == "last") keep = n - std::min<size_t>(n, 1 + op.i("by") % 24);
            else if (m == "head") keep = std::min<size_t>(n, op.i("by") % 40);
            else if (m == "record") { // around the end of some record
                std::vector<uint8_t> b = f->bytes;
                size_t w = whole_messages(b);
                size_t lo = 0, hi = n, want = w ? op.i("by") % (w + 1) : 0;
                while (lo < hi) { // smallest length with `want` whole records
                    size_t mid = (lo + hi) / 2;
                    b.assign(f->bytes.begin(), f->bytes.begin() + mid);
                    if (whole_messages(b) >= want) hi = mid; else lo = mid + 1;
                }
                keep = std::min<size_t>(n, lo + op.i("by") / 7 % 9);
            } else keep = n ? op.i("by") % n : 0;
            std::vector<uint8_t> b(f->bytes.begin(), f->bytes.begin() + keep);
            disk_put(path, b);
            if (keep < n) files[path].st = FileState::PARTIAL;
        } else if (op.name == "remove") { disk_remove(path); files[path] = FileState(); }
    }
};
void execute5(const Plan &p) { Run r(p, false); for (auto &o : p.ops) r.step(o); }
void execute6(const Plan &p) { Run r(p, true); for (auto &o : p.ops) r.step(o); }

int64_t amount(Rng &r, bool thorough) {
    double u = r.unit();
    if (u < 0.1) return 0;
    if (u < 0.3) return 1;
    if (u < 0.75) return 2 + (int64_t)r.below(12);
    if (u < 0.97) return 14 + (int64_t)r.below(200);
    return 200 + (int64_t)r.below(thorough ? 4000 : 1200);
}
Plan gen(uint64_t seed, bool thorough, bool c06) {
    Rng r(mix(seed, c06 ? 6 : 5));
    Plan p;
    std::vector<std::string> paths = {"a.capnp", "b.cp", "c.capnp"};
    if (r.chance(0.3)) paths.push_back("plain");
    if (r.chance(0.3)) { static const char *odd[] = {"run.dat.capnp", "x.dat.cp", "h.capnp.old", "dat", "capnp", "a.b.capnp", ".cp"}; paths.push_back(odd[r.below(7)]); }
    if (r.chance(0.0015)) { // more than the default Cap'n Proto reading limit
        p.add("write").set("path", "a.capnp").set("kind", r.chance(0.5) ? "chan" : "events").set("n", 1000000).set("form", 0).set("seed", r.below(1000));
        if (c06) p.add("read").set("path", "a.capnp").set("form", 0).set("kind", "hits");
        return p;
    }
    int n = 2 + (int)r.below(thorough ? 10 : 6);
    for (int k = 0; k < n; ++k) {
        std::string path = paths[r.below(paths.size())];
        double u = r.unit();
        auto wr = [&] { p.add("write").set("path", path).set("kind", KINDS[r.below(9)]).set("n", amount(r, thorough)).set("form", r.below(12)).set("seed", (int64_t)(r.next() % 100000000)); };
        auto rd = [&] { p.add("read").set("path", path).set("form", r.below(8)).set("kind", KINDS[r.below(9)]); };
        if (!c06) {
            if (u < 0.62 || k == 0) wr();
            else if (u < 0.8) p.add("copy").set("path", path).set("to", paths[r.below(paths.size())]);
            else if (u < 0.9) rd();
            else {
                int64_t nco = 1 + r.below(4), fpc = 32 << r.below(2), T = 8;
                auto &o = p.add("real");
                o.set("path", path).set("fpc", fpc).set("nco", nco).set("T", T).set("seed", (int64_t)(r.next() % 100000000)).set("tones", 3).set("layout", 0).set("mask", r.chance(0.4) ? 255 : (int64_t)r.below(256));
                o.set("slice", r.chance(0.4)).set("off", r.below(8)).set("cnt", r.below(8)).set("stages", real_stages(r)).set("lazy", r.chance(0.5));
            }
        } else {
            if (k == 0 || u < 0.4) { wr(); rd(); if (r.chance(0.5)) rd(); }
            else if (u < 0.8) {
                static const char *modes[] = {"last", "head", "record", "record", "any"};
                p.add("cut").set("path", path).set("mode", modes[r.below(5)]).set("by", (int64_t)(r.next() % 1000000));
                rd();
            } else if (u < 0.86) p.add("remove").set("path", path);
            else rd();
        }
    }
    return p;
}
Property base(bool c06) {
    Property p;
    p.id = c06 ? "C06" : "C05";
    p.what = c06 ? "honest readers" : "durable results";
    p.generate = [c06](uint64_t s, bool t) { return gen(s, t, c06); };
    p.execute = c06 ? execute6 : execute5;
    p.kinds[C_READ] = {"short", "eintr", "eio", "eio"};
    p.kinds[C_OPEN] = {"eio", "eacces", "emfile", "enospc"};
    p.kinds[C_STAT] = {"eio"};
    p.kinds[C_NEW] = {"fail"};
    if (c06) {
        p.kinds[C_WRITE] = {"crash", "crash", "crash", "short", "enospc", "eio"};
        p.kinds[C_CLOSE] = {"eio"};
    } else {
        p.kinds[C_WRITE] = {"short", "short", "eintr", "enospc", "eio", "edquot"};
        p.kinds[C_CLOSE] = {"eio", "enospc", "edquot"};
    }
    p.fault_runs = 6;
    p.max_faults = 3;
    p.quick_plans = c06 ? 9000 : 2500;
    p.thorough_plans = 100000;
    p.probe_names = {"writes split or interrupted and complete", "operations failed by a fault", "written results read back and compared", "reads of absent files refused", "reads failed by a fault", "incomplete results refused", "prefixes of lists read", "reads compared", "crashes while writing", "results rewritten and compared", "searched recordings with hits written"};
    p.real_components = "Cap'n Proto writers and readers of n-west/bliss with the installed Cap'n Proto and KJ, coarse_channel, scan, observation_target, cadence";
    p.stub_components = "disk: in-memory files with fault injection";
    p.rule = c06 ? "seeded results are written, writers are crashed at any write with any part of it durable, files are cut at and around record ends, and readers run under read faults; the reader's answer is judged against the harness's own count of whole messages and the records given."
                 : "seeded results are written over short, interrupted, refused and lost writes; after every write that returned normally the file is read back and each field compared with what was given at the precision of the schema; results read are written and read again.";
    return p;
}
Register r05(base(false)), r06(base(true));
} // namespace

// C09: raw array files transfer exactly or fail loudly.
#include "util.hpp"
#include <bland/ndarray_slice.hpp>
#include <bland/ops/ops.hpp>
#include <preprocess/passband_static_equalize.hpp>

using namespace sim;
using bland::ndarray;
extern "C" int bliss_generate_channelizer_response_main(int, char **);
namespace {
DLDataType dt(int k) {
    switch (k) {
    case 1: return ndarray::datatype::float64;
    case 2: return ndarray::datatype::uint8;
    case 3: return ndarray::datatype::int16;
    case 4: return ndarray::datatype::int32;
    case 5: return ndarray::datatype::uint64;
    }
    return ndarray::datatype::float32;
}
// the array described by an op: a base array and up to two slices of it
ndarray build(const Op &op, uint64_t seed) {
    HarnessScope h;
    std::vector<int64_t> shape;
    for (auto &t : split(op.s("shape", "4"), 'x')) shape.push_back(std::stoll(t));
    auto r = std::make_shared<Rng>(mix(seed, op.i("data", 3)));
    ndarray a = make_array(shape, dt((int)op.i("dtype")), [r](int64_t) { return (double)r->range(-900, 900) / 8 + 200; });
    for (auto &sl : split(op.s("slice"), ';')) {
        if (sl.empty()) continue;
        auto w = split(sl, ',');
        int64_t dim = std::stoll(w[0]), lo = std::stoll(w[1]), hi = std::stoll(w[2]), step = std::stoll(w[3]);
        if (dim >= a.ndim() || hi > a.size(dim) || lo >= hi) continue;
        a = bland::slice(a, dim, lo, hi, step);
    }
    return a;
}
struct FileModel { bool known = false; std::string bytes; };
void execute(const Plan &p) {
    std::map<std::string, FileModel> files;
    auto disk_bytes = [&](const std::string &path) { auto f = disk_get(path); return f ? std::string(f->bytes.begin(), f->bytes.end()) : std::string("?"); };
    ref_start([&](const std::string &req) -> std::string { // undisturbed channelizer response
        auto w = split(req, ' ');
        OpScope s(MAXOPS, false);
        auto h = bliss::gen_coarse_channel_response(std::stoi(w[0]), std::stoi(w[1]), std::stoi(w[2]));
        return enc(grab(h));
    });
    for (auto &op : p.ops) {
        std::string path = "/simdisk/" + op.s("path", "a.f32");
        if (op.name == "write" || op.name == "gen") {
            Outcome o;
            Arr want;
            int rc = 0;
            ndarray src({1});
            if (op.name == "write") {
                src = build(op, p.seed);
                want = grab(src);
                OpScope s(op.id);
                o = guarded([&] { bland::write_to_file(src, path); });
            } else {
                std::string e = ref_ask(op.s("f") + " " + op.s("M") + " " + op.s("N"));
                size_t q = 0;
                dec(e, q, want);
                std::vector<std::vector<std::string>> g = {{"-f", op.s("f")}, {"-M", op.s("M")}, {"-N", op.s("N")}, {"-o", path}};
                static const char *longs[] = {"--nchan-per-coarse", "--number-coarse", "--taps-per-channel", "--output"};
                Rng ord((uint64_t)op.i("order"));
                if (op.i("order")) {
                    for (int k = 0; k < 4; ++k) if (ord.chance(0.3)) g[k][0] = longs[k];
                    for (int k = 3; k > 0; --k) std::swap(g[k], g[ord.below(k + 1)]);
                }
                std::vector<std::string> args = {"bliss_generate_channelizer_response"};
                for (auto &x : g) args.insert(args.end(), x.begin(), x.end());
                int bad = (int)op.i("bad"); // a command line the tool cannot understand
                if (bad) {
                    if (bad == 1) args.pop_back();
                    else args.push_back(bad == 2 ? "--nosuch" : bad == 3 ? "extra" : "-d");
                    std::vector<char *> av;
                    for (auto &a : args) av.push_back(&a[0]);
                    av.push_back(nullptr);
                    { OpScope s(op.id, false); o = guarded([&] { rc = bliss_generate_channelizer_response_main((int)args.size(), av.data()); }); }
                    checked();
                    if (!o.threw && rc == 0) violate("status:command", strf("op %d: bliss_generate_channelizer_response exited with 0 although its command line cannot be understood (%d)", op.id, bad));
                    probe(5);
                    continue;
                }
                std::vector<char *> av;
                for (auto &a : args) av.push_back(&a[0]);
                av.push_back(nullptr);
                OpScope s(op.id);
                o = guarded([&] { rc = bliss_generate_channelizer_response_main((int)args.size(), av.data()); });
            }
            bool failed = o.threw || rc != 0;
            std::string kinds = fired_kinds_in_op(op.id);
            bool alloc_only = false;
            checked();
            if (failed && !hard_fault_in_op(op.id)) violate("spurious-failure", op.name + " failed with nothing refused: " + o.what + " [" + kinds + "]");
            std::string have = disk_bytes(path);
            if (!failed) {
                bool same = have == want.bytes;
                if (op.name == "gen" && have.size() == want.bytes.size() && !same) { // FFT plans may differ in the last bits
                    same = true;
                    for (int64_t i = 0; i < want.numel(); ++i) {
                        float a, b = want.f()[i];
                        memcpy(&a, have.data() + 4 * i, 4);
                        if (!(std::fabs(a - b) <= 1e-5f)) same = false;
                    }
                }
                if (!same)
                    violate("write:incomplete-but-successful", strf("%s reported success but the file has %zu bytes that %s the %zu bytes of the array [%s]", op.name.c_str(), have.size(),
                                                                    have.size() == want.bytes.size() ? "differ from" : "are not", want.bytes.size(), kinds.c_str()));
                files[path] = {true, have};
            } else { files[path].known = false; probe(0); }
            (void)alloc_only;
            if (op.name == "write") { // the array itself is never changed by writing it
                if (grab(src) != want) violate("write:changed-array", "writing changed the array");
            }
            note(strf("%s %d failed=%d bytes=%016llx", op.name.c_str(), op.id, failed, (unsigned long long)fnv(have)));
            if (!kinds.empty() && !hard_fault_in_op(op.id)) probe(1);
        } else if (op.name == "cut") { // the file loses its tail (crash, lost blocks)
            auto f = disk_get(path);
            if (!f) continue;
            size_t n = f->bytes.size() ? op.i("keep") % (f->bytes.size() + 1) : 0;
            f->bytes.resize(n);
            files[path] = {true, std::string(f->bytes.begin(), f->bytes.end())};
        } else if (op.name == "read" || op.name == "equalize") {
            auto f = disk_get(path);
            std::string have = f ? disk_bytes(path) : "";
            DLDataType t = op.name == "equalize" ? dt(0) : dt((int)op.i("dtype"));
            Outcome o;
            Arr got;
            if (op.name == "read") {
                OpScope s(op.id);
                o = guarded([&] { got = grab(bland::read_from_file(path, t)); });
            } else {
                int64_t n = (int64_t)have.size() / 4;
                if (n < 1) continue;
                ndarray d = make_array({2, n}, dt(0), [](int64_t i) { return (double)(i % 7) + 1; });
                Arr da = grab(d);
                bliss::coarse_channel cc(d, make_array({2, n}, dt(2), [](int64_t) { return 0; }), 1000.0, -1e-6, (int64_t)1, (int64_t)32, n, (int64_t)2, (int64_t)1, std::string("x"), 0.0, 0.0, (int64_t)1, 1.0, 5e4, (int64_t)1, 0.0, 0.0);
                OpScope s(op.id);
                o = guarded([&] { auto e = bliss::equalize_passband_filter(cc, path); got = grab(e.data()); });
                if (!o.threw) {
                    HarnessScope h;
                    Arr w = da;
                    for (int64_t i = 0; i < 2 * n; ++i) { float x = da.f()[i], y; memcpy(&y, have.data() + 4 * (i % n), 4); float z = x / y; memcpy(&w.bytes[4 * i], &z, 4); }
                    std::string df = arr_diff(got, w);
                    checked();
                    if (!df.empty()) violate("read:wrong-elements", "equalising with a response file of " + std::to_string(have.size()) + " bytes: " + df + " [" + fired_kinds_in_op(op.id) + "]");
                    probe(2);
                }
            }
            std::string kinds = fired_kinds_in_op(op.id);
            bool ragged = have.size() % (t.bits / 8) != 0;
            checked();
            if (!f && !o.threw) violate("read:missing-file", "reading a file that does not exist returned an array");
            if (o.threw) {
                probe(3);
                if (f && !ragged && !have.empty() && !hard_fault_in_op(op.id)) violate("spurious-failure", op.name + " failed with nothing refused: " + o.what + " [" + kinds + "]");
                continue;
            }
            if (op.name == "read") {
                int64_t n = (int64_t)have.size() / (t.bits / 8);
                Arr w;
                w.shape = {n};
                w.code = t.code;
                w.bits = t.bits;
                w.bytes = have.substr(0, n * (t.bits / 8));
                std::string df = arr_diff(got, w);
                if (!df.empty()) violate("read:wrong-elements", strf("reading a raw file of %zu bytes: ", have.size()) + df + " [" + kinds + "]");
                if (ragged) probe(4);
            }
            note(strf("read %d %016llx", op.id, (unsigned long long)fnv(got.bytes)));
        }
    }
    checked();
    if (open_sim_fds()) violate("fd-left-open", strf("%d descriptors are still open after raw file operations", open_sim_fds()));
}
Plan generate(uint64_t seed, bool thorough) {
    Rng r(mix(seed, 2));
    Plan p;
    int n = 3 + (int)r.below(thorough ? 14 : 7);
    std::map<std::string, int> written;
    std::vector<std::string> names = {"a.f32", "b.f32", "resp.f32"};
    for (int i = 0; i < n; ++i) {
        std::string path = r.pick(names);
        double u = r.unit();
        if (u < 0.42 || written.empty()) {
            if (r.chance(0.25)) {
                p.add("gen").set("path", path).set("f", 4 << r.below(4)).set("M", 2 << r.below(3)).set("N", 2 + r.below(4)).set("order", r.chance(0.5) ? 1 + (int64_t)r.below(100000) : 0);
                if (r.chance(0.03)) p.ops.back().set("bad", 1 + (int64_t)r.below(4));
                written[path] = 0;
            } else {
                auto &o = p.add("write");
                int dim = 1 + (int)r.below(3);
                std::string sh, sl;
                std::vector<int64_t> dims;
                bool big = dim == 1 && r.chance(0.12); // sizes around those of buffers and blocks
                for (int k = 0; k < dim; ++k) { int64_t s = big ? (1ll << (r.chance(0.02) ? 18 : 9 + r.below(8))) * (1 + r.below(2)) + (int64_t)r.below(3) - 1 : dim == 1 ? 1 + r.below(r.chance(0.2) ? 6000 : 60) : 1 + r.below(12); dims.push_back(s); sh += (k ? "x" : "") + std::to_string(s); }
                for (int k = 0; k < 2; ++k)
                    if (r.chance(0.4)) {
                        int64_t d = r.below(dim), lo = r.below(dims[d]), hi = lo + 1 + r.below(dims[d] - lo);
                        int64_t step = 1 + r.below(3);
                        if (k == 1 && !sl.empty()) continue;
                        sl += strf("%lld,%lld,%lld,%lld;", (long long)d, (long long)lo, (long long)hi, (long long)step);
                    }
                int t = r.chance(0.75) ? 0 : (int)r.below(6);
                o.set("path", path).set("shape", sh).set("dtype", t).set("data", r.below(1000));
                if (!sl.empty()) o.set("slice", sl);
                written[path] = t;
            }
        } else {
            if (r.chance(0.9)) { auto it = written.begin(); std::advance(it, r.below(written.size())); path = it->first; }
            double v = r.unit();
            if (v < 0.15) p.add("cut").set("path", path).set("keep", r.below(100000));
            else if (v < 0.35) p.add("equalize").set("path", path);
            else p.add("read").set("path", path).set("dtype", written.count(path) && r.chance(0.8) ? written[path] : (int)r.below(6));
        }
    }
    return p;
}
Property prop() {
    Property p;
    p.id = "C09";
    p.what = "raw array files";
    p.generate = generate;
    p.execute = execute;
    p.kinds[C_WRITE] = {"short", "eintr", "enospc", "eio", "short", "edquot"};
    p.kinds[C_READ] = {"short", "eintr", "eio", "eof", "short"};
    p.kinds[C_OPEN] = {"eacces", "emfile", "enoent"};
    p.kinds[C_CLOSE] = {"enospc", "eio"};
    p.kinds[C_SEEK] = {"eio"};
    p.kinds[C_ALLOC] = {"fail"};
    p.kinds[C_NEW] = {"fail"};
    p.fault_runs = 5;
    p.max_faults = 2;
    p.quick_plans = 12000;
    p.thorough_plans = 300000;
    p.probe_names = {"writes that failed", "operations with split or interrupted I/O", "equalisations from file", "reads that failed", "files with a ragged tail", "command lines refused"};
    p.real_components = "bland::write_to_file/read_from_file, bliss_generate_channelizer_response main(), equalize_passband_filter, libstdc++ streams, FFTW (real code)";
    p.stub_components = "disk (in-memory, fault injecting), array allocator failures";
    p.rule = "seeded sequences of raw writes (strided views, all element types), channeliser response generation, truncations, raw reads and equalisations; each also run with I/O and allocation faults placed at counted calls; oracle: exact bytes on the simulated disk.";
    return p;
}
Register r_(prop());
} // namespace

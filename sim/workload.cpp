// Self-contained operations: each takes files, builds what it needs, reports what it saw and drops everything.
#include "workload.hpp"
#include <bland/ndarray_slice.hpp>
#include <bland/ops/creators.hpp>
#include <bland/ops/ops.hpp>
#include <bland/ops/ops_frequency.hpp>
#include <core/cadence.hpp>
#include <drift_search/event_search.hpp>
#include <file_types/cpnp_files.hpp>
#include <file_types/dat_file.hpp>
#include <file_types/h5_filterbank_file.hpp>
#include <hdf5.h>
#include <preprocess/passband_static_equalize.hpp>

using bland::ndarray;
extern "C" int bliss_find_hits_main(int, char **);
extern "C" int bliss_hits_to_dat_main(int, char **);
extern "C" int bliss_generate_channelizer_response_main(int, char **);
namespace sim {
void array_program(uint64_t seed, const std::function<void(const std::string &)> &dig); // p_c13.cpp
void main_of(int (*f)(int, char **), std::vector<std::string> a) {
    std::vector<char *> av;
    for (auto &x : a) av.push_back(&x[0]);
    av.push_back(nullptr);
    int rc = f((int)a.size(), av.data());
    if (rc) throw std::runtime_error(strf("status %d", rc));
}
static std::string enc_mres(const MRes &m) {
    Out o;
    for (auto &h : m.hits) ser_hit(o, h);
    for (auto &e : m.events) { o.pod<uint64_t>(e.size()); for (auto &h : e) ser_hit(o, h); }
    for (auto &ob : m.obs) for (auto &sc : ob) for (auto &c : sc) {
        o.pod(c.fch1).pod(c.foff).pod(c.dej).pod(c.raj).pod(c.tsamp).pod(c.tstart).pod(c.tel).pod(c.nt).pod(c.nc).pod(c.number).str(c.name);
        for (auto &h : c.hits) ser_hit(o, h);
    }
    return o.s;
}
void run_op(Ctx &C, const Op &op, std::string &log) {
    std::string path, stages, f;
    std::vector<std::string> args;
    Rec *rec = nullptr;
    MRes *m = nullptr;
    {
        HarnessScope h;
        path = "/simdisk/" + op.s("path", "x");
        f = op.s("f");
        if (op.has("rec") && C.recs.count((int)op.i("rec"))) rec = &C.recs[(int)op.i("rec")];
        if (op.has("res") && C.res.count((int)op.i("res"))) m = &C.res[(int)op.i("res")];
        if (rec) path = rec->path();
    }
    auto say = [&](int64_t n) { HarnessScope h; log += strf(" %lld", (long long)n); };
    auto dig = [&](const char *what, const std::string &b) { HarnessScope h; log += strf(" %s:%zu:%08llx", what, b.size(), (unsigned long long)(fnv(b) & 0xffffffff)); };
    auto arr = [&](const ndarray &a) { HarnessScope h; dig("a", enc(grab(a))); };
    auto file = [&](const std::string &q) { HarnessScope h; auto x = disk_get(q[0] == '/' ? q : "/simdisk/cwd/" + q); if (x) dig("file", std::string(x->bytes.begin(), x->bytes.end())); else log += " nofile"; };
    const std::string &n = op.name;
    if (n == "scan" || n == "target" || n == "cadence") {
        int per = rec ? (int)rec->fpc : (int)op.i("per", 32);
        auto use = [&](bliss::scan s) {
            for (int k = 0; k < s.get_number_coarse_channels(); ++k) {
                auto cc = s.read_coarse_channel(k);
                if (op.i("want") & 1) arr(cc->data());
                if (op.i("want") & 2) arr(cc->mask());
                if (op.i("want") & 4 && op.i("noise")) { auto ne = cc->noise_estimate(); float v[2] = {ne.noise_floor(), ne.noise_power()}; HarnessScope h; dig("n", std::string((char *)v, 8)); }
                if (op.i("want") & 8 && op.i("drift")) {
                    auto pl = cc->integrated_drift_plane();
                    arr(pl.integrated_drift_plane());
                    HarnessScope h;
                    Out o;
                    for (auto &e : pl.drift_rate_info()) o.pod(e.index_in_plane).pod(e.drift_rate_slope).pod(e.drift_rate_Hz_per_sec).pod(e.drift_channels_span).pod(e.desmeared_bins);
                    dig("r", o.s);
                }
                if (op.i("want") & 16 && op.i("hits")) { auto l = cc->hits(); HarnessScope h; dig("h", ser_hits(l)); }
            }
            if (op.i("want") & 32) { auto l = s.hits(); HarnessScope h; dig("H", ser_hits(l)); }
        };
        auto stage = [&](auto x) {
            for (auto &st : split(op.s("stages"), ',')) if (!st.empty()) x = apply_stage(x, st);
            return x;
        };
        std::string dev = op.s("dev", "cpu");
        if (n == "scan") {
            auto s = stage(bliss::scan(path, per));
            s.set_device(dev);
            if (op.has("off")) s = s.slice_scan_channels(op.i("off"), op.i("cnt"));
            use(s);
        } else if (n == "target") {
            auto t = stage(bliss::observation_target(std::vector<std::string>{path, path}, per));
            t.set_device(dev);
            if (op.has("off")) t = t.slice_observation_channels((int)op.i("off"), op.i("cnt"));
            for (auto &s : t._scans) use(s);
        } else {
            std::vector<std::vector<std::string>> v = {{path}, {path}, {path}};
            bliss::cadence c = stage(bliss::cadence(v, per));
            c.set_device(dev);
            if (op.i("events")) { auto ev = bliss::event_search(c); HarnessScope h; std::string t; for (auto &e : ev) t += ser_hits(e.hits) + "|"; dig("E", t); }
            else if (op.has("off")) c = c.slice_cadence_channels((int)op.i("off"), op.i("cnt"));
            for (auto &o : c._observations) for (auto &s : o._scans) if (op.i("want") & 64) use(s);
        }
    } else if (n == "h5") {
        bliss::h5_filterbank_file fb(path);
        arr(fb.read_data({op.i("t0"), 0, 0}, {1, 1, rec ? rec->fpc : 8}));
    } else if (n == "write") {
        if (f == "dat") {
            auto s = build_scan(m->obs[0][0]);
            bliss::write_scan_hits_to_dat_file(s, path);
        } else write_result(*m, path, (int)op.i("form"));
        if (m->kind != "target" && m->kind != "cadence") file(path);
    } else if (n == "read" && f == "dat") {
        auto g = bliss::read_scan_hits_from_dat_file(path);
        double v[3] = {g.tstart(), g.tsamp(), g.foff()};
        HarnessScope h;
        dig("r", std::string((char *)v, sizeof v));
    } else if (n == "read") {
        auto g = read_result(f, path, (int)op.i("form"));
        HarnessScope h;
        dig("r", enc_mres(g));
    } else if (n == "find") {
        {
            HarnessScope h;
            args = {"bliss_find_hits", path, path, "-d", op.s("dev", "cpu"), "--nchan-per-coarse", rec ? std::to_string(rec->fpc) : "32", "--number-coarse", op.s("cnt", "1"), "-m", "-6", "-M", "7", "-s", "5"};
            if (op.i("taps")) { args.push_back("-e"); args.push_back(eq_path(rec ? rec->fpc : 32, 1)); }
            args.push_back("-o"), args.push_back(op.s("out")); // (last: the tool does not understand options after it)
        }
        main_of(bliss_find_hits_main, args);
        file(op.s("out"));
    } else if (n == "convert") {
        { HarnessScope h; args = {"bliss_hits_to_dat", "-i", path, "-o", op.s("out")}; }
        main_of(bliss_hits_to_dat_main, args);
        file(op.s("out"));
    } else if (n == "gen") {
        { HarnessScope h; args = {"x", "-f", op.s("f"), "-M", op.s("M"), "-N", op.s("N"), "-o", op.s("out")}; }
        main_of(bliss_generate_channelizer_response_main, args);
        file(op.s("out"));
    } else if (n == "prog") {
        array_program((uint64_t)op.i("seed"), [&](const std::string &t) { HarnessScope h; dig(("p" + t.substr(0, t.find('='))).c_str(), t); });
    } else if (n == "arr") {
        int64_t a = op.i("a"), b = op.i("b");
        ndarray x = bland::arange(0.0f, (float)(a * b), 1.0f, ndarray::datatype::float32).reshape({a, b});
        ndarray v = bland::slice(x, 0, 0, a, op.i("step", 1));
        if (f == "arith") { auto y = x * 2.0f + x / 3.0f - v; arr(y); } // shapes clash when the step is not 1
        else if (f == "cmp") { auto y = (x > 3.0f) + (v < 9.0f); arr(y); }
        else if (f == "red") { auto p = bland::mean_stddev(v, {op.i("axis")}); arr(p.first); arr(p.second); arr(bland::standardized_moment(x, 4, {op.i("axis")})); }
        else if (f == "med") { float md = bland::median(v); HarnessScope h; dig("m", std::string((char *)&md, 4)); }
        else if (f == "mask") { auto mk = v > 4.0f; auto p = bland::masked_mean_stddev(v, mk); arr(p.first); arr(p.second); arr(bland::masked_mean(x, mk)); }
        else if (f == "fft") { auto y = bland::fft_shift_mag_square(bland::copy(x).reshape({a * b})); arr(y); }
        else if (f == "fftv") { auto y = bland::fft_shift_mag_square(bland::slice(bland::copy(x).reshape({a * b}), 0, op.i("lo"), a * b, op.i("step", 1))); arr(y); }
        else if (f == "rand") { say(bland::rand_normal<float>({a, b}, 0, 1).numel()); say(bland::rand_uniform<float>({a}, 0, 2).numel()); }
        else if (f == "file") { bland::write_to_file(v, path); arr(bland::read_from_file(path, ndarray::datatype::float32)); }
        else if (f == "shape") { arr(x.reshape({b, op.i("c")})); arr(x.unsqueeze(0)); arr(x.squeeze(0)); }
        else if (f == "resp") { auto h = bliss::gen_coarse_channel_response((int)op.i("a") * 4, 4, 3); arr(h); }
        else if (f == "deferred") {
            int pol = (int)op.i("pol");
            auto fn = [x] { if (plan) callback_point(1); return x * 2.0f; };
            using P = bland::ndarray_deferred;
            P d(fn, (P::eval_policy)pol);
            P e = d;
            ndarray y = d, z = e;
            arr(y);
            arr(z);
        }
    }
}
bool is_setup(const Op &o) { return o.name == "rec" || o.name == "res" || o.name == "put" || o.name == "cut"; }
void Ctx::setup(const Plan &p) {
    HarnessScope hs;
    Ctx &C = *this;
    for (auto &op : p.ops) {
        if (op.name == "rec") { C.recs[op.id] = Rec::of(op); C.recs[op.id].write(); }
        if (op.name == "res") C.res[op.id] = make_result(op.s("kind"), (uint64_t)op.i("seed"), op.i("n"));
        if (op.name == "put") { Rng r((uint64_t)op.i("seed")); std::vector<uint8_t> b(op.i("n")); for (auto &x : b) x = (uint8_t)(op.i("ascii") ? 32 + r.below(90) : r.next()); disk_put("/simdisk/" + op.s("path"), b); }
        if (op.name == "cut") { // an intact file of another operation, cut off
            std::string src;
            if (C.recs.count((int)op.i("rec"))) src = C.recs[(int)op.i("rec")].path();
            if (C.res.count((int)op.i("res", -1))) { src = "/simdisk/full"; OpScope s(MAXOPS, false); write_result(C.res[(int)op.i("res")], src, 0); }
            auto f = disk_get(src);
            if (!f) continue;
            std::vector<uint8_t> b(f->bytes.begin(), f->bytes.begin() + (f->bytes.empty() ? 0 : op.i("keep") % (f->bytes.size() + 1)));
            if (op.i("flip") && b.size()) b[op.i("flip") % b.size()] ^= (uint8_t)(1 + op.i("flip") % 255);
            disk_put("/simdisk/" + op.s("path"), b);
        }
    }
}
void gen_ops(Rng &r, Plan &p, int n, const GenOps &g) {
    size_t from = p.ops.size();
    std::vector<int> recs, ress;
    std::vector<std::pair<int64_t, int64_t>> geo;
    std::vector<std::string> junk, cutres;
    int nr = 1 + (int)r.below(2);
    for (int k = 0; k < nr; ++k) {
        auto &o = p.add("rec");
        int64_t fpc = 16 << r.below(2), nco = 1 + (int64_t)r.below(3);
        o.set("id", o.id).set("fpc", fpc).set("nco", nco).set("T", 4 << r.below(2)).set("seed", r.below(100000)).set("tones", 1 + r.below(3)).set("layout", r.below(4));
        static const double ts[] = {18.25, 1.0737, 9.5};
        if (r.chance(0.5)) o.setd("foff", (r.chance(0.6) ? -1 : 1) * (double)r.range(750, 3000) / (1 << 28)).setd("tsamp", ts[r.below(3)]);
        recs.push_back(o.id);
        geo.push_back({fpc, nco});
    }
    static const char *kinds[] = {"hits", "chan", "scan", "target", "cadence", "events"};
    int ns = 1 + (int)r.below(2);
    for (int k = 0; k < ns; ++k) {
        auto &o = p.add("res");
        o.set("kind", kinds[r.below(6)]).set("seed", r.below(1000000)).set("n", r.below(9));
        if (r.chance(0.35)) o.set("kind", "scan").set("n", r.below(60));
        ress.push_back(o.id);
    }
    if (r.chance(0.3)) { p.add("put").set("path", "junk").set("n", r.below(4000)).set("seed", r.below(1000)).set("ascii", r.below(2)); junk.push_back("junk"); }
    if (r.chance(0.4)) { auto &o = p.add("cut"); o.set("path", "cut.h5").set("rec", recs[0]).set("keep", r.below(1000000)); if (r.chance(0.5)) o.set("keep", 100000000 - 1).set("flip", 1 + (int64_t)r.below(30000)); junk.push_back("cut.h5"); }
    if (r.chance(0.4)) { p.add("cut").set("path", "cut.capnp").set("res", ress[0]).set("keep", r.below(1000000)); junk.push_back("cut.capnp"); }
    junk.push_back("absent");
    for (int k = 0; k < n; ++k) {
        double u = r.unit();
        if (u < 0.3) {
            size_t q = r.below(recs.size());
            static const char *what[] = {"scan", "scan", "target", "cadence"};
            auto &o = p.add(what[r.below(4)]);
            if (r.chance(0.88)) o.set("rec", recs[q]);
            else o.set("path", r.pick(junk));
            std::string st;
            static const char *full[] = {"norm", "roll:0.05", "sk:0.05:40:2", "clip:3:3.0:4.0", "noise:1", "drift:1:-4:5:1", "hits:0:4:3", "filt:1"};
            int upto = r.chance(0.6) ? 8 : (int)r.below(9);
            for (int j = 0; j < upto; ++j) if (j > 2 || r.chance(0.7)) st += (st.empty() ? "" : ",") + std::string(full[j]);
            if (r.chance(0.15)) { std::string e = strf("eq:%d:1", (int)geo[q].first * (r.chance(0.5) ? 1 : 2)); st = e + (st.empty() ? "" : "," + st); }
            if (r.chance(0.5)) { // stages of every kind with options of every kind
                st.clear();
                int rank = 0, last = r.chance(0.7) ? 6 : (int)r.below(7);
                for (int j = 0; j < 14 && rank < last; ++j) {
                    std::string s = gen_stage(r, rank, geo[q].first);
                    st += (st.empty() ? "" : ",") + s;
                    rank = std::max(rank, rank_of(s));
                }
                upto = rank >= 5 ? 7 : rank >= 4 ? 6 : rank >= 3 ? 5 : 0;
            }
            o.set("stages", st).set("want", r.chance(0.5) ? 127 : (int64_t)r.below(128)).set("noise", upto > 4).set("drift", upto > 5).set("hits", upto > 6);
            if (r.chance(0.2)) o.set("noise", 1).set("drift", 1).set("hits", 1);
            if (r.chance(0.3)) o.set("off", r.below(geo[q].second + (r.chance(0.2) ? 1 : 0))).set("cnt", 1 + (int64_t)r.below(geo[q].second));
            if (r.chance(0.15)) o.set("dev", r.chance(0.5) ? "cuda:0" : "nodevice");
            if (r.chance(0.3)) o.set("events", 1);
        } else if (u < 0.36) {
            auto &o = p.add("h5");
            if (r.chance(0.7)) o.set("rec", recs[0]);
            else o.set("path", r.pick(junk));
            o.set("t0", r.below(r.chance(0.3) ? 20 : 4));
        } else if (u < 0.55) {
            auto &o = p.add("write");
            o.set("res", r.pick(ress)).set("path", r.chance(0.1) ? "no/dir/" : strf("w%d", (int)r.below(3))).set("form", r.below(6));
            auto &k0 = p.ops[o.i("res")].a["kind"];
            if (k0 == "scan" && r.chance(0.55)) o.set("f", "dat");
        } else if (u < 0.68) {
            auto &o = p.add("read");
            o.set("f", kinds[r.below(6)]).set("form", r.below(4)).set("path", r.chance(0.6) ? strf("w%d", (int)r.below(3)) : r.pick(junk));
            if (r.chance(0.3)) o.set("f", "dat");
        } else if (u < 0.74) {
            auto &o = p.add("find");
            if (r.chance(0.8)) o.set("rec", r.pick(recs));
            else o.set("path", r.pick(junk));
            o.set("out", r.chance(0.5) ? "f.dat" : "f.capnp").set("cnt", 1 + (int64_t)r.below(2)).set("taps", r.chance(0.2));
            if (r.chance(0.1)) o.set("dev", "cuda:0");
        } else if (u < 0.79) {
            p.add("convert").set("path", r.chance(0.6) ? strf("w%d", (int)r.below(3)) : r.pick(junk)).set("out", "c.dat");
        } else if (u < 0.82) {
            p.add("gen").set("f", 4 << r.below(3)).set("M", 2 << r.below(2)).set("N", 2 + r.below(3)).set("out", "resp");
        } else if (u < 0.88) {
            p.add("prog").set("seed", r.below(1 << 30));
        } else {
            static const char *fs[] = {"arith", "cmp", "red", "med", "mask", "fft", "fftv", "rand", "file", "shape", "resp", "deferred"};
            auto &o = p.add("arr");
            std::string fn = fs[r.below(12)];
            if (fn == "rand" && !g.rand) fn = "arith";
            o.set("f", fn).set("a", 1 + (int64_t)r.below(9)).set("b", 1 + (int64_t)r.below(20)).set("c", 1 + (int64_t)r.below(9)).set("step", r.chance(0.6) ? 1 : 2).set("axis", r.below(2)).set("lo", r.below(2)).set("pol", r.below(3)).set("path", r.chance(0.8) ? "raw" : "no/raw");
        }
    }
    if (g.task < 0) return;
    for (size_t k = from; k < p.ops.size(); ++k) { // files of its own
        auto &o = p.ops[k];
        o.set("task", g.task);
        for (auto *key : {"path", "out"}) if (o.has(key)) o.set(key, strf("t%d_", g.task) + o.s(key));
    }
}
} // namespace sim

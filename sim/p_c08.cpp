// C08: bliss_find_hits reports each input's hits in that input's own output.
#include "results.hpp"
#include <core/cadence.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <estimators/noise_estimate.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>

using namespace sim;
extern "C" int bliss_find_hits_main(int, char **);
namespace {
struct Input { // one recording: noise, tones, and one strong drifting tone
    int id;
    int64_t T, fpc, nco, seed;
    double start, slope; // of the strong tone in channel `chan`, bins and bins per spectrum
    int64_t chan;
    std::string path;
    double fch1, foff;
};
Input input(const Op &o) {
    Input i;
    i.id = o.id;
    i.T = o.i("T");
    i.fpc = o.i("fpc");
    i.nco = o.i("nco");
    i.seed = o.i("seed");
    i.chan = o.i("chan") % i.nco;
    i.slope = o.d("slope");
    i.start = (double)(i.fpc / 2 + o.i("at") % (i.fpc / 8) - i.fpc / 16);
    i.path = "/simdisk/" + o.s("dir") + o.s("name") + ".h5";
    i.foff = (o.i("up") ? 1 : -1) * 2.79e-6;
    i.fch1 = 1420 + (double)o.i("id") * 3;
    return i;
}
double sample(const Input &in, int64_t t, int64_t f) {
    Rng r(mix((uint64_t)in.seed, (uint64_t)t * 1000003 + (uint64_t)f));
    double v = 1000 + 100 * r.gauss(); // spread as a spectrometer's, so that spectral kurtosis is 1
    double pos = (double)(in.chan * in.fpc) + in.start + in.slope * (double)t;
    if (f == (int64_t)std::floor(pos + 0.5)) v += 1000 * std::min(3., std::max(1., std::fabs(in.slope))); // one bin per spectrum, desmearing averages |slope| bins
    Rng q(mix((uint64_t)in.seed, 5));
    for (int k = 0; k < 3; ++k) { // further, weaker ones in the other channels
        double p = (double)q.below(in.fpc * in.nco) + (double)t * ((double)q.range(-6, 6) / 2), a = 100 + 500 * q.unit();
        if (f == (int64_t)std::floor(p + 0.5) && f / in.fpc != in.chan) v += a;
    }
    return (double)(float)v;
}
void put(const Input &in) {
    H5Spec s;
    s.T = in.T;
    s.F = in.fpc * in.nco;
    s.value = [in](int64_t t, int64_t f) { return sample(in, t, f); };
    auto num = [&](const char *n, double v, const char *t) { s.attrs.push_back({n, t, v, ""}); };
    num("fch1", in.fch1, "f64");
    num("foff", in.foff, "f64");
    num("tsamp", 18.25, "f64");
    num("tstart", 59000.25 + in.id, "f64");
    num("src_raj", 12.5 + in.id * 0.1, "f64");
    num("src_dej", -3.25 + in.id, "f64");
    num("telescope_id", 6, "i64");
    num("machine_id", 20, "i64");
    num("nchans", (double)s.F, "i64");
    num("nbits", 32, "i64");
    num("nifs", 1, "i64");
    num("data_type", 1, "i64");
    num("az_start", 0, "f64");
    num("za_start", 0, "f64");
    s.attrs.push_back({"source_name", "vstr", 0, strf("SRC%d", in.id)});
    h5_write(in.path, s);
}
struct Opts {
    int c = 0, n = 1, lo = -500, hi = 500, rs = 1, dist = 7;
    bool has_c = false, desmear = true, local = false;
    int64_t per = 0;
    double snr = 10, roll = 0.25, skl = 0.25, skh = 50, skd = 2, scl = 3, sch = 4;
    int sci = 5;
    std::string taps;
};
Opts opts(const Op &o) {
    Opts x;
    x.c = (int)o.i("c");
    x.n = (int)o.i("nc", 1);
    x.per = o.i("per");
    x.lo = (int)o.i("lo", -500);
    x.hi = (int)o.i("hi", 500);
    x.rs = (int)o.i("rs", 1);
    x.dist = (int)o.i("dist", 7);
    x.desmear = o.i("desmear", 1);
    x.local = o.i("local");
    x.snr = o.d("snr", 10);
    x.roll = o.d("roll", 0.25);
    x.skl = o.d("skl", 0.25);
    x.skh = o.d("skh", 50);
    x.skd = o.d("skd", 2);
    x.sci = (int)o.i("sci", 5);
    x.scl = o.d("scl", 3);
    x.sch = o.d("sch", 4);
    x.taps = o.s("taps");
    return x;
}
// the configured pipeline on one recording alone
MRes alone(const std::string &path, const Opts &x) {
    using namespace bliss;
    auto t = observation_target(std::vector<std::string>{path}, (int)x.per);
    t = t.slice_observation_channels(x.c, x.n);
    t.set_device("cpu");
    t = normalize(t);
    if (!x.taps.empty()) t = equalize_passband_filter(t, x.taps);
    else t = flag_filter_rolloff(t, (float)x.roll);
    t = flag_spectral_kurtosis(t, (float)x.skl, (float)x.skh, (float)x.skd);
    t = flag_sigmaclip(t, x.sci, (float)x.scl, (float)x.sch);
    noise_power_estimate_options ne;
    ne.estimator_method = noise_power_estimator::STDDEV;
    ne.masked_estimate = true;
    t = estimate_noise_power(t, ne);
    integrate_drifts_options dr;
    dr.desmear = x.desmear;
    dr.low_rate = x.lo;
    dr.high_rate = x.hi;
    dr.rate_step_size = x.rs;
    t = integrate_drifts(t, dr);
    hit_search_options hs;
    hs.method = x.local ? hit_search_methods::LOCAL_MAXIMA : hit_search_methods::CONNECTED_COMPONENTS;
    hs.snr_threshold = (float)x.snr;
    hs.neighbor_l1_dist = x.dist;
    t = hit_search(t, hs);
    filter_options fo;
    fo.filter_zero_drift = true;
    t = filter_hits(t, fo);
    auto &sc = t._scans.at(0);
    MRes m;
    m.kind = "scan";
    m.obs = {{{}}};
    for (int k = 0; k < sc.get_number_coarse_channels(); ++k) {
        auto cc = sc.read_coarse_channel(k);
        MChan c;
        c.fch1 = cc->fch1();
        c.foff = cc->foff();
        c.dej = cc->src_dej();
        c.raj = cc->src_raj();
        c.tel = cc->telescope_id();
        c.tsamp = cc->tsamp();
        c.tstart = cc->tstart();
        c.nt = cc->ntsteps();
        c.nc = cc->nchans();
        c.name = cc->source_name();
        c.number = cc->_coarse_channel_number;
        auto l = cc->hits();
        c.hits.assign(l.begin(), l.end());
        m.obs[0][0].push_back(c);
    }
    return m;
}
std::string enc_res(const MRes &m) {
    Out o;
    o.pod<uint64_t>(m.obs[0][0].size());
    for (auto &c : m.obs[0][0]) {
        o.pod(c.fch1).pod(c.foff).pod(c.dej).pod(c.raj).pod(c.tel).pod(c.tsamp).pod(c.tstart).pod(c.nt).pod(c.nc).str(c.name).pod(c.number).pod<uint64_t>(c.hits.size());
        for (auto &h : c.hits) ser_hit(o, h);
    }
    return o.s;
}
MRes dec_res(const std::string &s) {
    In i(s);
    MRes m;
    m.kind = "scan";
    m.obs = {{{}}};
    uint64_t n = i.pod<uint64_t>();
    for (uint64_t k = 0; k < n; ++k) {
        MChan c;
        c.fch1 = i.pod<double>(); c.foff = i.pod<double>(); c.dej = i.pod<double>(); c.raj = i.pod<double>();
        c.tel = i.pod<int64_t>(); c.tsamp = i.pod<double>(); c.tstart = i.pod<double>(); c.nt = i.pod<int64_t>(); c.nc = i.pod<int64_t>();
        c.name = i.str();
        c.number = i.pod<int64_t>();
        uint64_t nh = i.pod<uint64_t>();
        for (uint64_t j = 0; j < nh; ++j) c.hits.push_back(de_hit(i));
        m.obs[0][0].push_back(c);
    }
    return m;
}
void execute(const Plan &p) {
    HarnessScope hs;
    std::map<int, Input> ins;
    std::map<int, Op> runs;
    for (auto &op : p.ops) {
        if (op.name == "input") { ins[op.id] = input(op); put(ins[op.id]); }
        if (op.name == "taps") {
            Rng r((uint64_t)op.i("seed"));
            std::vector<uint8_t> b;
            for (int64_t k = 0; k < op.i("n"); ++k) { float v = (float)(0.95 + 0.1 * r.unit()); b.insert(b.end(), (uint8_t *)&v, (uint8_t *)&v + 4); }
            disk_put("/simdisk/taps.f32", b);
        }
        if (op.name == "run") runs[op.id] = op;
    }
    ref_start([&](const std::string &req) -> std::string {
        auto w = split(req, ' ');
        Opts x = opts(runs.at(std::stoi(w[0])));
        MRes m;
        Outcome o;
        { OpScope s(MAXOPS, false); o = guarded([&] { m = alone(ins.at(std::stoi(w[1])).path, x); }); }
        return o.threw ? "!" + o.what : "=" + enc_res(m);
    });
    for (auto &op : p.ops) {
        if (op.name != "run") continue;
        std::vector<int> files;
        for (auto &w : split(op.s("files"), ',')) if (!w.empty() && ins.count(std::stoi(w))) files.push_back(std::stoi(w));
        if (files.empty()) continue;
        std::vector<MRes> want;
        bool refused = false; // the configured pipeline cannot process one of the recordings
        std::string why;
        for (int f : files) {
            std::string e = ref_ask(strf("%d %d", op.id, f));
            if (e.empty() || e[0] != '=') { refused = true; why = e; break; }
            want.push_back(dec_res(e.substr(1)));
        }
        bool absent = op.i("absent") != 0;
        std::vector<std::string> a = {"bliss_find_hits"};
        for (int f : files) a.push_back(ins[f].path);
        if (absent) a.insert(a.begin() + 1 + op.i("absent") % (int)a.size(), "/simdisk/nothing.h5");
        // the options follow the recordings in any order, by their short or long names
        std::vector<std::vector<std::string>> groups;
        Rng ord((uint64_t)op.i("order"));
        auto add = [&](const char *k, const char *flag, const char *flag2 = nullptr) {
            if (op.has(k)) groups.push_back({flag2 && op.i("order") && ord.chance(0.3) ? flag2 : flag, op.s(k)});
        };
        add("c", "-c", "--coarse-channel");
        add("nc", "--number-coarse");
        add("per", "--nchan-per-coarse");
        add("lo", "-m", "--min-rate");
        add("hi", "-M", "--max-rate");
        add("rs", "-rs", "--rate-step");
        add("dist", "--distance");
        add("snr", "-s", "--snr");
        add("roll", "--filter-rolloff");
        add("skl", "--sk-low");
        add("skh", "--sk-high");
        add("skd", "--sk-d");
        add("sci", "--sigmaclip-iters");
        add("scl", "--sigmaclip-low");
        add("sch", "--sigmaclip-high");
        add("taps", "-e", "--equalizer-channel");
        add("device", "-d", "--device");
        if (op.has("desmear")) groups.push_back({op.i("desmear") ? "--desmear" : "--nodesmear"});
        if (op.has("local")) groups.push_back({op.i("local") ? "--local-maxima" : "--connected-components"});
        if (op.i("order")) for (size_t k = groups.size(); k > 1; --k) std::swap(groups[k - 1], groups[ord.below(k)]);
        add("out", "-o", "--output");
        if (op.has("out") && op.has("format")) groups.back().push_back(op.s("format"));
        bool early = op.has("out") && op.i("early"); // the tool does not understand options after the output file, and has to say so
        if (early) std::swap(groups.back(), groups[ord.below(groups.size())]);
        for (auto &g : groups) a.insert(a.end(), g.begin(), g.end());
        int bad = (int)op.i("bad"); // command lines the tool cannot understand
        static const char *lone[] = {"-m", "--nchan-per-coarse", "-s", "-e", "-d", "--sk-low"};
        if (bad) { a.push_back(bad % 2 ? lone[bad % 6] : "--nosuch"); if (bad > 6) a.push_back("--nodesmear"), a.push_back("--desmear"); }
        std::string cmd;
        for (auto &w : a) cmd += w + " ";
        std::string where = strf("op %d: ", op.id) + cmd;
        bool dat = op.s("format") == "dat" || (op.has("out") && !op.has("format") && op.s("out").size() > 4 && op.s("out").substr(op.s("out").size() - 4) == ".dat");
        std::set<std::string> before;
        auto clean = [&] { for (auto &f : disk_list()) if (!before.count(f)) disk_remove(f); };
        for (auto &f : disk_list()) before.insert(f);
        int rc = 0;
        Outcome o;
        auto run = [&](bool faults) {
            std::vector<char *> av;
            for (auto &x : a) av.push_back(&x[0]);
            av.push_back(nullptr);
            OpScope s(op.id, faults);
            rc = 0;
            o = guarded([&] { rc = bliss_find_hits_main((int)a.size(), av.data()); });
        };
        run(!bad); // (the manual is printed by functions that may not fail)
        checked();
        if (bad) {
            probe(6);
            if (!o.threw && rc == 0) violate("status:command", where + ": exit status 0 although the command line cannot be understood");
            clean();
            continue;
        }
        bool hard = hard_fault_in_op(op.id);
        std::string kinds = fired_kinds_in_op(op.id);
        if (absent || refused) {
            probe(4);
            if (!o.threw && rc == 0) violate("status:input", where + "[" + kinds + "]: exit status 0 although a recording " + (absent ? "is absent" : "cannot be processed: " + why));
            clean();
            continue;
        }
        if (o.threw || rc) {
            if (op.has("device") && op.s("device") != "cpu") { probe(5); clean(); continue; }
            if (early) { probe(6); clean(); continue; }
            if (!op.has("device")) { probe(5); clean(); continue; } // the default device is cuda:0
            if (!hard) violate("refused", where + strf("[%s]: failed (status %d %s) with nothing refused", kinds.c_str(), rc, o.what.c_str()));
            probe(1);
            clean();
            run(false);
            if (o.threw || rc) violate("retry", where + strf(": still fails (status %d %s) when repeated without faults", rc, o.what.c_str()));
        } else if (!kinds.empty() && !hard) probe(0);
        // exit status 0: every recording has its own complete output
        std::vector<std::string> outs;
        for (auto &f : disk_list()) if (!before.count(f)) outs.push_back(f);
        auto judge = [&](const std::string &path, const MRes &m) -> std::string {
            auto f = disk_get(path);
            if (!f) return "there is no " + path;
            auto &md = m.obs[0][0][0];
            if (dat) {
                std::vector<bliss::hit> all;
                for (auto &c : m.obs[0][0]) all.insert(all.end(), c.hits.begin(), c.hits.end());
                return report_diff(std::string(f->bytes.begin(), f->bytes.end()), md, md.foff, all);
            }
            MRes got;
            OpScope s(MAXOPS, false);
            Outcome r = guarded([&] { got = read_result("scan", path, 0); });
            if (r.threw) return "reading it failed: " + r.what;
            return result_diff(got, stored(m));
        };
        if (outs.size() != files.size()) violate("outputs", where + strf("[%s]: %zu recordings but %zu outputs", kinds.c_str(), files.size(), outs.size()));
        std::vector<bool> used(outs.size());
        std::set<std::string> stems;
        auto stem = [&](int f) { auto s = ins[f].path; s = s.substr(s.rfind('/') + 1); return s.substr(0, s.size() - 3); };
        std::map<std::string, int> same;
        for (int f : files) ++same[stem(f)];
        for (size_t k = 0; k < files.size(); ++k) {
            std::string name; // where its output has to be, if the command line says so
            if (!op.has("out") && same[stem(files[k])] == 1) name = "/simdisk/cwd/" + stem(files[k]) + ".capnp";
            if (op.has("out") && files.size() == 1) name = op.s("out")[0] == '/' ? op.s("out") : "/simdisk/cwd/" + op.s("out");
            if (!name.empty()) {
                std::string d = judge(name, want[k]);
                if (!d.empty()) violate("output:wrong", where + strf("[%s]: output of recording %zu: ", kinds.c_str(), k) + d);
                for (size_t q = 0; q < outs.size(); ++q) if (outs[q] == name) used[q] = true;
            } else {
                bool found = false;
                std::string d;
                for (size_t q = 0; q < outs.size() && !found; ++q)
                    if (!used[q]) { d = judge(outs[q], want[k]); if (d.empty()) { found = true; used[q] = true; } }
                if (!found) violate("output:missing", where + strf("[%s]: no output holds the hits of recording %zu alone (last difference: ", kinds.c_str(), k) + d + ")");
            }
            checked();
            probe(2);
            // the strong tone is among them
            auto &in = ins[files[k]];
            Opts x = opts(op);
            int64_t rel = in.chan - x.c, rate = std::llround(in.slope * (double)in.T);
            if (op.i("tone") && rel >= 0 && rel < x.n && rate >= x.lo + 3 && rate < x.hi - 3) { // (its drift is among those searched)
                bool hit = false;
                std::string all;
                for (auto &h : want[k].obs[0][0].at(rel).hits) {
                    all += show_hit(h) + "; ";
                    double hz = in.foff * 1e6 * in.slope / 18.25;
                    if (std::fabs((double)h.start_freq_index - in.start) <= 3 && std::fabs(h.drift_rate_Hz_per_sec - hz) <= 2.5 * std::fabs(in.foff) * 1e6 / 18.25 / (double)(in.T - 1)) hit = true;
                }
                if (!hit) violate("tone", where + strf("recording %zu: the tone at bin %g drifting %g bins per spectrum (index %lld) in channel %lld is not among the hits: ", k, in.start, in.slope, (long long)rate, (long long)in.chan) + all.substr(0, 1500));
                probe(3);
            }
        }
        note(strf("run %zu", outs.size()));
        clean();
    }
}
Plan generate(uint64_t seed, bool thorough) {
    Rng r(mix(seed, 8));
    Plan p;
    int n = 1 + (int)r.below(3);
    int64_t fpc = 128 << r.below(2), T = 8 << r.below(2), nco = 1 + r.below(3);
    bool tiny = r.chance(0.12); // few fine channels or spectra: drifts can cross the whole channel
    if (tiny) { fpc = 16 + (int64_t)r.below(80); T = r.chance(0.3) ? 1 + r.below(3) : 4 + r.below(8); nco = 1 + r.below(6); }
    static const char *names[] = {"a", "b.0000", "blc00_guppi_59000"};
    std::vector<int> ids;
    bool clash = r.chance(0.2);
    for (int k = 0; k < n; ++k) {
        auto &o = p.add("input");
        int64_t top = std::max<int64_t>(1, std::min<int64_t>(6, fpc / 16));
        double slope = (double)(1 + (int64_t)r.below(top)) / 2 * (r.chance(0.5) ? 1 : -1);
        if (std::fabs(slope) * T > fpc / 8.0) slope = (slope < 0 ? -1 : 1) * 0.5;
        o.set("T", T).set("fpc", fpc).set("nco", nco).set("seed", (int64_t)(r.next() % 100000000)).set("chan", r.below(8)).setd("slope", slope).set("at", r.below(1000)).set("up", r.chance(0.3)).set("name", names[clash ? 0 : k]).set("dir", strf("d%d/", k)).set("id", k);
        ids.push_back(o.id);
    }
    bool taps = r.chance(0.25);
    if (taps) p.add("taps").set("n", r.chance(0.15) ? fpc - 1 - (int64_t)r.below(9) : fpc).set("seed", r.below(1000));
    int m = 1 + (int)r.below(thorough ? 3 : 2);
    for (int k = 0; k < m; ++k) {
        auto &o = p.add("run");
        int cnt = 1 + (int)r.below(ids.size() + (r.chance(0.1) ? 1 : 0));
        std::string f;
        std::vector<int> v = ids;
        for (int j = 0; j < cnt; ++j) {
            if (v.empty()) v = ids;
            size_t q = r.below(v.size());
            f += strf("%s%d", j ? "," : "", v[q]);
            v.erase(v.begin() + q);
        }
        o.set("files", f).set("per", fpc);
        int64_t c = (int64_t)r.below(nco), nc = 1 + (int64_t)r.below(nco - c);
        if (r.chance(0.03)) nc += 2;
        if (c || r.chance(0.5)) o.set("c", c);
        if (nc > 1 || r.chance(0.5)) o.set("nc", nc);
        bool tone = true;
        int lim = 16 + (int)r.below(40);
        if (r.chance(0.3)) { int lo = -(int)r.below(60), hi = 2 + (int)r.below(60); o.set("lo", lo).set("hi", hi); if (lo > -lim || hi < lim) tone = false; }
        else if (!tiny || r.chance(0.3)) o.set("lo", -lim - 40).set("hi", lim + 40); // else the tool's own range
        if (tiny) tone = false;
        if (r.chance(0.15)) { o.set("rs", 1 + (int64_t)r.below(3)); tone = false; }
        if (r.chance(0.2)) o.set("desmear", r.below(2));
        if (r.chance(0.35)) { o.set("local", r.chance(0.6)); if (o.i("local") && o.i("hi") < lim + 40) tone = false; } // local maxima need their whole neighbourhood inside the plane
        if (r.chance(0.3)) o.set("snr", 5 + (int64_t)r.below(8));
        if (r.chance(0.2)) { o.set("dist", 1 + (int64_t)r.below(9)); tone = false; }
        if (r.chance(0.2)) o.setd("roll", 0.05 * (double)(1 + r.below(5)));
        if (r.chance(0.7)) { o.set("skl", 0); if (r.chance(0.3)) o.set("skh", 20 + (int64_t)r.below(60)); }
        else tone = false; // few spectra: low kurtosis may strike any path by chance, and hits on it are dropped
        if (r.chance(0.15)) { o.set("sci", r.below(4)); o.set("scl", 3 + (int64_t)r.below(3)).set("sch", 4 + (int64_t)r.below(5)); }
        if (taps && r.chance(0.7)) o.set("taps", "/simdisk/taps.f32");
        if (!r.chance(0.08)) o.set("device", r.chance(0.9) ? "cpu" : "cuda:0");
        if (r.chance(0.5)) {
            static const char *outs[] = {"out.capnp", "/simdisk/res/out.dat", "hits.dat", "plain", "/simdisk/res/x.cp"};
            o.set("out", outs[r.below(5)]);
            if (r.chance(0.3)) o.set("format", r.chance(0.5) ? "dat" : "capnp");
        }
        if (r.chance(0.05)) o.set("absent", 1 + (int64_t)r.below(4));
        o.set("tone", tone);
        if (r.chance(0.7)) o.set("order", 1 + (int64_t)r.below(1000000));
        if (r.chance(0.05)) o.set("early", 1);
        if (r.chance(0.02)) o.set("bad", 1 + (int64_t)r.below(12));
    }
    return p;
}
Property c08() {
    Property p;
    p.id = "C08";
    p.what = "bliss_find_hits";
    p.generate = generate;
    p.execute = execute;
    p.kinds[C_READ] = {"short", "eintr", "eio"};
    p.kinds[C_OPEN] = {"eio", "eacces", "emfile", "enospc"};
    p.kinds[C_STAT] = {"eio"};
    p.kinds[C_WRITE] = {"short", "short", "eintr", "enospc", "eio", "edquot"};
    p.kinds[C_CLOSE] = {"eio", "enospc", "edquot"};
    p.kinds[C_NEW] = {"fail"};
    p.kinds[C_ALLOC] = {"fail"};
    p.faultable = [](const Op &o) { return o.name == "run"; };
    p.fault_runs = 4;
    p.max_faults = 2;
    p.quick_plans = 2000;
    p.thorough_plans = 20000;
    p.probe_names = {"runs with split or interrupted I/O and complete outputs", "runs failed by a fault", "outputs compared with the recording processed alone", "strong tones found", "runs with unusable input refused", "runs refused for their device", "command lines refused"};
    p.real_components = "bliss_find_hits (its main), the whole search pipeline, HDF5 reader, result writers";
    p.stub_components = "disk: in-memory files with fault injection";
    p.rule = "seeded recordings with a known strong tone and command lines are run through the tool under read, write, open, close and allocation faults; status 0 requires one output per recording, equal to an undisturbed pipeline over that recording alone and holding its tone; any fault that cannot be absorbed must give a failure status.";
    return p;
}
Register r08(c08());
} // namespace

// C04: HDF5 recordings in every layout, on storage that splits, interrupts, fails, truncates or corrupts.
#include "h5gen.hpp"
#include <core/scan.hpp>
#include <file_types/h5_filterbank_file.hpp>
#include <hdf5.h>
#include <optional>

using namespace sim;
namespace {
const std::vector<std::string> SAMPLE = {"f32", "f32", "f32", "f64", "i8", "u8", "i16", "u16", "i32", "u32", "f32be", "i16be"};
const std::vector<std::string> NUM = {"f64", "f64", "f32", "i16", "i32", "i64", "u16", "u32", "u64", "f64be", "f32be", "i32be", "i16be", "u16be", "i8", "u8"};
const std::vector<std::string> INTS = {"i64", "i64", "i32", "u32", "i16", "u16", "u64", "f64", "f32", "i32be", "i64be", "i8", "u8"};

struct Want { // the recording as stored
    H5Spec s;
    int64_t T = 1, F = 1;
    std::string known;
    bool corrupt = false, truncated = false, bad_layout = false;
    int64_t cor_lo_t = 0, cor_hi_t = 0, cor_lo_f = 0, cor_hi_f = 0; // samples in a chunk that was damaged
    std::map<std::string, H5Attr> attr;
    bool has(const std::string &n) const { auto i = attr.find(n); return i != attr.end() && i->second.type != "none"; }
    double num(const std::string &n) const { auto &a = attr.at(n); return h5_round(a.type, a.num); }
    Arr window(int64_t t0, int64_t f0, int64_t nt, int64_t nf) const {
        Arr a;
        a.shape = {nt, nf};
        a.bytes.resize(nt * nf * 4);
        for (int64_t t = 0; t < nt; ++t)
            for (int64_t f = 0; f < nf; ++f) {
                float v = (float)h5_round(s.type, s.value(t0 + t, f0 + f));
                memcpy(&a.bytes[(t * nf + f) * 4], &v, 4);
            }
        return a;
    }
    bool touches(int64_t t0, int64_t f0, int64_t nt, int64_t nf) const { return corrupt && t0 < cor_hi_t && t0 + nt > cor_lo_t && f0 < cor_hi_f && f0 + nf > cor_lo_f; }
};
double sample(uint64_t seed, const std::string &type, int64_t t, int64_t f) {
    uint64_t h = mix(seed, (uint64_t)t * 1000003 + (uint64_t)f);
    if (type[0] == 'f') {
        switch (h % 37) {
        case 0: return 0;
        case 1: return (double)(float)1e30f;
        case 2: return (double)(float)-3e-30f;
        default: return (double)(float)(((h >> 8) % 1000003) / 977.0 - 300);
        }
    }
    int bits = std::stoi(type.substr(1));
    double lo = type[0] == 'u' ? 0 : -std::pow(2, bits - 1), n = std::pow(2, std::min(bits, 24));
    if (bits > 24 && type[0] != 'u') lo = -std::pow(2, 23);
    return std::floor(lo + (double)(h % (uint64_t)n));
}
Want make(const Op &o) {
    Want w;
    H5Spec &s = w.s;
    w.T = s.T = o.i("T");
    w.F = s.F = o.i("F");
    s.nif = o.i("nif", 1);
    s.type = o.s("type");
    s.chunk_t = (int)o.i("ct");
    s.chunk_f = (int)o.i("cf");
    s.deflate = (int)o.i("deflate");
    s.shuffle = o.i("shuffle");
    s.fletcher = o.i("fletcher");
    s.latest = o.i("latest");
    s.labels = o.s("labels");
    std::string ord = o.s("order", "tif"); // t i(feed) f, x: something else
    s.label_names.clear();
    for (char c : ord) s.label_names.push_back(c == 't' ? "time" : c == 'i' ? "feed_id" : c == 'f' ? "frequency" : "polarization");
    s.mask = o.i("mask");
    s.root_attrs = o.i("root", 1);
    uint64_t seed = (uint64_t)o.i("seed");
    std::string ty = s.type;
    s.value = [seed, ty](int64_t t, int64_t f) { return sample(seed, ty, t, f); };
    Rng r(mix(seed, 99));
    auto num = [&](const char *n, double v, const std::vector<std::string> &types, bool optional) {
        std::string t = types[r.below(types.size())];
        bool plain = !o.i("odd");
        if (plain) t = v == std::floor(v) && r.chance(0.5) ? "i64" : "f64";
        if (t[0] == 'i' || t[0] == 'u') { // a value the type can hold
            v = std::floor(v);
            if (t[0] == 'u') v = std::fabs(v);
            int bits = std::stoi(t.substr(1));
            double top = std::pow(2, std::min(t[0] == 'u' ? bits : bits - 1, 52)) - 1;
            if (std::fabs(v) > top) v = std::fmod(v, top);
        } else if (t.rfind("f32", 0) == 0) v = (double)(float)v;
        if (optional && o.i("sparse") && r.chance(0.4)) t = "none";
        s.attrs.push_back({n, t, v, ""});
    };
    auto flt = [&](const char *n, double v, bool optional) { num(n, v, NUM, optional); };
    auto ints = [&](const char *n, double v, bool optional) { num(n, v, INTS, optional); };
    num("fch1", 1000 + 7000 * r.unit(), {"f64", "f64", "f32", "f64be"}, false);
    w.known = o.s("known", "");
    const double sgn = r.chance(0.5) ? -1 : 1;
    const std::string known = o.s("known", ""); // a published channelisation
    num("foff", sgn * (known == "mr" ? 2860e-6 : known == "htr" ? 0.36621 : 2.79e-6), {"f64", "f64be", "f64"}, false);
    static const char *names[] = {"VOYAGER-1", "HIP 1234", "a", "3C286 calibrator, band 2", "TIC0001_off"};
    std::string nm = names[r.below(5)];
    int sk = (int)r.below(3);
    s.attrs.push_back({"source_name", !o.i("odd") || sk == 0 ? "vstr" : sk == 1 ? "fstr" : "fstrpad", 0, nm});
    flt("src_dej", 180 * r.unit() - 90, false);
    flt("src_raj", 24 * r.unit(), false);
    auto wide = [&](double small) { // identifiers of any size
        if (!r.chance(0.5)) return small;
        double v = (double)(r.next() >> (12 + r.below(51)));
        return r.chance(0.3) ? -v : v;
    };
    ints("telescope_id", wide((double)r.below(70)), false);
    if (known.empty()) flt("tsamp", 1 + 17 * r.unit(), false);
    else num("tsamp", known == "htr" ? 0.00034953 : std::vector<double>{1.06, 1.02, 1.07}[r.below(3)], {"f64", "f64be"}, false);
    num("tstart", 50000 + 9000 * r.unit(), {"f64", "f64", "f64be", "f32"}, false);
    ints("machine_id", wide((double)r.below(100)), true);
    flt("az_start", 100 * r.unit(), true);
    flt("za_start", 100 * r.unit(), true);
    ints("data_type", 1, true);
    ints("nbits", 32, true);
    num("nchans", (double)s.F, {"i64", "i32", "i64", "u32", "f64", "i32be", s.F < 32768 ? "i16" : "i32"}, false);
    ints("nifs", 1, true);
    if (o.has("drop")) for (auto &a : s.attrs) if (a.name == o.s("drop")) a.type = "none";
    for (auto &a : s.attrs) w.attr[a.name] = a;
    w.bad_layout = s.labels == "none" || s.nif != 1 || (ord != "tif" && ord != "fit");
    return w;
}
bool refusable(const Want &w) { // must a scan of it be refused?
    return w.bad_layout || w.truncated || !w.has("fch1") || !w.has("foff") || !w.has("source_name") || !w.has("src_dej") || !w.has("src_raj") || !w.has("telescope_id") || !w.has("tsamp") || !w.has("tstart") || !w.has("nchans");
}
// damages one byte of one stored chunk; returns whether there was one
bool damage(const std::string &path, Want &w, uint64_t seed) {
    HarnessScope h;
    Rng r(seed);
    hid_t f = H5Fopen(path.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
    if (f < 0) return false;
    hid_t d = H5Dopen2(f, "data", H5P_DEFAULT), sp = H5Dget_space(d);
    hsize_t n = 0, off[3] = {0, 0, 0}, size = 0;
    unsigned mask = 0;
    haddr_t addr = 0;
    bool ok = H5Dget_num_chunks(d, sp, &n) >= 0 && n > 0 && H5Dget_chunk_info(d, sp, r.below(n), off, &mask, &addr, &size) >= 0 && size > 0;
    H5Sclose(sp);
    H5Dclose(d);
    H5Fclose(f);
    if (!ok) return false;
    auto vf = disk_get(path);
    uint64_t at = addr + r.below(size);
    if (at >= vf->bytes.size()) return false;
    std::vector<uint8_t> b = vf->bytes;
    b[at] ^= (uint8_t)(1 + r.below(255));
    disk_put(path, b);
    w.corrupt = true;
    w.cor_lo_t = off[0];
    w.cor_hi_t = std::min<int64_t>(w.T, off[0] + std::min<int64_t>(w.s.chunk_t, w.T));
    w.cor_lo_f = off[2];
    w.cor_hi_f = std::min<int64_t>(w.F, off[2] + std::min<int64_t>(w.s.chunk_f, w.F));
    return true;
}

struct Run {
    const Plan &p;
    std::map<int, Want> recs;
    std::map<int, std::pair<int, std::shared_ptr<bliss::h5_filterbank_file>>> files;
    std::map<int, std::pair<int, std::shared_ptr<bliss::scan>>> scans;
    explicit Run(const Plan &q) : p(q) {}
    static std::string path(int id) { return strf("/simdisk/in%d.h5", id); }
    // runs f; when it failed although nothing was refused, that is a violation (unless may); a failed run is repeated without faults
    Outcome attempt(const Op &op, const std::string &where, const std::function<void()> &f, bool must_fail, bool may_fail) {
        Outcome o;
        { OpScope sc(op.id); o = guarded(f); }
        checked();
        bool fired = fault_fired_in_op(op.id), hard = hard_fault_in_op(op.id);
        if (fired) probe(0);
        if (must_fail && !o.threw) violate("accepted", where + ": succeeded although it has to be refused");
        if (o.threw && !must_fail && !may_fail && !hard) violate(fired ? "benign:failed" : "refused", where + ": failed" + (fired ? " although storage only split or interrupted the transfer: " : " on an intact recording: ") + o.what);
        if (o.threw && hard && !must_fail && !may_fail) {
            probe(1);
            OpScope sc(op.id, false);
            o = guarded(f);
            if (o.threw) violate("retry:failed", where + ": still fails after the fault has gone: " + o.what);
        }
        return o;
    }
    void meta(const std::string &where, bliss::scan &sc, const Want &w, const Op &op) {
        std::string bad;
        auto eq = [&](const char *n, double got, double want) { if (!(got == want)) bad += strf(" %s %.17g stored %.17g;", n, got, want); };
        auto g = guarded([&] {
            eq("fch1", sc.fch1(), w.num("fch1"));
            eq("foff", sc.foff(), w.num("foff"));
            eq("tsamp", sc.tsamp(), w.num("tsamp"));
            eq("tstart", sc.tstart(), w.num("tstart"));
            eq("src_dej", sc.src_dej(), w.num("src_dej"));
            eq("src_raj", sc.src_raj(), w.num("src_raj"));
            eq("telescope_id", (double)sc.telescope_id(), std::trunc(w.num("telescope_id")));
            eq("nchans", (double)sc.nchans(), (double)w.F);
            eq("ntsteps", (double)sc.ntsteps(), (double)w.T);
            eq("nifs", (double)sc.nifs(), 1);
            if (w.has("nbits")) eq("nbits", (double)sc.nbits(), 32);
            eq("data_type", (double)sc.data_type(), 1);
            if (w.has("machine_id")) eq("machine_id", (double)sc.machine_id(), std::trunc(w.num("machine_id")));
            if (w.has("az_start")) eq("az_start", sc.az_start(), w.num("az_start"));
            if (w.has("za_start")) eq("za_start", sc.za_start(), w.num("za_start"));
            eq("duration", sc.tduration_secs(), (double)w.T * w.num("tsamp"));
            HarnessScope h;
            std::string n = sc.source_name();
            if (n != w.attr.at("source_name").text) bad += " source_name '" + n + "' stored '" + w.attr.at("source_name").text + "'" + strf(" (%d characters)", (int)n.size());
        });
        checked();
        if (g.threw) bad += " failed: " + g.what;
        if (!bad.empty()) violate("metadata", where + ":" + bad);
        (void)op;
    }
    void step(const Op &op) {
        HarnessScope hs;
        std::string where = strf("op %d %s", op.id, op.name.c_str());
        if (op.name == "rec") {
            recs[op.id] = make(op);
            h5_write(path(op.id), recs[op.id].s);
            return;
        }
        int ri = (int)op.i("rec", -1);
        if (recs.count(ri)) {
            Want &w = recs[ri];
            where += strf(" [%s %lldx%lld chunk %dx%d deflate %d fletcher %d labels %s]", w.s.type.c_str(), (long long)w.T, (long long)w.F, w.s.chunk_t, w.s.chunk_f, w.s.deflate, w.s.fletcher, w.s.labels.c_str());
            if (op.name == "truncate") {
                auto f = disk_get(path(ri));
                std::vector<uint8_t> b = f->bytes;
                size_t cut = 1 + (size_t)op.i("cut") % b.size();
                b.resize(b.size() - cut);
                disk_put(path(ri), b);
                w.truncated = true;
                return;
            }
            if (op.name == "damage") { if (!w.truncated && (w.s.fletcher) && damage(path(ri), w, (uint64_t)op.i("seed"))) probe(2); return; }
            if (op.name == "openf") {
                std::shared_ptr<bliss::h5_filterbank_file> f;
                auto x = attempt(op, where, [&] { f.reset(); f = std::make_shared<bliss::h5_filterbank_file>(path(ri)); }, w.truncated, false);
                if (!x.threw) files[op.id] = {ri, f};
                else probe(3);
                return;
            }
            if (op.name == "scan") {
                std::shared_ptr<bliss::scan> s;
                int fpc = (int)op.i("fpc");
                if (fpc > w.F) fpc = (int)w.F;
                auto x = attempt(op, where, [&] { s.reset(); s = std::make_shared<bliss::scan>(path(ri), fpc); }, refusable(w), false);
                if (x.threw) { probe(3); return; }
                meta(where, *s, w, op);
                int64_t n = s->get_number_coarse_channels();
                checked();
                if (fpc && n != w.F / fpc) violate("geometry", where + strf(": %lld coarse channels of %d fine channels from %lld", (long long)n, fpc, (long long)w.F));
                if (!fpc) { // divided as published, else into equal parts of a workable size
                    int64_t want = w.known == "mr" ? w.F / 1024 : w.known == "htr" ? w.F / 8 : w.F < (1 << 18) ? 1 : (w.F % (1 << 18)) % (w.F >> 18) == 0 ? w.F >> 18 : 0;
                    if (want && n != want) violate("geometry", where + strf(": inferred %lld coarse channels from %lld fine channels (%s), expected %lld", (long long)n, (long long)w.F, w.known.c_str(), (long long)want));
                    if (w.known != "") probe(9);
                }
                if (!fpc && (n < 1 || w.F % n)) violate("geometry", where + strf(": inferred %lld coarse channels from %lld fine channels", (long long)n, (long long)w.F));
                scans[op.id] = {ri, s};
                return;
            }
            return;
        }
        int si = (int)op.i("src", -1);
        if (files.count(si)) {
            auto &f = files[si].second;
            Want &w = recs[files[si].first];
            if (op.name == "shape") {
                std::vector<int64_t> sh;
                bool must = w.bad_layout || !w.has("nchans");
                auto x = attempt(op, where, [&] { sh = f->get_data_shape(); }, must, false);
                if (x.threw) return;
                if (sh != std::vector<int64_t>{w.T, 1, w.F}) violate("shape", where + ": wrong shape");
                return;
            }
            if (op.name == "window" || op.name == "mask") {
                if (w.bad_layout || !w.has("nchans")) return;
                int64_t t0 = op.i("t0") % w.T, f0 = op.i("f0") % w.F, nt = 1 + op.i("nt") % (w.T - t0), nf = 1 + op.i("nf") % (w.F - f0);
                std::vector<int64_t> off{t0, 0, f0}, cnt{nt, 1, nf};
                std::string form = op.s("form", "both");
                bool must = false;
                if (form == "none") { off = {}; cnt = {}; t0 = f0 = 0; nt = w.T; nf = w.F; }
                if (form == "offset") { cnt = {}; nt = w.T - t0; nf = w.F - f0; }
                if (form == "count") { off = {}; t0 = f0 = 0; }
                if (form == "over_f") { cnt[2] = w.F - f0 + 1 + op.i("by") % 5; must = true; }
                if (form == "over_t") { cnt[0] = w.T - t0 + 1 + op.i("by") % 5; must = true; }
                if (form == "far") { off[2] = w.F + op.i("by") % 100; must = true; }
                if (form == "neg") { off[2] = -1 - op.i("by") % 5; must = true; }
                if (form == "feed") { off[1] = 1; must = true; }
                bool dmg = !must && w.touches(t0, f0, nt, nf);
                std::string wh = where + strf(" (%s) t %lld+%lld f %lld+%lld", form.c_str(), (long long)t0, (long long)nt, (long long)f0, (long long)nf) + strf(" of %s %lldx%lld", w.s.type.c_str(), (long long)w.T, (long long)w.F);
                Arr got;
                if (op.name == "mask") {
                    if (must) return;
                    auto x = attempt(op, wh, [&] { got = grab(f->read_mask(off, cnt)); }, false, false);
                    if (x.threw) return;
                    if (got.shape != std::vector<int64_t>{nt, nf} || got.bits != 8) violate("mask", wh + ": wrong shape or type");
                    for (char c : got.bytes) if (c) violate("mask", wh + ": fresh mask has flags");
                    return;
                }
                auto x = attempt(op, wh, [&] { got = grab(f->read_data(off, cnt)); }, must, dmg);
                if (x.threw) { probe(dmg ? 4 : must ? 5 : 6); return; }
                Arr want = w.window(t0, f0, nt, nf);
                std::string d = arr_diff(got, want);
                if (!d.empty()) violate(dmg ? "data:damaged" : "data", wh + ": " + d);
                probe(7);
                if (fault_fired_in_op(op.id)) probe(6);
                note(strf("w%llx", (unsigned long long)fnv(got.bytes)));
                return;
            }
            if (op.name == "attr") {
                for (auto &a : w.s.attrs) {
                    if (a.name != op.s("name")) continue;
                    bool text = a.name == "source_name";
                    bool must = a.type == "none";
                    double v = 0;
                    std::string sv;
                    std::string as = op.s("as", "d");
                    if (!text && as == "i4" && std::fabs(h5_round(a.type, a.num)) > 2e9) as = "i"; // not a value an int32 can hold
                    bool wrong = as == "x"; // asked for as the kind of attribute it is not
                    must |= wrong;
                    auto x = attempt(op, where + " " + a.name + " (" + a.type + ")", [&] {
                        if (wrong && text) v = f->read_data_attr<double>(a.name);
                        else if (text || wrong) sv = f->read_data_attr<std::string>(a.name);
                        else if (as == "d") v = f->read_data_attr<double>(a.name);
                        else if (as == "f") v = f->read_data_attr<float>(a.name);
                        else if (as == "i4") v = f->read_data_attr<int32_t>(a.name);
                        else v = (double)f->read_data_attr<int64_t>(a.name);
                    }, must, false);
                    if (x.threw || wrong) return;
                    double want = h5_round(a.type, a.num);
                    if (as == "f") want = (double)(float)want;
                    if (as[0] == 'i') want = std::trunc(want);
                    if (text ? sv != a.text : v != want) violate("attribute", where + " " + a.name + " (" + a.type + " as " + as + "): read " + (text ? "'" + sv + "'" : strf("%.17g", v)) + " stored " + (text ? "'" + a.text + "'" : strf("%.17g", want)));
                    probe(8);
                }
                return;
            }
        }
        if (scans.count(si)) {
            auto &s = scans[si].second;
            Want &w = recs[scans[si].first];
            if (op.name == "chan") {
                int64_t n = s->get_number_coarse_channels();
                if (n < 1) return;
                int64_t ch = op.i("ch") % n;
                int64_t fpc = 0;
                Arr got, m;
                std::shared_ptr<bliss::coarse_channel> cc;
                // the geometry the scan reports: equal channels over the band
                fpc = op.i("fpc") ? std::min<int64_t>(op.i("fpc"), w.F) : w.F / n;
                bool dmg = w.touches(0, ch * fpc, w.T, fpc);
                std::string wh = where + strf(" channel %lld of %lld", (long long)ch, (long long)n);
                auto x = attempt(op, wh, [&] { cc = s->read_coarse_channel((int)ch); got = grab(cc->data()); m = grab(cc->mask()); }, false, dmg);
                if (x.threw) { probe(dmg ? 4 : 6); return; }
                Arr want = w.window(0, ch * fpc, w.T, fpc);
                std::string d = arr_diff(got, want);
                if (!d.empty()) violate("data:channel", wh + ": " + d);
                if (m.shape != want.shape) violate("mask", wh + ": mask and data differ in shape");
                for (char c : m.bytes) if (c) violate("mask", wh + ": fresh mask has flags");
                double wf = w.num("fch1") + w.num("foff") * (double)(ch * fpc);
                if (std::fabs(cc->fch1() - wf) > 1e-8 || cc->nchans() != fpc || cc->foff() != w.num("foff")) violate("metadata:channel", wh + strf(": fch1 %.12g want %.12g nchans %lld want %lld", cc->fch1(), wf, (long long)cc->nchans(), (long long)fpc));
                probe(7);
                return;
            }
        }
    }
};
void execute(const Plan &p) {
    Run r(p);
    for (auto &op : p.ops) r.step(op);
    HarnessScope h;
    r.files.clear();
    r.scans.clear();
}
Plan generate(uint64_t seed, bool thorough) {
    Rng r(mix(seed, 4));
    Plan p;
    int nrec = 1 + (int)r.below(2);
    struct G { int rec; int fpc; bool file; int id; };
    std::vector<G> src;
    for (int k = 0; k < nrec; ++k) {
        auto &o = p.add("rec");
        int64_t T = 1 + r.below(12), F = r.chance(0.08) ? 1 + r.below(3) : 8 + r.below(r.chance(0.15) ? 3000 : 220);
        std::string known = r.chance(0.1) ? "htr" : r.chance(0.1) ? "mr" : "";
        if (known == "htr") F = 8 * (1 + r.below(12));
        if (known == "mr") F = 1024 * (1 + r.below(4));
        bool large = known.empty() && r.chance(0.006);
        if (large) { T = 1; F = (int64_t)(1 << 18) * (1 + r.below(3)) + r.below(5); }
        if (!known.empty()) o.set("known", known);
        o.set("T", T).set("F", F).set("type", SAMPLE[r.below(SAMPLE.size())]).set("seed", (int64_t)(r.next() % 1000000000)).set("odd", r.chance(0.55)).set("sparse", r.chance(0.4)).set("latest", r.chance(0.3)).set("mask", r.chance(0.3));
        o.set("root", !r.chance(0.15)).set("labels", r.chance(0.75) ? "vstr" : "fstr");
        if (r.chance(0.7)) {
            o.set("ct", 1 + r.below(T)).set("cf", large || r.chance(0.3) ? F : 1 + (int64_t)r.below(F));
            o.set("deflate", r.chance(0.4) ? 1 + r.below(6) : 0).set("shuffle", r.chance(0.3)).set("fletcher", r.chance(0.5));
        }
        if (r.chance(0.1)) o.set("order", r.chance(0.6) ? "fit" : r.chance(0.5) ? "tix" : r.chance(0.5) ? "tf" : "tff");
        if (r.chance(0.03)) o.set("labels", "none");
        if (r.chance(0.03)) o.set("nif", 2);
        if (r.chance(0.06)) { static const char *d[] = {"fch1", "foff", "source_name", "tsamp", "tstart", "telescope_id", "nchans", "src_raj"}; o.set("drop", d[r.below(8)]); }
        int rec = o.id;
        bool fletch = o.i("fletcher");
        if (r.chance(0.1)) p.add("truncate").set("rec", rec).set("cut", r.chance(0.4) ? r.below(16) : r.below(1 << 20));
        else if (fletch && r.chance(0.35)) p.add("damage").set("rec", rec).set("seed", (int64_t)r.below(1 << 30));
        int ns = 1 + (int)r.below(2);
        for (int q = 0; q < ns; ++q) {
            if (r.chance(0.5)) { auto &f = p.add("openf"); f.set("rec", rec); src.push_back({rec, 0, true, f.id}); }
            else {
                auto &s = p.add("scan");
                int fpc = r.chance(large || !known.empty() ? 0.6 : 0.15) ? 0 : 1 + (int)r.below(F);
                if (r.chance(0.5)) for (int d = 1 + (int)r.below(6); d > 0; --d) if (F % d == 0) { fpc = (int)(F / d); break; }
                s.set("rec", rec).set("fpc", fpc);
                src.push_back({rec, fpc, false, s.id});
            }
        }
    }
    int n = 3 + (int)r.below(thorough ? 24 : 12);
    static const char *attrs[] = {"fch1", "foff", "source_name", "src_dej", "src_raj", "telescope_id", "tsamp", "tstart", "machine_id", "az_start", "za_start", "data_type", "nbits", "nchans", "nifs"};
    for (int k = 0; k < n; ++k) {
        G &g = r.pick(src);
        if (!g.file) { p.add("chan").set("src", g.id).set("fpc", g.fpc).set("ch", r.below(64)); continue; }
        double u = r.unit();
        if (u < 0.08) p.add("shape").set("src", g.id);
        else if (u < 0.3) { static const char *as[] = {"d", "d", "f", "i", "i4", "x"}; p.add("attr").set("src", g.id).set("name", attrs[r.below(15)]).set("as", as[r.below(6)]); }
        else {
            auto &o = p.add(r.chance(0.1) ? "mask" : "window");
            static const char *fm[] = {"both", "both", "both", "both", "none", "offset", "count", "over_f", "over_t", "far", "neg", "feed"};
            o.set("src", g.id).set("t0", r.below(1000)).set("f0", r.below(100000)).set("nt", r.below(1000)).set("nf", r.chance(0.3) ? 0 : r.below(100000)).set("form", fm[r.below(12)]).set("by", r.below(100));
        }
    }
    return p;
}
Property c04() {
    Property p;
    p.id = "C04";
    p.what = "ingest";
    p.generate = generate;
    p.execute = execute;
    p.kinds[C_READ] = {"short", "eintr", "eio", "eio"};
    p.kinds[C_OPEN] = {"eio", "eacces", "emfile", "enoent"};
    p.kinds[C_STAT] = {"eio"};
    p.kinds[C_SEEK] = {"eio"};
    p.kinds[C_ALLOC] = {"fail"};
    p.kinds[C_NEW] = {"fail"};
    p.fault_runs = 4;
    p.max_faults = 3;
    p.quick_plans = 8000;
    p.thorough_plans = 200000;
    p.probe_names = {"operations struck by a fault", "operations that failed and were repeated", "recordings damaged", "opens refused", "damaged reads refused", "out-of-range windows refused", "comparisons in an operation struck by a fault", "windows and channels compared", "attributes compared", "published channelisations inferred"};
    p.real_components = "h5_filterbank_file, scan and channel readers, bland arrays and HDF5 (real library)";
    p.stub_components = "disk: in-memory files with fault injection";
    p.rule = "seeded recordings over sample types, chunkings, filters, format versions, attribute and label types, intact, truncated or with a damaged checksummed chunk; every window, attribute and channel read is compared with the value the harness stored, or must fail; read faults split, interrupt or fail the transfers.";
    return p;
}
Register r04(c04());
} // namespace

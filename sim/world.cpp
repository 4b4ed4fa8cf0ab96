#include "world.hpp"

#include <drift_search/event_search.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <estimators/noise_estimate.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
#include <file_types/h5_filterbank_file.hpp>

#include <algorithm>
#include <cmath>

namespace sim {
// ------------------------------------------------------------------ recordings
Rec Rec::of(const Op &o) {
    Rec r;
    r.id = o.id;
    r.fpc = o.i("fpc", 32);
    r.nco = o.i("nco", 2);
    r.T = o.i("T", 4);
    r.fch1 = o.d("fch1", 8000);
    r.foff = o.d("foff", -2.79e-6);
    r.tsamp = o.d("tsamp", 18.25);
    r.tstart = o.d("tstart", 59000);
    r.name = o.s("name", "src");
    r.seed = (uint64_t)o.i("seed", 1);
    r.tones = (int)o.i("tones", 2);
    r.layout = (int)o.i("layout", 0);
    Rng g(mix(r.seed, 3));
    for (int k = 0; k < r.tones; ++k) {
        double slope = g.range(-4, 4) / 2.0;
        double start = (double)g.below(r.fpc * r.nco);
        r.tone.push_back({start, slope, 20 + 200 * g.unit()});
    }
    if (o.has("tone")) { // a common tone, so that different recordings can share a signal
        Rng t((uint64_t)o.i("tone"));
        for (int k = 0; k < 1 + (o.i("tone") % 2); ++k) r.tone.push_back({(double)t.below(r.fpc * r.nco), t.range(-3, 3) / 2.0, 150});
    }
    return r;
}
double Rec::value(int64_t t, int64_t f) const {
    uint64_t h = mix(seed, (uint64_t)t * 1000003 + (uint64_t)f);
    double n = 0;
    for (int k = 0; k < 4; ++k) n += ((h >> (16 * k)) & 0xffff) / 65536.0;
    double v = 10 + 2 * n;
    for (auto &x : tone)
        if ((int64_t)std::floor(x[0] + x[1] * t) == f) v += x[2];
    return (double)(float)v;
}
Arr Rec::samples(int64_t g) const {
    Arr a;
    a.shape = {T, fpc};
    a.bytes.resize(T * fpc * 4);
    for (int64_t t = 0; t < T; ++t)
        for (int64_t f = 0; f < fpc; ++f) { float v = (float)value(t, g * fpc + f); memcpy(&a.bytes[(t * fpc + f) * 4], &v, 4); }
    return a;
}
std::string eq_path(int64_t fpc, int64_t seed) { return strf("/simdisk/resp_%d_%d.f32", (int)fpc, (int)seed); }
static std::vector<float> eq_vals(int64_t fpc, int64_t seed) {
    std::vector<float> v;
    Rng r(mix(seed, 77));
    for (int64_t i = 0; i < fpc; ++i) v.push_back((float)(0.5 + r.unit()));
    return v;
}
void Rec::write() const {
    HarnessScope h;
    H5Spec s;
    s.T = T;
    s.F = fpc * nco;
    if (layout) { s.chunk_t = 1 + (int)(seed % T); s.chunk_f = (int)(layout == 1 ? fpc : 7 + seed % 40); }
    if (layout == 3) { s.deflate = 1; s.shuffle = true; }
    Rec self = *this;
    s.value = [self](int64_t t, int64_t f) { return self.value(t, f); };
    s.attrs = {{"fch1", "f64", fch1}, {"foff", "f64", foff}, {"source_name", "vstr", 0, name}, {"src_dej", "f64", 12.5}, {"src_raj", "f64", 3.25}, {"telescope_id", "i64", 6},
               {"tsamp", "f64", tsamp}, {"tstart", "f64", tstart}, {"machine_id", "i64", 21}, {"az_start", "f64", 1.5}, {"za_start", "f64", 2.5}, {"data_type", "i64", 1},
               {"nbits", "i64", 32}, {"nchans", "i64", (double)(fpc * nco)}, {"nifs", "i64", 1}};
    h5_write(path(), s);
    for (int k = 0; k < 2; ++k)
        if (!disk_get(eq_path(fpc, k))) {
            auto v = eq_vals(fpc, k);
            std::vector<uint8_t> b((uint8_t *)v.data(), (uint8_t *)(v.data() + v.size()));
            disk_put(eq_path(fpc, k), b);
        }
}

// ------------------------------------------------------------------ stages
template <class T> struct is_cc { static constexpr bool v = std::is_same<T, bliss::coarse_channel>::value; };
// a caller's own transform, added the way the library adds its own
static bliss::coarse_channel each_channel(const bliss::coarse_channel &x, std::function<bliss::coarse_channel(bliss::coarse_channel)> f) { return f(x); }
static bliss::scan each_channel(bliss::scan x, const std::function<bliss::coarse_channel(bliss::coarse_channel)> &f) { x.add_coarse_channel_transform(f); return x; }
static bliss::observation_target each_channel(bliss::observation_target x, const std::function<bliss::coarse_channel(bliss::coarse_channel)> &f) { for (auto &s : x._scans) s = each_channel(s, f); return x; }
static bliss::cadence each_channel(bliss::cadence x, const std::function<bliss::coarse_channel(bliss::coarse_channel)> &f) { for (auto &s : x._observations) s = each_channel(s, f); return x; }
template <class T> T apply_stage(const T &x, const std::string &spec) {
    std::vector<std::string> w;
    { HarnessScope h; w = split(spec, ':'); }
    auto d = [&](size_t i) { return std::stod(w.at(i)); };
    auto n = [&](size_t i) { return std::stoll(w.at(i)); };
    const std::string &k = w[0];
    if (k == "norm") return bliss::normalize(x);
    if (k == "eq") {
        bland::ndarray h;
        { HarnessScope hs; auto v = eq_vals(n(1), n(2)); h = make_array({n(1)}, bland::ndarray::datatype::float32, [&](int64_t i) { return v[i]; }); }
        return bliss::equalize_passband_filter(x, h);
    }
    if (k == "eqf") return bliss::equalize_passband_filter(x, std::string_view(eq_path(n(1), n(2))));
    if (k == "roll") return bliss::flag_filter_rolloff(x, (float)d(1));
    if (k == "sk") return bliss::flag_spectral_kurtosis(x, (float)d(1), (float)d(2), (float)d(3));
    if (k == "clip") return bliss::flag_sigmaclip(x, (int)n(1), (float)d(2), (float)d(3));
    if (k == "mag") return bliss::flag_magnitude(x);
    if (k == "magt") return bliss::flag_magnitude(x, (float)d(1));
    if (k == "noise") {
        bliss::noise_power_estimate_options o;
        o.estimator_method = bliss::noise_power_estimator::STDDEV;
        o.masked_estimate = n(1);
        if constexpr (is_cc<T>::v) { T y = x; y.set_noise_estimate(bliss::estimate_noise_power(x, o)); return y; }
        else return bliss::estimate_noise_power(x, o);
    }
    if (k == "drift") {
        bliss::integrate_drifts_options o;
        o.desmear = n(1);
        o.low_rate = n(2);
        o.high_rate = n(3);
        o.rate_step_size = n(4);
        return bliss::integrate_drifts(x, o);
    }
    if (k == "hits") {
        bliss::hit_search_options o;
        o.method = n(1) ? bliss::hit_search_methods::LOCAL_MAXIMA : bliss::hit_search_methods::CONNECTED_COMPONENTS;
        o.snr_threshold = (float)d(2);
        o.neighbor_l1_dist = (int)n(3);
        if constexpr (is_cc<T>::v) { T y = x; y.set_hits(bliss::hit_search(x, o)); return y; }
        else return bliss::hit_search(x, o);
    }
    if (k == "filt") {
        bliss::filter_options o;
        o.filter_zero_drift = n(1);
        return bliss::filter_hits(x, o);
    }
    // the same products, but produced when they are asked for
    if (k == "defer") {
        auto pol = n(1) == 0 ? bland::ndarray_deferred::eval_policy::memoize : n(1) == 1 ? bland::ndarray_deferred::eval_policy::lazy : bland::ndarray_deferred::eval_policy::eager;
        int64_t which = n(2);
        return each_channel(x, [pol, which](bliss::coarse_channel cc) {
            bliss::coarse_channel src = cc;
            if (which & 1) cc.set_data(bland::ndarray_deferred([src]() mutable { return src.data(); }, pol));
            if (which & 2) cc.set_mask(bland::ndarray_deferred([src]() mutable { return src.mask(); }, pol));
            return cc;
        });
    }
    if (k == "ldrift") {
        bliss::integrate_drifts_options o;
        o.desmear = n(1);
        o.low_rate = n(2);
        o.high_rate = n(3);
        o.rate_step_size = n(4);
        return each_channel(x, [o](bliss::coarse_channel cc) {
            bliss::coarse_channel src = cc;
            cc.set_integrated_drift_plane(std::function<bliss::frequency_drift_plane()>([src, o] { return bliss::integrate_drifts(src, o).integrated_drift_plane(); }));
            return cc;
        });
    }
    if (k == "lhits") {
        bliss::hit_search_options o;
        o.method = n(1) ? bliss::hit_search_methods::LOCAL_MAXIMA : bliss::hit_search_methods::CONNECTED_COMPONENTS;
        o.snr_threshold = (float)d(2);
        o.neighbor_l1_dist = (int)n(3);
        return each_channel(x, [o](bliss::coarse_channel cc) {
            bliss::coarse_channel src = cc;
            cc.set_hits(std::function<std::list<bliss::hit>()>([src, o] { return bliss::hit_search(src, o); }));
            return cc;
        });
    }
    violate("harness", "unknown stage " + spec);
}
template bliss::coarse_channel apply_stage(const bliss::coarse_channel &, const std::string &);
template bliss::scan apply_stage(const bliss::scan &, const std::string &);
template bliss::observation_target apply_stage(const bliss::observation_target &, const std::string &);
template bliss::cadence apply_stage(const bliss::cadence &, const std::string &);

void ser_hit(Out &o, const bliss::hit &h) {
    o.pod(h.start_freq_index).pod(h.start_freq_MHz).pod(h.start_time_sec).pod(h.duration_sec).pod(h.rate_index).pod(h.drift_rate_Hz_per_sec).pod(h.power).pod(h.time_span_steps).pod(h.snr).pod(h.bandwidth).pod(h.binwidth).pod(h.coarse_channel_number);
    o.pod<uint64_t>(h.rfi_counts.size());
    for (auto &k : h.rfi_counts) o.pod<int32_t>((int32_t)k.first).pod<uint8_t>(k.second);
}
bliss::hit de_hit(In &i) {
    bliss::hit h{};
    h.start_freq_index = i.pod<int64_t>(); h.start_freq_MHz = i.pod<double>(); h.start_time_sec = i.pod<double>(); h.duration_sec = i.pod<double>();
    h.rate_index = i.pod<int64_t>(); h.drift_rate_Hz_per_sec = i.pod<double>(); h.power = i.pod<double>(); h.time_span_steps = i.pod<int64_t>();
    h.snr = i.pod<float>(); h.bandwidth = i.pod<float>(); h.binwidth = i.pod<int64_t>(); h.coarse_channel_number = i.pod<int64_t>();
    uint64_t n = i.pod<uint64_t>();
    for (uint64_t k = 0; k < n && k < 64; ++k) { auto f = (bliss::flag_values)i.pod<int32_t>(); h.rfi_counts[f] = i.pod<uint8_t>(); }
    return h;
}
std::string ser_hits(const std::list<bliss::hit> &l) {
    Out o;
    for (auto &h : l) ser_hit(o, h);
    return o.s;
}
std::string show_hit(const bliss::hit &h) {
    return strf("{bin %lld f %.17g t %.12g dur %.9g rate %lld drift %.17g pow %.17g span %lld snr %.9g bw %.9g width %lld ch %lld rfi %d}", (long long)h.start_freq_index, h.start_freq_MHz, h.start_time_sec, h.duration_sec,
                (long long)h.rate_index, h.drift_rate_Hz_per_sec, h.power, (long long)h.time_span_steps, h.snr, h.bandwidth, (long long)h.binwidth, (long long)h.coarse_channel_number, (int)h.rfi_counts.size()) + [&] { std::string s; for (auto &k : h.rfi_counts) s += strf(" %d:%d", (int)k.first, (int)k.second); Out q; ser_hit(q, h); return s + strf(" #%llx", (unsigned long long)fnv(q.s)); }();
}

// ------------------------------------------------------------------ reference
static std::string join(const std::vector<std::string> &v, char c) {
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) { if (i) s += c; s += v[i]; }
    return s;
}
static bland::ndarray arr_make(const Arr &a) {
    bland::ndarray r(a.shape, DLDataType{(uint8_t)a.code, (uint8_t)a.bits, 1});
    memcpy(r.data_ptr<char>(), a.bytes.data(), a.bytes.size());
    return r;
}
static void ser_event(Out &o, const bliss::event &e) {
    o.pod(e.starting_frequency_Hz).pod(e.average_power).pod(e.average_bandwidth).pod(e.average_snr).pod(e.average_drift_rate_Hz_per_sec).pod(e.event_start_seconds).pod(e.event_end_seconds);
    o.pod<uint64_t>(e.hits.size());
    for (auto &h : e.hits) { Out q; ser_hit(q, h); o.str(q.s); }
}
// events of a cadence assembled from channels that were each evaluated once, alone
static std::string events_ref(const World *w, const std::string &req) {
    std::vector<bliss::observation_target> obs;
    for (auto &ob : split(req, ';')) {
        std::vector<bliss::scan> scans;
        for (auto &sc : split(ob, '+')) {
            auto f = split(sc, '~'); // rec~off~count~stages
            const Rec &r = w->recs.at(std::stoi(f.at(0)));
            std::map<int, std::shared_ptr<bliss::coarse_channel>> chans;
            for (int64_t k = 0; k < std::stoll(f.at(2)); ++k) {
                bliss::scan fresh(r.path(), (int)r.fpc);
                bliss::coarse_channel cc = *fresh.read_coarse_channel((int)(std::stoll(f.at(1)) + k));
                if (!f.at(3).empty()) for (auto &st : split(f.at(3), ',')) cc = apply_stage(cc, st);
                auto h = cc.hits();
                cc.set_hits(h);
                chans[(int)k] = std::make_shared<bliss::coarse_channel>(cc);
            }
            scans.push_back(bliss::scan(chans));
        }
        obs.push_back(bliss::observation_target(scans));
    }
    bliss::cadence c(obs);
    Out o;
    std::vector<bliss::event> ev;
    auto x = guarded([&] { ev = bliss::event_search(c); });
    o.pod<uint8_t>(x.threw);
    if (x.threw) return o.s;
    o.pod<uint64_t>(ev.size());
    for (auto &e : ev) { Out q; ser_event(q, e); o.str(q.s); }
    return o.s;
}
// What one stage may change, and (where that is one division or one rule) to what.
static std::string stage_effect(const std::string &st, const Arr &d0, const Arr &m0, const Arr &d1, const Arr &m1, const std::list<bliss::hit> *h0, const std::list<bliss::hit> *h1) {
    auto w = split(st, ':');
    const std::string &k = w[0];
    std::string bad;
    if (d1.shape != d0.shape || m1.shape != m0.shape || d1.bits != 32 || m1.bits != 8) return "shape or type of data or mask changed";
    bool norm = k == "norm", eq = k == "eq" || k == "eqf";
    if (norm || eq) {
        float top = -INFINITY;
        for (int64_t i = 0; i < d0.numel(); ++i) top = std::max(top, d0.f()[i]);
        std::vector<float> v;
        if (eq) v = eq_vals(std::stoll(w.at(1)), std::stoll(w.at(2)));
        for (int64_t i = 0; i < d0.numel() && bad.empty(); ++i) {
            float x = d0.f()[i] / (norm ? top : v.at(i % v.size())), y = d1.f()[i];
            if (!(std::fabs(x - y) <= 1e-6f * std::fabs(x)) && !(std::isnan(x) && std::isnan(y)) && x != y) bad = strf("sample %lld was %.9g and is %.9g, want %.9g", (long long)i, d0.f()[i], y, x);
        }
    } else if (d1.bytes != d0.bytes) bad = "the data changed";
    int own = k == "roll" ? 1 : k == "sk" ? 6 : k == "clip" ? 32 : k == "mag" || k == "magt" ? 16 : 0;
    for (int64_t i = 0; i < m0.numel() && bad.empty(); ++i) {
        int df = (uint8_t)(m1.u8()[i] - m0.u8()[i]); // (flags of a stage configured twice add up)
        if (df && !(df & own) ) bad = strf("the mask at %lld was %d and is %d", (long long)i, m0.u8()[i], m1.u8()[i]);
        if ((df & ~own) && !(k == "roll" && df == 2)) bad = strf("the mask at %lld was %d and is %d", (long long)i, m0.u8()[i], m1.u8()[i]);
        if (k == "sk" && df == 6) bad = strf("the mask at %lld is low and high", (long long)i);
    }
    if (bad.empty() && k == "filt" && h0 && h1) {
        auto plain = [](bliss::hit h) { for (auto it = h.rfi_counts.begin(); it != h.rfi_counts.end();) it = it->second ? std::next(it) : h.rfi_counts.erase(it); return h; };
        auto cnt = [](const bliss::hit &h, bliss::flag_values f) { auto it = h.rfi_counts.find(f); return it == h.rfi_counts.end() ? 0 : (int)it->second; };
        std::list<bliss::hit> want, got;
        for (auto &h : *h0)
            if (!cnt(h, bliss::flag_values::filter_rolloff) && !cnt(h, bliss::flag_values::low_spectral_kurtosis) && !(std::stoi(w.at(1)) && std::fabs(h.drift_rate_Hz_per_sec) < 1e-6)) want.push_back(plain(h));
        for (auto &h : *h1) got.push_back(plain(h));
        if (ser_hits(want) != ser_hits(got)) bad = strf("%zu hits were filtered to %zu, want %zu", h0->size(), got.size(), want.size());
    }
    return bad.empty() ? "" : "stage " + st + ": " + bad;
}
std::string world_ref(const World *w, const std::string &req) {
    if (req.rfind("E|", 0) == 0) return events_ref(w, req.substr(2));
    auto part = split(req, '|'); // rec|channel|stages
    const Rec &r = w->recs.at(std::stoi(part.at(0)));
    int64_t g = std::stoll(part.at(1));
    std::vector<std::string> stages;
    if (!part.at(2).empty()) stages = split(part.at(2), ',');
    Out o;
    bliss::scan sc(r.path(), (int)r.fpc);
    auto ccp = sc.read_coarse_channel((int)g);
    bliss::coarse_channel cc = *ccp;
    bool st_threw = false, d_threw = false, m_threw = false, hits = false;
    Arr d0, m0;
    bool have = !guarded([&] { d0 = grab(cc.data()); m0 = grab(cc.mask()); }).threw;
    std::string effect;
    for (auto &st : stages) {
        std::list<bliss::hit> h0, h1;
        bool fh = st.rfind("filt", 0) == 0 && hits && !guarded([&] { h0 = cc.hits(); }).threw;
        auto x = guarded([&] { cc = apply_stage(cc, st); });
        if (x.threw) { st_threw = true; break; }
        if (st.rfind("hits", 0) == 0 || st.rfind("lhits", 0) == 0) hits = true;
        Arr d, m;
        auto y = guarded([&] { bland::ndarray a = cc.data(); d = grab(a); });
        auto z = guarded([&] { bland::ndarray a = cc.mask(); m = grab(a); });
        if (fh) fh = !guarded([&] { h1 = cc.hits(); }).threw;
        if (have && !y.threw && !z.threw && effect.empty()) effect = stage_effect(st, d0, m0, d, m, fh ? &h0 : nullptr, fh ? &h1 : nullptr);
        have = !y.threw && !z.threw;
        d0 = d;
        m0 = m;
        if (!y.threw) cc.set_data(arr_make(d));
        if (!z.threw) cc.set_mask(arr_make(m));
    }
    o.pod<uint8_t>(st_threw);
    if (st_threw) return o.s;
    Arr d, m;
    d_threw = guarded([&] { d = grab(cc.data()); }).threw;
    m_threw = guarded([&] { m = grab(cc.mask()); }).threw;
    o.pod<uint8_t>(d_threw).pod<uint8_t>(m_threw).arr(d).arr(m);
    float fl = 0, po = 0;
    auto x = guarded([&] { auto n = cc.noise_estimate(); fl = n.noise_floor(); po = n.noise_power(); });
    o.pod<uint8_t>(!x.threw).pod(fl).pod(po);
    Out pl;
    auto y = guarded([&] {
        auto f = cc.integrated_drift_plane();
        Arr a = grab(f.integrated_drift_plane());
        auto k = f.integrated_rfi();
        pl.arr(a).arr(grab(k.filter_rolloff)).arr(grab(k.low_spectral_kurtosis)).arr(grab(k.high_spectral_kurtosis));
        Out info;
        info.pod<int64_t>(f.integration_steps());
        for (auto &q : f.drift_rate_info()) info.pod(q.index_in_plane).pod(q.drift_rate_slope).pod(q.drift_rate_Hz_per_sec).pod(q.drift_channels_span).pod(q.desmeared_bins);
        pl.str(info.s);
    });
    o.pod<uint8_t>(!y.threw);
    if (!y.threw) o.s += pl.s;
    std::list<bliss::hit> l;
    if (hits && guarded([&] { l = cc.hits(); }).threw) hits = false;
    o.pod<uint8_t>(hits);
    if (hits) {
        o.pod<uint64_t>(l.size());
        for (auto &h : l) { Out q; ser_hit(q, h); o.str(q.s); }
    }
    o.str(effect);
    return o.s;
}
Ref World::ref(int rec, int64_t g, const std::vector<std::string> &stages) {
    HarnessScope h;
    std::string a = ref_ask(strf("%d|%lld|", rec, (long long)g) + join(stages, ','));
    In i(a);
    Ref r;
    r.stage_threw = i.pod<uint8_t>();
    if (r.stage_threw) return r;
    r.data_threw = i.pod<uint8_t>();
    r.mask_threw = i.pod<uint8_t>();
    r.data = i.arr();
    r.mask = i.arr();
    r.has_noise = i.pod<uint8_t>();
    r.floor = i.pod<float>();
    r.power = i.pod<float>();
    r.has_plane = i.pod<uint8_t>();
    if (r.has_plane) {
        r.plane = i.arr();
        for (int k = 0; k < 3; ++k) r.rfi[k] = i.arr();
        r.plane_info = i.str();
    }
    r.has_hits = i.pod<uint8_t>();
    if (r.has_hits) {
        uint64_t n = i.pod<uint64_t>();
        for (uint64_t k = 0; k < n && k < 1000000; ++k) r.hits.push_back(i.str());
    }
    std::string effect = i.str();
    checked();
    if (!effect.empty()) violate("stage:effect", strf("channel %lld of recording %d, evaluated once and alone: ", (long long)g, rec) + effect);
    // an unstaged channel is what the recording holds
    if (stages.empty()) {
        checked();
        Arr want = recs.at(rec).samples(g);
        std::string d = arr_diff(r.data, want);
        if (!d.empty()) violate("data:recording", strf("channel %lld read alone differs from the recording: ", (long long)g) + d);
        for (auto c : r.mask.bytes) if (c) violate("mask:recording", "a fresh channel has flagged samples");
        if (r.mask.shape != want.shape) violate("mask:recording", "a fresh channel's mask has another shape than its data");
    }
    return r;
}

// ------------------------------------------------------------------ checks
// Host devices are told apart by their number: an object's device is visible without an accelerator.
static bland::ndarray::dev host_dev(int id) { DLDevice d = bland::ndarray::dev::cpu; d.device_id = id; return bland::ndarray::dev(d); }
static std::string show_dev(const DLDevice &d) { return strf("%d:%d", (int)d.device_type, d.device_id); }
static bool is_host(const DLDevice &d, int id) { return d.device_type == kDLCPU && d.device_id == id; }
void World::check_devs(const std::string &where, Obj &o) {
    checked();
    auto bad = [&](const std::string &what, const DLDevice &got, int want) {
        if (!is_host(got, want)) violate("device:object", where + ": " + what + " reports device " + show_dev(got) + ", want host device " + std::to_string(want));
    };
    if (o.kind == 1) bad("target", o.t->device(), o.dev);
    if (o.kind == 2) {
        bad("cadence", o.c->device(), o.dev);
        for (size_t i = 0; i < o.m.size(); ++i) bad(strf("target %d", (int)i), o.c->_observations.at(i).device(), o.tdev.at(i));
    }
    for (size_t i = 0; i < o.m.size(); ++i) for (size_t j = 0; j < o.m[i].size(); ++j) bad(strf("scan %d,%d", (int)i, (int)j), o.scan(i, j).device(), o.m[i][j].dev);
}
void World::check_meta(const std::string &where, bliss::coarse_channel &cc, const Rec &r, int64_t g) {
    checked();
    std::string bad;
    auto eqd = [&](const char *n, double got, double want, double tol) { if (!(std::fabs(got - want) <= tol)) bad += strf(" %s %.12g want %.12g;", n, got, want); };
    auto o = guarded([&] {
        eqd("fch1", cc.fch1(), r.ch_fch1(g), 1e-8);
        eqd("foff", cc.foff(), r.foff, 0);
        eqd("nchans", (double)cc.nchans(), (double)r.fpc, 0);
        eqd("ntsteps", (double)cc.ntsteps(), (double)r.T, 0);
        eqd("tsamp", cc.tsamp(), r.tsamp, 0);
        eqd("tstart", cc.tstart(), r.tstart, 0);
        eqd("channel number", (double)cc._coarse_channel_number, (double)g, 0);
        eqd("src_raj", cc.src_raj(), 3.25, 0);
        eqd("src_dej", cc.src_dej(), 12.5, 0);
        eqd("telescope_id", (double)cc.telescope_id(), 6, 0);
        eqd("machine_id", (double)cc.machine_id(), 21, 0);
        eqd("az_start", cc.az_start(), 1.5, 0);
        eqd("za_start", cc.za_start(), 2.5, 0);
        eqd("nbits", (double)cc.nbits(), 32, 0);
        eqd("nifs", (double)cc.nifs(), 1, 0);
        eqd("data_type", (double)cc.data_type(), 1, 0);
        HarnessScope h;
        if (cc.source_name() != r.name) bad += " source_name " + cc.source_name();
    });
    if (o.threw) bad += " reading metadata failed: " + o.what;
    if (!bad.empty()) violate("metadata:channel", where + strf(": channel %lld of the recording reports", (long long)g) + bad);
}
void World::check_cc_dev(const std::string &where, CC &c) {
    checked();
    if (c.cc && !is_host(c.cc->device(), c.dev)) violate("device:channel-lost", where + ": a channel reports device " + show_dev(c.cc->device()) + ", want host device " + std::to_string(c.dev));
}
void World::check_obj(const std::string &where, Obj &o) {
    for (size_t i = 0; i < o.m.size(); ++i)
        for (size_t j = 0; j < o.m[i].size(); ++j) {
            auto &ms = o.m[i][j];
            auto &sc = o.scan(i, j);
            const Rec &r = recs.at(ms.rec);
            checked();
            std::string bad;
            auto g = guarded([&] {
                if (sc.get_number_coarse_channels() != ms.count) bad += strf(" %d channels want %lld;", sc.get_number_coarse_channels(), (long long)ms.count);
                if (sc.nchans() != ms.count * r.fpc) bad += strf(" nchans %lld want %lld;", (long long)sc.nchans(), (long long)(ms.count * r.fpc));
                if (std::fabs(sc.fch1() - r.ch_fch1(ms.off)) > 1e-8) bad += strf(" fch1 %.12g want %.12g;", sc.fch1(), r.ch_fch1(ms.off));
                if (sc.foff() != r.foff || sc.tsamp() != r.tsamp || sc.tstart() != r.tstart || sc.ntsteps() != r.T) bad += " foff/tsamp/tstart/ntsteps changed;";
                if (std::fabs(sc.tduration_secs() - r.T * r.tsamp) > 1e-9) bad += strf(" duration %.9g want %.9g;", sc.tduration_secs(), r.T * r.tsamp);
                HarnessScope h;
                if (sc.source_name() != r.name) bad += " source name " + sc.source_name();
            });
            if (g.threw) bad += " " + g.what;
            if (!bad.empty()) violate("metadata:scan", where + strf(": scan %d,%d reports", (int)i, (int)j) + bad);
            for (int64_t k = 0; k < ms.count; ++k)
                for (double fr : {0.05, 0.5, 0.95}) {
                    double f = r.ch_fch1(ms.off + k) + r.foff * (double)r.fpc * fr;
                    int got = sc.get_coarse_channel_with_frequency(f);
                    if (got != k) violate("lookup:scan", where + strf(": frequency %.9f inside channel %lld is looked up as channel %d (of %lld)", f, (long long)k, got, (long long)ms.count));
                }
            for (double fr : {-0.06, -0.5, -1.5, 0.06, 0.5, 1.5}) { // outside the band: refused, or the index of no channel it has
                double f = r.ch_fch1(ms.off) + r.foff * (double)r.fpc * (fr < 0 ? fr : (double)ms.count + fr);
                int got = -1;
                auto g2 = guarded([&] { got = sc.get_coarse_channel_with_frequency(f); });
                if (!g2.threw && got >= 0 && got < ms.count) violate("lookup:outside", where + strf(": frequency %.9f, %.2f channels outside the band, is looked up as channel %d (of %lld)", f, std::fabs(fr), got, (long long)ms.count));
            }
        }
    check_devs(where, o);
    if (o.kind == 0) return;
    // groups: consistency and group level lookups
    for (int64_t gi = -1; gi < (int64_t)o.m.size(); ++gi) {
        if (gi < 0 && o.kind != 2) continue;
        std::vector<MScan *> all;
        for (int64_t i = 0; i < (int64_t)o.m.size(); ++i)
            if (gi < 0 || gi == i) for (auto &x : o.m[i]) all.push_back(&x);
        if (all.empty()) continue;
        bool same = true, clear = false;
        const Rec &r0 = recs.at(all[0]->rec);
        for (auto *x : all) {
            const Rec &r = recs.at(x->rec);
            double df = std::fabs(r.ch_fch1(x->off) - r0.ch_fch1(all[0]->off));
            double dc = std::fabs(r.foff - r0.foff);
            if (df > 1e-9 || dc > 1e-15 || x->count * r.fpc != all[0]->count * r0.fpc) same = false;
            if (df > 2e-6 || dc > 2e-6 || x->count * r.fpc != all[0]->count * r0.fpc) clear = true;
        }
        if (!same && !clear) continue;
        checked();
        int got_n = -1, got_f = -1;
        double f = r0.ch_fch1(all[0]->off) + r0.foff * (double)r0.fpc * (all[0]->count - 0.5);
        bliss::observation_target *t = gi < 0 ? nullptr : o.kind == 1 ? o.t.get() : &o.c->_observations.at(gi);
        auto g = guarded([&] {
            got_n = t ? t->get_number_coarse_channels() : o.c->get_number_coarse_channels();
            got_f = t ? t->get_coarse_channel_with_frequency(f) : o.c->get_coarse_channel_with_frequency(f);
        });
        if (same) {
            if (g.threw) violate("lookup:group-refused", where + ": a group of consistent scans refuses to name its channels: " + g.what);
            if (got_n != all[0]->count || got_f != all[0]->count - 1) violate("lookup:group", where + strf(": group reports %d channels and channel %d for a frequency in channel %lld of %lld", got_n, got_f, (long long)all[0]->count - 1, (long long)all[0]->count));
        } else if (!g.threw) violate("lookup:group-inconsistent", where + ": a group of inconsistent scans named a channel");
    }
}
Outcome World::attempt(const Op &op, const std::function<void()> &f, bool may_throw) {
    Outcome o;
    {
        OpScope sc(op.id);
        o = guarded(f);
    }
    if (fault_fired_in_op(op.id)) {
        probe(0);
        std::string kinds;
        { HarnessScope h; kinds = fired_kinds_in_op(op.id); }
        bool benign = !hard_fault_in_op(op.id);
        if (o.threw && benign && !may_throw) violate("benign:failed", "an operation failed although storage only split or interrupted the transfer (" + kinds + "): " + o.what);
        if (o.threw) {
            probe(1);
            note("failed " + o.what.substr(0, 60));
            OpScope sc(op.id, false);
            o = guarded(f);
            if (o.threw && !may_throw) violate("retry:failed", "'" + op.name + "' still fails after the fault (" + kinds + ") has gone: " + o.what);
        } else probe(2);
    }
    return o;
}
static std::string hits_diff(const std::list<bliss::hit> &got, const std::vector<std::string> &want) {
    HarnessScope h;
    size_t k = 0;
    for (auto &x : got) {
        Out q;
        ser_hit(q, x);
        if (k >= want.size()) return strf("%d hits, %d expected; first extra ", (int)got.size(), (int)want.size()) + show_hit(x);
        if (q.s != want[k]) { In i(want[k]); return strf("hit %d is ", (int)k) + show_hit(x) + " want " + show_hit(de_hit(i)); }
        ++k;
    }
    if (k != want.size()) return strf("%d hits, %d expected", (int)got.size(), (int)want.size());
    return "";
}
void World::check_products(const std::string &where, CC &c, const std::string &what, const Op &op) {
    Ref r = ref(c.rec, c.g, c.stages);
    if (r.stage_threw) return; // never reached: such a channel cannot be obtained
    std::string ctx = where + strf(" [recording %d channel %lld stages ", c.rec, (long long)c.g) + join(c.stages, ',') + "]";
    for (char k : what) {
        if (k == 'd' || k == 'm') {
            Arr got;
            DLDevice on{};
            auto o = attempt(op, [&] { auto a = k == 'd' ? c.cc->data() : c.cc->mask(); on = a.device(); got = grab(a); }, k == 'd' ? r.data_threw : r.mask_threw);
            checked();
            bool want_throw = k == 'd' ? r.data_threw : r.mask_threw;
            if (o.threw != want_throw) violate(k == 'd' ? "product:data-outcome" : "product:mask-outcome", ctx + (o.threw ? ": failed: " + o.what : ": succeeded although a fresh evaluation fails"));
            if (o.threw) continue;
            if (!is_host(on, c.dev)) violate("device:product", ctx + strf(": the %s of a channel on host device %d came back on ", k == 'd' ? "data" : "mask", c.dev) + show_dev(on));
            std::string d = arr_diff(got, k == 'd' ? r.data : r.mask);
            if (!d.empty()) violate(k == 'd' ? "product:data" : "product:mask", ctx + ": " + d);
            note(strf("%c%llx", k, (unsigned long long)fnv(got.bytes)));
        } else if (k == 'n') {
            float f = 0, p = 0;
            auto o = attempt(op, [&] { auto n = c.cc->noise_estimate(); f = n.noise_floor(); p = n.noise_power(); }, !r.has_noise);
            checked();
            if (o.threw == r.has_noise) violate("product:noise-outcome", ctx + (o.threw ? ": failed: " + o.what : ": has a noise estimate although none was made"));
            if (!o.threw && (memcmp(&f, &r.floor, 4) || memcmp(&p, &r.power, 4))) violate("product:noise", ctx + strf(": noise floor %.9g power %.9g want %.9g %.9g", f, p, r.floor, r.power));
        } else if (k == 'p') {
            Arr a, fl[3];
            std::string info;
            auto o = attempt(op, [&] {
                auto f = c.cc->integrated_drift_plane();
                a = grab(f.integrated_drift_plane());
                auto q = f.integrated_rfi();
                fl[0] = grab(q.filter_rolloff);
                fl[1] = grab(q.low_spectral_kurtosis);
                fl[2] = grab(q.high_spectral_kurtosis);
                HarnessScope h;
                Out x;
                x.pod<int64_t>(f.integration_steps());
                for (auto &e : f.drift_rate_info()) x.pod(e.index_in_plane).pod(e.drift_rate_slope).pod(e.drift_rate_Hz_per_sec).pod(e.drift_channels_span).pod(e.desmeared_bins);
                info = x.s;
            }, !r.has_plane);
            checked();
            if (o.threw == r.has_plane) violate("product:plane-outcome", ctx + (o.threw ? ": failed: " + o.what : ": has a drift plane although none was made"));
            if (o.threw) continue;
            std::string d = arr_diff(a, r.plane);
            if (!d.empty()) violate("product:plane", ctx + ": " + d);
            for (int q = 0; q < 3; ++q) { d = arr_diff(fl[q], r.rfi[q]); if (!d.empty()) violate("product:plane-flags", ctx + strf(": flag plane %d: ", q) + d); }
            if (info != r.plane_info) violate("product:plane-info", ctx + ": drift rate information differs");
            probe(4);
        } else if (k == 'h') {
            std::list<bliss::hit> l;
            auto o = attempt(op, [&] { l = c.cc->hits(); }, !r.has_hits);
            checked();
            if (o.threw == r.has_hits) violate("product:hits-outcome", ctx + (o.threw ? ": failed: " + o.what : ": has hits although none were searched"));
            if (o.threw) continue;
            std::string d = hits_diff(l, r.hits);
            if (!d.empty()) violate("product:hits", ctx + ": " + d);
            if (!l.empty()) probe(5);
            note(strf("h%d", (int)l.size()));
        }
    }
}

// ------------------------------------------------------------------ interpreter
void World::setup() {
    HarnessScope h;
    for (auto &op : p.ops)
        if (op.name == "rec") { recs[op.id] = Rec::of(op); recs[op.id].write(); }
    ref_start([this](const std::string &q) { return world_ref(this, q); });
    ref_ready = true;
}
static std::vector<int> ids(const std::string &s) {
    std::vector<int> v;
    for (auto &x : split(s, ',')) if (!x.empty()) v.push_back(std::stoi(x));
    return v;
}
void World::step(const Op &op) {
    HarnessScope hs;
    auto obj = [&](const char *k) -> Obj * { auto i = objs.find((int)op.i(k, -1)); return i == objs.end() ? nullptr : &i->second; };
    std::string where = strf("op %d %s", op.id, op.name.c_str());
    if (op.name == "rec") return;
    if (op.name == "open") {
        auto ri = recs.find((int)op.i("rec"));
        if (ri == recs.end()) return;
        Rec &r = ri->second;
        Obj o;
        auto x = attempt(op, [&] { o.s.reset(); o.s = op.i("viafile") ? std::make_shared<bliss::scan>(bliss::h5_filterbank_file(r.path()), (int)r.fpc) : std::make_shared<bliss::scan>(r.path(), (int)r.fpc); });
        if (x.threw) violate("open:failed", where + ": opening an intact recording failed: " + x.what);
        o.m = {{MScan{r.id, 0, r.nco, {}}}};
        check_obj(where, o);
        objs[op.id] = o;
        return;
    }
    if (op.name == "mktarget" || op.name == "mkcad") {
        bool cad = op.name == "mkcad";
        Obj o;
        o.kind = cad ? 2 : 1;
        std::vector<Obj *> src;
        for (int i : ids(op.s("src"))) { auto it = objs.find(i); if (it != objs.end() && it->second.kind == (cad ? 1 : 0)) src.push_back(&it->second); }
        if (src.empty()) return;
        auto x = attempt(op, [&] {
            if (!cad) {
                std::vector<bliss::scan> v;
                for (auto *s : src) v.push_back(*s->s);
                o.t = std::make_shared<bliss::observation_target>(v);
            } else {
                std::vector<bliss::observation_target> v;
                for (auto *s : src) v.push_back(*s->t);
                o.c = std::make_shared<bliss::cadence>(v);
            }
        });
        if (x.threw) violate("group:failed", where + ": " + x.what);
        if (!cad) { o.m.push_back({}); for (auto *s : src) o.m[0].push_back(s->m[0][0]); }
        else for (auto *s : src) { o.m.push_back(s->m[0]); o.tdev.push_back(s->dev); }
        check_devs(where, o);
        objs[op.id] = o;
        return;
    }
    if (op.name == "openpaths") { // target or cadence straight from paths
        auto v = ids(op.s("recs"));
        std::vector<std::string> paths;
        for (int i : v) if (recs.count(i)) paths.push_back(recs.at(i).path());
        if (paths.size() != v.size() || v.empty()) return;
        for (int i : v) if (recs.at(i).fpc != recs.at(v[0]).fpc) return;
        Obj o;
        int fpc = (int)recs.at(v[0]).fpc;
        o.kind = op.i("cad") ? 2 : 1;
        auto x = attempt(op, [&] {
            if (o.kind == 1) o.t = std::make_shared<bliss::observation_target>(paths, fpc);
            else { std::vector<std::vector<std::string>> vv; for (auto &q : paths) vv.push_back({q}); o.c = std::make_shared<bliss::cadence>(vv, fpc); }
        });
        if (x.threw) violate("open:failed", where + ": opening intact recordings failed: " + x.what);
        if (o.kind == 1) { o.m.push_back({}); for (int i : v) o.m[0].push_back(MScan{i, 0, recs.at(i).nco, {}}); }
        else for (int i : v) { o.m.push_back({MScan{i, 0, recs.at(i).nco, {}}}); o.tdev.push_back(0); }
        check_obj(where, o);
        objs[op.id] = o;
        return;
    }
    if (op.name == "setdev" || op.name == "pushdev") {
        Obj *o = obj("src");
        if (!o) return;
        std::string dev = op.s("dev", "cpu");
        Outcome x;
        {
            OpScope sc(op.id, false);
            x = guarded([&] {
                if (op.name == "pushdev") { o->scan(0, 0).push_device(); return; }
                if (dev == "host") {
                    auto d = host_dev((int)op.i("id"));
                    if (o->kind == 0) o->s->set_device(d); else if (o->kind == 1) o->t->set_device(d); else o->c->set_device(d);
                } else if (o->kind == 0) o->s->set_device(dev); else if (o->kind == 1) o->t->set_device(dev); else o->c->set_device(dev);
            });
        }
        bool refuse = op.name == "setdev" && dev == "cuda:0";
        checked();
        if (x.threw != refuse) violate(refuse ? "device:accepted" : "device:failed", where + (refuse ? ": a device that does not exist was accepted" : ": " + x.what));
        if (refuse) probe(6);
        else if (op.name == "setdev") {
            o->dev = dev == "host" ? (int)op.i("id") : 0;
            for (auto &t : o->tdev) t = o->dev;
            for (auto &v : o->m) for (auto &y : v) y.dev = o->dev;
        }
        for (auto &kv : objs) check_devs(where + strf(" (object %d afterwards)", kv.first), kv.second);
        for (auto &kv : ccs) check_cc_dev(where + strf(" (channel %d afterwards)", kv.first), kv.second);
        return;
    }
    if (op.name == "copy" || op.name == "slice" || op.name == "stage") {
        Obj *s = obj("src");
        if (!s) return;
        Obj o;
        o.kind = s->kind;
        o.m = s->m;
        o.dev = s->dev;
        o.tdev = s->tdev;
        std::string st = op.s("st");
        int64_t start = op.i("start"), count = op.i("count");
        if (op.name == "slice")
            for (auto &v : s->m) for (auto &x : v) if (start < 0 || start + (count == -1 ? 1 : count) > x.count || count == 0 || count < -1) return;
        auto run = [&](auto &x) {
            using T = std::decay_t<decltype(x)>;
            if (op.name == "copy") return std::make_shared<T>(x);
            if (op.name == "stage") return std::make_shared<T>(apply_stage(x, st));
            if constexpr (std::is_same<T, bliss::scan>::value) return std::make_shared<T>(x.slice_scan_channels(start, count));
            else if constexpr (std::is_same<T, bliss::observation_target>::value) return std::make_shared<T>(x.slice_observation_channels(start, count));
            else return std::make_shared<T>(x.slice_cadence_channels(start, count));
        };
        bool may = false; // stages may be evaluated when they are added; then they may fail like their evaluation
        if (op.name == "stage")
            for (auto &v : s->m) for (auto &x : v) for (int64_t k = 0; k < x.count && !may; ++k) { auto q = x.stages; q.push_back(st); if (ref(x.rec, x.off + k, q).stage_threw) may = true; }
        auto x = attempt(op, [&] { if (o.kind == 0) o.s = run(*s->s); else if (o.kind == 1) o.t = run(*s->t); else o.c = run(*s->c); }, may);
        if (x.threw) { if (!may) violate(op.name + ":failed", where + ": " + x.what); return; }
        for (auto &v : o.m) for (auto &y : v) {
            if (op.name == "stage") y.stages.push_back(st);
            if (op.name == "slice") { y.off += start; y.count = count == -1 ? y.count - start : count; }
        }
        if (op.name == "slice") {
            checked();
            if (o.kind == 1 && o.t->_target_name != s->t->_target_name) violate("slice:target-name", where + ": a slice of target '" + s->t->_target_name + "' is named '" + o.t->_target_name + "'");
            if (o.kind == 2) for (size_t i = 0; i < o.m.size(); ++i) if (o.c->_observations.at(i)._target_name != s->c->_observations.at(i)._target_name) violate("slice:target-name", where + ": a slice of a cadence lost the name of target '" + s->c->_observations[i]._target_name + "'");
        }
        check_obj(where, o);
        check_obj(where + " (its source)", *s);
        objs[op.id] = o;
        return;
    }
    if (op.name == "pick") {
        Obj *s = obj("src");
        if (!s) return;
        size_t i = op.i("i"), j = op.i("j");
        if (i >= s->m.size() || j >= s->m[i].size()) return;
        Obj o;
        o.m = {{s->m[i][j]}};
        { OpScope sc(op.id, false); o.s = std::make_shared<bliss::scan>(s->scan(i, j)); }
        objs[op.id] = o;
        return;
    }
    if (op.name == "drop") { objs.erase((int)op.i("src")); ccs.erase((int)op.i("src")); return; }
    if (op.name == "meta") { Obj *s = obj("src"); if (s) check_obj(where, *s); return; }
    if (op.name == "assemble") { // a scan held in memory, from channels already read
        Obj *s = obj("src");
        if (!s || s->kind != 0) return;
        MScan ms = s->m[0][0];
        std::map<int, std::shared_ptr<bliss::coarse_channel>> chans;
        bool thr = false;
        for (int64_t k = 0; k < ms.count; ++k) thr |= ref(ms.rec, ms.off + k, ms.stages).stage_threw;
        if (thr) return;
        Obj o;
        auto x = attempt(op, [&] { chans.clear(); for (int64_t k = 0; k < ms.count; ++k) chans[(int)k] = s->s->read_coarse_channel((int)k); o.s = std::make_shared<bliss::scan>(chans); });
        if (x.threw) violate("assemble:failed", where + ": " + x.what);
        ms.dev = 0; // a scan made of channels starts on the default device
        o.m = {{ms}};
        check_obj(where, o);
        objs[op.id] = o;
        return;
    }
    if (op.name == "bad") {
        Obj *s = obj("src");
        if (!s) return;
        size_t i = op.i("i"), j = op.i("j");
        if (i >= s->m.size() || j >= s->m[i].size()) return;
        int64_t ch = op.i("above") ? s->m[i][j].count + op.i("by") : -1 - op.i("by");
        Outcome x;
        { OpScope sc(op.id, false); x = guarded([&] { auto c = op.i("peek") ? s->scan(i, j).peak_coarse_channel((int)ch) : s->scan(i, j).read_coarse_channel((int)ch); }); }
        checked();
        if (!x.threw) violate("bounds:accepted", where + strf(": channel %lld of %lld was accepted", (long long)ch, (long long)s->m[i][j].count));
        probe(7);
        return;
    }
    if (op.name == "read" || op.name == "peek") {
        Obj *s = obj("src");
        if (!s) return;
        size_t i = op.i("i"), j = op.i("j");
        if (i >= s->m.size() || j >= s->m[i].size()) return;
        auto &ms = s->m[i][j];
        int64_t ch = op.i("ch");
        if (ch >= ms.count) return;
        bool thr = ref(ms.rec, ms.off + ch, ms.stages).stage_threw;
        std::shared_ptr<bliss::coarse_channel> cc;
        auto x = attempt(op, [&] { cc = op.name == "peek" ? s->scan(i, j).peak_coarse_channel((int)ch) : s->scan(i, j).read_coarse_channel((int)ch); }, thr);
        checked();
        if (op.name == "peek" && !x.threw && !cc) return;
        if (x.threw != thr) violate("read:outcome", where + (thr ? ": succeeded although the stages fail on a fresh object" : ": failed: " + x.what));
        if (x.threw) { probe(3); return; }
        if (!cc) violate("read:null", where + ": no channel returned");
        check_meta(where, *cc, recs.at(ms.rec), ms.off + ch);
        CC c{ms.rec, ms.off + ch, ms.stages, cc, ms.dev};
        check_cc_dev(where, c);
        ccs[op.id] = c;
        if (op.has("what")) check_products(where, ccs[op.id], op.s("what"), op);
        return;
    }
    if (op.name == "get" || op.name == "cccopy" || op.name == "ccstage" || op.name == "ccdev") {
        auto it = ccs.find((int)op.i("src"));
        if (it == ccs.end()) return;
        CC &c = it->second;
        if (op.name == "get") { check_products(where, c, op.s("what"), op); return; }
        if (op.name == "ccdev") {
            std::string dev = op.s("dev", "cpu");
            Outcome x;
            { OpScope sc(op.id, false); x = guarded([&] { if (dev == "push") c.cc->push_device(); else if (dev == "host") { auto d = host_dev((int)op.i("id")); c.cc->set_device(d); } else c.cc->set_device(dev); }); }
            checked();
            if (x.threw != (dev == "cuda:0")) violate("device:channel", where + ": " + (x.threw ? x.what : "a device that does not exist was accepted"));
            if (dev == "cpu") c.dev = 0;
            if (dev == "host") c.dev = (int)op.i("id");
            for (auto &kv : objs) check_devs(where + strf(" (object %d afterwards)", kv.first), kv.second);
            for (auto &kv : ccs) check_cc_dev(where + strf(" (channel %d afterwards)", kv.first), kv.second);
            return;
        }
        CC n = c;
        std::string st = op.s("st");
        bool thr = false;
        if (op.name == "ccstage") { n.stages.push_back(st); thr = ref(n.rec, n.g, n.stages).stage_threw; }
        auto x = attempt(op, [&] {
            if (op.name == "cccopy") n.cc = std::make_shared<bliss::coarse_channel>(*c.cc);
            else n.cc = std::make_shared<bliss::coarse_channel>(apply_stage(*c.cc, st));
        }, thr);
        if (x.threw != thr) violate("channel-stage:outcome", where + (x.threw ? ": " + x.what : ": succeeded although the stage fails on a fresh object"));
        if (x.threw) return;
        check_meta(where, *n.cc, recs.at(n.rec), n.g);
        check_cc_dev(where, n);
        ccs[op.id] = n;
        return;
    }
    if (op.name == "hits") {
        Obj *s = obj("src");
        if (!s) return;
        size_t i = op.i("i"), j = op.i("j");
        if (i >= s->m.size() || j >= s->m[i].size()) return;
        auto &ms = s->m[i][j];
        std::vector<std::string> want;
        bool thr = false, searched = true;
        for (int64_t k = 0; k < ms.count; ++k) {
            Ref r = ref(ms.rec, ms.off + k, ms.stages);
            thr |= r.stage_threw;
            searched &= r.has_hits;
            want.insert(want.end(), r.hits.begin(), r.hits.end());
        }
        std::list<bliss::hit> l;
        auto x = attempt(op, [&] { l = s->scan(i, j).hits(); }, thr || !searched);
        checked();
        if (thr) { if (!x.threw) violate("hits:outcome", where + ": hits were returned although the stages fail on a fresh object"); return; }
        if (!searched) { if (!x.threw && !l.empty()) violate("hits:unsearched", where + ": hits were returned although none were searched"); return; }
        if (x.threw) violate("hits:outcome", where + ": failed: " + x.what);
        std::string d = hits_diff(l, want);
        if (!d.empty()) violate("hits:union", where + ": the scan's hits are not those of its channels: " + d);
        if (ms.count > 1 && !l.empty()) probe(8);
        note(strf("H%d", (int)l.size()));
        return;
    }
    if (op.name == "events") {
        Obj *s = obj("src");
        if (!s || s->kind != 2) return;
        std::string req = "E|";
        bool thr = false, searched = true;
        std::vector<std::set<std::string>> on; // hits of the ON scans
        for (size_t i = 0; i < s->m.size(); ++i) {
            if (s->m[i].empty()) return;
            if (i) req += ";";
            for (size_t j = 0; j < s->m[i].size(); ++j) {
                auto &ms = s->m[i][j];
                req += (j ? "+" : "") + strf("%d~%lld~%lld~", ms.rec, (long long)ms.off, (long long)ms.count) + join(ms.stages, ',');
                if (!i) on.emplace_back();
                for (int64_t k = 0; k < ms.count; ++k) {
                    Ref r = ref(ms.rec, ms.off + k, ms.stages);
                    thr |= r.stage_threw;
                    searched &= r.has_hits;
                    if (!i) on.back().insert(r.hits.begin(), r.hits.end());
                }
            }
        }
        if (thr || !searched) return;
        std::string ans = ref_ask(req);
        In in(ans);
        bool want_throw = in.pod<uint8_t>();
        std::vector<bliss::event> ev;
        auto x = attempt(op, [&] { ev = bliss::event_search(*s->c); }, want_throw);
        checked();
        if (x.threw != want_throw) violate("events:outcome", where + (x.threw ? ": failed: " + x.what : ": succeeded although it fails on a fresh cadence"));
        if (x.threw) return;
        // every hit in an event is a hit of an ON scan, in at most one event
        std::map<std::string, int> avail;
        for (auto &st : on) for (auto &h : st) ++avail[h];
        for (size_t e = 0; e < ev.size(); ++e)
            for (auto &h : ev[e].hits) {
                Out q;
                ser_hit(q, h);
                auto a = avail.find(q.s);
                if (a == avail.end()) violate("events:foreign-hit", where + strf(": event %d holds a hit that no ON scan has: ", (int)e) + show_hit(h));
                if (--a->second < 0) violate("events:hit-twice", where + strf(": event %d holds a hit already reported: ", (int)e) + show_hit(h));
            }
        uint64_t n = in.pod<uint64_t>();
        if (n != ev.size()) violate("events:differ", where + strf(": %d events, a fresh search of the same cadence finds %d", (int)ev.size(), (int)n));
        for (size_t e = 0; e < ev.size(); ++e) {
            Out q;
            ser_event(q, ev[e]);
            if (q.s != in.str()) violate("events:differ", where + strf(": event %d differs from that of a fresh search: ", (int)e) + ev[e].repr());
        }
        probe(9);
        if (ev.size()) probe(10);
        note(strf("E%d", (int)ev.size()));
        return;
    }
    violate("harness", "unknown op " + op.name);
}
void World::run() {
    setup();
    for (auto &op : p.ops) step(op);
}

// ------------------------------------------------------------------ generator
namespace {
struct GObj { int id, kind; std::vector<int> ns; int64_t count, fpc; int rank; bool h5; };
struct GCC { int id; int rank; int64_t fpc; };
} // namespace
int rank_of(const std::string &s) {
    static const std::map<std::string, int> m = {{"norm", 1}, {"eq", 1}, {"eqf", 1}, {"roll", 2}, {"sk", 2}, {"clip", 2}, {"mag", 2}, {"magt", 2}, {"noise", 3}, {"drift", 4}, {"hits", 5}, {"filt", 6}, {"defer", 1}, {"ldrift", 4}, {"lhits", 5}};
    return m.at(split(s, ':')[0]);
}
std::string gen_stage(Rng &r, int rank, int64_t fpc) {
    // usually a stage that makes sense after what was already configured
    std::vector<std::string> k;
    double u = r.unit();
    auto mk = [&](const std::string &n) -> std::string {
        if (n == "norm" || n == "mag") return n;
        if (n == "eq" || n == "eqf") return n + strf(":%d:%d", (int)fpc, (int)r.below(2));
        if (n == "roll") return strf("roll:0.%02d", (int)r.range(4, 20));
        if (n == "sk") return strf("sk:%.2f:%d:%d", 0.02 + 0.1 * r.unit(), (int)r.range(2, 50), (int)r.range(1, 2));
        if (n == "clip") return strf("clip:%d:%.1f:%.1f", (int)r.range(1, 5), 2 + 2 * r.unit(), 2 + 3 * r.unit());
        if (n == "magt") return strf("magt:%d", (int)r.range(1, 120));
        if (n == "noise") return strf("noise:%d", (int)r.below(2));
        if (n == "defer") return strf("defer:%d:%d", (int)r.below(3), (int)r.range(1, 3));
        if (n == "drift" && r.chance(0.12)) { // drifts that cross the whole channel and more
            int w = (int)fpc / 4 + (int)r.below(fpc * 2);
            return strf("%sdrift:%d:%d:%d:%d", r.chance(0.25) ? "l" : "", (int)r.below(2), r.chance(0.8) ? -w : 0, r.chance(0.8) ? w : 2, 1 + w / (3 + (int)r.below(12)));
        }
        if (n == "drift") { int lo = -(int)r.below(9), hi = 2 + (int)r.below(8); return strf("%sdrift:%d:%d:%d:%d", r.chance(0.25) ? "l" : "", (int)r.below(2), lo, hi, (int)r.range(1, 2)); }
        if (n == "hits") return strf("%shits:%d:%d:%d", rank == 4 && r.chance(0.35) ? "l" : "", (int)r.below(2), (int)r.range(3, 10), (int)r.range(1, 8));
        return strf("filt:%d", (int)r.below(2));
    };
    if (u < 0.06) k = {"norm", "eq", "roll", "noise", "drift", "hits", "filt", "mag", "clip", "sk"};
    else if (rank == 0) k = {"norm", "eq", "eqf", "roll", "sk", "clip", "mag", "magt", "noise", "defer"};
    else if (rank <= 2) k = {"defer", "roll", "sk", "clip", "mag", "magt", "noise", "noise", "noise", "eq", "norm"};
    else if (rank == 3) k = {"drift", "drift", "roll", "noise"};
    else if (rank == 4) k = {"hits", "hits", "noise", "drift"};
    else k = {"filt", "hits"};
    return mk(k[r.below(k.size())]);
}
Plan gen_world(uint64_t seed, bool thorough, const WorldMix &mx) {
    Rng r(mix(seed, 11));
    Plan p;
    std::vector<int> recs;
    std::map<int, Rec> rr;
    int nrec = 1 + (int)r.below(mx.max_recs);
    int64_t fpc = r.range(24, 96), nco = 1 + r.below(4), T = r.chance(0.1) ? r.range(1, 3) : r.range(4, 10);
    double q28 = 1.0 / (1 << 28); // multiples of 2^-28 MHz: frequency sums are exact however they are associated
    double foff = (r.chance(0.7) ? -1 : 1) * (double)r.range(750, 3000) * q28, fch1 = 1000 + 100 * (double)r.below(80) + (double)r.below(1 << 28) * q28;
    uint64_t tone = r.next() % 100000;
    double tsamp = r.chance(0.6) ? 18.25 : (double)r.range(1, 160) / 8;
    for (int k = 0; k < nrec; ++k) {
        auto &o = p.add("rec");
        if (k && r.chance(0.2)) foff = (r.chance(0.5) ? -1 : 1) * (double)r.range(750, 3000) * q28;
        if (k && r.chance(0.15)) tsamp = (double)r.range(1, 160) / 8;
        if (k && r.chance(0.25)) { nco = 1 + r.below(4); if (r.chance(0.5)) fch1 += 0.5; }
        if (k && r.chance(0.1)) fpc = r.range(24, 72);
        o.set("fpc", fpc).set("nco", nco).set("T", T).setd("fch1", fch1).setd("foff", foff).setd("tsamp", tsamp).setd("tstart", 59000 + k * 0.0035).set("name", k && r.chance(0.5) ? strf("src%d", k) : std::string("src0"));
        o.set("seed", (int64_t)(r.next() % 1000000)).set("tones", r.below(3)).set("layout", r.below(4));
        if (r.chance(0.6)) o.set("tone", (int64_t)tone);
        recs.push_back(o.id);
        rr[o.id] = Rec::of(o);
    }
    std::vector<GObj> objs;
    std::vector<GCC> ccs;
    auto open = [&](int rec) {
        auto &o = p.add("open");
        o.set("rec", rec).set("viafile", r.chance(0.2));
        objs.push_back({o.id, 0, {1}, rr[rec].nco, rr[rec].fpc, 0, true});
        return o.id;
    };
    open(r.pick(recs));
    int n = mx.min_ops + (int)r.below((thorough ? 2 : 1) * (mx.max_ops - mx.min_ops) + 1);
    std::vector<std::pair<const char *, double>> w = {{"open", mx.open}, {"slice", mx.slice}, {"copy", mx.copy}, {"stage", mx.stage}, {"read", mx.read}, {"get", mx.get}, {"hits", mx.hits}, {"meta", mx.meta},
                                                      {"bad", mx.bad}, {"dev", mx.dev}, {"group", mx.group}, {"cc", mx.ccops}, {"assemble", mx.assemble}, {"drop", mx.drop}};
    double tot = 0;
    for (auto &x : w) { x.second *= 0.4 + 1.2 * r.unit(); tot += x.second; } // swarm
    auto full_pipeline = [&](int idx) { // stages in a usable order, one operation each
        GObj g = objs[idx];
        std::vector<std::string> st;
        if (r.chance(0.3)) st.push_back("norm");
        if (r.chance(0.3)) st.push_back(strf("%s:%d:%d", r.chance(0.5) ? "eq" : "eqf", (int)g.fpc, (int)r.below(2)));
        if (r.chance(0.5)) st.push_back(strf("roll:0.%02d", (int)r.range(4, 15)));
        if (r.chance(0.4)) st.push_back(strf("sk:0.05:%d:2", (int)r.range(5, 50)));
        if (r.chance(0.3)) st.push_back("clip:3:3.0:4.0");
        if (r.chance(0.3)) st.push_back("mag");
        st.push_back(strf("noise:%d", (int)r.below(2)));
        if (r.chance(0.2)) st.push_back(strf("defer:%d:%d", (int)r.below(3), (int)r.range(1, 3)));
        st.push_back(strf("%sdrift:%d:%d:%d:1", r.chance(0.25) ? "l" : "", (int)r.below(2), -(int)r.below(8), 1 + (int)r.below(8)));
        st.push_back(strf("%shits:%d:%d:%d", r.chance(0.35) ? "l" : "", (int)r.below(2), (int)r.range(2, 6), (int)r.range(1, 7)));
        if (r.chance(0.4)) st.push_back(strf("filt:%d", (int)r.below(2)));
        int src = g.id;
        for (auto &s : st) { auto &o = p.add("stage"); o.set("src", src).set("st", s); src = o.id; GObj q = g; q.id = o.id; q.rank = rank_of(s); objs.push_back(q); }
    };
    if (mx.pipeline && r.chance(0.8)) full_pipeline((int)r.below(objs.size()));
    auto weights_pick = [&]() -> std::string { double u = r.unit() * tot; for (auto &x : w) { if (u < x.second) return x.first; u -= x.second; } return "get"; };
    auto pick_obj = [&]() -> GObj & {
        if (mx.pipeline && r.chance(0.3)) { // something with a complete pipeline
            std::vector<int> ok;
            for (size_t q = 0; q < objs.size(); ++q) if (objs[q].rank >= 5) ok.push_back((int)q);
            if (!ok.empty()) return objs[r.pick(ok)];
        }
        return r.chance(0.5) ? objs[objs.size() - 1 - r.below(std::min<size_t>(4, objs.size()))] : objs[r.below(objs.size())];
    };
    static const std::vector<std::string> whats = {"d", "m", "dm", "n", "p", "h", "hh", "mm", "dd", "pp", "dmnph", "ph", "mph"};
    for (int k = 0; k < n && p.ops.size() < MAXOPS - 20; ++k) {
        if (objs.empty()) { open(r.pick(recs)); continue; }
        std::string a = weights_pick();
        if (a == "open") {
            if (r.chance(0.3)) {
                std::vector<int> v;
                int m = 1 + (int)r.below(3);
                for (int q = 0; q < m; ++q) v.push_back(r.pick(recs));
                bool ok = true, eq = true;
                for (int x : v) { ok &= rr[x].fpc == rr[v[0]].fpc; eq &= rr[x].nco == rr[v[0]].nco; }
                if (!ok) continue;
                auto &o = p.add("openpaths");
                bool cad = r.chance(0.5);
                std::string s;
                int64_t mn = 99;
                for (int x : v) { s += (s.empty() ? "" : ",") + std::to_string(x); mn = std::min(mn, rr[x].nco); }
                o.set("recs", s).set("cad", cad);
                objs.push_back({o.id, cad ? 2 : 1, cad ? std::vector<int>(v.size(), 1) : std::vector<int>{(int)v.size()}, mn, rr[v[0]].fpc, 0, true});
            } else open(r.pick(recs));
            if (mx.pipeline && r.chance(0.5)) full_pipeline((int)objs.size() - 1);
        } else if (a == "slice") {
            GObj g = pick_obj();
            int64_t st = (int64_t)r.below(g.count), ct = 1 + (int64_t)r.below(g.count - st);
            auto &o = p.add("slice");
            o.set("src", g.id).set("start", st).set("count", r.chance(0.15) ? -1 : ct);
            g.count = o.i("count") == -1 ? g.count - st : ct;
            g.id = o.id;
            objs.push_back(g);
        } else if (a == "copy") {
            GObj g = pick_obj();
            auto &o = p.add("copy");
            o.set("src", g.id);
            g.id = o.id;
            objs.push_back(g);
        } else if (a == "stage") {
            GObj g = pick_obj();
            if (mx.pipeline && r.chance(0.15) && g.rank < 3) { for (size_t q = 0; q < objs.size(); ++q) if (objs[q].id == g.id) { full_pipeline((int)q); break; } continue; }
            auto &o = p.add("stage");
            std::string s = gen_stage(r, g.rank, g.fpc);
            o.set("src", g.id).set("st", s);
            g.id = o.id;
            g.rank = std::max(g.rank, rank_of(s));
            objs.push_back(g);
        } else if (a == "read") {
            GObj &g = pick_obj();
            auto &o = p.add(r.chance(0.15) ? "peek" : "read");
            size_t i = r.below(g.ns.size());
            o.set("src", g.id).set("i", i).set("j", r.below(g.ns[i])).set("ch", r.below(g.count));
            static const std::vector<std::string> late = {"h", "hh", "ph", "dmnph", "hmh"};
            if (r.chance(0.7)) o.set("what", g.rank >= 5 && r.chance(0.6) ? late[r.below(late.size())] : whats[r.below(whats.size())]);
            ccs.push_back({o.id, g.rank, g.fpc});
        } else if (a == "get") {
            if (ccs.empty()) continue;
            auto &c = r.chance(0.5) ? ccs.back() : ccs[r.below(ccs.size())];
            p.add("get").set("src", c.id).set("what", whats[r.below(whats.size())]);
        } else if (a == "hits") {
            std::vector<int> ok;
            for (size_t q = 0; q < objs.size(); ++q) if (objs[q].rank >= 5) ok.push_back((int)q);
            GObj &g = ok.empty() || r.chance(0.05) ? pick_obj() : objs[r.pick(ok)];
            size_t i = r.below(g.ns.size());
            p.add("hits").set("src", g.id).set("i", i).set("j", r.below(g.ns[i]));
        } else if (a == "meta") p.add("meta").set("src", pick_obj().id);
        else if (a == "bad") {
            GObj &g = pick_obj();
            size_t i = r.below(g.ns.size());
            p.add("bad").set("src", g.id).set("i", i).set("j", r.below(g.ns[i])).set("above", r.chance(0.7)).set("by", r.chance(0.6) ? 0 : r.below(5)).set("peek", r.chance(0.3));
        } else if (a == "dev") {
            double u = r.unit();
            if (u < 0.25 && !ccs.empty()) p.add("ccdev").set("src", r.pick(ccs).id).set("dev", r.chance(0.3) ? "cuda:0" : r.chance(0.4) ? "push" : r.chance(0.3) ? "cpu" : "host").set("id", r.range(0, 3));
            else if (u < 0.5) p.add("pushdev").set("src", pick_obj().id);
            else { auto &o = p.add("setdev").set("src", pick_obj().id).set("dev", r.chance(0.35) ? "cuda:0" : r.chance(0.3) ? "cpu" : "host"); if (o.s("dev") == "host") o.set("id", r.range(0, 3)); }
        } else if (a == "group") {
            double u = r.unit();
            if (u < 0.45) {
                std::vector<GObj> sc;
                for (auto &g : objs) if (g.kind == 0) sc.push_back(g);
                if (sc.empty()) continue;
                int m = 1 + (int)r.below(3);
                std::string s;
                GObj t{0, 1, {}, 99, 0, 9, true};
                int cnt = 0;
                for (int q = 0; q < m; ++q) {
                    GObj &g = sc[sc.size() - 1 - r.below(std::min<size_t>(5, sc.size()))];
                    if (t.fpc && g.fpc != t.fpc) continue;
                    t.fpc = g.fpc;
                    t.count = std::min(t.count, g.count);
                    t.rank = std::min(t.rank, g.rank);
                    s += (s.empty() ? "" : ",") + std::to_string(g.id);
                    ++cnt;
                }
                auto &o = p.add("mktarget");
                o.set("src", s);
                t.ns = {cnt};
                t.id = o.id;
                objs.push_back(t);
            } else if (u < 0.75) {
                std::vector<GObj> ts;
                for (auto &g : objs) if (g.kind == 1) ts.push_back(g);
                if (ts.empty()) continue;
                int m = 1 + (int)r.below(3);
                std::string s;
                GObj t{0, 2, {}, 99, 0, 9, true};
                for (int q = 0; q < m; ++q) {
                    GObj &g = ts[r.below(ts.size())];
                    if (t.fpc && g.fpc != t.fpc) continue;
                    t.fpc = g.fpc;
                    t.count = std::min(t.count, g.count);
                    t.rank = std::min(t.rank, g.rank);
                    t.ns.push_back(g.ns[0]);
                    s += (s.empty() ? "" : ",") + std::to_string(g.id);
                }
                auto &o = p.add("mkcad");
                o.set("src", s);
                t.id = o.id;
                objs.push_back(t);
            } else {
                GObj g = pick_obj();
                size_t i = r.below(g.ns.size());
                int j = (int)r.below(g.ns[i]);
                auto &o = p.add("pick");
                o.set("src", g.id).set("i", i).set("j", j);
                g.id = o.id;
                g.kind = 0;
                g.ns = {1};
                objs.push_back(g);
            }
        } else if (a == "cc") {
            if (ccs.empty()) continue;
            GCC c = r.chance(0.6) ? ccs.back() : ccs[r.below(ccs.size())];
            if (r.chance(0.4)) { auto &o = p.add("cccopy"); o.set("src", c.id); c.id = o.id; }
            else { std::string s = gen_stage(r, c.rank, c.fpc); auto &o = p.add("ccstage"); o.set("src", c.id).set("st", s); c.id = o.id; c.rank = std::max(c.rank, rank_of(s)); }
            ccs.push_back(c);
        } else if (a == "assemble") {
            GObj g = pick_obj();
            if (g.kind) continue;
            auto &o = p.add("assemble");
            o.set("src", g.id);
            g.id = o.id;
            g.h5 = false;
            objs.push_back(g);
        } else if (a == "drop") {
            if (objs.size() < 3) continue;
            size_t q = r.below(objs.size());
            p.add("drop").set("src", objs[q].id);
            objs.erase(objs.begin() + q);
        }
    }
    return p;
}

// cadences with one target observed several times and others in between
Plan gen_cadence(uint64_t seed, bool thorough) {
    Rng r(mix(seed, 12));
    Plan p;
    int64_t fpc = r.range(40, 110), nco = 1 + r.below(3), T = r.range(4, 8);
    double q28 = 1.0 / (1 << 28); // multiples of 2^-28 MHz: frequency sums are exact however they are associated
    double foff = (r.chance(0.7) ? -1 : 1) * (double)r.range(750, 3000) * q28, fch1 = 1000 + 100 * (double)r.below(80) + (double)r.below(1 << 28) * q28;
    int nobs = 1 + (int)r.below(3), on = r.chance(0.1) ? 1 : 2 + (int)r.below(2);
    uint64_t tone = r.next() % 100000;
    std::vector<std::vector<int>> obs(nobs);
    int nrec = 0;
    auto rec = [&](bool is_on) {
        auto &o = p.add("rec");
        o.set("fpc", fpc).set("nco", nco).set("T", T).setd("fch1", fch1).setd("foff", foff).setd("tsamp", 18.25).setd("tstart", 59000 + nrec++ * 0.0035).set("name", is_on ? "on" : "off");
        o.set("seed", (int64_t)(r.next() % 1000000)).set("layout", r.below(4));
        o.set("tones", r.chance(is_on ? 0.4 : 0.12) ? 1 : 0);
        if (is_on ? r.chance(0.9) : r.chance(0.06)) o.set("tone", (int64_t)tone);
        return o.id;
    };
    for (int k = 0; k < on; ++k) { obs[0].push_back(rec(true)); if (nobs > 1 && r.chance(0.8)) obs[1 + r.below(nobs - 1)].push_back(rec(false)); }
    for (auto &o : obs) if (o.empty()) o.push_back(rec(false));
    std::vector<std::string> st;
    if (r.chance(0.3)) st.push_back("norm");
    if (r.chance(0.2)) st.push_back(strf("eq:%d:%d", (int)fpc, (int)r.below(2)));
    if (r.chance(0.3)) st.push_back(strf("roll:0.%02d", (int)r.range(4, 12)));
    if (r.chance(0.2)) st.push_back("sk:0.05:30:2");
    st.push_back("noise:0");
    st.push_back(strf("drift:%d:%d:%d:1", (int)r.below(2), -(int)r.range(1, 7), (int)r.range(1, 7)));
    st.push_back(strf("%shits:%d:%d:%d", r.chance(0.25) ? "l" : "", (int)r.below(2), (int)r.range(4, 7), (int)r.range(1, 7)));
    if (r.chance(0.5)) st.push_back(strf("filt:%d", (int)r.below(2)));
    auto stages = [&](int src) { for (auto &x : st) { auto &o = p.add("stage"); o.set("src", src).set("st", x); src = o.id; } return src; };
    int style = (int)r.below(4); // stages at cadence, target or scan level; or everything from paths
    std::string ts;
    int cad;
    if (style == 3) {
        std::string s;
        for (auto &o : obs) s += (s.empty() ? "" : ",") + std::to_string(o[0]);
        auto &c = p.add("openpaths");
        c.set("recs", s).set("cad", 1);
        cad = stages(c.id);
        for (auto &o : obs) o.resize(1);
    } else {
        for (auto &o : obs) {
            std::string ss;
            for (int rc : o) {
                auto &a = p.add("open");
                a.set("rec", rc);
                int id = a.id;
                if (style == 2) id = stages(id);
                ss += (ss.empty() ? "" : ",") + std::to_string(id);
            }
            auto &t = p.add("mktarget");
            t.set("src", ss);
            int id = t.id;
            if (style == 1) id = stages(id);
            ts += (ts.empty() ? "" : ",") + std::to_string(id);
        }
        auto &c = p.add("mkcad");
        c.set("src", ts);
        cad = style == 0 ? stages(c.id) : c.id;
    }
    std::vector<std::pair<int, int64_t>> cads = {{cad, nco}};
    int n = 3 + (int)r.below(thorough ? 16 : 9);
    for (int k = 0; k < n && p.ops.size() < MAXOPS - 12; ++k) {
        auto c = r.pick(cads);
        double u = r.unit();
        size_t i = r.below(obs.size()), j = r.below(obs[i].size());
        if (k == 0 && u < 0.4) u = 0;
        if (u < 0.3) p.add("events").set("src", c.first);
        else if (u < 0.45) p.add("hits").set("src", c.first).set("i", i).set("j", j);
        else if (u < 0.6) p.add("read").set("src", c.first).set("i", i).set("j", j).set("ch", r.below(c.second)).set("what", r.chance(0.6) ? "h" : "mph");
        else if (u < 0.7) { auto &o = p.add("copy"); o.set("src", c.first); cads.push_back({o.id, c.second}); }
        else if (u < 0.82) {
            int64_t s0 = (int64_t)r.below(c.second), ct = 1 + (int64_t)r.below(c.second - s0);
            auto &o = p.add("slice");
            o.set("src", c.first).set("start", s0).set("count", ct);
            cads.push_back({o.id, ct});
        } else if (u < 0.88) { auto &o = p.add("stage"); o.set("src", c.first).set("st", strf("filt:%d", (int)r.below(2))); cads.push_back({o.id, c.second}); }
        else if (u < 0.92) p.add("setdev").set("src", c.first).set("dev", r.chance(0.35) ? "cuda:0" : r.chance(0.3) ? "cpu" : "host").set("id", r.range(0, 3));
        else p.add("meta").set("src", c.first);
    }
    auto &e = p.add("events");
    e.set("src", r.pick(cads).first);
    p.add("events").set("src", cad);
    p.add("hits").set("src", cad).set("i", 0).set("j", r.below(obs[0].size()));
    return p;
}
} // namespace sim

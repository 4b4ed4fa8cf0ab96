#include "results.hpp"
#include <file_types/cpnp_files.hpp>
#include <file_types/events_file.hpp>
#include <file_types/hits_file.hpp>

namespace sim {
bliss::hit make_hit(Rng &r) {
    bliss::hit h{};
    auto i32 = [&](int64_t lo, int64_t hi) { return r.chance(0.05) ? (r.chance(0.5) ? (int64_t)INT32_MAX : -(int64_t)r.below(5)) : r.range(lo, hi); };
    h.start_freq_index = i32(0, 1 << 20);
    h.start_freq_MHz = 700 + 9000 * r.unit();
    h.start_time_sec = 86400.0 * (50000 + 9999 * r.unit());
    h.duration_sec = 300 * r.unit();
    h.rate_index = i32(-2000, 2000);
    h.drift_rate_Hz_per_sec = 10 * r.unit() - 5;
    h.power = 1e9 * r.unit() * (r.chance(0.1) ? 1e20 : 1);
    h.time_span_steps = i32(1, 5000);
    h.snr = (float)(5 + 1000 * r.unit());
    h.bandwidth = (float)(50 * r.unit());
    h.binwidth = r.range(1, 4000);
    h.coarse_channel_number = i32(0, 80);
    if (r.chance(0.02)) { // values of any size
        auto any = [&](int e) { return (r.chance(0.5) ? -1 : 1) * (1 + r.unit()) * std::pow(10.0, (double)r.range(-e, e)); };
        if (r.chance(0.5)) h.snr = (float)any(37);
        if (r.chance(0.5)) h.drift_rate_Hz_per_sec = any(120);
        if (r.chance(0.5)) h.start_freq_MHz = any(60);
        if (r.chance(0.3)) h.duration_sec = any(30);
        if (r.chance(0.3)) h.power = any(37);
        if (r.chance(0.3)) h.bandwidth = (float)any(37);
    }
    return h;
}
bliss::hit stored(const bliss::hit &h) {
    bliss::hit s = h;
    s.start_freq_index = (int32_t)h.start_freq_index;
    s.start_time_sec = (float)h.start_time_sec;
    s.duration_sec = (float)h.duration_sec;
    s.rate_index = (int32_t)h.rate_index;
    s.power = (float)h.power;
    s.time_span_steps = (int32_t)h.time_span_steps;
    s.binwidth = (int64_t)(float)h.binwidth;
    s.coarse_channel_number = (int32_t)h.coarse_channel_number;
    s.rfi_counts.clear();
    return s;
}
std::vector<bliss::hit> make_hits(Rng &r, int64_t n) {
    std::vector<bliss::hit> v;
    v.reserve(n);
    for (int64_t k = 0; k < n; ++k) {
        v.push_back(k && r.chance(0.1) ? v[r.below(v.size())] : make_hit(r)); // equal hits are kept as often as they were given
        if (r.chance(0.2)) v.back().rfi_counts[bliss::flag_values::magnitude] = 3;
    }
    return v;
}
static std::vector<MChan> make_scan(Rng &r, int64_t n, int64_t max_chan) {
    static const char *names[] = {"VOYAGER-1", "HIP 1234", "", "TIC 99; band \"L\"\t2", "\xce\xb1 Cen", "a-rather-long-source-name-that-does-not-fit-into-any-small-string-buffer-0123456789"};
    std::vector<MChan> s;
    MChan c;
    c.fch1 = 1000 + 9000 * r.unit();
    c.foff = (r.chance(0.5) ? -1 : 1) * 2.79e-6;
    c.dej = 180 * r.unit() - 90;
    c.raj = 24 * r.unit();
    c.tsamp = 20 * r.unit();
    c.tstart = 50000 + 9999 * r.unit();
    c.tel = r.range(0, 90);
    c.nt = r.range(1, 300);
    c.nc = r.range(1, 1 << 20);
    c.name = names[r.below(6)];
    int64_t nch = 1 + (int64_t)r.below(max_chan);
    for (int64_t k = 0; k < nch; ++k) {
        MChan x = c;
        x.number = k;
        x.fch1 = c.fch1 + c.foff * (double)(k * c.nc);
        x.hits = make_hits(r, r.chance(0.3) ? 0 : (int64_t)r.below(n + 1));
        s.push_back(x);
    }
    return s;
}
MRes make_result(const std::string &kind, uint64_t seed, int64_t n) {
    Rng r(mix(seed, 77));
    MRes m;
    m.kind = kind;
    if (kind == "hits") m.hits = make_hits(r, n);
    else if (kind == "events") {
        int64_t left = n;
        while (left > 0) {
            int64_t k = std::min<int64_t>(left, r.chance(0.1) ? left : 1 + (int64_t)r.below(9));
            m.events.push_back(r.chance(0.05) ? std::vector<bliss::hit>{} : make_hits(r, k));
            left -= k;
        }
    } else if (kind == "chan") {
        auto s = make_scan(r, n, 1);
        s[0].number = r.below(64);
        s[0].hits = make_hits(r, n);
        m.obs = {{s}};
    } else {
        int no = kind == "cadence" ? 1 + (int)r.below(4) : 1;
        for (int o = 0; o < no; ++o) {
            m.obs.emplace_back();
            int ns = kind == "scan" ? 1 : 1 + (int)r.below(3);
            for (int k = 0; k < ns; ++k) m.obs.back().push_back(make_scan(r, n, 5));
        }
    }
    return m;
}
bliss::coarse_channel build_chan(const MChan &m) {
    bliss::coarse_channel cc(m.fch1, m.foff, 3, 32, m.nc, m.nt, 1, m.name, m.dej, m.raj, m.tel, m.tsamp, m.tstart, 1, 0.0, 0.0, m.number);
    cc.set_hits(std::list<bliss::hit>(m.hits.begin(), m.hits.end()));
    return cc;
}
bliss::scan build_scan(const std::vector<MChan> &m) {
    std::map<int, std::shared_ptr<bliss::coarse_channel>> cs;
    for (size_t k = 0; k < m.size(); ++k) cs[(int)k] = std::make_shared<bliss::coarse_channel>(build_chan(m[k]));
    return bliss::scan(cs);
}
bliss::observation_target build_target(const std::vector<std::vector<MChan>> &m) {
    std::vector<bliss::scan> s;
    for (auto &x : m) s.push_back(build_scan(x));
    return bliss::observation_target(s);
}
bliss::cadence build_cadence(const std::vector<std::vector<std::vector<MChan>>> &m) {
    std::vector<bliss::observation_target> t;
    for (auto &x : m) t.push_back(build_target(x));
    return bliss::cadence(t);
}
void write_result(const MRes &m, const std::string &path, int form) {
    using namespace bliss;
    if (m.kind == "hits") {
        if (form % 2) write_hits_to_capnp_file(std::list<hit>(m.hits.begin(), m.hits.end()), path);
        else write_hits_to_capnp_file(m.hits, path);
    } else if (m.kind == "events") {
        std::vector<event> ev;
        for (auto &e : m.events) { ev.emplace_back(); ev.back().hits.assign(e.begin(), e.end()); }
        write_events_to_file(ev, path);
    } else if (m.kind == "chan") write_coarse_channel_hits_to_capnp_file(build_chan(m.obs[0][0][0]), path);
    else if (m.kind == "scan") {
        auto s = build_scan(m.obs[0][0]);
        if (form % 3 == 1) write_scan_hits_to_file(s, path, "capnp");
        else if (form % 3 == 2) write_scan_hits_to_file(s, path);
        else write_scan_hits_to_capnp_file(s, path);
    } else if (m.kind == "target") write_observation_target_hits_to_capnp_files(build_target(m.obs[0]), path);
    else write_cadence_hits_to_capnp_files(build_cadence(m.obs), path);
}
static MChan plain(bliss::coarse_channel &cc) {
    MChan m;
    m.fch1 = cc.fch1();
    m.foff = cc.foff();
    m.dej = cc.src_dej();
    m.raj = cc.src_raj();
    m.tel = cc.telescope_id();
    m.tsamp = cc.tsamp();
    m.tstart = cc.tstart();
    m.nt = cc.ntsteps();
    m.nc = cc.nchans();
    m.name = cc.source_name();
    m.number = cc._coarse_channel_number;
    auto l = cc.hits();
    m.hits.assign(l.begin(), l.end());
    return m;
}
static std::vector<MChan> plain(bliss::scan &s) {
    std::vector<MChan> v;
    MChan head; // the scan's own metadata
    head.fch1 = s.fch1();
    head.foff = s.foff();
    head.dej = s.src_dej();
    head.raj = s.src_raj();
    head.tel = s.telescope_id();
    head.tsamp = s.tsamp();
    head.tstart = s.tstart();
    head.nt = s.ntsteps();
    head.nc = s.nchans();
    head.name = s.source_name();
    head.number = -1;
    auto all = s.hits();
    head.hits.assign(all.begin(), all.end());
    v.push_back(head);
    for (int k = 0; k < s.get_number_coarse_channels(); ++k) v.push_back(plain(*s.read_coarse_channel(k)));
    return v;
}
MRes read_result(const std::string &kind, const std::string &path, int form) {
    using namespace bliss;
    MRes m;
    m.kind = kind;
    if (kind == "hits") {
        auto l = form % 2 ? read_hits_from_file(path, form % 4 == 1 ? "" : "capnp") : read_hits_from_capnp_file(path);
        m.hits.assign(l.begin(), l.end());
    } else if (kind == "events") {
        for (auto &e : read_events_from_file(path)) m.events.emplace_back(e.hits.begin(), e.hits.end());
    } else if (kind == "chan") {
        auto c = read_coarse_channel_hits_from_capnp_file(path);
        m.obs = {{{plain(c)}}};
    } else if (kind == "scan") {
        auto s = form % 2 ? read_scan_hits_from_file(path, "capnp") : read_scan_hits_from_capnp_file(path);
        m.obs = {{plain(s)}};
    } else if (kind == "target") {
        auto t = read_observation_target_hits_from_capnp_files(path);
        m.obs.emplace_back();
        for (auto &s : t._scans) m.obs[0].push_back(plain(s));
    } else {
        auto c = read_cadence_hits_from_capnp_files(path);
        for (auto &t : c._observations) {
            m.obs.emplace_back();
            for (auto &s : t._scans) m.obs.back().push_back(plain(s));
        }
    }
    return m;
}
MRes stored(const MRes &m) { // what reading the file of m has to give, in the form read_result returns
    MRes s = m;
    for (auto &h : s.hits) h = stored(h);
    for (auto &e : s.events) for (auto &h : e) h = stored(h);
    for (auto &o : s.obs) for (auto &sc : o) {
        for (auto &c : sc) for (auto &h : c.hits) h = stored(h);
        if (m.kind == "chan") continue;
        MChan head = sc.at(0);
        head.number = -1;
        head.loaded = true;
        head.nc = sc[0].nc * (int64_t)sc.size();
        head.hits.clear();
        for (auto &c : sc) head.hits.insert(head.hits.end(), c.hits.begin(), c.hits.end());
        sc.insert(sc.begin(), head);
    }
    return s;
}
static std::string one_diff(const bliss::hit &g, const bliss::hit &w) {
    std::string d;
    auto f = [&](const char *n, double a, double b) { if (!(a == b)) d += strf(" %s %.17g want %.17g;", n, a, b); };
    f("start_freq_index", g.start_freq_index, w.start_freq_index);
    f("start_freq_MHz", g.start_freq_MHz, w.start_freq_MHz);
    f("start_time_sec", g.start_time_sec, w.start_time_sec);
    f("duration_sec", g.duration_sec, w.duration_sec);
    f("rate_index", g.rate_index, w.rate_index);
    f("drift_rate", g.drift_rate_Hz_per_sec, w.drift_rate_Hz_per_sec);
    f("power", g.power, w.power);
    f("time_span_steps", g.time_span_steps, w.time_span_steps);
    f("snr", g.snr, w.snr);
    f("bandwidth", g.bandwidth, w.bandwidth);
    f("binwidth", g.binwidth, w.binwidth);
    f("coarse_channel_number", g.coarse_channel_number, w.coarse_channel_number);
    return d;
}
std::string hits_diff(const std::vector<bliss::hit> &got, const std::vector<bliss::hit> &want) {
    for (size_t k = 0; k < got.size() && k < want.size(); ++k) {
        auto d = one_diff(got[k], want[k]);
        if (!d.empty()) return strf("hit %zu of %zu:", k, want.size()) + d;
    }
    if (got.size() != want.size()) return strf("%zu hits, want %zu", got.size(), want.size());
    return "";
}
std::string result_diff(const MRes &g, const MRes &w) {
    auto d = hits_diff(g.hits, w.hits);
    if (!d.empty()) return d;
    for (size_t k = 0; k < g.events.size() && k < w.events.size(); ++k) {
        d = hits_diff(g.events[k], w.events[k]);
        if (!d.empty()) return strf("event %zu: ", k) + d;
    }
    if (g.events.size() != w.events.size()) return strf("%zu events, want %zu", g.events.size(), w.events.size());
    if (g.obs.size() != w.obs.size()) return strf("%zu observations, want %zu", g.obs.size(), w.obs.size());
    for (size_t o = 0; o < w.obs.size(); ++o) {
        if (g.obs[o].size() != w.obs[o].size()) return strf("observation %zu: %zu scans, want %zu", o, g.obs[o].size(), w.obs[o].size());
        for (size_t s = 0; s < w.obs[o].size(); ++s) {
            auto &gs = g.obs[o][s], &ws = w.obs[o][s];
            std::string at = strf("observation %zu scan %zu", o, s);
            if (gs.size() != ws.size()) return at + strf(": %zu channels, want %zu", gs.size() - 1, ws.size() - 1);
            for (size_t c = 0; c < ws.size(); ++c) {
                auto &a = gs[c], &b = ws[c];
                std::string e, ac = at + (b.number < 0 ? std::string(" itself:") : strf(" channel %lld:", (long long)b.number));
                if (b.loaded) {
                    auto f = [&](const char *n, double x, double y) { if (!(x == y)) e += strf(" %s %.17g want %.17g;", n, x, y); };
                    f("fch1", a.fch1, b.fch1);
                    f("foff", a.foff, b.foff);
                    f("src_dej", a.dej, b.dej);
                    f("src_raj", a.raj, b.raj);
                    f("telescope_id", a.tel, b.tel);
                    f("tsamp", a.tsamp, b.tsamp);
                    f("tstart", a.tstart, b.tstart);
                    f("ntsteps", a.nt, b.nt);
                    f("nchans", a.nc, b.nc);
                    f("number", a.number, b.number);
                    if (a.name != b.name) e += " source_name '" + a.name + "' want '" + b.name + "'";
                }
                if (!e.empty()) return ac + e;
                e = hits_diff(a.hits, b.hits);
                if (!e.empty()) return ac + " " + e;
            }
        }
    }
    return "";
}
std::string real_stages(Rng &r) {
    return strf("norm,noise:%d,drift:%d:%d:%d:1,hits:%d:%d:7", (int)r.below(2), (int)r.below(2), -4 - (int)r.below(4), 4 + (int)r.below(4), (int)r.below(4) == 0, 3 + (int)r.below(12));
}
std::shared_ptr<bliss::scan> real_scan(const Op &op, int64_t mask, MRes &m) {
    HarnessScope hs;
    Rec q = Rec::of(op);
    q.write();
    std::shared_ptr<bliss::scan> sc;
    auto open = [&](std::shared_ptr<bliss::scan> &sc) {
        sc = std::make_shared<bliss::scan>(q.path(), (int)q.fpc);
        for (auto &st : split(op.s("stages"), ',')) *sc = apply_stage(*sc, st);
        int64_t off = op.i("off") % q.nco, n = 1 + op.i("cnt") % (q.nco - off);
        if (op.i("slice")) *sc = sc->slice_scan_channels(off, n);
        for (int k = 0; k < sc->get_number_coarse_channels(); ++k)
            if (mask >> k & 1) sc->read_coarse_channel(k);
    };
    OpScope s(op.id, false);
    Outcome o = guarded([&] {
        open(sc);
        m.kind = "scan";
        m.obs = {{{}}};
        for (int k = 0; k < sc->get_number_coarse_channels(); ++k) {
            MChan c;
            c.loaded = mask >> k & 1;
            c.dej = sc->src_dej(); c.raj = sc->src_raj(); c.tel = sc->telescope_id(); c.tsamp = sc->tsamp(); c.tstart = sc->tstart(); c.name = sc->source_name();
            c.foff = sc->foff();
            c.nt = sc->ntsteps();
            c.nc = sc->nchans() / sc->get_number_coarse_channels();
            if (c.loaded) {
                auto cc = sc->read_coarse_channel(k);
                c.fch1 = cc->fch1();
                c.number = cc->_coarse_channel_number;
                auto h = cc->hits();
                c.hits.assign(h.begin(), h.end());
            } else c.fch1 = k == 0 ? sc->fch1() : 0;
            m.obs[0][0].push_back(c);
        }
        if (op.i("lazy")) open(sc);
    });
    if (o.threw) violate("search:refused", strf("op %d: search of an intact recording failed: ", op.id) + o.what);
    return sc;
}
size_t record_count(const MRes &m) { return m.kind == "hits" ? m.hits.size() : m.kind == "events" ? m.events.size() : 1; }
size_t whole_messages(const std::vector<uint8_t> &b) {
    size_t p = 0, n = 0;
    auto u32 = [&](size_t at) { return (uint64_t)b[at] | (uint64_t)b[at + 1] << 8 | (uint64_t)b[at + 2] << 16 | (uint64_t)b[at + 3] << 24; };
    while (p + 8 <= b.size()) {
        uint64_t segs = u32(p) + 1, head = (4 * (segs + 1) + 7) / 8 * 8, words = 0;
        if (segs > 100000 || p + head > b.size()) break;
        for (uint64_t k = 0; k < segs; ++k) words += u32(p + 4 + 4 * k);
        if (p + head + 8 * words > b.size()) break;
        p += head + 8 * words;
        ++n;
    }
    return n;
}
namespace {
bool num(const std::string &s, double &v) {
    if (s.empty()) return false;
    char *e = nullptr;
    v = strtod(s.c_str(), &e);
    while (e && *e == ' ') ++e;
    return e && !*e;
}
std::string after(const std::string &line, const std::string &tag) { // value following a tag up to a tab or the end
    auto i = line.find(tag);
    if (i == std::string::npos) return "?";
    std::string v = line.substr(i + tag.size());
    v = v.substr(0, v.find('\t'));
    v = v.substr(0, v.find(" max_drift"));
    while (!v.empty() && v[0] == ' ') v.erase(0, 1);
    return v;
}
// value printed with 6 decimals (or more)
bool agrees(double got, double want, double scale = 0) { return std::fabs(got - want) <= 0.51e-6 + 1e-12 * std::fabs(want) + scale; }
bool sexagesimal(const std::string &s, double &v) {
    int a = 0, b = 0;
    double c = 0;
    char u = 0, w = 0, x = 0;
    if (sscanf(s.c_str(), "%d%c%d%c%lf%c", &a, &u, &b, &w, &c, &x) != 6 || w != 'm' || x != 's') return false;
    v = (std::abs(a) + b / 60.0 + c / 3600) * (s[0] == '-' ? -1 : 1);
    return true;
}
} // namespace
std::string report_diff(const std::string &text, const MChan &md, double foff, const std::vector<bliss::hit> &hits) {
    if (text.empty() || text.back() != '\n') return "the last line is not complete";
    auto lines = split(text.substr(0, text.size() - 1), '\n');
    size_t k = 0;
    std::string head;
    while (k < lines.size() && !lines[k].empty() && lines[k][0] == '#') head += lines[k++] + "\n";
    std::string src = after(head, "Source:");
    src = src.substr(0, src.find('\n'));
    auto want_src = md.name.substr(0, md.name.find('\t'));
    while (!want_src.empty() && want_src[0] == ' ') want_src.erase(0, 1);
    if (src != want_src) return "header: source '" + src + "' want '" + want_src + "'";
    double v = 0;
    std::string mjd = after(head, "MJD:");
    if (!num(mjd, v) || std::fabs(v - md.tstart) > 1e-6) return "header: MJD " + mjd + strf(" want %.12g", md.tstart);
    if (!sexagesimal(after(head, "RA:"), v) || std::fabs(v - md.raj) > 0.0006 / 3600) return "header: RA " + after(head, "RA:") + strf(" want %.9g h", md.raj);
    if (!sexagesimal(after(head, "DEC:"), v) || std::fabs(v - md.dej) > 0.0051 / 3600) return "header: DEC " + after(head, "DEC:") + strf(" want %.9g deg", md.dej);
    if (!num(after(head, "DELTAT:"), v) || !agrees(v, md.tsamp)) return "header: DELTAT " + after(head, "DELTAT:") + strf(" want %.9g", md.tsamp);
    if (!num(after(head, "DELTAF(Hz):"), v) || !agrees(v, foff * 1e6)) return "header: DELTAF " + after(head, "DELTAF(Hz):") + strf(" want %.9g", foff * 1e6);
    std::string ol = after(head, "obs_length:");
    ol = ol.substr(0, ol.find('\n'));
    if (!num(ol, v) || !agrees(v, md.tsamp * (double)md.nt)) return "header: obs_length " + ol + strf(" want %.9g", md.tsamp * (double)md.nt);
    if (lines.size() - k != hits.size()) return strf("%zu rows, want %zu", lines.size() - k, hits.size());
    for (size_t i = 0; i < hits.size(); ++i) {
        auto &h = hits[i];
        auto w = split(lines[k + i], '\t');
        std::string at = strf("row %zu of %zu", i + 1, hits.size()) + " '" + lines[k + i] + "': ";
        if (w.size() != 12) return at + strf("%zu columns", w.size());
        double c[12];
        for (int j = 0; j < 12; ++j) if (!num(w[j], c[j])) return at + strf("column %d is not a number", j);
        double end = h.start_freq_MHz + h.duration_sec * h.drift_rate_Hz_per_sec / 1e6, mid = (h.start_freq_MHz + end) / 2;
        std::string e;
        auto f = [&](const char *n, double got, double want) { if (!agrees(got, want)) e += strf("%s %.12g want %.12g; ", n, got, want); };
        f("number", c[0], (double)(i + 1));
        f("drift rate", c[1], h.drift_rate_Hz_per_sec);
        f("SNR", c[2], h.snr);
        f("frequency", c[3], mid);
        f("corrected frequency", c[4], mid);
        f("index", c[5], (double)h.start_freq_index);
        f("start frequency", c[6], h.start_freq_MHz);
        f("end frequency", c[7], end);
        f("coarse channel", c[10], (double)h.coarse_channel_number);
        f("bandwidth in bins", c[11], (double)h.binwidth);
        if (!e.empty()) return at + e;
    }
    return "";
}
} // namespace sim

// C10: deferred arrays evaluate as often as their policy promises.
#include "util.hpp"
#include <bland/ndarray_deferred.hpp>
#include <bland/ndarray_slice.hpp>
#include <bland/ops/ops.hpp>
#include <core/coarse_channel.hpp>

using namespace sim;
using bland::ndarray;
using bland::ndarray_deferred;
using policy = ndarray_deferred::eval_policy;
namespace {
struct Group { // what one producer must have done so far
    int id;
    int pol;           // 0 eager 1 memoize 2 lazy
    int64_t rows, cols;
    int runs = 0;      // observed completed or attempted producer runs
    int ok_runs = 0;   // of which returned
    bool have = false; // memoised / eager value present
    int value_run = 0; // the ok run that produced the value held
    bool unknown = false; // memory ran out after the producer returned: kept or not
};
Arr expected(const Group &g, int run) {
    Arr a;
    a.shape = {g.rows, g.cols};
    a.bytes.resize(g.rows * g.cols * 4);
    for (int64_t i = 0; i < g.rows * g.cols; ++i) { float v = (float)(g.id * 1000 + run * 100000 + i); memcpy(&a.bytes[i * 4], &v, 4); }
    return a;
}
struct Slot {
    int group = -1;
    std::shared_ptr<ndarray_deferred> d;     // plain deferred
    std::shared_ptr<bliss::coarse_channel> cc; // or held by a channel
    int kind = 0;                            // cc: 0 data 1 mask 2 hits
    int dev = -1;                            // the device asked for
};
std::shared_ptr<bliss::coarse_channel> blank_cc() {
    HarnessScope h;
    auto cc = std::make_shared<bliss::coarse_channel>(1000.0, -1e-6, (int64_t)1, (int64_t)32, (int64_t)4, (int64_t)4, (int64_t)1, std::string("x"), 0.0, 0.0, (int64_t)1, 1.0, 5e4, (int64_t)1, 0.0, 0.0, (int64_t)0);
    cc->set_data(make_array({2, 2}, ndarray::datatype::float32, [](int64_t) { return 1; }));
    cc->set_mask(make_array({2, 2}, ndarray::datatype::uint8, [](int64_t) { return 0; }));
    return cc;
}
void execute(const Plan &p) {
    std::vector<std::shared_ptr<Group>> groups;
    std::map<int, Slot> slots;
    auto check_runs = [&](const Group &g, int want_runs, const char *when) {
        checked();
        if (g.runs != want_runs) {
            const char *n[] = {"eager", "memoising", "lazy"};
            violate(strf("policy:%s-run-count", n[g.pol]), strf("%s producer ran %d times, %d expected (%s)", n[g.pol], g.runs, want_runs, when));
        }
    };
    for (auto &op : p.ops) {
        if (op.name == "make") {
            auto g = std::make_shared<Group>();
            g->id = op.id + 1;
            g->pol = (int)op.i("policy");
            g->rows = op.i("rows", 2);
            g->cols = op.i("cols", 3);
            int extra = (int)op.i("extra"); // array allocations inside the producer
            bool via_cc = op.i("cc");
            int view = (int)op.i("view"); // the producer hands out part of a larger array
            if (via_cc && op.i("kind") == 2) g->pol = 1; // hits are always memoised
            auto produce = [g, extra, view]() -> ndarray {
                { HarnessScope h; ++g->runs; }
                callback_point(g->id);
                int64_t st = view == 2 ? 2 : 1, off = view ? 1 : 0;
                ndarray a({g->rows + off, g->cols * st + off}, ndarray::datatype::float32);
                if (view) a = bland::slice(bland::slice(a, 0, off, g->rows + off, 1), 1, off, g->cols * st + off, st);
                for (int i = 0; i < extra; ++i) ndarray t({3, 3}, ndarray::datatype::float32);
                { HarnessScope h; ++g->ok_runs; Arr e = expected(*g, g->ok_runs); for (int64_t i = 0; i < g->rows * g->cols; ++i) memcpy(a.data_ptr<char>() + 4 * (a.offsets()[0] + a.offsets()[1] + i / g->cols * a.strides()[0] + i % g->cols * a.strides()[1]), &e.bytes[i * 4], 4); }
                return a;
            };
            policy pol = g->pol == 0 ? policy::eager : g->pol == 1 ? policy::memoize : policy::lazy;
            Slot s;
            s.kind = (int)op.i("kind");
            Outcome o;
            {
                OpScope sc(op.id);
                o = guarded([&] {
                    if (via_cc && s.kind == 2) {
                        s.cc = blank_cc();
                        s.cc->set_hits([g]() {
                            { HarnessScope h; ++g->runs; }
                            callback_point(g->id);
                            ndarray t({3, 3}, ndarray::datatype::float32);
                            { HarnessScope h; ++g->ok_runs; }
                            std::list<bliss::hit> l;
                            for (int i = 0; i < g->cols; ++i) { bliss::hit x{}; x.start_freq_index = g->ok_runs * 1000 + i; l.push_back(x); }
                            return l;
                        });
                    } else if (via_cc) {
                        s.cc = blank_cc();
                        ndarray_deferred d(produce, pol);
                        if (s.kind == 0) s.cc->set_data(d); else s.cc->set_mask(d);
                    } else s.d = std::make_shared<ndarray_deferred>(produce, pol);
                });
            }
            bool fired = fault_fired_in_op(op.id);
            bool oom = fired_kinds_in_op(op.id).find("new:") != std::string::npos;
            if (g->pol == 0) {
                if (!(oom && o.threw && g->runs == 0)) check_runs(*g, 1, "at construction");
                checked();
                if (fired != o.threw) violate(fired ? "producer:failure-swallowed" : "spurious-failure", "constructing an eager deferred array: " + o.what);
                if (!o.threw) { g->have = true; g->value_run = g->ok_runs; }
            } else {
                check_runs(*g, 0, "at construction");
                if (o.threw) { if (!fired) violate("spurious-failure", "constructing a deferred array failed: " + o.what); continue; }
            }
            if (o.threw) { probe(4); continue; }
            s.group = (int)groups.size();
            groups.push_back(g);
            slots[op.id] = s;
        } else if (op.name == "copy") {
            auto it = slots.find((int)op.i("src"));
            if (it == slots.end()) continue;
            Slot s = it->second;
            {
                OpScope sc(op.id, false);
                if (s.d) s.d = std::make_shared<ndarray_deferred>(*it->second.d);
                else if (s.cc && op.i("refill") && s.kind == 0) { auto n = blank_cc(); n->set_data(s.cc->_data); s.cc = n; }
                else s.cc = std::make_shared<bliss::coarse_channel>(*it->second.cc);
            }
            slots[op.id] = s;
            probe(0);
        } else if (op.name == "drop") {
            auto it = slots.find((int)op.i("src"));
            if (it != slots.end()) slots.erase(it);
        } else if (op.name == "to") {
            auto it = slots.find((int)op.i("src"));
            if (it == slots.end()) continue;
            Group &g = *groups[it->second.group];
            int before = g.runs;
            {
                OpScope sc(op.id, false);
                if (it->second.d) {
                    ndarray::dev cpu("cpu");
                    int dev = (int)op.i("dev");
                    cpu.device_id = dev;
                    if (!op.i("bydev")) dev = 0;
                    it->second.dev = dev; // the array it is asked of moves, too
                    Slot s = it->second;
                    if (op.i("bydev")) s.d = std::make_shared<ndarray_deferred>(it->second.d->to(cpu));
                    else s.d = std::make_shared<ndarray_deferred>(it->second.d->to("cpu"));
                    slots[op.id] = s;
                } else it->second.cc->push_device();
            }
            check_runs(g, before, "placing on a device must not evaluate");
        } else if (op.name == "get") {
            auto it = slots.find((int)op.i("src"));
            if (it == slots.end()) continue;
            Slot &s = it->second;
            Group &g = *groups[s.group];
            int before = g.runs, ok_before = g.ok_runs;
            Arr got;
            std::vector<int64_t> hits;
            int dev = -1;
            Outcome o;
            {
                OpScope sc(op.id);
                o = guarded([&] {
                    if (s.d) {
                        ndarray a = *s.d;
                        got = grab(a);
                        HarnessScope h;
                        dev = a.device().device_type == kDLCPU ? a.device().device_id : -2;
                    } else if (s.kind == 2) {
                        auto l = s.cc->hits();
                        HarnessScope h;
                        for (auto &x : l) hits.push_back(x.start_freq_index);
                    } else got = grab(s.kind == 0 ? s.cc->data() : s.cc->mask());
                });
            }
            bool fired = fault_fired_in_op(op.id);
            bool must_run = g.pol == 2 || (g.pol == 1 && !g.have);
            bool oom = fired_kinds_in_op(op.id).find("new:") != std::string::npos;
            if (oom && o.threw) { // memory ran out before the producer was asked, in it, or after it returned
                if (g.runs != before) check_runs(g, before + (must_run ? 1 : 0), "at a request");
                if (g.runs != before && g.ok_runs > ok_before && g.pol == 1) g.unknown = true;
                checked();
                continue;
            }
            if (g.unknown) { // the value of the run that succeeded may have been kept; if not, this is the first request
                g.unknown = false;
                if (g.runs == before) { must_run = false; g.have = true; g.value_run = ok_before; }
            }
            check_runs(g, before + (must_run ? 1 : 0), "at a request");
            checked();
            if (fired) probe(1);
            if (fired && must_run && !oom) {
                if (!o.threw) violate("producer:failure-swallowed", "the producer failed (" + fired_kinds_in_op(op.id) + ") but the request returned a value");
                continue;
            }
            if (fired && o.threw) continue; // placing the value failed
            if (o.threw) { violate("spurious-failure", "a request failed although nothing failed: " + o.what); }
            if (must_run) { g.value_run = g.ok_runs; g.have = g.pol == 1; if (before > 0 && g.pol == 1) probe(2); }
            else probe(3);
            if (s.kind == 2 && s.cc) {
                bool ok = (int64_t)hits.size() == g.cols;
                for (int64_t i = 0; ok && i < g.cols; ++i) ok = hits[i] == g.value_run * 1000 + i;
                if (!ok) violate("value", "the hits returned are not the ones the producer made");
            } else {
                std::string d = arr_diff(got, expected(g, g.value_run));
                if (!d.empty()) violate("value", "a request did not return what the producer produced: " + d);
            }
            if (s.d && s.dev >= 0 && dev != s.dev) violate("placement", strf("asked for on cpu device %d, returned on device %d", s.dev, dev));
            note(strf("get %d runs %d", op.id, g.runs));
        } else if (op.name == "repr") { // describing an array evaluates nothing
            auto it = slots.find((int)op.i("src"));
            if (it == slots.end() || !it->second.d) continue;
            Group &g = *groups[it->second.group];
            int before = g.runs;
            Outcome o;
            {
                OpScope sc(op.id, false);
                o = guarded([&] { (void)it->second.d->repr(); });
            }
            check_runs(g, before, "describing it must not evaluate");
            if (o.threw) violate("spurious-failure", "describing a deferred array failed: " + o.what);
        }
    }
    for (auto &g : groups) if (g->pol == 0) check_runs(*g, 1, "at the end");
}
Plan generate(uint64_t seed, bool thorough) {
    Rng r(mix(seed, 1));
    Plan p;
    int n = 6 + (int)r.below(thorough ? 50 : 26);
    std::vector<int> live;
    for (int i = 0; i < n; ++i) {
        double u = r.unit();
        if (live.empty() || u < 0.15) {
            auto &o = p.add("make");
            o.set("policy", r.below(3)).set("rows", 1 + r.below(4)).set("cols", 1 + r.below(5)).set("extra", r.below(3)).set("cc", r.chance(0.4)).set("kind", r.below(3)).set("view", r.chance(0.4) ? 1 + r.below(2) : 0);
            live.push_back(o.id);
        } else if (u < 0.33) {
            int s = r.pick(live);
            auto &o = p.add("copy");
            o.set("src", s).set("refill", r.chance(0.3));
            live.push_back(o.id);
        } else if (u < 0.42) {
            int s = r.pick(live);
            auto &o = p.add("to");
            o.set("src", s).set("bydev", r.below(2)).set("dev", r.chance(0.5) ? 0 : r.below(3));
            live.push_back(o.id);
        } else if (u < 0.45) p.add("repr").set("src", r.pick(live));
        else if (u < 0.5) {
            size_t k = r.below(live.size());
            p.add("drop").set("src", live[k]);
            live.erase(live.begin() + k);
        } else p.add("get").set("src", r.pick(live));
    }
    return p;
}
Property prop() {
    Property p;
    p.id = "C10";
    p.what = "deferred evaluation policies";
    p.generate = generate;
    p.execute = execute;
    p.kinds[C_CALLBACK] = {"fail"};
    p.kinds[C_ALLOC] = {"fail"};
    p.kinds[C_NEW] = {"fail"};
    p.fault_runs = 4;
    p.max_faults = 3;
    p.quick_plans = 50000;
    p.thorough_plans = 600000;
    p.faultable = [](const Op &o) { return o.name == "get" || o.name == "make"; };
    p.probe_names = {"copies made", "requests whose producer failed", "memoising producer rerun after failure", "requests answered without a run", "constructions that failed"};
    p.real_components = "bland::ndarray_deferred, bland::ndarray, bliss::coarse_channel (real code)";
    p.stub_components = "producers are harness callbacks; array allocator and producer failures are simulated";
    p.rule = "seeded histories of make/copy/re-home/drop/request over eager, memoising and lazy deferred arrays and channels holding them, each also run with producer and allocation failures at counted calls; compared to a reference counter model.";
    return p;
}
Register r_(prop());
} // namespace

// C14: random arrays respect their request whatever the entropy source does.
#include "util.hpp"
#include <bland/ops/ops.hpp>
#include <bland/ops/creators.hpp>

using namespace sim;
using bland::ndarray;
namespace {
struct TypeInfo { DLDataType t; double lo, hi; };
TypeInfo types[] = {
    {ndarray::datatype::float32, -1e6, 1e6}, {ndarray::datatype::float64, -1e6, 1e6}, {ndarray::datatype::int8, -128, 127}, {ndarray::datatype::int16, -32768, 32767},
    {ndarray::datatype::int32, -2e9, 2e9},   {ndarray::datatype::int64, -2e9, 2e9},   {ndarray::datatype::uint8, 0, 255},    {ndarray::datatype::uint16, 0, 65535},
    {ndarray::datatype::uint32, 0, 4e9},     {ndarray::datatype::uint64, 0, 4e9}};
ndarray make(const Op &op) {
    std::vector<int64_t> shape;
    { HarnessScope h; for (auto &t : split(op.s("shape", "4"), 'x')) shape.push_back(std::stoll(t)); }
    auto &ti = types[op.i("dtype")];
    double lo = op.d("lo"), hi = op.d("hi");
    if (op.name == "normal") {
        if (op.i("T") == 1) return bland::rand_normal<double>(shape, lo, hi, ti.t);
        return bland::rand_normal<float>(shape, (float)lo, (float)hi, ti.t);
    }
    switch (op.i("T")) {
    case 1: return bland::rand_uniform<int32_t>(shape, (int32_t)lo, (int32_t)hi, ti.t);
    case 2: return bland::rand_uniform<uint8_t>(shape, (uint8_t)lo, (uint8_t)hi, ti.t);
    case 3: return bland::rand_uniform<uint32_t>(shape, (uint32_t)lo, (uint32_t)hi, ti.t);
    }
    return bland::rand_uniform<float>(shape, (float)lo, (float)hi, ti.t);
}
void check_array(const Op &op, const Arr &a) {
    auto &ti = types[op.i("dtype")];
    std::vector<int64_t> shape;
    for (auto &t : split(op.s("shape", "4"), 'x')) shape.push_back(std::stoll(t));
    checked();
    if (a.shape != shape) violate("shape", op.name + ": the array does not have the requested shape");
    if (a.code != ti.t.code || a.bits != ti.t.bits) violate("dtype", op.name + ": the array does not have the requested type");
    int64_t n = a.numel();
    double lo = op.d("lo"), hi = op.d("hi");
    if (op.name == "uniform") {
        if (op.i("T") == 0) { lo = (float)lo; hi = (float)hi; }
        double slack = ti.t.code == kDLFloat ? std::fabs(hi - lo) * 1e-6 : 0;
        for (int64_t i = 0; i < n; ++i) {
            double v = arr_at(a, i);
            if (!(v >= lo - slack && v <= hi + slack)) violate("out-of-range", strf("element %lld = %.17g of a uniform array over [%.9g, %.9g] is outside it (dtype %d.%d)", (long long)i, v, lo, hi, a.code, a.bits));
        }
    } else {
        double m = 0, s2 = 0;
        for (int64_t i = 0; i < n; ++i) {
            double v = arr_at(a, i);
            if (!std::isfinite(v)) violate("not-finite", strf("element %lld of a normal array is %g", (long long)i, v));
            m += v;
        }
        m /= n ? n : 1;
        for (int64_t i = 0; i < n; ++i) s2 += (arr_at(a, i) - m) * (arr_at(a, i) - m);
        double sd = std::sqrt(s2 / (n ? n : 1));
        double want_m = op.d("lo"), want_s = op.d("hi");
        if (n >= 400) {
            probe(3);
            if (std::fabs(m - want_m) > 8 * want_s / std::sqrt((double)n) + 1e-4 * std::fabs(want_m)) violate("mean", strf("mean %.9g of %lld normal elements, requested %.9g (deviation %.9g)", m, (long long)n, want_m, want_s));
            if (std::fabs(sd - want_s) > 8 * want_s / std::sqrt(2.0 * n)) violate("deviation", strf("deviation %.9g of %lld normal elements, requested %.9g", sd, (long long)n, want_s));
        }
    }
}
void execute(const Plan &p) {
    std::vector<std::pair<ndarray, Arr>> kept; // arrays made earlier must not change
    for (auto &op : p.ops) {
        std::vector<uint32_t> ent;
        for (auto &t : split(op.s("entropy", "1"), ',')) ent.push_back((uint32_t)std::stoull(t));
        Arr got[3];
        bool ok[3] = {};
        // first under the plan's faults, then twice undisturbed with other memory contents
        for (int rep = 0; rep < 3; ++rep) {
            entropy_set(ent);
            set_junk_seed(mix(p.seed, op.id * 10 + rep));
            stack_junk(mix(p.seed, op.id * 10 + rep + 5));
            MemStat before = mem_live();
            Outcome o;
            std::shared_ptr<ndarray> keep;
            {
                OpScope s(op.id, rep == 0);
                o = guarded([&] {
                    ndarray a = make(op);
                    got[rep] = grab(a);
                    HarnessScope h;
                    keep = std::make_shared<ndarray>(a);
                });
            }
            bool fired = fault_fired_in_op(op.id);
            checked();
            if (o.threw) {
                if (!fired) violate("spurious-failure", op.name + " failed with nothing refused: " + o.what);
                MemStat after = mem_live();
                if (after.n_arr != before.n_arr || after.n_new != before.n_new) violate("leak-on-failure", strf("a failed request left %lld array blocks and %lld objects behind", (long long)(after.n_arr - before.n_arr), (long long)(after.n_new - before.n_new)));
                probe(0);
            } else {
                if (fired) violate("failure-swallowed", op.name + " returned an array although its " + fired_kinds_in_op(op.id) + " failed");
                ok[rep] = true;
                check_array(op, got[rep]);
                if (rep == 1) kept.push_back({*keep, got[rep]});
            }
            for (auto &k : kept) if (grab(k.first) != k.second) violate("changed-other-array", "an array made earlier changed while " + op.name + " ran");
        }
        checked();
        std::string d = arr_diff(got[1], got[2]);
        if (!d.empty()) violate("not-determined-by-entropy", op.name + ": equal entropy gave different arrays: " + d);
        if (ok[0]) { d = arr_diff(got[0], got[1]); if (!d.empty()) violate("not-determined-by-entropy", op.name + ": equal entropy gave different arrays: " + d); }
        if (op.name == "uniform") probe(1); else probe(2);
        note(strf("%s %016llx", op.name.c_str(), (unsigned long long)fnv(got[1].bytes)));
    }
}
Plan generate(uint64_t seed, bool thorough) {
    Rng r(mix(seed, 3));
    Plan p;
    int n = 2 + (int)r.below(thorough ? 20 : 9);
    for (int i = 0; i < n; ++i) {
        bool normal = r.chance(0.35);
        auto &o = p.add(normal ? "normal" : "uniform");
        int dim = 1 + (int)r.below(3);
        std::string sh;
        int64_t cap = r.chance(0.3) ? 4000 : 150, tot = 1;
        for (int k = 0; k < dim; ++k) { int64_t s = 1 + r.below(k == 0 ? std::min<int64_t>(cap, 1500) : 9); tot *= s; sh += (k ? "x" : "") + std::to_string(s); }
        std::string e;
        int ne = 1 + (int)r.below(4);
        for (int k = 0; k < ne; ++k) {
            uint32_t v = (uint32_t)r.next();
            if (r.chance(0.3)) { uint32_t sp[] = {0u, 1u, 0xffffffffu, 0x80000000u, 0x7fffffffu, 5489u}; v = sp[r.below(6)]; }
            e += (k ? "," : "") + std::to_string(v);
        }
        o.set("shape", sh).set("entropy", e);
        if (normal) {
            o.set("dtype", r.below(2)).set("T", r.below(2)).setd("lo", r.chance(0.3) ? 0 : (double)r.range(-4000, 4000) / 16).setd("hi", r.chance(0.3) ? 1 : (double)(1 + r.below(800)) / 32);
        } else {
            int t = (int)r.below(10), T = (int)r.below(4);
            auto &ti = types[t];
            double lim_lo = ti.lo, lim_hi = ti.hi;
            if (T == 1) { lim_lo = std::max(lim_lo, -2e9); lim_hi = std::min(lim_hi, 2e9); }
            if (T == 2) { lim_lo = std::max(lim_lo, 0.0); lim_hi = std::min(lim_hi, 255.0); }
            if (T == 3) { lim_lo = std::max(lim_lo, 0.0); lim_hi = std::min(lim_hi, 4e9); }
            if (T == 0) { lim_lo = std::max(lim_lo, -1e6); lim_hi = std::min(lim_hi, 1e6); }
            double a, b;
            if (r.chance(0.25)) { a = lim_lo; b = lim_hi; }
            else if (r.chance(0.2)) { a = b = std::floor(lim_lo + r.unit() * (lim_hi - lim_lo)); }
            else {
                a = lim_lo + r.unit() * (lim_hi - lim_lo);
                b = r.chance(0.5) ? a + 1 + (double)r.below(20) : lim_lo + r.unit() * (lim_hi - lim_lo);
                if (b > lim_hi) b = lim_hi;
                if (a > b) std::swap(a, b);
                bool fl = ti.t.code == kDLFloat && T == 0;
                if (!fl) { a = std::ceil(a); b = std::floor(b); if (a > b) b = a; }
                if (a > lim_hi) a = b = lim_hi;
            }
            o.set("dtype", t).set("T", T).setd("lo", a).setd("hi", b);
        }
    }
    return p;
}
Property prop() {
    Property p;
    p.id = "C14";
    p.what = "random arrays under an adversarial entropy source";
    p.generate = generate;
    p.execute = execute;
    p.kinds[C_ENTROPY] = {"fail"};
    p.kinds[C_ALLOC] = {"fail"};
    p.kinds[C_NEW] = {"fail"};
    p.fault_runs = 3;
    p.max_faults = 2;
    p.quick_plans = 30000;
    p.thorough_plans = 400000;
    p.probe_names = {"requests that failed", "uniform arrays checked", "normal arrays checked", "normal arrays large enough for moments"};
    p.real_components = "bland rand_uniform / rand_normal, bland::ndarray, libstdc++ engines and distributions (real code)";
    p.stub_components = "std::random_device (the entropy seam delivers chosen values or fails), array and object allocators";
    p.rule = "seeded sequences of uniform/normal requests over all element types, shapes, ranges and entropy values (with boundary values), each repeated under equal entropy with different memory contents, and with entropy and allocation failures.";
    return p;
}
Register r_(prop());
} // namespace

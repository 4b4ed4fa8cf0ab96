// C13: array operations under allocation failure fail cleanly or are right.
#include "util.hpp"
#include <stdexcept>
#include <bland/ndarray_slice.hpp>
#include <bland/ops/creators.hpp>
#include <bland/ops/ops.hpp>
#include <bland/ops/ops_frequency.hpp>

using namespace sim;
using bland::ndarray;
namespace {
constexpr int NS = 8;
const DLDataType F32 = ndarray::datatype::float32, U8 = ndarray::datatype::uint8;

template <class X, class Y> ndarray arith(const std::string &f, X x, Y y) {
    if (f == "add") return bland::add(x, y);
    if (f == "sub") return bland::subtract(x, y);
    if (f == "mul") return bland::multiply(x, y);
    return bland::divide(x, y);
}
template <class X, class Y> ndarray cmp(const std::string &f, X x, Y y) {
    if (f == "gt") return bland::greater_than(x, y);
    if (f == "ge") return bland::greater_than_equal_to(x, y);
    if (f == "lt") return bland::less_than(x, y);
    if (f == "le") return bland::less_than_equal_to(x, y);
    if constexpr (!std::is_arithmetic_v<X> && !std::is_arithmetic_v<Y>) if (f == "and") return bland::logical_and(x, y);
    return bland::equal_to(x, y);
}
std::vector<int64_t> ints(const std::string &s, char c) {
    std::vector<int64_t> v;
    if (s.empty()) return v;
    for (auto &t : split(s, c)) v.push_back(std::stoll(t));
    return v;
}
ndarray scalar_array(int64_t v) { return ndarray({1}, (float)v, F32); }

struct Pool {
    std::shared_ptr<ndarray> a[NS];
};
std::set<uintptr_t> addresses(const ndarray &a);
void inside(const Op &op, const ndarray &a) { // every element lies within the array's storage
    auto ad = addresses(a);
    auto b = (uintptr_t)a.data_ptr<char>();
    size_t n = block_size((void *)b);
    if (n && !ad.empty() && (*ad.begin() < b || *ad.rbegin() + a.dtype().bits / 8 > b + n)) violate("outside:" + op.name, strf("%s %s gave an array whose elements lie outside its storage of %zu bytes", op.name.c_str(), op.s("f").c_str(), n));
}
// runs the operation; the result array(s) go to out
void apply(const Op &op, Pool &P, std::vector<ndarray> &out) {
    std::string f;
    std::vector<int64_t> axes, shape;
    ndarray *x = nullptr, *y = nullptr;
    {
        HarnessScope h;
        f = op.s("f");
        axes = ints(op.s("axes"), ',');
        shape = ints(op.s("shape"), 'x');
        if (op.has("x")) x = P.a[op.i("x")].get();
        if (op.has("y")) y = P.a[op.i("y")].get();
    }
    float v = (float)op.d("v");
    auto put = [&](ndarray r) { HarnessScope h; out.push_back(r); };
    const std::string &n = op.name;
    if (n == "create") {
        DLDataType t = op.i("u8") && (f == "zeros" || f == "ones") ? U8 : F32;
        { HarnessScope h; if (op.has("dt")) t = ndarray::datatype(op.s("dt")); }
        if (f == "zeros") put(bland::zeros(shape, t));
        else if (f == "ones") put(bland::ones(shape, t));
        else if (f == "arange") {
            int64_t lo = op.i("lo"), st = op.i("step", 1), hi = lo + op.i("n") * st;
            if (op.i("iv")) put(bland::arange((int32_t)lo, (int32_t)hi, (int32_t)st, t));
            else if (op.i("dv")) put(bland::arange((double)lo, (double)hi, (double)st, t));
            else put(bland::arange((float)lo, (float)hi, (float)st, t));
        } else if (f == "linspace") put(bland::linspace(0.0f, v, (size_t)op.i("n"), t));
        else put(ndarray(shape, v, t));
    } else if (n == "arith") {
        if (y) put(arith(f, *x, *y));
        else put(arith(f, *x, v));
    } else if (n == "cmp") {
        if (y) put(cmp(f, *x, *y));
        else if (op.i("rev")) put(cmp(f, v, *x));
        else put(cmp(f, *x, v));
    } else if (n == "red") {
        if (f == "sum") put(bland::sum(*x, axes));
        else if (f == "mean") put(bland::mean(*x, axes));
        else if (f == "max") put(bland::max(*x, axes));
        else if (f == "stddev") put(bland::stddev(*x, axes));
        else if (f == "var") put(bland::var(*x, axes));
        else if (f == "moment") put(bland::standardized_moment(*x, (int)op.i("deg", 4), axes));
        else if (f == "median") { float m = bland::median(*x, axes); HarnessScope h; ndarray r({1}); memcpy(r.data_ptr<char>(), &m, 4); put(r); }
        else if (f == "count") { int64_t c = bland::count_true(*x); HarnessScope h; ndarray r({1}, ndarray::datatype::int64); memcpy(r.data_ptr<char>(), &c, 8); put(r); }
        else if (f == "mean_stddev") { auto p = bland::mean_stddev(*x, axes); put(p.first); put(p.second); }
        else if (f == "mmean") put(bland::masked_mean(*x, *y, axes));
        else if (f == "mstddev") put(bland::masked_stddev(*x, *y, axes));
        else if (f == "mvar") put(bland::masked_var(*x, *y, axes));
        else if (f == "mmean_stddev") { auto p = bland::masked_mean_stddev(*x, *y, axes); put(p.first); put(p.second); }
    } else if (n == "slice") {
        put(bland::slice(*x, op.i("dim"), op.i("lo"), op.i("hi"), op.i("step", 1)));
    } else if (n == "slice2") {
        put(bland::slice(*x, bland::slice_spec(0, op.i("lo"), op.i("hi"), op.i("step", 1)), bland::slice_spec(1, op.i("lo2"), op.i("hi2"), op.i("step2", 1))));
    } else if (n == "shape") {
        ndarray t = *x; // a second handle on the same array
        try {
            if (f == "reshape") put(t.reshape(shape));
            else if (f == "squeeze") put(t.squeeze(op.i("dim")));
            else put(t.unsqueeze(op.i("dim")));
        } catch (...) {
            HarnessScope h;
            Arr was = grab(*x);
            inside(op, t);
            Arr now = grab(t);
            if (now.bytes != was.bytes || now.code != was.code) violate("handle-damaged:" + n, n + " " + f + " failed and left an array that holds something else");
            throw;
        }
    } else if (n == "handle") { // assigning arrays to arrays
        ndarray t = *x;
        try {
            t = *y;
        } catch (...) {
            HarnessScope h;
            inside(op, t);
            Arr now = grab(t);
            if (now != grab(*x) && now != grab(*y)) violate("handle-damaged:" + n, "a failed assignment left an array that holds neither its old nor its new contents");
            throw;
        }
        put(t);
    } else if (n == "unary") {
        if (f == "copy") put(bland::copy(*x));
        else if (f == "square") put(bland::square(*x));
        else if (f == "sqrt") put(bland::sqrt(*x));
        else if (f == "abs") put(bland::abs(*x));
        else put(bland::fft_shift_mag_square(*x));
    } else if (n == "into") { // results written where the caller wants them, often a view
        ndarray to = *P.a[op.i("o")], to2 = op.has("o2") ? *P.a[op.i("o2")] : to, ret = to;
        if (f == "sum") ret = bland::sum(*x, to, axes);
        else if (f == "mean") ret = bland::mean(*x, to, axes);
        else if (f == "max") ret = bland::max(*x, to, axes);
        else if (f == "stddev") ret = bland::stddev(*x, to, axes);
        else if (f == "var") ret = bland::var(*x, to, axes);
        else if (f == "moment") ret = bland::standardized_moment(*x, (int)op.i("deg", 4), to, axes);
        else if (f == "mean_stddev") ret = bland::mean_stddev(*x, to, to2, axes).first;
        else if (f == "mmean") ret = bland::masked_mean(*x, *y, to, axes);
        else if (f == "mstddev") ret = bland::masked_stddev(*x, *y, to, axes);
        else if (f == "mvar") ret = bland::masked_var(*x, *y, to, axes);
        else if (f == "mmean_stddev") ret = bland::masked_mean_stddev(*x, *y, to, to2, axes).first;
        else if (f == "copy") ret = bland::copy(*x, to);
        else if (f == "square") ret = bland::square(*x, to);
        else if (f == "sqrt") ret = bland::sqrt(*x, to);
        else if (f == "abs") ret = bland::abs(*x, to);
        {
            HarnessScope h;
            std::string d = arr_diff(grab(ret), grab(to));
            if (!d.empty()) violate("wrong-result:into", "into " + f + ": the array returned is not the one written to: " + d);
        }
        put(to);
        if (op.has("o2")) put(to2);
    } else if (n == "scalar") {
        int64_t i = op.i("i") % x->numel();
        std::vector<int64_t> ix;
        { HarnessScope h; auto sh = x->shape(); for (int k = (int)sh.size() - 1; k >= 0; --k) { ix.insert(ix.begin(), i % sh[k]); i /= sh[k]; } }
        bool whole = op.i("whole") && x->numel() == 1;
        ndarray r({1}, x->dtype());
        if (x->dtype().code == kDLFloat) { float q = whole ? x->scalarize<float>() : x->scalarize<float>(ix); HarnessScope h; memcpy(r.data_ptr<char>(), &q, 4); }
        else { uint8_t q = whole ? x->scalarize<uint8_t>() : x->scalarize<uint8_t>(ix); HarnessScope h; memcpy(r.data_ptr<char>(), &q, 1); }
        put(r);
    } else if (n == "fill") {
        if (op.i("u8")) bland::fill(*x, (uint8_t)v);
        else bland::fill(*x, v);
    } else if (n == "assign") { // assignment through a view writes the viewed elements
        bland::ndarray_slice view = bland::slice(*x, 0, op.i("lo"), op.i("hi"), op.i("step", 1));
        if (op.i("sl")) {
            bland::ndarray_slice from(*y); // the same array, as a view
            view = from;
        } else view = *y;
    }
}
// ---- independent element expectations, where they are plain definitions
bool f32(const Arr *a) { return a->code == kDLFloat && a->bits == 32; }
bool broadcast(const Arr &a, const Arr &b, std::vector<int64_t> &s) {
    size_t d = std::max(a.shape.size(), b.shape.size());
    s.assign(d, 1);
    for (size_t k = 0; k < d; ++k) {
        int64_t x = k < a.shape.size() ? a.shape[a.shape.size() - 1 - k] : 1, y = k < b.shape.size() ? b.shape[b.shape.size() - 1 - k] : 1;
        if (x != y && x != 1 && y != 1) return false;
        s[d - 1 - k] = x == 1 ? y : x;
    }
    return true;
}
int64_t bindex(const Arr &a, const std::vector<int64_t> &s, int64_t i) { // element of a used for flat index i of shape s
    int64_t lin = 0, mul = 1;
    for (size_t k = 0; k < s.size(); ++k) {
        int64_t dim = s[s.size() - 1 - k], ix = i % dim;
        i /= dim;
        if (k < a.shape.size()) {
            int64_t ad = a.shape[a.shape.size() - 1 - k];
            if (ad != 1) lin += ix * mul;
            mul *= ad;
        }
    }
    return lin;
}
std::vector<int64_t> reduced_of(const Arr &x, const std::vector<int64_t> &axes, std::vector<std::vector<int64_t>> &groups) {
    std::vector<int64_t> os;
    std::vector<bool> red(x.shape.size(), axes.empty());
    for (auto a : axes) red[a] = true;
    for (size_t k = 0; k < x.shape.size(); ++k) if (!red[k]) os.push_back(x.shape[k]);
    if (os.empty()) os = {1};
    int64_t no = 1;
    for (auto s : os) no *= s;
    groups.assign(no, {});
    for (int64_t i = 0; i < x.numel(); ++i) {
        int64_t j = i, o = 0, mul = 1;
        for (size_t k = 0; k < x.shape.size(); ++k) {
            int64_t d = x.shape[x.shape.size() - 1 - k], ix = j % d;
            j /= d;
            if (!red[x.shape.size() - 1 - k]) { o += ix * mul; mul *= d; }
        }
        groups[o].push_back(i);
    }
    return os;
}
std::string expect(const Op &op, const Arr *x, const Arr *y, const std::vector<Arr> &got) {
    std::string f = op.s("f");
    if (got.empty()) return "";
    const Arr &g = got[0];
    float v = (float)op.d("v");
    auto cmpf = [&](double a, double b) -> double {
        if (f == "gt") return a > b;
        if (f == "ge") return a >= b;
        if (f == "lt") return a < b;
        if (f == "le") return a <= b;
        return a == b;
    };
    if (op.name == "into") {
        Op q = op;
        q.name = f == "copy" || f == "square" || f == "sqrt" || f == "abs" ? "unary" : "red";
        return expect(q, x, y, got);
    }
    if (op.name == "scalar") {
        double w = arr_at(*x, op.i("i") % x->numel());
        return arr_at(g, 0) == w || (w != w && arr_at(g, 0) != arr_at(g, 0)) ? "" : strf("element %lld is %.9g, not %.9g", (long long)(op.i("i") % x->numel()), arr_at(g, 0), w);
    }
    if (op.name == "create") {
        int64_t n = op.i("n");
        if (op.has("dt")) { ndarray::datatype t(op.s("dt")); if (g.code != t.code || g.bits != t.bits) return "wrong type"; }
        else if (f == "zeros" || f == "ones") { if (g.code != (op.i("u8") ? kDLUInt : kDLFloat)) return "wrong type"; }
        std::vector<int64_t> s = f == "arange" || f == "linspace" ? std::vector<int64_t>{n} : ints(op.s("shape"), 'x');
        if (g.shape != s) return "wrong shape";
        for (int64_t i = 0; i < g.numel(); ++i) {
            double w = f == "zeros" ? 0 : f == "ones" ? 1 : f == "arange" ? op.i("lo") + i * op.i("step", 1) : f == "linspace" ? (n > 1 ? (double)v * i / (n - 1) : 0) : v;
            if (f == "linspace") continue; // end point convention is not part of this property
            if (arr_at(g, i) != w) return strf("element %lld is %.9g, not %.9g", (long long)i, arr_at(g, i), w);
        }
        return "";
    }
    if (op.name == "arith" || op.name == "cmp") {
        if (!f32(x) || (y && !f32(y)) || f == "and") return "";
        if (op.i("rev")) return ""; // the meaning of a scalar on the left is not part of this property
        std::vector<int64_t> s = x->shape;
        if (y && !broadcast(*x, *y, s)) return "arrays that cannot be broadcast together were accepted";
        if (g.shape != s) return "wrong shape";
        for (int64_t i = 0; i < g.numel(); ++i) {
            float a = (float)arr_at(*x, bindex(*x, s, i)), b = y ? (float)arr_at(*y, bindex(*y, s, i)) : v;
            double w;
            if (op.name == "cmp") w = cmpf(a, b);
            else { float r = f == "add" ? a + b : f == "sub" ? a - b : f == "mul" ? a * b : a / b; w = r; }
            double h = arr_at(g, i);
            if (std::isnan(w) && std::isnan(h)) continue;
            if (std::isinf(w) || std::isinf(h) ? w != h : !(std::fabs(h - w) <= 1e-5 * std::fabs(w))) return strf("element %lld is %.9g, not %.9g", (long long)i, h, w);
        }
        return "";
    }
    if (op.name == "unary" && f != "fftms") {
        if (g.shape != x->shape) return "wrong shape";
        if (f == "copy" && (g.code != x->code || g.bits != x->bits)) return "wrong type";
        if (f == "copy" && g.bytes == x->bytes) return "";
        if (f != "copy" && !f32(x)) return "";
        for (int64_t i = 0; i < g.numel(); ++i) {
            float a = (float)arr_at(*x, i), w = f == "copy" ? a : f == "square" ? a * a : f == "sqrt" ? std::sqrt(a) : std::fabs(a), h = (float)arr_at(g, i);
            if ((std::isnan(w) && std::isnan(h)) || h == w) continue;
            if (!(std::fabs(h - w) <= 1e-5 * std::fabs(w))) return strf("element %lld is %.9g, not %.9g", (long long)i, h, w);
        }
        return "";
    }
    if (op.name == "unary") { // |DFT|^2, zero frequency in the middle
        int64_t n = x->numel();
        int64_t dc = (int64_t)std::ceil((n - 1) / 2.0f);
        double tot = 1e-30;
        for (int64_t i = 0; i < n; ++i) tot += std::fabs(x->f()[i]);
        if (!(tot < 1e15)) return "";
        if (g.numel() != n) return "wrong shape";
        std::vector<double> co(n), si(n);
        for (int64_t i = 0; i < n; ++i) { co[i] = std::cos(2 * M_PI * (double)i / n); si[i] = -std::sin(2 * M_PI * (double)i / n); }
        for (int64_t k = 0; k < n; ++k) {
            double re = 0, im = 0;
            for (int64_t i = 0; i < n; ++i) { int64_t ph = ((k - dc) * i % n + n) % n; re += x->f()[i] * co[ph]; im += x->f()[i] * si[ph]; }
            if (!(std::fabs(re * re + im * im - g.f()[k]) <= 1e-4 * tot * tot)) return strf("bin %lld is %.9g, not %.9g", (long long)k, g.f()[k], re * re + im * im);
        }
        return "";
    }
    if (op.name == "handle") return g == *y ? "" : "not the array assigned";
    if (op.name == "shape") {
        std::vector<int64_t> sh = x->shape;
        if (f == "reshape") sh = ints(op.s("shape"), 'x');
        else if (f == "squeeze") sh.erase(sh.begin() + op.i("dim"));
        else sh.insert(sh.begin() + op.i("dim"), 1);
        if (g.shape != sh) return "wrong shape";
        return g.bytes == x->bytes && g.code == x->code ? "" : "elements changed places";
    }
    if (op.name == "slice") {
        int64_t dim = op.i("dim"), lo = op.i("lo"), st = op.i("step", 1);
        std::vector<int64_t> s = x->shape;
        s[dim] = (op.i("hi") - lo) / st;
        if (g.shape != s) return "wrong shape";
        int64_t inner = 1;
        for (size_t k = dim + 1; k < s.size(); ++k) inner *= s[k];
        for (int64_t i = 0; i < g.numel(); ++i) {
            int64_t in = i % inner, d = i / inner % s[dim], o = i / inner / s[dim];
            if (memcmp(&g.bytes[i * (g.bits / 8)], &x->bytes[((o * x->shape[dim] + lo + d * st) * inner + in) * (g.bits / 8)], g.bits / 8)) return strf("element %lld is not the sliced one", (long long)i);
        }
        return "";
    }
    if (op.name == "red") {
        if (x->code == kDLFloat && (f == "sum" || f == "mean" || f == "max" || f == "mmean")) {
            std::vector<std::vector<int64_t>> gr;
            auto os = reduced_of(*x, ints(op.s("axes"), ','), gr);
            if (g.shape != os) return "wrong shape";
            for (size_t o = 0; o < gr.size(); ++o) {
                double s = 0, ab = 0, mx = -1e300;
                int64_t n = 0;
                for (auto i : gr[o]) {
                    if (f == "mmean" && arr_at(*y, i) != 0) continue;
                    double e = arr_at(*x, i);
                    s += e; ab += std::fabs(e); mx = std::max(mx, e); ++n;
                }
                if (n == 0 || !(ab < 1e30)) continue;
                double w = f == "sum" ? s : f == "max" ? mx : s / n, tol = (f == "sum" ? ab : ab / n) * 1e-4 + 1e-12;
                if (!(std::fabs(arr_at(g, (int64_t)o) - w) <= tol)) return strf("element %zu is %.9g, not %.9g", o, arr_at(g, (int64_t)o), w);
            }
        }
        if (x->code == kDLFloat && (f == "stddev" || f == "var" || f == "mean_stddev" || f == "mstddev" || f == "mvar" || f == "mmean_stddev")) {
            std::vector<std::vector<int64_t>> gr;
            auto os = reduced_of(*x, ints(op.s("axes"), ','), gr);
            for (auto &q : got) if (q.shape != os) return "wrong shape";
            bool both = f == "mean_stddev" || f == "mmean_stddev";
            if (both && got.size() != 2) return "not a pair";
            for (size_t o = 0; o < gr.size(); ++o) {
                double m = 0, v = 0, sc = 0;
                int64_t n = 0;
                auto use = [&](int64_t i) { return f[0] != 'm' || f == "mean_stddev" || arr_at(*y, i) == 0; };
                for (auto i : gr[o]) if (use(i)) { m += arr_at(*x, i); sc = std::max(sc, std::fabs(arr_at(*x, i))); ++n; }
                if (n == 0 || !std::isfinite(m) || sc > 1e15) continue;
                m /= n;
                for (auto i : gr[o]) if (use(i)) { double d = arr_at(*x, i) - m; v += d * d; }
                v /= n;
                double gv = arr_at(both ? got[1] : g, (int64_t)o), eps = 1e-5 * sc * sc + 1e-12; // squares are summed before the mean is taken off
                if (both && !(std::fabs(arr_at(g, (int64_t)o) - m) <= 1e-4 * sc + 1e-12)) return strf("mean %zu is %.9g, not %.9g", o, arr_at(g, (int64_t)o), m);
                if (!(gv >= 0)) return strf("spread %zu is %.9g", o, gv);
                if (v <= 10 * eps) continue; // differences cancel
                if (f == "var" || f == "mvar") gv = gv < 0 ? gv : std::sqrt(gv);
                if (!(std::fabs(gv * gv - v) <= eps + 1e-3 * v)) return strf("spread %zu is %.9g, not %.9g", o, gv, std::sqrt(v));
            }
        }
        if (x->code == kDLFloat && f == "moment") { // sum d^k / (n-1) over the same of the squares to the power k/2
            std::vector<std::vector<int64_t>> gr;
            auto os = reduced_of(*x, ints(op.s("axes"), ','), gr);
            if (g.shape != os) return "wrong shape";
            int k = (int)op.i("deg", 4);
            for (size_t o = 0; o < gr.size(); ++o) {
                double m = 0, v = 0, w = 0, aw = 0, sc = 0, n = (double)gr[o].size();
                bool fin = true;
                for (auto i : gr[o]) { fin &= std::isfinite(arr_at(*x, i)); m += arr_at(*x, i) / n; sc = std::max(sc, std::fabs(arr_at(*x, i))); }
                if (!fin || n < 2 || !(sc < 1e6) || sc < 1e-3) continue;
                for (auto i : gr[o]) { double d = arr_at(*x, i) - m; v += d * d / (n - 1); w += std::pow(d, k) / (n - 1); aw += std::pow(std::fabs(d), k) / (n - 1); }
                if (v < 1e-4 * sc * sc || v < 0.01) continue;
                double sd = std::pow(v, k / 2.0);
                if (!(std::fabs(arr_at(g, (int64_t)o) - w / sd) <= 1e-3 * aw / sd + 1e-6)) return strf("moment %zu is %.9g, not %.9g", o, arr_at(g, (int64_t)o), w / sd);
            }
        }
        if (x->code == kDLFloat && f == "median" && x->numel()) {
            std::vector<double> e;
            for (int64_t i = 0; i < x->numel(); ++i) e.push_back(arr_at(*x, i));
            bool fin = true;
            for (auto q : e) fin &= std::isfinite(q);
            std::sort(e.begin(), e.end());
            double lo = e[(e.size() - 1) / 2], hi = e[e.size() / 2], gv = arr_at(g, 0);
            if (fin && !(gv >= lo - 1e-4 * std::fabs(lo) && gv <= hi + 1e-4 * std::fabs(hi))) return strf("median is %.9g, not within %.9g and %.9g", gv, lo, hi);
        }
        if (f == "count") {
            int64_t c = 0;
            for (int64_t i = 0; i < x->numel(); ++i) c += arr_at(*x, i) != 0;
            if ((int64_t)arr_at(g, 0) != c) return strf("counted %lld of %lld", (long long)arr_at(g, 0), (long long)c);
        }
    }
    return "";
}
std::set<uintptr_t> addresses(const ndarray &a) {
    std::set<uintptr_t> r;
    auto sh = a.shape(), st = a.strides(), of = a.offsets();
    int64_t es = a.dtype().bits / 8, n = 1, base = 0;
    for (auto s : sh) n *= s;
    for (auto o : of) base += o;
    for (int64_t i = 0; i < n; ++i) {
        int64_t j = i, lin = base;
        for (int64_t k = (int64_t)sh.size() - 1; k >= 0; --k) { lin += (j % sh[k]) * st[k]; j /= sh[k]; }
        r.insert((uintptr_t)(a.data_ptr<char>() + lin * es));
    }
    return r;
}
uintptr_t address_of(const ndarray &a, int64_t i) {
    auto sh = a.shape(), st = a.strides(), of = a.offsets();
    int64_t es = a.dtype().bits / 8, lin = 0;
    for (auto o : of) lin += o;
    for (int64_t k = (int64_t)sh.size() - 1; k >= 0; --k) { lin += (i % sh[k]) * st[k]; i /= sh[k]; }
    return (uintptr_t)(a.data_ptr<char>() + lin * es);
}
bool dense(const ndarray &a) {
    int64_t st = 1;
    for (int64_t k = (int64_t)a.shape().size() - 1; k >= 0; --k) { if (a.shape()[k] != 1 && a.strides()[k] != st) return false; st *= a.shape()[k]; }
    return true;
}
void restore(const ndarray &a, const Arr &v) { for (int64_t i = 0; i < v.numel(); ++i) memcpy((void *)address_of(a, i), &v.bytes[i * (v.bits / 8)], v.bits / 8); }

bool applicable(const Op &op, Pool &P, const Arr *x, const Arr *y) {
    std::string f = op.s("f");
    if (op.has("x") && !x) return false;
    if (op.has("y") && !y) return false;
    auto sliceable = [&](int64_t dim, int64_t lo, int64_t hi, int64_t st) { return dim < (int64_t)x->shape.size() && lo >= 0 && hi <= x->shape[dim] && hi >= lo && st >= 1; };
    if (op.name == "red") {
        for (auto a : ints(op.s("axes"), ',')) if (a >= (int64_t)x->shape.size()) return false;
        if (f == "count") return x->code == kDLUInt && x->bits == 8;
        if (!f32(x)) return false;
        if (f[0] == 'm' && y && (y->shape != x->shape || y->code != kDLUInt || y->bits != 8)) return false;
        if (f == "median" && (!ints(op.s("axes"), ',').empty())) return false;
    }
    if (op.name == "into") {
        auto t = P.a[op.i("o")];
        if (!t || t->dtype().code != kDLFloat || t->dtype().bits != 32 || !f32(x) || !x->numel()) return false;
        if (f == "copy" || f == "square" || f == "sqrt" || f == "abs") {
            if (t->shape() != x->shape) return false;
            bool alias = false;
            auto ax = addresses(*P.a[op.i("x")]), at = addresses(*t);
            for (auto q : at) alias |= ax.count(q) > 0;
            if (alias) for (int64_t i = 0; i < x->numel(); ++i) if (address_of(*t, i) != address_of(*P.a[op.i("x")], i)) return false; // in place is fine, anything between is not
            return true;
        }
        for (auto a : ints(op.s("axes"), ',')) if (a >= (int64_t)x->shape.size()) return false;
        std::vector<std::vector<int64_t>> gr;
        if (t->shape() != reduced_of(*x, ints(op.s("axes"), ','), gr)) return false;
        bool masked = f[0] == 'm' && f != "max" && f != "mean" && f != "mean_stddev" && f != "moment", two = f == "mean_stddev" || f == "mmean_stddev";
        if (masked && (!y || y->shape != x->shape || y->code != kDLUInt || y->bits != 8)) return false;
        if (two && (!op.has("o2") || !P.a[op.i("o2")] || P.a[op.i("o2")]->shape() != t->shape() || P.a[op.i("o2")]->dtype().code != kDLFloat || P.a[op.i("o2")]->dtype().bits != 32)) return false;
        auto at = addresses(*t), ax = addresses(*P.a[op.i("x")]);
        if (two) for (auto q : addresses(*P.a[op.i("o2")])) if (!at.insert(q).second) return false;
        for (auto q : at) if (ax.count(q)) return false;
        return true;
    }
    if (op.name == "scalar") return x->numel() > 0 && (x->code == kDLFloat ? x->bits == 32 : x->code == kDLUInt && x->bits == 8);
    if (op.name == "slice") return sliceable(op.i("dim"), op.i("lo"), op.i("hi"), op.i("step", 1));
    if (op.name == "slice2") return sliceable(0, op.i("lo"), op.i("hi"), op.i("step", 1)) && sliceable(1, op.i("lo2"), op.i("hi2"), op.i("step2", 1));
    if (op.name == "shape") {
        if (f == "reshape") { // arrays whose elements are not evenly spaced would have to be copied: the operation refuses them
            int64_t n = 1;
            auto sh = ints(op.s("shape"), 'x');
            for (auto q : sh) n *= q;
            return n == x->numel() && !sh.empty();
        }
        if (f == "squeeze") return op.i("dim") < (int64_t)x->shape.size() && x->shape[op.i("dim")] == 1 && x->shape.size() > 1;
        return op.i("dim") <= (int64_t)x->shape.size() && x->shape.size() < 4;
    }
    if (op.name == "unary") {
        if (!f32(x)) return f == "copy";
        if (f == "fftms") return x->numel() >= 1; // anything but a vector is refused
    }
    if (op.name == "arith" || op.name == "cmp") {
        if (f == "div" && (x->code != kDLFloat || (y && y->code != kDLFloat))) return false; // integer division by zero is undefined
        if (op.name == "cmp" && f != "and" && (!f32(x) || (y && !f32(y)))) return false;
        if (f == "and" && (x->code == kDLFloat || (y && y->code == kDLFloat) || !y)) return false;
        std::vector<int64_t> bs;
        (void)bs;
        if (f != "and" && (x->code != kDLFloat || (y && y->code != kDLFloat))) return op.name == "arith" && y;
    }
    if (op.name == "assign") {
        if (!sliceable(0, op.i("lo"), op.i("hi"), op.i("step", 1)) || x->code != y->code || x->bits != y->bits) return false;
        std::vector<int64_t> s = x->shape;
        s[0] = (op.i("hi") - op.i("lo")) / op.i("step", 1);
        return y->shape == s;
    }
    if (op.name == "handle") return y != nullptr;
    if (op.name == "fill") return op.i("u8") ? x->code == kDLUInt && x->bits == 8 : f32(x);
    return true;
}
void make_data(const Plan &p, const Op &op, Pool &P) {
    auto r = std::make_shared<Rng>(mix(p.seed, 100 + op.id));
    bool u8 = op.i("u8");
    int64_t den = op.i("den", 3);
    DLDataType t = u8 ? U8 : F32;
    if (op.has("dt")) t = ndarray::datatype(op.s("dt"));
    bool whole = op.has("dt") && t.code != kDLFloat, pos = t.code == kDLUInt;
    if (whole) P.a[op.i("to")] = std::make_shared<ndarray>(make_array(ints(op.s("shape"), 'x'), t, [=](int64_t) { return (double)r->range(pos ? 0 : -100, 100); }));
    else P.a[op.i("to")] = std::make_shared<ndarray>(make_array(ints(op.s("shape"), 'x'), t, [=](int64_t) { return u8 ? (double)(r->below(den) == 0) : (double)r->range(-800, 800) / 16; }));
}
bool overlapping(const Op &op, Pool &P) { // source and destination: the order of copying is not defined
    auto ax = addresses(*P.a[op.i("x")]), ay = addresses(*P.a[op.i("y")]);
    for (auto q : ay) if (ax.count(q)) return true;
    return false;
}
void execute(const Plan &p) {
    Pool P;
    for (auto &op : p.ops) {
        if (op.name == "data") { make_data(p, op, P); continue; } // harness-made contents
        Arr before[NS];
        for (int i = 0; i < NS; ++i) if (P.a[i]) before[i] = grab(*P.a[i]);
        const Arr *x = op.has("x") && P.a[op.i("x")] ? &before[op.i("x")] : nullptr, *y = op.has("y") && P.a[op.i("y")] ? &before[op.i("y")] : nullptr;
        if (!applicable(op, P, x, y)) continue;
        bool mutates = op.name == "fill" || op.name == "assign" || op.name == "into";
        if (op.name == "assign" && overlapping(op, P)) continue;
        // where an in-place operation writes: address -> value
        std::map<uintptr_t, double> writes;
        std::set<uintptr_t> target; // of results, judged by what they should be
        if (op.name == "into") for (auto *k : {"o", "o2"}) if (op.has(k)) for (auto q : addresses(*P.a[op.i(k)])) target.insert(q);
        if (op.name == "fill") for (auto q : addresses(*P.a[op.i("x")])) writes[q] = (float)op.d("v");
        if (op.name == "assign") {
            int64_t inner = 1;
            for (size_t k = 1; k < x->shape.size(); ++k) inner *= x->shape[k];
            for (int64_t i = 0; i < y->numel(); ++i) writes[address_of(*P.a[op.i("x")], (op.i("lo") + i / inner * op.i("step", 1)) * inner + i % inner)] = arr_at(*y, i);
        }
        std::vector<Arr> res[3];
        std::vector<ndarray> kept;
        bool ok[3] = {};
        for (int rep = 0; rep < 3; ++rep) {
            set_junk_seed(mix(p.seed, op.id * 10 + rep));
            stack_junk(mix(p.seed, op.id * 10 + rep + 5));
            MemStat m0 = mem_live();
            std::vector<ndarray> out;
            out.reserve(4);
            Outcome o;
            {
                OpScope s(op.id, rep == 0);
                o = guarded([&] { apply(op, P, out); });
            }
            bool fired = fault_fired_in_op(op.id);
            checked();
            if (o.threw) {
                out.clear();
                MemStat m1 = mem_live();
                if (m1.n_arr != m0.n_arr || m1.n_new != m0.n_new) violate("leak-on-failure:" + op.name, strf("failing %s %s left %lld array blocks and %lld objects behind [%s]", op.name.c_str(), op.s("f").c_str(), (long long)(m1.n_arr - m0.n_arr), (long long)(m1.n_new - m0.n_new), o.what.c_str()));
                probe(0);
            } else {
                ok[rep] = true;
                for (auto &a : out) {
                    inside(op, a);
                    res[rep].push_back(grab(a));
                }
                if (rep == 1) kept = out;
                out.clear();
            }
            // every array that existed before keeps its contents, apart from what an in-place operation addresses
            for (int i = 0; i < NS; ++i) {
                if (!P.a[i]) continue;
                Arr now = grab(*P.a[i]), want = before[i];
                bool partial = mutates && o.threw;
                if (mutates) {
                    for (int64_t k = 0; k < want.numel(); ++k) {
                        int es = want.bits / 8;
                        if (target.count(address_of(*P.a[i], k))) { memcpy(&want.bytes[k * es], &now.bytes[k * es], es); continue; }
                        auto w = writes.find(address_of(*P.a[i], k));
                        if (w == writes.end()) continue;
                        if (partial) { memcpy(&want.bytes[k * es], &now.bytes[k * es], es); continue; }
                        store(&want.bytes[0], DLDataType{(uint8_t)want.code, (uint8_t)want.bits, 1}, k, w->second);
                    }
                }
                std::string d = arr_diff(now, want);
                if (!d.empty()) violate("contents-changed:" + op.name, strf("%s %s (%s): array %d %s", op.name.c_str(), op.s("f").c_str(), o.threw ? ("failed: " + o.what).c_str() : "succeeded", i, d.c_str()));
            }
            if (mutates && rep < 2) for (int i = 0; i < NS; ++i) if (P.a[i]) restore(*P.a[i], before[i]);
            (void)fired;
        }
        bool fired0 = false;
        for (auto &f : p.faults) fired0 |= f.op == op.id;
        checked();
        if (ok[1] != ok[2]) violate("unrepeatable:" + op.name, op.name + " " + op.s("f") + ": the same call succeeds once and fails once");
        if (ok[0] && !ok[1]) violate("unrepeatable:" + op.name, op.name + " " + op.s("f") + ": a call that succeeded before fails now");
        // requests within the documented means must succeed undisturbed
        bool must = op.name == "handle" || op.name == "scalar" || (op.name == "shape" && op.s("f") != "reshape") || (op.name == "shape" && P.a[op.i("x")] && dense(*P.a[op.i("x")]) && ints(op.s("shape"), 'x').size() != x->shape.size());
        if (must && !ok[1]) violate("refused:" + op.name, op.name + " " + op.s("f") + " of a dense array was refused");
        if (!ok[0] && ok[1] && !fired0) violate("spurious-failure:" + op.name, op.name + " " + op.s("f") + " failed with nothing refused");
        auto same = [&](int a, int b) {
            for (size_t k = 0; k < res[a].size(); ++k) {
                std::string d = k < res[b].size() ? arr_diff(res[a][k], res[b][k]) : "missing";
                if (op.s("f") == "fftms" && !d.empty()) { // plans depend on alignment
                    d = "";
                    for (int64_t i = 0; i < res[a][k].numel(); ++i) if (!(std::fabs(res[a][k].f()[i] - res[b][k].f()[i]) <= 1e-4 * std::fabs(res[b][k].f()[i]) + 1)) d = "spectrum differs";
                }
                if (!d.empty()) violate(std::string(a == 0 ? "wrong-after-failure:" : "depends-on-memory:") + op.name, op.name + " " + op.s("f") + (a == 0 ? " with an allocation refused returned something else than undisturbed: " : " twice on the same arrays, with other fresh memory: ") + d);
            }
        };
        if (ok[1]) {
            same(2, 1);
            if (ok[0]) same(0, 1);
            std::string e = expect(op, x, y, res[1]);
            if (!e.empty()) violate("wrong-result:" + op.name, op.name + " " + op.s("f") + ": " + e);
            probe(1);
            if (!ok[0]) probe(2);
            if (op.has("to") && !kept.empty()) P.a[op.i("to")] = std::make_shared<ndarray>(kept.back());
            std::string h;
            for (auto &a : res[1]) h += op.s("f") == "fftms" ? "" : a.bytes;
            note(strf("%s %d %016llx", op.name.c_str(), op.id, (unsigned long long)fnv(h)));
        }
    }
}
Plan generate(uint64_t seed, bool thorough) {
    Rng r(mix(seed, 13));
    Plan p;
    int64_t A = 2 + r.below(7), B = 2 + r.below(9);
    auto sh2 = [](int64_t a, int64_t b) { return strf("%lldx%lld", (long long)a, (long long)b); };
    p.add("data").set("to", 0).set("shape", sh2(A, B));
    p.add("data").set("to", 1).set("shape", r.chance(.5) ? sh2(A, B) : r.chance(.5) ? std::to_string(B) : r.chance(.5) ? sh2(A, 1) : sh2(1, B));
    p.add("data").set("to", 2).set("shape", sh2(A, B)).set("u8", 1).set("den", 2 + r.below(4));
    static const char *types[] = {"int32", "uint32", "int32", "uint32", "int8", "int16", "int64", "uint16", "uint64", "float64"};
    bool spectrum = r.chance(.15); // a vector of a length of its own, for transforms of many sizes
    int64_t len = 40 + (int64_t)r.below(1100);
    if (spectrum && r.chance(.6)) {
        static const int64_t pr[] = {2, 2, 3, 5, 7, 11, 11, 13, 13, 17, 19, 23};
        for (len = 1; len < 40;) { int64_t q = pr[r.below(12)]; if (len * q > 1200) break; len *= q; }
        if (r.chance(.5)) len = std::min<int64_t>(1200, len * (1 + (int64_t)r.below(8)));
    }
    if (spectrum) p.add("data").set("to", 3).set("shape", std::to_string(len));
    else p.add("data").set("to", 3).set("shape", r.chance(.6) ? std::to_string(2 + r.below(40)) : strf("%d%s%dx%d", (int)r.below(4) + 2, "x", (int)r.below(4) + 1, (int)r.below(5) + 1));
    if (spectrum) {
        p.add("unary").set("f", "fftms").set("x", 3).set("to", 6);
        int64_t st = 1 + (int64_t)r.below(3), lo = (int64_t)r.below(len / 2);
        p.add("slice").set("x", 3).set("dim", 0).set("lo", lo).set("hi", len - (int64_t)r.below(len / 4)).set("step", st).set("to", 5);
        p.add("unary").set("f", "fftms").set("x", 5).set("to", 6);
    }
    if (!spectrum && r.chance(.12)) { // arrays of other types
        p.add("data").set("to", 1).set("shape", sh2(A, B)).set("dt", types[r.below(10)]);
        if (r.chance(.5)) p.add("data").set("to", 3).set("shape", r.chance(.7) ? sh2(A, B) : std::to_string(B)).set("dt", types[r.below(10)]);
    }
    int n = 4 + (int)r.below(thorough ? 30 : 12);
    if (spectrum) n = 1 + (int)r.below(5);
    auto fl = [&] { int s[] = {0, 0, 1, 3, 4, 5, 6}; return s[r.below(7)]; };
    auto to = [&] { return 4 + (int)r.below(4); };
    for (int i = 0; i < n; ++i) {
        double u = r.unit();
        auto val = [&] { return r.chance(.3) ? (double)(float)(30 * r.unit() - 15) : (double)r.range(-60, 60) / 4; };
        if (u < .08) {
            const char *f[] = {"zeros", "ones", "arange", "linspace", "full"};
            auto &o = p.add("create").set("f", f[r.below(5)]).set("shape", sh2(A, B)).set("n", 1 + r.below(30)).setd("v", val()).set("to", to());
            if (r.chance(.3)) o.set("u8", 1);
            else if (r.chance(.3)) {
                o.set("dt", types[r.below(10)]);
                o.setd("v", (double)r.below(100));
            }
            if (o.s("f") == "arange" && r.chance(.6)) o.set("lo", r.below(10)).set("step", 1 + r.below(3)).set(r.chance(.5) ? "iv" : "dv", 1);
        } else if (u < .25) {
            const char *f[] = {"add", "sub", "mul", "div"};
            auto &o = p.add("arith").set("f", f[r.below(4)]).set("x", fl()).set("to", to());
            if (r.chance(.6)) o.set("y", r.chance(.15) ? 2 : fl()); else o.setd("v", val());
        } else if (u < .36) {
            const char *f[] = {"gt", "ge", "lt", "le", "eq", "and"};
            bool an = r.chance(.15);
            auto &o = p.add("cmp").set("f", an ? "and" : f[r.below(5)]).set("x", an ? 2 : fl()).set("to", r.chance(.3) ? 7 : to());
            if (an) o.set("y", r.chance(.5) ? 2 : 7);
            else if (r.chance(.5)) o.set("y", fl());
            else { o.setd("v", val()); if (r.chance(.4)) o.set("rev", 1); }
        } else if (u < .6) {
            const char *f[] = {"sum", "mean", "max", "stddev", "var", "moment", "median", "count", "mean_stddev", "mmean", "mstddev", "mvar", "mmean_stddev"};
            std::string g = f[r.below(13)];
            auto &o0 = p.add("red").set("f", g).set("x", g == "count" ? (r.chance(.5) ? 2 : 7) : g[0] == 'm' && g[1] == 'm' ? 0 : fl()).set("to", to());
            if (g == "mmean" || g == "mstddev" || g == "mvar" || g == "mmean_stddev") o0.set("x", r.chance(.7) ? 0 : fl()).set("y", r.chance(.7) ? 2 : 7);
            if (g == "moment") o0.set("deg", 2 + r.below(3));
            if (r.chance(.1)) { // of equal values
                Op q = p.ops.back();
                p.ops.pop_back();
                p.add("fill").set("x", q.i("x")).setd("v", val()).set("u8", q.i("x") == 2);
                int id = p.add("red").id;
                p.ops.back() = q;
                p.ops.back().id = id;
            }
            auto &o = p.ops.back();
            if (g != "median" && r.chance(.6)) o.set("axes", r.chance(.5) ? "0" : r.chance(.7) ? "1" : "0,1");
            if ((g == "mmean" || g == "mstddev" || g == "mvar" || g == "mmean_stddev") && r.chance(.5)) { // an array and a mask that lie differently in memory
                Op q = p.ops.back();
                p.ops.pop_back();
                int64_t dim = r.below(2), n = dim ? B : A, st = 1 + r.below(2), lo = r.below(n), hi = std::min<int64_t>(n, lo + st * (1 + (int64_t)r.below(n)));
                p.add("slice").set("x", 0).set("dim", dim).set("lo", lo).set("hi", hi).set("step", st).set("to", 5);
                if (r.chance(.5)) p.add("slice").set("x", 2).set("dim", dim).set("lo", lo).set("hi", hi).set("step", st).set("to", 7);
                else p.add("cmp").set("f", r.chance(.5) ? "gt" : "le").set("x", 5).setd("v", val()).set("to", 7);
                if (r.chance(.3)) p.add("unary").set("f", "copy").set("x", r.chance(.5) ? 5 : 7).set("to", 6);
                auto &o2 = p.add("red");
                int id = o2.id;
                q.set("x", r.chance(.85) ? 5 : 6).set("y", r.chance(.85) ? 7 : 6);
                q.id = id;
                p.ops.back() = q;
            }
        } else if (u < .74) {
            int64_t lo = r.below(B), hi = lo + (r.chance(.92) ? 1 : 0) + r.below(B);
            if (r.chance(.7)) p.add("slice").set("x", r.chance(.15) ? 2 : fl()).set("dim", r.below(2)).set("lo", lo).set("hi", hi).set("step", 1 + r.below(3)).set("to", to());
            else p.add("slice2").set("x", fl()).set("lo", r.below(A)).set("hi", 1 + r.below(A)).set("step", 1 + r.below(2)).set("lo2", r.below(B)).set("hi2", 1 + r.below(B)).set("step2", 1 + r.below(2)).set("to", to());
        } else if (u < .82) {
            const char *f[] = {"reshape", "squeeze", "unsqueeze"};
            if (r.chance(.2)) p.add("handle").set("x", fl()).set("y", fl()).set("to", to());
            else p.add("shape").set("f", f[r.below(3)]).set("x", fl()).set("shape", r.chance(.4) ? std::to_string(A * B) : r.chance(.5) ? sh2(B, A) : strf("%lldx1x%lld", (long long)A, (long long)B)).set("dim", r.below(3)).set("to", to());
        } else if (u < .90) {
            const char *f[] = {"copy", "square", "sqrt", "abs", "fftms"};
            p.add("unary").set("f", f[r.below(5)]).set("x", fl()).set("to", to());
        } else if (u < .955) {
            bool u8 = r.chance(.25);
            p.add("fill").set("x", u8 ? 2 : fl()).set("u8", u8).setd("v", u8 ? (double)r.below(2) : val());
        } else if (u < .965) {
            p.add("scalar").set("x", r.chance(.15) ? 2 : fl()).set("i", r.below(200));
        } else if (u < .972) { // one element of a view
            int64_t a = r.below(A), b = r.below(B);
            p.add("slice2").set("x", 0).set("lo", a).set("hi", a + 1).set("lo2", b).set("hi2", b + 1).set("to", 5);
            p.add("scalar").set("x", 5).set("i", 0).set("whole", 1);
        } else if (u < .985) { // a result into a view of another array
            const char *f[] = {"sum", "mean", "max", "stddev", "var", "moment", "mean_stddev", "mmean", "mstddev", "mvar", "mmean_stddev"};
            std::string g = f[r.below(11)], ax = r.chance(.45) ? "0" : r.chance(.8) ? "1" : "0,1";
            int64_t m = ax == "0" ? B : ax == "1" ? A : 1, st = 1 + r.below(3), lo = r.below(4);
            p.add("data").set("to", 4).set("shape", std::to_string(lo + m * st + r.below(4)));
            p.add("slice").set("x", 4).set("dim", 0).set("lo", lo).set("hi", lo + m * st).set("step", st).set("to", 5);
            if (g == "mean_stddev" || g == "mmean_stddev") {
                p.add("data").set("to", 6).set("shape", strf("%lldx3", (long long)m));
                p.add("slice").set("x", 6).set("dim", 1).set("lo", 1).set("hi", 2).set("step", 1).set("to", 7);
                p.add("shape").set("f", "squeeze").set("x", 7).set("dim", 1).set("to", 7);
            }
            auto &o = p.add("into").set("f", g).set("x", 0).set("y", 2).set("axes", ax).set("o", 5);
            if (g == "mean_stddev" || g == "mmean_stddev") o.set("o2", 7);
            if (g == "moment") o.set("deg", 2 + r.below(3));
        } else if (u < .99) {
            const char *f[] = {"copy", "square", "sqrt", "abs"};
            int64_t st = 1 + r.below(2), st2 = 1 + r.below(2), lo = r.below(3), lo2 = r.below(3);
            p.add("data").set("to", 4).set("shape", sh2(lo + A * st + r.below(2), lo2 + B * st2 + r.below(2)));
            p.add("slice2").set("x", 4).set("lo", lo).set("hi", lo + A * st).set("step", st).set("lo2", lo2).set("hi2", lo2 + B * st2).set("step2", st2).set("to", 5);
            p.add("into").set("f", f[r.below(4)]).set("x", r.chance(.8) ? 0 : 5).set("o", 5);
        } else p.add("assign").set("x", fl()).set("y", fl()).set("lo", r.below(3)).set("hi", 1 + r.below(A)).set("step", 1 + r.below(2)).set("sl", r.below(2));
    }
    return p;
}
Property prop() {
    Property p;
    p.id = "C13";
    p.what = "array operations under allocation failure";
    p.generate = generate;
    p.execute = execute;
    p.kinds[C_ALLOC] = {"fail"};
    p.kinds[C_NEW] = {"fail"};
    p.fault_runs = 4;
    p.max_faults = 3;
    p.quick_plans = 25000;
    p.thorough_plans = 400000;
    p.probe_names = {"operations that failed", "operations compared with their definition or a second run", "operations that failed and then succeeded"};
    p.real_components = "bland array operations (creation, arithmetic, comparison, reductions, masked statistics, slicing, reshaping, copying, in-place fill and assignment through views, spectrum), FFTW (real code)";
    p.stub_components = "array allocator and operator new (failing at counted calls), contents of fresh memory";
    p.rule = "seeded sequences of array operations over a pool of arrays and views sharing storage; every operation is run once with allocation failures at counted calls and twice undisturbed with different fresh-memory contents; oracle: throw or equal result, untouched inputs and neighbours, nothing leaked, element definitions.";
    return p;
}
Register r_(prop());
} // namespace
namespace sim {
// A program of array operations as part of a larger operation: what every step gave goes to dig.
void array_program(uint64_t seed, const std::function<void(const std::string &)> &dig) {
    std::shared_ptr<Plan> p;
    auto P = std::make_shared<Pool>();
    { HarnessScope h; p = std::make_shared<Plan>(generate(seed, false)); p->seed = seed; }
    for (auto &op : p->ops) {
        bool fft, go = true;
        {
            HarnessScope h;
            fft = op.s("f") == "fftms";
            if (op.name == "data") { make_data(*p, op, *P); continue; }
            Arr bx, by;
            const Arr *x = nullptr, *y = nullptr;
            if (op.has("x") && P->a[op.i("x")]) { bx = grab(*P->a[op.i("x")]); x = &bx; }
            if (op.has("y") && P->a[op.i("y")]) { by = grab(*P->a[op.i("y")]); y = &by; }
            if (!applicable(op, *P, x, y) || (op.name == "assign" && overlapping(op, *P))) go = false;
        }
        if (!go) continue;
        std::vector<ndarray> out;
        { HarnessScope h; out.reserve(4); }
        Outcome o = guarded([&] { apply(op, *P, out); });
        if (o.threw && fault_fired_in_op(current_op())) throw std::runtime_error(o.what);
        HarnessScope h;
        std::string got = o.threw ? "refused" : "";
        for (auto &a : out) if (!fft) got += grab(a).bytes;
        dig(op.name + "/" + op.s("f") + "=" + got);
        if (op.has("to") && !out.empty()) P->a[op.i("to")] = std::make_shared<ndarray>(out.back());
    }
}
} // namespace sim

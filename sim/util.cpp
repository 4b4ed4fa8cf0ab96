#include "util.hpp"
namespace sim {
uint64_t fnv(const std::string &s) {
    uint64_t h = 1469598103934665603ull;
    for (char c : s) { h ^= (uint8_t)c; h *= 1099511628211ull; }
    return h;
}
Arr grab(const bland::ndarray &a) {
    HarnessScope h;
    Arr r;
    r.shape = a.shape();
    auto st = a.strides();
    auto of = a.offsets();
    auto dt = a.dtype();
    r.code = dt.code;
    r.bits = dt.bits;
    int64_t es = dt.bits / 8, n = r.numel();
    r.bytes.resize(n * es);
    int64_t base = 0;
    for (auto o : of) base += o;
    const char *p = a.data_ptr<char>();
    size_t d = r.shape.size();
    std::vector<int64_t> ix(d, 0);
    for (int64_t i = 0; i < n; ++i) {
        int64_t lin = base;
        for (size_t k = 0; k < d; ++k) lin += ix[k] * st[k];
        memcpy(&r.bytes[i * es], p + lin * es, es);
        for (int64_t k = (int64_t)d - 1; k >= 0; --k) {
            if (++ix[k] < r.shape[k]) break;
            ix[k] = 0;
        }
    }
    return r;
}
template <class T> static double ld(const std::string &b, int64_t i) { T v; memcpy(&v, b.data() + i * sizeof(T), sizeof v); return (double)v; }
double arr_at(const Arr &a, int64_t i) {
    if (a.code == kDLFloat) return a.bits == 32 ? ld<float>(a.bytes, i) : ld<double>(a.bytes, i);
    if (a.code == kDLInt) return a.bits == 8 ? ld<int8_t>(a.bytes, i) : a.bits == 16 ? ld<int16_t>(a.bytes, i) : a.bits == 32 ? ld<int32_t>(a.bytes, i) : (double)ld<int64_t>(a.bytes, i);
    return a.bits == 8 ? ld<uint8_t>(a.bytes, i) : a.bits == 16 ? ld<uint16_t>(a.bytes, i) : a.bits == 32 ? ld<uint32_t>(a.bytes, i) : (double)ld<uint64_t>(a.bytes, i);
}
static std::string shp(const Arr &a) {
    std::string s = strf("%s%d[", a.code == kDLFloat ? "f" : a.code == kDLInt ? "i" : "u", a.bits);
    for (auto d : a.shape) s += std::to_string(d) + ",";
    return s + "]";
}
std::string arr_diff(const Arr &g, const Arr &w) {
    HarnessScope h;
    if (g == w) return "";
    if (g.shape != w.shape || g.code != w.code || g.bits != w.bits) return "got " + shp(g) + " want " + shp(w);
    int64_t n = g.numel(), bad = 0, first = -1;
    int es = g.bits / 8;
    for (int64_t i = 0; i < n; ++i)
        if (memcmp(&g.bytes[i * es], &w.bytes[i * es], es)) { if (first < 0) first = i; ++bad; }
    return strf("%lld of %lld elements of %s differ, first at %lld: got %.9g want %.9g", (long long)bad, (long long)n, shp(g).c_str(), (long long)first, arr_at(g, first), arr_at(w, first));
}
std::string enc(const Arr &a) {
    Out o;
    o.pod<uint32_t>((uint32_t)a.shape.size());
    for (auto s : a.shape) o.pod<int64_t>(s);
    o.pod<int32_t>(a.code).pod<int32_t>(a.bits).str(a.bytes);
    return o.s;
}
bool dec(const std::string &s, size_t &pos, Arr &a) {
    In i(s);
    i.p = pos;
    uint32_t d = i.pod<uint32_t>();
    if (d > 16) return false;
    a.shape.clear();
    for (uint32_t k = 0; k < d; ++k) a.shape.push_back(i.pod<int64_t>());
    a.code = i.pod<int32_t>();
    a.bits = i.pod<int32_t>();
    a.bytes = i.str();
    pos = i.p;
    return true;
}
template <class T> static void st(char *p, int64_t i, double v) { T t = (T)v; memcpy(p + i * sizeof(T), &t, sizeof t); }
void store(char *p, DLDataType t, int64_t i, double v) {
    if (t.code == kDLFloat) { if (t.bits == 32) st<float>(p, i, v); else st<double>(p, i, v); }
    else if (t.code == kDLInt) { if (t.bits == 8) st<int8_t>(p, i, v); else if (t.bits == 16) st<int16_t>(p, i, v); else if (t.bits == 32) st<int32_t>(p, i, v); else st<int64_t>(p, i, v); }
    else { if (t.bits == 8) st<uint8_t>(p, i, v); else if (t.bits == 16) st<uint16_t>(p, i, v); else if (t.bits == 32) st<uint32_t>(p, i, v); else st<uint64_t>(p, i, v); }
}
bland::ndarray make_array(const std::vector<int64_t> &shape, DLDataType t, const std::function<double(int64_t)> &f) {
    HarnessScope h;
    bland::ndarray a(shape, t);
    int64_t n = 1;
    for (auto s : shape) n *= s;
    for (int64_t i = 0; i < n; ++i) store(a.data_ptr<char>(), t, i, f(i));
    return a;
}
void set_at(bland::ndarray &a, const std::vector<int64_t> &idx, double v) {
    HarnessScope h;
    auto stv = a.strides();
    auto of = a.offsets();
    int64_t lin = 0;
    for (size_t k = 0; k < idx.size(); ++k) lin += of[k] + idx[k] * stv[k];
    store(a.data_ptr<char>(), a.dtype(), lin, v);
}
} // namespace sim

#include "h5gen.hpp"
#include <hdf5.h>

namespace sim {
static hid_t h5t(const std::string &t) {
    static const std::map<std::string, hid_t> m = {
        {"f32", H5T_IEEE_F32LE}, {"f64", H5T_IEEE_F64LE}, {"i8", H5T_STD_I8LE}, {"i16", H5T_STD_I16LE}, {"i32", H5T_STD_I32LE}, {"i64", H5T_STD_I64LE},
        {"u8", H5T_STD_U8LE}, {"u16", H5T_STD_U16LE}, {"u32", H5T_STD_U32LE}, {"u64", H5T_STD_U64LE},
        {"f32be", H5T_IEEE_F32BE}, {"f64be", H5T_IEEE_F64BE}, {"i16be", H5T_STD_I16BE}, {"i32be", H5T_STD_I32BE}, {"i64be", H5T_STD_I64BE}, {"u16be", H5T_STD_U16BE}};
    auto i = m.find(t);
    return i == m.end() ? -1 : i->second;
}
double h5_round(const std::string &t, double v) {
    if (t[0] == 'f') return t.rfind("f32", 0) == 0 ? (double)(float)v : v;
    return std::trunc(v);
}
static void need(bool ok, const char *what) { if (!ok) violate("harness", std::string("writing a recording failed: ") + what); }
static void put_attr(hid_t obj, const H5Attr &a) {
    if (a.type == "none") return;
    hid_t sp = H5Screate(H5S_SCALAR), ty, at;
    if (a.type == "vstr") {
        ty = H5Tcopy(H5T_C_S1);
        H5Tset_size(ty, H5T_VARIABLE);
        at = H5Acreate2(obj, a.name.c_str(), ty, sp, H5P_DEFAULT, H5P_DEFAULT);
        const char *s = a.text.c_str();
        need(H5Awrite(at, ty, &s) >= 0, "attribute");
        H5Tclose(ty);
    } else if (a.type == "fstr" || a.type == "fstrpad") {
        ty = H5Tcopy(H5T_C_S1);
        size_t n = a.type == "fstr" ? std::max<size_t>(1, a.text.size()) : a.text.size() + 5;
        H5Tset_size(ty, n);
        H5Tset_strpad(ty, H5T_STR_NULLPAD);
        std::string b = a.text;
        b.resize(n, 0);
        at = H5Acreate2(obj, a.name.c_str(), ty, sp, H5P_DEFAULT, H5P_DEFAULT);
        need(H5Awrite(at, ty, b.data()) >= 0, "attribute");
        H5Tclose(ty);
    } else {
        at = H5Acreate2(obj, a.name.c_str(), h5t(a.type), sp, H5P_DEFAULT, H5P_DEFAULT);
        if (a.type[0] == 'f') need(H5Awrite(at, H5T_NATIVE_DOUBLE, &a.num) >= 0, "attribute");
        else { long long v = (long long)a.num; need(H5Awrite(at, H5T_NATIVE_LLONG, &v) >= 0, "attribute"); }
    }
    H5Aclose(at);
    H5Sclose(sp);
}
void h5_write(const std::string &path, const H5Spec &s) {
    HarnessScope h;
    hid_t fapl = H5Pcreate(H5P_FILE_ACCESS);
    if (s.latest) H5Pset_libver_bounds(fapl, H5F_LIBVER_LATEST, H5F_LIBVER_LATEST);
    hid_t f = H5Fcreate(path.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, fapl);
    need(f >= 0, "create");
    if (s.root_attrs) {
        put_attr(f, {"CLASS", "vstr", 0, "FILTERBANK"});
        put_attr(f, {"VERSION", "vstr", 0, "1.0"});
    }
    hsize_t dims[3] = {(hsize_t)s.T, (hsize_t)s.nif, (hsize_t)s.F};
    hid_t sp = H5Screate_simple(3, dims, nullptr);
    hid_t pl = H5Pcreate(H5P_DATASET_CREATE);
    if (s.chunk_t) {
        hsize_t c[3] = {(hsize_t)std::min<int64_t>(s.chunk_t, s.T), (hsize_t)s.nif, (hsize_t)std::min<int64_t>(s.chunk_f, s.F)};
        H5Pset_chunk(pl, 3, c);
        if (s.shuffle) H5Pset_shuffle(pl);
        if (s.deflate) H5Pset_deflate(pl, s.deflate);
        if (s.fletcher) H5Pset_fletcher32(pl);
    }
    std::vector<double> v(s.T * s.nif * s.F);
    for (int64_t t = 0; t < s.T; ++t)
        for (int64_t n = 0; n < s.nif; ++n)
            for (int64_t c = 0; c < s.F; ++c) v[(t * s.nif + n) * s.F + c] = s.value(t, c);
    hid_t d = H5Dcreate2(f, "data", h5t(s.type), sp, H5P_DEFAULT, pl, H5P_DEFAULT);
    need(d >= 0, "dataset");
    need(H5Dwrite(d, H5T_NATIVE_DOUBLE, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()) >= 0, "samples");
    if (s.mask) {
        hid_t m = H5Dcreate2(f, "mask", H5T_STD_U8LE, sp, H5P_DEFAULT, pl, H5P_DEFAULT);
        std::vector<uint8_t> z(v.size(), 0);
        H5Dwrite(m, H5T_NATIVE_UINT8, H5S_ALL, H5S_ALL, H5P_DEFAULT, z.data());
        H5Dclose(m);
    }
    for (auto &a : s.attrs) put_attr(d, a);
    if (s.labels != "none") {
        hsize_t n = s.label_names.size();
        hid_t ls = H5Screate_simple(1, &n, nullptr), ty = H5Tcopy(H5T_C_S1), at;
        if (s.labels == "vstr") {
            H5Tset_size(ty, H5T_VARIABLE);
            std::vector<const char *> p;
            for (auto &x : s.label_names) p.push_back(x.c_str());
            at = H5Acreate2(d, "DIMENSION_LABELS", ty, ls, H5P_DEFAULT, H5P_DEFAULT);
            need(H5Awrite(at, ty, p.data()) >= 0, "labels");
        } else {
            size_t w = 12;
            H5Tset_size(ty, w);
            H5Tset_strpad(ty, H5T_STR_NULLPAD);
            std::string b;
            for (auto &x : s.label_names) { std::string q = x; q.resize(w, 0); b += q; }
            at = H5Acreate2(d, "DIMENSION_LABELS", ty, ls, H5P_DEFAULT, H5P_DEFAULT);
            need(H5Awrite(at, ty, b.data()) >= 0, "labels");
        }
        H5Aclose(at);
        H5Tclose(ty);
        H5Sclose(ls);
    }
    H5Dclose(d);
    H5Pclose(pl);
    H5Sclose(sp);
    need(H5Fclose(f) >= 0, "close");
    H5Pclose(fapl);
    need(disk_get(path) != nullptr, "no file");
}
} // namespace sim

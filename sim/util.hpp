// Harness-side helpers: they read arrays with their own index arithmetic, never
// with the operations under test.
#pragma once
#include "sim.hpp"
#include <bland/bland.hpp>
#include <cmath>

namespace sim {
struct Arr { // plain value copy of an ndarray
    std::vector<int64_t> shape;
    int code = 2, bits = 32;
    std::string bytes; // row-major
    int64_t numel() const { int64_t n = 1; for (auto s : shape) n *= s; return n; }
    bool operator==(const Arr &o) const { return shape == o.shape && code == o.code && bits == o.bits && bytes == o.bytes; }
    bool operator!=(const Arr &o) const { return !(*this == o); }
    const float *f() const { return (const float *)bytes.data(); }
    const uint8_t *u8() const { return (const uint8_t *)bytes.data(); }
};
Arr grab(const bland::ndarray &a);                  // strided read of every element
std::string arr_diff(const Arr &got, const Arr &want); // "" when equal
std::string enc(const Arr &a);
bool dec(const std::string &s, size_t &pos, Arr &a);
bland::ndarray make_array(const std::vector<int64_t> &shape, DLDataType t, const std::function<double(int64_t)> &f);
double arr_at(const Arr &a, int64_t i);
void store(char *p, DLDataType t, int64_t i, double v);
void set_at(bland::ndarray &a, const std::vector<int64_t> &idx, double v);

// a point where the simulator may make a harness-supplied callback throw
struct CallbackFault { int tag; };
void callback_point(int tag);

// byte string builder / reader for reference answers
struct Out {
    std::string s;
    template <class T> Out &pod(const T &v) { s.append((const char *)&v, sizeof v); return *this; }
    Out &str(const std::string &v) { pod<uint64_t>(v.size()); s += v; return *this; }
    Out &arr(const Arr &a) { return str(enc(a)); }
};
struct In {
    const std::string &s;
    size_t p = 0;
    explicit In(const std::string &x) : s(x) {}
    template <class T> T pod() { T v{}; if (p + sizeof v <= s.size()) memcpy(&v, s.data() + p, sizeof v); p += sizeof v; return v; }
    std::string str() { uint64_t n = pod<uint64_t>(); std::string v = p + n <= s.size() ? s.substr(p, n) : ""; p += n; return v; }
    Arr arr() { std::string e = str(); size_t q = 0; Arr a; dec(e, q, a); return a; }
};
uint64_t fnv(const std::string &s);
} // namespace sim

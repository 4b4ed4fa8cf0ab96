// Recordings made by the harness, written to the simulated disk with the HDF5 C API.
#pragma once
#include "util.hpp"

namespace sim {
struct H5Attr { std::string name; std::string type; double num = 0; std::string text; }; // type: f32 f64 i8..i64 u8..u64 (optional suffix be), vstr, fstr, fstrpad, none
struct H5Spec {
    int64_t T = 4, nif = 1, F = 64;
    std::string type = "f32";       // stored sample type
    int chunk_t = 0, chunk_f = 0;   // 0: contiguous
    int deflate = 0;
    bool shuffle = false, fletcher = false;
    bool latest = false;            // newest file format
    std::string labels = "vstr";    // vstr, fstr, none
    std::vector<std::string> label_names = {"time", "feed_id", "frequency"};
    std::vector<H5Attr> attrs;
    bool root_attrs = true;
    bool mask = false;
    std::function<double(int64_t t, int64_t f)> value;
};
void h5_write(const std::string &path, const H5Spec &);
double h5_round(const std::string &type, double v); // what storing v in that type keeps
} // namespace sim

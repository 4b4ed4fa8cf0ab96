// Scans, targets, cadences and channels driven by a plan, next to a model of what each must report.
#pragma once
#include "h5gen.hpp"
#include <core/cadence.hpp>
#include <core/coarse_channel.hpp>
#include <core/scan.hpp>

namespace sim {
struct Rec {
    int id = 0;
    int64_t fpc = 32, nco = 2, T = 4;
    double fch1 = 8000, foff = -2.79e-6, tsamp = 18.25, tstart = 59000;
    std::string name = "src";
    uint64_t seed = 0;
    int tones = 2, layout = 0;
    std::vector<std::array<double, 3>> tone; // start bin (global), slope (bins per spectrum), level
    static Rec of(const Op &);
    std::string path() const { return strf("/simdisk/rec%d.h5", id); }
    double value(int64_t t, int64_t f) const;
    double ch_fch1(int64_t g) const { return fch1 + foff * (double)(fpc * g); }
    Arr samples(int64_t g) const; // channel g, [T,1,fpc] collapsed as the reader returns it
    void write() const;
};
std::string eq_path(int64_t fpc, int64_t seed);
// applies a stage ("norm", "roll:0.1", ...) to a scan, target, cadence or channel
template <class T> T apply_stage(const T &x, const std::string &spec);

void ser_hit(Out &o, const bliss::hit &h);
std::string ser_hits(const std::list<bliss::hit> &l);
std::string show_hit(const bliss::hit &h);
bliss::hit de_hit(In &i);

struct Ref { // products of one channel after a list of stages, evaluated once on a fresh object
    bool stage_threw = false;
    bool data_threw = false, mask_threw = false;
    Arr data, mask;
    bool has_noise = false;
    float floor = 0, power = 0;
    bool has_plane = false, plane_threw = false;
    Arr plane, rfi[3];
    std::string plane_info;
    bool has_hits = false;
    std::vector<std::string> hits; // serialised one by one
};

struct MScan { int rec; int64_t off, count; std::vector<std::string> stages; int dev = 0; /* number of the host device it was placed on */ };
struct Obj {
    int kind = 0; // 0 scan, 1 target, 2 cadence
    std::shared_ptr<bliss::scan> s;
    std::shared_ptr<bliss::observation_target> t;
    std::shared_ptr<bliss::cadence> c;
    std::vector<std::vector<MScan>> m;
    int dev = 0;           // of the target or cadence itself
    std::vector<int> tdev; // of a cadence's targets
    bliss::scan &scan(size_t i, size_t j) { return kind == 0 ? *s : kind == 1 ? t->_scans.at(j) : c->_observations.at(i)._scans.at(j); }
};
struct CC { int rec; int64_t g; std::vector<std::string> stages; std::shared_ptr<bliss::coarse_channel> cc; int dev = 0; };

struct World {
    const Plan &p;
    std::map<int, Rec> recs;
    std::map<int, Obj> objs;
    std::map<int, CC> ccs;
    bool ref_ready = false;
    bool expect_leakfree = false;
    explicit World(const Plan &pl) : p(pl) {}
    void setup();              // writes all recordings, starts the reference server
    void step(const Op &op);   // one operation
    void run();
    Ref ref(int rec, int64_t g, const std::vector<std::string> &stages);
    void check_products(const std::string &where, CC &c, const std::string &what, const Op &op);
    void check_meta(const std::string &where, bliss::coarse_channel &cc, const Rec &r, int64_t g);
    void check_devs(const std::string &where, Obj &o);
    void check_cc_dev(const std::string &where, CC &c);
    void check_obj(const std::string &where, Obj &o);
    // runs f under the op's faults; a run that failed because of a fault is repeated without
    Outcome attempt(const Op &op, const std::function<void()> &f, bool may_throw = false);
};
std::string world_ref(const World *w, const std::string &req); // body of the reference server

struct WorldMix { // generator weights
    int min_ops = 10, max_ops = 28;
    double open = 1, slice = 1, copy = 1, stage = 2, read = 3, get = 4, hits = 1, meta = 1, bad = 0.3, dev = 0.4, group = 1, ccops = 1, assemble = 0.4, drop = 0.3, events = 0;
    bool pipeline = false;  // objects get a complete pipeline early
    int max_recs = 3;
};
int rank_of(const std::string &stage);
std::string gen_stage(Rng &r, int rank, int64_t fpc);
Plan gen_world(uint64_t seed, bool thorough, const WorldMix &mix);
Plan gen_cadence(uint64_t seed, bool thorough);
} // namespace sim

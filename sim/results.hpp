// Result files: synthetic hits, channels, scans, targets, cadences and events, next to what a Cap'n Proto file keeps of them.
#pragma once
#include "world.hpp"
#include <core/event.hpp>

namespace sim {
struct MHits { std::vector<bliss::hit> h; };
struct MChan {
    bool loaded = true;
    double fch1 = 0, foff = 0, dej = 0, raj = 0, tsamp = 0, tstart = 0;
    int64_t tel = 0, nt = 0, nc = 0, number = 0;
    std::string name;
    std::vector<bliss::hit> hits;
};
struct MRes { // one result: what was given
    std::string kind; // hits, chan, scan, target, cadence, events
    std::vector<bliss::hit> hits;
    std::vector<std::vector<bliss::hit>> events;
    std::vector<std::vector<std::vector<MChan>>> obs; // observation, scan, channel
};
bliss::hit make_hit(Rng &r);
bliss::hit stored(const bliss::hit &h); // to the precision of the format
std::vector<bliss::hit> make_hits(Rng &r, int64_t n);
MRes make_result(const std::string &kind, uint64_t seed, int64_t n);
bliss::coarse_channel build_chan(const MChan &m);
bliss::scan build_scan(const std::vector<MChan> &m);
bliss::observation_target build_target(const std::vector<std::vector<MChan>> &m);
bliss::cadence build_cadence(const std::vector<std::vector<std::vector<MChan>>> &m);
// writes the result with the code under test (form selects between equivalent entry points)
void write_result(const MRes &m, const std::string &path, int form);
// reads path as kind into the same plain form
MRes read_result(const std::string &kind, const std::string &path, int form);
MRes stored(const MRes &m);
std::string hits_diff(const std::vector<bliss::hit> &got, const std::vector<bliss::hit> &want);
std::string result_diff(const MRes &got, const MRes &want); // "" when equal
// a scan of a recording with the op's pipeline (channels in mask touched; evaluated already unless the op says lazy) and what it holds
std::shared_ptr<bliss::scan> real_scan(const Op &op, int64_t mask, MRes &m);
std::string real_stages(Rng &r);
size_t record_count(const MRes &m);
// complete Cap'n Proto messages in a byte string
size_t whole_messages(const std::vector<uint8_t> &b);
// "" when text is a complete .dat report of the scan's metadata and hits
std::string report_diff(const std::string &text, const MChan &md, double foff, const std::vector<bliss::hit> &hits);
} // namespace sim

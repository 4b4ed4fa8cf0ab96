// Deterministic simulator core for n-west/bliss.
//
// A run is a pure function of a Plan (text).  A seed determines a plan; a plan
// determines every scheduling decision, every fault and the contents of fresh
// memory.  The code under test runs in a forked child of a pristine zygote; all
// of its file I/O under /simdisk (and, inside an operation, every relative
// path), its allocations and its entropy go through the seams in interpose.cpp.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); } // inclusive
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
    double gauss();
    template <class C> auto &pick(C &c) { return c[below(c.size())]; }
};
uint64_t mix(uint64_t a, uint64_t b);

// ---------------------------------------------------------------- plans
enum Cls { C_OPEN, C_READ, C_WRITE, C_CLOSE, C_SEEK, C_STAT, C_ALLOC, C_NEW, C_ENTROPY, C_CALLBACK, C_NCLS };
extern const char *cls_names[C_NCLS];
int cls_of(const std::string &);

struct Op {
    int id = 0;
    std::string name;
    std::map<std::string, std::string> a;
    Op() = default;
    Op(std::string n) : name(std::move(n)) {}
    Op &set(const std::string &k, const std::string &v) { a[k] = v; return *this; }
    Op &set(const std::string &k, int64_t v) { a[k] = std::to_string(v); return *this; }
    Op &setd(const std::string &k, double v);
    bool has(const std::string &k) const { return a.count(k) > 0; }
    std::string s(const std::string &k, const std::string &d = "") const { auto i = a.find(k); return i == a.end() ? d : i->second; }
    int64_t i(const std::string &k, int64_t d = 0) const { auto it = a.find(k); return it == a.end() ? d : std::stoll(it->second); }
    double d(const std::string &k, double def = 0) const { auto it = a.find(k); return it == a.end() ? def : std::stod(it->second); }
};

struct Fault {
    int op = 0;
    int cls = C_READ;
    int nth = 0;       // which call of that class within that operation (0-based)
    std::string kind;  // eio, eintr, short, eof, enospc, crash, fail, ...
    int64_t arg = 0;   // bytes for short/crash
    int sticky = 1;    // how many consecutive calls it strikes (>=1)
};

struct Plan {
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, std::string> opts;
    std::vector<Op> ops;
    std::vector<Fault> faults;
    std::vector<std::pair<int, int>> sched; // (yield number, task to switch to)
    Op &add(const std::string &name) { ops.emplace_back(name); ops.back().id = (int)ops.size() - 1; return ops.back(); }
    int64_t opt(const std::string &k, int64_t d = 0) const { auto i = opts.find(k); return i == opts.end() ? d : std::stoll(i->second); }
    std::string text() const;
    static bool parse(const std::string &, Plan &);
    uint64_t digest() const;
};

// ---------------------------------------------------------------- run results (shared memory)
constexpr int MAXOPS = 160;
// a place in the code that takes memory, within one operation (used to place faults)
struct Site { uint32_t op1, cls, key, first, pick, n; }; // op1: operation + 1, 0 = free slot; cls C_NCLS: a preemption point
constexpr int NSITES = 8192;
constexpr int NPCS = 16384; // basic blocks seen by an undisturbed run (builds with SIM_TRACE)
struct Result {
    uint32_t done;             // child reached the end of execute()
    uint32_t violated;
    char vclass[200];          // stable class, used for minimisation and known findings
    char detail[3000];
    uint64_t hash;             // hash over the event trace
    uint64_t events;           // intercepted events
    uint32_t calls[MAXOPS][C_NCLS]; // calls per op and class (used to place faults)
    uint32_t fired[MAXOPS];    // faults fired per index in plan.faults
    uint32_t checks;           // oracle comparisons made
    uint32_t yields, switches;
    uint32_t nleft;
    uint64_t left[8];          // places where tasks were preempted (place left, place resumed)
    uint32_t probes[32];       // property specific reach probes
    uint64_t bytes_read, bytes_written;
    uint32_t tracelen;
    char trace[6000];          // textual trace (prefix)
    uint32_t nsites;
    Site sites[NSITES];
    uint32_t npcs;
    Site pcs[NPCS];
};
extern Result *R; // result area of this run

// ---------------------------------------------------------------- run-time context (child side)
void begin_run(const Plan &p, bool verbose);
[[noreturn]] void finish_run();
[[noreturn]] void violate(const std::string &vclass, const std::string &detail);
void note(const std::string &text);           // goes into trace and hash
void hash_bytes(const void *p, size_t n);
inline void checked() { ++R->checks; }
inline void probe(int i) { if (i < 32) ++R->probes[i]; }
extern const Plan *plan;

// Code under test runs only inside an OpScope; harness code inside a HarnessScope.
struct OpScope {
    int prev, prev_h;
    explicit OpScope(int op, bool faults = true);
    ~OpScope();
};
struct HarnessScope {
    HarnessScope();
    ~HarnessScope();
};
bool fault_fired_in_op(int op);     // since the last OpScope for that op began
int current_op();
bool hard_fault_in_op(int op);       // same, and not merely a split or interrupted transfer
int total_faults_fired();
std::string fired_kinds_in_op(int op); // kinds that fired during the last execution of the op
void set_faults_enabled(bool);
void stack_junk(uint64_t seed);
uint64_t step_bound();

// outcome of running code under test
struct Outcome {
    bool threw = false;
    std::string what;
    bool is_logic = false;
};
Outcome guarded_(void (*f)(void *), void *ctx);
template <class F> Outcome guarded(F &&f) { // catches everything the code under test may throw
    return guarded_([](void *c) { (*(std::remove_reference_t<F> *)c)(); }, (void *)&f);
}

// ---------------------------------------------------------------- virtual disk
struct VFile {
    std::string path;
    std::vector<uint8_t> bytes;
    uint64_t ino;
};
std::shared_ptr<VFile> disk_get(const std::string &path); // nullptr if absent
std::shared_ptr<VFile> disk_put(const std::string &path, const std::vector<uint8_t> &bytes);
void disk_remove(const std::string &path);
std::vector<std::string> disk_list();
std::string disk_abs(const std::string &path);
int open_sim_fds();

// ---------------------------------------------------------------- memory accounting
struct MemStat { int64_t n_new, b_new, n_arr, b_arr, n_mal, b_mal; };
MemStat mem_live();
size_t block_size(const void *p); // of a block handed out; 0 when p is not the start of one
void leak_trace(bool on); // debugging aid: remember where blocks are taken
void leak_report();       // print those still live
void set_junk_seed(uint64_t);

// ---------------------------------------------------------------- entropy seam
void entropy_set(std::vector<uint32_t> values); // successive values delivered; repeats last

// ---------------------------------------------------------------- tasks (real threads, one runs at a time)
struct TaskSet {
    // runs the tasks under the plan's schedule; returns for each task whether it finished (false: crashed)
    static std::vector<bool> run(std::vector<std::function<void()>> tasks, bool preempt);
};
int current_task();

// ---------------------------------------------------------------- reference server
// The server is a pristine fork of the run child; each request is served by a
// fresh fork of it, under a different junk seed and without faults.
using RefFn = std::function<std::string(const std::string &)>;
void ref_start(RefFn fn);
std::string ref_ask(const std::string &req); // memoised
void ref_share_for(uint64_t key); // (parent side) answers are shared by runs of the same key

// ---------------------------------------------------------------- properties
struct Property {
    const char *id;
    const char *what; // one line
    std::function<Plan(uint64_t seed, bool thorough)> generate;
    std::function<void(const Plan &)> execute;
    // fault kinds usable per class, with weights by repetition
    std::map<int, std::vector<std::string>> kinds;
    // probability that a generated plan is also run with faults, and how many fault runs per plan
    int fault_runs = 2;
    int max_faults = 2;
    bool schedules = false;         // sample preemptions
    int sched_runs = 0;
    int quick_plans = 400, thorough_plans = 20000;
    std::function<bool(const Op &)> faultable; // which ops may receive faults (default: all)
    std::function<bool(const Op &, int)> class_ok; // narrows which classes an op may receive
    std::vector<const char *> probe_names;
    std::string real_components, stub_components;
    std::string rule;
};
std::vector<Property> &properties();
struct Register { Register(Property p) { properties().push_back(std::move(p)); } };

std::string fmt_double(double);
std::string strf(const char *f, ...) __attribute__((format(printf, 1, 2)));
std::vector<std::string> split(const std::string &s, char c);
} // namespace sim

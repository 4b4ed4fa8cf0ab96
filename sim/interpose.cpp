// The seams: symbols defined here override libc / libstdc++ for the whole process
// (the executable is linked -rdynamic, so HDF5, Cap'n Proto, libstdc++ resolve here).
#include "sim.hpp"

#include <cerrno>
#include <execinfo.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <malloc.h>
#include <new>
#include <pthread.h>
#include <random>
#include <semaphore.h>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <unistd.h>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

namespace sim {

Result *R = nullptr;
const Plan *plan = nullptr;
const char *cls_names[C_NCLS] = {"open", "read", "write", "close", "seek", "stat", "alloc", "new", "entropy", "callback"};
int cls_of(const std::string &s) {
    for (int i = 0; i < C_NCLS; ++i)
        if (s == cls_names[i]) return i;
    return -1;
}

// ------------------------------------------------------------------ thread state
static thread_local int t_op = -1;      // operation being executed, -1 outside
static thread_local int t_harness = 0;  // >0: harness code running inside an operation
static thread_local bool t_faults = true;
static thread_local int t_task = -1;
static thread_local int t_noyield = 0;
static inline bool in_sut() { return t_op >= 0 && t_harness == 0; }
int current_task() { return t_task; }

static bool g_faults_on = true;
void set_faults_enabled(bool b) { g_faults_on = b; }

// ------------------------------------------------------------------ address ranges
struct Range { uintptr_t lo, hi; };
static Range exe_range;
static Range hdf_ranges[8];
static int n_hdf = 0;
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
    static bool first = true;
    uintptr_t lo = ~0ul, hi = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) {
            uintptr_t a = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            if (a < lo) lo = a;
            if (a + i->dlpi_phdr[k].p_memsz > hi) hi = a + i->dlpi_phdr[k].p_memsz;
        }
    if (first) { exe_range = {lo, hi}; first = false; }
    else if (i->dlpi_name && strstr(i->dlpi_name, "hdf5") && n_hdf < 8) hdf_ranges[n_hdf++] = {lo, hi};
    return 0;
}
static bool in_exe(void *p) { return (uintptr_t)p >= exe_range.lo && (uintptr_t)p < exe_range.hi; }
static bool in_hdf(void *p) {
    for (int i = 0; i < n_hdf; ++i)
        if ((uintptr_t)p >= hdf_ranges[i].lo && (uintptr_t)p < hdf_ranges[i].hi) return true;
    return false;
}
__attribute__((constructor)) static void init_ranges() { dl_iterate_phdr(phdr_cb, nullptr); }

// ------------------------------------------------------------------ trace
static uint64_t g_hash = 1469598103934665603ull;
static bool g_verbose = false;
void hash_bytes(const void *p, size_t n) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; ++i) { g_hash ^= b[i]; g_hash *= 1099511628211ull; }
    if (R) R->hash = g_hash;
}
static void trace_line(const char *s, size_t n) {
    hash_bytes(s, n);
    if (!R) return;
    size_t room = sizeof(R->trace) - 1 - R->tracelen;
    size_t m = n < room ? n : room;
    memcpy(R->trace + R->tracelen, s, m);
    R->tracelen += m;
    R->trace[R->tracelen] = 0;
    if (g_verbose) { (void)!syscall(SYS_write, 2, s, n); }
}
uint64_t step_bound() { return 6000000; }
static void event(const char *what, const char *path, long n, long res) {
    if (!R) return;
    ++R->events;
    char buf[400];
    int k = snprintf(buf, sizeof buf, "%d.%d %s %s %ld=%ld\n", t_task, t_op, what, path, n, res);
    if (k > (int)sizeof buf) k = sizeof buf;
    trace_line(buf, k);
    if (R->events > step_bound()) { t_harness++; violate("no-progress", "more than " + std::to_string(step_bound()) + " simulated events in one run"); }
}
void note(const std::string &t) {
    HarnessScope h;
    std::string s = "# " + t + "\n";
    trace_line(s.data(), s.size());
}

// ------------------------------------------------------------------ faults
static uint32_t op_calls[MAXOPS][C_NCLS];
static bool op_fired[MAXOPS], op_hard[MAXOPS];
static char op_fired_kinds[MAXOPS][64];
static int g_fired_total = 0;
void maybe_yield(void *caller, size_t size); // a point at which another task may be given the processor
// Undisturbed runs record from where in the code memory is taken, so that faults can be placed
// by place as well as by count: an allocation made once is then as likely to fail as one in a loop.
static void note_site(int cls, uint32_t n, size_t size, void *caller) {
    if (!R || R->nsites >= NSITES * 3 / 4 || !plan || !plan->faults.empty() || !plan->sched.empty()) return;
    static uint8_t seen[4096];
    uint32_t key = (uint32_t)mix((uintptr_t)caller - exe_range.lo, (uint64_t)t_op * 64 + cls * 8 + (size ? 64 - __builtin_clzll(size) : 0));
    uint8_t &k = seen[key % 4096];
    if (k < 24) {
        ++k;
        ++t_harness;
        void *b[14];
        int m = backtrace(b, 14);
        --t_harness;
        for (int i = 3; i < m; ++i) if (in_exe(b[i])) key = (uint32_t)mix(key, (uintptr_t)b[i] - exe_range.lo);
    }
    for (uint32_t i = key % NSITES;; i = (i + 1) % NSITES) {
        Site &s = R->sites[i];
        if (!s.op1) { s = {(uint32_t)t_op + 1, (uint32_t)cls, key, n, n, 1}; ++R->nsites; return; }
        if (s.op1 == (uint32_t)t_op + 1 && s.cls == (uint32_t)cls && s.key == key) {
            if (mix(key, n) % ++s.n == 0) s.pick = n;
            return;
        }
    }
}
static const Fault *fault_for(int cls, size_t size = 0, void *caller = nullptr) {
    if (!in_sut() || t_op >= MAXOPS) return nullptr;
    uint32_t n = op_calls[t_op][cls]++;
    if (caller) note_site(cls, n, size, caller);
    if (R && R->calls[t_op][cls] < n + 1) R->calls[t_op][cls] = n + 1;
    if (!g_faults_on || !t_faults || !plan) return nullptr;
    for (size_t i = 0; i < plan->faults.size(); ++i) {
        const Fault &f = plan->faults[i];
        if (f.op == t_op && f.cls == cls && (int)n >= f.nth && (int)n < f.nth + f.sticky) {
            if (R && i < MAXOPS) ++R->fired[i];
            op_fired[t_op] = true;
            if (f.kind != "short" && f.kind != "eintr") op_hard[t_op] = true;
            ++g_fired_total;
            {
                size_t have = strlen(op_fired_kinds[t_op]);
                snprintf(op_fired_kinds[t_op] + have, sizeof op_fired_kinds[t_op] - have, "%s%s,", f.cls == C_NEW ? "new:" : "", f.kind.c_str());
            }
            return &f;
        }
    }
    return nullptr;
}
bool fault_fired_in_op(int op) { return op >= 0 && op < MAXOPS && op_fired[op]; }
int current_op() { return t_op; }
bool hard_fault_in_op(int op) { return op >= 0 && op < MAXOPS && op_hard[op]; }
std::string fired_kinds_in_op(int op) { return op >= 0 && op < MAXOPS ? op_fired_kinds[op] : ""; }
int total_faults_fired() { return g_fired_total; }

OpScope::OpScope(int op, bool faults) : prev(t_op), prev_h(t_harness) {
    t_harness = 0;
    t_op = op;
    t_faults = faults;
    if (op >= 0 && op < MAXOPS) {
        memset(op_calls[op], 0, sizeof op_calls[op]);
        op_fired[op] = op_hard[op] = false;
        op_fired_kinds[op][0] = 0;
    }
    event("begin", faults ? "" : "nofault", op, 0);
}
OpScope::~OpScope() {
    event("end", "", t_op, 0);
    t_op = prev;
    t_faults = true;
    t_harness = prev_h;
}
HarnessScope::HarnessScope() { ++t_harness; }
HarnessScope::~HarnessScope() { --t_harness; }

// ------------------------------------------------------------------ junk memory
static uint64_t g_junk = 0x1234567;
static int g_junk_mode = 0;
void set_junk_seed(uint64_t s) { g_junk = s * 0x9e3779b97f4a7c15ull + 1; g_junk_mode = s % 4; }
static void junk_fill(void *p, size_t n) {
    if (g_junk_mode == 0) { memset(p, 0xff, n < (1 << 20) ? n : (1 << 20)); return; } // NaN floats, -1 ints
    if (n > (1 << 20)) n = 1 << 20;
    uint64_t x = g_junk;
    g_junk = g_junk * 6364136223846793005ull + 1442695040888963407ull;
    uint8_t *b = (uint8_t *)p;
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        memcpy(b + i, &x, 8);
    }
    for (; i < n; ++i) b[i] = (uint8_t)(x >> (8 * (i & 7)));
}
__attribute__((noinline)) void stack_junk(uint64_t seed) {
    volatile uint64_t buf[3000];
    uint64_t x = seed * 0x9e3779b97f4a7c15ull + 77;
    for (size_t i = 0; i < 3000; ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; buf[i] = x; }
    asm volatile("" ::"r"(buf) : "memory");
}

// ------------------------------------------------------------------ live table
enum { K_NEW = 1, K_ARR = 2, K_MAL = 3, K_HDF = 4, K_HARNESS = 5 };
// Blocks of the code under test lie between zones of known bytes, which must not
// be written and whose contents do not depend on what else the process holds.
struct Live { uintptr_t p; uint32_t size; uint32_t zone_seed; uint16_t front, back; uint8_t kind; };
constexpr size_t TBL = 1 << 18;
static Live tbl[TBL];
static size_t tbl_used = 0;
static MemStat live;
constexpr uintptr_t TOMB = 1;
static inline size_t slot(uintptr_t p) { return (p * 0x9e3779b97f4a7c15ull) >> 46; }
static bool track(void *p, size_t n, int kind, size_t front = 0, size_t back = 0, uint32_t seed = 0) {
    if (tbl_used > TBL * 3 / 4) return false;
    size_t i = slot((uintptr_t)p) & (TBL - 1);
    while (tbl[i].p > TOMB) i = (i + 1) & (TBL - 1);
    if (tbl[i].p == 0) ++tbl_used;
    tbl[i] = {(uintptr_t)p, (uint32_t)n, seed, (uint16_t)front, (uint16_t)back, (uint8_t)kind};
    if (kind == K_NEW) { ++live.n_new; live.b_new += n; }
    else if (kind == K_ARR) { ++live.n_arr; live.b_arr += n; }
    else if (kind == K_MAL) { ++live.n_mal; live.b_mal += n; }
    return true;
}
static Live *find(void *p) {
    size_t i = slot((uintptr_t)p) & (TBL - 1);
    while (tbl[i].p) {
        if (tbl[i].p == (uintptr_t)p) return &tbl[i];
        i = (i + 1) & (TBL - 1);
    }
    return nullptr;
}
static void untrack(Live *l) {
    if (l->kind == K_NEW) { --live.n_new; live.b_new -= l->size; }
    else if (l->kind == K_ARR) { --live.n_arr; live.b_arr -= l->size; }
    else if (l->kind == K_MAL) { --live.n_mal; live.b_mal -= l->size; }
    l->p = TOMB;
}
MemStat mem_live() { return live; }
size_t block_size(const void *p) { Live *l = find((void *)p); return l ? l->size : 0; }
// debugging aid (SIM_LEAK=1): where the live blocks were taken
static std::map<uintptr_t, std::vector<void *>> *g_where;
void leak_trace(bool on) {
    HarnessScope h;
    if (on && !g_where) g_where = new std::map<uintptr_t, std::vector<void *>>();
    else if (!on) g_where = nullptr;
}
static void where_taken(void *p) {
    if (!g_where || t_harness) return;
    ++t_harness;
    void *b[24];
    int n = backtrace(b, 24);
    (*g_where)[(uintptr_t)p] = std::vector<void *>(b, b + n);
    --t_harness;
}
void leak_report() {
    HarnessScope h;
    if (!g_where) return;
    std::map<std::string, int> seen;
    for (auto &k : *g_where) {
        Live *l = find((void *)k.first);
        if (!l) continue;
        char **s = backtrace_symbols(k.second.data(), (int)k.second.size());
        std::string t = strf("kind %d size %u", l->kind, l->size);
        for (size_t i = 1; i < k.second.size() && i < 20; ++i) t += std::string("\n    ") + s[i];
        ++seen[t];
    }
    for (auto &k : seen) { std::string t = strf("%d x ", k.second) + k.first + "\n"; (void)!syscall(SYS_write, 2, t.data(), t.size()); }
}
static bool zone(uint8_t *b, size_t n, uint32_t seed, bool check) {
    uint32_t x = seed * 2654435761u + 12345u;
    size_t i = 0;
    for (; i + 4 <= n; i += 4) {
        x = x * 1664525u + 1013904223u;
        uint32_t v = x ^ (x >> 15);
        if (!check) memcpy(b + i, &v, 4);
        else if (memcmp(b + i, &v, 4)) return false;
    }
    for (; i < n; ++i) { if (!check) b[i] = 0xA5; else if (b[i] != 0xA5) return false; }
    return true;
}
static void check_zones(Live *l) {
    if (!zone((uint8_t *)l->p - l->front, l->front, l->zone_seed, true) || !zone((uint8_t *)l->p + l->size, l->back, l->zone_seed + 1, true)) {
        ++t_harness;
        violate("memory:overrun", strf("write outside a %u byte %s block", l->size, l->kind == K_NEW ? "object" : "array"));
    }
}
static void *alloc(size_t n, size_t align, int kind) {
    bool sut = in_sut();
    if (!sut && kind == K_ARR) kind = K_HARNESS; // the harness's own arrays: not counted, but surrounded alike
    size_t front = 0, back = 0;
    if (kind == K_ARR || kind == K_HARNESS) { front = 512; back = 512; }
    else if (sut && kind == K_NEW) { front = align > 64 ? align : 64; back = 64; }
    if (align) front = (front + align - 1) / align * align;
    if (front > 60000 || n > (1u << 31) || tbl_used > TBL * 3 / 4) front = back = 0;
    void *base = align ? __libc_memalign(align, n + front + back) : __libc_malloc(n + front + back);
    if (!base || (!sut && !front)) return base;
    uint8_t *p = (uint8_t *)base + front;
    if (sut) junk_fill(p, n);
    uint32_t seed = sut ? (uint32_t)(g_junk >> 17) : 99;
    zone((uint8_t *)base, front, seed, false);
    zone(p + n, back, seed + 1, false);
    track(p, n, kind, front, back, seed);
    where_taken(p);
    return p;
}
static void dealloc(void *p) {
    if (!p) return;
    if (Live *l = find(p)) {
        if (l->front || l->back) check_zones(l);
        size_t n = l->size;
        p = (uint8_t *)p - l->front;
        size_t total = n + l->front + l->back;
        untrack(l);
        memset(p, 0xDD, total < 65536 ? total : 65536);
    }
    __libc_free(p);
}

} // namespace sim
using namespace sim;

extern "C" {
// HDF5 keeps its own types, free lists and conversion paths for as long as it
// is loaded; the blocks it hands out (variable-length strings) do not come from those
static int mal_kind(void *caller) {
    if (!in_sut() || !in_hdf(caller)) return K_MAL;
    static uintptr_t fl[2], mm[2];
    if (!fl[1]) {
        ++t_harness;
        auto span = [](uintptr_t *r, std::initializer_list<const char *> l) {
            for (auto *n : l)
                if (auto a = (uintptr_t)dlsym(RTLD_DEFAULT, n)) { if (!r[0] || a < r[0]) r[0] = a; if (a + 0x400 > r[1]) r[1] = a + 0x400; }
        };
        span(fl, {"H5FL_blk_free_block_avail", "H5FL_reg_free", "H5FL_term_package", "H5FL_reg_malloc", "H5FL_blk_malloc", "H5FL_arr_realloc"});
        span(mm, {"H5MM_malloc", "H5MM_calloc", "H5MM_realloc", "H5MM_strdup"});
        --t_harness;
    }
    auto c = (uintptr_t)caller;
    return (c >= fl[0] && c < fl[1]) || (c >= mm[0] && c < mm[1]) ? K_HDF : K_MAL;
}
void *malloc(size_t n) { return alloc(n, 0, mal_kind(__builtin_return_address(0))); }
void free(void *p) { int e = errno; dealloc(p); errno = e; }
void *calloc(size_t a, size_t b) {
    void *p = __libc_calloc(a, b);
    if (p && in_sut()) track(p, a * b, mal_kind(__builtin_return_address(0)));
    return p;
}
void *realloc(void *p, size_t n) {
    if (!p) return alloc(n, 0, mal_kind(__builtin_return_address(0)));
    Live *l = find(p);
    if (!l) return __libc_realloc(p, n);
    size_t old = l->size;
    int kind = l->kind;
    void *q = alloc(n, 0, kind);
    if (!q) return nullptr;
    memcpy(q, p, old < n ? old : n);
    if (!in_sut() && !find(q)) track(q, n, kind);
    dealloc(p);
    return q;
}
void *reallocarray(void *p, size_t a, size_t b) { return realloc(p, a * b); }
void *memalign(size_t al, size_t n) { return alloc(n, al, K_MAL); }
static bool array_alloc_fails(void *caller, size_t n) {
    if (!in_sut() || !in_exe(caller)) return false;
    maybe_yield(caller, n);
    const Fault *f = fault_for(C_ALLOC, n, caller);
    return f != nullptr;
}
int posix_memalign(void **out, size_t al, size_t n) {
    bool fail = array_alloc_fails(__builtin_return_address(0), n);
    if (in_sut()) event("alloc", "", (long)n, fail ? -1 : 0);
    if (fail) return ENOMEM;
    if ((ssize_t)n < 0) return ENOMEM;
    void *p = alloc(n, al, K_ARR);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void *aligned_alloc(size_t al, size_t n) {
    bool fail = array_alloc_fails(__builtin_return_address(0), n);
    if (in_sut()) event("alloc", "", (long)n, fail ? -1 : 0);
    if (fail || (ssize_t)n < 0) { errno = ENOMEM; return nullptr; }
    return alloc(n, al, K_ARR);
}
} // extern C

static void *do_new(size_t n, size_t al, void *caller, bool nothrow) {
    if (in_sut() && in_exe(caller)) {
        maybe_yield(caller, n);
        if (al) { // an aligned new is an array allocation
            if (fault_for(C_ALLOC, n, caller)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
        } else if (fault_for(C_NEW, n, caller)) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    }
    void *p = (ssize_t)n < 0 ? nullptr : alloc(n ? n : 1, al, K_NEW);
    if (!p && !nothrow) throw std::bad_alloc();
    return p;
}
#define CALLER __builtin_return_address(0)
void *operator new(size_t n) { return do_new(n, 0, CALLER, false); }
void *operator new[](size_t n) { return do_new(n, 0, CALLER, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, 0, CALLER, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, 0, CALLER, true); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t)a, CALLER, false); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t)a, CALLER, false); }
void operator delete(void *p) noexcept { dealloc(p); }
void operator delete[](void *p) noexcept { dealloc(p); }
void operator delete(void *p, size_t) noexcept { dealloc(p); }
void operator delete[](void *p, size_t) noexcept { dealloc(p); }
void operator delete(void *p, std::align_val_t) noexcept { dealloc(p); }
void operator delete[](void *p, std::align_val_t) noexcept { dealloc(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { dealloc(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { dealloc(p); }

// ------------------------------------------------------------------ virtual disk
namespace sim {
struct OpenFd {
    std::shared_ptr<VFile> f;
    off_t pos = 0;
    int flags = 0;
    int task = -1;
    bool wrote = false;
};
constexpr int MAXFD = 1024;
static OpenFd *fdtab[MAXFD];
static std::map<std::string, std::shared_ptr<VFile>> *g_disk;
static uint64_t g_ino = 100;
static std::map<std::string, std::shared_ptr<VFile>> &disk() {
    if (!g_disk) g_disk = new std::map<std::string, std::shared_ptr<VFile>>();
    return *g_disk;
}
static const char *PREFIX = "/simdisk/";
std::string disk_abs(const std::string &p) {
    if (p.rfind(PREFIX, 0) == 0) return p;
    if (!p.empty() && p[0] == '/') return p;
    std::string q = p;
    while (q.rfind("./", 0) == 0) q = q.substr(2);
    return "/simdisk/cwd/" + q;
}
static bool is_sim_path(const char *p) {
    if (!p) return false;
    if (strncmp(p, PREFIX, 9) == 0 || strcmp(p, "/simdisk") == 0) return true;
    return in_sut() && p[0] != '/' && p[0] != 0;
}
static bool is_sim_dir(const std::string &p) { return p == "/simdisk" || p == "/simdisk/" || p == "/simdisk/cwd" || p == "/simdisk/cwd/" || p == "/simdisk/cwd/."; }
std::shared_ptr<VFile> disk_get(const std::string &path) {
    HarnessScope h;
    auto i = disk().find(disk_abs(path));
    return i == disk().end() ? nullptr : i->second;
}
std::shared_ptr<VFile> disk_put(const std::string &path, const std::vector<uint8_t> &bytes) {
    HarnessScope h;
    auto f = std::make_shared<VFile>();
    f->path = disk_abs(path);
    f->bytes = bytes;
    f->ino = g_ino++;
    disk()[f->path] = f;
    return f;
}
void disk_remove(const std::string &path) { HarnessScope h; disk().erase(disk_abs(path)); }
std::vector<std::string> disk_list() {
    HarnessScope h;
    std::vector<std::string> v;
    for (auto &k : disk()) v.push_back(k.first);
    return v;
}
int open_sim_fds() {
    int n = 0;
    for (int i = 0; i < MAXFD; ++i) n += fdtab[i] != nullptr;
    return n;
}

static int err_of(const std::string &k) {
    if (k == "eio") return EIO;
    if (k == "enospc") return ENOSPC;
    if (k == "eintr") return EINTR;
    if (k == "enoent") return ENOENT;
    if (k == "eacces") return EACCES;
    if (k == "emfile") return EMFILE;
    if (k == "edquot") return EDQUOT;
    if (k == "enomem") return ENOMEM;
    return EIO;
}
static OpenFd *sfd(int fd) { return fd >= 0 && fd < MAXFD ? fdtab[fd] : nullptr; }
static void io_yield(void *caller) { if (!in_hdf(caller)) maybe_yield(caller, 0); }
[[noreturn]] static void crash_here();

static int sim_open(const char *path, int flags, void *caller) {
    io_yield(caller);
    const Fault *f = fault_for(C_OPEN);
    std::string p; { HarnessScope h; p = disk_abs(path); }
    if (f) { event("open", p.c_str(), flags, -1); errno = err_of(f->kind); return -1; }
    HarnessScope h;
    auto it = disk().find(p);
    if (it == disk().end()) {
        if (!(flags & O_CREAT)) { event("open", p.c_str(), flags, -2); errno = is_sim_dir(p) ? EISDIR : ENOENT; return -1; }
        disk_put(p, {});
        it = disk().find(p);
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
        event("open", p.c_str(), flags, -3);
        errno = EEXIST;
        return -1;
    }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) it->second->bytes.clear();
    int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
    if (fd < 0 || fd >= MAXFD) { if (fd >= 0) syscall(SYS_close, fd); errno = EMFILE; return -1; }
    fdtab[fd] = new OpenFd{it->second, 0, flags, t_task};
    event("open", p.c_str(), flags, 0);
    return fd;
}
static int sim_close(int fd, void *caller) {
    io_yield(caller);
    OpenFd *o = fdtab[fd];
    const Fault *f = fault_for(C_CLOSE);
    {
        HarnessScope h;
        // a failing close of a written file means the storage could not keep the last bytes
        if (f && o->wrote && (o->flags & O_ACCMODE) != O_RDONLY) {
            size_t lose = 1 + (size_t)f->arg % 512;
            auto &b = o->f->bytes;
            b.resize(b.size() > lose ? b.size() - lose : 0);
        }
        event("close", o->f->path.c_str(), 0, f ? -1 : 0);
        delete o;
    }
    fdtab[fd] = nullptr;
    syscall(SYS_close, fd);
    if (f) { errno = err_of(f->kind); return -1; }
    return 0;
}
static ssize_t sim_pread_at(OpenFd *o, void *buf, size_t n, off_t at, bool advance, void *caller) {
    io_yield(caller);
    const Fault *f = fault_for(C_READ);
    if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    size_t avail = at < (off_t)o->f->bytes.size() ? o->f->bytes.size() - at : 0;
    size_t m = n < avail ? n : avail;
    if (f) {
        if (f->kind == "short") { if (m > 1) { size_t k = 1 + (size_t)(f->arg < 0 ? -f->arg : f->arg) % (m - 1); m = k < m ? k : m; } }
        else if (f->kind == "eof") m = 0;
        else { event("read", o->f->path.c_str(), (long)n, -1); errno = err_of(f->kind); return -1; }
    }
    memcpy(buf, o->f->bytes.data() + at, m);
    if (advance) o->pos = at + m;
    if (R) R->bytes_read += m;
    event("read", o->f->path.c_str(), (long)n, (long)m);
    return m;
}
static ssize_t sim_write_at(OpenFd *o, const void *buf, size_t n, off_t at, bool advance, void *caller) {
    io_yield(caller);
    const Fault *f = fault_for(C_WRITE);
    if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    size_t m = n;
    bool crash = false;
    if (f) {
        if (f->kind == "short") { if (m > 1) m = 1 + (size_t)f->arg % (m - 1); }
        else if (f->kind == "crash") { m = n ? (size_t)f->arg % (n + 1) : 0; crash = true; }
        else { event("write", o->f->path.c_str(), (long)n, -1); errno = err_of(f->kind); return -1; }
    }
    {
        HarnessScope h;
        if (o->flags & O_APPEND) at = o->f->bytes.size();
        if (o->f->bytes.size() < at + m) o->f->bytes.resize(at + m, 0);
        memcpy(o->f->bytes.data() + at, buf, m);
    }
    if (advance) o->pos = at + m;
    if (m) o->wrote = true;
    if (R) R->bytes_written += m;
    event("write", o->f->path.c_str(), (long)n, (long)m);
    if (crash) crash_here();
    return m;
}
static off_t sim_lseek(OpenFd *o, off_t off, int wh) {
    const Fault *f = fault_for(C_SEEK);
    off_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? o->pos : (off_t)o->f->bytes.size();
    if (f) { event("seek", o->f->path.c_str(), off, -1); errno = err_of(f->kind); return -1; }
    if (base + off < 0) { errno = EINVAL; return -1; }
    o->pos = base + off;
    event("seek", o->f->path.c_str(), off, o->pos);
    return o->pos;
}
static void fill_stat(struct stat *st, const VFile *f) {
    memset(st, 0, sizeof *st);
    if (!f) { st->st_mode = S_IFDIR | 0755; st->st_ino = 2; st->st_dev = 77; st->st_nlink = 2; return; }
    st->st_mode = S_IFREG | 0644;
    st->st_size = f->bytes.size();
    st->st_ino = f->ino;
    st->st_dev = 77;
    st->st_nlink = 1;
    st->st_blksize = 4096;
    st->st_blocks = (f->bytes.size() + 511) / 512;
}
static int sim_stat(const char *path, struct stat *st) {
    const Fault *f = fault_for(C_STAT);
    HarnessScope h;
    std::string p = disk_abs(path);
    if (f) { event("stat", p.c_str(), 0, -1); errno = err_of(f->kind); return -1; }
    auto it = disk().find(p);
    if (it == disk().end()) {
        if (is_sim_dir(p)) { fill_stat(st, nullptr); return 0; }
        event("stat", p.c_str(), 0, -2);
        errno = ENOENT;
        return -1;
    }
    fill_stat(st, it->second.get());
    event("stat", p.c_str(), 0, 0);
    return 0;
}
static int sim_fstat(OpenFd *o, struct stat *st) {
    const Fault *f = fault_for(C_STAT);
    if (f) { event("fstat", o->f->path.c_str(), 0, -1); errno = err_of(f->kind); return -1; }
    fill_stat(st, o->f.get());
    event("fstat", o->f->path.c_str(), 0, (long)st->st_size);
    return 0;
}

template <class F> static F real(const char *name) {
    return (F)dlsym(RTLD_NEXT, name);
}
} // namespace sim

extern "C" {

int open(const char *path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
    if (is_sim_path(path)) return sim_open(path, flags, CALLER);
    return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
    if (is_sim_path(path)) return sim_open(path, flags, CALLER);
    return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int openat(int dfd, const char *path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
    if (is_sim_path(path) && (dfd == AT_FDCWD || path[0] == '/')) return sim_open(path, flags, CALLER);
    return (int)syscall(SYS_openat, dfd, path, flags, mode);
}
int openat64(int dfd, const char *path, int flags, ...) {
    mode_t mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); mode = va_arg(a, mode_t); va_end(a); }
    if (is_sim_path(path) && (dfd == AT_FDCWD || path[0] == '/')) return sim_open(path, flags, CALLER);
    return (int)syscall(SYS_openat, dfd, path, flags, mode);
}
int __open_2(const char *path, int flags) { return open(path, flags); }
int __open64_2(const char *path, int flags) { return open(path, flags); }
int creat(const char *path, mode_t mode) { return open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int close(int fd) {
    if (!sfd(fd) && fd > 2) io_yield(CALLER); // closing what is not open: by the time it happens another task may own that number
    if (sfd(fd)) return sim_close(fd, CALLER);
    return (int)syscall(SYS_close, fd);
}
ssize_t read(int fd, void *b, size_t n) {
    if (OpenFd *o = sfd(fd)) return sim_pread_at(o, b, n, o->pos, true, CALLER);
    return syscall(SYS_read, fd, b, n);
}
ssize_t __read_chk(int fd, void *b, size_t n, size_t) { return read(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t at) {
    if (OpenFd *o = sfd(fd)) return sim_pread_at(o, b, n, at, false, CALLER);
    return syscall(SYS_pread64, fd, b, n, at);
}
ssize_t pread64(int fd, void *b, size_t n, off_t at) {
    if (OpenFd *o = sfd(fd)) return sim_pread_at(o, b, n, at, false, CALLER);
    return syscall(SYS_pread64, fd, b, n, at);
}
ssize_t readv(int fd, const struct iovec *v, int c) {
    OpenFd *o = sfd(fd);
    if (!o) return syscall(SYS_readv, fd, v, c);
    ssize_t tot = 0;
    for (int i = 0; i < c; ++i) {
        if (v[i].iov_len == 0) continue;
        ssize_t r = sim_pread_at(o, v[i].iov_base, v[i].iov_len, o->pos, true, CALLER);
        if (r < 0) return tot ? tot : -1;
        tot += r;
        if ((size_t)r < v[i].iov_len) break;
    }
    return tot;
}
ssize_t write(int fd, const void *b, size_t n) {
    if (OpenFd *o = sfd(fd)) return sim_write_at(o, b, n, o->pos, true, CALLER);
    return syscall(SYS_write, fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t at) {
    if (OpenFd *o = sfd(fd)) return sim_write_at(o, b, n, at, false, CALLER);
    return syscall(SYS_pwrite64, fd, b, n, at);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off_t at) {
    if (OpenFd *o = sfd(fd)) return sim_write_at(o, b, n, at, false, CALLER);
    return syscall(SYS_pwrite64, fd, b, n, at);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
    OpenFd *o = sfd(fd);
    if (!o) return syscall(SYS_writev, fd, v, c);
    // one writev is one write event: gather, so that short writes may end inside any segment
    std::vector<uint8_t> *buf;
    { HarnessScope h; buf = new std::vector<uint8_t>(); for (int i = 0; i < c; ++i) buf->insert(buf->end(), (uint8_t *)v[i].iov_base, (uint8_t *)v[i].iov_base + v[i].iov_len); }
    ssize_t r = sim_write_at(o, buf->data(), buf->size(), o->pos, true, CALLER);
    int e = errno;
    { HarnessScope h; delete buf; }
    errno = e;
    return r;
}
off_t lseek(int fd, off_t off, int wh) {
    if (OpenFd *o = sfd(fd)) return sim_lseek(o, off, wh);
    return syscall(SYS_lseek, fd, off, wh);
}
off64_t lseek64(int fd, off64_t off, int wh) {
    if (OpenFd *o = sfd(fd)) return sim_lseek(o, off, wh);
    return syscall(SYS_lseek, fd, off, wh);
}
int stat(const char *p, struct stat *st) { return is_sim_path(p) ? sim_stat(p, st) : (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int stat64(const char *p, struct stat64 *st) { return is_sim_path(p) ? sim_stat(p, (struct stat *)st) : (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0); }
int lstat(const char *p, struct stat *st) { return is_sim_path(p) ? sim_stat(p, st) : (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int lstat64(const char *p, struct stat64 *st) { return is_sim_path(p) ? sim_stat(p, (struct stat *)st) : (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int fstat(int fd, struct stat *st) { if (OpenFd *o = sfd(fd)) return sim_fstat(o, st); return (int)syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64 *st) { if (OpenFd *o = sfd(fd)) return sim_fstat(o, (struct stat *)st); return (int)syscall(SYS_fstat, fd, st); }
int fstatat(int d, const char *p, struct stat *st, int fl) {
    if (sfd(d) && p && !*p) return sim_fstat(sfd(d), st);
    if (is_sim_path(p) && (d == AT_FDCWD || p[0] == '/')) return sim_stat(p, st);
    return (int)syscall(SYS_newfstatat, d, p, st, fl);
}
int fstatat64(int d, const char *p, struct stat64 *st, int fl) { return fstatat(d, p, (struct stat *)st, fl); }
int access(const char *p, int m) {
    if (is_sim_path(p)) { struct stat st; return sim_stat(p, &st); }
    return (int)syscall(SYS_access, p, m);
}
int unlink(const char *p) {
    if (is_sim_path(p)) {
        HarnessScope h;
        std::string q = disk_abs(p);
        event("unlink", q.c_str(), 0, 0);
        if (!disk().erase(q)) { errno = ENOENT; return -1; }
        return 0;
    }
    return (int)syscall(SYS_unlink, p);
}
int remove(const char *p) {
    if (is_sim_path(p)) return unlink(p);
    return real<int (*)(const char *)>("remove")(p);
}
int rename(const char *a, const char *b) {
    if (is_sim_path(a) && is_sim_path(b)) {
        HarnessScope h;
        std::string x = disk_abs(a), y = disk_abs(b);
        event("rename", y.c_str(), 0, 0);
        auto i = disk().find(x);
        if (i == disk().end()) { errno = ENOENT; return -1; }
        auto f = i->second;
        disk().erase(i);
        f->path = y;
        disk()[y] = f;
        return 0;
    }
    return (int)syscall(SYS_rename, a, b);
}
int ftruncate(int fd, off_t n) {
    if (OpenFd *o = sfd(fd)) { HarnessScope h; o->f->bytes.resize(n, 0); event("ftruncate", o->f->path.c_str(), n, 0); return 0; }
    return (int)syscall(SYS_ftruncate, fd, n);
}
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fsync(int fd) { if (OpenFd *o = sfd(fd)) { event("fsync", o->f->path.c_str(), 0, 0); return 0; } return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (OpenFd *o = sfd(fd)) { event("fsync", o->f->path.c_str(), 0, 0); return 0; } return (int)syscall(SYS_fdatasync, fd); }
int flock(int fd, int op) { if (sfd(fd)) return 0; return (int)syscall(SYS_flock, fd, op); }
int fcntl(int fd, int cmd, ...) {
    va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
    if (sfd(fd) && (cmd == F_SETLK || cmd == F_SETLKW || cmd == F_GETLK)) return 0;
    if (sfd(fd) && cmd == F_GETFL) return sfd(fd)->flags;
    return (int)syscall(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    va_list a; va_start(a, cmd); long arg = va_arg(a, long); va_end(a);
    return fcntl(fd, cmd, arg);
}

// -------- stdio (libstdc++ file streams use fopen + fileno + read/write)
struct FileMap { FILE *f; int fd; };
static FileMap fmap_[64];
static ssize_t ck_read(void *c, char *b, size_t n) { return read((int)(intptr_t)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    ssize_t r = write((int)(intptr_t)c, b, n);
    return r < 0 ? 0 : r;
}
static int ck_seek(void *c, off64_t *off, int wh) {
    off_t r = lseek((int)(intptr_t)c, *off, wh);
    if (r < 0) return -1;
    *off = r;
    return 0;
}
static int ck_close(void *c) {
    for (auto &m : fmap_) if (m.f && m.fd == (int)(intptr_t)c) m.f = nullptr;
    return close((int)(intptr_t)c);
}
static FILE *sim_fopen(const char *p, const char *mode) {
    int fl = 0;
    bool plus = strchr(mode, '+');
    if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
    else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
    else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
    int fd = sim_open(p, fl, nullptr);
    if (fd < 0) return nullptr;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
    if (!f) { close(fd); return nullptr; }
    for (auto &m : fmap_) if (!m.f) { m = {f, fd}; break; }
    return f;
}
FILE *fopen(const char *p, const char *mode) {
    if (is_sim_path(p)) return sim_fopen(p, mode);
    return real<FILE *(*)(const char *, const char *)>("fopen")(p, mode);
}
FILE *fopen64(const char *p, const char *mode) {
    if (is_sim_path(p)) return sim_fopen(p, mode);
    return real<FILE *(*)(const char *, const char *)>("fopen64")(p, mode);
}
int fileno(FILE *f) {
    for (auto &m : fmap_) if (m.f && m.f == f) return m.fd;
    return real<int (*)(FILE *)>("fileno")(f);
}
FILE *fdopen(int fd, const char *mode) {
    if (sfd(fd)) {
        cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
        FILE *f = fopencookie((void *)(intptr_t)fd, mode, io);
        for (auto &m : fmap_) if (f && !m.f) { m = {f, fd}; break; }
        return f;
    }
    return real<FILE *(*)(int, const char *)>("fdopen")(fd, mode);
}

// -------- clock and OS randomness: simulated while code under test runs
static uint64_t g_clock_ns = 1700000000ull * 1000000000ull;
static uint64_t tick() { g_clock_ns += 137 * 1000 + (g_junk_mode * 7919); return g_clock_ns; }
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!in_sut()) return (int)syscall(SYS_clock_gettime, id, ts);
    uint64_t t = tick();
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval *tv, void *) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t *o) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (o) *o = ts.tv_sec;
    return ts.tv_sec;
}
} // extern "C"
namespace sim { void set_clock(uint64_t ns) { g_clock_ns = ns; } }

// ------------------------------------------------------------------ entropy
namespace sim {
static std::vector<uint32_t> *g_ent;
static size_t g_ent_i;
void entropy_set(std::vector<uint32_t> v) {
    HarnessScope h;
    if (!g_ent) g_ent = new std::vector<uint32_t>();
    *g_ent = v;
    g_ent_i = 0;
}
static uint32_t next_entropy() {
    uint32_t v = g_ent && !g_ent->empty() ? (*g_ent)[g_ent_i < g_ent->size() ? g_ent_i : g_ent->size() - 1] : 12345u;
    ++g_ent_i;
    event("entropy", "", 0, v);
    return v;
}
} // namespace sim
unsigned int std::random_device::_M_getval() {
    if (in_sut()) {
        if (fault_for(C_ENTROPY)) { event("entropy", "", 0, -1); HarnessScope h; throw std::runtime_error("random_device: simulated entropy failure"); }
        return next_entropy();
    }
    return 4;
}
extern "C" ssize_t getrandom(void *b, size_t n, unsigned fl) {
    if (!in_sut()) return syscall(SYS_getrandom, b, n, fl);
    for (size_t i = 0; i < n; ++i) ((uint8_t *)b)[i] = (uint8_t)next_entropy();
    return n;
}

namespace sim {
struct CallbackFault { int tag; };
void callback_point(int tag) {
    const Fault *f = fault_for(C_CALLBACK);
    event("callback", "", tag, f ? -1 : 0);
    if (f) throw CallbackFault{tag};
}
} // namespace sim

// ------------------------------------------------------------------ tasks
namespace sim {
struct Task {
    std::function<void()> fn;
    sem_t sem;
    pthread_t th;
    bool done = false, crashed = false, preempt = false;
    int id;
    uint32_t at = 0; // place in the code where it was last left
};
static std::vector<Task *> *g_tasks;
static sem_t g_main;
static bool g_preempt = false;
static uint32_t g_yield_no = 0;
static size_t g_sched_i = 0;
static int g_next = -1;
static uint32_t g_run_len = 0;
static uint32_t g_place = 0;
static void semw(sem_t *s) { while (sem_wait(s) != 0) {} }
static void *task_main(void *p) {
    Task *t = (Task *)p;
    semw(&t->sem);
    t_task = t->id;
    t->fn();
    t->done = true;
    sem_post(&g_main);
    return nullptr;
}
[[noreturn]] static void crash_here() {
    if (t_task < 0 || !g_tasks) { ++t_harness; violate("harness", "crash fault outside a task"); }
    Task *t = (*g_tasks)[t_task];
    t->crashed = true;
    for (int i = 0; i < MAXFD; ++i)
        if (fdtab[i] && fdtab[i]->task == t->id) { syscall(SYS_close, i); fdtab[i] = nullptr; }
    sem_post(&g_main);
    static sem_t never;
    sem_init(&never, 0, 0);
    for (;;) semw(&never);
}
static void switch_to(uint32_t y, int to) {
    if (to == t_task || to < 0 || to >= (int)g_tasks->size() || (*g_tasks)[to]->done || (*g_tasks)[to]->crashed) return;
    if (R) ++R->switches;
    event("switch", "", y, to);
    g_next = to;
    g_run_len = 0;
    Task *me = (*g_tasks)[t_task];
    me->at = g_place;
    if (R && R->nleft < 8) R->left[R->nleft++] = mix(mix(me->at, 1), (*g_tasks)[to]->at);
    sem_post(&g_main);
    semw(&me->sem);
}
static int other_task() { // the next task that can run, -1 if there is none
    for (size_t i = 1; i < g_tasks->size(); ++i) {
        int c = (t_task + (int)i) % (int)g_tasks->size();
        if (!(*g_tasks)[c]->done && !(*g_tasks)[c]->crashed) return c;
    }
    return -1;
}
static void passed(uint32_t y) {
    if (R) R->yields = g_yield_no;
    while (g_sched_i < plan->sched.size() && (uint32_t)plan->sched[g_sched_i].first < y) ++g_sched_i;
    if (g_sched_i < plan->sched.size() && (uint32_t)plan->sched[g_sched_i].first == y) switch_to(y, plan->sched[g_sched_i++].second);
    else if (++g_run_len > 30000000) { g_run_len = 0; switch_to(y, other_task()); } // a task that waits for another must not wait forever
}
void maybe_yield(void *caller, size_t size) {
    if (t_task < 0 || !g_preempt || t_noyield || t_harness) return;
    uint32_t y = g_yield_no++;
    if (caller && in_exe(caller)) note_site(C_NCLS, y, size, caller);
    if (caller) g_place = (uint32_t)((uintptr_t)caller - exe_range.lo);
    passed(y);
}
// Builds with SIM_TRACE compile bland and bliss so that every basic block calls this: tasks can then be
// preempted between any two blocks of that code, at a point named by a count and so exactly repeatable.
static void note_pc(uint32_t y, void *pc) {
    if (!R || R->npcs >= NPCS * 3 / 4 || !plan->sched.empty()) return;
    uint32_t key = (uint32_t)((uintptr_t)pc - exe_range.lo);
    for (uint32_t i = (uint32_t)mix(key, t_op) % NPCS;; i = (i + 1) % NPCS) {
        Site &s = R->pcs[i];
        if (!s.op1) { s = {(uint32_t)t_op + 1, 0, key, y, y, 1}; ++R->npcs; return; }
        if (s.op1 == (uint32_t)t_op + 1 && s.key == key) {
            if (mix(key, y) % ++s.n == 0) s.pick = y;
            return;
        }
    }
}
extern "C" void __sanitizer_cov_trace_pc() {
    if (t_task < 0 || !g_preempt || t_noyield || t_harness || t_op < 0) return;
    int e = errno;
    uint32_t y = g_yield_no++;
    note_pc(y, __builtin_return_address(0));
    g_place = (uint32_t)((uintptr_t)__builtin_return_address(0) - exe_range.lo);
    passed(y);
    errno = e;
}
std::vector<bool> TaskSet::run(std::vector<std::function<void()>> fns, bool preempt) {
    HarnessScope h;
    g_tasks = new std::vector<Task *>();
    sem_init(&g_main, 0, 0);
    g_preempt = preempt;
    g_yield_no = 0;
    g_sched_i = 0;
    for (size_t i = 0; i < fns.size(); ++i) {
        Task *t = new Task();
        t->fn = fns[i];
        t->id = (int)i;
        sem_init(&t->sem, 0, 0);
        g_tasks->push_back(t);
        pthread_attr_t at;
        pthread_attr_init(&at);
        pthread_attr_setstacksize(&at, 4 << 20);
        if (pthread_create(&t->th, &at, task_main, t) != 0) violate("harness", "pthread_create failed");
        pthread_attr_destroy(&at);
    }
    g_next = 0;
    for (;;) {
        int pick = -1;
        if (g_next >= 0 && !(*g_tasks)[g_next]->done && !(*g_tasks)[g_next]->crashed) pick = g_next;
        else
            for (auto *t : *g_tasks)
                if (!t->done && !t->crashed) { pick = t->id; break; }
        if (pick < 0) break;
        g_next = pick;
        sem_post(&(*g_tasks)[pick]->sem);
        semw(&g_main);
        if ((*g_tasks)[pick]->done || (*g_tasks)[pick]->crashed) { if (g_next == pick) g_next = -1; }
    }
    std::vector<bool> r;
    for (auto *t : *g_tasks) { if (t->done) pthread_join(t->th, nullptr); r.push_back(t->done); }
    g_tasks = nullptr; // leaked on purpose
    g_preempt = false;
    return r;
}
} // namespace sim

// locks taken by code under test must not deadlock the one-at-a-time scheduler
static void wait_turn(int spins) {
    int to = other_task();
    if (to < 0 || spins > 100000) { ++t_harness; violate("deadlock", "a task waits for a lock nobody can release"); }
    g_next = to;
    Task *me = (*g_tasks)[t_task];
    sem_post(&g_main);
    semw(&me->sem);
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) {
    typedef int (*fn)(pthread_mutex_t *);
    static fn lock_ = nullptr, try_ = nullptr;
    if (!lock_) { lock_ = (fn)dlsym(RTLD_NEXT, "pthread_mutex_lock"); try_ = (fn)dlsym(RTLD_NEXT, "pthread_mutex_trylock"); }
    if (t_task < 0 || !g_preempt || !in_sut()) return lock_(m);
    for (int spins = 0;; ++spins) {
        int r = try_(m);
        if (r != EBUSY) return r;
        // the holder is a parked task: let the others run
        wait_turn(spins);
    }
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    typedef int (*fn)(pthread_rwlock_t *);
    static fn lock_ = nullptr, try_ = nullptr;
    if (!lock_) { lock_ = (fn)dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); try_ = (fn)dlsym(RTLD_NEXT, "pthread_rwlock_trywrlock"); }
    if (t_task < 0 || !g_preempt || !in_sut()) return lock_(m);
    for (int spins = 0;; ++spins) { int r = try_(m); if (r != EBUSY) return r; wait_turn(spins); }
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    typedef int (*fn)(pthread_rwlock_t *);
    static fn lock_ = nullptr, try_ = nullptr;
    if (!lock_) { lock_ = (fn)dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); try_ = (fn)dlsym(RTLD_NEXT, "pthread_rwlock_tryrdlock"); }
    if (t_task < 0 || !g_preempt || !in_sut()) return lock_(m);
    for (int spins = 0;; ++spins) { int r = try_(m); if (r != EBUSY) return r; wait_turn(spins); }
}
// whoever runs a once-only initialisation runs it to its end
int pthread_once(pthread_once_t *o, void (*f)()) {
    static auto r = (int (*)(pthread_once_t *, void (*)()))nullptr;
    if (!r) r = (int (*)(pthread_once_t *, void (*)()))dlsym(RTLD_NEXT, "pthread_once");
    struct Hold { Hold() { ++t_noyield; } ~Hold() { --t_noyield; } } hold;
    return r(o, f);
}
int __cxa_guard_acquire(uint64_t *g) {
    static auto r = (int (*)(uint64_t *))nullptr;
    if (!r) r = (int (*)(uint64_t *))dlsym(RTLD_NEXT, "__cxa_guard_acquire");
    int v = r(g);
    if (v) ++t_noyield;
    return v;
}
void __cxa_guard_release(uint64_t *g) {
    static auto r = (void (*)(uint64_t *))nullptr;
    if (!r) r = (void (*)(uint64_t *))dlsym(RTLD_NEXT, "__cxa_guard_release");
    --t_noyield;
    r(g);
}
void __cxa_guard_abort(uint64_t *g) {
    static auto r = (void (*)(uint64_t *))nullptr;
    if (!r) r = (void (*)(uint64_t *))dlsym(RTLD_NEXT, "__cxa_guard_abort");
    --t_noyield;
    r(g);
}
}

// ------------------------------------------------------------------ run control
namespace sim {
void set_clock(uint64_t ns);
void begin_run(const Plan &p, bool verbose) {
    plan = &p;
    g_verbose = verbose;
    g_hash = 1469598103934665603ull;
    set_junk_seed(mix(p.seed, 11));
    set_clock((1600000000ull + p.seed % 100000000ull) * 1000000000ull);
}
extern "C" void __gcov_dump() __attribute__((weak)); // in a build with coverage
void finish_run() {
    if (__gcov_dump) { ++t_harness; g_preempt = false; __gcov_dump(); }
    if (R) { R->hash = g_hash; R->done = 1; }
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
void violate(const std::string &c, const std::string &d) {
    ++t_harness;
    if (R) {
        R->violated = 1;
        snprintf(R->vclass, sizeof R->vclass, "%s", c.c_str());
        snprintf(R->detail, sizeof R->detail, "%s", d.c_str());
        R->hash = g_hash;
    }
    if (g_verbose) { std::string s = "VIOLATED " + c + ": " + d + "\n"; (void)!syscall(SYS_write, 2, s.data(), s.size()); }
    syscall(SYS_exit_group, 0);
    __builtin_unreachable();
}
} // namespace sim

// Supervisor: seeds -> plans -> runs (each in a fork of this pristine process) ->
// gate, minimise, replay file, evidence.
#include "sim.hpp"

#include <algorithm>
#include <chrono>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <poll.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
static double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static std::string root = "/verif";

static Property *find_prop(const std::string &id) {
    for (auto &p : properties())
        if (id == p.id) return &p;
    return nullptr;
}
static Result *new_result() {
    return (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}

// ------------------------------------------------------------------ one run
static void run_one(Property &pr, const Plan &p, Result *res, bool verbose, bool again = false) {
    memset(res, 0, sizeof *res);
    {
        Plan ops = p;
        ops.faults.clear();
        ops.sched.clear();
        ref_share_for(ops.digest());
    }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        struct rlimit rl = {40, 45};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        struct rlimit as = {6ul << 30, 6ul << 30};
        setrlimit(RLIMIT_AS, &as);
        alarm(240);
        if (!getenv("SIM_STDOUT")) {
            int nul = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0);
            dup2(nul, 0);
            dup2(nul, 1);
            if (!verbose) dup2(nul, 2);
            syscall(SYS_close, nul);
        }
        R = res;
        Plan *copy = new Plan(p);
        begin_run(*copy, verbose);
        Outcome o = guarded([&] { pr.execute(*copy); });
        if (o.threw) violate("harness", "unexpected exception in the workload: " + o.what);
        finish_run();
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0) {}
    if (res->violated || res->done) return;
    // ended from outside (memory guard, stalled machine): only what repeats is the code's doing
    if (!again && WIFSIGNALED(st) && (WTERMSIG(st) == SIGKILL || WTERMSIG(st) == SIGALRM)) return run_one(pr, p, res, verbose, true);
    res->violated = 1;
    if (WIFSIGNALED(st)) {
        int s = WTERMSIG(st);
        if (s == SIGXCPU || s == SIGALRM || s == SIGKILL) snprintf(res->vclass, sizeof res->vclass, "hang");
        else snprintf(res->vclass, sizeof res->vclass, "crash:SIG%s", sigabbrev_np(s));
    } else snprintf(res->vclass, sizeof res->vclass, "crash:exit%d", WEXITSTATUS(st));
    size_t n = strlen(res->trace);
    snprintf(res->detail, sizeof res->detail, "the process ended with %s after %llu simulated events; trace ends: %.200s", res->vclass,
             (unsigned long long)res->events, n > 200 ? res->trace + n - 200 : res->trace);
}

// ------------------------------------------------------------------ plan variants
static Plan base_plan(Property &pr, uint64_t seed0, int idx, bool thorough) {
    uint64_t seed = mix(mix(seed0, 0xb1155), (uint64_t)idx * 2654435761ull + std::hash<std::string>()(pr.id) % 1000003);
    Plan p = pr.generate(seed, thorough);
    p.prop = pr.id;
    p.seed = seed;
    return p;
}
static bool add_faults(Property &pr, Plan &p, const Result &dry, int variant) {
    Rng r(mix(p.seed, 5000 + variant));
    struct Slot { int op, cls; uint32_t n; };
    std::vector<Slot> slots;
    for (auto &o : p.ops) {
        if (pr.faultable && !pr.faultable(o)) continue;
        for (auto &k : pr.kinds)
            if (o.id < MAXOPS && dry.calls[o.id][k.first] > 0 && (!pr.class_ok || pr.class_ok(o, k.first))) slots.push_back({o.id, k.first, dry.calls[o.id][k.first]});
    }
    if (slots.empty()) return false;
    // swarm: sometimes restrict a run to one class of fault
    if (r.chance(0.5)) {
        int cls = slots[r.below(slots.size())].cls;
        slots.erase(std::remove_if(slots.begin(), slots.end(), [&](const Slot &s) { return s.cls != cls; }), slots.end());
    }
    int nf = 1 + (int)r.below(pr.max_faults);
    for (int k = 0; k < nf; ++k) {
        Slot s = slots[r.below(slots.size())];
        auto &kinds = pr.kinds[s.cls];
        Fault f;
        f.op = s.op;
        f.cls = s.cls;
        double b = r.unit();
        f.nth = b < 0.2 ? (int)s.n - 1 : b < 0.35 ? 0 : (int)r.below(s.n);
        if ((s.cls == C_NEW || s.cls == C_ALLOC) && r.chance(0.7)) { // by place in the code
            std::vector<std::pair<uint32_t, uint32_t>> at;
            for (auto &x : dry.sites) if (x.op1 == (uint32_t)s.op + 1 && x.cls == (uint32_t)s.cls) at.push_back({x.first, x.pick});
            std::sort(at.begin(), at.end());
            if (!at.empty()) { auto &x = at[r.below(at.size())]; f.nth = (int)(r.chance(0.5) ? x.first : x.second); }
        }
        f.kind = kinds[r.below(kinds.size())];
        f.arg = (int64_t)r.below(1 << 20);
        if (r.chance(0.25)) f.arg = (int64_t)r.below(9);
        if (f.kind == "eintr") f.sticky = 1 + (int)r.below(3);
        else if (f.kind == "short") f.sticky = r.chance(0.4) ? 1 : 1 + (int)r.below(200);
        else if (f.kind == "eof") f.sticky = 1;
        else f.sticky = r.chance(0.6) ? 1 : 1000000;
        p.faults.push_back(f);
        if (f.kind == "crash") break;
    }
    return true;
}
static void add_sched(Property &pr, Plan &p, const Result &dry, int variant) {
    (void)pr;
    Rng r(mix(p.seed, 9000 + variant));
    int ntasks = (int)p.opt("tasks", 2);
    int n = std::max<uint32_t>(dry.yields, 4);
    std::set<int> at;
    std::vector<std::pair<uint32_t, uint32_t>> sites;
    for (auto &x : dry.sites) if (x.op1 && x.cls == C_NCLS) sites.push_back({x.first, x.pick});
    std::sort(sites.begin(), sites.end());
    std::vector<std::pair<uint32_t, uint32_t>> pcs;
    for (auto &x : dry.pcs) if (x.op1) pcs.push_back({x.first, x.pick});
    std::sort(pcs.begin(), pcs.end());
    if (!pcs.empty() && ntasks > 1 && r.chance(0.35)) { // two tasks inside the same stretch of code at once
        std::map<int, int> task_of; // operation -> task
        for (auto &o : p.ops) task_of[o.id] = (int)o.i("task");
        std::map<int, uint32_t> start; // where each task begins while they run one after the other
        std::map<uint32_t, std::map<int, std::vector<std::pair<uint32_t, uint32_t>>>> met; // place -> task -> passes
        auto take = [&](const Site &x, bool block) {
            if (!x.op1 || (!block && x.cls != C_NCLS)) return;
            int t = task_of[(int)x.op1 - 1];
            auto it = start.emplace(t, x.first).first;
            it->second = std::min(it->second, x.first);
            if (block) met[x.key / 512][t].push_back({x.first, x.pick});
        };
        for (auto &x : dry.sites) take(x, false);
        for (auto &x : dry.pcs) take(x, true);
        std::vector<uint32_t> shared;
        for (auto &m : met) if (m.second.size() > 1 && m.second.count(0)) shared.push_back(m.first);
        if (!shared.empty()) {
            auto &m = met[shared[r.below(shared.size())]];
            for (auto &v : m) std::sort(v.second.begin(), v.second.end());
            auto in = [&](int t) { auto &x = m[t][r.below(m[t].size())]; return r.chance(0.3) ? x.first : x.second; };
            std::vector<int> others;
            for (auto &v : m) if (v.first) others.push_back(v.first);
            int b = others[r.below(others.size())];
            uint32_t ya = in(0), yb = in(b), z = ya + 1 + (yb - start[b]);
            p.sched.push_back({(int)ya, b});
            if (r.chance(0.7)) {
                p.sched.push_back({(int)z, 0});
                if (r.chance(0.5)) { uint32_t w = z + 1 + (uint32_t)r.below(r.chance(0.5) ? 40 : 4000); p.sched.push_back({(int)w, b}); }
            }
            return;
        }
    }
    if (!pcs.empty() && r.chance(0.6)) { // few preemptions, each inside a basic block drawn by place
        int d = 1 + (int)r.below(4);
        for (int k = 0; k < d; ++k) { auto &x = pcs[r.below(pcs.size())]; at.insert((int)(r.chance(0.4) ? x.first : x.second)); }
    } else if (!pcs.empty() && r.chance(0.3)) { // many, evenly thin
        double gap = std::max(1.0, n / (20.0 + (double)r.below(2000)));
        for (double y = r.unit() * gap; y < n; y += gap * 2 * r.unit() + 1) at.insert((int)y);
    } else if (!sites.empty() && r.chance(0.45)) { // few preemptions, by place in the code
        int d = 1 + (int)r.below(3);
        for (int k = 0; k < d; ++k) { auto &x = sites[r.below(sites.size())]; at.insert((int)(r.chance(0.5) ? x.first : x.second)); }
    } else if (r.chance(0.4)) { // few preemptions, anywhere
        int d = 1 + (int)r.below(4);
        for (int k = 0; k < d; ++k) at.insert((int)r.below(n));
    } else if (r.chance(0.5)) { // a burst
        int s = (int)r.below(n), len = 2 + (int)r.below(30);
        for (int k = 0; k < len; ++k) at.insert(s + k);
    } else { // dense
        double q = 0.02 + 0.3 * r.unit();
        for (int k = 0; k < n * 2 && k < 20000; ++k) if (r.chance(q)) at.insert(k);
    }
    for (int a : at) p.sched.push_back({a, (int)r.below(ntasks)});
}

// ------------------------------------------------------------------ records
struct Rec {
    int idx, variant;
    uint64_t hash, events;
    uint32_t checks, yields, switches, nfaults, nfired;
    uint64_t br, bw;
    uint32_t nleft;
    uint64_t left[8];
    uint32_t probes[32];
    int32_t fired[C_NCLS][12];
    char status; // 'o' ok, 'v' violated
    char vclass[200];
    int32_t marker; // plan finished
};
static const char *kind_names[] = {"eio", "eintr", "short", "eof", "enospc", "crash", "fail", "edquot", "eacces", "emfile", "enoent", "other"};
static int kind_idx(const std::string &k) {
    for (int i = 0; i < 11; ++i)
        if (k == kind_names[i]) return i;
    return 11;
}
static std::string json_str(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) o += strf("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}

static std::vector<std::pair<std::string, std::string>> known; // (property, class)
static void load_known() {
    std::ifstream f(root + "/known_findings.txt");
    std::string l;
    while (std::getline(f, l)) {
        if (l.rfind("finding:", 0) != 0) continue;
        std::string prop, cls;
        for (auto &w : split(l, ' ')) {
            if (w.rfind("property=", 0) == 0) prop = w.substr(9);
            if (w.rfind("class=", 0) == 0) cls = w.substr(6);
        }
        known.push_back({prop, cls});
    }
}
static bool is_known(const std::string &prop, const std::string &cls) {
    for (auto &k : known)
        if (k.first == prop && k.second == cls) return true;
    return false;
}

struct Shared { volatile int stop_idx; volatile int halt; };

static void worker(Property &pr, uint64_t seed, bool thorough, int w, int W, int nplans, double deadline, int out, Shared *sh, const std::string &tmp) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    Result *res = new_result(), *dry = new_result();
    auto report = [&](const Plan &p, int idx, int variant) {
        Rec rec;
        memset(&rec, 0, sizeof rec);
        rec.idx = idx;
        rec.variant = variant;
        rec.hash = res->hash;
        rec.events = res->events;
        rec.checks = res->checks;
        rec.yields = res->yields;
        rec.switches = res->switches;
        rec.br = res->bytes_read;
        rec.bw = res->bytes_written;
        rec.nleft = res->nleft;
        memcpy(rec.left, res->left, sizeof rec.left);
        rec.nfaults = (uint32_t)p.faults.size();
        memcpy(rec.probes, res->probes, sizeof rec.probes);
        for (size_t i = 0; i < p.faults.size(); ++i)
            if (res->fired[i]) { ++rec.nfired; rec.fired[p.faults[i].cls][kind_idx(p.faults[i].kind)] += res->fired[i]; }
        rec.status = res->violated ? 'v' : 'o';
        memcpy(rec.vclass, res->vclass, sizeof rec.vclass);
        if (res->violated) {
            std::ofstream f(tmp + strf("/v_%06d_%03d.plan", idx, variant));
            f << p.text();
            if (!is_known(pr.id, res->vclass))
                while (true) { int cur = sh->stop_idx; if (idx >= cur || __sync_bool_compare_and_swap(&sh->stop_idx, cur, idx)) break; }
        }
        (void)!write(out, &rec, sizeof rec);
        return res->violated && !is_known(pr.id, res->vclass);
    };
    for (int idx = w; idx < nplans; idx += W) {
        if (idx > sh->stop_idx || now() > deadline) break;
        Plan p = base_plan(pr, seed, idx, thorough);
        run_one(pr, p, res, false);
        memcpy(dry, res, sizeof *res);
        bool bad = report(p, idx, 0);
        if (dry->violated) continue; // (known or new) the fault variants would only repeat it
        int variant = 1;
        for (int k = 0; k < pr.fault_runs && !bad; ++k, ++variant) {
            Plan q = p;
            if (!add_faults(pr, q, *dry, variant)) break;
            run_one(pr, q, res, false);
            bad = report(q, idx, variant);
        }
        variant = 100;
        for (int k = 0; k < pr.sched_runs && !bad; ++k, ++variant) {
            Plan q = p;
            add_sched(pr, q, *dry, variant);
            if ((k % 3 == 2 || (k % 3 == 1 && p.opt("turns"))) && !pr.kinds.empty()) add_faults(pr, q, *dry, variant);
            run_one(pr, q, res, false);
            bad = report(q, idx, variant);
        }
        Rec rec;
        memset(&rec, 0, sizeof rec);
        rec.idx = idx;
        rec.marker = 1;
        (void)!write(out, &rec, sizeof rec);
    }
    _exit(0);
}

// ------------------------------------------------------------------ minimisation
static Plan minimise(Property &pr, Plan p, const std::string &cls, double budget, int &tries) {
    Result *res = new_result();
    double t0 = now();
    tries = 0;
    auto fails = [&](const Plan &q) {
        if (now() - t0 > budget || tries > 400) return false;
        ++tries;
        run_one(pr, q, res, false);
        return res->violated && cls == res->vclass;
    };
    bool changed = true;
    while (changed && now() - t0 < budget) {
        changed = false;
        auto shrink_list = [&](auto member) {
            auto &list = p.*member;
            for (size_t chunk = list.size(); chunk >= 1; chunk = chunk == 1 ? 0 : (chunk + 1) / 2) {
                for (size_t i = 0; i < (p.*member).size();) {
                    Plan q = p;
                    auto &l = q.*member;
                    size_t e = std::min(i + chunk, l.size());
                    l.erase(l.begin() + i, l.begin() + e);
                    if (fails(q)) { p = q; changed = true; }
                    else i += chunk;
                }
                if (chunk == 1) break;
            }
        };
        shrink_list(&Plan::sched);
        shrink_list(&Plan::faults);
        shrink_list(&Plan::ops);
        for (size_t i = 0; i < p.faults.size(); ++i) {
            if (p.faults[i].sticky > 1) { Plan q = p; q.faults[i].sticky = 1; if (fails(q)) { p = q; changed = true; } }
            if (p.faults[i].nth > 0) { Plan q = p; q.faults[i].nth /= 2; if (fails(q)) { p = q; changed = true; } }
            if (p.faults[i].arg > 1) { Plan q = p; q.faults[i].arg /= 2; if (fails(q)) { p = q; changed = true; } }
        }
    }
    return p;
}

static std::string self_exe() {
    char b[PATH_MAX];
    ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    return std::string(b, n > 0 ? n : 0);
}
static int run_replay(const std::string &file, bool verbose, std::string *cls_out, uint64_t *hash_out) {
    std::ifstream f(file);
    std::stringstream ss;
    ss << f.rdbuf();
    Plan p;
    if (!Plan::parse(ss.str(), p)) { fprintf(stderr, "not a plan file: %s\n", file.c_str()); return 2; }
    Property *pr = find_prop(p.prop);
    if (!pr) { fprintf(stderr, "unknown property %s\n", p.prop.c_str()); return 2; }
    Result *res = new_result();
    run_one(*pr, p, res, verbose);
    if (cls_out) *cls_out = res->violated ? res->vclass : "";
    if (hash_out) *hash_out = res->hash;
    printf("replay %s violated=%d class=%s hash=%016llx events=%llu\n", file.c_str(), res->violated, res->violated ? res->vclass : "-", (unsigned long long)res->hash, (unsigned long long)res->events);
    if (res->violated) printf("%s\n", res->detail);
    fflush(stdout);
    return res->violated ? 1 : 0;
}

static int check(const std::string &id, uint64_t seed, bool thorough, int force_plans, int W) {
    Property *pr = find_prop(id);
    if (!pr) { fprintf(stderr, "unknown property %s\n", id.c_str()); return 2; }
    load_known();
    double t0 = now();
    int nplans = force_plans > 0 ? force_plans : thorough ? pr->thorough_plans : pr->quick_plans;
    double budget = getenv("SIM_BUDGET") ? atof(getenv("SIM_BUDGET")) : thorough ? 3000 : 240;
    double deadline = t0 + budget;
    mkdir((root + "/build").c_str(), 0755);
    mkdir((root + "/replay").c_str(), 0755);
    mkdir((root + "/evidence").c_str(), 0755);
    std::string tmp = root + strf("/build/run.%s.%d", id.c_str(), getpid());
    mkdir(tmp.c_str(), 0755);

    Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->stop_idx = INT_MAX;
    int pfd[2];
    if (pipe(pfd)) { perror("pipe"); return 2; }
    std::vector<pid_t> pids;
    for (int w = 0; w < W; ++w) {
        fflush(nullptr);
        pid_t c = fork();
        if (c == 0) { close(pfd[0]); worker(*pr, seed, thorough, w, W, nplans, deadline, pfd[1], sh, tmp); _exit(0); }
        pids.push_back(c);
    }
    close(pfd[1]);
    // aggregate
    std::set<uint64_t> hashes, left;
    uint64_t runs = 0, nontrivial_runs = 0, events = 0, checks = 0, yields = 0, switches = 0, br = 0, bw = 0, faulted_runs = 0, plans_done = 0, known_hits = 0, scheduled_runs = 0;
    uint64_t fired[C_NCLS][12] = {};
    uint64_t probes[32] = {};
    std::map<std::string, uint64_t> known_seen;
    struct V { int idx, variant; std::string cls; };
    std::vector<V> viols;
    Rec rec;
    std::string carry;
    char buf[65536];
    ssize_t k;
    while ((k = read(pfd[0], buf, sizeof buf)) > 0) {
        carry.append(buf, k);
        size_t off = 0;
        while (carry.size() - off >= sizeof(Rec)) {
            memcpy(&rec, carry.data() + off, sizeof rec);
            off += sizeof rec;
            if (rec.marker) { ++plans_done; continue; }
            ++runs;
            events += rec.events;
            checks += rec.checks;
            yields += rec.yields;
            switches += rec.switches;
            br += rec.br;
            bw += rec.bw;
            for (uint32_t i = 0; i < rec.nleft && i < 8; ++i) left.insert(rec.left[i]);
            if (rec.nfired) ++faulted_runs;
            if (rec.switches) ++scheduled_runs;
            if (rec.checks > 0 && rec.events > 0) { ++nontrivial_runs; hashes.insert(rec.hash); }
            for (int i = 0; i < 32; ++i) probes[i] += rec.probes[i];
            for (int c = 0; c < C_NCLS; ++c)
                for (int j = 0; j < 12; ++j) fired[c][j] += rec.fired[c][j];
            if (rec.status == 'v') {
                if (is_known(id, rec.vclass)) { ++known_hits; ++known_seen[rec.vclass]; }
                else viols.push_back({rec.idx, rec.variant, rec.vclass});
            }
        }
        carry.erase(0, off);
    }
    bool worker_died = false;
    for (pid_t c : pids) { int st; waitpid(c, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) worker_died = true; }
    double explore_s = now() - t0;

    int rc = 0;
    std::string viol_line, viol_json;
    if (!viols.empty()) {
        std::sort(viols.begin(), viols.end(), [](const V &a, const V &b) { return a.idx != b.idx ? a.idx < b.idx : a.variant < b.variant; });
        bool ok = false;
        size_t limit = std::min<size_t>(viols.size(), 6);
        for (size_t i = 0; i < limit && !ok; ++i) {
            V v = viols[i];
            std::ifstream f(tmp + strf("/v_%06d_%03d.plan", v.idx, v.variant));
            std::stringstream ss;
            ss << f.rdbuf();
            Plan p;
            if (!Plan::parse(ss.str(), p)) continue;
            Result *a = new_result(), *b = new_result();
            run_one(*pr, p, a, false);
            run_one(*pr, p, b, false);
            if (!a->violated || !b->violated || v.cls != a->vclass || v.cls != b->vclass || a->hash != b->hash) {
                fprintf(stderr, "error: violation '%s' (plan %d.%d) did not repeat under the same seed: [%s %016llx] [%s %016llx]\n", v.cls.c_str(), v.idx, v.variant, a->vclass,
                        (unsigned long long)a->hash, b->vclass, (unsigned long long)b->hash);
                continue;
            }
            int tries = 0;
            Plan m = minimise(*pr, p, v.cls, 45, tries);
            run_one(*pr, m, a, false);
            if (!a->violated || v.cls != a->vclass) { m = p; run_one(*pr, m, a, false); }
            std::string path = root + "/replay/" + id + strf("-%016llx.plan", (unsigned long long)m.digest());
            {
                std::ofstream o(path);
                o << m.text();
                std::istringstream d(a->detail);
                std::string l;
                o << "# violation " << a->vclass << "\n";
                while (std::getline(d, l)) o << "# " << l << "\n";
                o << "# from VERIF_SEED=" << seed << " plan " << v.idx << "." << v.variant << " (" << p.ops.size() << " ops, " << p.faults.size() << " faults, " << p.sched.size()
                  << " switches; minimised to " << m.ops.size() << ", " << m.faults.size() << ", " << m.sched.size() << " in " << tries << " runs)\n# trace\n";
                std::istringstream t(a->trace);
                while (std::getline(t, l)) o << "#  " << l << "\n";
            }
            // fresh process
            std::string cmd = self_exe() + " replay " + path + " > " + tmp + "/replay.out 2>&1";
            int rr = system(cmd.c_str());
            std::ifstream ro(tmp + "/replay.out");
            std::stringstream rs;
            rs << ro.rdbuf();
            if (!(WIFEXITED(rr) && WEXITSTATUS(rr) == 1 && rs.str().find("class=" + v.cls + " ") != std::string::npos)) {
                fprintf(stderr, "error: replay file %s did not reproduce in a fresh process:\n%s\n", path.c_str(), rs.str().c_str());
                continue;
            }
            ok = true;
            printf("violation class: %s\n%s\nreplay: bash tools/replay.sh %s\n", a->vclass, a->detail, path.c_str());
            viol_line = "VIOLATION property=" + id + " replay=" + path;
            rc = 1;
        }
        if (!ok) {
            fprintf(stderr, "error: %zu run(s) failed but none could be reproduced\n", viols.size());
            rc = 2;
        }
    }
    if (worker_died && rc == 0) { fprintf(stderr, "error: a worker process died\n"); rc = 2; }
    if (runs == 0 && rc == 0) { fprintf(stderr, "error: nothing was run\n"); rc = 2; }
    double wall = now() - t0;

    // evidence
    std::ostringstream e;
    e << "{\n \"property\": " << json_str(id) << ",\n \"tier\": \"" << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    e << "  \"evaluations\": " << runs << ",\n  \"distinct_nontrivial\": " << hashes.size() << ",\n  \"rule\": " << json_str(pr->rule + " A run counts as non-trivial when it passed at least one oracle comparison and at least one simulated event; distinct = distinct hash over the full event trace (every intercepted call with its result, every switch, every observed value).") << ",\n";
    e << "  \"samples\": [\n";
    for (int i = 0; i < 3; ++i) {
        Plan p = base_plan(*pr, seed, i, thorough);
        Result *r = new_result();
        run_one(*pr, p, r, false);
        if (i > 0) add_faults(*pr, p, *r, i);
        if (pr->sched_runs && i == 2) add_sched(*pr, p, *r, 100);
        std::string t = p.text();
        if (t.size() > 1500) t = t.substr(0, 1500) + "...";
        e << "   " << json_str(t) << (i < 2 ? ",\n" : "\n");
    }
    e << "  ],\n  \"plans\": " << plans_done << ",\n  \"runs_with_faults_fired\": " << faulted_runs << ",\n  \"oracle_comparisons\": " << checks << ",\n  \"simulated_events\": " << events
      << ",\n  \"runs_per_hour\": " << (uint64_t)(runs / std::max(explore_s, 0.01) * 3600) << ",\n  \"seeds_per_hour\": " << (uint64_t)(plans_done / std::max(explore_s, 0.01) * 3600)
      << ",\n  \"bytes_read_through_seam\": " << br << ",\n  \"bytes_written_through_seam\": " << bw << ",\n";
    e << "  \"simulated_time\": \"the code under test has no timers or deadlines; its only clock reads go to a simulated clock, progress is counted in simulated events\",\n";
    if (pr->schedules) e << "  \"yield_points_passed\": " << yields << ",\n  \"distinct_switches\": " << left.size() << ",\n  \"distinct_switches_measure\": \"pairs of (place in the code where the running task was preempted, place where the other one had been left)\",\n  \"task_switches\": " << switches << ",\n  \"runs_with_switches\": " << scheduled_runs << ",\n";
    e << "  \"faults_fired\": {";
    bool first = true;
    for (int c = 0; c < C_NCLS; ++c)
        for (int j = 0; j < 12; ++j)
            if (fired[c][j]) { e << (first ? "" : ", ") << "\"" << cls_names[c] << ":" << kind_names[j] << "\": " << fired[c][j]; first = false; }
    e << "},\n  \"probes\": {";
    for (size_t i = 0; i < pr->probe_names.size(); ++i) e << (i ? ", " : "") << json_str(pr->probe_names[i]) << ": " << probes[i];
    e << "},\n  \"known_findings_hit\": " << known_hits << ",\n  \"real_components\": " << json_str(pr->real_components) << ",\n  \"stubbed_components\": " << json_str(pr->stub_components) << "\n },\n";
    e << " \"assumptions\": [\"simulated disk, allocator, entropy and task seams in /verif/sim/interpose.cpp behave like POSIX allows\", \"sampled, not enumerated: a clean batch is evidence, not proof\"],\n";
    e << " \"wall_s\": " << strf("%.2f", wall) << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
    {
        std::ofstream f(root + "/evidence/" + id + ".json.tmp");
        f << e.str();
    }
    rename((root + "/evidence/" + id + ".json.tmp").c_str(), (root + "/evidence/" + id + ".json").c_str());

    for (auto &ks : known_seen) printf("KNOWN-FINDING: property=%s %s (%llu runs)\n", id.c_str(), ks.first.c_str(), (unsigned long long)ks.second);
    printf("%s: %llu plans, %llu runs (%llu with faults fired), %llu distinct traces, %llu comparisons, %.1f s\n", id.c_str(), (unsigned long long)plans_done, (unsigned long long)runs, (unsigned long long)faulted_runs, (unsigned long long)hashes.size(), (unsigned long long)checks, wall);
    printf("  faults:");
    for (int c = 0; c < C_NCLS; ++c)
        for (int j = 0; j < 12; ++j)
            if (fired[c][j]) printf(" %s:%s=%llu", cls_names[c], kind_names[j], (unsigned long long)fired[c][j]);
    printf("\n  probes:");
    for (size_t i = 0; i < pr->probe_names.size(); ++i) printf(" [%s]=%llu", pr->probe_names[i], (unsigned long long)probes[i]);
    printf("\n");
    if (!viol_line.empty()) printf("%s\n", viol_line.c_str());
    fflush(stdout);
    // scratch
    for (auto &v : viols) unlink((tmp + strf("/v_%06d_%03d.plan", v.idx, v.variant)).c_str());
    if (known_hits || !viols.empty()) { std::string c = "find '" + tmp + "' -maxdepth 1 -type f -delete"; (void)!system(c.c_str()); }
    unlink((tmp + "/replay.out").c_str());
    rmdir(tmp.c_str());
    return rc;
}

// runs N seeds twice (different worker processes) and compares hashes
static int determinism(const std::string &id, uint64_t seed, int n) {
    Property *pr = find_prop(id);
    if (!pr) return 2;
    Result *a = new_result(), *b = new_result(), *dry = new_result();
    int bad = 0, done = 0;
    for (int i = 0; i < n; ++i) {
        Plan p = base_plan(*pr, seed, i, false);
        run_one(*pr, p, dry, false);
        if (i % 2 && pr->fault_runs) add_faults(*pr, p, *dry, 1);
        if (pr->sched_runs && i % 3) add_sched(*pr, p, *dry, 100);
        run_one(*pr, p, a, false);
        std::string junk(1 + i * 131 % 5000, 'x'); // shift the parent heap
        run_one(*pr, p, b, false);
        ++done;
        if (a->hash != b->hash || a->violated != b->violated) { printf("plan %d: %016llx %016llx\n", i, (unsigned long long)a->hash, (unsigned long long)b->hash); ++bad; }
    }
    printf("%s: %d plans run twice, %d differ\n", id.c_str(), done, bad);
    return bad ? 2 : 0;
}

int main(int argc, char **argv) {
    static char obuf[1 << 16];
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
        if (personality(pers | ADDR_NO_RANDOMIZE) != -1) {
            setenv("SIM_NOASLR", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
    setvbuf(stdout, obuf, _IOLBF, sizeof obuf);
    setenv("HDF5_USE_FILE_LOCKING", "FALSE", 1);
    signal(SIGPIPE, SIG_IGN);
    if (getenv("SIM_ROOT")) root = getenv("SIM_ROOT");
    std::string cmd = argc > 1 ? argv[1] : "";
    const char *vs = getenv("VERIF_SEED");
    uint64_t seed = vs && *vs ? strtoull(vs, nullptr, 10) : 1;
    const char *vt = getenv("VERIF_TIER");
    bool thorough = vt && std::string(vt) == "thorough";
    if (cmd == "check" && argc > 2) {
        int W = getenv("SIM_WORKERS") ? atoi(getenv("SIM_WORKERS")) : 8;
        return check(argv[2], seed, thorough, argc > 3 ? atoi(argv[3]) : 0, W);
    }
    if (cmd == "replay" && argc > 2) return run_replay(argv[2], argc > 3, nullptr, nullptr);
    if (cmd == "show" && argc > 3) {
        Property *pr = find_prop(argv[2]);
        Plan p = base_plan(*pr, seed, atoi(argv[3]), thorough);
        Result *r = new_result();
        run_one(*pr, p, r, false);
        if (argc > 4) { int v = atoi(argv[4]); if (v >= 100) add_sched(*pr, p, *r, v); else if (v > 0) add_faults(*pr, p, *r, v); }
        fputs(p.text().c_str(), stdout);
        return 0;
    }
    if (cmd == "determinism" && argc > 3) return determinism(argv[2], seed, atoi(argv[3]));
    if (cmd == "list") { for (auto &p : properties()) printf("%s %s\n", p.id, p.what); return 0; }
    fprintf(stderr, "usage: sim check <property> [plans] | replay <file> [v] | show <property> <plan> [variant] | determinism <property> <n> | list\n");
    return 2;
}

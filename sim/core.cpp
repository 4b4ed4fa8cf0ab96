// Plans, outcomes, reference server.
#include "sim.hpp"

#include <H5Cpp.h>
#include <kj/exception.h>

#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

uint64_t mix(uint64_t a, uint64_t b) {
    Rng r(a * 0x9e3779b97f4a7c15ull ^ (b + 0x7f4a7c159e3779b9ull));
    r.next();
    return r.next();
}
double Rng::gauss() {
    double u = unit(), v = unit();
    if (u < 1e-12) u = 1e-12;
    return std::sqrt(-2 * std::log(u)) * std::cos(2 * M_PI * v);
}
std::string strf(const char *f, ...) {
    char b[2000];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}
std::string fmt_double(double d) { return strf("%.17g", d); }
Op &Op::setd(const std::string &k, double v) { a[k] = fmt_double(v); return *this; }
std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> v;
    size_t i = 0;
    while (i <= s.size()) {
        size_t j = s.find(c, i);
        if (j == std::string::npos) j = s.size();
        v.push_back(s.substr(i, j - i));
        i = j + 1;
    }
    return v;
}

std::string Plan::text() const {
    std::string t = "bliss-sim-plan 1\nprop " + prop + "\nseed " + std::to_string(seed) + "\n";
    for (auto &o : opts) t += "opt " + o.first + " " + o.second + "\n";
    for (auto &o : ops) {
        t += "op " + std::to_string(o.id) + " " + o.name;
        for (auto &k : o.a) t += " " + k.first + "=" + k.second;
        t += "\n";
    }
    for (auto &f : faults)
        t += strf("fault op=%d cls=%s nth=%d kind=%s arg=%lld sticky=%d\n", f.op, cls_names[f.cls], f.nth, f.kind.c_str(), (long long)f.arg, f.sticky);
    for (auto &s : sched) t += strf("sched %d %d\n", s.first, s.second);
    return t;
}
bool Plan::parse(const std::string &t, Plan &p) {
    p = Plan();
    bool head = false;
    for (auto &line : split(t, '\n')) {
        if (line.empty() || line[0] == '#') continue;
        auto w = split(line, ' ');
        if (w[0] == "bliss-sim-plan") head = true;
        else if (w[0] == "prop") p.prop = w.at(1);
        else if (w[0] == "seed") p.seed = std::stoull(w.at(1));
        else if (w[0] == "opt") p.opts[w.at(1)] = w.size() > 2 ? w[2] : "";
        else if (w[0] == "op") {
            Op o(w.at(2));
            o.id = std::stoi(w.at(1));
            for (size_t i = 3; i < w.size(); ++i) {
                size_t e = w[i].find('=');
                if (e != std::string::npos) o.a[w[i].substr(0, e)] = w[i].substr(e + 1);
            }
            p.ops.push_back(o);
        } else if (w[0] == "fault") {
            Fault f;
            for (size_t i = 1; i < w.size(); ++i) {
                size_t e = w[i].find('=');
                std::string k = w[i].substr(0, e), v = w[i].substr(e + 1);
                if (k == "op") f.op = std::stoi(v);
                if (k == "cls") f.cls = cls_of(v);
                if (k == "nth") f.nth = std::stoi(v);
                if (k == "kind") f.kind = v;
                if (k == "arg") f.arg = std::stoll(v);
                if (k == "sticky") f.sticky = std::stoi(v);
            }
            p.faults.push_back(f);
        } else if (w[0] == "sched") p.sched.push_back({std::stoi(w.at(1)), std::stoi(w.at(2))});
    }
    return head;
}
uint64_t Plan::digest() const {
    uint64_t h = 1469598103934665603ull;
    for (char c : text()) { h ^= (uint8_t)c; h *= 1099511628211ull; }
    return h;
}

Outcome guarded_(void (*f)(void *), void *ctx) {
    Outcome o;
    auto set = [&](const char *w, const char *x = "", bool logic = false) {
        HarnessScope h; // the text belongs to the harness, not to the code under test
        o.threw = true;
        o.what = std::string(w) + x;
        o.is_logic = logic;
    };
    try {
        f(ctx);
    } catch (const std::logic_error &e) { set("logic_error: ", e.what(), true);
    } catch (const std::bad_alloc &e) { set("bad_alloc");
    } catch (const std::exception &e) { set("exception: ", e.what());
    } catch (const H5::Exception &e) { HarnessScope h; set("H5: ", e.getDetailMsg().c_str());
    } catch (const kj::Exception &e) { set("kj: ", e.getDescription().cStr());
    } catch (const char *e) { set("char*: ", e);
    } catch (const std::string &e) { set("string: ", e.c_str());
    } catch (...) { set("unknown exception"); }
    return o;
}

// ------------------------------------------------------------------ reference server
static int ref_w = -1, ref_r = -1;
static std::map<std::string, std::string> *ref_memo;
// Answers are functions of the plan's operations alone, so the variants of a plan (same operations,
// other faults and schedules) share them: memory the worker process keeps across its runs.
struct RefShare { uint64_t key, used; char data[(64 << 20) - 16]; };
static RefShare *ref_share;
void ref_share_for(uint64_t key) {
    if (!ref_share) {
        void *m = mmap(nullptr, sizeof(RefShare), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) return;
        ref_share = (RefShare *)m;
    }
    if (ref_share->key != key) { ref_share->key = key; ref_share->used = 0; }
}
static void share_load() {
    if (!ref_share) return;
    for (uint64_t i = 0; i + 16 <= ref_share->used;) {
        uint64_t n[2];
        memcpy(n, ref_share->data + i, 16);
        (*ref_memo)[std::string(ref_share->data + i + 16, n[0])] = std::string(ref_share->data + i + 16 + n[0], n[1]);
        i += 16 + n[0] + n[1];
    }
}
static void share_add(const std::string &q, const std::string &a) {
    if (!ref_share || ref_share->used + 16 + q.size() + a.size() > sizeof ref_share->data) return;
    uint64_t n[2] = {q.size(), a.size()};
    char *d = ref_share->data + ref_share->used;
    memcpy(d, n, 16);
    memcpy(d + 16, q.data(), q.size());
    memcpy(d + 16 + q.size(), a.data(), a.size());
    ref_share->used += 16 + q.size() + a.size();
}
static bool rd(int fd, void *p, size_t n) {
    char *c = (char *)p;
    while (n) {
        ssize_t k = syscall(SYS_read, fd, c, n);
        if (k <= 0) return false;
        c += k;
        n -= k;
    }
    return true;
}
static bool wr(int fd, const void *p, size_t n) {
    const char *c = (const char *)p;
    while (n) {
        ssize_t k = syscall(SYS_write, fd, c, n);
        if (k <= 0) return false;
        c += k;
        n -= k;
    }
    return true;
}
static bool rd_msg(int fd, std::string &s) {
    uint64_t n;
    if (!rd(fd, &n, 8) || n > (1ull << 31)) return false;
    s.resize(n);
    return rd(fd, &s[0], n);
}
static bool wr_msg(int fd, const std::string &s) {
    uint64_t n = s.size();
    return wr(fd, &n, 8) && wr(fd, s.data(), s.size());
}
void ref_start(RefFn fn) {
    HarnessScope h;
    int a[2], b[2];
    if (pipe(a) || pipe(b)) violate("harness", "pipe failed");
    pid_t pid = fork();
    if (pid < 0) violate("harness", "fork failed");
    if (pid == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        syscall(SYS_close, a[1]);
        syscall(SYS_close, b[0]);
        Result *scratch = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        std::string req;
        uint64_t k = 0;
        while (rd_msg(a[0], req)) {
            ++k;
            memset(scratch, 0, sizeof *scratch);
            pid_t c = fork();
            if (c == 0) {
                R = scratch;
                set_faults_enabled(false);
                set_junk_seed(mix(plan->seed, 977 + k));
                stack_junk(mix(plan->seed, 1977 + k));
                std::string ans = fn(req);
                wr_msg(b[1], ans);
                syscall(SYS_exit_group, 7);
            }
            int st = 0;
            while (waitpid(c, &st, 0) < 0) {}
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 7)) {
                std::string e = WIFSIGNALED(st) ? strf("!died SIG%s", sigabbrev_np(WTERMSIG(st))) : std::string("!died");
                if (scratch->violated) e = std::string("!died ") + scratch->vclass + " " + scratch->detail;
                wr_msg(b[1], e);
            }
        }
        syscall(SYS_exit_group, 0);
    }
    syscall(SYS_close, a[0]);
    syscall(SYS_close, b[1]);
    ref_w = a[1];
    ref_r = b[0];
    ref_memo = new std::map<std::string, std::string>();
    share_load();
}
std::string ref_ask(const std::string &req) {
    HarnessScope h;
    auto i = ref_memo->find(req);
    if (i != ref_memo->end()) return i->second;
    std::string ans;
    if (!wr_msg(ref_w, req) || !rd_msg(ref_r, ans)) violate("harness", "reference server gone");
    if (ans.rfind("!died", 0) == 0) violate("crash:undisturbed-evaluation", "the undisturbed evaluation of '" + req + "' ended with " + ans.substr(5));
    (*ref_memo)[req] = ans;
    share_add(req, ans);
    return ans;
}

std::vector<Property> &properties() {
    static std::vector<Property> p;
    return p;
}
} // namespace sim

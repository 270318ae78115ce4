// Stateless model checker: exhaustive depth-first enumeration of all choice sequences of a
// scenario, executed on the real code, with replay from scratch.
//
//   * choose(n) is the only source of nondeterminism of a scenario body
//   * step() counts an executed transition, state(h) a visited abstract state
//   * fail(...) reports a property violation of the current execution
//
// The tree of a scenario is cut into prefix tasks which worker processes take from a shared
// queue.  The choice sequence being executed lives in shared memory: crash / abort / hang of a
// worker is attributed to that execution, confirmed by re-executing it alone, and reported.
#ifndef MC_H
#define MC_H
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <functional>
#include <algorithm>
#include <atomic>
#include <new>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/prctl.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>

namespace mc {

enum { MAX_PATH = 8192, MAX_WORKERS = 16, MAX_SCEN = 512, MSG = 4096 };

struct Scenario {
    std::string name;
    std::function<void()> body;
    bool thorough_only;
    int split;              // number of leading choices that form a task (0: automatic)
    double hang_s;          // an execution running longer than this alone is a hang
};

struct Slot {               // one per worker, shared
    volatile int active;
    volatile int scenario;
    volatile int task;
    volatile int len;
    volatile uint64_t beat;
    volatile int failed;
    uint16_t path[MAX_PATH];
    char msg[MSG];
};

struct ScenStat { std::atomic<uint64_t> execs, steps, maxlen; std::atomic<uint32_t> sample_len; uint16_t sample[MAX_PATH]; };

struct Task { int scenario; int len; uint32_t off; };

struct Shared {
    std::atomic<uint32_t> next_task;
    std::atomic<uint64_t> states, outcomes, state_tbl_full;
    ScenStat scen[MAX_SCEN];
    Slot slot[MAX_WORKERS + 1];
    uint32_t done[1]; // dummy
};

inline std::vector<Scenario> & scenarios() { static std::vector<Scenario> s; return s; }
inline void add(const std::string & name, std::function<void()> body, bool thorough_only = false, int split = 0, double hang_s = 30) {
    scenarios().push_back(Scenario{name, body, thorough_only, split, hang_s});
}

// ---------------------------------------------------------------- global state of this process
struct G {
    Shared * sh = nullptr;
    std::atomic<uint64_t> * tbl = nullptr; uint64_t tbl_mask = 0;   // distinct states
    std::atomic<uint64_t> * otbl = nullptr; uint64_t otbl_mask = 0; // distinct outcomes
    Slot * slot = nullptr;
    uint16_t arity[MAX_PATH];
    int pos = 0;            // next choice index
    int prefix = 0;         // number of fixed choices
    int known = 0;          // path entries valid at the beginning of execution
    int probe_at = -1;      // probing: stop at this choice depth
    int probe_arity = 0;
    bool trace = false;
    FILE * tracef = nullptr;
    uint64_t steps = 0;
    bool thorough = false;
    bool diverged = false;
};
inline G & g() { static G x; return x; }
struct ProbeStop {};
struct Prune {};

inline bool thorough() { return g().thorough; }
inline bool tracing() { return g().trace; }
inline void note(const char * fmt, ...) {
    if (!g().trace) return;
    va_list ap; va_start(ap, fmt); vfprintf(g().tracef, fmt, ap); va_end(ap); fputc('\n', g().tracef); fflush(g().tracef);
}
inline void step(uint64_t n = 1) { g().steps += n; g().slot->beat = g().slot->beat + 1; }

[[noreturn]] inline void fail(const char * fmt, ...) {
    G & x = g();
    va_list ap; va_start(ap, fmt); vsnprintf(x.slot->msg, MSG, fmt, ap); va_end(ap);
    x.slot->failed = 1;
    if (x.trace) { fprintf(x.tracef, "FAIL: %s\n", x.slot->msg); fflush(x.tracef); }
    _exit(42);
}
#define MC_CHECK(cond, ...) do { if (!(cond)) ::mc::fail(__VA_ARGS__); } while (0)

inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
inline uint64_t hcombine(uint64_t a, uint64_t b) { return mix(a * 0x9E3779B97F4A7C15ULL + b + 0x7F4A7C15ULL); }
inline uint64_t hbytes(const void * p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char * b = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ULL; } return mix(h + n);
}
inline uint64_t hstr(const std::string & s, uint64_t h = 1469598103934665603ULL) { return hbytes(s.data(), s.size(), h); }

inline bool tbl_insert(std::atomic<uint64_t> * t, uint64_t mask, uint64_t h) {
    if (h == 0) h = 1;
    uint64_t i = mix(h) & mask;
    for (int probes = 0; probes < 256; ++probes, i = (i + 1) & mask) {
        uint64_t cur = t[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0) { uint64_t z = 0; if (t[i].compare_exchange_strong(z, h)) return true; if (z == h) return false; }
    }
    g().sh->state_tbl_full++;
    return false;
}
inline void state(uint64_t h) { if (tbl_insert(g().tbl, g().tbl_mask, h)) g().sh->states++; }
inline void outcome(uint64_t h) { if (tbl_insert(g().otbl, g().otbl_mask, h)) g().sh->outcomes++; }

inline int choose(int n) {
    G & x = g();
    if (n <= 1) return 0;
    int p = x.pos;
    if (p >= MAX_PATH) { fprintf(stderr, "mc: path too long\n"); _exit(43); }
    if (p < x.known) {
        if (x.slot->path[p] >= n) { fprintf(stderr, "mc: divergence at choice %d\n", p); _exit(44); }
    } else {
        if (x.probe_at >= 0 && p >= x.probe_at) { x.probe_arity = n; throw ProbeStop(); }
        x.slot->path[p] = 0;
        x.slot->len = p + 1;
    }
    x.arity[p] = (uint16_t)n;
    x.pos = p + 1;
    return x.slot->path[p];
}
inline bool flip() { return choose(2) == 1; }
template <class T, size_t N> inline const T & pick(const T (&arr)[N]) { return arr[choose((int)N)]; }
template <class T> inline const T & pick(const std::vector<T> & v) { return v[choose((int)v.size())]; }

// run one execution with the first `known` choices fixed by slot->path
inline void execute(int scen, int known) {
    G & x = g();
    x.slot->scenario = scen; x.slot->len = known; x.known = known; x.pos = 0; x.steps = 0; x.slot->beat = x.slot->beat + 1;
    try { scenarios()[scen].body(); } catch (const Prune &) { }
    x.slot->len = x.pos;
}

inline void worker(int scen, const uint16_t * prefix, int plen) {
    G & x = g();
    memcpy((void *)x.slot->path, prefix, plen * sizeof(uint16_t));
    int known = plen;
    ScenStat & st = x.sh->scen[scen];
    uint64_t execs = 0;
    for (;;) {
        execute(scen, known);
        execs++;
        st.steps += x.steps; st.execs++;
        int len = x.pos;
        if ((uint64_t)len > st.maxlen.load()) st.maxlen = len;
        if (len >= (int)st.sample_len.load() && (execs & (execs - 1)) == 0) { memcpy(st.sample, (const void *)x.slot->path, len * 2); st.sample_len = len; }
        int i = len - 1;
        while (i >= plen && x.slot->path[i] + 1 >= x.arity[i]) --i;
        if (i < plen) break;
        x.slot->path[i]++;
        known = i + 1;
    }
}

struct Options { bool thorough = false; int workers = 8; std::string out, replay_dir, replay_file, property, only; bool verbose = false; };

inline double now_s() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC_RAW, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }

inline void child_setup() {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
}

// Re-execute one path alone in a fresh process; returns: 0 ok, 1 failed (message in msg)
inline int run_alone(int scen, const std::vector<uint16_t> & path, double limit, std::string & msg, const std::string & trace_file, bool subtree = false) {
    G & x = g();
    Slot * sl = &x.sh->slot[MAX_WORKERS];
    sl->failed = 0; sl->msg[0] = 0; sl->beat = 0;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        child_setup();
        x.slot = sl;
        int fd = open((trace_file + ".stderr").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
        x.trace = true; x.tracef = fopen(trace_file.c_str(), "w");
        x.probe_at = -1;
        if (subtree) { x.trace = false; sl->active = 1; worker(scen, path.data(), (int)path.size()); }
        else { for (size_t i = 0; i < path.size(); ++i) sl->path[i] = path[i]; execute(scen, (int)path.size()); }
        fprintf(x.tracef, "OK (no violation)\n"); fclose(x.tracef);
        _exit(0);
    }
    double t0 = now_s(); int status = 0; uint64_t lastb = 0;
    for (;;) {
        pid_t r = waitpid(pid, &status, WNOHANG);
        if (r == pid) break;
        if (subtree && sl->beat != lastb) { lastb = sl->beat; t0 = now_s(); }
        if (now_s() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &status, 0); msg = "hang: execution did not finish within the limit"; return 1; }
        usleep(2000);
    }
    if (WIFEXITED(status)) {
        int c = WEXITSTATUS(status);
        if (c == 0) return 0;
        if (c == 42 && sl->failed) { msg = sl->msg; return 1; }
        if (c == 43 || c == 44) { msg = "divergence"; return 2; }
        char b[128]; snprintf(b, sizeof b, "code under test ended the process (exit %d)", c); msg = b; return 1;
    }
    char b[128]; snprintf(b, sizeof b, "code under test crashed (signal %d)", WTERMSIG(status)); msg = b;
    return 1;
}

inline std::string json_escape(const std::string & s) {
    std::string o; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
inline std::string slurp(const std::string & f, size_t max = 1 << 20) {
    std::string r; FILE * fp = fopen(f.c_str(), "rb"); if (!fp) return r; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, fp)) > 0 && r.size() < max) r.append(b, n); fclose(fp); return r;
}

// exit codes: 0 held, 1 violation, 2 error
inline int main_(int argc, char ** argv) {
    Options o;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--thorough") o.thorough = true;
        else if (a == "--workers") o.workers = atoi(argv[++i]);
        else if (a == "--out") o.out = argv[++i];
        else if (a == "--replay-dir") o.replay_dir = argv[++i];
        else if (a == "--replay") o.replay_file = argv[++i];
        else if (a == "--property") o.property = argv[++i];
        else if (a == "--only") o.only = argv[++i];
        else if (a == "--verbose") o.verbose = true;
    }
    if (o.workers > MAX_WORKERS) o.workers = MAX_WORKERS;
    G & x = g();
    x.thorough = o.thorough;
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::vector<Scenario> & sc = scenarios();
    if (sc.size() > MAX_SCEN) { fprintf(stderr, "too many scenarios\n"); return 2; }
    void * m = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    x.sh = new (m) Shared();
    uint64_t tsz = 1ULL << (o.thorough ? 27 : 24);
    x.tbl_mask = tsz - 1;
    x.tbl = (std::atomic<uint64_t> *)mmap(nullptr, tsz * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    x.otbl_mask = (1 << 20) - 1;
    x.otbl = (std::atomic<uint64_t> *)mmap(nullptr, (1 << 20) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (x.tbl == MAP_FAILED || x.otbl == MAP_FAILED) { perror("mmap"); return 2; }
    if (o.replay_dir.empty()) o.replay_dir = "/tmp";
    const double t_start = now_s();

    if (!o.replay_file.empty()) {
        // format: first line "scenario <name>", second "choices a b c"
        FILE * f = fopen(o.replay_file.c_str(), "r"); if (!f) { perror("replay"); return 2; }
        char line[65536]; std::string sname; std::vector<uint16_t> path; bool sub = false;
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "scenario ", 9)) { sname = line + 9; sname.erase(sname.find_last_not_of("\r\n") + 1); }
            if (!strncmp(line, "subtree", 7)) sub = true;
            if (!strncmp(line, "choices", 7)) { char * p = line + 7; char * e; for (;;) { long v = strtol(p, &e, 10); if (e == p) break; path.push_back((uint16_t)v); p = e; } break; }
        }
        fclose(f);
        for (size_t i = 0; i < sc.size(); ++i) if (sc[i].name == sname) {
            std::string msg, tf = o.replay_dir + "/replay-trace.txt";
            int r = run_alone((int)i, path, 120, msg, tf, sub);
            printf("%s", slurp(tf).c_str()); printf("%s", slurp(tf + ".stderr", 8000).c_str());
            printf("replay: %s\n", r == 0 ? "no violation" : msg.c_str());
            return r;
        }
        fprintf(stderr, "unknown scenario %s\n", sname.c_str()); return 2;
    }

    // ---- build the task list by probing (in a child process per scenario, to survive crashes)
    std::vector<Task> tasks; std::vector<uint16_t> pool;
    struct Viol { int scen; std::vector<uint16_t> path; std::string msg; bool hang; int task; };
    std::vector<Viol> suspects;
    const int SPLIT_TARGET = 256;
    size_t shm_sz = 1 << 24;
    uint32_t * probe_out = (uint32_t *)mmap(nullptr, shm_sz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (size_t s = 0; s < sc.size(); ++s) {
        if (sc[s].thorough_only && !o.thorough) continue;
        if (!o.only.empty() && sc[s].name.find(o.only) == std::string::npos) continue;
        probe_out[0] = 0;
        Slot * sl = &x.sh->slot[0]; sl->failed = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            child_setup();
            if (!o.verbose) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1); }
            x.slot = sl;
            std::vector<std::vector<uint16_t>> level(1), next; std::vector<std::vector<uint16_t>> leafs;
            int maxd = sc[s].split ? sc[s].split : 6;
            for (int d = 0; d < maxd; ++d) {
                next.clear();
                for (size_t k = 0; k < level.size(); ++k) {
                    auto & pf = level[k];
                    for (size_t i = 0; i < pf.size(); ++i) sl->path[i] = pf[i];
                    x.probe_at = (int)pf.size(); x.probe_arity = 0;
                    try { execute((int)s, (int)pf.size()); } catch (const ProbeStop &) { }
                    if (x.probe_arity == 0) leafs.push_back(pf);
                    else for (int c = 0; c < x.probe_arity; ++c) { auto q = pf; q.push_back((uint16_t)c); next.push_back(q); }
                }
                level.swap(next);
                if (level.empty()) break;
                if (!sc[s].split && (int)level.size() >= SPLIT_TARGET) break;
            }
            for (auto & l : leafs) level.push_back(l);
            uint32_t w = 1; 
            for (auto & pf : level) { probe_out[w++] = (uint32_t)pf.size(); for (auto c : pf) probe_out[w++] = c; if (w * 4 + 4096 > shm_sz) { _exit(45); } }
            probe_out[0] = (uint32_t)level.size();
            _exit(0);
        }
        int status; uint64_t last = 0; double t_last = now_s(); bool hung = false;
        for (;;) {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid) break;
            if (sl->beat != last) { last = sl->beat; t_last = now_s(); }
            else if (now_s() - t_last > sc[s].hang_s) { kill(pid, SIGKILL); waitpid(pid, &status, 0); hung = true; break; }
            usleep(500);
        }
        if (!hung && WIFEXITED(status) && WEXITSTATUS(status) == 0) {
            uint32_t r = 1;
            for (uint32_t k = 0; k < probe_out[0]; ++k) {
                Task t; t.scenario = (int)s; t.len = (int)probe_out[r++]; t.off = (uint32_t)pool.size();
                for (int i = 0; i < t.len; ++i) pool.push_back((uint16_t)probe_out[r++]);
                tasks.push_back(t);
            }
        } else if (!hung && WIFEXITED(status) && (WEXITSTATUS(status) >= 43 && WEXITSTATUS(status) <= 45)) {
            fprintf(stderr, "mc: probing of %s failed (%d)\n", sc[s].name.c_str(), WEXITSTATUS(status)); return 2;
        } else {
            Viol v; v.task = -1; v.scen = (int)s; v.hang = hung; for (int i = 0; i < sl->len; ++i) v.path.push_back(sl->path[i]);
            suspects.push_back(v); break;
        }
    }
    // interleave: long scenarios first is unknown; keep order
    std::vector<pid_t> pids(o.workers, 0);
    std::vector<uint64_t> last_beat(o.workers, 0); std::vector<double> last_t(o.workers, 0); 
    auto spawn = [&](int w) {
        Slot * sl = &x.sh->slot[w]; sl->failed = 0; sl->active = 0; sl->len = 0;
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            child_setup();
            if (!o.verbose) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); dup2(dn, 1); }
            x.slot = sl; x.probe_at = -1;
            for (;;) {
                uint32_t t = x.sh->next_task++;
                if (t >= tasks.size()) break;
                sl->scenario = tasks[t].scenario; sl->task = (int)t; sl->active = 1;
                worker(tasks[t].scenario, pool.data() + tasks[t].off, tasks[t].len);
                sl->active = 0;
                _exit(7); // a fresh process per task: executions of different tasks cannot influence each other
            }
            _exit(0);
        }
        pids[w] = pid; last_beat[w] = sl->beat; last_t[w] = now_s();
    };
    int irreproducible = 0;
    if (suspects.empty()) for (int w = 0; w < o.workers; ++w) spawn(w);
    int running = suspects.empty() ? o.workers : 0;
    double t_report = now_s();
    while (running > 0 && suspects.empty()) {
        usleep(300);
        for (int w = 0; w < o.workers && suspects.empty(); ++w) {
            if (!pids[w]) continue;
            int status; pid_t r = waitpid(pids[w], &status, WNOHANG);
            Slot * sl = &x.sh->slot[w];
            if (r == pids[w]) {
                pids[w] = 0;
                if (WIFEXITED(status) && WEXITSTATUS(status) == 0) { running--; continue; }
                if (WIFEXITED(status) && WEXITSTATUS(status) == 7) { spawn(w); continue; }
                if (WIFEXITED(status) && (WEXITSTATUS(status) == 43)) { fprintf(stderr, "mc: path too long in %s\n", sc[sl->scenario].name.c_str()); for (auto p : pids) if (p) kill(p, SIGKILL); return 2; }
                Viol v; v.task = sl->task; v.scen = sl->scenario; v.hang = false; for (int i = 0; i < sl->len; ++i) v.path.push_back(sl->path[i]);
                v.msg = (WIFEXITED(status) && WEXITSTATUS(status) == 42) ? sl->msg : "crash";
                suspects.push_back(v);
            } else {
                uint64_t b = sl->beat;
                if (b != last_beat[w]) { last_beat[w] = b; last_t[w] = now_s(); }
                else if (sl->active && now_s() - last_t[w] > sc[sl->scenario].hang_s) {
                    Viol v; v.task = sl->task; v.scen = sl->scenario; v.hang = true; v.msg = "hang"; for (int i = 0; i < sl->len; ++i) v.path.push_back(sl->path[i]);
                    suspects.push_back(v);
                }
            }
        }
        if (o.verbose && now_s() - t_report > 5) { t_report = now_s(); uint64_t e = 0; for (size_t s = 0; s < sc.size(); ++s) e += x.sh->scen[s].execs; fprintf(stderr, "[%.0fs] tasks %u/%zu execs %llu\n", now_s() - t_start, x.sh->next_task.load(), tasks.size(), (unsigned long long)e); }
    }
    for (auto p : pids) if (p) { kill(p, SIGKILL); waitpid(p, nullptr, 0); }
    int rc = 0; std::string vmsg, vreplay;
    if (!suspects.empty()) {
        Viol & v = suspects[0];
        std::string tf = o.replay_dir + "/" + o.property + "-trace.txt", msg;
        double limit = std::max(60.0, sc[v.scen].hang_s * 3);
        int ok = 0, bad = 0, div = 0;
        for (int k = 0; k < 2; ++k) { int r = run_alone(v.scen, v.path, limit, msg, tf); if (r == 1) bad++; else if (r == 0) ok++; else div++; }
        if (bad == 0 && !v.hang) for (int k = 0; k < 3; ++k) { int r = run_alone(v.scen, v.path, limit, msg, tf); if (r == 1) bad++; else if (r == 0) ok++; else div++; }
        bool subtree = false;
        if (bad == 0 && v.task >= 0) {
            // the execution alone is fine: the damage was done by an earlier execution of the same task; re-run the task
            std::vector<uint16_t> pf(pool.begin() + tasks[v.task].off, pool.begin() + tasks[v.task].off + tasks[v.task].len);
            for (int k = 0; k < 2; ++k) { int r = run_alone(v.scen, pf, limit, msg, tf, true); if (r == 1) bad++; else if (r == 0) ok++; else div++; }
            if (bad) { subtree = true; v.path = pf; }
        }
        if (bad > 0) {
            rc = 1; vmsg = msg;
            vreplay = o.replay_dir + "/" + o.property + "-replay.txt";
            FILE * f = fopen(vreplay.c_str(), "w");
            if (f) {
                fprintf(f, "scenario %s\n%s", sc[v.scen].name.c_str(), subtree ? "subtree\nchoices" : "choices");
                for (auto c : v.path) fprintf(f, " %d", c);
                fprintf(f, "\nmessage %s\nreproduced %d of %d\ntrace:\n%s\nstderr:\n%s\n", msg.c_str(), bad, bad + ok + div, slurp(tf).c_str(), slurp(tf + ".stderr", 20000).c_str());
                fclose(f);
            }
            printf("violation in scenario %s: %s\n", sc[v.scen].name.c_str(), msg.c_str());
            printf("%s", slurp(tf, 4000).c_str());
        } else {
            fprintf(stderr, "mc: failure in %s (%s) was not reproducible when re-executed alone\n", sc[v.scen].name.c_str(), v.msg.c_str());
            rc = 2;
        }
    }
    // ---- statistics
    uint64_t execs = 0, steps = 0; std::string js_sc;
    for (size_t s = 0; s < sc.size(); ++s) {
        uint64_t e = x.sh->scen[s].execs, st = x.sh->scen[s].steps; if (!e) continue;
        execs += e; steps += st;
        char b[512]; snprintf(b, sizeof b, "%s{\"name\":\"%s\",\"executions\":%llu,\"steps\":%llu,\"max_choices\":%llu}", js_sc.empty() ? "" : ",", json_escape(sc[s].name).c_str(), (unsigned long long)e, (unsigned long long)st, (unsigned long long)x.sh->scen[s].maxlen.load());
        js_sc += b;
    }
    // samples: trace the recorded sample path of some scenarios
    std::string js_samples;
    if (rc == 0) {
        int cnt = 0;
        for (size_t s = 0; s < sc.size() && cnt < 3; ++s) {
            ScenStat & st = x.sh->scen[s]; if (!st.execs) continue;
            std::vector<uint16_t> p(st.sample, st.sample + st.sample_len.load());
            std::string tf = o.replay_dir + "/" + o.property + "-sample.txt", msg;
            int r = run_alone((int)s, p, 120, msg, tf);
            if (r == 1) { printf("violation in scenario %s while re-executing a sample: %s\n", sc[s].name.c_str(), msg.c_str()); 
                rc = 1; vmsg = msg; vreplay = o.replay_dir + "/" + o.property + "-replay.txt"; FILE * f = fopen(vreplay.c_str(), "w"); if (f) { fprintf(f, "scenario %s\nchoices", sc[s].name.c_str()); for (auto c : p) fprintf(f, " %d", c); fprintf(f, "\nmessage %s\n", msg.c_str()); fclose(f); } break; }
            std::string ch; for (auto c : p) { char b[16]; snprintf(b, 16, "%d ", c); ch += b; }
            js_samples += (js_samples.empty() ? "" : ","); js_samples += "{\"scenario\":\"" + json_escape(sc[s].name) + "\",\"choices\":\"" + ch + "\",\"trace\":\"" + json_escape(slurp(tf, 1500).substr(0, 1500)) + "\"}";
            unlink(tf.c_str()); unlink((tf + ".stderr").c_str());
            cnt++;
        }
    }
    if (!o.out.empty()) {
        FILE * f = fopen(o.out.c_str(), "w");
        if (!f) { perror("out"); return 2; }
        fprintf(f, "{\"states\":%llu,\"outcomes\":%llu,\"state_table_overflow\":%llu,\"transitions\":%llu,\"executions\":%llu,\"tasks\":%zu,\"wall_s\":%.3f,\"rc\":%d,\"violation\":\"%s\",\"replay\":\"%s\",\"scenarios\":[%s],\"samples\":[%s]}\n",
                (unsigned long long)x.sh->states.load(), (unsigned long long)x.sh->outcomes.load(), (unsigned long long)x.sh->state_tbl_full.load(), (unsigned long long)steps, (unsigned long long)execs, tasks.size(), now_s() - t_start, rc, json_escape(vmsg).c_str(), json_escape(vreplay).c_str(), js_sc.c_str(), js_samples.c_str());
        fclose(f);
    }
    printf("%s: executions=%llu transitions=%llu states=%llu outcomes=%llu wall=%.1fs rc=%d\n", o.property.c_str(), (unsigned long long)execs, (unsigned long long)steps, (unsigned long long)x.sh->states.load(), (unsigned long long)x.sh->outcomes.load(), now_s() - t_start, rc);
    if (rc == 0 && execs == 0) { fprintf(stderr, "mc: nothing explored\n"); return 2; }
    if (irreproducible) return 2;
    return rc;
}

} // namespace mc
#endif

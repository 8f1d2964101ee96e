#include "mc.h"
#include <cstdarg>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <dirent.h>
#include <map>
#include <set>
#include <algorithm>

namespace mc {

const char *workdir = nullptr;
bool thorough = false;

static const int MAXW = 64;
struct Slot {
    volatile uint64_t cur;        // case being run
    volatile uint64_t sub;
    volatile uint64_t ticks;      // progress counter
    volatile uint64_t done, states, transitions, nontrivial;
    volatile uint32_t nfail;
    volatile uint32_t finished;
    struct { uint64_t idx; char msg[1200]; } fails[16];
};
static Slot *slots = nullptr;
static Slot *me = nullptr;
static uint8_t *bitmap = nullptr;
static const uint64_t BITMAP_BITS = 1ull << 25;
static bool case_failed = false;

void fail(const char *fmt, ...) {
    if (case_failed) return;       // first message of the case is kept
    case_failed = true;
    if (!me) return;
    if (me->nfail < 16) {
        auto &f = me->fails[me->nfail];
        f.idx = me->cur;
        va_list ap; va_start(ap, fmt);
        vsnprintf(f.msg, sizeof f.msg, fmt, ap);
        va_end(ap);
    }
    me->nfail = me->nfail + 1;
}
bool failed() { return case_failed; }
void states(uint64_t n) { if (me) me->states = me->states + n; }
void transitions(uint64_t n) { if (me) { me->transitions = me->transitions + n; } }
void nontrivial(uint64_t n) { if (me) me->nontrivial = me->nontrivial + n; }
void subcase(uint64_t n) { if (me) me->sub = n; }
void touch() { if (me) me->ticks = me->ticks + 1; }
void outcome(uint64_t h) {
    if (!bitmap) return;
    h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
    h &= BITMAP_BITS - 1;
    uint8_t m = 1 << (h & 7);
    if (!(bitmap[h >> 3] & m)) __sync_fetch_and_or(&bitmap[h >> 3], m);
}
uint64_t fnv(const void *p, size_t n, uint64_t h) {
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 1099511628211ull; }
    return h;
}
std::string hex(const void *p, size_t n) {
    static const char *H = "0123456789abcdef"; std::string r;
    for (size_t i = 0; i < n; i++) { r += H[((const uint8_t *)p)[i] >> 4]; r += H[((const uint8_t *)p)[i] & 15]; }
    return r;
}
std::string quote(const std::string &s) {
    std::string r = "'";
    for (unsigned char c : s) {
        if (c == '\n') r += "\\n";
        else if (c < 32 || c == 127 || c >= 128) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; }
        else r += c;
    }
    return r + "'";
}
std::string readfile(const std::string &path) {
    std::string r; int fd = open(path.c_str(), O_RDONLY);
    if (fd < 0) return r;
    char buf[65536]; ssize_t n;
    while ((n = read(fd, buf, sizeof buf)) > 0) r.append(buf, n);
    close(fd); return r;
}
bool writefile(const std::string &path, const std::string &c) {
    int fd = open(path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0) return false;
    size_t o = 0;
    while (o < c.size()) { ssize_t n = write(fd, c.data() + o, c.size() - o); if (n <= 0) { close(fd); return false; } o += n; }
    close(fd); return true;
}
static std::string jesc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void rmtree(const std::string &d) {
    DIR *dir = opendir(d.c_str());
    if (dir) {
        while (dirent *e = readdir(dir)) {
            if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
            std::string p = d + "/" + e->d_name; struct stat st;
            if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rmtree(p); else unlink(p.c_str());
        }
        closedir(dir);
    }
    rmdir(d.c_str());
}

static std::string root;

// body of a worker process: run [start,end) stepping by 'step' (or a contiguous block), never returns
static void worker(const Space &sp, int slot, uint64_t start, uint64_t step, uint64_t end) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    me = &slots[slot];
    std::string wd = root + "/w" + std::to_string(slot);
    mkdir(wd.c_str(), 0700);
    workdir = strdup(wd.c_str());
    if (chdir(wd.c_str()) != 0) _exit(99);
    std::string err = wd + ".err";
    int dn = open("/dev/null", O_RDWR);
    if (!getenv("MC_VERBOSE")) { dup2(dn, 1); int e = open(err.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600); dup2(e, 2); close(e); }
    dup2(dn, 0); close(dn);
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 512u << 20; setrlimit(RLIMIT_FSIZE, &rl);
    signal(SIGXFSZ, SIG_IGN);
    if (sp.worker_init) sp.worker_init();
    for (uint64_t i = start; i < end; i += step) {
        me->cur = i; me->sub = 0; case_failed = false;
        me->ticks = me->ticks + 1;
        sp.run(i);
        me->done = me->done + 1;
        if ((me->done & 63) == 0) { // keep the captured diagnostics short
            fflush(stdout); fflush(stderr);
            if (!getenv("MC_VERBOSE") && lseek(2, 0, SEEK_CUR) > (1 << 20)) { if (ftruncate(2, 0)) {} }
        }
        if (me->nfail >= 16) break;
    }
    me->finished = 1;
    _exit(0);
}

static std::string crash_summary(int slot, int status) {
    std::string e = readfile(root + "/w" + std::to_string(slot) + ".err");
    std::string r;
    char b[100];
    if (WIFSIGNALED(status)) { snprintf(b, 100, "killed by signal %d", WTERMSIG(status)); r = b; }
    else { snprintf(b, 100, "process exited with status %d", WEXITSTATUS(status)); r = b; }
    size_t p = e.rfind("SUMMARY: ");
    if (p != std::string::npos) r += "; " + e.substr(p, e.find('\n', p) - p);
    p = e.rfind("ERROR: AddressSanitizer");
    if (p != std::string::npos) r += "; " + e.substr(p, std::min<size_t>(e.find('\n', p) - p, 200));
    p = e.rfind("Assertion ");
    if (p != std::string::npos) { size_t q = e.rfind('\n', p); if (q == std::string::npos) q = 0; r += "; " + e.substr(q, e.find('\n', p) - q); }
    p = e.rfind("terminate called");
    if (p != std::string::npos) r += "; " + e.substr(p, 120);
    for (auto &c : r) if (c == '\n') c = ' ';
    return r.substr(0, 900);
}

struct Finding { uint64_t idx; std::string kind, msg; uint64_t from = 0, step = 1; };

// CPU time of a worker: on a busy machine a case without progress is one that computes, or that waits for much longer
static double cpu(pid_t p) {
    char b[512], n[64]; snprintf(n, sizeof n, "/proc/%d/stat", (int)p); FILE *f = fopen(n, "r"); if (!f) return 0;
    size_t k = fread(b, 1, sizeof b - 1, f); fclose(f); b[k] = 0; char *q = strrchr(b, ')'); unsigned long u = 0, s = 0;
    if (!q || sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s) != 2) return 0;
    return (double)(u + s) / sysconf(_SC_CLK_TCK);
}

// run one case alone in a fresh process; returns "" when it passes
// (with from < idx: after the cases from, from+step, ... have run in the same process)
static std::string run_alone(const Space &sp, int slot, uint64_t idx, double limit, std::string &kind, uint64_t from, uint64_t step) {
    memset((void *)&slots[slot], 0, sizeof(Slot));
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) worker(sp, slot, from, step, idx + 1);
    double t0 = now(); int st;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > limit && (cpu(pid) > limit || now() - t0 > 4 * limit)) {
            kill(pid, SIGKILL); waitpid(pid, &st, 0);
            kind = "hang";
            char b[160]; snprintf(b, sizeof b, "no termination within %.0f s (inner position %llu)", limit, (unsigned long long)slots[slot].sub);
            return b;
        }
        usleep(2000);
    }
    Slot &s = slots[slot];
    for (uint32_t i = 0; i < s.nfail && i < 16; i++) if (s.fails[i].idx == idx) { kind = "violation"; return s.fails[i].msg; }
    if (!s.finished && s.cur == idx) {
        kind = "crash"; char b[64]; snprintf(b, sizeof b, " (inner position %llu)", (unsigned long long)s.sub);
        return crash_summary(slot, st) + b;
    }
    return "";
}

int main_(int argc, char **argv, const std::vector<Space> &spaces) {
    int nw = 8; double hang = 20; int maxfind = 12; const char *replay_space = nullptr; uint64_t replay_idx = 0; bool list = false; uint64_t replay_from = ~0ull, replay_step = 1;
    const char *only = nullptr; uint64_t describe_samples = 3; double budget = 1e9;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--workers") nw = atoi(argv[++i]);
        else if (a == "--thorough") thorough = true;
        else if (a == "--hang") hang = atof(argv[++i]);
        else if (a == "--max-findings") maxfind = atoi(argv[++i]);
        else if (a == "--only") only = argv[++i];
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--list") list = true;
        else if (a == "--from") { replay_from = strtoull(argv[++i], 0, 10); replay_step = strtoull(argv[++i], 0, 10); }
        else if (a == "--replay") { replay_space = argv[++i]; replay_idx = strtoull(argv[++i], 0, 10); }
    }
    if (nw > MAXW - 1) nw = MAXW - 1;
    if (list) { for (auto &s : spaces) printf("%s %llu\n", s.name.c_str(), (unsigned long long)s.count); return 0; }
    slots = (Slot *)mmap(0, sizeof(Slot) * MAXW, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    bitmap = (uint8_t *)mmap(0, BITMAP_BITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    const char *bases[] = {getenv("MC_TMP"), "/dev/shm", "/tmp"};
    for (auto b : bases) {
        if (!b) continue;
        std::string t = std::string(b) + "/mc.XXXXXX"; std::vector<char> v(t.begin(), t.end()); v.push_back(0);
        if (mkdtemp(v.data())) { root = v.data(); break; }
    }
    if (root.empty()) { fprintf(stderr, "no scratch directory\n"); return 3; }
    int rc = 0; double T0 = now();

    if (replay_space) {
        for (auto &s : spaces) if (s.name == replay_space && replay_idx < s.count) {
            std::string kind; std::string m = run_alone(s, 0, replay_idx, 600, kind, replay_from == ~0ull ? replay_idx : replay_from, replay_step);
            printf("{\"replay\":\"%s\",\"idx\":%llu,\"case\":\"%s\",\"kind\":\"%s\",\"msg\":\"%s\"}\n", s.name.c_str(), (unsigned long long)replay_idx,
                   jesc(s.describe ? s.describe(replay_idx) : "").c_str(), m.empty() ? "pass" : kind.c_str(), jesc(m).c_str());
            rc = m.empty() ? 0 : 1;
        }
        rmtree(root); return rc;
    }

    for (auto &sp : spaces) {
        if (only && sp.name.compare(0, strlen(only), only) != 0) continue;
        memset((void *)slots, 0, sizeof(Slot) * MAXW);
        double t0 = now();
        int W = (int)std::min<uint64_t>(nw, std::max<uint64_t>(1, sp.count));
        std::vector<pid_t> pid(W, 0); std::vector<uint64_t> lasttick(W, 0); std::vector<double> lastt(W, now()), lastc(W, 0);
        std::vector<Finding> finds; int alive = 0; bool stop = false;
        uint64_t aborted = 0;
        auto spawn = [&](int w, uint64_t start) {
            slots[w].finished = 0; fflush(stdout);
            pid_t p = fork();
            if (p == 0) worker(sp, w, start, W, sp.count);
            pid[w] = p; lastt[w] = now(); lastc[w] = 0; lasttick[w] = slots[w].ticks; alive++;
        };
        for (int w = 0; w < W; w++) spawn(w, w);
        auto collect = [&](int w) { // move violations recorded by worker w
            uint32_t n = std::min<uint32_t>((uint32_t)slots[w].nfail, 16);
            for (uint32_t i = 0; i < n; i++) finds.push_back({slots[w].fails[i].idx, "violation", slots[w].fails[i].msg});
            slots[w].nfail = 0;
        };
        int ncrash = 0;
        while (alive > 0) {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                for (int w = 0; w < W; w++) if (pid[w] == p) {
                    pid[w] = 0; alive--;
                    bool fin = slots[w].finished;
                    uint64_t cur = slots[w].cur; bool full = slots[w].nfail >= 16;
                    collect(w);
                    if (!fin) {
                        finds.push_back({cur, "crash", crash_summary(w, st)}); ncrash++;
                        if (!stop && ncrash < 40 && cur + W < sp.count) spawn(w, cur + W);
                        else if (cur + W < sp.count) aborted++;
                    } else if (full) {
                        if (!stop && (int)finds.size() < 400 && cur + W < sp.count) spawn(w, cur + W); else if (cur + W < sp.count) aborted++;
                    }
                }
                continue;
            }
            double n = now();
            for (int w = 0; w < W; w++) if (pid[w]) {
                if (slots[w].ticks != lasttick[w]) { lasttick[w] = slots[w].ticks; lastt[w] = n; lastc[w] = -1; }
                else if (n - lastt[w] > hang / 4 && lastc[w] < 0) lastc[w] = cpu(pid[w]);
                else if (n - lastt[w] > hang && (n - lastt[w] > 5 * hang || cpu(pid[w]) - lastc[w] > hang * 0.7)) {
                    kill(pid[w], SIGKILL); int s2; waitpid(pid[w], &s2, 0); pid[w] = 0; alive--;
                    uint64_t cur = slots[w].cur; collect(w);
                    finds.push_back({cur, "hang", "no progress"}); ncrash++;
                    if (!stop && ncrash < 8 && cur + W < sp.count) spawn(w, cur + W); else if (cur + W < sp.count) aborted++;
                }
            }
            if (n - T0 > budget && !stop) { // wall-clock cap: reported as not exhaustive
                stop = true;
                for (int w = 0; w < W; w++) if (pid[w]) { kill(pid[w], SIGKILL); int s2; waitpid(pid[w], &s2, 0); pid[w] = 0; alive--; collect(w); aborted++; }
            }
            usleep(1000);
        }
        uint64_t done = 0, stt = 0, tr = 0, nt = 0;
        for (int w = 0; w < W; w++) { done += slots[w].done; stt += slots[w].states; tr += slots[w].transitions; nt += slots[w].nontrivial; }
        // replay every finding alone, simplest first
        std::sort(finds.begin(), finds.end(), [](const Finding &a, const Finding &b) { return a.idx < b.idx; });
        std::vector<Finding> conf; int flaky = 0; uint64_t total = finds.size();
        for (auto &f : finds) {
            if ((int)conf.size() >= maxfind) break;
            std::string kind, m = run_alone(sp, MAXW - 1, f.idx, std::max(60.0, hang * 3), kind, f.idx, 1);
            uint64_t from = f.idx, alone[4] = {slots[MAXW - 1].done, slots[MAXW - 1].states, slots[MAXW - 1].transitions, slots[MAXW - 1].nontrivial};
            // a failure that needs the history of its process: replay growing prefixes of that history, twice each
            for (uint64_t h = 1; m.empty() && h < 100000000; h *= 8) {
                uint64_t back = h * W; from = f.idx > back ? f.idx - back : f.idx % W;
                m = run_alone(sp, MAXW - 1, f.idx, std::max(60.0, hang * 3), kind, from, W);
                if (!m.empty()) { std::string k2, m2 = run_alone(sp, MAXW - 1, f.idx, std::max(60.0, hang * 3), k2, from, W); if (k2 != kind) m = ""; }
                if (from < (uint64_t)W) break;
            }
            if (m.empty() && f.kind == "hang") { done += alone[0]; stt += alone[1]; tr += alone[2]; nt += alone[3]; total--; continue; } // only slow: explored now
            if (m.empty()) { flaky++; fprintf(stderr, "not reproduced alone: %s #%llu %s %s\n", sp.name.c_str(), (unsigned long long)f.idx, f.kind.c_str(), f.msg.c_str());
                printf("{\"flaky\":\"%s\",\"idx\":%llu,\"msg\":\"%s\"}\n", sp.name.c_str(), (unsigned long long)f.idx, jesc(f.msg).c_str());
                continue; }
            conf.push_back({f.idx, kind, m, from, from == f.idx ? 1 : (uint64_t)W});
        }
        uint64_t distinct = 0;
        for (uint64_t i = 0; i < BITMAP_BITS / 8; i += 8) { uint64_t v; memcpy(&v, bitmap + i, 8); distinct += __builtin_popcountll(v); }
        printf("{\"space\":\"%s\",\"count\":%llu,\"done\":%llu,\"aborted\":%llu,\"states\":%llu,\"transitions\":%llu,\"nontrivial\":%llu,\"outcomes\":%llu,\"findings\":%llu,\"flaky\":%d,\"wall\":%.2f,\"samples\":[",
               sp.name.c_str(), (unsigned long long)sp.count, (unsigned long long)done, (unsigned long long)aborted, (unsigned long long)stt, (unsigned long long)tr,
               (unsigned long long)nt, (unsigned long long)distinct, (unsigned long long)total, flaky, now() - t0);
        if (sp.describe) for (uint64_t k = 0; k < describe_samples; k++) {
            uint64_t i = sp.count * k / describe_samples + (k ? (sp.count / describe_samples) / 2 : 0); if (i >= sp.count) i = sp.count - 1;
            printf("%s\"%s\"", k ? "," : "", jesc(sp.describe(i).substr(0, 400)).c_str());
        }
        printf("]}\n");
        memset(bitmap, 0, BITMAP_BITS / 8);
        for (auto &f : conf) {
            printf("{\"finding\":\"%s\",\"idx\":%llu,\"from\":%llu,\"step\":%llu,\"kind\":\"%s\",\"case\":\"%s\",\"msg\":\"%s\"}\n", sp.name.c_str(), (unsigned long long)f.idx, (unsigned long long)f.from, (unsigned long long)f.step, f.kind.c_str(),
                   jesc(sp.describe ? sp.describe(f.idx) : "").c_str(), jesc(f.msg).c_str());
            rc = 1;
        }
        fflush(stdout);
    }
    rmtree(root);
    return rc;
}
}

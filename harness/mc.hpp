// Small explorer runtime: every job runs in its own forked process (so every
// job starts from the same untouched process state and a crash or hang is
// attributed to it), 8 at a time; results are merged by the scheduler.
#ifndef MC_HPP
#define MC_HPP
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

inline std::string fmt(const char *f, ...) {
    char b[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 12) + (h >> 4);
    h *= 0xff51afd7ed558ccdULL;
    return h ^ (h >> 32);
}
inline uint64_t hd(uint64_t h, double d) { // hash of a double, rounded to about 9 digits
    if (d != d) return mix(h, 0x7ff8dead);
    if (d == 0) return mix(h, 0);
    int e;
    double m = frexp(d, &e);
    return mix(mix(h, (uint64_t)(int64_t)llround(m * 1e9)), (uint64_t)(e + 5000));
}

// |a-b| <= abs + rel*max(|a|,|b|); NaN never matches
inline bool close(double a, double b, double rel, double abs = 0) {
    if (a == b) return true;
    if (!(std::isfinite(a) && std::isfinite(b))) return false;
    return std::fabs(a - b) <= abs + rel * std::fmax(std::fabs(a), std::fabs(b));
}

struct Ctx {
    uint64_t transitions = 0, traces = 0;
    std::unordered_set<uint64_t> states;
    std::vector<std::string> fails;
    std::vector<std::string> samples;
    std::map<std::string, double> counters;
    uint64_t nfail = 0;
    void t(uint64_t n = 1) { transitions += n; }
    void trace(uint64_t n = 1) { traces += n; }
    void state(uint64_t h) { states.insert(h); }
    void fail(const std::string &s) {
        nfail++;
        if (fails.size() < 5) fails.push_back(s);
    }
    template <class S> bool check(bool c, S &&msg) { // msg: callable giving the message
        if (!c) fail(msg());
        return c;
    }
    bool eq(double a, double b, double rel, double abs, const char *f, ...) {
        if (close(a, b, rel, abs)) return true;
        char buf[2048];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        fail(fmt("%s: got %.12g expected %.12g", buf, a, b));
        return false;
    }
    void sample(const std::string &s) {
        if (samples.size() < 2) samples.push_back(s);
    }
    void count(const char *n, double v = 1) { counters[n] += v; }
    // "max:" counters keep the maximum
    void maxi(const char *n, double v) {
        auto &x = counters[std::string("max:") + n];
        if (v > x) x = v;
    }
};

struct Job {
    std::string id;
    std::function<void(Ctx &)> fn;
    int phase = 0; // jobs of a phase start after all jobs of earlier phases ended
};

struct Opt {
    bool thorough = false;
    uint64_t seed = 0;
    std::string job, out, arg;
    int timeout = 120; // CPU seconds per job; three times as much wall time
    bool list = false, verbose = false;
};

inline std::string jesc(const std::string &s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32) r += fmt("\\u%04x", c);
        else r += c;
    }
    return r;
}

inline void wr(FILE *f, const std::string &s) {
    uint32_t n = s.size();
    fwrite(&n, 4, 1, f);
    fwrite(s.data(), 1, n, f);
}
inline std::string rd(FILE *f) {
    uint32_t n = 0;
    if (fread(&n, 4, 1, f) != 1) return "";
    std::string s(n, 0);
    if (n && fread(&s[0], 1, n, f) != n) return "";
    return s;
}

// memory shared by all jobs (for values produced by an earlier phase)
template <class T> T *shared(size_t n) {
    void *p = mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (T *)p;
}

inline Opt parse(int argc, char **argv) {
    Opt o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--thorough") o.thorough = true;
        else if (a == "--seed") o.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--job") o.job = val();
        else if (a == "--out") o.out = val();
        else if (a == "--arg") o.arg = val();
        else if (a == "--timeout") o.timeout = atoi(val().c_str());
        else if (a == "--list") o.list = true;
        else if (a == "-v") o.verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); exit(3); }
    }
    return o;
}

inline int run(const Opt &o, std::vector<Job> jobs) {
    if (o.list) {
        for (auto &j : jobs) printf("%d %s\n", j.phase, j.id.c_str());
        return 0;
    }
    if (!o.job.empty()) {
        int ph = -1;
        for (auto &j : jobs) if (j.id == o.job) ph = j.phase;
        if (ph < 0) { fprintf(stderr, "no such job %s\n", o.job.c_str()); return 3; }
        std::vector<Job> k;
        for (auto &j : jobs) if (j.id == o.job || j.phase < ph) k.push_back(j);
        jobs = k;
    }
    int ncpu = sysconf(_SC_NPROCESSORS_ONLN);
    if (ncpu < 1) ncpu = 1;
    if (ncpu > 8) ncpu = 8;
    std::unordered_set<uint64_t> states;
    uint64_t transitions = 0, traces = 0, done = 0, nfail = 0;
    std::map<std::string, double> counters;
    std::vector<std::pair<std::string, std::string>> viol;
    std::vector<std::string> samples;
    struct Run { size_t idx; FILE *f; };
    std::map<pid_t, Run> live;
    int maxphase = 0;
    for (auto &j : jobs) if (j.phase > maxphase) maxphase = j.phase;
    fflush(stdout);
    fflush(stderr);
    bool stop = false;
    int badjobs = 0;
    auto reap = [&] {
        int st = 0;
        pid_t pid = wait(&st);
        if (pid < 0) { perror("wait"); exit(3); }
        auto it = live.find(pid);
        if (it == live.end()) return;
        Run r = it->second;
        live.erase(it);
        const Job &j = jobs[r.idx];
        const size_t before = viol.size();
        if (stop && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fclose(r.f); return; }
        rewind(r.f);
        std::string mark = rd(r.f);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && mark == "ok") {
            uint64_t v[4];
            if (fread(v, 8, 4, r.f) == 4) {
                transitions += v[0];
                traces += v[1];
                nfail += v[3];
                std::vector<uint64_t> hs(v[2]);
                if (v[2] && fread(hs.data(), 8, v[2], r.f) != v[2]) viol.push_back({j.id, "harness: truncated result"});
                for (auto h : hs) states.insert(h);
                uint32_t n = 0;
                if (fread(&n, 4, 1, r.f) != 1) n = 0;
                for (uint32_t i = 0; i < n; i++) viol.push_back({j.id, rd(r.f)});
                if (fread(&n, 4, 1, r.f) != 1) n = 0;
                for (uint32_t i = 0; i < n; i++) samples.push_back(j.id + ": " + rd(r.f));
                if (fread(&n, 4, 1, r.f) != 1) n = 0;
                for (uint32_t i = 0; i < n; i++) {
                    std::string k = rd(r.f);
                    double d = 0;
                    if (fread(&d, 8, 1, r.f) != 1) d = 0;
                    if (k.compare(0, 4, "max:") == 0) { auto &x = counters[k]; if (d > x) x = d; }
                    else counters[k] += d;
                }
            }
            done++;
        } else if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { // harness problem, not a verdict
            fprintf(stderr, "harness error in job %s\n", j.id.c_str());
            exit(3);
        } else {
            nfail++;
            if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF)) {
                viol.push_back({j.id, fmt("no result within %d s", o.timeout)});
                stop = true;
            }
            else if (WIFSIGNALED(st)) viol.push_back({j.id, fmt("crashed with signal %d", WTERMSIG(st))});
            else viol.push_back({j.id, fmt("aborted with exit code %d", WEXITSTATUS(st))});
        }
        fclose(r.f);
        if (viol.size() > before) badjobs++;
        if (viol.size() > 60 || badjobs >= 12) stop = true; // enough evidence
    };
    for (int ph = 0; ph <= maxphase && !stop; ph++) {
        for (size_t i = 0; i < jobs.size() && !stop; i++) {
            if (jobs[i].phase != ph) continue;
            while ((int)live.size() >= ncpu) reap();
            int fd = memfd_create("job", 0);
            FILE *f = fdopen(fd, "w+b");
            if (!f) { perror("memfd"); exit(3); }
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); exit(3); }
            if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                itimerval lim{{0, 0}, {o.timeout * (o.thorough ? 3 : 1), 0}}, off{{0, 0}, {0, 0}};
                setitimer(ITIMER_PROF, &lim, nullptr);
                alarm(o.timeout * (o.thorough ? 6 : 3));
                Ctx c;
                timeval t0, t1;
                gettimeofday(&t0, nullptr);
                jobs[i].fn(c);
                setitimer(ITIMER_PROF, &off, nullptr);
                alarm(0);
                gettimeofday(&t1, nullptr);
                c.maxi("job_wall_s", (t1.tv_sec - t0.tv_sec) + 1e-6 * (t1.tv_usec - t0.tv_usec));
                wr(f, "ok");
                uint64_t v[4] = {c.transitions, c.traces, c.states.size(), c.nfail};
                fwrite(v, 8, 4, f);
                for (auto h : c.states) fwrite(&h, 8, 1, f);
                uint32_t n = c.fails.size();
                fwrite(&n, 4, 1, f);
                for (auto &s : c.fails) wr(f, s);
                n = c.samples.size();
                fwrite(&n, 4, 1, f);
                for (auto &s : c.samples) wr(f, s);
                n = c.counters.size();
                fwrite(&n, 4, 1, f);
                for (auto &k : c.counters) { wr(f, k.first); fwrite(&k.second, 8, 1, f); }
                fflush(f);
                fflush(stdout);
                _exit(0);
            }
            live[pid] = {i, f};
        }
        if (stop)
            for (auto &l : live) kill(l.first, SIGKILL);
        while (!live.empty()) reap();
    }
    FILE *f = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
    if (!f) { perror("out"); return 3; }
    fprintf(f, "{\"jobs\":%zu,\"jobs_done\":%llu,\"states\":%zu,\"transitions\":%llu,\"traces\":%llu,\"failures\":%llu,\"stopped_early\":%s,\n\"counters\":{",
            jobs.size(), (unsigned long long)done, states.size(), (unsigned long long)transitions, (unsigned long long)traces, (unsigned long long)nfail, stop ? "true" : "false");
    bool first = true;
    for (auto &k : counters) { fprintf(f, "%s\"%s\":%.12g", first ? "" : ",", jesc(k.first).c_str(), k.second); first = false; }
    fprintf(f, "},\n\"samples\":[");
    size_t step = samples.size() > 8 ? samples.size() / 8 : 1;
    first = true;
    for (size_t i = 0; i < samples.size(); i += step) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(samples[i]).c_str()); first = false; }
    fprintf(f, "],\n\"violations\":[");
    first = true;
    for (auto &v : viol) { fprintf(f, "%s\n{\"job\":\"%s\",\"msg\":\"%s\"}", first ? "" : ",", jesc(v.first).c_str(), jesc(v.second).c_str()); first = false; }
    fprintf(f, "]}\n");
    if (f != stdout) fclose(f);
    return 0;
}

} // namespace mc
#endif

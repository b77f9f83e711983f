// Shared by the drivers: scenario tokens in, one JSON event per line out.
// Each history runs in a child process of its own; whatever ends it other than a
// normal exit is recorded as the event "Crash", which no specification explains.
#ifndef VF_H
#define VF_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <iostream>
#include <functional>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <malloc.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>

namespace vf {

typedef std::vector<std::string> Toks;

static int evfd = -1;          // where events go
inline void emit(std::string const& s)
{
    std::string l = s + "\n";
    const char * p = l.data(); size_t n = l.size();
    while (n) { ssize_t k = write(evfd, p, n); if (k <= 0) _exit(98); p += k; n -= k; }
}

// ---- JSON
inline std::string q(std::string const& s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
struct Obj {
    std::string s;
    Obj(std::string const& e) { s = "{\"e\":" + q(e); }
    Obj() { s = "{\"_\":0"; }
    Obj& raw(const char * k, std::string const& v) { s += ",\"" + std::string(k) + "\":" + v; return *this; }
    Obj& str(const char * k, std::string const& v) { return raw(k, q(v)); }
    Obj& num(const char * k, long long v) { return raw(k, std::to_string(v > 2000000000LL || v < -2000000000LL ? 2000000002LL : v)); }
    std::string done() { return s + "}"; }
    void send() { emit(done()); }
};
template <class F> std::string list(size_t n, F f)
{
    std::string r = "[";
    for (size_t i = 0; i < n; i++) { if (i) r += ","; r += f(i); }
    return r + "]";
}
inline std::string num(unsigned long long v) { return std::to_string(v > 2000000000ULL ? 2000000002ULL : v); }
inline std::string num2(long long v) { return std::to_string(v > 2000000000LL || v < -2000000000LL ? 2000000002LL : v); }
template <class A> std::string nums(A const * a, size_t n) { return list(n, [&](size_t i) { return num((unsigned long long) a[i]); }); }
template <class A> std::string nums(std::vector<A> const& a) { return nums(a.data(), a.size()); }

// ---- fixed point: an exact multiple of 1/unit, or a sentinel
inline std::string fix(double v, int unit)
{
    if (std::isnan(v)) return "-2147483601";
    if (std::isinf(v)) return v > 0 ? "-2147483602" : "-2147483603";
    double w = v * unit;
    if (!(std::fabs(w) < 2000000000.0) || w != std::floor(w)) return "2000000001";
    return std::to_string((long long) w);
}

// the values that are no numbers, see Matrix.tla
inline double odd(long long i)
{
    return i == -2147483601 ? NAN : i == -2147483602 ? INFINITY : -INFINITY;
}
inline double unfix(long long i, int unit) { return i < -2147483600 ? odd(i) : i / double(unit); }

// ---- scenario
inline long long I(std::string const& s) { return strtoll(s.c_str(), nullptr, 10); }

inline std::vector<std::vector<Toks>> load(const char * file)
{
    std::vector<std::vector<Toks>> res;
    std::ifstream in(file);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream ss(line);
        Toks t; std::string w;
        while (ss >> w) t.push_back(w);
        if (t.empty()) continue;
        if (t[0] == "BEGIN") res.emplace_back();
        res.back().push_back(t);
    }
    return res;
}

// libomp leaves a file named after the process when a process does not end normally;
// a later process with the same number would trip over it
inline void sweep(pid_t p)
{
    std::string n = "__KMP_REGISTERED_LIB_" + std::to_string(p) + "_" + std::to_string(getuid());
    unlink(("/dev/shm/" + n).c_str());
    unlink(("/tmp/" + n).c_str());
}

// Ends the process with SIGALRM when it seems not to end: after so many seconds if it has
// computed as long as that, or has not computed at all for a while; at any rate after five
// times as many (a busy machine is slow, and no reason)
static double watch_start, watch_limit, watch_cpu; static int watch_idle;
#ifdef __clang__
#define VF_PLAIN __attribute__((disable_sanitizer_instrumentation))
#else
#define VF_PLAIN
#endif
VF_PLAIN inline double seconds_(struct timeval const& t) { return t.tv_sec + t.tv_usec * 1e-6; }
VF_PLAIN inline void watching(int)
{
    struct rusage a, b; struct timeval n;
    getrusage(RUSAGE_SELF, &a); getrusage(RUSAGE_CHILDREN, &b); gettimeofday(&n, nullptr);
    double cpu = seconds_(a.ru_utime) + seconds_(a.ru_stime) + seconds_(b.ru_utime) + seconds_(b.ru_stime), wall = seconds_(n) - watch_start;
    watch_idle = cpu - watch_cpu < .005 ? watch_idle + 1 : 0;
    watch_cpu = cpu;
    if (wall < watch_limit || (cpu < watch_limit && watch_idle < 4 && wall < 5 * watch_limit)) return;
    signal(SIGALRM, SIG_DFL);
    sigset_t m; sigemptyset(&m); sigaddset(&m, SIGALRM); pthread_sigmask(SIG_UNBLOCK, &m, nullptr);
    raise(SIGALRM);
}
inline void watch(unsigned limit)
{
    struct timeval n; gettimeofday(&n, nullptr);
    watch_start = seconds_(n); watch_limit = limit; watch_cpu = 0; watch_idle = 0;
    struct sigaction s; memset(&s, 0, sizeof s); s.sa_handler = watching; s.sa_flags = SA_RESTART; sigaction(SIGALRM, &s, nullptr);
    struct itimerval t; t.it_interval.tv_sec = t.it_value.tv_sec = 5; t.it_interval.tv_usec = t.it_value.tv_usec = 0;
    setitimer(ITIMER_REAL, &t, nullptr);
}

// Runs each history of the scenario in a child. usage: prog scenario out
inline int drive(int argc, char ** argv, std::function<void(std::vector<Toks> const&)> body, unsigned seconds = 60)
{
    auto hs = load(argv[1]);
    int late = 0;
    evfd = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
    if (evfd < 0) return 97;
    for (auto const& h : hs) {
        pid_t p = fork();
        if (p == 0) {
            sweep(getpid());
            int n = open("/dev/null", O_RDWR);
            dup2(n, 0); dup2(n, 1); if (!getenv("VF_STDERR")) dup2(n, 2);
            struct rlimit rl = {0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            watch(seconds);
            body(h);
            Obj("End").send();
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        sweep(p);
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            Obj("Crash").num("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0).num("rc", WIFEXITED(st) ? WEXITSTATUS(st) : -1).send();
            // histories that do not end: two of them are enough
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM && ++late == 2) break;
        }
    }
    close(evfd);
    return 0;
}

}
#endif

// Loaded before the C library into the programs under test (LD_PRELOAD):
//  VF_TMP    everything below /tmp/ happens in this directory instead
//  VF_FAULT  <end of the name>:<how>:<where>[:<which opening>] makes an output fail (see shim.cpp)
//  VF_GATE   a socket: every operation on a file asks there first and reports its result
//  VF_CLOCK  <least>:<most>:<seed>:<file>: the clock of the C++ library advances by a number of
//            nanoseconds in that range each time it is read; the steps are written to the file
//  VF_ROOT   directory whose files are of interest, besides VF_TMP
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cstdarg>
#include <string>
#include <set>
#include <map>
#include <unistd.h>
#include <fcntl.h>
#include <dlfcn.h>
#include <dirent.h>
#include <glob.h>
#include <ftw.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <time.h>
#include <vector>
namespace {
template <class F> F real(const char * n) { return (F) dlsym(RTLD_NEXT, n); }
#define REAL(f) (real<decltype(&f)>(#f))
bool ready = false;
std::string tmp, root, fname, fhow; long fat = 0, fnth = 0; int gate = -1;
void setup()
{
    if (ready) return;
    ready = true;
    if (getenv("VF_TMP")) tmp = getenv("VF_TMP");
    if (getenv("VF_ROOT")) root = getenv("VF_ROOT");
    if (getenv("VF_GATE")) gate = atoi(getenv("VF_GATE"));
    if (const char * e = getenv("VF_FAULT")) {
        std::string s = e; size_t p = s.find(':'), q = s.find(':', p + 1), r = s.find(':', q + 1);
        fname = s.substr(0, p); fhow = s.substr(p + 1, q - p - 1); fat = atol(s.c_str() + q + 1);
        fnth = r == std::string::npos ? 0 : atol(s.c_str() + r + 1);
    }
}
std::string moved(const char * n)
{
    setup();
    std::string s = n ? n : "";
    if (tmp.empty() || s.compare(0, tmp.size(), tmp) == 0 || (!root.empty() && s.compare(0, root.size(), root) == 0)) return s;
    if (s == "/tmp" || s == "/var/tmp") return tmp;
    if (s.compare(0, 5, "/tmp/") == 0) return tmp + s.substr(4);
    if (s.compare(0, 9, "/var/tmp/") == 0) return tmp + s.substr(8);
    return s;
}
bool ours(std::string const& p)
{
    if (p.empty()) return false;
    if (p[0] != '/') return true;
    return (!tmp.empty() && p.compare(0, tmp.size(), tmp) == 0) || (!root.empty() && p.compare(0, root.size(), root) == 0);
}
void say(std::string s)
{
    s += "\n";
    const char * p = s.data(); size_t n = s.size();
    while (n) { ssize_t k = ::write(gate, p, n); if (k <= 0) _exit(96); p += k; n -= k; }
}
bool exists(std::string const& p) { struct stat st; return syscall(262 /* newfstatat */, AT_FDCWD, p.c_str(), &st, AT_SYMLINK_NOFOLLOW) == 0; }
// one operation: asks, does it, reports
struct Op {
    std::string what, path; bool on, was = false; int e = 0;
    Op(const char * w, std::string const& p) : what(w), path(p), on(gate >= 0 && ours(p))
    {
        if (!on) return;
        int k = errno;
        say("ask " + what + " " + path);
        char c;
        if (::read(gate, &c, 1) != 1) _exit(96);
        was = exists(path);
        errno = k;
    }
    void end(bool ok)
    {
        if (!on) return;
        int k = errno;
        say("did " + what + " " + (ok ? "1" : "0") + " " + (was ? "1" : "0") + " " + path);
        errno = k;
    }
};
struct Cookie { int fd; std::string how, path; long at, pos; bool hit, gated; };
ssize_t cwrite(void * p, const char * b, size_t n)
{
    Cookie * c = (Cookie *) p;
    if (c->how == "full") {
        long room = c->at - c->pos;
        if (room <= 0) { errno = ENOSPC; return 0; }
        if ((long) n > room) { ssize_t k = write(c->fd, b, room); if (k > 0) c->pos += k; errno = ENOSPC; return k > 0 ? k : 0; }
    } else if (c->how == "once" && !c->hit && c->pos + (long) n > c->at) { c->hit = true; errno = EIO; return 0; }
    if (c->gated) Op("put", c->path).end(true);
    ssize_t k = write(c->fd, b, n);
    if (k > 0) c->pos += k;
    return k < 0 ? 0 : k;
}
ssize_t cread(void * p, char * b, size_t n)
{
    Cookie * c = (Cookie *) p;
    if (c->gated) Op("get", c->path).end(true);
    return read(c->fd, b, n);
}
int cseek(void * p, off64_t * o, int w) { Cookie * c = (Cookie *) p; off64_t r = lseek64(c->fd, *o, w); if (r < 0) return -1; *o = r; c->pos = r; return 0; }
int cclose(void * p)
{
    Cookie * c = (Cookie *) p; bool bad = c->how == "close";
    close(c->fd); delete c;
    if (bad) { errno = EIO; return -1; }
    return 0;
}
FILE * opened(const char * name, const char * mode, FILE * (*f)(const char *, const char *))
{
    std::string n = moved(name);
    bool writes = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
    bool sick = writes && !fname.empty() && n.size() >= fname.size() && n.compare(n.size() - fname.size(), fname.size(), fname) == 0 && fnth-- <= 0;
    if (sick && fhow == "open") { errno = EACCES; return nullptr; }
    bool gated = gate >= 0 && ours(n);
    Op op(writes ? "write" : "read", n);
    FILE * r = nullptr;
    if (!sick && !gated) r = f(n.c_str(), mode);
    else {
        int fl = (strchr(mode, '+') ? O_RDWR : writes ? O_WRONLY : O_RDONLY) | (strchr(mode, 'r') ? 0 : O_CREAT) | (strchr(mode, 'w') ? O_TRUNC : 0) | (strchr(mode, 'a') ? O_APPEND : 0) | (strchr(mode, 'x') ? O_EXCL : 0);
        int fd = (int) syscall(257 /* openat */, AT_FDCWD, n.c_str(), fl, 0666);
        if (fd >= 0) {
            Cookie * c = new Cookie{fd, sick ? fhow : "", n, fat, 0, false, gated};
            cookie_io_functions_t io = {cread, cwrite, cseek, cclose};
            r = fopencookie(c, mode, io);
        }
    }
    op.end(r != nullptr);
    return r;
}
int opn(int at, const char * name, int flags, mode_t mode, bool rel)
{
    std::string n = rel ? std::string(name) : moved(name);
    bool writes = (flags & O_ACCMODE) != O_RDONLY;
    if (flags & O_DIRECTORY) return (int) syscall(257, at, n.c_str(), flags, mode);
    Op op(writes ? (flags & O_EXCL ? "make" : "write") : "read", n);
    int r = (int) syscall(257, at, n.c_str(), flags, mode);
    op.end(r >= 0);
    return r;
}
void tree(std::string const& d, std::set<std::string>& r)
{
    DIR * h = REAL(opendir)(d.c_str());
    if (!h) return;
    while (dirent * e = readdir(h)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") continue;
        r.insert(d + "/" + n);
        if (e->d_type == DT_DIR) tree(d + "/" + n, r);
    }
    closedir(h);
}
}
extern "C" {
FILE * fopen(const char * n, const char * m) { return opened(n, m, REAL(fopen)); }
FILE * fopen64(const char * n, const char * m) { return opened(n, m, REAL(fopen)); }
int open(const char * n, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return opn(AT_FDCWD, n, fl, m, false); }
int open64(const char * n, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return opn(AT_FDCWD, n, fl, m, false); }
int openat(int at, const char * n, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return opn(at, n, fl, m, at != AT_FDCWD && n[0] != '/'); }
int creat(const char * n, mode_t m) { return opn(AT_FDCWD, n, O_CREAT | O_WRONLY | O_TRUNC, m, false); }
int mkdir(const char * n, mode_t m) { std::string s = moved(n); Op op("mkdir", s); int r = REAL(mkdir)(s.c_str(), m); op.end(r == 0); return r; }
int rmdir(const char * n) { std::string s = moved(n); Op op("remove", s); int r = REAL(rmdir)(s.c_str()); op.end(r == 0); return r; }
int unlink(const char * n) { std::string s = moved(n); Op op("remove", s); int r = REAL(unlink)(s.c_str()); op.end(r == 0); return r; }
int remove(const char * n) { std::string s = moved(n); Op op("remove", s); int r = REAL(remove)(s.c_str()); op.end(r == 0); return r; }
int unlinkat(int at, const char * n, int f)
{
    std::string s = at == AT_FDCWD ? moved(n) : std::string(n);
    if (at != AT_FDCWD) {
        char l[64], b[5000]; snprintf(l, 64, "/proc/self/fd/%d", at);
        ssize_t k = readlink(l, b, 4999);
        if (k > 0) s = std::string(b, k) + "/" + n;
    }
    Op op("remove", s); int r = REAL(unlinkat)(AT_FDCWD, s.c_str(), f); op.end(r == 0); return r;
}
int rename(const char * a, const char * b)
{
    std::string s = moved(a), t = moved(b);
    Op o1("remove", s); Op o2("write", t);
    int r = REAL(rename)(s.c_str(), t.c_str());
    o2.end(r == 0); o1.end(r == 0);
    return r;
}
static char * made(char * t, char * (*f)(char *), const char * what)
{
    std::string s = moved(t);
    Op op(what, s);
    std::string b = s + '\0';
    char * r = f(&b[0]);
    op.was = false;
    if (r) { op.path = b.c_str(); memcpy(t + strlen(t) - 6, b.c_str() + strlen(b.c_str()) - 6, 6); }
    op.end(r != nullptr);
    return r ? t : nullptr;
}
char * mkdtemp(char * t) { return made(t, REAL(mkdtemp), "mkdir"); }
int mkstemp(char * t)
{
    std::string s = moved(t);
    Op op("make", s);
    std::string b = s + '\0';
    int r = REAL(mkstemp)(&b[0]);
    op.was = false;
    if (r >= 0) { op.path = b.c_str(); memcpy(t + strlen(t) - 6, b.c_str() + strlen(b.c_str()) - 6, 6); }
    op.end(r >= 0);
    return r;
}
int mkstemp64(char * t) { return mkstemp(t); }
int access(const char * n, int m) { return REAL(access)(moved(n).c_str(), m); }
int stat(const char * n, struct stat * b) { return REAL(stat)(moved(n).c_str(), b); }
int lstat(const char * n, struct stat * b) { return REAL(lstat)(moved(n).c_str(), b); }
int chdir(const char * n) { return REAL(chdir)(moved(n).c_str()); }
DIR * opendir(const char * n) { Op("list", moved(n)).end(true); return REAL(opendir)(moved(n).c_str()); }
DIR * opendir64(const char * n) { Op("list", moved(n)).end(true); return REAL(opendir)(moved(n).c_str()); }
int glob(const char * n, int fl, int (*e)(const char *, int), glob_t * g) { Op("list", moved(n)).end(true); return REAL(glob)(moved(n).c_str(), fl, e, g); }
int glob64(const char * n, int fl, int (*e)(const char *, int), glob64_t * g) { Op("list", moved(n)).end(true); return REAL(glob64)(moved(n).c_str(), fl, e, g); }
int scandir(const char * n, struct dirent *** l, int (*f)(const struct dirent *), int (*c)(const struct dirent **, const struct dirent **)) { Op("list", moved(n)).end(true); return REAL(scandir)(moved(n).c_str(), l, f, c); }
int nftw(const char * n, __nftw_func_t f, int k, int fl) { Op("list", moved(n)).end(true); return REAL(nftw)(moved(n).c_str(), f, k, fl); }
int ftw(const char * n, __ftw_func_t f, int k) { Op("list", moved(n)).end(true); return REAL(ftw)(moved(n).c_str(), f, k); }
int chmod(const char * n, mode_t m) { return REAL(chmod)(moved(n).c_str(), m); }
int stat64(const char * n, struct stat64 * b) { return REAL(stat64)(moved(n).c_str(), b); }
int lstat64(const char * n, struct stat64 * b) { return REAL(lstat64)(moved(n).c_str(), b); }
char * realpath(const char * n, char * b) { return REAL(realpath)(moved(n).c_str(), b); }
int mkdirat(int at, const char * n, mode_t m) { if (at == AT_FDCWD || n[0] == '/') return mkdir(n, m); return REAL(mkdirat)(at, n, m); }
int openat64(int at, const char * n, int fl, ...) { va_list a; va_start(a, fl); mode_t m = va_arg(a, mode_t); va_end(a); return opn(at, n, fl, m, at != AT_FDCWD && n[0] != '/'); }
int truncate(const char * n, off_t k) { std::string s = moved(n); Op op("write", s); int r = REAL(truncate)(s.c_str(), k); op.end(r == 0); return r; }
int link(const char * a, const char * b) { std::string s = moved(a), t = moved(b); Op op("make", t); int r = REAL(link)(s.c_str(), t.c_str()); op.end(r == 0); return r; }
int symlink(const char * a, const char * b) { std::string s = moved(a), t = moved(b); Op op("make", t); int r = REAL(symlink)(s.c_str(), t.c_str()); op.end(r == 0); return r; }
// a shell command: what it does below VF_TMP is reported as if done directly
int system(const char * cmd)
{
    setup();
    std::string s = cmd ? cmd : "";
    for (size_t p = 0; !tmp.empty() && (p = s.find("/tmp/", p)) != std::string::npos;) {
        if (s.compare(p, 5, "/tmp/") == 0 && (p == 0 || strchr(" '\"=;<>", s[p - 1]))) { s.replace(p, 4, tmp); p += tmp.size(); }
        else p += 5;
    }
    std::set<std::string> a, b;
    bool on = gate >= 0;
    if (on) { say("ask system " + tmp); char c; if (::read(gate, &c, 1) != 1) _exit(96); tree(tmp, a); }
    s = "unset LD_PRELOAD VF_GATE; " + s;
    int r = REAL(system)(s.c_str());
    if (on) {
        tree(tmp, b);
        for (auto& x : b) if (!a.count(x)) say("did mkdir 1 0 " + x);
        for (auto& x : a) if (!b.count(x)) say("did remove 1 1 " + x);
        say("did system 1 1 " + tmp);
    }
    return r;
}
}

// ---------------------------------------------------------------------- clock
namespace {
struct Clock {
    bool on = false; unsigned long long now = 1000000000000000000ULL, least = 1, most = 1, x = 1; int fd = -1;
    Clock()
    {
        if (const char * e = getenv("VF_CLOCK")) {
            char f[4000];
            if (sscanf(e, "%llu:%llu:%llu:%3999s", &least, &most, &x, f) == 4) { on = true; fd = (int) syscall(257, AT_FDCWD, f, O_WRONLY | O_CREAT | O_TRUNC, 0644); }
        }
    }
    unsigned long long tick()
    {
        x = x * 6364136223846793005ULL + 1442695040888963407ULL;
        unsigned long long d = least + (x >> 33) % (most - least + 1);
        now += d;
        char b[32]; int n = snprintf(b, 32, "%llu\n", d);
        if (fd >= 0 && ::write(fd, b, n) != n) _exit(96);
        return now;
    }
};
Clock & clk() { static Clock c; return c; }
}
extern "C" int clock_gettime(clockid_t id, struct timespec * t)
{
    Dl_info i;
    if (clk().on && dladdr(__builtin_return_address(0), &i) && i.dli_fname && strstr(i.dli_fname, "libstdc++")) {
        unsigned long long n = clk().tick();
        t->tv_sec = n / 1000000000ULL; t->tv_nsec = n % 1000000000ULL;
        return 0;
    }
    return (int) syscall(228 /* clock_gettime */, id, t);
}

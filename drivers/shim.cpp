// Streams that fail on request.  In programs without a call of arm(), the environment
// decides: VF_FAULT=<end of the name>:<how>:<where>[:<which opening>]
#define _GNU_SOURCE 1
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <string>
#include <unistd.h>
#include <fcntl.h>
#include "shim.h"
extern "C" FILE * __real_fopen(const char *, const char *);
namespace {
std::string g_name, g_how; long g_at = 0; bool g_suffix = false, g_set = false; long g_nth = 0;
struct Cookie { int fd; std::string how; long at, pos; bool hit; };
ssize_t cwrite(void * p, const char * b, size_t n)
{
    Cookie * c = (Cookie *) p;
    if (c->how == "full") {
        long room = c->at - c->pos;
        if (room <= 0) { errno = ENOSPC; return 0; }
        if ((long) n > room) { ssize_t k = write(c->fd, b, room); if (k > 0) c->pos += k; errno = ENOSPC; return k > 0 ? k : 0; }
    } else if (c->how == "once" && !c->hit && c->pos + (long) n > c->at) { c->hit = true; errno = EIO; return 0; }
    ssize_t k = write(c->fd, b, n);
    if (k > 0) c->pos += k;
    return k < 0 ? 0 : k;
}
ssize_t cread(void * p, char * b, size_t n) { return read(((Cookie *) p)->fd, b, n); }
int cseek(void * p, off64_t * o, int w) { Cookie * c = (Cookie *) p; off64_t r = lseek64(c->fd, *o, w); if (r < 0) return -1; *o = r; c->pos = r; return 0; }
int cclose(void * p)
{
    Cookie * c = (Cookie *) p; bool bad = c->how == "close";
    close(c->fd); delete c;
    if (bad) { errno = EIO; return -1; }
    return 0;
}
}
namespace shim { void arm(std::string const& name, std::string const& how, long at) { g_set = true; g_suffix = false; g_name = name; g_how = how; g_at = at; } }
extern "C" FILE * __wrap_fopen(const char * name, const char * mode)
{
    if (!g_set) {
        g_set = true;
        const char * e = getenv("VF_FAULT");
        if (e) {
            std::string s = e; size_t p = s.find(':'), q = s.find(':', p + 1), r = s.find(':', q + 1);
            g_name = s.substr(0, p); g_how = s.substr(p + 1, q - p - 1); g_at = atol(s.c_str() + q + 1); g_suffix = true;
            g_nth = r == std::string::npos ? 0 : atol(s.c_str() + r + 1);
        }
    }
    std::string n = name;
    bool ours = !g_name.empty() && (g_suffix ? n.size() >= g_name.size() && n.compare(n.size() - g_name.size(), g_name.size(), g_name) == 0 : n == g_name);
    bool writes = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
    if (!ours || !writes) return __real_fopen(name, mode);
    if (g_nth-- > 0) return __real_fopen(name, mode);
    int fl = (strchr(mode, '+') ? O_RDWR : O_WRONLY) | (strchr(mode, 'r') ? 0 : O_CREAT) | (strchr(mode, 'w') ? O_TRUNC : 0) | (strchr(mode, 'a') ? O_APPEND : 0);
    int fd = open(name, fl, 0666);
    if (fd < 0) return nullptr;
    Cookie * c = new Cookie{fd, g_how, g_at, 0, false};
    cookie_io_functions_t io = {cread, cwrite, cseek, cclose};
    FILE * f = fopencookie(c, mode, io);
    if (!f) { close(fd); delete c; }
    return f;
}

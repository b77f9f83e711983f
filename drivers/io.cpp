// Drives the file input and output of the library in a scratch directory (the
// current one) and records what it does.
#include <cassert>
#include <sys/stat.h>
#include "vf.h"
#include "common.h"
#include "utils.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "io/input.h"
#include "io/output.h"
#include "io/blocked.h"
#include "shim.h"

#ifndef VT
#define VT float
#define VIT uint32_t
#define VSIT uint16_t
#endif
typedef VT T; typedef VIT IT; typedef VSIT SIT;
using namespace vf;
typedef std::vector<unsigned char> Bytes;
static std::string scratch;

static std::string pair_(unsigned long long v) { unsigned long long h = v >> 24; if (h >= (1ULL << 29)) h = 1ULL << 30; return std::to_string(h) + "," + std::to_string(v & 0xffffff); }
static std::string pr(unsigned long long v) { return "[" + pair_(v) + "]"; }
static std::string bytes(void const * p, size_t n) { return nums((unsigned char const *) p, n); }
static std::string ent(unsigned long long r, unsigned long long c, T v)
{
    std::string s = "[" + pair_(r) + "," + pair_(c);
    for (size_t i = 0; i < sizeof(T); i++) s += "," + std::to_string(((unsigned char *) &v)[i]);
    return s + "]";
}
static Bytes hex(std::string const& s)
{
    Bytes b;
    if (s == "-") return b;
    for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back(strtol(s.substr(i, 2).c_str(), nullptr, 16));
    return b;
}
static bool slurp(std::string const& n, Bytes& b)
{
    b.clear();
    int fd = open(n.c_str(), O_RDONLY);
    if (fd < 0) return false;
    unsigned char buf[65536]; ssize_t k;
    while ((k = read(fd, buf, sizeof buf)) > 0) { b.insert(b.end(), buf, buf + k); if (b.size() > (1u << 24)) break; }
    close(fd);
    return k == 0;
}
static void spill(std::string const& n, Bytes const& b)
{
    int fd = open(n.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || (!b.empty() && write(fd, b.data(), b.size()) != (ssize_t) b.size())) _exit(97);
    close(fd);
}
static std::string path(std::string const& n) { return scratch + "/" + n; }

// value bytes of all numbers in a text
static std::string table(Bytes const& b)
{
    std::map<std::string, T> t;
    std::string s(b.begin(), b.end()), w;
    for (size_t i = 0; i <= s.size(); i++) {
        if (i < s.size() && !strchr(" \t\r\n\v\f", s[i]) ) { w += s[i]; continue; }
        if (!w.empty() && w.size() < 400 && w.find('\0') == std::string::npos) { char * e; double d = strtod(w.c_str(), &e); if (*e == 0 && e != w.c_str()) t[w] = (T) d; }
        w.clear();
    }
    std::string r = "[";
    for (auto& p : t) r += (r.size() > 1 ? "," : "") + std::string("[") + bytes(p.first.data(), p.first.size()) + "," + bytes(&p.second, sizeof(T)) + "]";
    return r + "]";
}
static std::string one() { T v = 1; return bytes(&v, sizeof(T)); }

struct Result { int rc = -1; std::string s; };     // s: what was read
template <class C> void shape(Obj& o, C const& A) { o.raw("r", pr(A.rows)).raw("c", pr(A.columns)); }
template <class C> std::string cooread(C const& A)
{
    Obj o; shape(o, A);
    return o.raw("es", list((size_t) A.nonzeros(), [&](size_t i) { return ent(A.get_row_index(i), A.get_column_index(i), A.get_value(i)); })).done();
}
template <class C, class I, class V> std::string csrread(C const& A, I ind, V val)
{
    Obj o; shape(o, A);
    std::string s = "[";
    if (A.row_ptr[0] != 0 || A.row_ptr[A.rows] != A.nonzeros()) return o.raw("es", "\"pointers\"").done();
    for (size_t i = 0; i < A.rows; i++) for (size_t k = A.row_ptr[i]; k < A.row_ptr[i + 1]; k++) s += (s.size() > 1 ? "," : "") + ent(i, ind(k), val(k));
    return o.raw("es", s + "]").done();
}

// Reads; exits by itself when the library does
static Result readit(std::string const& kind, std::string const& target, std::vector<std::string> const& f, std::vector<IT>& ro, std::vector<IT>& co)
{
    Result R;
    if (kind == "mm" || kind == "bin" || kind == "suf") {
        auto go = [&](auto& A) { R.rc = kind == "mm" ? read_mm_COO(&A, f[0].c_str()) : kind == "bin" ? read_bin_COO(&A, f[0].c_str()) : read_COO(&A, f[0].c_str());
                                 if (R.rc >= 0) { R.s = cooread(A); release(A); } };
        if (target == "coo2") { Coo2<T,IT> A; go(A); } else { Coo3<T,IT> A; go(A); }
    } else if (kind == "three") {
        auto go = [&](auto& A) { R.rc = read_bin_COO(&A, f[0].c_str(), f[1].c_str(), f[2].c_str()); if (R.rc >= 0) { R.s = cooread(A); release(A); } };
        if (target == "coo1") { Coo<T,IT,IT> A; go(A); } else if (target == "coo2") { Coo2<T,IT> A; go(A); } else { Coo3<T,IT> A; go(A); }
    } else if (kind == "csr") {
        if (target == "csr") { Csr<T,IT> A; R.rc = read_bin_CSR(&A, f[0].c_str()); if (R.rc >= 0) { R.s = csrread(A, [&](size_t k) { return A.col_ind[k]; }, [&](size_t k) { return A.val[k]; }); release(A); } }
        else { Csr2<T,IT> A; R.rc = read_bin_CSR(&A, f[0].c_str()); if (R.rc >= 0) { R.s = csrread(A, [&](size_t k) { return A.data[k].index; }, [&](size_t k) { return A.data[k].val; }); release(A); } }
    } else if (kind == "arr") {
        IT * d = nullptr; size_t n = 0;
        R.rc = read_bin_array(f[0].c_str(), &d, &n);
        if (R.rc >= 0) { R.s = Obj().raw("arr", list(n, [&](size_t i) { return pr(d[i]); })).done(); free(d); }
    } else if (kind == "blk") {
        // the reader keeps these
        IT * o = (IT *) malloc(ro.size() * sizeof(IT)), * p = (IT *) malloc(co.size() * sizeof(IT));
        std::copy(ro.begin(), ro.end(), o); std::copy(co.begin(), co.end(), p);
        IT nbr = ro.size() - 1, nbc = co.size() - 1;
        std::string es = "[";
        auto add = [&](size_t r, size_t c, T v) { es += (es.size() > 1 ? "," : "") + ent(r, c, v); };
        if (target == "csbr") {
            Csbr<T,IT> A; R.rc = read_bin_blocked(&A, f[0].c_str(), o, nbr, p, nbc);
            if (R.rc >= 0) {
                for (size_t i = 0; i < A.blockrows; i++) for (size_t k = A.blockrow_ptr[i]; k < A.blockrow_ptr[i + 1]; k++) {
                    auto& b = *A.block(k);
                    for (size_t j = 0; j < b.rows; j++) for (size_t e = b.row_ptr[j]; e < b.row_ptr[j + 1]; e++) add(ro[i] + j, co[A.blockcol_ind[k]] + b.col_ind[e], b.val[e]);
                }
                Obj x; shape(x, A); R.s = x.raw("es", es + "]").done();
            }
        } else if (target == "csbr2") {
            Csbr2<T,IT> A; R.rc = read_bin_blocked(&A, f[0].c_str(), o, nbr, p, nbc);
            if (R.rc >= 0) {
                for (size_t i = 0; i < A.blockrows; i++) for (size_t k = A.blockrow_ptr[i]; k < A.blockrow_ptr[i + 1]; k++)
                    for (size_t j = 0; j < ro[i + 1] - ro[i]; j++) for (size_t e = A.row_ptr[k][j]; e < A.row_ptr[k][j + 1]; e++) add(ro[i] + j, A.col_ind[e], A.val[e]);
                Obj x; shape(x, A); R.s = x.raw("es", es + "]").done();
            }
        } else {
            Cgbr<T,IT,SIT> A; R.rc = read_bin_blocked(&A, f[0].c_str(), o, nbr, p, nbc);
            if (R.rc >= 0) {
                bool dense = false;
                for (size_t i = 0; i < A.blockrows; i++) for (size_t k = A.blockrow_ptr[i]; k < A.blockrow_ptr[i + 1]; k++) {
                    auto& b = *A.block(k); size_t r = ro[i], c = co[A.blockcol_ind[k]];
                    if (b.type == BLOCK_COO) { auto& m = b.matrix.coo; for (size_t e = 0; e < m.nonzeros(); e++) add(r + m.I[e], c + m.J[e], m.val[e]); }
                    else if (b.type == BLOCK_CSR) { auto& m = b.matrix.csr; for (size_t j = 0; j < m.rows; j++) for (size_t e = m.row_ptr[j]; e < m.row_ptr[j + 1]; e++) add(r + j, c + m.col_ind[e], m.val[e]); }
                    else dense = true;
                }
                Obj x; shape(x, A); R.s = x.raw("es", dense ? "\"dense\"" : es + "]").done();
            }
        }
        free(o); free(p);
    } else _exit(96);
    return R;
}

struct Src { IT r, c; std::vector<Element<T,IT>> e; std::vector<IT> a; };
static std::map<std::string, Src> srcs;

static size_t old = 0;       // so many bytes are there already in a file that is written

static int writeit(std::string const& kind, std::string const& form, std::vector<std::string> const& f, Src const& s, std::vector<IT>& ro, std::vector<IT>& co)
{
    IT n = s.e.size();
    if (kind == "arr") return write_bin_array(f[0].c_str(), (IT *) s.a.data(), s.a.size());
    auto go = [&](auto& A) {
        allocate(&A, n); A.rows = s.r; A.columns = s.c; A.nnz = n;
        for (IT i = 0; i < n; i++) set_point(&A, i, s.e[i].row, s.e[i].col, s.e[i].val);
        int rc = kind == "mm" ? write_mm_COO(&A, f[0].c_str()) : kind == "bin" ? write_bin_COO(A, f[0].c_str()) : write_bin_COO(&A, f[0].c_str(), f[1].c_str(), f[2].c_str());
        release(A);
        return rc;
    };
    if (kind == "blk") {
        Coo3<T,IT> A; allocate(&A, n); A.rows = s.r; A.columns = s.c; A.nnz = n;
        for (IT i = 0; i < n; i++) A.elements[i] = s.e[i];
        A.blockrows = ro.size() - 1; A.blockcols = co.size() - 1;
        calculate_block_id(A.elements, A.nnz, ro.data(), A.blockrows, co.data(), A.blockcols);
        sort_elements_blocks(A.elements, A.nnz);
        A.nnzblocks = count_blocks(A.elements, A.nnz);
        int rc = write_bin_blocked(A, f[0].c_str());
        release(A);
        return rc;
    }
    if (form == "coo3") { Coo3<T,IT> A; return go(A); }
    Coo2<T,IT> A; return go(A);
}

static std::vector<std::string> names(Toks const& t, size_t& k) { size_t n = I(t[k++]); std::vector<std::string> r; for (size_t i = 0; i < n; i++) r.push_back(t[k++]); return r; }
static void offs(Toks const& t, size_t& k, std::vector<IT>& o) { if (k >= t.size()) return; size_t n = strtoull(t[k++].c_str(), 0, 10); for (size_t i = 0; i < n; i++) o.push_back(strtoull(t[k++].c_str(), 0, 10)); }

// Runs f in a child; the exit status
template <class F> int child(F f)
{
    pid_t p = fork();
    if (p == 0) { sweep(getpid()); watch(30); f(); _exit(0); }
    int st = 0; waitpid(p, &st, 0); sweep(p);
    return st;
}
static void crash(int st) { Obj("Crash").num("sig", WIFSIGNALED(st) ? WTERMSIG(st) : 0).num("rc", WIFEXITED(st) ? WEXITSTATUS(st) : -1).send(); if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { signal(SIGALRM, SIG_DFL); raise(SIGALRM); } _exit(0); }

static void step(Toks const& t)
{
    std::string const& c = t[0];
    if (c == "BEGIN") Obj("Begin").str("id", t[1]).num("iw", sizeof(IT)).num("vw", sizeof(T)).send();
    else if (c == "FILE") { Bytes b = hex(t[2]); spill(path(t[1]), b); Obj("File").str("n", t[1]).raw("b", nums(b)).send(); }
    else if (c == "OLD") old = I(t[1]);
    else if (c == "GONE") { unlink(path(t[1]).c_str()); Obj("Gone").str("n", t[1]).send(); }
    else if (c == "MAT") {                // MAT s rows cols n (row col valbits)
        Src s; s.r = strtoull(t[2].c_str(), 0, 10); s.c = strtoull(t[3].c_str(), 0, 10);
        size_t n = I(t[4]);
        for (size_t i = 0; i < n; i++) { Element<T,IT> e; e.block = 0; e.row = strtoull(t[5 + 3*i].c_str(), 0, 10); e.col = strtoull(t[6 + 3*i].c_str(), 0, 10); Bytes b = hex(t[7 + 3*i]); memcpy(&e.val, b.data(), sizeof(T)); s.e.push_back(e); }
        srcs[t[1]] = s;
    } else if (c == "ARR") { Src s; s.r = s.c = 0; for (size_t i = 2; i < t.size(); i++) s.a.push_back(strtoull(t[i].c_str(), 0, 10)); srcs[t[1]] = s; }
    else if (c == "READ") {               // READ kind target n names.. [nro ro.. nco co..]
        size_t k = 3; auto ns = names(t, k); std::vector<IT> ro, co; offs(t, k, ro); offs(t, k, co);
        std::vector<std::string> fs; for (auto& n : ns) fs.push_back(path(n));
        std::vector<Bytes> before(ns.size());
        std::vector<bool> there;
        for (size_t i = 0; i < ns.size(); i++) there.push_back(slurp(fs[i], before[i]));
        auto send = [&](bool ok, std::string const& what) {
            bool same = true; Bytes now;
            for (size_t i = 0; i < ns.size(); i++) { bool th = slurp(fs[i], now); if (th != there[i] || now != before[i]) same = false; }
            Obj a;
            if (t[1] == "mm" || t[1] == "suf") a.raw("tv", table(before[0])).raw("one", one());
            if (t[1] == "suf") a.raw("nb", bytes(ns[0].data(), ns[0].size()));
            if (t[1] == "blk") a.raw("ro", nums(ro)).raw("co", nums(co));
            Obj o("Read");
            o.str("k", t[1]).str("tg", t[2]).raw("ns", list(ns.size(), [&](size_t i) { return q(ns[i]); })).raw("a", a.done()).num("same", same).num("ok", ok);
            if (ok) o.s += "," + what.substr(1, what.size() - 2);
            o.send();
        };
        int st = child([&] { Result R = readit(t[1], t[2], fs, ro, co); if (R.rc < 0) _exit(3); send(true, R.s); });
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
        if ((WIFEXITED(st) && WEXITSTATUS(st) < 90) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT)) return send(false, "");
        crash(st);
    } else if (c == "WRITE") {            // WRITE kind form src n names.. fault|- [nro ro.. nco co..]
        size_t k = 4; auto ns = names(t, k); std::string fault = t[k++]; std::vector<IT> ro, co; offs(t, k, ro); offs(t, k, co);
        std::vector<std::string> fs; for (auto& n : ns) fs.push_back(path(n));
        for (auto& f : fs) { unlink(f.c_str()); if (old) spill(f, Bytes(old, 0x35)); }
        Src const& s = srcs.at(t[3]);
        // fault: <index of the file>:<how>:<where>
        int which = 0; std::string how = "none"; long at = 0;
        if (fault != "-") { auto p = fault.find(':'), q_ = fault.rfind(':'); which = I(fault.substr(0, p)); how = fault.substr(p + 1, q_ - p - 1); at = I(fault.substr(q_ + 1)); }
        std::string gone;
        if (old && (how == "isdir" || how == "devfull")) unlink(fs[which].c_str());
        if (how == "nodir") { gone = fs[which]; fs[which] = path("missing/") + ns[which]; }
        if (how == "isdir") mkdir(fs[which].c_str(), 0755);
        if (how == "devfull" && symlink("/dev/full", fs[which].c_str())) _exit(97);
        int st = child([&] {
            int threads = 0;
            #pragma omp parallel reduction(+:threads)
            threads++;                    // before files become scarce
            if (how == "limit") { signal(SIGXFSZ, SIG_IGN); struct rlimit r = {(rlim_t) at, RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE, &r); }
            if (how == "full" || how == "once" || how == "close") shim::arm(fs[which], how, at);
            int rc = writeit(t[1], t[2], fs, s, ro, co);
            _exit(rc < 0 ? 3 : 0);
        });
        bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
        if (!ok && !((WIFEXITED(st) && WEXITSTATUS(st) < 90) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT))) crash(st);
        std::vector<Bytes> bs(ns.size());
        if (ok) for (size_t i = 0; i < ns.size(); i++) { struct stat sb; if (stat(fs[i].c_str(), &sb) == 0 && S_ISREG(sb.st_mode)) slurp(fs[i], bs[i]); }
        if (how == "isdir") rmdir(fs[which].c_str());
        if (how == "devfull") unlink(fs[which].c_str());
        Obj m, a, o("Write");
        if (t[1] == "arr") m.raw("a", list(s.a.size(), [&](size_t i) { return pr(s.a[i]); }));
        else m.raw("r", pr(s.r)).raw("c", pr(s.c)).raw("es", list(s.e.size(), [&](size_t i) { return ent(s.e[i].row, s.e[i].col, s.e[i].val); }));
        if (t[1] == "mm") a.raw("tv", table(bs[0])).raw("one", one());
        if (t[1] == "blk") a.raw("ro", nums(ro)).raw("co", nums(co));
        o.str("k", t[1]).str("key", t[1] + t[2] + t[3]).raw("ns", list(ns.size(), [&](size_t i) { return q(ns[i]); })).num("hindered", how != "none").str("how", fault).num("rc", !ok);
        if (ok) o.raw("m", m.done()).raw("a", a.done()).raw("bs", list(bs.size(), [&](size_t i) { return nums(bs[i]); }));
        o.send();
    } else _exit(96);
}

int main(int argc, char ** argv)
{
    mallopt(M_PERTURB, 0xA5);
    char d[] = "/tmp/vf-io-XXXXXX";
    if (argc > 3) scratch = argv[3]; else scratch = mkdtemp(d);
    return drive(argc, argv, [](std::vector<Toks> const& h) {
        std::string base = scratch; scratch += "/h" + std::to_string(getpid());
        mkdir(scratch.c_str(), 0755);
        for (auto const& t : h) step(t);
    });
}

// Records the block size choice, the bit helpers, the comparison of results, the
// statistics and the timing summaries of the library.
#include "vf.h"
#include <sys/mman.h>
#include "utils.h"
#include "common.h"
#include "test/utils.h"
using namespace vf;
typedef std::string S;

static S bytes(unsigned long long v, int n = 8) { return list(n, [&](size_t i) { return num((v >> (8 * i)) & 255); }); }
static unsigned long long U(S const& s) { return strtoull(s.c_str(), nullptr, 10); }

template <class IT> static void pick(Toks const& t)
{
    IT m = (IT) U(t[2]), n = (IT) U(t[3]);
    IT r = pick_block_size(m, n, (size_t) U(t[4]), (int) I(t[5]));
    Obj("Pick").raw("m", bytes(m)).raw("n", bytes(n)).num("val", I(t[4])).num("top", 8 * sizeof(IT) - 1 - std::numeric_limits<IT>::is_signed).num("w", I(t[5])).raw("r", bytes((unsigned long long) r)).send();
}
static void helper(Toks const& t)
{
    unsigned long long v = U(t[2]);
    if (t[1] == "np2") Obj("Np2").raw("v", bytes(v)).raw("r", bytes(next_power_of_two((uint64_t) v))).send();
    else {
        Obj o("Hbs");
        long long r; bool neg = false;
        if (t[1] == "u64") r = (long long) highest_bit_set((uint64_t) v);
        else if (t[1] == "i64") { r = (long long) highest_bit_set((int64_t) v); neg = (int64_t) v < 0; }
        else if (t[1] == "u32") r = (long long) highest_bit_set((unsigned int) v);
        else { r = (long long) highest_bit_set((int) v); neg = (int) v < 0; }
        o.raw("v", bytes(v, t[1] == "u64" || t[1] == "i64" ? 8 : 4)).num("neg", neg).num("r", r).send();
    }
}

// what is printed while f runs
static S printed(std::function<void()> f)
{
    fflush(stdout);
    int keep = dup(1), fd = memfd_create("out", 0);
    dup2(fd, 1);
    f();
    fflush(stdout); std::cout.flush();
    dup2(keep, 1); close(keep);
    S r; char b[4096]; ssize_t k;
    lseek(fd, 0, SEEK_SET);
    while ((k = read(fd, b, sizeof b)) > 0) r.append(b, k);
    close(fd);
    return r;
}
static double after(S const& s, const char * what, size_t from = 0)
{
    size_t p = s.find(what, from);
    return p == S::npos ? -1 : strtod(s.c_str() + p + strlen(what), nullptr);
}
template <class T> static T * vec(Toks const& t, size_t from, size_t n)
{
    T * r = (T *) malloc(n * sizeof(T));
    for (size_t i = 0; i < n; i++) r[i] = (T) I(t[from + i]) / 4;
    return r;
}
template <class T, class IT> static void results(Toks const& t)
{
    size_t n = U(t[3]);
    T * a = vec<T>(t, 4, n), * b = vec<T>(t, 4 + n, n);
    int rc = 99;
    S o = printed([&] { rc = check_results(a, b, (IT) n); });
    auto q = [&](T * v) { return list(n, [&](size_t i) { return fix(v[i], 4); }); };
    double worst = after(o, "Maximum error : ");
    Obj("Check").raw("a", list(n, [&](size_t i) { return num2(I(t[4 + i])); })).raw("b", list(n, [&](size_t i) { return num2(I(t[4 + n + i])); }))
        .raw("a2", q(a)).raw("b2", q(b)).num("rc", rc).num("wrong", (long long) after(o, "differ in ")).num("worst", worst < 0 ? -1 : (long long) std::llround(worst * 4))
        .num("same", o.find("same result") != S::npos).send();
    free(a); free(b);
}
template <class T, class IT> static void stat(Toks const& t)
{
    size_t n = U(t[3]);
    T * a = vec<T>(t, 4, n);
    double r = t[0] == "MEAN" ? mean(a, (IT) n) : t[0] == "MEDIAN" ? median(a, (IT) n) : standard_deviation(a, (IT) n);
    // values around a large one are recorded as their distance to it, and so is the result
    long long base = std::llabs(I(t[4])) >= 100000 ? I(t[4]) : 0;
    double d = t[0] == "STD" ? r : r - (double) base / 4;
    Obj("Stat").str("k", t[0]).num("base", base).raw("a", list(n, [&](size_t i) { return num2(I(t[4 + i]) - base); }))
        .num("r", std::isfinite(d) && std::fabs(d) < 1e7 ? (long long) std::llround(d * 64) : 2000000001LL).send();
    free(a);
}
// TIMES verbose|csv[*n] method a unit b...  (the list of times n times over, which changes none
// of the summaries)
static void times(Toks const& t)
{
    size_t n = t.size() - 5;
    unsigned long nnz = U(t[3]) * U(t[4]);
    size_t star = t[1].find('*'), over = star == S::npos ? 1 : std::stoul(t[1].substr(star + 1)), all = n * over;
    S kind = t[1].substr(0, star);
    double * d = (double *) malloc(all * sizeof(double));
    for (size_t k = 0; k < all; k++) { size_t i = k % n; d[k] = (double) U(t[5 + i]) * (double) U(t[4]) * 1e-6; }
    S o = printed([&] { (kind == "csv" ? print_timing_csv : print_timing_verbose)(t[2].c_str(), nnz, all, d); });
    const char * nm[] = {"best", "median", "mean", "worst"};
    std::vector<long long> tm, fl;
    if (kind == "csv") {
        size_t p = o.find(t[2] + ",");
        const char * c = p == S::npos ? "" : o.c_str() + p + t[2].size();
        for (int k = 0; k < 4; k++) { char * e; fl.push_back(*c == ',' ? std::llround(strtod(c + 1, &e)) : -1); if (*c == ',') c = e; tm.push_back(-1); }
    } else for (int k = 0; k < 4; k++) {
        S key = t[2] + " (" + nm[k] + "):";
        double x = after(o, ("Execution time " + key).c_str()), y = after(o, ("MFLOP/s        " + key).c_str());
        tm.push_back(x < 0 ? -2 : std::llround(x * 1e6)); fl.push_back(y < 0 ? -2 : std::llround(y));
    }
    auto out = [](std::vector<long long> const& v) { return list(v.size(), [&](size_t i) { return num2(v[i]); }); };
    Obj("Times").str("k", kind).num("a", I(t[3])).num("u", I(t[4])).raw("t", list(n, [&](size_t i) { return num2(I(t[5 + i])); })).raw("tm", out(tm)).raw("fl", out(fl)).send();
    free(d);
}
#define BY(f) do { \
    if (t[1] == "f") { if (t[2] == "u32") f<float, uint32_t>(t); else if (t[2] == "u64") f<float, uint64_t>(t); else f<float, int>(t); } \
    else { if (t[2] == "u32") f<double, uint32_t>(t); else if (t[2] == "u64") f<double, uint64_t>(t); else f<double, int>(t); } } while (0)

static void body(std::vector<Toks> const& h)
{
    for (auto const& t : h) {
        if (t[0] == "BEGIN") Obj("Begin").send();
        else if (t[0] == "PICK") { if (t[1] == "u32") pick<uint32_t>(t); else if (t[1] == "u64") pick<uint64_t>(t); else if (t[1] == "i32") pick<int>(t); else pick<int64_t>(t); }
        else if (t[0] == "HELP") helper(t);
        else if (t[0] == "CHECK") BY(results);
        else if (t[0] == "TIMES") times(t);
        else BY(stat);
    }
}
int main(int argc, char ** argv) { return drive(argc, argv, body); }

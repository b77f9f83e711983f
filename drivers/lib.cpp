// Drives the matrix library through its public interface and records what it does.
// -DVF_FIELDS also records the arrays inside the converted matrices.
#include <cassert>
#include "vf.h"
#include <sys/mman.h>
#include "common.h"
#include "matrix/coo.1.h"
#include "matrix/coo.2.h"
#include "matrix/coo.3.h"
#include "matrix/csr.1.h"
#include "matrix/csr.2.h"
#include "matrix/crcsr.h"
#include "matrix/cswr.h"
#include "matrix/csbr.h"
#include "matrix/csbr.2.h"
#include "matrix/cgbr.h"
#include "matrix/cgbr.2.h"
#include "matrix/dense.h"
#include "matrix/blocks.h"
#include "matrix/block_coo.1.h"
#include "matrix/block_coo.2.h"
#include "matrix/block_csr.h"
#include "io/output.h"
#include "io/blocked.h"
#include "permute.h"
#include "expand.h"
#include "test/utils.h"
#include "rt.h"

#ifndef VT
#define VT float
#define VIT uint32_t
#define VSIT uint16_t
#endif
typedef VT T; typedef VIT IT; typedef VSIT SIT;
using namespace vf;
#ifdef VF_SCHED
extern "C" { extern int vf_sched_fd; void vf_sched_set(int, unsigned long, int, int, int); void vf_sched_move(int, int); void vf_sched_stats(long *, long *); }
#endif

// what the partitioning of a block-row looks at
struct Weights
{
    IT nnz;
    std::vector<IT> bn;
    IT block_nonzeros(IT b) const { return bn.at(b); }
};

static const int MU = 4, VU = 64;      // units of matrix and vector values
static double mv(std::string const& s) { return unfix(I(s), MU); }
static std::string fm(T v) { return fix(v, MU); }
static std::string fms(T const * v, size_t n) { return list(n, [&](size_t i) { return fm(v[i]); }); }
static std::string ent(unsigned long long r, unsigned long long c, T v) { return "[" + num(r) + "," + num(c) + "," + fm(v) + "]"; }

// the numbers that f prints, in units of 1/10000; digits inside of words do not count
static int said;    // 1 balanced, 0 unbalanced, -1 neither
static std::vector<long long> whole;    // the same numbers without their fractions
template <class F> static std::string printed(F f)
{
    fflush(stdout); std::cout.flush();
    int fd = memfd_create("out", 0), was = dup(1);
    dup2(fd, 1);
    f();
    fflush(stdout); std::cout.flush();
    dup2(was, 1); close(was);
    std::string s; char b[4096]; ssize_t n;
    lseek(fd, 0, SEEK_SET);
    while ((n = read(fd, b, sizeof(b))) > 0) s.append(b, n);
    close(fd);
    said = s.find("Unbalanced") != std::string::npos ? 0 : s.find("Balanced") != std::string::npos ? 1 : -1;
    std::vector<std::string> r;
    whole.clear();
    for (size_t i = 0; i < s.size(); i++) {
        bool neg = s[i] == '-' && i + 1 < s.size();
        if (!isdigit((unsigned char) s[i + neg]) || (i && (isalnum((unsigned char) s[i-1]) || s[i-1] == '_' || s[i-1] == '.'))) continue;
        char * end;
        double v = strtod(s.c_str() + i, &end) * 10000;
        whole.push_back(std::fabs(v) < 2e13 ? (long long) (v / 10000) : 2000000002LL);
        r.push_back(num2(std::fabs(v) < 2e9 ? llround(v) : 2000000002LL));
        i = end - s.c_str() - 1;
    }
    return list(r.size(), [&](size_t i) { return r[i]; });
}

struct Mat {
    std::string f;
    virtual void show_() { _exit(96); }
    virtual void info() { _exit(96); }
    virtual ~Mat() {}
    virtual void mul(T const * x, T * y, bool serial) = 0;
    virtual long long nnz() { return -1; }
    virtual long long rows() { return -1; }
    virtual long long cols() { return -1; }
    virtual void rel() = 0;
    virtual std::string dump() { return ""; }      // JSON object or nothing
};

struct Src { int kind; Coo2<T,IT> a; Coo3<T,IT> b; };
struct Vec { T * p; IT n; };

static std::map<std::string, Src> srcs;
static std::map<std::string, Mat*> mats;
static std::map<std::string, Vec> vecs;

template <class C> std::string entries(C const& A)
{
    return list((size_t) A.nonzeros(), [&](size_t i) { return ent(A.get_row_index(i), A.get_column_index(i), A.get_value(i)); });
}
static std::string entries(Src const& s) { return s.kind == 2 ? entries(s.a) : entries(s.b); }

static Element<T,IT> * copy(Src const& s, bool byrow)
{
    IT n = s.kind == 2 ? s.a.nonzeros() : s.b.nonzeros();
    Element<T,IT> * e = new Element<T,IT>[n];
    for (IT i = 0; i < n; i++) {
        e[i].row = s.kind == 2 ? s.a.get_row_index(i) : s.b.get_row_index(i);
        e[i].col = s.kind == 2 ? s.a.get_column_index(i) : s.b.get_column_index(i);
        e[i].val = s.kind == 2 ? s.a.get_value(i) : s.b.get_value(i);
        e[i].block = 0;
    }
    if (byrow) std::stable_sort(e, e + n, [](Element<T,IT> const& p, Element<T,IT> const& q) { return p.row < q.row; });
    return e;
}

#define S2(call2, call3) (s.kind == 2 ? (void)(call2) : (void)(call3))

// ---------------------------------------------------------------- COO
struct MCoo1 : Mat {
    Coo<T,IT,IT> A;
    MCoo1(Src& s) { S2(Coo_to_Coo(&A, &s.a), Coo_to_Coo(&A, &s.b)); }
    void mul(T const * x, T * y, bool) override { A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); }
    std::string dump() override { return Obj().raw("es", entries(A)).done(); }
};
template <class C> struct MCooN : Mat {
    C A;
    MCooN(Src& s) { S2(Coo_to_Coo(&A, &s.a), Coo_to_Coo(&A, &s.b)); }
    void mul(T const * x, T * y, bool) override { A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); }
    std::string dump() override { return Obj().raw("es", entries(A)).done(); }
};
// the other two ways to fill a COO matrix: from three arrays, from an array of entries
struct MCooArr : Mat {
    Coo2<T,IT> A;
    MCooArr(Src& s, bool three) {
        IT n = s.kind == 2 ? s.a.nonzeros() : s.b.nonzeros(), r = s.kind == 2 ? s.a.rows : s.b.rows, c = s.kind == 2 ? s.a.columns : s.b.columns;
        Element<T,IT> * e = copy(s, false);
        if (three) {
            std::vector<IT> i(n + 1), j(n + 1); std::vector<T> v(n + 1);
            for (IT k = 0; k < n; k++) { i[k] = e[k].row; j[k] = e[k].col; v[k] = e[k].val; }
            Coo_to_Coo(&A, v.data(), i.data(), j.data(), r, c, n);
        } else Coo_to_Coo(&A, e, r, c, n);
        delete [] e;
    }
    void mul(T const * x, T * y, bool) override { A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); }
    std::string dump() override { return Obj().raw("es", entries(A)).done(); }
};

// ---------------------------------------------------------------- CSR
template <class C> std::string csrdump(C const&);
// From an array of entries instead of a matrix: 'a' as it is, the call sorts and allocates;
// 's' sorted already, the call allocates; 'x' as it is, into memory given to it;
// 'y' sorted already, into memory given to it.
struct Arr {
    Element<T,IT> * e; IT n, r, c;
    Arr(Src& s, bool byrow) : e(copy(s, byrow)), n(s.kind == 2 ? s.a.nnz : s.b.nnz), r(s.kind == 2 ? s.a.rows : s.b.rows), c(s.kind == 2 ? s.a.columns : s.b.columns) {}
    ~Arr() { delete [] e; }
};
static bool presorted(char how) { return how == 's' || how == 'y'; }
static bool given(char how) { return how == 'x' || how == 'y'; }
struct MCsr : Mat {
    Csr<T,IT> A;
    MCsr(Src& s, char how) {
        Arr a(s, presorted(how));
        if (given(how)) { A.val = new T[a.n]; A.col_ind = new IT[a.n]; }
        Coo_to_Csr(&A, a.e, a.r, a.c, a.n, presorted(how), !given(how));
    }
    MCsr(Src& s) { S2(Coo_to_Csr(&A, &s.a), Coo_to_Csr(&A, &s.b)); }
    void info() override { print_info(A); }
    void show_() override { show(A); }
    void mul(T const * x, T * y, bool ser) override { if (ser) A.spmv_serial(x, y); else A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); }
#ifdef VF_FIELDS
    std::string dump() override { size_t n = A.nonzeros(); return Obj().raw("ptr", nums(A.row_ptr, A.rows + 1)).raw("ind", nums(A.col_ind, n)).raw("val", fms(A.val, n)).done(); }
#endif
};
struct MCsr2 : Mat {
    Csr2<T,IT> A;
    MCsr2(Src& s, char how) {
        Arr a(s, presorted(how));
        if (given(how)) A.data = new NonZero<T,IT>[a.n];
        Coo_to_Csr(&A, a.e, a.r, a.c, a.n, presorted(how), !given(how));
    }
    MCsr2(Src& s) { S2(Coo_to_Csr(&A, &s.a), Coo_to_Csr(&A, &s.b)); }
    void info() override { print_info(A); }
    void mul(T const * x, T * y, bool ser) override { if (ser) A.spmv_serial(x, y); else A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); }
#ifdef VF_FIELDS
    std::string dump() override {
        size_t n = A.nonzeros();
        return Obj().raw("ptr", nums(A.row_ptr, A.rows + 1)).raw("ind", list(n, [&](size_t i) { return num(A.data[i].index); })).raw("val", list(n, [&](size_t i) { return fm(A.data[i].val); })).done();
    }
#endif
};
struct MCrCsr : Mat {
    CompRowCsr<T,IT> A;
    MCrCsr(Src& s, char how) {
        Arr a(s, presorted(how));
        if (presorted(how)) {       // the number of rows with entries is known
            IT k = 0;
            for (IT i = 0; i < a.n; i++) k += i == 0 || a.e[i].row != a.e[i-1].row;
            Coo_to_CrCsr(&A, a.e, a.n, k);
        } else Coo_to_CrCsr(&A, a.e, a.n);
    }
    MCrCsr(Src& s) { S2(Coo_to_CrCsr(&A, &s.a), Coo_to_CrCsr(&A, &s.b)); }
    void mul(T const * x, T * y, bool ser) override { if (ser) spmv_serial(&A, x, y); else spmv(&A, x, y); }
    long long nnz() override { return A.nonzeros(); }
    void rel() override { release(A); }
#ifdef VF_FIELDS
    std::string dump() override {
        size_t n = A.nonzeros();
        return Obj().raw("rows", nums(A.nnz_rows, A.nnz_rows_num)).raw("ptr", nums(A.row_ptr, A.nnz_rows_num + 1)).raw("ind", nums(A.col_ind, n)).raw("val", fms(A.val, n)).done();
    }
#endif
};
template <class S> struct MCswr : Mat {
    Cswr<T,IT,S> A;
    MCswr(Src& s, IT w, char how) { Arr a(s, presorted(how)); Coo_to_Cswr(&A, a.e, a.r, a.c, a.n, w); }
    MCswr(Src& s, IT w) { if (w) S2(Coo_to_Cswr(&A, &s.a, w), Coo_to_Cswr(&A, &s.b, w)); else S2(Coo_to_Cswr(&A, &s.a), Coo_to_Cswr(&A, &s.b)); }
    void info() override { print_info(A); }
    void mul(T const * x, T * y, bool) override { A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); }
#ifdef VF_FIELDS
    std::string dump() override {
        size_t n = A.nonzeros();
        return Obj().num("width", A.width).num("nw", A.nwrows).raw("row", nums(A.row, n)).raw("ptr", nums(A.wrow_ptr, A.nwrows + 1)).raw("ind", nums(A.col, n)).raw("val", fms(A.val, n)).done();
    }
#endif
};

// ---------------------------------------------------------------- blocked
struct Blk { bool cst; IT br, bc; std::vector<IT> ro, co; };
static Blk blocking(Toks const& t, size_t& k)
{
    Blk b;
    b.cst = t[k++] == "c";
    if (b.cst) { b.br = I(t[k++]); b.bc = I(t[k++]); return b; }
    size_t n = I(t[k++]); for (size_t i = 0; i <= n; i++) b.ro.push_back(I(t[k++]));
    n = I(t[k++]); for (size_t i = 0; i <= n; i++) b.co.push_back(I(t[k++]));
    return b;
}
static std::string blkjson(Blk const& b)
{
    return b.cst ? Obj().num("c", 1).num("br", b.br).num("bc", b.bc).done() : Obj().num("c", 0).raw("ro", nums(b.ro)).raw("co", nums(b.co)).done();
}
static IT * dup_(std::vector<IT> const& v, bool heap)
{
    IT * p = heap ? (IT *) malloc(v.size() * sizeof(IT)) : new IT[v.size()];
    std::copy(v.begin(), v.end(), p);
    return p;
}
#ifdef VF_FIELDS
template <class A_> Obj& geometry(Obj& o, A_ const& A)
{
    return o.raw("ro", nums(A.blockrow_offset, A.blockrows + 1)).raw("co", nums(A.blockcol_offset, A.blockcols + 1))
            .raw("bptr", nums(A.blockrow_ptr, A.blockrows + 1)).num("nb", A.nnzblocks);
}
template <class A_> std::string partition_(A_ const& A, bool has)
{
    return has ? list(A.blockrows, [&](size_t i) { return nums(A.partition[i].chunks); }) : std::string("[]");
}
#endif

// Writes the entries of a source to a blocked file and reads that as A; r, c: the boundaries
static std::vector<IT> cuts_(IT n, IT by) { IT k = n / by ? n / by : 1; std::vector<IT> o; for (IT i = 0; i < k; i++) o.push_back(i * by); o.push_back(n); return o; }
template <class A_> void through(A_& A, Src& s, Blk const& b, IT *& ro, IT *& co)
{
    Coo3<T,IT> f; f.nnz = s.kind == 2 ? s.a.nnz : s.b.nnz; f.rows = s.kind == 2 ? s.a.rows : s.b.rows; f.columns = s.kind == 2 ? s.a.columns : s.b.columns;
    std::vector<IT> r = b.cst ? cuts_(f.rows, b.br) : b.ro, c = b.cst ? cuts_(f.columns, b.bc) : b.co;
    ro = dup_(r, true); co = dup_(c, true);
    f.elements = copy(s, false); f.blockrows = r.size() - 1; f.blockcols = c.size() - 1;
    calculate_block_id(f.elements, f.nnz, ro, f.blockrows, co, f.blockcols);
    sort_elements_blocks(f.elements, f.nnz);
    f.nnzblocks = count_blocks(f.elements, f.nnz);
    int fd = memfd_create("blocked", 0);
    std::string name = "/proc/self/fd/" + std::to_string(fd);
    int w = write_bin_blocked(f, name.c_str()), q = read_bin_blocked(&A, name.c_str(), ro, f.blockrows, co, f.blockcols);
    close(fd); delete [] f.elements;
    if (w < 0 || q < 0) { fprintf(stderr, "blocked file: %d %d\n", w, q); abort(); }
}

struct MCsbr : Mat {
    Csbr<T,IT> A; bool bal, parts = true;
    MCsbr(Src& s, Blk const& b, bool unbal, bool) : bal(!unbal), parts(unbal) {
        IT * ro, * co; through(A, s, b, ro, co);
        if (unbal) { partition_init(&A); A.balanced = false; }
    }
    MCsbr(Src& s, Blk const& b, bool unbal) : bal(!unbal) {
        // the same under the name that all blocked formats share, for every other shape
        if (b.cst && (b.br + b.bc) % 2) S2(Coo_to_Blocked(&A, &s.a, b.br, b.bc), Coo_to_Blocked(&A, &s.b, b.br, b.bc));
        else if (b.cst) S2(Coo_to_Csbr(&A, &s.a, b.br, b.bc), Coo_to_Csbr(&A, &s.b, b.br, b.bc));
        else {
            IT * ro = dup_(b.ro, true), * co = b.ro == b.co ? ro : dup_(b.co, true);
            if ((b.ro.back() + b.ro.size()) % 2) S2(Coo_to_Blocked(&A, &s.a, ro, IT(b.ro.size() - 1), co, IT(b.co.size() - 1)), Coo_to_Blocked(&A, &s.b, ro, IT(b.ro.size() - 1), co, IT(b.co.size() - 1)));
            else S2(Coo_to_Csbr(&A, &s.a, ro, IT(b.ro.size() - 1), co, IT(b.co.size() - 1)), Coo_to_Csbr(&A, &s.b, ro, IT(b.ro.size() - 1), co, IT(b.co.size() - 1)));
        }
        if (unbal) A.balanced = false;      // public switch: use the within-block-row parallelism
    }
    void info() override { print_info(A); }
    void mul(T const * x, T * y, bool) override { A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); }
#ifdef VF_FIELDS
    std::string dump() override {
        Obj o;
        geometry(o, A).raw("bci", nums(A.blockcol_ind, A.nnzblocks)).raw("part", partition_(A, parts)).num("bal", A.balanced)
            .raw("bnnz", list(A.nnzblocks, [&](size_t i) { return num(A.block_nonzeros(i)); }))
            .raw("blocks", list(A.nnzblocks, [&](size_t i) { auto& b = *A.block(i); size_t n = b.row_ptr[b.rows];
                return Obj().str("k", "csr").raw("ptr", nums(b.row_ptr, b.rows + 1)).raw("ind", nums(b.col_ind, n)).raw("val", fms(b.val, n)).done(); }));
        return o.done();
    }
#endif
};
struct MCsbr2 : Mat {
    Csbr2<T,IT> A;
    MCsbr2(Src& s, Blk const& b, bool) { IT * ro, * co; through(A, s, b, ro, co); }
    MCsbr2(Src& s, Blk const& b) {
        if (b.cst) Coo_to_Csbr(&A, &s.b, b.br, b.bc);
        else {
            IT * ro = dup_(b.ro, true), * co = b.ro == b.co ? ro : dup_(b.co, true);
            Coo_to_Csbr(&A, &s.b, ro, IT(b.ro.size() - 1), co, IT(b.co.size() - 1));
        }
    }
    void info() override { print_info(A); }
    void mul(T const * x, T * y, bool) override { A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); }
#ifdef VF_FIELDS
    std::string dump() override {
        Obj o;
        std::vector<size_t> brof(A.nnzblocks);
        for (IT r = 0; r < A.blockrows; r++) for (IT k = A.blockrow_ptr[r]; k < A.blockrow_ptr[r+1]; k++) brof.at(k) = r;
        geometry(o, A).raw("ind", nums(A.col_ind, A.nnz)).raw("val", fms(A.val, A.nnz))
            .raw("ptrs", list(A.nnzblocks, [&](size_t i) { return nums(A.row_ptr[i], A.blockrow_offset[brof[i]+1] - A.blockrow_offset[brof[i]] + 1); }));
        return o.done();
    }
#endif
};
struct MCgbr : Mat {
    Cgbr<T,IT,SIT> A; IT * ro = nullptr, * co = nullptr;
    MCgbr(Src& s, Blk const& b, bool) { IT * r, * c; through(A, s, b, r, c); }
    MCgbr(Src& s, Blk const& b) {
        if (b.cst) Coo_to_Cgbr(&A, &s.b, b.br, b.bc);
        else { ro = dup_(b.ro, false); co = dup_(b.co, false); Coo_to_Cgbr(&A, &s.b, ro, IT(b.ro.size() - 1), co, IT(b.co.size() - 1)); }
    }
    void info() override { print_info(A); }
    void mul(T const * x, T * y, bool ser) override { if (ser) A.spmv_serial(x, y); else A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); delete [] ro; delete [] co; }
#ifdef VF_FIELDS
    std::string dump() override {
        Obj o;
        geometry(o, A).raw("bci", nums(A.blockcol_ind, A.nnzblocks)).raw("part", partition_(A, !A.balanced)).num("bal", A.balanced)
            .raw("bnnz", list(A.nnzblocks, [&](size_t i) { return num(A.block_nonzeros(i)); }))
            .raw("tb", nums(A.type_block_count, MATRIX_TYPE_NUM)).raw("tn", nums(A.type_nnz_count, MATRIX_TYPE_NUM))
            .raw("blocks", list(A.nnzblocks, [&](size_t i) -> std::string { auto& b = *A.block(i);
                if (b.type == BLOCK_COO) { auto& m = b.matrix.coo; return Obj().str("k", "coo").raw("es", list(m.nonzeros(), [&](size_t j) { return ent(m.I[j], m.J[j], m.val[j]); })).done(); }
                if (b.type == BLOCK_CSR) { auto& m = b.matrix.csr; size_t n = m.row_ptr[m.rows]; return Obj().str("k", "csr").raw("ptr", nums(m.row_ptr, m.rows + 1)).raw("ind", nums(m.col_ind, n)).raw("val", fms(m.val, n)).done(); }
                if (b.type == BLOCK_DENSE) { auto& m = b.matrix.dense; return Obj().str("k", "dense").num("rows", m.rows).num("cols", m.columns).raw("val", fms(m.val, (size_t) m.rows * m.columns)).done(); }
                return Obj().str("k", "?").done(); }));
        return o.done();
    }
#endif
};
#ifdef VF_FIELDS
static std::string blockdump(BlockBase<T,IT> * b)
{
    if (auto m = dynamic_cast<BlockCsrSerial<T,IT,SIT>*>(b)) { size_t n = m->row_ptr[m->M]; return Obj().str("k", dynamic_cast<BlockCsrParallel<T,IT,SIT>*>(b) ? "csrp" : "csr").raw("ptr", nums(m->row_ptr, m->M + 1)).raw("ind", nums(m->col_ind, n)).raw("val", fms(m->val, n)).done(); }
    if (auto m = dynamic_cast<DenseSerial<T,IT>*>(b)) return Obj().str("k", "dense").num("rows", m->rows).num("cols", m->columns).raw("val", fms(m->val, (size_t) m->rows * m->columns)).done();
    if (auto m = dynamic_cast<Coo<T,IT,SIT>*>(b)) return Obj().str("k", "coo").raw("es", list(m->nonzeros(), [&](size_t j) { return ent(m->get_row_index(j), m->get_column_index(j), m->get_value(j)); })).done();
    return Obj().str("k", "?").done();
}
#endif
// A factory that decides the kind of every block by itself (kind 5: alternating)
struct Factory : BlockFactory<T,IT> {
    int kind, n = 0;
    Factory(int k) : kind(k) {}
    MatrixType create(BlockBase<T,IT> ** t, Element<T,IT> * a, IT r, IT c, IT nnz) override {
        int k = kind == 5 ? n++ % 5 : kind;
        switch (k) {
            case 0: *t = new Coo<T,IT,SIT>(a, nnz); return BLOCK_COO;
            case 1: *t = new BlockCsrSerial<T,IT,SIT>(a, r, c, nnz); return BLOCK_CSR;
            case 2: *t = new BlockCsrParallel<T,IT,SIT>(a, r, c, nnz); return BLOCK_CSR_PAR;
            case 3: *t = new DenseSerial<T,IT>(a, r, c, nnz); return BLOCK_DENSE;
            default: *t = new DenseParallel<T,IT>(a, r, c, nnz); return BLOCK_DENSE;
        }
    }
};
struct MCgbr2 : Mat {
    Cgbr2<T,IT,SIT> A; IT * ro = nullptr, * co = nullptr;
    MCgbr2(Src& s, Blk const& b, int kind, bool bal) {
        if (b.cst) Coo_to_Cgbr(&A, &s.b, b.br, b.bc);
        else {
            ro = dup_(b.ro, false); co = dup_(b.co, false);
            if (kind < 0) Coo_to_Cgbr(&A, &s.b, ro, IT(b.ro.size() - 1), co, IT(b.co.size() - 1));
            else { Factory f(kind); Coo_to_Cgbr(&A, &s.b, ro, IT(b.ro.size() - 1), co, IT(b.co.size() - 1), f); }
        }
        if (bal) A.balanced = true;
    }
    void info() override { print_info(A); }
    void mul(T const * x, T * y, bool) override { A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); delete [] ro; delete [] co; }
#ifdef VF_FIELDS
    std::string dump() override {
        Obj o;
        geometry(o, A).raw("bci", nums(A.blockcol_ind, A.nnzblocks)).raw("part", partition_(A, true)).num("bal", A.balanced)
            .raw("bnnz", list(A.nnzblocks, [&](size_t i) { return num(A.block_nonzeros(i)); }))
            .raw("tb", nums(A.type_block_count, MATRIX_TYPE_NUM)).raw("tn", nums(A.type_nnz_count, MATRIX_TYPE_NUM))
            .raw("blocks", list(A.nnzblocks, [&](size_t i) { return blockdump(A.block(i)); }));
        return o.done();
    }
#endif
};

// ---------------------------------------------------------------- dense, single blocks
struct MDense : Mat {
    BlockDense<T,IT> A;
    MDense(Src& s, char how) { Arr a(s, presorted(how)); Coo_to_Dense(&A, a.e, a.r, a.c, a.n); }
    MDense(Src& s) { S2(Coo_to_Dense(&A, &s.a), Coo_to_Dense(&A, &s.b)); }
    void mul(T const * x, T * y, bool ser) override { if (ser) A.spmv_serial(x, y); else A.spmv(x, y); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); }
#ifdef VF_FIELDS
    std::string dump() override { return Obj().raw("val", fms(A.val, (size_t) A.rows * A.columns)).done(); }
#endif
};
template <class B> struct MBCoo : Mat {
    B A;
    MBCoo(Src& s) { Element<T,IT> * e = copy(s, false); Coo_to_Coo(&A, e, s.kind == 2 ? s.a.nnz : s.b.nnz); delete [] e; }
    void mul(T const * x, T * y, bool) override { A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    void rel() override { release(A); }
};
struct MBCoo1 : MBCoo<BlockCoo<T,IT,SIT>> {
    using MBCoo::MBCoo;
    std::string dump() override { return Obj().raw("es", list(A.nonzeros(), [&](size_t i) { return ent(A.get_row_index(i), A.get_column_index(i), A.get_value(i)); })).done(); }
};
struct MBCoo2 : MBCoo<BlockCoo2<T,IT,SIT>> {
    using MBCoo::MBCoo;
#ifdef VF_FIELDS
    std::string dump() override { return Obj().raw("es", list(A.nonzeros(), [&](size_t i) { return ent(A.triplets[i].row, A.triplets[i].col, A.triplets[i].val); })).done(); }
#endif
};
struct MBCsr : Mat {
    BlockCsr<T,IT,SIT> A;
    MBCsr(Src& s, bool sorted) {
        Element<T,IT> * e = copy(s, sorted); IT n = s.kind == 2 ? s.a.nnz : s.b.nnz, r = s.kind == 2 ? s.a.rows : s.b.rows, c = s.kind == 2 ? s.a.columns : s.b.columns;
        if (sorted) Coo_to_Csr(&A, e, r, c, n); else Coo_to_Csr(&A, e, r, c, n, false);
        delete [] e;
    }
    void mul(T const * x, T * y, bool ser) override { if (ser) A.spmv_serial(x, y); else A.spmv(x, y); }
    long long nnz() override { return A.nonzeros(); }
    long long rows() override { return A.rows; }
    long long cols() override { return A.columns; }
    void rel() override { release(A); }
#ifdef VF_FIELDS
    std::string dump() override { size_t n = A.nonzeros(); return Obj().raw("ptr", nums(A.row_ptr, A.rows + 1)).raw("ind", nums(A.col_ind, n)).raw("val", fms(A.val, n)).done(); }
#endif
};
struct MEl : Mat {     // blocks of CGBR2 used on their own
    BlockBase<T,IT> * A;
    MEl(Src& s, int kind) {
        Element<T,IT> * e = copy(s, true); IT n = s.kind == 2 ? s.a.nnz : s.b.nnz, r = s.kind == 2 ? s.a.rows : s.b.rows, c = s.kind == 2 ? s.a.columns : s.b.columns;
        Factory f(kind); BlockFactoryDefault<T,IT,SIT> d;
        if (kind < 0) d.create(&A, e, r, c, n); else f.create(&A, e, r, c, n);
        delete [] e;
    }
    void mul(T const * x, T * y, bool) override { A->spmv(x, y); }
    long long nnz() override { return A->nonzeros(); }
    void rel() override { delete A; }
#ifdef VF_FIELDS
    std::string dump() override { return blockdump(A); }
#endif
};

static Mat * convert(Toks const& t, Src& s)
{
    std::string const& f = t[2];
    size_t k = 4;
    if (t[0] == "RBL") {
        Blk b = blocking(t, k);
        if (f == "csbr2") return new MCsbr2(s, b, true);
        if (f == "cgbr") return new MCgbr(s, b, true);
        return new MCsbr(s, b, f == "csbru", true);
    }
    if (f == "coo1") return new MCoo1(s);
    if (f == "coo2") return new MCooN<Coo2<T,IT>>(s);
    if (f == "coo3") return new MCooN<Coo3<T,IT>>(s);
    if (f == "cooI") return new MCooArr(s, true);
    if (f == "cooE") return new MCooArr(s, false);
    if (f == "csr") return new MCsr(s);
    if (f == "csr2") return new MCsr2(s);
    if (f == "crcsr") return new MCrCsr(s);
    if (f == "cswr") return new MCswr<SIT>(s, I(t[k]));
    if (f == "cswr8") return new MCswr<uint8_t>(s, I(t[k]));
    char how = f.back();
    std::string const base = f.substr(0, f.size() - 1);
    if (base == "csr" && how != '2') return new MCsr(s, how);
    if (base == "csr2") return new MCsr2(s, how);
    if (base == "crcsr") return new MCrCsr(s, how);
    if (base == "cswr" && how != '8') { IT w = I(t[k]); return new MCswr<SIT>(s, w ? w : 1, how); }
    if (base == "dense") return new MDense(s, how);
    if (f == "csbr" || f == "csbru") return new MCsbr(s, blocking(t, k), f == "csbru");
    if (f == "csbr2") return new MCsbr2(s, blocking(t, k));
    if (f == "cgbr") return new MCgbr(s, blocking(t, k));
    if (f == "cgbr2" || f == "cgbr2b") { Blk b = blocking(t, k); return new MCgbr2(s, b, t.size() > k ? (int) I(t[k]) : -1, f == "cgbr2b"); }
    if (f == "dense") return new MDense(s);
    if (f == "bcoo") return new MBCoo1(s);
    if (f == "bcoo2") return new MBCoo2(s);
    if (f == "bcsr") return new MBCsr(s, true);
    if (f == "bcsru") return new MBCsr(s, false);
    if (f == "ecoo") return new MEl(s, 0);
    if (f == "ecsr") return new MEl(s, 1);
    if (f == "ecsrp") return new MEl(s, 2);
    if (f == "eden") return new MEl(s, 3);
    if (f == "edenp") return new MEl(s, 4);
    if (f == "edef") return new MEl(s, -1);
    fprintf(stderr, "unknown format %s\n", f.c_str());
    _exit(96);
}

static std::string vec(Vec const& v) { return list(v.n, [&](size_t i) { return fix(v.p[i], VU); }); }
static T * newvec(size_t n) { return (T *) malloc(n * sizeof(T)); }
static std::vector<IT> its(Toks const& t, size_t& k) { size_t n = I(t[k++]); std::vector<IT> r; for (size_t i = 0; i < n; i++) r.push_back(I(t[k++])); return r; }
// exact-size copy, so that an access outside of it is seen
static IT * heap(std::vector<IT> const& v) { IT * p = (IT *) malloc(v.size() * sizeof(IT)); std::copy(v.begin(), v.end(), p); return p; }
static std::string ints(Toks const& t, size_t from) { return list(t.size() - from, [&](size_t i) { return t[from + i]; }); }
static std::string nat(std::vector<IT> const& v) { return nums(v); }
static Element<T,IT> * elems(Toks const& t, size_t& k, IT& n)
{
    n = I(t[k++]);
    Element<T,IT> * e = (Element<T,IT> *) malloc(n * sizeof(*e));
    for (IT i = 0; i < n; i++) { e[i].row = I(t[k++]); e[i].col = I(t[k++]); e[i].val = mv(t[k++]); e[i].block = 0; }
    return e;
}
static std::string elist(Element<T,IT> const * e, IT n) { return list(n, [&](size_t i) { return ent(e[i].row, e[i].col, e[i].val); }); }

// Indices spread over the whole range of their type while a sort runs: i becomes a * i + b, with b < a
struct Spread { unsigned long long ra = 1, rb = 0, ca = 1, cb = 0; } spr;
static IT times(unsigned long long w, unsigned long long a)      // w * a, or the largest number there is
{
    unsigned long long top = std::numeric_limits<IT>::max();
    return w > top / a ? IT(top) : IT(w * a);
}
template <class E> static void spread(E * e, IT n)
{
    for (IT i = 0; i < n; i++) { e[i].row = IT(spr.ra * e[i].row + spr.rb); e[i].col = IT(spr.ca * e[i].col + spr.cb); }
}
template <class E> static void unspread(E * e, IT n)
{
    auto back = [](unsigned long long v, unsigned long long a, unsigned long long b) { return v < b || (v - b) % a ? IT(2000000001) : IT((v - b) / a); };
    for (IT i = 0; i < n; i++) { e[i].row = back(e[i].row, spr.ra, spr.rb); e[i].col = back(e[i].col, spr.ca, spr.cb); }
}

static void step(Toks const& t)
{
    std::string const& c = t[0];
    if (c == "BEGIN") {
        omp_set_num_threads(I(t[2]));
        Obj("Begin").str("id", t[1]).num("w", omp_get_max_threads()).num("sit", (long long) (sizeof(SIT) >= 4 ? 2000000000 : std::numeric_limits<SIT>::max())).send();
    } else if (c == "SETW") {             // SETW n : another number of workers from here on
        omp_set_num_threads(I(t[1]));
        Obj("Workers").num("w", omp_get_max_threads()).send();
#ifdef VF_SCHED
    } else if (c == "SCHED") {            // SCHED mode seed grain inline shuffle k:t ... : how the next regions are scheduled
        vf_sched_set(I(t[1]), I(t[2]), I(t[3]), I(t[4]), I(t[5]));
        for (size_t i = 6; i < t.size(); i++) { size_t p = t[i].find(':'); vf_sched_move(I(t[i].substr(0, p)), p == std::string::npos ? -1 : I(t[i].substr(p + 1))); }
    } else if (c == "SCHEDEND") {         // how much of the given schedule was followed
        long h = 0, m = 0; vf_sched_stats(&h, &m); Obj("OmpScript").num("hit", h).num("miss", m).send();
#else
    } else if (c == "SCHED" || c == "SCHEDEND") {
#endif
    } else if (c == "SRC") {              // SRC name kind rows cols n r c v ...
        Src s; s.kind = I(t[2]);
        IT n = I(t[5]);
        if (s.kind == 2) { allocate(&s.a, n); s.a.rows = I(t[3]); s.a.columns = I(t[4]); }
        else { allocate(&s.b, n); s.b.rows = I(t[3]); s.b.columns = I(t[4]); }
        std::string want = "[";
        for (IT i = 0; i < n; i++) {
            size_t k = 6 + 3 * i;
            if (s.kind == 2) set_point(&s.a, i, IT(I(t[k])), IT(I(t[k+1])), T(mv(t[k+2])));
            else set_point(&s.b, i, IT(I(t[k])), IT(I(t[k+1])), T(mv(t[k+2])));
            if (i) want += ",";
            want += "[" + t[k] + "," + t[k+1] + "," + t[k+2] + "]";
        }
        srcs[t[1]] = s;
        Obj("NewSrc").str("s", t[1]).num("k", s.kind).num("r", I(t[3])).num("c", I(t[4])).raw("es", want + "]").raw("got", entries(s)).send();
    } else if (c == "VEC") {              // VEC name v ...   (in 1/VU)
        Vec v; v.n = t.size() - 2; v.p = newvec(v.n);
        for (IT i = 0; i < v.n; i++) v.p[i] = unfix(I(t[2 + i]), VU);
        vecs[t[1]] = v;
        Obj("NewVec").str("v", t[1]).raw("d", ints(t, 2)).send();
    } else if (c == "CVT" || c == "RBL") {              // CVT m fmt s params ; RBL: by way of a blocked file
        Src& s = srcs.at(t[3]);
        Mat * m = convert(t, s);
        m->f = t[2];
        mats[t[1]] = m;
        Obj o("Convert");
        o.str("m", t[1]).str("f", t[2]).str("s", t[3]).raw("p", list(t.size() - 4, [&](size_t i) { return q(t[4 + i]); }));
        o.num("nnz", m->nnz()).num("rows", m->rows()).num("cols", m->cols());
        if (t.size() > 4 && (t[4] == "c" || t[4] == "o")) { size_t k = 4; o.raw("blk", blkjson(blocking(t, k))); }
        if (c == "RBL") o.num("via", 1);
        o.raw("after", entries(s));
        o.send();
    } else if (c == "BULK") {             // BULK n r c format params : n ones spread over r x c, converted, summarised, multiplied by ones
        IT n = I(t[1]), r = I(t[2]), cs = I(t[3]);
        Src& s = srcs["@"]; s.kind = I(t[4]);
        if (s.kind == 2) { allocate(&s.a, n); s.a.rows = r; s.a.columns = cs; } else { allocate(&s.b, n); s.b.rows = r; s.b.columns = cs; }
        for (IT k = 0; k < n; k++)
            if (s.kind == 2) set_point(&s.a, k, IT(k % r), IT(k / r % cs), T(1)); else set_point(&s.b, k, IT(k % r), IT(k / r % cs), T(1));
        Toks u = {"CVT", "@", t[5], "@"};
        u.insert(u.end(), t.begin() + 6, t.end());
        Mat * m = convert(u, s);
        printed([&] { m->info(); });
        std::vector<long long> shown = whole;
        T * x = newvec(cs), * y = newvec(r), * z = newvec(r);
        for (IT k = 0; k < cs; k++) x[k] = 1;
        for (IT k = 0; k < r; k++) { y[k] = 1; z[k] = 0; }
        m->mul(x, y, false); m->mul(x, z, true);
        Blk b;
        if (u.size() > 4 && u[4] == "o") { size_t k = 4; b = blocking(u, k); }
        Obj("Bulk").raw("ro", nat(b.ro)).raw("co", nat(b.co)).num("n", n).num("r", r).num("c", cs).str("f", t[5]).num("nnz", m->nnz()).num("rows", m->rows()).num("cols", m->cols())
            .raw("p", list(u.size() - 4, [&](size_t i) { return q(u[4 + i]); }))
            .raw("i", list(shown.size(), [&](size_t i) { return num2(shown[i]); }))
            .raw("y", list(r, [&](size_t i) { return fix(y[i], 1); })).raw("z", list(r, [&](size_t i) { return fix(z[i], 1); })).send();
        free(x); free(y); free(z);
        m->rel(); delete m;
        S2(release(s.a), release(s.b)); srcs.erase("@");
    } else if (c == "MUL") {              // MUL m x y p|s
        Vec& x = vecs.at(t[2]); Vec& y = vecs.at(t[3]);
        mats.at(t[1])->mul(x.p, y.p, t[4] == "s");
        Obj("Mul").str("m", t[1]).str("x", t[2]).str("y", t[3]).raw("xa", vec(x)).raw("ya", vec(y)).send();
    } else if (c == "DUMP") {
        std::string d = mats.at(t[1])->dump();
        if (!d.empty()) Obj("Dump").str("m", t[1]).raw("d", d).send();
    } else if (c == "LIST") {             // LIST s|m|v name : what is printed for it
        if (t[1] == "s") { Src& s = srcs.at(t[2]); Obj("ListSrc").str("s", t[2]).raw("t", printed([&] { S2(show(s.a), show(s.b)); })).send(); }
        if (t[1] == "m") { Mat * m = mats.at(t[2]); Obj("ListMat").str("m", t[2]).raw("t", printed([&] { m->show_(); })).send(); }
        if (t[1] == "v") { Vec& v = vecs.at(t[2]); Obj("ListVec").str("v", t[2]).raw("t", printed([&] { show(v.p, (int) v.n); })).send(); }
        if (t[1] == "i") { Mat * m = mats.at(t[2]); std::string p = printed([&] { m->info(); }); Obj("Info").str("m", t[2]).raw("t", p).raw("u", num2(said)).send(); }
    } else if (c == "VECS") {             // everything that is alive and observable
        for (auto& v : vecs) Obj("SeeVec").str("v", v.first).raw("d", vec(v.second)).send();
    } else if (c == "SEE") {
        Src& s = srcs.at(t[1]);
        Obj("SeeSrc").str("s", t[1]).num("r", s.kind == 2 ? s.a.rows : s.b.rows).num("c", s.kind == 2 ? s.a.columns : s.b.columns).raw("es", entries(s)).send();
    } else if (c == "SETP") {             // SETP s i r c v : change one entry of a source
        Src& s = srcs.at(t[1]); IT i = I(t[2]);
        if (s.kind == 2) set_point(&s.a, i, IT(I(t[3])), IT(I(t[4])), T(mv(t[5])));
        else set_point(&s.b, i, IT(I(t[3])), IT(I(t[4])), T(mv(t[5])));
        Obj("SetPoint").str("s", t[1]).num("i", i).num("r", I(t[3])).num("c", I(t[4])).num("v", I(t[5])).raw("after", entries(s)).send();
    } else if (c == "SMUL") {             // multiply with the source itself
        Src& s = srcs.at(t[1]); Vec& x = vecs.at(t[2]); Vec& y = vecs.at(t[3]);
        S2(s.a.spmv(x.p, y.p), s.b.spmv(x.p, y.p));
        Obj("MulSrc").str("s", t[1]).str("x", t[2]).str("y", t[3]).raw("xa", vec(x)).raw("ya", vec(y)).send();
    } else if (c == "RELM") {
        mats.at(t[1])->rel(); delete mats[t[1]]; mats.erase(t[1]);
        Obj("RelMat").str("m", t[1]).send();
    } else if (c == "RELS") {
        Src& s = srcs.at(t[1]); S2(release(s.a), release(s.b)); srcs.erase(t[1]);
        Obj("RelSrc").str("s", t[1]).send();
    } else if (c == "RELV") {
        free(vecs.at(t[1]).p); vecs.erase(t[1]);
        Obj("RelVec").str("v", t[1]).send();
    } else if (c == "SPREAD") {           // SPREAD row-factor row-offset column-factor column-offset : for the next SORT
        auto U = [](std::string const& x) { return strtoull(x.c_str(), nullptr, 10); };
        spr.ra = U(t[1]); spr.rb = U(t[2]); spr.ca = U(t[3]); spr.cb = U(t[4]);
    } else if (c == "SORT") {             // SORT s row|col|wide W
        Src& s = srcs.at(t[1]);
        S2(spread(s.a.triplets, s.a.nnz), spread(s.b.elements, s.b.nnz));
        if (t[2] == "row") S2(sort_triplets(s.a.triplets, s.a.nnz), sort_triplets(s.b.elements, s.b.nnz));
        else if (t[2] == "rowm") S2(sort_triplets(s.a.triplets, s.a.nnz, true), sort_triplets(s.b.elements, s.b.nnz, true));
        else if (t[2] == "col") S2(sort_triplets(s.a.triplets, s.a.nnz, false), sort_triplets(s.b.elements, s.b.nnz, false));
        else if (t[2] == "morton") S2(sort_triplets_morton(s.a.triplets, s.a.nnz), sort_triplets_morton(s.b.elements, s.b.nnz));
        else if (t[2] == "wide") S2(sort_triplets_widerows(s.a.triplets, s.a.nnz, times(I(t[3]), spr.ra)), sort_triplets_widerows(s.b.elements, s.b.nnz, times(I(t[3]), spr.ra)));
        else if (t[2] == "block") {        // o nbr ... nbc ...
            size_t k = 3; Blk b = blocking(t, k);
            IT * ro = heap(b.ro), * co = heap(b.co);
            for (size_t i = 0; i < b.ro.size(); i++) ro[i] = IT(ro[i] * spr.ra);
            for (size_t i = 0; i < b.co.size(); i++) co[i] = IT(co[i] * spr.ca);
            if (s.kind == 2) sort_triplets_blocks(s.a.triplets, s.a.nnz, ro, IT(b.ro.size() - 1), co, IT(b.co.size() - 1));
            else { calculate_block_id(s.b.elements, s.b.nnz, ro, IT(b.ro.size() - 1), co, IT(b.co.size() - 1)); sort_elements_blocks(s.b.elements, s.b.nnz); }
            free(ro); free(co);
        } else _exit(96);
        S2(unspread(s.a.triplets, s.a.nnz), unspread(s.b.elements, s.b.nnz));
        spr = Spread();
        Obj a;
        if (t[2] == "wide") a.num("w", I(t[3]));
        if (t[2] == "block") { size_t k = 3; Blk b = blocking(t, k); a.raw("ro", nums(b.ro)).raw("co", nums(b.co)); }
        Obj("Sort").str("s", t[1]).str("by", t[2]).raw("arg", a.done()).raw("after", entries(s)).send();
    } else if (c == "INV") {              // INV n p...   C12
        size_t k = 1; std::vector<IT> p = its(t, k); IT * h = heap(p);
        IT * r = invert_permutation(h, IT(p.size()));
        Obj("InvPerm").raw("p", nat(p)).raw("pa", nums(h, p.size())).raw("r", nums(r, p.size())).send();
        free(h); delete [] r;
    } else if (c == "PIDX") {             // PIDX n p... m idx...
        size_t k = 1; std::vector<IT> p = its(t, k), x = its(t, k); IT * h = heap(p), * y = heap(x);
        permute_indeces(y, h, IT(x.size()));
        Obj("PermIdx").raw("p", nat(p)).raw("pa", nums(h, p.size())).raw("in", nat(x)).raw("out", nums(y, x.size())).send();
        free(h); free(y);
    } else if (c == "PMAT") {             // PMAT n p... m r c v...
        size_t k = 1; std::vector<IT> p = its(t, k); IT n; size_t k2 = k; Element<T,IT> * e = elems(t, k, n); IT * h = heap(p);
        std::string in = elist(e, n); (void) k2;
        permute_indeces(e, n, h);
        Obj("PermMat").raw("p", nat(p)).raw("pa", nums(h, p.size())).raw("in", in).raw("out", elist(e, n)).send();
        free(h); free(e);
    } else if (c == "TALL") {             // TALL j b m r c v... : 2^32-b rows in wide rows of 2^j; rows from 10^9 count from the last one up
#ifdef VF_FIELDS
        size_t k = 3; IT n; Element<T,IT> * e = elems(t, k, n); std::string in = elist(e, n);
        unsigned long long top = (1ULL << 32) - strtoull(t[2].c_str(), nullptr, 10), big = 1000000000;
        for (IT i = 0; i < n; i++) if (e[i].row >= big) e[i].row = IT(top - 1 - (e[i].row - big));
        Cswr<T,IT,SIT> A;
        Coo_to_Cswr(&A, e, IT(top), IT(1 << 20), n, IT(1ULL << I(t[1])));
        unsigned long long w = A.width, nw = A.nwrows, at = 0;
        for (unsigned long long q = 0; q < nw; q++) for (; at < A.wrow_ptr[q+1] && at < n; at++) {
            unsigned long long r = q * w + A.row[at];
            e[at].row = IT(r < big ? r : r < top && top - 1 - r < big ? top - 1 - r + big : 2 * big); e[at].col = A.col[at]; e[at].val = A.val[at];
        }
        Obj("Tall").num("j", I(t[1])).num("w", w).num("nw", nw).num("rows", A.rows == top).num("at", at).num("ptr", A.wrow_ptr[nw]).raw("in", in).raw("out", elist(e, n)).send();
        release(A); free(e);
#endif
    } else if (c == "PSRC") {             // PSRC s n p... : permute a source in place
        size_t k = 2; std::vector<IT> p = its(t, k); IT * h = heap(p); Src& s = srcs.at(t[1]);
        S2(permute_indeces(s.a.triplets, s.a.nnz, h), permute_indeces(s.b.elements, s.b.nnz, h));
        Obj("PermSrc").str("s", t[1]).raw("p", nat(p)).raw("after", entries(s)).send();
        free(h);
    } else if (c == "EIDX") {             // EIDX n sizes... m idx...   C13
        size_t k = 1; std::vector<IT> b = its(t, k), x = its(t, k); IT * h = heap(b), * y = heap(x);
        IT nb = expand_block_size(h, IT(b.size()));
        IT nr = expand_indeces(y, IT(x.size()), h, IT(b.size()));
        Obj("ExpandIdx").raw("b", nat(b)).raw("ba", nums(h, b.size())).num("nb", nb).num("nr", nr).raw("in", nat(x)).raw("out", nums(y, x.size())).send();
        free(h); free(y);
    } else if (c == "EMAT") {             // EMAT n sizes... m r c v...
        size_t k = 1; std::vector<IT> b = its(t, k); IT n; Element<T,IT> * e = elems(t, k, n); IT * h = heap(b);
        std::string in = elist(e, n);
        IT * off = (IT *) malloc((b.size() + 1) * sizeof(IT));
        size_to_offset(off, (IT const *) h, IT(b.size()));
        calculate_block_id(e, n, off, IT(b.size()), off, IT(b.size()));
        IT nr = expand_indeces(e, n, h, off, IT(b.size()));
        Obj("ExpandMat").raw("b", nat(b)).num("nr", nr).raw("in", in).raw("out", elist(e, n)).raw("off", nums(off, b.size() + 1)).raw("blk", list(n, [&](size_t i) { return num(e[i].block); })).send();
        free(h); free(e); free(off);
    } else if (c == "PART") {             // PART nnz s e n bn... : partition blocks s..e-1 of n blocks     C05
        Weights A; A.nnz = I(t[1]);
        size_t k = 4; A.bn = its(t, k);
        IT s = I(t[2]), e = I(t[3]);
        BlockRowPartition<IT> p;
#ifdef VF_FIELDS
        partition_blockrow(&A, &p, s, e);
        std::string ch = nums(p.chunks.data(), p.chunks.size());
#else
        std::string ch = "[]";
#endif
        Obj("Part").num("nnz", I(t[1])).num("s", s).num("to", e).raw("bn", nat(A.bn)).raw("ch", ch).send();
    } else if (c == "BIDX") {             // BIDX n offsets(n+1)... : block index of every index    C04
        size_t k = 1; std::vector<IT> o = its(t, k); IT * h = heap(o); IT nb = o.size() - 1;
        Obj("BlockIdx").raw("o", nat(o)).raw("r", list(o[nb], [&](size_t i) { return num(index_to_blockindex(h, nb, IT(i))); })).send();
        free(h);
    } else if (c == "BID") {              // BID brsize bcsize blockcols m r c v... : constant size form
        size_t k = 4; IT n; Element<T,IT> * e = elems(t, k, n);
        calculate_block_id(e, n, IT(I(t[1])), IT(I(t[2])), IT(I(t[3])));
        Obj("BlockId").num("br", I(t[1])).num("bc", I(t[2])).num("ncols", I(t[3])).raw("in", elist(e, n)).raw("r", list(n, [&](size_t i) { return num(e[i].block); })).send();
        free(e);
    } else if (c == "BIDW") {             // BIDW c|o blockrows rowsize blockcols colsize m r c v... : numbers of many blocks
        size_t k = 6; IT n; Element<T,IT> * e = elems(t, k, n);
        IT nbr = I(t[2]), sr = I(t[3]), nbc = I(t[4]), sc = I(t[5]);
        if (t[1] == "c") calculate_block_id(e, n, sr, sc, nbc);
        else {
            IT * ro = (IT *) malloc((nbr + 1) * sizeof(IT)), * co = (IT *) malloc((nbc + 1) * sizeof(IT));
            for (IT i = 0; i <= nbr; i++) ro[i] = i * sr;
            for (IT i = 0; i <= nbc; i++) co[i] = i * sc;
            calculate_block_id(e, n, ro, nbr, co, nbc);
            free(ro); free(co);
        }
        // the numbers themselves may be too large to be written: quotient and remainder
        Obj("BlockIdW").str("form", t[1]).num("br", sr).num("bc", sc).raw("in", elist(e, n))
            .raw("r", list(n, [&](size_t i) { return "[" + num(e[i].block / nbc) + "," + num(e[i].block % nbc) + "]"; })).send();
        free(e);
    } else if (c == "CNT") {              // CNT s o nbr ro.. nbc co.. : count blocks and rows of a (sorted) copy
        size_t k = 2; Blk b = blocking(t, k); Src& s = srcs.at(t[1]);
        IT n = s.kind == 2 ? s.a.nnz : s.b.nnz;
        Element<T,IT> * e = copy(s, false); IT * ro = heap(b.ro), * co = heap(b.co);
        std::stable_sort(e, e + n, [](Element<T,IT> const& p, Element<T,IT> const& q) { return p.row < q.row; });
        IT nr = count_nnz_rows(e, n);
        calculate_block_id(e, n, ro, IT(b.ro.size() - 1), co, IT(b.co.size() - 1));
        std::stable_sort(e, e + n, [](Element<T,IT> const& p, Element<T,IT> const& q) { return p.block < q.block; });
        IT nb = count_blocks(e, n);
        Obj("Count").str("s", t[1]).raw("ro", nat(b.ro)).raw("co", nat(b.co)).num("nr", nr).num("nb", nb).send();
        delete [] e; free(ro); free(co);
    } else _exit(96);
}

int main(int argc, char ** argv)
{
#ifndef VF_NOPERTURB
    mallopt(M_PERTURB, 0xA5);
#endif
    return drive(argc, argv, [](std::vector<Toks> const& h) {
#ifdef VF_SCHED
        vf_sched_fd = evfd;
#endif
        if (h[0].size() > 3 && h[0][3] == "1") {
            // everything is called by one worker of an outer team
            #pragma omp parallel num_threads(3)
            {
                #pragma omp single
                for (auto const& t : h) step(t);
            }
        } else
            for (auto const& t : h) step(t); });
}

// The OpenMP runtime and the ThreadSanitizer interface, replaced by a scheduler that
// decides every switch between workers and records who touched which memory between
// which synchronisations.  Code compiled with -fopenmp -fsanitize=thread is linked with
// this file instead of the two runtimes.  Workers are coroutines of one thread: tied
// tasks run nested on the worker that took them, as the real runtime does it.
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <map>
#include <new>
#include <string>
#include <vector>
#include "omp.h"

extern "C" {
void * __real_malloc(size_t); void * __real_calloc(size_t, size_t); void * __real_realloc(void *, size_t);
void __real_free(void *); void * __real_aligned_alloc(size_t, size_t);
int vf_sched_fd = -1;
extern char __executable_start, end;
}

namespace {
template <class X> struct Raw {          // containers of this file are not tracked
    typedef X value_type;
    Raw() {} template <class Y> Raw(Raw<Y> const&) {}
    X * allocate(size_t n) { return (X *) __real_malloc(n * sizeof(X)); }
    void deallocate(X * p, size_t) { __real_free(p); }
    template <class Y> bool operator==(Raw<Y> const&) const { return true; }
    template <class Y> bool operator!=(Raw<Y> const&) const { return false; }
};
template <class X> using Vec = std::vector<X, Raw<X>>;
template <class K, class X> using Map = std::map<K, X, std::less<K>, Raw<std::pair<const K, X>>>;
typedef std::basic_string<char, std::char_traits<char>, Raw<char>> Str;

// ---- memory
struct Block { uintptr_t at; size_t size; int id; bool dead; };
Map<uintptr_t, Block> blocks;
int next_id = 1;
Vec<void *> quarantine;

struct Rec { int obj; long lo, hi; int kind; };      // kind: 0 read 1 write 2, 3 atomic 4 release
struct Task;
struct Team;
struct Worker {
    ucontext_t ctx; char * stack; int id; bool done; Vec<Rec> recs; Task * cur; Vec<Team *> teams;
    int waiting;            // 0 running, 1 for children, 2 at a barrier, 3 for a lock, 4 for a group
    long ticket; void * lock; Block last; bool declined; long ran; int reported; Vec<void *> groups;
};
enum { STACK = 4 << 20 };
struct Task {
    int32_t (*routine)(int32_t, void *); void * data; Task * parent; int id; int pending; bool again; size_t bytes; void * group; int state; bool implicit; int block;
};
struct Loop { uint64_t next, trips, chunk; int64_t lb, st; int kind; Vec<uint64_t> order; size_t at; };
struct Team {
    int n; Vec<Task *> ready; int outstanding; long gen; int arrived; Vec<Loop *> loops; Vec<int> loopno, singleno; int singles; Vec<Task *> implicit; bool serial; int gid0;
    Vec<Vec<size_t>> curloop;
};
struct Group { int pending; Vec<int> ids; };

Vec<Worker *> workers; Worker * cur = nullptr;
ucontext_t main_ctx; bool in_region = false; int busy = 0;
int max_threads = 1, pushed = 0, next_task = 1;
void (*g_fn)(); void ** g_args; int g_argc; Team * g_team;
Map<void *, int> locks;              // who holds it

// ---- schedule
uint64_t rs = 88172645463325252ull;
uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
bool chance(int pct) { return (int) (rnd() % 100) < pct; }
int mode = 0, grain = 0, inline_pct = 0, shuffle = 0;
struct Move { int k, t; };
Vec<Move> script; size_t script_at = 0; long script_hit = 0, script_miss = 0;
int script_task = -1;

// ---- events
struct Ev { Str s; int k; Vec<Rec> recs; bool acc; };
Vec<Ev> evs;
void put(const char * p, size_t n) { while (n) { ssize_t k = write(vf_sched_fd, p, n); if (k <= 0) _exit(98); p += k; n -= k; } }
void event(const char * f, ...)
{
    char b[256]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
    if ((int) workers.size() < 2 && !workers.empty()) return;
    busy++; evs.push_back(Ev{Str(b), 0, Vec<Rec>(), false}); busy--;
}
void flush(Worker * w)
{
    if (w->recs.empty()) return;
    busy++;
    Vec<Rec>& r = w->recs;
    std::sort(r.begin(), r.end(), [](Rec const& a, Rec const& b) { return a.obj != b.obj ? a.obj < b.obj : a.kind != b.kind ? a.kind < b.kind : a.lo < b.lo; });
    Vec<Rec> m;
    for (Rec const& x : r) {
        if (!m.empty() && m.back().obj == x.obj && m.back().kind == x.kind && x.lo <= m.back().hi) m.back().hi = std::max(m.back().hi, x.hi);
        else m.push_back(x);
    }
    r.clear();
    if (workers.size() > 1) evs.push_back(Ev{Str(), w->id, m, true});
    busy--;
}
// writes what happened in a parallel region; memory that only one worker touched, or
// nobody changed, cannot be in conflict and is left out
void report()
{
    busy++;
    Map<int, std::pair<int, bool>> who;
    for (Ev& e : evs) for (Rec& r : e.recs) {
        auto it = who.find(r.obj);
        if (it == who.end()) who[r.obj] = std::make_pair(e.k, r.kind == 1 || r.kind >= 3);
        else { if (it->second.first != e.k) it->second.first = -1; if (r.kind == 1 || r.kind >= 3) it->second.second = true; }
    }
    Str out;
    for (Ev& e : evs) {
        if (!e.acc) { out += e.s; out += "\n"; continue; }
        Str l; char b[160];
        for (Rec& r : e.recs) {
            auto& p = who[r.obj];
            if (p.first != -1 || !p.second) continue;
            snprintf(b, sizeof b, "%s[%d,%ld,%ld,%d]", l.empty() ? "" : ",", r.obj, r.lo, r.hi, r.kind);
            l += b;
        }
        if (l.empty()) continue;
        snprintf(b, sizeof b, "{\"e\":\"OmpAcc\",\"k\":%d,\"a\":[", e.k + 1);
        out += b; out += l; out += "]}\n";
    }
    evs.clear();
    put(out.data(), out.size());
    busy--;
}

// ---- switching
void to_scheduler() { Worker * w = cur; swapcontext(&w->ctx, &main_ctx); }
Team * team() { return cur ? cur->teams.back() : nullptr; }
int tid() { return cur && !team()->serial ? cur->id : 0; }

bool below(Task * t, Task * a) { for (; t; t = t->parent) if (t == a) return true; return false; }
bool eligible(Worker * w, Task * t) { return w->waiting == 2 || below(t, w->cur); }
bool passed(Worker * w)
{
    Team * m = w->teams.back();
    switch (w->waiting) {
    case 1: return w->cur->pending == 0;
    case 2: return m->gen > w->ticket || (m->arrived == m->n && m->outstanding == 0);
    case 3: return locks.find(w->lock) == locks.end();
    case 4: return ((Group *) w->lock)->pending == 0;
    }
    return true;
}
bool has_task(Worker * w)
{
    if (w->waiting == 3 || w->waiting == 0) return false;
    for (Task * t : w->teams.back()->ready) if (eligible(w, t)) return true;
    return false;
}
bool enabled(Worker * w) { return !w->done && (w->waiting == 0 || passed(w) || has_task(w)); }

Worker * pick()
{
    Vec<Worker *> c;
    for (Worker * w : workers) if (enabled(w)) c.push_back(w);
    if (c.empty()) return nullptr;
    script_task = -1;
    while (script_at < script.size()) {
        Move m = script[script_at++];
        for (Worker * w : c) if (w->id == m.k) { script_hit++; script_task = m.t; return w; }
        script_miss++;
    }
    switch (mode) {
    case 1: { Worker * b = c[0]; for (Worker * w : c) if (w->ran < b->ran) b = w; return b; }      // take turns
    case 2: return c[0];                                                                             // first worker first
    case 3: return c.back();                                                                         // last worker first
    case 4: { for (Worker * w : c) if (w->waiting && w->cur->implicit && chance(90)) return w; return c[rnd() % c.size()]; }   // idle workers first
    default: return c[rnd() % c.size()];
    }
}
long turn = 0;
void run_team()
{
    for (;;) {
        bool all = true;
        for (Worker * w : workers) if (!w->done) all = false;
        if (all) return;
        Worker * w = pick();
        if (!w) { event("{\"e\":\"OmpStuck\"}"); report(); _exit(95); }
        w->ran = ++turn;
        cur = w;
        swapcontext(&main_ctx, &w->ctx);
        cur = nullptr;
    }
}
// a point at which the schedule may switch to another worker
void point() { if (cur && workers.size() > 1) to_scheduler(); }

void access(uintptr_t a, size_t n, int kind)
{
    if (!cur || busy || workers.size() < 2) return;
    Worker * w = cur;
    busy++;
    Rec r; r.kind = kind; r.obj = 0;
    if (!(a >= w->last.at && a < w->last.at + w->last.size)) {
        w->last.size = 0;
        auto it = blocks.upper_bound(a);
        if (it != blocks.begin()) { --it; if (a < it->second.at + it->second.size) w->last = it->second; }
        if (!w->last.size) {
            for (Worker * v : workers) if (a >= (uintptr_t) v->stack && a < (uintptr_t) v->stack + STACK) w->last = Block{(uintptr_t) v->stack, STACK, -1 - v->id, false};
            if (!w->last.size && a >= (uintptr_t) &__executable_start && a < (uintptr_t) &end) w->last = Block{(uintptr_t) &__executable_start, (size_t) (&end - &__executable_start), -1000, false};
            if (!w->last.size) {             // the stack of the program itself
                uintptr_t here = (uintptr_t) main_ctx.uc_mcontext.gregs[REG_RSP];
                if (a >= here && a < here + (1 << 20)) w->last = Block{here, 1 << 20, -999, false};
            }
        }
    }
    if (w->last.size) {
        r.obj = w->last.id; r.lo = a - w->last.at; r.hi = r.lo + n;
        bool merged = false;
        for (size_t i = w->recs.size(), c = 0; i-- > 0 && c < 6; c++) {
            Rec& o = w->recs[i];
            if (o.obj == r.obj && o.kind == r.kind && r.lo <= o.hi && r.hi >= o.lo) { o.lo = std::min(o.lo, r.lo); o.hi = std::max(o.hi, r.hi); merged = true; break; }
        }
        if (!merged) w->recs.push_back(r);
        if (w->recs.size() > 200000) flush(w);
    }
    busy--;
    if (grain && w->last.size && w->last.id != -1 - w->id && rnd() % grain == 0 && script_at >= script.size()) point();
}

// ---- tasks
void run_task(Task * t)
{
    Worker * w = cur;
    Team * m = team();
    Task * was = w->cur; int wk = w->waiting; long tk = w->ticket; void * lk = w->lock;
    flush(w);
    w->cur = t; w->waiting = 0;
    event("{\"e\":\"OmpStart\",\"k\":%d,\"t\":%d}", w->id + 1, t->id);
    point();
    t->again = false;
    t->routine(w->id, t->data);
    flush(w);
    if (t->again) {          // the next part of an untied task
        event("{\"e\":\"OmpPause\",\"k\":%d,\"t\":%d}", w->id + 1, t->id);
        m->ready.push_back(t);
    } else {
        if (workers.size() > 1) { Vec<Rec> f; f.push_back(Rec{t->block, 0, (long) t->bytes, 4}); evs.push_back(Ev{Str(), w->id, f, true}); }
        event("{\"e\":\"OmpFinish\",\"k\":%d,\"t\":%d}", w->id + 1, t->id);
        t->parent->pending--; m->outstanding--;
        if (t->group) ((Group *) t->group)->pending--;
    }
    w->cur = was; w->waiting = wk; w->ticket = tk; w->lock = lk;
    point();
}
void wait_here(int kind)
{
    Worker * w = cur;
    w->waiting = kind; w->declined = false;
    for (;;) {
        if (passed(w)) break;
        Team * m = team();
        Vec<size_t> c;
        if (kind != 3) for (size_t i = 0; i < m->ready.size(); i++) if (eligible(w, m->ready[i])) c.push_back(i);
        size_t j = c.size();
        if (!c.empty()) {
            if (script_task >= 0) { for (size_t i = 0; i < c.size(); i++) if (m->ready[c[i]]->id == script_task) j = i; if (j == c.size()) j = 0; }
            else if (!w->declined && workers.size() > 1 && mode == 0 && chance(25)) w->declined = true;
            else { w->declined = false; j = mode == 2 ? 0 : mode == 3 ? c.size() - 1 : rnd() % c.size(); }
        }
        script_task = -1;
        if (j < c.size()) { Task * t = m->ready[c[j]]; m->ready.erase(m->ready.begin() + c[j]); run_task(t); w->waiting = kind; }
        else to_scheduler();
    }
    w->waiting = 0;
}
void barrier()
{
    Team * m = team(); Worker * w = cur;
    flush(w);
    w->ticket = m->gen; m->arrived++;
    point();
    wait_here(2);
    if (m->gen == w->ticket) { m->gen++; m->arrived = 0; event("{\"e\":\"OmpBarrier\"}"); }
}
void take(void * l) { flush(cur); cur->lock = l; wait_here(3); locks[l] = cur->id; event("{\"e\":\"OmpLock\",\"k\":%d,\"l\":\"%p\"}", cur->id + 1, l); }
void give(void * l) { flush(cur); event("{\"e\":\"OmpUnlock\",\"k\":%d,\"l\":\"%p\"}", cur->id + 1, l); locks.erase(l); point(); }

Team * new_team(int n, bool serial)
{
    Team * m = new (__real_malloc(sizeof(Team))) Team();
    m->n = n; m->outstanding = 0; m->gen = 0; m->arrived = 0; m->singles = 0; m->serial = serial;
    m->loopno.assign(n, 0); m->singleno.assign(n, 0); m->curloop.resize(n);
    for (int i = 0; i < n; i++) { Task * t = new (__real_malloc(sizeof(Task))) Task(); memset((void *) t, 0, sizeof *t); t->implicit = true; m->implicit.push_back(t); }
    return m;
}
void call(void (*f)(), int g, int b, void ** a, int n)
{
    typedef int32_t * P; typedef void * V;
    int32_t gt = g, bt = b; P p = &gt, q = &bt;
    switch (n) {
#define C(N, T, ...) case N: ((void (*)(P, P T)) f)(p, q __VA_ARGS__); break;
#define CC ,
    C(0, , )
    C(1, CC V, , a[0])
    C(2, CC V CC V, , a[0], a[1])
    C(3, CC V CC V CC V, , a[0], a[1], a[2])
    C(4, CC V CC V CC V CC V, , a[0], a[1], a[2], a[3])
    C(5, CC V CC V CC V CC V CC V, , a[0], a[1], a[2], a[3], a[4])
    C(6, CC V CC V CC V CC V CC V CC V, , a[0], a[1], a[2], a[3], a[4], a[5])
    C(7, CC V CC V CC V CC V CC V CC V CC V, , a[0], a[1], a[2], a[3], a[4], a[5], a[6])
    C(8, CC V CC V CC V CC V CC V CC V CC V CC V, , a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7])
    C(9, CC V CC V CC V CC V CC V CC V CC V CC V CC V, , a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])
    C(10, CC V CC V CC V CC V CC V CC V CC V CC V CC V CC V, , a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9])
    C(11, CC V CC V CC V CC V CC V CC V CC V CC V CC V CC V CC V, , a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10])
    C(12, CC V CC V CC V CC V CC V CC V CC V CC V CC V CC V CC V CC V, , a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11])
    default: fprintf(stderr, "too many shared variables\n"); _exit(97);
    }
}
void worker_main(int i)
{
    cur->teams.push_back(g_team); cur->cur = g_team->implicit[i];
    call(g_fn, i, i, g_args, g_argc);
    barrier();
    cur->done = true;
    to_scheduler();
}
}

extern "C" {
void vf_sched_set(int md, unsigned long seed, int gr, int inl, int shuf) { mode = md; rs = 0x9E3779B97F4A7C15ull ^ (seed * 0xBF58476D1CE4E5B9ull); if (!rs) rs = 1; for (int i = 0; i < 8; i++) rnd(); grain = gr; inline_pct = inl; shuffle = shuf; script.clear(); script_at = 0; script_hit = script_miss = 0; }
void vf_sched_move(int k, int t) { script.push_back(Move{k, t}); }
void vf_sched_stats(long * hit, long * miss) { *hit = script_hit; *miss = script_miss; }

// ---------------------------------------------------------------- regions
static void fork_call(int argc, void (*fn)(), void ** args)
{
    if (cur) {                       // a region inside of a region has one worker
        Team * m = new_team(1, true); Task * was = cur->cur;
        m->implicit[0]->parent = was;
        cur->teams.push_back(m); cur->cur = m->implicit[0];
        call(fn, cur->id, 0, args, argc);
        cur->teams.pop_back(); cur->cur = was;
        return;
    }
    int n = pushed ? pushed : max_threads; pushed = 0;
    g_fn = fn; g_args = args; g_argc = argc; g_team = new_team(n, false); next_task = 1;
    static Vec<char *> stacks;
    while ((int) stacks.size() < n) stacks.push_back((char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0));
    for (int i = 0; i < n; i++) {
        Worker * w = new (__real_malloc(sizeof(Worker))) Worker();
        w->stack = stacks[i]; w->id = i; w->done = false; w->waiting = 0; w->last.size = 0; w->last.at = 0; w->ran = 0; w->lock = nullptr;
        getcontext(&w->ctx);
        w->ctx.uc_stack.ss_sp = w->stack; w->ctx.uc_stack.ss_size = STACK; w->ctx.uc_link = nullptr;
        makecontext(&w->ctx, (void (*)()) worker_main, 1, i);
        workers.push_back(w);
    }
    event("{\"e\":\"OmpFork\",\"w\":%d}", n);
    in_region = true;
    run_team();
    in_region = false;
    event("{\"e\":\"OmpJoin\"}");
    if (n > 1) report();
    evs.clear();
    for (Worker * w : workers) { w->~Worker(); __real_free(w); }
    workers.clear(); locks.clear();
    for (void * p : quarantine) { blocks.erase((uintptr_t) p); __real_free(p); }
    quarantine.clear();
}
void __kmpc_fork_call(void *, int argc, void (*fn)(), ...)
{
    void * args[16]; va_list ap; va_start(ap, fn);
    for (int i = 0; i < argc && i < 16; i++) args[i] = va_arg(ap, void *);
    va_end(ap);
    fork_call(argc, fn, args);
}
void __kmpc_fork_call_if(void *, int argc, void (*fn)(), int cond, void * args)
{
    int old = pushed; if (!cond) pushed = 1;
    (void) old; void * a[1] = {args};
    fork_call(argc, fn, a);
}
void __kmpc_push_num_threads(void *, int, int n) { if (n > 0) pushed = n; }
static Vec<Task *> serial_was;
static Vec<Team *> outside;          // serialised regions outside of every region
void __kmpc_serialized_parallel(void *, int)
{
    if (!cur) { outside.push_back(nullptr); return; }
    Team * m = new_team(1, true); m->implicit[0]->parent = cur->cur; cur->teams.push_back(m); cur->cur = m->implicit[0];
}
void __kmpc_end_serialized_parallel(void *, int)
{
    if (!cur) { outside.pop_back(); return; }
    cur->cur = cur->cur->parent; cur->teams.pop_back();
}
int __kmpc_global_thread_num(void *) { return cur ? cur->id : 0; }
int __kmpc_global_num_threads(void *) { return cur ? (int) workers.size() : 1; }
int __kmpc_bound_thread_num(void *) { return tid(); }
int __kmpc_bound_num_threads(void *) { return cur ? team()->n : 1; }
int __kmpc_in_parallel(void *) { return cur && !team()->serial; }
int __kmpc_ok_to_fork(void *) { return 1; }
void __kmpc_begin(void *, int) {}
void __kmpc_end(void *) {}
void __kmpc_flush(void *) {}

// ---------------------------------------------------------------- loops
static uint64_t trips(int64_t lb, int64_t ub, int64_t st, bool uns)
{
    if (st > 0) { if (uns ? (uint64_t) ub < (uint64_t) lb : ub < lb) return 0; return ((uint64_t) ub - (uint64_t) lb) / (uint64_t) st + 1; }
    if (uns ? (uint64_t) lb < (uint64_t) ub : lb < ub) return 0;
    return ((uint64_t) lb - (uint64_t) ub) / (uint64_t) (-st) + 1;
}
static void dispatch_init(int sched, int64_t lb, int64_t ub, int64_t st, int64_t chunk, bool uns)
{
    static Team * solo = nullptr;
    Team * m = team(); int t = tid();
    if (!m) { if (!solo) solo = new_team(1, true); m = solo; t = 0; }
    size_t i = m->loopno[t]++;
    if (i >= m->loops.size()) {
        Loop * l = new (__real_malloc(sizeof(Loop))) Loop();
        l->next = 0; l->trips = trips(lb, ub, st, uns); l->lb = lb; l->st = st; l->at = 0;
        int s = sched & 0x1fff;
        if (s == 33 || s == 34 || s == 35 + 1000) l->chunk = chunk > 0 ? chunk : (l->trips + m->n - 1) / m->n; else l->chunk = chunk > 0 ? chunk : 1;
        if (!l->chunk) l->chunk = 1;
        for (uint64_t c = 0; c * l->chunk < l->trips; c++) l->order.push_back(c);
        // without the monotonic modifier the chunks may be handed out in any order
        if (shuffle && !(sched & (1 << 29))) for (size_t k = l->order.size(); k > 1; k--) std::swap(l->order[k - 1], l->order[rnd() % k]);
        m->loops.push_back(l);
    }
    m->curloop[t].push_back(i);
}
static bool dispatch_next(int64_t * lb, int64_t * ub, int64_t * st, int * last)
{
    Team * m = team(); int t = tid();
    if (!m) return false;
    Loop * l = m->loops[m->curloop[t].back()];
    if (cur && !m->serial) { flush(cur); point(); }
    if (l->at >= l->order.size()) { m->curloop[t].pop_back(); return false; }
    uint64_t c = l->order[l->at++], a = c * l->chunk, b = std::min(a + l->chunk, l->trips) - 1;
    *lb = l->lb + (int64_t) a * l->st; *ub = l->lb + (int64_t) b * l->st; *st = l->st;
    if (last) *last = b == l->trips - 1;
    if (cur && !m->serial) event("{\"e\":\"OmpChunk\",\"k\":%d,\"lo\":%ld,\"hi\":%ld}", cur->id + 1, (long) *lb, (long) *ub);
    return true;
}
#define DISPATCH(S, T, U) \
void __kmpc_dispatch_init_##S(void *, int, int sched, T lb, T ub, std::make_signed_t<T> st, std::make_signed_t<T> ch) { dispatch_init(sched, lb, ub, st, ch, U); } \
int __kmpc_dispatch_next_##S(void *, int, int * last, T * lb, T * ub, std::make_signed_t<T> * st) { int64_t a, b, c; if (!dispatch_next(&a, &b, &c, last)) return 0; *lb = (T) a; *ub = (T) b; *st = (std::make_signed_t<T>) c; return 1; } \
void __kmpc_dispatch_fini_##S(void *, int) {}
DISPATCH(4, int32_t, false)
DISPATCH(4u, uint32_t, true)
DISPATCH(8, int64_t, false)
DISPATCH(8u, uint64_t, true)
void __kmpc_dispatch_deinit(void *, int) {}

}
template <class T> static void for_static(int sched, int * last, T * plb, T * pub, std::make_signed_t<T> * pst, std::make_signed_t<T> incr, std::make_signed_t<T> chunk, bool uns)
{
    typedef std::make_signed_t<T> S;
    if (cur && !team()->serial) { flush(cur); point(); }
    int n = cur ? team()->n : 1, t = tid();
    uint64_t tr = trips((int64_t) *plb, (int64_t) *pub, incr, uns);
    if (!tr) { if (last) *last = 0; *pst = incr; return; }
    int s = sched & 0x1fff;
    if (s == 33 || s == 93) {                   // chunks in turn
        if (chunk < 1) chunk = 1;
        uint64_t span = (uint64_t) chunk;
        T lb = *plb;
        *plb = (T) (lb + (T) (span * t * (uint64_t) (int64_t) incr));
        *pub = (T) (*plb + (T) ((span - 1) * (uint64_t) (int64_t) incr));
        *pst = (S) (span * (uint64_t) (int64_t) incr * n);
        if (last) *last = (int) ((tr - 1) / span % n) == t;
        // a worker beyond the last chunk must not start
        if (span * t >= tr) { *plb = (T) (lb + (T) (tr * (uint64_t) (int64_t) incr)); *pub = (T) (*plb + (T) ((span - 1) * (uint64_t) (int64_t) incr)); }
    } else {                                    // one piece each
        uint64_t sm = tr / n, ex = tr % n, a = t * sm + std::min<uint64_t>(t, ex), c = sm + ((uint64_t) t < ex ? 1 : 0);
        T lb = *plb;
        *plb = (T) (lb + (T) (a * (uint64_t) (int64_t) incr));
        if (c) *pub = (T) (*plb + (T) ((c - 1) * (uint64_t) (int64_t) incr));
        else *pub = (T) (*plb - (T) incr);
        if (!c && uns && *plb == 0) { *plb = 1; *pub = 0; }
        *pst = (S) tr;
        if (last) *last = c && a + c == tr;
    }
}
extern "C" {
#define STATIC(S, T, U) void __kmpc_for_static_init_##S(void *, int, int sched, int * last, T * lb, T * ub, std::make_signed_t<T> * st, std::make_signed_t<T> incr, std::make_signed_t<T> chunk) { for_static<T>(sched, last, lb, ub, st, incr, chunk, U); }
STATIC(4, int32_t, false)
STATIC(4u, uint32_t, true)
STATIC(8, int64_t, false)
STATIC(8u, uint64_t, true)
void __kmpc_for_static_fini(void *, int) {}
void __kmpc_barrier(void *, int) { if (cur && !team()->serial) { barrier(); point(); } }
int __kmpc_cancel_barrier(void *, int) { if (cur && !team()->serial) barrier(); return 0; }

// ---------------------------------------------------------------- one worker only
int __kmpc_master(void *, int) { return tid() == 0; }
void __kmpc_end_master(void *, int) {}
int __kmpc_masked(void *, int, int f) { return tid() == f; }
void __kmpc_end_masked(void *, int) {}
int __kmpc_single(void *, int)
{
    if (!cur) return 1;
    Team * m = team(); point();
    int mine = m->singleno[tid()]++;
    if (mine >= m->singles) { m->singles = mine + 1; return 1; }
    return 0;
}
void __kmpc_end_single(void *, int) {}
void __kmpc_critical(void *, int, void * l) { if (cur) take(l); }
void __kmpc_critical_with_hint(void *, int, void * l, unsigned) { if (cur) take(l); }
void __kmpc_end_critical(void *, int, void * l) { if (cur) give(l); }
int __kmpc_reduce_nowait(void *, int, int, size_t, void *, void (*)(void *, void *), void * l) { if (cur) take(l); return 1; }
void __kmpc_end_reduce_nowait(void *, int, void * l) { if (cur) give(l); }
int __kmpc_reduce(void *, int, int, size_t, void *, void (*)(void *, void *), void * l) { if (cur) take(l); return 1; }
void __kmpc_end_reduce(void *, int, void * l) { if (cur) { give(l); if (!team()->serial) barrier(); } }
void __kmpc_ordered(void *, int) {}
void __kmpc_end_ordered(void *, int) {}
void __kmpc_copyprivate(void *, int, size_t, void *, void (*)(void *, void *), int) { if (cur && !team()->serial) barrier(); }

// ---------------------------------------------------------------- tasks
static void track(void * p, size_t n) { busy++; blocks[(uintptr_t) p] = Block{(uintptr_t) p, n ? n : 1, next_id++, false}; busy--; }
struct kmp_task { void * shareds; int32_t (*routine)(int32_t, void *); int32_t part; };
struct Head { Task * t; void * pad; };
void * __kmpc_omp_task_alloc(void *, int, int, size_t size, size_t shareds, int32_t (*routine)(int32_t, void *))
{
    size_t a = (size + 15) / 16 * 16;
    char * p = (char *) __real_calloc(1, sizeof(Head) + a + shareds + 64);
    kmp_task * k = (kmp_task *) (p + sizeof(Head));
    k->shareds = shareds ? (char *) k + a : nullptr; k->routine = routine; k->part = 0;
    Task * t = new (__real_malloc(sizeof(Task))) Task();
    memset((void *) t, 0, sizeof *t);
    t->routine = routine; t->data = k; t->bytes = a + shareds;
    ((Head *) p)->t = t;
    track(k, a + shareds); t->block = next_id - 1;
    return k;
}
void * __kmpc_omp_target_task_alloc(void * l, int g, int f, size_t s, size_t h, int32_t (*r)(int32_t, void *), int64_t) { return __kmpc_omp_task_alloc(l, g, f, s, h, r); }
static Task * task_of(void * k) { return ((Head *) ((char *) k - sizeof(Head)))->t; }
static void spawn(void * k, bool now)
{
    Task * t = task_of(k);
    if (!cur) { t->routine(0, k); return; }
    Worker * w = cur; Team * m = team();
    if (w->cur == t) { t->again = true; return; }
    t->parent = w->cur; t->parent->pending++; t->id = next_task++; m->outstanding++;
    flush(w);
    event("{\"e\":\"OmpSpawn\",\"k\":%d,\"t\":%d}", w->id + 1, t->id);
    if (!w->groups.empty()) { Group * g = (Group *) w->groups.back(); g->pending++; g->ids.push_back(t->id); t->group = g; }
    if (now || m->serial || workers.size() < 2 || (inline_pct && chance(inline_pct))) {
        run_task(t);          // an untied one may go on later
    } else { m->ready.push_back(t); point(); }
}
int __kmpc_omp_task(void *, int, void * k) { spawn(k, false); return 0; }
int __kmpc_omp_task_parts(void *, int, void * k) { spawn(k, false); return 0; }
int __kmpc_omp_task_with_deps(void *, int, void * k, int, void *, int, void *) { spawn(k, true); return 0; }
void __kmpc_omp_wait_deps(void *, int, int, void *, int, void *) {}
void __kmpc_omp_task_begin_if0(void *, int, void * k)
{
    Task * t = task_of(k); if (!cur) return;
    t->parent = cur->cur; t->id = next_task++;
    flush(cur); event("{\"e\":\"OmpSpawn\",\"k\":%d,\"t\":%d}", cur->id + 1, t->id); event("{\"e\":\"OmpStart\",\"k\":%d,\"t\":%d}", cur->id + 1, t->id);
    cur->cur = t;
}
void __kmpc_omp_task_complete_if0(void *, int, void * k)
{
    Task * t = task_of(k); if (!cur) return;
    flush(cur); event("{\"e\":\"OmpFinish\",\"k\":%d,\"t\":%d}", cur->id + 1, t->id);
    cur->cur = t->parent;
}
int __kmpc_omp_taskwait(void *, int)
{
    if (!cur) return 0;
    flush(cur);
    point();
    wait_here(1);
    event("{\"e\":\"OmpWaited\",\"k\":%d}", cur->id + 1);
    return 0;
}
int __kmpc_omp_taskyield(void *, int, int) { point(); return 0; }
void __kmpc_taskgroup(void *, int) { if (!cur) return; Group * g = new (__real_malloc(sizeof(Group))) Group(); g->pending = 0; cur->groups.push_back(g); }
void __kmpc_end_taskgroup(void *, int)
{
    if (!cur) return;
    Group * g = (Group *) cur->groups.back();
    flush(cur); cur->lock = g;
    point(); cur->lock = g;
    wait_here(4);
    for (int id : g->ids) event("{\"e\":\"OmpJoined\",\"k\":%d,\"t\":%d}", cur->id + 1, id);
    cur->groups.pop_back();
}
void __kmpc_taskloop(void * loc, int g, void * k, int, uint64_t * lb, uint64_t * ub, int64_t st, int nogroup, int sched, uint64_t grainsize, void (*dup)(void *, void *, int))
{
    uint64_t n = trips((int64_t) *lb, (int64_t) *ub, st, false), per = sched == 1 ? std::max<uint64_t>(grainsize, 1) : sched == 2 ? std::max<uint64_t>((n + grainsize - 1) / std::max<uint64_t>(grainsize, 1), 1) : std::max<uint64_t>(n / 8, 1);
    ptrdiff_t ol = (char *) lb - (char *) k, ou = (char *) ub - (char *) k;
    Task * t0 = task_of(k); int64_t first = *lb;
    if (!nogroup) __kmpc_taskgroup(loc, g);
    for (uint64_t a = 0; a < n; a += per) {
        kmp_task * c = (kmp_task *) __kmpc_omp_task_alloc(loc, g, 0, t0->bytes, 0, t0->routine);
        kmp_task * o = (kmp_task *) k;
        memcpy((void *) c, k, t0->bytes);
        if (o->shareds) c->shareds = (char *) c + ((char *) o->shareds - (char *) o);
        *(int64_t *) ((char *) c + ol) = first + (int64_t) a * st;
        *(int64_t *) ((char *) c + ou) = first + (int64_t) (std::min(a + per, n) - 1) * st;
        if (dup) dup(c, k, a + per >= n);
        spawn(c, false);
    }
    if (!nogroup) __kmpc_end_taskgroup(loc, g);
}

// ---------------------------------------------------------------- library routines
int omp_get_thread_num(void) { return tid(); }
int omp_get_num_threads(void) { return cur ? team()->n : 1; }
int omp_get_max_threads(void) { return max_threads; }
int omp_get_num_procs(void) { return max_threads; }
int omp_get_thread_limit(void) { return 256; }
void omp_set_num_threads(int n) { max_threads = n > 0 ? n : 1; }
int omp_in_parallel(void) { return cur && workers.size() > 1; }
int omp_get_level(void) { return cur ? (int) cur->teams.size() : 0; }
int omp_get_active_level(void) { return cur && workers.size() > 1; }
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_nested(void) { return 0; }
void omp_set_max_active_levels(int) {}
int omp_get_max_active_levels(void) { return 1; }
void omp_set_schedule(omp_sched_t, int) {}
double omp_get_wtime(void) { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
void omp_init_lock(omp_lock_t *) {}
void omp_destroy_lock(omp_lock_t *) {}
void omp_set_lock(omp_lock_t * l) { if (cur) take(l); }
void omp_unset_lock(omp_lock_t * l) { if (cur) give(l); }
int omp_test_lock(omp_lock_t * l) { if (!cur) return 1; if (locks.find(l) != locks.end()) { point(); return 0; } take(l); return 1; }
void omp_init_nest_lock(omp_nest_lock_t *) {}
void omp_destroy_nest_lock(omp_nest_lock_t *) {}
void omp_set_nest_lock(omp_nest_lock_t * l) { if (cur) take(l); }
void omp_unset_nest_lock(omp_nest_lock_t * l) { if (cur) give(l); }

// ---------------------------------------------------------------- memory
static void * keep(void * p, size_t n) { if (p && !busy) track(p, n); return p; }
static void drop(void * p)
{
    if (!p) return;
    if (busy) { __real_free(p); return; }
    auto it = blocks.find((uintptr_t) p);
    if (it == blocks.end()) { __real_free(p); return; }
    if (cur && workers.size() > 1) {
        cur->recs.push_back(Rec{it->second.id, 0, (long) it->second.size, 4});
        flush(cur);                  // so that this worker's own later use of it is seen
        if (it->second.dead) { event("{\"e\":\"OmpFreedTwice\",\"k\":%d}", cur->id + 1); return; }
        it->second.dead = true;
        busy++; quarantine.push_back(p); busy--;
        return;
    }
    busy++; blocks.erase(it); busy--;
    __real_free(p);
}
void * __wrap_malloc(size_t n) { return keep(__real_malloc(n), n); }
void * __wrap_calloc(size_t a, size_t b) { return keep(__real_calloc(a, b), a * b); }
void * __wrap_aligned_alloc(size_t a, size_t n) { return keep(__real_aligned_alloc(a, (n + a - 1) / a * a), n); }
int __wrap_posix_memalign(void ** p, size_t a, size_t n) { *p = keep(__real_aligned_alloc(a, (n + a - 1) / a * a), n); return *p ? 0 : 12; }
void __wrap_free(void * p) { drop(p); }
void * __wrap_realloc(void * p, size_t n)
{
    if (!p) return __wrap_malloc(n);
    auto it = blocks.find((uintptr_t) p);
    size_t old = it == blocks.end() ? 0 : it->second.size;
    if (!old) return __real_realloc(p, n);
    void * r = __wrap_malloc(n);
    memcpy(r, p, std::min(old, n));
    drop(p);
    return r;
}

// ---------------------------------------------------------------- ThreadSanitizer's side
#define A(p) ((uintptr_t) (p))
void __tsan_init(void) {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(N) \
void __tsan_read##N(void * p) { access(A(p), N, 0); } \
void __tsan_write##N(void * p) { access(A(p), N, 1); } \
void __tsan_unaligned_read##N(void * p) { access(A(p), N, 0); } \
void __tsan_unaligned_write##N(void * p) { access(A(p), N, 1); } \
void __tsan_read_write##N(void * p) { access(A(p), N, 0); access(A(p), N, 1); } \
void __tsan_unaligned_read_write##N(void * p) { access(A(p), N, 0); access(A(p), N, 1); } \
void __tsan_volatile_read##N(void * p) { access(A(p), N, 0); } \
void __tsan_volatile_write##N(void * p) { access(A(p), N, 1); } \
void __tsan_unaligned_volatile_read##N(void * p) { access(A(p), N, 0); } \
void __tsan_unaligned_volatile_write##N(void * p) { access(A(p), N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void * p, unsigned long n) { if (n) access(A(p), n, 0); }
void __tsan_write_range(void * p, unsigned long n) { if (n) access(A(p), n, 1); }
void __tsan_vptr_update(void ** p, void *) { access(A(p), 8, 1); }
void __tsan_vptr_read(void ** p) { access(A(p), 8, 0); }
void * __tsan_memcpy(void * d, const void * s, size_t n) { if (n) { access(A(s), n, 0); access(A(d), n, 1); } return memcpy(d, s, n); }
void * __tsan_memmove(void * d, const void * s, size_t n) { if (n) { access(A(s), n, 0); access(A(d), n, 1); } return memmove(d, s, n); }
void * __tsan_memset(void * d, int c, size_t n) { if (n) access(A(d), n, 1); return memset(d, c, n); }
static void sync_on(const volatile void * p) { if (cur && !busy && workers.size() > 1) { flush(cur); event("{\"e\":\"OmpSync\",\"k\":%d,\"l\":\"%p\"}", cur->id + 1, (void *) p); } }
#define ATOMIC(B, T) \
T __tsan_atomic##B##_load(const volatile T * p, int) { access(A(p), sizeof(T), 2); sync_on(p); return *p; } \
void __tsan_atomic##B##_store(volatile T * p, T v, int) { access(A(p), sizeof(T), 3); sync_on(p); *p = v; } \
T __tsan_atomic##B##_exchange(volatile T * p, T v, int) { access(A(p), sizeof(T), 3); sync_on(p); T o = *p; *p = v; return o; } \
T __tsan_atomic##B##_fetch_add(volatile T * p, T v, int) { access(A(p), sizeof(T), 3); sync_on(p); T o = *p; *p = o + v; return o; } \
T __tsan_atomic##B##_fetch_sub(volatile T * p, T v, int) { access(A(p), sizeof(T), 3); sync_on(p); T o = *p; *p = o - v; return o; } \
T __tsan_atomic##B##_fetch_and(volatile T * p, T v, int) { access(A(p), sizeof(T), 3); sync_on(p); T o = *p; *p = o & v; return o; } \
T __tsan_atomic##B##_fetch_or(volatile T * p, T v, int) { access(A(p), sizeof(T), 3); sync_on(p); T o = *p; *p = o | v; return o; } \
T __tsan_atomic##B##_fetch_xor(volatile T * p, T v, int) { access(A(p), sizeof(T), 3); sync_on(p); T o = *p; *p = o ^ v; return o; } \
int __tsan_atomic##B##_compare_exchange_strong(volatile T * p, T * e, T v, int, int) { access(A(p), sizeof(T), 3); sync_on(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
int __tsan_atomic##B##_compare_exchange_weak(volatile T * p, T * e, T v, int, int) { access(A(p), sizeof(T), 3); sync_on(p); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
T __tsan_atomic##B##_compare_exchange_val(volatile T * p, T e, T v, int, int) { access(A(p), sizeof(T), 3); sync_on(p); T o = *p; if (o == e) *p = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// what happens while a local static is initialised is ordered by its guard
int __real___cxa_guard_acquire(uint64_t *); void __real___cxa_guard_release(uint64_t *); void __real___cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t * g) { int r = __real___cxa_guard_acquire(g); if (r) busy++; return r; }
void __wrap___cxa_guard_release(uint64_t * g) { __real___cxa_guard_release(g); busy--; }
void __wrap___cxa_guard_abort(uint64_t * g) { __real___cxa_guard_abort(g); busy--; }
}

void * operator new(size_t n) { return __wrap_malloc(n ? n : 1); }
void * operator new[](size_t n) { return __wrap_malloc(n ? n : 1); }
void * operator new(size_t n, std::nothrow_t const&) noexcept { return __wrap_malloc(n ? n : 1); }
void * operator new[](size_t n, std::nothrow_t const&) noexcept { return __wrap_malloc(n ? n : 1); }
void * operator new(size_t n, std::align_val_t a) { return __wrap_aligned_alloc((size_t) a, n ? n : 1); }
void * operator new[](size_t n, std::align_val_t a) { return __wrap_aligned_alloc((size_t) a, n ? n : 1); }
void operator delete(void * p) noexcept { drop(p); }
void operator delete[](void * p) noexcept { drop(p); }
void operator delete(void * p, size_t) noexcept { drop(p); }
void operator delete[](void * p, size_t) noexcept { drop(p); }
void operator delete(void * p, std::nothrow_t const&) noexcept { drop(p); }
void operator delete[](void * p, std::nothrow_t const&) noexcept { drop(p); }
void operator delete(void * p, std::align_val_t) noexcept { drop(p); }
void operator delete[](void * p, std::align_val_t) noexcept { drop(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { drop(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { drop(p); }

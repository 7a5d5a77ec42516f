// gsim runtime: compiled WITHOUT -fsanitize=thread; provides the __tsan_* hooks
// that the instrumented harness TU calls, the scheduler, the simulated heap,
// clock and disk, the choice tapes, the fork server and the minimiser.
#include "gsim.hpp"
#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <map>
#include <pthread.h>
#include <sched.h>
#include <set>
#include <csignal>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>

using std::uint64_t; using std::uint32_t; using std::uint8_t; using std::uint16_t; using std::uintptr_t; using std::size_t; using std::int64_t;

namespace gsim {

// ------------------------------------------------------------------ layout
static const uintptr_t ARENA = 0x100000000000ull;
static const uintptr_t ARENA_SIZE = 256ull << 20;
static const uintptr_t SHADOW = 0x110000000000ull;      // 1 byte per arena byte
static const uintptr_t RACE = 0x120000000000ull;        // 64 bytes per 8 arena bytes
static const uintptr_t STACKS = 0x130000000000ull;
static const uintptr_t STACK_SIZE = 8ull << 20;
static const uintptr_t STACK_PITCH = 16ull << 20;
static const int MAXT = 8;

static inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

// --------------------------------------------------------- shared result
static const size_t TAPE_CAP = 1u << 18;
static const size_t SPAN_CAP = 1u << 16;
static const size_t LOG_CAP = 1u << 20;
struct SpanRec { uint32_t begin, end; uint32_t depth; };
struct Named { char name[48]; uint64_t n; };
struct Shared {
    volatile int status;       // 0 running, 1 ok, 2 violation, 3 internal error
    volatile int done;
    char cls[160];
    char msg[4096];
    uint64_t hash, sched_hash, steps, preempts, sut_preempts, allocs, seq, simns;
    int nontriv;
    Named probes[96]; int nprobes;
    Named faults[48]; int nfaults;
    uint32_t tape_len[NCHAN];
    uint32_t nspans[NCHAN];
    uint32_t log_len;
    uint64_t pcs[8]; int npcs;
    uint32_t tape[NCHAN][TAPE_CAP];
    SpanRec spans[NCHAN][SPAN_CAP];
    char log[LOG_CAP];
};
static Shared* S;

// --------------------------------------------------------------- run state
static bool g_replay = false, g_trace = false;
static const std::vector<uint32_t>* g_tape = nullptr;   // [NCHAN]
static uint64_t g_rng[NCHAN];
static uint32_t g_open[NCHAN][64]; static int g_depth[NCHAN];

struct Task {
    int id; pthread_t th; volatile int baton; bool done, blocked; int mode;
    std::function<void()> fn;
    uint32_t vc[MAXT];
    uint64_t arm_n; bool arm_sticky, armed, fired; uint64_t allocs; int64_t suppress;
    uint64_t op_limit, op_start;
    const void* wait_on;
    int preempted_in_sut;
    struct Exit { void (*f)(void*); void* obj; } exits[64]; int nexits;      // destructors of thread-local objects
};
static Task T[MAXT]; static int NT = 0;
static Task* cur = nullptr;
static bool g_live = false;         // inside a run
static bool g_sut = false;          // cur->mode == SUT
static bool g_conc = false;         // more than one task live
static int64_t g_countdown = 0;
static uint64_t g_steps = 0, g_budget = 0;
static uint64_t g_hash = 0, g_sched_hash = 0;
static const uint64_t RUN_BUDGET = 400000000ull;

static inline void mixh(uint64_t& h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }

[[noreturn]] static void finish(int status) {
    if(strcmp(S->cls, "hang")) mixh(g_hash, g_steps);
    S->hash = g_hash; S->sched_hash = g_sched_hash; S->steps = g_steps;
    S->status = status; S->done = 1;
    _exit(0);
}

static void set_cls(const char* c) { if(!S->cls[0]) { snprintf(S->cls, sizeof S->cls, "%s", c); } }
static void note_pc(void* pc) { if(S->npcs < 8) S->pcs[S->npcs++] = (uint64_t)pc; }

[[noreturn]] static void vfailv(const char* cls, const char* fmt, va_list ap) {
    g_sut = false; g_live = false;
    if(S->status == 2) _exit(0);
    set_cls(cls);
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    const char* c = S->cls; while(*c) mixh(g_hash, (unsigned char)*c++);
    finish(2);
}
void fail(const char* cls, const char* fmt, ...) { va_list ap; va_start(ap, fmt); vfailv(cls, fmt, ap); }

[[noreturn]] static void rt_error(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    g_sut = false; g_live = false;
    snprintf(S->cls, sizeof S->cls, "simulator-error");
    vsnprintf(S->msg, sizeof S->msg, fmt, ap);
    finish(3);
}

// ------------------------------------------------------------------ choices
uint64_t choose(Channel ch, uint64_t n) {
    if(n <= 1) n = 1;
    uint32_t pos = S->tape_len[ch];
    uint32_t raw;
    if(g_replay) raw = pos < g_tape[ch].size() ? g_tape[ch][pos] : 0;
    else raw = (uint32_t)(splitmix(g_rng[ch]) >> 32);
    if(pos >= TAPE_CAP) rt_error("choice tape %d overflow", (int)ch);
    uint64_t v = n > 0xffffffffull ? raw : raw % n;
    S->tape[ch][pos] = (uint32_t)v;
    S->tape_len[ch] = pos + 1;
    mixh(g_hash, (v << 3) | ch);
    return v;
}
void span_begin(Channel ch) {
    if(g_depth[ch] < 64) g_open[ch][g_depth[ch]] = S->tape_len[ch];
    ++g_depth[ch];
}
void span_end(Channel ch) {
    --g_depth[ch];
    if(g_depth[ch] < 64 && S->nspans[ch] < SPAN_CAP) {
        SpanRec& r = S->spans[ch][S->nspans[ch]++];
        r.begin = g_open[ch][g_depth[ch]]; r.end = S->tape_len[ch]; r.depth = g_depth[ch];
    }
}

// -------------------------------------------------------------- observation
static void bump(Named* t, int& n, int cap, const char* name, uint64_t k) {
    for(int i = 0; i < n; ++i) if(!strncmp(t[i].name, name, 47)) { t[i].n += k; return; }
    if(n < cap) { snprintf(t[n].name, 48, "%s", name); t[n].n = k; ++n; }
}
void probe(const char* name, uint64_t n) { bump(S->probes, S->nprobes, 96, name, n); }
void fault(const char* kind, uint64_t n) { bump(S->faults, S->nfaults, 48, kind, n); const char* c = kind; while(*c) mixh(g_hash, (unsigned char)*c++); }
void mix(uint64_t v) { mixh(g_hash, v); }
void mixd(double d) { uint64_t u; memcpy(&u, &d, 8); mixh(g_hash, u); }
void nontrivial() { S->nontriv = 1; }
bool tracing() { return g_trace; }
void log(const char* fmt, ...) {
    if(!g_trace) return;
    int old = set_mode(HARNESS);
    size_t left = LOG_CAP - S->log_len;
    if(left > 512) {
        va_list ap; va_start(ap, fmt);
        int k = snprintf(S->log + S->log_len, left, "[t%d #%llu] ", cur ? cur->id : -1, (unsigned long long)S->seq);
        k += vsnprintf(S->log + S->log_len + k, left - k, fmt, ap);
        if(k > (int)left - 2) k = left - 2;
        S->log[S->log_len + k] = '\n';
        S->log_len += k + 1;
        va_end(ap);
    }
    set_mode(old);
}
void end_run() { g_sut = false; finish(1); }
uint64_t now_seq() { return ++S->seq; }
uint64_t steps() { return g_steps; }
uint64_t preemptions() { return S->sut_preempts; }
int task_id() { return cur ? cur->id : 0; }
void sim_time(uint64_t ns) { S->simns += ns; }

// -------------------------------------------------------------------- modes
int set_mode(int m) {
    if(!cur) return HARNESS;
    int o = cur->mode; cur->mode = m; g_sut = g_live && m == SUT; return o;
}

// --------------------------------------------------------------------- heap
struct Header { uint64_t magic; uint32_t id; uint32_t mode; uint64_t size; uint64_t pad; };
static const uint64_t MAGIC = 0x67736d6865617021ull;
static uintptr_t h_lo, h_hi; static uint32_t h_id; static int h_order; static uint64_t h_fill; static int64_t h_live, h_liveb;
static uint64_t h_rng;
static inline uint8_t* shadow(uintptr_t a) { return (uint8_t*)(SHADOW + (a - ARENA)); }
// Sub-arenas used by the scattering orders.
static uintptr_t h_sub[8];

static void heap_init() {
    h_lo = ARENA + 4096; h_hi = ARENA + ARENA_SIZE - 4096; h_id = 0; h_live = h_liveb = 0;
    for(int i = 0; i < 8; ++i) h_sub[i] = ARENA + 4096 + (ARENA_SIZE - (1 << 20)) / 8 * i;
    h_order = (int)choose(ENV, 4);         // 0 ascending, 1 descending, 2 alternating, 3 scattered
    int f = (int)choose(ENV, 4);
    h_fill = f == 0 ? 0 : f == 1 ? ~0ull : f == 2 ? 0xa5a5a5a5a5a5a5a5ull : 0x7ff0000000000001ull * 3;
    h_rng = choose(ENV, 1u << 30) + 1;
}
static inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SIZE; }

static void* heap_alloc(size_t n, size_t al, uint32_t mode) {
    if(al < 16) al = 16;
    size_t need = sizeof(Header) + ((n + 15) & ~15ull) + 32 + al;
    if(need > (64u << 20)) return nullptr;
    uintptr_t base;
    if(h_order == 0) { base = h_lo; h_lo += need; if(h_lo > h_hi) return nullptr; }
    else if(h_order == 1) { h_hi -= need; base = h_hi & ~15ull; h_hi = base; if(h_lo > h_hi) return nullptr; }
    else if(h_order == 2) { if(h_id & 1) { h_hi -= need; base = h_hi & ~15ull; h_hi = base; } else { base = h_lo; h_lo += need; } if(h_lo > h_hi) return nullptr; }
    else {
        int i = (int)(splitmix(h_rng) & 7);
        int tries = 0;
        uintptr_t end;
        for(;; i = (i + 1) & 7) { end = ARENA + 4096 + (ARENA_SIZE - (1 << 20)) / 8 * (i + 1); if(h_sub[i] + need < end) break; if(++tries == 8) return nullptr; }
        base = h_sub[i]; h_sub[i] += need + ((splitmix(h_rng) & 3) << 4);
    }
    base = (base + 15) & ~15ull;
    uintptr_t p = (base + sizeof(Header) + al - 1) & ~(uintptr_t)(al - 1);
    Header* h = (Header*)(p - sizeof(Header));
    h->magic = MAGIC; h->id = h_id++; h->mode = mode; h->size = n; h->pad = 0;
    memset(shadow(p), 1, n);
    uint64_t* w = (uint64_t*)p;
    for(size_t i = 0; i < (n + 7) / 8; ++i) w[i] = h_fill;
    if(mode == SUT) { ++h_live; h_liveb += n; }
    S->allocs++;
    mixh(g_hash, n * 4 + mode);
    return (void*)p;
}
static void heap_free(void* vp) {
    uintptr_t p = (uintptr_t)vp;
    Header* h = (Header*)(p - sizeof(Header));
    if(p < ARENA + 4096 || h->magic != MAGIC) fail("memory:bad-free", "operator delete of %p, which is not the start of a live block", vp);
    if(h->pad) fail("memory:double-free", "block #%u of %llu bytes freed twice", h->id, (unsigned long long)h->size);
    h->pad = 1;
    memset(shadow(p), 2, h->size);
    if(h->mode == SUT) { --h_live; h_liveb -= h->size; }
    mixh(g_hash, h->size * 4 + 3);
    // poison so that uninstrumented readers see garbage too
    size_t n = h->size < 256 ? h->size : 256;
    memset(vp, 0xdd, n);
}
static inline bool alloc_should_fail() {
    Task* t = cur;
    ++t->allocs;
    if(t->armed) {
        if(t->arm_n > 1) --t->arm_n;
        else {
            bool first = !t->fired; t->fired = true;
            if(first || t->arm_sticky) { fault(t->arm_sticky ? "alloc-exhausted" : "alloc-fail"); return true; }
        }
    }
    return false;
}
static void* rt_new(size_t n, size_t al, bool nothrow) {
    if(!g_live || !cur || cur->mode == HARNESS) {
        void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
        if(!p) abort();
        return p;
    }
    if(cur->mode == SUT && alloc_should_fail()) { if(nothrow) return nullptr; throw std::bad_alloc(); }
    void* p = heap_alloc(n, al, cur->mode);
    if(!p) { if(nothrow) return nullptr; throw std::bad_alloc(); }
    return p;
}
static void rt_delete(void* p) {
    if(!p) return;
    if(in_arena((uintptr_t)p)) { if(g_live) heap_free(p); return; }
    free(p);
}
void arm_alloc_fault(uint64_t n, bool sticky) { cur->arm_n = n ? n : 1; cur->arm_sticky = sticky; cur->armed = true; cur->fired = false; }
bool disarm_alloc_fault() { bool f = cur->armed && cur->fired; cur->armed = false; cur->fired = false; return f; }
uint64_t sut_allocs() { return cur->allocs; }
int64_t live_blocks() { return h_live; }
int64_t live_bytes() { return h_liveb; }
void* arena_alloc(size_t n) { return heap_alloc(n, 16, SETUP); }
void arena_free(void* p) { heap_free(p); }
bool arena_contains(const void* p) { return in_arena((uintptr_t)p); }

// ---------------------------------------------------------------- scheduler
static void fwait(volatile int* a) { while(!__atomic_load_n(a, __ATOMIC_ACQUIRE)) syscall(SYS_futex, a, FUTEX_WAIT_PRIVATE, 0, 0, 0, 0); __atomic_store_n(a, 0, __ATOMIC_RELEASE); }
static void fwake(volatile int* a) { __atomic_store_n(a, 1, __ATOMIC_RELEASE); syscall(SYS_futex, a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }

static void activate(Task* t) { cur = t; g_sut = g_live && t->mode == SUT; }
static void switch_to(Task* t) {
    if(t == cur) return;
    Task* me = cur;
    activate(t);
    fwake(&t->baton);
    fwait(&me->baton);
}
static void draw_quantum() {
    uint64_t c = choose(SCHED, 32);
    if(c < 3) g_countdown = INT64_MAX / 2;
    else { int e = 1 + (int)(c % 14); g_countdown = 1 + (int64_t)choose(SCHED, 1ull << e); }
}
static int runnable(Task** out) { int n = 0; for(int i = 1; i < NT; ++i) if(!T[i].done && !T[i].blocked) out[n++] = &T[i]; return n; }

static void preempt(uint64_t pc) {
    bool was_sut = cur->mode == SUT;
    g_sut = false;
    draw_quantum();
    Task* r[MAXT]; int n = runnable(r);
    if(n > 0) {
        // rotate so that choice 0 = stay on the current task
        int me = 0; for(int i = 0; i < n; ++i) if(r[i] == cur) me = i;
        Task* t = r[(me + choose(SCHED, n)) % n];
        if(t != cur) {
            S->preempts++; if(was_sut) S->sut_preempts++;
            mixh(g_sched_hash, (uint64_t)t->id * 131 + cur->id); mixh(g_sched_hash, g_steps); mixh(g_sched_hash, pc);
            switch_to(t);
        }
    }
    g_sut = g_live && cur->mode == SUT;
}
void yield() { if(g_conc && cur && cur->id) { g_countdown -= 50; if(g_countdown <= 0) preempt(1); } }

static void block_until_woken() {
    Task* r[MAXT]; int n = runnable(r);
    if(n == 0) fail("deadlock", "every task is blocked on a lock");
    draw_quantum();
    Task* t = r[choose(SCHED, n)];
    mixh(g_sched_hash, (uint64_t)t->id * 257 + cur->id);
    switch_to(t);
}
static void next_after_done() {
    Task* r[MAXT]; int n = runnable(r);
    bool any = false; for(int i = 1; i < NT; ++i) any |= !T[i].done;
    if(n == 0 && any) fail("deadlock", "the remaining tasks are blocked on locks");
    Task* t = n ? r[choose(SCHED, n)] : &T[0];
    if(n) draw_quantum();
    mixh(g_sched_hash, (uint64_t)t->id * 65537 + cur->id);
    activate(t); fwake(&t->baton);
}
static void vc_join(uint32_t* a, const uint32_t* b) { for(int i = 0; i < MAXT; ++i) if(b[i] > a[i]) a[i] = b[i]; }

static void set_altstack();
static void* task_main(void* vp) {
    Task* t = (Task*)vp;
    set_altstack();
    fwait(&t->baton);
    try {
        t->fn();
        InMode m(SUT);      // the thread ends: its thread-local objects go, still under the scheduler
        while(t->nexits) { Task::Exit e = t->exits[--t->nexits]; e.f(e.obj); }
    }
    catch(std::exception& e) { g_sut = false; fail("uncaught-exception", "task %d let an exception escape: %s", t->id, e.what()); }
    catch(...) { g_sut = false; fail("uncaught-exception", "task %d let an exception escape", t->id); }
    t->done = true; t->mode = HARNESS; g_sut = false;
    if(t->id) next_after_done();
    return nullptr;
}
static void start_thread(Task* t) {
    pthread_attr_t a; pthread_attr_init(&a);
    void* st = (void*)(STACKS + STACK_PITCH * t->id);
    pthread_attr_setstack(&a, st, STACK_SIZE);
    int e = pthread_create(&t->th, &a, task_main, t);
    if(e) rt_error("pthread_create: %d", e);
}
static void race_clear();
void parallel(const std::vector<std::function<void()>>& bodies) {
    if(cur->id != 0) rt_error("parallel() from a task");
    int old = set_mode(HARNESS);
    if((int)bodies.size() + 1 > MAXT) rt_error("too many tasks");
    NT = 1 + (int)bodies.size();
    T[0].vc[0]++;
    for(int i = 1; i < NT; ++i) {
        Task& t = T[i];
        uint32_t keep = t.vc[i];
        t.id = i; t.baton = 0; t.done = t.blocked = false; t.mode = HARNESS; t.fn = bodies[i - 1];
        t.nexits = 0; t.armed = t.fired = false; t.allocs = 0; t.op_limit = 0; t.preempted_in_sut = 0;
        memcpy(t.vc, T[0].vc, sizeof t.vc); t.vc[i] = keep + 1;
        start_thread(&t);
    }
    race_clear();
    g_conc = NT > 2;
    draw_quantum();
    Task* r[MAXT]; int n = runnable(r);
    Task* first = r[choose(SCHED, n)];
    activate(first); fwake(&first->baton);
    fwait(&T[0].baton);
    activate(&T[0]);
    g_conc = false;
    for(int i = 1; i < NT; ++i) { pthread_join(T[i].th, nullptr); vc_join(T[0].vc, T[i].vc); }
    NT = 1;
    set_mode(old);
}

// ------------------------------------------------------------ race detector
struct Cell { uint32_t wclk; uint8_t wtid, wmask; uint16_t ver; uint32_t wpc; uint32_t rpc; uint32_t rclk[MAXT]; uint8_t rmask[MAXT]; uint8_t pad[8]; };
static_assert(sizeof(Cell) == 64, "cell");
static std::unordered_map<uintptr_t, Cell>* g_other;
static uint16_t g_race_ver = 0;
static void race_clear() { ++g_race_ver; if(g_other) g_other->clear(); }

static void race_access(uintptr_t a, size_t n, bool w, void* pc) {
    uintptr_t end = a + n;
    int me = cur->id;
    while(a < end) {
        uintptr_t g = a & ~7ull; unsigned off = a & 7; unsigned cnt = (unsigned)std::min<uintptr_t>(end - a, 8 - off);
        uint8_t mask = (uint8_t)(((1u << cnt) - 1) << off);
        Cell* c;
        if(in_arena(a)) c = (Cell*)(RACE + (g - ARENA) * 8);
        else { if(!g_other) g_other = new std::unordered_map<uintptr_t, Cell>(); c = &(*g_other)[g]; }
        if(c->ver != g_race_ver) { memset(c, 0, sizeof *c); c->ver = g_race_ver; }
        const char* kind = nullptr; int other = 0; uint32_t opc = 0;
        if((c->wmask & mask) && c->wtid != me && c->wclk > cur->vc[c->wtid]) { kind = w ? "write/write" : "read after write"; other = c->wtid; opc = c->wpc; }
        if(!kind && w) for(int i = 1; i < MAXT; ++i) if(i != me && (c->rmask[i] & mask) && c->rclk[i] > cur->vc[i]) { kind = "write after read"; other = i; opc = c->rpc; break; }
        if(kind) {
            note_pc(pc); note_pc((void*)(uintptr_t)opc);
            fail("data-race", "unsynchronised %s by tasks %d and %d on %zu byte(s) of %s memory (no happens-before order)", kind, me, other, n,
                 in_arena(a) ? "heap" : (a - STACKS < STACK_PITCH * MAXT) ? "stack-object" : "static");
        }
        if(w) { if(c->wtid != me || c->wclk != cur->vc[me]) { c->wmask = 0; } c->wtid = me; c->wclk = cur->vc[me]; c->wmask |= mask; c->wpc = (uint32_t)(uintptr_t)pc; }
        else { if(c->rclk[me] != cur->vc[me]) c->rmask[me] = 0; c->rclk[me] = cur->vc[me]; c->rmask[me] |= mask; c->rpc = (uint32_t)(uintptr_t)pc; }
        a = g + 8;
    }
}

struct SyncVar { uint32_t vc[MAXT]; };
static std::map<uintptr_t, SyncVar>* g_sync;
struct HarnessGuard { bool s; HarnessGuard() : s(g_sut) { g_sut = false; } ~HarnessGuard() { g_sut = s; } };
static SyncVar& syncvar(const void* p) { if(!g_sync) g_sync = new std::map<uintptr_t, SyncVar>(); return (*g_sync)[(uintptr_t)p]; }
// the runtime's own containers must not touch the simulated heap
struct RtMode { int m; RtMode() : m(cur ? cur->mode : 0) { if(cur) cur->mode = HARNESS; g_sut = false; } ~RtMode() { if(cur) { cur->mode = m; g_sut = g_live && m == SUT; } } };
static void acquire(const void* p) { RtMode r; vc_join(cur->vc, syncvar(p).vc); }
static void release(const void* p) { RtMode r; SyncVar& s = syncvar(p); vc_join(s.vc, cur->vc); cur->vc[cur->id]++; }

[[noreturn]] static void over_budget() {
    fail("no-progress", "the operation did not finish within its step budget (%llu steps)", (unsigned long long)(g_steps - cur->op_start));
}
void op_begin(uint64_t b) { cur->op_start = g_steps; cur->op_limit = g_steps + b; g_budget = b ? cur->op_limit : RUN_BUDGET; }
void op_end() { cur->op_limit = 0; g_budget = RUN_BUDGET; }

__attribute__((noinline)) static void bad_access(uintptr_t a, size_t n, bool w, void* pc, uint8_t st) {
    note_pc(pc);
    fail(st == 2 ? "memory:use-after-free" : "memory:out-of-bounds", "%s of %zu byte(s) at %s", w ? "write" : "read", n, st == 2 ? "freed heap memory" : "unallocated heap memory");
}
__attribute__((noinline)) static void conc_access(uintptr_t a, size_t n, bool w, void* pc) {
    uintptr_t so = a - STACKS;
    if(so < STACK_PITCH * MAXT && (int)(so / STACK_PITCH) == cur->id) return;
    { RtMode r; race_access(a, n, w, pc); }
    if((g_countdown -= w ? 4 : 1) <= 0) preempt((uint64_t)pc);
}
static inline void access(void* p, size_t n, bool w, void* pc) {
    if(!g_sut) return;
    uintptr_t a = (uintptr_t)p;
    if(++g_steps > g_budget) over_budget();
    if(in_arena(a)) {
        uint8_t* s = shadow(a);
        for(size_t i = 0; i < n; ++i) if(__builtin_expect(s[i] != 1, 0)) bad_access(a, n, w, pc, s[i]);
    }
    if(g_conc) conc_access(a, n, w, pc);
}
static void access_range(const void* p, size_t n, bool w, void* pc) {
    if(!g_sut || !n) return;
    access((void*)p, n, w, pc);
}

// ------------------------------------------------------------------- locks
struct Lock { int owner; int rec; int readers; };
static std::map<uintptr_t, Lock>* g_locks;
static Lock& lockof(const void* p) { if(!g_locks) g_locks = new std::map<uintptr_t, Lock>(); return (*g_locks)[(uintptr_t)p]; }
static void wake_waiters(const void* p) { for(int i = 1; i < NT; ++i) if(T[i].blocked && T[i].wait_on == p) { T[i].blocked = false; T[i].wait_on = nullptr; } }
static int lock_excl(void* p, bool tryit, bool recursive_ok) {
    if(!g_live || !cur) return 0;
    RtMode r;
    if(g_conc && (g_countdown -= 8) <= 0) { preempt(2); g_sut = false; }
    for(;;) {
        Lock& l = lockof(p);
        if(l.owner == 0 && l.readers == 0) { l.owner = cur->id + 1; l.rec = 1; break; }
        if(l.owner == cur->id + 1 && recursive_ok) { ++l.rec; break; }
        if(tryit) return EBUSY;
        if(l.owner == cur->id + 1) fail("deadlock", "a task locks a non-recursive lock it already holds");
        cur->blocked = true; cur->wait_on = p;
        block_until_woken(); g_sut = false;
    }
    vc_join(cur->vc, syncvar(p).vc);
    return 0;
}
static int unlock_any(void* p) {
    if(!g_live || !cur) return 0;
    RtMode r;
    Lock& l = lockof(p);
    if(l.owner == cur->id + 1) { if(--l.rec == 0) l.owner = 0; }
    else if(l.readers > 0) --l.readers;
    SyncVar& s = syncvar(p); vc_join(s.vc, cur->vc); cur->vc[cur->id]++;
    wake_waiters(p);
    if(g_conc && (g_countdown -= 8) <= 0) { preempt(3); g_sut = false; }
    return 0;
}
static int lock_shared(void* p, bool tryit) {
    if(!g_live || !cur) return 0;
    RtMode r;
    if(g_conc && (g_countdown -= 8) <= 0) { preempt(4); g_sut = false; }
    for(;;) {
        Lock& l = lockof(p);
        if(l.owner == 0) { ++l.readers; break; }
        if(tryit) return EBUSY;
        cur->blocked = true; cur->wait_on = p;
        block_until_woken(); g_sut = false;
    }
    vc_join(cur->vc, syncvar(p).vc);
    return 0;
}

// -------------------------------------------------------------- clock, disk
static Clock g_clock; static Disk g_disk;
Clock& clock() { return g_clock; }
Disk& disk() { return g_disk; }

// ------------------------------------------------------------------ crashes
static const char* signame(int s) { switch(s) { case SIGSEGV: return "SIGSEGV"; case SIGABRT: return "SIGABRT"; case SIGTRAP: return "SIGTRAP"; case SIGFPE: return "SIGFPE"; case SIGBUS: return "SIGBUS"; case SIGILL: return "SIGILL"; case SIGVTALRM: return "hang"; case SIGXCPU: return "hang"; } return "signal"; }
static void on_signal(int sig, siginfo_t*, void*) {
    g_sut = false; g_live = false;
    if(S->status == 2) _exit(0);
    char b[64]; snprintf(b, sizeof b, sig == SIGVTALRM || sig == SIGXCPU ? "hang" : "crash:%s", signame(sig));
    set_cls(b); snprintf(S->msg, sizeof S->msg, "the process received %s while the code under test was running", signame(sig));
    const char* c = S->cls; while(*c) mixh(g_hash, (unsigned char)*c++);
    finish(2);
}
static void set_altstack() {
    static char stk[MAXT + 2][32768]; static int n = 0;
    stack_t ss; ss.ss_sp = stk[__atomic_fetch_add(&n, 1, __ATOMIC_RELAXED) % (MAXT + 2)]; ss.ss_size = 32768; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
}
static void on_terminate() {
    g_sut = false; g_live = false;
    const char* what = "no active exception";
    char buf[256];
    if(std::type_info* t = abi::__cxa_current_exception_type()) { int st; char* d = abi::__cxa_demangle(t->name(), 0, 0, &st); snprintf(buf, sizeof buf, "%s", d ? d : t->name()); what = buf; }
    if(S->status != 2) { snprintf(S->msg, sizeof S->msg, "std::terminate called (%s)", what); set_cls("terminate"); finish(2); }
    _exit(0);
}
static void install_handlers() {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = {SIGSEGV, SIGABRT, SIGTRAP, SIGFPE, SIGBUS, SIGILL, SIGVTALRM, SIGXCPU};
    for(int s : sigs) sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// ------------------------------------------------------------------ one run
static void root_body() {
    heap_init();
    gsim_run();
    set_mode(HARNESS);
    finish(1);
}
static void map_regions() {
    auto m = [](uintptr_t a, size_t n) {
        void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if(p != (void*)a) { fprintf(stderr, "gsim: cannot map %lx\n", (unsigned long)a); _exit(3); }
    };
    m(ARENA, ARENA_SIZE); m(SHADOW, ARENA_SIZE); m(RACE, ARENA_SIZE * 8);
    for(int i = 0; i < MAXT; ++i) m(STACKS + STACK_PITCH * i, STACK_SIZE);
}
static void child(uint64_t seed) {
    for(int i = 0; i < NCHAN; ++i) { uint64_t s = seed ^ (0x1234567ull * (i + 1)); splitmix(s); g_rng[i] = splitmix(s); }
    g_hash = 0x42; g_sched_hash = 0x43; g_budget = RUN_BUDGET;
    install_handlers();
    NT = 1; T[0].id = 0; T[0].mode = HARNESS; T[0].fn = root_body; T[0].baton = 0;
    cur = &T[0]; g_live = true;
    start_thread(&T[0]);
    fwake(&T[0].baton);
    pthread_join(T[0].th, nullptr);
    finish(3);
}
static void reset_shared() {
    S->status = S->done = 0; S->cls[0] = S->msg[0] = 0; S->hash = S->sched_hash = S->steps = S->preempts = S->sut_preempts = S->allocs = S->seq = S->simns = 0;
    S->nontriv = 0; S->nprobes = S->nfaults = 0; S->log_len = 0; S->npcs = 0;
    for(int i = 0; i < NCHAN; ++i) S->tape_len[i] = S->nspans[i] = 0;
}
// returns status
static int run_once(uint64_t seed, const std::vector<uint32_t>* tape, bool trace) {
    reset_shared();
    g_replay = tape != nullptr; g_tape = tape; g_trace = trace;
    fflush(stdout);
    pid_t p = fork();
    if(p == 0) { child(seed); _exit(3); }
    if(p < 0) { perror("fork"); exit(3); }
    int st = 0;
    while(waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if(!S->done) {
        if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { snprintf(S->cls, sizeof S->cls, "simulator-error"); snprintf(S->msg, sizeof S->msg, "the run was killed (SIGKILL)"); S->status = 3; }
        else { S->status = 2; if(!S->cls[0]) snprintf(S->cls, sizeof S->cls, "crash:exit"); snprintf(S->msg, sizeof S->msg, "the run ended abnormally: wait status %d", st); }
    }
    return S->status;
}

typedef std::vector<uint32_t> Tape;
static void grab(Tape* t) { for(int i = 0; i < NCHAN; ++i) t[i].assign(S->tape[i], S->tape[i] + S->tape_len[i]); }
static void write_replay(const char* path, const Tape* t, const char* cls, uint64_t seed) {
    FILE* f = fopen(path, "w"); if(!f) { perror(path); exit(3); }
    fprintf(f, "gsim-replay 1\nproperty %s\nclass %s\nseed %llu\n", gsim_property, cls, (unsigned long long)seed);
    for(int i = 0; i < NCHAN; ++i) { fprintf(f, "tape %d %zu", i, t[i].size()); for(uint32_t v : t[i]) fprintf(f, " %u", v); fprintf(f, "\n"); }
    fclose(f);
}
static bool read_replay(const char* path, Tape* t, std::string& cls) {
    FILE* f = fopen(path, "r"); if(!f) return false;
    char line[512];
    while(fgets(line, sizeof line, f)) {
        if(!strncmp(line, "class ", 6)) { cls = line + 6; while(!cls.empty() && (cls.back() == '\n')) cls.pop_back(); }
        if(!strncmp(line, "seed ", 5)) break;
    }
    int ch; size_t n;
    while(fscanf(f, " tape %d %zu", &ch, &n) == 2) { t[ch].resize(n); for(size_t i = 0; i < n; ++i) { unsigned v; if(fscanf(f, "%u", &v) != 1) return false; t[ch][i] = v; } }
    fclose(f);
    return true;
}
static void jstr(FILE* f, const char* s, size_t n) {
    fputc('"', f);
    for(size_t i = 0; i < n; ++i) { unsigned char c = s[i]; if(c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); } else if(c == '\n') fputs("\\n", f); else if(c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static void print_result(FILE* f) {
    fprintf(f, "{\"status\":%d,\"class\":", S->status); jstr(f, S->cls, strlen(S->cls));
    fprintf(f, ",\"msg\":"); jstr(f, S->msg, strlen(S->msg));
    fprintf(f, ",\"hash\":\"%016llx\",\"sched_hash\":\"%016llx\",\"steps\":%llu,\"preemptions\":%llu,\"pcs\":[", (unsigned long long)S->hash, (unsigned long long)S->sched_hash, (unsigned long long)S->steps, (unsigned long long)S->preempts);
    for(int i = 0; i < S->npcs; ++i) fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)S->pcs[i]);
    fprintf(f, "],\"tape_len\":["); for(int i = 0; i < NCHAN; ++i) fprintf(f, "%s%u", i ? "," : "", S->tape_len[i]);
    fprintf(f, "],\"log\":"); jstr(f, S->log, S->log_len); fprintf(f, "}\n");
}
static double wall() { struct timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

// -------------------------------------------------------------- minimiser
static size_t total(const Tape* t) { size_t n = 0; for(int i = 0; i < NCHAN; ++i) n += t[i].size(); return n; }
static void trim(Tape* t) { for(int i = 0; i < NCHAN; ++i) while(!t[i].empty() && t[i].back() == 0) t[i].pop_back(); }
static bool try_tape(const Tape* t, const std::string& cls, Tape* best, std::vector<SpanRec>* spans) {
    run_once(0, t, false);
    if(S->status != 2 || cls != S->cls) return false;
    Tape n[NCHAN]; grab(n); trim(n);
    // accept only strict progress: shorter, or same length and lexicographically smaller
    size_t a = total(n), b = total(best);
    if(a > b) return false;
    if(a == b) { bool less = false, decided = false; for(int i = 0; i < NCHAN && !decided; ++i) { if(n[i] != best[i]) { less = n[i].size() < best[i].size() || (n[i].size() == best[i].size() && n[i] < best[i]); decided = true; } } if(!less) return false; }
    for(int i = 0; i < NCHAN; ++i) { best[i] = n[i]; spans[i].assign(S->spans[i], S->spans[i] + S->nspans[i]); }
    return true;
}
static int minimise(const char* in, const char* out, double limit) {
    Tape best[NCHAN]; std::string cls;
    if(!read_replay(in, best, cls)) return 3;
    double t0 = wall();
    std::vector<SpanRec> spans[NCHAN];
    run_once(0, best, false);
    if(S->status != 2 || cls != S->cls) { fprintf(stderr, "minimise: input does not reproduce (%d %s)\n", S->status, S->cls); return 4; }
    for(int i = 0; i < NCHAN; ++i) spans[i].assign(S->spans[i], S->spans[i] + S->nspans[i]);
    { Tape n[NCHAN]; grab(n); trim(n); for(int i = 0; i < NCHAN; ++i) best[i] = n[i]; }
    size_t runs = 1; bool progress = true;
    auto out_of_time = [&] { return wall() - t0 > limit; };
    while(progress && !out_of_time()) {
        progress = false;
        // 1. drop whole channels' suffixes / zero whole channels
        for(int c = NCHAN - 1; c >= 0 && !out_of_time(); --c) {
            if(best[c].empty()) continue;
            Tape t[NCHAN]; for(int i = 0; i < NCHAN; ++i) t[i] = best[i];
            t[c].clear(); ++runs;
            if(try_tape(t, cls, best, spans)) { progress = true; continue; }
            for(size_t keep = best[c].size() / 2; keep > 0 && keep < best[c].size() && !out_of_time(); ) {
                for(int i = 0; i < NCHAN; ++i) t[i] = best[i];
                size_t sz = best[c].size(); size_t cut = sz - keep; if(cut == 0) break;
                t[c].resize(keep); ++runs;
                if(try_tape(t, cls, best, spans)) { progress = true; keep = best[c].size() / 2; }
                else { size_t k2 = keep + (sz - keep) / 2; if(k2 == keep) break; keep = k2; }
            }
        }
        // 2. delete spans, large first
        for(int c = 0; c < NCHAN && !out_of_time(); ++c) {
            for(size_t k = 0; k < spans[c].size() && !out_of_time(); ) {
                std::vector<SpanRec> sp = spans[c];
                std::sort(sp.begin(), sp.end(), [](const SpanRec& a, const SpanRec& b) { uint32_t x = a.end - a.begin, y = b.end - b.begin; return x != y ? x > y : a.begin > b.begin; });
                if(k >= sp.size()) break;
                SpanRec r = sp[k];
                if(r.end <= r.begin || r.begin >= best[c].size()) { ++k; continue; }
                Tape t[NCHAN]; for(int i = 0; i < NCHAN; ++i) t[i] = best[i];
                t[c].erase(t[c].begin() + r.begin, t[c].begin() + std::min<size_t>(r.end, t[c].size())); ++runs;
                if(try_tape(t, cls, best, spans)) { progress = true; continue; }
                // also: decrement the count immediately before the span group
                if(r.begin > 0) {
                    for(int i = 0; i < NCHAN; ++i) t[i] = best[i];
                    bool hit = false;
                    for(uint32_t q = r.begin; q-- > 0 && r.begin - q < 4 && !hit;) {
                        if(best[c][q] == 0) continue;
                        t[c] = best[c]; t[c].erase(t[c].begin() + r.begin, t[c].begin() + std::min<size_t>(r.end, t[c].size()));
                        t[c][q]--; ++runs; hit = try_tape(t, cls, best, spans);
                    }
                    if(hit) { progress = true; continue; }
                }
                ++k;
            }
        }
        // 3. delete / zero blocks
        for(int c = 0; c < NCHAN && !out_of_time(); ++c)
            for(size_t blk : {size_t(16), size_t(8), size_t(4), size_t(2), size_t(1)})
                for(size_t p = 0; p < best[c].size() && !out_of_time(); ) {
                    Tape t[NCHAN]; for(int i = 0; i < NCHAN; ++i) t[i] = best[i];
                    size_t e = std::min(p + blk, t[c].size());
                    t[c].erase(t[c].begin() + p, t[c].begin() + e); ++runs;
                    if(try_tape(t, cls, best, spans)) { progress = true; continue; }
                    bool nz = false; t[c] = best[c]; for(size_t i = p; i < e; ++i) { nz |= t[c][i] != 0; t[c][i] = 0; }
                    if(nz) { ++runs; if(try_tape(t, cls, best, spans)) progress = true; }
                    p += blk;
                }
        // 4. shrink single values
        for(int c = 0; c < NCHAN && !out_of_time(); ++c)
            for(size_t p = 0; p < best[c].size() && !out_of_time(); ++p) {
                for(uint32_t v : {best[c][p] / 2, best[c][p] > 0 ? best[c][p] - 1 : 0u}) {
                    if(p >= best[c].size() || v >= best[c][p]) continue;
                    Tape t[NCHAN]; for(int i = 0; i < NCHAN; ++i) t[i] = best[i];
                    t[c][p] = v; ++runs;
                    if(try_tape(t, cls, best, spans)) { progress = true; --p; break; }
                    if(p >= best[c].size()) break;
                }
            }
    }
    write_replay(out, best, cls.c_str(), 0);
    printf("{\"runs\":%zu,\"choices\":%zu,\"wall\":%.2f}\n", runs, total(best), wall() - t0);
    return 0;
}

// ------------------------------------------------------------------ worker
static uint64_t run_seed(uint64_t vseed, uint64_t idx) {
    uint64_t h = vseed * 0x9e3779b97f4a7c15ull + 77; const char* c = gsim_property; while(*c) mixh(h, (unsigned char)*c++); mixh(h, idx); return h;
}
static int worker(int w, int nw, uint64_t vseed, uint64_t runs, double tlimit, const char* out, const char* vdir, int maxviol, uint64_t dumpmod) {
    std::string base(out);
    FILE* hf = fopen((base + ".hash").c_str(), "wb"); FILE* sf = fopen((base + ".sched").c_str(), "wb"); FILE* df = dumpmod ? fopen((base + ".dump").c_str(), "w") : nullptr;
    double t0 = wall();
    uint64_t done = 0, steps = 0, pre = 0, sutpre = 0, allocs = 0, simns = 0, nontriv = 0, conc = 0; int viol = 0;
    std::map<std::string, uint64_t> probes, faults, classes; uint64_t faulted_runs = 0;
    FILE* f = fopen((base + ".json").c_str(), "w");
    std::string vio = "[";
    std::string errmsg;
    for(uint64_t i = w; i < runs; i += nw) {
        if(wall() - t0 > tlimit) break;
        uint64_t seed = run_seed(vseed, i);
        int st = run_once(seed, nullptr, false);
        ++done; steps += S->steps; pre += S->preempts; sutpre += S->sut_preempts; allocs += S->allocs; simns += S->simns; nontriv += S->nontriv; conc += S->preempts > 0;
        for(int k = 0; k < S->nprobes; ++k) probes[S->probes[k].name] += S->probes[k].n;
        for(int k = 0; k < S->nfaults; ++k) faults[S->faults[k].name] += S->faults[k].n;
        faulted_runs += S->nfaults > 0;
        if(S->nontriv) fwrite(&S->hash, 8, 1, hf);
        if(S->preempts) fwrite(&S->sched_hash, 8, 1, sf);
        if(df) fprintf(df, "%llu %d %016llx %s\n", (unsigned long long)i, st, (unsigned long long)S->hash, S->cls);
        if(st == 3) { errmsg = S->msg; break; }
        if(st == 2) {
            uint64_t h1 = S->hash;
            std::string cls = S->cls;
            if(classes[cls]++ >= 1) continue;       // one replay per class
            Tape t[NCHAN]; grab(t);
            char path[512]; snprintf(path, sizeof path, "%s/raw-%d-%d.replay", vdir, w, viol);
            write_replay(path, t, cls.c_str(), seed);
            run_once(seed, nullptr, false);
            bool same = S->status == 2 && cls == S->cls && S->hash == h1;
            char buf[1200]; snprintf(buf, sizeof buf, "%s{\"index\":%llu,\"seed\":\"%llu\",\"class\":\"%s\",\"replay\":\"%s\",\"same_hash\":%s}", viol ? "," : "", (unsigned long long)i, (unsigned long long)seed, cls.c_str(), path, same ? "true" : "false");
            vio += buf;
            ++viol;
            if(viol >= maxviol) break;
        }
    }
    vio += "]";
    fprintf(f, "{\"runs\":%llu,\"steps\":%llu,\"preemptions\":%llu,\"sut_preemptions\":%llu,\"allocs\":%llu,\"simns\":%llu,\"nontrivial\":%llu,\"preempted_runs\":%llu,\"faulted_runs\":%llu,\"wall\":%.3f,\"error\":", (unsigned long long)done, (unsigned long long)steps, (unsigned long long)pre, (unsigned long long)sutpre, (unsigned long long)allocs, (unsigned long long)simns, (unsigned long long)nontriv, (unsigned long long)conc, (unsigned long long)faulted_runs, wall() - t0);
    jstr(f, errmsg.c_str(), errmsg.size());
    auto pm = [&](const char* n, std::map<std::string, uint64_t>& m) { fprintf(f, ",\"%s\":{", n); bool first = true; for(auto& k : m) { fprintf(f, "%s", first ? "" : ","); jstr(f, k.first.c_str(), k.first.size()); fprintf(f, ":%llu", (unsigned long long)k.second); first = false; } fprintf(f, "}"); };
    pm("probes", probes); pm("faults", faults); pm("classes", classes);
    fprintf(f, ",\"violations\":%s}\n", vio.c_str());
    fclose(f); fclose(hf); fclose(sf); if(df) fclose(df);
    return 0;
}
} // namespace gsim

using namespace gsim;

// ------------------------------------------------------ global new / delete
void* operator new(size_t n) { return rt_new(n, 16, false); }
void* operator new[](size_t n) { return rt_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return rt_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return rt_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return rt_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return rt_new(n, (size_t)a, false); }
void* operator new(size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return rt_new(n, (size_t)a, true); }
void* operator new[](size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { return rt_new(n, (size_t)a, true); }
void operator delete(void* p) noexcept { rt_delete(p); }
void operator delete[](void* p) noexcept { rt_delete(p); }
void operator delete(void* p, size_t) noexcept { rt_delete(p); }
void operator delete[](void* p, size_t) noexcept { rt_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { rt_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { rt_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { rt_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { rt_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { rt_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { rt_delete(p); }

// boost assertion handlers: an assertion of the code under test is a violation
namespace boost {
void assertion_failed(char const* e, char const* fn, char const* file, long line) { const char* b = strrchr(file, '/'); char c[160]; snprintf(c, sizeof c, "assert:%s", b ? b + 1 : file); gsim::fail(c, "assertion failed: %s in %.200s (%s:%ld)", e, fn, file, line); }
void assertion_failed_msg(char const* e, char const* m, char const* fn, char const* file, long line) { const char* b = strrchr(file, '/'); char c[160]; snprintf(c, sizeof c, "assert:%s", b ? b + 1 : file); gsim::fail(c, "assertion failed: %s (%s) in %.200s (%s:%ld)", e, m, fn, file, line); }
}

// --------------------------------------------------------------- tsan hooks
#define PC __builtin_return_address(0)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if(g_sut && ++g_steps > g_budget) over_budget(); }
void __tsan_func_exit() {}
#define RW(N) \
    void __tsan_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_unaligned_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_unaligned_write##N(void* p) { access(p, N, true, PC); } \
    void __tsan_volatile_read##N(void* p) { access(p, N, false, PC); } \
    void __tsan_volatile_write##N(void* p) { access(p, N, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access(p, 8, false, PC); }
void __tsan_read_range(void* p, unsigned long n) { access_range(p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access_range(p, n, true, PC); }
static inline void at_pre(const volatile void* p, size_t n, bool w, void* pc) {
    if(!g_sut) return;
    uintptr_t a = (uintptr_t)p;
    if(++g_steps > g_budget) over_budget();
    if(in_arena(a)) { uint8_t* s = shadow(a); for(size_t i = 0; i < n; ++i) if(s[i] != 1) bad_access(a, n, w, pc, s[i]); }
    if(g_conc && (g_countdown -= 8) <= 0) preempt((uint64_t)pc);
    if(g_conc) { acquire((const void*)p); if(w) release((const void*)p); }
}
#define AT(N, TY) \
    TY __tsan_atomic##N##_load(const volatile TY* p, int) { at_pre(p, sizeof(TY), false, PC); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##N##_store(volatile TY* p, TY v, int) { at_pre(p, sizeof(TY), true, PC); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_exchange(volatile TY* p, TY v, int) { at_pre(p, sizeof(TY), true, PC); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_add(volatile TY* p, TY v, int) { at_pre(p, sizeof(TY), true, PC); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_sub(volatile TY* p, TY v, int) { at_pre(p, sizeof(TY), true, PC); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_and(volatile TY* p, TY v, int) { at_pre(p, sizeof(TY), true, PC); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_or(volatile TY* p, TY v, int) { at_pre(p, sizeof(TY), true, PC); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_xor(volatile TY* p, TY v, int) { at_pre(p, sizeof(TY), true, PC); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_fetch_nand(volatile TY* p, TY v, int) { at_pre(p, sizeof(TY), true, PC); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_strong(volatile TY* p, TY* c, TY v, int, int) { at_pre(p, sizeof(TY), true, PC); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##N##_compare_exchange_weak(volatile TY* p, TY* c, TY v, int, int) { at_pre(p, sizeof(TY), true, PC); return __atomic_compare_exchange_n(p, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    TY __tsan_atomic##N##_compare_exchange_val(volatile TY* p, TY c, TY v, int, int) { at_pre(p, sizeof(TY), true, PC); __atomic_compare_exchange_n(p, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); static int f; if(g_sut && g_conc) { acquire(&f); release(&f); } }
void __tsan_atomic_signal_fence(int) {}

// memory functions called by the instrumented TU
void* __real_memcpy(void*, const void*, size_t); void* __real_memmove(void*, const void*, size_t); void* __real_memset(void*, int, size_t); int __real_memcmp(const void*, const void*, size_t);
void* __wrap_memcpy(void* d, const void* s, size_t n) { if(g_sut) { access_range(s, n, false, PC); access_range(d, n, true, PC); } return __real_memcpy(d, s, n); }
void* __wrap_memmove(void* d, const void* s, size_t n) { if(g_sut) { access_range(s, n, false, PC); access_range(d, n, true, PC); } return __real_memmove(d, s, n); }
void* __wrap_memset(void* d, int c, size_t n) { if(g_sut) access_range(d, n, true, PC); return __real_memset(d, c, n); }
int __wrap_memcmp(const void* a, const void* b, size_t n) { if(g_sut) { access_range(a, n, false, PC); access_range(b, n, false, PC); } return __real_memcmp(a, b, n); }

// memory from outside the simulated heap: fresh memory has no history
static void fresh(const void* p, size_t n) { if(!p || !g_sut || !g_conc || !g_other) return; RtMode r; for(uintptr_t g = (uintptr_t)p & ~7ull; g < (uintptr_t)p + n; g += 8) g_other->erase(g); }
void* __real_malloc(size_t); void* __real_calloc(size_t, size_t); void* __real_realloc(void*, size_t); void* __real___cxa_allocate_exception(size_t);
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); fresh(p, n); return p; }
void* __wrap_calloc(size_t k, size_t n) { void* p = __real_calloc(k, n); fresh(p, k * n); return p; }
void* __wrap_realloc(void* q, size_t n) { void* p = __real_realloc(q, n); fresh(p, n); return p; }
void* __wrap___cxa_allocate_exception(size_t n) noexcept { void* p = __real___cxa_allocate_exception(n); fresh((char*)p - 128, n + 128); return p; }

// locks
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) { return lock_excl(m, false, ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)); }
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) { return lock_excl(m, true, ((m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP)); }
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { return unlock_any(m); }
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m) { return lock_excl(m, false, false); }
int __wrap_pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return lock_excl(m, true, false); }
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m) { return lock_shared(m, false); }
int __wrap_pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return lock_shared(m, true); }
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { return unlock_any(m); }
int __wrap_pthread_spin_lock(pthread_spinlock_t* m) { return lock_excl((void*)m, false, false); }
int __wrap_pthread_spin_trylock(pthread_spinlock_t* m) { return lock_excl((void*)m, true, false); }
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m) { return unlock_any((void*)m); }
int __wrap_pthread_once(pthread_once_t* o, void (*fn)()) {
    static std::map<void*, int>* st;
    for(;;) {
        int s; { RtMode r; if(!st) st = new std::map<void*, int>(); s = (*st)[o]; }
        if(s == 2) { if(g_live && cur) acquire(o); return 0; }
        if(s == 0) break;
        { RtMode r; if(!g_conc) fail("deadlock", "recursive call_once"); cur->blocked = true; cur->wait_on = o; block_until_woken(); }
    }
    { RtMode r; (*st)[o] = 1; }
    try { fn(); } catch(...) { RtMode r; (*st)[o] = 0; wake_waiters(o); throw; }
    { RtMode r; (*st)[o] = 2; wake_waiters(o); }
    if(g_live && cur) release(o);
    return 0;
}
// function-local statics
int __real___cxa_thread_atexit(void (*)(void*), void*, void*);
int __wrap___cxa_thread_atexit(void (*f)(void*), void* obj, void* dso) {
    if(!g_live || !cur) return __real___cxa_thread_atexit(f, obj, dso);
    if(cur->nexits == 64) rt_error("too many thread-local objects");
    cur->exits[cur->nexits++] = Task::Exit{f, obj};
    return 0;
}
int __wrap___cxa_guard_acquire(uint64_t* g) {
    uint8_t* b = (uint8_t*)g;
    if(!g_live || !cur) { if(b[0]) return 0; return 1; }
    for(;;) {
        if(b[0]) { acquire(g); return 0; }
        if(!b[1]) { b[1] = 1 + cur->id; return 1; }
        RtMode r;
        if(b[1] == 1 + cur->id || !g_conc) fail("deadlock", "recursive initialisation of a function-local static");
        cur->blocked = true; cur->wait_on = g; block_until_woken(); g_sut = false;
    }
}
void __wrap___cxa_guard_release(uint64_t* g) { uint8_t* b = (uint8_t*)g; b[1] = 0; b[0] = 1; if(g_live && cur) { release(g); RtMode r; wake_waiters(g); } }
void __wrap___cxa_guard_abort(uint64_t* g) { uint8_t* b = (uint8_t*)g; b[1] = 0; if(g_live && cur) { release(g); RtMode r; wake_waiters(g); } }

// clocks read by the code under test (--wrap on the mangled names)
static int64_t clk(int which) {
    if(!g_clock.enabled) { struct timespec t; syscall(SYS_clock_gettime, which ? CLOCK_MONOTONIC : CLOCK_REALTIME, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
    RtMode r; g_clock.reads++; if(g_clock.on_read) g_clock.on_read();
    int64_t v = which ? g_clock.steady_ns : g_clock.system_ns;
    mixh(g_hash, (uint64_t)v);
    return v;
}
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return clk(0); }
int64_t __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return clk(1); }
int __wrap_clock_gettime(clockid_t id, struct timespec* ts) { int64_t v = clk(id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE ? 0 : 1); ts->tv_sec = v / 1000000000ll; ts->tv_nsec = v % 1000000000ll; return 0; }
int __wrap_gettimeofday(struct timeval* tv, void*) { int64_t v = clk(0); tv->tv_sec = v / 1000000000ll; tv->tv_usec = v % 1000000000ll / 1000; return 0; }
time_t __wrap_time(time_t* o) { time_t t = clk(0) / 1000000000ll; if(o) *o = t; return t; }

#ifdef GSIM_DISK
// The C++ runtime library's file buffers end in these calls; interposed here
// (the executable is linked with -rdynamic) so that nothing reaches the real
// file system while a simulated disk is enabled.
static const int SIMFD = 777;
static FILE* const SIMFILE = (FILE*)0x5151;
static int sim_open(const char* path) {
    int rc = 0; { RtMode r; if(g_disk.on_open) rc = g_disk.on_open(path); }
    if(rc) { errno = rc; return -1; }
    return SIMFD;
}
FILE* fopen64(const char* path, const char* mode) {
    if(g_live && g_disk.enabled) return sim_open(path) < 0 ? nullptr : SIMFILE;
    static FILE* (*real)(const char*, const char*) = nullptr;
    int fl = mode[0] == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
    (void)real;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, path, fl, 0666);
    return fd < 0 ? nullptr : fdopen(fd, mode);
}
FILE* fopen(const char* path, const char* mode) { return fopen64(path, mode); }
ssize_t write(int fd, const void* p, size_t n) {
    if(g_live && fd == SIMFD) {
        long k; { RtMode r; k = g_disk.on_write ? g_disk.on_write(p, n) : (long)n; if(k > 0 && g_disk.content) g_disk.content->append((const char*)p, (size_t)k); }
        if(k < 0) { errno = (int)-k; return -1; }
        return k;
    }
    return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if(g_live && fd == SIMFD) {
        ssize_t t = 0;
        for(int i = 0; i < c; ++i) { if(!v[i].iov_len) continue; ssize_t k = write(fd, v[i].iov_base, v[i].iov_len); if(k < 0) return t ? t : -1; t += k; if((size_t)k < v[i].iov_len) break; }
        return t;
    }
    return syscall(SYS_writev, fd, v, c);
}
int fclose(FILE* f) {
    if(f == SIMFILE) { int rc = 0; { RtMode r; if(g_disk.on_close) rc = g_disk.on_close(); } if(rc) { errno = rc; return EOF; } return 0; }
    fflush(f); return (int)syscall(SYS_close, fileno(f));
}
int fileno(FILE* f) { if(f == SIMFILE) return SIMFD; return f->_fileno; }
#endif
} // extern "C"

int main(int argc, char** argv) {
    std::string cmd = argc > 1 ? argv[1] : "";
    // stable addresses everywhere: no ASLR
    int pers = personality(0xffffffff);
    if(pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("GSIM_NOREEXEC")) {
        setenv("GSIM_NOREEXEC", "1", 1);
        if(personality(pers | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
    }
    map_regions();
    S = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(S == MAP_FAILED) { perror("mmap"); return 3; }
    int core = getenv("GSIM_CPU") ? atoi(getenv("GSIM_CPU")) : -1;
    if(core >= 0) { cpu_set_t cs; CPU_ZERO(&cs); CPU_SET(core, &cs); sched_setaffinity(0, sizeof cs, &cs); }
    if(cmd == "worker" && argc >= 10)
        return worker(atoi(argv[2]), atoi(argv[3]), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10), atof(argv[6]), argv[7], argv[8], atoi(argv[9]), argc > 10 ? atoi(argv[10]) : 0);
    if(cmd == "replay" && argc >= 3) {
        Tape t[NCHAN]; std::string cls;
        if(!read_replay(argv[2], t, cls)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
        run_once(0, t, argc > 3);
        print_result(stdout);
        return S->status == 3 ? 3 : 0;
    }
    if(cmd == "seed" && argc >= 4) { run_once(run_seed(strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10)), nullptr, true); print_result(stdout); return 0; }
    if(cmd == "minimise" && argc >= 5) return minimise(argv[2], argv[3], atof(argv[4]));
    fprintf(stderr, "usage: %s worker|replay|seed|minimise ...\n", argv[0]);
    return 3;
}

// gsim: deterministic simulation of a C++ library inside one process.
// The harness (one translation unit per property) talks to the simulator only
// through this header.  Everything nondeterministic is drawn from the choice
// tapes; one seed (or one replay file) is one exactly repeatable execution.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <new>
#include <string>
#include <vector>

#define GSIM_NOINST __attribute__((no_sanitize("thread")))

namespace gsim {

// ---- choice tapes --------------------------------------------------------
enum Channel { GEN = 0, OP = 1, SCHED = 2, FAULT = 3, ENV = 4, NCHAN = 5 };

// Uniform in [0,n).  0 is always the simplest choice (what a shrunk tape gives).
std::uint64_t choose(Channel ch, std::uint64_t n);
void span_begin(Channel ch);
void span_end(Channel ch);
struct Span {
    Channel ch;
    explicit Span(Channel c) : ch(c) { span_begin(c); }
    ~Span() { span_end(ch); }
};
inline long range(Channel ch, long lo, long hi) { return lo + (long)choose(ch, (std::uint64_t)(hi - lo + 1)); }
// true with probability num/den; a zero choice is false.
inline bool chance(Channel ch, unsigned num, unsigned den) { return choose(ch, den) >= den - num; }

// ---- modes ---------------------------------------------------------------
// HARNESS: nothing is observed, allocations go to malloc.
// SETUP:   allocations go to the simulated heap, nothing else is observed.
// SUT:     code under test runs: every memory access is a step, a possible
//          preemption point, a memory-safety check and (when several tasks are
//          live) a happens-before race check; allocations may be failed.
enum Mode { HARNESS = 0, SETUP = 1, SUT = 2 };
int set_mode(int m);
struct InMode {
    int old;
    explicit InMode(int m) : old(set_mode(m)) {}
    ~InMode() { set_mode(old); }
    InMode(const InMode&) = delete;
    InMode& operator=(const InMode&) = delete;
};
template <class F> auto sut(F&& f) -> decltype(f()) { InMode m(SUT); return f(); }
template <class F> auto setup(F&& f) -> decltype(f()) { InMode m(SETUP); return f(); }
template <class F> auto harness(F&& f) -> decltype(f()) { InMode m(HARNESS); return f(); }

// ---- simulated heap ------------------------------------------------------
// Fail the n-th (1-based) allocation made in SUT mode by the current task from
// now on; sticky: keep failing every later one until disarmed.
void arm_alloc_fault(std::uint64_t n, bool sticky);
bool disarm_alloc_fault();            // true if it fired since it was armed
std::uint64_t sut_allocs();           // SUT-mode allocations so far, this task
std::int64_t live_blocks();           // blocks of the simulated heap now live (SUT-mode ones)
std::int64_t live_bytes();
void* arena_alloc(std::size_t n);     // explicit use (private allocators, buffers)
void arena_free(void* p);
bool arena_contains(const void* p);

// ---- tasks ---------------------------------------------------------------
// Run the bodies as concurrently scheduled tasks; returns when all are done.
// When only one body is given it still runs as a task.
void parallel(const std::vector<std::function<void()>>& bodies);
int task_id();                        // 0 = root
std::uint64_t now_seq();              // global event sequence number (monotone)
std::uint64_t steps();                // SUT memory accesses so far
void yield();                         // explicit preemption point (harness callbacks)
// Per-operation progress bound: SUT steps allowed between op_begin and op_end.
void op_begin(std::uint64_t budget);
void op_end();
std::uint64_t preemptions();

// ---- observations --------------------------------------------------------
[[noreturn]] void fail(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
void probe(const char* name, std::uint64_t n = 1);
void fault(const char* kind, std::uint64_t n = 1);   // a fault of this kind actually fired
void mix(std::uint64_t v);                            // fold an observed result into the run hash
void mixd(double d);
void nontrivial();                                    // mark the run as non-trivial
[[noreturn]] void end_run();                          // finish the run early, no violation

// ---- simulated clock (nanoseconds) ----------------------------------------
struct Clock {
    bool enabled;
    std::int64_t system_ns, steady_ns;
    std::uint64_t reads;
    void (*on_read)();               // harness hook, may move the clock
};
Clock& clock();
void sim_time(std::uint64_t ns);      // account simulated time covered

// ---- simulated disk (write side of files opened by the code under test) ---
struct Disk {
    bool enabled;
    // called per write of n bytes: returns bytes accepted, or -errno
    long (*on_write)(const void* p, std::size_t n);
    int (*on_open)(const char* path); // 0 = ok, else errno
    int (*on_close)();
    std::string* content;             // bytes that reached the simulated disk
};
Disk& disk();

// A check with context that throws away nothing: fails the run.
#define GSIM_CHECK(cond, cls, ...) do { if(!(cond)) { ::gsim::InMode gm_(::gsim::HARNESS); ::gsim::fail(cls, __VA_ARGS__); } } while(0)

} // namespace gsim

// The property under test: name, and one simulated execution.
extern const char* const gsim_property;
void gsim_run();

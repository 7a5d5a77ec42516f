// Shared harness vocabulary: fault plans, guarded attempts, swarm configuration.
#pragma once
#include <gsim.hpp>
#include <algorithm>
#include <cmath>
#include <exception>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <utility>
#include <vector>

namespace hx {
using namespace gsim;

// Swarm switches of one run.
struct Swarm {
    bool alloc_faults = false, throwing_callbacks = false, early_stop = false, reentry = false;
    int tasks = 1;
};
inline Swarm draw_swarm(int max_tasks = 4) {
    Swarm s;
    s.alloc_faults = chance(FAULT, 1, 2);
    s.throwing_callbacks = chance(FAULT, 1, 2);
    s.early_stop = chance(FAULT, 1, 2);
    s.reentry = chance(FAULT, 1, 3);
    s.tasks = 1 + (int)choose(OP, max_tasks);
    return s;
}

// A size: usually at most `usual`, once in a while up to `rare` (size-dependent behaviour: growth, rehashing, deep recursion).
inline long size_upto(Channel ch, long usual, long rare) { return 1 + (long)choose(ch, chance(ch, 1, 32) ? rare : usual); }

// The exception simulated callbacks throw.
struct SimThrow { int tag; };

enum Outcome { DONE = 0, OOM = 1, THREW = 2 };

struct FaultPlan { bool on = false; std::uint64_t n = 0; bool sticky = false; };
inline FaultPlan draw_alloc_plan(bool enabled, unsigned num = 1, unsigned den = 3, unsigned maxpow = 8) {
    FaultPlan p;
    if(!enabled || !chance(FAULT, num, den)) return p;
    p.on = true;
    p.n = 1 + choose(FAULT, 1ull << choose(FAULT, maxpow));
    p.sticky = chance(FAULT, 1, 4);
    return p;
}

// Runs f in SUT mode.  bad_alloc may surface only if a planned fault fired;
// SimThrow only if `may_throw`; anything else escaping is a violation.
template <class F> Outcome attempt(const char* what, F&& f, FaultPlan plan = FaultPlan(), bool may_throw = false, std::uint64_t budget = 20000000) {
    if(plan.on) arm_alloc_fault(plan.n, plan.sticky);
    Outcome out = DONE;
    op_begin(budget);
    try { InMode m(SUT); f(); }
    catch(const std::bad_alloc&) {
        bool fired = disarm_alloc_fault();
        GSIM_CHECK(fired, "unexpected-exception", "%s reported memory exhaustion although no allocation failed", what);
        out = OOM;
    }
    catch(const SimThrow&) {
        GSIM_CHECK(may_throw, "unexpected-exception", "%s let a callback exception escape that was not thrown", what);
        out = THREW;
    }
    catch(const std::exception& e) { GSIM_CHECK(false, "unexpected-exception", "%s threw: %s", what, e.what()); }
    catch(...) { GSIM_CHECK(false, "unexpected-exception", "%s threw an unknown exception", what); }
    op_end();
    if(plan.on) disarm_alloc_fault();
    if(out == OOM) { probe("oom-surfaced"); nontrivial(); }
    if(out == THREW) { probe("callback-exception-surfaced"); nontrivial(); }
    return out;
}

// Builds an object on the simulated heap under an allocation-fault plan; on
// failure checks that nothing leaked and retries without faults.
template <class T, class Make> T* build_with_faults(const char* what, Make&& make, bool faults, std::uint64_t budget = 60000000) {
    for(int tries = 0;; ++tries) {
        FaultPlan plan = tries < 3 ? draw_alloc_plan(faults, 1, 2, 9) : FaultPlan();
        std::int64_t before = live_blocks();
        T* obj = nullptr;
        Outcome o = attempt(what, [&] { obj = make(); }, plan, false, budget);
        if(o == DONE) return obj;
        std::int64_t leaked = live_blocks() - before;
        if(leaked != 0) {
            // a lazily created static is not a leak: the same failure must leak again
            std::int64_t b2 = live_blocks();
            T* obj2 = nullptr;
            Outcome o2 = attempt(what, [&] { obj2 = make(); }, plan, false, budget);
            if(o2 == DONE) return obj2;
            GSIM_CHECK(live_blocks() == b2, "leak-on-failure", "%s failed on allocation %llu and left %lld block(s) allocated", what, (unsigned long long)plan.n, (long long)(live_blocks() - b2));
        }
        log("%s failed cleanly at allocation %llu, retrying", what, (unsigned long long)plan.n);
    }
}
template <class T> void destroy(T* p) { InMode m(SUT); delete p; }

// Integer-lattice coordinate in [-r, r]; biased to few distinct values so that
// ties, collinear and duplicate inputs are common.
inline long lattice(Channel ch, long r) {
    if(r <= 0) return 0;
    long v = (long)choose(ch, 2 * r + 1);
    return (v & 1) ? -((v + 1) / 2) : v / 2;     // 0, -1, 1, -2, 2, ...
}
inline bool close(double a, double b, double tol = 1e-6) { return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b))); }

struct IP { long x, y; };
inline bool operator==(IP a, IP b) { return a.x == b.x && a.y == b.y; }
inline bool operator<(IP a, IP b) { return a.x != b.x ? a.x < b.x : a.y < b.y; }
inline long long cross(IP o, IP a, IP b) { return (long long)(a.x - o.x) * (b.y - o.y) - (long long)(a.y - o.y) * (b.x - o.x); }
} // namespace hx

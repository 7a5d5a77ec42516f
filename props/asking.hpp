// Concurrent questions about shared constant objects: used by the properties on pure geometric queries.
#pragma once
#include <functional>
#include "chains.hpp"
namespace hx {
struct Asked { int what; std::size_t a, b, c, d; FaultPlan plan; };
struct Asking {
    Swarm sw;
    template <class F, class C> Outcome ask(const char* what, const Asked& j, F f, C check, bool may_throw = false) {
        std::int64_t b = sw.tasks == 1 ? live_blocks() : 0;
        Outcome o = attempt(what, f, j.plan, may_throw, 6000000);
        if(sw.tasks == 1) GSIM_CHECK(live_blocks() == b, "leak", "%s left %lld block(s) allocated", what, (long long)(live_blocks() - b));
        if(o == DONE) { check(); log("%s (%zu,%zu,%zu)", what, j.a, j.b, j.c); } else log("%s: %s", what, o == OOM ? "out of memory" : "the callback threw");
        mix(o * 32 + j.what); yield(); return o;
    }
    // Each task asks its own questions, drawn beforehand; one(job) answers and checks one.
    template <class One> void all(int kinds, std::uint32_t allocating, int most, One one) {
        std::vector<std::vector<Asked>> js(sw.tasks);
        for(auto& v : js) { int m = 2 + (int)choose(OP, chance(OP, 1, 48) ? 8 * most : most - 1); for(int i = 0; i < m; ++i) { Span sp(OP); Asked j; j.what = (int)choose(OP, kinds); j.a = choose(OP, 1024); j.b = choose(OP, 1024); j.c = choose(OP, 1024); j.d = choose(OP, 1024); j.plan = draw_alloc_plan(sw.alloc_faults && (allocating >> j.what & 1), 1, 4, 4); v.push_back(j); } }
        std::vector<std::function<void()>> bodies; for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(auto& j : js[t]) one(j); });
        parallel(bodies);
    }
};
} // namespace hx

// Memoised functions: the value of the function, computed once per argument,
// through recursion, exceptions and memory exhaustion.
#include <boost/config.hpp>
#include <map>
#include <string>
#include <boost/container/flat_map.hpp>
#include <geometrix/utility/memoize.hpp>
#include "common.hpp"
const char* const gsim_property = "C19";
using namespace hx;

namespace {
typedef std::tuple<int, int> key;
struct BySum { bool operator()(const key& a, const key& b) const { int s = std::get<0>(a) + std::get<1>(a), t = std::get<0>(b) + std::get<1>(b); return s != t ? s < t : a > b; } };
template <class Cache> struct Sim {
    typedef std::function<std::string(int, int)> fn_t;
    struct St { Cache* cache; fn_t* self = nullptr; std::map<key, int> runs; std::map<key, int> done; int style = 0; int throw_in = 0; int depth = 0; };
    static std::string value(int a, int b) { return "value of " + std::to_string(a) + " and " + std::to_string(b); }
    // the memoised function: recursive on smaller arguments
    static std::string body(St* st, int a, int b) {
        {
            InMode h(HARNESS); ++st->runs[key(a, b)]; ++st->depth;
            GSIM_CHECK(!st->done.count(key(a, b)), "computed-again", "f(%d,%d) was computed again although its value is cached", a, b);
            yield();
            if(st->throw_in && --st->throw_in == 0) { fault("function-throw"); --st->depth; throw SimThrow{1}; }
        }
        struct Leave { St* s; ~Leave() { InMode h(HARNESS); --s->depth; } } leave{st};
        if(st->style >= 1 && a > 0) { std::string s = (*st->self)(a - 1, b); if(st->style == 2 && b > 0) { std::string t = (*st->self)(a, b - 1); t = (*st->self)(a - 1, b - 1); } InMode h(HARNESS); GSIM_CHECK(s == value(a - 1, b), "wrong-value", "the inner value f(%d,%d) is \"%s\"", a - 1, b, s.c_str()); }
        return value_in_sut(a, b);
    }
    static std::string value_in_sut(int a, int b) { return "value of " + std::to_string(a) + " and " + std::to_string(b); }
    void script(int calls, int wide, int style, bool faults, bool throws) {
        St st; st.style = style;
        st.cache = setup([&] { return new Cache(); });
        fn_t* f = setup([&] { St* p = &st; return new fn_t(geometrix::memoize(*st.cache, [p](int a, int b) -> std::string { return body(p, a, b); })); }); st.self = f;
        for(int i = 0; i < calls; ++i) {
            Span sp(OP); int a = (int)choose(OP, wide), b = (int)choose(OP, wide - 1); FaultPlan plan = draw_alloc_plan(faults, 1, 3, 6); st.throw_in = throws && chance(FAULT, 1, 3) ? 1 + (int)choose(FAULT, 5) : 0;
            fn_t* use = f; fn_t* copy = nullptr; if(chance(OP, 1, 4)) { copy = setup([&] { return new fn_t(*f); }); use = copy; }   // a copy shares the cache
            std::string* got = setup([&] { return new std::string(); }); bool had = st.done.count(key(a, b)) != 0; bool thr = st.throw_in != 0;
            Outcome o = attempt("a memoised call", [&] { *got = (*use)(a, b); }, plan, thr); st.throw_in = 0;
            if(o == DONE) GSIM_CHECK(*got == value(a, b), "wrong-value", "f(%d,%d) gave \"%s\"", a, b, got->c_str());
            if(o == THREW) GSIM_CHECK(!had, "computed-again", "f(%d,%d) threw although its value is cached", a, b);
            // what is cached now: every key must hold its value, and an evaluation that failed must not be there
            std::vector<std::pair<key, std::string>> all; attempt("reading the cache", [&] { for(auto& kv : *st.cache) { InMode h(HARNESS); all.push_back({kv.first, std::string(kv.second.data(), kv.second.size())}); } });
            for(auto& kv : st.done) { bool in = false; for(auto& c : all) in = in || c.first == kv.first; GSIM_CHECK(in, "forgotten", "f(%d,%d) is no longer cached", std::get<0>(kv.first), std::get<1>(kv.first)); }
            for(auto& c : all) { GSIM_CHECK(c.second == value(std::get<0>(c.first), std::get<1>(c.first)), "wrong-cache", "the cache holds \"%s\" for f(%d,%d)", c.second.c_str(), std::get<0>(c.first), std::get<1>(c.first)); GSIM_CHECK(st.runs.count(c.first), "phantom-key", "the cache holds a key that was never computed"); st.done[c.first] = 1; }
            if(o == DONE) GSIM_CHECK(st.done.count(key(a, b)), "not-cached", "f(%d,%d) returned and is not cached", a, b);
            log("f(%d,%d) -> %s, %zu cached%s", a, b, o == DONE ? "value" : o == OOM ? "out of memory" : "exception", all.size(), had ? " (hit)" : ""); mix(all.size());
            if(had && o == DONE) probe("hit"); if(all.size() > 3) nontrivial();
            setup([&] { delete got; delete copy; });
        }
        setup([&] { delete f; }); destroy(st.cache);
    }
    void run() {
        Swarm sw = draw_swarm(3); std::int64_t base = live_blocks(); int style = (int)choose(OP, 3), calls = 2 + (int)choose(OP, 10), wide = 5; if(chance(OP, 1, 40)) { calls = 2 + (int)choose(OP, 60); wide = 16; probe("many-arguments"); }
        log("%s", style == 0 ? "a plain function" : style == 1 ? "a recursive function" : "a doubly recursive function");
        if(style) probe("recursive");
        std::vector<std::function<void()>> bodies; for(int t = 0; t < sw.tasks; ++t) bodies.push_back([this, calls, wide, style, sw] { script(calls, wide, style, sw.alloc_faults, sw.throwing_callbacks); });
        parallel(bodies);
        GSIM_CHECK(live_blocks() <= base, "leak", "%lld blocks still allocated at the end", (long long)(live_blocks() - base));
    }
};
} // namespace
void gsim_run() {
    switch(choose(GEN, 4)) {
    case 0: { log("ordered map"); Sim<std::map<key, std::string>> s; s.run(); break; }
    case 1: { log("flat map"); Sim<boost::container::flat_map<key, std::string>> s; s.run(); break; }
    case 2: { log("map in falling order"); probe("own-order"); Sim<std::map<key, std::string, std::greater<key>>> s; s.run(); break; }
    default: { log("flat map in an order of its own"); probe("own-order"); Sim<boost::container::flat_map<key, std::string, BySum>> s; s.run(); }
    }
}

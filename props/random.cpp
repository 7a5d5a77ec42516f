// Random generators: documented ranges, repeatable and independent streams,
// through copies, moves and reseeding, with an engine the simulator controls.
#include <boost/config.hpp>
#include <boost/range.hpp>
#include <boost/range/iterator_range.hpp>
#include <boost/random.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/utility/random_generator.hpp>
#include <geometrix/utility/golden_ratio_color_generator.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
#include "common.hpp"
const char* const gsim_property = "C18";
using namespace hx;
using namespace geometrix;

namespace {
// An engine whose numbers are the simulator's choice; its state is its position
// on a tape of the simulator, so that copies continue independently.
struct sim_engine {
    typedef std::uint32_t result_type;
    static BOOST_CONSTEXPR const bool has_fixed_range = false;
    std::uint64_t state;
    static result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; }
    static result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0xffffffffu; }
    explicit sim_engine(unsigned long s = 42) : state(s) {}
    void seed(unsigned long s) { state = s; }
    result_type operator()() { state = state * 6364136223846793005ull + 1442695040888963407ull; std::uint64_t z = state ^ (state >> 31); std::uint32_t r = (std::uint32_t)(z >> 16); if((r & 7) < 2) { InMode h(HARNESS); fault((r & 7) ? "engine-lowest" : "engine-highest"); return (r & 7) ? 0 : 0xffffffffu; } return r; }   // the ends of the range come up often
};
struct Lim { std::size_t n = 1; double r = 1; };
template <class Gen> struct Traits;
template <class E> struct Traits<random_index_generator<E>> { typedef random_index_generator<E> G; static G* make(const Lim& l, unsigned long s, bool from_engine) { if(from_engine) { E e(s); return new G(l.n, e); } return new G(l.n, s); } static double get(G& g, const Lim&) { return (double)g(); } static double top(const Lim& l) { return (double)l.n; } static const char* name() { return "index"; } };
template <class E> struct Traits<random_real_generator<E>> { typedef random_real_generator<E> G; static G* make(const Lim& l, unsigned long s, bool) { return new G(l.r, s); } static double get(G& g, const Lim&) { return g(); } static double top(const Lim& l) { return l.r; } static const char* name() { return "real"; } };
template <class E> struct Traits<random_integer_generator<E>> { typedef random_integer_generator<E> G; static G* make(const Lim&, unsigned long s, bool) { return new G(s); } static double get(G& g, const Lim& l) { return (double)g(l.n); } static double top(const Lim& l) { return (double)l.n; } static const char* name() { return "integer"; } };

template <class Gen> struct Sim {
    typedef Traits<Gen> T; Lim lim;
    struct Slot { Gen* g = nullptr; unsigned long seed = 0; std::size_t drawn = 0; };
    // the stream of a generator with this seed that nothing else ever touched
    std::vector<double> reference(unsigned long seed, std::size_t k) { std::vector<double> r; Gen* g = setup([&] { return T::make(lim, seed, false); }); for(std::size_t i = 0; i < k; ++i) r.push_back(sut([&] { return T::get(*g, lim); })); setup([&] { delete g; }); return r; }
    void draw_from(Slot& s, const std::vector<double>& ref) {
        double v = -1; attempt("drawing", [&] { v = T::get(*s.g, lim); });
        mixd(v);
        GSIM_CHECK(v >= 0 && v < T::top(lim), "out-of-range", "the %s generator for [0,%g) returned %.17g", T::name(), T::top(lim), v);
        if(s.drawn < ref.size()) GSIM_CHECK(v == ref[s.drawn], "not-repeatable", "draw %zu of a %s generator with seed %lu is %.17g, a fresh one gives %.17g", s.drawn, T::name(), s.seed, v, ref[s.drawn]);
        ++s.drawn;
    }
    void script(int ops) {
        std::vector<Slot> s(3); std::map<unsigned long, std::vector<double>> refs;
        for(int i = 0; i < ops; ++i) {
            Span sp(OP); int kind = (int)choose(OP, 6); Slot& a = s[choose(OP, 3)]; Slot& b = s[choose(OP, 3)]; unsigned long seed = 1 + choose(OP, 3);
            if(!refs.count(seed)) refs[seed] = reference(seed, 40);
            switch(kind) {
            case 0: if(a.g) destroy(a.g); { Gen* made = nullptr; bool eng = chance(OP, 1, 2); attempt("construction", [&] { made = T::make(lim, seed, eng); }); a.g = made; } a.seed = seed; a.drawn = 0; break;
            case 1: case 2: if(a.g) { int k = 1 + (int)choose(OP, 5); for(int j = 0; j < k; ++j) { draw_from(a, refs[a.seed]); yield(); } if(a.drawn > 3) nontrivial(); } break;
            case 3: if(a.g && &a != &b) { if(b.g) destroy(b.g); Gen* made = nullptr; attempt("copying", [&] { made = new Gen(*a.g); }); b.g = made; b.seed = a.seed; b.drawn = a.drawn; probe("copied"); if(chance(OP, 1, 3)) { destroy(a.g); a.g = nullptr; probe("original-gone"); } } break;
            case 4: if(a.g) { attempt("reseeding", [&] { a.g->seed(seed); }); a.seed = seed; a.drawn = 0; probe("reseeded"); } break;
            default: if(a.g) { int k = 1 + (int)choose(OP, 3); for(int j = 0; j < k; ++j) draw_from(a, refs[a.seed]); } break;
            }
        }
        for(auto& x : s) if(x.g) destroy(x.g);
    }
    void run() {
        lim.n = 1 + choose(GEN, chance(GEN, 1, 3) ? 1000 : 5); if(chance(GEN, 1, 16)) { lim.n = (std::size_t(1) << (10 + choose(GEN, 40))) + choose(GEN, 3) - 1; probe("wide-range"); } { static const double R[] = {1.0, 0.5, 0.001, 2.5, 1e-300, 3.0, 1e9, 100.25}; lim.r = R[choose(GEN, 8)]; } int tasks = 1 + (int)choose(OP, 3); int ops = 2 + (int)size_upto(OP, 20, 200);
        log("%s generators for [0,%g)", T::name(), T::top(lim)); std::int64_t base = live_blocks();
        std::vector<std::function<void()>> bodies; for(int t = 0; t < tasks; ++t) bodies.push_back([this, ops] { script(ops); });
        parallel(bodies);
        GSIM_CHECK(live_blocks() <= base, "leak", "%lld blocks still allocated at the end", (long long)(live_blocks() - base));
    }
};
template <class E> void elements() {
    int n = 1 + (int)choose(GEN, 8); std::vector<int>* v = setup([&] { auto* p = new std::vector<int>(); for(int i = 0; i < n; ++i) p->push_back(i * 10); return p; });
    random_index_generator<E>* g = setup([&] { return new random_index_generator<E>(v->size(), (unsigned long)choose(OP, 50)); });
    int* f = v->data(); std::set<long> seen;
    for(int i = 0; i < 60; ++i) { long at = -1; attempt("random_element", [&] { const boost::iterator_range<int*> r(f, f + n); const std::vector<int>& cv = *v; if(i % 3 == 0) { int* it = random_element(r, *g); at = it - f; } else if(i % 3 == 1) at = random_element(*v, *g) - v->begin(); else at = random_element(cv, *g) - cv.begin(); }); mix((std::uint64_t)at); GSIM_CHECK(at >= 0 && at < n, "past-the-end", "random_element of %d elements returned position %ld", n, at); seen.insert(at); }
    GSIM_CHECK(n < 3 || seen.size() > 1, "never-varies", "60 random elements of %d were all the same", n); if(n > 1) nontrivial(); probe("elements");
    // a partition chosen at random is one of them, the same one for the same engine
    for(int i = 0; i < 4; ++i) {
        unsigned long seed = (unsigned long)choose(OP, 50); long at = -1, again = -2; attempt("random_partition_selector_policy", [&] { partition_policies::random_partition_selector_policy<E> pick{E(seed)}, other{E(seed)}; at = pick(*v) - v->begin(); again = other(*v) - v->begin(); }); mix((std::uint64_t)at);
        GSIM_CHECK(at >= 0 && at < n, "past-the-end", "a partition chosen of %d is the one at %ld", n, at); GSIM_CHECK(at == again, "not-repeatable", "two selectors with equal engines chose partitions %ld and %ld", at, again); probe("partition");
    }
    setup([&] { delete g; delete v; });
}
// Colours: any hue keeps saturation and value; a palette is all of them, or nothing when memory runs out.
void colour(const char* what, const argb_tuple& c, double h, double s, double v) {
    const int k[3] = {std::get<1>(c), std::get<2>(c), std::get<3>(c)}; int hi = std::max(k[0], std::max(k[1], k[2])), lo = std::min(k[0], std::min(k[1], k[2])); mix(hi * 256 + lo);
    GSIM_CHECK(std::get<0>(c) == 255 && std::fabs(hi - 255 * v) <= 1.001 && std::fabs(lo - 255 * v * (1 - s)) <= 1.001, "wrong-colour", "%s: (%d,%d,%d) of opacity %d for saturation %g and value %g", what, k[0], k[1], k[2], (int)std::get<0>(c), s, v);
    if(h < 0) return;
    for(int i = 0; i < 3; ++i) { static const double at[] = {0, 2, 4}; double d = std::fabs(h * 6 - at[i]); d = std::min(d, 6 - d); double w = d <= 1 ? 1 : d >= 2 ? 0 : 2 - d; w = 1 - s + s * w; GSIM_CHECK(std::fabs(k[i] - 255 * v * w) <= 1.01, "wrong-colour", "%s: hue %g, saturation %g, value %g is (%d,%d,%d), channel %d should be %g", what, h, s, v, k[0], k[1], k[2], i, 255 * v * w); }
}
void colours() {
    Swarm sw = draw_swarm(3); std::vector<std::function<void()>> bodies;
    for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&] {
        int m = 2 + (int)choose(OP, 6);
        for(int i = 0; i < m; ++i) {
            Span sp(OP); float h = (float)choose(OP, 1537) / 1536, s = (float)choose(OP, 101) / 100, v = (float)choose(OP, 101) / 100; if(chance(OP, 1, 8)) h = std::nextafter(1.f, 0.f); int n = (int)choose(OP, 40);
            argb_tuple c; attempt("hsv2rgb", [&] { c = hsv2rgb(h, s, v); }); colour("hsv2rgb", c, h, s, v); nontrivial(); yield();
            std::vector<argb_tuple> all; Outcome o = attempt("generate_colors", [&] { auto r = generate_colors(n, s, v); InMode hm(HARNESS); all.assign(r.begin(), r.end()); }, draw_alloc_plan(sw.alloc_faults, 1, 3, 3), false, 2000000);
            if(o == DONE) { GSIM_CHECK((int)all.size() == n, "wrong-size", "%zu colours instead of %d", all.size(), n); for(auto& e : all) colour("generate_colors", e, -1, s, v); probe("palette"); } else probe("oom-surfaced"); yield();
        }
    });
    std::int64_t base = live_blocks(); parallel(bodies); GSIM_CHECK(live_blocks() <= base, "leak", "%lld blocks still allocated at the end", (long long)(live_blocks() - base));
}
} // namespace
void gsim_run() {
    if(chance(GEN, 1, 12)) { colours(); return; }
    bool sim = chance(GEN, 1, 2);
    switch(choose(GEN, 4)) {
    case 0: if(sim) { Sim<random_index_generator<sim_engine>> s; s.run(); } else { Sim<random_index_generator<boost::mt19937>> s; s.run(); } break;
    case 1: if(sim) { Sim<random_real_generator<sim_engine>> s; s.run(); } else { Sim<random_real_generator<boost::mt19937>> s; s.run(); } break;
    case 2: if(sim) { Sim<random_integer_generator<sim_engine>> s; s.run(); } else { Sim<random_integer_generator<boost::mt19937>> s; s.run(); } break;
    default: if(sim) elements<sim_engine>(); else elements<boost::mt19937>();
    }
}

// Range search of the k-d tree: exact, each point once, under any partitioning,
// visitor interruption, allocation failure and concurrent searches.
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/kd_tree.hpp>
#include <geometrix/algorithm/median_partitioning_strategy.hpp>
#include "common.hpp"

const char* const gsim_property = "C01";
using namespace hx;
using namespace geometrix;

namespace {
// A partition strategy whose split index is the simulator's choice: any index
// is legal as long as everything left of it is <= and right of it is >=.
struct sim_partition {
    template <std::size_t D, typename Seq, typename Cmp> std::size_t partition(Seq& s, const Cmp&) const {
        InMode h(HARNESS);
        std::size_t n = s.size();
        std::size_t k = 1 + choose(OP, n - 1);
        std::nth_element(s.begin(), s.begin() + k, s.end(), [](const typename Seq::value_type& a, const typename Seq::value_type& b) { return get<D>(a) < get<D>(b); });
        return k;
    }
};

template <class P, int D> struct Dim;
template <> struct Dim<point_double_2d, 2> { static point_double_2d mk(const long* c) { return point_double_2d(c[0], c[1]); } static void un(const point_double_2d& p, double* o) { o[0] = get<0>(p); o[1] = get<1>(p); } };
template <> struct Dim<point_double_3d, 3> { static point_double_3d mk(const long* c) { return point_double_3d(c[0], c[1], c[2]); } static void un(const point_double_3d& p, double* o) { o[0] = get<0>(p); o[1] = get<1>(p); o[2] = get<2>(p); } };

template <int D> struct Query { long lo[D], hi[D]; long stop_at; bool reenter; FaultPlan plan; };

template <class P, int D> struct Sim {
    typedef kd_tree<P> tree_t;
    typedef std::vector<double> key;
    std::vector<std::array<long, D>> pts;
    tree_t* tree = nullptr;
    absolute_tolerance_comparison_policy<double> cmp{1e-9};

    std::multiset<std::array<double, D>> expect(const Query<D>& q) const {
        std::multiset<std::array<double, D>> r;
        for(auto& p : pts) { bool in = true; for(int i = 0; i < D; ++i) in = in && q.lo[i] <= p[i] && p[i] <= q.hi[i]; if(in) { std::array<double, D> k; for(int i = 0; i < D; ++i) k[i] = p[i]; r.insert(k); } }
        return r;
    }
    struct Visitor {
        Sim* s; const Query<D>* q; std::multiset<std::array<double, D>>* seen; long* count; int depth; bool throws;
        void operator()(const P& p) {
            InMode h(HARNESS);
            std::array<double, D> k; Dim<P, D>::un(p, k.data());
            seen->insert(k);
            long c = ++*count;
            yield();
            if(q->reenter && depth == 0 && c == 1) s->search(*q, 1, false);
            if(throws && c == q->stop_at) { fault("visitor-throw"); throw SimThrow{1}; }
        }
    };
    void search(const Query<D>& q, int depth, bool throws) {
        std::multiset<std::array<double, D>> seen, want = expect(q);
        long count = 0;
        Visitor v{this, &q, &seen, &count, depth, throws};
        axis_aligned_bounding_box<P> box(Dim<P, D>::mk(q.lo), Dim<P, D>::mk(q.hi));
        Outcome o = DONE;
        if(depth == 0) o = attempt("range search", [&] { tree->search(box, v, cmp); }, FaultPlan(), throws);
        else { InMode m(SUT); tree->search(box, v, cmp); }
        mix(count);
        std::string qs; for(int i = 0; i < D; ++i) qs += "[" + std::to_string(q.lo[i]) + "," + std::to_string(q.hi[i]) + "]";
        log("search %s -> %ld visited, %zu expected%s", qs.c_str(), count, want.size(), o == THREW ? " (visitor threw)" : "");
        for(auto& k : seen) {
            GSIM_CHECK(want.count(k), "visited-outside", "search %s of %zu points visited a point outside the range: (%g,%g%s)", qs.c_str(), pts.size(), k[0], k[1], D == 3 ? ",.." : "");
            GSIM_CHECK(seen.count(k) <= want.count(k), "visited-twice", "search %s of %zu points visited (%g,%g%s) more often than it was stored", qs.c_str(), pts.size(), k[0], k[1], D == 3 ? ",.." : "");
        }
        if(o == DONE) {
            GSIM_CHECK(seen.size() == want.size(), "missed-point", "search %s of %zu points visited %zu of %zu points in range", qs.c_str(), pts.size(), seen.size(), want.size());
            GSIM_CHECK(!throws || q.stop_at > (long)want.size() || q.stop_at <= 0, "exception-swallowed", "the exception thrown by the visitor did not reach the caller");
            if(!want.empty() && want.size() < pts.size()) nontrivial();
        }
    }
    Query<D> draw(long r, const Swarm& sw) {
        Span sp(OP); Query<D> q;
        for(int i = 0; i < D; ++i) { long a = lattice(OP, r + 1), b = lattice(OP, r + 1); q.lo[i] = std::min(a, b); q.hi[i] = std::max(a, b); }
        q.reenter = sw.reentry && chance(FAULT, 1, 4);
        q.stop_at = sw.throwing_callbacks && chance(FAULT, 1, 3) ? 1 + (long)choose(FAULT, 6) : 0;
        return q;
    }
    void run() {
        Swarm sw = draw_swarm();
        long r = size_upto(GEN, 12, 60);
        int n = (int)size_upto(GEN, chance(GEN, 1, 3) ? 60 : 14, 500); if(chance(GEN, 1, 60)) { n = 0; probe("no-points"); }
        for(int i = 0; i < n; ++i) { Span sp(GEN); std::array<long, D> a; for(int k = 0; k < D; ++k) a[k] = lattice(GEN, r); pts.push_back(a); }
        bool simpart = chance(OP, 1, 3);
        std::vector<P>* in = setup([&] { auto* v = new std::vector<P>(); for(auto& p : pts) v->push_back(Dim<P, D>::mk(p.data())); return v; });
        log("build over %d points in [-%ld,%ld]^%d, %s partition", n, r, r, D, simpart ? "simulator-chosen" : "median");
        for(auto& p : pts) log("  point %ld %ld %ld", p[0], p[1], D == 3 ? p[D - 1] : 0);
        std::int64_t base = live_blocks();
        tree = build_with_faults<tree_t>("tree construction", [&] { return simpart ? new tree_t(*in, cmp, sim_partition()) : new tree_t(*in, cmp, median_partitioning_strategy()); }, sw.alloc_faults);
        for(std::size_t i = 0; i < pts.size(); ++i) { double c[3]; Dim<P, D>::un((*in)[i], c); for(int k = 0; k < D; ++k) GSIM_CHECK(c[k] == pts[i][k], "input-modified", "the caller's point sequence was modified by construction"); }
        // the tree must not depend on the caller's sequence after construction
        setup([&] { delete in; });
        std::vector<std::function<void()>> bodies;
        std::vector<std::vector<Query<D>>> qs(sw.tasks);
        for(int t = 0; t < sw.tasks; ++t) { Span sp(OP); int k = 1 + (int)choose(OP, 4); for(int i = 0; i < k; ++i) qs[t].push_back(draw(r, sw)); }
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] {
            for(auto& q : qs[t]) { if(q.stop_at) search(q, 0, true); search(q, 0, false); }
        });
        parallel(bodies);
        destroy(tree);
        if(live_blocks() != base) { probe("blocks-after-destroy"); GSIM_CHECK(live_blocks() <= base, "leak", "%lld blocks still allocated after the tree was destroyed", (long long)(live_blocks() - base)); }
    }
};
} // namespace

void gsim_run() {
    if(choose(GEN, 3) < 2) { Sim<point_double_2d, 2> s; s.run(); }
    else { Sim<point_double_3d, 3> s; s.run(); }
}

// Solid-leaf BSP tree: point classification (C02), ray and distance queries (C03).
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/algorithm/solid_leaf_bsp_tree.hpp>
#include <geometrix/algorithm/hyperplane_partition_policies.hpp>
#include "geo.hpp"

#ifdef PROP_C02
const char* const gsim_property = "C02";
#else
const char* const gsim_property = "C03";
#endif
using namespace hx;
using namespace geometrix;

namespace {
typedef point_double_2d P; typedef vector_double_2d V; typedef segment<P> seg;
typedef solid_leaf_bsp_tree<seg> tree_t;
typedef absolute_tolerance_comparison_policy<double> cmp_t;

// Any not yet used simplex may become the next dividing plane: the simulator
// chooses (first / last / random / best of a few), per call.
struct sim_selector {
    int mode;
    template <typename R> typename boost::range_iterator<R>::type operator()(R& r, boost::dynamic_bitset<>& used) const {
        std::size_t pick = used.size();
        {
            InMode h(HARNESS);
            std::vector<std::size_t> u; for(std::size_t i = 0; i < used.size(); ++i) if(!used[i]) u.push_back(i);
            if(!u.empty()) pick = mode == 0 ? u.back() : u[choose(OP, u.size())];
        }
        if(pick == used.size()) return boost::end(r);
        used.set(pick);
        return boost::begin(r) + pick;
    }
};
struct Query { long x8, y8; int kind; double dx, dy; std::size_t stale; };   // coordinates in eighths

struct Sim {
    Solid s; std::vector<ISeg> s8; tree_t* tree = nullptr; cmp_t cmp{1e-10}; bool inverted = false;

    // Solid lies on the right of every edge handed to the tree; in an inverted
    // run the drawn region is the empty space and everything around it is solid.
    Where where(const Query& q) const { Where w = hx::classify(IP{q.x8, q.y8}, s8); return w == BORDER ? w : (w == INSIDE) != inverted ? INSIDE : OUTSIDE; }

    void point_query(const Query& q) {
        Where want = where(q);
        P pt(q.x8 / 8.0, q.y8 / 8.0);
        point_in_solid_classification got;
        attempt("point classification", [&] { got = tree->point_in_solid_space(pt, cmp); });
        mix((unsigned)got + 7);
        log("classify (%g,%g) -> %d, expected %d", q.x8 / 8.0, q.y8 / 8.0, (int)got, (int)want);
        GSIM_CHECK((int)got == (int)want, want == BORDER ? "boundary-misclassified" : "misclassified", "point (%g,%g) is %s but was classified %s", q.x8 / 8.0, q.y8 / 8.0,
                   want == INSIDE ? "inside the solid" : want == OUTSIDE ? "outside the solid" : "on its boundary", (int)got == -1 ? "inside" : (int)got == 1 ? "outside" : "on the boundary");
        probe(want == INSIDE ? "inside" : want == OUTSIDE ? "outside" : "boundary");
    }
    // exact enough: crossing parameter of the ray with each edge, in doubles; the
    // query is skipped unless every decision has a comfortable margin
    bool ray_oracle(const Query& q, bool& hit, double& t, std::set<unsigned>& ids) {
        double px = q.x8 / 8.0, py = q.y8 / 8.0; hit = false; t = 1e300; const double M = 1e-5;
        std::vector<std::pair<double, unsigned>> xs;
        for(unsigned i = 0; i < s.edges.size(); ++i) {
            double ax = s.edges[i].a.x - px, ay = s.edges[i].a.y - py, bx = s.edges[i].b.x - px, by = s.edges[i].b.y - py;
            double ca = q.dx * ay - q.dy * ax, cb = q.dx * by - q.dy * bx;     // side of the ray's line
            double fa = q.dx * ax + q.dy * ay, fb = q.dx * bx + q.dy * by;
            if(std::max(fa, fb) < -M && true) continue;                        // behind
            if(std::fabs(ca) < M || std::fabs(cb) < M) return false;           // through a vertex or along an edge
            if((ca > 0) == (cb > 0)) continue;
            double w = ca / (ca - cb); double tt = fa + w * (fb - fa);
            if(std::fabs(tt) < M) return false;
            if(tt > 0) xs.push_back({tt, i});
        }
        std::sort(xs.begin(), xs.end());
        if(!xs.empty()) { hit = true; t = xs[0].first; for(auto& x : xs) if(x.first - t < M) ids.insert(x.second); }
        return true;
    }
    void ray_query(const Query& q) {
        Where w = where(q);
        if(w == BORDER) return;
        bool hit; double t; std::set<unsigned> ids;
        if(!ray_oracle(q, hit, t, ids)) { probe("ray-skipped-degenerate"); return; }
        P pt(q.x8 / 8.0, q.y8 / 8.0); V d(q.dx, q.dy);
        solid_bsp_ray_tracing_result<double> r, rb;
        attempt("ray query", [&] { r = tree->ray_intersection(pt, d, cmp); });
        attempt("border ray query", [&] { rb = tree->ray_intersection_only_border(pt, d, cmp); });
        mix(r.is_intersecting()); mix(r.get_data());
        log("ray from (%g,%g)%s along (%g,%g): hit=%d t=%g id=%d; border hit=%d t=%g id=%d; expected border hit=%d t=%g", pt[0], pt[1], w == INSIDE ? " inside" : "", q.dx, q.dy, r.is_intersecting(), r.is_intersecting() ? r.intersection_distance() : 0, (int)r.get_data(), rb.is_intersecting(), rb.is_intersecting() ? rb.intersection_distance() : 0, (int)rb.get_data(), hit, hit ? t : 0);
        if(w == INSIDE) {
            GSIM_CHECK(r.is_intersecting() && r.intersection_distance() == 0, "ray-inside", "a ray starting inside the solid must hit at distance 0, got hit=%d t=%g", r.is_intersecting(), r.intersection_distance());
            probe("ray-inside");
        } else check_hit("ray", r, hit, t, ids);
        check_hit(w == INSIDE ? "border-ray-from-inside" : "border-ray", rb, hit, t, ids);
        probe(hit ? "ray-hit" : "ray-miss");
    }
    void check_hit(const char* what, const solid_bsp_ray_tracing_result<double>& r, bool hit, double t, const std::set<unsigned>& ids) {
        std::string c(what);
        GSIM_CHECK(r.is_intersecting() == hit, (c + (hit ? "-missed" : "-phantom")).c_str(), "%s: reported %s", what, hit ? "no hit although an edge is crossed" : "a hit although no edge is crossed");
        if(!hit) return;
        GSIM_CHECK(close(r.intersection_distance(), t), (c + "-distance").c_str(), "%s: distance %.12g, the first crossing is at %.12g", what, r.intersection_distance(), t);
        GSIM_CHECK(ids.count(r.get_data()), (c + "-simplex").c_str(), "%s: reported edge %d, the first crossed edge is %u", what, (int)r.get_data(), *ids.begin());
    }
    void distance_query(const Query& q) {
        P pt(q.x8 / 8.0, q.y8 / 8.0); double best = 1e300;
        for(auto& e : s.edges) best = std::min(best, seg_dist(pt[0], pt[1], e));
        std::size_t i1 = q.stale, i2 = q.stale; double d2 = 0, d = 0;   // out parameters, whatever they held before
        attempt("squared distance query", [&] { d2 = tree->get_min_distance_sqrd_to_solid(pt, i1, cmp); });
        attempt("distance query", [&] { d = tree->get_min_distance_to_solid(pt, i2, cmp); });
        mixd(d2);
        log("distance (%g,%g) -> %.10g edge %zu, expected %.10g", pt[0], pt[1], d, i1, best);
        GSIM_CHECK(std::fabs(d - best) <= 1e-6 * std::max(1.0, best) && std::fabs(std::sqrt(d2) - best) <= 1e-6 * std::max(1.0, best), "distance", "distance from (%g,%g): got %.12g and sqrt(%.12g), nearest edge is at %.12g", pt[0], pt[1], d, d2, best);
        for(std::size_t i : {i1, i2}) {
            GSIM_CHECK(i < s.edges.size(), "distance-simplex", "no nearest edge was reported");
            GSIM_CHECK(std::fabs(seg_dist(pt[0], pt[1], s.edges[i]) - best) <= 1e-6 * std::max(1.0, best), "distance-simplex", "edge %zu reported as nearest to (%g,%g) is at distance %.12g, the nearest is at %.12g", i, pt[0], pt[1], seg_dist(pt[0], pt[1], s.edges[i]), best);
        }
        probe("distance");
    }
    Query draw() {
        Span sp(OP); Query q;
        q.kind = (int)choose(OP, 4);
        int how = (int)choose(OP, 4);
        long w = s.hi_x - s.lo_x, h = s.hi_y - s.lo_y;
        if(how == 0 || s.edges.empty()) { q.x8 = 8 * s.lo_x - 16 + (long)choose(OP, 8 * w + 33); q.y8 = 8 * s.lo_y - 16 + (long)choose(OP, 8 * h + 33); }
        else if(how == 1) { q.x8 = 8 * (s.lo_x - 1 + (long)choose(OP, w + 3)); q.y8 = 8 * (s.lo_y - 1 + (long)choose(OP, h + 3)); }
        else {  // on the supporting line of some edge: a vertex, the midpoint, or beyond
            ISeg e = s.edges[choose(OP, s.edges.size())]; long k = (long)choose(OP, 33) - 12;   // eighths along the edge
            q.x8 = 8 * e.a.x + k * (e.b.x - e.a.x); q.y8 = 8 * e.a.y + k * (e.b.y - e.a.y);
        }
        long dx = lattice(OP, 9), dy = lattice(OP, 9); if(!dx && !dy) dx = 1;
        double l = std::hypot((double)dx, (double)dy); q.dx = dx / l; q.dy = dy / l;
        q.stale = chance(OP, 1, 2) ? 12345678 : choose(OP, s.edges.size() + 1);
        return q;
    }
    void one(const Query& q) {
#ifdef PROP_C02
        if(q.kind < 2) point_query(q); else distance_query(q);
#else
        ray_query(q);
#endif
    }
    void run() {
        Swarm sw = draw_swarm();
        s = draw_solid(GEN); inverted = chance(GEN, 1, 3);
        if(!inverted) for(auto& e : s.edges) std::swap(e.a, e.b);
        s8 = scaled(s.edges, 8);
        int sel = (int)choose(OP, 4);
        log("%s%s with %zu edges, selector %s", inverted ? "room in solid: " : "solid: ", s.kind, s.edges.size(), sel == 0 ? "autopartition" : sel == 1 ? "scored" : sel == 2 ? "last" : "random");
        for(auto& e : s.edges) log("  edge (%ld,%ld)-(%ld,%ld)", e.a.x, e.a.y, e.b.x, e.b.y);
        auto* in = setup([&] { auto* v = new std::vector<seg>(); for(auto& e : s.edges) v->push_back(seg(P(e.a.x, e.a.y), P(e.b.x, e.b.y))); return v; });
        std::int64_t base = live_blocks();
        cmp_t c = cmp;
        auto make = [&]() -> tree_t* {
            if(sel == 0) return new tree_t(*in, partition_policies::autopartition_policy(), c, identity_simplex_extractor());
            if(sel == 1) return new tree_t(*in, partition_policies::scored_selector_policy<identity_simplex_extractor, cmp_t>(identity_simplex_extractor(), c), c, identity_simplex_extractor());
            return new tree_t(*in, sim_selector{sel - 2}, c);
        };
        tree = build_with_faults<tree_t>("tree construction", make, sw.alloc_faults);
        for(std::size_t i = 0; i < s.edges.size(); ++i) { const seg& g = (*in)[i]; GSIM_CHECK(get<0>(get_start(g)) == s.edges[i].a.x && get<1>(get_start(g)) == s.edges[i].a.y && get<0>(get_end(g)) == s.edges[i].b.x && get<1>(get_end(g)) == s.edges[i].b.y, "input-modified", "edge %zu of the caller's range was modified", i); }
        setup([&] { delete in; });
        if(chance(OP, 1, 4)) {     // the tree can be moved around before it is used
            probe("moved");
            tree_t* t2 = nullptr;
            attempt("move", [&] { tree_t tmp(std::move(*tree)); t2 = new tree_t(); *t2 = std::move(tmp); });
            destroy(tree); tree = t2;
        }
        std::vector<std::vector<Query>> qs(sw.tasks); std::vector<std::function<void()>> bodies;
        for(int t = 0; t < sw.tasks; ++t) { Span sp(OP); int k = (int)size_upto(OP, 10, 60); for(int i = 0; i < k; ++i) qs[t].push_back(draw()); }
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([this, &qs, t] { for(auto& q : qs[t]) one(q); });
        parallel(bodies);
        if(s.edges.size() > 4) nontrivial();
        destroy(tree);
        GSIM_CHECK(live_blocks() <= base, "leak", "%lld blocks still allocated after the tree was destroyed", (long long)(live_blocks() - base));
    }
};
} // namespace
void gsim_run() { Sim s; s.run(); }

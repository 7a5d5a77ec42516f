// Node-storing 2d BSP tree.  PROP_C04: point location.  PROP_C05: painter's traversal.
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/algorithm/node_bsp_tree_2d.hpp>
#include "geo.hpp"

#ifdef PROP_C04
const char* const gsim_property = "C04";
#else
const char* const gsim_property = "C05";
#endif
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef segment<P> Seg;
typedef absolute_tolerance_comparison_policy<double> Cmp;
typedef node_bsp_tree_2d<Seg> Tree;

namespace {
// Partition selector that lets the simulator pick any segment of the range.
struct sim_selector {
    typedef Seg output_geometry_type;
    typedef Seg input_geometry_type;
    template <typename R> Seg operator()(const R& r) const {
        std::size_t k; { InMode h(HARNESS); k = choose(OP, boost::size(r)); }
        return *(boost::begin(r) + k);
    }
};
struct Sim {
    std::vector<ISeg> segs;
    Tree* tree = nullptr;
    Cmp cmp{1e-9};
    std::int64_t base = 0;

    Seg mk(ISeg s) { return Seg(P(s.a.x, s.a.y), P(s.b.x, s.b.y)); }
    typedef std::vector<Seg> V;
    Tree* make(const V& v, int sel) {
        if(sel == 0) return new Tree(v, partition_policies::first_segment_selector_policy<Seg>(), cmp);
        if(sel == 1) return new Tree(v, partition_policies::scored_segment_selector_policy<Seg, Cmp>(cmp), cmp);
        return new Tree(v, sim_selector(), cmp);
    }
    void insert(const V& v, int sel) {
        if(sel == 0) tree->insert(v, partition_policies::first_segment_selector_policy<Seg>(), cmp);
        else if(sel == 1) tree->insert(v, partition_policies::scored_segment_selector_policy<Seg, Cmp>(cmp), cmp);
        else tree->insert(v, sim_selector(), cmp);
    }
    void build(bool faults) {
        int sel = (int)choose(OP, 3);
        std::size_t n = segs.size();
        // part of the edges may arrive later through insert, in several batches
        std::size_t first = chance(OP, 1, 2) ? n : choose(OP, n + 1);   // 0: a tree made empty
        for(std::size_t i = 0; i < n; ++i) log("  edge %zu: (%ld,%ld)-(%ld,%ld)", i, segs[i].a.x, segs[i].a.y, segs[i].b.x, segs[i].b.y);
        log("build from %zu edges, %zu inserted later, selector %d", first, n - first, sel);
        V* a = setup([&] { V* v = new V(); for(std::size_t i = 0; i < first; ++i) v->push_back(mk(segs[i])); return v; });
        base = live_blocks();
        if(first == 0) probe("made-empty");
        tree = build_with_faults<Tree>("tree construction", [&] { return first == 0 ? new Tree() : make(*a, sel); }, faults);
        for(std::size_t i = first; i < n;) {
            std::size_t k = 1 + choose(OP, n - i);
            V* b = setup([&] { V* v = new V(); for(std::size_t j = i; j < i + k; ++j) v->push_back(mk(segs[j])); return v; });
            int s2 = (int)choose(OP, 3);
            FaultPlan plan = draw_alloc_plan(faults, 1, 4, 6);
            Outcome o = attempt("insert", [&] { insert(*b, s2); }, plan);
            log("insert %zu edges -> %s", k, o == OOM ? "out of memory" : "done");
            if(o == OOM) { destroy(tree); GSIM_CHECK(live_blocks() == base, "leak-on-failure", "a failed insert left %lld block(s) after the tree was destroyed", (long long)(live_blocks() - base)); end_run(); }
            probe("insert");
            setup([&] { delete b; });
            i += k;
        }
        setup([&] { delete a; });
    }
    void finish() {
        destroy(tree);
        GSIM_CHECK(live_blocks() <= base, "leak", "%lld block(s) still allocated after the tree was destroyed", (long long)(live_blocks() - base));
    }

#ifdef PROP_C04
    std::vector<ISeg> segs8;
    struct Q { IP p; };
    Q draw(const Solid& so) {
        Span sp(OP); Q q; long k = (long)choose(OP, 4);
        if(k == 0) { auto& e = so.edges[choose(OP, so.edges.size())]; IP a = chance(OP, 1, 2) ? e.a : e.b; q.p = {a.x * 8, a.y * 8}; }
        else if(k == 1) { auto& e = so.edges[choose(OP, so.edges.size())]; long t = 1 + (long)choose(OP, 7); q.p = {e.a.x * 8 + (e.b.x - e.a.x) * t, e.a.y * 8 + (e.b.y - e.a.y) * t}; }
        else if(k == 2) {   // on the line of an edge, beyond it: on a splitting line
            auto& e = so.edges[choose(OP, so.edges.size())]; long t = lattice(OP, 40) ; q.p = {e.a.x * 8 + (e.b.x - e.a.x) * t, e.a.y * 8 + (e.b.y - e.a.y) * t}; }
        else { q.p = {so.lo_x * 8 - 16 + (long)choose(OP, (so.hi_x - so.lo_x) * 8 + 33), so.lo_y * 8 - 16 + (long)choose(OP, (so.hi_y - so.lo_y) * 8 + 33)}; }
        return q;
    }
    void query(const Q& q) {
        Where w = classify(q.p, segs8);
        point_location_classification r = e_inside;
        P pt(q.p.x / 8.0, q.p.y / 8.0);
        attempt("point location", [&] { r = tree->locate_point(pt, cmp); });
        mix((int)r + 1);
        log("locate (%g,%g) -> %d, expected %d", q.p.x / 8.0, q.p.y / 8.0, (int)r, (int)w);
        GSIM_CHECK((int)r == (int)w, "wrong-location", "point (%g,%g) located as %d, is %d (-1 inside, 0 boundary, 1 outside)", q.p.x / 8.0, q.p.y / 8.0, (int)r, (int)w);
        probe(w == INSIDE ? "inside" : w == BORDER ? "boundary" : "outside");
    }
    void run() {
        Swarm sw = draw_swarm();
        Solid so = draw_solid(GEN);
        if(chance(GEN, 1, 4)) {   // the complement: a room inside of a big block
            for(auto& e : so.edges) std::swap(e.a, e.b);
            long m = 3; IP a{so.lo_x - m, so.lo_y - m}, b{so.hi_x + m, so.lo_y - m}, c{so.hi_x + m, so.hi_y + m}, d{so.lo_x - m, so.hi_y + m};
            so.edges.push_back({a, b}); so.edges.push_back({b, c}); so.edges.push_back({c, d}); so.edges.push_back({d, a}); so.bounds();
        }
        segs = so.edges; segs8 = scaled(segs, 8);
        build(sw.alloc_faults);
        std::vector<std::vector<Q>> qs(sw.tasks); std::vector<std::function<void()>> bodies;
        for(auto& v : qs) { int k = 2 + (int)choose(OP, 6); for(int i = 0; i < k; ++i) v.push_back(draw(so)); }
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(auto& q : qs[t]) query(q); });
        nontrivial();
        parallel(bodies);
        finish();
    }
#else
    struct Frag { double ax, ay, bx, by; };
    struct Q { IP p; long stop_at; bool reenter; };
    struct Visitor {
        Sim* s; const Q* q; std::vector<Frag>* out; int depth; bool throws;
        void operator()(const Seg& g) const {
            InMode h(HARNESS);
            out->push_back({get<0>(get_start(g)), get<1>(get_start(g)), get<0>(get_end(g)), get<1>(get_end(g))});
            yield();
            if(q->reenter && depth == 0 && out->size() == 1) s->query(*q, 1, false);
            if(throws && (long)out->size() == q->stop_at) { fault("visitor-throw"); throw SimThrow{1}; }
        }
    };
    Q draw(long r) {
        Span sp(OP); Q q;
        if(chance(OP, 1, 3)) { auto& e = segs[choose(OP, segs.size())]; long t = lattice(OP, 24); q.p = {e.a.x * 8 + (e.b.x - e.a.x) * t, e.a.y * 8 + (e.b.y - e.a.y) * t}; }
        else q.p = {lattice(OP, r * 8 + 16), lattice(OP, r * 8 + 16)};
        q.stop_at = chance(FAULT, 1, 3) ? 1 + (long)choose(FAULT, 8) : 0;
        q.reenter = chance(FAULT, 1, 6);
        return q;
    }
    void query(const Q& q, int depth, bool throws) {
        std::vector<Frag> seen;
        Visitor v{this, &q, &seen, depth, throws};
        P pt(q.p.x / 8.0, q.p.y / 8.0);
        Outcome o = DONE;
        if(depth == 0) o = attempt("painter's traversal", [&] { tree->painters_traversal(pt, v, cmp); }, FaultPlan(), throws);
        else { InMode m(SUT); tree->painters_traversal(pt, v, cmp); }
        mix(seen.size()); for(auto& f : seen) { mixd(f.ax); mixd(f.ay); }
        log("paint from (%g,%g): %zu fragments%s", q.p.x / 8.0, q.p.y / 8.0, seen.size(), o == THREW ? " (visitor threw)" : "");
        check_order(q, seen);
        check_cover(q, seen, o == DONE);
        if(o == DONE) { GSIM_CHECK(!throws || q.stop_at > (long)seen.size() || q.stop_at <= 0, "exception-swallowed", "the visitor's exception did not reach the caller"); if(seen.size() > 2) nontrivial(); }
    }
    void check_cover(const Q& q, const std::vector<Frag>& seen, bool complete) {
        // each directed input line: fragment coverage must equal input coverage
        const double T = 1e-9;
        std::vector<int> used(seen.size(), 0);
        std::vector<char> done(segs.size(), 0);
        for(std::size_t i = 0; i < segs.size(); ++i) if(!done[i]) {
            ISeg L = segs[i]; double dx = L.b.x - L.a.x, dy = L.b.y - L.a.y, len = std::hypot(dx, dy);
            std::vector<std::pair<double, double>> want, got; std::vector<double> br;
            for(std::size_t j = i; j < segs.size(); ++j) { ISeg s = segs[j]; if(cross(L.a, L.b, s.a) == 0 && cross(L.a, L.b, s.b) == 0 && (s.b.x - s.a.x) * dx + (s.b.y - s.a.y) * dy > 0) { done[j] = 1; double t0 = ((s.a.x - L.a.x) * dx + (s.a.y - L.a.y) * dy) / len, t1 = ((s.b.x - L.a.x) * dx + (s.b.y - L.a.y) * dy) / len; want.push_back({t0, t1}); br.push_back(t0); br.push_back(t1); } }
            for(std::size_t k = 0; k < seen.size(); ++k) { auto& f = seen[k]; auto off = [&](double x, double y) { return std::fabs((x - L.a.x) * dy - (y - L.a.y) * dx) / len; }; if(off(f.ax, f.ay) < T && off(f.bx, f.by) < T && (f.bx - f.ax) * dx + (f.by - f.ay) * dy > 0) { used[k]++; double t0 = ((f.ax - L.a.x) * dx + (f.ay - L.a.y) * dy) / len, t1 = ((f.bx - L.a.x) * dx + (f.by - L.a.y) * dy) / len; got.push_back({t0, t1}); br.push_back(t0); br.push_back(t1); } }
            bool edge_on = cross({L.a.x * 8, L.a.y * 8}, {L.b.x * 8, L.b.y * 8}, q.p) == 0;
            std::sort(br.begin(), br.end());
            for(std::size_t k = 0; k + 1 < br.size(); ++k) if(br[k + 1] - br[k] > 1e-7) {
                double m = (br[k] + br[k + 1]) / 2; int w = 0, g = 0;
                for(auto& p : want) w += p.first < m && m < p.second;
                for(auto& p : got) g += p.first < m && m < p.second;
                GSIM_CHECK(g <= w, "visited-extra", "from (%g,%g): part of the line of edge (%ld,%ld)-(%ld,%ld) visited %d times, stored %d times", q.p.x / 8.0, q.p.y / 8.0, L.a.x, L.a.y, L.b.x, L.b.y, g, w);
                // an edge seen exactly edge-on has no visible extent and may be skipped
                if(complete && !edge_on) GSIM_CHECK(g == w, "missed-edge", "from (%g,%g): part of edge (%ld,%ld)-(%ld,%ld) visited %d times, stored %d times", q.p.x / 8.0, q.p.y / 8.0, L.a.x, L.a.y, L.b.x, L.b.y, g, w);
                if(edge_on && g < w) probe("edge-on-skipped");
            }
        }
        for(std::size_t k = 0; k < seen.size(); ++k) GSIM_CHECK(used[k], "stray-fragment", "visited (%g,%g)-(%g,%g), which is not part of any stored edge", seen[k].ax, seen[k].ay, seen[k].bx, seen[k].by);
    }
    void check_order(const Q& q, const std::vector<Frag>& seen) {
        double vx = q.p.x / 8.0, vy = q.p.y / 8.0;
        struct A { bool skip; double lo, w; };
        std::vector<A> an;
        for(auto& f : seen) {
            double c = (f.bx - f.ax) * (vy - f.ay) - (f.by - f.ay) * (vx - f.ax), len = std::hypot(f.bx - f.ax, f.by - f.ay);
            A a{std::fabs(c) < 1e-9 * len || len < 1e-9, 0, 0};
            if(!a.skip) { double t0 = std::atan2(f.ay - vy, f.ax - vx), t1 = std::atan2(f.by - vy, f.bx - vx), d = t1 - t0; while(d > M_PI) d -= 2 * M_PI; while(d < -M_PI) d += 2 * M_PI; if(d < 0) { t0 += d; d = -d; } a.lo = t0; a.w = d; }
            an.push_back(a);
        }
        for(std::size_t i = 0; i < seen.size(); ++i) if(!an[i].skip) for(std::size_t j = i + 1; j < seen.size(); ++j) if(!an[j].skip) {
            double s = an[j].lo - an[i].lo; while(s < -M_PI) s += 2 * M_PI; while(s > M_PI) s -= 2 * M_PI;
            double lo = std::max(0.0, s), hi = std::min(an[i].w, s + an[j].w);
            if(hi - lo < 1e-5) continue;
            double th = an[i].lo + (lo + hi) / 2, ux = std::cos(th), uy = std::sin(th);
            auto dist = [&](const Frag& f) { double dx = f.bx - f.ax, dy = f.by - f.ay, den = ux * dy - uy * dx; return ((f.ax - vx) * dy - (f.ay - vy) * dx) / den; };
            double di = dist(seen[i]), dj = dist(seen[j]);
            if(std::fabs(di - dj) < 1e-6) continue;
            probe("occlusion-pair");
            GSIM_CHECK(di > dj, "order", "from (%g,%g): (%g,%g)-(%g,%g) was visited before (%g,%g)-(%g,%g), which it hides (distances %g < %g)", vx, vy, seen[i].ax, seen[i].ay, seen[i].bx, seen[i].by, seen[j].ax, seen[j].ay, seen[j].bx, seen[j].by, di, dj);
        }
    }
    void run() {
        Swarm sw = draw_swarm(3);
        long r = 2 + (long)choose(GEN, 5);
        int n = (int)size_upto(GEN, chance(GEN, 1, 4) ? 14 : 7, 40); if(n > 14) r *= 3;
        for(int i = 0; i < n; ++i) { Span sp(GEN); ISeg s{{lattice(GEN, r), lattice(GEN, r)}, {lattice(GEN, r), lattice(GEN, r)}}; if(!(s.a == s.b)) segs.push_back(s); }
        if(segs.empty()) segs.push_back({{0, 0}, {1, 0}});
        build(sw.alloc_faults);
        std::vector<std::vector<Q>> qs(sw.tasks); std::vector<std::function<void()>> bodies;
        for(auto& v : qs) { int k = 1 + (int)choose(OP, 3); for(int i = 0; i < k; ++i) v.push_back(draw(r)); }
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(auto& q : qs[t]) { if(q.stop_at && sw.throwing_callbacks) query(q, 0, true); query(q, 0, false); } });
        parallel(bodies);
        finish();
    }
#endif
};
} // namespace
void gsim_run() { Sim s; s.run(); }

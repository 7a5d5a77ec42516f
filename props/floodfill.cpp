// Flood fill of polygons on a grid.
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/floodfill_grid_traversal.hpp>
#include <deque>
#include "geo.hpp"
const char* const gsim_property = "C08";
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef grid_traits<double> Grid;
typedef std::pair<long, long> Key;
typedef std::vector<std::pair<double, double>> Poly;

namespace {
// convex hull, counter-clockwise, strictly convex
std::vector<IP> hull(std::vector<IP> p) {
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end(), [](IP a, IP b) { return a == b; }), p.end());
    if(p.size() < 3) return {};
    std::vector<IP> h(2 * p.size()); std::size_t k = 0;
    for(std::size_t i = 0; i < p.size(); ++i) { while(k >= 2 && cross(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
    for(std::size_t i = p.size() - 1, t = k + 1; i-- > 0;) { while(k >= t && cross(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
    h.resize(k - 1); if(h.size() < 3) h.clear(); return h;
}
// clip a polygon (any winding, convex clip box) and return what is left
Poly clip_box(const Poly& in, double lx, double ly, double hx, double hy) {
    Poly p = in;
    for(int side = 0; side < 4; ++side) {
        Poly o; auto val = [&](std::pair<double, double> q) { return side == 0 ? q.first - lx : side == 1 ? hx - q.first : side == 2 ? q.second - ly : hy - q.second; };
        for(std::size_t i = 0; i < p.size(); ++i) { auto a = p[i], b = p[(i + 1) % p.size()]; double va = val(a), vb = val(b); if(va >= 0) o.push_back(a); if((va > 0 && vb < 0) || (va < 0 && vb > 0)) { double t = va / (va - vb); o.push_back({a.first + t * (b.first - a.first), a.second + t * (b.second - a.second)}); } }
        p = o;
    }
    return p;
}
double area(const Poly& p) { double a = 0; for(std::size_t i = 0; i < p.size(); ++i) { auto u = p[i], v = p[(i + 1) % p.size()]; a += u.first * v.second - v.first * u.second; } return std::fabs(a) / 2; }

struct Sim {
    Grid* grid = nullptr;
    absolute_tolerance_comparison_policy<double> cmp{1e-10};
    long n = 0; double w = 1;                 // cells; polygon units are w/8
    std::vector<IP> ring; std::vector<std::vector<IP>> holes;
    struct Visitor {
        std::vector<Key>* out; long stop_at; long cap;
        void operator()(std::uint32_t i, std::uint32_t j) const {
            InMode h(HARNESS);
            out->push_back(Key(i, j)); yield();
            GSIM_CHECK((long)out->size() <= cap, "endless-traversal", "more than %ld cells visited", cap);
            if((long)out->size() == stop_at) { fault("visitor-throw"); throw SimThrow{1}; }
        }
    };
    Poly real(const std::vector<IP>& r) { Poly p; for(auto& q : r) p.push_back({q.x / 8.0 * w, q.y / 8.0 * w}); return p; }
    void make(const std::vector<IP>& r, polygon<P>& out, bool rev) { std::size_t k = choose(OP, r.size()); for(std::size_t i = 0; i < r.size(); ++i) { IP q = r[rev ? (2 * r.size() - 1 - i + k) % r.size() : (i + k) % r.size()]; out.emplace_back(P(q.x / 8.0 * w, q.y / 8.0 * w)); } }
    double cell_area(const Poly& p, Key k, double grow) { double lx = k.first * w - grow, ly = k.second * w - grow; return area(clip_box(p, lx, ly, lx + w + 2 * grow, ly + w + 2 * grow)); }
    bool inside_convex(const std::vector<IP>& r, double x, double y, double margin) { for(std::size_t i = 0; i < r.size(); ++i) { IP a = r[i], b = r[(i + 1) % r.size()]; double c = ((b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x)) / std::hypot(b.x - a.x, b.y - a.y); if(c < margin) return false; } return true; }
    void check(const std::vector<Key>& seen, bool complete, const char* what, const Poly& outer) {
        std::set<Key> once;
        for(auto& k : seen) {
            GSIM_CHECK(k.first >= 0 && k.second >= 0 && k.first <= n && k.second <= n, "outside-grid", "%s visited cell (%ld,%ld) outside of the grid", what, k.first, k.second);
            GSIM_CHECK(once.insert(k).second, "visited-twice", "%s visited cell (%ld,%ld) twice", what, k.first, k.second);
            GSIM_CHECK(cell_area(outer, k, 1e-5 * w) > 0, "cell-outside", "%s visited cell (%ld,%ld), which the polygon does not touch", what, k.first, k.second);
            for(auto& h : holes) { double u = 8; bool in = inside_convex(h, k.first * u, k.second * u, 1e-3) && inside_convex(h, (k.first + 1) * u, k.second * u, 1e-3) && inside_convex(h, k.first * u, (k.second + 1) * u, 1e-3) && inside_convex(h, (k.first + 1) * u, (k.second + 1) * u, 1e-3); GSIM_CHECK(!in, "cell-in-hole", "%s visited cell (%ld,%ld), which lies inside a hole", what, k.first, k.second); }
        }
        if(!complete) return;
        for(long i = 0; i < n; ++i) for(long j = 0; j < n; ++j) {
            Key k(i, j); double a = cell_area(outer, k, 0); for(auto& h : holes) a -= cell_area(real(h), k, 0);
            if(a > 1e-6 * w * w) GSIM_CHECK(once.count(k), "missed-cell", "%s did not visit cell (%ld,%ld), %g of which belongs to the polygon", what, i, j, a / (w * w));
        }
        if(seen.size() > 4) nontrivial();
    }
    std::string show(const std::vector<IP>& r) { std::string s; for(auto& p : r) s += "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; return s; }

    void filled(const Swarm& sw, bool with_holes) {
        long m = n * 8;
        std::vector<IP> pts; int c = 3 + (int)choose(GEN, 9);
        for(int i = 0; i < c; ++i) { Span sp(GEN); pts.push_back({(long)choose(GEN, m + 1), (long)choose(GEN, m + 1)}); }
        if(with_holes) { pts.push_back({0, 0}); pts.push_back({m, 1}); pts.push_back({m - 1, m}); pts.push_back({1, m - 2}); }
        ring = hull(pts); if(ring.empty()) ring = {{1, 1}, {m - 1, 2}, {3, m - 1}};
        log("grid %ldx%ld cells of %g, polygon (1/8 cell units) %s", n, n, w, show(ring).c_str());
        if(with_holes) {
            int tries = 1 + (int)choose(GEN, 8);
            for(int t = 0; t < tries; ++t) {
                Span sp(GEN);
                long ox = (long)choose(GEN, m), oy = (long)choose(GEN, m), sx = 2 + (long)choose(GEN, chance(GEN, 1, 2) ? 6 : m / 2 + 1), sy = 2 + (long)choose(GEN, chance(GEN, 1, 2) ? 40 : 12);
                std::vector<IP> q; for(int i = 0; i < 6; ++i) q.push_back({ox + (long)choose(GEN, sx), oy + (long)choose(GEN, sy)});
                auto h = hull(q); if(h.empty()) continue;
                bool ok = true; for(auto& p : h) ok = ok && inside_convex(ring, p.x, p.y, 1e-6);
                // pairwise disjoint: strictly separated along x or y
                for(auto& g : holes) { auto ext = [](const std::vector<IP>& r, bool x, bool hi) { long v = hi ? -(1 << 30) : 1 << 30; for(auto& p : r) { long c = x ? p.x : p.y; v = hi ? std::max(v, c) : std::min(v, c); } return v; }; bool sep = ext(h, 1, 1) < ext(g, 1, 0) || ext(g, 1, 1) < ext(h, 1, 0) || ext(h, 0, 1) < ext(g, 0, 0) || ext(g, 0, 1) < ext(h, 0, 0); ok = ok && sep; }
                if(ok) { holes.push_back(h); log("  hole %s", show(h).c_str()); }
            }
            if(holes.size() > 1) probe("several-holes");
        }
        Poly outer = real(ring);
        polygon<P>* pg; std::vector<polygon<P>>* hs;
        setup([&] { pg = new polygon<P>(); make(ring, *pg, chance(OP, 1, 2)); hs = new std::vector<polygon<P>>(); for(auto& h : holes) { hs->emplace_back(); make(h, hs->back(), chance(OP, 1, 2)); } });
        polygon_with_holes<P>* pwh = setup([&] { return new polygon_with_holes<P>(*pg, *hs); });
        {   // the seed cell for a colour flood: free, and inside the polygon
            typedef floodfill_grid_traversal_helper<Grid> FF; FF* ff = setup([&] { return new FF(*grid); }); std::vector<Key> b; Visitor bv{&b, 0, 4 * (n + 2) * (n + 2)};
            boost::optional<std::pair<std::uint32_t, std::uint32_t>> e;
            attempt("empty interior", [&] { ff->mark_boundary(*pg, bv, cmp); for(auto& h : *hs) ff->mark_hole_boundary(h, bv, cmp); e = ff->get_empty_interior(); });
            std::set<Key> bs(b.begin(), b.end()); long cand = 0;
            auto in = [&](Key k) { double a = cell_area(outer, k, 0); for(auto& h : holes) a -= cell_area(real(h), k, 0); return a > 1e-6 * w * w && !bs.count(k); };
            for(long i = 0; i < n; ++i) for(long j = 0; j < n; ++j) cand += in(Key(i, j));
            if(e) { Key k(e->first, e->second); GSIM_CHECK(in(k), "bad-seed", "the free interior cell reported, (%ld,%ld), is %s", k.first, k.second, bs.count(k) ? "a boundary cell" : "not in the polygon"); probe("seed-cell"); }
            else GSIM_CHECK(cand == 0, "no-seed", "no free interior cell was found although there are %ld", cand);
            setup([&] { delete ff; });
        }
        std::vector<std::function<void()>> bodies; struct Job { FaultPlan plan; long stop; }; std::vector<std::vector<Job>> jobs(sw.tasks);
        for(auto& v : jobs) { int k = 1 + (int)choose(OP, 2); for(int i = 0; i < k; ++i) { Span sp(FAULT); Job j; j.plan = draw_alloc_plan(sw.alloc_faults, 1, 3, 8); j.stop = sw.throwing_callbacks && chance(FAULT, 1, 4) ? 1 + (long)choose(FAULT, 20) : 0; v.push_back(j); } }
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] {
            for(auto& job : jobs[t]) {
                std::vector<Key> seen; Visitor v{&seen, job.stop, 4 * (n + 2) * (n + 2)};
                std::int64_t b = sw.tasks == 1 ? live_blocks() : 0;
                Outcome o = attempt("flood fill", [&] { if(with_holes) floodfill_grid_traversal(*grid, *pwh, v, cmp); else floodfill_grid_traversal(*grid, *pg, v, cmp); }, job.plan, job.stop > 0, 40000000);
                if(sw.tasks == 1) GSIM_CHECK(live_blocks() == b, "leak", "a flood fill left %lld block(s) allocated", (long long)(live_blocks() - b));
                mix(seen.size()); log("flood fill visited %zu cells%s", seen.size(), o == OOM ? ", out of memory" : o == THREW ? ", visitor threw" : "");
                if(job.stop && o == DONE) GSIM_CHECK((long)seen.size() < job.stop, "exception-swallowed", "the visitor's exception did not reach the caller");
                check(seen, o == DONE, with_holes ? "flood fill of a polygon with holes" : "flood fill", outer);
                probe(with_holes ? "with-holes" : "convex");
            }
        });
        parallel(bodies);
    }
    // the helper on any simple polygon: boundary, then colour flood from points
    void helper(const Swarm& sw) {
        std::vector<IP> r = draw_star_ring(GEN, 8, n * 4 - 1, false);
        for(auto& p : r) { p.x += n * 4; p.y += n * 4; }
        ring = r; Poly outer = real(ring);
        log("helper: grid %ldx%ld cells of %g, polygon %s", n, n, w, show(ring).c_str());
        polygon<P>* pg = setup([&] { auto* p = new polygon<P>(); make(ring, *p, chance(OP, 1, 2)); return p; });
        typedef floodfill_grid_traversal_helper<Grid> FF;
        std::int64_t base = live_blocks();
        FF* ff = build_with_faults<FF>("flood fill helper", [&] { return new FF(*grid); }, sw.alloc_faults);
        std::vector<Key> seen; std::set<Key> border_hole; bool clean = true;
        FaultPlan p0 = draw_alloc_plan(sw.alloc_faults, 1, 6, 7);
        Visitor v{&seen, 0, 4 * (n + 2) * (n + 2)};
        Outcome o = attempt("boundary", [&] { ff->mark_boundary(*pg, v, cmp); }, p0);
        if(o != DONE) { log("boundary marking ran out of memory"); destroy(ff); GSIM_CHECK(live_blocks() == base, "leak-on-failure", "a failed boundary left %lld block(s)", (long long)(live_blocks() - base)); end_run(); }
        if(chance(GEN, 1, 3)) {   // the border of a hole cuts a flood off as well
            long m = n * 8; std::vector<IP> q; for(int i = 0; i < 7; ++i) q.push_back({(long)choose(GEN, m), (long)choose(GEN, m)});
            auto h = hull(q);
            if(!h.empty()) {
                log("  hole %s", show(h).c_str()); polygon<P>* hp = setup([&] { auto* p = new polygon<P>(); make(h, *p, chance(OP, 1, 2)); return p; });
                std::size_t before = seen.size();
                o = attempt("hole boundary", [&] { ff->mark_hole_boundary(*hp, v, cmp); }, draw_alloc_plan(sw.alloc_faults, 1, 6, 7));
                if(o != DONE) { log("boundary marking ran out of memory"); destroy(ff); GSIM_CHECK(live_blocks() <= base, "leak-on-failure", "a failed boundary left %lld block(s)", (long long)(live_blocks() - base)); end_run(); }
                Poly hr = real(h); for(std::size_t i = before; i < seen.size(); ++i) GSIM_CHECK(cell_area(hr, seen[i], 1e-5 * w) > 0, "cell-outside", "the border of a hole visited cell (%ld,%ld), which the hole does not touch", seen[i].first, seen[i].second);
                // every cell the border runs through
                std::set<Key> all(seen.begin(), seen.end()); for(std::size_t i = 0; i < h.size(); ++i) { IP a = h[i], b = h[(i + 1) % h.size()]; for(int t = 0; t <= 64; ++t) { double x = (a.x + (b.x - a.x) * (t / 64.0)) / 8, y = (a.y + (b.y - a.y) * (t / 64.0)) / 8; if(std::fabs(x - std::round(x)) < 1e-6 || std::fabs(y - std::round(y)) < 1e-6) continue; GSIM_CHECK(all.count(Key((long)std::floor(x), (long)std::floor(y))), "missed-cell", "the border of a hole did not visit cell (%ld,%ld)", (long)std::floor(x), (long)std::floor(y)); } }
                border_hole.insert(seen.begin() + before, seen.end()); probe("hole-border");
            }
        }
        std::set<Key> border(seen.begin(), seen.end());
        for(auto& k : border) if(!border_hole.count(k)) GSIM_CHECK(cell_area(outer, k, 1e-5 * w) > 0, "cell-outside", "boundary visited cell (%ld,%ld), which the polygon does not touch", k.first, k.second);
        std::set<Key> filled = border;
        long W = grid->get_width(), H = grid->get_height();
        int k = 1 + (int)choose(OP, 4); std::set<Key> known = border;
        for(int t = 0; t < k; ++t) {
            Span sp(OP); Key s((long)choose(OP, W), (long)choose(OP, H));
            // the polygon's own component: half of the time start at its centre
            if(chance(OP, 1, 2)) s = Key(n / 2, n / 2);
            FaultPlan plan = draw_alloc_plan(sw.alloc_faults, 1, 4, 8); long stop = sw.throwing_callbacks && chance(FAULT, 1, 4) ? 1 + (long)choose(FAULT, 10) : 0;
            std::set<Key> comp; std::deque<Key> q;
            if(!border.count(s)) { comp.insert(s); q.push_back(s); }
            while(!q.empty()) { Key c = q.front(); q.pop_front(); const long d[4][2] = {{1, 0}, {-1, 0}, {0, 1}, {0, -1}}; for(auto& e : d) { Key m(c.first + e[0], c.second + e[1]); if(m.first < 0 || m.second < 0 || m.first >= W || m.second >= H || border.count(m) || comp.count(m)) continue; comp.insert(m); q.push_back(m); } }
            std::vector<Key> got; Visitor vv{&got, stop, 4 * (n + 2) * (n + 2)}; bool res = false;
            bool bypoint = chance(OP, 1, 2); P pt((s.first + 0.5) * w, (s.second + 0.5) * w);
            if(bypoint && !(get<0>(pt) <= grid->get_max_x() && get<1>(pt) <= grid->get_max_y())) bypoint = false;
            Outcome oo = attempt("flood", [&] { res = bypoint ? ff->traversal(pt, vv) : ff->traversal((std::uint32_t)s.first, (std::uint32_t)s.second, vv); }, plan, stop > 0, 40000000);
            mix(got.size()); log("flood from (%ld,%ld): %zu cells, component of %zu%s", s.first, s.second, got.size(), comp.size(), oo == OOM ? ", out of memory" : oo == THREW ? ", visitor threw" : "");
            if(stop && oo == DONE) GSIM_CHECK((long)got.size() < stop, "exception-swallowed", "the visitor's exception did not reach the caller");
            for(auto& c : got) { GSIM_CHECK(comp.count(c), "leaked-out", "flood from (%ld,%ld) visited cell (%ld,%ld), which is cut off by the boundary", s.first, s.second, c.first, c.second); GSIM_CHECK(known.insert(c).second, "visited-twice", "cell (%ld,%ld) was visited twice", c.first, c.second); }
            if(oo != DONE) { clean = false; continue; }
            GSIM_CHECK(res == !border.count(s), "wrong-result", "flood from a %s cell returned %d", border.count(s) ? "boundary" : "free", (int)res);
            if(clean) { for(auto& c : comp) GSIM_CHECK(known.count(c), "missed-cell", "flood from (%ld,%ld) did not reach cell (%ld,%ld)", s.first, s.second, c.first, c.second); if(comp.size() > 4) nontrivial(); }
        }
        probe("helper");
        destroy(ff);
        GSIM_CHECK(live_blocks() <= base, "leak", "%lld block(s) left after the helper was destroyed", (long long)(live_blocks() - base));
    }
    void run() {
        Swarm sw = draw_swarm(3);
        n = 1 + size_upto(GEN, 8, 30); static const double ws[] = {1, 2, 0.5}; w = ws[choose(GEN, 3)];
        grid = setup([&] { return new Grid(0.0, n * w, 0.0, n * w, w); });
        long k = (long)choose(GEN, 3);
        if(k == 0) filled(sw, false); else if(k == 1) filled(sw, true); else helper(sw);
    }
};
} // namespace
void gsim_run() { Sim s; s.run(); }

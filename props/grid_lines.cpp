// Line traversals over a grid: contiguous, complete, interruptible.
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/fast_voxel_grid_traversal.hpp>
#include <geometrix/algorithm/orientation_grid_traversal.hpp>
#include <geometrix/algorithm/bresenham_grid_traversal.hpp>
#include "geo.hpp"
const char* const gsim_property = "C07";
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef segment<P> Seg;
typedef grid_traits<double> Grid;

namespace {
struct Cell { long i, j; };
struct Stopped {};
struct Sim {
    const Grid* grid = nullptr;
    absolute_tolerance_comparison_policy<double> cmp{1e-10};
    double x0, y0, w; long nx, ny; double maxx, maxy;
    struct Q { double ax, ay, bx, by; int alg; long stop_at; bool thrower; };
    struct Visitor {
        std::vector<Cell>* out; const Q* q; std::vector<Cell>* after; bool throws, stops; bool* stopped; long cap;
        bool operator()(std::uint32_t i, std::uint32_t j) {
            InMode h(HARNESS);
            GSIM_CHECK(!*stopped, "visit-after-stop", "the visitor was called again after it asked to stop");
            out->push_back({(long)i, (long)j});
            yield();
            GSIM_CHECK((long)out->size() <= cap, "endless-traversal", "more than %ld cells visited", cap);
            if(throws && (long)out->size() == q->stop_at) { fault("visitor-throw"); throw SimThrow{1}; }
            if(stops && (long)out->size() == q->stop_at) { fault("visitor-stop"); *stopped = true; return false; }
            return true;
        }
    };
    Q draw(long nx, long ny) {
        Span sp(OP); Q q;
        auto c = [&](long n, double o) { long m = (long)choose(OP, 4); long span = n * 8; long v = m == 0 ? 8 * (long)choose(OP, n + 1) : m == 3 ? -16 + (long)choose(OP, span + 33) : (long)choose(OP, span + 1); return o + v / 8.0 * w; };
        q.ax = c(nx, x0); q.ay = c(ny, y0); q.bx = c(nx, x0); q.by = c(ny, y0);
        if(chance(OP, 1, 6)) q.bx = q.ax; if(chance(OP, 1, 6)) q.by = q.ay;
        q.alg = (int)choose(OP, 4);
        q.stop_at = chance(FAULT, 1, 3) ? 1 + (long)choose(FAULT, 6) : 0; q.thrower = chance(FAULT, 1, 2);
        return q;
    }
    bool inside(double x, double y) const { return x >= x0 && x <= maxx && y >= y0 && y <= maxy; }
    // parameter interval of a + t (b-a) inside the closed box
    static bool clip(double ax, double ay, double bx, double by, double lx, double ly, double hx, double hy, double& t0, double& t1) {
        t0 = 0; t1 = 1;
        double a[2] = {ax, ay}, d[2] = {bx - ax, by - ay}, lo[2] = {lx, ly}, hi[2] = {hx, hy};
        for(int k = 0; k < 2; ++k) {
            if(d[k] == 0) { if(a[k] < lo[k] || a[k] > hi[k]) return false; continue; }
            double u = (lo[k] - a[k]) / d[k], v = (hi[k] - a[k]) / d[k]; if(u > v) std::swap(u, v);
            t0 = std::max(t0, u); t1 = std::min(t1, v);
        }
        return t0 <= t1;
    }
    // length of the segment inside the (shrunk or grown) cell
    double overlap(const Q& q, long i, long j, double grow) const {
        double t0, t1; double lx = x0 + i * w - grow, ly = y0 + j * w - grow;
        if(!clip(q.ax, q.ay, q.bx, q.by, lx, ly, lx + w + 2 * grow, ly + w + 2 * grow, t0, t1)) return -1;
        // the part outside of the grid bounds does not count
        double g0, g1; if(!clip(q.ax, q.ay, q.bx, q.by, x0 - 1e-9, y0 - 1e-9, maxx + 1e-9, maxy + 1e-9, g0, g1)) return -1;
        t0 = std::max(t0, g0); t1 = std::min(t1, g1);
        return t0 > t1 ? -1 : (t1 - t0) * std::hypot(q.bx - q.ax, q.by - q.ay);
    }
    static const char* name(int a) { static const char* n[] = {"fast voxel", "stoppable fast voxel", "orientation", "bresenham"}; return n[a]; }
    void query(const Q& q0, bool with_fault) {
        Q q = q0;
        if(q.alg == 2 && q.ax == q.bx && q.ay == q.by) q.alg = 0;     // a segment has two distinct ends there
        if(q.alg == 3 && !(inside(q.ax, q.ay) && inside(q.bx, q.by))) q.alg = 1;
        std::vector<Cell> seen; bool stopped = false;
        bool throws = with_fault && q.stop_at && (q.thrower || q.alg != 1), stops = with_fault && q.stop_at && !throws;
        long cap = 8 * (nx + ny) + 64;
        Visitor v{&seen, &q, nullptr, throws, stops, &stopped, cap};
        Seg s(P(q.ax, q.ay), P(q.bx, q.by));
        Outcome o = attempt(name(q.alg), [&] {
            switch(q.alg) {
            case 0: fast_voxel_grid_traversal(*grid, s, v, cmp); break;
            case 1: stoppable_fast_voxel_grid_traversal(*grid, s, v, cmp); break;
            case 2: orientation_segment_traversal(*grid, s, v, cmp); break;
            case 3: bresenham_segment_traversal(*grid, s, v); break;
            }
        }, FaultPlan(), throws, 2000000);
        mix(seen.size()); for(auto& c : seen) mix(c.i * 1000 + c.j);
        bool partial = o == THREW || stopped;
        if(tracing()) { std::string t; for(auto& c : seen) t += "(" + std::to_string(c.i) + "," + std::to_string(c.j) + ")"; log("%s (%g,%g)-(%g,%g): %s%s", name(q.alg), q.ax, q.ay, q.bx, q.by, t.c_str(), partial ? " interrupted" : ""); }
        char ctx[160]; snprintf(ctx, sizeof ctx, "%s traversal of (%g,%g)-(%g,%g), grid %ldx%ld cells of %g from (%g,%g)", name(q.alg), q.ax, q.ay, q.bx, q.by, nx, ny, w, x0, y0);
        if(throws && o == DONE) GSIM_CHECK((long)seen.size() < q.stop_at, "exception-swallowed", "%s: the visitor's exception did not reach the caller", ctx);
        std::set<std::pair<long, long>> once;
        for(auto& c : seen) {
            GSIM_CHECK(c.i >= 0 && c.j >= 0 && c.i < nx && c.j < ny, "outside-grid", "%s visited cell (%ld,%ld)", ctx, c.i, c.j);
            GSIM_CHECK(once.insert({c.i, c.j}).second, "visited-twice", "%s visited cell (%ld,%ld) twice", ctx, c.i, c.j);
        }
        if(q.alg == 3) { bresenham(q, seen, partial, ctx); return; }
        for(auto& c : seen) GSIM_CHECK(overlap(q, c.i, c.j, 1e-6 * w) >= 0, "cell-not-on-line", "%s visited cell (%ld,%ld), which the segment does not touch", ctx, c.i, c.j);
        for(std::size_t k = 1; k < seen.size(); ++k) {
            long di = std::labs(seen[k].i - seen[k - 1].i), dj = std::labs(seen[k].j - seen[k - 1].j);
            bool diag = q.alg == 2 && di == 1 && dj == 1;
            GSIM_CHECK(di + dj == 1 || diag, "gap", "%s jumped from cell (%ld,%ld) to (%ld,%ld)", ctx, seen[k - 1].i, seen[k - 1].j, seen[k].i, seen[k].j);
        }
        // order along the segment
        double dx = q.bx - q.ax, dy = q.by - q.ay; double sgn = 1;
        if(q.alg == 2 && (q.bx < q.ax || (q.bx == q.ax && q.by < q.ay))) sgn = -1;
        // (a segment that only touches the grid has no direction there)
        double in0 = 0, in1 = 0; bool touches = !clip(q.ax, q.ay, q.bx, q.by, x0, y0, maxx, maxy, in0, in1) || (in1 - in0) * std::hypot(dx, dy) < 1e-6 * w; if(touches && !seen.empty()) probe("touched");
        if(!touches) for(std::size_t k = 1; k < seen.size(); ++k) GSIM_CHECK(sgn * ((seen[k].i - seen[k - 1].i) * dx + (seen[k].j - seen[k - 1].j) * dy) >= 0, "order", "%s went backwards from cell (%ld,%ld) to (%ld,%ld)", ctx, seen[k - 1].i, seen[k - 1].j, seen[k].i, seen[k].j);
        if(!partial) {
            long need = 0;
            for(long i = 0; i < nx; ++i) for(long j = 0; j < ny; ++j) if(overlap(q, i, j, -1e-6 * w) > 1e-6) { ++need; GSIM_CHECK(once.count({i, j}), "missed-cell", "%s did not visit cell (%ld,%ld), which the segment crosses", ctx, i, j); }
            if(need > 2) nontrivial();
            probe(seen.empty() ? "no-cell" : "complete");
            if(!inside(q.ax, q.ay) || !inside(q.bx, q.by)) if(!seen.empty()) probe("clipped");
        } else nontrivial();
    }
    void bresenham(const Q& q, const std::vector<Cell>& seen, bool partial, const char* ctx) {
        long ai = (long)std::floor((q.ax - x0) / w), aj = (long)std::floor((q.ay - y0) / w), bi = (long)std::floor((q.bx - x0) / w), bj = (long)std::floor((q.by - y0) / w);
        long n = std::max(std::labs(bi - ai), std::labs(bj - aj));
        GSIM_CHECK(seen.empty() || (seen[0].i == ai && seen[0].j == aj), "wrong-start", "%s did not start in the cell of its start point", ctx);
        for(std::size_t k = 0; k < seen.size(); ++k) {
            double t = n ? (double)k / n : 0, ei = ai + t * (bi - ai), ej = aj + t * (bj - aj);
            GSIM_CHECK(std::fabs(ei - seen[k].i) <= 0.5 + 1e-9 && std::fabs(ej - seen[k].j) <= 0.5 + 1e-9, "off-line", "%s step %zu is at (%ld,%ld), the line is at (%g,%g)", ctx, k, seen[k].i, seen[k].j, ei, ej);
        }
        if(!partial) { GSIM_CHECK((long)seen.size() == n + 1, "wrong-count", "%s visited %zu cells instead of %ld", ctx, seen.size(), n + 1); if(n > 2) nontrivial(); probe("bresenham"); }
    }
    void run() {
        Swarm sw = draw_swarm(3);
        nx = size_upto(GEN, 9, 64); ny = size_upto(GEN, 9, 64);
        static const double ws[] = {1, 2, 0.5, 4, 0.25};
        w = ws[choose(GEN, 5)]; x0 = lattice(GEN, 6) * w; y0 = lattice(GEN, 6) * w;
        maxx = x0 + nx * w; maxy = y0 + ny * w; ++nx; ++ny;            // the traits add one cell for the far border
        long qx = nx - 1, qy = ny - 1;
        if(chance(GEN, 1, 3)) { maxx -= w / 2; --nx; maxy -= w / 2; --ny; }
        Grid* g = setup([&] { return new Grid(x0, maxx, y0, maxy, w); });
        grid = g;
        GSIM_CHECK((long)g->get_width() == nx && (long)g->get_height() == ny, "grid-size", "grid over [%g,%g]x[%g,%g] of %g is %ux%u cells", x0, maxx, y0, maxy, w, g->get_width(), g->get_height());
        std::vector<std::vector<Q>> qs(sw.tasks); std::vector<std::function<void()>> bodies;
        for(auto& v : qs) { int k = 1 + (int)choose(OP, 4); for(int i = 0; i < k; ++i) v.push_back(draw(qx, qy)); }
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(auto& q : qs[t]) { if(q.stop_at) query(q, true); query(q, false); } });
        parallel(bodies);
    }
};
} // namespace
void gsim_run() { Sim s; s.run(); }

// Polylines and polygons cut, measured, simplified and cleaned.
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/point_sequence/length.hpp>
#include <geometrix/algorithm/point_sequence/clip_polyline_ends.hpp>
#include <geometrix/algorithm/point_sequence/polyline_split.hpp>
#include <geometrix/algorithm/point_sequence/polyline_mid_point.hpp>
#include <geometrix/algorithm/point_sequence/ramer_douglas_peucker_algorithm.hpp>
#include <geometrix/algorithm/point_sequence/remove_collinear_points.hpp>
#include <geometrix/algorithm/point_sequence/find_subsequence.hpp>
#include <functional>
#include <tuple>
#include "chains.hpp"
#if defined(PROP_C23)
const char* const gsim_property = "C23";
#else
const char* const gsim_property = "C24";
#endif
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef polyline<P> Line;
typedef polygon<P> Gon;
typedef absolute_tolerance_comparison_policy<double> Cmp;
typedef std::pair<double, double> D2;

namespace {
double dist(D2 a, D2 b) { return std::hypot(a.first - b.first, a.second - b.second); }

struct Sim {
    Cmp cmp{1e-10}; Swarm sw; double u = 1; long ox = 0, oy = 0;
    D2 at(IP p) { return D2(u * (p.x + ox), u * (p.y + oy)); }
    P pt(IP p) { D2 d = at(p); return P(d.first, d.second); }
    template <class C> C* make(const Ring& r) { return setup([&] { C* c = new C(); for(auto& p : r) c->push_back(pt(p)); return c; }); }
    template <class C> std::vector<D2> read(const C& c) { std::vector<D2> v; for(std::size_t i = 0; i < c.size(); ++i) v.push_back({get<0>(c[i]), get<1>(c[i])}); return v; }
    static std::string show(const std::vector<D2>& v) { std::string s; for(auto& p : v) { char b[60]; snprintf(b, sizeof b, "(%.9g,%.9g)", p.first, p.second); s += b; } return s; }
    static std::vector<D2> thin(const std::vector<D2>& v, double tol) { std::vector<D2> o; for(auto& p : v) if(o.empty() || dist(o.back(), p) > tol) o.push_back(p); return o; }
    // The part of a chain between two positions along it.
    static std::vector<D2> part(const std::vector<D2>& c, double from, double to) {
        std::vector<D2> o; double s = 0; auto point = [](D2 a, D2 b, double t) { return D2(a.first + t * (b.first - a.first), a.second + t * (b.second - a.second)); };
        for(std::size_t i = 0; i + 1 < c.size(); ++i) {
            double d = dist(c[i], c[i + 1]), lo = std::max(from, s), hi = std::min(to, s + d);
            if(lo <= hi) { o.push_back(point(c[i], c[i + 1], (lo - s) / d)); o.push_back(point(c[i], c[i + 1], (hi - s) / d)); }
            s += d;
        }
        if(o.empty() && !c.empty()) o.push_back(from <= 0 ? c.front() : c.back());
        return o;
    }
    static double length(const std::vector<D2>& c) { double s = 0; for(std::size_t i = 0; i + 1 < c.size(); ++i) s += dist(c[i], c[i + 1]); return s; }
    void same_curve(const char* what, const std::vector<D2>& got, const std::vector<D2>& want) {
        auto g = thin(got, 1e-7 * u), w = thin(want, 1e-7 * u); bool ok = g.size() == w.size();
        for(std::size_t i = 0; ok && i < g.size(); ++i) ok = dist(g[i], w[i]) < 1e-6 * u;
        GSIM_CHECK(ok, "wrong-part", "%s is %s, should be %s", what, show(got).c_str(), show(want).c_str());
        GSIM_CHECK(got.size() <= g.size() + 2, "repeated-points", "%s repeats points: %s", what, show(got).c_str());
    }
    // Every task runs its jobs on the shared inputs.
    template <class Draw, class One> void jobs(Draw draw, One one, int most = 3) {
        typedef decltype(draw()) J; std::vector<std::vector<J>> js(sw.tasks);
        for(auto& v : js) { int n = 1 + (int)choose(OP, most); for(int i = 0; i < n; ++i) { Span sp(OP); v.push_back(draw()); } }
        std::vector<std::function<void()>> bodies; for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(auto& j : js[t]) one(j); });
        parallel(bodies);
    }
    // One call returning a T that is checked and then destroyed; nothing may be left allocated.
    template <class T, class F, class Check> void result(const char* what, FaultPlan plan, F f, Check check) {
        std::int64_t b = sw.tasks == 1 ? live_blocks() : 0; T* r = nullptr;
        Outcome o = attempt(what, [&] { T* p = new T(f()); r = p; }, plan, false, 4000000);
        if(o == DONE) { check(*r); destroy(r); } else log("%s: out of memory", what);
        if(sw.tasks == 1) GSIM_CHECK(live_blocks() == b, "leak", "%s left %lld block(s) allocated", what, (long long)(live_blocks() - b));
        mix(o); yield();
    }
#if defined(PROP_C23)
    Ring A; Line* pa; Gon* pg; std::vector<D2> line, ring; double total = 0; std::vector<double> stops;
    struct Job { int what; double l; IP q; std::size_t edge; FaultPlan plan; };
    double draw_pos(bool beyond) {
        std::uint64_t k = choose(OP, 8);
        if(k == 0) return 0;
        if(k == 1 && beyond) return total * (chance(OP, 1, 2) ? 1 : 1.5);
        if(k <= 3) { double v = stops[choose(OP, stops.size())]; return !beyond && v >= total ? 0 : v; }
        for(int t = 0; t < 8; ++t) { double v = total * (1 + (double)choose(OP, 998)) / 1000; bool clear = true; for(double s : stops) clear = clear && std::fabs(s - v) > 1e-5 * u && std::fabs(total - s - v) > 1e-5 * u && std::fabs(total - 2 * v) > 1e-5 * u; if(clear) return v; }
        return total / 2 + total / 7777;
    }
    Job draw_job() {
        Job j; j.what = (int)choose(OP, 8); j.edge = choose(OP, A.size()); j.l = 0;
        IP a = A[j.edge], b = A[(j.edge + 1) % A.size()]; long t = (long)choose(OP, 9);
        if(j.what == 6 && j.edge + 1 == A.size()) { j.edge = 0; a = A[0]; b = A[1]; }
        j.q = IP{a.x * 8 + (b.x - a.x) * t, a.y * 8 + (b.y - a.y) * t};
        if(j.what == 7) j.l = length(ring) * (1 + (double)choose(OP, 700)) / 500; else j.l = draw_pos(j.what != 5);
        j.plan = draw_alloc_plan(sw.alloc_faults, 1, 4, 4); return j;
    }
    void one(const Job& j) {
        const double eps = 1e-9 * u;
        P q(u * (j.q.x / 8.0 + ox), u * (j.q.y / 8.0 + oy));
        std::vector<D2> back(line.rbegin(), line.rend());
        switch(j.what) {
        case 0: result<Line>("clip_polyline_front", j.plan, [&] { return clip_polyline_front(*pa, j.l, cmp); }, [&](const Line& r) {
            if(j.l >= total - eps) GSIM_CHECK(r.empty(), "not-empty", "cutting %g off a polyline of length %g leaves %zu points", j.l, total, r.size());
            else { same_curve("the polyline cut at its front", read(r), part(line, j.l, total)); nontrivial(); } probe("front"); }); break;
        case 1: result<Line>("clip_polyline_back", j.plan, [&] { return clip_polyline_back(*pa, j.l, cmp); }, [&](const Line& r) {
            if(j.l >= total - eps) GSIM_CHECK(r.empty(), "not-empty", "cutting %g off the back of a polyline of length %g leaves %zu points", j.l, total, r.size());
            else { auto w = part(back, j.l, total); std::reverse(w.begin(), w.end()); same_curve("the polyline cut at its back", read(r), w); nontrivial(); } probe("back"); }); break;
        case 2: result<Line>("clip_polyline_ends", j.plan, [&] { return clip_polyline_ends(*pa, j.l, cmp); }, [&](const Line& r) {
            if(2 * j.l >= total - eps) GSIM_CHECK(r.empty(), "not-empty", "cutting %g off both ends of a polyline of length %g leaves %zu points", j.l, total, r.size());
            else { same_curve("the polyline cut at both ends", read(r), part(line, j.l, total - j.l)); nontrivial(); } probe("ends"); }); break;
        case 3: result<std::tuple<Line, Line>>("polyline_split", j.plan, [&] { return polyline_split(*pa, j.l); }, [&](const std::tuple<Line, Line>& r) {
            double pos = std::min(j.l, total); same_curve("the first part of the split polyline", read(std::get<0>(r)), part(line, 0, pos)); same_curve("the second part of the split polyline", read(std::get<1>(r)), part(line, pos, total)); nontrivial(); probe("split"); }); break;
        case 4: result<P>("polyline_mid_point", FaultPlan(), [&] { return P(polyline_mid_point(*pa)); }, [&](const P& r) { same_curve("the mid point", {{get<0>(r), get<1>(r)}}, part(line, total / 2, total / 2)); }); break;
        case 5: { typedef std::tuple<std::size_t, boost::optional<P>> R; result<R>("polyline_point_at_position", FaultPlan(), [&] { return R(polyline_point_at_position(*pa, j.l)); }, [&](const R& r) {
            std::size_t i = std::get<0>(r); GSIM_CHECK(i + 1 < A.size(), "bad-index", "position %g of %g is on segment %zu of %zu", j.l, total, i, A.size() - 1);
            D2 g = std::get<1>(r) ? D2(get<0>(*std::get<1>(r)), get<1>(*std::get<1>(r))) : line[i]; same_curve("the point at a position", {g}, part(line, j.l, j.l));
            double lo = stops[i] , hi = stops[i + 1]; GSIM_CHECK(j.l > lo - eps && j.l < hi + eps, "bad-index", "position %g is reported on segment %zu, from %g to %g", j.l, i, lo, hi); probe("position"); }); } break;
        case 6: { typedef std::vector<double> R; result<R>("point_on_polyline_length_characteristics", FaultPlan(), [&] { auto t = point_on_polyline_length_characteristics(*pa, q, cmp); InMode s(SETUP); return R{(double)std::get<0>(t).value(), (double)std::get<1>(t).value(), (double)std::get<2>(t).value()}; }, [&](const R& r) {
            std::size_t i = 0; while(!on_seg(j.q, ISeg{{A[i].x * 8, A[i].y * 8}, {A[i + 1].x * 8, A[i + 1].y * 8}})) ++i;
            double before = stops[i] + dist(line[i], D2(get<0>(q), get<1>(q)));
            GSIM_CHECK((std::size_t)r[2] == i, "bad-index", "point (%g,%g) reported on segment %g, first lies on %zu", get<0>(q), get<1>(q), r[2], i);
            GSIM_CHECK(std::fabs(r[0] - before) < 1e-7 * u && std::fabs(r[1] - (total - before)) < 1e-7 * u, "wrong-length", "%.9g before and %.9g after the point, should be %.9g and %.9g", r[0], r[1], before, total - before); probe("characteristics"); }); } break;
        default: result<Line>("polygon_subsequence", j.plan, [&] { return polygon_subsequence(*pg, q, j.l, cmp); }, [&](const Line& r) {
            // the border unrolled from the point both ways
            std::size_t e = 0; while(!on_seg(j.q, ISeg{{A[e].x * 8, A[e].y * 8}, {A[(e + 1) % A.size()].x * 8, A[(e + 1) % A.size()].y * 8}})) ++e;
            std::size_t n = A.size(); D2 p0(get<0>(q), get<1>(q)); std::vector<D2> cw{p0}, ccw{p0}; double len = 0; for(std::size_t i = e + 1000 * n; len < j.l; --i) { D2 v = at(A[i % n]); len += dist(cw.back(), v); cw.push_back(v); } len = 0; for(std::size_t i = e + 1; len < j.l; ++i) { D2 v = at(A[i % n]); len += dist(ccw.back(), v); ccw.push_back(v); }
            cw = thin(cw, 1e-12); ccw = thin(ccw, 1e-12);
            auto a = part(cw, 0, j.l), b = part(ccw, 0, j.l); std::reverse(a.begin(), a.end()); bool vertex = j.q.x == A[e].x * 8 && j.q.y == A[e].y * 8; vertex = vertex || (j.q.x == A[(e + 1) % n].x * 8 && j.q.y == A[(e + 1) % n].y * 8);
            auto g = read(r); std::vector<D2> w = a; if(!vertex) { w = thin(a, 1e-9); w.pop_back(); b = thin(b, 1e-9); b.erase(b.begin()); } w.insert(w.end(), b.begin(), b.end());
            same_curve("the part of the border around a point", g, w); nontrivial(); probe("subsequence"); });
        }
    }
    void run() {
        long r = 2 + (long)choose(GEN, 8);
        A = draw_chain(GEN, 2, 9, r); if(A.back() == A.front()) A.push_back(IP{A.back().x + 3, A.back().y + 1});
        for(auto& p : A) line.push_back(at(p)); ring = line; ring.push_back(line.front());
        stops.push_back(0); for(std::size_t i = 0; i + 1 < line.size(); ++i) stops.push_back(stops.back() + dist(line[i], line[i + 1])); total = stops.back();
        log("unit %g, chain %s, length %.9g", u, hx::show(A).c_str(), total);
        pa = make<Line>(A); pg = make<Gon>(A);
        double l = 0, g = 0; attempt("length", [&] { l = polyline_length(*pa); g = polygon_length(*pg); });
        GSIM_CHECK(std::fabs(l - total) < 1e-7 * u && std::fabs(g - length(ring)) < 1e-7 * u, "wrong-length", "lengths %.9g and %.9g, should be %.9g and %.9g", l, g, total, length(ring));
        jobs([&] { return draw_job(); }, [&](const Job& j) { log("%d at %.9g near (%ld,%ld)/8", j.what, j.l, j.q.x, j.q.y); one(j); });
        GSIM_CHECK(read(*pa) == line && pg->size() == A.size(), "input-changed", "a query changed its argument");
    }
#else
    // ---- C24: simplification and cleaning
    Ring A; std::vector<D2> line; Line* pa; Gon* pg;
    struct Job { int what; double eps; FaultPlan plan; };
    // positions of got in the ring/chain, in order; empty if it is no subsequence
    std::vector<std::size_t> embed(const std::vector<D2>& got, const std::vector<D2>& in, std::size_t start = 0) { std::vector<std::size_t> k; std::size_t i = start; for(auto& g : got) { while(i < in.size() && !(in[i] == g)) ++i; if(i == in.size()) return {}; k.push_back(i++); } return k; }
    bool cyclic_sub(const std::vector<D2>& got, const std::vector<D2>& in) { for(std::size_t s = 0; s < in.size(); ++s) { std::vector<D2> rot(in); std::rotate(rot.begin(), rot.begin() + s, rot.end()); if(!embed(got, rot).empty()) return true; } return got.empty(); }
    double area2(const std::vector<D2>& p) { double a = 0; for(std::size_t i = 0; i < p.size(); ++i) { D2 s = p[i], t = p[(i + 1) % p.size()]; a += s.first * t.second - t.first * s.second; } return a; }
    static bool collinear(D2 a, D2 b, D2 c) { return (b.first - a.first) * (c.second - a.second) == (b.second - a.second) * (c.first - a.first); }
    void check_polygon(const char* what, const std::vector<D2>& g, bool collinear_out, bool equal_out) {
        GSIM_CHECK(cyclic_sub(g, line), "not-a-subsequence", "%s returned %s, whose vertices are not some of the polygon's in order", what, show(g).c_str());
        std::size_t n = g.size(); if(g.size() == line.size()) GSIM_CHECK(g == line, "changed", "%s reordered the vertices", what);
        // lattice units: exact in double
        GSIM_CHECK(area2(g) == area2(line), "area-changed", "%s changed the enclosed area from %g to %g: %s", what, area2(line) / 2, area2(g) / 2, show(g).c_str());
        if(n < 4) return;
        for(std::size_t i = 0; i < n; ++i) {
            if(collinear_out) GSIM_CHECK(!collinear(g[i], g[(i + 1) % n], g[(i + 2) % n]), "collinear-left", "%s left (%g,%g) between its collinear neighbours: %s", what, g[(i + 1) % n].first, g[(i + 1) % n].second, show(g).c_str());
            if(equal_out) GSIM_CHECK(!(g[i] == g[(i + 1) % n]), "equal-left", "%s left equal neighbours (%g,%g): %s", what, g[i].first, g[i].second, show(g).c_str());
        }
    }
    void one(const Job& j) {
        switch(j.what) {
        case 0: result<Line>("ramer_douglas_peucker_algorithm", j.plan, [&] { return ramer_douglas_peucker_algorithm(*pa, j.eps); }, [&](const Line& r) {
            auto g = read(r); GSIM_CHECK(g.size() >= 2 && g.front() == line.front() && g.back() == line.back(), "end-lost", "simplification lost an end: %s", show(g).c_str());
            // choose the embedding by following the vertices from both sides is ambiguous with repeated points: try all
            std::function<bool(std::size_t, std::size_t)> fit = [&](std::size_t k, std::size_t from) -> bool {
                if(k + 1 == g.size()) return from + 1 == line.size();
                for(std::size_t i = from + 1; i < line.size(); ++i) { if(!(line[i] == g[k + 1])) continue; bool ok = true; for(std::size_t m = from + 1; m < i && ok; ++m) { D2 a = line[from], b = line[i], p = line[m]; double L = dist(a, b), d = L > 0 ? std::fabs((b.first - a.first) * (p.second - a.second) - (b.second - a.second) * (p.first - a.first)) / L : dist(a, p); ok = d <= j.eps * (1 + 1e-9) + 1e-9; } if(ok && fit(k + 1, i)) return true; }
                return false; };
            GSIM_CHECK(fit(0, 0), "too-far", "simplification within %g returned %s, but a dropped vertex lies further from it", j.eps, show(g).c_str());
            double far = 0; D2 a = line.front(), b = line.back(); for(auto& p : line) { double L = dist(a, b); far = std::max(far, L > 0 ? std::fabs((b.first - a.first) * (p.second - a.second) - (b.second - a.second) * (p.first - a.first)) / L : dist(a, p)); }
            if(far < j.eps * (1 - 1e-9) - 1e-9) GSIM_CHECK(g.size() == 2, "not-simplified", "every vertex is within %g of the line through the ends, but %zu vertices were kept", j.eps, g.size());
            if(g.size() > 2 && g.size() < line.size()) { nontrivial(); probe("simplified"); } if(a == b) probe("closed"); }); break;
        case 1: result<Gon>("remove_collinear_points_polygon", j.plan, [&] { return remove_collinear_points_polygon(*pg, cmp); }, [&](const Gon& r) { auto g = read(r); if(line.size() > 3) check_polygon("remove_collinear_points_polygon", g, true, true); if(g.size() < line.size()) { nontrivial(); probe("collinear-removed"); } }); break;
        case 2: result<Gon>("coalesce_adjacent_points_polygon", j.plan, [&] { return coalesce_adjacent_points_polygon(*pg, cmp); }, [&](const Gon& r) { auto g = read(r); if(line.size() > 3) check_polygon("coalesce_adjacent_points_polygon", g, false, true); if(g.size() < line.size()) { nontrivial(); probe("equal-removed"); } }); break;
        case 3: result<Gon>("clean_polygon", j.plan, [&] { return clean_polygon(*pg, cmp); }, [&](const Gon& r) { if(line.size() > 3) check_polygon("clean_polygon", read(r), true, true); }); break;
        case 4: { typedef std::set<std::size_t> R; bool col = j.eps < 1; result<R>(col ? "identify_collinear_points_polygon" : "identify_adjacent_points_polygon", j.plan, [&] { return col ? identify_collinear_points_polygon(*pg, cmp) : identify_adjacent_points_polygon(*pg, cmp); }, [&](const R& r) {
            std::vector<D2> left; for(auto i : r) GSIM_CHECK(i < line.size(), "bad-index", "index %zu of %zu points reported", i, line.size()); for(std::size_t i = 0; i < line.size(); ++i) if(!r.count(i)) left.push_back(line[i]);
            if(line.size() > 3) check_polygon(col ? "a polygon without its points identified as collinear" : "a polygon without its points identified as adjacent", left, col, true); if(!r.empty()) { nontrivial(); probe("identified"); } }); } break;
        case 5: case 6: result<Line>(j.what == 5 ? "remove_collinear_points_polyline" : "clean_polyline", j.plan, [&] { return j.what == 5 ? remove_collinear_points_polyline(*pa, cmp) : clean_polyline(*pa, cmp); }, [&](const Line& r) {
            auto g = read(r); auto k = embed(g, line); GSIM_CHECK(!g.empty() && g.front() == line.front() && g.back() == line.back() && !k.empty(), "end-lost", "cleaning the polyline returned %s", show(g).c_str());
            for(std::size_t i = 0; i + 2 < g.size(); ++i) GSIM_CHECK(!collinear(g[i], g[i + 1], g[i + 2]), "collinear-left", "(%g,%g) left between its collinear neighbours: %s", g[i + 1].first, g[i + 1].second, show(g).c_str());
            if(!folded) for(auto& p : line) { bool on = false; for(std::size_t i = 0; i + 1 < g.size(); ++i) on = on || (collinear(g[i], g[i + 1], p) && std::fabs(dist(g[i], p) + dist(p, g[i + 1]) - dist(g[i], g[i + 1])) < 1e-7 * u); GSIM_CHECK(on, "vertex-lost", "(%g,%g) is no longer on the polyline: %s", p.first, p.second, show(g).c_str()); }
            probe("polyline-cleaned"); }); break;
        default: result<Line>("coalesce_adjacent_points_polyline", j.plan, [&] { return coalesce_adjacent_points_polyline(*pa, cmp); }, [&](const Line& r) {
            auto g = read(r); std::vector<D2> w = thin(line, 0); if(line.size() > 2) GSIM_CHECK(g == w, "wrong-points", "coalescing returned %s, should be %s", show(g).c_str(), show(w).c_str()); });
        }
    }
    bool folded = false;
    void run() {
        long r = 2 + (long)choose(GEN, 6);
        A = draw_chain(GEN, 3, 9, r);
        // straight joints, repeated points, at the seam as well; the enclosed area is not zero
        int n = (int)choose(GEN, 4); for(int i = 0; i < n; ++i) { Span sp(GEN); std::size_t k = choose(GEN, A.size()); IP a = A[k], b = A[(k + 1) % A.size()]; if(chance(GEN, 1, 2)) { for(auto& p : A) { p.x *= 2; p.y *= 2; } A.insert(A.begin() + k + 1, IP{a.x + b.x, a.y + b.y}); } else A.insert(A.begin() + k, 1 + choose(GEN, 2), a); }
        if(chance(GEN, 1, 2)) std::rotate(A.begin(), A.begin() + choose(GEN, A.size()), A.end());
        if(chance(GEN, 1, 4)) A.push_back(A.front());
        for(auto& p : A) line.push_back(at(p));
        if(area2(line) == 0 || thin(line, 0).size() < 3) { A = Ring{{0, 0}, {2, 0}, {4, 0}, {4, 3}, {2, 3}, {0, 3}}; line.clear(); for(auto& p : A) line.push_back(at(p)); }
        for(std::size_t i = 0; i + 2 < A.size(); ++i) { auto& a = A[i]; for(std::size_t k = i + 1; k + 1 < A.size(); ++k) { IP b = A[k], c = A[k + 1]; if(b == a || c == b) continue; if(cross(a, b, c) == 0 && ((b.x - a.x) * (c.x - b.x) + (b.y - a.y) * (c.y - b.y)) < 0) folded = true; } }
        log("unit %g, points %s%s", u, hx::show(A).c_str(), folded ? " (folded)" : "");
        pa = make<Line>(A); pg = make<Gon>(A);
        jobs([&] { Job j; j.what = (int)choose(OP, 8); static const double es[] = {0.4, 1, 0, 2.5, 0.01, 5}; j.eps = es[choose(OP, 6)] * (j.what == 4 ? 1 : u); j.plan = draw_alloc_plan(sw.alloc_faults, 1, 4, 5); return j; }, [&](const Job& j) { log("%d with %g", j.what, j.eps); one(j); });
        GSIM_CHECK(read(*pa) == line && read(*pg) == line, "input-changed", "a query changed its argument");
    }
#endif
    void start() {
        sw = draw_swarm(3); static const double us[] = {1, 0.25, 4, 0.125}; u = us[choose(GEN, 4)];
        if(chance(GEN, 1, 4)) { ox = lattice(GEN, 100); oy = lattice(GEN, 100); }
        run();
    }
};
} // namespace
void gsim_run() { Sim s; s.start(); }

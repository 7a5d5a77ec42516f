// Polylines and polygons as borders: what meets what (C20), simplicity and
// containment (C21), the part of a segment or convex polygon inside a polygon (C22).
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_polygon_intersection.hpp>
#include <geometrix/algorithm/intersection/convex_polygon_polygon_intersection.hpp>
#include <geometrix/algorithm/point_sequence/self_intersection.hpp>
#include <geometrix/algorithm/point_sequence/is_polygon_simple.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polygon_containment.hpp>
#include <geometrix/algorithm/point_sequence/polygon_polyline_containment.hpp>
#include <functional>
#include <tuple>
#include "chains.hpp"
#if defined(PROP_C20)
const char* const gsim_property = "C20";
#elif defined(PROP_C21)
const char* const gsim_property = "C21";
#else
const char* const gsim_property = "C22";
#endif
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef segment_double_2d S;
typedef absolute_tolerance_comparison_policy<double> Cmp;

namespace {
struct Sim {
    Cmp cmp{1e-10}; Swarm sw; double u = 1; long ox = 0, oy = 0;      // coordinates are u * (lattice + offset)
    P pt(IP p) { return P(u * (p.x + ox), u * (p.y + oy)); }
    S sg(ISeg s) { return S(pt(s.a), pt(s.b)); }
    template <class C> C* make(const Ring& r) { return setup([&] { C* c = new C(); for(auto& p : r) c->push_back(pt(p)); return c; }); }
    bool same(double x, double y, const P& p) { return close(u * (x + ox), get<0>(p), 1e-7 * u) && close(u * (y + oy), get<1>(p), 1e-7 * u); }

    // One visitor call as recorded
    struct Call { std::size_t k[4]; int type; P a, b; };
    struct Visit {
        Sim* self; std::vector<Call>* out; long stop_at, throw_at, nest_at; std::function<void()> nested;
        bool take(std::size_t i1, std::size_t j1, std::size_t i2, std::size_t j2, int type, const P& a, const P& b) {
            InMode h(HARNESS);
            out->push_back(Call{{i1, j1, i2, j2}, type, a, b}); yield(); long n = (long)out->size();
            GSIM_CHECK(n < 5000, "endless", "a visitor was called more than 5000 times");
            if(n == nest_at && nested) { fault("visitor-reentry"); nested(); }
            if(n == throw_at) { fault("visitor-throw"); throw SimThrow{1}; }
            if(n == stop_at) { fault("visitor-stop"); return true; }
            return false;
        }
        Visit(Sim* s, std::vector<Call>* o, long st, long th, long ne) : self(s), out(o), stop_at(st), throw_at(th), nest_at(ne) {}
        Visit(const Visit&) = delete; Visit& operator=(const Visit&) = delete;      // the caller's visitor itself must be called
        bool operator()(intersection_type t, std::size_t i, std::size_t j, const P& a, const P& b) { return take(0, 1, i, j, t, a, b); }
        bool operator()(intersection_type t, std::size_t i1, std::size_t j1, std::size_t i, std::size_t j, const P& a, const P& b) { return take(i1, j1, i, j, t, a, b); }
        void operator()(std::size_t i, std::size_t j, intersection_type t, const P& a, const P& b) { take(i, i + 1, j, j + 1, t, a, b); }
        bool operator()(intersection_type t, std::size_t, std::size_t, std::size_t, std::size_t, P, P, int) = delete;
    };
    void check_type(const char* what, const Meeting& m, int type, const P& a, const P& b, const char* where) {
        static const char* names[] = {"do not meet", "cross", "touch", "overlap"};
        Meet got = type == e_crossing ? CROSS : type == e_endpoint ? TOUCH : type == e_overlapping ? OVERLAP : NONE;
        GSIM_CHECK(got == m.m, "wrong-kind", "%s: %s reported as intersection type %d, but they %s", what, where, type, names[m.m]);
        if(m.m == OVERLAP) { bool ok = (same(m.x[0], m.y[0], a) && same(m.x[1], m.y[1], b)) || (same(m.x[0], m.y[0], b) && same(m.x[1], m.y[1], a)); GSIM_CHECK(ok, "wrong-point", "%s: %s overlap from (%g,%g) to (%g,%g) in lattice units, reported (%.9g,%.9g)-(%.9g,%.9g)", what, where, m.x[0], m.y[0], m.x[1], m.y[1], get<0>(a), get<1>(a), get<0>(b), get<1>(b)); probe("overlap"); }
        else { GSIM_CHECK(same(m.x[0], m.y[0], a), "wrong-point", "%s: %s meet at (%g,%g) in lattice units, reported (%.9g,%.9g)", what, where, m.x[0], m.y[0], get<0>(a), get<1>(a)); probe(m.m == CROSS ? "cross" : "touch"); }
    }
#if defined(PROP_C20)
    Ring A, B; polyline<P>*pa, *pb; polygon<P>* pg; ISeg seg;
    struct Job { int what; long stop, thr, nest; FaultPlan plan; bool done; };
    struct Pair { std::size_t k[4]; ISeg a, b; };
    std::vector<Pair> pairs(int what) {
        std::vector<Pair> v;
        if(what == 0 || what == 1) for(std::size_t j = 0; j + 1 < B.size(); ++j) v.push_back({{0, 1, j, j + 1}, seg, {B[j], B[j + 1]}});
        if(what == 2 || what == 3) for(std::size_t j = 0; j < B.size(); ++j) v.push_back({{0, 1, j, (j + 1) % B.size()}, seg, {B[j], B[(j + 1) % B.size()]}});
        if(what == 4) for(std::size_t i = 0; i + 1 < A.size(); ++i) for(std::size_t j = 0; j + 1 < B.size(); ++j) v.push_back({{i, i + 1, j, j + 1}, {A[i], A[i + 1]}, {B[j], B[j + 1]}});
        if(what == 5) for(std::size_t i = 0; i + 1 < A.size(); ++i) for(std::size_t j = i + 1; j + 1 < A.size(); ++j) v.push_back({{i, i + 1, j, j + 1}, {A[i], A[i + 1]}, {A[j], A[j + 1]}});
        return v;
    }
    static const char* name(int w) { static const char* n[] = {"points against polyline", "segment against polyline", "points against polygon border", "segment against polygon border", "polyline against polyline", "polyline against itself"}; return n[w]; }
    bool call(int what, Visit& v) {
        if(what == 0) return segment_polyline_intersect(pt(seg.a), pt(seg.b), *pb, v, cmp);
        if(what == 1) return segment_polyline_intersect(sg(seg), *pb, v, cmp);
        if(what == 2) return segment_polygon_border_intersect(pt(seg.a), pt(seg.b), *pg, v, cmp);
        if(what == 3) return segment_polygon_border_intersect(sg(seg), *pg, v, cmp);
        if(what == 4) return polyline_polyline_intersect(*pa, *pb, v, cmp);
        return polyline_self_intersection(*pa, v, cmp);
    }
    void one(Job j, int depth) {
        std::vector<Call> got; bool can_stop = j.what != 5;
        Visit v(this, &got, can_stop ? j.stop : 0, j.thr, depth ? 0 : j.nest);
        Job inner = j; inner.what = (j.what + 1 + (int)j.nest) % 6; inner.stop = inner.thr = inner.nest = 0; inner.plan = FaultPlan();
        v.nested = [this, inner] { one(inner, 1); };
        bool res = false;
        Outcome o = attempt(name(j.what), [&] { res = call(j.what, v); }, j.plan, j.thr > 0, 2000000);
        if(j.thr && o == DONE) GSIM_CHECK((long)got.size() < j.thr, "exception-swallowed", "%s: the visitor's exception did not reach the caller", name(j.what));
        std::map<std::array<std::size_t, 4>, int> seen; std::size_t expected = 0; bool stopped = v.stop_at && (long)got.size() >= v.stop_at;
        if(stopped) GSIM_CHECK((long)got.size() == v.stop_at, "stop-ignored", "%s: the visitor asked to stop at its call %ld and was called %zu times", name(j.what), v.stop_at, got.size());
        auto ps = pairs(j.what); std::map<std::array<std::size_t, 4>, Pair> by;
        for(auto& p : ps) by[{p.k[0], p.k[1], p.k[2], p.k[3]}] = p;
        for(auto& c : got) {
            std::array<std::size_t, 4> k{c.k[0], c.k[1], c.k[2], c.k[3]}; char where[100]; snprintf(where, sizeof where, "edges %zu-%zu and %zu-%zu", k[0], k[1], k[2], k[3]);
            GSIM_CHECK(by.count(k), "no-such-edge", "%s: visitor called for %s, which do not exist", name(j.what), where);
            GSIM_CHECK(seen[k]++ == 0, "visited-twice", "%s: visitor called twice for %s", name(j.what), where);
            Meeting m = meet(by[k].a, by[k].b); check_type(name(j.what), m, c.type, c.a, c.b, where);
            if(j.what == 5 && k[2] == k[0] + 1) GSIM_CHECK(m.m == OVERLAP, "joint-reported", "%s: the joint of adjacent %s reported as an intersection", name(j.what), where);
        }
        for(auto& p : ps) { Meeting m = meet(p.a, p.b); if(m.m == NONE || (j.what == 5 && p.k[2] == p.k[0] + 1 && m.m != OVERLAP)) continue; ++expected; if(o == DONE && !stopped) GSIM_CHECK(seen.count({p.k[0], p.k[1], p.k[2], p.k[3]}), "missed", "%s: edges %zu-%zu and %zu-%zu meet at (%g,%g) in lattice units, but the visitor was not called", name(j.what), p.k[0], p.k[1], p.k[2], p.k[3], m.x[0], m.y[0]); }
        if(o == DONE) GSIM_CHECK(res == (expected > 0), "wrong-result", "%s returned %d, but there are %zu meetings%s", name(j.what), (int)res, expected, stopped ? " (stopped)" : "");
        log("%s: %zu of %zu meetings%s", name(j.what), got.size(), expected, stopped ? ", stopped" : o == THREW ? ", visitor threw" : "");
        mix(got.size() * 31 + expected); if(expected > 1) nontrivial();
    }
    void run() {
        long r = 2 + (long)choose(GEN, 6);
        A = draw_chain(GEN, 2, 8, r); B = draw_chain(GEN, 3, 8, r); if(B.back() == B.front()) B.back() = IP{B.back().x + r + 5, B.back().y + 1};
        if(chance(GEN, 1, 3)) { seg = {B[choose(GEN, B.size())], {lattice(GEN, r), lattice(GEN, r)}}; } else seg = {{lattice(GEN, r), lattice(GEN, r)}, {lattice(GEN, r), lattice(GEN, r)}};
        if(chance(GEN, 1, 4)) { std::size_t i = choose(GEN, B.size() - 1); long k = 1 + (long)choose(GEN, 3); IP d{B[i + 1].x - B[i].x, B[i + 1].y - B[i].y}; seg = {{B[i].x - d.x * (long)choose(GEN, 2), B[i].y - d.y * (long)choose(GEN, 2)}, {B[i].x + d.x * k, B[i].y + d.y * k}}; }
        if(seg.a == seg.b) seg.b.x += 2;
        if(chance(GEN, 1, 2)) std::swap(seg.a, seg.b);
        log("units %g offset (%ld,%ld); polyline A %s; polyline B %s; segment (%ld,%ld)-(%ld,%ld)", u, ox, oy, show(A).c_str(), show(B).c_str(), seg.a.x, seg.a.y, seg.b.x, seg.b.y);
        pa = make<polyline<P>>(A); pb = make<polyline<P>>(B); pg = make<polygon<P>>(B);
        std::vector<std::vector<Job>> jobs(sw.tasks);
        for(auto& v : jobs) { int k = 1 + (int)choose(OP, 4); for(int i = 0; i < k; ++i) { Span sp(OP); Job j; j.what = (int)choose(OP, 6); j.stop = sw.early_stop && chance(FAULT, 1, 3) ? 1 + (long)choose(FAULT, 4) : 0; j.thr = sw.throwing_callbacks && chance(FAULT, 1, 4) ? 1 + (long)choose(FAULT, 4) : 0; j.nest = sw.reentry && chance(FAULT, 1, 3) ? 1 + (long)choose(FAULT, 3) : 0; j.plan = draw_alloc_plan(sw.alloc_faults, 1, 4, 3); v.push_back(j); } }
        std::vector<std::function<void()>> bodies;
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(auto& j : jobs[t]) one(j, 0); });
        parallel(bodies);
        auto same_points = [&](auto& c, const Ring& r) { bool ok = c.size() == r.size(); for(std::size_t i = 0; ok && i < r.size(); ++i) { P e = pt(r[i]); ok = get<0>(c[i]) == get<0>(e) && get<1>(c[i]) == get<1>(e); } return ok; };
        GSIM_CHECK(same_points(*pa, A) && same_points(*pb, B) && same_points(*pg, B), "input-changed", "a query changed the points of its argument");
    }
#endif
#if defined(PROP_C21)
    void run() {
        long r = 2 + (long)choose(GEN, 7);
        int k = (int)choose(GEN, 4);
        if(k == 0) simple(r); else if(k == 1) holed(r); else if(k == 2) contained(r); else points(r);
    }
    // Runs one predicate in every task, under allocation failures.
    void predicate(const char* what, bool expect, const std::string& why, const std::function<bool()>& f, bool ends = true) {
        std::vector<std::function<void()>> bodies; std::vector<std::vector<FaultPlan>> plans(sw.tasks);
        for(auto& v : plans) { int n = 1 + (int)choose(OP, 2); for(int i = 0; i < n; ++i) { Span sp(FAULT); v.push_back(draw_alloc_plan(sw.alloc_faults, 1, 3, 6)); } }
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] {
            for(auto& plan : plans[t]) {
                bool got = false; std::int64_t b = sw.tasks == 1 ? live_blocks() : 0;
                Outcome o = attempt(what, [&] { got = f(); }, plan, false, 8000000);
                if(sw.tasks == 1) GSIM_CHECK(live_blocks() == b, "leak", "%s left %lld block(s) allocated", what, (long long)(live_blocks() - b));
                if(o == DONE) GSIM_CHECK(got == expect, "wrong-answer", "%s answered %s; %s", what, got ? "yes" : "no", why.c_str());
                mix(o * 2 + got); yield();
            }
        });
        parallel(bodies);
        log("%s: %s", what, expect ? "yes" : "no"); probe(expect ? "yes" : "no");
    }
    void simple(long r) {
        Ring A = draw_ring(GEN, r); auto e = ring_edges(A); std::string why = "no two edges meet away from a shared vertex"; bool ok = true;
        for(std::size_t i = 0; i < e.size() && ok; ++i) for(std::size_t j = i + 2; j < e.size() && ok; ++j) if(!(i == 0 && j == e.size() - 1) && meet(e[i], e[j]).m != NONE) { ok = false; why = "edges " + std::to_string(i) + " and " + std::to_string(j) + " meet"; }
        log("polygon %s", show(A).c_str());
        polygon<P>* pg = make<polygon<P>>(A);
        predicate("is_polygon_simple", ok, why, [&] { return is_polygon_simple(*pg, cmp); });
        predicate("is_polygon_simple_memoized", ok, why, [&] { return is_polygon_simple_memoized(*pg, cmp); });
        nontrivial();
    }
    void holed(long r) {
        std::vector<Ring> rings{draw_simple(GEN, r)}; int n = (int)choose(GEN, 3);
        if(chance(GEN, 1, 2)) rings[0] = Ring{{-2 * r, -2 * r}, {2 * r, -2 * r}, {2 * r, 2 * r}, {-2 * r, 2 * r}};
        for(int i = 0; i < n; ++i) { Span sp(GEN); Ring h = chance(GEN, 1, 4) ? draw_ring(GEN, 3) : draw_simple(GEN, 3); long dx = lattice(GEN, r), dy = lattice(GEN, r); for(auto& p : h) { p.x += dx; p.y += dy; } rings.push_back(h); }
        bool ok = true; std::string why = "every ring is simple and no two rings meet";
        for(std::size_t i = 0; i < rings.size(); ++i) {
            log("%s %s", i ? "  hole" : "outer", show(rings[i]).c_str());
            if(ok && !ring_simple(rings[i])) { ok = false; why = "ring " + std::to_string(i) + " is not simple"; }
            for(std::size_t j = 0; j < i && ok; ++j) for(auto& a : ring_edges(rings[i])) for(auto& b : ring_edges(rings[j])) if(meet(a, b).m != NONE && ok) { ok = false; why = "rings " + std::to_string(j) + " and " + std::to_string(i) + " meet"; }
        }
        std::vector<polygon<P>*> parts; for(auto& q : rings) parts.push_back(make<polygon<P>>(q));
        polygon_with_holes<P>* pw = nullptr; setup([&] { pw = new polygon_with_holes<P>(*parts[0]); for(std::size_t i = 1; i < parts.size(); ++i) pw->add_hole(*parts[i]); });
        for(std::size_t i = 0; i < parts.size(); ++i) GSIM_CHECK(parts[i]->size() == rings[i].size(), "input-changed", "building a polygon with holes from the caller's polygons changed ring %zu: %zu of %zu vertices left", i, parts[i]->size(), rings[i].size());
        predicate("is_polygon_with_holes_simple", ok, why, [&] { return is_polygon_with_holes_simple(*pw, cmp); });
        if(n) { nontrivial(); probe(ok ? "holes-simple" : "holes-not-simple"); }
    }
    void contained(long r) {
        Ring B = draw_simple(GEN, r); auto border = ring_edges(B); bool poly = chance(GEN, 1, 2); Ring A;
        int how = (int)choose(GEN, 3); long s = how == 0 ? r : how == 1 ? 2 : r / 2 + 1;
        if(poly) A = draw_simple(GEN, s); else { A = draw_chain(GEN, 1, 6, s); }
        if(how) { IP d = B[choose(GEN, B.size())]; IP c = A[choose(GEN, A.size())]; if(chance(GEN, 1, 2)) c = IP{-lattice(GEN, 2), -lattice(GEN, 2)}; for(auto& p : A) { p.x += d.x - c.x; p.y += d.y - c.y; } }
        if(chance(GEN, 1, 6)) { A = B; if(chance(GEN, 1, 2)) std::reverse(A.begin(), A.end()); }
        else if(!poly && chance(GEN, 1, 4)) { A.clear(); int n = 2 + (int)choose(GEN, 4); for(int i = 0; i < n; ++i) { IP q = B[choose(GEN, B.size())]; if(A.empty() || !(A.back() == q)) A.push_back(q); } }
        bool ok = true; std::string why = "every point of it lies in the polygon or on its border";
        std::vector<ISeg> e; if(poly) e = ring_edges(A); else for(std::size_t i = 0; i + 1 < A.size(); ++i) e.push_back({A[i], A[i + 1]});
        if(e.empty()) { ok = classify(A[0], border) != OUTSIDE; if(!ok) why = "its only point is outside"; }
        for(std::size_t i = 0; i < e.size() && ok; ++i) if(!seg_inside(e[i], border)) { ok = false; why = "edge " + std::to_string(i) + " leaves the polygon"; }
        log("container %s", show(B).c_str()); log("%s %s", poly ? "polygon" : "polyline", show(A).c_str());
        polygon<P>* pb = make<polygon<P>>(B);
        if(poly) { polygon<P>* pa = make<polygon<P>>(A); predicate("polygon_polygon_containment", ok, why, [&] { return polygon_polygon_containment(*pa, *pb, cmp); }); }
        else { polyline<P>* pa = make<polyline<P>>(A); predicate("polygon_polyline_containment", ok, why, [&] { return polygon_polyline_containment(*pa, *pb, cmp); }); }
        bool touch = false; for(auto& a : e) for(auto& b : border) touch = touch || meet(a, b).m != NONE;
        if(touch) { nontrivial(); probe(ok ? "contained-touching" : "crossing"); }
    }
    void points(long r) {
        Ring B = draw_simple(GEN, r); auto border = ring_edges(B); polygon<P>* pb = make<polygon<P>>(B); auto b8 = scaled(border, 8);
        log("polygon %s", show(B).c_str());
        std::vector<std::vector<IP>> q(sw.tasks); long lo = 0, hi = 0; for(auto& p : B) { lo = std::min({lo, p.x, p.y}); hi = std::max({hi, p.x, p.y}); }
        for(auto& v : q) { int n = 2 + (int)choose(OP, 6); for(int i = 0; i < n; ++i) { Span sp(OP); IP p; std::uint64_t k = choose(OP, 4);
            if(k == 0) { p = B[choose(OP, B.size())]; p.x *= 8; p.y *= 8; }
            else if(k == 1) { ISeg s = border[choose(OP, border.size())]; long t = (long)choose(OP, 9); p = IP{s.a.x * 8 + (s.b.x - s.a.x) * t, s.a.y * 8 + (s.b.y - s.a.y) * t}; }
            else if(k == 2) { p = IP{8 * range(OP, lo - 1, hi + 1), 8 * B[choose(OP, B.size())].y}; }       // level with a vertex
            else p = IP{range(OP, 8 * lo - 4, 8 * hi + 4), range(OP, 8 * lo - 4, 8 * hi + 4)};
            v.push_back(p); } }
        std::vector<std::function<void()>> bodies;
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] {
            for(IP p : q[t]) {
                P pp(u * (p.x / 8.0 + ox), u * (p.y / 8.0 + oy)); Where w = classify(p, b8); bool vertex = false; for(auto& v : B) vertex = vertex || (v.x * 8 == p.x && v.y * 8 == p.y);
                polygon_containment c = polygon_containment::exterior; bool in = false;
                attempt("point containment", [&] { c = point_polygon_containment_or_on_border(pp, *pb, cmp); in = point_in_polygon(pp, *pb); }, FaultPlan(), false, 400000);
                polygon_containment e = vertex ? polygon_containment::vertex : w == BORDER ? polygon_containment::border : w == INSIDE ? polygon_containment::interior : polygon_containment::exterior;
                GSIM_CHECK(c == e, "wrong-answer", "point (%g,%g) classified as %d, is %d (0 outside, 1 inside, 2 on the border, 3 a vertex)", p.x / 8.0, p.y / 8.0, (int)c, (int)e);
                if(w != BORDER) GSIM_CHECK(in == (w == INSIDE), "wrong-answer", "point_in_polygon says %d of (%g,%g), which is %s", (int)in, p.x / 8.0, p.y / 8.0, w == INSIDE ? "inside" : "outside");
                mix((int)c); probe(w == BORDER ? "point-border" : w == INSIDE ? "point-inside" : "point-outside"); yield();
            }
        });
        parallel(bodies); nontrivial();
    }
#endif
#if defined(PROP_C22)
    // ---- the part of a segment inside a polygon
    void clip_segment(long r) {
        Ring B = draw_simple(GEN, r); auto border = ring_edges(B); polygon<P>* pb = make<polygon<P>>(B); log("polygon %s", show(B).c_str());
        struct Job { ISeg s; long thr, nest; FaultPlan plan; }; std::vector<std::vector<Job>> jobs(sw.tasks);
        for(auto& v : jobs) { int n = 1 + (int)choose(OP, 3); for(int i = 0; i < n; ++i) { Span sp(OP); Job j; std::uint64_t k = choose(OP, 4);
            j.s = {{lattice(OP, r + 2), lattice(OP, r + 2)}, {lattice(OP, r + 2), lattice(OP, r + 2)}};
            if(k == 1) { j.s.a = B[choose(OP, B.size())]; } else if(k == 2) { j.s.a = B[choose(OP, B.size())]; j.s.b = B[choose(OP, B.size())]; }
            else if(k == 3) { ISeg e = border[choose(OP, border.size())]; long a = range(OP, -1, 1), b = range(OP, 1, 2); IP d{e.b.x - e.a.x, e.b.y - e.a.y}; j.s = {{e.a.x + a * d.x, e.a.y + a * d.y}, {e.a.x + b * d.x, e.a.y + b * d.y}}; }
            if(j.s.a == j.s.b) j.s.b.x += 1;
            if(chance(OP, 1, 2)) std::swap(j.s.a, j.s.b);
            j.thr = sw.throwing_callbacks && chance(FAULT, 1, 4) ? 1 + (long)choose(FAULT, 3) : 0; j.nest = sw.reentry && chance(FAULT, 1, 3) ? 1 + (long)choose(FAULT, 2) : 0; j.plan = draw_alloc_plan(sw.alloc_faults, 1, 3, 4); v.push_back(j); } }
        std::function<void(const Job&, int)> one = [&](const Job& j, int depth) {
            std::vector<S> got; bool res = false; S s = sg(j.s); std::int64_t b = sw.tasks == 1 && !j.nest ? live_blocks() : -1;
            auto visit = [&](const S& piece) { InMode h(HARNESS); got.push_back(piece); yield(); long n = (long)got.size(); GSIM_CHECK(n < 1000, "endless", "visitor called 1000 times"); if(n == j.nest && !depth) { fault("visitor-reentry"); Job in = j; in.thr = 0; in.plan = FaultPlan(); std::swap(in.s.a, in.s.b); one(in, 1); } if(n == j.thr) { fault("visitor-throw"); throw SimThrow{1}; } };
            Outcome o = attempt("segment_polygon_intersection", [&] { res = segment_polygon_intersection(s, *pb, visit, cmp); }, j.plan, j.thr > 0, 4000000);
            if(b >= 0) GSIM_CHECK(live_blocks() == b, "leak", "the intersection left %lld block(s) allocated", (long long)(live_blocks() - b));
            if(j.thr && o == DONE) GSIM_CHECK((long)got.size() < j.thr, "exception-swallowed", "the visitor's exception did not reach the caller");
            auto pieces = cut(j.s, border); bool any = false, meets = false; for(auto& p : pieces) any = any || p.w != OUTSIDE; for(auto& e : border) meets = meets || meet(j.s, e).m != NONE;
            // the visited pieces along the segment
            double L2 = (double)(j.s.b.x - j.s.a.x) * (j.s.b.x - j.s.a.x) + (double)(j.s.b.y - j.s.a.y) * (j.s.b.y - j.s.a.y); std::vector<std::pair<double, double>> iv;
            for(auto& g : got) { double t[2]; int n = 0; for(const P& q : {g.get_start(), g.get_end()}) { double x = get<0>(q) / u - ox - j.s.a.x, y = get<1>(q) / u - oy - j.s.a.y, dx = j.s.b.x - j.s.a.x, dy = j.s.b.y - j.s.a.y; t[n++] = (x * dx + y * dy) / L2; GSIM_CHECK(std::fabs(x * dy - y * dx) <= 1e-6 * std::sqrt(L2), "off-segment", "a reported piece ends at (%.9g,%.9g), off the segment", get<0>(q), get<1>(q)); } if(t[0] > t[1]) std::swap(t[0], t[1]); GSIM_CHECK(t[0] > -1e-6 && t[1] < 1 + 1e-6, "off-segment", "a reported piece reaches beyond the segment (%.9g..%.9g)", t[0], t[1]); GSIM_CHECK(t[1] - t[0] > 1e-7, "empty-piece", "an empty piece was reported at %.9g", t[0]); iv.push_back({t[0], t[1]}); }
            std::sort(iv.begin(), iv.end());
            for(std::size_t i = 0; i + 1 < iv.size(); ++i) GSIM_CHECK(iv[i].second < iv[i + 1].first + 1e-6, "reported-twice", "the reported pieces %.9g..%.9g and %.9g..%.9g overlap", iv[i].first, iv[i].second, iv[i + 1].first, iv[i + 1].second);
            for(auto& p : pieces) { double m = (p.lo + p.hi) / 2; bool cov = false; for(auto& v : iv) cov = cov || (v.first < m && m < v.second); 
                if(cov) GSIM_CHECK(p.w != OUTSIDE, "outside-reported", "the part %.9g..%.9g of (%ld,%ld)-(%ld,%ld) lies outside but was reported", p.lo, p.hi, j.s.a.x, j.s.a.y, j.s.b.x, j.s.b.y);
                else if(o == DONE) GSIM_CHECK(p.w == OUTSIDE, "missed", "the part %.9g..%.9g of (%ld,%ld)-(%ld,%ld) lies in the polygon but was not reported", p.lo, p.hi, j.s.a.x, j.s.a.y, j.s.b.x, j.s.b.y);
                for(auto& v : iv) { bool clear = v.second <= p.lo + 1e-6 || v.first >= p.hi - 1e-6 || (v.first <= p.lo + 1e-6 && v.second >= p.hi - 1e-6); GSIM_CHECK(clear, "wrong-cut", "the reported piece %.9g..%.9g ends inside the part %.9g..%.9g, away from the border", v.first, v.second, p.lo, p.hi); } }
            if(o == DONE) GSIM_CHECK(res == (any || meets), "wrong-result", "returned %d for (%ld,%ld)-(%ld,%ld), which %s the polygon", (int)res, j.s.a.x, j.s.a.y, j.s.b.x, j.s.b.y, any || meets ? "meets" : "does not meet");
            log("(%ld,%ld)-(%ld,%ld): %zu pieces%s", j.s.a.x, j.s.a.y, j.s.b.x, j.s.b.y, got.size(), o == OOM ? ", out of memory" : o == THREW ? ", visitor threw" : ""); mix(got.size()); if(pieces.size() > 2) { nontrivial(); probe("cut-segment"); }
        };
        std::vector<std::function<void()>> bodies; for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(auto& j : jobs[t]) one(j, 0); });
        parallel(bodies);
    }
    // ---- the intersection of two convex polygons
    static Ring hull(Ring p) {
        std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end(), [](IP a, IP b) { return a == b; }), p.end()); if(p.size() < 3) return {};
        Ring h(2 * p.size()); std::size_t k = 0;
        for(std::size_t i = 0; i < p.size(); ++i) { while(k >= 2 && cross(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
        for(std::size_t i = p.size() - 1, t = k + 1; i-- > 0;) { while(k >= t && cross(h[k - 2], h[k - 1], p[i]) <= 0) --k; h[k++] = p[i]; }
        h.resize(k - 1); if(h.size() < 3) h.clear(); return h;
    }
    typedef std::pair<double, double> D2;
    static std::vector<D2> clip_convex(const Ring& a, const Ring& b) {
        std::vector<D2> p; for(auto& q : a) p.push_back({q.x, q.y});
        for(std::size_t e = 0; e < b.size(); ++e) { IP s = b[e], t = b[(e + 1) % b.size()]; auto val = [&](D2 q) { double v = (t.x - s.x) * (q.second - s.y) - (t.y - s.y) * (q.first - s.x); return std::fabs(v) < 1e-9 ? 0.0 : v; }; std::vector<D2> o;
            for(std::size_t i = 0; i < p.size(); ++i) { D2 x = p[i], y = p[(i + 1) % p.size()]; double vx = val(x), vy = val(y); if(vx >= 0) o.push_back(x); if((vx > 0 && vy < 0) || (vx < 0 && vy > 0)) { double k = vx / (vx - vy); o.push_back({x.first + k * (y.first - x.first), x.second + k * (y.second - x.second)}); } }
            p = o; }
        std::vector<D2> u2; for(auto& q : p) { bool dup = false; for(auto& w : u2) dup = dup || std::hypot(q.first - w.first, q.second - w.second) < 1e-7; if(!dup) u2.push_back(q); }
        // keep the corners only
        for(bool again = u2.size() > 2; again;) { again = false; for(std::size_t i = 0; i < u2.size() && u2.size() > 2; ++i) { D2 x = u2[(i + u2.size() - 1) % u2.size()], y = u2[i], z = u2[(i + 1) % u2.size()]; if(std::fabs((y.first - x.first) * (z.second - x.second) - (y.second - x.second) * (z.first - x.first)) < 1e-9) { u2.erase(u2.begin() + i); again = true; break; } } }
        return u2;
    }
    static double area(const std::vector<D2>& p) { double a = 0; for(std::size_t i = 0; i < p.size(); ++i) { auto s = p[i], t = p[(i + 1) % p.size()]; a += s.first * t.second - t.first * s.second; } return std::fabs(a) / 2; }
    void convex(long r) {
        auto draw = [&] { for(;;) { Span sp(GEN); Ring q; int n = 3 + (int)choose(GEN, 8); long s = 2 + (long)choose(GEN, r), dx = lattice(GEN, r / 2), dy = lattice(GEN, r / 2); for(int i = 0; i < n; ++i) q.push_back({dx + lattice(GEN, s), dy + lattice(GEN, s)}); Ring h = hull(q); if(!h.empty()) { std::rotate(h.begin(), h.begin() + choose(GEN, h.size()), h.end()); return h; } h = Ring{{dx, dy}, {dx + s, dy}, {dx, dy + s}}; return h; } };
        Ring A = draw(), B = draw(); log("A %s; B %s", show(A).c_str(), show(B).c_str());
        // general position: no vertex on the other's border
        auto ea = ring_edges(A), eb = ring_edges(B); bool general = true; int crossings = 0; for(auto& a : ea) for(auto& b : eb) { Meet m = meet(a, b).m; if(m == CROSS) ++crossings; else if(m != NONE) general = false; }
        polygon<P>*pa = make<polygon<P>>(A), *pb = make<polygon<P>>(B); std::vector<D2> want = clip_convex(A, B);
        struct Job { bool swapped; long thr; }; std::vector<std::vector<Job>> jobs(sw.tasks); for(auto& v : jobs) { int n = 1 + (int)choose(OP, 2); for(int i = 0; i < n; ++i) { Span sp(OP); v.push_back({chance(OP, 1, 2), sw.throwing_callbacks && chance(FAULT, 1, 4) ? 1 + (long)choose(FAULT, 4) : 0}); } }
        std::vector<std::function<void()>> bodies; for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(auto& j : jobs[t]) {
            std::vector<D2> got; polygon_intersection_type res = polygon_intersection_type::none;
            auto visit = [&](const P& p) { InMode h(HARNESS); got.push_back({get<0>(p) / u - ox, get<1>(p) / u - oy}); yield(); GSIM_CHECK(got.size() < 500, "endless", "visitor called 500 times"); if((long)got.size() == j.thr) { fault("visitor-throw"); throw SimThrow{1}; } };
            Outcome o = attempt("convex_polygon_polygon_intersection", [&] { res = j.swapped ? convex_polygon_polygon_intersection(*pb, *pa, visit, cmp) : convex_polygon_polygon_intersection(*pa, *pb, visit, cmp); }, FaultPlan(), j.thr > 0, 4000000);
            if(j.thr && o == DONE) GSIM_CHECK((long)got.size() < j.thr, "exception-swallowed", "the visitor's exception did not reach the caller");
            for(auto& g : got) { for(auto* r2 : {&A, &B}) for(std::size_t i = 0; i < r2->size(); ++i) { IP s = (*r2)[i], t = (*r2)[(i + 1) % r2->size()]; double v = ((t.x - s.x) * (g.second - s.y) - (t.y - s.y) * (g.first - s.x)) / std::hypot(t.x - s.x, t.y - s.y); GSIM_CHECK(v > -1e-6, "outside-reported", "point (%.9g,%.9g) was reported, which lies outside of one of the polygons", g.first, g.second); } }
            if(o == DONE && general) {
                for(auto& w : want) { bool f = false; for(auto& g : got) f = f || std::hypot(g.first - w.first, g.second - w.second) < 1e-6; GSIM_CHECK(f, "missed", "vertex (%.9g,%.9g) of the intersection was not reported (%zu points were)", w.first, w.second, got.size()); }
                for(auto& g : got) { bool f = false; for(auto& w : want) f = f || std::hypot(g.first - w.first, g.second - w.second) < 1e-6; GSIM_CHECK(f, "not-a-vertex", "point (%.9g,%.9g) was reported, which is no vertex of the intersection", g.first, g.second); }
                GSIM_CHECK((res == polygon_intersection_type::none) == want.empty(), "wrong-result", "result %d, but the intersection has %zu vertices", (int)res, want.size());
                // cyclic order: same area as the polygon visited in order, without repetitions
                std::vector<D2> once; for(auto& g : got) if(once.empty() || std::hypot(g.first - once.back().first, g.second - once.back().second) > 1e-6) once.push_back(g); while(once.size() > 1 && std::hypot(once.front().first - once.back().first, once.front().second - once.back().second) < 1e-6) once.pop_back();
                if(once.size() == want.size()) GSIM_CHECK(std::fabs(area(once) - area(want)) < 1e-5, "wrong-order", "the vertices were reported in an order that encloses %g, the intersection's area is %g", area(once), area(want));
                else GSIM_CHECK(once.size() <= want.size(), "reported-twice", "%zu vertices reported in order for an intersection of %zu", once.size(), want.size());
                probe(want.empty() ? "convex-apart" : crossings ? "convex-crossing" : "convex-nested"); if(!want.empty()) nontrivial();
            }
            mix(got.size()); log("%s: result %d, %zu points, %zu expected%s", j.swapped ? "B with A" : "A with B", (int)res, got.size(), want.size(), general ? "" : " (touching)");
        } });
        parallel(bodies);
    }
    void run() { long r = 2 + (long)choose(GEN, 8); if(chance(GEN, 1, 2)) clip_segment(r); else convex(r + 2); }
#endif
    void start() {
        sw = draw_swarm(3); static const double us[] = {1, 0.25, 4, 0.125}; u = us[choose(GEN, 4)];
        if(chance(GEN, 1, 4)) { ox = lattice(GEN, 200); oy = lattice(GEN, 200); }
        run();
    }
};
} // namespace
void gsim_run() { Sim s; s.start(); }

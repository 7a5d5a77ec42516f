// Distances and closest points of points, segments, polylines, polygons and boxes (C28).
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/distance/aabb_aabb_distance.hpp>
#include <geometrix/algorithm/distance/eberly_segment_segment_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_line_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polygon_distance.hpp>
#include <geometrix/algorithm/distance/point_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/point_polyline_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/polygon_polygon_distance.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/polyline_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_obb_distance.hpp>
#include <geometrix/algorithm/distance/segment_polygon_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polygon_distance.hpp>
#include <geometrix/algorithm/distance/segment_polyline_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_polyline_distance.hpp>
#include <geometrix/algorithm/distance/segment_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/segment_segment_distance.hpp>
#include <functional>
#include "chains.hpp"
const char* const gsim_property = "C28";
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef point_double_3d P3;
typedef vector_double_2d V;
typedef segment_double_2d S;
typedef polyline<P> Line;
typedef polygon<P> Gon;
typedef axis_aligned_bounding_box<P> Box;
typedef axis_aligned_bounding_box<P3> Box3;
typedef oriented_bounding_box<P, V> Obb;
typedef absolute_tolerance_comparison_policy<double> Cmp;

namespace {
typedef long double R;
template <int N> struct Vec { R c[N]; };
template <int N> Vec<N> operator-(const Vec<N>& a, const Vec<N>& b) { Vec<N> r; for(int i = 0; i < N; ++i) r.c[i] = a.c[i] - b.c[i]; return r; }
template <int N> Vec<N> along(const Vec<N>& a, const Vec<N>& b, R t) { Vec<N> r; for(int i = 0; i < N; ++i) r.c[i] = a.c[i] + t * (b.c[i] - a.c[i]); return r; }
template <int N> R dot(const Vec<N>& a, const Vec<N>& b) { R s = 0; for(int i = 0; i < N; ++i) s += a.c[i] * b.c[i]; return s; }
template <int N> R d2(const Vec<N>& a, const Vec<N>& b) { return dot(a - b, a - b); }
typedef Vec<2> W; typedef Vec<3> W3;
W of(const P& p) { return W{{get<0>(p), get<1>(p)}}; }
W3 of(const P3& p) { return W3{{get<0>(p), get<1>(p), get<2>(p)}}; }
template <int N> R seg2(const Vec<N>& p, const Vec<N>& a, const Vec<N>& b) {
    R L = d2(a, b); if(L == 0) return d2(p, a); R t = dot(p - a, b - a) / L; if(t < 0) t = 0; if(t > 1) t = 1; return d2(p, along(a, b, t));
}
R cr(const W& a, const W& b, const W& c) { return (b.c[0] - a.c[0]) * (c.c[1] - a.c[1]) - (b.c[1] - a.c[1]) * (c.c[0] - a.c[0]); }
int sg(R x) { return x > 0 ? 1 : x < 0 ? -1 : 0; }
// Squared distance of two segments; their coordinates are such that every turn is computed exactly.
R segseg2(const W& a, const W& b, const W& c, const W& d) {
    if(sg(cr(a, b, c)) * sg(cr(a, b, d)) < 0 && sg(cr(c, d, a)) * sg(cr(c, d, b)) < 0) return 0;
    return std::min(std::min(seg2(a, c, d), seg2(b, c, d)), std::min(seg2(c, a, b), seg2(d, a, b)));
}

struct Shape { std::vector<W> v; bool closed; std::size_t edges() const { return closed ? v.size() : v.size() - 1; } W a(std::size_t i) const { return v[i]; } W b(std::size_t i) const { return v[(i + 1) % v.size()]; } };
R to2(const W& p, const Shape& s) { R m = INFINITY; for(std::size_t i = 0; i < s.edges(); ++i) m = std::min(m, seg2(p, s.a(i), s.b(i))); return m; }
R to2(const W& p, const W& q, const Shape& s) { R m = INFINITY; for(std::size_t i = 0; i < s.edges(); ++i) m = std::min(m, segseg2(p, q, s.a(i), s.b(i))); return m; }
R to2(const Shape& r, const Shape& s) { R m = INFINITY; for(std::size_t i = 0; i < r.edges(); ++i) m = std::min(m, to2(r.a(i), r.b(i), s)); return m; }

struct Sim {
    Cmp cmp{1e-10}; Swarm sw; double u = 1; long ox = 0, oy = 0; R size = 1;
    P pt(IP p) { return P(u * (p.x + ox), u * (p.y + oy)); }
    template <class C> C* make(const Ring& r) { return setup([&] { C* c = new C(); for(auto& p : r) c->push_back(pt(p)); return c; }); }
    Shape shape(const Ring& r, bool closed) { Shape s; s.closed = closed; for(auto& p : r) s.v.push_back(of(pt(p))); return s; }

    void near2(const char* what, double got, R want) {
        GSIM_CHECK(std::isfinite(got) && std::fabs((double)(got - want)) <= 1e-12 * (double)(size * size) + 1e-9 * (double)want, "wrong-distance", "%s is %.17g squared, should be %.17g", what, got, (double)want);
        probe(want == 0 ? "zero" : "apart"); mixd((double)want);
    }
    void near1(const char* what, double got, R want2) {
        GSIM_CHECK(std::isfinite(got) && got >= 0, "wrong-distance", "%s is %.17g, should be %.17g", what, got, (double)std::sqrt(want2)); near2(what, got * got, want2);
    }
    template <class Q> void on(const char* what, const W& p, const Q& c, R want2, R from2) {     // c was given for the place closest to p; from2: squared distance of c from the shape
        W w = of(c); GSIM_CHECK(std::isfinite((double)w.c[0]) && std::isfinite((double)w.c[1]), "wrong-point", "%s is (%g,%g)", what, (double)w.c[0], (double)w.c[1]);
        GSIM_CHECK(from2 <= 1e-16 * size * size, "wrong-point", "%s (%.9g,%.9g) lies %g away from the figure", what, (double)w.c[0], (double)w.c[1], (double)std::sqrt(from2));
        near2(what, (double)d2(p, w), want2);
    }
    // Two closest places given by edge numbers and positions along the edges.
    void places(const char* what, const Shape& A, const Shape& B, std::size_t i, std::size_t k, double s, double t, const P& c1, const P& c2, double got, R want) {
        near2(what, got, want); W a = of(c1), b = of(c2);
        GSIM_CHECK(i < A.edges() && k < B.edges(), "wrong-edge", "%s: edges %zu and %zu of %zu and %zu reported", what, i, k, A.edges(), B.edges());
        GSIM_CHECK(std::isfinite(s) && std::isfinite(t) && s >= 0 && s <= 1 && t >= 0 && t <= 1, "wrong-position", "%s: positions %g and %g reported", what, s, t);
        W x = along(A.a(i), A.b(i), s), y = along(B.a(k), B.b(k), t); R e = 1e-16 * size * size;
        GSIM_CHECK(d2(a, x) <= e && d2(b, y) <= e, "wrong-point", "%s: points (%.9g,%.9g) and (%.9g,%.9g) are not at positions %g of edge %zu and %g of edge %zu", what, (double)a.c[0], (double)a.c[1], (double)b.c[0], (double)b.c[1], s, i, t, k);
        near2(what, (double)d2(a, b), want);
    }
    Ring ra, rb, rs; Line *la, *lb; Gon *ga, *gb; std::vector<Gon>* all; Shape A, B, GA, GB; std::vector<P> pts; std::vector<ISeg> segs;
    Box* box[2]; Box3* box3[2]; Obb* obb; R oc[2], ou[2], oh[2]; std::vector<P3> ps3; line<P>* ln; W l0, l1;
    struct Job { int what; std::size_t a, b, c; FaultPlan plan; };
    // The oriented box: its exact distance.
    W local(const W& p) { R x = p.c[0] - oc[0], y = p.c[1] - oc[1]; return W{{x * ou[0] + y * ou[1], -x * ou[1] + y * ou[0]}}; }
    R obb2(const W& p) { W l = local(p); R ex = std::max((R)0, std::fabs(l.c[0]) - oh[0]), ey = std::max((R)0, std::fabs(l.c[1]) - oh[1]); return ex * ex + ey * ey; }
    R obb2(const W& p, const W& q) {
        R m = std::min(obb2(p), obb2(q)); W c[4] = {{{-oh[0], -oh[1]}}, {{oh[0], -oh[1]}}, {{oh[0], oh[1]}}, {{-oh[0], oh[1]}}};
        for(int i = 0; i < 4; ++i) m = std::min(m, segseg2(local(p), local(q), c[i], c[(i + 1) % 4])); return m;
    }
    template <class T> static R gap(const T& p, const T& lo, const T& hi, int n) { R s = 0; for(int i = 0; i < n; ++i) { R e = std::max((R)0, std::max(lo.c[i] - p.c[i], p.c[i] - hi.c[i])); s += e * e; } return s; }

    template <class F> void ask(const char* what, const Job& j, F f, const std::function<void()>& check) {
        std::int64_t b = sw.tasks == 1 ? live_blocks() : 0;
        Outcome o = attempt(what, f, j.plan, false, 6000000);
        if(sw.tasks == 1) GSIM_CHECK(live_blocks() == b, "leak", "%s left %lld block(s) allocated", what, (long long)(live_blocks() - b));
        if(o == DONE) { check(); log("%s (%zu,%zu)", what, j.a, j.b); } else log("%s: out of memory", what);
        mix(o * 32 + j.what); yield();
    }
    void one(const Job& j) {
        const P& p = pts[j.a % pts.size()]; const P& q = pts[j.b % pts.size()]; W wp = of(p), wq = of(q); ISeg s1 = segs[j.a % segs.size()], s2 = segs[j.b % segs.size()];
        P a = pt(s1.a), b = pt(s1.b), c = pt(s2.a), d = pt(s2.b); W wa = of(a), wb = of(b), wc = of(c), wd = of(d); double x = 0, y = 0, z = 0, s = -1, t = -1; P c1(NAN, NAN), c2(NAN, NAN), c3(NAN, NAN); std::size_t i = 9999, k = 9999;
        Shape sa{{wa, wb}, false}, sb{{wc, wd}, false};
        switch(j.what) {
        case 0: ask("distance of two points", j, [&] { x = point_point_distance(p, q); y = point_point_distance_sqrd(p, q); z = point_point_distance(ps3[j.a % ps3.size()], ps3[j.b % ps3.size()]); }, [&] { near1("the distance of two points", x, d2(wp, wq)); near2("the distance of two points", y, d2(wp, wq)); near1("the distance of two points in space", z, d2(of(ps3[j.a % ps3.size()]), of(ps3[j.b % ps3.size()]))); }); break;
        case 1: ask("point and segment", j, [&] { x = point_segment_distance(p, S(c, d)); y = point_segment_distance_sqrd(p, c, d); z = point_segment_distance_sqrd(p, S(c, d)); c1 = point_segment_closest_point(p, S(c, d)); c2 = point_segment_closest_point(p, c, d); c3 = point_segment_closest_point_and_param(p, c, d, t); }, [&] {
            R w = seg2(wp, wc, wd); near1("the distance of a point and a segment", x, w); near2("the distance of a point and a segment", y, w); near2("the distance of a point and a segment", z, w);
            on("the closest point of a segment", wp, c1, w, seg2(of(c1), wc, wd)); on("the closest point of a segment given by its ends", wp, c2, w, seg2(of(c2), wc, wd)); on("the closest point and position", wp, c3, w, seg2(of(c3), wc, wd));
            GSIM_CHECK(std::isfinite(t) && d2(of(c3), along(wc, wd, (R)std::min(1.0, std::max(0.0, t)))) <= 1e-16 * size * size, "wrong-position", "position %g along the segment does not give the closest point", t); }); break;
        case 2: ask("point and segment in space", j, [&] { x = point_segment_distance_sqrd(ps3[0], ps3[1 + j.a % 3], ps3[4 + j.b % 3]); }, [&] { near2("the distance of a point and a segment in space", x, seg2(of(ps3[0]), of(ps3[1 + j.a % 3]), of(ps3[4 + j.b % 3]))); }); break;
        case 3: ask("point and polyline", j, [&] { x = point_polyline_distance(p, *la); y = point_polyline_distance_sqrd(p, *la); c1 = point_polyline_closest_point(p, *la); }, [&] { R w = to2(wp, A); near1("the distance of a point and a polyline", x, w); near2("the distance of a point and a polyline", y, w); on("the closest point of a polyline", wp, c1, w, to2(of(c1), A)); }); break;
        case 4: ask("point and polygon", j, [&] { x = point_polygon_distance(p, *ga); y = point_polygon_distance_sqrd(p, *ga); c1 = point_polygon_closest_point(p, *ga); c2 = point_polygon_collection_closest_point(p, *all); }, [&] {
            R w = to2(wp, GA), w2 = std::min(w, to2(wp, GB)); near1("the distance of a point and a polygon", x, w); near2("the distance of a point and a polygon", y, w); on("the closest point of a polygon", wp, c1, w, to2(of(c1), GA)); on("the closest point of two polygons", wp, c2, w2, std::min(to2(of(c2), GA), to2(of(c2), GB))); }); break;
        case 5: ask("segment and segment", j, [&] { x = segment_segment_distance(S(a, b), S(c, d), cmp); y = segment_segment_distance_sqrd(a, b, c, d, cmp); z = segment_segment_closest_point(a, b, c, d, s, t, c1, c2, cmp); }, [&] { R w = segseg2(wa, wb, wc, wd); near1("the distance of two segments", x, w); near2("the distance of two segments", y, w); places("the closest points of two segments", sa, sb, 0, 0, s, t, c1, c2, z, w); if(w > 0) nontrivial(); }); break;
        case 6: ask("segment and segment (Eberly)", j, [&] { x = eberly_segment_segment_distance_sqrd(S(a, b), S(c, d)); }, [&] { near2("the distance of two segments after Eberly", x, segseg2(wa, wb, wc, wd)); }); break;
        case 7: ask("segment and polyline", j, [&] { x = segment_polyline_distance(S(a, b), *lb, cmp); y = segment_polyline_distance_sqrd(a, b, *lb, cmp); z = segment_polyline_closest_point(S(a, b), *lb, k, s, t, c1, c2, cmp); }, [&] { R w = to2(wa, wb, B); near1("the distance of a segment and a polyline", x, w); near2("the distance of a segment and a polyline", y, w); places("the closest points of a segment and a polyline", sa, B, 0, k, s, t, c1, c2, z, w); }); break;
        case 8: ask("segment and polygon", j, [&] { x = segment_polygon_distance(S(a, b), *gb, cmp); y = segment_polygon_distance_sqrd(a, b, *gb, cmp); z = segment_polygon_closest_point(S(a, b), *gb, k, s, t, c1, c2, cmp); }, [&] { R w = to2(wa, wb, GB); near1("the distance of a segment and a polygon", x, w); near2("the distance of a segment and a polygon", y, w); places("the closest points of a segment and a polygon", sa, GB, 0, k, s, t, c1, c2, z, w); }); break;
        case 9: case 14: ask("polyline and polyline", j, [&] { bool sw = j.c & 1; auto &m = sw ? *lb : *la, &n = sw ? *la : *lb; x = polyline_polyline_distance(m, n, cmp); y = polyline_polyline_distance_sqrd(m, n, cmp); z = polyline_polyline_closest_point(m, n, i, k, s, t, c1, c2, cmp); }, [&] { R w = to2(A, B); near1("the distance of two polylines", x, w); near2("the distance of two polylines", y, w); bool sw = j.c & 1; places("the closest points of two polylines", sw ? B : A, sw ? A : B, i, k, s, t, c1, c2, z, w); large(w); }); break;
        case 10: case 15: ask("polygon and polygon", j, [&] { bool sw = j.c & 1; auto &m = sw ? *gb : *ga, &n = sw ? *ga : *gb; x = polygon_polygon_distance(m, n, cmp); y = polygon_polygon_distance_sqrd(m, n, cmp); z = polygon_polygon_closest_point(m, n, i, k, s, t, c1, c2, cmp); }, [&] { R w = to2(GA, GB); near1("the distance of two polygons", x, w); near2("the distance of two polygons", y, w); bool sw = j.c & 1; places("the closest points of two polygons", sw ? GB : GA, sw ? GA : GB, i, k, s, t, c1, c2, z, w); large(w); }); break;
        case 11: { W lo[2], hi[2]; W3 lo3[2], hi3[2]; for(int m = 0; m < 2; ++m) { lo[m] = of(box[m]->get_lower_bound()); hi[m] = of(box[m]->get_upper_bound()); lo3[m] = of(box3[m]->get_lower_bound()); hi3[m] = of(box3[m]->get_upper_bound()); }
            double v = 0, v3 = 0; const P3& r = ps3[j.a % ps3.size()]; P3 e1;
            ask("boxes", j, [&] { x = point_aabb_distance(p, *box[0]); y = aabb_aabb_distance_sqrd(*box[0], *box[1]); v = aabb_aabb_distance(*box[1], *box[0]); c1 = point_aabb_closest_point(p, *box[0]); z = point_aabb_distance_sqrd(r, *box3[0]); e1 = point_aabb_closest_point(r, *box3[0]); v3 = aabb_aabb_distance_sqrd(*box3[0], *box3[1]); }, [&] {
                R w = gap(wp, lo[0], hi[0], 2); near1("the distance of a point and a box", x, w); on("the closest point of a box", wp, c1, w, gap(of(c1), lo[0], hi[0], 2));
                R g = 0, g3 = 0; for(int m = 0; m < 2; ++m) { R e = std::max((R)0, std::max(lo[0].c[m] - hi[1].c[m], lo[1].c[m] - hi[0].c[m])); g += e * e; } for(int m = 0; m < 3; ++m) { R e = std::max((R)0, std::max(lo3[0].c[m] - hi3[1].c[m], lo3[1].c[m] - hi3[0].c[m])); g3 += e * e; }
                near2("the distance of two boxes", y, g); near1("the distance of two boxes", v, g); near2("the distance of two boxes in space", v3, g3);
                R w3 = gap(of(r), lo3[0], hi3[0], 3); near2("the distance of a point and a box in space", z, w3); near2("the closest point of a box in space", (double)d2(of(r), of(e1)), w3); GSIM_CHECK(gap(of(e1), lo3[0], hi3[0], 3) <= 0, "wrong-point", "the closest point of a box in space is not in it"); probe("boxes"); }); } break;
        case 12: ask("oriented box", j, [&] { x = point_obb_distance(p, *obb); y = point_obb_distance_sqrd(p, *obb); c1 = point_obb_closest_point(p, *obb); z = segment_obb_distance(S(a, b), *obb, cmp); s = segment_obb_distance_sqrd(S(a, b), *obb, cmp); }, [&] { R w = obb2(wp), w2 = obb2(wa, wb); near1("the distance of a point and an oriented box", x, w); near2("the distance of a point and an oriented box", y, w); on("the closest point of an oriented box", wp, c1, w, obb2(of(c1))); near1("the distance of a segment and an oriented box", z, w2); near2("the distance of a segment and an oriented box", s, w2); probe("oriented-box"); }); break;
        case 16: case 17: {     // of a stretch of edges only, the closing one by itself included
            bool gon = j.what == 17; const Shape &T = gon ? GB : B, &U = gon ? GA : A; auto stretch = [&](const Shape& X, std::size_t m, bool whole) { std::size_t n = X.v.size(), lo = m % (whole && gon ? n : n - 1); if(lo == n - 1) return std::make_tuple(lo, (std::size_t)0); return std::make_tuple(lo, lo + 1 + (m / n) % (n - 1 - lo)); };
            auto cut = [&](const Shape& X, std::tuple<std::size_t, std::size_t> r) { std::size_t lo = std::get<0>(r), hi = std::get<1>(r); Shape q; q.closed = false; if(lo > hi) { q.v = {X.v[lo], X.v[hi]}; probe("closing-edge"); } else q.v.assign(X.v.begin() + lo, X.v.begin() + hi + 1); return q; };
            auto inside = [&](std::size_t e, std::tuple<std::size_t, std::size_t> r) { return std::get<0>(r) > std::get<1>(r) ? e == std::get<0>(r) : e >= std::get<0>(r) && e < std::get<1>(r); };
            auto r = stretch(T, j.b, true), r1 = stretch(U, j.a, true), r0 = stretch(U, j.a, false), r2 = stretch(T, j.b, false); Shape cb = cut(T, r), ca = cut(U, r1), ca0 = cut(U, r0), cb2 = cut(T, r2); std::size_t k2 = 9999; double s2 = -1, t2 = -1, z2 = 0, v = 0; P e1(NAN, NAN), e2(NAN, NAN), g1(NAN, NAN), g2(NAN, NAN); std::size_t m1 = 9999, m2 = 9999; double s3 = -1, t3 = -1;
            ask("a stretch of edges", j, [&] {
                if(gon) { x = segment_subpolygon_distance_sqrd(a, b, r, *gb, cmp); y = subpolygon_subpolygon_distance_sqrd_brute(r1, *ga, r, *gb, cmp); z = segment_polygon_closest_point(a, b, r, *gb, k, s, t, c1, c2, cmp); z2 = segment_polygon_closest_point(S(a, b), r, *gb, k2, s2, t2, e1, e2, cmp); v = polygon_polygon_closest_point_brute(r0, *ga, r2, *gb, m1, m2, s3, t3, g1, g2, cmp); }
                else { x = segment_subpolyline_distance_sqrd(a, b, r, *lb, cmp); y = subpolyline_subpolyline_distance_sqrd_brute(r1, *la, r, *lb, cmp); z = segment_polyline_closest_point(a, b, r, *lb, k, s, t, c1, c2, cmp); z2 = segment_polyline_closest_point(S(a, b), r, *lb, k2, s2, t2, e1, e2, cmp); v = polyline_polyline_closest_point_brute(r0, *la, r2, *lb, m1, m2, s3, t3, g1, g2, cmp); }
            }, [&] {
                R w = to2(wa, wb, cb); near2("the distance of a segment and a stretch of edges", x, w); near2("the distance of two stretches of edges", y, to2(ca, cb));
                places("the closest points of a segment and a stretch", sa, T, 0, k, s, t, c1, c2, z, w); GSIM_CHECK(inside(k, r), "wrong-edge", "edge %zu is not of the stretch %zu to %zu", k, std::get<0>(r), std::get<1>(r));
                places("the closest points of a segment object and a stretch", sa, T, 0, k2, s2, t2, e1, e2, z2, w); GSIM_CHECK(inside(k2, r), "wrong-edge", "edge %zu is not of the stretch %zu to %zu", k2, std::get<0>(r), std::get<1>(r));
                places("the closest points of two stretches", U, T, m1, m2, s3, t3, g1, g2, v, to2(ca0, cb2)); GSIM_CHECK(inside(m1, r0) && inside(m2, r2), "wrong-edge", "edges %zu and %zu are not of the stretches", m1, m2); if(w > 0) nontrivial(); probe("stretch"); }); break; }
        default: ask("point and line", j, [&] { x = point_line_distance(p, *ln); y = signed_point_line_distance(p, *ln); z = signed_point_line_distance(q, *ln); }, [&] {
            R g = cr(l0, l1, wp), h = cr(l0, l1, wq), L = d2(l0, l1); near1("the distance of a point and a line", x, g * g / L); near2("the signed distance of a point and a line", y * y, g * g / L);
            if(std::fabs((double)g) > 1e-6 * u * u && std::fabs((double)h) > 1e-6 * u * u) GSIM_CHECK((y > 0) == (z > 0) ? sg(g) == sg(h) : sg(g) != sg(h), "wrong-side", "signed distances %g and %g of points on %s of a line", y, z, sg(g) == sg(h) ? "one side" : "different sides"); }); break;
        }
    }
    void large(R w) { if(w > 0) nontrivial(); if(ra.size() > 5 && rb.size() > 5) probe("branch-and-bound"); }
    void run() {
        static const double us[] = {1, 0.25, 8}; u = us[choose(GEN, 3)]; if(chance(GEN, 1, 4)) { ox = lattice(GEN, 500); oy = lattice(GEN, 500); }
        long r = 2 + (long)choose(GEN, 11), dx = 0, dy = 0; int most = chance(GEN, 1, 2) ? 6 : 34;
        auto ring = [&](int lo) { Ring c; if(chance(GEN, 1, 3)) { c = draw_simple(GEN, r < 4 ? 4 : r); } else c = draw_chain(GEN, lo, most, r); return c; };
        ra = ring(3); rb = ring(3); if(chance(GEN, 2, 3)) { dx = lattice(GEN, 3 * r); dy = lattice(GEN, 3 * r); } for(auto& p : rb) { p.x += dx; p.y += dy; }
        if(chance(GEN, 1, 4)) std::rotate(ra.begin(), ra.begin() + choose(GEN, ra.size()), ra.end());
        if(chance(GEN, 1, 6)) ra.insert(ra.begin() + choose(GEN, ra.size()), ra[choose(GEN, ra.size())]);
        if(chance(GEN, 1, 6)) ra.insert(ra.begin(), ra[0]);                                     // an edge of no length
        if(chance(GEN, 1, 6)) { IP p = ra[choose(GEN, ra.size())]; rb[choose(GEN, rb.size())] = p; }
        log("unit %g offset (%ld,%ld), %s and %s", u, ox, oy, show(ra).c_str(), show(rb).c_str());
        la = make<Line>(ra); lb = make<Line>(rb); ga = make<Gon>(ra); gb = make<Gon>(rb); A = shape(ra, false); B = shape(rb, false); GA = shape(ra, true); GB = shape(rb, true);
        setup([&] { all = new std::vector<Gon>{*gb, *ga}; });
        int n = 3 + (int)choose(GEN, 5);
        for(int i = 0; i < n; ++i) { Span sp(GEN); IP p{lattice(GEN, 2 * r), lattice(GEN, 2 * r)}, q{lattice(GEN, 2 * r), lattice(GEN, 2 * r)}; if(chance(GEN, 1, 4)) p = ra[choose(GEN, ra.size())]; if(chance(GEN, 1, 4)) { std::size_t k = choose(GEN, rb.size()); q = rb[k]; if(chance(GEN, 1, 2)) p = rb[(k + 1) % rb.size()]; } if(i && chance(GEN, 1, 4)) { ISeg e = segs[choose(GEN, segs.size())]; long f = lattice(GEN, 2); q = IP{p.x + f * (e.b.x - e.a.x), p.y + f * (e.b.y - e.a.y)}; } if(p == q && !chance(GEN, 1, 4)) q.x += 1; segs.push_back({p, q}); }
        for(int i = 0; i < n; ++i) { Span sp(GEN); std::uint64_t k = choose(GEN, 4); if(k == 0) pts.push_back(pt(IP{lattice(GEN, 2 * r), lattice(GEN, 2 * r)})); else { ISeg e = k == 1 ? segs[choose(GEN, segs.size())] : ISeg{ra[choose(GEN, ra.size())], ra[0]}; if(k == 2) { std::size_t m = choose(GEN, ra.size()); e = ISeg{ra[m], ra[(m + 1) % ra.size()]}; } double t = ((double)choose(GEN, 31) - 5) / 21, w = k == 3 ? ((double)choose(GEN, 7) - 3) / 7 : 0; P a = pt(e.a), b = pt(e.b); pts.push_back(P(get<0>(a) + t * (get<0>(b) - get<0>(a)) - w * (get<1>(b) - get<1>(a)), get<1>(a) + t * (get<1>(b) - get<1>(a)) + w * (get<0>(b) - get<0>(a)))); } }
        ps3.resize(8); for(auto& p : ps3) { Span sp(GEN); p = P3(u * lattice(GEN, r), u * lattice(GEN, r), u * lattice(GEN, r)); }
        for(int m = 0; m < 2; ++m) { Span sp(GEN); IP lo{lattice(GEN, 2 * r), lattice(GEN, 2 * r)}; IP hi{lo.x + 1 + (long)choose(GEN, r), lo.y + 1 + (long)choose(GEN, r)}; long zl = lattice(GEN, 2 * r), zh = zl + 1 + (long)choose(GEN, r); setup([&] { box[m] = new Box(pt(lo), pt(hi)); box3[m] = new Box3(P3(u * lo.x, u * lo.y, u * zl), P3(u * hi.x, u * hi.y, u * zh)); }); }
        { static const double ax[][2] = {{1, 0}, {0, 1}, {0.6, 0.8}, {-0.8, 0.6}, {5.0 / 13, -12.0 / 13}, {-1, 0}}; auto e = ax[choose(GEN, 6)]; P c = pt(IP{lattice(GEN, r), lattice(GEN, r)}); double h0 = u * (1 + (double)choose(GEN, r)), h1 = u * (1 + (double)choose(GEN, r)); oc[0] = get<0>(c); oc[1] = get<1>(c); ou[0] = e[0]; ou[1] = e[1]; oh[0] = h0; oh[1] = h1; setup([&] { obb = new Obb(c, V(e[0], e[1]), V(-e[1], e[0]), h0, h1); }); }
        { ISeg e = segs[choose(GEN, segs.size())]; if(e.a == e.b) e.b.y += 1; l0 = of(pt(e.a)); l1 = of(pt(e.b)); setup([&] { ln = new line<P>(pt(e.a), pt(e.b)); }); }
        size = u * (6 * r + 1 + std::max(std::labs(ox), std::labs(oy)));
        std::vector<std::vector<Job>> js(sw.tasks); for(auto& v : js) { int m = 2 + (int)choose(OP, 6); for(int i = 0; i < m; ++i) { Span sp(OP); Job j; j.what = (int)choose(OP, 18); j.a = choose(OP, 64); j.b = choose(OP, chance(OP, 1, 4) ? 2048 : 64); j.c = choose(OP, 2); bool alloc = j.what == 9 || j.what == 10 || j.what >= 14; j.plan = draw_alloc_plan(sw.alloc_faults && alloc, 1, 4, 4); v.push_back(j); } }
        std::vector<std::function<void()>> bodies; for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(auto& j : js[t]) one(j); });
        parallel(bodies);
    }
};
} // namespace
void gsim_run() { Sim s; s.sw = draw_swarm(3); s.run(); }

// Rays, lines and segments against segments, lines, planes, triangles and boxes (C29).
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/hyperplane_traits.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/linear_components_intersection.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/cohen_sutherland_line_clipping.hpp>
#include <geometrix/algorithm/eberly_triangle_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_line_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/line_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_triangle_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include <geometrix/algorithm/intersection/polygon_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/polyline_aabb_intersection.hpp>
#include "asking.hpp"
const char* const gsim_property = "C29";
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef point_double_3d P3;
typedef vector_double_2d V;
typedef segment_double_2d S;
typedef axis_aligned_bounding_box<P> Box;
typedef axis_aligned_bounding_box<P3> Box3;
typedef absolute_tolerance_comparison_policy<double> Cmp;

// A plane in space of the user's own (the library's cannot be constructed: it calls a function that does not exist).
struct Flat { vector_double_3d n; double d; vector_double_3d get_normal_vector() const { return n; } double get_distance_to_origin() const { return d; } };
namespace geometrix { template <> struct geometric_traits<Flat, void> { typedef dimension<3> hyperplane_dimension; typedef point_double_3d point_type; typedef vector_double_3d vector_type; typedef dimension<3> dimension_type; }; }

namespace {
typedef long double R;
typedef long long L;
struct I3 { long c[3]; };
struct IBox { long lo[3], hi[3]; };
struct Span2 { bool any; R lo, hi; };                      // the part of a parameter range that lies in a box
const R tiny = 1e-9L;                                      // distinct parameters of lattice figures differ by far more
template <int N> Span2 inside(const long* o, const long* d, const IBox& b, R from, R to) {
    Span2 s{true, from, to};
    for(int i = 0; i < N; ++i) {
        if(d[i] == 0) { if(o[i] < b.lo[i] || o[i] > b.hi[i]) s.any = false; continue; }
        R x = (R)(b.lo[i] - o[i]) / d[i], y = (R)(b.hi[i] - o[i]) / d[i]; if(x > y) std::swap(x, y); s.lo = std::max(s.lo, x); s.hi = std::min(s.hi, y);
    }
    if(s.lo > s.hi + tiny) s.any = false; return s;
}
bool seg_in_box(IP a, IP b, const IBox& x) { long o[2] = {a.x, a.y}, d[2] = {b.x - a.x, b.y - a.y}; return inside<2>(o, d, x, 0, 1).any; }
bool in_tri(IP p, const IP* t) { L a = cross(t[0], t[1], p), b = cross(t[1], t[2], p), c = cross(t[2], t[0], p); return (a >= 0 && b >= 0 && c >= 0) || (a <= 0 && b <= 0 && c <= 0); }
bool in_box(IP p, const IBox& b) { return p.x >= b.lo[0] && p.x <= b.hi[0] && p.y >= b.lo[1] && p.y <= b.hi[1]; }
IP corner(const IBox& b, int i) { return IP{i == 0 || i == 3 ? b.lo[0] : b.hi[0], i < 2 ? b.lo[1] : b.hi[1]}; }

struct Sim : Asking {
    Cmp cmp{1e-10}; direct_comparison_policy exact; double u = 1; long ox = 0, oy = 0; R size = 1;
    std::vector<IP> pts; std::vector<I3> pts3; std::vector<IBox> boxes; std::vector<Box*> sbox; std::vector<Box3*> sbox3;
    struct Tri { IP v[3]; }; std::vector<Tri> tris; Ring chain, ring; polyline<P>* line_; polygon<P>* gon;
    P pt(IP p) const { return P(u * (p.x + ox), u * (p.y + oy)); }
    P3 pt(const I3& p) const { return P3(u * (p.c[0] + ox), u * (p.c[1] + oy), u * p.c[2]); }
    // A reported point must be the expected one, given in lattice units.
    bool at(const P& p, R x, R y, R tol = 1e-8) const { return std::isfinite(get<0>(p)) && std::isfinite(get<1>(p)) && std::fabs(get<0>(p) / u - ox - x) <= tol && std::fabs(get<1>(p) / u - oy - y) <= tol; }
    void point(const char* what, const P& p, R x, R y) const { GSIM_CHECK(at(p, x, y), "wrong-point", "%s at (%.12g,%.12g), should be (%.12g,%.12g)", what, get<0>(p) / u - ox, get<1>(p) / u - oy, (double)x, (double)y); }
    void value(const char* what, double v, R want, double tol = 1e-8) const { GSIM_CHECK(std::isfinite(v) && std::fabs(v - want) <= tol * (1 + std::fabs(want)), "wrong-parameter", "%s %.12g, should be %.12g", what, v, (double)want); }
    void meets(const char* what, bool got, bool want) const { GSIM_CHECK(got == want, "wrong-answer", "%s: %s reported, %s", what, got ? "meeting" : "no meeting", want ? "they meet" : "they do not meet"); probe(want ? "meeting" : "apart"); mix(want); if(want) nontrivial(); }
    static const char* kind(int k) { return k == e_non_crossing ? "none" : k == e_crossing ? "crossing" : k == e_overlapping ? "overlapping" : k == e_endpoint ? "endpoint" : "another"; }
    void kinds(const char* what, int got, int want, int or_else = -9) const { GSIM_CHECK(got == want || got == or_else, "wrong-kind", "%s: %s reported, should be %s", what, kind(got), kind(want)); probe(kind(want)); mix(got); if(want) nontrivial(); }

    void ray_segment(const Asked& j, IP o, IP d, IP a, IP b) {
        P O = pt(o), A = pt(a), B = pt(b); R len = std::sqrt((R)(d.x * d.x + d.y * d.y)); V v(d.x / (double)len, d.y / (double)len); double t = NAN, t2 = NAN; P x[2] = {P(NAN, NAN), P(NAN, NAN)}, y[2] = {P(NAN, NAN), P(NAN, NAN)}; int k = 0, k2 = 0, k3 = 0, k4 = 0;
        int want = e_non_crossing, alt = -9; R ts = 0, r = 0; L pa = (L)(a.x - o.x) * d.x + (L)(a.y - o.y) * d.y, pb = (L)(b.x - o.x) * d.x + (L)(b.y - o.y) * d.y, den = (L)d.x * (b.y - a.y) - (L)d.y * (b.x - a.x); R l2 = len * len, s0 = 0, s1 = 0;
        if(den == 0) { if(cross(a, b, o) == 0 && std::max(pa, pb) >= 0) { want = e_overlapping; s0 = std::max((L)0, std::min(pa, pb)) / l2; s1 = std::max(pa, pb) / l2; if(std::max(pa, pb) == 0) alt = e_endpoint; } }
        else { L ns = (L)(a.x - o.x) * (b.y - a.y) - (L)(a.y - o.y) * (b.x - a.x), nr = (L)(a.x - o.x) * d.y - (L)(a.y - o.y) * d.x, dd = den; if(dd < 0) { dd = -dd; ns = -ns; nr = -nr; } if(ns >= 0 && nr >= 0 && nr <= dd) { want = nr == 0 || nr == dd ? e_endpoint : e_crossing; ts = (R)ns / dd; r = (R)nr / dd; } }
        (void)r;
        ask("ray and segment", j, [&] { k = ray_segment_intersection(O, v, A, B, t, x, cmp); k2 = ray_segment_intersection(O, v, S(A, B), t2, y, cmp); k3 = ray_segment_intersection(O, v, A, B, cmp); k4 = ray_segment_intersection(O, v, S(A, B), cmp); }, [&] {
            kinds("ray and segment", k, want, alt); kinds("ray and segment object", k2, want, alt); kinds("ray and segment, kind only", k3, want, alt); kinds("ray and segment object, kind only", k4, want, alt);
            if(want == e_non_crossing) return;
            R s = want == e_overlapping ? s0 : ts; value("the ray meets the segment after", t / u, s * len); value("the ray meets the segment object after", t2 / u, s * len);
            for(auto q : {x, y}) { point("the ray first meets the segment", q[0], o.x + s * d.x, o.y + s * d.y); if(want == e_overlapping && k == e_overlapping) point("the ray last meets the segment", q[1], o.x + s1 * d.x, o.y + s1 * d.y); }
        });
    }
    void ray_line(const Asked& j, IP o, IP d, IP a, IP b) {
        R len = std::sqrt((R)(d.x * d.x + d.y * d.y)); V v(d.x / (double)len, d.y / (double)len); line<P> l(pt(a), pt(b)); double t = NAN; P x(NAN, NAN); bool hit = false, over = false;
        L den = (L)d.x * (b.y - a.y) - (L)d.y * (b.x - a.x), ns = (L)(a.x - o.x) * (b.y - a.y) - (L)(a.y - o.y) * (b.x - a.x); if(den < 0) { den = -den; ns = -ns; }
        ask("ray and line", j, [&] { auto r = ray_line_intersection(pt(o), v, l, t, x, cmp); hit = r.is_intersecting(); over = r.is_overlapping(); }, [&] {
            bool want = den == 0 ? cross(a, b, o) == 0 : ns >= 0; meets("ray and line", hit, want); GSIM_CHECK(over == (den == 0 && want), "wrong-kind", "ray and line: %soverlapping reported", over ? "" : "not ");
            if(want && den) { R s = (R)ns / den; value("the ray meets the line after", t / u, s * len); point("the ray meets the line", x, o.x + s * d.x, o.y + s * d.y); } });
    }
    void lines(const Asked& j, IP a, IP b, IP c, IP d) {
        P x(NAN, NAN), y(NAN, NAN), z(NAN, NAN), z2(NAN, NAN); double s = NAN, t = NAN; int k = 0, k2 = 0, k3 = 0, k4 = 0; P A = pt(a), B = pt(b), C = pt(c), D = pt(d);
        L den = (L)(b.x - a.x) * (d.y - c.y) - (L)(b.y - a.y) * (d.x - c.x), ns = (L)(c.x - a.x) * (d.y - c.y) - (L)(c.y - a.y) * (d.x - c.x), nt = (L)(c.x - a.x) * (b.y - a.y) - (L)(c.y - a.y) * (b.x - a.x); if(den < 0) { den = -den; ns = -ns; nt = -nt; }
        ask("two lines, line and segment", j, [&] { k = line_line_intersect(A, B, C, D, x, s, t, cmp); k2 = line_line_intersect(A, B, C, D, y, cmp); k3 = line_segment_intersect(A, B, C, D, z, cmp); k4 = line_segment_intersect(A, B, S(C, D), z2, cmp); }, [&] {
            int par = cross(a, b, c) == 0 ? e_overlapping : e_non_crossing, want = den == 0 ? par : e_crossing; kinds("two lines", k, want); kinds("two lines", k2, want);
            if(den) { R ws = (R)ns / den, wt = (R)nt / den; value("position on the first line", s, ws); value("position on the second line", t, wt); point("the lines cross", x, a.x + ws * (b.x - a.x), a.y + ws * (b.y - a.y)); point("the lines cross", y, a.x + ws * (b.x - a.x), a.y + ws * (b.y - a.y)); }
            int seg = den == 0 ? par : nt == 0 || nt == den ? e_endpoint : nt > 0 && nt < den ? e_crossing : e_non_crossing; kinds("line and segment", k3, seg); kinds("line and segment object", k4, seg);
            if(den && seg != e_non_crossing) { R wt = (R)nt / den; point("the line meets the segment", z, c.x + wt * (d.x - c.x), c.y + wt * (d.y - c.y)); point("the line meets the segment object", z2, c.x + wt * (d.x - c.x), c.y + wt * (d.y - c.y)); } });
    }
    void plane_(const Asked& j, IP a, IP b, IP c, IP d) {
        double t = NAN, t3 = NAN; P q(NAN, NAN); P3 q3(NAN, NAN, NAN); bool h = false, h3 = false; line<P> l(pt(c), pt(d)); const I3 *p = &pts3[j.a % pts3.size()], *r = &pts3[j.b % pts3.size()], *e = nullptr; L n[3] = {0, 0, 0}; I3 pl[3];
        for(std::size_t k = 0; k < 40 && !(n[0] || n[1] || n[2]); ++k) { for(int m = 0; m < 3; ++m) pl[m] = pts3[(j.c + k * (m + 1) + m * j.d) % pts3.size()]; L f[3], g[3]; for(int m = 0; m < 3; ++m) { f[m] = pl[1].c[m] - pl[0].c[m]; g[m] = pl[2].c[m] - pl[0].c[m]; } for(int m = 0; m < 3; ++m) n[m] = f[(m + 1) % 3] * g[(m + 2) % 3] - f[(m + 2) % 3] * g[(m + 1) % 3]; }
        if(!(n[0] || n[1] || n[2])) { pl[0] = I3{{0, 0, 0}}; pl[1] = I3{{1, 0, 0}}; pl[2] = I3{{0, 1, 0}}; n[2] = 1; } (void)e;
        auto side = [&](const I3& w) { L s = 0; for(int m = 0; m < 3; ++m) s += n[m] * (w.c[m] - pl[0].c[m]); return s; };
        P3 A3 = pt(*p), B3 = pt(*r); P3 o3 = pt(pl[0]); R nl = std::sqrt((R)(n[0] * n[0] + n[1] * n[1] + n[2] * n[2])); Flat pn; pn.n = vector_double_3d((double)(n[0] / nl), (double)(n[1] / nl), (double)(n[2] / nl)); pn.d = get<0>(pn.n) * get<0>(o3) + get<1>(pn.n) * get<1>(o3) + get<2>(pn.n) * get<2>(o3);
        ask("segment and plane", j, [&] { h = segment_plane_intersection(pt(a), pt(b), l, t, q); h3 = segment_plane_intersection(A3, B3, pn, t3, q3); }, [&] {
            L fa = cross(c, d, a), fb = cross(c, d, b), ga = side(*p), gb = side(*r);
            if((fa > 0 && fb < 0) || (fa < 0 && fb > 0)) meets("segment and hyperplane", h, true); else if(fa && fb) meets("segment and hyperplane", h, false); else probe("touching-plane");
            if(h && fa != fb) { R w = (R)fa / (fa - fb); value("position of the hyperplane", t, w); point("segment and hyperplane meet", q, a.x + w * (b.x - a.x), a.y + w * (b.y - a.y)); }
            if((ga > 0 && gb < 0) || (ga < 0 && gb > 0)) { meets("segment and plane in space", h3, true); probe("plane-in-space"); } else if(ga && gb) meets("segment and plane in space", h3, false);
            if(h3 && ga != gb) { R w = (R)ga / (ga - gb); value("position of the plane", t3, w); I3 off{{ox, oy, 0}}; double g[3] = {get<0>(q3), get<1>(q3), get<2>(q3)}; for(int m = 0; m < 3; ++m) value("coordinate of the meeting with the plane", g[m] / u - off.c[m], p->c[m] + w * (r->c[m] - p->c[m])); } });
    }
    void ray_box(const Asked& j, IP o, IP d) {
        const IBox& b = boxes[j.c % boxes.size()]; const Box& B = *sbox[j.c % boxes.size()]; R len = std::sqrt((R)(d.x * d.x + d.y * d.y)); V v(d.x / (double)len, d.y / (double)len); P O = pt(o);
        long oo[2] = {o.x, o.y}, dd[2] = {d.x, d.y}; Span2 all = inside<2>(oo, dd, b, -INFINITY, INFINITY); bool in = in_box(o, b);
        double t = NAN, t0 = NAN, t1 = NAN, s0 = NAN, s1 = NAN; P q(NAN, NAN), q0(NAN, NAN), q1(NAN, NAN), r0(NAN, NAN), r1(NAN, NAN); bool h = false, h2 = false, hl = false, i1 = false, i2 = false; line<P> ln(O, v);
        ask("ray, line and box", j, [&] { auto r = ray_aabb_intersection(O, v, B, t, q, cmp); h = r.is_intersecting(); i1 = r.is_origin_inside(); auto e = ray_aabb_intersection(O, v, B, t0, q0, t1, q1, cmp); h2 = e.is_intersecting(); i2 = e.is_origin_inside(); hl = line_aabb_intersection(ln, B, s0, r0, s1, r1, cmp).is_intersecting(); }, [&] {
            bool graze = all.any && all.hi - all.lo < tiny, behind = all.hi < -tiny, just = std::fabs(all.hi) <= tiny;
            bool want = all.any && !behind; R lo = std::max(all.lo, (R)0);
            if(!(graze || (all.any && just))) { meets("ray and box", h, want); meets("ray and box, both ends", h2, want); } else probe("grazing");
            if(h && all.any) { GSIM_CHECK(i1 == in, "wrong-inside", "ray origin reported %s the box", i1 ? "inside" : "outside"); value("the ray enters the box after", t / u, lo * len); R s = in ? all.hi : lo; point("the ray meets the box", q, o.x + s * d.x, o.y + s * d.y); }
            if(h2 && all.any) { GSIM_CHECK(i2 == in, "wrong-inside", "ray origin reported %s the box", i2 ? "inside" : "outside"); value("the ray enters the box after", t0 / u, lo * len); value("the ray leaves the box after", t1 / u, all.hi * len); point("the ray enters the box", q0, o.x + lo * d.x, o.y + lo * d.y); point("the ray leaves the box", q1, o.x + all.hi * d.x, o.y + all.hi * d.y); if(in) probe("ray-from-inside"); }
            if(!graze) meets("line and box", hl, all.any);
            if(hl && all.any) { value("the line enters the box at", s0 / u, all.lo * len); value("the line leaves the box at", s1 / u, all.hi * len); point("the line enters the box", r0, o.x + all.lo * d.x, o.y + all.lo * d.y); point("the line leaves the box", r1, o.x + all.hi * d.x, o.y + all.hi * d.y); } });
    }
    void segment_box(const Asked& j, IP a, IP b) {
        std::size_t m = j.c % boxes.size(); const IBox& x = boxes[m]; const I3 &p = pts3[j.a % pts3.size()], &q = pts3[j.b % pts3.size()]; bool h = false, h3 = false, hl = false, hg = false; P A = pt(a), B = pt(b); P3 A3 = pt(p), B3 = pt(q);
        ask("segment, polyline, polygon and box", j, [&] { h = segment_aabb_intersection(A, B, *sbox[m]); h3 = segment_aabb_intersection(A3, B3, *sbox3[m]); hl = polyline_aabb_intersection(*line_, *sbox[m]); hg = polygon_aabb_intersection(*gon, *sbox[m]); }, [&] {
            meets("segment and box", h, seg_in_box(a, b, x)); long d[3]; for(int k = 0; k < 3; ++k) d[k] = q.c[k] - p.c[k]; bool w3 = inside<3>(p.c, d, x, 0, 1).any; meets("segment and box in space", h3, w3); probe(w3 ? "space-meeting" : "space-apart");
            bool wl = false; for(std::size_t k = 0; k + 1 < chain.size(); ++k) wl = wl || seg_in_box(chain[k], chain[k + 1], x); meets("polyline and box", hl, wl);
            bool wg = false; for(std::size_t k = 0; k < ring.size(); ++k) wg = wg || seg_in_box(ring[k], ring[(k + 1) % ring.size()], x); if(!wg) { wg = classify(corner(x, 0), ring_edges(ring)) == INSIDE; if(wg) probe("box-in-polygon"); } meets("polygon and box", hg, wg); });
    }
    void clip(const Asked& j, IP a, IP b) {
        std::size_t m = j.c % boxes.size(); const IBox& x = boxes[m]; long o[2] = {a.x, a.y}, d[2] = {b.x - a.x, b.y - a.y}; Span2 s = inside<2>(o, d, x, 0, 1); P A = pt(a), B = pt(b), lo = pt(IP{x.lo[0], x.lo[1]}), hi = pt(IP{x.hi[0], x.hi[1]});
        double c[4] = {get<0>(A), get<1>(A), get<0>(B), get<1>(B)}; bool h = false, tol = j.d & 1;
        ask("clipping a segment to a box", j, [&] { h = tol ? cohen_sutherland_line_clip(c[0], c[1], c[2], c[3], get<0>(lo), get<0>(hi), get<1>(lo), get<1>(hi), cmp) : cohen_sutherland_line_clip(c[0], c[1], c[2], c[3], get<0>(lo), get<0>(hi), get<1>(lo), get<1>(hi), exact); }, [&] {
            if(!(s.any && s.hi - s.lo < tiny && !(a == b))) meets("segment to be clipped and box", h, s.any); else probe("grazing");
            if(h && s.any) { point("the clipped segment starts", P(c[0], c[1]), a.x + s.lo * d[0], a.y + s.lo * d[1]); point("the clipped segment ends", P(c[2], c[3]), a.x + s.hi * d[0], a.y + s.hi * d[1]); if(s.lo > 0 && s.hi < 1) probe("clipped-both-ends"); } });
    }
    void triangle(const Asked& j, IP a, IP b) {
        Tri t = tris[j.d % tris.size()]; if(j.c & 1) std::swap(t.v[1], t.v[2]); bool ccw = cross(t.v[0], t.v[1], t.v[2]) > 0; std::size_t m = j.c % boxes.size(); P A = pt(a), B = pt(b), T[3] = {pt(t.v[0]), pt(t.v[1]), pt(t.v[2])}; bool h = false, h2 = false, hb = false; std::size_t n = 99; P x[4]; for(auto& q : x) q = P(NAN, NAN);
        ask("segment, triangle and box", j, [&] { h = segment_triangle_intersect(A, B, T[0], T[1], T[2]); h2 = segment_triangle_intersect(S(A, B), T[0], T[1], T[2]); hb = eberly_triangle_aabb_intersection_2d(T[0], T[1], T[2], *sbox[m], cmp); if(ccw && !(a == b)) n = segment_triangle_intersect(A, B, T[0], T[1], T[2], x, cmp); }, [&] {
            // the part of the segment in the triangle, each edge a half-plane
            R lo = 0, hi = 1; bool any = true; for(int k = 0; k < 3; ++k) { L fa = cross(t.v[k], t.v[(k + 1) % 3], a), fb = cross(t.v[k], t.v[(k + 1) % 3], b); if(!ccw) { fa = -fa; fb = -fb; } if(fa < 0 && fb < 0) any = false; else if(fa == fb) { if(fa < 0) any = false; } else { R s = (R)fa / (fa - fb); if(fa < fb) lo = std::max(lo, s); else hi = std::min(hi, s); } } any = any && lo <= hi + tiny;
            meets("segment and triangle", h, any); meets("segment object and triangle", h2, any);
            bool w = false; const IBox& bx = boxes[m]; for(int k = 0; k < 3; ++k) w = w || seg_in_box(t.v[k], t.v[(k + 1) % 3], bx); w = w || in_tri(corner(bx, 0), t.v); meets("triangle and box", hb, w);
            if(n == 99) return; std::size_t want = !any ? 0 : hi - lo < tiny ? 1 : 2; GSIM_CHECK(n == want, "wrong-count", "segment and triangle: %zu points reported, should be %zu", n, want);
            auto X = [&](R s) { return a.x + s * (b.x - a.x); }; auto Y = [&](R s) { return a.y + s * (b.y - a.y); }; if(want == 1) { point("segment and triangle touch", x[0], X(lo), Y(lo)); probe("triangle-touched"); }
            if(want == 2) GSIM_CHECK((at(x[0], X(lo), Y(lo)) && at(x[1], X(hi), Y(hi))) || (at(x[1], X(lo), Y(lo)) && at(x[0], X(hi), Y(hi))), "wrong-point", "segment and triangle meet from (%g,%g) to (%g,%g), should be (%g,%g) and (%g,%g)", get<0>(x[0]) / u - ox, get<1>(x[0]) / u - oy, get<0>(x[1]) / u - ox, get<1>(x[1]) / u - oy, (double)X(lo), (double)Y(lo), (double)X(hi), (double)Y(hi)); });
    }
    void one(const Asked& j) {
        std::size_t n = pts.size(); IP a = pts[j.a % n], b = pts[j.b % n], c = pts[j.c % n], d = pts[j.d % n];
        if(j.what < 7 || j.what == 9) { if(j.what != 9 && a == b) b.x += 1; if(c == d) d.y -= 1; }
        IP dir{b.x - a.x, b.y - a.y}; if(j.d & 512) { if(j.d & 256) { long k = dir.x; dir.x = -dir.y; dir.y = k; } else { L k = (j.d & 128) ? 1 : -1; dir = IP{(long)k * (d.x - c.x), (long)k * (d.y - c.y)}; } if(!dir.x && !dir.y) dir.y = 1; }
        switch(j.what) {
        case 0: case 1: ray_segment(j, a, dir, c, d); break;
        case 2: ray_line(j, a, dir, c, d); break;
        case 3: lines(j, a, b, c, d); break;
        case 4: plane_(j, a, b, c, d); break;
        case 5: case 6: { if(j.d & 64) { dir = IP{dir.x ? (dir.x > 0 ? 1 : -1) : 0, (j.d & 32) ? 0 : dir.y}; if(!dir.x && !dir.y) dir.x = -1; } ray_box(j, a, dir); } break;
        case 7: segment_box(j, a, b); break;
        case 8: clip(j, a, b); break;
        default: triangle(j, a, b); break;
        }
    }
    void run() {
        static const double us[] = {1, 0.25, 8}; u = us[choose(GEN, 3)]; if(chance(GEN, 1, 4)) { ox = lattice(GEN, 500); oy = lattice(GEN, 500); }
        long r = 2 + (long)choose(GEN, 11); int n = 5 + (int)choose(GEN, 6);
        for(int i = 0; i < n; ++i) { Span sp(GEN); IP p{lattice(GEN, r), lattice(GEN, r)}; if(i > 1 && chance(GEN, 1, 3)) { IP a = pts[choose(GEN, i)], b = pts[choose(GEN, i)]; long f = 1 + (long)choose(GEN, 2); p = chance(GEN, 1, 2) ? IP{a.x + f * (b.x - a.x), a.y + f * (b.y - a.y)} : IP{(a.x + b.x) / 2, (a.y + b.y) / 2}; } pts.push_back(p); }
        for(int i = 0; i < 7; ++i) { Span sp(GEN); I3 p; for(int k = 0; k < 3; ++k) p.c[k] = lattice(GEN, r); if(i > 1 && chance(GEN, 1, 4)) p = pts3[choose(GEN, i)]; pts3.push_back(p); }
        int nb = 2 + (int)choose(GEN, 2); for(int i = 0; i < nb; ++i) { Span sp(GEN); IBox b; for(int k = 0; k < 3; ++k) { b.lo[k] = lattice(GEN, r); b.hi[k] = b.lo[k] + 1 + (long)choose(GEN, r); } if(chance(GEN, 1, 3)) { IP p = pts[choose(GEN, pts.size())], q = pts[choose(GEN, pts.size())]; if(p.x != q.x) { b.lo[0] = std::min(p.x, q.x); b.hi[0] = std::max(p.x, q.x); } if(p.y != q.y) { b.lo[1] = std::min(p.y, q.y); b.hi[1] = std::max(p.y, q.y); } } boxes.push_back(b); setup([&] { sbox.push_back(new Box(pt(IP{b.lo[0], b.lo[1]}), pt(IP{b.hi[0], b.hi[1]}))); sbox3.push_back(new Box3(pt(I3{{b.lo[0], b.lo[1], b.lo[2]}}), pt(I3{{b.hi[0], b.hi[1], b.hi[2]}}))); }); }
        for(int i = 0; i < 3; ++i) { Span sp(GEN); Tri t; for(auto& p : t.v) p = chance(GEN, 1, 2) ? pts[choose(GEN, pts.size())] : IP{lattice(GEN, r), lattice(GEN, r)}; if(cross(t.v[0], t.v[1], t.v[2]) == 0) { t.v[1] = IP{t.v[0].x + 1 + (long)choose(GEN, r), t.v[0].y}; t.v[2] = IP{t.v[0].x, t.v[0].y + 1 + (long)choose(GEN, r)}; } if(cross(t.v[0], t.v[1], t.v[2]) < 0) std::swap(t.v[1], t.v[2]); tris.push_back(t); }
        chain = draw_chain(GEN, 2, 7, r); ring = draw_simple(GEN, r);
        if(chance(GEN, 1, 3)) { IBox& b = boxes[0]; for(auto& p : ring) { p.x *= 4; p.y *= 4; } for(auto& p : chain) { p.x *= 2; } (void)b; }
        setup([&] { line_ = new polyline<P>(); for(auto& p : chain) line_->push_back(pt(p)); gon = new polygon<P>(); for(auto& p : ring) gon->push_back(pt(p)); });
        log("unit %g offset (%ld,%ld), points %s, polyline %s, polygon %s", u, ox, oy, show(pts).c_str(), show(chain).c_str(), show(ring).c_str()); for(auto& b : boxes) log("box [%ld,%ld]x[%ld,%ld]x[%ld,%ld]", b.lo[0], b.hi[0], b.lo[1], b.hi[1], b.lo[2], b.hi[2]); for(auto& t : tris) log("triangle %s", show(Ring(t.v, t.v + 3)).c_str());
        all(10, 1u << 9, 9, [&](const Asked& j) { one(j); });
    }
};
} // namespace
void gsim_run() { Sim s; s.sw = draw_swarm(3); s.run(); }

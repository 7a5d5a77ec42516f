// Circles, balls, capsules, oriented boxes and convex polygons (C30).
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/intersection/ray_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/circle_circle_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/segment_capsule_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_polyline_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/detail/separating_axis_common.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/separating_axis_convex_polygons.hpp>
#include "asking.hpp"
const char* const gsim_property = "C30";
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef point_double_3d P3;
typedef vector_double_2d V;
typedef vector_double_3d V3;
typedef segment_double_2d S;
typedef sphere<2, P> Ball;
typedef sphere<3, P3> Ball3;
typedef axis_aligned_bounding_box<P> Box;
typedef oriented_bounding_box<P, V> Obb;
typedef absolute_tolerance_comparison_policy<double> Cmp;

namespace {
typedef long double R;
typedef long long L;
const R tiny = 1e-8L;                                      // lattice figures that do not touch differ by more in everything compared here
struct I3 { long c[3]; };
struct Disc { IP c; long r; };
struct Turned { IP c; int ax; R h[2]; };
const double axes[][2] = {{1, 0}, {0, 1}, {0.6, 0.8}, {-0.8, 0.6}, {5.0 / 13, -12.0 / 13}, {-1, 0}, {0.8, 0.6}};
struct Stretch { bool any = false; R lo = 0, hi = 0; };
// Where along o + t d a line is within distance r of c, when d2 is the squared length of d.
Stretch disc(R mx, R my, R dx, R dy, R r) { Stretch s; R a = dx * dx + dy * dy, b = mx * dx + my * dy, c = mx * mx + my * my - r * r, q = b * b - a * c; if(q < 0 || a == 0) return s; q = std::sqrt(q); s.any = true; s.lo = (-b - q) / a; s.hi = (-b + q) / a; return s; }
R seg2(R px, R py, IP a, IP b) { R dx = b.x - a.x, dy = b.y - a.y, l = dx * dx + dy * dy, t = l == 0 ? 0 : ((px - a.x) * dx + (py - a.y) * dy) / l; t = std::max((R)0, std::min((R)1, t)); R ex = px - a.x - t * dx, ey = py - a.y - t * dy; return ex * ex + ey * ey; }
bool both(IP a, IP b) { return !(a == b); }
R segseg2(IP a, IP b, IP c, IP d) {
    if(both(a, b) && both(c, d) && meet(ISeg{a, b}, ISeg{c, d}).m != NONE) return 0;
    return std::min(std::min(seg2(a.x, a.y, c, d), seg2(b.x, b.y, c, d)), std::min(seg2(c.x, c.y, a, b), seg2(d.x, d.y, a, b)));
}

struct Sim : Asking {
    Cmp cmp{1e-10}; double u = 1; long ox = 0, oy = 0;
    std::vector<IP> pts; std::vector<I3> pts3; std::vector<Disc> discs; std::vector<Turned> turned; std::vector<Obb*> obbs; Ring chain; polyline<P>* line_; std::vector<Ring> convex; std::vector<polygon<P>*> gons;
    P pt(IP p) const { return P(u * (p.x + ox), u * (p.y + oy)); }
    P3 pt(const I3& p) const { return P3(u * (p.c[0] + ox), u * (p.c[1] + oy), u * p.c[2]); }
    Ball ball(const Disc& d) const { return Ball(pt(d.c), u * d.r); }
    R X(const P& p) const { return get<0>(p) / (R)u - ox; }
    R Y(const P& p) const { return get<1>(p) / (R)u - oy; }
    void point(const char* what, const P& p, R x, R y, R tol = 1e-7) const { GSIM_CHECK(std::isfinite(get<0>(p)) && std::isfinite(get<1>(p)) && std::fabs(X(p) - x) <= tol && std::fabs(Y(p) - y) <= tol, "wrong-point", "%s at (%.12g,%.12g), should be (%.12g,%.12g)", what, (double)X(p), (double)Y(p), (double)x, (double)y); }
    void value(const char* what, double v, R want, R tol = 1e-7) const { GSIM_CHECK(std::isfinite(v) && std::fabs(v - want) <= tol * (1 + std::fabs(want)), "wrong-parameter", "%s %.12g, should be %.12g", what, v, (double)want); }
    // gap: positive when the figures are apart by that much, negative when they overlap
    bool meets(const char* what, bool got, R gap) const { if(std::fabs(gap) < tiny) { probe("touching"); mix(7); return got; } GSIM_CHECK(got == (gap < 0), "wrong-answer", "%s: %s reported, %s", what, got ? "meeting" : "no meeting", gap < 0 ? "they meet" : "they do not meet"); probe(gap < 0 ? "meeting" : "apart"); mix(got); if(got) nontrivial(); return got; }

    // A ray or a segment entering a solid ball: where first.
    void enters(const char* what, bool hit, R m2, R b, R l2, R r, R upto, R& first, bool& graze) const {
        R c = m2 - r * r, near2 = m2 - b * b / l2, last = -b / l2; if(last < 0) near2 = m2; if(last > upto) near2 = m2 + 2 * b * upto + l2 * upto * upto;   // squared distance of the closest point of the ray or segment
        graze = std::fabs(near2 - r * r) < tiny; meets(what, hit, near2 - r * r); R q = b * b - l2 * c; first = c <= 0 ? 0 : (-b - std::sqrt(std::max((R)0, q))) / l2; if(first < 0) first = 0; if(c <= 0) probe("from-inside");
    }
    void ray(const Asked& j, IP o, IP d, const Disc& s) {
        R l = std::sqrt((R)(d.x * d.x + d.y * d.y)); V v(d.x / (double)l, d.y / (double)l); double t = NAN, t3 = NAN; P q(NAN, NAN); P3 q3(NAN, NAN, NAN); bool h = false, h3 = false; Ball B = ball(s);
        const I3 &p = pts3[j.a % pts3.size()], &e = pts3[j.b % pts3.size()], &c3 = pts3[j.d % pts3.size()]; L d3[3], m3[3], L2 = 0, b3 = 0, M2 = 0; for(int k = 0; k < 3; ++k) { d3[k] = e.c[k] - p.c[k]; } if(!d3[0] && !d3[1] && !d3[2]) d3[2] = 1; for(int k = 0; k < 3; ++k) { m3[k] = p.c[k] - c3.c[k]; L2 += d3[k] * d3[k]; b3 += d3[k] * m3[k]; M2 += m3[k] * m3[k]; }
        double l3 = std::sqrt((double)L2); V3 v3(d3[0] / l3, d3[1] / l3, d3[2] / l3); Ball3 B3(pt(c3), u * s.r); P3 P0 = pt(p);
        ask("ray and ball", j, [&] { h = ray_sphere_intersection(pt(o), v, B, t, q, cmp); h3 = ray_sphere_intersection(P0, v3, B3, t3, q3, cmp); }, [&] {
            R first; bool graze; L mx = o.x - s.c.x, my = o.y - s.c.y; enters("ray and circle", h, mx * mx + my * my, mx * d.x + my * d.y, l * l, s.r, INFINITY, first, graze);
            if(h) { R tol = graze ? 1e-3L : 1e-7L; value("the ray enters the circle after", t / u, first * l, tol); point("the ray enters the circle", q, o.x + first * d.x, o.y + first * d.y, tol * 100); }
            enters("ray and ball in space", h3, M2, b3, L2, s.r, INFINITY, first, graze); if(h3) { R tol = graze ? 1e-3L : 1e-7L; value("the ray enters the ball after", t3 / u, first * std::sqrt((R)L2), tol); double g[3] = {get<0>(q3), get<1>(q3), get<2>(q3)}; long off[3] = {ox, oy, 0}; for(int k = 0; k < 3; ++k) value("the ray enters the ball at", g[k] / u - off[k], p.c[k] + first * d3[k], tol * 10); } });
    }
    void segment(const Asked& j, IP a, IP b, const Disc& s) {
        double t = NAN, t2 = NAN, t3 = NAN; P q(NAN, NAN), q2(NAN, NAN), q3(NAN, NAN); bool h = false, h2 = false, h3 = false; Ball B = ball(s); P A = pt(a), E = pt(b); L dx = b.x - a.x, dy = b.y - a.y, mx = a.x - s.c.x, my = a.y - s.c.y, l2 = dx * dx + dy * dy; double len = u * std::sqrt((double)l2); V d(u * dx, u * dy);
        ask("segment and ball", j, [&] { h = segment_sphere_intersection(A, E, B, t, q, cmp); h2 = segment_sphere_intersection(S(A, E), B, t2, q2, cmp); h3 = segment_sphere_intersection(A, d, len, B, t3, q3, cmp); }, [&] {
            R first = 0; bool graze = false; for(bool g : {h, h2, h3}) { if(l2) enters("segment and circle", g, mx * mx + my * my, mx * dx + my * dy, l2, s.r, 1, first, graze); else meets("point and circle", g, mx * mx + my * my - s.r * s.r); } R tol = graze ? 1e-3L : 1e-7L; if(!l2) probe("no-length");
            double ts[3] = {t, t2, t3}; const P* qs[3] = {&q, &q2, &q3}; bool hs[3] = {h, h2, h3}; for(int k = 0; k < 3; ++k) if(hs[k]) { value("the segment enters the circle at", ts[k], first, tol); point("the segment enters the circle", *qs[k], a.x + first * dx, a.y + first * dy, tol * 100); } });
    }
    // Which of the two places where the line through a and b crosses the circle lie on the segment: -1 when it cannot be told.
    struct Two { bool line; R t[2]; int on[2]; };
    Two two(IP a, IP b, const Disc& s) const {
        Two w; L dx = b.x - a.x, dy = b.y - a.y, mx = a.x - s.c.x, my = a.y - s.c.y, A = dx * dx + dy * dy, Bq = mx * dx + my * dy, C = mx * mx + my * my - s.r * s.r, q = Bq * Bq - A * C; w.line = q > 0; bool touch = q == 0;
        for(int k = 0; k < 2; ++k) { R root = std::sqrt((R)std::max(q, (L)0)); w.t[k] = A ? (-(R)Bq + (k ? root : -root)) / A : 0; R e = touch ? 1e-4L : 1e-8L; w.on[k] = q < 0 || !A ? 0 : w.t[k] < -e || w.t[k] > 1 + e ? 0 : !touch && w.t[k] > e && w.t[k] < 1 - e ? 1 : -1; if(!A && C == 0) w.on[k] = -1; } return w;
    }
    void border(const Asked& j, IP a, IP b, const Disc& s) {
        double t[2] = {NAN, NAN}; P q[2] = {P(NAN, NAN), P(NAN, NAN)}; bool h0 = false, h1 = false, any = false; unsigned n = 0; Ball B = ball(s); Two w = two(a, b, s);
        ask("segment and circle, both places", j, [&] { auto r = segment_sphere_intersection(pt(a), pt(b), B, t, q, cmp); h0 = r.is_t0_intersecting(); h1 = r.is_t1_intersecting(); any = static_cast<bool>(r); n = static_cast<std::uint32_t>(r); }, [&] {
            GSIM_CHECK(any == (h0 || h1) && n == (unsigned)h0 + h1, "wrong-count", "segment and circle: %u meetings counted, %d reported", n, h0 + h1);
            for(int k = 0; k < 2; ++k) { bool h = k ? h1 : h0; GSIM_CHECK(w.on[k] < 0 || h == w.on[k], "wrong-answer", "segment and circle: the %s crossing is %sreported", k ? "second" : "first", h ? "" : "not "); probe(w.on[k] < 0 ? "touching" : h ? "crossing" : "no-crossing"); if(h) { R e = w.line ? 1e-7L : 1e-3L; value("the segment crosses the circle at", t[k], w.t[k], e); point("the segment crosses the circle", q[k], a.x + w.t[k] * (b.x - a.x), a.y + w.t[k] * (b.y - a.y), e * 100); } } });
    }
    template <class Res> void circles(const char* what, const Res& r, int state, const Disc& a, const Disc& b) {
        L dx = b.c.x - a.c.x, dy = b.c.y - a.c.y, d2 = dx * dx + dy * dy, sum = (a.r + b.r) * (a.r + b.r), dif = (a.r - b.r) * (a.r - b.r); static const char* names[] = {"apart", "one inside the other", "one point", "two points", "the same circle"};
        int want = d2 > sum ? 0 : d2 < dif ? 1 : d2 == 0 ? 4 : 3; bool tangent = want == 3 && (d2 == sum || d2 == dif);
        GSIM_CHECK(state == want || (tangent && state == 2), "wrong-kind", "%s: %s reported, should be %s", what, names[state], tangent ? "one point" : names[want]); probe(tangent ? "tangent" : names[want]); mix(state);
        GSIM_CHECK((bool)r.IntersectionPoint0 == (state == 2 || state == 3) && (bool)r.IntersectionPoint1 == (state == 3), "wrong-count", "%s: points given do not fit %s", what, names[state]);
        if(want != 3) return; nontrivial();
        R d = std::sqrt((R)d2), al = ((R)a.r * a.r - (R)b.r * b.r + d2) / (2 * d), h = std::sqrt(std::max((R)0, (R)a.r * a.r - al * al)), mx = a.c.x + al * dx / d, my = a.c.y + al * dy / d, px = -dy / d * h, py = dx / d * h, tol = tangent ? 1e-3L : 1e-7L;
        const P& p = *r.IntersectionPoint0; if(state == 2) { point(what, p, mx, my, tol); return; }
        const P& q = *r.IntersectionPoint1; R side = (X(p) - mx) * px + (Y(p) - my) * py; int s = side >= 0 ? 1 : -1; point(what, p, mx + s * px, my + s * py, tol); point(what, q, mx - s * px, my - s * py, tol);
    }
    void capsule(const Asked& j, IP a, IP b, IP p, IP q, long r) {
        double t = NAN; P x(NAN, NAN); bool h = false; double rad = u * r;
        ask("segment and capsule", j, [&] { h = segment_capsule_intersection(pt(a), pt(b), pt(p), pt(q), rad, t, x, cmp); }, [&] {
            R gap = segseg2(a, b, p, q) - (R)r * r; meets("segment and capsule", h, gap); if(!h) return; bool graze = std::fabs(gap) < tiny; R sx = a.x, sy = a.y, dx = b.x - a.x, dy = b.y - a.y, first = INFINITY;
            if(seg2(a.x, a.y, p, q) <= (R)r * r) { first = 0; probe("from-inside"); }
            else { for(IP c : {p, q}) { Stretch s = disc(sx - c.x, sy - c.y, dx, dy, r); if(s.any && s.hi >= 0) first = std::min(first, s.lo); }
                R ax = q.x - p.x, ay = q.y - p.y, l = std::sqrt(ax * ax + ay * ay); if(l > 0) { R lo = -INFINITY, hi = INFINITY; auto clip = [&](R f0, R df, R mn, R mx) { if(df == 0) { if(f0 < mn || f0 > mx) hi = -INFINITY; return; } R s0 = (mn - f0) / df, s1 = (mx - f0) / df; if(s0 > s1) std::swap(s0, s1); lo = std::max(lo, s0); hi = std::min(hi, s1); };
                    clip(((sx - p.x) * ax + (sy - p.y) * ay) / l, (dx * ax + dy * ay) / l, 0, l); clip(((sx - p.x) * ay - (sy - p.y) * ax) / l, (dx * ay - dy * ax) / l, -r, r); if(lo <= hi && hi >= 0) first = std::min(first, lo); } }
            if(graze) { if(first == INFINITY) { GSIM_CHECK(std::isfinite(t) && t >= -1e-6 && t <= 1 + 1e-6 && std::fabs(std::sqrt(seg2(X(x), Y(x), p, q)) - r) < 1e-3L, "wrong-point", "touching segment and capsule meet at (%g,%g)", (double)X(x), (double)Y(x)); return; } }
            R tol = graze ? 1e-3L : 1e-6L; value("the segment enters the capsule at", t, std::max(first, (R)0), tol); point("the segment enters the capsule", x, a.x + std::max(first, (R)0) * dx, a.y + std::max(first, (R)0) * dy, tol * 100); });
    }
    void along(const Asked& j, const Disc& s) {
        Ball B = ball(s); std::vector<std::size_t> got; bool ret = false; std::size_t stop = (sw.early_stop && (j.a & 1)) ? 1 + j.a / 2 % 3 : 999, boom = (sw.throwing_callbacks && (j.b & 3) == 0) ? j.b / 4 % 3 : 999; bool threw = false;
        Outcome o = ask("circle and polyline", j, [&] { ret = sphere_polyline_intersect(B, *line_, [&](const segment_sphere_intersection_result& r, std::size_t i, std::size_t k, double t0, const P& q0, double t1, const P& q1) -> bool {
            InMode m(HARNESS); GSIM_CHECK(k == i + 1 && k < chain.size(), "wrong-edge", "circle and polyline: edge from vertex %zu to %zu", i, k); GSIM_CHECK(got.empty() || got.back() < i, "wrong-edge", "circle and polyline: edge %zu visited after edge %zu", i, got.empty() ? 0 : got.back()); GSIM_CHECK(got.size() < stop, "visited-after-stop", "circle and polyline: visited again after asking to stop");
            Two w = two(chain[i], chain[k], s); bool hs[2] = {r.is_t0_intersecting(), r.is_t1_intersecting()}; double ts[2] = {t0, t1}; const P* qs[2] = {&q0, &q1};
            for(int e = 0; e < 2; ++e) { GSIM_CHECK(w.on[e] < 0 || hs[e] == w.on[e], "wrong-answer", "circle and polyline: crossing %d of edge %zu %sreported", e, i, hs[e] ? "" : "not "); if(hs[e]) { R tol = w.line ? 1e-7L : 1e-3L; value("the edge crosses the circle at", ts[e], w.t[e], tol); point("the edge crosses the circle", *qs[e], chain[i].x + w.t[e] * (chain[k].x - chain[i].x), chain[i].y + w.t[e] * (chain[k].y - chain[i].y), tol * 100); } }
            if(got.size() == boom) { threw = true; fault("callback-throw"); throw SimThrow{1}; } got.push_back(i); return got.size() == stop; }, cmp); }, [&] {}, true);
        if(o == THREW) { GSIM_CHECK(threw, "unexpected-exception", "an exception surfaced that the visitor did not throw"); probe("visitor-threw"); return; }
        std::size_t last = got.size() == stop ? got.back() : chain.size(), n = 0; GSIM_CHECK(ret == !got.empty(), "wrong-answer", "circle and polyline: %s reported after %zu visits", ret ? "meeting" : "no meeting", got.size());
        if(got.size() == stop) probe("stopped"); for(std::size_t i = 0; i + 1 < chain.size() && i <= last; ++i) { Two w = two(chain[i], chain[i + 1], s); bool in = std::find(got.begin(), got.end(), i) != got.end(); if(w.on[0] == 1 || w.on[1] == 1) { GSIM_CHECK(in, "missed-edge", "circle and polyline: edge %zu crosses the circle and was not visited", i); ++n; } else if(w.on[0] == 0 && w.on[1] == 0) GSIM_CHECK(!in, "wrong-edge", "circle and polyline: edge %zu does not cross the circle and was visited", i); }
        if(n) { probe("polyline-crossed"); nontrivial(); } mix(n);
    }
    R local(const Turned& t, IP p, int k) const { R x = p.x - t.c.x, y = p.y - t.c.y; return k == 0 ? x * axes[t.ax][0] + y * axes[t.ax][1] : -x * axes[t.ax][1] + y * axes[t.ax][0]; }
    void solids(const Asked& j, const Disc& s, IP a, IP b) {
        std::size_t m = j.c % turned.size(), k = j.d % turned.size(), g1 = j.a % gons.size(), g2 = j.b % gons.size(); IP lo{std::min(a.x, b.x), std::min(a.y, b.y)}, hi{std::max(a.x, b.x), std::max(a.y, b.y)}; if(lo.x == hi.x) ++hi.x; if(lo.y == hi.y) ++hi.y; Box X_(pt(lo), pt(hi)); Ball B = ball(s); bool h = false, h2 = false, ho = false, oo = false, gg = false; P c(NAN, NAN);
        ask("balls, boxes and polygons", j, [&] { h = sphere_aabb_intersection(B, X_); h2 = sphere_aabb_intersection(B, X_, c); ho = sphere_obb_intersection(B, *obbs[m]); oo = obb_obb_intersection(*obbs[m], *obbs[k], cmp); gg = convex_polygons_intersection(*gons[g1], *gons[g2], cmp); }, [&] {
            L ex = std::max(0L, std::max(lo.x - s.c.x, s.c.x - hi.x)), ey = std::max(0L, std::max(lo.y - s.c.y, s.c.y - hi.y)); meets("circle and box", h, ex * ex + ey * ey - s.r * s.r); meets("circle and box, closest point asked", h2, ex * ex + ey * ey - s.r * s.r); point("the point of the box closest to the circle", c, std::min(std::max(s.c.x, lo.x), hi.x), std::min(std::max(s.c.y, lo.y), hi.y));
            const Turned &T = turned[m], &U = turned[k]; R f = std::max((R)0, std::fabs(local(T, s.c, 0)) - T.h[0]), e = std::max((R)0, std::fabs(local(T, s.c, 1)) - T.h[1]); meets("circle and oriented box", ho, f * f + e * e - (R)s.r * s.r);
            R gap = -INFINITY; for(int w = 0; w < 4; ++w) { const Turned& A = w < 2 ? T : U; const double* x = axes[A.ax]; R nx = w & 1 ? -x[1] : x[0], ny = w & 1 ? x[0] : x[1], reach = 0; for(const Turned* D : {&T, &U}) { const double* y = axes[D->ax]; reach += D->h[0] * std::fabs(nx * y[0] + ny * y[1]) + D->h[1] * std::fabs(-nx * y[1] + ny * y[0]); } gap = std::max(gap, std::fabs(nx * (U.c.x - T.c.x) + ny * (U.c.y - T.c.y)) - reach); } meets("two oriented boxes", oo, gap); probe(gap > 0 ? "boxes-apart" : "boxes-meet");
            L apart = -1000000; const Ring *r1 = &convex[g1], *r2 = &convex[g2]; for(int w = 0; w < 2; ++w) { const Ring &A = w ? *r2 : *r1, &C = w ? *r1 : *r2; for(std::size_t i = 0; i < A.size(); ++i) { IP p = A[i], q = A[(i + 1) % A.size()]; L amin = 1 << 30, amax = -(1 << 30), cmin = amin, cmax = amax; auto pr = [&](IP z) { return (L)(q.y - p.y) * z.x - (L)(q.x - p.x) * z.y; }; for(auto z : A) { amin = std::min(amin, pr(z)); amax = std::max(amax, pr(z)); } for(auto z : C) { cmin = std::min(cmin, pr(z)); cmax = std::max(cmax, pr(z)); } apart = std::max(apart, std::max(amin - cmax, cmin - amax)); } } meets("two convex polygons", gg, apart); probe(apart > 0 ? "polygons-apart" : apart < 0 ? "polygons-meet" : "polygons-touch"); });
    }
    void one(const Asked& j) {
        IP a = pts[j.a % pts.size()], b = pts[j.b % pts.size()], c = pts[j.c % pts.size()], d = pts[j.d % pts.size()]; const Disc &s = discs[j.c % discs.size()], &s2 = discs[j.d % discs.size()];
        switch(j.what) {
        case 0: { IP v{b.x - a.x, b.y - a.y}; if(j.d & 64) v = IP{d.x - c.x, d.y - c.y}; if(!v.x && !v.y) v.x = -1; ray(j, a, v, s); } break;
        case 1: segment(j, a, b, s); break;
        case 2: border(j, a, b, s); break;
        case 3: { Ball x = ball(s), y = ball(s2); int st = -1, st2 = -1; typedef circle_circle_intersection_result<P> C; typedef sphere_sphere_intersection_result<P> D; C r(circle_intersection_state::non_intersecting); D r2(sphere_intersection_state::non_intersecting); ask("two circles", j, [&] { r = circle_circle_intersection(x, y, cmp); st = (int)r.State; r2 = sphere_sphere_intersection(x, y, cmp); st2 = (int)r2.State; }, [&] { circles("two circles", r, st, s, s2); circles("two spheres", r2, st2, s, s2); }); } break;
        case 4: case 5: if(j.a & 32) { IP f{c.x - a.x, c.y - a.y}; b = IP{a.x + f.x, a.y + f.y}; long e = (j.b & 32) ? 1 : -1; b = IP{a.x + e * (d.x - c.x), a.y + e * (d.y - c.y)}; } capsule(j, a, b, c, d, s.r); break;
        case 6: along(j, s); break;
        default: solids(j, s, a, b); break;
        }
    }
    Ring hull(std::vector<IP> p) {
        std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end()); Ring h; for(int w = 0; w < 2; ++w) { std::size_t base = h.size(); for(auto& q : p) { while(h.size() >= base + 2 && cross(h[h.size() - 2], h.back(), q) <= 0) h.pop_back(); h.push_back(q); } h.pop_back(); std::reverse(p.begin(), p.end()); } return h;
    }
    void run() {
        static const double us[] = {1, 0.25, 8, 0.1, 1.0 / 3}; u = us[choose(GEN, 5)]; if(chance(GEN, 1, 4)) { ox = lattice(GEN, 100); oy = lattice(GEN, 100); }
        long r = 3 + (long)choose(GEN, 10); int n = 5 + (int)choose(GEN, 6);
        for(int i = 0; i < n; ++i) { Span sp(GEN); IP p{lattice(GEN, r), lattice(GEN, r)}; if(i > 1 && chance(GEN, 1, 4)) { IP a = pts[choose(GEN, i)], b = pts[choose(GEN, i)]; p = IP{2 * b.x - a.x, 2 * b.y - a.y}; } if(i && chance(GEN, 1, 10)) p = pts[choose(GEN, i)]; pts.push_back(p); }
        for(int i = 0; i < 6; ++i) { Span sp(GEN); I3 p; for(int k = 0; k < 3; ++k) p.c[k] = lattice(GEN, r); pts3.push_back(p); }
        for(int i = 0; i < 5; ++i) { Span sp(GEN); Disc d{IP{lattice(GEN, r), lattice(GEN, r)}, 1 + (long)choose(GEN, r)}; if(chance(GEN, 1, 3)) d.c = pts[choose(GEN, pts.size())];
            if(i && chance(GEN, 1, 3)) { const Disc& o = discs[choose(GEN, i)]; static const int py[][3] = {{3, 4, 5}, {4, 3, 5}, {5, 12, 13}, {1, 0, 1}, {0, 2, 2}, {-3, 4, 5}, {6, -8, 10}}; auto y = py[choose(GEN, 7)]; d.c = IP{o.c.x + y[0], o.c.y + y[1]}; d.r = chance(GEN, 1, 2) && y[2] > o.r ? y[2] - o.r : chance(GEN, 1, 2) ? o.r + y[2] : o.r; if(chance(GEN, 1, 5)) d.c = o.c; } discs.push_back(d); }
        for(int i = 0; i < 3; ++i) { Span sp(GEN); Turned t{IP{lattice(GEN, r), lattice(GEN, r)}, (int)choose(GEN, 7), {1 + (R)choose(GEN, 2 * r) / 2, 1 + (R)choose(GEN, 2 * r) / 2}}; turned.push_back(t); auto x = axes[t.ax]; setup([&] { obbs.push_back(new Obb(pt(t.c), V(x[0], x[1]), V(-x[1], x[0]), u * (double)t.h[0], u * (double)t.h[1])); }); }
        chain = draw_chain(GEN, 2, 8, r);
        for(int i = 0; i < 3; ++i) { Span sp(GEN); Ring h; IP at{lattice(GEN, r), lattice(GEN, r)}; int m = 3 + (int)choose(GEN, 12); std::vector<IP> v; for(int k = 0; k < m; ++k) { Span s2(GEN); v.push_back(IP{at.x + lattice(GEN, r), at.y + lattice(GEN, r)}); } h = hull(v); if(h.size() < 3) h = Ring{at, IP{at.x + 2, at.y}, IP{at.x, at.y + 1}}; std::rotate(h.begin(), h.begin() + choose(GEN, h.size()), h.end()); if(chance(GEN, 1, 3)) { std::reverse(h.begin(), h.end()); probe("clockwise"); } convex.push_back(h); }
        setup([&] { line_ = new polyline<P>(); for(auto& p : chain) line_->push_back(pt(p)); for(auto& h : convex) { auto* g = new polygon<P>(); for(auto& p : h) g->push_back(pt(p)); gons.push_back(g); } });
        log("unit %g offset (%ld,%ld), points %s, polyline %s", u, ox, oy, show(pts).c_str(), show(chain).c_str()); for(auto& d : discs) log("circle (%ld,%ld) radius %ld", d.c.x, d.c.y, d.r); for(auto& h : convex) log("convex polygon %s", show(h).c_str());
        all(8, 0, 9, [&](const Asked& j) { one(j); });
    }
};
} // namespace
void gsim_run() { Sim s; s.sw = draw_swarm(3); s.run(); }

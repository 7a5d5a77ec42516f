// Where points, segments and polygons lie to each other, asked with the caller's own comparison policy (C32).
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/point_in_polygon.hpp>
#include "asking.hpp"
const char* const gsim_property = "C32";
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef point_double_3d P3;
typedef vector_double_2d V;
typedef segment_double_2d S;
typedef segment<P3> S3;
typedef absolute_tolerance_comparison_policy<double> Cmp;
typedef long long L;

namespace {
// The caller's comparison policy: lets other tasks run in the middle of a question, and may throw.
struct Moment { std::size_t n = 0, boom = 0, every = 0; bool threw = false;
    void tick() { InMode h(HARNESS); ++n; if(n == boom) { threw = true; fault("comparison-throw"); throw SimThrow{1}; } if(every && n % every == 0) yield(); }
};
struct Watch { Moment* m; double tol;
    template <class A, class B> bool equals(const A& a, const B& b) const { m->tick(); return Cmp(tol).equals(a, b); }
    template <class A, class B> bool less_than(const A& a, const B& b) const { m->tick(); return Cmp(tol).less_than(a, b); }
    template <class A, class B> bool less_than_or_equal(const A& a, const B& b) const { m->tick(); return Cmp(tol).less_than_or_equal(a, b); }
    template <class A, class B> bool greater_than(const A& a, const B& b) const { m->tick(); return Cmp(tol).greater_than(a, b); }
    template <class A, class B> bool greater_than_or_equal(const A& a, const B& b) const { m->tick(); return Cmp(tol).greater_than_or_equal(a, b); }
};
struct I3 { L c[3]; };
inline I3 minus(const I3& a, const I3& b) { return I3{{a.c[0] - b.c[0], a.c[1] - b.c[1], a.c[2] - b.c[2]}}; }
inline L dot(const I3& a, const I3& b) { return a.c[0] * b.c[0] + a.c[1] * b.c[1] + a.c[2] * b.c[2]; }
inline I3 times(const I3& a, const I3& b) { return I3{{a.c[1] * b.c[2] - a.c[2] * b.c[1], a.c[2] * b.c[0] - a.c[0] * b.c[2], a.c[0] * b.c[1] - a.c[1] * b.c[0]}}; }
inline bool null(const I3& a) { return !a.c[0] && !a.c[1] && !a.c[2]; }

struct Sim : Asking {
    double u = 1; long ox = 0, oy = 0; std::vector<IP> pts; std::vector<I3> pts3; std::vector<Ring> rings; std::vector<polygon<P>*> gons; std::vector<Ring> convex; std::vector<polygon<P>*> cgons; std::vector<std::array<polygon<P>*, 2>> parts;
    P pt(IP p) const { return P(u * (p.x + ox), u * (p.y + oy)); }
    P3 pt(const I3& p) const { return P3(u * (p.c[0] + ox), u * (p.c[1] + oy), u * p.c[2]); }
    bool at(const P& p, double x, double y) const { return std::isfinite(get<0>(p)) && std::isfinite(get<1>(p)) && std::fabs(get<0>(p) / u - ox - x) <= 1e-8 && std::fabs(get<1>(p) / u - oy - y) <= 1e-8; }
    static const char* kind(int k) { static const char* n[] = {"none", "crossing", "overlapping", "endpoint", "right to left", "left to right"}; return k < 0 || k > 5 ? "another" : n[k]; }
    static int back(int k) { return k == e_intersect_left_right ? e_intersect_right_left : k == e_intersect_right_left ? e_intersect_left_right : k; }
    // Asks with a fresh policy; a throw of the policy ends the question.
    template <class F, class C> void with(const char* what, const Asked& j, F f, C check) {
        Moment m; if(sw.tasks > 1 && (j.d & 3) == 1) m.every = 1 + (j.d >> 2 & 7); if(sw.throwing_callbacks && (j.c & 7) == 3) m.boom = 1 + (j.c >> 3 & 31); Watch w{&m, 1e-10};
        Outcome o = ask(what, j, [&] { f(w); }, check, m.boom > 0); if(o == THREW) { GSIM_CHECK(m.threw, "unexpected-exception", "%s: an exception surfaced that the policy did not throw", what); probe("policy-threw"); } else GSIM_CHECK(!m.threw, "swallowed-exception", "%s: the policy threw and the answer came all the same", what);
    }
    void turns(const Asked& j, IP a, IP b, IP c) {
        P A = pt(a), B = pt(b), C = pt(c); int o = 9, o2 = 9; bool col = false, in = false, in2 = false, ve = false, ho = false, ve2 = false, ho2 = false; V v(u * (b.x - a.x), u * (b.y - a.y)), w(u * (c.x - a.x), u * (c.y - a.y));
        with("turn", j, [&](const Watch& cmp) { o = get_orientation(A, B, C, cmp); o2 = get_orientation(v, w, cmp); col = is_collinear(A, B, C, cmp); in = is_between(A, B, C, true, cmp); in2 = is_between(A, B, C, false, cmp); ve = is_vertical(A, B, cmp); ho = is_horizontal(A, B, cmp); ve2 = is_vertical(S(A, B), cmp); ho2 = is_horizontal(S(A, B), cmp); }, [&] {
            L d = cross(a, b, c); int want = d > 0 ? oriented_left : d < 0 ? oriented_right : oriented_collinear; GSIM_CHECK(o == want && o2 == want, "wrong-turn", "turn %d and %d reported, should be %d", o, o2, want); GSIM_CHECK(opposite_orientation((orientation_type)o) == -want, "wrong-turn", "the opposite of turn %d is %d", o, (int)opposite_orientation((orientation_type)o)); GSIM_CHECK(col == (d == 0), "wrong-answer", "three points: %scollinear reported", col ? "" : "not ");
            bool on = on_seg(c, ISeg{a, b}), inner = on && !(c == a) && !(c == b); GSIM_CHECK(in == on, "wrong-between", "a point %s between two others, %s reported", on ? "lies" : "does not lie", in ? "between" : "not between"); GSIM_CHECK(in2 == inner, "wrong-between", "a point %s strictly between two others, %s reported", inner ? "lies" : "does not lie", in2 ? "between" : "not between");
            GSIM_CHECK(ve == (a.x == b.x) && ve2 == ve && ho == (a.y == b.y) && ho2 == ho, "wrong-answer", "vertical %d %d or horizontal %d %d reported", ve, ve2, ho, ho2); probe(d > 0 ? "left" : d < 0 ? "right" : inner ? "strictly-between" : on ? "at-an-end" : "collinear-outside"); if(a == b) probe("equal-ends"); nontrivial(); mix(want + 2); });
    }
    void pair(const Asked& j, IP a, IP b, IP c, IP d) {
        P A = pt(a), B = pt(b), C = pt(c), D = pt(d), x[2] = {P(NAN, NAN), P(NAN, NAN)}, y[2] = {P(NAN, NAN), P(NAN, NAN)}; int k[8] = {-7, -7, -7, -7, -7, -7, -7, -7}; P* no = nullptr; bool flat = a == b || c == d;
        with("two segments", j, [&](const Watch& cmp) { k[0] = segment_segment_intersection(A, B, C, D, x, cmp); k[1] = segment_segment_intersection(S(A, B), S(C, D), y, cmp); k[2] = segment_segment_intersection(C, D, A, B, no, cmp); k[3] = segment_segment_intersection(B, A, C, D, no, cmp); k[4] = segment_segment_intersection(S(A, B), S(D, C), no, cmp); if(!flat) { k[5] = oriented_intersection(A, B, C, D, cmp); k[6] = oriented_intersection(B, A, C, D, cmp); k[7] = oriented_intersection(A, B, D, C, cmp); } }, [&] {
            if(flat) { IP p = a == b ? a : c; bool on = a == b ? on_seg(p, ISeg{c, d}) : on_seg(p, ISeg{a, b}); for(int i = 0; i < 5; ++i) GSIM_CHECK((k[i] == e_non_crossing) == !on && k[i] >= 0 && k[i] != e_crossing, "wrong-kind", "a segment without length and another: %s reported, %s (%d)", kind(k[i]), on ? "they meet" : "they do not meet", i); if(on) GSIM_CHECK(at(x[0], p.x, p.y) && at(y[0], p.x, p.y), "wrong-point", "a segment without length and another meet at (%g,%g)", get<0>(x[0]) / u - ox, get<1>(x[0]) / u - oy); probe(on ? "point-on-segment" : "point-off-segment"); return; }
            Meeting m = meet(ISeg{a, b}, ISeg{c, d}); int want = m.m == NONE ? e_non_crossing : m.m == CROSS ? e_crossing : m.m == TOUCH ? e_endpoint : e_overlapping;
            for(int i = 0; i < 5; ++i) GSIM_CHECK(k[i] == want, "wrong-kind", "two segments: %s reported, should be %s (%d)", kind(k[i]), kind(want), i);
            for(auto q : {x, y}) { if(want == e_crossing || want == e_endpoint) GSIM_CHECK(at(q[0], m.x[0], m.y[0]), "wrong-point", "two segments meet at (%.12g,%.12g), should be (%.12g,%.12g)", get<0>(q[0]) / u - ox, get<1>(q[0]) / u - oy, m.x[0], m.y[0]); if(want == e_overlapping) GSIM_CHECK((at(q[0], m.x[0], m.y[0]) && at(q[1], m.x[1], m.y[1])) || (at(q[1], m.x[0], m.y[0]) && at(q[0], m.x[1], m.y[1])), "wrong-point", "two segments overlap from (%g,%g) to (%g,%g), should be (%g,%g) to (%g,%g)", get<0>(q[0]) / u - ox, get<1>(q[0]) / u - oy, get<0>(q[1]) / u - ox, get<1>(q[1]) / u - oy, m.x[0], m.y[0], m.x[1], m.y[1]); }
            probe(kind(want)); nontrivial(); mix(want);
            if(want == e_endpoint) return; int w = want != e_crossing ? want : cross(c, d, a) > 0 ? e_intersect_left_right : e_intersect_right_left; GSIM_CHECK(k[5] == w && k[6] == back(w) && k[7] == back(w), "wrong-kind", "two segments with direction: %s, %s and %s reported, should be %s and turned", kind(k[5]), kind(k[6]), kind(k[7]), kind(w)); probe(kind(w)); });
    }
    void space(const Asked& j) {
        std::size_t n = pts3.size(); I3 a = pts3[j.a % n], b = pts3[j.b % n], c = pts3[j.c % n], d = pts3[j.d % n]; if(null(minus(a, b))) b.c[j.c % 3] += 1; if(null(minus(c, d))) d.c[j.a % 3] -= 1; if(j.d & 512) { for(int i = 0; i < 3; ++i) { L s = a.c[i] + b.c[i], k = (j.d & 256) ? 1 : 2; c.c[i] = (j.d & 128) ? a.c[i] : s / 2; d.c[i] = c.c[i] + k * (b.c[i] - a.c[i]) * ((j.d & 64) ? 1 : -1); } if((j.d & 32) && !(j.d & 128)) { d = pts3[j.a / 4 % n]; if(null(minus(c, d))) d.c[1] += 2; } }
        P3 A = pt(a), B = pt(b), C = pt(c), D = pt(d), x[2] = {P3(NAN, NAN, NAN), P3(NAN, NAN, NAN)}, y[2] = {P3(NAN, NAN, NAN), P3(NAN, NAN, NAN)}, z[2]; int k[4] = {-7, -7, -7, -7};
        with("two segments in space", j, [&](const Watch& cmp) { k[0] = segment_segment_intersection(A, B, C, D, x, cmp); k[1] = segment_segment_intersection(S3(A, B), S3(C, D), y, cmp); k[2] = segment_segment_intersection(C, D, A, B, z, cmp); k[3] = segment_segment_intersection(B, A, D, C, z, cmp); }, [&] {
            I3 v = minus(b, a), w = minus(d, c), r = minus(c, a), vw = times(v, w); int want = e_non_crossing; double s[2] = {0, 0};
            if(null(vw)) { if(null(times(v, r))) { L l = dot(v, v), p = dot(v, r), q = dot(v, minus(d, a)), lo = std::max(0LL, std::min(p, q)), hi = std::min(l, std::max(p, q)); if(lo <= hi) { want = lo == hi ? e_endpoint : e_overlapping; s[0] = (double)lo / l; s[1] = (double)hi / l; } } }
            else if(dot(r, vw) == 0) { L l = dot(vw, vw), p = dot(times(r, w), vw), q = dot(times(r, v), vw); if(p >= 0 && p <= l && q >= 0 && q <= l) { want = p == 0 || p == l || q == 0 || q == l ? e_endpoint : e_crossing; s[0] = (double)p / l; } probe("coplanar"); }
            for(int i = 0; i < 4; ++i) GSIM_CHECK(k[i] == want, "wrong-kind-in-space", "two segments in space: %s reported, should be %s (%d)", kind(k[i]), kind(want), i);
            auto is = [&](const P3& p, double t) { double g[3] = {get<0>(p) / u - ox, get<1>(p) / u - oy, get<2>(p) / u}; for(int i = 0; i < 3; ++i) if(!(std::fabs(g[i] - (a.c[i] + t * v.c[i])) <= 1e-8)) return false; return true; };
            for(auto q : {x, y}) { if(want == e_crossing || want == e_endpoint) GSIM_CHECK(is(q[0], s[0]), "wrong-point-in-space", "two segments in space meet at (%g,%g,%g)", get<0>(q[0]) / u - ox, get<1>(q[0]) / u - oy, get<2>(q[0]) / u); if(want == e_overlapping) GSIM_CHECK((is(q[0], s[0]) && is(q[1], s[1])) || (is(q[1], s[0]) && is(q[0], s[1])), "wrong-point-in-space", "two segments in space overlap from (%g,%g,%g) to (%g,%g,%g)", get<0>(q[0]) / u - ox, get<1>(q[0]) / u - oy, get<2>(q[0]) / u, get<0>(q[1]) / u - ox, get<1>(q[1]) / u - oy, get<2>(q[1]) / u); }
            probe(want == e_non_crossing ? "apart-in-space" : want == e_crossing ? "crossing-in-space" : want == e_endpoint ? "endpoint-in-space" : "overlapping-in-space"); mix(want); });
    }
    void inside(const Asked& j, IP p) {
        std::size_t m = j.d / 4 % rings.size(); const Ring& r = rings[m]; if(j.c & 256) { const IP &e = r[j.c % r.size()], &f = r[(j.c + 1) % r.size()]; p = (j.c & 128) ? e : IP{(e.x + f.x) / 2, (e.y + f.y) / 2}; } if(j.c & 64) p.y = r[j.a % r.size()].y; P A = pt(p); bool h = false, h1 = false, h2 = false; polygon_containment k = polygon_containment::exterior;
        with("point and polygon", j, [&](const Watch& cmp) { h = point_in_polygon(A, *gons[m]); h1 = point_in_polygon(A, *parts[m][0]); h2 = point_in_polygon(A, *parts[m][1]); k = point_polygon_containment_or_on_border(A, *gons[m], cmp); }, [&] {
            Where w = classify(p, ring_edges(r)); bool v = std::find(r.begin(), r.end(), p) != r.end(); if(w != BORDER) GSIM_CHECK(h == (w == INSIDE), "wrong-answer", "point and polygon: %s reported, should be %s", h ? "inside" : "outside", w == INSIDE ? "inside" : "outside"); GSIM_CHECK(h == (h1 != h2), "lost-between", "a point is %s a polygon, %s its one part and %s the other", h ? "in" : "not in", h1 ? "in" : "not in", h2 ? "in" : "not in");
            polygon_containment want = v ? polygon_containment::vertex : w == BORDER ? polygon_containment::border : w == INSIDE ? polygon_containment::interior : polygon_containment::exterior; GSIM_CHECK(k == want, "wrong-containment", "point and polygon: containment %d reported, should be %d", (int)k, (int)want); probe(v ? "at-vertex" : w == BORDER ? "on-border" : w == INSIDE ? "inside" : "outside"); mix(w); });
    }
    void convexes(const Asked& j, IP p) {
        std::size_t m = j.d / 4 % convex.size(); const Ring& r = convex[m]; std::size_t n = r.size(); if(j.c & 256) { const IP &e = r[j.c % n], &f = r[(j.c + 1) % n]; long t = (long)(j.a % 4) - 1; p = (j.c & 128) ? IP{e.x + t * (f.x - e.x), e.y + t * (f.y - e.y)} : IP{(e.x + f.x) / 2, (e.y + f.y) / 2}; } P A = pt(p); bool h = false, q = false, t = false; IP a = r[0], b = r[1 + j.a % (n - 2)], c = r[2 + j.a % (n - 2)]; P T[3] = {pt(a), pt(b), pt(c)};
        with("point and convex polygon", j, [&](const Watch& cmp) { h = point_in_convex_polygon(A, *cgons[m], cmp); if(n == 4) q = point_in_convex_quadrilateral(A, *cgons[m], cmp); t = point_in_triangle(A, T[0], T[1], T[2], cmp); }, [&] {
            Where w = classify(p, ring_edges(r)); bool want = w != OUTSIDE; GSIM_CHECK(h == want, "wrong-answer", "point and convex polygon: %s reported, should be %s", h ? "inside" : "outside", want ? "inside" : "outside"); if(n == 4) { GSIM_CHECK(q == want, "wrong-answer", "point and convex quadrilateral: %s reported, should be %s", q ? "inside" : "outside", want ? "inside" : "outside"); probe("quadrilateral"); }
            bool in = cross(a, b, p) >= 0 && cross(b, c, p) >= 0 && cross(c, a, p) >= 0; GSIM_CHECK(t == in, "wrong-answer", "point and triangle: %s reported, should be %s", t ? "inside" : "outside", in ? "inside" : "outside"); probe(w == OUTSIDE ? "convex-outside" : w == BORDER ? "convex-border" : "convex-inside"); probe(in ? "in-triangle" : "off-triangle"); mix(w + 3 * in); });
    }
    void angles(const Asked& j, IP a, IP b) {
        if(a == b) b.y += 1; P A = pt(a), B = pt(b); const double pi = 3.14159265358979323846; double turn = (double)((long)(j.c % 41) - 20), base = std::atan2((double)(b.y - a.y), (double)(b.x - a.x)), x = base + turn * 2 * pi, g = NAN, g2 = NAN, n0 = NAN, n1 = NAN, sl = NAN, yx = NAN, xy = NAN, xx = u * (a.x + ox + (long)(j.d % 9)), yy = u * (a.y + oy - (long)(j.d % 7)); bool up = a.x == b.x, flat = a.y == b.y; if(j.d & 16) x = (double)((long)(j.c % 97) - 48) * pi / 2;
        ask("angles and lines", j, [&] { g = angle_from_a_to_b(A, B); g2 = vector_angle(V(u * (b.x - a.x), u * (b.y - a.y))); n0 = normalize_angle_0_2pi_copy(x); n1 = normalize_angle_minus_pi_to_pi_copy(x); if(!up) { sl = get_slope(A, B); yx = y_of_x(A, B, xx); } if(!flat) xy = x_of_y(A, B, yy); }, [&] {
            GSIM_CHECK(std::fabs(g - base) < 1e-12 && std::fabs(g2 - base) < 1e-12, "wrong-angle", "angles %.17g and %.17g, should be %.17g", g, g2, base); GSIM_CHECK(n0 >= 0 && n0 <= 2 * pi, "wrong-angle", "%.17g brought to %.17g, not in one turn", x, n0); GSIM_CHECK(n1 >= -pi && n1 <= pi, "wrong-angle", "%.17g brought to %.17g, not within half a turn", x, n1);
            for(double n : {n0, n1}) { double k = (x - n) / (2 * pi); GSIM_CHECK(std::fabs(k - std::floor(k + 0.5)) < 1e-9, "wrong-angle", "%.17g brought to %.17g, not whole turns away", x, n); }
            if(!up) { double s = (double)(b.y - a.y) / (double)(b.x - a.x), w = u * (a.y + oy) + s * (xx - u * (a.x + ox)); GSIM_CHECK(std::fabs(sl - s) < 1e-9 && std::fabs(yx - w) < 1e-7, "wrong-line", "slope %g and height %g, should be %g and %g", sl, yx, s, w); } if(!flat) { double s = (double)(b.x - a.x) / (double)(b.y - a.y), w = u * (a.x + ox) + s * (yy - u * (a.y + oy)); GSIM_CHECK(std::fabs(xy - w) < 1e-7, "wrong-line", "x %g at a height, should be %g", xy, w); } probe(up ? "upright" : flat ? "level" : "slanted"); });
    }
    void one(const Asked& j) {
        std::size_t n = pts.size(); IP a = pts[j.a % n], b = pts[j.b % n], c = pts[j.c % n], d = pts[j.d % n];
        switch(j.what) {
        case 0: case 1: if(j.a & 512) c = (j.a & 256) ? IP{(a.x + b.x) / 2, (a.y + b.y) / 2} : (j.a & 128) ? IP{2 * b.x - a.x, 2 * b.y - a.y} : (j.a & 64) ? b : a; turns(j, a, b, c); break;
        case 2: case 3: case 4: if(j.a & 512) { IP m{(c.x + d.x) / 2, (c.y + d.y) / 2}; if(j.a & 256) b = m; else if(j.a & 128) { c = IP{2 * b.x - a.x, 2 * b.y - a.y}; d = (j.a & 64) ? b : IP{(a.x + b.x) / 2, (a.y + b.y) / 2}; } else { c = IP{c.x, a.y}; d = IP{d.x, a.y}; b = IP{b.x, a.y}; } } pair(j, a, b, c, d); break;
        case 5: case 6: space(j); break;
        case 7: case 8: inside(j, a); break;
        case 9: case 10: convexes(j, a); break;
        default: angles(j, a, b); break;
        }
    }
    void run() {
        static const double us[] = {1, 0.25, 8}; u = us[choose(GEN, 3)]; if(chance(GEN, 1, 4)) { ox = lattice(GEN, 500); oy = lattice(GEN, 500); }
        long r = 2 + (long)choose(GEN, 11); int n = 5 + (int)choose(GEN, 6);
        for(int i = 0; i < n; ++i) { Span sp(GEN); IP p{lattice(GEN, r), lattice(GEN, r)}; if(i > 1 && chance(GEN, 1, 3)) { IP a = pts[choose(GEN, i)], b = pts[choose(GEN, i)]; long f = 1 + (long)choose(GEN, 2); p = chance(GEN, 1, 2) ? IP{a.x + f * (b.x - a.x), a.y + f * (b.y - a.y)} : IP{(a.x + b.x) / 2, (a.y + b.y) / 2}; } pts.push_back(p); }
        for(int i = 0; i < 7; ++i) { Span sp(GEN); I3 p; for(int k = 0; k < 3; ++k) p.c[k] = lattice(GEN, chance(GEN, 1, 3) ? 1 : r); if(i > 1 && chance(GEN, 1, 4)) p = pts3[choose(GEN, i)]; pts3.push_back(p); }
        if(chance(GEN, 1, 3)) { int k = (int)choose(GEN, 3); for(auto& p : pts3) p.c[k] = 1; }
        std::vector<std::array<Ring, 2>> halves;
        for(int i = 0; i < 3; ++i) { Span sp(GEN); Ring g = draw_simple(GEN, r); if(chance(GEN, 1, 3)) std::reverse(g.begin(), g.end()); rings.push_back(g); std::size_t s = g.size(), a = choose(GEN, s), b = choose(GEN, s); if(a > b) std::swap(a, b); std::array<Ring, 2> h; for(std::size_t k = a; k <= b; ++k) h[0].push_back(g[k]); for(std::size_t k = b; k != a; k = (k + 1) % s) h[1].push_back(g[k]); h[1].push_back(g[a]); if(a == b) h[1] = g; halves.push_back(h); }
        for(int i = 0; i < 3; ++i) { Span sp(GEN); Ring g = i == 0 ? draw_quad(r) : draw_convex_ring(r); convex.push_back(g); }
        setup([&] { auto make = [&](const Ring& g) { auto* q = new polygon<P>(); for(auto& p : g) q->push_back(pt(p)); return q; }; for(std::size_t i = 0; i < 3; ++i) { gons.push_back(make(rings[i])); parts.push_back({{make(halves[i][0]), make(halves[i][1])}}); cgons.push_back(make(convex[i])); } });
        log("unit %g offset (%ld,%ld), points %s", u, ox, oy, show(pts).c_str()); for(auto& p : pts3) log("point (%lld,%lld,%lld)", p.c[0], p.c[1], p.c[2]); for(auto& g : rings) log("polygon %s", show(g).c_str()); for(auto& g : convex) log("convex polygon %s", show(g).c_str());
        all(12, 0, 9, [&](const Asked& j) { one(j); });
    }
    // The strictly convex hull of points drawn, counter-clockwise.
    Ring hull(std::vector<IP> p) { std::sort(p.begin(), p.end(), [](IP a, IP b) { return a.x < b.x || (a.x == b.x && a.y < b.y); }); Ring h; for(int pass = 0; pass < 2; ++pass) { std::size_t base = h.size(); for(auto& q : p) { while(h.size() >= base + 2 && cross(h[h.size() - 2], h.back(), q) <= 0) h.pop_back(); h.push_back(q); } h.pop_back(); std::reverse(p.begin(), p.end()); } return h; }
    Ring draw_convex_ring(long r) { std::vector<IP> p; int n = 3 + (int)choose(GEN, 14); for(int i = 0; i < n; ++i) p.push_back(IP{lattice(GEN, r), lattice(GEN, r)}); Ring h = hull(p); if(h.size() < 3) h = Ring{IP{0, 0}, IP{r, 0}, IP{0, r}}; std::rotate(h.begin(), h.begin() + choose(GEN, h.size()), h.end()); return h; }
    Ring draw_quad(long r) { for(int k = 0; k < 6; ++k) { std::vector<IP> p; for(int i = 0; i < 4; ++i) p.push_back(IP{lattice(GEN, r), lattice(GEN, r)}); Ring h = hull(p); if(h.size() == 4) { std::rotate(h.begin(), h.begin() + choose(GEN, 4), h.end()); return h; } } return Ring{IP{-r, -r}, IP{r, -r}, IP{r, r}, IP{-r, r + 1}}; }
};
} // namespace
void gsim_run() { Sim s; s.sw = draw_swarm(3); s.run(); }

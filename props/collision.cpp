// C25: a small world of moving bodies whose simulated clock jumps to the contact times the library computes.
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include <geometrix/algorithm/distance/point_segment_closest_point.hpp>
#include <geometrix/algorithm/distance/point_aabb_distance.hpp>
#include <geometrix/algorithm/distance/point_obb_distance.hpp>
#include <geometrix/algorithm/intersection/ray_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_sphere_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_plane_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_segment_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_sphere_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/moving_separating_axis_convex_polygons.hpp>
#include <geometrix/algorithm/intersection/obb_obb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_aabb_intersection.hpp>
#include <geometrix/algorithm/intersection/sphere_obb_intersection.hpp>
#include <functional>
#include <limits>
#include "common.hpp"
const char* const gsim_property = "C25";
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef vector_double_2d V;
typedef sphere<2, P> Ball;
typedef axis_aligned_bounding_box<P> Box;
typedef obb_double_2d Obb;
typedef polygon<P> Gon;
typedef absolute_tolerance_comparison_policy<double> Cmp;

namespace {
struct D { double x, y; };
D operator+(D a, D b) { return {a.x + b.x, a.y + b.y}; }
D operator-(D a, D b) { return {a.x - b.x, a.y - b.y}; }
D operator*(double t, D a) { return {t * a.x, t * a.y}; }
double dot(D a, D b) { return a.x * b.x + a.y * b.y; }
double det(D a, D b) { return a.x * b.y - a.y * b.x; }
double norm(D a) { return std::hypot(a.x, a.y); }

enum Kind { BALL, SEGMENT, LINE, BOX, OBB, GON };
struct Body { Kind k; std::vector<D> c; double r = 0; D v{0, 0}; D axis{1, 0}; D half{0, 0}; D mid{0, 0}; };   // c: convex core; r: radius around it

double pt_seg(D p, D a, D b) { D d = b - a; double L = dot(d, d), t = L > 0 ? std::max(0.0, std::min(1.0, dot(p - a, d) / L)) : 0; return norm(p - (a + t * d)); }
double pt_core(D p, const Body& b, D shift) {          // distance to the core moved by shift
    if(b.k == LINE) { D d = b.c[1] - b.c[0]; return std::fabs(det(d, p - (b.c[0] + shift))) / norm(d); }
    if(b.c.size() == 1) return norm(p - (b.c[0] + shift));
    bool in = b.c.size() > 2; double m = 1e300; std::size_t n = b.c.size();
    for(std::size_t i = 0; i < n; ++i) { D s = b.c[i] + shift, e = b.c[(i + 1) % n] + shift; if(n > 2 && det(e - s, p - s) < 0) in = false; m = std::min(m, pt_seg(p, s, e)); }
    return in ? 0 : m;
}
// Separation at time t: positive apart, negative overlapping; a convex function of t.
double sep(const Body& a, const Body& b, double t) {
    D s = t * (b.v - a.v);                                // b relative to a
    if(a.k == BALL) return pt_core(a.c[0], b, s) - a.r - b.r;
    double g = -1e300;
    for(int side = 0; side < 2; ++side) { const Body& w = side ? b : a; const Body& o = side ? a : b; D sh = side ? -1 * s : s;
        for(std::size_t i = 0; i < w.c.size(); ++i) { D e = w.c[(i + 1) % w.c.size()] - w.c[i]; D n = (1 / norm(e)) * D{e.y, -e.x}; double m = 1e300; for(auto& q : o.c) m = std::min(m, dot(n, q + sh - w.c[i])); g = std::max(g, m); } }
    return g;
}
struct Motion { double at0, least, when, first; };
Motion motion(const Body& a, const Body& b) {
    Motion m; m.at0 = sep(a, b, 0); double lo = 0, hi = 20000;
    if(norm(b.v - a.v) == 0) { m.least = m.at0; m.when = 0; }
    else { for(int i = 0; i < 260; ++i) { double x = lo + (hi - lo) / 3, y = hi - (hi - lo) / 3; if(sep(a, b, x) <= sep(a, b, y)) hi = y; else lo = x; } m.when = lo; m.least = sep(a, b, lo); if(m.at0 <= m.least) { m.least = m.at0; m.when = 0; } }
    m.first = 0;
    if(m.at0 > 0 && m.least < 0) { lo = 0; hi = m.when; for(int i = 0; i < 100; ++i) { double x = (lo + hi) / 2; (sep(a, b, x) > 0 ? lo : hi) = x; } m.first = hi; }
    return m;
}

struct Sim {
    Cmp cmp{1e-10}; Swarm sw; double u = 1, eps = 1e-6; std::vector<Body> world;
    P pt(D d) { return P(d.x, d.y); }
    V vec(D d) { return V(d.x, d.y); }
    static D of(const P& p) { return {get<0>(p), get<1>(p)}; }
    Ball ball(const Body& b) { return Ball(pt(b.c[0]), b.r); }
    Obb obb(const Body& b) { return Obb(pt(b.mid), vec(b.axis), vec(D{-b.axis.y, b.axis.x}), b.half.x, b.half.y); }
    static std::string show(const Body& b) { static const char* n[] = {"ball", "segment", "line", "box", "obb", "polygon"}; std::string s = n[b.k]; char t[90]; for(auto& c : b.c) { snprintf(t, sizeof t, "(%.9g,%.9g)", c.x, c.y); s += t; } snprintf(t, sizeof t, " r %.9g v (%.9g,%.9g)", b.r, b.v.x, b.v.y); return s + t; }

    Body draw_body(Channel ch, Kind k, long R) {
        Body b; b.k = k; auto co = [&](long r, double f) { return u * f * lattice(ch, r); };
        auto at = [&] { return D{co(2 * R, 0.5), co(2 * R, 0.5)}; };
        auto size = [&] { return u * 0.25 * (1 + (double)choose(ch, 10)); };
        b.v = chance(ch, 1, 6) ? D{0, 0} : D{co(6, 0.5), co(6, 0.5)};
        switch(k) {
        case BALL: b.c = {at()}; b.r = size(); break;
        case SEGMENT: case LINE: { D a = at(), e = at(); if(norm(e - a) == 0) e = a + D{u, u}; b.c = {a, e}; break; }
        case BOX: { D a = at(); double w = size(), h = size(); b.c = {a, a + D{w, 0}, a + D{w, h}, a + D{0, h}}; break; }
        case OBB: {
            static const D ax[] = {{1, 0}, {0, 1}, {0.6, 0.8}, {-0.8, 0.6}, {-1, 0}, {0.28, -0.96}};
            b.axis = chance(ch, 1, 3) ? D{std::cos(0.1 * choose(ch, 63)), 0} : ax[choose(ch, 6)]; if(b.axis.y == 0 && std::fabs(b.axis.x) < 1) b.axis.y = std::sqrt(1 - b.axis.x * b.axis.x);
            b.mid = at(); b.half = {size(), size()}; D n{-b.axis.y, b.axis.x};
            for(int i = 0; i < 4; ++i) b.c.push_back(b.mid + (i == 1 || i == 2 ? 1 : -1) * b.half.x * b.axis + (i >= 2 ? 1 : -1) * b.half.y * n); break; }
        default: {
            D a = at(); int n = 3 + (int)choose(ch, 5); double r = size(); double turn = 0.1 * choose(ch, 63); bool sq = chance(ch, 1, 3);
            if(sq) { double w = size(), h = size(); b.c = {a, a + D{w, 0}, a + D{w, h}, a + D{0, h}}; }
            else for(int i = 0; i < n; ++i) { double t = turn + 6.283185307179586 * (i + 0.3 * choose(ch, 3) / 2.0) / n; b.c.push_back(a + r * D{std::cos(t), std::sin(t)}); }
        } }
        return b;
    }
    void move(Body& b, double t) { D s = t * b.v; for(auto& c : b.c) c = c + s; b.mid = b.mid + s; }
    // Judges a reported contact of a (at rest in its own frame of motion) with b at time t.
    void judge(const char* what, const Body& a, const Body& b, bool hit, double t, const double* tmax) {
        Motion m = motion(a, b); double T = tmax ? *tmax : 1e9; double tol = eps * u;
        if(!hit) { GSIM_CHECK(!(m.least < -tol && m.first < T - 1e-6), "missed-contact", "%s: no contact reported, but %s and %s touch at time %.9g and overlap by %.9g at %.9g", what, show(a).c_str(), show(b).c_str(), m.first, -m.least, m.when); return; }
        GSIM_CHECK(m.least < tol, "phantom-contact", "%s: contact reported at %.9g, but %s and %s come no closer than %.9g", what, t, show(a).c_str(), show(b).c_str(), m.least);
        GSIM_CHECK(t >= -1e-9 * u && t < 1e6, "bad-time", "%s: contact at time %.9g", what, t);
        GSIM_CHECK(!(m.first > T + 1e-6), "phantom-contact", "%s: contact reported at %.9g beyond the limit %.9g", what, t, T);
        if(m.at0 < -tol) { GSIM_CHECK(t < 1e-9, "wrong-time", "%s: %s and %s overlap now, contact reported at %.9g", what, show(a).c_str(), show(b).c_str(), t); probe("overlapping"); return; }
        double s = sep(a, b, t);
        GSIM_CHECK(std::fabs(s) <= tol && (t <= m.when + 1e-6 || m.least > -tol), "wrong-time", "%s: %s and %s: contact reported at %.9g, when they are %.9g apart; first contact at %.9g", what, show(a).c_str(), show(b).c_str(), t, s, m.first);
        if(m.least < -0.01 * u) { GSIM_CHECK(std::fabs(t - m.first) * norm(b.v - a.v) <= 1e-5 * u, "wrong-time", "%s: contact at %.9g, should be %.9g", what, t, m.first); nontrivial(); }
    }
    void judge_point(const char* what, const Body& a, const Body& b, double t, D q, D drift) {   // only for contacts in the future
        D c = a.c[0] + t * (a.v - drift); double d = norm(q - c), e = pt_core(q, b, t * (b.v - drift)) - b.r;
        GSIM_CHECK(std::fabs(d - a.r) <= 10 * eps * u && std::fabs(e) <= 10 * eps * u, "wrong-point", "%s: %s and %s touch at %.9g, the point reported (%.9g,%.9g) is %.9g from the centre and %.9g from the other", what, show(a).c_str(), show(b).c_str(), t, q.x, q.y, d, e);
    }
    void judge_overlap(const char* what, const Body& a, const Body& b, D q) {       // overlapping now, level with a side: the closest point of the box
        D m = 0.5 * (b.c[0] + b.c[2]), ax = b.k == BOX ? D{1, 0} : b.axis, h = b.k == BOX ? 0.5 * (b.c[2] - b.c[0]) : b.half; double lx = dot(a.c[0] - m, ax), ly = det(ax, a.c[0] - m), tol = eps * u;
        bool level = std::fabs(lx) < h.x - tol || std::fabs(ly) < h.y - tol, off = std::fabs(std::fabs(lx) - h.x) > tol && std::fabs(std::fabs(ly) - h.y) > tol; if(!level || !off) return;
        double cx = std::max(-h.x, std::min(h.x, lx)), cy = std::max(-h.y, std::min(h.y, ly)); D w = m + cx * ax + cy * D{-ax.y, ax.x};
        GSIM_CHECK(norm(q - w) <= 10 * tol, "wrong-point", "%s: %s and %s overlap, closest point (%.9g,%.9g) reported, should be (%.9g,%.9g)", what, show(a).c_str(), show(b).c_str(), q.x, q.y, w.x, w.y); probe("inside");
    }
    struct Query { int a, b; double tmax; };
    void one(Query j) {
        const Body &a = world[j.a], &b = world[j.b]; D rel = a.v - b.v; const double NEVER = -7;
        double t = NEVER, tl = NEVER; P q(0, 0); bool hit = false, end = false, now = false, has_now = true; double s0 = sep(a, b, 0), tol = eps * u;
        Ball sa = a.k == BALL ? ball(a) : Ball(P(0, 0), 1);
        switch(b.k) {
        case BALL: { Ball sb = ball(b); attempt("moving_sphere_sphere_intersection", [&] { hit = moving_sphere_sphere_intersection(sa, sb, vec(a.v), vec(b.v), t, q, cmp); end = moving_sphere_sphere_intersection(sa, sb, vec(a.v), vec(b.v), cmp); }); has_now = false;
            GSIM_CHECK(hit == end, "wrong-answer", "sphere and sphere: %s and %s, asked whether and when, meet %d, asked only whether, %d", show(a).c_str(), show(b).c_str(), hit, end);
            judge("sphere and sphere", a, b, hit, t, nullptr); if(hit && s0 > tol) judge_point("sphere and sphere", a, b, t, of(q), {0, 0}); probe("sphere"); break; }
        case LINE: { line<P> l(pt(b.c[0]), pt(b.c[1])); bool away = false; attempt("moving_sphere_plane_intersection", [&] { auto r = moving_sphere_plane_intersection(sa, vec(rel), l, t, q, cmp); hit = r.is_intersecting(); away = r.is_moving_away(); }); has_now = false;
            judge("sphere and line", a, b, hit, t, nullptr); if(hit && s0 > tol) judge_point("sphere and line", a, b, t, of(q), b.v);
            { D d = b.c[1] - b.c[0]; double dist = det(d, a.c[0] - b.c[0]) / norm(d), sp = det(d, rel) / norm(d); if(std::fabs(dist) > tol && std::fabs(sp) > tol) GSIM_CHECK(away == (dist * sp > 0), "wrong-flag", "sphere and line: %s and %s reported as %smoving away", show(a).c_str(), show(b).c_str(), away ? "" : "not "); }
            probe("line"); break; }
        case SEGMENT: { segment<P> g(pt(b.c[0]), pt(b.c[1])); if(norm(rel) == 0) return; attempt("moving_sphere_segment_intersection", [&] { auto r = moving_sphere_segment_intersection(sa, vec(rel), g, t, q, cmp); hit = r.is_intersecting(); end = r.is_endpoint(); }); has_now = false;
            judge("sphere and segment", a, b, hit, t, nullptr); if(hit && s0 > tol) { judge_point("sphere and segment", a, b, t, of(q), b.v); if(end) GSIM_CHECK(norm(of(q) - b.c[0]) < 10 * tol || norm(of(q) - b.c[1]) < 10 * tol, "wrong-point", "sphere and segment: an end point hit is reported at (%.9g,%.9g)", get<0>(q), get<1>(q)); } probe(end ? "segment-end" : "segment"); break; }
        case BOX: { Box x(pt(b.c[0]), pt(b.c[2])); if(norm(rel) == 0) return; attempt("moving_sphere_aabb_intersection", [&] { hit = moving_sphere_aabb_intersection(sa, vec(rel), x, t, q, cmp); now = sphere_aabb_intersection(sa, x); });
            judge("sphere and box", a, b, hit, t, nullptr); if(hit && s0 > tol) judge_point("sphere and box", a, b, t, of(q), b.v); if(hit && s0 < -tol) judge_overlap("sphere and box", a, b, of(q)); probe("box"); break; }
        case OBB: if(a.k == BALL) {
                Obb x = obb(b); if(norm(rel) == 0) return; attempt("moving_sphere_obb_intersection", [&] { hit = moving_sphere_obb_intersection(sa, vec(rel), x, t, q, cmp).is_intersecting(); now = sphere_obb_intersection(sa, x); });
                judge("sphere and oriented box", a, b, hit, t, nullptr); if(hit && s0 > tol) judge_point("sphere and oriented box", a, b, t, of(q), b.v); if(hit && s0 < -tol) judge_overlap("sphere and oriented box", a, b, of(q)); probe("oriented-box");
            } else {
                Obb x = obb(a), y = obb(b); attempt("moving_obb_obb_intersection", [&] { hit = moving_obb_obb_intersection(x, vec(a.v), y, vec(b.v), j.tmax, t, tl); now = obb_obb_intersection(x, y, cmp); });
                judge("oriented boxes", a, b, hit, t, &j.tmax); if(hit) last("oriented boxes", a, b, tl); probe("oriented-boxes");
            } break;
        default: { Gon *x = gon(a), *y = gon(b); attempt("moving_convex_polygons_intersection", [&] { hit = moving_convex_polygons_intersection(*x, vec(a.v), *y, vec(b.v), j.tmax, t, tl, cmp); }); has_now = false;
            judge("convex polygons", a, b, hit, t, &j.tmax); if(hit) last("convex polygons", a, b, tl); destroy(x); destroy(y); probe("polygons"); }
        }
        if(has_now && std::fabs(s0) > tol) GSIM_CHECK(now == (s0 < 0), "wrong-now", "%s and %s are %.9g apart, but reported as %soverlapping", show(a).c_str(), show(b).c_str(), s0, now ? "" : "not ");
        mix(hit); if(hit) mixd(t); yield();
    }
    Gon* gon(const Body& b) { return setup([&] { Gon* g = new Gon(); for(auto& c : b.c) g->push_back(pt(c)); return g; }); }
    void last(const char* what, const Body& a, const Body& b, double tl) {
        double tol = eps * u, v = norm(b.v - a.v); Motion m = motion(a, b); if(m.least > -0.01 * u) return;
        if(v == 0) { GSIM_CHECK(tl > 1e6, "wrong-time", "%s: bodies resting against each other overlap until %.9g", what, tl); return; }
        double s = sep(a, b, tl); GSIM_CHECK(std::fabs(s) <= tol && tl >= m.when - 1e-6, "wrong-time", "%s: %s and %s: last contact reported at %.9g, when they are %.9g apart", what, show(a).c_str(), show(b).c_str(), tl, s);
    }
    // ---- the world is advanced between rounds of queries; queries of a round run concurrently
    void rounds() {
        long R = 2 + (long)choose(GEN, 8); static const Kind pairs[7][2] = {{BALL, BALL}, {BALL, LINE}, {BALL, SEGMENT}, {BALL, BOX}, {BALL, OBB}, {OBB, OBB}, {GON, GON}};
        int n = 1 + (int)choose(GEN, 3); std::vector<Query> qs;
        for(int i = 0; i < n; ++i) { Span sp(GEN); auto& k = pairs[choose(GEN, 7)]; world.push_back(draw_body(GEN, k[0], R)); world.push_back(draw_body(GEN, k[1], R)); }
        for(auto& b : world) log("%s", show(b).c_str());
        int rs = 1 + (int)choose(OP, 3);
        for(int r = 0; r < rs; ++r) {
            Span sp(OP);
            if(r) {
                double dt; if(chance(FAULT, 1, 6)) { dt = 50; fault("clock-jump"); }
                else if(chance(OP, 1, 3)) { auto& a = world[2 * choose(OP, n)]; auto& b = *(&a + 1); Motion m = motion(a, b); dt = m.first > 0 ? m.first : m.when; if(dt > 100) dt = 1; }   // to the next contact of a pair
                else dt = 0.25 * (1 + (double)choose(OP, 12));
                for(auto& b : world) { move(b, dt); if(chance(FAULT, 1, 6)) { b.v = D{u * 0.5 * lattice(FAULT, 6), u * 0.5 * lattice(FAULT, 6)}; fault("velocity-change"); } }
                log("%.9g later", dt);
            }
            std::vector<std::vector<Query>> js(sw.tasks); for(auto& v : js) for(int i = 0, k = 1 + (int)choose(OP, 3); i < k; ++i) { int p = (int)choose(OP, n); Query q{2 * p, 2 * p + 1, std::numeric_limits<double>::infinity()}; if(world[q.a].k == world[q.b].k && chance(OP, 1, 2)) std::swap(q.a, q.b); if(chance(OP, 1, 2)) q.tmax = 0.5 * choose(OP, 20); v.push_back(q); }
            std::vector<std::function<void()>> bodies; for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(auto& j : js[t]) one(j); });
            parallel(bodies);
        }
    }
    // ---- balls between walls: the clock goes from contact to contact
    void billiards() {
        double W = u * (6 + (double)choose(GEN, 10)), H = u * (6 + (double)choose(GEN, 10)); std::vector<Body> walls;
        D k[4] = {{0, 0}, {W, 0}, {W, H}, {0, H}}; for(int i = 0; i < 4; ++i) { Body w; w.k = SEGMENT; w.c = chance(GEN, 1, 2) ? std::vector<D>{k[i], k[(i + 1) % 4]} : std::vector<D>{k[(i + 1) % 4], k[i]}; walls.push_back(w); }
        int pins = (int)choose(GEN, 3); for(int i = 0; i < pins; ++i) { Span sp(GEN); Body w; w.k = SEGMENT; D a{u * (1 + (double)choose(GEN, 5)), u * (1 + (double)choose(GEN, 5))}; w.c = {a, a + D{u * 0.5 * (1 + (double)choose(GEN, 4)), u * 0.5 * lattice(GEN, 4)}}; walls.push_back(w); }
        int n = 1 + (int)choose(GEN, 4); for(int i = 0; i < n; ++i) { Span sp(GEN); Body b; b.k = BALL; b.r = u * 0.25 * (1 + (double)choose(GEN, 4)); b.c = {D{u * 0.5 * (1 + (double)choose(GEN, 24)), u * 0.5 * (1 + (double)choose(GEN, 24))}}; b.v = {u * 0.5 * lattice(GEN, 6), u * 0.5 * lattice(GEN, 6)};
            bool ok = b.c[0].x < W && b.c[0].y < H; for(auto& w : walls) ok = ok && sep(b, w, 0) > 0.01 * u; for(auto& o : world) ok = ok && sep(b, o, 0) > 0.01 * u; if(ok) world.push_back(b); }
        for(auto& w : walls) log("%s", show(w).c_str()); for(auto& b : world) log("%s", show(b).c_str());
        if(world.empty()) return;
        int events = 4 + (int)choose(OP, 24), still = 0; double clock = 0;
        for(int e = 0; e < events; ++e) {
            double best = 1e300; int bi = -1, bj = -1; bool wall = false; D bq{0, 0};
            for(std::size_t i = 0; i < world.size(); ++i) {
                Ball s = ball(world[i]); if(norm(world[i].v) > 0) for(std::size_t w = 0; w < walls.size(); ++w) { double t = -1; P q(0, 0); bool hit = false; segment<P> g(pt(walls[w].c[0]), pt(walls[w].c[1])); attempt("moving_sphere_segment_intersection", [&] { auto r = moving_sphere_segment_intersection(s, vec(world[i].v), g, t, q, cmp); hit = r.is_intersecting() && !(r.is_moving_away() && !r.is_endpoint()); }); if(hit && t < best) { best = t; bi = (int)i; bj = (int)w; wall = true; bq = of(q); } }
                for(std::size_t k = i + 1; k < world.size(); ++k) { double t = -1; P q(0, 0); bool hit = false; Ball o = ball(world[k]); attempt("moving_sphere_sphere_intersection", [&] { hit = moving_sphere_sphere_intersection(s, o, vec(world[i].v), vec(world[k].v), t, q, cmp); }); if(hit && t < best) { best = t; bi = (int)i; bj = (int)k; wall = false; } }
            }
            bool moving = false; for(auto& b : world) moving = moving || norm(b.v) > 1e-6 * u;
            if(bi < 0) { GSIM_CHECK(!moving, "missed-contact", "a ball moves between closed walls, but no contact is ahead of it"); return; }
            GSIM_CHECK(best >= -1e-9 * u && best < 1e9, "bad-time", "contact in %.9g", best);
            bool jump = chance(FAULT, 1, 10); double dt = jump ? best / 2 : best;          // the clock need not stop at contacts only
            for(auto& b : world) move(b, dt); clock += dt; sim_time(dt * 1e9); if(jump) { fault("clock-jump"); continue; }
            for(std::size_t i = 0; i < world.size(); ++i) {
                GSIM_CHECK(world[i].c[0].x > 0 && world[i].c[0].y > 0 && world[i].c[0].x < W && world[i].c[0].y < H, "escaped", "ball %zu left the walls at time %.9g: %s", i, clock, show(world[i]).c_str());
                for(auto& w : walls) GSIM_CHECK(sep(world[i], w, 0) > -1e-5 * u, "missed-contact", "at time %.9g %s cuts into %s by %.9g", clock, show(world[i]).c_str(), show(w).c_str(), -sep(world[i], w, 0));
                for(std::size_t k = i + 1; k < world.size(); ++k) GSIM_CHECK(sep(world[i], world[k], 0) > -1e-5 * u, "missed-contact", "at time %.9g %s cuts into %s", clock, show(world[i]).c_str(), show(world[k]).c_str());
            }
            Body& a = world[bi]; Body* o = wall ? nullptr : &world[bj]; double gap = wall ? sep(a, walls[bj], 0) : sep(a, *o, 0);
            GSIM_CHECK(std::fabs(gap) < 1e-5 * u, "wrong-time", "at its contact time %.9g %s is %.9g away", clock, show(a).c_str(), gap);
            D nrm = wall ? a.c[0] - bq : a.c[0] - o->c[0]; nrm = (1 / norm(nrm)) * nrm;
            if(wall) a.v = a.v - (2 * std::min(0.0, dot(a.v, nrm))) * nrm; else { double c = std::min(0.0, dot(a.v - o->v, nrm)); a.v = a.v - c * nrm; o->v = o->v + c * nrm; }
            log("event %d at %.9g: ball %d meets %s %d", e, clock, bi, wall ? "wall" : "ball", bj); mixd(clock);
            still = dt < 1e-9 ? still + 1 : 0; GSIM_CHECK(still < 12, "no-progress", "%d contacts in a row without time passing at %.9g, the last of %s", still, clock, show(a).c_str());
            if(e > 2) { nontrivial(); probe("billiards"); }
        }
    }
    void start() {
        sw = draw_swarm(3); static const double us[] = {1, 0.25, 4}; u = us[choose(GEN, 3)];
        if(chance(GEN, 1, 4)) billiards(); else rounds();
    }
};
} // namespace
void gsim_run() { Sim s; s.start(); }

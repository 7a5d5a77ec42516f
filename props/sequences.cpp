// Areas, edges, copies and comparisons of point sequences (C33), and how polylines bend and lie (C34, -DBENDING).
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/point_segment_distance.hpp>
#include <geometrix/algorithm/line_intersection.hpp>
#include <geometrix/algorithm/point_sequence/is_congruent.hpp>
#include <geometrix/algorithm/point_sequence/curvature.hpp>
#include <geometrix/algorithm/point_sequence/point_polyline_orientation.hpp>
#include <geometrix/algorithm/point_sequence/polyline_offset.hpp>
#include <geometrix/algorithm/segment_mid_point.hpp>
#include <geometrix/algorithm/split_segment.hpp>
#include "asking.hpp"
#ifdef BENDING
const char* const gsim_property = "C34";
#else
const char* const gsim_property = "C33";
#endif
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef point_double_3d P3;
typedef segment_double_2d S;
typedef polyline<P> Line;
typedef polygon<P> Gon;
typedef std::vector<P> Seq;
typedef absolute_tolerance_comparison_policy<double> Cmp;
typedef long long L;
typedef long double R;
struct Flat2 { double x, y; };

namespace {
L area2(const Ring& r) { L a = 0; for(std::size_t i = 0; i < r.size(); ++i) a += cross({0, 0}, r[i], r[(i + 1) % r.size()]); return a; }
int sgn(L x) { return (x > 0) - (x < 0); }
struct Sim : Asking {
    double u = 1; long ox = 0, oy = 0; Cmp cmp{1e-10}; std::vector<IP> pts; std::vector<Ring> chains, rings; std::vector<Line*> lines, ringlines; std::vector<Gon*> gons; std::vector<Seq*> seqs;
    P pt(IP p) const { return P(u * (p.x + ox), u * (p.y + oy)); }
    bool at(double x, double y, R wx, R wy, R tol = 1e-8) const { return std::isfinite(x) && std::isfinite(y) && std::fabs(x / u - ox - wx) <= tol && std::fabs(y / u - oy - wy) <= tol; }
    bool is(const Flat2& p, IP q) const { return p.x == u * (q.x + ox) && p.y == u * (q.y + oy); }
    static Flat2 flat(const P& p) { return Flat2{get<0>(p), get<1>(p)}; }
    template <class Sq> static void copy(const Sq& s, std::vector<Flat2>& to) { InMode h(HARNESS); to.clear(); for(auto& p : s) to.push_back(flat(p)); }
    template <class Sg> static void copy_segments(const Sg& s, std::vector<Flat2>& to) { InMode h(HARNESS); to.clear(); for(auto& e : s) { to.push_back(flat(get_start(e))); to.push_back(flat(get_end(e))); } }
    bool same(const std::vector<Flat2>& v, const Ring& r) const { if(v.size() != r.size()) return false; for(std::size_t i = 0; i < r.size(); ++i) if(!is(v[i], r[i])) return false; return true; }
#ifndef BENDING
    void areas(const Asked& j) {
        std::size_t m = j.a % rings.size(); const Ring& r = rings[m]; double s[3] = {NAN, NAN, NAN}, g[3] = {NAN, NAN, NAN}; P c[2] = {P(NAN, NAN), P(NAN, NAN)};
        ask("area", j, [&] { s[0] = get_signed_area(*gons[m]); s[1] = get_signed_area(*seqs[m]); s[2] = get_signed_area(*ringlines[m]); g[0] = get_area(*gons[m]); g[1] = get_area(*seqs[m]); g[2] = get_area(*ringlines[m]); c[0] = get_centroid(*gons[m]); c[1] = get_centroid(*seqs[m]); }, [&] {
            L a = area2(r); R want = (R)a * u * u / 2, cx = 0, cy = 0, tol = 1e-9L * (1 + std::fabs(want)); for(double v : s) GSIM_CHECK(std::isfinite(v) && std::fabs(v - want) <= tol, "wrong-area", "signed area %.12g, should be %.12g", v, (double)want); for(double v : g) GSIM_CHECK(std::isfinite(v) && std::fabs(v - std::fabs(want)) <= tol, "wrong-area", "area %.12g, should be %.12g", v, (double)std::fabs(want));
            probe(a > 0 ? "counter-clockwise" : a < 0 ? "clockwise" : "no-area"); mix(a); if(a) { for(std::size_t i = 0; i < r.size(); ++i) { IP p = r[i], q = r[(i + 1) % r.size()]; L w = (L)p.x * q.y - (L)p.y * q.x; cx += (R)w * (p.x + q.x); cy += (R)w * (p.y + q.y); } cx /= 3 * a; cy /= 3 * a; for(auto& p : c) GSIM_CHECK(at(get<0>(p), get<1>(p), cx, cy, 1e-6L * (1 + std::fabs(cx) + std::fabs(cy))), "wrong-centroid", "centroid at (%.12g,%.12g), should be (%.12g,%.12g)", get<0>(p) / u - ox, get<1>(p) / u - oy, (double)cx, (double)cy); nontrivial(); } });
    }
    void edges(const Asked& j) {
        std::size_t m = j.a % rings.size(), c = j.b % chains.size(); std::vector<Flat2> e, f;
        Outcome o = ask("edges of a sequence", j, [&] { auto v = polygon_as_segment_range<S>(*gons[m]); copy_segments(v, e); auto w = polyline_as_segment_range<S>(*lines[c]); copy_segments(w, f); }, [&] {
            const Ring &r = rings[m], &q = chains[c]; GSIM_CHECK(e.size() == 2 * r.size(), "wrong-count", "%zu edges of a polygon of %zu points", e.size() / 2, r.size()); for(std::size_t i = 0; i < r.size(); ++i) GSIM_CHECK(is(e[2 * i], r[i]) && is(e[2 * i + 1], r[(i + 1) % r.size()]), "wrong-edge", "edge %zu of a polygon from (%g,%g) to (%g,%g)", i, e[2 * i].x / u - ox, e[2 * i].y / u - oy, e[2 * i + 1].x / u - ox, e[2 * i + 1].y / u - oy);
            GSIM_CHECK(f.size() == 2 * (q.empty() ? 0 : q.size() - 1), "wrong-count", "%zu edges of a polyline of %zu points", f.size() / 2, q.size()); for(std::size_t i = 0; i + 1 < q.size(); ++i) GSIM_CHECK(is(f[2 * i], q[i]) && is(f[2 * i + 1], q[i + 1]), "wrong-edge", "edge %zu of a polyline from (%g,%g) to (%g,%g)", i, f[2 * i].x / u - ox, f[2 * i].y / u - oy, f[2 * i + 1].x / u - ox, f[2 * i + 1].y / u - oy); if(q.size() < 2) probe("edgeless"); nontrivial(); mix(e.size()); });
        if(o == OOM) probe("edges-oom");
    }
    void reversed(const Asked& j) {
        std::size_t m = j.a % rings.size(), c = j.b % chains.size(); std::vector<Flat2> g, l, s;
        ask("reversing", j, [&] { { auto v = reverse(*gons[m]); copy(v, g); } { auto v = reverse(*lines[c]); copy(v, l); } { auto v = reverse(*seqs[m]); copy(v, s); } }, [&] { Ring r(rings[m].rbegin(), rings[m].rend()), q(chains[c].rbegin(), chains[c].rend()); GSIM_CHECK(same(g, r) && same(s, r) && same(l, q), "wrong-reversal", "a sequence was not reversed"); probe("reversed"); });
    }
    // Another sequence built from one: turned round by some places, or with one point changed, added or left out.
    void compare(const Asked& j) {
        std::size_t m = j.a % rings.size(); const Ring& r = rings[m]; std::size_t n = r.size(), k = j.b % n; Ring q(r); std::rotate(q.begin(), q.begin() + (n - k), q.end()); int how = (int)(j.c % 6); if(how == 0) q[j.d % n].x += (j.d & 64) ? 1 : -1; else if(how == 1) q[j.d % n].y -= 1; else if(how == 2) q.push_back(q[0]); else if(how == 3) q.pop_back(); bool simple = ring_simple(r); std::size_t sh = j.d / 16 % (4 * n), kk = k + n * (j.c / 6 % 4), off = 99; bool eq = false, eqs = false, pe = false, pe2 = false; bool grown = q.size() != n;
        auto want = [&](std::size_t s) { if(q.size() != n) return false; for(std::size_t i = 0; i < n; ++i) if(!(r[i] == q[(i + s) % n])) return false; return true; };
        ask("comparing sequences", j, [&] { Gon g; Line l; for(auto& p : q) { g.push_back(pt(p)); l.push_back(pt(p)); } eq = point_sequences_equal(*gons[m], g, cmp); eqs = point_sequences_equal(*seqs[m], l, cmp); pe = polygons_equal(*gons[m], g, kk, cmp); pe2 = polygons_equal(*gons[m], g, sh, cmp); if(!grown) off = polygon_polygon_offset(*gons[m], g, cmp); }, [&] {
            GSIM_CHECK(eq == want(0) && eqs == eq, "wrong-equality", "two sequences are %s, %s and %s reported", want(0) ? "equal" : "not equal", eq ? "equal" : "not equal", eqs ? "equal" : "not equal"); GSIM_CHECK(pe == want(k), "wrong-equality", "two polygons shifted by %zu are %s, %s reported", kk, want(k) ? "equal" : "not equal", pe ? "equal" : "not equal"); GSIM_CHECK(pe2 == want(sh), "wrong-equality", "two polygons shifted by %zu are %s, %s reported", sh, want(sh) ? "equal" : "not equal", pe2 ? "equal" : "not equal"); if(want(k)) probe(k ? "equal-shifted" : "equal"); else probe("different");
            if(!grown && simple) { std::size_t w = (std::size_t)-1; for(std::size_t i = n; i-- > 0;) if(q[i] == r[0]) w = i; GSIM_CHECK(off == w, "wrong-offset", "polygons shifted by %zu, should be %zu", off, w); probe(w == (std::size_t)-1 ? "no-offset" : "offset"); } nontrivial(); mix(pe * 2 + eq); });
    }
    void corners(const Asked& j) {
        std::size_t m = j.a % rings.size(); const Ring& r = rings[m]; std::size_t n = r.size(), i = j.b % n, a = 99, b = 99; bool cv = false;
        ask("corner", j, [&] { cv = is_point_concave(*gons[m], i); a = next_index(*gons[m], i); b = prev_index(*gons[m], i); }, [&] { GSIM_CHECK(a == (i + 1) % n && b == (i + n - 1) % n, "wrong-index", "after %zu of %zu comes %zu, before it %zu", i, n, a, b); bool w = cross(r[(i + n - 1) % n], r[i], r[(i + 1) % n]) <= 0; GSIM_CHECK(cv == w, "wrong-corner", "corner %zu reported %s, should be %s", i, cv ? "concave" : "convex", w ? "concave" : "convex"); probe(w ? "concave" : "convex"); });
    }
    // Moves a chain rigidly, mirrors it or bends it somewhere.
    void congruence(const Asked& j) {
        bool loop = j.a & 1; const Ring& r = loop ? rings[j.b % rings.size()] : chains[j.b % chains.size()]; Ring q; static const int rot[4][4] = {{1, 0, 0, 1}, {0, -1, 1, 0}, {-1, 0, 0, -1}, {0, 1, -1, 0}}; const int* t = rot[j.c % 4]; long dx = (long)(j.c / 4 % 16) - 8, dy = (long)(j.c / 64 % 16) - 8; bool mir = j.a & 2;
        for(auto& p : r) q.push_back(IP{t[0] * p.x + t[1] * (mir ? -p.y : p.y) + dx, t[2] * p.x + t[3] * (mir ? -p.y : p.y) + dy}); if((j.a & 12) == 4) q[j.d % q.size()].x += 1; if((j.a & 12) == 8) { if(q.size() > 3) q.pop_back(); } if((j.a & 12) == 12 && q.size() > 1) { IP& e = q.back(); IP f = q[q.size() - 2]; e = IP{f.x - (e.y - f.y), f.y + (e.x - f.x)}; }
        std::size_t n = q.size(); for(std::size_t i = 0; i + 1 < n; ++i) if(q[i] == q[i + 1]) return; if(loop && q[n - 1] == q[0]) return; bool got = false;
        bool want = r.size() == n; if(want && n > 1) { for(std::size_t i = 0; i < n && want; ++i) { L ax = r[i].x - r[0].x, ay = r[i].y - r[0].y, bx = q[i].x - q[0].x, by = q[i].y - q[0].y, ex = r[1].x - r[0].x, ey = r[1].y - r[0].y, fx = q[1].x - q[0].x, fy = q[1].y - q[0].y; want = ax * ax + ay * ay == bx * bx + by * by && ax * ex + ay * ey == bx * fx + by * fy && ex * ay - ey * ax == fx * by - fy * bx; } }
        ask("congruence", j, [&] { if(loop) { Gon g; for(auto& p : q) g.push_back(pt(p)); got = are_polygons_congruent(*gons[j.b % rings.size()], g, cmp); } else { Line g; for(auto& p : q) g.push_back(pt(p)); got = are_polylines_congruent(*lines[j.b % chains.size()], g, cmp); } }, [&] { GSIM_CHECK(got == want, "wrong-congruence", "two %s reported %s, should be %s", loop ? "polygons" : "polylines", got ? "congruent" : "not congruent", want ? "congruent" : "not congruent"); probe(want ? "congruent" : "incongruent"); });
    }
    void halves(const Asked& j, IP a, IP b) {
        if(a == b) b.x += 3; double most = u * (0.25 + (double)(j.c % 32) / 4); L d2 = (L)(b.x - a.x) * (b.x - a.x) + (L)(b.y - a.y) * (b.y - a.y); std::size_t n = 1; while((R)d2 * u * u / ((R)n * n) > (R)most * most) n *= 2; std::vector<Flat2> e; P mid(NAN, NAN), mid2(NAN, NAN); S s(pt(a), pt(b));
        ask("splitting a segment", j, [&] { mid = segment_mid_point(pt(a), pt(b)); mid2 = segment_mid_point(s); auto v = split_segment(s, most); copy_segments(v, e); }, [&] {
            GSIM_CHECK(at(get<0>(mid), get<1>(mid), (R)(a.x + b.x) / 2, (R)(a.y + b.y) / 2) && get<0>(mid) == get<0>(mid2) && get<1>(mid) == get<1>(mid2), "wrong-point", "the middle of a segment at (%g,%g)", get<0>(mid) / u - ox, get<1>(mid) / u - oy); GSIM_CHECK(e.size() == 2 * n, "wrong-count", "a segment split into %zu pieces, should be %zu", e.size() / 2, n); for(std::size_t i = 0; i < n; ++i) for(int k = 0; k < 2; ++k) { R t = (R)(i + k) / n; GSIM_CHECK(at(e[2 * i + k].x, e[2 * i + k].y, a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)), "wrong-piece", "piece %zu of %zu of a segment reaches (%g,%g)", i, n, e[2 * i + k].x / u - ox, e[2 * i + k].y / u - oy); } probe(n > 1 ? "split" : "not-split"); mix(n); });
    }
    void one(const Asked& j) {
        switch(j.what) { case 0: case 1: areas(j); break; case 2: case 3: edges(j); break; case 4: reversed(j); break; case 5: case 6: compare(j); break; case 7: corners(j); break; case 8: case 9: congruence(j); break; default: halves(j, pts[j.a % pts.size()], pts[j.b % pts.size()]); break; }
    }
    static const int kinds = 11; static const std::uint32_t allocating = 1u << 2 | 1u << 3 | 1u << 4 | 1u << 5 | 1u << 6 | 1u << 8 | 1u << 9 | 1u << 10;
#else
    // On which side of a polyline a point lies: of the edge nearest to it, or of the wedge at the nearest vertex.
    void side(const Asked& j, IP p) {
        std::size_t m = j.a % chains.size(); const Ring& c = chains[m]; if(c.size() < 2) return; int o = 9, o2 = 9; if((j.d & 3) == 1) { std::size_t i = j.c % (c.size() - 1); p = (j.d & 4) ? c[i] : IP{(c[i].x + c[i + 1].x) / 2, (c[i].y + c[i + 1].y) / 2}; } P A = pt(p);
        std::size_t n = c.size(); std::vector<R> ds; std::vector<int> what; R least = INFINITY; for(std::size_t i = 0; i + 1 < n; ++i) { L ex = c[i + 1].x - c[i].x, ey = c[i + 1].y - c[i].y, px = p.x - c[i].x, py = p.y - c[i].y, dt = ex * px + ey * py, l2 = ex * ex + ey * ey; R d; int w; if(dt <= 0) { d = px * px + py * py; w = (int)i; } else if(dt >= l2) { L qx = p.x - c[i + 1].x, qy = p.y - c[i + 1].y; d = qx * qx + qy * qy; w = (int)i + 1; } else { L x = ex * py - ey * px; d = (R)(x * x) / l2; w = 1000 + (int)i; } ds.push_back(d); what.push_back(w); least = std::min(least, d); }
        std::set<int> near; std::size_t seg = n; for(std::size_t i = 0; i + 1 < n; ++i) if(ds[i] <= least + 1e-7L) { near.insert(what[i]); if(seg == n || (j.d & 8)) seg = i; }   // either of two equally near edges is a fair thing to say
        ask("side of a polyline", j, [&] { o = point_polyline_orientation(A, *lines[m], cmp); o2 = point_polyline_orientation(A, *lines[m], u * u * (double)least, seg, cmp); }, [&] {
            int want; if(least == 0) { want = oriented_collinear; probe("on-polyline"); } else if(near.size() > 1) { probe("equally-near"); return; } else { int w = *near.begin(); if(w >= 1000) { want = sgn(cross(c[w - 1000], c[w - 999], p)); probe("beside-edge"); } else if(w == 0 || w + 1 == (int)n) { std::size_t i = w ? w - 1 : 0; want = sgn(cross(c[i], c[i + 1], p)); probe(want ? "beyond-end" : "straight-beyond-end"); }
                else { IP h = c[w - 1], v = c[w], k = c[w + 1]; int turn = sgn(cross(h, v, k)); if(turn == 0) { probe("folded-or-straight"); return; } bool in = turn > 0 ? cross(v, k, p) > 0 && cross(v, h, p) < 0 : cross(v, k, p) < 0 && cross(v, h, p) > 0; want = in ? turn : -turn; probe((int)seg == w ? "at-corner-of-the-next-edge" : "at-corner"); } }
            GSIM_CHECK(o == want && o2 == want, "wrong-side", "a point is on side %d of a polyline, %d and %d reported", want, o, o2); nontrivial(); mix(want + 2); });
    }
    bool folds(const Ring& c) const { for(std::size_t i = 0; i + 2 < c.size(); ++i) if(c[i] == c[i + 2]) return true; return false; }
    static R bend(const Ring& c, std::size_t i) { if(i == 0 || i + 1 >= c.size()) return 0; auto len = [](IP a, IP b) { return std::sqrt((R)(b.x - a.x) * (b.x - a.x) + (R)(b.y - a.y) * (b.y - a.y)); }; return 2 * (R)cross(c[i - 1], c[i], c[i + 1]) / (len(c[i - 1], c[i]) * len(c[i], c[i + 1]) * len(c[i - 1], c[i + 1])); }
    static R span(const Ring& c, std::size_t i) { if(i == 0 || i + 1 >= c.size()) return 0; auto len = [](IP a, IP b) { return std::sqrt((R)(b.x - a.x) * (b.x - a.x) + (R)(b.y - a.y) * (b.y - a.y)); }; return (len(c[i - 1], c[i]) + len(c[i], c[i + 1])) / 2; }
    void curvature(const Asked& j) {
        std::size_t m = j.a % chains.size(); const Ring& c = chains[m]; if(folds(c)) { probe("folded"); return; } std::size_t i = j.b % c.size(); double k = NAN, ki = NAN, t = NAN, ta = NAN;
        ask("curvature", j, [&] { k = polyline_signed_curvature_at_index(*lines[m], i); ki = polyline_total_curvature_over_index(*lines[m], i); t = polyline_total_curvature(*lines[m]); ta = polyline_total_absolute_curvature(*lines[m]); }, [&] {
            R wk = bend(c, i) / u, wi = std::fabs(bend(c, i)) * span(c, i), wt = 0, wa = 0; for(std::size_t q = 0; q < c.size(); ++q) { wt += bend(c, q) * span(c, q); wa += std::fabs(bend(c, q)) * span(c, q); } auto near = [](double v, R w) { return std::isfinite(v) && std::fabs(v - w) <= 1e-9L * (1 + std::fabs(w)); };
            GSIM_CHECK(near(k, wk) && near(ki, wi), "wrong-curvature", "curvature at %zu %.12g, with its length %.12g, should be %.12g and %.12g", i, k, ki, (double)wk, (double)wi); GSIM_CHECK(near(t, wt) && near(ta, wa), "wrong-curvature", "total curvature %.12g and %.12g, should be %.12g and %.12g", t, ta, (double)wt, (double)wa); probe(wk > 0 ? "bends-left" : wk < 0 ? "bends-right" : "does-not-bend"); nontrivial(); });
    }
    void pieces(const char* what, const Ring& c, const std::vector<std::vector<Flat2>>& got, const std::vector<std::size_t>& cuts) const {
        std::vector<Ring> w; Ring cur{c[0]}; for(std::size_t i = 1; i < c.size(); ++i) { cur.push_back(c[i]); if(std::find(cuts.begin(), cuts.end(), i) != cuts.end()) { w.push_back(cur); cur = Ring{c[i]}; } } if(cur.size() > 1) w.push_back(cur);
        GSIM_CHECK(got.size() == w.size(), "wrong-count", "%s: %zu pieces, should be %zu", what, got.size(), w.size()); for(std::size_t i = 0; i < w.size(); ++i) GSIM_CHECK(same(got[i], w[i]), "wrong-piece", "%s: piece %zu is wrong", what, i); probe(w.size() > 1 ? "split" : "not-split"); mix(w.size());
    }
    void inflections(const Asked& j) {
        std::size_t m = j.a % chains.size(); const Ring& c = chains[m]; if(folds(c)) return; std::vector<std::size_t> at_; std::vector<std::vector<Flat2>> got;
        ask("inflections", j, [&] { { auto v = inflection_points(*lines[m]); InMode h(HARNESS); at_.assign(v.begin(), v.end()); } auto w = split_polyline_by_inflection_points(*lines[m]); InMode h(HARNESS); got.clear(); for(auto& q : w) { got.emplace_back(); copy(q, got.back()); } }, [&] {
            std::vector<std::size_t> want; bool s = false; for(std::size_t i = 1; i < c.size(); ++i) { bool n = i + 1 < c.size() && cross(c[i - 1], c[i], c[i + 1]) < 0; if(n != s) want.push_back(i); s = n; } GSIM_CHECK(at_ == want, "wrong-inflections", "%zu inflections, should be %zu", at_.size(), want.size()); pieces("split at inflections", c, got, want); if(want.size() > 2) probe("inflections"); nontrivial(); });
    }
    void bends(const Asked& j) {
        std::size_t m = j.a % chains.size(); const Ring& c = chains[m]; if(folds(c)) return; double most = (double)(j.b % 24) / 8; std::vector<std::vector<Flat2>> got; std::vector<std::size_t> cuts; R k = 0; bool close = false; for(std::size_t i = 1; i < c.size(); ++i) { k += std::fabs(bend(c, i)) * span(c, i); close = close || (std::fabs(k - most) < 1e-7L && k != 0); if(k > most) { cuts.push_back(i); k = 0; } } if(close) return;
        ask("splitting by curvature", j, [&] { auto w = split_by_total_curvature(*lines[m], most); InMode h(HARNESS); got.clear(); for(auto& q : w) { got.emplace_back(); copy(q, got.back()); } }, [&] { pieces("split by curvature", c, got, cuts); if(cuts.size() > 1) probe("split-by-curvature"); });
    }
    void beside(const Asked& j) {
        std::size_t m = j.a % chains.size(); const Ring& c = chains[m]; std::size_t n = c.size(); if(n < 2) return; for(std::size_t i = 0; i + 2 < n; ++i) { L dt = (L)(c[i + 1].x - c[i].x) * (c[i + 2].x - c[i + 1].x) + (L)(c[i + 1].y - c[i].y) * (c[i + 2].y - c[i + 1].y); if(cross(c[i], c[i + 1], c[i + 2]) == 0 && dt < 0) { probe("folded"); return; } }
        double w = u * (double)(1 + j.b % 12) / 4; bool left = j.c & 1; std::vector<Flat2> got;
        ask("line beside a polyline", j, [&] { auto v = polyline_offset(*lines[m], left ? oriented_left : oriented_right, w, cmp); copy(v, got); }, [&] {
            GSIM_CHECK(got.size() == n, "wrong-count", "a line beside one of %zu points has %zu", n, got.size()); for(std::size_t i = 0; i < n; ++i) for(int e = -1; e < 1; ++e) { long k = (long)i + e; if(k < 0 || k + 1 >= (long)n) continue; R ex = c[k + 1].x - c[k].x, ey = c[k + 1].y - c[k].y, l = std::sqrt(ex * ex + ey * ey), px = got[i].x / u - ox - c[i].x, py = got[i].y / u - oy - c[i].y, d = (ex * py - ey * px) / l, want = (left ? w : -w) / u, along = (ex * px + ey * py) / l; GSIM_CHECK(std::isfinite((double)d) && std::fabs(d - want) <= 1e-7L, "wrong-offset", "point %zu of a line beside a polyline lies %g from edge %ld, should be %g", i, (double)d, k, (double)want); if(i == 0 || i + 1 == n) GSIM_CHECK(std::fabs(along) <= 1e-7L, "wrong-offset", "the end %zu of a line beside a polyline is not straight across", i); else if(cross(c[i - 1], c[i], c[i + 1]) == 0) { GSIM_CHECK(std::fabs(along) <= 1e-7L, "wrong-offset", "point %zu of a line beside a straight stretch is not straight across", i); probe("straight-joint"); } } probe(left ? "to-the-left" : "to-the-right"); nontrivial(); });
    }
    void one(const Asked& j) { switch(j.what) { case 0: case 1: case 2: side(j, pts[j.b % pts.size()]); break; case 3: curvature(j); break; case 4: inflections(j); break; case 5: bends(j); break; default: beside(j); break; } }
    static const int kinds = 8; static const std::uint32_t allocating = 0xf0;
#endif
    void run() {
        static const double us[] = {1, 0.25, 8}; u = us[choose(GEN, 3)]; if(chance(GEN, 1, 4)) { ox = lattice(GEN, 100); oy = lattice(GEN, 100); } long r = 2 + (long)choose(GEN, 9); int n = 4 + (int)choose(GEN, 5);
        for(int i = 0; i < n; ++i) { Span sp(GEN); pts.push_back(IP{lattice(GEN, r), lattice(GEN, r)}); }
        for(int i = 0; i < 3; ++i) { Span sp(GEN); chains.push_back(draw_chain(GEN, i ? 2 : 1, 9, r)); Ring g = chance(GEN, 1, 4) ? draw_ring(GEN, r) : draw_simple(GEN, r); if(chance(GEN, 1, 3)) std::reverse(g.begin(), g.end()); if(chance(GEN, 1, 2)) std::rotate(g.begin(), g.begin() + choose(GEN, g.size()), g.end()); rings.push_back(g); }
        setup([&] { for(int i = 0; i < 3; ++i) { auto* l = new Line(); auto* rl = new Line(); auto* g = new Gon(); auto* s = new Seq(); for(auto& p : chains[i]) l->push_back(pt(p)); for(auto& p : rings[i]) { g->push_back(pt(p)); s->push_back(pt(p)); rl->push_back(pt(p)); } lines.push_back(l); ringlines.push_back(rl); gons.push_back(g); seqs.push_back(s); } });
        log("unit %g offset (%ld,%ld), points %s", u, ox, oy, show(pts).c_str()); for(int i = 0; i < 3; ++i) log("chain %s ring %s", show(chains[i]).c_str(), show(rings[i]).c_str());
        all(kinds, allocating, 9, [&](const Asked& j) { one(j); });
    }
};
} // namespace
void gsim_run() { Sim s; s.sw = draw_swarm(3); s.run(); }

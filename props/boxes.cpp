// Bounding boxes built up and asked through histories, and cones of view (C31).
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/axis_aligned_bounding_box.hpp>
#include <geometrix/primitive/point_sequence_utilities.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/bounding_box_intersection.hpp>
#include <geometrix/algorithm/intersection/aabb_aabb_intersection.hpp>
#include <geometrix/algorithm/is_segment_in_range.hpp>
#include "asking.hpp"
const char* const gsim_property = "C31";
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef point_double_3d P3;
typedef vector_double_2d V;
typedef segment_double_2d S;
typedef segment<P3> S3;
typedef absolute_tolerance_comparison_policy<double> Cmp;
typedef long long L;

namespace {
// A box of the model: the least that holds everything put in, or nothing.
struct Model { bool any = false; L lo[3], hi[3];
    void put(const L* p, int n) { for(int k = 0; k < n; ++k) { lo[k] = any ? std::min(lo[k], p[k]) : p[k]; hi[k] = any ? std::max(hi[k], p[k]) : p[k]; } any = true; }
    void put(const Model& m, int n) { if(m.any) { put(m.lo, n); put(m.hi, n); } }
};
struct I3 { L c[3]; };
template <int N> struct Kind;
template <> struct Kind<2> { typedef P Pt; typedef S Sg; typedef std::tuple<double, double, double, double> Tup; static P make(double u, const L* c) { return P(u * c[0], u * c[1]); } static double at(const P& p, int k) { return k ? get<1>(p) : get<0>(p); } };
template <> struct Kind<3> { typedef P3 Pt; typedef S3 Sg; typedef std::tuple<double, double, double, double, double, double> Tup; static P3 make(double u, const L* c) { return P3(u * c[0], u * c[1], u * c[2]); } static double at(const P3& p, int k) { return k == 0 ? get<0>(p) : k == 1 ? get<1>(p) : get<2>(p); } };
inline double part(const std::tuple<double, double, double, double>& t, int i) { double a[] = {std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t)}; return a[i]; }
inline double part(const std::tuple<double, double, double, double, double, double>& t, int i) { double a[] = {std::get<0>(t), std::get<1>(t), std::get<2>(t), std::get<3>(t), std::get<4>(t), std::get<5>(t)}; return a[i]; }

struct Sim : Asking {
    double u = 1; Cmp cmp{1e-10}; std::vector<I3> pts;
    std::vector<Ring> chains; std::vector<polyline<P>*> lines; std::vector<polygon<P>*> gons; std::vector<std::vector<I3>> ichains; std::vector<std::vector<P3>*> spaces;
    template <int N> typename Kind<N>::Pt pt(const I3& p) const { return Kind<N>::make(u, p.c); }

    // The boxes of one task in N dimensions.
    template <int N> struct Boxes { typedef typename Kind<N>::Pt Pt; typedef axis_aligned_bounding_box<Pt> Box; Box box[3]; Model model[3]; Boxes(const Box& b) : box{b, b, b} {} };
    template <int N> bool bound(const char* what, double lo, double hi, const Model& m, int k) const {
        if(!m.any) { GSIM_CHECK(lo > hi, "wrong-bound", "%s: a box of nothing holds [%g,%g] on axis %d", what, lo, hi, k); return true; }
        GSIM_CHECK(lo == u * m.lo[k] && hi == u * m.hi[k], "wrong-bound", "%s: [%g,%g] on axis %d, should be [%lld,%lld]", what, lo / u, hi / u, k, m.lo[k], m.hi[k]); return true;
    }
    template <int N> void same(const char* what, const typename Boxes<N>::Box& b, const Model& m) const { for(int k = 0; k < N; ++k) bound<N>(what, Kind<N>::at(b.get_lower_bound(), k), Kind<N>::at(b.get_upper_bound(), k), m, k); mix(m.any ? m.lo[0] * 64 + m.hi[N - 1] : 99); }
    template <int N> void same(const char* what, const typename Kind<N>::Tup& t, const Model& m) const { for(int k = 0; k < N; ++k) bound<N>(what, part(t, 2 * k), part(t, 2 * k + 1), m, k); }
    // Of which points the box is made: a whole sequence or a stretch of it.
    template <int N> Model of(std::size_t c, std::size_t from, std::size_t to) const { Model m; if(N == 2) for(std::size_t i = from; i < to; ++i) { L p[2] = {chains[c][i].x, chains[c][i].y}; m.put(p, 2); } else for(std::size_t i = from; i < to; ++i) m.put(ichains[c][i].c, 3); return m; }

    template <class Box, class Seq> Box whole(const Seq& s, const Asked& j, std::size_t from, std::size_t to) const {
        typedef typename Box::point_type Pt;
        switch(j.c % 4) { case 0: return make_aabb<Pt>(s, cmp); case 1: return make_aabb<Pt>(s); case 2: return make_aabb<Pt>(s, std::make_tuple(from, to - 1), cmp); default: return make_aabb<Pt>(s, std::make_tuple(from, to - 1)); }
    }
    typename Boxes<2>::Box fetch(Boxes<2>&, std::size_t c, const Asked& j, std::size_t from, std::size_t to) const { return j.d & 1 ? whole<Boxes<2>::Box>(*lines[c], j, from, to) : whole<Boxes<2>::Box>(*gons[c], j, from, to); }
    typename Boxes<3>::Box fetch(Boxes<3>&, std::size_t c, const Asked& j, std::size_t from, std::size_t to) const { return whole<Boxes<3>::Box>(*spaces[c], j, from, to); }
    typename Kind<2>::Tup bounds(Boxes<2>&, std::size_t c, const Asked& j, std::size_t from, std::size_t to) const { return j.c & 1 ? get_bounds(*lines[c], cmp) : get_bounds(*gons[c], std::make_tuple(from, to - 1), cmp); }
    typename Kind<3>::Tup bounds(Boxes<3>&, std::size_t c, const Asked& j, std::size_t from, std::size_t to) const { return j.c & 1 ? get_bounds(*spaces[c], cmp) : get_bounds(*spaces[c], std::make_tuple(from, to - 1), cmp); }

    template <int N> void step(Boxes<N>& w, const Asked& j) {
        typedef typename Kind<N>::Pt Pt; typedef typename Boxes<N>::Box Box; typedef typename Kind<N>::Tup Tup; typedef typename Kind<N>::Sg Sg;
        std::size_t n = 3, c = j.a % chains.size(), size = N == 2 ? chains[c].size() : ichains[c].size(), from = j.b % size, to = from + 1 + (j.b / 16) % (size - from), i = j.c % n, k = j.d % n; const I3 &p = pts[j.a % pts.size()], &q = pts[j.b % pts.size()]; bool all = j.c % 4 < 2;
        Model m; Box got = w.box[0]; Tup t;
        switch(j.what) {
        case 0: { m = all ? of<N>(c, 0, size) : of<N>(c, from, to); ask("box of a sequence", j, [&] { got = fetch(w, c, j, from, to); }, [&] { same<N>("box of a sequence", got, m); w.box[k] = got; w.model[k] = m; nontrivial(); }); } break;
        case 1: { m.put(p.c, N); m.put(q.c, N); Sg s(pt<N>(p), pt<N>(q)); bool d = j.d & 1; ask("box of a segment", j, [&] { got = d ? make_aabb<Pt>(s, cmp) : make_aabb<Pt>(s); }, [&] { same<N>("box of a segment", got, m); w.box[k] = got; w.model[k] = m; }); } break;
        case 2: { bool whole_ = j.c & 1; m = whole_ ? of<N>(c, 0, size) : of<N>(c, from, to); bool upd = j.d & 64; if(upd && w.model[i].any) m.put(w.model[i], N); ask("bounds", j, [&] { t = bounds(w, c, j, from, to); if(upd && w.model[i].any) t = update_bound(w.box[i].to_tuple(), t); }, [&] { same<N>("bounds", t, m); bool mk = j.d & 32; attempt("assigning bounds", [&] { if(mk) w.box[k] = make_aabb<Pt>(t); else w.box[k] = t; }); w.model[k] = m; same<N>("a box made of bounds", w.box[k], m); probe("from-bounds"); }); } break;
        case 3: case 4: { m = w.model[k]; m.put(w.model[i], N); bool tup = j.what == 4; ask("growing a box", j, [&] { if(tup) w.box[k].expand(w.box[i].to_tuple()); else w.box[k].expand(w.box[i]); }, [&] { bool grew = m.any && (!w.model[k].any || !std::equal(m.lo, m.lo + N, w.model[k].lo) || !std::equal(m.hi, m.hi + N, w.model[k].hi)); w.model[k] = m; same<N>("a grown box", w.box[k], m); if(grew) { probe("grown"); nontrivial(); } if(i == k) probe("grown-by-itself"); }); } break;
        case 5: { bool h[4] = {}, in[2] = {}, want = w.model[i].any && w.model[k].any, inside = want; for(int a = 0; a < N; ++a) if(want || inside) { const Model &x = w.model[i], &y = w.model[k]; want = want && x.lo[a] <= y.hi[a] && y.lo[a] <= x.hi[a]; inside = inside && x.lo[a] <= y.lo[a] && y.hi[a] <= x.hi[a]; } if(!w.model[i].any || !w.model[k].any) break;
            ask("two boxes", j, [&] { h[0] = w.box[i].intersects(w.box[k]); h[1] = w.box[i].intersects(w.box[k], cmp); h[2] = w.box[k].intersects(w.box[i]); h[3] = aabb_aabb_intersection(w.box[i], w.box[k], cmp); in[0] = w.box[i].contains(w.box[k]); in[1] = w.box[i].contains(w.box[k], cmp); }, [&] { for(int a = 0; a < 4; ++a) GSIM_CHECK(h[a] == want, "wrong-answer", "two boxes: %s reported, %s (%d)", h[a] ? "meeting" : "apart", want ? "they meet" : "they do not meet", a); for(int a = 0; a < 2; ++a) GSIM_CHECK(in[a] == inside, "wrong-answer", "two boxes: the second is %s in the first", inside ? "" : "not"); probe(inside ? "inside" : want ? "boxes-meet" : "boxes-apart"); }); } break;
        case 6: { bool h[2] = {}, want = w.model[i].any; for(int a = 0; a < N; ++a) want = want && w.model[i].lo[a] <= p.c[a] && p.c[a] <= w.model[i].hi[a]; Pt x = pt<N>(p); ask("box and point", j, [&] { h[0] = w.box[i].intersects(x); h[1] = w.box[i].intersects(x, cmp); }, [&] { for(int a = 0; a < 2; ++a) GSIM_CHECK(h[a] == want, "wrong-answer", "box and point: %s reported, should be %s", h[a] ? "inside" : "outside", want ? "inside" : "outside"); probe(!w.model[i].any ? "empty-box" : want ? "point-inside" : "point-outside"); }); } break;
        default: { Pt lo = pt<N>(p), hi = pt<N>(q); bool ordered = true; for(int a = 0; a < N; ++a) ordered = ordered && p.c[a] <= q.c[a]; if(!ordered) { m.put(p.c, N); m.put(q.c, N); lo = Kind<N>::make(u, m.lo); hi = Kind<N>::make(u, m.hi); } else { m.put(p.c, N); m.put(q.c, N); } ask("box of two corners", j, [&] { Box b(lo, hi); Tup x = b.to_tuple(); t = x; got = b; }, [&] { same<N>("box of two corners", got, m); same<N>("its bounds", t, m); w.box[k] = got; w.model[k] = m; corners(got, m); }); } break;
        }
    }
    void corners(const axis_aligned_bounding_box<P3>&, const Model&) const {}
    void corners(const axis_aligned_bounding_box<P>& b, const Model& m) const { L x[4] = {m.lo[0], m.hi[0], m.hi[0], m.lo[0]}, y[4] = {m.lo[1], m.lo[1], m.hi[1], m.hi[1]}; for(int i = 0; i < 4; ++i) { P p = b[i]; GSIM_CHECK(get<0>(p) == u * x[i] && get<1>(p) == u * y[i], "wrong-corner", "corner %d of a box at (%g,%g)", i, get<0>(p) / u, get<1>(p) / u); } }

    void diagonals(const Asked& j) {
        IP p[4]; std::size_t ix[4] = {j.a, j.b, j.c, j.d}; for(int i = 0; i < 4; ++i) { const I3& q = pts[ix[i] % pts.size()]; p[i] = IP{(long)q.c[0], (long)q.c[1]}; } P q[4]; for(int i = 0; i < 4; ++i) q[i] = P(u * p[i].x, u * p[i].y); bool h = false, g = false;
        ask("two diagonals", j, [&] { h = bounding_box_intersection(q[0], q[1], q[2], q[3], cmp); g = bounding_box_intersection(S(q[0], q[1]), S(q[2], q[3]), cmp); }, [&] { auto over = [](long a, long b, long c, long d) { return std::min(a, b) <= std::max(c, d) && std::min(c, d) <= std::max(a, b); }; bool want = over(p[0].x, p[1].x, p[2].x, p[3].x) && over(p[0].y, p[1].y, p[2].y, p[3].y); GSIM_CHECK(h == want && g == want, "wrong-answer", "boxes of two diagonals %s, %d and %d reported", want ? "meet" : "do not meet", h, g); probe(want ? "diagonals-meet" : "diagonals-apart"); });
    }
    // A cone at o between two directions less than a half turn apart, and a segment: what part of the segment lies in it.
    void cone(const Asked& j) {
        auto at = [&](std::size_t i) { const I3& p = pts[i % pts.size()]; return IP{(long)p.c[0], (long)p.c[1]}; };
        IP o = at(j.c), a = at(j.a), b = at(j.b), l = at(j.d), h = at(j.d / 16 + j.c / 16); IP lo{l.x - o.x, l.y - o.y}, hi{h.x - o.x, h.y - o.y}; L turn = (L)lo.x * hi.y - (L)lo.y * hi.x; if(turn == 0 || a == b) return; if(turn < 0) std::swap(lo, hi);
        auto det = [&](IP d, IP p) { return (L)d.x * (p.y - o.y) - (L)d.y * (p.x - o.x); }; L la = det(lo, a), lb = det(lo, b), ha = -det(hi, a), hb = -det(hi, b);   // inside where both are not negative
        // the stretch [first,last] of the segment within both half planes, as fractions
        L fn = 0, fd = 1, ln = 1, ld = 1; bool none = false; for(auto s : {std::make_pair(la, lb), std::make_pair(ha, hb)}) { if(s.first < 0 && s.second < 0) none = true; else if(s.first < 0) { L n = -s.first, d = s.second - s.first; if(n * fd > fn * d) { fn = n; fd = d; } } else if(s.second < 0) { L n = s.first, d = s.first - s.second; if(n * ld < ln * d) { ln = n; ld = d; } } } if(!none && fn * ld > ln * fd) none = true; bool apex = !none && fn * ld == ln * fd && (la < 0 || ha < 0) && (lb < 0 || hb < 0);
        log("cone at (%ld,%ld) from (%ld,%ld) to (%ld,%ld), segment (%ld,%ld)(%ld,%ld)", o.x, o.y, lo.x, lo.y, hi.x, hi.y, a.x, a.y, b.x, b.y); bool in = false; P O(u * o.x, u * o.y); V vl(u * lo.x, u * lo.y), vh(u * hi.x, u * hi.y); S s(P(u * a.x, u * a.y), P(u * b.x, u * b.y));
        ask("cone and segment", j, [&] { in = is_segment_in_range_2d(s, vl, vh, O); }, [&] { if(apex) { probe("through-the-apex"); return; } GSIM_CHECK(in == !none, "wrong-answer", "cone and segment: %s reported, %s", in ? "meeting" : "apart", none ? "they do not meet" : "they meet"); probe(none ? "cone-missed" : "cone-met"); });
    }
    void run() {
        static const double us[] = {1, 0.25, 8}; u = us[choose(GEN, 3)]; long r = 3 + (long)choose(GEN, 8); int n = 5 + (int)choose(GEN, 6);
        for(int i = 0; i < n; ++i) { Span sp(GEN); I3 p; for(int k = 0; k < 3; ++k) p.c[k] = lattice(GEN, r); if(i && chance(GEN, 1, 6)) { p = pts[choose(GEN, i)]; p.c[choose(GEN, 3)] += 1; } pts.push_back(p); }
        for(int i = 0; i < 3; ++i) { Span sp(GEN); chains.push_back(draw_chain(GEN, 2, 9, r)); std::vector<I3> v; int m = 1 + (int)choose(GEN, 8); for(int k = 0; k < m; ++k) { Span s2(GEN); I3 p; for(int a = 0; a < 3; ++a) p.c[a] = lattice(GEN, r); v.push_back(p); } ichains.push_back(v); }
        setup([&] { for(int i = 0; i < 3; ++i) { auto* l = new polyline<P>(); auto* g = new polygon<P>(); for(auto& p : chains[i]) { l->push_back(P(u * p.x, u * p.y)); g->push_back(P(u * p.x, u * p.y)); } lines.push_back(l); gons.push_back(g); auto* s = new std::vector<P3>(); for(auto& p : ichains[i]) s->push_back(pt<3>(p)); spaces.push_back(s); } });
        for(int i = 0; i < 3; ++i) log("chain %d %s", i, show(chains[i]).c_str());
        std::vector<std::vector<Asked>> js(sw.tasks);
        for(auto& v : js) { int m = 3 + (int)choose(OP, 12); for(int i = 0; i < m; ++i) { Span sp(OP); Asked j; j.what = (int)choose(OP, 18); j.a = choose(OP, 1024); j.b = choose(OP, 1024); j.c = choose(OP, 1024); j.d = choose(OP, 1024); v.push_back(j); } }
        std::vector<std::function<void()>> bodies;
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] {
            typedef axis_aligned_bounding_box<P> Box; typedef axis_aligned_bounding_box<P3> Box3; Box b(P(0, 0), P(0, 0)); Box3 b3(P3(0, 0, 0), P3(0, 0, 0)); Model none;
            attempt("boxes of nothing", [&] { polyline<P> e; std::vector<P3> e3; b = make_aabb<P>(e, cmp); b3 = make_aabb<P3>(e3); }); same<2>("a box of nothing", b, none); same<3>("a box of nothing", b3, none); Boxes<2> flat(b); Boxes<3> deep(b3);
            for(auto& j : js[t]) { Asked k = j; if(j.what < 8) step<2>(flat, k); else if(j.what < 16) { k.what -= 8; step<3>(deep, k); } else if(j.what == 16) diagonals(k); else cone(k); for(std::size_t i = 0; i < 3; ++i) { same<2>("a box left alone", flat.box[i], flat.model[i]); same<3>("a box left alone", deep.box[i], deep.model[i]); } }
        });
        parallel(bodies);
    }
};
} // namespace
void gsim_run() { Sim s; s.sw = draw_swarm(3); s.run(); }

// Figures as values: histories of construction, copying, moving, assignment and
// editing beside a model, points of the caller's own types, homogeneous coordinates.
#include <vector>
#include <deque>
#include <list>
#include <boost/tuple/tuple.hpp>
#include <boost/fusion/include/boost_tuple.hpp>
#include <geometrix/tensor/numeric_sequence.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/utility/member_function_fusion_adaptor.hpp>
#include <geometrix/tensor/fusion_vector_access_policy.hpp>
#include <geometrix/tensor/tuple_vector_access_policy.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/tensor/homogeneous_adaptor.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/distance/distance_compare.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polygon_with_holes.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/line.hpp>
#include <geometrix/primitive/sphere.hpp>
#include <geometrix/primitive/capsule.hpp>
#include <geometrix/primitive/rectangle.hpp>
#include <geometrix/primitive/oriented_bounding_box.hpp>
#include <geometrix/primitive/vector_point_sequence.hpp>
#include <geometrix/primitive/deque_point_sequence.hpp>
#include <geometrix/primitive/array_point_sequence.hpp>
#include <geometrix/numeric/number_comparison_policy.hpp>
#include <geometrix/algorithm/polygon_with_holes_as_segment_range.hpp>
#include <geometrix/algorithm/classify_simplex_to_plane.hpp>
#include "common.hpp"
#include "asking.hpp"
const char* const gsim_property = "C38";

// Points and vectors of the caller's own making.
struct PM { PM(float x = 0, int y = 0, short z = 0) : x(x), y(y), z(z) {} float get_x() const { return x; } int get_y() const { return y; } short get_z() const { return z; } void set_x(const float& v) { x = v; } void set_y(const int& v) { y = v; } void set_z(const short& v) { z = v; } float x; int y; short z; };
GEOMETRIX_MEMBER_FUNCTION_FUSION_SEQUENCE(PM, (float, float, get_x, set_x) (int, int, get_y, set_y) (short, short, get_z, set_z));
GEOMETRIX_DEFINE_POINT_TRAITS(PM, (float)(int)(short), 3, double, double, neutral_reference_frame_3d, fusion_vector_member_function_access_policy<PM>);
#define HEAPED(T) struct T { T(double x = 0, double y = 0, double z = 0) : p(3) { p[0] = x; p[1] = y; p[2] = z; } const double& operator[](std::size_t i) const { return p[i]; } double& operator[](std::size_t i) { return p[i]; } std::vector<double> p; };
HEAPED(PH) HEAPED(VH)
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(PH, double, 3);
GEOMETRIX_DEFINE_POINT_TRAITS(PH, (double), 3, double, double, neutral_reference_frame_3d, index_operator_vector_access_policy<PH>);
GEOMETRIX_INDEX_OPERATOR_FUSION_SEQUENCE(VH, double, 3);
GEOMETRIX_DEFINE_VECTOR_TRAITS(VH, (double), 3, double, double, neutral_reference_frame_3d, index_operator_vector_access_policy<VH>);
typedef boost::tuple<double, double, double> T3;
struct PT : T3 { PT(double x = 0, double y = 0, double z = 0) : T3(x, y, z) {} };
GEOMETRIX_COMPILE_INDEXED_MEMBER_FUNCTION_FUSION_SEQUENCE(PT, double, get, 3);
GEOMETRIX_DEFINE_POINT_TRAITS(PT, (double), 3, double, double, neutral_reference_frame_3d, tuple_vector_access_policy<PT>);
#define MADE_OF_THREE(T) namespace geometrix { template <> struct construction_policy<T> { template <class A, class B, class C> static T construct(const A& x, const B& y, const C& z) { return T(x, y, z); } template <class S> static T construct(const S& s) { return T(geometrix::get<0>(s), geometrix::get<1>(s), geometrix::get<2>(s)); } }; } \
    GEOMETRIX_DEFINE_NUMERIC_SEQUENCE_ASSIGNMENT_POLICY(T, 3)
MADE_OF_THREE(PM) MADE_OF_THREE(PH) MADE_OF_THREE(PT) MADE_OF_THREE(VH)
using namespace hx;
namespace gx = geometrix;

namespace {
typedef gx::point_double_3d PD; typedef gx::point<int, 3> PI; typedef gx::point<float, 3> PF; typedef gx::vector_double_3d VD;
typedef gx::point_double_2d P; typedef gx::vector_double_2d V; typedef gx::polyline<P> L; typedef gx::polygon<P> G; typedef gx::polygon_with_holes<P> H; typedef gx::segment<P> S; typedef std::vector<P> W;
struct XY { long x, y; bool operator==(const XY& o) const { return x == o.x && y == o.y; } bool operator!=(const XY& o) const { return !(*this == o); } };
typedef std::vector<XY> M; typedef std::vector<M> MS;
struct A3 { long x[3];
    friend A3 operator+(A3 a, A3 b) { return {{a.x[0] + b.x[0], a.x[1] + b.x[1], a.x[2] + b.x[2]}}; }
    friend A3 operator-(A3 a, A3 b) { return {{a.x[0] - b.x[0], a.x[1] - b.x[1], a.x[2] - b.x[2]}}; }
    friend A3 operator*(long k, A3 a) { return {{k * a.x[0], k * a.x[1], k * a.x[2]}}; }
    static A3 cross(A3 a, A3 b) { return {{a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0]}}; }
    static long dot(A3 a, A3 b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; } };
inline double at(const PM& p, int i) { return i == 0 ? p.x : i == 1 ? p.y : p.z; }
inline double at(const PT& p, int i) { const T3& t = p; return i == 0 ? t.get<0>() : i == 1 ? t.get<1>() : t.get<2>(); }
template <class T> double at(const T& p, int i) { return p[i]; }

// One task's own figures.
struct Mine { L* l[2]; G* g[2]; H* h[2]; W* w; std::deque<P>* q; PD* pd; PI* pi; PF* pf; PM* pm; PH* ph; PT* pt; VD* vd; VH* vh; };
struct Model { M l[2], g[2], ho[2]; MS hh[2]; M w, q; A3 p[6], v[2]; };
enum { KD, KI, KF, KM, KH, KT };

struct Sim {
    Asking* ak = nullptr; Swarm sw; const L* sl = nullptr; const G* sg = nullptr; const H* sh = nullptr; const W* swv = nullptr; const std::list<P>* slist = nullptr; const PD* spd = nullptr; const PH* sph = nullptr; M ml, mg, mho, mw; MS mhh; A3 mp;
    static M points(Channel c, int least, int most) { M m; int n = least + (int)choose(c, most - least + 1); for(int i = 0; i < n; ++i) m.push_back({lattice(c, 20), lattice(c, 20)}); return m; }
    static A3 three(Channel c) { A3 a; for(long& x : a.x) x = lattice(c, 30); return a; }
    template <class T> static void fill(T& t, const M& m) { for(XY p : m) t.push_back(P((double)p.x, (double)p.y)); }

    template <class T> static void same(const char* what, const T& t, const M& m) {
        GSIM_CHECK(t.size() == m.size(), "wrong-size", "%s has %zu points, expected %zu", what, (std::size_t)t.size(), m.size());
        for(std::size_t i = 0; i < m.size(); ++i) GSIM_CHECK(t[i][0] == m[i].x && t[i][1] == m[i].y, "wrong-point", "%s: point %zu is (%g, %g), expected (%ld, %ld)", what, i, (double)t[i][0], (double)t[i][1], m[i].x, m[i].y); }
    template <class T> static bool is(const T& t, const M& m) { if(t.size() != m.size()) return false; for(std::size_t i = 0; i < m.size(); ++i) if(t[i][0] != m[i].x || t[i][1] != m[i].y) return false; return true; }
    template <class T> static void place(const char* what, const T& t, A3 a) { for(int i = 0; i < 3; ++i) GSIM_CHECK(at(t, i) == a.x[i], "wrong-coordinate", "%s: coordinate %d is %.17g, expected %ld", what, i, (double)at(t, i), a.x[i]); }
    void holes(const char* what, const H& h, const M& o, const MS& hs) const { same(what, h.get_outer(), o); GSIM_CHECK(h.get_holes().size() == hs.size(), "wrong-holes", "%s has %zu holes, expected %zu", what, h.get_holes().size(), hs.size()); for(std::size_t i = 0; i < hs.size(); ++i) same(what, h.get_holes()[i], hs[i]); }
    void all_as_expected(const Mine& a, const Model& m) const {
        for(int i = 0; i < 2; ++i) { same("a polyline", *a.l[i], m.l[i]); same("a polygon", *a.g[i], m.g[i]); holes("a polygon with holes", *a.h[i], m.ho[i], m.hh[i]); }
        same("a vector of points", *a.w, m.w); same("a deque of points", *a.q, m.q);
        place("a point of doubles", *a.pd, m.p[KD]); place("a point of integers", *a.pi, m.p[KI]); place("a point of floats", *a.pf, m.p[KF]); place("a point of mixed types", *a.pm, m.p[KM]); place("a point on the heap", *a.ph, m.p[KH]); place("a tuple", *a.pt, m.p[KT]); place("a vector of doubles", *a.vd, m.v[0]); place("a vector on the heap", *a.vh, m.v[1]);
        same("the shared polyline", *sl, ml); same("the shared polygon", *sg, mg); holes("the shared polygon with holes", *sh, mho, mhh); same("the shared vector", *swv, mw); place("the shared point", *spd, mp); place("the shared point on the heap", *sph, mp);
    }

    // Polylines and polygons: T is the figure, and to construct it in one of the ways it has.
    template <class T> static T* make(int way, const T& copy, T& move, const W& vec, W& vmove, const std::list<P>& list, P a, P b, P c, std::size_t n) {
        switch(way) { case 0: return new T(copy); case 1: return new T(std::move(move)); case 2: return new T(vec); case 3: return new T(std::move(vmove)); case 4: return new T(list.begin(), list.end()); case 5: return new T{a, b, c}; case 6: return new T(n); case 7: return new T(gx::construct<T>(vec)); default: return new T(); } }
    template <class T> static void put(int way, T& to, const T& copy, T& move, const W& vec, W& vmove, P a, P b, P c) {
        switch(way) { case 0: to = copy; break; case 1: to = std::move(move); break; case 2: to = vec; break; case 3: to = std::move(vmove); break; case 4: to = {a, b, c}; break; case 5: to = to; break; case 6: { using std::swap; swap(to, move); break; } default: to.swap(move); } }
    template <class T> void sequence(const Asked& j, const char* what, T* (&r)[2], M (&m)[2], const T& shared, const M& mshared, Mine& my, Model& mo) {
        int to = (int)(j.b & 1), from = 1 - to; bool ours = j.b & 2; const T& copy = ours ? *r[from] : shared; const M& mcopy = ours ? m[from] : mshared; const W& vec = j.b & 4 ? *my.w : *swv; const M& mvec = j.b & 4 ? mo.w : mw;
        XY t[3]; for(XY& x : t) x = {lattice(ENV, 20), lattice(ENV, 20)}; P a((double)t[0].x, (double)t[0].y), b((double)t[1].x, (double)t[1].y), c((double)t[2].x, (double)t[2].y); M three_{t[0], t[1], t[2]};
        int form = (int)(j.a % 4), way = (int)(j.c % 9); T* fresh = nullptr; std::size_t n = j.d % 5, n2 = 0; typedef gx::point_sequence_traits<T> access;
        if(form == 0) {
            attempted(what, j, [&] { fresh = make<T>(way, copy, *r[from], vec, *my.w, *slist, a, b, c, n); }, [&] {
                M want = way == 0 ? mcopy : way == 1 ? m[from] : way == 2 || way == 7 ? mvec : way == 3 ? mo.w : way == 4 ? mw : way == 5 ? three_ : M(); if(way == 6) { GSIM_CHECK(fresh->size() == n, "wrong-size", "%s of %zu points has %zu", what, n, (std::size_t)fresh->size()); setup([&] { for(std::size_t i = 0; i < n; ++i) (*fresh)[i] = a; }); want = M(n, t[0]); }
                same(what, *fresh, want); { InMode s(SUT); delete r[to]; } r[to] = fresh; if(way == 1) { setup([&] { r[from]->clear(); }); m[from].clear(); probe("moved"); } if(way == 3) { setup([&] { my.w->clear(); }); mo.w.clear(); } m[to] = want; probe("constructed"); });
        } else if(form == 1) {
            way %= 8; attempted(what, j, [&] { put<T>(way, *r[to], copy, *r[from], vec, *my.w, a, b, c); }, [&] {
                M want = way == 0 ? mcopy : way == 1 || way > 5 ? m[from] : way == 2 ? mvec : way == 3 ? mo.w : way == 4 ? three_ : m[to]; same(what, *r[to], want);
                if(way == 1) { setup([&] { r[from]->clear(); }); m[from].clear(); } if(way == 3) { setup([&] { my.w->clear(); }); mo.w.clear(); } if(way > 5) { same(what, *r[from], m[to]); m[from] = m[to]; } m[to] = want; probe("assigned"); });
        } else if(form == 2) {
            attempted(what, j, [&] { T& x = *r[to]; switch(way) { case 0: case 1: x.push_back(a); break; case 2: x.insert(x.begin() + (long)(j.d % (x.size() + 1)), b); break; case 3: if(!x.empty()) x.erase(x.begin() + (long)(j.d % x.size())); break; case 4: if(!x.empty()) access::pop_back(x); break; case 5: if(!x.empty()) access::get_point(x, j.d % x.size()) = c; break; case 6: x.reserve(j.d % 20); break; case 7: if(!x.empty()) gx::set<1>(access::back(x), (double)t[1].y); break; default: x.resize(n, a); } }, [&] {
                M& x = m[to]; switch(way) { case 0: case 1: x.push_back(t[0]); break; case 2: x.insert(x.begin() + (long)(j.d % (x.size() + 1)), t[1]); break; case 3: if(!x.empty()) x.erase(x.begin() + (long)(j.d % x.size())); break; case 4: if(!x.empty()) x.pop_back(); break; case 5: if(!x.empty()) x[j.d % x.size()] = t[2]; break; case 6: break; case 7: if(!x.empty()) x.back().y = t[1].y; break; default: x.resize(n, t[0]); } same(what, *r[to], x); probe("edited"); });
        } else {
            M seen; XY f{}, e{}; long back = 0; attempted(what, j, [&] { const T& x = copy; n = access::size(x); for(auto it = access::begin(x); it != access::end(x); ++it) { InMode h(HARNESS); seen.push_back({(long)(*it)[0], (long)(*it)[1]}); } std::size_t i = n; for(auto it = access::rbegin(x); it != access::rend(x); ++it) { --i; back += (*it)[0] != access::get_point(x, i)[0] || (*it)[1] != access::get_point(x, i)[1]; ++n2; } if(!access::empty(x)) { f = {(long)access::front(x)[0], (long)access::front(x)[1]}; e = {(long)access::back(x)[0], (long)access::back(x)[1]}; } }, [&] {
                GSIM_CHECK(n == mcopy.size() && n2 == n && seen == mcopy && !back && (n == 0 || (f == mcopy.front() && e == mcopy.back())), "wrong-traversal", "%s of %zu points was seen as %zu, %zu points", what, mcopy.size(), seen.size(), n2); probe("traversed"); });
            seen = M();
        }
    }
    template <class F, class C> bool attempted(const char* what, const Asked& j, F f, C check) { bool done = false;
        std::int64_t b = sw.tasks == 1 ? live_blocks() : 0; Outcome o = attempt(what, f, j.plan, false, 6000000); if(o == DONE) { check(); done = true; nontrivial(); } else { probe("out-of-memory"); if(sw.tasks == 1 && !(j.what > 1 && j.what < 4 && j.a % 4 == 1)) GSIM_CHECK(live_blocks() <= b, "leak", "%s left %lld block(s) behind when memory ran out", what, (long long)(live_blocks() - b)); }
        log("%s (%zu,%zu,%zu,%zu): %s", what, j.a, j.b, j.c, j.d, done ? "done" : "out of memory"); mix(o * 32 + j.what); yield(); return done; }

    // Polygons with holes.
    void holed(const Asked& j, Mine& my, Model& m) {
        int to = (int)(j.b & 1), from = 1 - to; bool ours = j.b & 2; const H& copy = ours ? *my.h[from] : *sh; const M& mco = ours ? m.ho[from] : mho; const MS& mch = ours ? m.hh[from] : mhh; const G& g = j.b & 4 ? *my.g[0] : *sg; const M& mgg = j.b & 4 ? m.g[0] : mg; G& gm = *my.g[1]; int way = (int)(j.c % 10); H* fresh = nullptr; const char* what = "polygon with holes";
        std::vector<G>& th = my.h[from]->get_holes(); const std::vector<G>& ch = copy.get_holes();
        if(j.a % 4 == 0) {
            attempted("construct a polygon with holes", j, [&] { switch(way) { case 0: case 1: fresh = new H(copy); break; case 2: fresh = new H(std::move(*my.h[from])); break; case 3: fresh = new H(g); break; case 4: fresh = new H(std::move(gm)); break; case 5: fresh = new H(g, ch); break; case 6: fresh = new H(g, std::move(th)); break; case 7: fresh = new H(std::move(gm), ch); break; case 8: fresh = new H(std::move(gm), std::move(th)); break; default: fresh = new H(); } }, [&] {
                M o = way < 2 ? mco : way == 2 ? m.ho[from] : way == 4 || way == 7 || way == 8 ? m.g[1] : way == 9 ? M() : mgg; MS hs = way < 2 || way == 5 || way == 7 ? mch : way == 2 || way == 6 || way == 8 ? m.hh[from] : MS(); holes(what, *fresh, o, hs);
                { InMode s(SUT); delete my.h[to]; } my.h[to] = fresh; if(way == 2) { setup([&] { my.h[from]->get_outer().clear(); my.h[from]->get_holes().clear(); }); m.ho[from].clear(); m.hh[from].clear(); } if(way == 4 || way == 7 || way == 8) { setup([&] { gm.clear(); }); m.g[1].clear(); } if(way == 6 || way == 8) { setup([&] { th.clear(); }); m.hh[from].clear(); } m.ho[to] = o; m.hh[to] = hs; probe("holed"); });
            // A constructor that moves in one part and runs out of memory for the other may have taken what it was given: look again.
            if(!fresh && way == 7) again(gm, m.g[1]);
            if(!fresh && way == 6) { GSIM_CHECK(th.empty() || th.size() == m.hh[from].size(), "half-moved", "%zu of %zu holes were left", th.size(), m.hh[from].size()); if(th.empty()) m.hh[from].clear(); }
        } else if(j.a % 4 == 1) {
            H& x = *my.h[to]; const M oo = m.ho[to]; const MS oh = m.hh[to]; way %= 3; const M no = way == 0 ? mco : way == 1 ? m.ho[from] : oo; const MS nh = way == 0 ? mch : way == 1 ? m.hh[from] : oh;
            if(!attempted("assign a polygon with holes", j, [&] { if(way == 0) x = copy; else if(way == 1) x = std::move(*my.h[from]); else x = x; }, [&] { holes(what, x, no, nh); m.ho[to] = no; m.hh[to] = nh; if(way == 1) { setup([&] { my.h[from]->get_outer().clear(); my.h[from]->get_holes().clear(); }); m.ho[from].clear(); m.hh[from].clear(); } probe("holes-assigned"); })) {
                // Interrupted: every part is the old one or the new one.
                GSIM_CHECK(is(x.get_outer(), oo) || is(x.get_outer(), no), "torn", "an interrupted assignment left an outer border that is neither the old nor the new one"); m.ho[to] = is(x.get_outer(), oo) ? oo : no; const std::vector<G>& hs = x.get_holes(); GSIM_CHECK(hs.size() == oh.size() || hs.size() == nh.size(), "torn", "an interrupted assignment of %zu holes to %zu left %zu", nh.size(), oh.size(), hs.size());
                MS now(hs.size()); for(std::size_t i = 0; i < hs.size(); ++i) { bool old = i < oh.size() && is(hs[i], oh[i]), young = i < nh.size() && is(hs[i], nh[i]); GSIM_CHECK(old || young, "torn", "an interrupted assignment left hole %zu neither old nor new", i); now[i] = old ? oh[i] : nh[i]; } m.hh[to] = now; probe("interrupted"); }
        } else if(j.a % 4 == 2) {
            H& x = *my.h[to]; std::size_t k = x.get_holes().size(), i = k ? j.d % k : 0;
            bool edited = attempted("edit a polygon with holes", j, [&] { switch(way) { case 0: x.set_outer(g); break; case 1: x.set_outer(std::move(gm)); break; case 2: x.add_hole(g); break; case 3: x.add_hole(std::move(gm)); break; case 4: if(k) x.add_hole(x.get_holes()[i]); break; case 5: if(k) x.set_outer(x.get_holes()[i]); break; case 6: x.add_hole(*my.w); break; case 7: if(k) x.get_holes().erase(x.get_holes().begin() + (long)i); break; case 8: x.get_outer().push_back(P((double)(j.d % 9), 1.)); break; default: x.add_hole(x.get_outer()); } }, [&] {
                M& o = m.ho[to]; MS& hs = m.hh[to]; switch(way) { case 0: o = mgg; break; case 1: o = m.g[1]; break; case 2: hs.push_back(mgg); break; case 3: hs.push_back(m.g[1]); break; case 4: if(k) hs.push_back(M(hs[i])); break; case 5: if(k) o = hs[i]; break; case 6: hs.push_back(m.w); break; case 7: if(k) hs.erase(hs.begin() + (long)i); break; case 8: o.push_back({(long)(j.d % 9), 1}); break; default: hs.push_back(o); }
                if(way == 1 || way == 3) { setup([&] { gm.clear(); }); m.g[1].clear(); } holes(what, x, o, hs); probe("holes-edited"); });
            if(!edited && way == 3) again(gm, m.g[1]);   // as a vector that runs out of memory while it grows: the new element may already have been taken
        } else {
            bool lonely = mco.size() == 1; for(const M& r : mch) lonely = lonely || r.size() == 1; if(lonely) return;   // a border of one point has no edges to speak of
            struct E { XY a, b; }; std::vector<E> got; attempted("edges of a polygon with holes", j, [&] { std::vector<S> v = gx::polygon_with_holes_as_segment_range<S>(copy); InMode h(HARNESS); got.clear(); for(const S& s : v) got.push_back({{(long)s.get_start()[0], (long)s.get_start()[1]}, {(long)s.get_end()[0], (long)s.get_end()[1]}}); }, [&] {
                std::vector<E> want; auto add = [&](const M& r) { for(std::size_t i = 0; i < r.size(); ++i) want.push_back({r[i], r[(i + 1) % r.size()]}); }; add(mco); for(const M& r : mch) add(r);
                GSIM_CHECK(got.size() == want.size(), "wrong-edges", "%zu edges, expected %zu", got.size(), want.size()); for(std::size_t i = 0; i < want.size(); ++i) GSIM_CHECK(got[i].a == want[i].a && got[i].b == want[i].b, "wrong-edges", "edge %zu of %zu is from (%ld, %ld) to (%ld, %ld), expected (%ld, %ld) to (%ld, %ld)", i, want.size(), got[i].a.x, got[i].a.y, got[i].b.x, got[i].b.y, want[i].a.x, want[i].a.y, want[i].b.x, want[i].b.y); if(want.size() > mco.size()) probe("edges"); });
        }
    }
    static void again(const G& g, M& m) { GSIM_CHECK(g.empty() || is(g, m), "half-moved", "%zu of %zu points were left", g.size(), m.size()); if(g.empty()) m.clear(); }

    // Plain sequences of points.
    void plain(const Asked& j, Mine& my, Model& m) {
        XY t{lattice(ENV, 20), lattice(ENV, 20)}; P a((double)t.x, (double)t.y); W* w = nullptr; std::deque<P>* q = nullptr; typedef gx::point_sequence_traits<std::deque<P>> dq; typedef gx::point_sequence_traits<W> wq; int way = (int)(j.a % 7); std::size_t i = j.b;
        attempted("sequence of points", j, [&] { switch(way) { case 0: w = new W(gx::construct<W>(*my.q)); break; case 1: q = new std::deque<P>(gx::construct<std::deque<P>>(j.b & 1 ? *my.w : *swv)); break; case 2: my.q->push_front(a); break; case 3: my.w->push_back(a); break; case 4: if(!dq::empty(*my.q)) { dq::get_point(*my.q, i % dq::size(*my.q)) = a; } break; case 5: if(!dq::empty(*my.q)) dq::pop_back(*my.q); break; default: w = new W(*sl); } }, [&] {
            switch(way) { case 0: same("a vector made of a deque", *w, m.q); m.w = m.q; break; case 1: m.q = j.b & 1 ? m.w : mw; same("a deque made of a vector", *q, m.q); break; case 2: m.q.insert(m.q.begin(), t); break; case 3: m.w.push_back(t); break; case 4: if(!m.q.empty()) m.q[i % m.q.size()] = t; break; case 5: if(!m.q.empty()) m.q.pop_back(); break; default: m.w = ml; }
            InMode s(SUT); if(w) { delete my.w; my.w = w; } if(q) { delete my.q; my.q = q; } });
        if(m.q.size()) GSIM_CHECK(dq::front(*my.q)[0] == m.q.front().x && dq::back(*my.q)[1] == m.q.back().y && (std::size_t)std::distance(dq::begin(*my.q), dq::end(*my.q)) == m.q.size(), "wrong-ends", "the ends of a deque of %zu points", m.q.size());
        (void)sizeof(wq);
    }

    // Points of the caller's own types: To takes its place from From.
    template <class To, class From> void carry(const Asked& j, To* to, int kt, const From& from, A3 f, Mine& my, Model& m) {
        int way = (int)(j.c % 13); A3& t = m.p[kt]; using namespace geometrix; A3 r = t, nv = m.v[0], nh = m.v[1]; double s = 0, ws = 0; To* fresh = nullptr; double k = (double)(1 + j.d % 3);
        attempted("points of different types", j, [&] { switch(way) {
            case 0: fresh = new To(gx::construct<To>(from)); break; case 1: gx::assign(*to, from); break; case 2: gx::set<1>(*to, gx::get<0>(from)); break; case 3: gx::assign(*to, from + *my.vd); break; case 4: fresh = new To(gx::construct<To>(from + *my.vh)); break;
            case 5: gx::assign(*to, *to + k * (from - *to)); break; case 6: *my.vd = *to - from; break; case 7: gx::assign(*my.vh, from - *to); break; case 8: s = gx::point_point_distance_sqrd(*to, from); break; case 9: s = gx::dot_product(gx::as_vector(*to), gx::as_vector(from)); break; case 10: *my.vd = gx::as_vector(*to) ^ gx::as_vector(from); break; case 11: gx::assign(*to, gx::get<2>(from), gx::get<0>(from), gx::get<1>(from)); break;
            default: { gx::distance_compare<From, gx::direct_comparison_policy> d(from, gx::direct_comparison_policy{}); s = (d(*to, *spd) ? 1 : 0) + (d(*spd, *to) ? 2 : 0); } } }, [&] {
            switch(way) { case 0: case 1: r = f; break; case 2: r.x[1] = f.x[0]; break; case 3: r = f + m.v[0]; break; case 4: r = f + m.v[1]; break; case 5: r = t + (long)k * (f - t); break; case 6: nv = t - f; break; case 7: nh = f - t; break; case 8: ws = (double)A3::dot(t - f, t - f); break; case 9: ws = (double)A3::dot(t, f); break; case 10: nv = A3::cross(t, f); break; case 11: r = {{f.x[2], f.x[0], f.x[1]}}; break; default: { long a = A3::dot(t - f, t - f), b = A3::dot(mp - f, mp - f); ws = (a < b ? 1 : 0) + (b < a ? 2 : 0); } }
            GSIM_CHECK(s == ws, "wrong-number", "%s of points of different types is %.17g, expected %.17g", way == 8 ? "distance" : way == 9 ? "product" : "order", s, ws);
            if(fresh) { place("a converted point", *fresh, r); InMode g(SUT); *to = *fresh; delete fresh; } t = r; m.v[0] = nv; m.v[1] = nh; probe("converted"); });
        // Coordinates are kept small, so that every type holds them.
        for(int i = 0; i < 3; ++i) if(std::labs(t.x[i]) > 2000) { setup([&] { *to = To(1, 2, 3); }); t = {{1, 2, 3}}; break; }
        for(int i = 0; i < 3; ++i) if(std::labs(m.v[0].x[i]) > 2000 || std::labs(m.v[1].x[i]) > 2000) { setup([&] { *my.vd = VD(1, -1, 2); gx::assign(*my.vh, *my.vd); }); m.v[0] = m.v[1] = {{1, -1, 2}}; break; }
    }
    template <class To> void carry_to(const Asked& j, To* to, int kt, Mine& my, Model& m) {
        switch(j.b % 8) { case 0: carry(j, to, kt, *my.pd, m.p[KD], my, m); break; case 1: carry(j, to, kt, *my.pi, m.p[KI], my, m); break; case 2: carry(j, to, kt, *my.pf, m.p[KF], my, m); break; case 3: carry(j, to, kt, *my.pm, m.p[KM], my, m); break; case 4: carry(j, to, kt, *my.ph, m.p[KH], my, m); break; case 5: carry(j, to, kt, *my.pt, m.p[KT], my, m); break; case 6: carry(j, to, kt, *spd, mp, my, m); break; default: carry(j, to, kt, *sph, mp, my, m); } }

    // Fixed figures, and points beside lines.
    void fixed(const Asked& j) {
        XY t[4]; for(XY& x : t) x = {lattice(ENV, 12), lattice(ENV, 12)}; if(t[0] == t[1]) t[1].x += 3; P p[4]; for(int i = 0; i < 4; ++i) p[i] = P((double)t[i].x, (double)t[i].y); double r = (double)(1 + choose(ENV, 20)) / 4; int side = (int)(j.b & 1); bool bad = false; double got[8] = {}, want[8] = {}; int n = 0; const char* what = "figure"; gx::plane_orientation o[2] = {}, wo[2] = {};
        auto eq = [&](const P& a, const P& b) { if(a[0] != b[0] || a[1] != b[1]) bad = true; }; gx::absolute_tolerance_comparison_policy<double> cmp(1e-9);
        ak->ask("figure", j, [&] { bad = false; n = 0; auto out = [&](double g, double w) { got[n] = g; want[n] = w; ++n; };
            switch(j.a % 7) {
            case 0: { what = "segment"; S s = j.b & 2 ? S(p[0], p[1]) : j.b & 4 ? gx::make_segment(p[0], p[1]) : j.b & 8 ? S((double)t[0].x, (double)t[0].y, (double)t[1].x, (double)t[1].y) : gx::construct<S>(W{p[0], p[1]}); S c(s), v = s.reverse(); eq(gx::get_vertex(s, 0), p[0]); eq(gx::get_vertex(s, 1), p[1]); out((double)gx::number_vertices(s), 2); eq(s.get_start(), p[0]); eq(gx::get_end(s), p[1]); eq(v.get_start(), p[1]); eq(v.get_end(), p[0]); gx::set_start(s, p[2]); eq(gx::get_start(s), p[2]); eq(s.get_end(), p[1]); gx::set_end(s, p[3]); eq(s.get_end(), p[3]); eq(s.get_start(), p[2]); eq(c.get_start(), p[0]); c = s; eq(c.get_end(), p[3]); break; }
            case 1: { what = "capsule"; S s(p[0], p[1]); gx::capsule<P> c = j.b & 2 ? gx::capsule<P>(p[0], p[1], r) : j.b & 4 ? gx::construct<gx::capsule<P>>(s, r) : gx::construct<gx::capsule<P>>(p[0], p[1], r), d(c); eq(c.get_segment().get_start(), p[0]); eq(gx::capsule_access_traits<gx::capsule<P>>::get_segment(c).get_end(), p[1]); out(c.get_radius(), r); out(gx::capsule_access_traits<gx::capsule<P>>::get_radius(d), r); c = gx::capsule<P>(s.reverse(), r + 1); eq(c.get_segment().get_end(), p[0]); out(c.get_radius(), r + 1); out(d.get_radius(), r); break; }
            case 2: { what = "circle"; typedef gx::circle_double_2d C; C c = j.b & 2 ? C(p[0], r) : gx::construct<C>(p[0], r), d(c); eq(c.get_center(), p[0]); out(gx::get_radius(c), r); c.set_center(p[0] + (p[1] - p[2])); c.set_radius(2 * r); out(gx::get_center(c)[0], (double)(t[0].x + t[1].x - t[2].x)); out(gx::get_center(c)[1], (double)(t[0].y + t[1].y - t[2].y)); out(c.get_radius(), 2 * r); eq(gx::get_center(d), p[0]); out(d.get_radius(), r); break; }
            case 3: { what = "rectangle"; typedef gx::rectangle<P> R; R c = j.b & 2 ? R(p[0], p[1], p[2], p[3]) : gx::construct<R>(p[0], p[1], p[2], p[3]), d(c); typedef gx::point_sequence_traits<R> access; for(int i = 0; i < 4; ++i) { eq(c[i], p[i]); eq(access::get_point(d, i), p[i]); eq(gx::get_vertex(d, i), p[i]); } out((double)gx::number_vertices(c), 4); access::get_point(c, j.d % 4) = p[0]; eq(c[j.d % 4], p[0]); eq(d[j.d % 4], p[j.d % 4]); out((double)access::size(c), 4); break; }
            case 4: { what = "box"; typedef gx::oriented_bounding_box<P, V> B; static const double U[][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {.6, .8}, {-.8, .6}}; const double* u = U[j.d % 6]; V a(u[0], u[1]), b(-u[1], u[0]); B x(p[0], a, b, r, 2 * r), y(x); for(int i = 0; i < 4; ++i) { double su = i == 1 || i == 2 ? 1 : -1, sv = i == 2 || i == 3 ? 1 : -1; P w = x[i]; out(w[0], t[0].x + su * r * a[0] + sv * 2 * r * b[0]); out(w[1], t[0].y + su * r * a[1] + sv * 2 * r * b[1]); P z = x.get_rectangle()[i]; eq(z, w); } x.set_center(p[1]); eq(x.get_center(), p[1]); eq(y.get_center(), p[0]); if(x.get_axis(1)[0] != b[0] || x.get_axis(0)[1] != a[1] || x.get_halfwidth(1) != 2 * r || x.get_halfwidth(0) != r || x.size() != 4) bad = true; break; }
            case 5: { what = "line"; typedef gx::line<P> Ln; V dir = p[1] - p[0]; Ln l = j.b & 2 ? Ln(p[0], p[1]) : j.b & 4 ? Ln(p[0], dir) : j.b & 8 ? Ln(S(p[0], p[1])) : gx::make_line(p[0], dir), k(l); double len = std::hypot((double)(t[1].x - t[0].x), (double)(t[1].y - t[0].y)), dx = (t[1].x - t[0].x) / len, dy = (t[1].y - t[0].y) / len; eq(l.get_reference_point(), p[0]); eq(gx::line_access_traits<Ln>::get_reference_point(k), p[0]); out(l.get_parallel_vector()[0], dx); out(l.get_parallel_vector()[1], dy); out(l.get_normal_vector()[0], -dy); out(k.get_normal_vector()[1], dx); out(l.get_distance_to_origin(), -dy * t[0].x + dx * t[0].y); break; }
            default: { what = "side of a line"; gx::line<P> l(p[0], p[1]); auto cr = [&](XY q) { return (t[1].x - t[0].x) * (q.y - t[0].y) - (t[1].y - t[0].y) * (q.x - t[0].x); }; auto w = [&](bool f, bool b) { return f && b ? gx::plane_orientation::straddling_plane : f ? gx::plane_orientation::in_front_of_plane : b ? gx::plane_orientation::in_back_of_plane : gx::plane_orientation::coplanar_with_plane; };
                o[0] = gx::classify_point_to_plane(p[2], l, cmp); wo[0] = w(cr(t[2]) > 0, cr(t[2]) < 0); if(j.b & 2) { G g{p[3], p[0], p[2]}; for(int i = 0; i < 3; ++i) eq(gx::get_vertex(g, i), p[i == 0 ? 3 : i == 1 ? 0 : 2]); o[1] = gx::classify_simplex_to_plane(g, l, cmp); } else o[1] = gx::classify_simplex_to_plane(side ? S(p[2], p[3]) : S(p[3], p[2]), l, cmp); wo[1] = w(cr(t[2]) > 0 || cr(t[3]) > 0, cr(t[2]) < 0 || cr(t[3]) < 0); if(o[0] != wo[0] || o[1] != wo[1]) bad = true; } } },
            [&] { GSIM_CHECK(!bad, "wrong-figure", "%s of (%ld, %ld), (%ld, %ld), (%ld, %ld), (%ld, %ld) is not what it was made of", what, t[0].x, t[0].y, t[1].x, t[1].y, t[2].x, t[2].y, t[3].x, t[3].y); for(int i = 0; i < n; ++i) { GSIM_CHECK(std::fabs(got[i] - want[i]) <= 1e-12 * (1 + std::fabs(want[i])), "wrong-figure", "%s of (%ld, %ld), (%ld, %ld): number %d is %.17g, expected %.17g", what, t[0].x, t[0].y, t[1].x, t[1].y, i, got[i], want[i]); mixd(got[i]); } nontrivial(); probe(j.a % 7 == 6 ? o[1] == gx::plane_orientation::straddling_plane ? "straddling" : "sided" : "figures"); });
    }
    // Matrices applied to points and directions given one more coordinate.
    void homogeneous(const Asked& j) {
        long a[9], b[9]; A3 f = three(ENV); for(long& x : a) x = lattice(ENV, 5); for(long& x : b) x = lattice(ENV, 5); double got[6] = {}, want[6] = {}; int n = 0, way = (int)(j.a % 4); a[6] = a[7] = b[6] = b[7] = 0; a[8] = b[8] = 1;
        ak->ask("homogeneous coordinates", j, [&] { n = 0; gx::matrix<double, 3, 3> m{(double)a[0], (double)a[1], (double)a[2], (double)a[3], (double)a[4], (double)a[5], (double)a[6], (double)a[7], (double)a[8]}, k{(double)b[0], (double)b[1], (double)b[2], (double)b[3], (double)b[4], (double)b[5], (double)b[6], (double)b[7], (double)b[8]}; P p((double)f.x[0], (double)f.x[1]); V v((double)f.x[0], (double)f.x[1]); auto out = [&](double g, double w) { got[n] = g; want[n] = w; ++n; }; long x = f.x[0], y = f.x[1]; 
            auto in = [](const long* m, long x, long y, long w, int r) { return (double)(m[3 * r] * x + m[3 * r + 1] * y + m[3 * r + 2] * w); };
            if(way == 0) { auto h = gx::as_positional_homogeneous<double>(p); out(gx::get<0>(h), x); out(gx::get<1>(h), y); out(gx::get<2>(h), 1); P q = m * h; out(q[0], in(a, x, y, 1, 0)); out(q[1], in(a, x, y, 1, 1)); }
            else if(way == 1) { auto h = gx::as_vectoral_homogeneous<double>(v); out(gx::get<2>(h), 0); auto e = m * h; out(gx::get<0>(e), in(a, x, y, 0, 0)); out(gx::get<1>(e), in(a, x, y, 0, 1)); }
            else if(way == 2) { auto h = gx::as_positional_homogeneous<double>(p); P q = (m * k) * h; double u = in(b, x, y, 1, 0), w = in(b, x, y, 1, 1); out(q[0], in(a, (long)u, (long)w, 1, 0)); out(q[1], in(a, (long)u, (long)w, 1, 1)); }
            else { auto h = gx::as_positional_homogeneous<double>(p); P q = m * h; auto g = gx::as_positional_homogeneous<double>(q); P r = k * g; out(r[0], in(b, (long)q[0], (long)q[1], 1, 0)); out(r[1], in(b, (long)q[0], (long)q[1], 1, 1)); } },
            [&] { for(int i = 0; i < n; ++i) GSIM_CHECK(got[i] == want[i], "wrong-transform", "number %d of form %d is %.17g, expected %.17g", i, way, got[i], want[i]); nontrivial(); probe("homogeneous"); });
    }
    void run() {
        Asking a; a.sw = sw = draw_swarm(4); ak = &a; std::int64_t base = live_blocks(); ml = points(GEN, 0, 6); mg = points(GEN, 0, 6); mho = points(GEN, 0, 5); mw = points(GEN, 0, 5); mhh.resize(choose(GEN, 4)); for(M& m : mhh) m = points(GEN, 0, 4); mp = three(GEN);
        sl = setup([&] { L* x = new L; fill(*x, ml); return x; }); sg = setup([&] { G* x = new G; fill(*x, mg); return x; }); sh = setup([&] { H* x = new H; fill(x->get_outer(), mho); for(const M& m : mhh) { G g; fill(g, m); x->add_hole(g); } return x; }); swv = setup([&] { W* x = new W; fill(*x, mw); return x; }); slist = setup([&] { std::list<P>* x = new std::list<P>; fill(*x, mw); return x; }); spd = setup([&] { return new PD(mp.x[0], mp.x[1], mp.x[2]); }); sph = setup([&] { return new PH(mp.x[0], mp.x[1], mp.x[2]); });
        std::vector<std::vector<Asked>> js(sw.tasks); std::vector<Mine> my(sw.tasks); std::vector<Model> mo(sw.tasks);
        for(int t = 0; t < sw.tasks; ++t) { Mine& x = my[t]; Model& m = mo[t]; x = setup([&] { Mine y; for(int i = 0; i < 2; ++i) { y.l[i] = new L; y.g[i] = new G; y.h[i] = new H; } y.w = new W; y.q = new std::deque<P>; y.pd = new PD(0, 0, 0); y.pi = new PI(0, 0, 0); y.pf = new PF(0, 0, 0); y.pm = new PM; y.ph = new PH; y.pt = new PT; y.vd = new VD(0, 0, 0); y.vh = new VH; return y; }); for(A3& p : m.p) p = A3{{0, 0, 0}}; for(A3& p : m.v) p = A3{{0, 0, 0}};
            int n = 2 + (int)size_upto(OP, 14, 100); for(int i = 0; i < n; ++i) { Span sp(OP); Asked j; j.what = (int)choose(OP, 9); j.a = choose(OP, 1024); j.b = choose(OP, 1024); j.c = choose(OP, 1024); j.d = choose(OP, 1024); j.plan = draw_alloc_plan(sw.alloc_faults, 1, 3, 5); js[t].push_back(j); } }
        std::vector<std::function<void()>> bodies;
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { Mine& x = my[t]; Model& m = mo[t];
            for(const Asked& j : js[t]) { switch(j.what) { case 0: sequence<L>(j, "polyline", x.l, m.l, *sl, ml, x, m); break; case 1: sequence<G>(j, "polygon", x.g, m.g, *sg, mg, x, m); break; case 2: case 3: holed(j, x, m); break; case 4: plain(j, x, m); break; case 5: case 6: switch(j.a % 6) { case 0: carry_to(j, x.pd, KD, x, m); break; case 1: carry_to(j, x.pi, KI, x, m); break; case 2: carry_to(j, x.pf, KF, x, m); break; case 3: carry_to(j, x.pm, KM, x, m); break; case 4: carry_to(j, x.ph, KH, x, m); break; default: carry_to(j, x.pt, KT, x, m); } break; case 7: fixed(j); break; default: homogeneous(j); }
                all_as_expected(x, m); } });
        parallel(bodies);
        { InMode s(SUT); for(Mine& x : my) { for(int i = 0; i < 2; ++i) { delete x.l[i]; delete x.g[i]; delete x.h[i]; } delete x.w; delete x.q; delete x.pd; delete x.pi; delete x.pf; delete x.pm; delete x.ph; delete x.pt; delete x.vd; delete x.vh; } delete sl; delete sg; delete sh; delete swv; delete slist; delete spd; delete sph; }
        GSIM_CHECK(live_blocks() == base, "leak", "%lld block(s) left when every figure was gone", (long long)(live_blocks() - base));
    }
};
} // namespace
void gsim_run() { Sim s; s.run(); }

// Points and vectors carried between Cartesian and polar frames, by every way of
// asking for it, beside a model that keeps their place.
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/utility/array.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/space/cartesian_reference_frame.hpp>
#include <geometrix/space/polar_reference_frame.hpp>
#include <geometrix/space/cartesian_polar_transformation.hpp>
#include <geometrix/space/polar_cartesian_transformation.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include "common.hpp"
const char* const gsim_property = "C36";
using namespace hx;
namespace gx = geometrix;
using gx::get;

namespace {
typedef long double Q;
template <int D, class S> struct Sim {
    typedef gx::cartesian_reference_frame<D> CF; typedef gx::polar_reference_frame<D> PF; typedef gx::reference_frame_adaptor<S, CF> C; typedef gx::reference_frame_adaptor<S, PF> P;
    struct At { Q x[D]; };
    static void put(S& s, int i, double v) { s[i] = v; }
    static At of(const C& c) { At a; a.x[0] = get<0>(c); a.x[1] = get<1>(c); if(D == 3) a.x[D - 1] = get<D - 1>(c); return a; }
    static At of(const P& c) { At a; a.x[0] = get<0>(c); a.x[1] = get<1>(c); if(D == 3) a.x[D - 1] = get<D - 1>(c); return a; }
    static At to_cartesian(At p) { At a; if(D == 2) { a.x[0] = p.x[0] * std::cos(p.x[1]); a.x[1] = p.x[0] * std::sin(p.x[1]); } else { Q h = p.x[0] * std::sin(p.x[D - 1]); a.x[0] = h * std::cos(p.x[1]); a.x[1] = h * std::sin(p.x[1]); a.x[D - 1] = p.x[0] * std::cos(p.x[D - 1]); } return a; }
    static At to_polar(At c) { At a; Q h = std::hypot(c.x[0], c.x[1]); a.x[1] = std::atan2(c.x[1], c.x[0]); a.x[0] = h; if(D == 3) { a.x[0] = std::hypot(h, c.x[D - 1]); a.x[D - 1] = std::atan2(h, c.x[D - 1]); } return a; }
    static Q norm(At c) { Q s = 0; for(Q v : c.x) s += v * v; return std::sqrt(s); }
    void near(const char* what, At want, At got) { Q r = norm(want); for(int i = 0; i < D; ++i) { mixd((double)got.x[i]); GSIM_CHECK(std::fabs(want.x[i] - got.x[i]) <= 1e-12L * (1 + r), "moved", "%s: coordinate %d is %.17Lg, expected %.17Lg", what, i, got.x[i], want.x[i]); } nontrivial(); }
    // polar coordinates of a place: exact in radius, in range, and (off the axis) the angles
    void polar_near(const char* what, At place, At got) {
        At w = to_polar(place); Q r = w.x[0], pi = std::acos((Q)-1); GSIM_CHECK(std::fabs(got.x[0] - r) <= 1e-12L * (1 + r), "wrong-radius", "%s: radius %.17Lg, expected %.17Lg", what, got.x[0], r);
        GSIM_CHECK(std::fabs(got.x[1]) <= pi + 1e-12L && (D == 2 || (got.x[D - 1] >= 0 && got.x[D - 1] <= pi + 1e-12L)), "angle-range", "%s: angles %.17Lg, %.17Lg", what, got.x[1], got.x[D - 1]);
        if(r > 1e-3L) near(what, place, to_cartesian(got)); nontrivial();
    }
    C cartesian(Channel gen) { S s; for(int i = 0; i < D; ++i) put(s, i, lattice(gen, 20)); double f = std::ldexp(1., (int)choose(gen, 9) - 4); for(int i = 0; i < D; ++i) put(s, i, s[i] * f); if(chance(gen, 1, 5)) for(int i = 0; i < D; ++i) if(i != (int)(f * 16) % D) put(s, i, 0); return C(s); }
    P polar(Channel gen) { S s; double pi = std::acos(-1.); put(s, 0, lattice(gen, 30)); put(s, 1, lattice(gen, 24) * pi / (chance(gen, 1, 4) ? 8 : 24)); if(D == 3) put(s, D - 1, choose(gen, 25) * pi / 24); return P(s); }
    struct Step { int what; FaultPlan plan; };
    void program(const C* sc, const P* sp, int n) {
        C* c = setup([&] { return new C(*sc); }); P* p = setup([&] { return new P(*sp); }); At ac = of(*sc), ap = to_cartesian(of(*sp));   // where they are
        for(int k = 0; k < n; ++k) {
            Span span(OP); int w = (int)choose(OP, 12); bool fromshared = chance(OP, 1, 4); const C& cs = fromshared ? *sc : *c; const P& ps = fromshared ? *sp : *p; At wc = fromshared ? of(*sc) : ac, wp = fromshared ? to_cartesian(of(*sp)) : ap;
            static const char* const N[] = {"polar from Cartesian", "Cartesian from polar", "assign polar = Cartesian", "assign Cartesian = polar", "transform to polar", "transform to Cartesian", "one Cartesian coordinate", "there and back", "back and there", "copy", "distance", "same frame"};
            At g, h; double s = 0; int i = (int)choose(OP, D); bool other = false; (void)other;
            attempt(N[w], [&] {
                switch(w) {
                case 0: { P q(cs); *p = q; break; } case 1: { C q(ps); *c = q; break; } case 2: *p = cs; break; case 3: *c = ps; break;
                case 4: { auto r = gx::reference_frame_transformation<CF, PF>::template transform<S>(cs); *p = r; break; }
                case 5: { auto r = gx::reference_frame_transformation<PF, CF>::template transform<S>(ps); *c = r; break; }
                case 6: { typedef gx::reference_frame_transformation<PF, CF> T; s = i == 0 ? T::template transform_coordinate<0>(ps) : i == 1 ? T::template transform_coordinate<1>(ps) : T::template transform_coordinate<D - 1>(ps); break; }
                case 7: { P q(cs); C b(q); *c = b; break; } case 8: { C q(ps); P b(q); *p = b; break; }
                case 9: { C b(cs); P q(ps); *c = b; *p = q; break; }
                case 10: { C b(ps); s = distance(cs, b); break; }
                default: { typedef gx::reference_frame_transformation<CF, PF> T; s = i == 0 ? T::template transform_coordinate<0>(cs) : i == 1 ? T::template transform_coordinate<1>(cs) : T::template transform_coordinate<D - 1>(cs); }
                }
            }, FaultPlan(), false, 200000);
            g = of(*c); h = of(*p); log("%s%s", N[w], fromshared ? " (shared)" : "");
            switch(w) {
            case 0: case 2: case 4: polar_near(N[w], wc, h); ap = to_cartesian(h); break;
            case 1: case 3: case 5: near(N[w], wp, g); ac = g; break;
            case 6: GSIM_CHECK(std::fabs((Q)s - wp.x[i]) <= 1e-12L * (1 + norm(wp)), "moved", "Cartesian coordinate %d is %.17g, expected %.17Lg", i, s, wp.x[i]); break;
            case 7: near(N[w], wc, g); ac = g; break; case 8: polar_near(N[w], wp, h); ap = to_cartesian(h); break;
            case 9: ac = wc; ap = wp; near(N[w], ac, g); near(N[w], ap, to_cartesian(h)); break;
            case 10: { At d; for(int e = 0; e < D; ++e) d.x[e] = wc.x[e] - wp.x[e]; GSIM_CHECK(std::fabs((Q)s - norm(d)) <= 1e-11L * (1 + norm(wc) + norm(wp)), "wrong-distance", "distance %.17g, expected %.17Lg", s, norm(d)); break; }
            default: { At e = to_polar(wc), t = e; t.x[i] = s; polar_near(N[w], wc, t); }
            }
            near("the Cartesian one", ac, of(*c)); near("the polar one", ap, to_cartesian(of(*p)));
            if(w < 6) probe(D == 2 ? "plane" : "space"); if(w == 7 || w == 8) probe("there-and-back"); if(norm(wc) == 0) probe("origin"); if(wc.x[0] < 0 && wc.x[1] == 0) probe("branch-cut"); yield();
        }
        destroy(c); destroy(p);
    }
    double distance(const C& a, const C& b) { gx::vector<double, D> d; d <<= as(b) - as(a); return gx::magnitude(d); }
    static gx::point<double, D> as(const C& c) { return gx::point<double, D>(gx::construct<gx::point<double, D>>(c)); }
    void run() {
        Swarm sw = draw_swarm(4); C* sc = setup([&] { return new C(cartesian(GEN)); }); P* sp = setup([&] { return new P(polar(GEN)); }); std::vector<std::function<void()>> bodies;
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&] { program(sc, sp, 2 + (int)choose(OP, 9)); });
        parallel(bodies); destroy(sc); destroy(sp);
    }
};
} // namespace
void gsim_run() {
    switch(choose(GEN, 4)) { case 0: { Sim<2, gx::point_double_2d> s; s.run(); break; } case 1: { Sim<3, gx::point_double_3d> s; s.run(); break; } case 2: { Sim<2, gx::vector_double_2d> s; s.run(); break; } default: { Sim<3, gx::vector_double_3d> s; s.run(); } }
}

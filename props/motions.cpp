// Figures turned about points and shifted, alone and in chains, by several tasks
// at once, beside a model that turns them by the angle itself.
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algorithm/rotation.hpp>
#include "common.hpp"
const char* const gsim_property = "C39";
using namespace hx;
namespace gx = geometrix;
using gx::get;

namespace {
typedef long double Q;
struct At { Q x, y; };
// a turn, by the two directions it takes one into the other; they are unit vectors as near as doubles are
struct Turn { double ax, ay, bx, by; Q c, s; };
void direction(double& x, double& y, Q& ex, Q& ey) {
    static const int T[][3] = {{1, 0, 1}, {3, 4, 5}, {5, 12, 13}, {8, 15, 17}, {7, 24, 25}, {20, 21, 29}, {0, 1, 1}, {44, 117, 125}};
    if(chance(OP, 1, 4)) { Q a = (Q)choose(OP, 4096) * std::acos((Q)-1) / 2048; ex = std::cos(a); ey = std::sin(a); }
    else { const int* t = T[choose(OP, 8)]; ex = (Q)t[0] / t[2]; ey = (Q)t[1] / t[2]; if(chance(OP, 1, 2)) std::swap(ex, ey); if(chance(OP, 1, 2)) ex = -ex; if(chance(OP, 1, 2)) ey = -ey; }
    x = (double)ex; y = (double)ey;
}
Turn draw_turn() { Turn t; Q a, b, c, d; direction(t.ax, t.ay, a, b); direction(t.bx, t.by, c, d); t.c = a * c + b * d; t.s = a * d - b * c; return t; }
At turned(At p, const Turn& t, At o) { Q x = p.x - o.x, y = p.y - o.y; return {o.x + t.c * x - t.s * y, o.y + t.s * x + t.c * y}; }
Q norm(At a) { return std::hypot(a.x, a.y); }

template <class P, class V, class Ring, class Line> struct Sim {
    typedef std::vector<P> Set;
    typedef std::vector<At> Model;
    struct Shared { Ring ring; Line line; Set set; };
    static At of(const P& p) { return {get<0>(p), get<1>(p)}; }
    template <class F> static Model model(const F& f) { Model m; for(const P& p : f) m.push_back(of(p)); return m; }
    static void same(const char* what, const Model& want, const Model& got, Q reach) {
        GSIM_CHECK(want.size() == got.size(), "wrong-size", "%s has %zu points, expected %zu", what, got.size(), want.size());
        for(std::size_t i = 0; i < want.size(); ++i) { mixd((double)got[i].x); mixd((double)got[i].y); GSIM_CHECK(std::fabs(want[i].x - got[i].x) <= 1e-13L * reach && std::fabs(want[i].y - got[i].y) <= 1e-13L * reach, "moved-elsewhere", "%s: point %zu is at (%.17Lg,%.17Lg), expected (%.17Lg,%.17Lg)", what, i, got[i].x, got[i].y, want[i].x, want[i].y); }
    }
    // lengths and sense of turning outlive every motion
    static void rigid(const char* what, const Model& a, const Model& b, Q reach) {
        Q sa = 0, sb = 0;
        for(std::size_t i = 0, n = a.size(); i < n; ++i) for(std::size_t j = 0; j < n; ++j) { if(j == (i + 1) % n) { sa += a[i].x * a[j].y - a[i].y * a[j].x; sb += b[i].x * b[j].y - b[i].y * b[j].x; } At p = {a[i].x - a[j].x, a[i].y - a[j].y}, q = {b[i].x - b[j].x, b[i].y - b[j].y}; GSIM_CHECK(std::fabs(norm(p) - norm(q)) <= 4e-13L * reach, "not-rigid", "%s: points %zu and %zu were %.17Lg apart, are %.17Lg", what, i, j, norm(p), norm(q)); }
        GSIM_CHECK(std::fabs(sa - sb) <= 1e-12L * reach * reach * a.size(), "not-rigid", "%s: the enclosed area was %.17Lg, is %.17Lg", what, sa / 2, sb / 2);
    }
    // Task-owned figures, replaced by what the library returns; a failed call leaves the old ones.
    template <class F> struct Mine { F* f; Model first, now; Q reach; };
    template <class F> static Mine<F> own(const F& src) { Mine<F> m; m.f = setup([&] { return new F(src); }); m.first = m.now = model(src); m.reach = 1; for(At a : m.now) m.reach = std::max(m.reach, norm(a)); return m; }
    struct Step { int what, kind; Turn t; At o, by; bool back, shared; FaultPlan plan; };
    template <class F> void figure(const char* name, Mine<F>& m, const F& shared, const Step& s) {
        static const char* const N[] = {"rotate_points", "rotate_translate_points by a matrix", "rotate_translate_points by two directions"};
        int w = s.what; const F& src = s.shared ? shared : *m.f; Model was = s.shared ? model(shared) : m.now; F* out = nullptr; const Model before = model(src);
        P o(s.o.x, s.o.y); V a(s.t.ax, s.t.ay), b(s.t.bx, s.t.by), by(s.by.x, s.by.y);
        Outcome r = attempt(N[w], [&] { F got = w == 0 ? gx::rotate_points(src, a, b, o) : w == 1 ? gx::rotate_translate_points(src, gx::make_rotation_matrix(a, b), by, o) : gx::rotate_translate_points(src, a, b, by, o); out = new F(std::move(got)); }, s.plan, false, 2000000);
        log("%s of a %s%s", N[w], name, r == DONE ? "" : ": out of memory");
        same("the source", before, model(src), 0);
        if(r != DONE) { probe("out-of-memory"); return; }
        Model want; Q reach = m.reach; for(At p : was) { At q = turned(p, s.t, s.o); if(w) { q.x += s.by.x; q.y += s.by.y; } want.push_back(q); }
        Model got = model(*out); reach += 2 * norm(s.o) + norm(s.by); for(At p : want) reach = std::max(reach, norm(p));
        same(N[w], want, got, 8 * reach); rigid(N[w], was, got, 8 * reach); nontrivial(); probe(name);
        if(s.back && w == 0) {          // there and back
            F* home = nullptr; Outcome h = attempt("rotate_points back", [&] { home = new F(gx::rotate_points(*out, b, a, o)); }, FaultPlan(), false, 2000000); (void)h;
            same("there and back", was, model(*home), 16 * reach); destroy(home); probe("there-and-back");
        }
        if(s.shared) { destroy(out); return; }
        destroy(m.f); m.f = out; m.now = model(*m.f); m.reach = reach; rigid("after the chain", m.first, m.now, 64 * reach); probe("chain");
    }
    void single(const Step& s, const P& p0, Q reach) {
        P p(p0), o(s.o.x, s.o.y), got(0, 0); V a(s.t.ax, s.t.ay), b(s.t.bx, s.t.by), v(s.by.x, s.by.y), gv(0, 0); double m[4]; int w = s.what - 3;
        static const char* const N[] = {"rotate_point by a matrix", "rotate_point by two directions", "rotate_vector by a matrix", "rotate_vector by two directions", "make_rotation_matrix"};
        attempt(N[w], [&] {
            switch(w) {
            case 0: got = gx::rotate_point(p, gx::make_rotation_matrix(a, b), o); break; case 1: got = gx::rotate_point(p, a, b, o); break;
            case 2: gv = gx::rotate_vector(v, gx::make_rotation_matrix(a, b)); break; case 3: gv = gx::rotate_vector(v, a, b); break;
            default: { auto r = gx::make_rotation_matrix(a, b); m[0] = get<0, 0>(r); m[1] = get<0, 1>(r); m[2] = get<1, 0>(r); m[3] = get<1, 1>(r); gv = gx::rotate_vector(a, r); }
            }
        }, FaultPlan(), false, 200000);
        log("%s", N[w]); reach += 2 * norm(s.o);
        if(w < 2) { same(N[w], Model{turned(of(p), s.t, s.o)}, Model{of(got)}, 8 * reach); GSIM_CHECK(of(p).x == of(p0).x && of(p).y == of(p0).y, "moved-elsewhere", "%s changed its argument", N[w]); }
        else if(w < 4) { At z = {0, 0}; Model got1{{get<0>(gv), get<1>(gv)}}; same(N[w], Model{turned(s.by, s.t, z)}, got1, 8 * (1 + norm(s.by))); }
        else { const Q e[4] = {s.t.c, -s.t.s, s.t.s, s.t.c}; for(int i = 0; i < 4; ++i) GSIM_CHECK(std::fabs(m[i] - e[i]) <= 1e-14L, "wrong-matrix", "entry (%d,%d) is %.17g, expected %.17Lg", i / 2, i % 2, m[i], e[i]); same("one direction turned into the other", Model{{s.t.bx, s.t.by}}, Model{{get<0>(gv), get<1>(gv)}}, 8); }
        nontrivial(); probe(w < 2 ? "point" : w < 4 ? "vector" : "matrix");
    }
    static Step draw() {
        Span sp(OP); Step s; s.what = (int)choose(OP, 8); s.t = draw_turn(); double f = std::ldexp(1., (int)choose(OP, 9) - 4);
        s.o = {(Q)(lattice(OP, 40) * f), (Q)(lattice(OP, 40) * f)}; s.by = {(Q)(lattice(OP, 40) * f), (Q)(lattice(OP, 40) * f)}; if(chance(OP, 1, 4)) s.o = {0, 0};
        s.back = chance(OP, 1, 3); s.shared = chance(OP, 1, 4); s.kind = (int)choose(OP, 3); s.plan = draw_alloc_plan(true, 1, 3, 7); return s;
    }
    void program(const Shared* sh, const std::vector<Step>& js) {
        Mine<Ring> r = own(sh->ring); Mine<Line> l = own(sh->line); Mine<Set> t = own(sh->set);
        for(const Step& s : js) {
            if(s.what > 2) { int k = (int)(s.t.c > 0); single(s, k ? *r.f->begin() : *l.f->begin(), k ? r.reach : l.reach); }
            else switch(s.kind) { case 0: figure("polygon", r, sh->ring, s); break; case 1: figure("polyline", l, sh->line, s); break; default: figure("point-set", t, sh->set, s); }
            yield();
        }
        destroy(r.f); destroy(l.f); destroy(t.f);
    }
    void run() {
        Swarm sw = draw_swarm(4); std::vector<At> pts; int n = (int)size_upto(GEN, 9, 60); double f = std::ldexp(1., (int)choose(GEN, 9) - 4);
        for(int i = 0; i < n; ++i) { Span sp(GEN); pts.push_back({(Q)(lattice(GEN, 40) * f), (Q)(lattice(GEN, 40) * f)}); }
        Shared* sh = setup([&] { Shared* s = new Shared; for(At a : pts) { P p(a.x, a.y); s->ring.push_back(p); s->line.push_back(p); s->set.push_back(p); } return s; });
        const Model before = model(sh->ring);
        std::vector<std::vector<Step>> js(sw.tasks); for(auto& v : js) for(int m = 2 + (int)choose(OP, chance(OP, 1, 24) ? 40 : 8); m-- > 0;) v.push_back(draw());
        std::vector<std::function<void()>> bodies; for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { program(sh, js[t]); });
        parallel(bodies); same("the shared polygon", before, model(sh->ring), 0); same("the shared polyline", before, model(sh->line), 0); same("the shared point set", before, model(sh->set), 0);
        destroy(sh);
    }
};
typedef gx::point_double_2d P1; typedef gx::vector_double_2d V1;
typedef gx::point<double, 2> P2; typedef gx::vector<double, 2> V2;
} // namespace
void gsim_run() {
    if(chance(GEN, 1, 2)) { Sim<P1, V1, gx::polygon<P1>, gx::polyline<P1>> s; s.run(); } else { Sim<P2, V2, gx::polygon<P2>, gx::polyline<P2>> s; s.run(); }
}

// Tolerance comparisons against exact integers and their laws, dimensioned
// geometry beside plain geometry, and strongly typed numbers.
#include "kernels.hpp"
#include <geometrix/utility/tagged_quantity.hpp>
#include <cstring>
#include "common.hpp"
#include "asking.hpp"
const char* const gsim_property = "C37";
using namespace hx;

namespace {
struct Res { double x[400]; int n = 0; };
inline void put(Res& o, double v) { if(o.n < 400) o.x[o.n++] = v; }
template <class U> void put(Res& o, const boost::units::quantity<U, double>& v) { put(o, v.value()); }
template <class S> auto put(Res& o, const S& s) -> decltype((void)s[0]) { put(o, s[0]); put(o, s[1]); }
template <class E, typename std::enable_if<std::is_enum<E>::value, int>::type = 0> void put(Res& o, E e) { put(o, (double)(int)e); }
template <class A, class B, class... R> void put(Res& o, const A& a, const B& b, const R&... r) { put(o, a); put(o, b); int x[] = {0, (put(o, r), 0)...}; (void)x; }

// What a query is given, in either kernel.
struct Given { double p[6][2], v[3][2], d[3][2], w[2][2], r, h; };
template <class K> struct In {
    typename K::P p[6], lo, hi, lo2, hi2; typename K::V v[3]; typename K::D d[3]; typename K::Vel w[2]; typename K::L r; typename K::T h;
    template <class T, class Q> static T two(const double* a) { return T(mk<Q>::of(a[0]), mk<Q>::of(a[1])); }
    In(const Given& g) {
        typedef typename K::L L; for(int i = 0; i < 6; ++i) p[i] = two<typename K::P, L>(g.p[i]); for(int i = 0; i < 3; ++i) { v[i] = two<typename K::V, L>(g.v[i]); d[i] = two<typename K::D, typename K::N>(g.d[i]); } for(int i = 0; i < 2; ++i) w[i] = two<typename K::Vel, typename K::W>(g.w[i]);
        double a[2], b[2]; for(int c = 0; c < 2; ++c) { a[c] = std::min(g.p[0][c], g.p[1][c]); b[c] = std::max(g.p[0][c], g.p[1][c]) + (g.p[0][c] == g.p[1][c] ? g.r : 0); } lo = two<typename K::P, L>(a); hi = two<typename K::P, L>(b);
        for(int c = 0; c < 2; ++c) { a[c] = std::min(g.p[2][c], g.p[3][c]); b[c] = std::max(g.p[2][c], g.p[3][c]) + (g.p[2][c] == g.p[3][c] ? g.r : 0); } lo2 = two<typename K::P, L>(a); hi2 = two<typename K::P, L>(b);
        r = mk<L>::of(g.r); h = mk<typename K::T>::of(g.h); }
};
#define Q_(name, ...) struct q_##name { template <class K> static void ask(const In<K>& in, Res& o) { \
    using namespace geometrix; typedef typename K::P P; typedef typename K::V V; typedef typename K::D D; typedef typename K::L L; typedef typename K::A A; typedef typename K::N N; typedef typename K::T T; typedef typename K::Vel Vel; typedef typename K::C C; \
    typedef segment<P> S; typedef polygon<P> G; typedef polyline<P> Y; typedef axis_aligned_bounding_box<P> B; typedef oriented_bounding_box<P, D> O; typedef geometrix::line<P> Ln; (void)sizeof(A); (void)sizeof(G); (void)sizeof(Y); (void)sizeof(O); (void)sizeof(B); (void)sizeof(C); (void)sizeof(V); (void)sizeof(Vel); (void)sizeof(T); \
    mapped_tolerance_comparison_policy<absolute_tolerance_comparison_policy<double>> cmp(1e-10); const auto& p = in.p; const auto& v = in.v; const auto& d = in.d; const auto& w = in.w; const auto& lo = in.lo; const auto& hi = in.hi; const auto& lo2 = in.lo2; const auto& hi2 = in.hi2; const L r = in.r; const T h = in.h; \
    S s1(p[0], p[1]), s2(p[2], p[3]); P c1 = p[0], c2 = p[0]; N s{}, t{}; std::size_t i = 0, k = 0; (void)v; (void)d; (void)w; (void)lo; (void)hi; (void)lo2; (void)hi2; (void)h; (void)s; (void)t; (void)i; (void)k; __VA_ARGS__ } };
#define T_ Q_
#include "queries.inc"
#undef Q_
#undef T_
struct Query { const char* name; bool triangles; void (*plain)(const In<Plain>&, Res&); void (*units)(const In<Units>&, Res&); };
const Query QUERIES[] = {
#define Q_(name, ...) {#name, false, &q_##name::ask<Plain>, &q_##name::ask<Units>},
#define T_(name, ...) {#name, true, &q_##name::ask<Plain>, &q_##name::ask<Units>},
#include "queries.inc"
};
const int NQ = sizeof QUERIES / sizeof *QUERIES;

namespace gx = geometrix;
GEOMETRIX_STRONG_TYPEDEF(double, Mass);
GEOMETRIX_STRONG_TYPEDEF(double, Count);
typedef gx::absolute_tolerance_comparison_policy<double> Abs; typedef gx::fraction_tolerance_comparison_policy<double> Frac; typedef gx::relative_tolerance_comparison_policy<double> Rel; typedef gx::direct_comparison_policy Direct;
typedef gx::mapped_tolerance_comparison_policy<Abs, boost::fusion::pair<Units::L, Rel>, boost::fusion::pair<Units::T, Frac>> Map;
struct Policies { Abs a; Frac f, g; Rel r; Direct d; Map m; };
enum Kind { ABS, FRAC, FRAC2, REL, DIRECT, KINDS };
const char* const KIND[] = {"absolute", "fraction", "fraction and absolute", "relative", "direct"};
const char* const OP_[] = {"=", "<", "<=", ">", ">="};

struct Sim {
    Asking* at = nullptr; Swarm sw; Policies* pol = nullptr; long tol = 0, tol2 = 0; // in 64ths
    long pts[12][2]; int np = 0;

    // -1 less, 0 equal, 1 greater; everything is in 64ths.
    int exact(Kind k, long u, long v) const {
        long d = u < v ? v - u : u - v, au = std::labs(u), av = std::labs(v); bool eq = false;
        switch(k) {
        case ABS: eq = d <= tol; break;
        case FRAC: case FRAC2: eq = u == 0 ? av <= (k == FRAC ? tol : tol2) : v == 0 ? au <= (k == FRAC ? tol : tol2) : d * 64 <= tol * au && d * 64 <= tol * av; break;
        case REL: eq = d * 64 <= tol * (au + av + 64); break;
        default: eq = d == 0; }
        return eq ? 0 : u < v ? -1 : 1;
    }
    template <class P, class A, class B> static unsigned ask_policy(const P& p, const A& u, const B& v) { return (p.equals(u, v) ? 1 : 0) | (p.less_than(u, v) ? 2 : 0) | (p.less_than_or_equal(u, v) ? 4 : 0) | (p.greater_than(u, v) ? 8 : 0) | (p.greater_than_or_equal(u, v) ? 16 : 0); }
    template <class P, class A> static unsigned ask_functors(const P& p, const A& u, const A& v) { return (gx::equals<P>(p)(u, v) ? 1 : 0) | (gx::less_than<P>(p)(u, v) ? 2 : 0) | (gx::less_than_or_equal<P>(p)(u, v) ? 4 : 0) | (gx::greater_than<P>(p)(u, v) ? 8 : 0) | (gx::greater_than_or_equal<P>(p)(u, v) ? 16 : 0); }
    template <class A, class B> unsigned ask(Kind k, const A& u, const B& v) const {
        switch(k) { case ABS: return ask_policy(pol->a, u, v); case FRAC: return ask_policy(pol->f, u, v); case FRAC2: return ask_policy(pol->g, u, v); case REL: return ask_policy(pol->r, u, v); default: return ask_policy(pol->d, u, v); } }
    static unsigned word(int o) { return o == 0 ? 1 | 4 | 16 : o < 0 ? 2 | 4 : 8 | 16; }
    static std::string say(unsigned w) { std::string s; for(int i = 0; i < 5; ++i) if(w >> i & 1) { if(!s.empty()) s += ' '; s += OP_[i]; } return s.empty() ? "nothing" : s; }
    void same(const char* what, double u, double v, unsigned got, unsigned want) const {
        GSIM_CHECK(got == want, "wrong-comparison", "%s of %.17g with %.17g (tolerance %ld/64, %ld/64): %s hold, expected %s", what, u, v, tol, tol2, say(got).c_str(), say(want).c_str()); mix(got); nontrivial(); }

    void exactly(const Asked& j) {
        Kind k = (Kind)(j.a % KINDS); long u = (long)choose(ENV, 401) - 200, v = (long)choose(ENV, 401) - 200; int shape = (int)choose(ENV, 7);
        if(shape == 0) v = u; else if(shape == 1) v = u + tol; else if(shape == 2) v = u + tol + 1; else if(shape == 3) v = 0; else if(shape == 4) { u *= 64; v = u + 64 * (int)choose(ENV, 9); } else if(shape == 5) { u = 0; v = k == FRAC2 ? tol2 : tol; }
        if(choose(ENV, 4) == 0) std::swap(u, v); if(choose(ENV, 4) == 0) { u = -u; v = -v; }
        double x = u / 64., y = v / 64.; unsigned want = word(exact(k, u, v)), got = 0; int form = (int)(j.b % 8); std::string what = KIND[k];
        bool whole = u % 64 == 0 && v % 64 == 0;
        at->ask(what.c_str(), j, [&] {
            switch(form) {
            case 0: case 1: got = ask(k, x, y); break;
            case 2: got = ask(k, (float)x, (float)y); break;
            case 3: got = ask(k, x, (float)y); break;
            case 4: got = whole ? ask(k, (int)x, (int)y) : ask(k, (long double)x, (long double)y); break;
            case 5: got = whole ? ask(k, (int)x, y) : ask(k, x, (long double)y); break;
            case 6: got = k == ABS ? ask_functors(pol->a, x, y) : k == FRAC ? ask_functors(pol->f, x, y) : k == FRAC2 ? ask_functors(pol->g, x, y) : k == REL ? ask_functors(pol->r, x, y) : ask_functors(pol->d, x, y); break;
            default: got = k == ABS ? ask_policy(pol->m, x, y) : k == REL ? ask_policy(pol->m, mk<Units::L>::of(x), mk<Units::L>::of(y)) : k == FRAC ? ask_policy(pol->m, mk<Units::T>::of(x), mk<Units::T>::of(y)) : ask(k, x, y); } },
            [&] { same(KIND[k], x, y, got, want); if(whole && form == 4) probe("integers"); if(form == 6) probe("functors"); if(form == 7) probe("mapped"); if(exact(k, u, v) == 0 && u != v) probe("within-tolerance"); if(shape == 1) probe("at-tolerance"); });
        if(k == ABS || k == FRAC) at->ask("free function", j, [&] { double e = tol / 64.;
            got = k == ABS ? (gx::equals_within_absolute_tolerance(x, y, e) ? 1 : 0) | (gx::less_than_with_absolute_tolerance(x, y, e) ? 2 : 0) | (gx::less_than_or_equal_with_absolute_tolerance(x, y, e) ? 4 : 0) | (gx::greater_than_with_absolute_tolerance(x, y, e) ? 8 : 0) | (gx::greater_than_or_equal_with_absolute_tolerance(x, y, e) ? 16 : 0)
                : (gx::equals_within_fraction_tolerance(x, y, e) ? 1 : 0) | (gx::less_than_with_fraction_tolerance(x, y, e) ? 2 : 0) | (gx::less_than_or_equal_with_fraction_tolerance(x, y, e) ? 4 : 0) | (gx::greater_than_with_fraction_tolerance(x, y, e) ? 8 : 0) | (gx::greater_than_or_equal_with_fraction_tolerance(x, y, e) ? 16 : 0); }, [&] { same("free function", x, y, got, want); });
        if(u != 0 && v != 0 && k == FRAC) { bool weak = false; long d = std::labs(u - v), big = std::max(std::labs(u), std::labs(v)); at->ask("weak comparison", j, [&] { weak = gx::equals_within_tolerance(x, y, tol / 64., gx::floating_point_comparison_type::FPC_WEAK); }, [&] { GSIM_CHECK(weak == (d * 64 <= tol * big), "wrong-comparison", "weak comparison of %g with %g under %ld/64 is %d", x, y, tol, (int)weak); }); }
    }
    static double wide() {
        double x = 0; switch(choose(ENV, 5)) { case 0: x = (double)choose(ENV, 5); break; case 1: x = std::ldexp(1 + choose(ENV, 1000) / 1000., (int)choose(ENV, 2040) - 1020); break; case 2: x = std::ldexp((double)(1 + choose(ENV, 9)), -1074); break; case 3: x = 1 + std::ldexp((double)choose(ENV, 9), -52); break; default: x = choose(ENV, 1 << 20) / 1e5; }
        return choose(ENV, 2) ? -x : x; }
    void laws(const Asked& j) {
        Kind k = (Kind)(j.a % KINDS); double u = wide(), v = choose(ENV, 2) ? wide() : u * (1 + std::ldexp((double)choose(ENV, 64), -(int)choose(ENV, 56))); if(!std::isfinite(v)) v = u; unsigned a = 0, b = 0, c = 0; bool flt = j.b % 4 == 0 && std::isfinite((float)u) && std::isfinite((float)v);
        at->ask(KIND[k], j, [&] { if(flt) { a = ask(k, (float)u, (float)v); b = ask(k, (float)v, (float)u); c = ask(k, (float)u, (float)u); } else { a = ask(k, u, v); b = ask(k, v, u); c = ask(k, u, u); } }, [&] {
            int o = a == word(0) ? 0 : a == word(-1) ? -1 : a == word(1) ? 1 : 9;
            GSIM_CHECK(o != 9, "not-one-of-three", "%s comparison of %a with %a: %s hold", KIND[k], u, v, say(a).c_str());
            GSIM_CHECK(b == word(-o), "not-symmetric", "%s comparison of %a with %a: %s hold, and the other way round %s", KIND[k], u, v, say(a).c_str(), say(b).c_str());
            GSIM_CHECK(c == word(0), "not-reflexive", "%s comparison of %a with itself: %s hold", KIND[k], u, say(c).c_str());
            double x = flt ? (float)u : u, y = flt ? (float)v : v; GSIM_CHECK(o == 0 || (o < 0) == (x < y), "wrong-order", "%s comparison says %a %s %a", KIND[k], x, o < 0 ? "<" : ">", y);
            mix(a); nontrivial(); probe("laws"); });
    }
    void query(const Asked& j) {
        const Query& q = QUERIES[j.a % NQ]; Given g; std::size_t at_ = j.b; static const int D[][2] = {{5, 0}, {3, 4}, {0, 5}, {-3, 4}, {-5, 0}, {-4, -3}, {0, -5}, {4, -3}};
        double unit = std::ldexp(1., (int)(j.d % 5) - 2);
        for(int i = 0; i < 6; ++i) { at_ = (at_ + 1 + choose(ENV, 2)) % np; for(int c = 0; c < 2; ++c) g.p[i][c] = pts[at_][c] * unit; }
        for(int i = 0; i < 6; ++i) for(int e = 0; e < i; ++e) if(g.p[i][0] == g.p[e][0] && g.p[i][1] == g.p[e][1]) { g.p[i][0] += unit * (8 + i); e = -1; }
        if(q.triangles) for(int b : {0, 3}) { double A = (g.p[b + 1][0] - g.p[b][0]) * (g.p[b + 2][1] - g.p[b][1]) - (g.p[b + 1][1] - g.p[b][1]) * (g.p[b + 2][0] - g.p[b][0]);
            if(A == 0) { double dx = g.p[b + 1][0] - g.p[b][0], dy = g.p[b + 1][1] - g.p[b][1]; g.p[b + 2][0] = g.p[b][0] - dy; g.p[b + 2][1] = g.p[b][1] + dx; A = 1; }
            if(A < 0) std::swap(g.p[b + 1][0], g.p[b + 2][0]), std::swap(g.p[b + 1][1], g.p[b + 2][1]); }
        for(int i = 0; i < 3; ++i) { const int* a = D[choose(ENV, 8)]; g.v[i][0] = a[0] * (1 + (int)choose(ENV, 3)) * unit; g.v[i][1] = (a[1] + (int)choose(ENV, 2)) * unit; if(g.v[i][0] == 0 && g.v[i][1] == 0) g.v[i][0] = unit; const int* b = D[choose(ENV, 8)]; g.d[i][0] = b[0] / 5.; g.d[i][1] = b[1] / 5.; }
        g.d[1][0] = -g.d[0][1]; g.d[1][1] = g.d[0][0];
        for(int i = 0; i < 2; ++i) for(int c = 0; c < 2; ++c) g.w[i][c] = ((int)choose(ENV, 9) - 4) / 2.;
        g.r = (1 + (int)choose(ENV, 8)) * unit / 2; g.h = (1 + (int)choose(ENV, 16)) / 4.;
        Res a, b; bool done = false; log("%s of %g %g, %g %g, %g %g, %g %g, radius %g, time %g, speeds %g %g, %g %g", q.name, g.p[0][0], g.p[0][1], g.p[1][0], g.p[1][1], g.p[2][0], g.p[2][1], g.p[3][0], g.p[3][1], g.r, g.h, g.w[0][0], g.w[0][1], g.w[1][0], g.w[1][1]);
        at->ask(q.name, j, [&] { a.n = b.n = 0; { In<Plain> x(g); q.plain(x, a); } yield(); { In<Units> y(g); q.units(y, b); } done = true; }, [&] {
            GSIM_CHECK(done && a.n == b.n, "different-outcome", "%s gives %d numbers of plain numbers, and %d of dimensioned ones", q.name, a.n, b.n);
            for(int i = 0; i < a.n; ++i) { GSIM_CHECK(a.x[i] == b.x[i] || (std::isnan(a.x[i]) && std::isnan(b.x[i])) || std::fabs(a.x[i] - b.x[i]) <= 1e-11 * (1 + std::fabs(a.x[i])), "different-value", "%s: number %d is %.17g of plain numbers, and %.17g of dimensioned ones", q.name, i, a.x[i], b.x[i]); mixd(a.x[i]); }
            if(a.n) { nontrivial(); probe("dimensioned"); } });
    }
    void tagged(const Asked& j) {
        double a = ((int)choose(ENV, 41) - 20) / 4., b = (1 + (int)choose(ENV, 20)) / 4., k = (1 + (int)choose(ENV, 8)) / 2.; double got[16] = {}, want[16] = {}; int n = 0; unsigned rel = 0;
        at->ask("strongly typed numbers", j, [&] {
            n = 0; Mass x(a), y(b); Count c(k); Mass z = x; auto out = [&](double g, double w) { got[n] = g; want[n] = w; ++n; };
            switch(j.a % 5) {
            case 0: out((x + y).value(), a + b); out((x - y).value(), a - b); out((x * y).value(), a * b); out((x / y).value(), a / b); out((x * c).value(), a * k); out((c / y).value(), k / b); out((x + c).value(), a + k); out((c - x).value(), k - a); break;
            case 1: out((x + k).value(), a + k); out((k - x).value(), k - a); out((x * k).value(), a * k); out((k / y).value(), k / b); out((-x).value(), -a); out((+x).value(), a); out((2 * x).value(), 2 * a); out((x / 2).value(), a / 2); break;
            case 2: z += y; out(z.value(), a + b); z -= x; out(z.value(), b); z *= y; out(z.value(), b * b); z /= y; out(z.value(), b); z += k; out(z.value(), b + k); z -= k; z *= k; out(z.value(), b * k); z /= k; out(z.value(), b); z = k; out(z.value(), k); z.swap(x); out(z.value(), a); out(x.value(), k); break;
            case 3: out(abs(x).value(), std::fabs(a)); out(sqrt(y).value(), std::sqrt(b)); out(floor(x).value(), std::floor(a)); out(ceil(x).value(), std::ceil(a)); out(sin(x).value(), std::sin(a)); out(cos(x).value(), std::cos(a)); out(exp(x).value(), std::exp(a)); out(log(y).value(), std::log(b)); out(log10(y).value(), std::log10(b)); out(atan(x).value(), std::atan(a)); out(tan(x).value(), std::tan(a)); out(asin(sin(x)).value(), std::asin(std::sin(a))); out(acos(cos(x)).value(), std::acos(std::cos(a))); break;
            default: out(pow(y, c).value(), std::pow(b, k)); out(pow(y, k).value(), std::pow(b, k)); out(pow(k, y).value(), std::pow(k, b)); out(atan2(x, y).value(), std::atan2(a, b)); out(atan2(x, k).value(), std::atan2(a, k)); out(atan2(k, x).value(), std::atan2(k, a)); { gx::tagged_quantity<MassTag, float> f((float)a); Mass g(f); out(g.value(), a); z = gx::tagged_quantity<MassTag, float>((float)b); out(z.value(), b); out((f + y).value(), a + b); } out(bool(x), a != 0); break; }
            rel = (x == y ? 1 : 0) | (x < y ? 2 : 0) | (x <= y ? 4 : 0) | (x > y ? 8 : 0) | (x >= y ? 16 : 0) | ((x != y) != (x == y) ? 32 : 0); double now = x.value(); if(now != b) rel |= 128; if((x == b) != (b == x) || (x < b) != (b > x) || (x <= b) != (b >= x)) rel |= 256; },
            [&] { for(int i = 0; i < n; ++i) { GSIM_CHECK(std::fabs(got[i] - want[i]) <= 1e-12 * (1 + std::fabs(want[i])), "wrong-typed-value", "%g, %g and %g: result %d of set %zu is %.17g, expected %.17g", a, b, k, i, j.a % 5, got[i], want[i]); mixd(got[i]); }
                double x = j.a % 5 == 2 ? k : a; unsigned w = word(x < b ? -1 : x > b ? 1 : 0) | 32 | (x != b ? 128 : 0); GSIM_CHECK(rel == w, "wrong-typed-order", "%g with %g: relations %x, expected %x", x, b, rel, w); nontrivial(); probe("typed"); });
    }
    void run() {
        Asking a; a.sw = sw = draw_swarm(4); at = &a; tol = (long)choose(GEN, 40); tol2 = (long)choose(GEN, 40); double e = tol / 64., e2 = tol2 / 64.;
        pol = setup([&] { return new Policies{Abs(e), Frac(e), Frac(e, e2), Rel(e), Direct(), Map(Abs(e), boost::fusion::make_pair<Units::L>(Rel(e)), boost::fusion::make_pair<Units::T>(Frac(e)))}; });
        np = 7 + (int)choose(GEN, 6); int radius = 2 + (int)choose(GEN, 7); for(int i = 0; i < np; ++i) { Span sp(GEN); pts[i][0] = lattice(GEN, radius); pts[i][1] = lattice(GEN, radius); }
        a.all(8, 0xf0, 10, [&](const Asked& j) { switch(j.what) { case 0: exactly(j); break; case 1: exactly(j); break; case 2: laws(j); break; case 3: tagged(j); break; default: query(j); } });
        destroy(pol);
    }
};
} // namespace
void gsim_run() { Sim s; s.run(); }

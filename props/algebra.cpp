// Programs of algebraic expressions over shared and private points, vectors and
// matrices, beside a plain model of linear algebra.
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/tensor/vector.hpp>
#include <geometrix/tensor/matrix.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/arithmetic/vector.hpp>
#include <geometrix/arithmetic/vector/bisect.hpp>
#include <geometrix/arithmetic/vector/lerp.hpp>
#include <geometrix/arithmetic/vector/perp.hpp>
#include <geometrix/algebra/algebra.hpp>
#include <geometrix/algebra/vector_projection.hpp>
#include <geometrix/algebra/lup_decomposition.hpp>
#include <geometrix/arithmetic/matrix/trace.hpp>
#include <geometrix/tensor/composite_matrix.hpp>
#include <geometrix/tensor/fusion_matrix.hpp>
#include <geometrix/tensor/numeric_sequence_compare.hpp>
#include <geometrix/tensor/is_null.hpp>
#include "common.hpp"
const char* const gsim_property = "C35";
using namespace hx;
namespace gx = geometrix;
using gx::get;
GEOMETRIX_FUSION_POD_MATRIX(FS, ((int, float))((double, long)), 2, 2); GEOMETRIX_FUSION_POD_MATRIX(FM, ((int, float))((double, long))((long, short)), 3, 2);

namespace {
typedef long double Q;
struct W3 { Q x[3]; }; struct W2 { Q x[2]; }; struct X3 { Q x[3][3]; }; struct X2 { Q x[2][2]; };
W3 operator+(W3 a, W3 b) { for(int i = 0; i < 3; ++i) a.x[i] += b.x[i]; return a; }
W3 operator-(W3 a, W3 b) { for(int i = 0; i < 3; ++i) a.x[i] -= b.x[i]; return a; }
W3 operator*(Q s, W3 a) { for(Q& v : a.x) v *= s; return a; }
Q dot(W3 a, W3 b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1] + a.x[2] * b.x[2]; }
W3 cross(W3 a, W3 b) { return {{a.x[1] * b.x[2] - a.x[2] * b.x[1], a.x[2] * b.x[0] - a.x[0] * b.x[2], a.x[0] * b.x[1] - a.x[1] * b.x[0]}}; }
X3 operator+(X3 a, X3 b) { for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) a.x[i][j] += b.x[i][j]; return a; }
X3 operator*(Q s, X3 a) { for(auto& r : a.x) for(Q& v : r) v *= s; return a; }
X3 operator-(X3 a, X3 b) { return a + (Q)-1 * b; }
X3 operator*(X3 a, X3 b) { X3 c; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) c.x[i][j] = a.x[i][0] * b.x[0][j] + a.x[i][1] * b.x[1][j] + a.x[i][2] * b.x[2][j]; return c; }
W3 operator*(X3 a, W3 b) { W3 c; for(int i = 0; i < 3; ++i) c.x[i] = a.x[i][0] * b.x[0] + a.x[i][1] * b.x[1] + a.x[i][2] * b.x[2]; return c; }
X3 tr(X3 a) { X3 c; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) c.x[i][j] = a.x[j][i]; return c; }
Q dt(X3 a) { Q s = 0; for(int i = 0; i < 3; ++i) s += a.x[0][i] * (a.x[1][(i + 1) % 3] * a.x[2][(i + 2) % 3] - a.x[1][(i + 2) % 3] * a.x[2][(i + 1) % 3]); return s; }
X3 iv(X3 a) { X3 c; Q d = dt(a); for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) { int p = (j + 1) % 3, q = (j + 2) % 3, r = (i + 1) % 3, s = (i + 2) % 3; c.x[i][j] = (a.x[p][r] * a.x[q][s] - a.x[p][s] * a.x[q][r]) / d; } return c; }
Q len(W3 a) { return std::sqrt(dot(a, a)); }
W2 operator+(W2 a, W2 b) { return {{a.x[0] + b.x[0], a.x[1] + b.x[1]}}; }
W2 operator*(Q s, W2 a) { return {{s * a.x[0], s * a.x[1]}}; }
W2 operator-(W2 a, W2 b) { return a + (Q)-1 * b; }
Q dot(W2 a, W2 b) { return a.x[0] * b.x[0] + a.x[1] * b.x[1]; }
Q cross(W2 a, W2 b) { return a.x[0] * b.x[1] - a.x[1] * b.x[0]; }
Q len(W2 a) { return std::sqrt(dot(a, a)); }
template <class T> Q dtn(std::vector<std::vector<T>> a) { int n = (int)a.size(); if(n == 1) return a[0][0]; Q s = 0; for(int c = 0; c < n; ++c) { std::vector<std::vector<T>> m; for(int i = 1; i < n; ++i) { m.emplace_back(); for(int j = 0; j < n; ++j) if(j != c) m.back().push_back(a[i][j]); } s += (c & 1 ? -1 : 1) * a[0][c] * dtn(m); } return s; }

typedef gx::vector_double_3d V3; typedef gx::point_double_3d P3; typedef gx::vector_double_2d V2; typedef gx::point_double_2d P2; typedef gx::matrix<double, 3, 3> M3; typedef gx::matrix<double, 2, 2> M2;
W3 mv(const V3& v) { return {{v[0], v[1], v[2]}}; }
W3 mv(const P3& v) { return {{v[0], v[1], v[2]}}; }
W2 mv(const V2& v) { return {{v[0], v[1]}}; }
X3 mv(const M3& v) { X3 c; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) c.x[i][j] = v[i][j]; return c; }
X2 mv(const M2& v) { return {{{v[0][0], v[0][1]}, {v[1][0], v[1][1]}}}; }
struct Regs { V3 v[4]; P3 p[3]; V2 u[4]; M3 m[3]; M2 k[2]; };
V3 dv() { int n = (int)choose(GEN, 6); if(n == 0) return V3(0, 0, 0); return V3(lattice(GEN, 30), lattice(GEN, 9), lattice(GEN, 9)); }
V2 du() { static const int D[] = {1, 0, -1, 2, 3, -4, 7}; return V2(D[choose(GEN, 7)] * (1 + (int)choose(GEN, 3)), D[choose(GEN, 7)]); }
M3 dm() { M3 m; for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) m[i][j] = lattice(GEN, 6); if(chance(GEN, 1, 5)) for(int j = 0; j < 3; ++j) m[2][j] = m[0][j] * 2; return m; }
void draw(Regs& r) { for(auto& v : r.v) v = dv(); for(auto& p : r.p) { V3 t = dv(); p = P3(t[0], t[1], t[2]); } for(auto& u : r.u) u = du(); for(auto& m : r.m) m = dm(); for(auto& k : r.k) { for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) k[i][j] = lattice(GEN, 6); } }
bool small(const double* x, int n) { for(int i = 0; i < n; ++i) if(!(std::fabs(x[i]) <= 100) || x[i] != std::floor(x[i])) return false; return true; }

struct Step { int what; std::size_t d, a, b, c; double s, t; FaultPlan plan; };
struct Sim {
    Swarm sw; const Regs* shared;
    template <class F> Outcome ask(const char* what, const Step& j, F f, bool may_throw = false) {
        std::int64_t b = sw.tasks == 1 ? live_blocks() : 0; bool refused = false; Outcome o = attempt(what, [&] { if(!may_throw) { f(); return; } try { f(); } catch(const std::exception&) { InMode h(HARNESS); refused = true; } }, j.plan, false, 100000); if(refused) o = THREW;
        if(sw.tasks == 1) GSIM_CHECK(live_blocks() == b, "leak", "%s left memory allocated", what);
        log("%s (%zu <- %zu,%zu,%zu; %g,%g)%s", what, j.d, j.a, j.b, j.c, j.s, j.t, o == THREW ? ": threw" : ""); mix(o * 64 + j.what); yield(); return o;
    }
    void same(const char* what, Q want, double got, bool exact) { mixd(got); GSIM_CHECK(exact ? (Q)got == want : std::fabs((Q)got - want) <= 1e-9L * (1 + std::fabs(want)), "wrong-value", "%s: got %.17g, expected %.17Lg", what, got, want); nontrivial(); }
    void same(const char* what, W3 w, const V3& g, bool exact) { for(int i = 0; i < 3; ++i) same(what, w.x[i], g[i], exact); }
    void same(const char* what, W3 w, const P3& g, bool exact) { for(int i = 0; i < 3; ++i) same(what, w.x[i], g[i], exact); }
    void same(const char* what, W2 w, const V2& g, bool exact) { for(int i = 0; i < 2; ++i) same(what, w.x[i], g[i], exact); }
    void same(const char* what, X3 w, const M3& g, bool exact) { for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) same(what, w.x[i][j], g[i][j], exact); }

    void vectors(Regs& r, const Step& j) {
        const V3& a = j.a % 6 < 4 ? r.v[j.a % 6] : shared->v[j.a % 6 - 4]; const V3& b = j.b % 6 < 4 ? r.v[j.b % 6] : shared->v[j.b % 6 - 4]; const V3& c = r.v[j.c % 4]; V3& d = r.v[j.d % 4];
        const M3& m = j.c % 4 < 3 ? r.m[j.c % 4] : shared->m[0]; const P3& p = r.p[j.a % 3]; const P3& q = j.b % 4 < 3 ? r.p[j.b % 4] : shared->p[0]; double s = j.s, t = j.t;
        W3 A = mv(a), B = mv(b), C = mv(c), P = mv(p), O = mv(q); X3 M = mv(m); V3 before = d;
#define V(n, expr, ref, exact) case n: { W3 w = ref; if(&d == &a || &d == &b || &d == &c) probe("aliased"); ask(#expr, j, [&] { expr; }); same(#expr, w, d, exact); break; }
        switch(choose(ENV, 29)) {
        V(0, d <<= a + b, A + B, true) V(1, d = a - b, A - B, true) V(2, d <<= s * a, (Q)s * A, true) V(3, d = a * s, (Q)s * A, true) V(4, d <<= a / t, (Q)(1 / t) * A, true)
        V(5, d = -a, (Q)-1 * A, true) V(6, d <<= a ^ b, cross(A, B), true) V(7, d <<= (a + b) * s - c / t, (Q)s * (A + B) - (Q)(1 / t) * C, true) V(8, d = a + s * (b - a), A + (Q)s * (B - A), true)
        V(9, d <<= (a ^ b) ^ c, cross(cross(A, B), C), true) V(10, d <<= a ^ (b ^ c), cross(A, cross(B, C)), true) V(11, d <<= (a * b) * c, dot(A, B) * C, true) V(12, d <<= m * a, M * A, true) V(13, d <<= m * (a + b), M * (A + B), true)
        V(14, d = p - q, P - O, true) V(15, d = -(a - b), B - A, true) V(16, d += a, mv(d) + A, true) V(17, d -= b, mv(d) - B, true) V(18, d *= s, (Q)s * mv(d), true) V(19, d /= t, (Q)(1 / t) * mv(d), true)
        V(20, d <<= trans(m) * a, tr(M) * A, true) V(21, d <<= det(m) * a, dt(M) * A, true) V(22, d <<= q - (p + a), O - P - A, true) V(23, d = gx::as_vector(p), P, true)
        case 24: if(dot(A, B) != 0) { W3 w = (1 / dot(A, B)) * C; ask("d <<= c / (a * b)", j, [&] { d <<= c / (a * b); }); same("c / (a * b)", w, d, false); } break;
        case 25: if(len(A) > 0) { W3 w = (1 / len(A)) * A; bool n = choose(ENV, 2) != 0; ask("d <<= norm(a)", j, [&] { if(n) d = gx::normalize(a); else d <<= norm(a); }); same("norm(a)", w, d, false); } break;
        case 26: if(len(cross(A, B)) > 0) { W3 w = (1 / len(cross(A, B))) * cross(A, B); ask("d <<= norm(a ^ b)", j, [&] { d <<= norm(a ^ b); }); same("norm(a ^ b)", w, d, false); } break;
        case 27: if(len(B) > 0) { W3 w = (dot(A, B) / dot(B, B)) * B; ask("d = vector_projection(a, b)", j, [&] { d = gx::vector_projection(a, b); }); same("vector_projection(a, b)", w, d, false); } break;
        default: if(dt(M) != 0) { W3 w = iv(M) * A; ask("d <<= inv(m) * a", j, [&] { d <<= inv(m) * a; }); same("inv(m) * a", w, d, false); }
        }
        probe("vector"); double x[3] = {d[0], d[1], d[2]}; if(!small(x, 3)) d = small(&before[0], 3) ? before : V3(1, 2, 3);
    }
    void points(Regs& r, const Step& j) {
        P3& d = r.p[j.d % 3]; const P3& p = j.a % 4 < 3 ? r.p[j.a % 4] : shared->p[1]; const V3& a = j.b % 5 < 4 ? r.v[j.b % 5] : shared->v[3]; const V3& b = r.v[j.c % 4]; double s = j.s; W3 P = mv(p), A = mv(a), B = mv(b); P3 before = d;
#undef V
#define V(n, expr, ref, exact) case n: { W3 w = ref; if(&d == &p) probe("aliased"); ask(#expr, j, [&] { expr; }); same(#expr, w, d, exact); break; }
        switch(choose(ENV, 7)) {
        V(0, d <<= p + a, P + A, true) V(1, d = p - a, P - A, true) V(2, d = p + s * a, P + (Q)s * A, true) V(3, d <<= p + (a ^ b), P + cross(A, B), true) V(4, d <<= p + a - b, P + A - B, true) V(5, d = gx::as_point(a), A, true)
        default: { W3 w = P + (Q)s * A; ask("d <<= p + a * s", j, [&] { d <<= p + a * s; }); same("p + a * s", w, d, true); }
        }
#undef V
        probe("point"); double x[3] = {d[0], d[1], d[2]}; if(!small(x, 3)) d = before;
    }
    void scalars(Regs& r, const Step& j) {
        const V3& a = j.a % 5 < 4 ? r.v[j.a % 5] : shared->v[2]; const V3& b = r.v[j.b % 4]; const V3& c = j.c % 5 < 4 ? r.v[j.c % 5] : shared->v[1]; const M3& m = j.a % 4 < 3 ? r.m[j.a % 4] : shared->m[1]; const M3& n = r.m[j.b % 3]; const P3& p = r.p[j.a % 3]; const P3& q = r.p[j.b % 3];
        W3 A = mv(a), B = mv(b), C = mv(c), P = mv(p), O = mv(q); X3 M = mv(m), N = mv(n); double s = 0;
#define S(n, expr, ref, exact) case n: { ask(#expr, j, [&] { expr; }); same(#expr, ref, s, exact); break; }
        switch(choose(ENV, 27)) {
        S(0, s <<= a * b, dot(A, B), true) S(1, s <<= a * (b ^ c), dot(A, cross(B, C)), true) S(2, s <<= det(m), dt(M), true) S(3, s = gx::determinant(m), dt(M), true) S(4, s <<= mag(a), len(A), false) S(5, s = gx::magnitude(a - b), len(A - B), false)
        S(6, s = gx::magnitude_sqrd(a), dot(A, A), true) S(7, s = gx::dot_product(a + b, c - a), dot(A + B, C - A), true) S(8, s = gx::trace(m), M.x[0][0] + M.x[1][1] + M.x[2][2], true) S(9, s <<= det(m * n), dt(M * N), true)
        S(10, s <<= (q - p) * a, dot(O - P, A), true) S(11, s <<= a * b + b * c, dot(A, B) + dot(B, C), true) S(12, s <<= (a * b) * (b * c), dot(A, B) * dot(B, C), true) S(13, s <<= det(trans(m)), dt(M), true)
        S(14, s <<= det(2.0 * m - n), dt((Q)2 * M - N), true) S(15, s = gx::exterior_product_volume(a, b, c), dot(cross(A, B), C), true) S(16, s <<= (m * a) * b, dot(M * A, B), true) S(17, s <<= det(m) * mag(a), dt(M) * len(A), false)
        S(18, s <<= mag(a - b), len(A - B), false) S(19, s = gx::trace(m * n), (M * N).x[0][0] + (M * N).x[1][1] + (M * N).x[2][2], true) S(20, s = gx::magnitude(p - q), len(P - O), false)
        case 21: if(len(B) > 0) { ask("scalar_projection", j, [&] { s = gx::scalar_projection(a, gx::normalize(b)); }); same("scalar_projection(a, b)", dot(A, B) / len(B), s, false); } break;
        case 22: if(len(A) > 0) { int i = (int)choose(ENV, 3); ask("normal_at_index", j, [&] { s = i == 0 ? gx::normal_at_index<0>(a) : i == 1 ? gx::normal_at_index<1>(a) : gx::normal_at_index<2>(a); }); same("normal_at_index", A.x[i] / len(A), s, false); } break;
        case 23: { gx::row<M3, 1> w(m); gx::column<M3, 2> z(m); ask("row . column", j, [&] { s = gx::dot_product(w, z); }); same("row * column", (M * M).x[1][2], s, true); break; }
        case 24: { ask("minor", j, [&] { s = gx::determinant(gx::as_matrix_minor<0, 1>(m)); }); same("determinant of a minor", M.x[1][0] * M.x[2][2] - M.x[1][2] * M.x[2][0], s, true); break; }
        case 25: { bool e = false, z = false, e2 = false; ask("comparison", j, [&] { gx::direct_comparison_policy cmp; e = gx::numeric_sequence_equals(a, b, cmp); e2 = gx::numeric_sequence_equals_3d(a, b, cmp); z = gx::is_null(a, cmp); }); bool w = dot(A - B, A - B) == 0; GSIM_CHECK(e == w && e2 == w && z == (dot(A, A) == 0), "wrong-comparison", "(%g,%g,%g) and (%g,%g,%g): equal %d/%d, null %d", a[0], a[1], a[2], b[0], b[1], b[2], (int)e, (int)e2, (int)z); break; }
        default: if(dot(B, C) != 0) { ask("(a * b) / (b * c)", j, [&] { s <<= (a * b) / (b * c); }); same("(a * b) / (b * c)", dot(A, B) / dot(B, C), s, false); }
        }
        probe("scalar");
    }
    void matrices(Regs& r, const Step& j) {
        const M3& m = j.a % 5 < 3 ? r.m[j.a % 5] : shared->m[j.a % 5 - 3]; const M3& n = j.b % 4 < 3 ? r.m[j.b % 4] : shared->m[2]; const M3& k = r.m[j.c % 3]; M3& d = r.m[j.d % 3]; M3 before = d; X3 M = mv(m), N = mv(n), K = mv(k); double s = j.s, t = j.t;
#define M_(i, expr, ref) case i: { X3 w = ref; if(&d == &m || &d == &n || &d == &k) probe("aliased"); ask(#expr, j, [&] { expr; }); same(#expr, w, d, true); break; }
        switch(choose(ENV, 18)) {
        M_(0, d <<= m + n, M + N) M_(1, d <<= m - n, M - N) M_(2, d <<= s * m, (Q)s * M) M_(3, d <<= m * s, (Q)s * M) M_(4, d <<= m / t, (Q)(1 / t) * M) M_(5, d <<= -m, (Q)-1 * M) M_(6, d <<= m * n, M * N) M_(7, d <<= trans(m), tr(M)) M_(8, d <<= trans(m * n), tr(M * N))
        M_(9, d <<= m * n * k, M * N * K) M_(10, d <<= m + n - k, M + N - K) M_(11, d <<= (m + n) * k, (M + N) * K) M_(12, d <<= m * trans(n), M * tr(N)) M_(13, d <<= (2.0 * m) * n - k / t, (Q)2 * M * N - (Q)(1 / t) * K) M_(14, d <<= m * n * s, (Q)s * (M * N))
        default: {
            bool two = choose(ENV, 2) != 0; X3 w = two ? M * N : M; Q e = dt(w);
            Outcome o = ask(two ? "d <<= inv(m * n)" : "d <<= inv(m)", j, [&] { if(two) d <<= inv(m * n); else d <<= inv(m); }, true);
            if(e == 0) { GSIM_CHECK(o == THREW, "inverted-singular", "a singular matrix was inverted"); probe("singular"); }
            else { GSIM_CHECK(o == DONE, "refused-regular", "a matrix of determinant %Lg was not inverted", e); same("inv", iv(w), d, false); probe("inverted"); }
            d = before; } }
#undef M_
        probe("matrix"); double x[9]; for(int i = 0; i < 9; ++i) x[i] = d[i / 3][i % 3]; if(!small(x, 9)) d = before;
    }
    void plane(Regs& r, const Step& j) {
        const V2& a = j.a % 5 < 4 ? r.u[j.a % 5] : shared->u[0]; const V2& b = j.b % 5 < 4 ? r.u[j.b % 5] : shared->u[1]; W2 A = mv(a), B = mv(b); V2 d; double s = 0; M2& k = r.k[j.a % 2]; M2& l = r.k[j.b % 2]; X2 K = mv(k), L = mv(l); bool ok = len(A) > 0 && len(B) > 0;
        W2 left = {{-A.x[1], A.x[0]}};
        switch(choose(ENV, 16)) {
        case 0: ask("left normals", j, [&] { d = gx::left_normal(a); }); same("left_normal", left, d, true); break;
        case 1: ask("perp", j, [&] { d = gx::perp(a); }); same("perp", left, d, true); break;
        case 2: ask("right normal", j, [&] { d = gx::right_normal(a); }); same("right_normal", (Q)-1 * left, d, true); break;
        case 3: ask("oriented normal", j, [&] { d = gx::oriented_normal<gx::oriented_left>(a); }); same("oriented_normal<left>", left, d, true); break;
        case 4: ask("oriented normal", j, [&] { d = gx::oriented_normal<gx::oriented_right>(a); }); same("oriented_normal<right>", (Q)-1 * left, d, true); break;
        case 5: ask("area", j, [&] { s = gx::exterior_product_area(a, b); }); same("exterior_product_area", cross(A, B), s, true); break;
        case 6: case 7: if(ok) {
            Q turn = std::atan2(cross(A, B), dot(A, B)); if(turn <= 0) turn += 2 * std::acos((Q)-1); Q at = std::atan2(A.x[1], A.x[0]) + turn / 2; W2 w = {{std::cos(at), std::sin(at)}}; bool anti = cross(A, B) == 0 && dot(A, B) < 0, par = cross(A, B) == 0 && dot(A, B) > 0; bool other = !anti && !par && choose(ENV, 2) != 0;
            ask(other ? "bisect_not_antiparallel" : "bisect", j, [&] { d = other ? gx::bisect_not_antiparallel(a, b) : gx::bisect(a, b); }); GSIM_CHECK(std::fabs(d[0] - w.x[0]) < 1e-9 && std::fabs(d[1] - w.x[1]) < 1e-9, "wrong-bisector", "between (%g,%g) and (%g,%g): got (%.17g,%.17g), expected (%.17Lg,%.17Lg)", a[0], a[1], b[0], b[1], d[0], d[1], w.x[0], w.x[1]); nontrivial(); probe(anti ? "antiparallel" : par ? "parallel" : "bisected"); } break;
        case 8: { Q t = choose(ENV, 5) / (Q)4; W2 w = A + t * (B - A); if(len(w) > 1e-6L) { ask("lerp", j, [&] { d = gx::lerp(a, b, (double)t); }); same("lerp", (1 / len(w)) * w, d, false); } break; }
        case 9: if(ok) { bool p = false; ask("is_antiparallel", j, [&] { p = gx::is_antiparallel(a, b, gx::absolute_tolerance_comparison_policy<double>(1e-10)); }); GSIM_CHECK(p == (cross(A, B) == 0 && dot(A, B) < 0), "wrong-antiparallel", "(%g,%g) and (%g,%g): %d", a[0], a[1], b[0], b[1], (int)p); } break;
        case 10: if(len(B) > 0) { ask("vector_projection", j, [&] { d = gx::vector_projection(a, b); }); same("vector_projection", (dot(A, B) / dot(B, B)) * B, d, false); } break;
        case 11: { M2 g; ask("k <<= k * l", j, [&] { g = k; g <<= g * l; }); for(int i = 0; i < 2; ++i) for(int c = 0; c < 2; ++c) same("2x2 product", K.x[i][0] * L.x[0][c] + K.x[i][1] * L.x[1][c], g[i][c], true); break; }
        case 12: { M2 g; Q e = K.x[0][0] * K.x[1][1] - K.x[0][1] * K.x[1][0]; ask("det(k)", j, [&] { s <<= det(k); }); same("2x2 determinant", e, s, true); Outcome o = ask("inv(k)", j, [&] { g <<= inv(k); }, true); GSIM_CHECK((o == THREW) == (e == 0), "inverted-singular", "2x2 of determinant %Lg: %s", e, o == THREW ? "refused" : "inverted"); if(e != 0) { same("inv(k)", K.x[1][1] / e, g[0][0], false); same("inv(k)", -K.x[0][1] / e, g[0][1], false); same("inv(k)", -K.x[1][0] / e, g[1][0], false); same("inv(k)", K.x[0][0] / e, g[1][1], false); } break; }
        case 13: { gx::matrix<double, 2, 3> z; for(int i = 0; i < 2; ++i) for(int c = 0; c < 3; ++c) z[i][c] = r.m[0][i][c]; gx::matrix<double, 3, 2> zt; M2 g; V2 y; const V3& v = r.v[j.c % 4];
            ask("2x3", j, [&] { zt <<= trans(z); g <<= z * zt; y <<= z * v; }); for(int i = 0; i < 2; ++i) { Q w = 0; for(int c = 0; c < 3; ++c) { same("transpose of 2x3", z[i][c], zt[c][i], true); w += (Q)z[i][c] * v[c]; } same("2x3 times vector", w, y[i], true); for(int c = 0; c < 2; ++c) { Q u = 0; for(int e = 0; e < 3; ++e) u += (Q)z[i][e] * z[c][e]; same("2x3 times 3x2", u, g[i][c], true); } } break; }
        case 14: { gx::vector_int_3d ai((int)r.v[0][0], (int)r.v[0][1], (int)r.v[0][2]); V3 y, h; ask("integer vector", j, [&] { y <<= ai + r.v[1]; h <<= ai * 0.5; }); for(int i = 0; i < 3; ++i) { same("int + double", (Q)ai[i] + r.v[1][i], y[i], true); same("int * 0.5", ai[i] * (Q).5, h[i], true); } break; }
        default: { gx::matrix<double, 4, 4> z, y; std::vector<std::vector<double>> w(4, std::vector<double>(4)); for(int i = 0; i < 4; ++i) for(int c = 0; c < 4; ++c) w[i][c] = z[i][c] = i < 3 && c < 3 ? r.m[j.a % 3][i][c] : i < 3 ? r.v[0][i] : c < 3 ? r.v[1][c] : 3; Q e = dtn(w);
            Outcome o = ask("4x4", j, [&] { s <<= det(z); y <<= inv(z); }, true); if(o == THREW) { GSIM_CHECK(e == 0, "refused-regular", "4x4 of determinant %Lg was not inverted", e); } else { same("4x4 determinant", e, s, true); GSIM_CHECK(e != 0, "inverted-singular", "a singular 4x4 was inverted"); for(int i = 0; i < 4; ++i) for(int c = 0; c < 4; ++c) { Q u = 0, mag = 1; for(int x = 0; x < 4; ++x) { u += (Q)z[i][x] * y[x][c]; mag += std::fabs((Q)z[i][x] * y[x][c]); } GSIM_CHECK(std::fabs(u - (i == c)) <= 1e-9L * mag, "wrong-inverse", "4x4 times its inverse has %.17Lg at (%d,%d)", u, i, c); } probe("4x4"); } } }
        probe("plane");
    }
    template <std::size_t N> void decompose(const Step& j) {
        gx::matrix<double, N, N> a, lu; std::vector<std::vector<double>> w(N, std::vector<double>(N)); boost::array<double, N> b, x; boost::array<std::size_t, N> pi; int shape = (int)choose(ENV, 6);
        for(std::size_t i = 0; i < N; ++i) { b[i] = (int)choose(ENV, 19) - 9; for(std::size_t c = 0; c < N; ++c) { w[i][c] = (int)choose(ENV, 13) - 6; if(shape == 1) w[i][c] /= 64; if(shape == 2 && c == i) w[i][c] = choose(ENV, 2) ? 0 : std::ldexp(1., -30); if(shape == 3 && (c + i) % 2) w[i][c] = 0; if(shape == 4 && c == N - 1) w[i][c] = 0; } }
        for(std::size_t i = 0; i < N; ++i) for(std::size_t c = 0; c < N; ++c) lu[i][c] = a[i][c] = w[i][c];
        Q e = dtn(w); Outcome o = ask("lup_decomposition", j, [&] { gx::lup_decomposition(lu, pi); x = gx::lup_solve(lu, pi, b); }, true);
        if(shape == 4) { GSIM_CHECK(o == THREW, "solved-singular", "a %zux%zu with a null column was decomposed", N, N); probe("null-column"); return; }
        if(o == THREW) { GSIM_CHECK(std::fabs(e) < 1e-9L, "refused-regular", "a %zux%zu of determinant %Lg was called singular", N, N, e); return; }
        if(std::fabs(e) < 1e-6L) return;
        bool seen[N] = {}; for(std::size_t i = 0; i < N; ++i) { GSIM_CHECK(pi[i] < N && !seen[pi[i]], "not-a-permutation", "row %zu of %zu", (std::size_t)pi[i], N); seen[pi[i]] = true; }
        for(std::size_t i = 0; i < N; ++i) {
            Q res = -(Q)b[i], big = 1 + std::fabs(b[i]);
            for(std::size_t c = 0; c < N; ++c) { Q u = 0; for(std::size_t y = 0; y <= std::min(i, c); ++y) u += (y == i ? 1 : (Q)lu[i][y]) * lu[y][c]; GSIM_CHECK(std::fabs(u - a[pi[i]][c]) <= 1e-11L * 6, "wrong-factors", "%zux%zu: L*U has %.17Lg at (%zu,%zu), expected %.17g", N, N, u, i, c, a[pi[i]][c]); res += (Q)a[i][c] * x[c]; big += 6 * std::fabs((Q)x[c]); mixd(x[c]); }
            GSIM_CHECK(std::fabs(res) <= 1e-12L * big, "wrong-solution", "%zux%zu: equation %zu is off by %Lg", N, N, i, res); }
        probe("decomposed"); nontrivial();
    }
    // matrices put together from blocks, rows and columns, and matrices of mixed types
    typedef std::vector<std::vector<Q>> W; typedef gx::matrix<double, 4, 4> M4; typedef gx::vector_double_4d V4;
    template <int C, class K, std::size_t... I> static void pull(const K& k, double* o, std::index_sequence<I...>) { double x[] = {(double)gx::get<I / C, I % C>(k)...}; for(double v : x) *o++ = v; }
    static Q at(const W& a, const W& b, int i, int c) { Q s = 0; for(std::size_t e = 0; e < b.size(); ++e) s += a[i][e] * b[e][c]; return s; }
    template <class Make> void whole(const char* what, const Step& j, Make make, const W& w, const M4& n, const V4& x) {
        double got[16] = {}, d = 0, trace = 0; M4 z, l, r, t; V4 y; bool refused = false; W nn(4, std::vector<Q>(4)), xx(4, std::vector<Q>(1)); for(int i = 0; i < 4; ++i) { xx[i][0] = x[i]; for(int c = 0; c < 4; ++c) nn[i][c] = n[i][c]; }
        ask(what, j, [&] { auto k = make(); pull<4>(k, got, std::make_index_sequence<16>()); d <<= det(k); trace = gx::trace(k); y <<= k * x; l <<= k * n; r <<= n * k; t <<= trans(k); try { z <<= inv(k); } catch(const std::exception&) { InMode h(HARNESS); refused = true; } });
        Q e = dtn(w); for(int i = 0; i < 4; ++i) { same("composed times vector", at(w, xx, i, 0), y[i], true); for(int c = 0; c < 4; ++c) { same(what, w[i][c], got[i * 4 + c], true); same("composed * matrix", at(w, nn, i, c), l[i][c], true); same("matrix * composed", at(nn, w, i, c), r[i][c], true); same("transpose of composed", w[c][i], t[i][c], true); } }
        same("determinant of composed", e, d, true); same("trace of composed", w[0][0] + w[1][1] + w[2][2] + w[3][3], trace, true); GSIM_CHECK(refused == (e == 0), "inverted-singular", "a composed 4x4 of determinant %Lg was %s", e, refused ? "refused" : "inverted");
        if(e != 0) for(int i = 0; i < 4; ++i) for(int c = 0; c < 4; ++c) { Q u = 0, big = 1; for(int q = 0; q < 4; ++q) { u += w[i][q] * z[q][c]; big += std::fabs(w[i][q] * z[q][c]); } GSIM_CHECK(std::fabs(u - (i == c)) <= 1e-9L * big, "wrong-value", "%s: row %d of it times column %d of its inverse is %Lg", what, i, c, u); }
        probe("composed");
    }
    void composed(Regs& r, const Step& j) {
        const M3& m = j.a % 4 < 3 ? r.m[j.a % 4] : shared->m[2]; const V3& v = j.b % 5 < 4 ? r.v[j.b % 5] : shared->v[0]; const V3& u = r.v[j.c % 4]; const M2& k = j.d % 3 < 2 ? r.k[j.d % 3] : shared->k[0]; const M2& l = r.k[j.d % 2]; M4 n; V4 x; double q[4], far = (double)(j.c % 7) - 3; gx::vector_int_3d vi((int)v[0], (int)v[1], (int)v[2]);
        for(int i = 0; i < 4; ++i) { q[i] = i < 3 ? u[i] : far; x[i] = i < 3 ? v[i] : j.s > 1 ? 2 : 1; for(int c = 0; c < 4; ++c) n[i][c] = i < 3 && c < 3 ? r.m[j.c % 3][i][c] : (double)((i * 3 + c + j.d) % 5) - 2; } V4 row(q[0], q[1], q[2], q[3]);
        auto blocks = [&](int mr, int mc, int vr, int vc, int rr) { W w(4, std::vector<Q>(4)); for(int i = 0; i < 4; ++i) w[rr][i] = q[i]; for(int i = 0; i < 3; ++i) { w[vr + i][vc] = v[i]; for(int c = 0; c < 3; ++c) w[mr + i][mc + c] = m[i][c]; } return w; };
        int way = (int)choose(ENV, 9); M3 mm = m; V3 vv = v; M2 kk = k, ll = l, k1 = r.k[1]; gx::column_vector<V3> cv(vv); gx::column_vector<gx::vector_int_3d> ci(vi); gx::row_vector<V4> rv(row); gx::row_vector<V3> rv3(vv);
        auto written = [&](const char* what, double to, double got, double here) { GSIM_CHECK(got == to && here == to, "lost-write", "%s: %g was written, reads %g, and the part has %g", what, to, got, here); probe("written-through"); };
        switch(way) {
        case 0: whole("matrix, column; row", j, [&] { return gx::as_matrix<4, 4>(mm, cv, rv); }, blocks(0, 0, 0, 3, 3), n, x);
            { double g = 0, h = 0, e = 0; ask("write into a composed matrix", j, [&] { auto a = gx::as_matrix<4, 4>(mm, cv, rv); gx::set<1, 2>(a, far + 7); gx::set<2, 3>(a, far + 8); gx::set<3, 1>(a, far + 9); vv[0] = far + 10; g = gx::get<1, 2>(a); h = gx::get<2, 3>(a); e = gx::get<3, 1>(a); }); written("matrix part", far + 7, g, mm[1][2]); written("column part", far + 8, h, vv[2]); written("row part", far + 9, e, row[1]); }
            break;
        case 1: whole("column, matrix; row", j, [&] { return gx::as_matrix<4, 4>(cv, mm, rv); }, blocks(0, 1, 0, 0, 3), n, x); break;
        case 2: whole("row; matrix, column", j, [&] { return gx::as_matrix<4, 4>(rv, mm, ci); }, blocks(1, 0, 1, 3, 0), n, x); break;
        case 3: whole("row; column, matrix", j, [&] { return gx::as_matrix<4, 4>(rv, cv, mm); }, blocks(1, 1, 1, 0, 0), n, x); break;
        case 4: { W w(4, std::vector<Q>(4)); M2* b[4] = {&kk, &ll, &k1, &kk}; for(int i = 0; i < 4; ++i) for(int c = 0; c < 4; ++c) w[i][c] = (*b[i / 2 * 2 + c / 2])[i % 2][c % 2]; whole("four blocks", j, [&] { return gx::as_matrix<4, 4>(*b[0], *b[1], *b[2], *b[3]); }, w, n, x); break; }
        case 5: { double a[12], b[12]; ask("3x4 and 4x3", j, [&] { auto c = gx::as_matrix<3, 4>(mm, cv); auto d = gx::as_matrix<4, 3>(mm, rv3); pull<4>(c, a, std::make_index_sequence<12>()); pull<3>(d, b, std::make_index_sequence<12>()); });
            for(int i = 0; i < 3; ++i) for(int c = 0; c < 4; ++c) { same("3x4", c < 3 ? m[i][c] : v[i], a[i * 4 + c], true); same("4x3", c < 3 ? m[c][i] : v[i], b[c * 3 + i], true); } probe("composed"); break; }
        case 6: { double s = 0, t = 0; V3 y, z; Q a = 0, b = 0; ask("rows and columns", j, [&] { gx::row<M3, 1> ro(m); gx::column<M3, 2> co(m); s = gx::dot_product(ro, v); t <<= v * co; y <<= gx::column<M3, 0>(m) + v; z = gx::construct<V3>(gx::row<M3, 2>(m)); });
            for(int i = 0; i < 3; ++i) { a += m[1][i] * v[i]; b += v[i] * m[i][2]; same("column + vector", m[i][0] + v[i], y[i], true); same("row as a vector", m[2][i], z[i], true); } same("row . vector", a, s, true); same("vector . column", b, t, true); probe("row-column"); break; }
        default: { FS f; FM h; M2 a, b, c; V2 y; double d = 0, e[6], g[4]; const V2& x2 = r.u[j.a % 4]; X2 F = mv(k), L = mv(l); bool refused = false;
            ask("mixed types", j, [&] { gx::set<0, 0>(f, (int)k[0][0]); gx::set<0, 1>(f, (float)k[0][1]); gx::set<1, 0>(f, k[1][0]); gx::set<1, 1>(f, (long)k[1][1]); gx::set<0, 0>(h, (int)m[0][0]); gx::set<0, 1>(h, (float)m[0][1]); gx::set<1, 0>(h, m[1][0]); gx::set<1, 1>(h, (long)m[1][1]); gx::set<2, 0>(h, (long)m[2][0]); gx::set<2, 1>(h, (short)m[2][1]);
                pull<2>(h, e, std::make_index_sequence<6>()); pull<2>(f, g, std::make_index_sequence<4>()); d <<= gx::det(f); y <<= f * x2; a <<= f * l; b <<= gx::trans(f); try { c <<= gx::inv(f); } catch(const std::exception&) { InMode hh(HARNESS); refused = true; } });
            Q D = F.x[0][0] * F.x[1][1] - F.x[0][1] * F.x[1][0]; same("mixed determinant", D, d, true); GSIM_CHECK(refused == (D == 0), "inverted-singular", "a mixed 2x2 of determinant %Lg was %s", D, refused ? "refused" : "inverted");
            for(int i = 0; i < 6; ++i) same("mixed 3x2", m[i / 2][i % 2], e[i], true);
            for(int i = 0; i < 2; ++i) { same("mixed times vector", F.x[i][0] * x2[0] + F.x[i][1] * x2[1], y[i], true); for(int o = 0; o < 2; ++o) { same("mixed 2x2", F.x[i][o], g[i * 2 + o], true); same("mixed product", F.x[i][0] * L.x[0][o] + F.x[i][1] * L.x[1][o], a[i][o], true); same("mixed transpose", F.x[o][i], b[i][o], true); if(D != 0) same("mixed inverse", (i == o ? F.x[1 - i][1 - i] : -F.x[i][o]) / D, c[i][o], false); } }
            probe("mixed"); }
        }
    }
    void run() {
        sw = draw_swarm(4); Regs* sh = setup([] { return new Regs; }); { InMode h(HARNESS); draw(*sh); } shared = sh;
        std::vector<Regs*> regs; std::vector<std::vector<Step>> prog(sw.tasks);
        for(int t = 0; t < sw.tasks; ++t) { Regs* r = setup([] { return new Regs; }); draw(*r); regs.push_back(r); int n = 2 + (int)choose(OP, 9); for(int i = 0; i < n; ++i) { Span sp(OP); static const double F[] = {1, 2, .5, -1, -4, .25, 8}; Step s; s.what = (int)choose(OP, 12); s.d = choose(OP, 60); s.a = choose(OP, 60); s.b = choose(OP, 60); s.c = choose(OP, 60); s.s = F[choose(OP, 7)]; s.t = F[choose(OP, 7)]; prog[t].push_back(s); } }
        std::vector<std::function<void()>> bodies;
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(const Step& s : prog[t]) switch(s.what) { case 0: case 1: vectors(*regs[t], s); break; case 2: points(*regs[t], s); break; case 3: case 4: scalars(*regs[t], s); break; case 5: case 6: matrices(*regs[t], s); break; case 7: case 8: plane(*regs[t], s); break; case 9: case 10: composed(*regs[t], s); break;
            default: switch(choose(ENV, 5)) { case 0: decompose<2>(s); break; case 1: decompose<3>(s); break; case 2: decompose<4>(s); break; case 3: decompose<5>(s); break; default: decompose<6>(s); } } });
        parallel(bodies);
        for(Regs* r : regs) destroy(r); destroy(sh);
    }
};
} // namespace
void gsim_run() { Sim s; s.run(); }

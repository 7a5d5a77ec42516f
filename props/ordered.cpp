// Sets of collinear segments under union and difference (C26), and containers ordered by the library's comparisons (C27).
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/utility/point_angle_compare.hpp>
#include <geometrix/utility/vector_angle_compare.hpp>
#include <functional>
#include <map>
#include <set>
#include <tuple>
#include "geo.hpp"
#if defined(PROP_C26)
const char* const gsim_property = "C26";
#else
const char* const gsim_property = "C27";
#endif
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef point_double_3d P3;
typedef vector_double_2d V;
typedef segment_double_2d S;
typedef absolute_tolerance_comparison_policy<double> Cmp;

namespace {
#if defined(PROP_C26)
typedef std::set<S, segment_interval_compare<Cmp>> Set;
typedef std::pair<int, int> Run;
const int N = 24;
struct Sim {
    Cmp cmp{1e-10}; Swarm sw; double ox = 0, oy = 0, dx = 1, dy = 0; bool big = false;
    P at(int t) { return P(ox + t * dx, oy + t * dy); }
    S sg(int a, int b) { return S(at(a), at(b)); }
    struct Op { int what; int a, b; std::size_t pick; FaultPlan plan; };
    // The parameter of a point on the line, or -1000 if it is none of the marks.
    int mark(const P& p) { double t = ((get<0>(p) - ox) * dx + (get<1>(p) - oy) * dy) / (dx * dx + dy * dy); int k = (int)std::lround(t); return std::hypot(get<0>(p) - ox - k * dx, get<1>(p) - oy - k * dy) < 1e-8 ? k : -1000; }
    static std::string show(const std::vector<Run>& v) { std::string s; for(auto& r : v) s += "[" + std::to_string(r.first) + "," + std::to_string(r.second) + "]"; return s.empty() ? "nothing" : s; }
    std::vector<Run> read(const Set& s) { std::vector<Run> v; for(auto& g : s) { int a = mark(g.get_start()), b = mark(g.get_end()); if(a > b) std::swap(a, b); v.push_back({a, b}); GSIM_CHECK(v.size() < 200, "endless", "the set of segments does not end"); } std::sort(v.begin(), v.end()); return v; }
    static std::vector<Run> runs(const std::vector<char>& c) { std::vector<Run> v; for(int i = 0; i < N; ++i) if(c[i]) { if(!v.empty() && v.back().second == i) v.back().second = i + 1; else v.push_back({i, i + 1}); } return v; }

    void life(int task, const std::vector<Op>& ops) {
        Set* s = setup([&] { return new Set(segment_interval_compare<Cmp>(cmp)); }); std::vector<char> cells(N, 0);
        for(auto& op : ops) {
            int a = op.a, b = op.b; bool add = op.what < 4, self = op.what == 7 || op.what == 3; auto before = runs(cells);
            if(self && !before.empty()) { auto r = before[op.pick % before.size()]; a = r.first; b = r.second; }
            else if(self) self = false;
            auto next = cells; for(int i = std::min(a, b); i < std::max(a, b); ++i) next[i] = add;
            if(add && a == b) continue;
            char what[96]; snprintf(what, sizeof what, "%s [%d,%d]%s", add ? "union with" : "difference with", a, b, self ? " of the set itself" : "");
            std::int64_t blocks = sw.tasks == 1 ? live_blocks() : 0;
            Outcome o = attempt(what, [&] {
                if(self) { auto it = s->find(sg(a, b)); if(it == s->end()) return; if(add) collinear_segment_union(*s, *it, cmp); else collinear_segment_difference(*s, *it, cmp); }
                else if(add) collinear_segment_union(*s, sg(a, b), cmp);
                else collinear_segment_difference(*s, sg(a, b), cmp);
            }, op.plan, false, 3000000);
            auto got = read(*s); std::string g = show(got);
            for(std::size_t i = 0; i + 1 < got.size(); ++i) GSIM_CHECK(got[i].second < got[i + 1].first, "overlapping", "after %s of %s the set holds %s", what, show(before).c_str(), g.c_str());
            if(o == DONE) {
                auto want = runs(next);
                GSIM_CHECK(got == want, add ? "wrong-union" : "wrong-difference", "%s of %s gives %s, should be %s", what, show(before).c_str(), g.c_str(), show(want).c_str());
                if(next != cells && before.size() > 1) nontrivial();
                if(add && want.size() + 1 < before.size()) probe("bridged"); if(!add && want.size() > before.size()) probe("split"); if(!add && want.size() < before.size()) probe("erased"); if(add && next == cells) probe("already-in"); if(add && a > b) probe("reversed");
                cells = next;
            } else {
                // Only what the segment meets may be missing now, and nothing may have appeared that the operation does not make.
                std::vector<char> now(N, 0); for(auto& r : got) for(int i = r.first; i < r.second; ++i) { GSIM_CHECK(i >= 0 && i < N && (cells[i] || next[i]), "appeared", "after running out of memory in %s of %s the set holds %s", what, show(before).c_str(), g.c_str()); now[i] = 1; }
                for(auto& r : before) if(r.second < std::min(a, b) || r.first > std::max(a, b)) GSIM_CHECK(std::find(got.begin(), got.end(), r) != got.end(), "lost", "running out of memory in %s of %s lost [%d,%d], which it does not concern: %s", what, show(before).c_str(), r.first, r.second, g.c_str());
                cells = now; probe("oom");
            }
            if(sw.tasks == 1) GSIM_CHECK(live_blocks() - blocks == (std::int64_t)got.size() - (std::int64_t)before.size(), "leak", "%s: %lld blocks more for %d segments more", what, (long long)(live_blocks() - blocks), (int)got.size() - (int)before.size());
            log("task %d: %s%s: %s", task, what, o == DONE ? "" : " (out of memory)", g.c_str());
            mix(got.size() * 64 + (got.empty() ? 0 : got[0].first)); yield();
            // Every mark is found exactly where the set has it.
            int t = (int)(op.pick % N); bool in = false; attempt("looking a piece up", [&] { in = s->find(S(P(ox + (t + 0.25) * dx, oy + (t + 0.25) * dy), P(ox + (t + 0.75) * dx, oy + (t + 0.75) * dy))) != s->end(); }, FaultPlan(), false, 200000);
            GSIM_CHECK(in == (bool)cells[t], "wrong-lookup", "piece [%d.25,%d.75] %s in %s", t, t, in ? "is found" : "is not found", g.c_str());
        }
        destroy(s);
    }
    void run() {
        static const double ds[][2] = {{1, 0}, {0, 1}, {1, 1}, {2, -1}, {-3, 2}, {0, -1}, {-1, 0}, {0.6, 0.8}, {-12.0 / 13, 5.0 / 13}, {0.28, -0.96}};
        auto d = ds[choose(GEN, 10)]; double u = chance(GEN, 1, 3) ? 0.5 : 1; dx = d[0] * u; dy = d[1] * u; ox = (double)lattice(GEN, 20); oy = (double)lattice(GEN, 20);
        log("line from (%g,%g) along (%g,%g)", ox, oy, dx, dy);
        std::vector<std::vector<Op>> ops(sw.tasks);
        for(auto& v : ops) { int n = 2 + (int)size_upto(OP, 14, 120); for(int i = 0; i < n; ++i) { Span sp(OP); Op o; o.what = (int)choose(OP, 8); o.a = (int)choose(OP, N + 1); o.b = chance(OP, 1, 2) ? (int)choose(OP, N + 1) : std::min(N, o.a + 1 + (int)choose(OP, 4)); if(o.a == o.b && !chance(OP, 1, 4)) o.b = o.a < N ? o.a + 1 : o.a - 1; o.pick = choose(OP, 1000); o.plan = draw_alloc_plan(sw.alloc_faults, 1, 5, 3); v.push_back(o); } }
        std::vector<std::function<void()>> bodies; for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { life(t, ops[t]); });
        parallel(bodies);
    }
};
#endif
#if defined(PROP_C27)
// Exact keys: a point, a segment, or a direction.
typedef std::array<long, 4> Key;
int half(long x, long y) { return y < 0 || (y == 0 && x < 0) ? 1 : 0; }
// Angle order of two directions measured counter-clockwise from r: -1, 0, 1.
int angle_order(IP r, IP a, IP b) {
    auto turn = [&](IP v) { return IP{r.x * v.x + r.y * v.y, r.x * v.y - r.y * v.x}; };
    IP p = turn(a), q = turn(b); int h = half(p.x, p.y), k = half(q.x, q.y); if(h != k) return h < k ? -1 : 1;
    long long c = (long long)p.x * q.y - (long long)p.y * q.x; return c > 0 ? -1 : c < 0 ? 1 : 0;
}
struct Sim {
    Cmp cmp{1e-10}; Swarm sw; double u = 1; IP ref{1, 0}, org{0, 0}; long r = 4;
    struct Op { int what; Key k; bool neg; FaultPlan plan; };
    static Key ordered(Key k) { if(std::make_pair(k[2], k[3]) < std::make_pair(k[0], k[1])) { std::swap(k[0], k[2]); std::swap(k[1], k[3]); } return k; }
    double z(long v, bool neg) { return v == 0 && neg ? -0.0 : u * v; }
    P p2(const Key& k, bool neg = false) { return P(z(k[0], neg), z(k[1], neg)); }
    P3 p3(const Key& k, bool neg = false) { return P3(z(k[0], neg), z(k[1], neg), z(k[2], neg)); }
    V v2(const Key& k, bool neg = false) { return V(z(k[0], neg), z(k[1], neg)); }
    S s2(const Key& k, bool neg = false) { return S(P(z(k[0], neg), z(k[1], neg)), P(z(k[2], neg), z(k[3], neg))); }
    IP dir(const Key& k) { return IP{k[0], k[1]}; }
    std::string show(const Key& k, int n) { std::string s = "("; for(int i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(k[i]); return s + ")"; }

    // One container C of things made by Make, whose order by the model is Less.
    template <class C, class Make, class Less> void life(const char* what, int dims, C* c, Make make, Less less, const std::vector<Op>& ops) {
        std::vector<Key> m;      // in model order
        auto find = [&](const Key& k) { for(std::size_t i = 0; i < m.size(); ++i) if(!less(m[i], k) && !less(k, m[i])) return i; return m.size(); };
        for(auto& op : ops) {
            std::size_t i = find(op.k); bool there = i < m.size(), got = false; std::string k = show(op.k, dims);
            if(op.what < 3) {
                Outcome o = attempt(what, [&] { got = c->insert(make(op.k, op.neg)).second; }, op.plan, false, 500000);
                if(o == DONE) { GSIM_CHECK(got == !there, "wrong-equality", "%s: inserting %s %s, but %s is in the container", what, k.c_str(), got ? "succeeded" : "was refused", there ? show(m[i], dims).c_str() : "no equal one"); if(!there) m.insert(std::find_if(m.begin(), m.end(), [&](const Key& q) { return less(op.k, q); }), op.k); else probe("duplicate"); }
            } else if(op.what == 3) {
                std::size_t n = 0; attempt(what, [&] { n = c->erase(make(op.k, op.neg)); }, FaultPlan(), false, 500000);
                GSIM_CHECK(n == (there ? 1u : 0u), "wrong-erase", "%s: erasing %s removed %zu", what, k.c_str(), n); if(there) { m.erase(m.begin() + i); probe("erased"); }
            } else {
                std::size_t below = 0; attempt(what, [&] { got = c->find(make(op.k, op.neg)) != c->end(); below = std::distance(c->begin(), c->lower_bound(make(op.k, op.neg))); }, FaultPlan(), false, 500000);
                GSIM_CHECK(got == there, "wrong-lookup", "%s: %s %s", what, k.c_str(), got ? "is found and is not in" : "is in and is not found");
                std::size_t want = 0; for(auto& q : m) want += less(q, op.k); GSIM_CHECK(below == want, "wrong-order", "%s: %zu elements sort before %s, should be %zu", what, below, k.c_str(), want);
            }
            GSIM_CHECK(c->size() == m.size(), "wrong-size", "%s: %zu elements, should be %zu", what, c->size(), m.size());
            std::size_t j = 0; for(auto& e : *c) { GSIM_CHECK(same(e, m[j], make), "wrong-order", "%s: element %zu should be %s", what, j, show(m[j], dims).c_str()); ++j; }
            mix(m.size() * 8 + got); yield();
        }
        log("%s: %zu elements", what, m.size()); if(m.size() > 3) nontrivial(); probe(what); destroy(c);
    }
    template <class M> bool same(const P& e, const Key& k, M&) { return get<0>(e) == u * k[0] && get<1>(e) == u * k[1]; }
    template <class M> bool same(const V& e, const Key& k, M&) { return get<0>(e) == u * k[0] && get<1>(e) == u * k[1]; }
    template <class M> bool same(const P3& e, const Key& k, M&) { return get<0>(e) == u * k[0] && get<1>(e) == u * k[1] && get<2>(e) == u * k[2]; }
    template <class M> bool same(const S& e, const Key& k, M&) { return same(e.get_start(), k, *this) && same(e.get_end(), Key{k[2], k[3], 0, 0}, *this); }
    template <class A, class B, class M> bool same(const std::pair<A, B>& e, const Key& k, M&) { return std::is_same<A, P>::value ? same_of(e.first, k) : same_of(e.second, k); }
    bool same_of(const P& p, const Key& k) { return same(p, k, *this); } bool same_of(int, const Key&) { return true; }

    void container(int kind, const std::vector<Op>& ops) {
        auto lex = [](const Key& a, const Key& b) { return std::make_tuple(a[0], a[1]) < std::make_tuple(b[0], b[1]); };
        auto lex3 = [](const Key& a, const Key& b) { return std::make_tuple(a[0], a[1], a[2]) < std::make_tuple(b[0], b[1], b[2]); };
        auto f2 = [this](const Key& k, bool n) { return p2(k, n); }; auto f3 = [this](const Key& k, bool n) { return p3(k, n); };
        auto fv = [this](const Key& k, bool n) { return v2(k, n); };
        typedef lexicographical_comparer<Cmp> L; typedef reverse_lexicographical_point_compare<Cmp> R;
        switch(kind) {
        case 0: life("lexicographical_comparer", 2, setup([&] { return new std::set<P, L>(L(cmp)); }), f2, lex, ops); break;
        case 1: life("lexicographical_comparer in space", 3, setup([&] { return new std::set<P3, L>(L(cmp)); }), f3, lex3, ops); break;
        case 2: life("reverse_lexicographical_point_compare", 2, setup([&] { return new std::set<P, R>(R(cmp)); }), f2, [](const Key& a, const Key& b) { return std::make_tuple(a[1], a[0]) < std::make_tuple(b[1], b[0]); }, ops); break;
        case 3: life("reverse_lexicographical_point_compare in space", 3, setup([&] { return new std::set<P3, R>(R(cmp)); }), f3, [](const Key& a, const Key& b) { return std::make_tuple(a[2], a[1], a[0]) < std::make_tuple(b[2], b[1], b[0]); }, ops); break;
        case 4: { typedef dimension_compare<1, Cmp> D; life("dimension_compare", 2, setup([&] { return new std::set<P, D>(D(cmp)); }), f2, [](const Key& a, const Key& b) { return std::make_tuple(a[1], a[0]) < std::make_tuple(b[1], b[0]); }, ops); } break;
        case 5: { typedef dimension_compare<2, Cmp> D; life("dimension_compare in space", 3, setup([&] { return new std::set<P3, D>(D(cmp)); }), f3, [](const Key& a, const Key& b) { return std::make_tuple(a[2], a[0], a[1]) < std::make_tuple(b[2], b[0], b[1]); }, ops); } break;
        case 6: { typedef lexicographical_segment_compare<Cmp> D; life("lexicographical_segment_compare", 4, setup([&] { return new std::set<S, D>(D(cmp)); }), [this](const Key& k, bool n) { return s2(k, n); }, [](const Key& a, const Key& b) { return ordered(a) < ordered(b); }, ops); } break;
        case 7: { typedef vector_angle_compare<Cmp> D; life("vector_angle_compare", 2, setup([&] { return new std::set<V, D>(D(cmp)); }), fv, [this](const Key& a, const Key& b) { return angle_order(IP{1, 0}, dir(a), dir(b)) < 0; }, ops); } break;
        case 8: { typedef vector_angle_compare<Cmp> D; life("vector_angle_compare from a reference", 2, setup([&] { return new std::set<V, D>(D(V(u * ref.x, u * ref.y), cmp)); }), fv, [this](const Key& a, const Key& b) { return angle_order(ref, dir(a), dir(b)) < 0; }, ops); } break;
        case 9: { typedef point_angle_compare<Cmp> D; life("point_angle_compare", 2, setup([&] { return new std::set<P, D>(D(P(u * org.x, u * org.y), cmp)); }), f2, [this](const Key& a, const Key& b) { return angle_order(IP{1, 0}, IP{a[0] - org.x, a[1] - org.y}, IP{b[0] - org.x, b[1] - org.y}) < 0; }, ops); } break;
        case 10: { typedef pair_first_compare<L> D; typedef std::pair<P, int> Q; int n = 0; life("pair_first_compare", 2, setup([&] { return new std::set<Q, D>(D(L(cmp))); }), [this, &n](const Key& k, bool neg) { return Q(p2(k, neg), --n); }, lex, ops); } break;
        case 11: { typedef pair_second_compare<L> D; typedef std::pair<int, P> Q; int n = 0; life("pair_second_compare", 2, setup([&] { return new std::set<Q, D>(D(L(cmp))); }), [this, &n](const Key& k, bool neg) { return Q(--n, p2(k, neg)); }, lex, ops); } break;
        case 12: { struct D { bool operator()(const P3& a, const P3& b) const { return lexicographical_compare(get<0>(a), get<0>(b), get<1>(a), get<1>(b), get<2>(a), get<2>(b)); } }; life("lexicographical_compare of three keys", 3, setup([&] { return new std::set<P3, D>(); }), f3, lex3, ops); } break;
        case 13: { struct D { bool operator()(const P& a, const P& b) const { return lexicographical_compare(max_copy(get<0>(a), get<1>(a)), max_copy(get<0>(b), get<1>(b)), min_copy(get<1>(a), get<0>(a)), min_copy(get<1>(b), get<0>(b)), get<0>(a), get<0>(b)); } }; life("lexicographical_compare of computed keys", 2, setup([&] { return new std::set<P, D>(); }), f2, [](const Key& a, const Key& b) { return std::make_tuple(std::max(a[0], a[1]), std::min(a[0], a[1]), a[0]) < std::make_tuple(std::max(b[0], b[1]), std::min(b[0], b[1]), b[0]); }, ops); } break;
        default: angles(ops); break;
        }
    }
    // Questions about three directions at a time.
    void angles(const std::vector<Op>& ops) {
        for(std::size_t i = 0; i + 2 < ops.size(); ++i) {
            const Op &a = ops[i], &b = ops[i + 1], &c = ops[i + 2]; IP A = dir(a.k), B = dir(b.k), C = dir(c.k); bool bounds = a.what & 1, got = false; double pa = 0, pb = 0;
            attempt("is_vector_between", [&] { got = is_vector_between(v2(a.k, a.neg), v2(b.k, b.neg), v2(c.k, c.neg), bounds, cmp); pa = pseudo_angle(v2(a.k, a.neg)); pb = pseudo_angle(v2(b.k, b.neg)); }, FaultPlan(), false, 100000);
            auto along = [](IP x, IP y) { return (long long)x.x * y.y - (long long)x.y * y.x == 0 && (long long)x.x * y.x + (long long)x.y * y.y > 0; };
            bool want = along(C, B) || along(C, A) ? bounds : !along(A, B) && angle_order(A, C, B) < 0;
            GSIM_CHECK(got == want, "wrong-between", "%s is %s between %s and %s%s", show(c.k, 2).c_str(), got ? "reported" : "not reported", show(a.k, 2).c_str(), show(b.k, 2).c_str(), bounds ? " (bounds included)" : "");
            GSIM_CHECK(pa >= 0 && pa < 4, "pseudo-angle", "pseudo_angle of %s%s is %.17g, not in [0,4)", show(a.k, 2).c_str(), a.neg ? " (zeros negative)" : "", pa);
            int o = angle_order(IP{1, 0}, A, B); GSIM_CHECK(o == 0 ? std::fabs(pa - pb) < 1e-9 : o < 0 ? pa < pb : pa > pb, "pseudo-angle", "pseudo_angle of %s is %.17g and of %s is %.17g", show(a.k, 2).c_str(), pa, show(b.k, 2).c_str(), pb);
            mix(got * 2 + want); yield(); nontrivial();
        }
        probe("angles");
    }
    void run() {
        static const double us[] = {1, 0.25, 8}; u = us[choose(GEN, 3)]; r = 2 + (long)choose(GEN, 5);
        do { Span sp(GEN); ref = IP{lattice(GEN, 4), lattice(GEN, 4)}; if(ref.x == 0 && ref.y == 0) ref = IP{0, -1}; } while(false);
        org = IP{lattice(GEN, 3), lattice(GEN, 3)};
        std::vector<int> kinds; std::vector<std::vector<Op>> ops(sw.tasks);
        for(auto& v : ops) {
            int kind = (int)choose(OP, 16); if(kind > 14) kind = 6; kinds.push_back(kind); int n = 5 + (int)size_upto(OP, 24, 200);
            for(int i = 0; i < n; ++i) {
                Span sp(OP); Op o; o.what = (int)choose(OP, 5); for(auto& x : o.k) x = lattice(OP, r); o.neg = chance(OP, 1, 4);
                bool angular = kind >= 7 && (kind < 10 || kind == 14);
                if(!v.empty() && chance(OP, 1, 3)) { o.k = v[choose(OP, v.size())].k; long f = 1 + (long)choose(OP, 3); if(angular && kind != 9) { if(chance(OP, 1, 3)) f = -f; o.k[0] *= f; o.k[1] *= f; } else if(kind == 9) { o.k[0] = org.x + f * (o.k[0] - org.x); o.k[1] = org.y + f * (o.k[1] - org.y); } else if(kind == 13 && f == 2) std::swap(o.k[0], o.k[1]); else if(kind == 6 && f == 2) { std::swap(o.k[0], o.k[2]); std::swap(o.k[1], o.k[3]); } else if(kind == 6 && f == 3) { o.k[2] = lattice(OP, r); } }
                if(angular && kind != 9 && o.k[0] == 0 && o.k[1] == 0) o.k[0] = 1;
                if(kind == 9 && o.k[0] == org.x && o.k[1] == org.y) o.k[1] += 1;
                if(kind == 6 && o.k[0] == o.k[2] && o.k[1] == o.k[3]) o.k[3] += 1;
                if(kind == 8 && i == 0) { o.k[0] = -ref.x; o.k[1] = -ref.y; o.what = 0; }
                o.plan = draw_alloc_plan(sw.alloc_faults, 1, 5, 1); v.push_back(o);
            }
        }
        std::vector<std::function<void()>> bodies; for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { container(kinds[t], ops[t]); });
        parallel(bodies);
    }
};
#endif
} // namespace
void gsim_run() { Sim s; s.sw = draw_swarm(3); s.run(); }

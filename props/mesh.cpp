// Triangle meshes: point location, adjacency and search, random positions, visible vertices.
#include <boost/config.hpp>
#include <map>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/algorithm/orientation.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/mesh_2d.hpp>
#include <geometrix/algorithm/visible_vertices_mesh_search.hpp>
#include "geo.hpp"
#if defined(PROP_C09)
const char* const gsim_property = "C09";
#elif defined(PROP_C10)
const char* const gsim_property = "C10";
#elif defined(PROP_C11)
const char* const gsim_property = "C11";
#else
const char* const gsim_property = "C12";
#endif
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef absolute_tolerance_comparison_policy<double> cmp_t;
const std::size_t NONE = (std::size_t)-1;

namespace {
struct MeshIn {
    std::vector<IP> pts; std::vector<std::array<std::size_t, 3>> tri;      // counter-clockwise, valid
    std::vector<std::size_t> idx;                                          // as handed over: rotated, reversed, with degenerate ones
    std::size_t point(IP p) { for(std::size_t i = 0; i < pts.size(); ++i) if(pts[i] == p) return i; pts.push_back(p); return pts.size() - 1; }
    void add(IP a, IP b, IP c) { if(cross(a, b, c) < 0) std::swap(b, c); tri.push_back({point(a), point(b), point(c)}); }
    IP p(std::size_t t, int k) const { return pts[tri[t][k]]; }
};
MeshIn draw_mesh(int maxdim) {
    Span sp(GEN); MeshIn m;
    if(choose(GEN, 3) < 2) {                       // unit cells, each cut along one diagonal
        int w = (int)size_upto(GEN, maxdim, 2 * maxdim + 4), h = (int)size_upto(GEN, maxdim, 2 * maxdim + 4), fill = 1 + (int)choose(GEN, 3);
        Map2 f = draw_map(GEN);
        auto T = [&](long a, long b, long c, long d, long e, long g) { m.add(f(IP{a, b}), f(IP{c, d}), f(IP{e, g})); };
        for(int x = 0; x < w; ++x) for(int y = 0; y < h; ++y) {
            if((x || y) && (int)choose(GEN, 4) >= fill) continue;
            if(chance(GEN, 1, 2)) { T(x, y, x + 1, y, x + 1, y + 1); T(x, y, x + 1, y + 1, x, y + 1); }
            else { T(x, y, x + 1, y, x, y + 1); T(x + 1, y, x + 1, y + 1, x, y + 1); }
        }
    } else {                                       // a fan around a star polygon's centre
        std::vector<IP> r = draw_star_ring(GEN, chance(GEN, 1, 32) ? 40 : 9, 12, false); Map2 f{1, 0, 0, 1, lattice(GEN, 20), lattice(GEN, 20)};
        for(std::size_t i = 0; i < r.size(); ++i) m.add(f(IP{0, 0}), f(r[i]), f(r[(i + 1) % r.size()]));
    }
    // split some triangles at an inner point (coordinates times three)
    if(chance(GEN, 1, 3)) {
        for(auto& p : m.pts) { p.x *= 3; p.y *= 3; }
        int n = 1 + (int)choose(GEN, 3);
        for(int k = 0; k < n; ++k) {
            std::size_t t = choose(GEN, m.tri.size()); IP a = m.p(t, 0), b = m.p(t, 1), c = m.p(t, 2);
            if((a.x + b.x + c.x) % 3 || (a.y + b.y + c.y) % 3) continue;
            IP q{(a.x + b.x + c.x) / 3, (a.y + b.y + c.y) / 3};
            m.tri.erase(m.tri.begin() + t); m.add(a, b, q); m.add(b, c, q); m.add(c, a, q);
        }
    }
    if(chance(GEN, 1, 2)) for(std::size_t i = m.tri.size(); i > 1; --i) std::swap(m.tri[i - 1], m.tri[choose(GEN, i)]);
    bool junk = chance(GEN, 1, 3);
    for(auto& t : m.tri) {
        if(junk && chance(GEN, 1, 4)) { std::size_t a = choose(GEN, m.pts.size()), b = choose(GEN, m.pts.size()); m.idx.insert(m.idx.end(), {a, a, b}); }   // degenerate: to be ignored
        int r = (int)choose(GEN, 6); std::size_t a = t[r % 3], b = t[(r + 1) % 3], c = t[(r + 2) % 3];
        if(r >= 3) std::swap(b, c);
        m.idx.insert(m.idx.end(), {a, b, c});
    }
    return m;
}

template <class Cache> struct Sim {
    typedef mesh_2d<double, mesh_traits<Cache>> mesh_t;
    MeshIn in; mesh_t* mesh = nullptr; cmp_t cmp{1e-10};
    std::vector<std::array<IP, 3>> T;            // the mesh's own triangles, in its order
    std::vector<P>* pts = nullptr; std::vector<std::size_t>* idx = nullptr;

    void build(const Swarm& sw) {
        pts = setup([&] { auto* v = new std::vector<P>(); for(auto& p : in.pts) v->push_back(P(p.x, p.y)); return v; });
        idx = setup([&] { return new std::vector<std::size_t>(in.idx); });
        mesh = build_with_faults<mesh_t>("mesh construction", [&] { return new mesh_t(*pts, *idx, cmp); }, sw.alloc_faults);
        if(chance(OP, 1, 4)) {                   // meshes are values: use a copy, the original is gone
            probe("copied");
            mesh_t* c;
            if constexpr(std::is_same<Cache, triangle_grid_cache<double, dense_grid_type_generator>>::value) c = build_with_faults<mesh_t>("mesh copy", [&] { return new mesh_t(*mesh); }, false);
            else c = build_with_faults<mesh_t>("mesh move", [&] { return new mesh_t(std::move(*mesh)); }, false);
            destroy(mesh); mesh = c;
        }
        setup([&] { delete pts; delete idx; });
        // the triangles the mesh reports are the valid ones, counter-clockwise, over the same points
        std::size_t n = 0; std::vector<std::array<double, 6>> tv; std::vector<std::array<std::size_t, 3>> ti;
        attempt("triangle access", [&] { n = mesh->get_number_triangles(); InMode h(HARNESS); for(std::size_t i = 0; i < n; ++i) { ti.push_back(mesh->get_triangle_indices(i)); auto& v = mesh->get_triangle_vertices(i); tv.push_back({get<0>(v[0]), get<1>(v[0]), get<0>(v[1]), get<1>(v[1]), get<0>(v[2]), get<1>(v[2])}); } });
        GSIM_CHECK(n == in.tri.size(), "triangle-count", "%zu valid triangles went in, the mesh has %zu", in.tri.size(), n);
        std::multiset<std::array<std::size_t, 3>> a, b;
        auto canon = [](std::array<std::size_t, 3> t) { while(t[0] > t[1] || t[0] > t[2]) std::rotate(t.begin(), t.begin() + 1, t.end()); return t; };
        for(auto& t : in.tri) a.insert(canon(t));
        for(auto& t : ti) b.insert(canon(t));
        GSIM_CHECK(a == b, "triangles-differ", "the mesh's triangles are not the ones it was given, counter-clockwise");
        for(std::size_t i = 0; i < n; ++i) { std::array<IP, 3> t; for(int k = 0; k < 3; ++k) { t[k] = in.pts[ti[i][k]]; GSIM_CHECK(tv[i][2 * k] == t[k].x && tv[i][2 * k + 1] == t[k].y, "vertex-differs", "vertex %d of triangle %zu is not the point its index names", k, i); } T.push_back(t); }
        if(tracing()) for(std::size_t i = 0; i < n; ++i) log("  triangle %zu: (%ld,%ld) (%ld,%ld) (%ld,%ld)", i, T[i][0].x, T[i][0].y, T[i][1].x, T[i][1].y, T[i][2].x, T[i][2].y);
    }
    // p in k-ths: inside (or on) triangle i
    bool in_tri(IP p, std::size_t i, long k) const { for(int e = 0; e < 3; ++e) { IP a = T[i][e], b = T[i][(e + 1) % 3]; if(cross(IP{a.x * k, a.y * k}, IP{b.x * k, b.y * k}, p) < 0) return false; } return true; }
    void bounds(IP& lo, IP& hi) const { lo = IP{1 << 30, 1 << 30}; hi = IP{-(1 << 30), -(1 << 30)}; for(auto& p : in.pts) { lo.x = std::min(lo.x, p.x); lo.y = std::min(lo.y, p.y); hi.x = std::max(hi.x, p.x); hi.y = std::max(hi.y, p.y); } }
    IP draw_point8() {
        Span sp(OP); IP lo, hi; bounds(lo, hi);
        switch(choose(OP, 4)) {
        case 0: return IP{8 * lo.x - 24 + (long)choose(OP, 8 * (hi.x - lo.x) + 49), 8 * lo.y - 24 + (long)choose(OP, 8 * (hi.y - lo.y) + 49)};
        case 1: { IP p = in.pts[choose(OP, in.pts.size())]; return IP{8 * p.x, 8 * p.y}; }
        case 2: { auto& t = T[choose(OP, T.size())]; int e = (int)choose(OP, 3); long k = (long)choose(OP, 9); IP a = t[e], b = t[(e + 1) % 3]; return IP{8 * a.x + k * (b.x - a.x), 8 * a.y + k * (b.y - a.y)}; }
        default: { auto& t = T[choose(OP, T.size())]; long u = (long)choose(OP, 9), v = (long)choose(OP, 9 - u), w = 8 - u - v; return IP{u * t[0].x + v * t[1].x + w * t[2].x, u * t[0].y + v * t[1].y + w * t[2].y}; }
        }
    }
    void locate(IP q) {
        std::size_t got = NONE; P p(q.x / 8.0, q.y / 8.0);
        attempt("find_triangle", [&] { auto r = mesh->find_triangle(p, cmp); if(r) got = *r; });
        bool any = false; for(std::size_t i = 0; i < T.size() && !any; ++i) any = in_tri(q, i, 8);
        mix(got); log("find_triangle(%g,%g) -> %ld", q.x / 8.0, q.y / 8.0, (long)got);
        GSIM_CHECK(got == NONE || got < T.size(), "no-such-triangle", "find_triangle returned triangle %zu of %zu", got, T.size());
        if(any) { GSIM_CHECK(got != NONE, "point-not-found", "(%g,%g) lies in the mesh but no triangle was found", q.x / 8.0, q.y / 8.0); GSIM_CHECK(in_tri(q, got, 8), "wrong-triangle", "(%g,%g) is not in triangle %zu", q.x / 8.0, q.y / 8.0, got); probe("located"); }
        else { GSIM_CHECK(got == NONE, "phantom-triangle", "(%g,%g) lies outside the mesh but triangle %zu was returned", q.x / 8.0, q.y / 8.0, got); probe("outside"); }
    }

    // ---- adjacency and search ----
    std::vector<std::array<std::size_t, 3>> adj;       // by side
    void model_adjacency() {
        std::map<std::pair<IP, IP>, std::pair<std::size_t, int>> e;
        for(std::size_t i = 0; i < T.size(); ++i) for(int k = 0; k < 3; ++k) e[{T[i][k], T[i][(k + 1) % 3]}] = {i, k};
        adj.assign(T.size(), {NONE, NONE, NONE});
        for(std::size_t i = 0; i < T.size(); ++i) for(int k = 0; k < 3; ++k) { auto it = e.find({T[i][(k + 1) % 3], T[i][k]}); if(it != e.end()) adj[i][k] = it->second.first; }
    }
    void check_adjacency() {
        std::vector<std::array<std::size_t, 3>> got;
        attempt("get_adjacency_matrix", [&] { auto& m = mesh->get_adjacency_matrix(); InMode h(HARNESS); for(auto& r : m) got.push_back(r); });
        GSIM_CHECK(got.size() == T.size(), "adjacency", "adjacency has %zu rows for %zu triangles", got.size(), T.size());
        for(std::size_t i = 0; i < T.size(); ++i) for(int k = 0; k < 3; ++k) {
            GSIM_CHECK(got[i][k] == adj[i][k], "adjacency", "side %d of triangle %zu borders triangle %ld, the matrix says %ld", k, i, (long)adj[i][k], (long)got[i][k]);
            if(adj[i][k] != NONE) {
                std::size_t side = 9; attempt("get_triangle_adjacent_side", [&] { side = get_triangle_adjacent_side(mesh->get_triangle_indices(i), mesh->get_triangle_indices(adj[i][k])); });
                GSIM_CHECK(side == (std::size_t)k, "adjacent-side", "triangles %zu and %zu share side %d, got %zu", i, adj[i][k], k, side);
            }
        }
    }
    struct Item { std::size_t from, to; std::size_t get_triangle_index() const { return to; } };
    struct Visitor {
        typedef Item edge_item;
        Sim* s; std::size_t start; std::vector<char> seen; std::vector<std::size_t> order; std::size_t stop_at, throw_at; bool stopped = false, reenter; unsigned decline; std::size_t calls = 0; Item current{NONE, NONE}; std::set<std::pair<std::size_t, std::size_t>> accepted, declined;
        Item get_start() { InMode h(HARNESS); seen.assign(s->T.size(), 0); seen[start] = 1; accepted.insert({NONE, start}); return Item{NONE, start}; }
        bool visit(const Item& it) {
            InMode h(HARNESS); std::size_t f = it.from, t = it.to;
            GSIM_CHECK(!stopped, "called-after-stop", "the search visited another triangle after the visitor asked to stop");
            GSIM_CHECK(accepted.erase({f, t}) == 1, "visited-unprepared", "triangle %zu was visited from %ld without having been accepted exactly once", t, (long)f);
            current = Item{f, t}; order.push_back(t); mix(t); yield();
            if(reenter && order.size() == 2) s->one_search(start, 0, 0, false, 0);
            if(throw_at && order.size() == throw_at) { stopped = true; fault("visitor-throw"); throw SimThrow{1}; }
            if(stop_at && order.size() == stop_at) { stopped = true; return false; }
            return true;
        }
        boost::optional<Item> prepare_adjacent_traversal(std::size_t next, const Item& it) {
            InMode h(HARNESS); ++calls;
            GSIM_CHECK(!stopped, "called-after-stop", "the search prepared another triangle after the visitor asked to stop");
            GSIM_CHECK(it.to == current.to && it.from == current.from, "wrong-parent", "triangle %zu is offered from %zu while %zu was visited last", next, it.to, current.to);
            bool nb = false; for(std::size_t a : s->adj[it.to]) nb = nb || a == next;
            GSIM_CHECK(nb && next != NONE, "not-adjacent", "triangle %ld was offered from %zu, which it does not border", (long)next, it.to);
            GSIM_CHECK(next != it.from, "went-back", "triangle %zu was offered back from %zu", next, it.to);
            if(decline && !seen[next] && (s->T.size() + next * 7 + start) % 5 < decline) { declined.insert({it.to, next}); return boost::none; }
            if(seen[next]) return boost::none;
            seen[next] = 1; accepted.insert({it.to, next});
            return boost::optional<Item>(Item{it.to, next});
        }
    };
    void one_search(std::size_t start, std::size_t stop_at, std::size_t throw_at, bool reenter, unsigned decline) {
        Visitor v; v.s = this; v.start = start; v.stop_at = stop_at; v.throw_at = throw_at; v.reenter = reenter; v.decline = decline;
        Outcome o = attempt("mesh search", [&] { mesh->search(v); }, FaultPlan(), throw_at != 0);
        log("search from %zu visited %zu triangles%s%s", start, v.order.size(), v.stopped ? ", stopped" : "", o == THREW ? ", threw" : "");
        if(v.stopped) { probe("stopped"); return; }
        // reachable set through the neighbours the visitor did not decline
        std::set<std::size_t> want{start}; std::vector<std::size_t> st{start};
        while(!st.empty()) { std::size_t t = st.back(); st.pop_back(); for(std::size_t a : adj[t]) if(a != NONE && !(decline && (T.size() + a * 7 + start) % 5 < decline) && want.insert(a).second) st.push_back(a); }
        std::set<std::size_t> got(v.order.begin(), v.order.end());
        GSIM_CHECK(got.size() == v.order.size(), "visited-twice", "a triangle was visited twice");
        GSIM_CHECK(got == want, "not-reached", "%zu triangles are reachable from %zu, %zu were visited", want.size(), start, got.size());
        GSIM_CHECK(v.accepted.empty(), "dropped", "%zu accepted triangles were never visited", v.accepted.size());
        if(want.size() > 3) { nontrivial(); probe("complete-search"); }
    }

    // ---- random positions ----
    void random_positions() {
        struct W { std::size_t k; };
        auto extreme = [&](int denom) { int how = (int)choose(OP, 6); return how == 0 ? 0.0 : how == 1 ? 1.0 : how == 2 ? std::nextafter(1.0, 0.0) : how == 3 ? std::nextafter(0.0, 1.0) : choose(OP, denom + 1) / (double)denom; };
        int n = 1 + (int)choose(OP, 8);
        for(int k = 0; k < n; ++k) {
            double rt = extreme((int)T.size()), r1 = extreme(8), r2 = extreme(8), x = 0, y = 0;
            attempt("get_random_position", [&] { P p = mesh->get_random_position(rt, r1, r2); x = get<0>(p); y = get<1>(p); });
            mixd(x); mixd(y); log("random position (%.17g, %.17g, %.17g) -> (%g,%g)", rt, r1, r2, x, y);
            GSIM_CHECK(std::isfinite(x) && std::isfinite(y), "not-a-point", "the random position for (%g,%g,%g) is (%g,%g)", rt, r1, r2, x, y);
            double best = 1e300;
            for(auto& t : T) { double worst = 0; for(int e = 0; e < 3; ++e) { IP a = t[e], b = t[(e + 1) % 3]; double l = std::hypot(b.x - a.x, b.y - a.y), c = ((b.x - a.x) * (y - a.y) - (b.y - a.y) * (x - a.x)) / l; worst = std::max(worst, -c); } best = std::min(best, worst); }
            GSIM_CHECK(best < 1e-7, "outside-mesh", "the random position for (%g,%g,%g) is (%g,%g), %g outside the mesh", rt, r1, r2, x, y, best);
            if(rt == 1.0) probe("upper-extreme"); if(rt == 0.0) probe("lower-extreme");
        }
        // share of the first random number that lands in each triangle: its share of the area
        const int K = 240; std::vector<int> hits(T.size(), 0); double total = 0; std::vector<double> area;
        for(auto& t : T) { area.push_back(cross(t[0], t[1], t[2]) / 2.0); total += area.back(); }
        std::vector<double> xs, ys;
        attempt("get_random_position sweep", [&] { for(int k = 0; k < K; ++k) { P p = mesh->get_random_position((k + 0.5) / K, 0.5, 0.5); InMode h(HARNESS); xs.push_back(get<0>(p)); ys.push_back(get<1>(p)); } });
        for(int k = 0; k < K; ++k) for(std::size_t i = 0; i < T.size(); ++i) { bool inside = true; for(int e = 0; e < 3; ++e) { IP a = T[i][e], b = T[i][(e + 1) % 3]; inside = inside && (b.x - a.x) * (ys[k] - a.y) - (b.y - a.y) * (xs[k] - a.x) > 1e-9; } hits[i] += inside; }
        for(std::size_t i = 0; i < T.size(); ++i) GSIM_CHECK(std::fabs(hits[i] - K * area[i] / total) <= 2.0, "not-by-area", "triangle %zu has %g of the area and got %d of %d evenly spread positions", i, area[i] / total, hits[i], K);
        // within one triangle: evenly spread second and third numbers spread by area
        const int M = 24; int corner[3] = {0, 0, 0}, cells = 0; double rt = choose(OP, K) / (double)K + 0.5 / K; std::vector<double> px, py;
        attempt("get_random_position grid", [&] { for(int a = 0; a < M; ++a) for(int b = 0; b < M; ++b) { P p = mesh->get_random_position(rt, (a + 0.5) / M, (b + 0.5) / M); InMode h(HARNESS); px.push_back(get<0>(p)); py.push_back(get<1>(p)); } });
        std::size_t host = NONE;
        for(std::size_t i = 0; i < T.size() && host == NONE; ++i) { bool inside = true; for(int e = 0; e < 3; ++e) { IP a = T[i][e], b = T[i][(e + 1) % 3]; inside = inside && (b.x - a.x) * (py[M * M / 2 + M / 2] - a.y) - (b.y - a.y) * (px[M * M / 2 + M / 2] - a.x) > 1e-9; } if(inside) host = i; }
        GSIM_CHECK(host != NONE, "outside-mesh", "the random position for (%g,0.5,0.5) is (%g,%g)", rt, px[M * M / 2 + M / 2], py[M * M / 2 + M / 2]);
        for(std::size_t q = 0; q < px.size(); ++q) { ++cells; for(int e = 0; e < 3; ++e) { IP v = T[host][e], a = T[host][(e + 1) % 3], b = T[host][(e + 2) % 3]; double area2 = (double)cross(a, b, v), w = ((b.x - a.x) * (py[q] - a.y) - (b.y - a.y) * (px[q] - a.x)) / area2; GSIM_CHECK(w > -1e-9, "wrong-triangle", "positions with the same first number %g lie in different triangles", rt); corner[e] += w > 0.5; } }
        for(int e = 0; e < 3; ++e) GSIM_CHECK(std::fabs(corner[e] - cells / 4.0) <= cells * 0.06, "not-by-area", "a quarter of triangle %zu got %d of %d evenly spread positions", host, corner[e], cells);
        nontrivial();
    }

    // ---- visible vertices ----
    void visible(bool at_vertex) {
        // viewpoint strictly inside a triangle, or exactly at one of its vertices
        std::size_t t0 = choose(OP, T.size()); IP o;      // in 12ths
        if(at_vertex) { IP p = T[t0][choose(OP, 3)]; o = IP{12 * p.x, 12 * p.y}; }
        else { long u = 1 + (long)choose(OP, 10), v = 1 + (long)choose(OP, 11 - u), w = 12 - u - v; auto& t = T[t0]; o = IP{u * t[0].x + v * t[1].x + w * t[2].x, u * t[0].y + v * t[1].y + w * t[2].y}; }
        typedef visible_vertices_mesh_search_traits<double, mesh_t, cmp_t> tr; typedef visible_vertices_mesh_search<tr> search_t;
        std::vector<std::size_t> got; P op(o.x / 12.0, o.y / 12.0);
        if(at_vertex) { int out = 0; for(std::size_t i = 0; i < T.size(); ++i) for(int k = 0; k < 3; ++k) out += adj[i][k] == NONE && IP{12 * T[i][k].x, 12 * T[i][k].y} == o; if(out > 1) return; }   // parts meeting only at the viewpoint: not joined for a search across edges
        log("visible vertices from (%g,%g) in triangle %zu%s", op[0], op[1], t0, at_vertex ? ", at a vertex" : "");
        attempt("visible vertex search", [&] { search_t s(op, t0, *mesh); mesh->search(s); InMode h(HARNESS); got.assign(s.get_vertices().begin(), s.get_vertices().end()); }, FaultPlan(), false, 5000000);
        std::set<std::size_t> g(got.begin(), got.end());
        for(std::size_t i : got) mix(i);
        for(std::size_t i : g) GSIM_CHECK(i < in.pts.size(), "no-such-vertex", "vertex %zu of %zu was reported", i, in.pts.size());
        std::set<std::size_t> used; for(auto& t : in.tri) for(std::size_t i : t) used.insert(i);
        // visibility by exact walking: the open segment from o to v is clear when, cut at every mesh edge it meets, each piece lies in some triangle
        for(std::size_t vi : used) {
            IP v{12 * in.pts[vi].x, 12 * in.pts[vi].y};
            if(v == o) continue;
            int vis = see(o, v);
            bool has = g.count(vi);
            if(vis == 2) GSIM_CHECK(has, "missed-vertex", "vertex %zu (%ld,%ld) is in plain view of (%g,%g) but was not reported", vi, in.pts[vi].x, in.pts[vi].y, op[0], op[1]);
            if(vis == 0) GSIM_CHECK(!has, "phantom-vertex", "vertex %zu (%ld,%ld) is hidden from (%g,%g) but was reported", vi, in.pts[vi].x, in.pts[vi].y, op[0], op[1]);
            probe(vis == 2 ? "visible" : vis == 1 ? "grazing" : "hidden");
        }
        if(used.size() > 6) nontrivial();
    }
    // 2: the open segment runs through the interior of the mesh, 0: part of it leaves the closed mesh, 1: it only grazes the border
    int see(IP o, IP v) const {
        typedef long double D;
        std::vector<D> ts{0, 1}; bool graze = false;
        D dx = v.x - o.x, dy = v.y - o.y;
        for(std::size_t i = 0; i < T.size(); ++i) for(int k = 0; k < 3; ++k) {
            IP a{12 * T[i][k].x, 12 * T[i][k].y}, b{12 * T[i][(k + 1) % 3].x, 12 * T[i][(k + 1) % 3].y};
            long long ca = cross(o, v, a), cb = cross(o, v, b); bool border = adj[i][k] == NONE;
            if(ca == 0) { D t = ((a.x - o.x) * dx + (a.y - o.y) * dy) / (dx * dx + dy * dy); if(t > 1e-12L && t < 1 - 1e-12L) { ts.push_back(t); graze = graze || on_border(a); } }
            if((ca < 0 && cb > 0) || (ca > 0 && cb < 0)) { D w = (D)ca / (ca - cb), x = a.x + w * (b.x - a.x) - o.x, y = a.y + w * (b.y - a.y) - o.y, t = (x * dx + y * dy) / (dx * dx + dy * dy); if(t > 1e-12L && t < 1 - 1e-12L) { ts.push_back(t); (void)border; } }
            if(ca == 0 && cb == 0 && border) { D ta = ((a.x - o.x) * dx + (a.y - o.y) * dy) / (dx * dx + dy * dy), tb = ((b.x - o.x) * dx + (b.y - o.y) * dy) / (dx * dx + dy * dy); if(std::max(ta, tb) > 1e-12L && std::min(ta, tb) < 1 - 1e-12L) graze = true; }
        }
        std::sort(ts.begin(), ts.end());
        for(std::size_t i = 0; i + 1 < ts.size(); ++i) {
            if(ts[i + 1] - ts[i] < 1e-12L) continue;
            D t = (ts[i] + ts[i + 1]) / 2, x = o.x + t * dx, y = o.y + t * dy; bool in_any = false;
            for(auto& q : T) { bool inside = true; for(int e = 0; e < 3; ++e) { D ax = 12 * q[e].x, ay = 12 * q[e].y, bx = 12 * q[(e + 1) % 3].x, by = 12 * q[(e + 1) % 3].y; inside = inside && (bx - ax) * (y - ay) - (by - ay) * (x - ax) >= -1e-9L; } in_any = in_any || inside; }
            if(!in_any) return 0;
        }
        return graze ? 1 : 2;
    }
    bool on_border(IP p12) const { for(std::size_t i = 0; i < T.size(); ++i) for(int k = 0; k < 3; ++k) if(adj[i][k] == NONE && (IP{12 * T[i][k].x, 12 * T[i][k].y} == p12 || IP{12 * T[i][(k + 1) % 3].x, 12 * T[i][(k + 1) % 3].y} == p12)) return true; return false; }

    void run() {
        Swarm sw = draw_swarm();
        in = draw_mesh(4);
        std::int64_t base = live_blocks();
        build(sw); model_adjacency();
        std::vector<std::function<void()>> bodies;
#if defined(PROP_C09)
        std::vector<std::vector<IP>> qs(sw.tasks);
        for(auto& v : qs) { int k = 1 + (int)choose(OP, 8); for(int i = 0; i < k; ++i) v.push_back(draw_point8()); }
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([this, &qs, t] { for(auto& q : qs[t]) locate(q); });
        parallel(bodies);
        if(T.size() > 3) nontrivial();
#elif defined(PROP_C10)
        check_adjacency();
        struct Q { std::size_t start, stop, thr; bool re; unsigned dec; };
        std::vector<std::vector<Q>> qs(sw.tasks);
        for(auto& v : qs) { Span sp(OP); int k = 1 + (int)choose(OP, 3); for(int i = 0; i < k; ++i) v.push_back(Q{(std::size_t)choose(OP, T.size()), sw.early_stop && chance(OP, 1, 3) ? (std::size_t)choose(OP, 6) : 0, sw.throwing_callbacks && chance(FAULT, 1, 3) ? 1 + (std::size_t)choose(FAULT, 5) : 0, sw.reentry && chance(OP, 1, 3), chance(OP, 1, 3) ? 1 + (unsigned)choose(OP, 3) : 0}); }
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([this, &qs, t] { for(auto& q : qs[t]) one_search(q.start, q.stop, q.thr, q.re, q.dec); });
        parallel(bodies);
        check_adjacency();
#elif defined(PROP_C11)
        for(int t = 0; t < sw.tasks && t < 2; ++t) bodies.push_back([this] { random_positions(); });
        parallel(bodies);
#else
        std::vector<std::vector<char>> qs(sw.tasks);
        for(auto& v : qs) { int k = 1 + (int)choose(OP, 4); for(int i = 0; i < k; ++i) v.push_back(chance(OP, 1, 3)); }
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([this, &qs, t] { for(char q : qs[t]) visible(q); });
        parallel(bodies);
#endif
        destroy(mesh);
        GSIM_CHECK(live_blocks() <= base, "leak", "%lld blocks still allocated after the mesh was destroyed", (long long)(live_blocks() - base));
    }
};
} // namespace
void gsim_run() {
    if(chance(GEN, 1, 2)) { log("sparse cache"); Sim<triangle_grid_cache<double, sparse_grid_type_generator>> s; s.run(); }
    else { log("dense cache"); Sim<triangle_grid_cache<double, dense_grid_type_generator>> s; s.run(); }
}

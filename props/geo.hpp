// Exact integer geometry used by the oracles, and generators of closed solids.
#pragma once
#include "common.hpp"

namespace hx {
struct ISeg { IP a, b; };
enum Where { INSIDE = -1, BORDER = 0, OUTSIDE = 1 };

inline bool on_seg(IP p, ISeg s) {
    if(cross(s.a, s.b, p) != 0) return false;
    return std::min(s.a.x, s.b.x) <= p.x && p.x <= std::max(s.a.x, s.b.x) && std::min(s.a.y, s.b.y) <= p.y && p.y <= std::max(s.a.y, s.b.y);
}
// Even-odd classification; p and the segments in the same integer units.
inline Where classify(IP p, const std::vector<ISeg>& segs) {
    bool in = false;
    for(auto& s : segs) {
        if(on_seg(p, s)) return BORDER;
        if((s.a.y > p.y) != (s.b.y > p.y)) {
            // x of the crossing > p.x ?
            long long c = cross(s.a, s.b, p);
            if((s.b.y > s.a.y) ? c > 0 : c < 0) in = !in;
        }
    }
    return in ? INSIDE : OUTSIDE;
}
inline std::vector<ISeg> scaled(const std::vector<ISeg>& s, long k) { std::vector<ISeg> r(s); for(auto& e : r) { e.a.x *= k; e.a.y *= k; e.b.x *= k; e.b.y *= k; } return r; }

struct Map2 { long a, b, c, d, tx, ty; IP operator()(IP p) const { return IP{a * p.x + b * p.y + tx, c * p.x + d * p.y + ty}; } };
inline Map2 draw_map(Channel ch) {
    static const Map2 maps[] = {{1, 0, 0, 1, 0, 0}, {2, 0, 0, 3, 0, 0}, {0, -1, 1, 0, 0, 0}, {1, 1, 0, 1, 0, 0}, {2, -1, 1, 2, 0, 0}, {3, 1, -1, 2, 0, 0}, {-1, 0, 0, -1, 0, 0}, {1, 0, 2, 1, 0, 0}, {5, -3, 2, 4, 0, 0}};
    Map2 m = maps[choose(ch, 9)];
    m.tx = lattice(ch, 20); m.ty = lattice(ch, 20);
    if(chance(ch, 1, 8)) { m.tx += 1000; m.ty -= 700; }
    return m;
}
struct Solid {
    std::vector<ISeg> edges;       // interior on the left of a->b
    long lo_x, lo_y, hi_x, hi_y;
    const char* kind;
    void bounds() {
        lo_x = lo_y = 1 << 30; hi_x = hi_y = -(1 << 30);
        for(auto& e : edges) for(IP p : {e.a, e.b}) { lo_x = std::min(lo_x, p.x); lo_y = std::min(lo_y, p.y); hi_x = std::max(hi_x, p.x); hi_y = std::max(hi_y, p.y); }
    }
};
// Union of unit cells, possibly with holes and several components; edges are
// left as unit edges or merged into maximal collinear runs.
inline Solid draw_cells(Channel ch, int maxdim = 5, bool allow_corner_touch = true) {
    Solid s; s.kind = "cells";
    if(chance(ch, 1, 32)) maxdim = 2 * maxdim + 2;
    int w = 1 + (int)choose(ch, maxdim), h = 1 + (int)choose(ch, maxdim);
    std::vector<std::vector<int>> g(w + 2, std::vector<int>(h + 2, 0));
    int fill = 1 + (int)choose(ch, 3);
    for(int x = 1; x <= w; ++x) for(int y = 1; y <= h; ++y) g[x][y] = (int)choose(ch, 4) < fill;
    g[1][1] = 1;
    if(!allow_corner_touch) {
        bool again = true;
        while(again) { again = false; for(int x = 0; x <= w; ++x) for(int y = 0; y <= h; ++y) if(g[x][y] == g[x + 1][y + 1] && g[x + 1][y] == g[x][y + 1] && g[x][y] != g[x + 1][y]) { for(int i = 0; i < 2; ++i) for(int j = 0; j < 2; ++j) if(x + i >= 1 && x + i <= w && y + j >= 1 && y + j <= h) g[x + i][y + j] = 1; again = true; } }
    }
    bool merge = chance(ch, 1, 2);
    std::vector<ISeg> e;
    for(int x = 1; x <= w; ++x) for(int y = 1; y <= h; ++y) if(g[x][y]) {
        if(!g[x][y - 1]) e.push_back({{x, y}, {x + 1, y}});
        if(!g[x + 1][y]) e.push_back({{x + 1, y}, {x + 1, y + 1}});
        if(!g[x][y + 1]) e.push_back({{x + 1, y + 1}, {x, y + 1}});
        if(!g[x - 1][y]) e.push_back({{x, y + 1}, {x, y}});
    }
    if(merge) {
        for(bool again = true; again;) {
            again = false;
            for(size_t i = 0; i < e.size() && !again; ++i) for(size_t j = 0; j < e.size(); ++j) if(i != j && e[i].b == e[j].a && cross(e[i].a, e[i].b, e[j].b) == 0 && ((e[i].b.x - e[i].a.x) * (e[j].b.x - e[j].a.x) + (e[i].b.y - e[i].a.y) * (e[j].b.y - e[j].a.y)) > 0) { e[i].b = e[j].b; e.erase(e.begin() + j); again = true; break; }
        }
    }
    Map2 m = draw_map(ch);
    for(auto& q : e) s.edges.push_back({m(q.a), m(q.b)});
    s.bounds();
    return s;
}
// One simple polygon, star-shaped about the origin (counter-clockwise ring).
inline std::vector<IP> draw_star_ring(Channel ch, int maxn = 10, long r = 12, bool rare = true) {
    if(rare && chance(ch, 1, 32)) { maxn *= 5; r *= 3; }
    int n = 3 + (int)choose(ch, maxn - 2);
    std::vector<IP> pts;
    for(int i = 0; i < n; ++i) { IP p{lattice(ch, r), lattice(ch, r)}; if(p.x || p.y) pts.push_back(p); }
    pts.push_back({r, 1}); pts.push_back({-r / 2 - 1, r}); pts.push_back({-r / 2, -r});
    auto half = [](IP p) { return p.y < 0 || (p.y == 0 && p.x < 0); };
    std::sort(pts.begin(), pts.end(), [&](IP a, IP b) { if(half(a) != half(b)) return half(a) < half(b); long long c = cross({0, 0}, a, b); if(c != 0) return c > 0; return a.x * a.x + a.y * a.y < b.x * b.x + b.y * b.y; });
    std::vector<IP> r2;
    for(auto p : pts) { if(!r2.empty() && half(r2.back()) == half(p) && cross({0, 0}, r2.back(), p) == 0) continue; r2.push_back(p); }
    // no consecutive angular gap of 180 degrees or more: the three anchors see to that
    return r2;
}
inline Solid ring_solid(const std::vector<IP>& r, Map2 m) { Solid s; s.kind = "star polygon"; for(size_t i = 0; i < r.size(); ++i) s.edges.push_back({m(r[i]), m(r[(i + 1) % r.size()])}); s.bounds(); return s; }
inline Solid draw_solid(Channel ch) {
    Span sp(ch);
    Solid s;
    if(choose(ch, 3) < 2) s = draw_cells(ch);
    else { std::vector<IP> r = draw_star_ring(ch); Map2 m{1, 0, 0, 1, lattice(ch, 20), lattice(ch, 20)}; s = ring_solid(r, m); }
    // order of the edges is the caller's business: shuffle by simulator choice
    if(chance(ch, 1, 2)) for(size_t i = s.edges.size(); i > 1; --i) std::swap(s.edges[i - 1], s.edges[choose(ch, i)]);
    return s;
}
inline double seg_dist(double px, double py, ISeg s) {
    double ax = s.a.x, ay = s.a.y, bx = s.b.x, by = s.b.y, dx = bx - ax, dy = by - ay;
    double t = ((px - ax) * dx + (py - ay) * dy) / (dx * dx + dy * dy); t = std::max(0.0, std::min(1.0, t));
    return std::hypot(px - ax - t * dx, py - ay - t * dy);
}
} // namespace hx

// Exact meeting, cutting and simplicity of lattice chains and rings, and their generators.
#pragma once
#include "geo.hpp"

namespace hx {
typedef std::vector<IP> Ring;
inline std::string show(const Ring& r) { std::string s; for(auto& p : r) s += "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; return s; }

// ---- the exact oracle: how two lattice segments of positive length meet
enum Meet { NONE, CROSS, TOUCH, OVERLAP };
struct Meeting { Meet m = NONE; double x[2], y[2]; long sn[2], sd; };   // sn/sd: parameters along the first segment
inline Meeting meet(ISeg a, ISeg b) {
    Meeting r; long long dx = a.b.x - a.a.x, dy = a.b.y - a.a.y, ex = b.b.x - b.a.x, ey = b.b.y - b.a.y;
    long long den = dx * ey - dy * ex;
    if(den == 0) {
        if(cross(a.a, a.b, b.a) != 0) return r;
        long long L = dx * dx + dy * dy, u = (b.a.x - a.a.x) * dx + (b.a.y - a.a.y) * dy, v = (b.b.x - a.a.x) * dx + (b.b.y - a.a.y) * dy;
        long long lo = std::max(0LL, std::min(u, v)), hi = std::min(L, std::max(u, v));
        if(lo > hi) return r;
        r.m = lo == hi ? TOUCH : OVERLAP; r.sn[0] = lo; r.sn[1] = hi; r.sd = L;
    } else {
        long long s = (b.a.x - a.a.x) * ey - (b.a.y - a.a.y) * ex, t = (b.a.x - a.a.x) * dy - (b.a.y - a.a.y) * dx;
        if(den < 0) { den = -den; s = -s; t = -t; }
        if(s < 0 || s > den || t < 0 || t > den) return r;
        r.m = (s == 0 || s == den || t == 0 || t == den) ? TOUCH : CROSS; r.sn[0] = r.sn[1] = s; r.sd = den;
    }
    for(int k = 0; k < 2; ++k) { r.x[k] = a.a.x + (double)dx * r.sn[k] / r.sd; r.y[k] = a.a.y + (double)dy * r.sn[k] / r.sd; }
    return r;
}
inline std::vector<ISeg> ring_edges(const Ring& r) { std::vector<ISeg> e; for(std::size_t i = 0; i < r.size(); ++i) e.push_back({r[i], r[(i + 1) % r.size()]}); return e; }
inline bool ring_simple(const Ring& r) {
    auto e = ring_edges(r); std::size_t n = e.size();
    for(std::size_t i = 0; i < n; ++i) for(std::size_t j = i + 2; j < n; ++j) if(!(i == 0 && j == n - 1) && meet(e[i], e[j]).m != NONE) return false;
    return true;
}
// Cuts s at every meeting with the border; tells for each elementary piece whether it lies in the closed region.
struct Piece { double lo, hi; Where w; };
inline std::vector<Piece> cut(ISeg s, const std::vector<ISeg>& border) {
    std::vector<std::pair<long long, long long>> t{{0, 1}, {1, 1}};
    for(auto& e : border) { Meeting m = meet(s, e); if(m.m == NONE) continue; for(int k = 0; k < 2; ++k) t.push_back({m.sn[k], m.sd}); }
    std::sort(t.begin(), t.end(), [](auto a, auto b) { return a.first * b.second < b.first * a.second; });
    t.erase(std::unique(t.begin(), t.end(), [](auto a, auto b) { return a.first * b.second == b.first * a.second; }), t.end());
    std::vector<Piece> out;
    for(std::size_t i = 0; i + 1 < t.size(); ++i) {
        auto a = t[i], b = t[i + 1]; for(auto* q : {&a, &b}) { long long g = std::__gcd(q->first, q->second); if(g) { q->first /= g; q->second /= g; } }
        long long D = 2 * a.second * b.second, N = a.first * b.second + b.first * a.second;
        IP m{(long)(s.a.x * D + (s.b.x - s.a.x) * N), (long)(s.a.y * D + (s.b.y - s.a.y) * N)};
        out.push_back({(double)a.first / a.second, (double)b.first / b.second, classify(m, scaled(border, D))});
    }
    return out;
}
inline bool seg_inside(ISeg s, const std::vector<ISeg>& border) { for(auto& p : cut(s, border)) if(p.w == OUTSIDE) return false; return true; }

inline Ring draw_chain(Channel ch, int minn, int maxn, long r) {
    Ring c; if(chance(ch, 1, 32)) maxn *= 4; int n = minn + (int)choose(ch, maxn - minn + 1); bool walk = chance(ch, 1, 2);
    while((int)c.size() < n) {
        Span sp(ch); IP p{lattice(ch, r), lattice(ch, r)};
        if(walk && !c.empty()) { static const int d[8][2] = {{1, 0}, {0, 1}, {-1, 0}, {0, -1}, {1, 1}, {-1, 1}, {-1, -1}, {1, -1}}; int k = (int)choose(ch, 8); long s = 1 + (long)choose(ch, 3); p = IP{c.back().x + d[k][0] * s, c.back().y + d[k][1] * s}; }
        if(chance(ch, 1, 6) && !c.empty()) p = c[choose(ch, c.size())];              // back to an earlier vertex
        if(!c.empty() && p == c.back()) p.x += 1;
        c.push_back(p);
    }
    return c;
}
inline Ring draw_ring(Channel ch, long r) {
    std::uint64_t k = choose(ch, 4);
    if(k == 0) { Ring c = draw_star_ring(ch, 8, r < 4 ? 4 : r); return c; }
    if(k == 1) { Ring c{{0, 0}, {2 + (long)choose(ch, r), 0}, {2 + (long)choose(ch, r), 1 + (long)choose(ch, r)}, {0, 1 + (long)choose(ch, r)}}; return c; }
    for(;;) { Ring c = draw_chain(ch, 3, 9, r); while(c.size() > 3 && c.back() == c.front()) c.pop_back(); if(c.back() == c.front()) c.back() = IP{c[0].x + 1, c[0].y + 2}; bool ok = c.size() >= 3; for(std::size_t i = 0; i < c.size(); ++i) ok = ok && !(c[i] == c[(i + 1) % c.size()]); if(c.size() == 3 && cross(c[0], c[1], c[2]) == 0) ok = false; if(ok) return c; c = {{0, 0}, {3, 0}, {0, 3}}; return c; }
}
inline Ring draw_simple(Channel ch, long r) {
    for(int t = 0; t < 12; ++t) { Span sp(ch); Ring c = draw_ring(ch, r); if(ring_simple(c)) { long long a = 0; for(std::size_t i = 0; i < c.size(); ++i) a += cross({0, 0}, c[i], c[(i + 1) % c.size()]); if(a != 0) return c; } }
    return draw_star_ring(ch, 8, r < 4 ? 4 : r);
}
} // namespace hx

// Bentley-Ottmann sweep: every meeting point of the segments once, in sweep
// order, with exactly the segments that meet there.
#include <boost/config.hpp>
#include <map>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/algorithm/intersection/segment_segment_intersection.hpp>
#include <geometrix/algorithm/bentley_ottmann_segment_intersection.hpp>
#include "geo.hpp"
const char* const gsim_property = "C14";
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef segment_double_2d S;
typedef absolute_tolerance_comparison_policy<double> cmp_t;

namespace {
struct Rat { long long n, d; };           // d > 0, reduced
inline long long gcdll(long long a, long long b) { if(a < 0) a = -a; if(b < 0) b = -b; while(b) { long long t = a % b; a = b; b = t; } return a ? a : 1; }
inline Rat mkrat(long long n, long long d) { if(d < 0) { n = -n; d = -d; } long long g = gcdll(n, d); return Rat{n / g, d / g}; }
inline bool operator<(Rat a, Rat b) { return (__int128)a.n * b.d < (__int128)b.n * a.d; }
inline bool operator==(Rat a, Rat b) { return a.n == b.n && a.d == b.d; }
typedef std::pair<Rat, Rat> Q;
inline bool on(Q p, ISeg s) {             // exact
    __int128 px = p.first.n, py = p.second.n, dx = p.first.d, dy = p.second.d;
    __int128 c = (__int128)(s.b.x - s.a.x) * (py - (__int128)s.a.y * dy) * dx - (__int128)(s.b.y - s.a.y) * (px - (__int128)s.a.x * dx) * dy;
    if(c != 0) return false;
    return (__int128)std::min(s.a.x, s.b.x) * dx <= px && px <= (__int128)std::max(s.a.x, s.b.x) * dx && (__int128)std::min(s.a.y, s.b.y) * dy <= py && py <= (__int128)std::max(s.a.y, s.b.y) * dy;
}
// Layouts found by search: more events are pending at a time than there are end points and segments.
const std::vector<std::vector<int>> CROWDED = {
    {-13,4,7,4,-14,10,2,0,-9,2,15,7,-13,-15,-2,13,-13,-11,1,13,-12,-11,-4,6,-11,-7,0,7,-11,-6,9,13,-10,0,8,7,-11,-1,8,12},
    {-7,4,8,-10,-12,-2,3,-4,-4,-4,8,-3,-8,7,3,-7,-7,-9,11,7,-6,-6,7,-1,-7,-2,5,-7,-6,-7,9,5,-6,-1,10,-11},
    {-27,-15,15,12,11,17,17,-11,-30,27,3,-25,-23,12,4,-23,-21,2,9,-10,-18,0,25,-7,-22,4,6,-10,-24,-9,13,-5,-23,6,-1,-11,-20,6,18,-30},
    {-17,-19,6,9,-6,3,5,0,-14,13,3,-1,-10,0,14,7,-5,6,16,-16,-19,-24,4,10,-7,-2,23,13,-15,0,20,4,-20,23,24,-25},
    {-6,15,5,-11,-13,-3,8,3,-12,8,8,-3,-9,4,13,2,-4,-2,12,13,-4,4,6,-10,-11,6,13,-5,-12,-8,14,14,-7,0,11,3,-14,14,12,-14,-9,6,12,-5,-15,-14,10,12},
    {-12,-3,16,19,-15,1,10,0,-14,6,6,-9,-14,-2,20,16,-15,-18,-2,5,-14,1,13,-8,-16,16,7,-13,-12,-2,12,13}};
struct Sim {
    std::vector<ISeg> segs; std::vector<S>* in = nullptr; cmp_t cmp{1e-10}; std::map<Q, std::multiset<std::pair<IP, IP>>> want; std::vector<std::pair<Q, std::multiset<std::pair<IP, IP>>>> order;
    static std::pair<IP, IP> key(ISeg s) { return s.a < s.b ? std::make_pair(s.a, s.b) : std::make_pair(s.b, s.a); }
    void draw() {
        Span sp(GEN); int n = 2 + (int)choose(GEN, 9); long r = 2 + (long)choose(GEN, 9); int style = (int)choose(GEN, 6); const std::vector<int>* crowd = nullptr; if(style == 5) { crowd = &CROWDED[choose(GEN, CROWDED.size())]; n = (int)crowd->size() / 4; r = 16; }
         if(style == 4) { n = 4 + (int)choose(GEN, chance(GEN, 1, 32) ? 30 : 14); r = 8 + (long)choose(GEN, 8); }
        for(int i = 0; i < n; ++i) {
            Span sp2(GEN); ISeg s;
            for(int tries = 0;; ++tries) {
                s.a = {lattice(GEN, r), lattice(GEN, r)};
                if(style == 1 && !segs.empty() && chance(GEN, 1, 2)) s.a = segs[choose(GEN, segs.size())].b;
                s.b = {lattice(GEN, r), lattice(GEN, r)};
                if(style == 2) { if(chance(GEN, 1, 2)) s.b.x = s.a.x; else s.b.y = s.a.y; }
                if(style == 3) s.b = {-s.a.x + lattice(GEN, 1), -s.a.y + lattice(GEN, 1)};
                if(style == 4) { s.a.x = -r + (long)choose(GEN, 5); s.b.x = r - (long)choose(GEN, 5); }      // many crossings pending at a time
                if(crowd && tries == 0) { const int* c = &(*crowd)[4 * i]; int f = chance(GEN, 1, 12) ? 1 : 0; s.a = {c[0], c[1] + f}; s.b = {c[2], c[3]}; }
                bool bad = s.a == s.b;
                // segments that overlap along a line have no point of intersection to report: kept out
                for(auto& t : segs) if(cross(s.a, s.b, t.a) == 0 && cross(s.a, s.b, t.b) == 0) { int touch = on_seg(s.a, t) + on_seg(s.b, t) + on_seg(t.a, s) + on_seg(t.b, s); bool endpoint = (s.a == t.a || s.a == t.b || s.b == t.a || s.b == t.b); if(touch > (endpoint ? 2 : 0)) bad = true; }
                if(!bad) { segs.push_back(s); break; }
                if(tries > 8) break;
            }
        }
        for(std::size_t i = 0; i < segs.size(); ++i) for(std::size_t j = i + 1; j < segs.size(); ++j) {
            ISeg a = segs[i], b = segs[j]; long long rx = a.b.x - a.a.x, ry = a.b.y - a.a.y, sx = b.b.x - b.a.x, sy = b.b.y - b.a.y, den = rx * sy - ry * sx; std::vector<Q> qs;
            if(den != 0) { long long num = (b.a.x - a.a.x) * sy - (b.a.y - a.a.y) * sx; qs.push_back({mkrat(a.a.x * den + num * rx, den), mkrat(a.a.y * den + num * ry, den)}); }
            else for(IP p : {a.a, a.b}) qs.push_back({mkrat(p.x, 1), mkrat(p.y, 1)});
            for(auto& q : qs) if(on(q, a) && on(q, b)) { auto& m = want[q]; if(m.empty()) for(auto& s : segs) if(on(q, s)) m.insert(key(s)); }
        }
        for(auto& kv : want) order.push_back(kv);
        for(auto& s : segs) log("  segment (%ld,%ld)-(%ld,%ld)", s.a.x, s.a.y, s.b.x, s.b.y);
    }
    struct State { Sim* s; std::size_t events = 0, stop_at = 0; bool reenter = false; };
    struct Visitor {
        State* st;
        template <typename It> void operator()(const P& p, It f, It l) const {
            double x = get<0>(p), y = get<1>(p); std::vector<std::array<double, 4>> raw; for(It i = f; i != l; ++i) raw.push_back({get<0>(get_start(**i)), get<1>(get_start(**i)), get<0>(get_end(**i)), get<1>(get_end(**i))});
            InMode h(HARNESS); Sim& s = *st->s; std::multiset<std::pair<IP, IP>> got;
            for(auto& r : raw) { ISeg q{{std::lround(r[0]), std::lround(r[1])}, {std::lround(r[2]), std::lround(r[3])}}; got.insert(key(q)); }
            mixd(x); mix(got.size());
            GSIM_CHECK(st->events < s.order.size(), "phantom-event", "the sweep reported (%g,%g) after all %zu meeting points", x, y, s.order.size());
            auto& w = s.order[st->events]; double wx = (double)w.first.first.n / w.first.first.d, wy = (double)w.first.second.n / w.first.second.d;
            GSIM_CHECK(std::fabs(wx - x) < 1e-7 && std::fabs(wy - y) < 1e-7, "wrong-event", "event %zu is (%g,%g), the next meeting point in sweep order is (%g,%g)", st->events, x, y, wx, wy);
            GSIM_CHECK(got == w.second, "wrong-segments", "%zu segments were reported at (%g,%g), %zu meet there", got.size(), x, y, w.second.size());
            if(got.size() > 2) probe("three-meet");
            ++st->events; yield();
            if(st->reenter && st->events == 1) { State n; n.s = &s; Visitor v{&n}; { InMode m(SUT); bentley_ottmann_segment_intersection(*s.in, v, s.cmp); } GSIM_CHECK(n.events == s.order.size(), "missed-event", "a nested sweep reported %zu of %zu meeting points", n.events, s.order.size()); }
            if(st->stop_at && st->events == st->stop_at) { fault("visitor-throw"); throw SimThrow{1}; }
        }
    };
    void sweep(const FaultPlan& plan, std::size_t stop_at, bool reenter) {
        State st; st.s = this; st.stop_at = stop_at; st.reenter = reenter; Visitor v{&st};
        Outcome o = attempt("sweep", [&] { bentley_ottmann_segment_intersection(*in, v, cmp); }, plan, stop_at != 0);
        log("sweep reported %zu of %zu meeting points%s", st.events, order.size(), o == OOM ? ", out of memory" : o == THREW ? ", visitor threw" : "");
        if(o == DONE) { GSIM_CHECK(st.events == order.size(), "missed-event", "the sweep reported %zu of %zu meeting points", st.events, order.size()); probe("complete"); if(order.size() > 3) nontrivial(); }
    }
    void run() {
        Swarm sw = draw_swarm(3); draw(); if(segs.size() < 2) return;
        in = setup([&] { auto* v = new std::vector<S>(); for(auto& s : segs) v->push_back(S(P(s.a.x, s.a.y), P(s.b.x, s.b.y))); return v; });
        std::int64_t base = live_blocks();
        struct A { FaultPlan p; std::size_t stop; bool re; }; std::vector<std::vector<A>> as(sw.tasks);
        for(auto& v : as) { int k = 1 + (int)choose(OP, 3); for(int i = 0; i < k; ++i) { Span sp(OP); v.push_back(A{draw_alloc_plan(sw.alloc_faults), sw.throwing_callbacks && chance(FAULT, 1, 3) ? 1 + (std::size_t)choose(FAULT, 6) : 0, sw.reentry && chance(FAULT, 1, 3)}); } }
        std::vector<std::function<void()>> bodies;
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([this, &as, t] { for(auto& a : as[t]) sweep(a.p, a.stop, a.re); });
        parallel(bodies);
        GSIM_CHECK(live_blocks() <= base, "leak", "%lld blocks still allocated after the sweeps", (long long)(live_blocks() - base));
        for(std::size_t i = 0; i < segs.size(); ++i) { auto& q = (*in)[i]; GSIM_CHECK(get<0>(get_start(q)) == segs[i].a.x && get<1>(get_end(q)) == segs[i].b.y, "input-modified", "the caller's segments were modified"); }
        setup([&] { delete in; });
    }
};
} // namespace
void gsim_run() { Sim s; s.run(); }

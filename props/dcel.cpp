// Doubly connected edge list: chains and rings from directed edges added in any
// order, through copies, moves, assignments, recalculation and memory exhaustion.
#include <boost/config.hpp>
#include <boost/optional.hpp>
#include <map>
#include <geometrix/primitive/point.hpp>
#include <geometrix/primitive/segment.hpp>
#include <geometrix/primitive/polygon.hpp>
#include <geometrix/primitive/polyline.hpp>
#include <geometrix/algorithm/distance/point_point_distance.hpp>
#include <geometrix/algorithm/doubly_connected_edge_list.hpp>
#include "geo.hpp"
const char* const gsim_property = "C13";
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef segment_double_2d S;
typedef absolute_tolerance_comparison_policy<double> cmp_t;
typedef doubly_connected_edge_list<P, cmp_t> dcel_t;

namespace {
typedef std::vector<std::pair<IP, IP>> Edges;
struct Expect { std::multiset<std::vector<IP>> lines, rings; };
std::vector<IP> canon(std::vector<IP> r) { std::rotate(r.begin(), std::min_element(r.begin(), r.end()), r.end()); return r; }
Expect model(const Edges& es) {
    std::map<IP, IP> out; std::set<IP> has_in; for(auto& e : es) { out[e.first] = e.second; has_in.insert(e.second); }
    Expect x; std::set<IP> done;
    for(auto& kv : out) if(!has_in.count(kv.first)) { std::vector<IP> l{kv.first}; IP p = kv.first; done.insert(p); while(out.count(p)) { p = out[p]; l.push_back(p); done.insert(p); } x.lines.insert(l); }
    for(auto& kv : out) if(!done.count(kv.first)) { std::vector<IP> l; IP p = kv.first; do { l.push_back(p); done.insert(p); p = out[p]; } while(!(p == kv.first)); x.rings.insert(canon(l)); }
    return x;
}
struct List { dcel_t* d = nullptr; Edges have; Expect calc; bool broken = false; };   // calc: the sequences of the last calculation
struct Op { int kind; int i, j; std::vector<int> edges; FaultPlan plan; int jx, jy; };

struct Sim {
    std::vector<std::pair<IP, IP>> plan;      // all edges, in the order they may be added
    cmp_t cmp{1e-10};
    List master;

    void draw_edges() {
        Span sp(GEN); std::set<IP> used; int n = (int)size_upto(GEN, 4, 16); long r = 3 + (long)choose(GEN, 8);
        for(int c = 0; c < n; ++c) {
            int len = 2 + (int)choose(GEN, 6); bool ring = chance(GEN, 1, 2) && len > 2; std::vector<IP> v;
            for(int k = 0; k < len; ++k) { IP p{lattice(GEN, r), lattice(GEN, r)}; if(used.insert(p).second) v.push_back(p); }
            for(std::size_t k = 0; k + 1 < v.size(); ++k) plan.push_back({v[k], v[k + 1]});
            if(ring && v.size() > 2) plan.push_back({v.back(), v.front()});
        }
        if(chance(GEN, 2, 3)) for(std::size_t i = plan.size(); i > 1; --i) std::swap(plan[i - 1], plan[choose(GEN, i)]);
        for(auto& e : plan) log("  edge (%ld,%ld) -> (%ld,%ld)", e.first.x, e.first.y, e.second.x, e.second.y);
    }
    static P mk(IP p, double jx, double jy) { return P(p.x + jx, p.y + jy); }
    void check(List& l, const char* when) {
        std::multiset<std::vector<IP>> lines, rings; bool bad = false;
        attempt("reading the sequences", [&] {
            auto& ls = l.d->get_polylines(); auto& gs = l.d->get_polygons(); InMode h(HARNESS);
            auto conv = [&](auto const& seq) { std::vector<IP> r; for(auto& p : seq) { IP q{std::lround(get<0>(p)), std::lround(get<1>(p))}; bad = bad || std::fabs(get<0>(p) - q.x) > 1e-9 || std::fabs(get<1>(p) - q.y) > 1e-9; r.push_back(q); } return r; };
            for(auto& s : ls) lines.insert(conv(s));
            for(auto& s : gs) { auto r = conv(s); rings.insert(r.empty() ? r : canon(r)); }
        });
        mix(lines.size()); mix(rings.size());
        GSIM_CHECK(!bad, "not-an-input-point", "%s: a sequence holds a point that was never added", when);
        auto show = [](const std::multiset<std::vector<IP>>& m) { std::string s; for(auto& v : m) { s += "["; for(auto& p : v) s += "(" + std::to_string(p.x) + "," + std::to_string(p.y) + ")"; s += "]"; } return s.substr(0, 300); };
        GSIM_CHECK(lines == l.calc.lines, "chains-differ", "%s: the chains are %s, expected %s", when, show(lines).c_str(), show(l.calc.lines).c_str());
        GSIM_CHECK(rings == l.calc.rings, "rings-differ", "%s: the rings are %s, expected %s", when, show(rings).c_str(), show(l.calc.rings).c_str());
        if(!lines.empty() && !rings.empty()) probe("chains-and-rings");
    }
    void drop(List& l) { destroy(l.d); l = List(); }
    // adds the edges `ids`; on failure the list only counts as destructible or assignable
    void add(List& l, const Op& o, const std::vector<int>& ids) {
        for(std::size_t k = 0; k < ids.size(); ++k) {
            auto& e = plan[ids[k]]; bool dup = false; for(auto& h : l.have) dup = dup || h.first == e.first; if(dup) continue;
            double s = 1e-12; P a = mk(e.first, o.jx * s, o.jy * s), b = mk(e.second, -o.jy * s, o.jx * s);
            Outcome r = attempt("add_edge", [&] { if(o.jx & 1) l.d->add_edge(S(a, b)); else l.d->add_edge(a, b); }, k == 0 ? o.plan : FaultPlan());
            if(r != DONE) { l.broken = true; probe("add-failed"); return; }
            l.have.push_back(e);
        }
    }
    void calc(List& l, const Op& o, const char* when) {
        Outcome r = attempt("calculate_point_sequences", [&] { l.d->calculate_point_sequences(); }, o.plan);
        if(r != DONE) { probe("calculation-failed"); attempt("calculate_point_sequences again", [&] { l.d->calculate_point_sequences(); }); }
        l.calc = model(l.have); check(l, when);
        if(l.have.size() > 2) nontrivial();
    }
    void script(std::vector<Op>& ops) {
        std::vector<List> ls(3);
        for(auto& o : ops) {
            List& a = ls[o.i]; List& b = ls[o.j];
            switch(o.kind) {
            case 0: case 1:
                if(!a.d || a.broken) { if(a.d) drop(a); dcel_t* made = nullptr; Outcome r = attempt("construction", [&] { made = new dcel_t(cmp); }, o.plan); a.d = made; if(r != DONE) { a.d = nullptr; break; } }
                log("add %zu edges to list %d", o.edges.size(), o.i); add(a, o, o.edges); break;
            case 2: if(a.d && !a.broken) { log("calculate list %d (%zu edges)", o.i, a.have.size()); calc(a, o, "after calculation"); } break;
            case 3: {                      // copy construction, from another list or the shared master
                const List& src = (b.d && !b.broken && &a != &b) ? b : master; if(&src == &a || src.broken) break;
                if(a.d) drop(a);
                log("list %d = copy of %s", o.i, &src == &master ? "the shared list" : "another list");
                std::int64_t before = live_blocks();
                dcel_t* made = nullptr; Outcome r = attempt("copy construction", [&] { made = new dcel_t(*src.d); }, o.plan); a.d = made;
                if(r != DONE) { a.d = nullptr; (void)before; break; }
                a.have = src.have; a.calc = src.calc; probe("copied"); check(a, "after copy construction"); break;
            }
            case 4: {                       // copy assignment, self included; a broken or moved-from list may be assigned to
                const List& src = b.d ? b : master; if(!a.d || src.broken) break;
                log("list %d <- copy of %s%s", o.i, &src == &master ? "the shared list" : "a list", &src == &a ? " (itself)" : "");
                Outcome r = attempt("copy assignment", [&] { *a.d = *src.d; }, o.plan);
                if(r != DONE) { if(&src != &a) a.broken = true; probe("assignment-failed"); break; }
                if(&src != &a) { a.have = src.have; a.calc = src.calc; a.broken = false; }
                probe("assigned"); check(a, "after copy assignment"); break;
            }
            case 5: {                       // move construction
                if(!b.d || b.broken || &a == &b) break; if(a.d) drop(a);
                log("list %d = moved list %d", o.i, o.j);
                dcel_t* made = nullptr; Outcome r = attempt("move construction", [&] { made = new dcel_t(std::move(*b.d)); }, FaultPlan()); a.d = made; (void)r;
                a.have = b.have; a.calc = b.calc; b.broken = true; probe("moved"); check(a, "after move construction"); break;
            }
            case 6: {                       // move assignment
                if(!a.d || !b.d || b.broken || &a == &b) break;
                log("list %d <- moved list %d", o.i, o.j);
                attempt("move assignment", [&] { *a.d = std::move(*b.d); });
                a.have = b.have; a.calc = b.calc; a.broken = false; b.broken = true; probe("moved"); check(a, "after move assignment"); break;
            }
            default: {                      // all at once
                if(a.d) drop(a);
                std::vector<int> ids = o.edges; std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
                std::vector<S>* segs = setup([&] { auto* v = new std::vector<S>(); for(int k : ids) v->push_back(S(mk(plan[k].first, 0, 0), mk(plan[k].second, 0, 0))); return v; });
                dcel_t* made = nullptr; Outcome r = attempt("construction from segments", [&] { if(ids.size() & 1) made = new dcel_t(make_dcel<P>(*segs, cmp)); else made = new dcel_t(*segs, cmp); }, o.plan); a.d = made;
                setup([&] { delete segs; });
                if(r != DONE) { a.d = nullptr; break; }
                for(int k : ids) a.have.push_back(plan[k]);
                a.calc = model(a.have); log("list %d built from %zu segments", o.i, ids.size()); check(a, "after construction"); break;
            }
            }
        }
        for(auto& l : ls) if(l.d) drop(l);
    }
    void run() {
        Swarm sw = draw_swarm(); draw_edges();
        if(plan.empty()) return;
        std::int64_t base = live_blocks();
        // a shared list the tasks copy from
        master.d = setup([&] { return new dcel_t(cmp); });
        { Op o{}; int k = (int)choose(OP, plan.size() + 1); std::vector<int> ids; for(int i = 0; i < k; ++i) ids.push_back(i); add(master, o, ids); if(chance(OP, 1, 2)) calc(master, o, "shared list"); }
        std::vector<std::vector<Op>> ops(sw.tasks);
        for(auto& v : ops) {
            int n = 1 + (int)size_upto(OP, 14, 60);
            for(int k = 0; k < n; ++k) { Span sp(OP); Op o; static const int kinds[] = {0, 1, 2, 2, 3, 4, 5, 6, 7}; o.kind = kinds[choose(OP, 9)]; o.i = (int)choose(OP, 3); o.j = (int)choose(OP, 3); int m = 1 + (int)choose(OP, plan.size()); for(int e = 0; e < m; ++e) o.edges.push_back((int)choose(OP, plan.size())); o.plan = draw_alloc_plan(sw.alloc_faults, 1, 4, 6); o.jx = (int)choose(OP, 5) - 2; o.jy = (int)choose(OP, 5) - 2; v.push_back(o); }
        }
        std::vector<std::function<void()>> bodies;
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([this, &ops, t] { script(ops[t]); });
        parallel(bodies);
        check(master, "shared list at the end");
        destroy(master.d);
        GSIM_CHECK(live_blocks() <= base, "leak", "%lld blocks still allocated after every list was destroyed", (long long)(live_blocks() - base));
    }
};
} // namespace
void gsim_run() { Sim s; s.run(); }

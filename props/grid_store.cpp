// Dense and hashed 2d grids against a map, over operation histories with failures.
#include <boost/config.hpp>
#include <geometrix/primitive/point.hpp>
#include <geometrix/utility/utilities.hpp>
#include <geometrix/algorithm/grid_traits.hpp>
#include <geometrix/algorithm/grid_2d.hpp>
#include <geometrix/algorithm/hash_grid_2d.hpp>
#include "common.hpp"
const char* const gsim_property = "C06";
using namespace hx;
using namespace geometrix;
typedef point_double_2d P;
typedef grid_traits<double> Traits;

namespace {
// Cell payload that owns memory, so cell creation has several failure points.
struct Payload {
    int* v;
    Payload() : v(new int[2]) { v[0] = 0; v[1] = 0; }
    Payload(const Payload& o) : v(new int[2]) { v[0] = o.v[0]; v[1] = o.v[1]; }
    Payload& operator=(const Payload& o) { v[0] = o.v[0]; v[1] = o.v[1]; return *this; }
    ~Payload() { delete[] v; }
    int get() const { return v[0]; }
    void set(int x) { v[0] = x; v[1] = ~x; }
    bool ok() const { return v[0] == 0 ? (v[1] == 0 || v[1] == ~0) : v[1] == ~v[0]; }
};
typedef hash_grid_2d<Payload, Traits> Hash;
// plain values: Boost.MultiArray itself leaks when an element's construction throws
struct Plain { int x = 0; int get() const { return x; } void set(int v) { x = v; } };
typedef grid_2d<Plain, Traits> Dense;
typedef std::pair<long, long> Key;

struct Sim {
    double x0, y0, w; long nx, ny; double maxx, maxy;
    bool exact;
    Traits* traits = nullptr;
    Hash* hash = nullptr; Dense* dense = nullptr;
    std::map<Key, int> model;            // hash grid: only the cells that exist
    std::map<Key, int> dmodel;           // dense grid: values, default 0
    std::map<Key, Payload*> addr;        // where a live hash cell was handed out
    int next = 1;

    Key draw_cell() { return Key((long)choose(OP, nx), (long)choose(OP, ny)); }
    // a point of the cell; on the low borders too when the arithmetic is exact
    P draw_point(Key k) {
        double fx = exact ? choose(OP, 8) / 8.0 : (1 + choose(OP, 7)) / 8.0, fy = exact ? choose(OP, 8) / 8.0 : (1 + choose(OP, 7)) / 8.0;
        double x = x0 + (k.first + fx) * w, y = y0 + (k.second + fy) * w;
        if(chance(OP, 1, 8)) x = maxx; if(chance(OP, 1, 8)) y = maxy;      // exactly on the upper bounds
        if(x > maxx) x = maxx; if(y > maxy) y = maxy;
        return P(x, y);
    }
    // The cell a point inside the bounds addresses: it exists, its closed box holds the point,
    // and off the cell borders it is the only one.
    Key cell_of(P p) {
        boost::uint32_t i = 0, j = 0, gw = 0, gh = 0; double lo[2], hi[2]; bool in = false;
        attempt("cell of a point", [&] { in = traits->is_contained(p); i = traits->get_x_index(get<0>(p)); j = traits->get_y_index(get<1>(p)); gw = traits->get_width(); gh = traits->get_height();
            auto b = traits->get_cell_aabb(i, j); lo[0] = get<0>(b.get_lower_bound()); lo[1] = get<1>(b.get_lower_bound()); hi[0] = get<0>(b.get_upper_bound()); hi[1] = get<1>(b.get_upper_bound()); });
        { Span sp(OP); double q[2] = {get<0>(p), get<1>(p)}; int axis = (int)choose(OP, 3); double step = (1 + choose(OP, 20)) * w / 8; bool low = chance(OP, 1, 2), out = true;
          if(axis < 2) q[axis] = low ? (axis ? y0 : x0) - step : (axis ? maxy : maxx) + step; else { q[0] = low ? x0 - step : maxx + step; q[1] = chance(OP, 1, 2) ? y0 - step : maxy + step; }
          P o(q[0], q[1]); attempt("containment of a point outside", [&] { out = !traits->is_contained(o); });
          GSIM_CHECK(out, "contained-outside", "(%g,%g) is outside of the bounds [%g,%g]x[%g,%g] but the grid contains it", q[0], q[1], x0, maxx, y0, maxy); }
        GSIM_CHECK(in, "not-contained", "(%g,%g) is within the bounds but the grid does not contain it", get<0>(p), get<1>(p));
        GSIM_CHECK(i < gw && j < gh, "no-such-cell", "(%g,%g) addresses cell (%u,%u) of a grid of %ux%u cells", get<0>(p), get<1>(p), i, j, gw, gh);
        GSIM_CHECK(lo[0] <= get<0>(p) + 1e-9 && get<0>(p) <= hi[0] + 1e-9 && lo[1] <= get<1>(p) + 1e-9 && get<1>(p) <= hi[1] + 1e-9, "wrong-cell", "(%g,%g) addresses cell (%u,%u) of [%g,%g]x[%g,%g]", get<0>(p), get<1>(p), i, j, lo[0], hi[0], lo[1], hi[1]);
        return Key(i, j);
    }
    void check_hash_cell(Key k, const Payload* p, const char* how) {
        auto it = model.find(k);
        int v = 0; bool ok = true; if(p) { v = p->get(); ok = p->ok(); }
        GSIM_CHECK(!p || it != model.end(), "phantom-cell", "%s of cell (%ld,%ld) found a cell with value %d that was never created or was erased", how, k.first, k.second, v);
        GSIM_CHECK(p || it == model.end(), "lost-cell", "%s of cell (%ld,%ld) found nothing, it holds %d", how, k.first, k.second, it->second);
        if(p) {
            GSIM_CHECK(ok && v == it->second, "wrong-value", "%s of cell (%ld,%ld) found value %d, it holds %d", how, k.first, k.second, v, it->second);
            auto a = addr.find(k); GSIM_CHECK(a == addr.end() || a->second == p, "moved-cell", "cell (%ld,%ld) moved in memory while references to it were live", k.first, k.second);
        }
    }
    void scan_all() {
        for(long i = 0; i < nx; ++i) for(long j = 0; j < ny; ++j) { const Payload* p = nullptr; const Hash* h = hash; attempt("find_cell", [&] { p = h->find_cell((boost::uint32_t)i, (boost::uint32_t)j); }); check_hash_cell(Key(i, j), p, "scan"); }
        for(long i = 0; i < nx; ++i) for(long j = 0; j < ny; ++j) { int v = 0; const Dense* d = dense; attempt("dense get_cell", [&] { v = d->get_cell((boost::uint32_t)i, (boost::uint32_t)j).get(); }); auto it = dmodel.find(Key(i, j)); int e = it == dmodel.end() ? 0 : it->second; GSIM_CHECK(v == e, "dense-wrong-value", "dense cell (%ld,%ld) holds %d, %d was stored", i, j, v, e); }
    }
    void geometry(Key k) {
        double c[14]; boost::uint32_t i = (boost::uint32_t)k.first, j = (boost::uint32_t)k.second;
        attempt("cell geometry", [&] {
            P q[5] = {traits->get_cell_corner0(i, j), traits->get_cell_corner1(i, j), traits->get_cell_corner2(i, j), traits->get_cell_corner3(i, j), traits->get_cell_centroid(i, j)};
            for(int n = 0; n < 5; ++n) { c[2 * n] = get<0>(q[n]); c[2 * n + 1] = get<1>(q[n]); }
            auto b = traits->get_cell_aabb(i, j); c[10] = get<0>(b.get_lower_bound()); c[11] = get<1>(b.get_lower_bound()); c[12] = get<0>(b.get_upper_bound()); c[13] = get<1>(b.get_upper_bound());
        });
        double lx = x0 + k.first * w, ly = y0 + k.second * w, hx = lx + w, hy = ly + w, e[14] = {lx, ly, hx, ly, hx, hy, lx, hy, (lx + hx) / 2, (ly + hy) / 2, lx, ly, hx, hy};
        for(int n = 0; n < 14; ++n) GSIM_CHECK(std::fabs(c[n] - e[n]) < 1e-9, "cell-geometry", "cell (%ld,%ld) of width %g: corner/centroid/box coordinate %d is %g, expected %g", k.first, k.second, w, n, c[n], e[n]);
        std::vector<double> pg; attempt("cell polygon", [&] { auto g = traits->get_cell_polygon(i, j); InMode h(HARNESS); for(auto& p : g) { pg.push_back(get<0>(p)); pg.push_back(get<1>(p)); } });
        GSIM_CHECK(pg.size() == 8, "cell-geometry", "cell polygon has %zu vertices", pg.size() / 2);
        for(int n = 0; n < 8; ++n) GSIM_CHECK(std::fabs(pg[n] - e[n]) < 1e-9, "cell-geometry", "cell (%ld,%ld): polygon coordinate %d is %g, expected %g", k.first, k.second, n, pg[n], e[n]);
    }
    void op(const Swarm& sw) {
        Span sp(OP);
        int what = (int)choose(OP, 12);
        Key k = draw_cell(); P p(0, 0);
        bool by_point = chance(OP, 1, 2);
        if(by_point) { p = draw_point(k); k = cell_of(p); }
        boost::uint32_t i = (boost::uint32_t)k.first, j = (boost::uint32_t)k.second;
        FaultPlan plan = draw_alloc_plan(sw.alloc_faults, 1, 3, 4);
        Outcome o = DONE; Payload* c = nullptr;
        if(what < 4) {                       // write (creates)
            int v = next++;
            bool had = model.count(k);
            // the fault must land in get_cell, not in the store into the payload
            o = attempt("get_cell", [&] { c = by_point ? &hash->get_cell(p) : &hash->get_cell(i, j); }, plan);
            log("hash get_cell(%ld,%ld)%s := %d -> %s", k.first, k.second, by_point ? " by point" : "", v, o == OOM ? "out of memory" : "done");
            if(o == DONE) {
                int was = c->get();
                if(had) check_hash_cell(k, c, "get_cell"); else GSIM_CHECK(was == 0 && c->ok(), "dirty-cell", "new cell (%ld,%ld) starts with value %d", k.first, k.second, was);
                model[k] = v; addr[k] = c; c->set(v);
            } else {
                // a failed creation changed nothing
                Payload* q = nullptr; attempt("find_cell", [&] { q = hash->find_cell(i, j); });
                check_hash_cell(k, q, "find after failed creation");
                probe("failed-creation"); scan_all();
            }
        } else if(what < 6) {                // find, const and not
            const Payload* q = nullptr; const Hash* h = hash;
            bool cst = chance(OP, 1, 2);
            o = attempt("find_cell", [&] { if(cst) q = by_point ? h->find_cell(p) : h->find_cell(i, j); else q = by_point ? hash->find_cell(p) : hash->find_cell(i, j); });
            log("hash find_cell(%ld,%ld)%s -> %s", k.first, k.second, by_point ? " by point" : "", q ? "cell" : "none");
            check_hash_cell(k, q, "find");
        } else if(what == 6) {               // erase
            log("hash erase(%ld,%ld)", k.first, k.second);
            attempt("erase", [&] { hash->erase(i, j); });
            if(model.erase(k)) probe("erased"); addr.erase(k);
            if(chance(OP, 1, 4)) scan_all();
        } else if(what == 7) {
            if(chance(OP, 1, 3)) { log("hash clear"); attempt("clear", [&] { hash->clear(); }); model.clear(); addr.clear(); probe("clear"); scan_all(); }
        } else if(what == 8) {               // move construct / move assign the hash grid
            Hash* n = nullptr;
            bool assign = chance(OP, 1, 2);
            o = attempt("move", [&] { if(assign) { std::unique_ptr<Hash> t(new Hash(*traits)); t->get_cell(i, j); *t = std::move(*hash); n = t.release(); } else n = new Hash(std::move(*hash)); }, plan);
            log("hash move %s -> %s", assign ? "assignment" : "construction", o == OOM ? "out of memory" : "done");
            if(o == DONE) { destroy(hash); hash = n; probe("moved"); }
            scan_all();
        } else if(what < 11) {               // dense write / read
            int v = next++; int was = 0;
            attempt("dense get_cell", [&] { Plain& d = by_point ? dense->get_cell(p) : dense->get_cell(i, j); was = d.get(); d.set(v); });
            log("dense get_cell(%ld,%ld)%s was %d := %d", k.first, k.second, by_point ? " by point" : "", was, v);
            auto it = dmodel.find(k); int e = it == dmodel.end() ? 0 : it->second;
            GSIM_CHECK(was == e, "dense-wrong-value", "dense cell (%ld,%ld) held %d, %d was stored", k.first, k.second, was, e);
            dmodel[k] = v;
        } else {                             // copy the dense grid (deep), possibly failing
            Dense* n = nullptr; std::int64_t b = live_blocks();
            o = attempt("dense copy", [&] { n = new Dense(*dense); }, plan);
            if(o == OOM) { GSIM_CHECK(live_blocks() == b, "leak-on-failure", "a failed copy of the dense grid left %lld block(s)", (long long)(live_blocks() - b)); }
            else {
                int old = 0, now = 0; auto it = dmodel.find(k); int e = it == dmodel.end() ? 0 : it->second;
                attempt("dense write", [&] { old = n->get_cell(i, j).get(); n->get_cell(i, j).set(-7); now = dense->get_cell(i, j).get(); });
                GSIM_CHECK(old == e, "copy-differs", "the copy's cell (%ld,%ld) holds %d instead of %d", k.first, k.second, old, e);
                GSIM_CHECK(now == e, "copy-aliases", "writing the copy's cell (%ld,%ld) changed the original", k.first, k.second);
                destroy(n); probe("dense-copy");
            }
        }
        mix(model.size());
    }
    void run() {
        Swarm sw = draw_swarm(4);
        nx = size_upto(GEN, 6, 40); ny = size_upto(GEN, 6, 40);
        static const double ws[] = {1, 2, 0.5, 4, 3, 0.1, 0.7};
        int wi = (int)choose(GEN, 7); w = ws[wi]; exact = wi < 4;
        x0 = lattice(GEN, 6) * (exact ? w : 1.0); y0 = lattice(GEN, 6) * (exact ? w : 1.0);
        // the extent may be a whole number of cells: then the upper bound itself still has to address a cell
        bool wholex = exact && chance(GEN, 1, 3), wholey = exact && chance(GEN, 1, 3);
        maxx = x0 + (nx - (wholex ? 0 : 0.5)) * w; maxy = y0 + (ny - (wholey ? 0 : 0.5)) * w;
        bool tup = chance(GEN, 1, 3);
        traits = setup([&] { return tup ? new Traits(std::make_tuple(x0, maxx, y0, maxy), w) : new Traits(x0, maxx, y0, maxy, w); });
        { long gw = traits->get_width(), gh = traits->get_height();
        GSIM_CHECK((wholex ? gw >= nx && gw <= nx + 1 : gw == nx) && (wholey ? gh >= ny && gh <= ny + 1 : gh == ny), "grid-size", "grid over [%g,%g]x[%g,%g] of %g is %ux%u cells instead of %ldx%ld", x0, maxx, y0, maxy, w, traits->get_width(), traits->get_height(), nx, ny);
        nx = gw; ny = gh; }
        for(int t = 0; t < 2; ++t) geometry(draw_cell());
        std::int64_t base = live_blocks();
        dense = build_with_faults<Dense>("dense grid", [&] { return new Dense(*traits); }, sw.alloc_faults);
        hash = build_with_faults<Hash>("hash grid", [&] { return new Hash(*traits); }, sw.alloc_faults);
        int n = 1 + (int)size_upto(OP, 30, 250);
        for(int i = 0; i < n; ++i) op(sw);
        scan_all();
        if(model.size() > 2) nontrivial();
        // concurrent readers of both grids
        std::vector<std::vector<Key>> qs(sw.tasks); std::vector<std::function<void()>> bodies;
        for(auto& v : qs) { int k = 1 + (int)choose(OP, 4); for(int i = 0; i < k; ++i) v.push_back(draw_cell()); }
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([&, t] { for(auto& k : qs[t]) { const Payload* p = nullptr; int v = 0; const Hash* h = hash; const Dense* d = dense;
            attempt("concurrent find", [&] { p = h->find_cell((boost::uint32_t)k.first, (boost::uint32_t)k.second); v = d->get_cell((boost::uint32_t)k.first, (boost::uint32_t)k.second).get(); });
            check_hash_cell(k, p, "concurrent find"); auto it = dmodel.find(k); GSIM_CHECK(v == (it == dmodel.end() ? 0 : it->second), "dense-wrong-value", "concurrent read of dense cell (%ld,%ld) gave %d", k.first, k.second, v); } });
        parallel(bodies);
        destroy(hash); destroy(dense);
        GSIM_CHECK(live_blocks() <= base, "leak", "%lld block(s) still allocated after both grids were destroyed", (long long)(live_blocks() - base));
    }
};
} // namespace
void gsim_run() { Sim s; s.run(); }

// Scope timers: every completed scope counted once with a duration inside the
// real one, under clock jumps, concurrency, exceptions, memory exhaustion and a
// failing disk.
#include <boost/config.hpp>
#include <string>
#include <map>
#include <cerrno>
#include <geometrix/utility/scope_timer.ipp>
#include "common.hpp"
const char* const gsim_property = "C15";
using namespace hx;
using geometrix::scope_timer;
using namespace geometrix::scope_timer_detail;

namespace {
struct Rec { std::uint64_t lo_n = 0, hi_n = 0; double lo = 0, hi = 0; std::vector<double> exact; };
const char* const NAMES[] = {"f", "geometrix::search", "a,b", "operator \"\"_m", "a much longer name than the others, one that does not fit in place", ""};
const int NN = 6;
struct Node { int name; std::int64_t before, inside, after; int jump; std::vector<Node> kids; bool throws; bool write_in; bool name_goes; FaultPlan ctor, dtor; };

struct Sim {
    Rec rec[NN]; bool single = false, exact = true; int failing = 0; long disk_room = -1; int open_fail = 0, close_fail = 0; std::string content; std::string path; int opens = 0;
    static Sim* self;

    Node draw(int depth, const Swarm& sw) {
        Span sp(OP); Node n; n.name = (int)choose(OP, NN); n.before = (std::int64_t)choose(ENV, 1ull << choose(ENV, 34)); n.inside = (std::int64_t)choose(ENV, 1ull << choose(ENV, 34)); n.after = (std::int64_t)choose(ENV, 1000);
        n.jump = chance(FAULT, 1, 3) ? 1 + (int)choose(FAULT, 3) : 0; n.throws = sw.throwing_callbacks && chance(FAULT, 1, 5); n.write_in = chance(OP, 1, 8); n.name_goes = chance(OP, 1, 2);
        n.ctor = draw_alloc_plan(sw.alloc_faults, 1, 5, 2); n.dtor = draw_alloc_plan(sw.alloc_faults, 1, 4, 3);
        int k = depth >= 3 ? 0 : (int)choose(OP, 3); for(int i = 0; i < k; ++i) n.kids.push_back(draw(depth + 1, sw));
        return n;
    }
    void pass(std::int64_t ns, int jump) {                 // real time passes; the wall clock may be set
        gsim::clock().steady_ns += ns; gsim::clock().system_ns += ns; sim_time(ns);
        if(jump) { static const std::int64_t J[] = {0, -3600000000000ll, 7200000000000ll, -50}; gsim::clock().system_ns += J[jump]; fault("clock-jump"); }
    }
    void scope(Node& n) {
        pass(n.before, 0);
        alignas(scope_timer) unsigned char* room = (unsigned char*)setup([&] { return ::operator new(sizeof(scope_timer)); });
        std::string* name = setup([&] { return new std::string(NAMES[n.name]); });
        std::int64_t t_out = gsim::clock().steady_ns; scope_timer* tm = nullptr;
        Outcome o = attempt("starting a timer", [&] { tm = new(room) scope_timer(*name); }, n.ctor);
        if(o != DONE) { setup([&] { delete name; ::operator delete(room); }); probe("timer-not-started"); return; }
        std::int64_t t_in = gsim::clock().steady_ns;
        if(n.name_goes) { setup([&] { for(auto& c : *name) c = '#'; delete name; }); name = nullptr; probe("name-gone"); }     // a timer keeps what it needs
        pass(n.inside, n.jump); yield();
        if(n.write_in) write("write inside a scope", FaultPlan());
        bool thrown = false;
        try { for(auto& k : n.kids) scope(k); if(n.throws) { fault("scope-throw"); throw SimThrow{1}; } } catch(const SimThrow&) { thrown = true; }
        pass(n.after, 0);
        std::int64_t t_in2 = gsim::clock().steady_ns;
        bool fired = false;
        // a timer is destroyed, possibly while an exception is on its way out: it must not end the program
        if(n.dtor.on) arm_alloc_fault(n.dtor.n, n.dtor.sticky);
        op_begin(2000000); { InMode m(SUT); tm->~scope_timer(); } op_end();
        if(n.dtor.on) fired = disarm_alloc_fault();
        std::int64_t t_out2 = gsim::clock().steady_ns;
        Rec& r = rec[n.name]; ++r.hi_n; if(!fired) { ++r.lo_n; r.lo += (double)(t_in2 - t_in); } else { probe("sample-at-risk"); nontrivial(); exact = false; } r.hi += (double)(t_out2 - t_out);
        r.exact.push_back((double)(t_in2 - t_in));
        log("scope \"%s\" of %lld ns%s%s", NAMES[n.name], (long long)(t_in2 - t_in), n.jump ? ", clock set meanwhile" : "", fired ? ", memory ran out when it ended" : "");
        setup([&] { delete name; ::operator delete(room); });
        if(thrown && n.throws) probe("left-by-exception");
    }
    // ---- the simulated disk ----
    static int on_open(const char* p) { Sim& s = *self; ++s.opens; s.path = p; s.content.clear(); if(s.open_fail) { fault("disk-open-error"); return s.open_fail; } return 0; }
    static long on_write(const void*, std::size_t n) { Sim& s = *self; if(s.disk_room < 0) return (long)n; if(s.disk_room == 0) { fault("disk-full"); return -ENOSPC; } long k = std::min<long>(s.disk_room, (long)n); s.disk_room -= k; if((std::size_t)k < n) fault("short-write"); return k; }
    static int on_close() { Sim& s = *self; if(s.close_fail) { fault("disk-close-error"); return EIO; } return 0; }
    void write(const char* what, const FaultPlan& plan) { attempt(what, [&] { call_map::instance().write(); }, plan, false, 4000000); }

    static std::vector<std::vector<std::string>> parse(const std::string& t) {
        std::vector<std::vector<std::string>> rows; std::vector<std::string> row; std::string f; bool q = false, any = false;
        for(std::size_t i = 0; i < t.size(); ++i) {
            char c = t[i];
            if(q) { if(c == '"') { if(i + 1 < t.size() && t[i + 1] == '"') { f += '"'; ++i; } else q = false; } else f += c; }
            else if(c == '"' && f.empty()) { q = true; any = true; }
            else if(c == ',') { row.push_back(f); f.clear(); any = true; }
            else if(c == '\n') { row.push_back(f); f.clear(); rows.push_back(row); row.clear(); any = false; }
            else { f += c; any = true; }
        }
        if(any || !f.empty()) { row.push_back(f); rows.push_back(row); }
        return rows;
    }
    struct Got { std::uint64_t n; double sum, mean, sd; };
    void compare(const char* what, const std::map<std::string, Got>& got, double rel) {
        std::size_t names = 0;
        for(int i = 0; i < NN; ++i) {
            auto it = got.find(NAMES[i]); Rec& r = rec[i];
            if(it == got.end()) { GSIM_CHECK(r.lo_n == 0, "scope-lost", "%s: no entry for \"%s\", whose scope ended %llu times", what, NAMES[i], (unsigned long long)r.lo_n); continue; }
            ++names; const Got& g = it->second; double slack = rel * r.hi + 2;
            GSIM_CHECK(g.n >= r.lo_n && g.n <= r.hi_n, "wrong-count", "%s: \"%s\" counts %llu, its scope ended %llu times", what, NAMES[i], (unsigned long long)g.n, (unsigned long long)r.hi_n);
            GSIM_CHECK(g.sum >= r.lo - slack && g.sum <= r.hi + slack, "wrong-total", "%s: \"%s\" totals %.17g ns, its scopes lasted between %.17g and %.17g ns", what, NAMES[i], g.sum, r.lo, r.hi);
            if(g.n) GSIM_CHECK(std::fabs(g.mean - g.sum / g.n) <= slack, "wrong-mean", "%s: \"%s\" has mean %g with total %g over %llu", what, NAMES[i], g.mean, g.sum, (unsigned long long)g.n);
            if(single && exact && g.n) {
                double m = 0, v = 0; for(double x : r.exact) m += x; m /= r.exact.size(); for(double x : r.exact) v += (x - m) * (x - m); double sd = r.exact.size() > 1 ? std::sqrt(v / (r.exact.size() - 1)) : 0;
                GSIM_CHECK(std::fabs(g.mean - m) <= rel * m + 1 && std::fabs(g.sd - sd) <= (rel + 1e-6) * (sd + m) + 1, "wrong-statistics", "%s: \"%s\" has mean %g and deviation %g, expected %g and %g", what, NAMES[i], g.mean, g.sd, m, sd);
                probe("exact-statistics");
            }
        }
        GSIM_CHECK(names == got.size(), "phantom-entry", "%s holds %zu entries that belong to no scope", what, got.size() - names);
    }
    void run() {
        self = this; gsim::clock().enabled = true; gsim::clock().system_ns = 1700000000000000000ll + (std::int64_t)choose(ENV, 1000000); gsim::clock().steady_ns = 1000000000ll;
        disk().enabled = true; disk().on_open = on_open; disk().on_write = on_write; disk().on_close = on_close; disk().content = &content;
        Swarm sw = draw_swarm(3); single = sw.tasks == 1;
        // room on the disk while scopes run; failures end before the last write
        if(chance(FAULT, 1, 2)) { disk_room = (long)choose(FAULT, 400); open_fail = chance(FAULT, 1, 4) ? EACCES : 0; close_fail = chance(FAULT, 1, 4); }
        std::vector<std::vector<Node>> ns(sw.tasks); for(auto& v : ns) { int k = (int)size_upto(OP, 4, 40); for(int i = 0; i < k; ++i) v.push_back(draw(0, sw)); }
        std::vector<std::function<void()>> bodies;
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([this, &ns, t] { for(auto& n : ns[t]) { try { scope(n); } catch(const SimThrow&) {} } });
        parallel(bodies);
        std::map<std::string, Got> got; std::uint64_t total = 0;
        attempt("reading the timings", [&] { auto& m = call_map::instance(); InMode h(HARNESS); for(auto& kv : m) { got[kv.first] = Got{kv.second.counts(), (double)kv.second.sum(), kv.second.mean(), kv.second.standard_deviation()}; total += kv.second.counts(); } });
        compare("the timings", got, 1e-9); mix(total);
        if(total > 2) nontrivial();
        // write on a disk that may fail, then on one that does not: the file then holds all of it
        FaultPlan wp = draw_alloc_plan(sw.alloc_faults, 1, 3, 7);
        write("write", wp);
        disk_room = -1; open_fail = close_fail = 0; opens = 0; write("last write", FaultPlan());
        if(!got.empty()) {
            GSIM_CHECK(opens == 1, "not-written", "the timings were written to %d files", opens);
            auto rows = parse(content); std::map<std::string, Got> file;
            for(std::size_t i = 1; i < rows.size(); ++i) { auto& r = rows[i]; GSIM_CHECK(r.size() == 5, "garbled-file", "line %zu of the timings has %zu fields: %s", i, r.size(), content.substr(0, 200).c_str()); GSIM_CHECK(!file.count(r[0]), "duplicate-line", "two lines for \"%s\"", r[0].c_str()); file[r[0]] = Got{(std::uint64_t)atoll(r[1].c_str()), atof(r[2].c_str()) * 1e9, atof(r[3].c_str()) * 1e9, atof(r[4].c_str()) * 1e9}; }
            GSIM_CHECK(rows.size() == got.size() + 1, "garbled-file", "%zu entries were written as %zu lines", got.size(), rows.size());
            compare("the file", file, 2e-5); probe("file-complete");
        }
        // the end of the program: the map is destroyed and writes itself, whatever fails
        {
            call_map* m = setup([&] { auto* c = new call_map(); for(auto& kv : call_map::instance()) c->insert(kv); return c; });
            FaultPlan p = draw_alloc_plan(sw.alloc_faults, 1, 2, 7); if(chance(FAULT, 1, 3)) { disk_room = (long)choose(FAULT, 100); }
            if(p.on) arm_alloc_fault(p.n, p.sticky);
            op_begin(4000000); { InMode s(SUT); delete m; } op_end();
            if(p.on && disarm_alloc_fault()) { probe("oom-at-exit"); nontrivial(); }
        }
        // the statistic itself, through clear()
        if(chance(OP, 1, 2)) {
            running_stat<double>* st = setup([&] { return new running_stat<double>(); }); std::vector<double> xs; int k = (int)choose(OP, 8);
            for(int i = 0; i < k; ++i) { if(chance(OP, 1, 5)) { sut([&] { st->clear(); }); xs.clear(); } else { double x = lattice(OP, 50); sut([&] { st->push(x); }); xs.push_back(x); } }
            double s = 0, m = 0, v = 0; for(double x : xs) s += x; if(!xs.empty()) m = s / xs.size(); for(double x : xs) v += (x - m) * (x - m); v = xs.size() > 1 ? v / (xs.size() - 1) : 0;
            double gs = 0, gm = 0, gv = 0; std::uint64_t gn = 0; attempt("statistics", [&] { gs = st->sum(); gm = st->mean(); gv = st->variance(); gn = st->counts(); });
            GSIM_CHECK(gn == xs.size() && std::fabs(gm - m) < 1e-9 && std::fabs(gv - v) < 1e-6 && std::fabs(gs - s) < 1e-9, "wrong-statistic", "after %d pushes and clears: count %llu mean %g variance %g sum %g, expected %zu %g %g %g", k, (unsigned long long)gn, gm, gv, gs, xs.size(), m, v, s);
            setup([&] { delete st; });
        }
    }
};
Sim* Sim::self = nullptr;
} // namespace
void gsim_run() { Sim s; s.run(); disk().enabled = false; disk().content = nullptr; { InMode m(SETUP); call_map::instance().clear(); } }

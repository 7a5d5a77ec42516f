// Private allocators: containers and shared objects of classes with private
// constructors, under memory exhaustion, throwing constructors and concurrency.
#include <boost/config.hpp>
#include <array>
#include <list>
#include <map>
#include <deque>
#include <boost/smart_ptr/shared_ptr.hpp>
#include <boost/smart_ptr/weak_ptr.hpp>
#include <boost/smart_ptr/allocate_shared_array.hpp>
#include <boost/make_shared.hpp>
#include <geometrix/utility/private_allocator.hpp>
#include "common.hpp"
const char* const gsim_property = "C16";
using namespace hx;

namespace {
std::map<const void*, long>* g_alive;                 // object -> value, as the simulator saw it constructed
int g_throw_in;                                       // constructor number that throws, 0: none
void born(const void* p, long v) { InMode h(HARNESS); if(g_throw_in && --g_throw_in == 0) { fault("constructor-throw"); throw SimThrow{1}; } GSIM_CHECK(!g_alive->count(p), "constructed-twice", "an object was constructed on top of a live one"); (*g_alive)[p] = v; }
void died(const void* p) { InMode h(HARNESS); GSIM_CHECK(g_alive->erase(p) == 1, "destroyed-twice", "an object was destroyed that was not alive"); }

class Secret {                                        // only its allocator may construct or destroy it
public:
    GEOMETRIX_PRIVATE_ALLOCATOR(alloc);
    friend struct alloc<Secret>;
    static boost::shared_ptr<Secret> create(long v) { return boost::allocate_shared<Secret>(alloc<Secret>(), v); }
    typedef std::vector<Secret, alloc<Secret>> vec;
    long v; long* own;
    Secret& operator=(const Secret& o) { long* n = new long(o.v); delete own; own = n; v = o.v; return *this; }
private:
    explicit Secret(long x) : v(x), own(nullptr) { born(this, x); try { own = new long(x); } catch(...) { died(this); throw; } }
    Secret(const Secret& o) : v(o.v), own(nullptr) { born(this, v); try { own = new long(v); } catch(...) { died(this); throw; } }
    Secret(Secret&& o) noexcept : v(o.v), own(o.own) { o.own = nullptr; InMode h(HARNESS); int k = g_throw_in; g_throw_in = 0; born(this, v); g_throw_in = k; }
    ~Secret() { died(this); delete own; }
};
GEOMETRIX_PRIVATE_ALLOCATOR(open_alloc);
typedef std::list<long, open_alloc<long>> lst;
typedef std::map<long, long, std::less<long>, open_alloc<std::pair<const long, long>>> mp;

struct Op { int kind; long v; std::size_t n; FaultPlan plan; int thr; };
struct Sim {
    template <class T> void odd_size(std::size_t n, const FaultPlan& p) {
        open_alloc<T>* a = setup([&] { return new open_alloc<T>(); }); T* got = nullptr; bool threw = false;
        // a request beyond max_size can never be satisfied: it has to fail, whatever the multiplication gives
        std::size_t limit = a->max_size();
        if(n > limit) { op_begin(1000); { InMode m(SUT); try { got = a->allocate(n); } catch(const std::bad_alloc&) { threw = true; } } op_end(); GSIM_CHECK(threw, "short-block", "allocate(%zu) of %zu-byte elements returned a block although only %zu elements fit into memory", n, sizeof(T), limit); probe("oversized-request"); }
        else if(n < ((std::size_t)1 << 20)) {
            Outcome o = attempt("allocate", [&] { got = a->allocate(n); for(std::size_t i = 0; i < n; ++i) { unsigned char* c = (unsigned char*)(got + i); c[0] = (unsigned char)i; c[sizeof(T) - 1] = (unsigned char)i; } a->deallocate(got, n); }, p);
            (void)o;
        }
        setup([&] { delete a; });
    }
    void same(const Secret::vec& v, const std::vector<long>& m, const char* what) {
        std::vector<long> got; bool ok = true; attempt("reading", [&] { for(auto& s : v) { long x = s.v, y = *s.own; InMode h(HARNESS); got.push_back(x); ok = ok && x == y; } });
        GSIM_CHECK(got == m && ok, "content-differs", "%s: the container holds %zu elements, expected %zu (or other values)", what, got.size(), m.size());
    }
    void script(const std::vector<Op>& ops) {
        Secret::vec* v = setup([&] { return new Secret::vec(); }); std::vector<long> vm;
        lst* l = setup([&] { return new lst(); }); std::vector<long> lm; mp* m = setup([&] { return new mp(); }); std::map<long, long> mm;
        for(auto& o : ops) {
            g_throw_in = o.thr; bool thr = o.thr != 0; Outcome r = DONE;
            switch(o.kind) {
            case 0: r = attempt("emplace_back", [&] { v->emplace_back(o.v); }, o.plan, thr); if(r == DONE) vm.push_back(o.v); g_throw_in = 0; same(*v, vm, "after emplace_back"); break;
            case 1: if(!vm.empty()) { std::size_t i = o.n % vm.size(); attempt("erase", [&] { v->erase(v->begin() + i); }, FaultPlan()); vm.erase(vm.begin() + i); g_throw_in = 0; same(*v, vm, "after erase"); } break;
            case 2: { Secret::vec* w = nullptr; r = attempt("copy", [&] { w = new Secret::vec(*v); }, o.plan, thr); g_throw_in = 0; if(r == DONE) { same(*w, vm, "copy"); std::swap(v, w); setup([&] { delete w; }); } same(*v, vm, "after copy"); break; }
            case 3: r = attempt("reserve", [&] { v->reserve(o.n); }, o.plan, thr); g_throw_in = 0; same(*v, vm, "after reserve"); break;
            case 4: r = attempt("list push", [&] { l->push_back(o.v); }, o.plan); if(r == DONE) lm.push_back(o.v); break;
            case 5: r = attempt("map insert", [&] { m->insert(std::make_pair(o.v, o.v * 2)); }, o.plan); if(r == DONE) mm.insert({o.v, o.v * 2}); break;
            case 6: if(o.n & 1) odd_size<long>(o.n, o.plan); else if(o.n & 2) odd_size<std::array<char, 24>>(o.n, o.plan); else odd_size<std::array<char, 48>>(o.n, o.plan); break;
            case 7: { std::size_t big[] = {~(std::size_t)0, ~(std::size_t)0 / 24 + 2, ~(std::size_t)0 / 48 + 1 + o.n, ~(std::size_t)0 / 8 + 1, (std::size_t)1 << 61, (std::size_t)1 << 60}; std::size_t n = big[o.v & 3 ? (std::size_t)(o.v & 3) : 4 + (o.n & 1)]; odd_size<std::array<char, 24>>(n, FaultPlan()); odd_size<std::array<char, 48>>(n, FaultPlan()); break; }
            default: {
                boost::shared_ptr<Secret>* s = setup([&] { return new boost::shared_ptr<Secret>(); });
                r = attempt("create", [&] { *s = Secret::create(o.v); }, o.plan, thr); g_throw_in = 0;
                if(r == DONE) { attempt("share", [&] { boost::shared_ptr<Secret> b = *s; boost::weak_ptr<Secret> w = b; s->reset(); long x = b->v; { InMode h(HARNESS); GSIM_CHECK(x == o.v, "content-differs", "a shared object lost its value"); } b.reset(); bool gone = w.expired(); InMode h(HARNESS); GSIM_CHECK(gone, "outlived", "the last owner is gone, the object is not"); }); probe("shared"); }
                setup([&] { delete s; });
            }
            }
            g_throw_in = 0; mix(vm.size()); if(r != DONE) log("operation %d failed cleanly", o.kind);
        }
        std::vector<long> lg; attempt("reading the list", [&] { for(long x : *l) { InMode h(HARNESS); lg.push_back(x); } }); GSIM_CHECK(lg == lm, "content-differs", "the list holds %zu elements, expected %zu", lg.size(), lm.size());
        std::map<long, long> mg; attempt("reading the map", [&] { for(auto& kv : *m) { InMode h(HARNESS); mg[kv.first] = kv.second; } }); GSIM_CHECK(mg == mm, "content-differs", "the map holds %zu elements, expected %zu", mg.size(), mm.size());
        if(vm.size() + lm.size() + mm.size() > 3) nontrivial();
        destroy(v); destroy(l); destroy(m);
    }
    void run() {
        std::map<const void*, long> alive; g_alive = &alive; g_throw_in = 0;
        Swarm sw = draw_swarm(3); std::int64_t base = live_blocks();
        std::vector<std::vector<Op>> ops(sw.tasks);
        for(auto& v : ops) { int k = 1 + (int)size_upto(OP, 14, 150); for(int i = 0; i < k; ++i) { Span sp(OP); static const int K[] = {0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 8}; Op o; o.kind = K[choose(OP, 12)]; o.v = lattice(OP, 40); o.n = choose(OP, 1 + (1 << choose(OP, 8))); o.plan = draw_alloc_plan(sw.alloc_faults, 1, 3, 4); o.thr = sw.throwing_callbacks && sw.tasks == 1 && chance(FAULT, 1, 4) ? 1 + (int)choose(FAULT, 4) : 0; if(o.thr) o.plan = FaultPlan(); v.push_back(o); } }
        std::vector<std::function<void()>> bodies;
        for(int t = 0; t < sw.tasks; ++t) bodies.push_back([this, &ops, t] { script(ops[t]); });
        // one object shared by all tasks, each dropping its own reference
        boost::shared_ptr<Secret>* shared = setup([&] { return new boost::shared_ptr<Secret>(Secret::create(7)); });
        std::vector<boost::shared_ptr<Secret>*> refs; for(int t = 0; t < sw.tasks; ++t) refs.push_back(setup([&] { return new boost::shared_ptr<Secret>(*shared); }));
        for(int t = 0; t < sw.tasks; ++t) { auto b = bodies[t]; bodies[t] = [b, &refs, t] { b(); attempt("dropping a shared reference", [&] { boost::shared_ptr<Secret> c = *refs[t]; refs[t]->reset(); long x = *c->own; InMode h(HARNESS); GSIM_CHECK(x == 7, "content-differs", "a shared object lost its value"); }); }; }
        setup([&] { delete shared; });
        parallel(bodies);
        setup([&] { for(auto* r : refs) delete r; });
        GSIM_CHECK(alive.empty(), "never-destroyed", "%zu objects were never destroyed", alive.size());
        GSIM_CHECK(live_blocks() <= base, "leak", "%lld blocks still allocated at the end", (long long)(live_blocks() - base));
    }
};
} // namespace
void gsim_run() { Sim s; s.run(); }

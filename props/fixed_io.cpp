// Fixed-point numbers through streams that deliver and accept piecemeal, end
// early, throw, or hold garbage.
#include <boost/config.hpp>
#include <sstream>
#include <iomanip>
#include <istream>
#include <ostream>
#include <geometrix/numeric/fixed_point.hpp>
#include "common.hpp"
const char* const gsim_property = "C17";
using namespace hx;
using namespace geometrix;

namespace {
struct Out : std::streambuf {           // accepts `room` bytes, then fails or throws
    std::string got; long room = -1; bool thr = false;
    int overflow(int c) override { InMode h(HARNESS); if(c == EOF) return 0; if(room == 0) { fault(thr ? "stream-throw" : "stream-full"); if(thr) throw SimThrow{1}; return EOF; } if(room > 0) --room; got += (char)c; return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { InMode h(HARNESS); std::streamsize k = 0; for(; k < n; ++k) { if(room == 0) { fault(thr ? "stream-throw" : "short-write"); if(thr) throw SimThrow{1}; break; } if(room > 0) --room; got += s[k]; } return k; }
};
struct In : std::streambuf {            // delivers a few bytes at a time, ends or throws at `cut`
    std::string text; std::size_t at = 0, cut = (std::size_t)-1; bool thr = false; char buf[8];
    int underflow() override {
        InMode h(HARNESS);
        std::size_t end = std::min(text.size(), cut);
        if(at >= end) { if(cut < text.size()) { fault(thr ? "stream-throw" : "stream-cut"); if(thr) throw SimThrow{1}; } return EOF; }
        std::size_t n = 1 + choose(ENV, 4); n = std::min(n, end - at); for(std::size_t i = 0; i < n; ++i) buf[i] = text[at + i]; at += n; setg(buf, buf, buf + n); return (unsigned char)buf[0];
    }
};
template <class F> struct Sim {
    typedef typename F::format_type fmt; const char* name; double scale; int tol; typename F::scale_policy policy; bool trunc = false; bool other_scales = false; int base = 10;
    static typename F::scale_policy with_scale(int e) { return with_scale_(e, typename std::is_constructible<typename F::scale_policy, unsigned>::type()); }
    static typename F::scale_policy with_scale_(int e, std::true_type) { return typename F::scale_policy((unsigned)e); }
    static typename F::scale_policy with_scale_(int, std::false_type) { return typename F::scale_policy(); }
    F make(fmt v) const { return F::from_format_value(v, policy); }
    static fmt raw(const F& f, double scale) { (void)scale; return f.get_scaled_value(); }
    fmt draw() {
        Span sp(OP); typedef std::numeric_limits<fmt> L;
        switch(choose(OP, 5)) {
        case 0: return (fmt)lattice(OP, 2000);
        case 1: return (fmt)(L::max() - (fmt)choose(OP, 50));
        case 2: return (fmt)(L::min() + 1 + (fmt)choose(OP, 50));
        case 3: { long k = lattice(OP, 20000); return (fmt)(k * (long)scale); }
        default: { std::uint64_t x = choose(OP, 1ull << 31); return (fmt)(chance(OP, 1, 2) ? (std::int64_t)x : -(std::int64_t)x); }
        }
    }
    // numbers written one after the other, with the caller's own formatting around them
    void round_trip() {
        int n = 1 + (int)choose(OP, 5); std::vector<fmt> vals; for(int i = 0; i < n; ++i) vals.push_back(draw());
        int prec = (int)choose(OP, 12); bool fix = chance(OP, 1, 4); Out ob; if(chance(FAULT, 1, 3)) { ob.room = (long)choose(FAULT, 40); ob.thr = chance(FAULT, 1, 3); }
        std::ostream* os = setup([&] { return new std::ostream(&ob); }); os->precision(prec); if(fix) os->exceptions(std::ios::badbit | std::ios::failbit);
        long after = -1; bool good = false; std::string text;
        Outcome o = attempt("writing", [&] { try { for(fmt v : vals) { *os << make(v) << ' '; } good = os->good(); } catch(const std::ios_base::failure&) { InMode h(HARNESS); probe("output-exception"); } }, FaultPlan(), true);
        log("wrote %d %s numbers: \"%s\"%s", n, name, ob.got.c_str(), good ? "" : ", stream failed");
        after = os->precision(); if(o == THREW) good = false;
        GSIM_CHECK(after == prec, "format-changed", "writing a fixed-point number changed the stream's precision from %d to %ld", prec, after);
        GSIM_CHECK(!good || ob.room != 0 || ob.got.size() > 0, "failure-hidden", "the stream ran full and still claims to be good");
        setup([&] { delete os; });
        if(!good) { probe("output-failed"); return; }
        In ib; ib.text = ob.got; if(chance(FAULT, 1, 3)) { ib.cut = choose(FAULT, ib.text.size() + 1); ib.thr = chance(FAULT, 1, 3); }
        std::istream* is = setup([&] { return new std::istream(&ib); }); std::vector<fmt> back; bool ok = true;
        attempt("reading", [&] { for(int i = 0; i < n && ok; ++i) { F f = make((fmt)77); *is >> f; ok = !is->fail(); InMode h(HARNESS); if(ok) back.push_back(raw(f, scale)); else { fmt r = raw(f, scale); GSIM_CHECK(r == 77, "changed-on-failure", "a failed read changed the number"); } } }, FaultPlan(), true);
        std::size_t whole = 0; for(std::size_t p = 0; p < std::min(ib.text.size(), ib.cut); ++p) if(ib.text[p] == ' ') ++whole;
        GSIM_CHECK(back.size() >= whole, "lost-number", "%zu complete numbers were in the stream, %zu were read", whole, back.size());
        for(std::size_t i = 0; i < back.size() && i < whole; ++i) { mix((std::uint64_t)back[i]); GSIM_CHECK(std::llabs((long long)back[i] - (long long)vals[i]) <= tol, "not-round-trip", "%s: %lld units were written as \"%s\" and read back as %lld", name, (long long)vals[i], ib.text.c_str(), (long long)back[i]); }
        setup([&] { delete is; });
        if(whole > 0) nontrivial();
        if(back.size() == (std::size_t)n && whole == (std::size_t)n) probe("round-trip");
    }
    void garbage() {
        static const char* const T[] = {"", " ", "abc", "1e30", "-1e30", "1e400", "+", "-", ".", "1.5x", "0x", "nan", "inf", "--3", "99999999999999999999", "\t\n 2.25 "};
        std::string t = T[choose(OP, 16)]; In ib; ib.text = t; F* f = setup([&] { return new F(make((fmt)77)); }); bool failed = false;
        std::istream* is = setup([&] { return new std::istream(&ib); });
        attempt("reading garbage", [&] { try { *is >> *f; failed = is->fail(); } catch(const std::bad_cast&) { failed = true; } });
        fmt r = raw(*f, scale); log("read \"%s\" as %s: %s", t.c_str(), name, failed ? "failed" : "read");
        if(failed) { GSIM_CHECK(r == 77, "changed-on-failure", "reading \"%s\" failed and changed the number to %lld units", t.c_str(), (long long)r); probe("refused"); }
        else {
            double d = strtod(t.c_str(), nullptr);
            GSIM_CHECK(t == "0x" || t == "1.5x" || t == "\t\n 2.25 ", "accepted-garbage", "\"%s\" was read as a number (%lld units)", t.c_str(), (long long)r);
            GSIM_CHECK(std::fabs(r - d * scale) <= 1 + tol, "wrong-number", "\"%s\" was read as %lld units, expected %g", t.c_str(), (long long)r, d * scale); probe("accepted");
        }
        setup([&] { delete is; delete f; });
    }
    // a register machine: exact for sums and comparisons, within one unit for products and quotients
    void arithmetic() {
        const long long lim = std::numeric_limits<fmt>::max(); long long m[3]; F* f[3];
        for(int i = 0; i < 3; ++i) { m[i] = (long long)lattice(OP, 150) * (chance(OP, 1, 2) ? (long long)scale / 4 : 1); if(m[i] > lim / 2 || m[i] < -lim / 2) m[i] /= 4; m[i] %= lim; f[i] = setup([&] { return new F(make((fmt)m[i])); }); }
        int n = 1 + (int)choose(OP, 10);
        for(int k = 0; k < n; ++k) {
            Span sp(OP); int a = (int)choose(OP, 3), b = (int)choose(OP, 3), op = (int)choose(OP, 9); bool two = chance(OP, 1, 2); long long x = m[a], y = m[b], want = x, slack = 0; int w = lattice(OP, 9);
            bool skip = false; static const char* const N[] = {"+=", "-=", "*=", "/=", "negate", "+= integer", "compare", "stream copy", "convert"};
            auto fits = [&](__int128 v) { return v < lim - 1 && v > -lim + 1; };
            switch(op) {
            case 0: skip = !fits((__int128)x + y); want = x + y; break;
            case 1: skip = !fits((__int128)x - y); want = x - y; break;
            case 2: skip = !fits((__int128)x * y / (long long)scale); want = (long long)((__int128)x * y / (long long)scale); slack = 1; break;
            case 3: skip = y == 0 || !fits((__int128)x * (long long)scale / (y ? y : 1)); if(!skip) want = (long long)((__int128)x * (long long)scale / y); slack = 1; break;
            case 4: want = -x; break;
            case 5: skip = !fits((__int128)x + (__int128)w * (long long)scale) || !fits((__int128)w * (long long)scale); want = x + w * (long long)scale; break;
            default: break;
            }
            if(skip) continue;
            bool lt = false, gt = false, eq = false; double d = 0;
            attempt(N[op], [&] {
                switch(op) {
                case 0: if(two) *f[a] = *f[a] + *f[b]; else *f[a] += *f[b]; break; case 1: if(two) *f[a] = *f[a] - *f[b]; else *f[a] -= *f[b]; break; case 2: if(two) *f[a] = *f[a] * *f[b]; else *f[a] *= *f[b]; break; case 3: if(two) *f[a] = *f[a] / *f[b]; else *f[a] /= *f[b]; break;
                case 4: *f[a] = -*f[a]; break; case 5: if(two) *f[a] = *f[a] + w; else *f[a] += w; break;
                case 6: lt = *f[a] < *f[b]; gt = *f[a] > *f[b]; eq = *f[a] == *f[b]; break;
                case 7: { std::stringstream ss; ss << *f[a]; ss >> *f[b]; break; }
                default: d = f[a]->template convert_to<double>();
                }
            });
            long long got = f[a]->get_scaled_value();
            if(op == 6) GSIM_CHECK(lt == (x < y) && gt == (x > y) && eq == (x == y), "wrong-order", "%s: %lld and %lld units compare <%d >%d ==%d", name, x, y, (int)lt, (int)gt, (int)eq);
            if(op == 7) { long long o = f[b]->get_scaled_value(); GSIM_CHECK(std::llabs(o - x) <= tol, "not-round-trip", "%s: %lld units went through a stream and came back as %lld", name, x, o); m[b] = o; if(a == b) want = got; }
            if(op == 8) GSIM_CHECK(std::fabs(d * scale - (double)x) < 1e-3, "wrong-conversion", "%s: %lld units converted to %.17g", name, x, d);
            GSIM_CHECK(std::llabs(got - want) <= slack, "wrong-result", "%s: %lld %s %lld (or %d) gave %lld units, expected %lld", name, x, N[op], y, w, got, want);
            m[a] = got; mix((std::uint64_t)got); probe("arithmetic"); nontrivial();
        }
        for(int i = 0; i < 3; ++i) destroy(f[i]);
    }
    // what the rounding policy makes of num / den units
    long long rounded(__int128 num, __int128 den) const {
        if(den < 0) { num = -num; den = -den; }
        __int128 q = num / den, r = num % den; if(r < 0) { r += den; --q; }            // floor
        if(trunc) return (long long)(q < 0 && r != 0 ? q + 1 : q);
        if(2 * r > den || (2 * r == den && (q & 1))) ++q;
        return (long long)q;
    }
    // a number and a plain number of any arithmetic type
    template <class U> static void with(F& A, int op, U w, int j, bool* c) {
        switch(op) {
        case 8: A = F(w - A); break; case 9: A = F(w / A); break; case 10: A = F(w * A); break; case 11: A = F(w + A); break;
        case 12: case 13: A = w; break;
        case 15: c[0] = A < w; c[1] = A > w; c[2] = A <= w; c[3] = A >= w; c[4] = A == w; c[5] = A != w; c[0] = c[0] && w > A && !(w <= A); break;
        case 22: if(j & 1) A = A + w; else A += w; break; case 23: if(j & 1) A = A - w; else A -= w; break; case 24: if(j & 1) A = A * w; else A *= w; break; case 25: if(j & 1) A = A / w; else A /= w; break;
        }
    }
    enum { TYPES = 12 };
    static const char* type_name(int ty) { static const char* const N[] = {"int", "signed char", "unsigned char", "short", "unsigned short", "unsigned", "long", "unsigned long", "long long", "float", "double", "long double"}; return N[ty]; }
    static bool is_unsigned(int ty) { return ty == 2 || ty == 4 || ty == 5 || ty == 7; }
    static long most(int ty) { static const long M[] = {1 << 30, 127, 255, 32767, 65535, 1 << 30, 1 << 30, 1 << 30, 1 << 30, 1 << 20, 1 << 30, 1 << 30}; return M[ty]; }
    static void with_type(int ty, F& A, int op, long w, int j, bool* c) {
        switch(ty) {
        case 0: with<int>(A, op, (int)w, j, c); break; case 1: with<signed char>(A, op, (signed char)w, j, c); break; case 2: with<unsigned char>(A, op, (unsigned char)w, j, c); break;
        case 3: with<short>(A, op, (short)w, j, c); break; case 4: with<unsigned short>(A, op, (unsigned short)w, j, c); break; case 5: with<unsigned>(A, op, (unsigned)w, j, c); break;
        case 6: with<long>(A, op, w, j, c); break; case 7: with<unsigned long>(A, op, (unsigned long)w, j, c); break; case 8: with<long long>(A, op, w, j, c); break;
        case 9: with<float>(A, op, (float)w, j, c); break; case 10: with<double>(A, op, (double)w, j, c); break; default: with<long double>(A, op, (long double)w, j, c); break;
        }
    }
    // registers whose scales may differ, and everything a caller can write down
    void mixed() {
        const long long lim = std::numeric_limits<fmt>::max(); const bool big = sizeof(fmt) > 4; long long m[3]; long long sc[3]; F* f[3];
        for(int i = 0; i < 3; ++i) {
            Span sp(OP); typename F::scale_policy pol = policy; sc[i] = (long long)scale;
            if(other_scales && chance(OP, 1, 2)) { int e = 1 + (int)choose(OP, 5); sc[i] = 1; for(int k = 0; k < e; ++k) sc[i] *= base; pol = with_scale(e); }
            m[i] = lattice(OP, 150) * (chance(OP, 1, 2) ? std::max(1ll, sc[i] / 4) : 1); m[i] %= lim / 2; f[i] = setup([&] { return new F(F::from_format_value((fmt)m[i], pol)); });
        }
        auto fits = [&](__int128 v) { return v < lim - 1 && v > -lim + 1; };
        auto room = [&](__int128 v) { return !big || (v < ((__int128)1 << 62) && v > -((__int128)1 << 62)); };   // what the widest type of the machine holds
        int n = 1 + (int)choose(OP, 12);
        for(int k = 0; k < n; ++k) {
            Span sp(OP); int a = (int)choose(OP, 3), b = (int)choose(OP, 3), op = (int)choose(OP, 27), w = (int)lattice(OP, 9), j = (int)choose(OP, 14), ty = (int)choose(OP, TYPES);
            if(chance(OP, 1, 4)) w = (int)lattice(OP, big ? 5000000 : 2000000); if(w > most(ty)) w %= (int)most(ty); if(-w > most(ty)) w = -(-w % (int)most(ty)); if(w < 0 && is_unsigned(ty)) w = -w;
            static const char* const N[] = {"+= x", "-= x", "*= x", "/= x", "++x", "x++", "--x", "x--", "integer - x", "integer / x", "integer * x", "integer + x", "= integer", "= fraction", "compare", "compare with integer", "fmod", "copysign", "truth", "swap", "copy", "to integer", "x + integer", "x - integer", "x * integer", "x / integer", "abs"};
            __int128 x = m[a], y = m[b], sa = sc[a], sb = sc[b], want = x, old = 0; bool skip = false, near = false; __int128 num = 0, den = 1;   // near: within one unit of num / den
            long long frac = (long long)lattice(OP, 3000); bool is_old = false;
            switch(op) {
            case 0: case 1: num = x * sb + (op ? -1 : 1) * y * sa; den = sb; skip = !fits(num / den) || !fits(y * sa / sb); want = x + (op ? -1 : 1) * rounded(y * sa, sb); break;
            case 2: num = x * y; den = sb; near = true; skip = !fits(num / den) || !room(num); break;
            case 3: num = x * sb; den = y; near = true; skip = y == 0 || !fits(num / (y ? y : 1)) || !room(num); break;
            case 4: case 5: want = x + sa; skip = !fits(want); old = x; is_old = op == 5; break;
            case 6: case 7: want = x - sa; skip = !fits(want); old = x; is_old = op == 7; break;
            case 8: want = w * sa - x; skip = !fits(want) || !fits(w * sa); break;
            case 9: num = (__int128)w * sa * sa; den = x; near = true; skip = x == 0 || !fits((__int128)w * sa) || !fits(num / (x ? x : 1)) || !room(num); break;
            case 10: num = (__int128)w * sa * x; den = sa; near = true; skip = !fits((__int128)w * sa) || !fits(w * x) || !room(num); break;
            case 11: want = w * sa + x; skip = !fits(want) || !fits(w * sa); break;
            case 12: want = w * sa; skip = !fits(want); break;
            case 13: num = (__int128)frac * sa; den = (__int128)1 << j; skip = !fits(num / den); want = rounded(num, den); break;
            case 26: want = x < 0 ? -x : x; break;
            case 15: skip = !fits(w * sa); break; case 14: case 18: case 21: break;
            case 22: want = x + w * sa; skip = !fits(want) || !fits(w * sa); break;
            case 23: want = x - w * sa; skip = !fits(want) || !fits(w * sa); break;
            case 24: want = x * w; skip = !fits(want) || !fits(w * sa) || !room((__int128)w * sa * x); break;
            case 25: num = x; den = w; near = true; skip = w == 0 || !fits(w * sa) || !room(x * sa); break;
            
            case 16: skip = sa % sb != 0 || y == 0 || !fits(y * sa / sb); if(!skip) want = x % (y * (sa / sb)); break;
            case 17: want = (x < 0) == (y < 0) ? x : -x; skip = y == 0; break;
            default: break;
            }
            if(skip) continue;
            bool c[6] = {}, truth = false, nt = false; long long iv = 0, gold = 0; fmt ov = 0;
            Outcome o = attempt(N[op], [&] {
                F& A = *f[a]; F& B = *f[b];
                switch(op) {
                case 0: if(j & 1) A = A + B; else A += B; break; case 1: if(j & 1) A = A - B; else A -= B; break; case 2: if(j & 1) A = A * B; else A *= B; break; case 3: if(j & 1) A = A / B; else A /= B; break;
                case 4: ++A; break; case 5: ov = (A++).get_scaled_value(); break; case 6: --A; break; case 7: ov = (A--).get_scaled_value(); break;
                case 8: case 9: case 10: case 11: case 12: case 15: case 22: case 23: case 24: case 25: with_type(ty, A, op, w, j, c); break;
                case 13: if(ty == 9) with<float>(A, op, (float)frac / (float)(1 << j), j, c); else if(ty == 11) with<long double>(A, op, (long double)frac / (1 << j), j, c); else with<double>(A, op, (double)frac / (double)(1 << j), j, c); break;
                case 14: c[0] = A < B; c[1] = A > B; c[2] = A <= B; c[3] = A >= B; c[4] = A == B; c[5] = A != B; break;
                case 26: { F r(fabs(A)); A.swap(r); }; break;
                case 16: A = fmod(A, B); break; case 17: A = copysign(A, B); break;
                case 18: truth = A ? true : false; nt = !A; break;
                case 19: A.swap(B); break; case 20: A = B; break;
                default: iv = big ? A.template convert_to<long long>() : A.template convert_to<int>();
                }
            });
            GSIM_CHECK(o == DONE, "refused", "%s: %lld/%lld %s with %d of type %s was refused, and the result is representable", name, (long long)x, (long long)sa, N[op], w, type_name(ty));
            if(op == 26) probe("function"); if(ty && op >= 8 && op < 26 && (op <= 12 || op == 15 || op >= 22)) probe("other-type");
            if(op == 19 && a != b) { std::swap(m[a], m[b]); std::swap(sc[a], sc[b]); }
            if(op == 20) { m[a] = m[b]; sc[a] = sc[b]; }
            if(op >= 19 && op <= 20) { for(int i = 0; i < 3; ++i) { want = m[i]; GSIM_CHECK(f[i]->get_scaled_value() == m[i], "wrong-result", "%s: after %s register %d holds %lld units, expected %lld", name, N[op], i, (long long)f[i]->get_scaled_value(), m[i]); } continue; }
            gold = f[a]->get_scaled_value();
            if(op == 14) { __int128 l = x * sb, r = y * sa; bool e[6] = {l < r, l > r, l <= r, l >= r, l == r, l != r}; for(int i = 0; i < 6; ++i) GSIM_CHECK(c[i] == e[i], "wrong-order", "%s: %lld/%lld %s %lld/%lld is %d", name, (long long)x, (long long)sa, ((const char* const[]){"<", ">", "<=", ">=", "==", "!="})[i], (long long)y, (long long)sb, (int)c[i]); if(sa != sb) probe("different-scales"); }
            if(op == 15 && fits(w * sa)) { __int128 l = x, r = w * sa; bool e[6] = {l < r, l > r, l <= r, l >= r, l == r, l != r}; for(int i = 0; i < 6; ++i) GSIM_CHECK(c[i] == e[i], "wrong-order", "%s: %lld/%lld %s %d is %d", name, (long long)x, (long long)sa, ((const char* const[]){"<", ">", "<=", ">=", "==", "!="})[i], w, (int)c[i]); }
            if(op == 18) GSIM_CHECK(truth == (x != 0) && nt == (x == 0), "wrong-truth", "%s: %lld units are taken for %s", name, (long long)x, truth ? "true" : "false");
            if(op == 21) GSIM_CHECK((__int128)iv * sa - x < sa && (__int128)iv * sa - x > -sa, "wrong-conversion", "%s: %lld/%lld converted to the integer %lld", name, (long long)x, (long long)sa, iv);
            if(is_old) GSIM_CHECK((__int128)ov == old, "wrong-result", "%s: %s gave %lld units, expected the value before, %lld", name, N[op], (long long)ov, (long long)old);
            if(near) { __int128 d = (__int128)gold * den - num, u = den < 0 ? -den : den; if(d < 0) d = -d; GSIM_CHECK(d < u, "wrong-result", "%s: %lld/%lld %s %lld/%lld (or %d) gave %lld units, more than one from the exact result", name, (long long)x, (long long)sa, N[op], (long long)y, (long long)sb, w, gold); }
            else if(op < 2 && sa != sb) { __int128 d = (__int128)gold * den - num; if(d < 0) d = -d; GSIM_CHECK(2 * d <= den, "wrong-result", "%s: %lld/%lld %s %lld/%lld gave %lld units, not the nearest", name, (long long)x, (long long)sa, N[op], (long long)y, (long long)sb, gold); }
            else GSIM_CHECK((__int128)gold == want, "wrong-result", "%s: %lld/%lld %s %lld/%lld (or %s %d, or %lld/%d) gave %lld units, expected %lld", name, (long long)x, (long long)sa, N[op], (long long)y, (long long)sb, type_name(ty), w, frac, 1 << j, gold, (long long)want);
            if(op == 13 && num % den != 0 && 2 * (num % den) % den == 0) probe("tie");
            m[a] = gold; mix((std::uint64_t)gold); probe("mixed"); nontrivial();
        }
        for(int i = 0; i < 3; ++i) destroy(f[i]);
    }
    // from a number of another format, by construction and by assignment
    template <class G> void converted(double gscale, typename G::scale_policy gp, const char* gname) {
        const long long lim = std::numeric_limits<fmt>::max(); long long g = lattice(OP, 30000); if(chance(OP, 1, 2)) g = lattice(OP, 100) * std::max(1ll, (long long)gscale / 4); g %= std::numeric_limits<typename G::format_type>::max();
        double to = scale; if(std::is_same<F, G>::value) { to = gscale; g %= lim; } // a copy keeps its scale
        __int128 num = (__int128)g * (long long)to, den = (long long)gscale; if(num / den >= lim - 1 || num / den <= -lim + 1) return;
        G* src = setup([&] { return new G(G::from_format_value((typename G::format_type)g, gp)); }); F* f = setup([&] { return new F(make(77)); });
        attempt("conversion", [&] { *f = *src; });
        long long got = f->get_scaled_value(); __int128 d = (__int128)got * den - num; if(d < 0) d = -d;
        log("%s from %s: %lld units of 1/%g gave %lld of 1/%g", name, gname, g, gscale, got, to);
        GSIM_CHECK(d <= den && (trunc || 2 * d <= den), "wrong-conversion", "%s: %lld units of 1/%g (%s) became %lld units of 1/%g", name, g, gscale, gname, got, to);
        mix((std::uint64_t)got); probe("converted"); destroy(f); destroy(src);
    }
    void from_others() {
        typedef fixed_point<fixed_point_traits<int, generic_compile_time_scale_policy<10, 1>, round_half_to_even>> dec1;
        typedef fixed_point<fixed_point_traits<int, binary_compile_time_scale_policy<5>, round_toward_zero>> bin5;
        typedef fixed_point<fixed_point_traits<int, generic_run_time_scale_policy<10>, round_half_to_even>> run;
        typedef fixed_point<fixed_point_traits<int, binary_run_time_scale_policy, round_half_to_even>> brun;
        switch(choose(OP, 4)) { case 0: converted<dec1>(10, {}, "decimal (1 place)"); break; case 1: converted<bin5>(32, {}, "binary (5 bits)"); break; case 2: converted<run>(10000, {4}, "decimal, scaled at run time"); break; default: converted<brun>(128, {7}, "binary, scaled at run time"); }
    }
    void run() {
        int tasks = 1 + (int)choose(OP, 3); std::vector<std::function<void()>> bodies;
        for(int t = 0; t < tasks; ++t) bodies.push_back([this] { int k = 1 + (int)choose(OP, 3); for(int i = 0; i < k; ++i) { int w = (int)choose(OP, 11); if(w < 2) garbage(); else if(sizeof(fmt) > 4) mixed(); else if(w < 4) arithmetic(); else if(w < 6) mixed(); else if(w < 7) from_others(); else round_trip(); } });
        parallel(bodies);
    }
};
} // namespace
void gsim_run() {
    typedef fixed_point<fixed_point_traits<int, generic_compile_time_scale_policy<10, 3>, round_half_to_even>> dec3;
    typedef fixed_point<fixed_point_traits<int, binary_compile_time_scale_policy<12>, round_half_to_even>> bin12;
    typedef fixed_point<fixed_point_traits<int, binary_compile_time_scale_policy<11>, round_toward_zero>> bin11z;
    typedef fixed_point<fixed_point_traits<short, generic_compile_time_scale_policy<10, 2>, round_half_to_even>> short2;
    typedef fixed_point<fixed_point_traits<int, generic_run_time_scale_policy<10>, round_half_to_even>> dec_run;
    typedef fixed_point<fixed_point_traits<long long, generic_compile_time_scale_policy<10, 3>, round_half_to_even>> dec64;
    typedef fixed_point<fixed_point_traits<int, binary_run_time_scale_policy, round_half_to_even>> bin_run;
    switch(choose(GEN, 7)) {
    case 6: { Sim<dec64> s{"long decimal (3 places)", 1000, 0, {}}; s.run(); break; }
    case 0: { Sim<dec3> s{"decimal (3 places)", 1000, 0, {}}; s.run(); break; }
    case 1: { Sim<bin12> s{"binary (12 bits)", 4096, 0, {}}; s.run(); break; }
    case 2: { Sim<bin11z> s{"binary (11 bits, truncating)", 2048, 1, {}}; s.trunc = true; s.run(); break; }
    case 3: { int e = 1 + (int)choose(GEN, 6); double p = 1; for(int i = 0; i < e; ++i) p *= 10; Sim<dec_run> s{"decimal, scaled at run time", p, 0, generic_run_time_scale_policy<10>((unsigned)e)}; s.other_scales = true; s.run(); break; }
    case 4: { int e = 1 + (int)choose(GEN, 14); Sim<bin_run> s{"binary, scaled at run time", (double)(1 << e), 0, binary_run_time_scale_policy((unsigned)e)}; s.other_scales = true; s.base = 2; s.run(); break; }
    default: { Sim<short2> s{"short decimal", 100, 0, {}}; s.run(); }
    }
}

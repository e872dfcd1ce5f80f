// Random programs for the dyadic numbers of the library (four registers), and random calls of the error-free transformations
// and of the normalised numbers; every step is recorded with the value it wrote or returned, the flags and errno.
//   ccm_run(OUT, "seed=S first=K sessions=N len=L modes=0123")
#include "pre.h"
#include "rec.h"
#include <ccmath/ccmath.hpp>
#include <ccmath/internal/types/dyadic_float.hpp>
#include <ccmath/internal/types/normalized_float.hpp>
#include <ccmath/internal/types/double_double.hpp>
#include <ccmath/internal/types/number_pair.hpp>
#ifdef V_CE      // constant evaluation cannot report and rounds to nearest
#define QUIET "1"
#else
#define QUIET "0"
#endif
namespace {
namespace su = ccm::support; namespace ty = ccm::types; using ty::DyadicFloat; using ty::Sign;
int curMode;
int flags() { int r = 0; const int m[5] = { FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT }; for (int i = 0; i < 5; i++) if (fetestexcept(m[i])) r |= 1 << i; return r; }
void clear() { feclearexcept(FE_ALL_EXCEPT); errno = 0; }
template <class T> constexpr char letter = sizeof(T) == 4 ? 'f' : sizeof(T) == 8 ? 'd' : 'l';
template <class T> string bits(T v) { uint8_t b[16] = {}; memcpy(b, &v, sizeof v); return limw(b, sizeof(T) == 16 ? 10 : sizeof(T)); }
template <class T> T number(int e0, int e1) {      // a finite number with its leading bit worth 2^e, e in e0..e1, often with few bits or many ones
    constexpr int p = sizeof(T) == 4 ? 24 : sizeof(T) == 8 ? 53 : 64; uint64_t m;
    switch (below(6)) { case 0: m = 0; break; case 1: m = ~0ull; break; case 2: m = ~0ull << below(64); break; case 3: m = rnd() & (rnd() >> below(64)); break; case 4: m = 1ull << below(64); break; default: m = rnd(); }
    m = (m >> (65 - p)) | 1ull << (p - 1); if (below(3) == 0) m = (m >> (p / 2)) << (p / 2); T v = std::ldexp((T)m, range(e0, e1) - p + 1); return below(2) ? -v : v;
}
template <class T> T anynum() {
    constexpr int emax = sizeof(T) == 4 ? 127 : sizeof(T) == 8 ? 1023 : 16383, p = sizeof(T) == 4 ? 24 : sizeof(T) == 8 ? 53 : 64;
    switch (below(8)) { case 0: return number<T>(-emax - p + 1, -emax); case 1: return number<T>(-emax + 1, -emax + 5); case 2: return number<T>(emax - 3, emax); case 3: return (T)range(-20, 20); case 4: return number<T>(-emax + 1, emax); default: return number<T>(-30, 30); }
}
template <size_t B> struct Machine {
    using D = DyadicFloat<B>; using M = typename D::mantissa_type; D R[4]; int d, s, x;
    static string raw(const M& v) { return limw((const uint8_t*)v.val.data(), B / 8); }
    static string num(const D& v) { return "[" + std::to_string(v.sign.is_neg()) + "," + std::to_string(v.exponent) + "," + raw(v.mantissa) + "]"; }
    void op(const char* o, string w, std::initializer_list<long> y, bool wr, const char* t = "") {
        int fl = flags(), en = errno;
        line("{\"k\":\"op\",\"o\":\"" + string(o) + "\",\"d\":" + std::to_string(d) + ",\"s\":" + std::to_string(s) + ",\"x\":" + std::to_string(x) + ",\"t\":\"" + t + "\",\"r\":" + (wr ? num(R[d]) : "[]") + ",\"w\":[" + w + "],\"y\":" + ji(y) + ",\"fl\":" + std::to_string(fl) + ",\"en\":" + std::to_string(en));
    }
    M mant() {
        M v = M(0); int k = below(7);
        if (k == 0) v.set_bit(below(B)); else if (k == 1) { int n = below(B + 1); for (int i = 0; i < n; i++) v.set_bit(B - 1 - i); } else if (k == 2) { v.set_bit(B - 1); v.set_bit(below(B)); }
        else if (k == 3) { v = R[below(4)].mantissa; v.val[below(M::WORD_COUNT)] ^= (typename M::word_type)1 << below(M::WORD_SIZE); } else for (auto& w : v.val) w = (typename M::word_type)(below(4) ? rnd() : below(2) ? 0 : -1);
        if (below(8) == 0) v >>= below(B); return v;
    }
    template <class T> void from() { T v = below(12) ? anynum<T>() : (below(2) ? (T)0 : -(T)0); clear(); R[d] = D(v); const char l[2] = { letter<T>, 0 }; op("from", bits(v), {}, true, l); }
    template <class T> void to(const D& a) {
        constexpr int emax = sizeof(T) == 4 ? 127 : sizeof(T) == 8 ? 1023 : 16383, p = sizeof(T) == 4 ? 24 : sizeof(T) == 8 ? 53 : 64; D v = a;
        if (below(5) && !v.mantissa.is_zero()) { int want = below(3) ? range(-emax - p - 1, -emax + 2) : below(2) ? range(emax - 2, emax + 2) : range(-40, 40); v.exponent = want - (int)B + 1; }
        if (below(2)) { // bits that decide the rounding: a tie, or one next to it
            M m = M(0); int keep = p - (v.get_unbiased_exponent() < -emax + 1 ? -emax + 1 - v.get_unbiased_exponent() : 0); m = v.mantissa; if (keep >= 1 && keep < (int)B) { m >>= B - keep; m <<= B - keep; m.set_bit(B - keep - 1); int z = below(4); if (z == 1) m.set_bit(below(B - keep)); if (z == 2 && B - keep > 1) { m.val[0] |= 1; } if (z == 3) m = m - M(1); if (m.get_bit(B - 1)) v.mantissa = m; }
            else if (keep < 1) { m.set_bit(B - 1); if (below(4)) m.set_bit(below(2) ? B - 2 : below(B - 1)); v.mantissa = m; }      // half of the least subnormal, and next to it
        }
        R[d] = D(v.sign, v.exponent, v.mantissa); op("gen", "", {}, true); const char l[2] = { letter<T>, 0 }; T r; int k = below(5); s = d; clear();
        switch (k) { case 0: r = static_cast<T>(R[d]); op("as", bits(r), { 0 }, false, l); break; case 1: r = R[d].template as<T, true>(); op("as", bits(r), { 1 }, false, l); break; case 2: r = R[d].template fast_as<T, false>(); op("as", bits(r), { 0 }, false, l); break;
            case 3: r = R[d].template generic_as<T, false>(); op("gas", bits(r), { 0 }, false, l); break; default: r = R[d].template generic_as<T, true>(); op("gas", bits(r), { 1 }, false, l); }
    }
    void step() {
        d = below(4); s = below(4); x = below(4); const D a = R[s], b = R[x]; bool zero = b.mantissa.is_zero(), big = abs(a.exponent) > 60000 || abs(b.exponent) > 60000; clear();
        switch (below(20)) {
        case 0: from<float>(); break; case 1: from<double>(); break; case 2: from<long double>(); break;
        case 3: case 4: { int k = below(3); R[d] = k == 0 ? D(b.sign, b.exponent + range(-3, 3), mant()) : D(below(2) ? Sign::NEG : Sign::POS, range(-300, 300), mant()); op("gen", "", {}, true); break; }
        case 5: { M m = mant(); int e = range(-400, 400); bool n = below(2); R[d] = D(n ? Sign::NEG : Sign::POS, e, m); op("make", raw(m), { n, e }, true); break; }
        case 6: case 7: if (big) return; R[d] = ty::quick_add(a, b); op("add", "", {}, true); break;
        case 8: if (big) return; R[d] = ty::quick_sub(a, b); op("sub", "", {}, true); break;
        case 9: if (big) return; R[d] = ty::quick_mul(a, b); op("mul", "", {}, true); break;
        case 10: if (big) return; R[d] = ty::rounded_mul(a, b); op("rmul", "", {}, true); break;
        case 11: if (big || zero) return; R[d] = ty::rounded_div(a, b); op("rdiv", "", {}, true); break;
        case 12: { if (abs(a.exponent) > 3000) return; uint32_t n = below(below(2) ? 6 : 40); R[d] = ty::pow_n(a, n); op("pow", "", { (long)n }, true); break; }
            case 13: { int n = range(-3000, 3000); if (big) return; R[d] = ty::mul_pow_2(a, n); op("scale", "", { n }, true); break; }
        case 14: R[d] = -a; op("neg", "", {}, true); break;
        case 15: { unsigned n = below(B + 20), q = below(B + 20); D t = a; t.shift_right(n); string w = num(t); t.shift_left(q); w += "," + num(t); op("shift", w, { (long)n, (long)q, a.get_unbiased_exponent() }, false); break; }
        case 16: { D t = a; if (t.get_unbiased_exponent() >= (int)B - 1 || below(2)) t.exponent = -range(0, below(4) ? B + 3 : 3 * B); R[d] = t; op("gen", "", {}, true); s = d; clear(); int dir = 7; M m = R[d].as_mantissa_type(), q = R[d].as_mantissa_type_rounded(&dir); op("mant", raw(m) + "," + raw(q), { dir }, false); break; }
        case 17: to<float>(a); break; case 18: to<double>(a); break; default: to<long double>(a);
        }
    }
    void run(int len) {
        for (auto& v : R) v = D(number<double>(-20, 20)); string q; for (int i = 0; i < 4; i++) q += (i ? "," : "") + num(R[i]);
        head = "{\"k\":\"start\",\"bits\":" + std::to_string(B) + ",\"ws\":" + std::to_string(M::WORD_SIZE) + ",\"m\":" + std::to_string(curMode) + ",\"quiet\":" + QUIET + ",\"R\":[" + q + "],\"path\":\"" + path + "\"";
        mode(curMode); for (int i = 0; i < len; i++) step(); mode(0); flushSession();
    }
};
void op0(const char* o, string w, std::initializer_list<long> y, const char* t = "") {
    line("{\"k\":\"op\",\"o\":\"" + string(o) + "\",\"d\":0,\"s\":0,\"x\":0,\"t\":\"" + t + "\",\"r\":[],\"w\":[" + w + "],\"y\":" + ji(y) + ",\"fl\":0,\"en\":0");
}
template <class T> void normal() {
    T a = anynum<T>(), b = below(3) ? anynum<T>() : below(2) ? -a : std::nextafter(a, (T)0); if (a == 0) a = 1; if (b == 0) b = 1; constexpr int emax = sizeof(T) == 4 ? 127 : sizeof(T) == 8 ? 1023 : 16383, p = sizeof(T) == 4 ? 24 : sizeof(T) == 8 ? 53 : 64;
    ty::NormalizedFloat<T> n(a), q(b); int e = below(3) ? range(-emax - p - 2, -emax + 3) - std::ilogb(a) : below(2) ? range(emax - 2, emax + 2) - std::ilogb(a) : range(-50, 50);
    const char l[2] = { letter<T>, 0 }; if (below(3) == 0) op0("nfcmp", bits(a) + "," + bits(b), { n.cmp(q) }, l); else { T r = static_cast<T>(n.mul2(e)); op0("nf", bits(a) + "," + bits(r), { e }, l); }
}
template <class T> void sums() {
    T a = number<T>(-50, 50), b = number<T>(-50, 50), h, l; if (below(3) == 0) b = a * (T)(1 + range(-2, 2) * std::numeric_limits<T>::epsilon()) * (below(2) ? -1 : 1); const char c[2] = { letter<T>, 0 };
    if (below(2)) { su::two_sum<T>(h, l, a, b); } else { if (std::fabs(a) < std::fabs(b)) std::swap(a, b); su::fast_two_sum<T>(h, l, a, b); } op0("sum", bits(a) + "," + bits(b) + "," + bits(h) + "," + bits(l), {}, c);
}
void eft() {
    double a = number<double>(-100, 100), b = number<double>(-100, 100), c = number<double>(-60, -54), z = number<double>(-60, -54); using ty::DoubleDouble;
    switch (below(14)) {
    case 0: normal<float>(); break; case 1: normal<double>(); break; case 2: normal<long double>(); break;
    case 3: sums<float>(); break; case 4: sums<double>(); break; case 5: sums<long double>(); break;
    case 6: { if (std::fabs(a) < std::fabs(b)) std::swap(a, b); auto r = ty::exact_add(a, b); op0("sum", bits(a) + "," + bits(b) + "," + bits(r.hi) + "," + bits(r.lo), {}, "d"); break; }
#ifdef __FMA__ // contraction, GCC's default, takes the split apart; the products use the instruction instead
    case 7: case 12: break;
#else
    case 7: { auto r = ty::split(a); op0("split", bits(a) + "," + bits(r.hi) + "," + bits(r.lo), { 27 }, "d"); break; }
    case 12: { long double v = number<long double>(-100, 100), h, l; su::veltkamp_split(h, l, v); op0("split", bits(v) + "," + bits(h) + "," + bits(l), { 32 }, "l"); break; }
#endif
    case 8: { auto r = ty::exact_mult(a, b); op0("prod", bits(a) + "," + bits(b) + "," + bits(r.hi) + "," + bits(r.lo), {}, "d"); break; }
    case 9: { DoubleDouble y{ b, b * c }; y = ty::exact_add(y.hi, y.lo); auto r = ty::quick_mult(a, y); op0("ddmul", bits(a) + "," + bits(0.0) + "," + bits(y.hi) + "," + bits(y.lo) + "," + bits(r.hi) + "," + bits(r.lo), {}, "d"); break; }
    case 10: { DoubleDouble X = ty::exact_add(a, a * z), y = ty::exact_add(b, b * c); auto r = ty::quick_mult(X, y); op0("ddmul", bits(X.hi) + "," + bits(X.lo) + "," + bits(y.hi) + "," + bits(y.lo) + "," + bits(r.hi) + "," + bits(r.lo), {}, "d"); break; }
    case 11: { DoubleDouble X = ty::exact_add(a, a * z), y = ty::exact_add(b, b * c); if (std::fabs(X.hi) < std::fabs(y.hi)) std::swap(X, y); auto r = below(4) ? ty::add(X, y) : (y.lo = 0, ty::add(X, y.hi)); op0("ddadd", bits(X.hi) + "," + bits(X.lo) + "," + bits(y.hi) + "," + bits(y.lo) + "," + bits(r.hi) + "," + bits(r.lo), {}, "d"); break; }
    default: if (below(2)) { float u = number<float>(-30, 30), v = number<float>(-30, 30), w = below(2) ? -u * v : number<float>(-60, 60), r = su::multiply_add(u, v, w); op0("muladd", bits(u) + "," + bits(v) + "," + bits(w) + "," + bits(r), {}, "f"); }
             else { double u = a, v = b, w = below(2) ? -u * v : number<double>(-100, 100), r = su::multiply_add(u, v, w); op0("muladd", bits(u) + "," + bits(v) + "," + bits(w) + "," + bits(r), {}, "d"); }
    }
}
void effts(int len) { head = "{\"k\":\"start\",\"bits\":64,\"ws\":64,\"m\":0,\"quiet\":1,\"R\":[],\"path\":\"" + path + "\""; for (int i = 0; i < 2 * len; i++) eft(); flushSession(); }
template <size_t B> void session(int len) { Machine<B> m; m.run(len); }
typedef void (*Run)(int);
const Run runs[] = { session<64>, session<96>, session<128>, session<192>, session<256>, effts };
}
extern "C" __attribute__((visibility("default"))) int ccm_run(const char* file, const char* opts) {
    auto o = opt(opts); auto geti = [&](const char* k, int d) { return o.count(k) ? atoi(o[k].c_str()) : d; };
    if (!openOut(file)) return 2; path = o["path"]; int first = geti("first", 0); const int n = sizeof runs / sizeof *runs;
    for (int s = first; s < first + geti("sessions", 1); s++) for (int r = 0; r < n; r++) {
        uint64_t sd = geti("seed", 1) * 1000003ull + s; for (char c : path) sd = sd * 31 + c; seedr(sd * 1009 + r);
#ifdef V_CE
        curMode = 0;
#else
        curMode = s % 2 ? below(4) : 0;
#endif
        runs[r](geti("len", 60));
    }
    fclose(out); return 0;
}

// Random programs for the fixed-width integers of the library: four registers of one width, word type and signedness; every
// step is recorded with the value it wrote or returned, the floating-point flags and errno.
//   ccm_run(OUT, "seed=S first=K sessions=N len=L")
#include "pre.h"
#include "rec.h"
#include <ccmath/ccmath.hpp>
#include <ccmath/internal/types/big_int.hpp>
#ifdef V_CE      // constant evaluation cannot report
#define QUIET "1"
#else
#define QUIET "0"
#endif
namespace {
namespace su = ccm::support; using ccm::types::BigInt;
template <class T> string raw(const T& v) { return limw((const uint8_t*)v.val.data(), T::BITS / 8); }
template <class I> string rawi(I v) { return limw((const uint8_t*)&v, sizeof v); }
template <class I> string sgni(I v) { bool n = v < 0; unsigned __int128 m = n ? -(unsigned __int128)v : (unsigned __int128)v; string s = limw((const uint8_t*)&m, 16); if (n && s != "[0]") s = "[-1" + s.substr(2); return s; }
template <class T> T gen(const T* R) {     // words that carries and borrows run through, powers of two and their neighbours, small changes of other registers
    using W = typename T::word_type; T v; int k = below(10);
    auto word = [&]() -> W { switch (below(8)) { case 0: return 0; case 1: return (W)~(W)0; case 2: return 1; case 3: return (W)((W)1 << (T::WORD_SIZE - 1)); case 4: return (W)((W)~(W)0 >> 1); case 5: return (W)(~(W)0 << below(T::WORD_SIZE)); default: return (W)rnd(); } };
    auto bit = [&](int i) { v.val[i / T::WORD_SIZE] = (W)(v.val[i / T::WORD_SIZE] | (W)((W)1 << (i % T::WORD_SIZE))); };
    if (k < 4) for (auto& w : v.val) w = word();
    else if (k == 4) bit(below(T::BITS));
    else if (k == 5) { int n = below(T::BITS + 1); for (int i = 0; i < n; i++) bit(i); }
    else if (k == 6) { int n = below(T::BITS); for (int i = n; i < (int)T::BITS; i++) bit(i); }
    else if (k == 7) { v = R[below(4)]; v.val[below(T::WORD_COUNT)] ^= (W)((W)1 << below(T::WORD_SIZE)); }
    else if (k == 8) { v.val[0] = (W)rnd(); if (below(2)) v.val[0] = (W)(v.val[0] % 20); }
    else { int n = below(T::WORD_COUNT) + 1; for (int i = 0; i < n; i++) v.val[i] = word(); }
    return v;
}
int flags() { int r = 0; const int m[5] = { FE_INVALID, FE_DIVBYZERO, FE_OVERFLOW, FE_UNDERFLOW, FE_INEXACT }; for (int i = 0; i < 5; i++) if (fetestexcept(m[i])) r |= 1 << i; return r; }
template <class T, bool S = T::SIGNED> struct Machine {
    using W = typename T::word_type; T R[4]; int d, s, x; string r, w, y; int f;
    void op(const char* o, string extra = "") {
        line("{\"k\":\"op\",\"o\":\"" + string(o) + "\",\"d\":" + std::to_string(d) + ",\"s\":" + std::to_string(s) + ",\"x\":" + std::to_string(x) + extra + ",\"r\":" + (r.empty() ? "[]" : r) + ",\"w\":[" + w + "],\"y\":[" + y + "]" + ",\"fl\":" + std::to_string(flags()) + ",\"en\":" + std::to_string(errno) + "}");
        body.erase(body.size() - 2, 1);      // line() closes the object itself
    }
    void wrote(const char* o, string extra = "") { r = raw(R[d]); op(o, extra); }
    void y2(std::initializer_list<long> l) { y = ji(l); y = y.substr(1, y.size() - 2); }
    template <class O> void conv() { feclearexcept(FE_ALL_EXCEPT); errno = 0; O t(R[s]); y2({ (long)O::BITS, O::SIGNED }); w = raw(t); op("conv"); }
    template <class O> void convback() {      // from another type into the register
        O R4[4]; O t = gen<O>(R4); feclearexcept(FE_ALL_EXCEPT); errno = 0; if (below(2)) R[d] = T(t); else R[d] = static_cast<T>(t); y2({ (long)O::BITS, O::SIGNED }); w = raw(t); wrote("convto");
    }
    template <size_t B, class OW> void both() {
        if constexpr (B == T::BITS && sizeof(OW) != sizeof(W)) return;
        else { int k = below(4); if (k == 0) conv<BigInt<B, false, OW>>(); else if (k == 1) conv<BigInt<B, true, OW>>(); else if (k == 2) convback<BigInt<B, false, OW>>(); else convback<BigInt<B, true, OW>>(); }
    }
    template <class I> void ints() {
        constexpr bool sg = std::is_signed<I>::value || std::is_same<I, I128>::value; feclearexcept(FE_ALL_EXCEPT); errno = 0;
        if (below(2)) { I v = below(2) ? static_cast<I>(R[s]) : R[s].template to<I>(); y2({ (long)sizeof(I) * 8, sg }); w = rawi(v); op("toint"); }
        else { unsigned __int128 g = ((unsigned __int128)rnd() << 64 | rnd()); if (below(2)) g = (unsigned __int128)(below(2) ? -1 : 0) << below(128); if (below(4) == 0) g = g ? -(unsigned __int128)below(9) : 1; I v = (I)g;
               if (below(2)) R[d] = v; else R[d] = T(v); w = sgni(v); wrote("fromint"); }
    }
    template <size_t... C> void masks(std::index_sequence<C...>) { int k = below(sizeof...(C)), i = 0; ((i++ == k ? mask<C>() : (void)0), ...); }
    template <size_t C> void mask() { int q = below(4); R[d] = q == 0 ? su::mask_trailing_ones<T, C>() : q == 1 ? su::mask_leading_ones<T, C>() : q == 2 ? su::mask_trailing_zeros<T, C>() : su::mask_leading_zeros<T, C>(); y2({ q, (long)C }); wrote("mask"); }
    template <class U> void words(const T&) {}
    void step() {
        d = below(4); s = below(4); x = below(4); if (below(6) == 0) x = s; r = w = y = ""; f = below(3); const T a = R[s], b = R[x]; feclearexcept(FE_ALL_EXCEPT); errno = 0;
        auto E = [&](const string& n, long v) { return ",\"" + n + "\":" + std::to_string(v); };
        switch (below(S ? 26 : 37)) {
        case 0: { f = below(5); R[d] = f == 0 ? T::zero() : f == 1 ? T::one() : f == 2 ? T::all_ones() : f == 3 ? (below(2) ? T::min() : std::numeric_limits<T>::min()) : (below(2) ? T::max() : std::numeric_limits<T>::max()); y2({ f }); wrote("const"); break; }
        case 1: case 2: case 3: R[d] = gen<T>(R); wrote("gen"); break;
        case 4: if (f == 0) R[d] = a + b; else if (f == 1) { R[d] = a; R[d] += b; } else R[d] = a + T(b); wrote("add"); break;
        case 5: if (f == 0) R[d] = a - b; else R[d] = a - T(b); wrote("sub"); break;
        case 6: if (f == 0) { R[d] = a; R[d] *= b; } else R[d] = a * b; wrote("mul"); break;
        case 7: case 8: { T t = a; auto m = t.div(b); R[d] = t; y2({ (bool)m }); if (m) w = raw(*m); wrote("divr"); break; }
        case 9: { if (b.is_zero()) return; if (f == 0) { R[d] = a; R[d] /= b; } else R[d] = a / b; wrote("div"); break; }
        case 10: { if (b.is_zero()) return; R[d] = a % b; wrote("mod"); break; }
        case 11: if (f) R[d] = a & b; else { R[d] = a; R[d] &= b; } wrote("and"); break;
        case 12: if (f) R[d] = a | b; else { R[d] = a; R[d] |= b; } wrote("or"); break;
        case 13: if (f) R[d] = a ^ b; else { R[d] = a; R[d] ^= b; } wrote("xor"); break;
        case 14: if (f) R[d] = -a; else { T t = ~a; R[d] = -(T(1) + t); if (!(R[d] == a)) { R[d] = -a; } else R[d] = -a; } wrote("neg"); break;
        case 15: R[d] = ~a; wrote("not"); break;
        case 16: { T o; f = below(4); if (f == 0) o = ++R[d]; else if (f == 1) o = R[d]++; else if (f == 2) o = --R[d]; else o = R[d]--; w = raw(o); y2({ f }); wrote("step"); break; }
        case 17: { R[d] = a; R[d] -= b; wrote("subeq"); break; }
        case 18: { T t = a; W c; bool sub = below(2); c = sub ? t.sub_overflow(b) : t.add_overflow(b); R[d] = t; y2({ (long)c }); wrote(sub ? "subo" : "addo"); break; }
        case 19: { size_t n = below(T::BITS); if (below(3) == 0) n = n / T::WORD_SIZE * T::WORD_SIZE; bool l = below(2); if (f == 0) { R[d] = a; if (l) R[d] <<= n; else R[d] >>= n; } else if (f == 1 && l) R[d] = a << (int)n; else R[d] = l ? a << n : a >> n; y2({ (long)n }); wrote(l ? "shl" : "shr"); break; }
        case 20: switch (below(8)) {
            case 0: both<96, uint32_t>(); break; case 1: both<192, uint64_t>(); break; case 2: both<128, uint64_t>(); break; case 3: both<64, uint32_t>(); break;
            case 4: both<48, uint16_t>(); break; case 5: both<320, uint64_t>(); break; case 6: both<16, uint16_t>(); break; default: both<512, uint32_t>(); } break;
        case 21: switch (below(10)) { case 0: ints<int8_t>(); break; case 1: ints<uint8_t>(); break; case 2: ints<int16_t>(); break; case 3: ints<uint16_t>(); break; case 4: ints<int32_t>(); break; case 5: ints<uint32_t>(); break;
            case 6: ints<int64_t>(); break; case 7: ints<uint64_t>(); break; case 8: ints<I128>(); break; default: ints<unsigned __int128>(); } break;
        case 22: if (f) { y2({ a == b, a != b, a < b, a <= b, a > b, a >= b }); op("cmp"); } else { int i = range(-3, 3); y2({ a == i, !(a == i), a < i, a <= i, a > i, a >= i }); w = sgni(i); op("cmpi"); } break;
        case 23: { size_t i = below(T::BITS); if (f) { y2({ (long)i, a.get_bit(i) }); op("getbit"); } else { R[d].set_bit(i); y2({ (long)i }); wrote("setbit"); } break; }
        case 24: y2({ a.is_zero(), (bool)a, a.is_neg() }); op("what"); break;
        case 25: { auto p = below(2) ? a.ful_mul(b) : b.ful_mul(a); w = raw(p); op("fulmul"); break; }
        default: if constexpr (!S) more(a, b); }
        (void)E;
    }
    void more(const T& a, const T& b) {
        switch (below(8)) {
        case 0: { T t = a; W m = below(3) ? (W)rnd() : (W)~(W)0; W c = t.mul(m); R[d] = t; w = rawi(m) + "," + rawi(c); wrote("mulw"); break; }
        case 1: { T t = a; auto m = (typename ccm::types::multiword::half_width<W>::type)(below(3) ? rnd() : below(2) ? -1 : 1 << below(sizeof(W) * 4)); if (m == 0 && below(4)) m = 3; size_t e = below(T::BITS + 8); auto q = t.div_uint_half_times_pow_2(m, e); R[d] = t; y2({ (long)e, (bool)q }); w = rawi(m); if (q) w += "," + raw(*q); wrote("divhalf"); break; }
        case 2: { T q = a.quick_mul_hi(b); w = raw(q); op("mulhi"); break; }
        case 3: { int hi = below(4) ? 0 : below(1 << 20), lo = below(4) ? below(12) : below(1 << 30); T t = a; t.pow_n(((uint64_t)hi << 30) + lo); R[d] = t; y2({ hi, lo }); wrote("pow"); break; }
        case 4: case 5: { int n = below(3) ? range(-(int)T::BITS, T::BITS) : range(-100000, 100000); if (below(6) == 0) n = (n / (int)T::WORD_SIZE) * (int)T::WORD_SIZE; bool l = below(2); R[d] = l ? su::rotl(a, n) : su::rotr(a, n); y2({ n }); wrote(l ? "rotl" : "rotr"); break; }
        case 6: { y2({ su::popcount(a), su::countl_zero(a), su::countr_zero(a), su::countl_one(a), su::countr_one(a), su::bit_width(a), su::has_single_bit(a), su::first_leading_zero(a), su::first_leading_one(a), su::first_trailing_zero(a), su::first_trailing_one(a), su::count_zeros(a) }); op("count"); break; }
        default: masks(std::index_sequence<0, 1, T::WORD_SIZE - 1, T::WORD_SIZE, T::BITS / 2, T::BITS / 2 + 3, T::BITS - T::WORD_SIZE, T::BITS - 1, T::BITS>());
        }
    }
    void dump() { string q; for (int i = 0; i < 4; i++) q += (i ? "," : "") + raw(R[i]); line("{\"k\":\"dump\",\"R\":[" + q + "]"); }
    void run(int len) {
        for (auto& v : R) v = gen<T>(R); string q; for (int i = 0; i < 4; i++) q += (i ? "," : "") + raw(R[i]);
        head = "{\"k\":\"start\",\"bits\":" + std::to_string(T::BITS) + ",\"sg\":" + std::to_string(S) + ",\"ws\":" + std::to_string(T::WORD_SIZE) + ",\"R\":[" + q + "],\"quiet\":" + QUIET + ",\"path\":\"" + path + "\"";
        for (int i = 1; i <= len; i++) { step(); if (i % 20 == 0 || i == len) dump(); }
        flushSession();
    }
};
template <size_t B, class W> void session(int len) { { Machine<BigInt<B, false, W>> m; m.run(len); } { Machine<BigInt<B, true, W>> m; m.run(len); } }
// the bit functions for the integers of the language
template <class U> auto single(U a) -> decltype((long)su::has_single_bit(a)) { return su::has_single_bit(a); }
long single(...) { return -1; }     // not declared for char
template <class U> void small(int len) {
    using I = std::make_signed_t<U>; constexpr int B = sizeof(U) * 8;
    head = "{\"k\":\"start\",\"bits\":" + std::to_string(B) + ",\"sg\":0,\"ws\":" + std::to_string(B) + ",\"R\":[[0],[0],[0],[0]],\"quiet\":" + QUIET + ",\"path\":\"" + path + "\"";
    auto g = [&]() -> U { switch (below(6)) { case 0: return 0; case 1: return (U)~(U)0; case 2: return (U)((U)1 << below(B)); case 3: return (U)(((U)1 << below(B)) - 1); case 4: return (U)(~(U)0 << below(B)); default: return (U)rnd(); } };
    for (int i = 0; i < len; i++) {
        U a = g(), b = g(), c = 0; feclearexcept(FE_ALL_EXCEPT); errno = 0; string o, w, y;
        auto put = [&](std::initializer_list<long> l) { string t = ji(l); y = t.substr(1, t.size() - 2); };
        switch (below(6)) {
        case 0: o = "count1"; w = rawi(a); put({ su::popcount(a), su::countl_zero(a), su::countr_zero(a), su::countl_one(a), su::countr_one(a), su::bit_width(a), single(a) }); break;
        case 1: { int n = range(-300, 300); bool l = below(2); U q = l ? su::rotl(a, n) : su::rotr(a, n); o = l ? "rotl1" : "rotr1"; w = rawi(a) + "," + rawi(q); put({ n }); break; }
        case 2: { U cin = below(2), q = su::add_with_carry<U>(a, b, cin, c); o = "adc"; w = rawi(a) + "," + rawi(b) + "," + rawi(q); put({ (long)cin, (long)c }); break; }
        case 3: { U cin = below(2), q = su::sub_with_borrow<U>(a, b, cin, c); o = "sbb"; w = rawi(a) + "," + rawi(b) + "," + rawi(q); put({ (long)cin, (long)c }); break; }
        case 4: { U q = 0; bool sub = below(2), v = sub ? su::sub_overflow(a, b, q) : su::add_overflow(a, b, q); o = sub ? "subv" : "addv"; w = sgni(a) + "," + sgni(b) + "," + sgni(q); put({ 0, v }); break; }
        default: { I q = 0; bool sub = below(2), v = sub ? su::sub_overflow<I>((I)a, (I)b, q) : su::add_overflow<I>((I)a, (I)b, q); o = sub ? "subv" : "addv"; w = sgni((I)a) + "," + sgni((I)b) + "," + sgni(q); put({ 1, v }); }
        }
        line("{\"k\":\"op\",\"o\":\"" + o + "\",\"d\":0,\"s\":0,\"x\":0,\"r\":[],\"w\":[" + w + "],\"y\":[" + y + "],\"fl\":" + std::to_string(flags()) + ",\"en\":" + std::to_string(errno));
    }
    flushSession();
}
typedef void (*Run)(int);
const Run runs[] = { session<64, uint32_t>, session<64, uint16_t>, session<64, uint64_t>, session<96, uint32_t>, session<128, uint64_t>, session<128, uint32_t>, session<192, uint64_t>, session<256, uint64_t>, session<256, uint32_t>,
    session<512, uint64_t>, session<48, uint16_t>, session<16, uint16_t>, session<32, uint32_t>, session<32, uint16_t>, small<uint8_t>, small<uint16_t>, small<uint32_t>, small<uint64_t> };
}
extern "C" __attribute__((visibility("default"))) int ccm_run(const char* file, const char* opts) {
    auto o = opt(opts); auto geti = [&](const char* k, int d) { return o.count(k) ? atoi(o[k].c_str()) : d; };
    if (!openOut(file)) return 2; path = o["path"]; int first = geti("first", 0); const int n = sizeof runs / sizeof *runs;
    for (int s = first; s < first + geti("sessions", 1); s++) for (int r = 0; r < n; r++) {
        uint64_t sd = geti("seed", 1) * 1000003ull + s; for (char c : path) sd = sd * 31 + c; seedr(sd * 1009 + r); runs[r](geti("len", 60));
    }
    fclose(out); return 0;
}

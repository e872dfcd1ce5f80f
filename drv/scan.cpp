// Calls the functions of one library variant on many inputs, scores each result against the C library
// (a screen only: it chooses what to record), and writes recorded calls for TLC to judge.
//
//   scan LIB OUT key=value...
//     path=NAME fn=a,b types=fdl modes=0123 n=RANDOM-INPUTS keep=WORST rnd=RANDOM-SAMPLE st=STRUCTURED seed=S
//     chunk=C flags=0|1 jobs=J tmo=SECONDS exh=1 (all floats)   in=FILE (replay inputs of an event file)
#include <cerrno>
#include <cfenv>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <immintrin.h>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <vector>
#include "abi.h"
using std::string; using std::vector;
typedef long double LD;

static uint64_t rs[4];
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
static uint64_t rnd() { uint64_t r = rotl(rs[1] * 5, 7) * 9, t = rs[1] << 17; rs[2] ^= rs[0]; rs[3] ^= rs[1]; rs[1] ^= rs[2]; rs[0] ^= rs[3]; rs[2] ^= t; rs[3] = rotl(rs[3], 45); return r; }
static void seedr(uint64_t s) { for (int i = 0; i < 4; i++) { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; rs[i] = z ^ (z >> 31); } for (int i = 0; i < 8; i++) rnd(); }
static inline unsigned below(unsigned n) { return (unsigned)((rnd() >> 33) % n); }
static inline int range(int a, int b) { return a + (int)below((unsigned)(b - a + 1)); }
static inline double uni() { return (double)(rnd() >> 11) * 0x1p-53; }

/*------------------------------- environment -------------------------------*/
static const int FE[4] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO };
static int modeIx(int r) { for (int i = 0; i < 4; i++) if (FE[i] == r) return i; return 9; }
static inline void prep(int m) {
    static const unsigned mx[4] = { 0x1f80, 0x1f80 | 0x4000, 0x1f80 | 0x2000, 0x1f80 | 0x6000 };
    static const unsigned short cw[4] = { 0x037f, 0x037f | 0x0800, 0x037f | 0x0400, 0x037f | 0x0c00 };
    _mm_setcsr(mx[m]); unsigned short c = cw[m]; __asm__ volatile("fnclex\n\tfldcw %0" ::"m"(c) : "memory"); errno = 0;
}
static inline int flagsNow() {      // 1 invalid 2 divzero 4 overflow 8 underflow 16 inexact
    unsigned short sw; __asm__ volatile("fnstsw %0" : "=m"(sw)); unsigned b = (_mm_getcsr() | sw) & 0x3d;
    return (b & 1) | ((b >> 2 & 1) << 1) | ((b >> 3 & 1) << 2) | ((b >> 4 & 1) << 3) | ((b >> 5 & 1) << 4);
}
static int errIx(int e) { return e == 0 ? 0 : e == EDOM ? 1 : e == ERANGE ? 2 : 9; }

/*--------------------------------- formats ---------------------------------*/
struct Fmt { int p, w, n, bias, sb; };
static const Fmt FF = { 24, 8, 32, 127, 23 }, FD = { 53, 11, 64, 1023, 52 }, FL = { 64, 15, 80, 16383, 64 };
static const Fmt& fmt(char t) { return t == 'f' ? FF : t == 'd' ? FD : FL; }
static Word mk(char t, int s, unsigned E, uint64_t T) {     // T: fraction without the leading bit (left-justified not)
    Word w; memset(&w, 0, sizeof w);
    if (t == 'f') w.u[0] = ((uint64_t)s << 31) | ((uint64_t)E << 23) | (T & 0x7fffff);
    else if (t == 'd') w.u[0] = ((uint64_t)s << 63) | ((uint64_t)E << 52) | (T & 0xfffffffffffffull);
    else { uint64_t m = T & 0x7fffffffffffffffull; if (E) m |= 1ull << 63; w.u[0] = m; w.u[1] = ((uint64_t)s << 15) | E; }
    return w;
}
static void parts(char t, const Word& w, int& s, unsigned& E, uint64_t& T) {
    if (t == 'f') { uint32_t b = (uint32_t)w.u[0]; s = b >> 31; E = b >> 23 & 255; T = b & 0x7fffff; }
    else if (t == 'd') { uint64_t b = w.u[0]; s = b >> 63; E = b >> 52 & 2047; T = b & 0xfffffffffffffull; }
    else { s = w.u[1] >> 15 & 1; E = w.u[1] & 0x7fff; T = w.u[0] & 0x7fffffffffffffffull; }
}
static LD val(char t, const Word& w) { return t == 'f' ? (LD)w.f : t == 'd' ? (LD)w.d : w.l; }
static Word of(char t, LD v) { Word w; memset(&w, 0, sizeof w); if (t == 'f') w.f = (float)v; else if (t == 'd') w.d = (double)v; else { LD x = v; memcpy(w.raw, &x, 10); } return w; }
static bool isNaNw(char t, const Word& w) { int s; unsigned E; uint64_t T; parts(t, w, s, E, T); return E == (1u << fmt(t).w) - 1 && T != 0; }
static bool same(char t, const Word& a, const Word& b) { if (isNaNw(t, a) && isNaNw(t, b)) return true; return memcmp(a.raw, b.raw, t == 'f' ? 4 : t == 'd' ? 8 : 10) == 0; }
static Word bump(char t, Word w, int k) {       // k encodings further from zero
    int s; unsigned E; uint64_t T; parts(t, w, s, E, T); int fb = fmt(t).p - 1; unsigned emax = (1u << fmt(t).w) - 1;
    __int128 c = ((__int128)E << fb) + (__int128)T + k; if (c < 0) { c = -c; s ^= 1; } __int128 top = ((__int128)emax << fb); if (c > top) c = top;
    return mk(t, s, (unsigned)(c >> fb), (uint64_t)(c & (((__int128)1 << fb) - 1)));
}

/*------------------------------ input generation ---------------------------*/
static uint64_t fracBits(char t) {
    int fb = fmt(t).p - 1; uint64_t mask = fb == 63 ? 0x7fffffffffffffffull : (1ull << fb) - 1, T = rnd() & mask;
    switch (below(8)) {
    case 0: T &= rnd() & rnd(); break;                                     // sparse
    case 1: T |= rnd() | rnd(); T &= mask; break;                          // dense
    case 2: T = (T >> below(fb)) << 0; break;                              // low
    case 3: { int k = below(fb); T = T >> k << k; break; }                 // high
    case 4: { uint64_t v[] = { 0, 1, 2, 3, mask, mask - 1, mask - 2, 1ull << (fb - 1), (1ull << (fb - 1)) - 1, (1ull << (fb - 1)) + 1 }; T = v[below(10)]; break; }
    default: break;
    }
    return T & mask;
}
static Word bitsRand(char t) { const Fmt& F = fmt(t); unsigned E = below((1u << F.w) - 1); return mk(t, rnd() & 1, E, fracBits(t)); }
static Word expRand(char t, int lo, int hi) { const Fmt& F = fmt(t); int e = range(lo, hi) + F.bias; if (e < 0) e = 0; if (e > (1 << F.w) - 2) e = (1 << F.w) - 2; return mk(t, rnd() & 1, (unsigned)e, fracBits(t)); }
static vector<Word> specials(char t, int lvl) {
    const Fmt& F = fmt(t); unsigned em = (1u << F.w) - 1; uint64_t full = F.p - 1 == 63 ? 0x7fffffffffffffffull : (1ull << (F.p - 1)) - 1;
    vector<Word> v;
    auto pm = [&](Word w) { v.push_back(w); int s; unsigned E; uint64_t T; parts(t, w, s, E, T); v.push_back(mk(t, 1 - s, E, T)); };
    auto pv = [&](LD x) { pm(of(t, x)); };
    pm(mk(t, 0, 0, 0)); pm(mk(t, 0, em, 0)); pm(mk(t, 0, em, 1ull << (F.p - 2)));                 // 0, inf, qNaN
    pv(1); pm(mk(t, 0, 0, 1)); pm(mk(t, 0, em - 1, full)); pm(mk(t, 0, 1, 0)); pv(0.5L); pv(2); pv(3);
    if (lvl >= 1) {
        pm(mk(t, 0, 0, full)); pm(bump(t, of(t, 1), 1)); pm(bump(t, of(t, 1), -1)); pv(1.5L); pv(2.5L); pm(bump(t, of(t, 0.5L), -1)); pv(ldexpl(1, F.p - 1)); pv(M_PIl); pv(ldexpl(1, F.p) - 1); pv(4); pv(5); pv(7);
        pm(bump(t, of(t, 0.5L), 1)); pv(10); pv(0.1L); pv(100); pv(0.25L); pv(0.75L);
    }
    if (lvl >= 2) {
        pv(3.5L); pv(4.5L); pv(6.5L); pv(1e5L); pv(1e10L); pv(ldexpl(1, F.p - 2) + 0.5L); pv(ldexpl(1, F.p - 1) - 0.5L); pv(ldexpl(1, F.p - 1) + 1); pv(ldexpl(1, F.p) + 2); pv(ldexpl(1, 31)); pv(ldexpl(1, 31) - 1); pv(ldexpl(1, 32)); pv(ldexpl(1, 63)); pv(ldexpl(1, 64)); pv(ldexpl(1, 52) + 1);
        for (int k : { 6, 8, 10, 100, 1000, 27, 54, 12, 15, 16, 33, 47 }) { pv(k); pv(k + 0.5L); pv(ldexpl(1, k)); pv(ldexpl(1, -k)); pm(bump(t, of(t, ldexpl(1, -k)), 1)); pm(bump(t, of(t, ldexpl(1, -k)), -1)); }
        pm(mk(t, 0, em, (1ull << (F.p - 2)) | 5)); pm(mk(t, 0, em, full)); pm(mk(t, 0, 0, 2)); pm(mk(t, 0, 0, 3)); pm(mk(t, 0, 0, 1ull << (F.p - 2))); pm(mk(t, 0, 1, 1)); pm(mk(t, 0, 2, 0)); pm(mk(t, 0, 1, full)); pm(mk(t, 0, em - 1, 0)); pm(mk(t, 0, em - 2, full)); pm(mk(t, 0, F.p, 0)); pm(mk(t, 0, F.p - 1, full));
        for (LD x : { M_PI_2l, M_PI_4l, 2 * M_PIl, M_El, M_LN2l, M_LN10l, M_SQRT2l, M_SQRT1_2l, 88.722839L, 709.782712893384L, -708.396418532264L, 745.133219101941L, 87.3365447505531L, 103.972084L, 127.999L, 1023.999L, 1024.0L, 149.0L, 149.5L, 150.0L, 1074.0L, 1074.5L, 1075.0L, 35.04010009765625L, 34.99L, 171.624376956302L, 171.7L, 170.5L, 184.5L, 1.46163214496836L, 2.45702474823820L, 0.4142135623730950L, 0.2928932188134524L, 0.6L, 0.975L, 0.4375L, 0.6875L, 1.1875L, 2.4375L })
            { pv(x); pm(bump(t, of(t, x), 1)); pm(bump(t, of(t, x), -1)); }
    }
    return v;
}
static vector<Word> sp0[3], sp1[3], sp2[3];
static int ti(char t) { return t == 'f' ? 0 : t == 'd' ? 1 : 2; }

static LD piMult(LD k) { return k * M_PI_2l; }
static Word gen1(const string& f, char t) {     // one argument, aimed at the function
    const Fmt& F = fmt(t);
    unsigned c = below(100);
    if (c < 15) return bitsRand(t);
    if (c < 30) return expRand(t, -30, 30);
    if (c < 34) return mk(t, rnd() & 1, 0, fracBits(t));
    if (c < 37) { auto& v = sp2[ti(t)]; return bump(t, v[below(v.size())], range(-3, 3)); }
    if (c < 40) return bump(t, of(t, ldexpl((rnd() & 1) ? 1 : -1, range(-60, 60))), range(-4, 4));
    LD x;
    auto is = [&](const char* s) { return f == s; };
    if (is("exp") || is("expm1")) { LD L = t == 'f' ? 104 : t == 'd' ? 746 : 11360; x = (c < 70) ? (uni() * 2 - 1) * L : (c < 85) ? (uni() * 2 - 1) * 2 : ldexpl((uni() * 2 - 1), -range(0, F.p + 2)); if (c > 96) x = ((rnd() & 1) ? 1 : -1) * (range(0, (int)(L * 4)) / 4.0L) * M_LN2l; }
    else if (is("exp2")) { LD L = t == 'f' ? 151 : t == 'd' ? 1076 : 16450; x = (c < 75) ? (uni() * 2 - 1) * L : (c < 85) ? (LD)range(-1100, 1100) / 2 : ldexpl((uni() * 2 - 1), -range(0, F.p + 2)); }
    else if (is("log") || is("log2") || is("log10")) { if (c < 60) x = 1 + ldexpl(uni() * 2 - 1, -range(1, F.p)); else if (c < 80) x = 0.5L + uni() * 1.5L; else if (c < 84) x = powl(10, range(-30, 30)); else return mk(t, 0, below((1u << F.w) - 1), fracBits(t)); }
    else if (is("log1p")) { if (c < 60) x = ldexpl(uni() * 2 - 1, -range(0, F.p + 2)); else if (c < 80) x = (uni() * 2 - 1); else if (c < 90) x = -1 + ldexpl(uni(), -range(0, F.p)); else return mk(t, 0, below((1u << F.w) - 1), fracBits(t)); }
    else if (is("sin") || is("cos") || is("tan")) {
        if (c < 55) { x = piMult((LD)range(-100000, 100000)); return bump(t, of(t, x), range(-2, 2)); }
        if (c < 65) x = (uni() * 2 - 1) * 4; else if (c < 75) x = (uni() * 2 - 1) * 1000; else if (c < 85) return expRand(t, 0, F.bias); else return expRand(t, 8, 64); }
    else if (is("asin") || is("acos")) { if (c < 65) x = uni() * 2 - 1; else if (c < 85) x = ((rnd() & 1) ? 1 : -1) * (1 - ldexpl(uni(), -range(0, F.p))); else x = ldexpl(uni() * 2 - 1, -range(0, F.p)); }
    else if (is("atan")) { if (c < 75) x = (uni() * 2 - 1) * 4; else x = ldexpl(uni() * 2 - 1, range(-F.p, F.p + 4)); }
    else if (is("tgamma") || is("lgamma")) { LD L = t == 'f' ? 42 : t == 'd' ? 186 : 1760; if (c < 60) x = (uni() * 2 - 1) * L; else if (c < 70) x = (uni() * 2 - 1) * 5; else if (c < 80) { x = (LD)range((int)-L, (int)L) ; Word w = of(t, x); return bump(t, w, range(-20, 20)); } else if (c < 85) x = 1 + (rnd() & 1) + ldexpl(uni() * 2 - 1, -range(0, F.p)); else if (c < 92) x = (LD)range(-400, 400) / 2; else return mk(t, 0, below((1u << F.w) - 1), fracBits(t)); }
    else if (is("ceil") || is("floor") || is("trunc") || is("round") || is("rint") || is("nearbyint") || is("modf")) {
        if (c < 60) x = (LD)range(-2000, 2000) / (1 << below(4)); else if (c < 75) { x = (LD)range(-200, 200) / 2; return bump(t, of(t, x), range(-2, 2)); } else if (c < 90) return expRand(t, -2, F.p + 2); else { int k = F.p - range(0, 3); x = ldexpl((LD)(rnd() >> 1), -63 + k); if (rnd() & 1) x = -x; } }
    else if (is("sqrt")) { if (c < 60) { LD r = (LD)(rnd() >> (64 - F.p / 2 + below(3))); x = r * r; Word w = of(t, ldexpl(x, range(-60, 60))); return bump(t, w, range(-2, 2)); } return mk(t, 0, below((1u << F.w) - 1), fracBits(t)); }
    else if (is("cbrt")) { if (c < 60) { LD r = (LD)range(1, 1 << 17); x = r * r * r; return bump(t, of(t, ldexpl((rnd() & 1) ? x : -x, range(-60, 60))), range(-2, 2)); } return bitsRand(t); }
    else return (c & 1) ? bitsRand(t) : expRand(t, -F.p - 4, F.p + 4);
    return of(t, x);
}
static int expoOf(char t, const Word& w) { int s; unsigned E; uint64_t T; parts(t, w, s, E, T); if (E) return (int)E - fmt(t).bias; int k = 0; while (T) { k++; T >>= 1; } return 1 - fmt(t).bias - (fmt(t).p - 1) + k - 1; }
static void genArgs(const Entry& e, Word* a, int& n) {
    const string f = e.name; char t = e.t; const Fmt& F = fmt(t); n = 0;
    if (e.na == 1) {
        a[0] = gen1(f, t);
        if (e.hasn) {
            int ex = expoOf(t, a[0]);
            switch (below(10)) {
            case 0: { int v[] = { INT32_MAX, INT32_MIN, 0, 1, -1, INT32_MAX - 1, INT32_MIN + 1, 65536, -65536, 32767, -32768, 2097, 2098, 2099, -2098, -2099, -2100, 278, -278, 33000, -33000 }; n = v[below(21)]; break; }
            case 1: n = range(-60, 60); break;
            case 2: n = range(-2200, 2200); break;
            case 3: n = (int)rnd() >> below(31); break;
            case 4: case 5: n = F.bias + range(-2, 2) - ex; break;
            case 6: case 7: n = -F.bias + range(-2, 3) - ex; break;
            default: n = -F.bias - range(0, F.p + 2) - ex; break;
            }
        }
        return;
    }
    if (e.na == 2) {
        if (f == "nexttoward" ) {
            a[0] = gen1(f, t); LD x = val(t, a[0]); Word y; memset(&y, 0, sizeof y);
            switch (below(6)) { case 0: { Word u = bitsRand('l'); y = u; break; } case 1: { Word u = of('l', x); y = bump('l', u, range(-2, 2)); break; } case 2: y = of('l', x); break; case 3: y = sp1[2][below(sp1[2].size())]; break; case 4: y = of('l', -x); break; default: y = of('l', val(t, bump(t, a[0], range(-2, 2)))); }
            if (below(10) == 0) a[0] = sp1[ti(t)][below(sp1[ti(t)].size())];
            a[1] = y; return;
        }
        if (f == "pow") {
            unsigned c = below(100); LD L = F.bias + F.p + 3;
            if (c < 50) { a[0] = (c < 25) ? expRand(t, -10, 10) : (c < 40) ? of(t, 1 + ldexpl(uni() * 2 - 1, -range(1, F.p))) : bitsRand(t); LD x = fabsl(val(t, a[0])); if (rnd() & 3) a[0] = of(t, x); LD lg = log2l(x); if (lg != 0 && std::isfinite(lg)) { LD y = (uni() * 2 - 1) * L / lg; if (below(4) == 0) y = (LD)range(-40, 40) / 2; a[1] = of(t, (below(4) == 0) ? rintl(y) : y); } else a[1] = expRand(t, -5, 5); return; }
            if (c < 65) { a[0] = of(t, (LD)range(-200, 200) / (1 << below(4))); a[1] = of(t, (LD)range(-60, 60) / (1 << below(3))); return; }
            if (c < 75) { a[0] = of(t, -(LD)range(1, 200)); int k = F.p - 2 + below(4); LD y = ldexpl(1, k) + range(-3, 3); a[0] = of(t, -(1 + ldexpl(uni(), -k + range(0, 8)))); a[1] = of(t, (rnd() & 1) ? y : -y); return; }
            if (c < 85) { a[0] = sp1[ti(t)][below(sp1[ti(t)].size())]; a[1] = (rnd() & 1) ? of(t, (LD)range(-9, 9) / 2) : bitsRand(t); return; }
        }
        unsigned c = below(100);
        if (c < 12) { a[0] = bitsRand(t); a[1] = bitsRand(t); return; }
        if (c < 30) { a[0] = expRand(t, -30, 30); a[1] = expRand(t, -30, 30); return; }
        if (c < 40) { a[0] = bitsRand(t); a[1] = bump(t, a[0], range(-3, 3)); if (rnd() & 1) std::swap(a[0], a[1]); return; }
        if (c < 60) { a[0] = bitsRand(t); int ex = expoOf(t, a[0]); a[1] = expRand(t, ex - range(0, F.p + 8), ex + range(0, F.p + 8)); return; }
        if (c < 75) { LD y = (LD)(rnd() >> below(63)) , q = (LD)(int64_t)(rnd() >> below(63)) / 2; int k = range(-50, 50); a[1] = of(t, ldexpl(y + 1, k)); a[0] = bump(t, of(t, ldexpl(q * val(t, a[1]), 0)), range(-1, 1)); if (rnd() & 1) a[0] = of(t, -val(t, a[0])); return; }
        if (c < 80) { auto& v = sp1[ti(t)]; a[0] = v[below(v.size())]; a[1] = bitsRand(t); if (rnd() & 1) std::swap(a[0], a[1]); return; }
        if (c < 85) {
            if (c < 83) { a[1] = mk(t, rnd() & 1, below(4) ? below(4) : (1u << F.w) - 2 - below(4), fracBits(t)); a[0] = bump(t, of(t, val(t, a[1]) * range(-9, 9) / 2), range(-2, 2)); if (isNaNw(t, a[0])) a[0] = bitsRand(t); return; }      // multiples of half a least or largest divisor
            a[0] = mk(t, rnd() & 1, below(3), fracBits(t)); a[1] = mk(t, rnd() & 1, below(F.p + 3), fracBits(t)); return; }
        if (c < 90) { unsigned em = (1u << F.w) - 2; a[0] = mk(t, rnd() & 1, em - below(3), fracBits(t)); a[1] = mk(t, rnd() & 1, em - below(F.p + 3), fracBits(t)); return; }
        a[0] = gen1(f, t); a[1] = gen1(f, t); return;
    }
    // three arguments
    unsigned c = below(100);
    if (f == "lerp") {
        a[0] = (c & 1) ? expRand(t, -20, 20) : bitsRand(t);
        a[1] = (c % 3) ? expRand(t, -20, 20) : (c % 5) ? bump(t, a[0], range(-5, 5)) : bitsRand(t);
        a[2] = (c % 4 == 0) ? of(t, uni()) : (c % 4 == 1) ? bump(t, of(t, (LD)below(3) / 2), range(-2, 2)) : (c % 4 == 2) ? of(t, (uni() - 0.3L) * 4) : expRand(t, -30, 2);
        return;
    }
    if (c < 8) { for (int i = 0; i < 3; i++) a[i] = bitsRand(t); return; }
    int lim = F.bias / 2 - F.p;
    int span = (c < 60) ? 40 : lim;
    a[0] = expRand(t, -span, span); a[1] = expRand(t, -span, span);
    if (c >= 85) {    // products near the subnormal range or the overflow threshold
        int e0 = range(-F.bias, F.bias); int tgt = (c < 93) ? -F.bias - range(-3, F.p + 3) : F.bias - range(-2, 2);
        int e1 = tgt - e0; a[0] = expRand(t, e0, e0); a[1] = expRand(t, e1, e1);
    }
    int pe = expoOf(t, a[0]) + expoOf(t, a[1]);
    switch (below(10)) {
    case 0: a[2] = expRand(t, pe - 2, pe + 2); break;
    case 1: a[2] = expRand(t, pe + F.p - 3, pe + F.p + 3); break;
    case 2: a[2] = expRand(t, pe - F.p - 3, pe - F.p + 3); break;
    case 3: a[2] = expRand(t, pe - 2 * F.p - 3, pe - 2 * F.p + 3); break;
    case 4: a[2] = expRand(t, pe + 2 * F.p - 3, pe + 2 * F.p + 3); break;
    case 5: case 6: { LD x = val(t, a[0]), y = val(t, a[1]); a[2] = bump(t, of(t, -(x * y)), range(-1, 1)); break; }
    case 7: a[2] = mk(t, rnd() & 1, below(3), fracBits(t)); break;
    case 8: { // product exactly a midpoint, or next to it: few-bit factors
        LD x = (LD)((rnd() >> (64 - F.p / 2 - 1)) | 1), y = (LD)((rnd() >> (64 - F.p / 2 - 1)) | 1); int k = range(-20, 20); a[0] = of(t, ldexpl(x, k)); a[1] = of(t, y); int qe = expoOf(t, a[0]) + expoOf(t, a[1]);
        a[2] = (rnd() & 1) ? expRand(t, qe + range(0, F.p), qe + F.p) : mk(t, rnd() & 1, (unsigned)std::max(0, F.bias + qe - range(F.p, 3 * F.p)), (rnd() & 1) ? 0 : fracBits(t)); break; }
    default: a[2] = expRand(t, -F.bias, F.bias); break;
    }
    if (below(40) == 0) a[below(3)] = sp1[ti(t)][below(sp1[ti(t)].size())];
    if (f == "hypot3" && (rnd() & 1)) { a[1] = expRand(t, expoOf(t, a[0]) - 4, expoOf(t, a[0]) + 4); a[2] = expRand(t, expoOf(t, a[0]) - 4, expoOf(t, a[0]) + 4); }
}

/*---------------------------------- screen ---------------------------------*/
typedef LD (*R1)(LD); typedef LD (*R2)(LD, LD);
static LD h3(LD x, LD y, LD z) { if (std::isinf(x) || std::isinf(y) || std::isinf(z)) return INFINITY; return hypotl(hypotl(x, y), z); }
static bool approxRef(const string& f, const LD* x, LD& r) {
    static const std::map<string, R1> m1 = { { "exp", expl }, { "exp2", exp2l }, { "expm1", expm1l }, { "log", logl }, { "log2", log2l }, { "log10", log10l }, { "log1p", log1pl }, { "sin", sinl }, { "cos", cosl }, { "tan", tanl }, { "asin", asinl }, { "acos", acosl }, { "atan", atanl }, { "cbrt", cbrtl }, { "tgamma", tgammal }, { "lgamma", lgammal } };
    static const std::map<string, R2> m2 = { { "pow", powl }, { "atan2", atan2l }, { "hypot", hypotl } };
    auto i = m1.find(f); if (i != m1.end()) { r = i->second(x[0]); return true; }
    auto j = m2.find(f); if (j != m2.end()) { r = j->second(x[0], x[1]); return true; }
    if (f == "hypot3") { r = h3(x[0], x[1], x[2]); return true; }
    return false;
}
static double ulpScore(const string& f, char t, const Word& y, LD ref) {
    LD v = val(t, y); const Fmt& F = fmt(t);
    if (std::isnan(ref) || std::isnan(v)) return std::isnan(ref) == std::isnan(v) ? 0 : 1e30;
    LD maxf = ldexpl(2 - ldexpl(1, 1 - F.p), F.bias);
    if (t != 'l') { if (std::isinf(v)) v = ldexpl(v > 0 ? 1 : -1, F.bias + 1); if (fabsl(ref) > maxf) ref = copysignl(fabsl(v) >= maxf ? fabsl(v) : ldexpl(1, F.bias + 1), ref); }
    else if (std::isinf(v) || std::isinf(ref)) return v == ref ? 0 : (fabsl(v) >= maxf && fabsl(ref) >= maxf && (v > 0) == (ref > 0)) ? 0.5 : 1e30;
    if (ref == 0 && v == 0) return std::signbit(ref) == std::signbit(v) ? 0 : (t == 'l' ? 0 : 1e29);
    int ex = ref == 0 ? -F.bias : ilogbl(ref); if (ex < 1 - F.bias) ex = 1 - F.bias; if (ex > F.bias) ex = F.bias;
    double s = (double)ldexpl(fabsl(v - ref), F.p - 1 - ex);
    if (f == "lgamma") { double s0 = (double)ldexpl(fabsl(v - ref), F.p - 1); s = std::min(s, s0); }
    if ((v > 0) != (ref > 0) && v != 0 && ref != 0) s += 0.25;
    return s;
}
template <class T> static bool exactRef(const string& f, const T* x, LD x2, int n, T* r, int* q, int& nr) {
    nr = 1; *q = 0;
    if (f == "ceil") *r = std::ceil(x[0]); else if (f == "floor") *r = std::floor(x[0]); else if (f == "trunc") *r = std::trunc(x[0]); else if (f == "round") *r = std::round(x[0]); else if (f == "rint") *r = std::rint(x[0]); else if (f == "nearbyint") *r = std::nearbyint(x[0]);
    else if (f == "fmod") *r = (T)fmodl(x[0], x[1]); else if (f == "remainder") *r = (T)remainderl(x[0], x[1]); else if (f == "remquo") { *r = (T)remquol(x[0], x[1], q); }   // exact in the wider format (glibc's double remainder gets ties wrong)
    else if (f == "fdim") *r = std::fdim(x[0], x[1]); else if (f == "sqrt") *r = std::sqrt(x[0]); else if (f == "fma") *r = std::fma(x[0], x[1], x[2]);
    else if (f == "ldexp" || f == "scalbn") *r = std::scalbn(x[0], n); else if (f == "scalbln") *r = std::scalbln(x[0], (long)n); else if (f == "logb") *r = std::logb(x[0]); else if (f == "ilogb") { nr = 0; *q = std::ilogb(x[0]); }
    else if (f == "frexp") *r = std::frexp(x[0], q); else if (f == "modf") { nr = 2; r[0] = std::modf(x[0], &r[1]); }
    else if (f == "nextafter") *r = std::nextafter(x[0], x[1]); else if (f == "nexttoward") *r = std::nexttoward(x[0], x2); else if (f == "nextup") *r = std::isnan(x[0]) ? x[0] : std::nextafter(x[0], (T)INFINITY); else if (f == "nextdown") *r = std::isnan(x[0]) ? x[0] : std::nextafter(x[0], -(T)INFINITY);
    else if (f == "fabs") *r = std::fabs(x[0]); else if (f == "copysign") *r = std::copysign(x[0], x[1]);
    else { nr = 0;
        if (f == "isnan") *q = std::isnan(x[0]); else if (f == "isinf") *q = std::isinf(x[0]); else if (f == "isfinite") *q = std::isfinite(x[0]); else if (f == "isnormal") *q = std::isnormal(x[0]); else if (f == "signbit") *q = std::signbit(x[0]); else if (f == "fpclassify") *q = std::fpclassify(x[0]);
        else if (f == "isgreater") *q = std::isgreater(x[0], x[1]); else if (f == "isgreaterequal") *q = std::isgreaterequal(x[0], x[1]); else if (f == "isless") *q = std::isless(x[0], x[1]); else if (f == "islessequal") *q = std::islessequal(x[0], x[1]); else if (f == "islessgreater") *q = std::islessgreater(x[0], x[1]); else if (f == "isunordered") *q = std::isunordered(x[0], x[1]);
        else if (f == "fmin" || f == "fmax") { nr = 1; T a = x[0], b = x[1]; *r = (a != a) ? b : (b != b) ? a : (f == "fmin") == (a < b) ? a : b; if (a == b) *r = a; }
        else return false; }
    return true;
}
template <class T> static T get(const Word& w);
template <> float get<float>(const Word& w) { return w.f; } template <> double get<double>(const Word& w) { return w.d; } template <> LD get<LD>(const Word& w) { return w.l; }
static void put(Word& w, float v) { memset(&w, 0, 16); w.f = v; } static void put(Word& w, double v) { memset(&w, 0, 16); w.d = v; } static void put(Word& w, LD v) { memset(&w, 0, 16); memcpy(w.raw, &v, 10); }
template <class T> static double exactScore(const Entry& e, const string& f, const Word* a, int n, const Out& o) {
    T x[3] = {}; for (int i = 0; i < e.na; i++) x[i] = get<T>(a[i]); T r[2] = {}; int q, nr;
    LD x2 = e.na > 1 ? a[1].l : 0;
    if (!exactRef<T>(f, x, x2, n, r, &q, nr)) return 0;
    for (int i = 0; i < nr; i++) { Word w; put(w, r[i]); if (!same(e.t, w, o.r[i])) { if ((f == "fmin" || f == "fmax") && x[0] == x[1] && val(e.t, o.r[0]) == (LD)x[0]) continue; return 1e30; } }
    if (e.hasq) { bool num = nr == 0 || (!std::isnan(r[0]) && !std::isinf(r[0])); if (f == "remquo") return (num && ((q ^ o.q) & 7)) ? 1e30 : 0; if (nr == 0 && f != "ilogb" && f != "fpclassify") return (q != 0) != (o.q != 0) || (o.q != 0 && o.q != 1) ? 1e30 : 0; if (num && q != o.q) return 1e30; }
    return 0;
}

/*---------------------------------- record ---------------------------------*/
struct Ev { Word a[3]; int n; double s; };
static string limbs(char t, const Word& w) {
    unsigned __int128 b = 0; int nb = t == 'f' ? 4 : t == 'd' ? 8 : 10; for (int i = nb - 1; i >= 0; i--) b = (b << 8) | w.raw[i];
    if (!b) return "[0]"; string s = "[1"; while (b) { char buf[16]; snprintf(buf, sizeof buf, ",%d", (int)(b & 0x7fff)); s += buf; b >>= 15; } return s + "]";
}
static string g_path = "rt"; static volatile int sink;
static string callJson(const Entry& e, int m, const Ev& v) {
    Out o; memset(&o, 0, sizeof o); Word a[3]; memcpy(a, v.a, sizeof a);
    prep(m); e.fn(a, v.n, &o); int fl = flagsNow(), en = errIx(errno); int m1 = modeIx(fegetround()); prep(0);
    // once more with errno already holding a code: what is reported does not depend on that
    int ep = en == 1 ? 2 : en == 2 ? 1 : 1 + (int)(fl & 1); { Out o2; memset(&o2, 0, sizeof o2); memcpy(a, v.a, sizeof a); prep(m); errno = ep == 1 ? EDOM : ERANGE; e.fn(a, v.n, &o2); } int en2 = errIx(errno); prep(0);
    string s = "{\"f\":\"" + string(e.name) + "\",\"t\":\"" + e.t + "\",\"p\":\"" + g_path + "\",\"m\":" + std::to_string(m) + ",\"a\":[";
    for (int i = 0; i < e.na; i++) s += (i ? "," : "") + limbs((i == 1 && !strcmp(e.name, "nexttoward")) ? 'l' : e.t, a[i]);
    s += "],\"n\":" + std::to_string(v.n) + ",\"r\":[";
    for (int i = 0; i < e.nr; i++) s += (i ? "," : "") + limbs(e.t, o.r[i]);
    s += "],\"q\":" + std::to_string(o.q) + ",\"fl\":" + std::to_string(fl) + ",\"en\":" + std::to_string(en) + ",\"ep\":" + std::to_string(ep) + ",\"en2\":" + std::to_string(en2) + ",\"m1\":" + std::to_string(m1) + "}";
    return s;
}

static std::map<string, string> opt;
static long geti(const char* k, long d) { auto i = opt.find(k); return i == opt.end() ? d : atol(i->second.c_str()); }
struct Shared { Word a[3]; int n; uint64_t evals; double worst; Word wa[3]; };

static void runOne(const Entry& e, int m, FILE* out, Shared* sh, uint64_t seed, int sfl) {
    const string f = e.name; long N = geti("n", 1000), keep = geti("keep", 20), rndn = geti("rnd", 20), st = geti("st", 200); double thr = geti("thr", 0) / 16.0;
    seedr(seed);
    vector<Ev> top, pick; uint64_t evals = 0; double worst = 0; bool apx; { LD z[3] = { 1, 1, 1 }, r; apx = approxRef(f, z, r); }
    auto eval = [&](Ev& v) {
        memcpy(sh->a, v.a, sizeof v.a); sh->n = v.n;
        double s = 0; LD ref = 0; LD x[3];
        if (apx) { for (int i = 0; i < e.na; i++) x[i] = val(e.t, v.a[i]); approxRef(f, x, ref); }
        Out o; memset(&o, 0, sizeof o); prep(m); e.fn(v.a, v.n, &o); int fl = flagsNow();
        if (apx) { prep(0); s = ulpScore(f, e.t, o.r[0], ref); }
        else { s = e.t == 'f' ? exactScore<float>(e, f, v.a, v.n, o) : e.t == 'd' ? exactScore<double>(e, f, v.a, v.n, o) : exactScore<LD>(e, f, v.a, v.n, o); prep(0); }
        if (sfl) {     // exceptions out of place
            bool an = false; for (int i = 0; i < e.na; i++) an |= isNaNw(e.t, v.a[i]);
            bool inv = e.nr ? (isNaNw(e.t, o.r[0]) && !an) : false;
            if ((fl & 1) && !inv && !(f == "ilogb")) s += 1e20; if (!(fl & 1) && inv) s += 1e20;
            if ((fl & 2) && !(e.nr && std::isinf(val(e.t, o.r[0])))) s += 1e20;
        }
        evals++; v.s = s; if (s > worst && s < 1e19) { worst = s; memcpy(sh->wa, v.a, sizeof v.a); }
        return s;
    };
    auto offer = [&](const Ev& v) { if (v.s <= thr) return; if ((long)top.size() < keep) { top.push_back(v); std::push_heap(top.begin(), top.end(), [](const Ev& p, const Ev& q) { return p.s > q.s; }); }
        else if (keep && v.s > top[0].s) { auto c = [](const Ev& p, const Ev& q) { return p.s > q.s; }; std::pop_heap(top.begin(), top.end(), c); top.back() = v; std::push_heap(top.begin(), top.end(), c); } };
    // structured
    vector<Ev> S; auto& A = sp2[ti(e.t)]; auto& B = sp1[ti(e.t)]; auto& C = sp0[ti(e.t)];
    static const int ns[] = { 0, 1, -1, 2, -2, 52, -52, 64, -64, 127, 128, -126, -149, -150, 1023, 1024, -1022, -1074, -1075, 2046, 2097, 2098, -2097, -2098, -2099, 16383, 16445, -16445, 32768, -32768, 100000, -100000, INT32_MAX, INT32_MIN };
    if (e.na == 1 && !e.hasn) for (auto& x : A) { Ev v{ { x }, 0, 0 }; S.push_back(v); }
    else if (e.na == 1) { for (auto& x : B) for (int k : ns) { Ev v{ { x }, k, 0 }; S.push_back(v); } }
    else if (e.na == 2) { auto& Y = f == "nexttoward" ? sp1[2] : B; for (auto& x : B) for (auto& y : Y) { Ev v{ { x, y }, 0, 0 }; S.push_back(v); } }
    else for (auto& x : C) for (auto& y : C) for (auto& z : C) { Ev v{ { x, y, z }, 0, 0 }; S.push_back(v); }
    for (auto& v : S) { eval(v); offer(v); }
    if ((long)S.size() > st) { for (size_t i = 0; i < S.size(); i++) std::swap(S[i], S[i + below(S.size() - i)]); S.resize(st); }
    if (geti("exh", 0) && e.na == 1 && !e.hasn && e.t == 'f') {
        uint64_t stride = geti("stride", 1), off = geti("stride", 1) > 1 ? rnd() % stride : 0;
        for (uint64_t b = off; b < (1ull << 32); b += stride) { Ev v; memset(&v, 0, sizeof v); v.a[0].u[0] = b; int s; unsigned E; uint64_t T; parts('f', v.a[0], s, E, T); if (E == 255 && T && !(T & 0x400000)) continue; eval(v); if (v.s > thr) offer(v); }
    }
    for (long i = 0; i < N; i++) {
        Ev v; memset(&v, 0, sizeof v); genArgs(e, v.a, v.n); eval(v); if (v.s > thr) offer(v);
        if ((long)pick.size() < rndn) pick.push_back(v); else if (rndn) { uint64_t j = rnd() % (uint64_t)(i + 1); if (j < (uint64_t)rndn) pick[j] = v; }
    }
    for (auto* L : { &S, &top, &pick }) for (auto& v : *L) { memcpy(sh->a, v.a, sizeof v.a); sh->n = v.n; string s = callJson(e, m, v); fputs(s.c_str(), out); fputc('\n', out); }
    sh->evals = evals; sh->worst = worst;
}

#ifndef SCAN_NO_MAIN
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    for (int i = 3; i < argc; i++) { string s = argv[i]; auto p = s.find('='); if (p != string::npos) opt[s.substr(0, p)] = s.substr(p + 1); }
    void* h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    TableFn tf = (TableFn)dlsym(h, "ccm_table"); if (!tf) return 2; int cnt; const Entry* T = tf(&cnt);
    for (char t : { 'f', 'd', 'l' }) { sp0[ti(t)] = specials(t, 0); sp1[ti(t)] = specials(t, 1); sp2[ti(t)] = specials(t, 2); }
    if (opt.count("path")) g_path = opt["path"];
    string types = opt.count("types") ? opt["types"] : "fd", modes = opt.count("modes") ? opt["modes"] : "0", fns = "," + opt["fn"] + ",";
    long seed = geti("seed", 1), jobs = geti("jobs", 8), tmo = geti("tmo", 120); int sfl = geti("flags", 0);
    if (opt.count("in")) {      // re-execute given inputs: lines "name type mode n hex..."; each in a process of its own
        FILE* in = fopen(opt["in"].c_str(), "r"); FILE* of_ = fopen(argv[2], "w"); char name[64], ty; int m, n; if (!in || !of_) return 2;
        char line[512];
        while (fgets(line, sizeof line, in)) {
            char h0[64] = "0", h1[64] = "0", h2[64] = "0"; if (sscanf(line, "%63s %c %d %d %63s %63s %63s", name, &ty, &m, &n, h0, h1, h2) < 4) continue;
            Ev v; memset(&v, 0, sizeof v); v.n = n; const char* hs[3] = { h0, h1, h2 };
            for (int i = 0; i < 3; i++) { string h(hs[i]); while (h.size() < 20) h = "0" + h; for (int k = 0; k < 10; k++) v.a[i].raw[k] = (unsigned char)strtoul(h.substr(18 - 2 * k, 2).c_str(), 0, 16); }
            int ix = -1; for (int i = 0; i < cnt; i++) if (!strcmp(T[i].name, name) && T[i].t == ty) ix = i; if (ix < 0) continue;
            int pp[2]; if (pipe(pp)) return 2; fflush(of_); pid_t pid = fork();
            if (!pid) { alarm(tmo); string s = callJson(T[ix], m, v); if (write(pp[1], s.c_str(), s.size()) < 0) _exit(3); _exit(0); }
            close(pp[1]); string got; char b[4096]; ssize_t k; while ((k = read(pp[0], b, sizeof b)) > 0) got.append(b, (size_t)k); close(pp[0]); int stt; waitpid(pid, &stt, 0);
            if (got.empty()) { got = "{\"f\":\"" + string(name) + "\",\"t\":\"" + ty + "\",\"p\":\"" + g_path + "\",\"m\":" + std::to_string(m) + ",\"a\":["; for (int i = 0; i < T[ix].na; i++) got += (i ? "," : "") + limbs((i == 1 && !strcmp(name, "nexttoward")) ? 'l' : ty, v.a[i]); got += "],\"n\":" + std::to_string(n) + ",\"r\":[],\"q\":0,\"fl\":0,\"en\":0,\"m1\":0,\"cr\":" + std::to_string(stt) + "}"; }
            fprintf(of_, "%s\n", got.c_str());
        }
        fclose(of_); return 0;
    }
    struct Job { int e, m; pid_t pid; string tmp; Shared* sh; }; vector<Job> q;
    for (int i = 0; i < cnt; i++) if (fns.find("," + string(T[i].name) + ",") != string::npos && types.find(T[i].t) != string::npos) for (char m : modes) q.push_back({ i, m - '0', 0, "", nullptr });
    string o = argv[2]; size_t next = 0, live = 0; vector<Job*> running; uint64_t total = 0; FILE* out = fopen(o.c_str(), "w"); FILE* crash = nullptr; FILE* sum = fopen((o + ".sum").c_str(), "w");
    // bigger pieces first would balance better; order is fixed for reproducibility
    while (next < q.size() || live) {
        while (next < q.size() && live < (size_t)jobs) {
            Job& j = q[next++]; j.tmp = o + "." + std::to_string(&j - &q[0]) + ".part"; j.sh = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(j.sh, 0, sizeof(Shared));
            j.pid = fork();
            if (!j.pid) { alarm(tmo); FILE* f = fopen(j.tmp.c_str(), "w"); uint64_t sd = seed; for (const char* c = T[j.e].name; *c; c++) sd = sd * 1000003 + *c; sd = sd * 31 + T[j.e].t; sd = sd * 31 + j.m; runOne(T[j.e], j.m, f, j.sh, sd, sfl); fclose(f); _exit(0); }
            live++; running.push_back(&j);
        }
        int stt; pid_t p = wait(&stt);
        for (auto it = running.begin(); it != running.end(); ++it) if ((*it)->pid == p) {
            Job& j = **it; live--; running.erase(it); const Entry& e = T[j.e];
            if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) {
                if (!crash) crash = fopen((o + ".crash").c_str(), "w");
                fprintf(crash, "{\"f\":\"%s\",\"t\":\"%c\",\"p\":\"%s\",\"m\":%d,\"status\":%d,\"a\":[", e.name, e.t, g_path.c_str(), j.m, stt);
                for (int i = 0; i < e.na; i++) fprintf(crash, "%s%s", i ? "," : "", limbs((i == 1 && !strcmp(e.name, "nexttoward")) ? 'l' : e.t, j.sh->a[i]).c_str());
                fprintf(crash, "],\"n\":%d,\"r\":[],\"q\":0,\"fl\":0,\"en\":0,\"m1\":0,\"cr\":%d}\n", j.sh->n, stt);
            }
            total += j.sh->evals; fprintf(sum, "%s %c %d evals=%llu worst=%.3f at", e.name, e.t, j.m, (unsigned long long)j.sh->evals, j.sh->worst); for (int i = 0; i < e.na; i++) fprintf(sum, " %La", val(e.t, j.sh->wa[i])); fprintf(sum, "\n");
            break;
        }
    }
    for (auto& j : q) { FILE* f = fopen(j.tmp.c_str(), "r"); if (f) { char buf[65536]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, k, out); fclose(f); unlink(j.tmp.c_str()); } }
    fclose(out); fclose(sum); if (crash) fclose(crash);
    printf("evals=%llu\n", (unsigned long long)total); return 0;
}
#endif

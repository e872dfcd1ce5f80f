// Calls evaluated at compile time. Included by generated sources, which list the calls.
#pragma once
#ifndef CE_HEADER      // the public header a source takes by itself
#define CE_HEADER <ccmath/ccmath.hpp>
#endif
#include CE_HEADER
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <type_traits>
namespace ce {
template <class T> struct R { T r0; T r1; int q; };
#define U1(f) template <class T> constexpr R<T> w_##f(T x) { return { ccm::f(x), T(0), 0 }; }
#define U2(f) template <class T> constexpr R<T> w_##f(T x, T y) { return { ccm::f(x, y), T(0), 0 }; }
#define U3(f) template <class T> constexpr R<T> w_##f(T x, T y, T z) { return { ccm::f(x, y, z), T(0), 0 }; }
#define P1(f) template <class T> constexpr R<T> w_##f(T x) { return { T(0), T(0), (int)ccm::f(x) }; }
#define P2(f) template <class T> constexpr R<T> w_##f(T x, T y) { return { T(0), T(0), (int)ccm::f(x, y) }; }
#ifdef CE_ONE
CE_ONE
#else
P1(isnan) P1(isinf) P1(isfinite) P1(isnormal) P1(signbit) P1(fpclassify)
P2(isgreater) P2(isgreaterequal) P2(isless) P2(islessequal) P2(islessgreater) P2(isunordered)
U1(fabs) U2(copysign) U2(fmin) U2(fmax) U2(fdim)
U1(ceil) U1(floor) U1(trunc) U1(round) U1(rint) U1(nearbyint)
U2(fmod) U2(remainder)
template <class T> constexpr R<T> w_remquo(T x, T y) { int q = 0; T r = ccm::remquo(x, y, &q); return { r, T(0), q }; }
template <class T> constexpr R<T> w_frexp(T x) { int q = 0; T r = ccm::frexp(x, &q); return { r, T(0), q }; }
template <class T> constexpr R<T> w_ldexp(T x, int n) { return { ccm::ldexp(x, n), T(0), 0 }; }
template <class T> constexpr R<T> w_scalbn(T x, int n) { return { ccm::scalbn(x, n), T(0), 0 }; }
template <class T> constexpr R<T> w_scalbln(T x, int n) { return { ccm::scalbln(x, (long)n), T(0), 0 }; }
P1(ilogb) U1(logb)
template <class T> constexpr R<T> w_modf(T x) { T i = 0; T r = ccm::modf(x, &i); return { r, i, 0 }; }
U2(nextafter) U1(nextup) U1(nextdown)
template <class T> constexpr R<T> w_nexttoward(T x, long double y) { return { ccm::nexttoward(x, y), T(0), 0 }; }
U3(fma) U1(sqrt) U2(pow)
U1(exp) U1(exp2) U1(expm1) U1(log) U1(log2) U1(log10) U1(log1p)
U1(sin) U1(cos) U1(tan) U1(asin) U1(acos) U1(atan) U2(atan2)
U1(cbrt) U2(hypot) U1(tgamma) U1(lgamma)
template <class T> constexpr R<T> w_hypot3(T x, T y, T z) { return { ccm::hypot(x, y, z), T(0), 0 }; }
U3(lerp)
#endif
template <class C, int = (C::template v<0>(), 0)> constexpr bool can(int) { return true; }
template <class C> constexpr bool can(...) { return false; }
template <class T> void limbs(T v) {
    unsigned char b[16] = { 0 }; memcpy(b, &v, sizeof(T) == 16 ? 10 : sizeof(T)); unsigned __int128 x = 0; for (int i = 9; i >= 0; i--) x = (x << 8) | b[i];
    if (!x) { printf("[0]"); return; } printf("[1"); while (x) { printf(",%d", (int)(x & 0x7fff)); x >>= 15; } printf("]");
}
template <class C> void out(int k) {
    if constexpr (can<C>(0)) { static constexpr auto r = C::template v<0>(); printf("%d 1 ", k); limbs(r.r0); printf(" "); limbs(r.r1); printf(" %d\n", r.q); }
    else printf("%d 0\n", k);
}
}
#define CALL(k, ...) struct C##k { template <int> static constexpr auto v() { return ce::__VA_ARGS__; } };
// A namespace-scope constant: evaluated where it stands, with what precedes it.
#define EARLY(k, ...) constexpr auto E##k = ce::__VA_ARGS__; struct C##k { template <int> static constexpr auto v() { return E##k; } };

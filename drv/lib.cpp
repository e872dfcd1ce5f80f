// One build variant of the public functions, as a table.
#include "pre.h"
#include <ccmath/ccmath.hpp>
#include "abi.h"
namespace {
template <class T> struct Acc;
template <> struct Acc<float> { static float g(const Word& w) { return w.f; } static void s(Word& w, float v) { w.f = v; } };
template <> struct Acc<double> { static double g(const Word& w) { return w.d; } static void s(Word& w, double v) { w.d = v; } };
template <> struct Acc<long double> { static long double g(const Word& w) { return w.l; } static void s(Word& w, long double v) { w.l = v; } };
#define G(i) Acc<T>::g(a[i])
#define R(i, v) Acc<T>::s(o->r[i], v)
#define DEF(id, ...) template <class T> struct id##_ { static void call(const Word* a, int n, Out* o) { (void)a; (void)n; (void)o; __VA_ARGS__; } };
#define U1(f) DEF(f, T x = G(0); T r = ccm::f(x); R(0, r))
#define U2(f) DEF(f, T x = G(0); T y = G(1); T r = ccm::f(x, y); R(0, r))
#define U3(f) DEF(f, T x = G(0); T y = G(1); T z = G(2); T r = ccm::f(x, y, z); R(0, r))
#define P1(f) DEF(f, T x = G(0); o->q = (int)ccm::f(x))
#define P2(f) DEF(f, T x = G(0); T y = G(1); o->q = (int)ccm::f(x, y))
P1(isnan) P1(isinf) P1(isfinite) P1(isnormal) P1(signbit) P1(fpclassify)
P2(isgreater) P2(isgreaterequal) P2(isless) P2(islessequal) P2(islessgreater) P2(isunordered)
U1(fabs) U2(copysign) U2(fmin) U2(fmax) U2(fdim)
U1(ceil) U1(floor) U1(trunc) U1(round) U1(rint) U1(nearbyint)
U2(fmod) U2(remainder)
DEF(remquo, T x = G(0); T y = G(1); int q = 0; T r = ccm::remquo(x, y, &q); R(0, r); o->q = q)
DEF(frexp, T x = G(0); int q = 0; T r = ccm::frexp(x, &q); R(0, r); o->q = q)
DEF(ldexp, T x = G(0); T r = ccm::ldexp(x, n); R(0, r))
DEF(scalbn, T x = G(0); T r = ccm::scalbn(x, n); R(0, r))
DEF(scalbln, T x = G(0); T r = ccm::scalbln(x, (long)n); R(0, r))
P1(ilogb) U1(logb)
DEF(modf, T x = G(0); T i = 0; T r = ccm::modf(x, &i); R(0, r); R(1, i))
U2(nextafter) U1(nextup) U1(nextdown)
DEF(nexttoward, T x = G(0); long double y = a[1].l; T r = ccm::nexttoward(x, y); R(0, r))
U3(fma) U1(sqrt) U2(pow)
U1(exp) U1(exp2) U1(expm1) U1(log) U1(log2) U1(log10) U1(log1p)
U1(sin) U1(cos) U1(tan) U1(asin) U1(acos) U1(atan) U2(atan2)
U1(cbrt) U2(hypot) U1(tgamma) U1(lgamma)
DEF(hypot3, T x = G(0); T y = G(1); T z = G(2); T r = ccm::hypot(x, y, z); R(0, r))
U3(lerp)
#define ROW1(f, t, T, na, hn, nr, hq) { #f, t, na, hn, nr, hq, &f##_<T>::call },
#define ROW(f, na, hn, nr, hq) ROW1(f, 'f', float, na, hn, nr, hq) ROW1(f, 'd', double, na, hn, nr, hq) ROW1(f, 'l', long double, na, hn, nr, hq)
const Entry table[] = {
  ROW(isnan,1,0,0,1) ROW(isinf,1,0,0,1) ROW(isfinite,1,0,0,1) ROW(isnormal,1,0,0,1) ROW(signbit,1,0,0,1) ROW(fpclassify,1,0,0,1)
  ROW(isgreater,2,0,0,1) ROW(isgreaterequal,2,0,0,1) ROW(isless,2,0,0,1) ROW(islessequal,2,0,0,1) ROW(islessgreater,2,0,0,1) ROW(isunordered,2,0,0,1)
  ROW(fabs,1,0,1,0) ROW(copysign,2,0,1,0) ROW(fmin,2,0,1,0) ROW(fmax,2,0,1,0) ROW(fdim,2,0,1,0)
  ROW(ceil,1,0,1,0) ROW(floor,1,0,1,0) ROW(trunc,1,0,1,0) ROW(round,1,0,1,0) ROW(rint,1,0,1,0) ROW(nearbyint,1,0,1,0)
  ROW(fmod,2,0,1,0) ROW(remainder,2,0,1,0) ROW(remquo,2,0,1,1)
  ROW(frexp,1,0,1,1) ROW(ldexp,1,1,1,0) ROW(scalbn,1,1,1,0) ROW(scalbln,1,1,1,0) ROW(ilogb,1,0,0,1) ROW(logb,1,0,1,0) ROW(modf,1,0,2,0)
  ROW(nextafter,2,0,1,0) ROW(nexttoward,2,0,1,0) ROW(nextup,1,0,1,0) ROW(nextdown,1,0,1,0)
  ROW(fma,3,0,1,0) ROW(sqrt,1,0,1,0) ROW(pow,2,0,1,0)
  ROW(exp,1,0,1,0) ROW(exp2,1,0,1,0) ROW(expm1,1,0,1,0) ROW(log,1,0,1,0) ROW(log2,1,0,1,0) ROW(log10,1,0,1,0) ROW(log1p,1,0,1,0)
  ROW(sin,1,0,1,0) ROW(cos,1,0,1,0) ROW(tan,1,0,1,0) ROW(asin,1,0,1,0) ROW(acos,1,0,1,0) ROW(atan,1,0,1,0) ROW(atan2,2,0,1,0)
  ROW(cbrt,1,0,1,0) ROW(hypot,2,0,1,0) ROW(hypot3,3,0,1,0) ROW(tgamma,1,0,1,0) ROW(lgamma,1,0,1,0) ROW(lerp,3,0,1,0)
};
}
extern "C" __attribute__((visibility("default"))) const Entry* ccm_table(int* count) { *count = (int)(sizeof table / sizeof table[0]); return table; }

// The names with a suffix.
SUFFN(fabsf) SUFFN(expf) SUFFN(exp2f) SUFFN(expm1f) SUFFN(logf) SUFFN(log2f) SUFFN(log10f) SUFFN(log1pf) SUFFN(ceilf) SUFFN(floorf) SUFFN(truncf) SUFFN(roundf) SUFFN(rintf) SUFFN(nearbyintf) SUFFN(sqrtf) SUFFN(sinf) SUFFN(cosf) SUFFN(tanf) SUFFN(asinf) SUFFN(acosf) SUFFN(atanf) SUFFN(tgammaf) SUFFN(lgammaf) SUFFN(nextupf) SUFFN(nextdownf) SUFFN(cbrtf) SUFFN(logbf) SUFFN(ilogbf) SUFFN(fdimf) SUFFN(fmodf) SUFFN(remainderf) SUFFN(fmaxf) SUFFN(copysignf) SUFFN(nextafterf) SUFFN(hypotf) SUFFN(atan2f) SUFFN(powf) SUFFN(nexttowardf) SUFFNN(ldexpf) SUFFNN(scalbnf) SUFFNN(scalblnf) SUFFNQ(remquof) SUFFNQ(frexpf) SUFFN(fabsl) SUFFN(expl) SUFFN(exp2l) SUFFN(expm1l) SUFFN(logl) SUFFN(log2l) SUFFN(log10l) SUFFN(log1pl) SUFFN(ceill) SUFFN(floorl) SUFFN(truncl) SUFFN(roundl) SUFFN(rintl) SUFFN(nearbyintl) SUFFN(sqrtl) SUFFN(sinl) SUFFN(cosl) SUFFN(tanl) SUFFN(asinl) SUFFN(acosl) SUFFN(atanl) SUFFN(tgammal) SUFFN(lgammal) SUFFN(nextupl) SUFFN(nextdownl) SUFFN(cbrtl) SUFFN(logbl) SUFFN(ilogbl) SUFFN(fdiml) SUFFN(fmodl) SUFFN(remainderl) SUFFN(fmaxl) SUFFN(copysignl) SUFFN(nextafterl) SUFFN(hypotl) SUFFN(atan2l) SUFFN(powl) SUFFN(nexttowardl) SUFFNN(ldexpl) SUFFNN(scalbnl) SUFFNN(scalblnl) SUFFNQ(remquol) SUFFNQ(frexpl)
#define SUFFIX_ROWS(X) \
    X(fabsf, fabs, float) \
    X(expf, exp, float) \
    X(exp2f, exp2, float) \
    X(expm1f, expm1, float) \
    X(logf, log, float) \
    X(log2f, log2, float) \
    X(log10f, log10, float) \
    X(log1pf, log1p, float) \
    X(ceilf, ceil, float) \
    X(floorf, floor, float) \
    X(truncf, trunc, float) \
    X(roundf, round, float) \
    X(rintf, rint, float) \
    X(nearbyintf, nearbyint, float) \
    X(sqrtf, sqrt, float) \
    X(sinf, sin, float) \
    X(cosf, cos, float) \
    X(tanf, tan, float) \
    X(asinf, asin, float) \
    X(acosf, acos, float) \
    X(atanf, atan, float) \
    X(tgammaf, tgamma, float) \
    X(lgammaf, lgamma, float) \
    X(nextupf, nextup, float) \
    X(nextdownf, nextdown, float) \
    X(cbrtf, cbrt, float) \
    X(logbf, logb, float) \
    X(ilogbf, ilogb, float) \
    X(fdimf, fdim, float, float) \
    X(fmodf, fmod, float, float) \
    X(remainderf, remainder, float, float) \
    X(fmaxf, fmax, float, float) \
    X(copysignf, copysign, float, float) \
    X(nextafterf, nextafter, float, float) \
    X(hypotf, hypot, float, float) \
    X(atan2f, atan2, float, float) \
    X(powf, pow, float, float) \
    X(nexttowardf, nexttoward, float, ld) \
    X(ldexpf, ldexp, float) \
    X(scalbnf, scalbn, float) \
    X(scalblnf, scalbln, float) \
    X(remquof, remquo, float, float) \
    X(frexpf, frexp, float) \
    X(fabsl, fabs, ld) \
    X(expl, exp, ld) \
    X(exp2l, exp2, ld) \
    X(expm1l, expm1, ld) \
    X(logl, log, ld) \
    X(log2l, log2, ld) \
    X(log10l, log10, ld) \
    X(log1pl, log1p, ld) \
    X(ceill, ceil, ld) \
    X(floorl, floor, ld) \
    X(truncl, trunc, ld) \
    X(roundl, round, ld) \
    X(rintl, rint, ld) \
    X(nearbyintl, nearbyint, ld) \
    X(sqrtl, sqrt, ld) \
    X(sinl, sin, ld) \
    X(cosl, cos, ld) \
    X(tanl, tan, ld) \
    X(asinl, asin, ld) \
    X(acosl, acos, ld) \
    X(atanl, atan, ld) \
    X(tgammal, tgamma, ld) \
    X(lgammal, lgamma, ld) \
    X(nextupl, nextup, ld) \
    X(nextdownl, nextdown, ld) \
    X(cbrtl, cbrt, ld) \
    X(logbl, logb, ld) \
    X(ilogbl, ilogb, ld) \
    X(fdiml, fdim, ld, ld) \
    X(fmodl, fmod, ld, ld) \
    X(remainderl, remainder, ld, ld) \
    X(fmaxl, fmax, ld, ld) \
    X(copysignl, copysign, ld, ld) \
    X(nextafterl, nextafter, ld, ld) \
    X(hypotl, hypot, ld, ld) \
    X(atan2l, atan2, ld, ld) \
    X(powl, pow, ld, ld) \
    X(nexttowardl, nexttoward, ld, ld) \
    X(ldexpl, ldexp, ld) \
    X(scalbnl, scalbn, ld) \
    X(scalblnl, scalbln, ld) \
    X(remquol, remquo, ld, ld) \
    X(frexpl, frexp, ld)

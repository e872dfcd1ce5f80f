// One build variant of the overloads for integer and mixed arguments, with the table of lib.cpp for reference.
#include "lib.cpp"
#include "ov_abi.h"
namespace {
template <class T> constexpr char tagOf() {
    if (std::is_same<T, bool>::value) return 'b'; if (std::is_same<T, signed char>::value) return 'c'; if (std::is_same<T, unsigned char>::value) return 'C';
    if (std::is_same<T, short>::value) return 's'; if (std::is_same<T, unsigned short>::value) return 'S'; if (std::is_same<T, int>::value) return 'i'; if (std::is_same<T, unsigned>::value) return 'I';
    if (std::is_same<T, long>::value) return 'j'; if (std::is_same<T, unsigned long>::value) return 'J'; if (std::is_same<T, long long>::value) return 'x'; if (std::is_same<T, unsigned long long>::value) return 'X';
    if (std::is_same<T, float>::value) return 'f'; if (std::is_same<T, double>::value) return 'd'; if (std::is_same<T, long double>::value) return 'l'; return '?';
}
template <class T> T getA(const Word& w) { if constexpr (std::is_same<T, float>::value) return w.f; else if constexpr (std::is_same<T, double>::value) return w.d; else if constexpr (std::is_same<T, long double>::value) return w.l; else return (T)w.u[0]; }
template <class T> void putR(Word& w, T v) {
    if constexpr (std::is_same<T, float>::value) w.f = v; else if constexpr (std::is_same<T, double>::value) w.d = v; else if constexpr (std::is_same<T, long double>::value) w.l = v;
    else { w.u[0] = (uint64_t)(int64_t)v; w.u[1] = std::is_unsigned<T>::value; if (std::is_unsigned<T>::value) w.u[0] = (uint64_t)v; }
}

#define OVF(f) \
    struct f##_o { \
        template <class... A> static auto test(int) -> decltype(ccm::f(std::declval<A>()...)); \
        template <class... A> static std::integral_constant<char, '!'> test(...); \
        template <class... A> static constexpr bool has = !std::is_same<decltype(test<A...>(0)), std::integral_constant<char, '!'>>::value; \
        template <class A> static void call1(const Word* a, int, Out* o) { putR(o->r[0], ccm::f(getA<A>(a[0]))); } \
        template <class A, class B> static void call2(const Word* a, int, Out* o) { putR(o->r[0], ccm::f(getA<A>(a[0]), getA<B>(a[1]))); } \
        template <class A, class B, class C> static void call3(const Word* a, int, Out* o) { putR(o->r[0], ccm::f(getA<A>(a[0]), getA<B>(a[1]), getA<C>(a[2]))); } \
    };

OVF(fabs) OVF(isnan) OVF(isinf) OVF(isfinite) OVF(isnormal) OVF(signbit) OVF(fpclassify) OVF(exp) OVF(exp2) OVF(expm1) OVF(log) OVF(log2) OVF(log10) OVF(log1p)
OVF(ceil) OVF(floor) OVF(trunc) OVF(round) OVF(rint) OVF(nearbyint) OVF(sqrt) OVF(sin) OVF(cos) OVF(tan) OVF(asin) OVF(acos) OVF(atan) OVF(tgamma) OVF(lgamma) OVF(nextup) OVF(nextdown) OVF(cbrt) OVF(ilogb) OVF(logb)
OVF(pow) OVF(isgreater) OVF(isgreaterequal) OVF(isless) OVF(islessequal) OVF(islessgreater) OVF(isunordered) OVF(nextafter) OVF(fmod) OVF(remainder) OVF(copysign) OVF(fdim) OVF(fmin) OVF(fmax) OVF(min) OVF(max) OVF(hypot) OVF(atan2) OVF(nexttoward)
OVF(fma) OVF(lerp)

struct remquo_o {
    template <class... A> static auto test(int) -> decltype(ccm::remquo(std::declval<A>()..., (int*)nullptr));
    template <class... A> static std::integral_constant<char, '!'> test(...);
    template <class... A> static constexpr bool has = !std::is_same<decltype(test<A...>(0)), std::integral_constant<char, '!'>>::value;
    template <class A, class B> static void call2(const Word* a, int, Out* o) { int q = 0; putR(o->r[0], ccm::remquo(getA<A>(a[0]), getA<B>(a[1]), &q)); o->q = q; }
};
#define OVN(f) struct f##_o { \
    template <class... A> static auto test(int) -> decltype(ccm::f(std::declval<A>()..., 1)); \
    template <class... A> static std::integral_constant<char, '!'> test(...); \
    template <class... A> static constexpr bool has = !std::is_same<decltype(test<A...>(0)), std::integral_constant<char, '!'>>::value; \
    template <class A> static void call1(const Word* a, int n, Out* o) { putR(o->r[0], ccm::f(getA<A>(a[0]), n)); } };
OVN(ldexp) OVN(scalbn) OVN(scalbln)
std::vector<OvEntry> rows;

template <class F, class... A> void add(const char* nm, const char* base) {
    static const char ts[] = { tagOf<A>()..., 0 };
    OvEntry e{}; e.name = nm; e.base = base; e.ts = ts; e.na = sizeof...(A);
    if constexpr (F::template has<A...>) {
        e.rt = tagOf<std::decay_t<decltype(F::template test<A...>(0))>>();
        if constexpr (sizeof...(A) == 1) e.fn = &F::template call1<A...>; else if constexpr (sizeof...(A) == 2) e.fn = &F::template call2<A...>; else e.fn = &F::template call3<A...>;
    }
    rows.push_back(e);
}
typedef signed char i8; typedef unsigned char u8; typedef short i16; typedef unsigned short u16; typedef unsigned u32; typedef long i64; typedef unsigned long u64; typedef long long ll; typedef unsigned long long ull; typedef long double ld;
template <class F> void un(const char* n) { add<F, bool>(n, n); add<F, i8>(n, n); add<F, u8>(n, n); add<F, i16>(n, n); add<F, u16>(n, n); add<F, int>(n, n); add<F, u32>(n, n); add<F, i64>(n, n); add<F, u64>(n, n); add<F, ll>(n, n); add<F, ull>(n, n); }
#define PAIRS(X) X(int, int) X(u32, u32) X(i64, i64) X(u64, u64) X(u8, u8) X(i16, i16) X(ull, ull) \
    X(float, int) X(int, float) X(double, int) X(int, double) X(ld, int) X(int, ld) X(float, u64) X(i64, float) X(double, u64) X(u64, double) X(i64, ld) X(ld, u64) X(double, i64) \
    X(float, double) X(double, float) X(float, ld) X(ld, float) X(double, ld) X(ld, double) X(int, i64) X(i16, u8) X(u32, i64) X(int, u64) X(bool, double) X(float, i8)
template <class F> void bi(const char* n) {
#define X(A, B) add<F, A, B>(n, n);
    PAIRS(X)
#undef X
}
template <class F> void tri(const char* n) {
    add<F, float, float, double>(n, n); add<F, float, double, float>(n, n); add<F, double, float, float>(n, n); add<F, double, double, float>(n, n); add<F, float, float, ld>(n, n); add<F, ld, double, float>(n, n); add<F, double, ld, double>(n, n);
    add<F, int, int, int>(n, n); add<F, int, double, double>(n, n); add<F, double, int, float>(n, n); add<F, float, float, int>(n, n); add<F, i64, ld, float>(n, n); add<F, u64, i64, u64>(n, n); add<F, float, i64, float>(n, n); add<F, int, int, double>(n, n);
}

#define SUFFN(f) struct f##_s { template <class... A> static auto test(int) -> decltype(ccm::f(std::declval<A>()...)); template <class... A> static constexpr bool has = true; \
    template <class A> static void call1(const Word* a, int, Out* o) { putR(o->r[0], ccm::f(getA<A>(a[0]))); } \
    template <class A, class B> static void call2(const Word* a, int, Out* o) { putR(o->r[0], ccm::f(getA<A>(a[0]), getA<B>(a[1]))); } \
    template <class A, class B, class C> static void call3(const Word* a, int, Out* o) { putR(o->r[0], ccm::f(getA<A>(a[0]), getA<B>(a[1]), getA<C>(a[2]))); } };
#define SUFFNN(f) struct f##_s { template <class... A> static auto test(int) -> decltype(ccm::f(std::declval<A>()..., 1)); template <class... A> static constexpr bool has = true; \
    template <class A> static void call1(const Word* a, int n, Out* o) { putR(o->r[0], ccm::f(getA<A>(a[0]), n)); } };
#define SUFFNQ(f) struct f##_s { template <class... A> static auto test(int) -> decltype(ccm::f(std::declval<A>()..., (int*)nullptr)); template <class... A> static constexpr bool has = true; \
    template <class A> static void call1(const Word* a, int, Out* o) { int q = 0; putR(o->r[0], ccm::f(getA<A>(a[0]), &q)); o->q = q; } \
    template <class A, class B> static void call2(const Word* a, int, Out* o) { int q = 0; putR(o->r[0], ccm::f(getA<A>(a[0]), getA<B>(a[1]), &q)); o->q = q; } };
#include "ov_suffix.inc"
void fill() {
#define U(f) un<f##_o>(#f);
    U(fabs) U(isnan) U(isinf) U(isfinite) U(isnormal) U(signbit) U(fpclassify) U(exp) U(exp2) U(expm1) U(log) U(log2) U(log10) U(log1p) U(ceil) U(floor) U(trunc) U(round) U(rint) U(nearbyint)
    U(sqrt) U(sin) U(cos) U(tan) U(asin) U(acos) U(atan) U(tgamma) U(lgamma) U(nextup) U(nextdown) U(cbrt) U(ilogb) U(logb) U(ldexp) U(scalbn) U(scalbln)
#undef U
#define U(f) bi<f##_o>(#f);
    U(pow) U(isgreater) U(isgreaterequal) U(isless) U(islessequal) U(islessgreater) U(isunordered) U(nextafter) U(fmod) U(remainder) U(remquo) U(copysign) U(fdim) U(fmin) U(fmax) U(min) U(max) U(hypot) U(atan2)
#undef U
    add<nexttoward_o, int, ld>("nexttoward", "nexttoward"); add<nexttoward_o, i64, ld>("nexttoward", "nexttoward"); add<nexttoward_o, u64, ld>("nexttoward", "nexttoward"); add<nexttoward_o, bool, ld>("nexttoward", "nexttoward");
    tri<hypot_o>("hypot"); tri<fma_o>("fma"); tri<lerp_o>("lerp");
#define SFX(fn, base, ...) add<fn##_s, __VA_ARGS__>(#fn, #base);
    SUFFIX_ROWS(SFX)
}
}
extern "C" __attribute__((visibility("default"))) const OvEntry* ccm_ov_table(int* count) { if (rows.empty()) fill(); *count = (int)rows.size(); return rows.data(); }

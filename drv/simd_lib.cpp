// Random programs for the vector types of the library: four vector registers, four mask registers and a memory, of one
// lane type and width; every step is recorded with the lanes it wrote or the value it returned.
//   ccm_run(OUT, "seed=S first=K sessions=N len=L modes=0123")
#include "pre.h"
#include "rec.h"
#include <ccmath/ccmath.hpp>
#include <ccmath/internal/math/runtime/pp/pp.hpp>
#include <ccmath/internal/math/runtime/simd/func/catalog.hpp>
#include <ccmath/internal/math/generic/func/power/pow_impl/pow_simd_impl.hpp>
#include <ccmath/internal/math/generic/func/power/pow_impl/powf_simd_impl.hpp>
#ifdef CCM_PP_FORCE_MSVC_INTRIN      // the backend written for MSVC covers these lane types only
#define V_INTRIN 1
#else
#define V_INTRIN 0
#endif
namespace {
namespace pp = ccm::pp; namespace in = ccm::intrin;
template <class T> constexpr bool fp = std::is_floating_point<T>::value;
template <class T> char letter() {
    if (std::is_same<T, float>::value) return 'f'; if (std::is_same<T, double>::value) return 'd';
    bool u = std::is_unsigned<T>::value; switch (sizeof(T)) { case 1: return u ? 'C' : 'c'; case 2: return u ? 'S' : 's'; case 4: return u ? 'I' : 'i'; default: return u ? 'X' : 'x'; }
}
string js(float v) { uint32_t b; memcpy(&b, &v, 4); return lim(b, false); }
string js(double v) { uint64_t b; memcpy(&b, &v, 8); return lim(b, false); }
template <class T, std::enable_if_t<std::is_integral<T>::value, int> = 0> string js(T v) { bool n = v < 0; return lim(n ? 0 - (uint64_t)(int64_t)v : (uint64_t)v, n); }
template <class T> string js(const T* p, int n) { string s = "["; for (int i = 0; i < n; i++) s += (i ? "," : "") + js(p[i]); return s + "]"; }
string jb(const bool* p, int n) { string s = "["; for (int i = 0; i < n; i++) s += (i ? "," : "") + string(p[i] ? "1" : "0"); return s + "]"; }
int curMode;
template <class T> T gen() {
    if constexpr (fp<T>) {
        using U = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>; constexpr int p = sizeof(T) == 4 ? 23 : 52, w = sizeof(T) == 4 ? 8 : 11; U b = 0; U one = 1;
        auto mk = [&](U s, U e, U t) { U r = (s << (p + w)) | (e << p) | (t & ((one << p) - 1)); T v; memcpy(&v, &r, sizeof v); return v; };
        U sg = rnd() & 1, E = (one << w) - 1, bias = E >> 1;
        switch (below(12)) {
        case 0: return mk(sg, 0, 0); case 1: return mk(sg, E, 0); case 2: return mk(sg, E, one << (p - 1)); case 3: return mk(sg, 0, below(2) ? one : (U)rnd());
        case 4: return mk(sg, below(2) ? 1 : E - 1, below(2) ? 0 : ~(U)0); case 5: b = (U)rnd(); { T v; memcpy(&v, &b, sizeof v); return v == v ? v : (T)1; }
        case 6: return mk(sg, bias + p - below(4), (U)rnd()); case 7: return (T)range(-20, 20) + (T)(below(4) * 0.25); case 8: return mk(sg, bias - 1 - below(2), below(2) ? ~(U)0 : (U)below(2));
        default: return mk(sg, bias + range(-6, 12), below(3) ? (U)rnd() : (U)rnd() << (p - 4));
        }
    } else switch (below(8)) {
        case 0: return std::numeric_limits<T>::max(); case 1: return std::numeric_limits<T>::min(); case 2: return (T)range(-1, 1); case 3: return (T)rnd();
        case 4: return (T)((I128)std::numeric_limits<T>::max() - below(3)); case 5: return (T)(rnd() >> below(64)); default: return (T)range(std::is_signed<T>::value ? -12 : 0, 13);
    }
}
template <class T> void store_bits(T& x, T v) { volatile T y = v; x = y; }
// is the scalar operation defined for these integers?
template <class T> bool def(const string& o, T a, T b) {
    if constexpr (fp<T>) return true; else {
    constexpr bool sg = std::is_signed<T>::value; I128 A = a, Bv = b, r = 0; constexpr I128 mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
    if (o == "div" || o == "mod") return b != 0 && !(sg && A == mn && Bv == -1);
    if (o == "shl") { if (Bv < 0 || Bv >= (int)sizeof(T) * 8) return false; if (!sg) return true; return A >= 0 && (A << (int)Bv) <= mx; }
    if (o == "shr") return Bv >= 0 && Bv < (int)sizeof(T) * 8;
    if (o == "add") r = A + Bv; else if (o == "sub") r = A - Bv; else if (o == "mul") { if (sizeof(T) < 8) r = A * Bv; else { long long t; if (sg) return !__builtin_mul_overflow((long long)a, (long long)b, &t); return true; } } else return true;
    if (sizeof(T) == 2 && !sg && o == "mul") return r <= 0x7fffffff;
    return !sg || (r >= mn && r <= mx); }
}
template <class T> bool negOk(T a) { if constexpr (fp<T>) return true; else return !std::is_signed<T>::value || a != std::numeric_limits<T>::min(); }
template <class U, class T> bool cvtOk(T a) {
    if constexpr (fp<T> && !fp<U>) { if (!(a == a)) return false; long double t = truncl((long double)a); return t >= (long double)std::numeric_limits<U>::min() && t <= (long double)std::numeric_limits<U>::max(); } else return true;
}
void start(const char* api, char ty, int n, const string& R, const string& K, const string& M) { head = "{\"k\":\"start\",\"p\":\"" + path + "\",\"api\":\"" + api + "\",\"t\":\"" + ty + "\",\"n\":" + std::to_string(n) + ",\"m\":" + std::to_string(curMode) + ",\"R\":" + R + ",\"K\":" + K + ",\"M\":" + M; body.clear(); count = 0; }
void ev(const string& o, int d, const string& s, const string& x, const string& v, const string& r) { line("{\"k\":\"op\",\"o\":\"" + o + "\",\"d\":" + std::to_string(d) + ",\"s\":" + s + ",\"x\":" + x + ",\"v\":" + v + ",\"r\":" + r); }

// ------------------------------------------------------------------------------------------------ ccm::pp
template <class V> struct PP {
    using T = typename V::value_type; using Abi = typename V::abi_type; using M = typename V::mask_type; static constexpr int N = (int)V::size(); static constexpr int L = 3 * N + 4;
    V R[4]; M K[4]; alignas(64) T mem[L]; T buf[N]; bool bb[N]; int alt = 0;
    __attribute__((noinline)) void rd(const V& v) { if (alt++ & 1) v.copy_to(buf); else for (int i = 0; i < N; i++) buf[i] = v[i]; }
    __attribute__((noinline)) void rm(const M& m) { for (int i = 0; i < N; i++) bb[i] = m[i]; }
    string rs(int d) { rd(R[d]); return js(buf, N); }
    string ks(int d) { rm(K[d]); return jb(bb, N); }
    string all() { string s = "["; for (int i = 0; i < 4; i++) s += (i ? "," : "") + rs(i); return s + "]"; }
    string allk() { string s = "["; for (int i = 0; i < 4; i++) s += (i ? "," : "") + ks(i); return s + "]"; }
    void dump() { line("{\"k\":\"dump\",\"R\":" + all() + ",\"K\":" + allk() + ",\"M\":" + js(mem, L)); }
    bool okAll(const string& o, const V& a, const V& b) { for (int i = 0; i < N; i++) if (!def<T>(o, a[i], b[i])) return false; return true; }
    void regenR(int d) { T t[N]; for (int i = 0; i < N; i++) t[i] = gen<T>(); R[d] = V([&](auto i) { return t[i]; }); ev("gen", d, "[]", "[]", js(t, N), rs(d)); }
    template <class U> void castTo(int a) {
        if constexpr (((int)sizeof(U) * N <= 64 || N == 1) && (!V_INTRIN || (sizeof(U) == sizeof(T) && std::is_signed<U>::value))) {
            for (int i = 0; i < N; i++) if (!cvtOk<U>((T)((const V&)R[a])[i])) return;
            U u[N]; string x = "[\"" + string(1, letter<U>()) + "\"]";
            if (below(2)) { auto c = pp::static_simd_cast<U>(R[a]); for (int i = 0; i < N; i++) u[i] = c[i]; } else { pp::basic_simd<U, Abi> c(R[a]); c.copy_to(u); }
            ev("cast", 0, ji({ a }), x, "[]", js(u, N));
        }
    }
    template <class U> void bits(int a, int d) {
        auto c = pp::simd_bit_cast<U>(R[a]); U u[N]; for (int i = 0; i < N; i++) u[i] = c[i]; ev("bitcast", 0, ji({ a }), "[\"" + string(1, letter<U>()) + "\"]", "[]", js(u, N));
        R[d] = pp::simd_bit_cast<T>(c); ev("move", d, ji({ a }), "[]", "[]", rs(d));
    }
    void bin(int k, bool cmp) {
        static const char* nm[] = { "add", "sub", "mul", "div", "mod", "and", "or", "xor", "shl", "shr" }; string o = nm[k]; int a = below(4), b = below(4), d = below(4);
        if (o == "shl" || o == "shr") { b = below(4); T t[N]; for (int i = 0; i < N; i++) t[i] = (T)below(sizeof(T) * 8); R[b] = V([&](auto i) { return t[i]; }); ev("gen", b, "[]", "[]", js(t, N), rs(b)); if (a == b) a = (b + 1) % 4; }
        if (cmp) a = d;
        if (!okAll(o, R[a], R[b])) { regenR(below(4)); return; }
        const V B = R[b]; V& D = R[d]; const V A = R[a];
        if (cmp) switch (k) { case 0: D += B; break; case 1: D -= B; break; case 2: D *= B; break; case 3: D /= B; break; default: if constexpr (!fp<T>) switch (k) { case 4: D %= B; break; case 5: D &= B; break; case 6: D |= B; break; case 7: D ^= B; break; case 8: D <<= B; break; default: D >>= B; } }
        else switch (k) { case 0: D = A + B; break; case 1: D = A - B; break; case 2: D = A * B; break; case 3: D = A / B; break; default: if constexpr (!fp<T>) switch (k) { case 4: D = A % B; break; case 5: D = A & B; break; case 6: D = A | B; break; case 7: D = A ^ B; break; case 8: D = A << B; break; default: D = A >> B; } }
        ev(o, d, ji({ a, b }), "[]", "[]", rs(d));
    }
    template <class F> void reduce2(const char* o, int a, F f, T id, int k) {
        if constexpr (!fp<T>) { bool ok = true; T acc = 0; for (int i = 0; i < N && ok; i++) { T v = R[a][i]; if (!def<T>(!strcmp(o, "mul") ? "mul" : "add", acc, v)) ok = false; acc = i ? (T)f(acc, v) : v; } if (!ok || (!strcmp(o, "mul") && sizeof(T) < 4)) return; }
        if (k < 0) { T r = pp::reduce(R[a], f); ev("reduceop", 0, ji({ a }), "[\"" + string(o) + "\"]", "[]", js(&r, 1)); }
        else { bool ok = true; if constexpr (!fp<T>) { T acc = 0; for (int i = 0; i < N && ok; i++) { T v = K[k][i] ? (T)R[a][i] : id; if (!def<T>(!strcmp(o, "mul") ? "mul" : "add", acc, v)) ok = false; acc = i ? (T)f(acc, v) : v; } } if (!ok) return;
            T r = strcmp(o, "add") ? pp::reduce(R[a], K[k], id, f) : pp::reduce(R[a], K[k], id); ev("reducemask", 0, ji({ a, k }), "[\"" + string(o) + "\"]", js(&id, 1), js(&r, 1)); }
    }
    void step() {
        int a = below(4), b = below(4), c = below(4), d = below(4), k = below(4), off = below(L - N + 1); string none = "[]";
        switch (below(44)) {
        case 0: regenR(d); break;
        case 1: { T t = gen<T>(); R[d] = t; ev("bcast", d, none, none, js(&t, 1), rs(d)); break; }
        case 2: R[d].copy_from(mem + off); ev("load", d, none, ji({ off }), none, rs(d)); break;
        case 3: R[d] = V(static_cast<const T*>(mem), pp::simd_flags<pp::detail::flag_aligned>{}); ev("load", d, none, ji({ 0 }), none, rs(d)); break;
        case 4: R[a].copy_to(mem + off); ev("store", 0, ji({ a }), ji({ off }), none, js(mem + off, N)); break;
        case 5: R[a].copy_to(mem, pp::simd_flags<pp::detail::flag_aligned>{}); ev("store", 0, ji({ a }), ji({ 0 }), none, js(mem, N)); break;
        case 6: { int i = below(N); T t = gen<T>(); R[d][i] = t; ev("setlane", d, none, ji({ i }), js(&t, 1), rs(d)); break; }
        case 7: { int i = below(N), j = below(N); R[d][i] = (T)R[a][j]; ev("copylane", d, ji({ a }), ji({ i, j }), none, rs(d)); break; }
        case 8: { bool ok = true; for (int i = 0; i < N; i++) ok = ok && negOk<T>(R[a][i]); if (ok) { R[d] = -R[a]; ev("neg", d, ji({ a }), none, none, rs(d)); } break; }
        case 9: R[d] = +R[a]; ev("move", d, ji({ a }), none, none, rs(d)); break;
        case 10: case 11: case 12: case 13: case 14: bin(below(fp<T> ? 4 : 10), false); break;
        case 15: case 16: bin(below(fp<T> ? 4 : 10), true); break;
        case 17: if constexpr (!fp<T>) { R[d] = ~R[a]; ev("not", d, ji({ a }), none, none, rs(d)); } break;
        case 18: case 19: case 20: { static const char* nm[] = { "eq", "ne", "lt", "le", "gt", "ge" }; int q = below(6); const V A = R[a], B = R[b]; M m = q == 0 ? A == B : q == 1 ? A != B : q == 2 ? A < B : q == 3 ? A <= B : q == 4 ? A > B : A >= B; K[k] = m; ev(nm[q], k, ji({ a, b }), none, none, ks(k)); break; }
        case 21: { K[k] = M(below(2) != 0); bool z = K[k][0]; ev("mbcast", k, none, ji({ z }), none, ks(k)); break; }
        case 22: { unsigned long long q = rnd(); K[k] = M::from_bits(q); bool x[N]; for (int i = 0; i < N; i++) x[i] = q >> (i & 63) & 1; ev("mbits", k, none, jb(x, N), none, ks(k)); break; }
        case 23: case 24: { static const char* nm[] = { "mand", "mor", "mxor", "mand", "mor", "mnot", "mnot", "mxnor", "mxor" }; int q = below(9); const M A = K[a], B = K[b]; K[k] = q == 0 ? A & B : q == 1 ? A | B : q == 2 ? A ^ B : q == 3 ? A && B : q == 4 ? A || B : q == 5 ? !A : q == 6 ? ~A : q == 7 ? A == B : A != B; ev(nm[q], k, ji({ a, b }), none, none, ks(k)); break; }
        case 25: { const M& m = K[a]; unsigned long long u = m.to_ullong(); bool x[N]; for (int i = 0; i < N; i++) x[i] = u >> i & 1; bool hi = N < 64 && (u >> (N & 63)) != 0; auto bs = m.to_bitset(); if (bs.to_ullong() != u) hi = true;
                   ev("mobs", 0, ji({ a }), ji({ pp::all_of(m), pp::any_of(m), pp::none_of(m), pp::reduce_count(m), pp::reduce_min_index(m), pp::reduce_max_index(m), hi }), none, jb(x, N)); break; }
        case 26: case 27: R[d] = pp::simd_select(K[k], R[a], R[b]); ev("select", d, ji({ a, b, k }), none, none, rs(d)); break;
        case 28: { string o; const V B = R[b]; int q = below(6); if (q >= 2 && !okAll(q == 2 ? "add" : q == 3 ? "sub" : q == 4 ? "mul" : "div", R[d], B)) break; auto w = pp::where(K[k], R[d]);
                   if (q == 0) { w = B; o = "wset"; } else if (q == 1) { T t = gen<T>(); w = t; ev("wbcast", d, ji({ b, k }), none, js(&t, 1), rs(d)); break; } else if (q == 2) { w += B; o = "wadd"; } else if (q == 3) { w -= B; o = "wsub"; } else if (q == 4) { w *= B; o = "wmul"; } else { w /= B; o = "wdiv"; }
                   ev(o, d, ji({ b, k }), none, none, rs(d)); break; }
        case 29: pp::where(K[k], R[d]).copy_from(mem + off); ev("wload", d, ji({ 0, k }), ji({ off }), none, rs(d)); break;
        case 30: if (below(2)) pp::where(K[k], R[a]).copy_to(mem + off); else { const V& z = R[a]; pp::where(K[k], z).copy_to(mem + off); } ev("wstore", 0, ji({ a, k }), ji({ off }), none, js(mem + off, N)); break;
        case 31: { T r; if constexpr (!fp<T>) { bool ok = true; T acc = 0; for (int i = 0; i < N; i++) { T v = R[a][i]; if (!def<T>("add", acc, v)) { ok = false; break; } acc = (T)(acc + v); } if (!ok) break; } r = pp::reduce(R[a]); ev("reduce", 0, ji({ a }), none, none, js(&r, 1)); break; }
        case 32: { T r = below(2) ? pp::reduce_min(R[a]) : 0; bool mn = true; if (below(2)) { mn = false; r = pp::reduce_max(R[a]); } else r = pp::reduce_min(R[a]); ev(mn ? "rmin" : "rmax", 0, ji({ a }), none, none, js(&r, 1)); break; }
        case 33: { bool mn = below(2); T r = mn ? pp::reduce_min(R[a], K[k]) : pp::reduce_max(R[a], K[k]); ev(mn ? "rminm" : "rmaxm", 0, ji({ a, k }), none, none, js(&r, 1)); break; }
        case 34: if (below(2)) reduce2("mul", a, [](T x, T y) { return (T)(x * y); }, (T)1, below(2) ? k : -1); else reduce2("add", a, std::plus<>{}, (T)0, below(2) ? k : -1); break;
        case 35: if constexpr (2 * N * (int)sizeof(T) <= 64) { auto w = pp::simd_cat(R[a], R[b]); T t[2 * N]; w.copy_to(t); ev("cat", 0, ji({ a, b }), none, none, js(t, 2 * N)); auto p = pp::simd_split<V>(w); bool hi = below(2); const V lo = p[0]; R[d] = hi ? V(p[1]) : lo; ev("move", d, ji({ hi ? b : a }), none, none, rs(d)); } break;
        case 36: if constexpr (2 * N * (int)sizeof(T) <= 64) { auto w = pp::simd_cat(K[a], K[b]); bool t[2 * N]; for (int i = 0; i < 2 * N; i++) t[i] = w[i]; ev("mcat", 0, ji({ a, b }), none, none, jb(t, 2 * N)); auto p = pp::simd_split<M>(w); bool hi = below(2); K[k] = hi ? p[1] : p[0]; ev("mmove", k, ji({ hi ? b : a }), none, none, ks(k)); } break;
        case 37: if constexpr (fp<T>) { if (sizeof(T) == 4) switch (below(4)) { case 0: castTo<int32_t>(a); break; case 1: castTo<double>(a); break; case 2: castTo<int16_t>(a); break; default: castTo<int64_t>(a); } else switch (below(4)) { case 0: castTo<float>(a); break; case 1: castTo<int64_t>(a); break; case 2: castTo<int32_t>(a); break; default: castTo<uint32_t>(a); } }
                 else switch (below(6)) { case 0: castTo<float>(a); break; case 1: castTo<double>(a); break; case 2: castTo<int64_t>(a); break; case 3: castTo<uint32_t>(a); break; case 4: castTo<int8_t>(a); break; default: castTo<uint16_t>(a); } break;
        case 38: if constexpr (std::is_same<T, float>::value) bits<int32_t>(a, d); else if constexpr (std::is_same<T, double>::value) bits<std::conditional_t<V_INTRIN, int64_t, uint64_t>>(a, d); else if constexpr (sizeof(T) == 4) bits<float>(a, d); else if constexpr (sizeof(T) == 8) bits<double>(a, d); else if constexpr (sizeof(T) == 2) bits<uint16_t>(a, d); break;
        case 39: { bool mn = below(2); R[d] = mn ? pp::min(R[a], R[b]) : pp::max(R[a], R[b]); const char* o = mn ? "min" : "max"; /* operands may be the destination */ ev(o, d, ji({ a, b }), none, none, rs(d)); break; }
        case 40: if constexpr (std::is_signed<T>::value) { bool ok = true; for (int i = 0; i < N; i++) ok = ok && negOk<T>(R[a][i]); if (ok) { R[d] = pp::abs(R[a]); ev("abs", d, ji({ a }), none, none, rs(d)); } } break;
        case 41: if constexpr (fp<T>) { static const char* nm[] = { "sqrt", "floor", "ceil", "trunc", "round", "abs" }; int q = below(6); const V A = R[a]; if (q == 4 && curMode) q = 0; R[d] = q == 0 ? pp::sqrt(A) : q == 1 ? pp::floor(A) : q == 2 ? pp::ceil(A) : q == 3 ? pp::trunc(A) : q == 4 ? pp::round(A) : pp::fabs(A); ev(nm[q], d, ji({ a }), none, none, rs(d)); } break;
        case 42: if constexpr (fp<T>) { R[d] = pp::fma(R[a], R[b], R[c]); ev("fma", d, ji({ a, b, c }), none, none, rs(d)); } break;
        default: if constexpr (fp<T>) if (curMode == 0) {
            int q = below(V_INTRIN ? 3 : 4); T x[N], y[N], r1[N], r2[N]; for (int i = 0; i < N; i++) x[i] = R[a][i], y[i] = R[b][i];
            if (q >= 2 && below(2)) { for (int i = 0; i < N; i++) { y[i] = below(2) ? (T)range(-30, 30) : (T)range(-64, 64) / 4; if (below(2)) x[i] = below(3) ? std::fabs(x[i]) : (T)range(-9, 9); } R[a].copy_from(x); ev("gen", a, none, none, js(x, N), rs(a)); if (b != a) { R[b].copy_from(y); ev("gen", b, none, none, js(y, N), rs(b)); } else for (int i = 0; i < N; i++) y[i] = x[i]; }
            for (int i = 0; i < N; i++) { volatile T X = x[i], Y = y[i]; if (q == 0) { r1[i] = std::exp(X); r2[i] = ccm::exp((T)X); } else if (q == 1) { r1[i] = std::log(X); r2[i] = ccm::log((T)X); } else if (q == 2) { r1[i] = std::pow(X, Y); r2[i] = ccm::pow((T)X, (T)Y); } else { r1[i] = ccm::gen::pow_gen<T>(X, Y); r2[i] = r1[i]; } }
            const V A = R[a], B = R[b]; if (q == 0) R[d] = pp::exp(A); else if (q == 1) R[d] = pp::log(A); else if (q == 2) R[d] = pp::pow(A, B); else if constexpr (V_INTRIN) {} else if constexpr (std::is_same<T, float>::value) R[d] = ccm::gen::impl::powf_simd(A, B); else R[d] = ccm::gen::impl::pow_simd(A, B);
            static const char* nm[] = { "exp", "log", "pow", "powk" }; T rr[2 * N]; for (int i = 0; i < N; i++) rr[i] = r1[i], rr[N + i] = r2[i]; ev(nm[q], d, ji({ a, b }), none, js(rr, 2 * N), rs(d)); }
        }
    }
    void session(int len) {
        mode(curMode);
        for (int i = 0; i < 4; i++) { T t[N]; for (int j = 0; j < N; j++) t[j] = gen<T>(); R[i].copy_from(t); K[i] = M::from_bits(rnd()); } for (int i = 0; i < L; i++) mem[i] = gen<T>();
        start("pp", letter<T>(), N, all(), allk(), js(mem, L));
        for (int i = 0; i < len; i++) { step(); if (i % 12 == 11) dump(); }
        dump(); mode(0); flushSession();
    }
    static void run(int len) { static PP m; m.session(len); }
};

// ------------------------------------------------------------------------------------------------ ccm::intrin
template <class A> struct isPack : std::false_type {}; template <int N> struct isPack<in::abi::pack<N>> : std::true_type {};
#if defined(CCMATH_SIMD_ENABLE_VECTOR_SIZE)
template <class A> struct isVs : std::false_type {}; template <int N> struct isVs<in::abi::vector_size<N>> : std::true_type {};
#else
template <class A> struct isVs : std::false_type {};
#endif
template <class T, class Abi> struct IN {
    using V = in::simd<T, Abi>; using M = in::simd_mask<T, Abi>; static constexpr int N = (int)V::size(); static constexpr int L = 3 * N + 4; static constexpr bool soft = isPack<Abi>::value || isVs<Abi>::value;
    V R[4]; M K[4]; alignas(64) T mem[L]; T buf[N]; bool bb[N];
    in::element_aligned_tag tag;
    __attribute__((noinline)) void rd(const V& v) { v.copy_to(buf, tag); }
    __attribute__((noinline)) void rm(const M& m) { T o[N], z[N], r[N]; for (int i = 0; i < N; i++) o[i] = 1, z[i] = 0; V one(o, tag), zero(z, tag); in::choose(m, one, zero).copy_to(r, tag); for (int i = 0; i < N; i++) bb[i] = r[i] == 1; }
    string rs(int d) { rd(R[d]); return js(buf, N); }
    string ks(int d) { rm(K[d]); return jb(bb, N); }
    string all() { string s = "["; for (int i = 0; i < 4; i++) s += (i ? "," : "") + rs(i); return s + "]"; }
    string allk() { string s = "["; for (int i = 0; i < 4; i++) s += (i ? "," : "") + ks(i); return s + "]"; }
    void dump() { line("{\"k\":\"dump\",\"R\":" + all() + ",\"K\":" + allk() + ",\"M\":" + js(mem, L)); }
    void step() {
        int a = below(4), b = below(4), c = below(4), d = below(4), k = below(4), off = below(L - N + 1); string none = "[]"; (void)c;
        switch (below(22)) {
        case 0: { T t[N]; for (int i = 0; i < N; i++) t[i] = gen<T>(); if constexpr (!soft && N == 2) R[d] = V(t[0], t[1]); else if constexpr (!soft && N == 4) R[d] = V(t[0], t[1], t[2], t[3]); else if constexpr (!soft && N == 8) R[d] = V(t[0], t[1], t[2], t[3], t[4], t[5], t[6], t[7]); else R[d] = V(t, tag); ev("gen", d, none, none, js(t, N), rs(d)); break; }
        case 1: { T t = gen<T>(); R[d] = V(t); ev("bcast", d, none, none, js(&t, 1), rs(d)); break; }
        case 2: if (below(2)) R[d].copy_from(mem + off, tag); else R[d] = V(mem + off, tag); ev("load", d, none, ji({ off }), none, rs(d)); break;
        case 3: R[a].copy_to(mem + off, tag); ev("store", 0, ji({ a }), ji({ off }), none, js(mem + off, N)); break;
        case 4: if constexpr (!soft) { int st = range(1, 3); int o = below(L - (N - 1) * st); R[d] = V(mem + o, st); ev("gather", d, none, ji({ o, st }), none, rs(d)); } break;
        case 5: R[d] = -R[a]; ev("neg", d, ji({ a }), none, none, rs(d)); break;
        case 6: case 7: case 8: case 9: { static const char* nm[] = { "add", "sub", "mul", "div" }; int q = below(4); const V A = R[a], B = R[b]; R[d] = q == 0 ? A + B : q == 1 ? A - B : q == 2 ? A * B : A / B; ev(nm[q], d, ji({ a, b }), none, none, rs(d)); break; }
        case 10: { static const char* nm[] = { "add", "sub", "mul", "div" }; int q = below(4); const V B = R[b]; if constexpr (isVs<Abi>::value) { if (q == 0) q = 1; } if (q == 1) R[d] -= B; else if (q == 2) R[d] *= B; else if (q == 3) R[d] /= B; else if constexpr (!isVs<Abi>::value) R[d] += B; ev(nm[q], d, ji({ d, b }), none, none, rs(d)); break; }
        case 11: { static const char* nm[] = { "addsv", "subsv", "mulsv", "divsv", "addvs", "subvs", "mulvs", "divvs" }; int q = below(8); T t = gen<T>(); const V A = R[a]; V r; if (soft || 1) { if (q == 0) r = in::operator+(t, A); else if (q == 1) r = in::operator-(t, A); else if (q == 2) r = in::operator*(t, A); else if (q == 3) r = in::operator/(t, A); else if (q == 4) r = in::operator+(A, t); else if (q == 5) r = in::operator-(A, t); else if (q == 6) r = in::operator*(A, t); else r = in::operator/(A, t); } R[d] = r; ev(nm[q], d, ji({ a }), none, js(&t, 1), rs(d)); break; }
        case 12: case 13: { bool q = below(2); const V A = R[a], B = R[b]; K[k] = q ? A == B : A < B; ev(q ? "eq" : "lt", k, ji({ a, b }), none, none, ks(k)); break; }
        case 14: { bool z = below(2); K[k] = M(z); ev("mbcast", k, none, ji({ z }), none, ks(k)); break; }
        case 15: { int q = below(3); const M A = K[a], B = K[b]; K[k] = q == 0 ? (A && B) : q == 1 ? (A || B) : !A; ev(q == 0 ? "mand" : q == 1 ? "mor" : "mnot", k, ji({ a, b }), none, none, ks(k)); break; }
        case 16: rm(K[a]); ev("mallany", 0, ji({ a }), ji({ in::all_of(K[a]), in::any_of(K[a]) }), none, jb(bb, N)); break;
        case 17: R[d] = in::choose(K[k], R[a], R[b]); ev("select", d, ji({ a, b, k }), none, none, rs(d)); break;
        case 18: if constexpr (!soft) { T t = R[a].convert(); ev("lane0", 0, ji({ a }), none, none, js(&t, 1)); } break;
        case 19: if constexpr (!soft) { R[d] = in::sqrt(R[a]); ev("sqrt", d, ji({ a }), none, none, rs(d)); } break;
        case 20: if constexpr (!soft) if (curMode == 0) { T x[N], y[N], rr[2 * N]; rd(R[a]); memcpy(x, buf, sizeof x); rd(R[b]); memcpy(y, buf, sizeof y); for (int i = 0; i < N; i++) rr[i] = ccm::gen::pow_gen<T>(x[i], y[i]), rr[N + i] = rr[i]; R[d] = in::pow(R[a], R[b]); ev("powk", d, ji({ a, b }), none, js(rr, 2 * N), rs(d)); } break;
        default: { in::simd_storage<T, Abi> s(R[a]); T t = gen<T>(); int i = below(N); T o = s[i]; s[i] = t; s[i] = o; R[d] = V(s); ev("move", d, ji({ a }), none, none, rs(d)); }
        }
    }
    void session(int len) {
        mode(curMode);
        for (int i = 0; i < L; i++) mem[i] = gen<T>(); for (int i = 0; i < 4; i++) { T t[N]; for (int j = 0; j < N; j++) t[j] = gen<T>(); R[i].copy_from(t, tag); K[i] = M(i % 2 == 0); }
        start("intrin", letter<T>(), N, all(), allk(), js(mem, L));
        for (int i = 0; i < len; i++) { step(); if (i % 12 == 11) dump(); }
        dump(); mode(0); flushSession();
    }
    static void run(int len) { static IN m; m.session(len); }
};
template <class T, int N> using PV = PP<pp::basic_simd<T, std::conditional_t<N == 1, pp::ScalarAbi, pp::VecAbi<N>>>>;
typedef void (*Run)(int);
const Run fpRuns[] = { PV<float, 1>::run, PV<float, 4>::run, PV<float, 8>::run,
#if !V_INTRIN
    PV<float, 2>::run, PV<float, 16>::run,
#endif
    PV<double, 1>::run, PV<double, 2>::run, PV<double, 4>::run,
#if !V_INTRIN
    PV<double, 8>::run,
#endif
    IN<float, in::abi::scalar>::run, IN<double, in::abi::scalar>::run, IN<float, in::abi::pack<3>>::run, IN<double, in::abi::pack<5>>::run, IN<float, in::abi::pack<8>>::run,
#ifdef CCMATH_HAS_SIMD_SSE2
    IN<float, in::abi::sse2>::run, IN<double, in::abi::sse2>::run,
#endif
#ifdef CCMATH_HAS_SIMD_SSE4
    IN<float, in::abi::sse4>::run, IN<double, in::abi::sse4>::run,
#endif
#ifdef CCMATH_HAS_SIMD_AVX2
    IN<float, in::abi::avx2>::run, IN<double, in::abi::avx2>::run,
#endif
};
const Run intRuns[] = { PV<int32_t, 1>::run, PV<int32_t, 4>::run, PV<int32_t, 8>::run, PV<int64_t, 2>::run, PV<int64_t, 4>::run,
#if !V_INTRIN
    PV<int8_t, 16>::run, PV<uint8_t, 8>::run, PV<int16_t, 8>::run, PV<uint16_t, 4>::run, PV<uint32_t, 4>::run, PV<uint64_t, 2>::run, PV<uint64_t, 8>::run,
#endif
};
}
extern "C" __attribute__((visibility("default"))) int ccm_run(const char* file, const char* opts) {
    auto o = opt(opts);
    auto geti = [&](const char* k, int d) { return o.count(k) ? atoi(o[k].c_str()) : d; };
    if (!openOut(file)) return 2; path = o["path"]; string modes = o.count("modes") ? o["modes"] : "0123"; int first = geti("first", 0);
    const int nf = sizeof fpRuns / sizeof *fpRuns, ni = sizeof intRuns / sizeof *intRuns;
    for (int s = first; s < first + geti("sessions", 1); s++) for (int r = 0; r < nf + ni; r++) {
        uint64_t sd = geti("seed", 1) * 1000003ull + s; for (char c : path) sd = sd * 31 + c; seedr(sd * 1009 + r);
        curMode = r < nf ? (s % 2 ? modes[below(modes.size())] - '0' : 0) : 0; (r < nf ? fpRuns[r] : intRuns[r - nf])(geti("len", 60));
    }
    fclose(out); return 0;
}

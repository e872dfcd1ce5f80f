// Random calls of the helpers in ext/, over the integer and floating-point types; every call is recorded with its arguments and result.
//   ccm_run(OUT, "seed=S first=K sessions=N len=L")
#include "pre.h"
#include "rec.h"
#include <ccmath/ccmath.hpp>
#include <ccmath/ext/abs_diff.hpp>
#include <ccmath/ext/align.hpp>
#include <ccmath/ext/approximately.hpp>
#include <ccmath/ext/ceil_div.hpp>
#include <ccmath/ext/chgsign.hpp>
#include <ccmath/ext/clamp.hpp>
#include <ccmath/ext/cubic.hpp>
#include <ccmath/ext/degrees.hpp>
#include <ccmath/ext/delta_angle.hpp>
#include <ccmath/ext/fract.hpp>
#include <ccmath/ext/inverse_lerp.hpp>
#include <ccmath/ext/is_power_of_two.hpp>
#include <ccmath/ext/lerp_angle.hpp>
#include <ccmath/ext/lerp_smooth.hpp>
#include <ccmath/ext/mix.hpp>
#include <ccmath/ext/move_towards.hpp>
#include <ccmath/ext/move_towards_angle.hpp>
#include <ccmath/ext/normalize.hpp>
#include <ccmath/ext/ping_pong.hpp>
#include <ccmath/ext/radians.hpp>
#include <ccmath/ext/rcp.hpp>
#include <ccmath/ext/remap.hpp>
#include <ccmath/ext/repeat.hpp>
#include <ccmath/ext/saturate.hpp>
#include <ccmath/ext/sign.hpp>
#include <ccmath/ext/smoothstep.hpp>
#include <ccmath/ext/step.hpp>
#include <ccmath/ext/unlerp.hpp>
namespace {
namespace ex = ccm::ext; namespace sf = ccm::ext::safe;
void put(const char* o, string t, int n, int sg, string w, string r, std::initializer_list<long> y) {
    line("{\"k\":\"op\",\"o\":\"" + string(o) + "\",\"t\":\"" + t + "\",\"n\":" + std::to_string(n) + ",\"sg\":" + std::to_string(sg) + ",\"w\":[" + w + "],\"r\":" + r + ",\"y\":" + ji(y));
}
template <class T> struct Ints {
    static constexpr bool sg = std::is_signed_v<T>; static constexpr int n = 8 * sizeof(T); using U = std::make_unsigned_t<T>; static constexpr T mx = std::numeric_limits<T>::max(), mn = std::numeric_limits<T>::min();
    static string L(T v) { return v < 0 ? lim((uint64_t)0 - (uint64_t)(int64_t)v, true) : lim((uint64_t)v, false); }
    template <class... A> static void rec(const char* o, T r, std::initializer_list<long> y, A... a) { string w; ((w += (w.empty() ? "" : ",") + L(a)), ...); put(o, "i", n, sg, w, L(r), y); }
    static T any() { switch (below(7)) { case 0: return T(mx - T(below(4))); case 1: return T(mn + T(below(4))); case 2: return (T)((U)1 << below(n)); case 3: return T((U)1 << below(n)) - T(below(2) ? 1 : -1); case 4: return (T)below(20); case 5: return (T)((U)rnd() >> below(n)); default: return (T)rnd(); } }
    static T pos() { T v = any(); return v < 0 ? T(-(v + 1)) : v; }
    template <int K> static void al() {
        if constexpr (K < n - (sg ? 1 : 0)) {
            constexpr size_t A = (size_t)1 << K; T v = any(); if (below(3) == 0) v = (T)((U)v & ~(U)(A - 1)); bool up = below(2); U m = (U)(A - 1);
            if (up && v > T(mx - T(m))) return; rec("align", up ? (below(2) ? ex::align_up<T, A>(v) : ex::align<T, A, ex::AR::Direction::eUP>(v)) : (below(2) ? ex::align_down<T, A>(v) : ex::align<T, A, ex::AR::Direction::eDOWN>(v)), { K, !up }, v);
        }
    }
    static void step() {
        T a = any(), b = below(4) ? any() : T(a + T(below(2))), c = any();
        switch (below(8)) {
        case 0: { T h = a > b ? a : b, l = a > b ? b : a; if (sg && l < 0 && h > T(mx + l)) return; rec("abs_diff", ex::abs_diff(a, b), {}, a, b); break; }
        case 1: switch (below(7)) { case 0: al<0>(); break; case 1: al<1>(); break; case 2: al<3>(); break; case 3: al<6>(); break; case 4: al<12>(); break; case 5: al<n - 2>(); break; default: al<n - 1>(); } break;
        case 2: { a = pos(); b = pos(); bool s = below(2); if (!s && b == 0) b = 1; rec("ceil_div", s ? sf::ceil_div(a, b) : ex::ceil_div(a, b), { s }, a, b); break; }
        case 3: { int k = below(4); if (sg && k < 2 && a <= 0) a = pos(); bool r = k == 0 ? ex::is_power_of_two(a) : k == 1 ? ex::ispow2(a) : k == 2 ? sf::is_power_of_two(a) : sf::ispow2(a); rec("pow2", 0, { k >= 2, r }, a); break; }
        case 4: rec("sign", ex::sign(a), {}, a); break;
        case 5: rec("step", ex::step(a, b), {}, a, b); break;
        default: { T l = a < b ? a : b, h = a < b ? b : a; rec("clamp", ex::clamp(c, l, h), {}, c, l, h); }
        }
    }
};
template <class T> struct Flts {
    static constexpr int p = sizeof(T) == 4 ? 24 : sizeof(T) == 8 ? 53 : 64, emax = sizeof(T) == 4 ? 127 : sizeof(T) == 8 ? 1023 : 16383; static constexpr char t = sizeof(T) == 4 ? 'f' : sizeof(T) == 8 ? 'd' : 'l';
    static string L(T v) { uint8_t b[16] = {}; memcpy(b, &v, sizeof v); return limw(b, sizeof(T) == 16 ? 10 : sizeof(T)); }
    template <class... A> static void rec(const char* o, T r, std::initializer_list<long> y, A... a) { string w; ((w += (w.empty() ? "" : ",") + L(a)), ...); put(o, string(1, t), 0, 0, w, L(r), y); }
    static T number(int e0, int e1) {
        uint64_t m; switch (below(5)) { case 0: m = 0; break; case 1: m = ~0ull; break; case 2: m = rnd() & (rnd() >> below(64)); break; default: m = rnd(); }
        m = (m >> (65 - p)) | 1ull << (p - 1); T v = std::ldexp((T)m, range(e0, e1) - p + 1); return below(2) ? -v : v;
    }
    static T mid() { switch (below(8)) { case 0: return (T)range(-12, 12); case 1: return (T)range(-1000, 1000) / 4; case 2: return 0; case 3: { T v = (T)range(1, 12); return std::nextafter(below(2) ? v : -v, (T)range(-12, 12)); } default: return number(-18, 18); } }      // results of a few operations on these neither overflow nor underflow
    static T any() { switch (below(6)) { case 0: return mid(); case 1: return number(-emax - p + 1, -emax + 3); case 2: return number(emax - 4, emax); default: return number(-emax + 1, emax); } }
    static T posi() { return std::fabs(mid()); }
    static T near(T v) { if (v == 0) return (T)range(-2, 2); switch (below(5)) { case 0: return v; case 1: return std::nextafter(v, (T)1e30); case 2: return std::nextafter(v, (T)-1e30); default: return v * (T)range(-3, 3); } }
    static T unit() { switch (below(6)) { case 0: return 0; case 1: return 1; case 2: return (T)range(-8, 16) / 8; case 3: return number(-12, -1); case 4: return std::nextafter((T)1, (T)range(0, 2)); default: return std::fabs(number(-3, -1)); } }
    static T angle() { switch (below(5)) { case 0: return (T)(range(-8, 8) * 90); case 1: return near((T)(range(-4, 4) * 180)); case 2: return number(-10, 18); default: return (T)range(-72000, 72000) / 100; } }
    static void step() {
        T a = mid(), b = below(4) ? mid() : near(a), c = below(4) ? mid() : near(b); bool s = below(2); T lo = a < b ? a : b, hi = a < b ? b : a;
        switch (below(24)) {
        case 0: a = below(8) ? any() : std::numeric_limits<T>::infinity() * (below(2) ? 1 : -1); if (!below(9)) a = 0; rec("sign", ex::sign(a), {}, a); break;
        case 1: a = any(); b = below(3) ? any() : near(a); if (!below(20)) b = std::numeric_limits<T>::quiet_NaN(); rec("step", ex::step(a, b), {}, a, b); break;
        case 2: a = any(); b = below(9) ? any() : -(T)0 * (T)below(2); if (!below(20)) b = std::copysign(std::numeric_limits<T>::quiet_NaN(), (T)(below(2) ? 1 : -1)); rec("chgsign", ex::chgsign(a, b), {}, a, b); break;
        case 3: { a = any(); b = below(2) ? any() : near(a); c = below(2) ? any() : near(b); T l = a < b ? a : b, h = a < b ? b : a; if (below(2)) rec("clamp", ex::clamp(c, l, h), {}, c, l, h); else mixed(); break; }
        case 4: a = below(3) ? mid() : any(); if (below(2)) rec("saturate", ex::saturate(a), {}, a); else rec("saturate", ex::clamp(a), {}, a); break;
        case 5: { c = std::fabs(below(2) ? a - b : mid()); if (!below(3)) c = std::fabs(near(c)); put("approx", string(1, t), 0, 0, L(a) + "," + L(b) + "," + L(c), "[0]", { ex::approximately(a, b, c) }); break; }
        case 6: a = below(2) ? mid() : any(); rec("fract", ex::fract(a), {}, a); break;
        case 7: a = below(9) ? number(-emax + 3, emax - 3) : below(2) ? std::numeric_limits<T>::infinity() : (T)0; if (below(2)) a = -a; rec("rcp", ex::rcp(a), {}, a); break;
        case 8: a = number(-emax + 3, emax - 9); if (below(2)) a = mid(); if (below(2)) rec("degrees", ex::degrees(a), {}, a); else rec("radians", ex::radians(a), {}, a); break;
        case 9: case 10: { b = std::fabs(below(3) ? mid() : below(2) ? any() : (T)360); if (b == 0) { s = true; } int k = below(6); a = k == 0 ? mid() : k == 1 ? any() : k == 2 ? near(b * (T)range(-50, 50)) : k == 3 ? -number(-emax, -20) : b * number(-3, p - 2); if (!std::isfinite(a)) return; rec("repeat", s ? sf::repeat(a, b) : ex::repeat(a, b), { s }, a, b); break; }
        case 11: case 12: a = angle(); b = below(3) ? angle() : near(a + (T)(180 * range(-2, 2))); rec("delta", s ? sf::delta_angle(a, b) : ex::delta_angle(a, b), { s }, a, b); break;
        case 13: a = angle(); b = angle(); c = unit(); rec("lerpa", s ? sf::lerp_angle(a, b, c) : ex::lerp_angle(a, b, c), { s }, a, b, c); break;
        case 14: c = below(2) ? posi() : std::fabs(near(b - a)); if (below(4) == 0) { a = number(-emax, emax - 2); b = number(-emax, emax - 2); c = std::fabs(number(-emax, emax - 2)); } rec("move", ex::move_towards(a, b, c), {}, a, b, c); break;
        case 15: a = angle(); b = angle(); c = std::fabs(below(2) ? angle() : unit()); rec("movea", s ? sf::move_towards_angle(a, b, c) : ex::move_towards_angle(a, b, c), { s }, a, b, c); break;
        case 16: if (a == b) s = true; rec("unlerp", below(2) ? (s ? sf::unlerp(a, b, c) : ex::unlerp(a, b, c)) : (s ? sf::inverse_lerp(a, b, c) : ex::inverse_lerp(a, b, c)), { s }, a, b, c); break;
        case 17: if (lo == hi) s = true; if (!below(5)) { lo = 0; hi = 1; rec("normalize", s ? sf::normalize(c) : ex::normalize(c), { s }, c, lo, hi); } else rec("normalize", s ? sf::normalize(c, lo, hi) : ex::normalize(c, lo, hi), { s }, c, lo, hi); break;
        case 18: { T d = mid(), x = below(3) ? mid() : near(a); if (a == b) s = true; rec("remap", s ? sf::remap(a, b, c, d, x) : ex::remap(a, b, c, d, x), { s }, a, b, c, d, x); break; }
        case 19: if (lo == hi) return; if (!below(3)) c = std::fma(hi - lo, unit(), lo); rec("smooth", ex::smoothstep(lo, hi, c), {}, lo, hi, c); break;
        case 20: b = posi(); if (below(3) == 0) a = near(b * (T)range(-9, 9)); if (below(3) == 0) a = b * number(-3, 9); rec("ping", ex::ping_pong(a, b), {}, a, b); break;
        case 21: c = below(3) ? unit() : mid(); if (below(3)) rec("mix", ex::mix(a, b, c), {}, a, b, c); else { float f = (float)range(-99, 99); int i = range(-99, 99); c = (T)range(-8, 16) / 8; auto r = ex::mix(f, i, c); static_assert(std::is_same_v<decltype(r), T>); rec("mix", r, {}, (T)f, (T)i, c); } break;
        case 22: { T d = mid(), x = below(3) ? unit() : mid() / 1024; rec("cubic", ex::cubic(a, b, c, d, x), {}, a, b, c, d, x); break; }
        default: { T h = std::fabs(number(-6, 3)), q = below(4) ? std::fabs(number(-6, 3)) : below(2) ? (T)0 : h * (T)below(10); rec("lsmooth", ex::lerp_smooth(a, b, q, h), {}, a, b, q, h); }
        }
    }
    static void mixed() { int i = range(-1000, 1000); float f = (float)range(-4000, 4000) / 4; T x = below(2) ? (T)range(-4000, 4000) / 4 : mid(); if (x < i) { auto r = ex::clamp(f, x, i); static_assert(std::is_same_v<decltype(r), T>); rec("clamp", r, {}, (T)f, x, (T)i); } else { auto r = ex::clamp(f, i, x); rec("clamp", r, {}, (T)f, (T)i, x); } }
};
template <class T> void session(int len) { head = "{\"k\":\"start\",\"path\":\"" + path + "\""; for (int i = 0; i < len; i++) { if constexpr (std::is_integral_v<T>) Ints<T>::step(); else Flts<T>::step(); } flushSession(); }
typedef void (*Run)(int);
const Run runs[] = { session<float>, session<double>, session<long double>, session<float>, session<double>, session<int8_t>, session<uint8_t>, session<int16_t>, session<uint16_t>, session<int>, session<unsigned>, session<long>, session<unsigned long long> };
}
extern "C" __attribute__((visibility("default"))) int ccm_run(const char* file, const char* opts) {
    auto o = opt(opts); auto geti = [&](const char* k, int d) { return o.count(k) ? atoi(o[k].c_str()) : d; };
    if (!openOut(file)) return 2; path = o["path"]; int first = geti("first", 0); const int n = sizeof runs / sizeof *runs;
    for (int s = first; s < first + geti("sessions", 1); s++) for (int r = 0; r < n; r++) { uint64_t sd = geti("seed", 1) * 1000003ull + s; for (char c : path) sd = sd * 31 + c; seedr(sd * 1009 + r); runs[r](geti("len", 60)); }
    fclose(out); return 0;
}

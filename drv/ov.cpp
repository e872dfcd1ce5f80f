// Calls the overloads for integer and mixed arguments and the suffixed names, next to the floating-point functions.
//   ov LIB OUT path=NAME seed=S n=CALLS-PER-OVERLOAD modes=0123
#define SCAN_NO_MAIN
#include "scan.cpp"
#include "ov_abi.h"
static bool isFp(char t) { return t == 'f' || t == 'd' || t == 'l'; }
static int bitsOf(char t) { switch (t) { case 'b': return 1; case 'c': case 'C': return 8; case 's': case 'S': return 16; case 'i': case 'I': return 32; default: return 64; } }
static bool isUns(char t) { return t == 'b' || t == 'C' || t == 'S' || t == 'I' || t == 'J' || t == 'X'; }
static uint64_t fit(char t, uint64_t v) {
    int b = bitsOf(t); if (b == 64) return v; v &= (1ull << b) - 1; if (!isUns(t) && (v >> (b - 1) & 1)) v |= ~0ull << b; return v;
}
static uint64_t genInt(char t) {
    static const uint64_t sp[] = { 0, 1, 2, 3, 5, 7, 10, 127, 128, 255, 256, (uint64_t)-1, (uint64_t)-2, (uint64_t)-3, 0x7fff, 0x8000, 0xffff, 1u << 24, (1u << 24) + 1, (1u << 24) - 1, 0x7fffffff, 0x80000000u, 0xffffffffu, (uint64_t)-0x80000000ll,
        1ull << 53, (1ull << 53) + 1, (1ull << 53) - 1, (1ull << 54) + 2, ~0ull >> 1, 1ull << 63, (1ull << 63) + 1, (uint64_t)-2000, 1000, 20, 170, 171 };
    switch (below(8)) {
    case 0: case 1: case 2: return fit(t, sp[below(sizeof sp / sizeof *sp)]);
    case 3: case 4: return fit(t, (uint64_t)(int64_t)range(-12, 24));
    case 5: return fit(t, rnd() >> below(64));
    case 6: return fit(t, -(rnd() >> below(64)));
    default: return fit(t, (rnd() | 1ull << 63) >> below(64));
    }
}
static string ilimbs(uint64_t v, bool uns) {
    bool neg = !uns && (int64_t)v < 0; uint64_t m = neg ? 0 - v : v; if (!m) return "[0]"; string s = neg ? "[-1" : "[1"; while (m) { s += "," + std::to_string(m & 0x7fff); m >>= 15; } return s + "]";
}
template <class T> static Word cvtTo(char t, const Word& w) {
    Word r; memset(&r, 0, sizeof r); volatile T v;
    if (t == 'f') v = (T)w.f; else if (t == 'd') v = (T)w.d; else if (t == 'l') v = (T)w.l; else if (isUns(t)) { volatile uint64_t u = w.u[0]; v = (T)u; } else { volatile int64_t u = (int64_t)w.u[0]; v = (T)u; }
    T x = v; memcpy(r.raw, &x, sizeof(T) == 16 ? 10 : sizeof(T)); return r;
}
static Word cvt(char to, char t, const Word& w) { return to == 'f' ? cvtTo<float>(t, w) : to == 'd' ? cvtTo<double>(t, w) : cvtTo<LD>(t, w); }
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    for (int i = 3; i < argc; i++) { string s = argv[i]; auto p = s.find('='); if (p != string::npos) opt[s.substr(0, p)] = s.substr(p + 1); }
    void* h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    TableFn tf = (TableFn)dlsym(h, "ccm_table"); const OvEntry* (*of_)(int*) = (const OvEntry* (*)(int*))dlsym(h, "ccm_ov_table"); if (!tf || !of_) return 2;
    int cnt, ocnt; const Entry* T = tf(&cnt); const OvEntry* O = of_(&ocnt);
    for (char t : { 'f', 'd', 'l' }) { sp0[ti(t)] = specials(t, 0); sp1[ti(t)] = specials(t, 1); sp2[ti(t)] = specials(t, 2); }
    FILE* out = fopen(argv[2], "w"); if (!out) return 2;
    int n = geti("n", 6); string modes = opt.count("modes") ? opt["modes"] : "0123";
    for (int oi = 0; oi < ocnt; oi++) {
        const OvEntry& e = O[oi]; string ts = e.ts;
        string tj; for (int i = 0; i < e.na; i++) tj += string(i ? "," : "") + "\"" + ts[i] + "\"";
        if (!e.fn) { fprintf(out, "{\"k\":\"none\",\"g\":\"%s\",\"f\":\"%s\",\"ts\":[%s]}\n", e.name, e.base, tj.c_str()); continue; }
        uint64_t sd = geti("seed", 1) * 7919; for (const char* c = e.name; *c; c++) sd = sd * 1000003 + *c; for (char c : ts) sd = sd * 1000003 + c; for (char c : opt["path"]) sd = sd * 31 + c; seedr(sd);
        bool hn = !strncmp(e.base, "ldexp", 5) || !strncmp(e.base, "scalb", 5); string base = e.base; if (base == "hypot" && e.na == 3) base = "hypot3"; if (base == "max") base = "fmax"; if (base == "min") base = "fmin";
        for (int k = 0; k < n; k++) {
            Word a[3]; memset(a, 0, sizeof a); char mc = modes[below(modes.size())]; int m = mc - '0', nn = hn ? (below(3) ? range(-70, 70) : range(-1200, 1200)) : 0;
            for (int i = 0; i < e.na; i++) {
                if (!isFp(ts[i])) { a[i].u[0] = genInt(ts[i]); continue; }
                char t = ts[i]; switch (below(6)) { case 0: a[i] = sp2[ti(t)][below(sp2[ti(t)].size())]; break; case 1: a[i] = expRand(t, -30, 70); break; case 2: a[i] = of(t, range(-20, 40)); break; case 3: a[i] = of(t, range(-40, 80) * 0.25L); break; case 4: a[i] = expRand(t, -3, 5); break; default: a[i] = bitsRand(t); }
                int s; unsigned E; uint64_t Tt; parts(t, a[i], s, E, Tt); if (E == (1u << fmt(t).w) - 1 && Tt) a[i] = mk(t, 0, E, 1ull << (fmt(t).p - 2));
            }
            Out o; memset(&o, 0, sizeof o); prep(m); e.fn(a, nn, &o); prep(0);
            string rs = isFp(e.rt) ? limbs(e.rt, o.r[0]) : ilimbs(o.r[0].u[0], o.r[0].u[1]);
            string line = "{\"k\":\"call\",\"g\":\"" + string(e.name) + "\",\"f\":\"" + e.base + "\",\"ts\":[";
            line += tj; line += "],\"m\":" + std::to_string(m) + ",\"n\":" + std::to_string(nn) + ",\"a\":["; for (int i = 0; i < e.na; i++) line += (i ? "," : "") + (isFp(ts[i]) ? limbs(ts[i], a[i]) : ilimbs(a[i].u[0], isUns(ts[i])));
            line += "],\"rt\":\"" + string(1, e.rt) + "\",\"r\":" + rs + ",\"q\":" + std::to_string(o.q);
            for (char P : { 'f', 'd', 'l' }) {
                const Entry* be = nullptr; for (int i = 0; i < cnt; i++) if (base == T[i].name && T[i].t == P) be = &T[i]; if (!be) { fprintf(stderr, "no %s\n", base.c_str()); return 2; }
                Word b[3]; memset(b, 0, sizeof b); prep(m); for (int i = 0; i < e.na; i++) b[i] = base == "nexttoward" && i == 1 ? a[1] : cvt(P, ts[i], a[i]); prep(0);
                Out bo; memset(&bo, 0, sizeof bo); prep(m); be->fn(b, nn, &bo); prep(0);
                line += string(",\"r") + P + "\":{\"a\":["; for (int i = 0; i < e.na; i++) line += (i ? "," : "") + limbs(base == "nexttoward" && i == 1 ? 'l' : P, b[i]);
                line += "],\"r\":" + (be->nr ? limbs(P, bo.r[0]) : string("[0]")) + ",\"q\":" + std::to_string(bo.q) + "}";
            }
            fprintf(out, "%s}\n", line.c_str());
        }
    }
    fclose(out); return 0;
}

// Interpolation walks: fixed ends, parameters in ascending order.
//   lerp LIB OUT path=NAME seed=S walks=K len=L types=fdl modes=0123
#define SCAN_NO_MAIN
#include "scan.cpp"
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    for (int i = 3; i < argc; i++) { string s = argv[i]; auto p = s.find('='); if (p != string::npos) opt[s.substr(0, p)] = s.substr(p + 1); }
    void* h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    TableFn tf = (TableFn)dlsym(h, "ccm_table"); if (!tf) return 2; int cnt; const Entry* T = tf(&cnt);
    for (char t : { 'f', 'd', 'l' }) { sp0[ti(t)] = specials(t, 0); sp1[ti(t)] = specials(t, 1); sp2[ti(t)] = specials(t, 2); }
    string types = opt.count("types") ? opt["types"] : "fdl", modes = opt.count("modes") ? opt["modes"] : "0123", path = opt["path"];
    int K = geti("walks", 20), L = geti("len", 60); FILE* out = fopen(argv[2], "w"); if (!out) return 2;
    for (char t : types) for (char mc : modes) for (int k = 0; k < K; k++) {
        const Entry* e = nullptr; for (int i = 0; i < cnt; i++) if (!strcmp(T[i].name, "lerp") && T[i].t == t) e = &T[i]; if (!e) return 2;
        int kk = k + geti("first", 0); uint64_t sd = geti("seed", 1) * 7919 + kk; for (char c : path) sd = sd * 1000003 + c; seedr(sd * 31 + t * 4 + mc); const Fmt& F = fmt(t);
        auto fin = [&](Word w) { int s; unsigned E; uint64_t Tt; parts(t, w, s, E, Tt); return E == (1u << F.w) - 1 ? mk(t, s, E - 1, Tt) : w; };
        auto any = [&]() { unsigned c = below(10); return fin(c < 3 ? bitsRand(t) : c < 6 ? expRand(t, -20, 20) : c < 8 ? sp2[ti(t)][below(sp2[ti(t)].size())] : c < 9 ? mk(t, rnd() & 1, below(3), fracBits(t)) : mk(t, rnd() & 1, (1u << F.w) - 2 - below(2), fracBits(t))); };
        Word a = any(), b = any(); unsigned c = below(8);
        if (c == 0) b = fin(bump(t, a, range(-4, 4))); else if (c == 1) b = of(t, -val(t, a)); else if (c == 2) { int x = expoOf(t, a); b = fin(expRand(t, x - range(0, F.p + 2), x + range(0, F.p + 2))); } else if (c == 3) b = a; else if (c == 4) { int s; unsigned E; uint64_t Tt; parts(t, a, s, E, Tt); int s2; unsigned E2; uint64_t T2; parts(t, b, s2, E2, T2); b = mk(t, s, E2, T2); }
        vector<Word> ts; auto add = [&](Word w) { ts.push_back(fin(w)); }; auto addv = [&](LD x) { add(of(t, x)); };
        addv(0); add(mk(t, 1, 0, 0)); addv(1); for (int d = 1; d <= 2; d++) { add(bump(t, of(t, 1), d)); add(bump(t, of(t, 1), -d)); add(mk(t, d & 1, 0, d)); }
        addv(0.5L); addv(2); addv(-1); add(mk(t, 0, (1u << F.w) - 2, ~0ull)); add(mk(t, 1, (1u << F.w) - 2, ~0ull)); add(mk(t, 0, 1, 0)); add(bump(t, of(t, 0.5L), -1));
        while ((int)ts.size() < L) {
            unsigned q = below(10);
            if (q < 4) addv(uni()); else if (q < 5) addv(1 + ldexpl(uni() * 2 - 1, -range(0, F.p))); else if (q < 6) addv(ldexpl(uni(), -range(0, F.p + 4))); else if (q < 7) addv((uni() * 2 - 1) * ldexpl(1, range(0, 12))); else if (q < 8) add(bitsRand(t)); else { Word w = ts[below(ts.size())]; add(bump(t, w, range(-2, 2))); }
        }
        std::sort(ts.begin(), ts.end(), [&](const Word& x, const Word& y) { return val(t, x) < val(t, y); });
        int m = mc - '0';
        fprintf(out, "{\"k\":\"start\",\"p\":\"%s\",\"t\":\"%c\",\"m\":%d,\"id\":%d,\"len\":%d,\"a\":%s,\"b\":%s}\n", path.c_str(), t, m, kk, (int)ts.size(), limbs(t, a).c_str(), limbs(t, b).c_str());
        for (auto& w : ts) {
            Word x[3] = { a, b, w }; Out o; memset(&o, 0, sizeof o); prep(m); e->fn(x, 0, &o); prep(0);
            fprintf(out, "{\"k\":\"pt\",\"x\":%s,\"r\":%s}\n", limbs(t, w).c_str(), limbs(t, o.r[0]).c_str());
        }
    }
    fclose(out); return 0;
}

// Random sessions with one library variant: the program changes rounding mode, flags and errno between calls that
// come from a small pool, so that calls repeat after different histories.  Before a session each call of the pool is
// also made in a process of its own, from a clean environment, in each rounding mode ("fresh").
//   session LIB OUT path=NAME seed=S sessions=K len=L pool=P types=fdl [only=a,b]
#define SCAN_NO_MAIN
#include "scan.cpp"

static void setEnv(int m, int fl, int split, int en) {
    auto hw = [](int f) { return (unsigned)((f & 1) | ((f >> 1 & 1) << 2) | ((f >> 2 & 1) << 3) | ((f >> 3 & 1) << 4) | ((f >> 4 & 1) << 5)); };
    prep(m); int a = split & 1 ? fl : 0, b = split & 2 ? fl : 0; if (!a && !b) a = fl;
    _mm_setcsr(_mm_getcsr() | hw(a));
    if (b) { unsigned short env[14]; __asm__ volatile("fnstenv %0" : "=m"(env)); env[2] |= (unsigned short)hw(b); __asm__ volatile("fldenv %0" ::"m"(env)); }
    errno = en;
}
struct Envn { int m, fl, en, c0, c1; };
static const int codes[] = { 0, EDOM, ERANGE, E2BIG };
static Envn getEnv() {
    int e = errno; unsigned mx = _mm_getcsr(); unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); int fl = flagsNow();
    static const int rc[4] = { 0, 2, 1, 3 };      // hardware encoding -> rounding mode index (nearest, up, down, zero)
    int ms = rc[mx >> 13 & 3], mf = rc[cw >> 10 & 3];
    return { ms == mf ? ms : 9, fl, e == E2BIG ? 7 : errIx(e), (int)(mx & ~0x603fu), (int)(cw & ~0x0c00u) };
}
static string res(const Entry& e, const Out& o) {
    string s = "["; for (int i = 0; i < e.nr; i++) s += (i ? "," : "") + (isNaNw(e.t, o.r[i]) ? string("[-1]") : limbs(e.t, o.r[i])); return s + (e.nr ? "," : "") + "[" + std::to_string(o.q) + "]]";
}
static string ident(const Entry& e, const Ev& v) {
    string s = "\"f\":\"" + string(e.name) + "\",\"t\":\"" + e.t + "\",\"n\":" + std::to_string(v.n) + ",\"a\":[";
    for (int i = 0; i < e.na; i++) s += (i ? "," : "") + limbs((i == 1 && !strcmp(e.name, "nexttoward")) ? 'l' : e.t, v.a[i]); return s + "]";
}
static string S(int x) { return std::to_string(x); }

int main(int argc, char** argv) {
    if (argc < 3) return 2;
    for (int i = 3; i < argc; i++) { string s = argv[i]; auto p = s.find('='); if (p != string::npos) opt[s.substr(0, p)] = s.substr(p + 1); }
    void* h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    TableFn tf = (TableFn)dlsym(h, "ccm_table"); if (!tf) return 2; int cnt; const Entry* T = tf(&cnt);
    for (char t : { 'f', 'd', 'l' }) { sp0[ti(t)] = specials(t, 0); sp1[ti(t)] = specials(t, 1); sp2[ti(t)] = specials(t, 2); }
    string types = opt.count("types") ? opt["types"] : "fdl", only = opt.count("only") ? "," + opt["only"] + "," : "", path = opt["path"];
    vector<int> use; for (int i = 0; i < cnt; i++) if (types.find(T[i].t) != string::npos && (only.empty() || only.find("," + string(T[i].name) + ",") != string::npos)) use.push_back(i);
    int K = geti("sessions", 20), L = geti("len", 100), P = geti("pool", 8); uint64_t seed = geti("seed", 1); for (char c : path) seed = seed * 1000003 + c;
    FILE* out = fopen(argv[2], "w"); if (!out) return 2;
    for (int k = 0; k < K; k++) {
        seedr(seed * 7919 + geti("first", 0) + k);
        struct C { const Entry* e; Ev v; }; vector<C> pool;
        // the pool walks through the whole table as sessions go by, so that every function has its turn
        for (int i = 0; i < P; i++) { C c; memset(&c, 0, sizeof c); c.e = &T[use[((size_t)(geti("first", 0) + k) * (P / 2) + i) % use.size()]]; if (i >= P / 2) c.e = (rnd() & 1) ? pool[below(i)].e : &T[use[below(use.size())]];
            genArgs(*c.e, c.v.a, c.v.n); if (below(5) == 0 && c.e->na == 1) c.v.a[0] = sp2[ti(c.e->t)][below(sp2[ti(c.e->t)].size())];
            if (below(6) == 0) for (int j = 0; j < c.e->na; j++) { char t = j == 1 && !strcmp(c.e->name, "nexttoward") ? 'l' : c.e->t; c.v.a[j] = sp1[ti(t)][below(sp1[ti(t)].size())]; }
            pool.push_back(c); }
        vector<string> fresh;
        for (auto& c : pool) for (int m = 0; m < 4; m++) {
            int pp[2]; if (pipe(pp)) return 2; pid_t pid = fork();
            if (!pid) { alarm(20); Out o; memset(&o, 0, sizeof o); prep(m); c.e->fn(c.v.a, c.v.n, &o); prep(0); string s = res(*c.e, o); if (write(pp[1], s.c_str(), s.size()) < 0) _exit(3); _exit(0); }
            close(pp[1]); string got; char b[1024]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0) got.append(b, (size_t)n); close(pp[0]); int st; waitpid(pid, &st, 0);
            fresh.push_back("{\"k\":\"fresh\"," + ident(*c.e, c.v) + ",\"m\":" + S(m) + ",\"r\":" + (got.empty() ? "[[0]]" : got) + ",\"cr\":" + S(got.empty() ? 1 : 0) + "}");
        }
        int pp[2]; if (pipe(pp)) return 2; pid_t pid = fork();      // the session itself, in a process of its own
        if (!pid) {
            alarm(60); FILE* w = fdopen(pp[1], "w");
            int m = below(4), fl = below(32), en = codes[below(4)], sp = 1 + below(3);
            setEnv(m, fl, sp, en); Envn e = getEnv(); prep(0);
            fprintf(w, "{\"k\":\"start\",\"p\":\"%s\",\"len\":%d,\"m\":%d,\"fl\":%d,\"en\":%d,\"c\":[%d,%d],\"id\":%d}\n", path.c_str(), (int)fresh.size() + L, e.m, e.fl, e.en, e.c0, e.c1, (int)geti("first", 0) + k);
            for (auto& s : fresh) fprintf(w, "%s\n", s.c_str());
            // the environment lives in cur between calls; it is put in place just before and taken just after each step
            struct Hw { unsigned mx; unsigned short x87[14]; int en; } hw; 
            auto save = [&] { hw.en = errno; hw.mx = _mm_getcsr(); __asm__ volatile("fnstenv %0" : "=m"(hw.x87)); };
            auto restore = [&] { __asm__ volatile("fldenv %0" ::"m"(hw.x87)); _mm_setcsr(hw.mx); errno = hw.en; };
            setEnv(m, fl, sp, en); save(); prep(0);
            for (int i = 0; i < L; i++) {
                if (below(5) == 0) {
                    restore(); Envn c = getEnv(); prep(0); int what = below(4);
                    if (what == 0 || what == 3) m = below(4); else m = c.m == 9 ? 0 : c.m; fl = c.fl; en = c.en == 7 ? E2BIG : codes[c.en & 3]; sp = 1 + below(3);
                    if (what == 1) fl = below(3) ? below(32) : 0; if (what == 2 || what == 3) en = codes[below(4)];
                    setEnv(m, fl, sp, en); c = getEnv(); save(); prep(0);
                    fprintf(w, "{\"k\":\"env\",\"m\":%d,\"fl\":%d,\"en\":%d,\"c\":[%d,%d]}\n", c.m, c.fl, c.en, c.c0, c.c1);
                } else {
                    C& c = pool[below(pool.size())]; Out o; memset(&o, 0, sizeof o); Word a[3]; memcpy(a, c.v.a, sizeof a);
                    restore(); Envn b = getEnv(); c.e->fn(a, c.v.n, &o); Envn z = getEnv(); save(); prep(0);
                    fprintf(w, "{\"k\":\"call\",%s,\"r\":%s,\"m0\":%d,\"m1\":%d,\"fl0\":%d,\"fl1\":%d,\"en0\":%d,\"en1\":%d,\"c0\":[%d,%d],\"c1\":[%d,%d]}\n", ident(*c.e, c.v).c_str(), res(*c.e, o).c_str(), b.m, z.m, b.fl, z.fl, b.en, z.en, b.c0, b.c1, z.c0, z.c1);
                }
            }
            fclose(w); _exit(0);
        }
        close(pp[1]); string got; char b[65536]; ssize_t n; while ((n = read(pp[0], b, sizeof b)) > 0) got.append(b, (size_t)n); close(pp[0]); int st; waitpid(pid, &st, 0);
        int lines = 0; for (char c : got) lines += c == '\n'; int want = (int)fresh.size() + L + 1;
        if (lines != want) {       // it died: keep what there is and say so
            size_t cut = got.rfind('\n'); got.resize(cut == string::npos ? 0 : cut + 1); lines = 0; for (char c : got) lines += c == '\n';
            if (!lines) got = "{\"k\":\"start\",\"p\":\"" + path + "\",\"len\":1,\"m\":0,\"fl\":0,\"en\":0,\"c\":[0,0],\"id\":" + S((int)geti("first", 0) + k) + "}\n"; else { size_t p = got.find("\"len\":"); size_t q = got.find(',', p); got.replace(p + 6, q - p - 6, S(lines)); }
            got += "{\"k\":\"died\",\"status\":" + S(st) + "}\n";
        }
        fputs(got.c_str(), out);
    }
    fclose(out); return 0;
}

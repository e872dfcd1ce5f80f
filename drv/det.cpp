// Calls every function of several builds of the library on the same arguments and records what each returned.
//   det LIB,LIB,.. OUT names=A,B,.. fn= types= n= keep=DIFFERING-CALLS rnd=RANDOM-SAMPLE st=STRUCTURED seed=
#define SCAN_NO_MAIN
#include "scan.cpp"
static vector<string> split(const string& s) { vector<string> r; size_t i = 0; while (i <= s.size()) { size_t j = s.find(',', i); if (j == string::npos) j = s.size(); r.push_back(s.substr(i, j - i)); i = j + 1; } return r; }
static vector<Ev> structured(const Entry& e) {
    vector<Ev> S; auto& A = sp2[ti(e.t)]; auto& B = sp1[ti(e.t)]; auto& C = sp0[ti(e.t)]; const string f = e.name;
    static const int ns[] = { 0, 1, -1, 64, -64, 127, -149, -150, 1023, -1022, -1074, 2098, -2098, 16445, -16445, 100000, -100000, INT32_MAX, INT32_MIN };
    if (e.na == 1 && !e.hasn) for (auto& x : A) S.push_back(Ev{ { x }, 0, 0 });
    else if (e.na == 1) { for (auto& x : B) for (int k : ns) S.push_back(Ev{ { x }, k, 0 }); }
    else if (e.na == 2) { auto& Y = f == "nexttoward" ? sp1[2] : B; for (auto& x : B) for (auto& y : Y) S.push_back(Ev{ { x, y }, 0, 0 }); }
    else for (auto& x : C) for (auto& y : C) for (auto& z : C) S.push_back(Ev{ { x, y, z }, 0, 0 });
    return S;
}
int main(int argc, char** argv) {
    if (argc < 3) return 2;
    for (int i = 3; i < argc; i++) { string s = argv[i]; auto p = s.find('='); if (p != string::npos) opt[s.substr(0, p)] = s.substr(p + 1); }
    vector<string> L = split(argv[1]), nm = split(opt["names"]); vector<const Entry*> T; int cnt = 0;
    for (auto& l : L) { void* h = dlopen(l.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; } TableFn tf = (TableFn)dlsym(h, "ccm_table"); if (!tf) return 2; T.push_back(tf(&cnt)); }
    for (char t : { 'f', 'd', 'l' }) { sp0[ti(t)] = specials(t, 0); sp1[ti(t)] = specials(t, 1); sp2[ti(t)] = specials(t, 2); }
    string types = opt.count("types") ? opt["types"] : "fdl", fns = "," + opt["fn"] + ",", o = argv[2]; long seed = geti("seed", 1), N = geti("n", 1000), keep = geti("keep", 20), rn = geti("rnd", 10), st = geti("st", 50), jobs = geti("jobs", 8), tmo = geti("tmo", 300);
    auto result = [&](size_t k, int ix, const Ev& v) { Out r; memset(&r, 0, sizeof r); Word a[3]; memcpy(a, v.a, sizeof a); prep(0); T[k][ix].fn(a, v.n, &r); return r; };
    auto event = [&](int ix, const Ev& v) {
        const Entry& e = T[0][ix]; string s = "{\"f\":\"" + string(e.name) + "\",\"t\":\"" + e.t + "\",\"m\":0,\"a\":[";
        for (int i = 0; i < e.na; i++) s += (i ? "," : "") + limbs((i == 1 && !strcmp(e.name, "nexttoward")) ? 'l' : e.t, v.a[i]);
        s += "],\"n\":" + std::to_string(v.n) + ",\"rs\":[";
        for (size_t k = 0; k < T.size(); k++) { Out r = result(k, ix, v); s += string(k ? "," : "") + "{\"p\":\"" + nm[k] + "\",\"r\":["; for (int i = 0; i < e.nr; i++) s += (i ? "," : "") + limbs(e.t, r.r[i]); s += "],\"q\":" + std::to_string(r.q) + "}"; }
        return s + "]}";
    };
    vector<int> todo; for (int i = 0; i < cnt; i++) if ((fns == ",all," || fns.find("," + string(T[0][i].name) + ",") != string::npos) && types.find(T[0][i].t) != string::npos) todo.push_back(i);
    unsigned long long total = 0; size_t next = 0, live = 0; std::map<pid_t, int> who; bool bad = false;
    while (next < todo.size() || live) {
        while (next < todo.size() && (long)live < jobs) {
            int ix = todo[next++]; pid_t p = fork();
            if (!p) {
                alarm(tmo); FILE* f = fopen((o + "." + std::to_string(ix) + ".part").c_str(), "w"); const Entry& e = T[0][ix];
                uint64_t sd = seed; for (const char* c = e.name; *c; c++) sd = sd * 1000003 + *c; sd = sd * 31 + e.t; seedr(sd);
                vector<Ev> S = structured(e), diff, pick; long nd = 0;
                auto eval = [&](const Ev& v) { Out r0 = result(0, ix, v); for (size_t k = 1; k < T.size(); k++) { Out r = result(k, ix, v); bool d = r.q != r0.q; for (int i = 0; i < e.nr; i++) d |= !same(e.t, r0.r[i], r.r[i]); if (d) { nd++; if ((long)diff.size() < keep) diff.push_back(v); return; } } };
                for (auto& v : S) eval(v);
                if ((long)S.size() > st) { for (size_t i = 0; i < S.size(); i++) std::swap(S[i], S[i + below(S.size() - i)]); S.resize(st); }
                for (long i = 0; i < N; i++) { Ev v; memset(&v, 0, sizeof v); genArgs(e, v.a, v.n); eval(v); if ((long)pick.size() < rn) pick.push_back(v); else if (rn) { uint64_t j = rnd() % (uint64_t)(i + 1); if (j < (uint64_t)rn) pick[j] = v; } }
                for (auto* Q : { &diff, &S, &pick }) for (auto& v : *Q) fprintf(f, "%s\n", event(ix, v).c_str());
                fclose(f); _exit(0);
            }
            who[p] = ix; live++;
        }
        int stt; pid_t p = wait(&stt); live--; if (!(WIFEXITED(stt) && WEXITSTATUS(stt) == 0)) { fprintf(stderr, "%s %c: status %d\n", T[0][who[p]].name, T[0][who[p]].t, stt); bad = true; }
    }
    FILE* out = fopen(o.c_str(), "w");
    for (int ix : todo) { string p = o + "." + std::to_string(ix) + ".part"; FILE* f = fopen(p.c_str(), "r"); if (!f) continue; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) fwrite(b, 1, k, out); fclose(f); unlink(p.c_str()); total += (unsigned long long)N; }
    fclose(out); printf("evals=%llu\n", total * L.size()); return bad ? 3 : 0;
}

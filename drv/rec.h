// What the recorders of sessions share: a generator of random numbers, numbers as limbs, and sessions written with the number of their events.
#pragma once
#include <csignal>
#include <map>
#include <sstream>
#include <unistd.h>
namespace {
using std::string; typedef __int128 I128;
uint64_t S[2];
uint64_t rnd() { uint64_t a = S[0], b = S[1]; S[0] = b; a ^= a << 23; S[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return S[1] + b; }
int below(int n) { return (int)((rnd() >> 11) % (uint64_t)n); }
int range(int a, int b) { return a + below(b - a + 1); }
void seedr(uint64_t s) { auto nx = [&] { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }; S[0] = nx(); S[1] = nx(); }
string lim(uint64_t m, bool neg) { if (!m) return "[0]"; string s = neg ? "[-1" : "[1"; while (m) { s += "," + std::to_string(m & 0x7fff); m >>= 15; } return s + "]"; }
string limw(const uint8_t* p, int n) { while (n && !p[n - 1]) n--; if (!n) return "[0]"; string s = "[1"; int b = n * 8; for (int i = 0; i < b; i += 15) { uint32_t w = 0; for (int j = 0; j < 4; j++) if (i / 8 + j < n) w |= (uint32_t)p[i / 8 + j] << (8 * j); w = (w >> (i % 8)) & 0x7fff; if (!w) { bool more = false; for (int q = (i + 15) / 8; q < n; q++) if (q > (i + 15) / 8 ? p[q] : p[q] >> ((i + 15) % 8)) more = true; if (!more) break; } s += "," + std::to_string(w); } return s + "]"; }   // little endian bytes
string ji(std::initializer_list<long> l) { string s = "["; for (long x : l) s += (s.size() > 1 ? "," : "") + std::to_string(x); return s + "]"; }
void mode(int m) { static const int R[4] = { FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO }; fesetround(R[m]); }
FILE* out; string path;
// one session: its head is written once the number of its events is known; a session that dies says so in its last event
string head, body; int count;
void flushSession() { if (head.empty()) return; fprintf(out, "%s,\"len\":%d}\n%s", head.c_str(), count, body.c_str()); head.clear(); body.clear(); count = 0; }
void died(int sg) { signal(sg, SIG_DFL); body += "{\"k\":\"died\"}\n"; count++; flushSession(); fflush(out); _exit(0); }
void line(const string& s) { body += s + "}\n"; count++; }
std::map<string, string> opt(const char* opts) { std::map<string, string> o; std::istringstream is(opts); string w; while (is >> w) { auto p = w.find('='); if (p != string::npos) o[w.substr(0, p)] = w.substr(p + 1); } return o; }
bool openOut(const char* file) { out = fopen(file, "w"); for (int g : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT }) signal(g, died); return out; }
}

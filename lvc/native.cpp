// Native run time of the contract primitives: random search and replay on the real code.
#include "vf.hpp"
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cmath>
#include <chrono>
#include <exception>
#include <unistd.h>
#include <sys/time.h>
typedef std::string S;
struct VfSkip {}; 
static std::vector<std::pair<S, void(*)()>>& regs() { static std::vector<std::pair<S, void(*)()>> r; return r; }
VfReg::VfReg(const char* n, void(*f)()) { regs().push_back({n, f}); }
static std::map<S, uint64_t> given; static bool replaying = false;
static std::map<S, uint64_t> used; static std::vector<S> order;
static std::vector<uint64_t> dict;
static uint64_t rs; static int profile;
static const char* outfile = 0; static S curvc; static bool throw_ok;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static void dump(const char* why) {
  static bool done = false; if(done) return; done = true;
  printf("FAIL %s: %s\n", curvc.c_str(), why);
  if(outfile) {
    FILE* f = fopen(outfile, "w");
    fprintf(f, "vc %s\nwhy %s\n", curvc.c_str(), why);
    for(auto& k : order) fprintf(f, "in %s %llu\n", k.c_str(), (unsigned long long)used[k]);
    fclose(f);
  }
  fflush(stdout);
}
static void onsig(int s) { dump(s == SIGALRM ? "does not return within the time limit" : s == SIGABRT ? "abort (assertion or sanitizer)" : "fatal signal (undefined behaviour)"); _exit(3); }
extern "C" void __ubsan_on_report() {}
static uint64_t gen(int bits) {
  uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1, v;
  switch(rnd() % (profile == 0 ? 10 : profile == 1 ? 3 : 14)) {
    case 0: v = rnd() % 17; break;
    case 1: v = m - rnd() % 17; break;
    case 2: { uint64_t p = 1ull << (rnd() % bits); v = p + (rnd() % 3) - 1; break; }
    case 3: v = dict.empty() ? rnd() : dict[rnd() % dict.size()] + (rnd() % 3) - 1; break;
    case 4: v = rnd() >> (rnd() % bits); break;
    case 5: v = ~(rnd() >> (rnd() % bits)); break;
    default: v = rnd();
  }
  return v & m;
}
static uint64_t fetch(const char* n, uint64_t i, int bits, bool ranged = false, uint64_t lo = 0, uint64_t hi = 0) {
  S k = S(n) + "[" + std::to_string(i) + "]";
  auto it = used.find(k); if(it != used.end()) return it->second;
  uint64_t v;
  auto g = given.find(k);
  if(g != given.end()) v = g->second;
  else if(replaying) v = ranged ? lo : 0;
  else if(ranged) {
    uint64_t w = hi - lo; 
    switch(rnd() % 6) {
      case 0: v = lo + (w ? rnd() % (w < 16 ? w + 1 : 16) : 0); break;
      case 1: v = hi - (w ? rnd() % (w < 16 ? w + 1 : 16) : 0); break;
      case 2: v = gen(64); if(v - lo > w) v = w == ~0ull ? rnd() : lo + rnd() % (w + 1); break;
      default: v = w == ~0ull ? rnd() : lo + rnd() % (w + 1);
    }
  } else v = gen(bits);
  used[k] = v; order.push_back(k);
  return v;
}
extern "C" {
uint8_t vf_nd8(const char* n, uint64_t i) { return fetch(n, i, 8); }
uint16_t vf_nd16(const char* n, uint64_t i) { return fetch(n, i, 16); }
uint32_t vf_nd32(const char* n, uint64_t i) { return fetch(n, i, 32); }
uint64_t vf_nd64(const char* n, uint64_t i) { return fetch(n, i, 64); }
bool vf_ndbool(const char* n, uint64_t i) { return fetch(n, i, 1) & 1; }
static double genf(int bits) {
  switch(rnd() % 8) {
    case 0: return 0; case 1: return (double)(int64_t)(rnd() % 41) - 20; case 2: return ldexp(1.0, (int)(rnd() % 100) - 50);
    case 3: return (double)(rnd() % 1000) / 999; case 4: return -ldexp((double)(rnd() >> 11), (int)(rnd() % 60) - 80);
    case 5: return ldexp((double)(rnd() >> 11), (int)(rnd() % 60) - 80);
    case 6: return (rnd() >> 11) * 0x1p-53; default: return ldexp((double)(rnd() >> 11), (int)(rnd() % (bits == 64 ? 1800 : 200)) - (bits == 64 ? 950 : 150));
  }
}
double vf_ndf64(const char* n, uint64_t i) {
  S k = S(n) + "[" + std::to_string(i) + "]";
  if(!used.count(k) && !replaying && !given.count(k)) { double d = genf(64); uint64_t b; memcpy(&b, &d, 8); used[k] = b; order.push_back(k); }
  uint64_t b = fetch(n, i, 64); double d; memcpy(&d, &b, 8); return d; }
float vf_ndf32(const char* n, uint64_t i) {
  S k = S(n) + "[" + std::to_string(i) + "]";
  if(!used.count(k) && !replaying && !given.count(k)) { float d = (float)genf(32); uint32_t b; memcpy(&b, &d, 4); used[k] = b; order.push_back(k); }
  uint32_t b = fetch(n, i, 32); float d; memcpy(&d, &b, 4); return d; }
uint64_t vf_in64(const char* n, uint64_t i, uint64_t lo, uint64_t hi) { if(lo > hi) throw VfSkip(); uint64_t v = fetch(n, i, 64, true, lo, hi); if(v < lo || v > hi) throw VfSkip(); return v; }
uint32_t vf_in32(const char* n, uint64_t i, uint32_t lo, uint32_t hi) { if(lo > hi) throw VfSkip(); uint64_t v = fetch(n, i, 32, true, lo, hi); if(v < lo || v > hi) throw VfSkip(); return (uint32_t)v; }
int64_t vf_sin64(const char* n, uint64_t i, int64_t lo, int64_t hi) { if(lo > hi) throw VfSkip(); int64_t v = (int64_t)fetch(n, i, 64, true, (uint64_t)lo, (uint64_t)hi); if(v < lo || v > hi) throw VfSkip(); return v; }
int32_t vf_sin32(const char* n, uint64_t i, int32_t lo, int32_t hi) { if(lo > hi) throw VfSkip(); int64_t v = (int64_t)fetch(n, i, 32, true, (uint64_t)(int64_t)lo, (uint64_t)(int64_t)hi); if((int32_t)v < lo || (int32_t)v > hi) throw VfSkip(); return (int32_t)v; }
void vf_assume(bool b) { if(!b) throw VfSkip(); }
void vf_assert(bool b, const char* n) { if(!b) { dump(n); _exit(3); } }
void vf_check(bool b, const char* n) { vf_assert(b, n); }
void vf_cut64(uint64_t a, uint64_t b, const char* n) { vf_assert(a == b, n); }
void vf_cutf64(double a, double b, const char* n) { vf_assert(a == b, n); }
void vf_cutf32(float a, float b, const char* n) { vf_assert(a == b, n); }
void vf_cover(const char*) {}
uint64_t vf_uf64(const char* s, uint64_t n, uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
  uint64_t h = 1469598103934665603ull; for(; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  uint64_t v[4] = {a, b, c, d};
  for(uint64_t i = 0; i < n && i < 4; ++i) { h ^= v[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; }
  return h; }
void vf_replace(const char*, const void*) {}
void vf_replace_rec(const char*, const void*) {}
void vf_loop_inv(const char*, const void*, const void*) {}
void vf_loop_cand(const char*, const void*, const void*) {}
void vf_loop_abstract(const char*) {}
void vf_clear() {}
void vf_unroll(uint32_t) {}
void vf_throw_ok(bool b) { throw_ok = b; }
void vf_havoc(void*, uint64_t) {}
bool vf_symbolic() { return false; }
void vf_print(const char* n, uint64_t v) { if(replaying) printf("  %s = %llu\n", n, (unsigned long long)v); }
}
// returns 0 completed, 1 skipped
static int once(void(*f)()) {
  used.clear(); order.clear(); throw_ok = false;
  try { f(); return 0; }
  catch(VfSkip&) { return 1; }
  catch(std::exception& e) { if(throw_ok) return 0; dump((S("unexpected exception: ") + e.what()).c_str()); _exit(3); }
  catch(...) { if(throw_ok) return 0; dump("unexpected exception"); _exit(3); }
}
int main(int argc, char** argv) {
  // native VC --replay FILE | VC --search SECONDS SEED MAXITER [--out FILE] [--dict FILE]
  S vc = argv[1]; void(*f)() = 0;
  for(auto& r : regs()) if(r.first == vc) f = r.second;
  if(!f) { fprintf(stderr, "no such vc\n"); return 2; }
  curvc = vc;
  double secs = 1; uint64_t seed = 1, maxit = 1000000; 
  for(int i = 2; i < argc; ++i) {
    S a = argv[i];
    if(a == "--replay") { replaying = true; FILE* g = fopen(argv[++i], "r"); if(!g) return 2; char l[4096];
      while(fgets(l, sizeof l, g)) { char k[2048]; unsigned long long v; if(sscanf(l, "in %2000s %llu", k, &v) == 2) given[k] = v; } fclose(g); }
    else if(a == "--search") { secs = atof(argv[i+1]); seed = strtoull(argv[i+2], 0, 10); maxit = strtoull(argv[i+3], 0, 10); i += 3; }
    else if(a == "--out") outfile = argv[++i];
    else if(a == "--dict") { FILE* g = fopen(argv[++i], "r"); unsigned long long v; while(g && fscanf(g, "%llu", &v) == 1) dict.push_back(v); if(g) fclose(g); }
  }
  signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGSEGV, onsig); signal(SIGILL, onsig); signal(SIGALRM, onsig); signal(SIGBUS, onsig); signal(SIGTRAP, onsig);
  if(replaying) { alarm(60); int r = once(f); printf("PASS completed=%d\n", r == 0); return 0; }
  auto t0 = std::chrono::steady_clock::now(); uint64_t n = 0, done = 0;
  double el = 0;
  for(; n < maxit; ++n) {
    if((n & 15) == 0) { el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); if(el > secs) break; }
    rs = seed * 0x9E3779B97F4A7C15ull + n * 0xBF58476D1CE4E5B9ull + 12345; if(!rs) rs = 1; for(int i = 0; i < 4; ++i) rnd();
    profile = n % 3; alarm(60);
    if(once(f) == 0) ++done;
  }
  printf("PASS runs=%llu completed=%llu\n", (unsigned long long)n, (unsigned long long)done);
  return 0;
}

// Contract primitives.  A contract file includes the real headers of /repo and states, as C++,
// Hoare triples over the real functions:  nondeterministic inputs (vf_nd*), requires (vf_assume),
// calls of the real code, ensures (vf_assert).  Compiled to LLVM IR the primitives are interpreted
// by the verifier (lvc); compiled natively they run on concrete inputs (replay and search).
#ifndef VF_HPP
#define VF_HPP
#include <cstdint>
#include <cstddef>
extern "C" {
uint8_t  vf_nd8 (const char*, uint64_t idx);
uint16_t vf_nd16(const char*, uint64_t idx);
uint32_t vf_nd32(const char*, uint64_t idx);
uint64_t vf_nd64(const char*, uint64_t idx);
bool     vf_ndbool(const char*, uint64_t idx);
double   vf_ndf64(const char*, uint64_t idx);
float    vf_ndf32(const char*, uint64_t idx);
uint64_t vf_in64(const char*, uint64_t idx, uint64_t lo, uint64_t hi);
uint32_t vf_in32(const char*, uint64_t idx, uint32_t lo, uint32_t hi);
int64_t  vf_sin64(const char*, uint64_t idx, int64_t lo, int64_t hi);
int32_t  vf_sin32(const char*, uint64_t idx, int32_t lo, int32_t hi);
void vf_assume(bool);
void vf_assert(bool, const char*);      // obligation, then known
void vf_check(bool, const char*);       // obligation only
void vf_cut64(uint64_t, uint64_t, const char*);   // obligation a == b; then the value a in memory is replaced by b
void vf_cutf64(double, double, const char*); void vf_cutf32(float, float, const char*);
void vf_cover(const char*);             // must be reachable
uint64_t vf_uf64(const char*, uint64_t n, uint64_t a, uint64_t b, uint64_t c, uint64_t d);
void vf_replace(const char* regex, const void* fn);   // use a contract body instead of functions matching regex
void vf_replace_rec(const char* regex, const void* fn);   // contract for calls made while a matching function is active (recursion)
void vf_loop_inv(const char* regex, const void* fn, const void* ctx); // invariant bool(*)(ctx, iteration)
void vf_loop_cand(const char* regex, const void* fn, const void* ctx); // invariant for those loops where it holds (tried, dropped if not inductive)
void vf_loop_abstract(const char* regex);   // loops in matching functions: by invariant, not unrolling
void vf_clear();
void vf_unroll(uint32_t);
void vf_throw_ok(bool);                 // from here an exception is allowed iff the argument holds
void vf_havoc(void*, uint64_t n);
bool vf_symbolic();                     // true under the verifier, false natively
void vf_print(const char*, uint64_t);
}
#ifdef VF_NATIVE
struct VfReg { VfReg(const char*, void(*)()); };
#define VC(prop, name, opts) extern "C" void vc_##prop##_##name(); \
  static VfReg vfreg_##prop##_##name(#prop "_" #name, vc_##prop##_##name); \
  extern "C" void vc_##prop##_##name()
#else
#define VC(prop, name, opts) extern "C" __attribute__((used)) const char vcopt_##prop##_##name[] = opts; \
  extern "C" void vc_##prop##_##name()
#endif
#endif

// Uniform integers: D01 (range), D02 (exact uniformity), D03 (uniform_smallint), and the same through the wrappers.
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/random_number_generator.hpp>
#include "vf_ghost.hpp"
using namespace boost::random;
typedef unsigned __int128 u128;
// The documented method as an automaton over the engine's values u in [0, B): with N = range + 1,
//   while mult*B <= N one value is the next base-B digit;  an exact power of B is the result itself;
//   then one uniform value inc in [0, range/mult] (u div floor(B / (range/mult + 1)), redrawn when too big)
//   gives low + inc*mult, redrawn in full when it exceeds range.
// Uniformity of this map is the content of the lemma contracts below.
static struct UI { uint64_t range, B1, phase, mult, low, q, bucket, value, exact; } ui;
static uint64_t bucket_of(uint64_t B1, uint64_t q) { return (uint64_t)(((u128)B1 + 1) / ((u128)q + 1)); }
static void ui_start(uint64_t range, uint64_t B1) {
  ui.range = range; ui.B1 = B1; ui.mult = 1; ui.low = 0; ui.value = 0; ui.exact = 0;
  if(range == 0) { ui.phase = 2; return; }
  if(B1 >= range) { ui.phase = 3; ui.q = range; ui.bucket = bucket_of(B1, range); } else { ui.phase = 0; ui.q = 0; ui.bucket = 1; }
}
static void ui_inc(uint64_t inc) {
  u128 v = ui.low + (u128)inc * ui.mult;
  if(v <= ui.range) { ui.value = (uint64_t)v; ui.phase = 2; } else { ui.mult = 1; ui.low = 0; ui.phase = 0; ui.q = 0; ui.bucket = 1; }
}
static void ui_digit(uint64_t u) {
  if(ui.phase == 0) {
    u128 N = (u128)ui.range + 1, M = (u128)ui.mult * ((u128)ui.B1 + 1);
    ui.low += u * ui.mult;
    if(M == N) { ui.value = ui.low; ui.phase = 2; return; }
    ui.mult = (uint64_t)M;
    if(M * ((u128)ui.B1 + 1) > N) { ui.phase = 1; ui.q = ui.range / ui.mult; ui.bucket = bucket_of(ui.B1, ui.q); }
  } else { uint64_t inc = u / ui.bucket; if(inc <= ui.q) { if(ui.phase == 3) { ui.value = inc; ui.phase = 2; } else ui_inc(inc); } }
}
template<class T, T lo, T hi> struct UEng : GEng<T, lo, hi, 50> {
  typedef GEng<T, lo, hi, 50> B;
  T operator()() {
    T v = B::operator()(); typedef typename boost::make_unsigned<T>::type U;
    vf_assert(ui.phase != 2, "no engine value is drawn once the result is determined");
    ui_digit((U)((U)v - (U)lo));
    return v;
  }
};
template<class G, class R> R ui_rec(G* g, R mn, R mx) {      // contract of the inner call: uniform on [0, range/mult], range/mult < B
  vf_assert(mn == 0 && (uint64_t)mx == ui.q && ui.phase == 1 && (uint64_t)mx <= ui.B1, "the last digit is drawn from [0, range/mult], below the engine range");
  uint64_t inc = vf_uf64("inc", 2, g->id, g->k, 0, 0); vf_assume(inc <= ui.q); g->k++;
  ui_inc(inc); return (R)inc;
}
enum Via { DIST, PARAM, OLD, RNG };
template<class T, T lo, T hi, class R> void uint_vc(bool range_only, uint64_t rlo, uint64_t rhi, Via via = DIST) {
  typedef UEng<T, lo, hi> G; typedef typename boost::make_unsigned<T>::type U; typedef typename boost::make_unsigned<R>::type UR;
  uint64_t range = vf_in64("range", 0, rlo, rhi < (uint64_t)(UR)~UR(0) ? rhi : (uint64_t)(UR)~UR(0));
  R a; 
  if(vf_symbolic()) { a = (R)(UR)vf_nd64("a", 0); vf_assume((uint64_t)(UR)((UR)std::numeric_limits<R>::max() - (UR)a) >= range); }
  else a = (R)((UR)(std::numeric_limits<R>::min)() + (UR)vf_in64("ai", 0, 0, (uint64_t)(UR)~UR(0) - range));
  if(via == RNG) a = 0;
  if(via == RNG && range >= (uint64_t)(std::numeric_limits<R>::max)()) { vf_assume(false); return; }
  R b = (R)(UR)((UR)a + (UR)range);
  ui_start(range, (uint64_t)(U)((U)hi - (U)lo));
  vf_replace_rec("generate_uniform_int<.*integral_constant<bool, ?true>", (const void*)ui_rec<G, UR>);
  vf_replace_rec("generate_uniform_int<.*(true_|true)", (const void*)ui_rec<G, UR>);
  G g; R v;
  if(via == DIST) { uniform_int_distribution<R> d(a, b); vf_check(d.min() == a && d.max() == b, "min and max of the distribution"); v = d(g); }
  else if(via == PARAM) { uniform_int_distribution<R> d; typename uniform_int_distribution<R>::param_type p(a, b); v = d(g, p); }
  else if(via == OLD) { boost::uniform_int<R> d(a, b); v = d(g); }
  else { random_number_generator<G, R> d(g); v = d((R)(b + 1)); }
  if(range_only) { vf_check(v >= a && v <= b, "result in [a, b]"); return; }
  vf_assert(ui.phase == 2, "the result is determined by the values drawn");
  vf_check(v == (R)(UR)((UR)a + (UR)ui.value), "the result is the uniform value selected by the draws, offset by a");
}
#define UO "unroll=4 feas=z3-int,cvc5-int,z3-bv feas_t=15 backends=z3-int,cvc5-int,z3-bv"
#define UB "unroll=4 feas=z3-bv,z3-int feas_t=15 backends=z3-bv,z3-int,cvc5-int timeout=120"
#define UIVB(n, rlo, rhi, ...) VC(D01, uint_##n, UB) { uint_vc<__VA_ARGS__>(true, rlo, rhi); } VC(D02, uint_##n, UB) { uint_vc<__VA_ARGS__>(false, rlo, rhi); }
#define UIV(n, rlo, rhi, ...) VC(D01, uint_##n, UO) { uint_vc<__VA_ARGS__>(true, rlo, rhi); } VC(D02, uint_##n, UO) { uint_vc<__VA_ARGS__>(false, rlo, rhi); }
UIV(mt_s32, 0, ~0ull, uint32_t, 0, 0xffffffffu, int32_t) UIV(mt_u32, 0, ~0ull, uint32_t, 0, 0xffffffffu, uint32_t) UIV(mt_s8, 0, ~0ull, uint32_t, 0, 0xffffffffu, int8_t) UIV(mt_u8, 0, ~0ull, uint32_t, 0, 0xffffffffu, uint8_t) UIV(mt_s16, 0, ~0ull, uint32_t, 0, 0xffffffffu, int16_t)
UIV(mt_s64_small, 0, 0xffffffffu, uint32_t, 0, 0xffffffffu, int64_t) UIV(mt_s64_big, 0x100000000ull, ~0ull, uint32_t, 0, 0xffffffffu, int64_t) UIV(mt_u64_big, 0x100000000ull, ~0ull, uint32_t, 0, 0xffffffffu, uint64_t) UIV(mt_u64_small, 0, 0xffffffffu, uint32_t, 0, 0xffffffffu, uint64_t)
UIV(minstd_s32_small, 0, 2147483645u, uint32_t, 1, 2147483646u, int32_t) UIV(minstd_s32_big, 2147483646u, ~0ull, uint32_t, 1, 2147483646u, int32_t) UIV(minstd_u64_1, 2147483646u, 4611686009837453315ull, uint32_t, 1, 2147483646u, uint64_t) UIV(minstd_s64_2, 4611686009837453316ull - 1, ~0ull, uint32_t, 1, 2147483646u, int64_t)
UIV(mt64_s32, 0, ~0ull, uint64_t, 0, ~0ull, int32_t) UIV(mt64_s64, 0, ~0ull, uint64_t, 0, ~0ull, int64_t) UIV(mt64_u64, 0, ~0ull, uint64_t, 0, ~0ull, uint64_t) UIV(mt64_u16, 0, ~0ull, uint64_t, 0, ~0ull, uint16_t)
UIV(sgn_s32, 0, 2147483006, int32_t, -7, 2147483000, int32_t) UIV(sgn_s32_big, 2147483007, ~0ull, int32_t, -7, 2147483000, int32_t) UIV(sgn_s16, 0, ~0ull, int32_t, -7, 2147483000, int16_t) UIV(smin_s64, 0, ~0ull, int64_t, (-9223372036854775807ll - 1), 5, int64_t)
UIV(u16_s32_small, 0, 65535, uint16_t, 0, 65535, int32_t) UIV(u16_s32_big, 65536, ~0ull, uint16_t, 0, 65535, int32_t) UIV(u16_u64_2, 4294967296ull, 281474976710655ull, uint16_t, 0, 65535, uint64_t) UIV(u16_u64_3, 281474976710655ull, ~0ull, uint16_t, 0, 65535, uint64_t)
UIV(d16_u8_small, 0, 15, uint32_t, 5, 20, uint8_t) UIV(d16_u8_big, 16, 255, uint32_t, 5, 20, uint8_t) UIVB(d6_s8_small, 0, 5, int32_t, 1, 6, int8_t) UIVB(d6_s8, 6, 35, int32_t, 1, 6, int8_t) UIV(d6_u8, 36, 255, int32_t, 1, 6, uint8_t) UIV(coin_u8, 1, 3, uint32_t, 0, 1, uint8_t) UIV(coin_s8_7, 4, 7, uint32_t, 0, 1, int8_t) UIV(coin_s8_15, 8, 15, uint32_t, 0, 1, int8_t)
UIV(m61_u64, 0, 2305843009213693950ull, uint64_t, 0, 2305843009213693950ull, uint64_t) UIV(m61_u64_big, 2305843009213693951ull, ~0ull, uint64_t, 0, 2305843009213693950ull, uint64_t) UIV(kr_u32, 714025, ~0ull, uint32_t, 0, 714024, uint32_t)
VC(D01, uint_param, UO) { uint_vc<uint32_t, 0, 0xffffffffu, int32_t>(true, 0, ~0ull, PARAM); } VC(D02, uint_param, UO) { uint_vc<uint32_t, 0, 0xffffffffu, int32_t>(false, 0, ~0ull, PARAM); }
VC(D01, uint_old, UO) { uint_vc<uint32_t, 1, 2147483646u, int32_t>(true, 0, ~0ull, OLD); } VC(D02, uint_old, UO) { uint_vc<uint32_t, 1, 2147483646u, int32_t>(false, 0, 2147483645u, OLD); }
VC(D01, rng_wrapper, UO) { uint_vc<uint32_t, 0, 0xffffffffu, int32_t>(true, 0, 2147483646, RNG); } VC(D02, rng_wrapper, UO) { uint_vc<uint32_t, 0, 0xffffffffu, int32_t>(false, 0, 2147483646, RNG); }
// ---- lemmas: the automaton's map is exactly uniform
VC(D02, lemma_bucket, "backends=z3-int,cvc5-int,z3-bv") {   // every inc in [0, q] has exactly bucket preimages u, and they exist: q <= B1
  uint64_t B1 = vf_nd64("B1", 0), q = vf_nd64("q", 0); vf_assume(q <= B1);
  u128 bucket = ((u128)B1 + 1) / ((u128)q + 1);
  vf_check(bucket >= 1, "buckets are not empty"); vf_check(bucket * ((u128)q + 1) <= (u128)B1 + 1, "all buckets lie in the engine's range");
}
VC(D02, lemma_bucket_u, "backends=z3-int,cvc5-int,z3-bv") {
  uint64_t b = vf_nd64("b", 0), r = vf_nd64("r", 0), j = vf_nd64("j", 0); vf_assume(b >= 1); vf_assume(j < b); vf_assume((u128)r * b + j <= ~0ull);
  vf_check((r * b + j) / b == r, "u = r*bucket + j, 0 <= j < bucket, are the preimages of r");
}
VC(D02, lemma_digits, "backends=z3-int,cvc5-int,z3-bv timeout=60") {   // (low, inc) -> low + inc*mult is a bijection onto [0, mult*(q+1)) which covers [0, range]
  uint64_t mult = vf_nd64("mult", 0), range = vf_nd64("range", 0), l1 = vf_nd64("l", 0), l2 = vf_nd64("l", 1); vf_assume(mult >= 1); vf_assume(mult <= range); vf_assume(l1 < mult); vf_assume(l2 < mult);
  uint64_t q = range / mult, v = vf_nd64("v", 0); vf_assume(v <= range);
  vf_check(v % mult < mult && v / mult <= q && v % mult + (u128)(v / mult) * mult == v, "every v <= range has the preimage (v mod mult, v div mult)");
}
VC(D02, lemma_digits_unique, "backends=z3-int,cvc5-int,z3-bv") {
  uint64_t mult = vf_nd64("mult", 0), l = vf_nd64("l", 0), i = vf_nd64("i", 0); vf_assume(mult >= 1); vf_assume(l < mult); vf_assume((u128)i * mult + l <= ~0ull);
  vf_check((i * mult + l) / mult == i && (i * mult + l) % mult == l, "and only that one");
}
// ---- D03
template<class T, T lo, T hi, class R> void small_vc() {
  typedef GEng<T, lo, hi, 51> G; typedef typename boost::make_unsigned<T>::type U; typedef typename boost::make_unsigned<R>::type UR;
  R a = (R)(UR)vf_nd64("a", 0), b = (R)(UR)vf_nd64("b", 0);
  if(!vf_symbolic() && a > b) { R t = a; a = b; b = t; }
  vf_assume(a <= b);
  G g; U u = (U)((U)G::value(g.id, 0) - (U)lo); U B1 = (U)((U)hi - (U)lo); UR range = (UR)((UR)b - (UR)a);
  uniform_smallint<R> d(a, b); R v = d(g);
  vf_check(g.k == 1, "exactly one engine value is used");
  vf_check(v >= a && v <= b, "result in [a, b]");
  uint64_t off = (uint64_t)range >= (uint64_t)B1 ? (uint64_t)u : (uint64_t)u % ((uint64_t)range + 1);
  vf_check(v == (R)(UR)((UR)a + (UR)off), "a + (value - min) mod (b - a + 1)");
  vf_check(d.min() == a && d.max() == b, "min and max");
  typename uniform_smallint<R>::param_type p(a, b); uniform_smallint<R> e; G h; vf_check(e(h, p) == v || h.id != g.id, "the same with explicit parameters");
}
#define SM(n, ...) VC(D03, small_##n, "backends=z3-bv,cvc5-bv,z3-int") { small_vc<__VA_ARGS__>(); }
SM(mt_s32, uint32_t, 0, 0xffffffffu, int32_t) SM(mt_u32, uint32_t, 0, 0xffffffffu, uint32_t) SM(mt_s8, uint32_t, 0, 0xffffffffu, int8_t) SM(mt_s64, uint32_t, 0, 0xffffffffu, int64_t) SM(mt_u64, uint32_t, 0, 0xffffffffu, uint64_t) SM(minstd, uint32_t, 1, 2147483646u, int32_t) SM(mt64_s32, uint64_t, 0, ~0ull, int32_t) SM(mt64_s64, uint64_t, 0, ~0ull, int64_t) SM(mt64_u8, uint64_t, 0, ~0ull, uint8_t)
SM(sgn, int32_t, -7, 2147483000, int32_t) SM(sgn16, int32_t, -7, 2147483000, int16_t) SM(smin, int64_t, (-9223372036854775807ll - 1), 5, int64_t) SM(u16, uint16_t, 0, 65535, int32_t) SM(d6, int32_t, 1, 6, int32_t) SM(d6_8, int32_t, 1, 6, uint8_t)

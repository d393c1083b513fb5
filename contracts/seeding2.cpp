// E07/E08: seeding of the other engines and of the adaptors.
#include <boost/random/linear_congruential.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/ranlux.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/additive_combine.hpp>
#include "vf_seed.hpp"
using namespace boost::random;
typedef linear_congruential_engine<uint32_t, 40014, 0, 2147483563> swc_lcg;
// a seed sequence over an LCG's outputs
template<class G> struct GenWords { uint32_t v[3000]; GenWords(uint32_t s, uint64_t n) { G g(s); for(uint64_t i = 0; i < n; ++i) v[i] = g(); } uint32_t operator()(uint64_t i) const { return v[i]; } };
// ------------------------------------------------------------------ subtract with carry
template<class E> struct Swc {
  typedef typename E::result_type T;
  static const size_t w = E::word_size, r = E::long_lag;
  static const uint64_t need = r * ((w + 31) / 32);
  template<class W> static void check(const E& e, const W& ws) {
    StateOf s(e); uint64_t last = 1;
    vf_assert(s.count() == r + 1, "r words and the carry");
    for(size_t j = 0; j < r; ++j) { last = word_of<(int)w>(ws, j); vf_check(s.t.val[2*j] == last, "x(j) is the j-th w-bit word"); }
    vf_check(s.t.val[2*r] == (last == 0), "carry set iff the last word is zero");
  }
  template<class W> static void words() { E e = Seeded<E, W>::make(need, need); check(e, W()); }
  static void value() {
    T v = (T)vf_nd64("v", 0);
    E e(v), g; g.seed(v); vf_check(g == e, "seed(v) equals construction");
    check(e, GenWords<swc_lcg>((uint32_t)(v == 0 ? 19780503u : v), need));
    E d; vf_check(d == E(T(19780503)), "default seed"); g.seed(); vf_check(g == d, "seed() restores the default");
    vf_check(E(T(0)) == d, "zero means the default seed");
  }
};
#define SWC(name, E) \
  VC(E07, swc_value_##name, "") { Swc<E>::value(); } \
  VC(E07, swc_seq_##name, "") { Swc<E>::words<WSeq>(); } \
  VC(E07, swc_range_##name, "") { Swc<E>::words<WRng>(); } \
  VC(E08, swc_##name, "") { short_range<E, Swc<E>::need>(); }
typedef subtract_with_carry_engine<uint32_t, 32 - 1, 3, 7> swc31; typedef subtract_with_carry_engine<int64_t, 33, 2, 5> swc33;
SWC(ranlux_base, ranlux_base) SWC(ranlux48_base, ranlux48_base) SWC(w31, swc31) SWC(w33, swc33)
// ------------------------------------------------------------------ lagged Fibonacci (integers)
template<class E> struct Lf {
  typedef typename E::result_type T;
  static const size_t w = E::word_size, r = E::long_lag;
  static const uint64_t need = r * ((w + 31) / 32);
  template<class W> static void check(const E& e, const W& ws) {
    StateOf s(e);
    vf_assert(s.count() == r + 1, "position and r words");
    vf_check(s.t.val[0] == r, "the next output starts a new block");
    for(size_t j = 0; j < r; ++j) vf_check(s.t.val[2*j+2] == word_of<(int)w>(ws, j), "x(j) is the j-th w-bit word");
  }
  template<class W> static void words() { E e = Seeded<E, W>::make(need, need); check(e, W()); }
  static void value() {
    T v = (T)vf_nd64("v", 0);
    E e(v), g; g.seed(v); vf_check(g == e, "seed(v) equals construction");
    check(e, GenWords<minstd_rand0>((uint32_t)v, need));
    E d; vf_check(d == E(T(331)), "default seed"); g.seed(); vf_check(g == d, "seed() restores the default");
  }
};
#define LF(name, E) \
  VC(E07, lf_value_##name, "") { Lf<E>::value(); } \
  VC(E07, lf_seq_##name, "") { Lf<E>::words<WSeq>(); } \
  VC(E07, lf_range_##name, "") { Lf<E>::words<WRng>(); } \
  VC(E08, lf_##name, "") { short_range<E, Lf<E>::need>(); }
typedef lagged_fibonacci_engine<uint32_t, 32, 55, 24> lf55; typedef lagged_fibonacci_engine<uint64_t, 48, 9, 4> lf48; typedef lagged_fibonacci_engine<uint64_t, 64, 7, 3> lf64;
LF(55, lf55) LF(w48, lf48) LF(w64, lf64)
// ------------------------------------------------------------------ floating point state words
template<class E> struct Real {
  typedef typename E::result_type R;
  static const size_t w = E::word_size, r = E::long_lag;
  static const uint64_t need = r * ((w + 31) / 32);
  static R expect(uint64_t v) { R m = 1; for(size_t i = 0; i < w; ++i) m = m / 2; return (R)v * m; }
  template<class W> static void lf(bool val) {
    E e = Seeded<E, W>::make(need, need);
    vf_check(e.i == r, "the next output starts a new block");
    for(size_t j = 0; j < r; ++j) {
      R x = e.x[j], y = expect(word_of<(int)w>(W(), j));
      vf_check(x == y, "x(j) is the j-th w-bit word over 2^w");
      vf_check(x >= 0 && x < 1, "in [0, 1)");
    }
  }
  template<class W> static void swc() {
    E e = Seeded<E, W>::make(need, need);
    R last = 1;
    for(size_t j = 0; j < r; ++j) {
      R x = e.x[j]; last = expect(word_of<(int)w>(W(), j));
      vf_check(x == last, "x(j) is the j-th w-bit word over 2^w");
    }
    vf_check(e.k == 0, "position zero");
    vf_check(e.carry == (word_of<(int)w>(W(), r - 1) == 0 ? expect(1) : R(0)), "carry set iff the last word is zero");
  }
  template<class G> static void value(uint32_t def, bool zero) {
    uint32_t v = vf_nd32("v", 0);
    E e(v), g; g.seed(v); vf_check(g == e, "seed(v) equals construction");
    G l(zero && v == 0 ? def : v); boost::random::detail::generator_seed_seq<G> s(l); E h(s); vf_check(h == e, "the words are the outputs of the documented LCG");
    E d; vf_check(d == E(def), "default seed"); g.seed(); vf_check(g == d, "seed() restores the default");
  }
};
typedef lagged_fibonacci_01_engine<double, 48, 5, 2> lf01d; typedef lagged_fibonacci_01_engine<float, 24, 5, 2> lf01f; typedef lagged_fibonacci_01_engine<double, 32, 5, 2> lf01w;
typedef subtract_with_carry_01_engine<double, 48, 2, 5> swc01d; typedef subtract_with_carry_01_engine<float, 24, 2, 5> swc01f;
#define RE(kind, name, E, ...) \
  VC(E07, kind##_seq_##name, "backends=z3-bv,cvc5-bv") { Real<E>::kind<WSeq>(__VA_ARGS__); } \
  VC(E07, kind##_range_##name, "backends=z3-bv,cvc5-bv") { Real<E>::kind<WRng>(__VA_ARGS__); } \
  VC(E08, kind##_##name, "backends=z3-bv,cvc5-bv") { short_range<E, Real<E>::need>(); }
RE(lf, lf01d, lf01d, true) RE(lf, lf01f, lf01f, true) RE(lf, lf01w, lf01w, true)
RE(swc, swc01d, swc01d) RE(swc, swc01f, swc01f)
VC(E07, lf01_value, "") { Real<lf01d>::value<minstd_rand0>(331, false); }
VC(E07, swc01_value, "") { Real<swc01f>::value<swc_lcg>(19780503u, true); }
// ------------------------------------------------------------------ linear feedback shift
template<class E> struct Lfs {
  typedef typename E::result_type U;
  static const int w = E::word_size, k = E::exponent1;
  static uint64_t mask() { return w == 64 ? ~uint64_t(0) : (uint64_t(1) << (w % 64)) - 1; }
  static uint64_t repair(uint64_t v) { v &= mask(); return v < (uint64_t(1) << (w - k)) ? v + (uint64_t(1) << (w - k)) : v; }
  static void value() {
    U v = (U)vf_nd64("v", 0); E e(v), g; g.seed(v); vf_check(g == e, "seed(v) equals construction");
    vf_check(StateOf(e).num(0) == repair(v), "state is the seed's w bits, moved out of the degenerate values");
    E d; vf_check(d == E(U(341)), "default seed"); g.seed(); vf_check(g == d, "seed() restores the default");
  }
  template<class W> static void words() {
    E e = Seeded<E, W>::make((w + 31) / 32, (w + 31) / 32 + 3); uint64_t o = W::range ? 0 : 3; W ws;
    uint64_t v = ws(o); if(w > 32) v += (uint64_t)ws(o + 1) << 32;
    vf_check(StateOf(e).num(0) == repair(v), "state is the words' low w bits, repaired");
  }
};
typedef linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> lfs1; typedef linear_feedback_shift_engine<uint32_t, 32, 29, 2, 4> lfs2; typedef linear_feedback_shift_engine<uint32_t, 32, 28, 3, 17> lfs3;
typedef linear_feedback_shift_engine<uint64_t, 64, 63, 5, 20> lfs64; typedef linear_feedback_shift_engine<uint64_t, 58, 55, 5, 20> lfs58;
#define LFS(name) \
  VC(E07, lfs_value_##name, "") { Lfs<name>::value(); } \
  VC(E07, lfs_seq_##name, "") { Lfs<name>::words<WSeq>(); } \
  VC(E07, lfs_range_##name, "") { Lfs<name>::words<WRng>(); } \
  VC(E08, lfs_##name, "") { short_range<name, (name::word_size + 31) / 32>(); }
LFS(lfs1) LFS(lfs2) LFS(lfs3) LFS(lfs64) LFS(lfs58)
// ------------------------------------------------------------------ inversive congruential
template<class T, T a, T b, T p> struct Icg {
  typedef inversive_congruential_engine<T, a, b, p> E;
  static void value() {
    T v = (T)vf_nd64("v", 0); E e(v), g; g.seed(v); vf_check(g == e, "seed(v) equals construction");
    __int128 q = (__int128)v % (__int128)p; if(q < 0) q += p; if(b == 0 && q == 0) q = 1;
    vf_check((T)StateOf(e).num(0) == (T)q, "state is v mod p, zero repaired if b is zero");
    E d; vf_check(d == E(T(1)), "default seed"); g.seed(); vf_check(g == d, "seed() restores the default");
  }
  template<class W> static void words() {
    E e = Seeded<E, W>::make(1, 4); uint64_t o = W::range ? 0 : 3; W ws;
    __int128 q = (__int128)(T)ws(o) % (__int128)p; if(q < 0) q += p; if(b == 0 && q == 0) q = 1;
    vf_check((T)StateOf(e).num(0) == (T)q, "state is the word mod p");
  }
};
#define ICG(name, ...) \
  VC(E07, icg_value_##name, "") { Icg<__VA_ARGS__>::value(); } \
  VC(E07, icg_seq_##name, "") { Icg<__VA_ARGS__>::words<WSeq>(); } \
  VC(E07, icg_range_##name, "") { Icg<__VA_ARGS__>::words<WRng>(); } \
  VC(E08, icg_##name, "") { short_range<Icg<__VA_ARGS__>::E, 1>(); }
ICG(hellekalek, uint32_t, 9102, 2147483647-36884165, 2147483647)
ICG(signed, int32_t, 9102, 2147483647-36884165, 2147483647)
ICG(b0, uint32_t, 7, 0, 101)
// ------------------------------------------------------------------ splitmix64
VC(E07, splitmix_value, "") {
  uint64_t v = vf_nd64("v", 0); splitmix64 e(v), g; g.seed(v);
  vf_check(g == e, "seed(v) equals construction");
  vf_check(StateOf(e).num(0) == (v == 0 ? 0xA164B43C8F634A13ull : v), "state is the seed, zero replaced by the default");
  splitmix64 d; g.seed(0); vf_check(g == d && StateOf(d).num(0) == 0xA164B43C8F634A13ull, "default seed");
}
VC(E07, splitmix_seq, "") {
  GSeq s; splitmix64 e(s), f; GSeq s2; f.seed(s2);
  vf_check(s.calls == 1 && s.words == 2 && f == e, "two words requested, seed equals construction");
  vf_check(StateOf(e).num(0) == ((uint64_t)vf_nd32("s", 0) << 32 | vf_nd32("s", 1)), "first word high, second low");
}
// ------------------------------------------------------------------ adaptors
template<class A, class B> void adapt_value(uint64_t steps, bool adv = true) {     // adaptor over one base: seeding resets everything
  typedef typename B::result_type T;
  T v = (T)vf_nd64("v", 0);
  A a(v), g; const B b(v);
  for(uint64_t i = 0; i < steps; ++i) g();
  vf_check(a == A(b), "seeding an adaptor seeds its base with the same value");
  g.seed(v); vf_check(g == a, "re-seeding forgets the previous position");
  A d; const B db; vf_check(d == A(db), "default construction uses the base's default");
  if(adv) g(); g.seed(); vf_check(g == d, "seed() restores the default");
  GSeq s, s2, s3; A as(s); const B bs(s2); vf_check(as == A(bs) && s.words == s2.words, "seed sequences are passed to the base");
  if(adv) g(); g.seed(s3); vf_check(g == as, "re-seeding from a sequence");
  GRange r; r.n = 1 + vf_in64("extra", 0, 0, 1000); GIt f(&r, 0), l(&r, r.n), f2(&r, 0), f3(&r, 0);
  A ar(f, l); const B br(f2, l); vf_check(ar == A(br) && f.p == 1 && f2.p == 1, "ranges are passed to the base");
  if(adv) g(); g.seed(f3, l); vf_check(g == ar && f3.p == 1, "re-seeding from a range");
}
typedef discard_block_engine<minstd_rand0, 5, 2> db; typedef shuffle_order_engine<minstd_rand, 4> so; typedef independent_bits_engine<minstd_rand0, 17, uint32_t> ib;
VC(E07, discard_block, "") { adapt_value<db, minstd_rand0>(1); }
VC(E07, discard_block2, "") { adapt_value<db, minstd_rand0>(3); }
VC(E07, shuffle_order, "") { adapt_value<so, minstd_rand>(0, false); }
typedef GEng<uint32_t, 5, 1000> G5;
VC(E07, shuffle_init, "") {          // table filled in order, then y
  const G5 g; shuffle_order_engine<G5, 9> e(g); StateOf s(e);
  vf_assert(s.count() == 12, "base, table, y");
  vf_check(s.t.val[2] == 10 && s.t.val[0] == g.id, "k + 1 base values drawn");
  for(int i = 0; i < 9; ++i) vf_check(s.t.val[4 + 2*i] == G5::value(g.id, i), "v[i] is the i-th base value");
  vf_check(s.t.val[22] == G5::value(g.id, 9), "y is the next one");
}
typedef xor_combine_engine<minstd_rand0, 1, minstd_rand, 2> xc; typedef additive_combine_engine<minstd_rand0, minstd_rand> ac;
template<class A, class P> void adapt2(P mk) {
  uint32_t v = vf_nd32("v", 0);
  A a(v), g; vf_check(StateOf(a).num(0) == StateOf(minstd_rand0(v)).num(0) && StateOf(a).num(1) == StateOf(minstd_rand(v)).num(0), "both bases seeded with the value");
  g.seed(v); vf_check(g == a, "seed(v) equals construction");
  A d; vf_check(StateOf(d).num(0) == 1 && StateOf(d).num(1) == 1, "defaults"); g.seed(); vf_check(g == d, "seed() restores the default");
  GSeq s; A as(s); GSeq t; minstd_rand0 b1(t); minstd_rand b2(t);
  vf_check(s.calls == 2 && StateOf(as).num(0) == StateOf(b1).num(0) && StateOf(as).num(1) == StateOf(b2).num(0), "the first base draws first");
  GSeq s2; g.seed(s2); vf_check(g == as, "seed(seq) equals construction");
  GRange r; r.n = 2 + vf_in64("extra", 0, 0, 1000); GIt f(&r, 0), l(&r, r.n), f2(&r, 0), f3(&r, 0);
  A ar(f, l); minstd_rand0 c1(f2, l); minstd_rand c2(f2, l);
  vf_check(f.p == 2 && StateOf(ar).num(0) == StateOf(c1).num(0) && StateOf(ar).num(1) == StateOf(c2).num(0), "bases share the range in order");
  g.seed(f3, l); vf_check(g == ar && f3.p == 2, "seed(range) equals construction");
}
VC(E07, xor_combine, "") { adapt2<xc>(0); }
VC(E07, additive_combine, "") { adapt2<ac>(0); }
VC(E07, additive_combine_two, "") {
  uint32_t v1 = vf_nd32("v", 0), v2 = vf_nd32("v", 1); ac a(v1, v2), g; g.seed(v1, v2);
  vf_check(g == a && StateOf(a).num(0) == StateOf(minstd_rand0(v1)).num(0) && StateOf(a).num(1) == StateOf(minstd_rand(v2)).num(0), "one seed for each base");
}
VC(E07, independent_bits, "") {
  uint32_t v = vf_nd32("v", 0); ib a(v), g; const minstd_rand0 b(v); vf_check(a == ib(b) && a.base() == b, "base seeded"); g.seed(v); vf_check(g == a, "seed(v)");
  GSeq s; ib c(s); GSeq t; minstd_rand0 d(t); vf_check(c.base() == d, "sequence passed on"); GSeq u; g.seed(u); vf_check(g == c, "seed(seq)");
  GRange r; r.n = 1 + vf_in64("extra", 0, 0, 1000); GIt f(&r, 0), l(&r, r.n); ib h(f, l); GIt f2(&r, 0); g.seed(f2, l); vf_check(h == g && f.p == 1 && f2.p == 1, "range passed on");
  g.seed(); vf_check(g == ib(), "default");
}
VC(E08, discard_block, "") { short_range<db, 1>(); }
VC(E08, shuffle_order, "") { short_range<so, 1>(); }
VC(E08, xor_combine, "") { short_range<xc, 2>(); }
VC(E08, additive_combine, "") { short_range<ac, 2>(); }
VC(E08, independent_bits, "") { short_range<ib, 1>(); }
VC(E08, taus88, "") { short_range<taus88, 3>(); }
VC(E08, ranlux3, "") { short_range<ranlux3, 24>(); }
// ------------------------------------------------------------------ mixmax: four words name the stream
struct MixState { uint64_t V[17]; uint64_t sumtot, counter; };
static void mix_stub(void* self, void* st, uint32_t a, uint32_t b, uint32_t c, uint32_t d) {   // contract: a function of the four words only
  mixmax& e = *(mixmax*)self; 
  for(int i = 0; i < 17; ++i) e.S.V[i] = vf_uf64("mix", 3, ((uint64_t)a << 32) | b, ((uint64_t)c << 32) | d, i, 0);
  e.S.sumtot = vf_uf64("mix", 3, ((uint64_t)a << 32) | b, ((uint64_t)c << 32) | d, 17, 0); e.S.counter = 1;
}
static void use_mix() { vf_replace("mixmax_engine<.*>::seed_uniquestream\\(", (const void*)mix_stub); }
VC(E07, mixmax_value, "search=0.5") {
  use_mix(); uint64_t v = vf_nd64("v", 0);
  vf_check(mixmax(v) == mixmax(0u, 0u, (uint32_t)(v >> 32), (uint32_t)v), "a 64-bit seed is the run and the stream number");
  vf_check(mixmax() == mixmax(0u, 0u, 0u, 1u), "default seed is stream one");
}
VC(E07, mixmax_seq, "search=0.5") {
  use_mix(); GSeq s; mixmax e(s), f; GSeq t; f.seed(t);
  vf_check(s.calls == 1 && s.words == 4 && f == e, "four words requested");
  vf_check(e == mixmax(vf_nd32("s", 0), vf_nd32("s", 1), vf_nd32("s", 2), vf_nd32("s", 3)), "the words are cluster, machine, run and stream");
}
VC(E07, mixmax_range, "search=0.5") {
  use_mix(); GRange r; r.n = 4 + vf_in64("extra", 0, 0, 1000); GIt p(&r, 0), l(&r, r.n), q(&r, 0); mixmax e(p, l), f; f.seed(q, l);
  vf_check(p.p == 4 && q.p == 4 && f == e, "four words consumed");
  vf_check(e == mixmax(vf_nd32("w", 0), vf_nd32("w", 1), vf_nd32("w", 2), vf_nd32("w", 3)), "the words are cluster, machine, run and stream");
}
VC(E08, mixmax, "search=0.5") { use_mix(); short_range<mixmax, 4>(); }

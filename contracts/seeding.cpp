// E07: what every way of seeding leaves in the engine; E08: word ranges are consumed exactly, short ones throw.
#include <boost/random/linear_congruential.hpp>
#include <boost/random/mersenne_twister.hpp>
#include "vf_seed.hpp"
using namespace boost::random;
typedef unsigned __int128 u128;
// ------------------------------------------------------------------ linear congruential
template<class T, T a, T c, T m> struct Lcg {
  typedef linear_congruential_engine<T, a, c, m> E;
  typedef typename boost::make_unsigned<T>::type U;
  static const int bits = m == 0 ? (int)sizeof(T) * 8 : 64 - __builtin_clzll((uint64_t)m - (m == 0 ? 0 : 1));
  static const int K = (bits + 31) / 32;
  static T repair(u128 x) { return c == 0 && x == 0 ? T(1) : (T)x; }
  static void value() {
    T v = (T)vf_nd64("v", 0);
    E e(v); E g; g.seed(v);
    u128 want;
    if(m == 0) want = (U)v;
    else { __int128 r = (__int128)v % (__int128)m; want = (u128)(r < 0 ? r + (__int128)m : r); }
    vf_check((T)StateOf(e).num(0) == repair(want), "state is v mod m, zero replaced by one if the increment is zero");
    vf_check(g == e, "seed(v) equals construction from v");
    E d; vf_check(d == E(T(1)), "default seed is 1");
    E d2(v); d2.seed(); vf_check(d2 == d, "seed() restores the default");
    vf_check((T)StateOf(e).num(0) >= (E::min)() && (T)StateOf(e).num(0) <= (E::max)(), "state in range");
  }
  template<class W> static void words() {
    use_mulmod_contract();
    E e = Seeded<E, W>::make(K, K + 3);
    W w; uint64_t off = W::range ? 0 : 3;
    u128 mm = m == 0 ? (u128)(U)~U(0) + 1 : (u128)m;
    u128 s = 0;
    for(int j = 0; j < K; ++j) s = (s + ((u128)(((u128)1 << 32 * j) % mm) * (u128)(w(off + j) % mm)) % mm) % mm;
    if(sizeof(T) < 8 && (T)-1 < 0) {                    // signed narrow types take the word as a signed value
      __int128 q = (__int128)(T)w(off) % (__int128)(m == 0 ? 1 : m); s = (u128)(q < 0 ? q + (__int128)m : q);
    }
    vf_check((T)StateOf(e).num(0) == repair(s), "state is the words as a base 2^32 number mod m, zero repaired");
  }
};
#define LCG(name, ...) \
  VC(E07, lcg_value_##name, "") { Lcg<__VA_ARGS__>::value(); } \
  VC(E07, lcg_seq_##name, "backends=z3-int,z3-bv,cvc5-int") { Lcg<__VA_ARGS__>::words<WSeq>(); } \
  VC(E07, lcg_range_##name, "backends=z3-int,z3-bv,cvc5-int") { Lcg<__VA_ARGS__>::words<WRng>(); } \
  VC(E08, lcg_##name, "") { short_range<Lcg<__VA_ARGS__>::E, Lcg<__VA_ARGS__>::K>(); }
LCG(minstd_rand0, uint32_t, 16807, 0, 2147483647)
LCG(minstd_rand, uint32_t, 48271, 0, 2147483647)
LCG(minstd_signed, int32_t, 16807, 0, 2147483647)
LCG(kreutzer, uint32_t, 1366, 150889, 714025)
LCG(lcf48, uint64_t, 0x5DEECE66Dull, 0xB, (uint64_t)1 << 48)
LCG(full32, uint32_t, 1664525, 1013904223, 0)
LCG(full64, uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0)
LCG(m61, uint64_t, 437799614237992725ull, 0, 2305843009213693951ull)
LCG(small16, uint16_t, 75, 74, 0)
LCG(small_c, int16_t, 25, 7, 211)
VC(E07, rand48_value, "") {
  uint32_t v = vf_nd32("v", 0); rand48 e(v), g; g.seed(v);
  vf_check(StateOf(e).num(0) == ((uint64_t)v << 16 | 0x330e), "rand48 state is the seed above 0x330e"); vf_check(g == e, "seed(v) equals construction");
  rand48 d; vf_check(d == rand48(1u), "default seed is 1"); e.seed(); vf_check(e == d, "seed() restores the default");
}
template<class W> void rand48_words() {
  rand48 e = Seeded<rand48, W>::make(2, 5); W w; uint64_t o = W::range ? 0 : 3;
  vf_check(StateOf(e).num(0) == (w(o) | (uint64_t)(w(o + 1) & 0xffff) << 32), "48 bits of the words");
}
VC(E07, rand48_seq, "") { rand48_words<WSeq>(); }
VC(E07, rand48_range, "") { rand48_words<WRng>(); }
VC(E08, rand48, "") { short_range<rand48, 2>(); }
// ------------------------------------------------------------------ Mersenne twister
template<class E> struct Mt {
  typedef typename E::result_type U;
  static const size_t w = E::word_size, n = E::state_size, m = E::shift_size, r = E::mask_bits;
  static uint64_t mask() { return w == 64 ? ~uint64_t(0) : (uint64_t(1) << (w % 64)) - 1; }
  static uint64_t normal0(const U* x) {           // the low r bits of x[0] are those the recurrence run backwards gives
    uint64_t y = (uint64_t)x[m-1] ^ x[n-1], lo = (uint64_t(1) << r) - 1;
    uint64_t y0 = (y >> (w-1) & 1) ? ((y ^ E::xor_mask) << 1 | 1) : y << 1;
    return ((uint64_t)x[0] & ~lo) | (y0 & lo);
  }
  static void check(const E& e, U* x, bool zero) {
    x[0] = (U)normal0(x);
    bool nz = false; for(size_t j = 0; j < n; ++j) nz = nz | (x[j] != 0);
    if(zero) { if(!nz) x[0] = (U)(uint64_t(1) << (w-1)); } else vf_assume(x[n-1] != 0 || x[n-2] != 0);
    StateOf s(e);
    vf_assert(s.count() == n, "the state has n words");
    for(size_t j = 0; j < n; ++j) vf_check(s.t.val[2*j] == x[j], "state word is the documented function of the seed");
  }
  static void value(bool zero) {
    U v = (U)vf_nd64("v", 0); E e(v); E g; g.seed(v);
    vf_check(g == e, "seed(v) equals construction");
    U x[n]; x[0] = v & mask();
    for(size_t i = 1; i < n; ++i) x[i] = (U)((E::initialization_multiplier * (x[i-1] ^ (x[i-1] >> (w-2))) + i) & mask());
    check(e, x, zero);
  }
  template<class W> static void words(bool zero) {
    E e = Seeded<E, W>::make(n * ((w + 31) / 32), n * ((w + 31) / 32));
    W ws; U x[n]; for(size_t j = 0; j < n; ++j) x[j] = (U)word_of<w>(ws, j);
    check(e, x, zero);
  }
};
typedef mersenne_twister_engine<uint32_t,32,4,2,31,0x9908b0df,11,0xffffffff,7,0x9d2c5680,15,0xefc60000,18,1812433253> mt_s32;
typedef mersenne_twister_engine<uint64_t,64,4,2,31,0xb5026f5aa96619e9ull,29,0x5555555555555555ull,17,0x71d67fffeda60000ull,37,0xfff7eee000000000ull,43,6364136223846793005ull> mt_s64;
typedef mersenne_twister_engine<uint64_t,48,4,3,20,0x5026f5aa9661ull,29,0x555555555555ull,17,0x71d67fffedaull,30,0x7eee00000000ull,37,6364136223846793005ull> mt_s48;
#define MTS(name, E, zero, o) \
  VC(E07, mt_value_##name, o) { Mt<E>::value(zero); } \
  VC(E07, mt_seq_##name, o) { Mt<E>::words<WSeq>(zero); } \
  VC(E07, mt_range_##name, o) { Mt<E>::words<WRng>(zero); } \
  VC(E08, mt_##name, o) { short_range<E, E::state_size * ((E::word_size + 31) / 32)>(); }
MTS(s32, mt_s32, true, "") MTS(s64, mt_s64, true, "") MTS(s48, mt_s48, true, "")
MTS(mt11213b, mt11213b, false, "unroll=2000") MTS(mt19937, mt19937, false, "unroll=2000") MTS(mt19937_64, mt19937_64, false, "unroll=2000")

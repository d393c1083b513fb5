// Shift register, inversive congruential, mixmax, splitmix64: E01, E06, E11, E13.
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/taus88.hpp>
#include "vf_ghost.hpp"
#include "vf_util.hpp"
using namespace boost::random;
typedef unsigned __int128 u128;
template<class E> void read_state(E& e, Tape& t) { GIn is(&t); is >> e; vf_assert(!is.fail(), "a written state is accepted"); }
template<class E> Tape written(const E& e) { Tape t; GOut os(&t); os << e; return t; }
inline void put(Tape& t, uint64_t v) { GOut os(&t); if(t.n) os << ' '; os << v; }
template<class E> E with_value(uint64_t v) { E e; Tape t; put(t, v); read_state(e, t); return e; }
// equality and streams of engines whose state is one number
template<class E> void one_word_equality(uint64_t x, uint64_t y) {
  E a = with_value<E>(x), b = with_value<E>(y);
  vf_check((a == b) == (x == y), "equal exactly if the states agree"); vf_check((a != b) == (x != y), "operator!= is the negation");
  E g = with_value<E>(0); { Tape t = written(a); vf_check(!t.glued, "numbers are separated"); read_state(g, t); }
  vf_assert(g == a, "reading what was written gives an equal engine");
  E f = a; vf_check(f() == g(), "with the same next value"); vf_check(f == g, "and the same state after it");
  Tape two; { GOut os(&two); os << a << ' ' << b; } GIn is(&two); E p = with_value<E>(0), q = p; is >> p; is >> std::ws; is >> q;
  vf_check(!is.fail() && p == a && q == b, "two engines written one after the other both read back");
}
// discard(z) makes z calls of operator() (each call advances as a call does)
static uint64_t calls;
template<class E> typename E::result_type count_call(E*) { ++calls; return 0; }
static bool calls_inv(uint64_t*, uint64_t k) { return calls == k; }
template<class E> void discard_counts(E e, const char* op, const char* dis) {
  uint64_t z = vf_symbolic() ? vf_nd64("z", 0) : vf_in64("z", 0, 0, 200);
  if(!vf_symbolic()) { E f = e; e.discard(z); for(uint64_t k = 0; k < z; ++k) f(); vf_assert(e == f, "discard(z) is z calls"); return; }
  calls = 0; uint64_t c = 0;
  vf_replace(op, (const void*)count_call<E>);
  vf_loop_inv(dis, (const void*)calls_inv, &c);
  e.discard(z);
  vf_check(calls == z, "discard(z) makes exactly z calls");
}
// ---------------------------------------------------------------- linear feedback shift
template<class E> struct Lfsr {
  typedef typename E::result_type T;
  static const int w = E::word_size, k = E::exponent1, q = E::exponent2, s = E::step_size;
  static uint64_t msk() { return w == 64 ? ~uint64_t(0) : (uint64_t(1) << w % 64) - 1; }
  static uint64_t bit(uint64_t v, int j) { return (v >> (w - 1 - j)) & 1; }          // j-th bit from the left
  static uint64_t spec(uint64_t v) {        // the sequence e(n) = e(n-(k-q)) + e(n-k) over GF(2), s bits further on
    uint64_t r = 0;
    for(int j = 0; j < w; ++j) { int n = j + s; r = (r << 1) | (n < k ? bit(v, n) : bit(v, n - (k - q)) ^ bit(v, n - k)); }
    return r;
  }
  static void step(bool range) {
    uint64_t x = vf_in64("x", 0, 0, msk()); E e = with_value<E>(x);
    uint64_t v1 = e(), v2;
    if(range) { vf_check((E::min)() == 0 && (uint64_t)(E::max)() == msk(), "declared range"); vf_check(v1 <= (uint64_t)(E::max)(), "output within [min, max]"); return; }
    vf_check(v1 == spec(x), "the register advanced by s bits of x(n) = x(n-(k-q)) + x(n-k)");
    vf_check(e == with_value<E>(v1), "the state is the last output");
    v2 = e(); vf_check(v2 == spec(v1), "and again");
  }
};
typedef linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> ta1; typedef linear_feedback_shift_engine<uint32_t, 32, 29, 2, 4> ta2; typedef linear_feedback_shift_engine<uint32_t, 32, 28, 3, 17> ta3;
typedef linear_feedback_shift_engine<uint64_t, 64, 63, 5, 24> lf64; typedef linear_feedback_shift_engine<uint64_t, 40, 39, 4, 35> lf40; typedef linear_feedback_shift_engine<uint16_t, 16, 15, 4, 6> lf16;
#define LFS(n, E) VC(E11, lfsr_##n, "") { Lfsr<E>::step(false); } VC(E01, lfsr_##n, "") { Lfsr<E>::step(true); } \
  VC(E13, lfsr_##n, "") { one_word_equality<E>(vf_in64("x", 0, 0, Lfsr<E>::msk()), vf_in64("y", 0, 0, Lfsr<E>::msk())); } \
  VC(E06, lfsr_##n, "") { discard_counts(with_value<E>(vf_in64("x", 0, 0, Lfsr<E>::msk())), "linear_feedback_shift_engine<.*>::operator\\(\\)\\(", "linear_feedback_shift_engine<.*>::discard\\("); }
LFS(ta1, ta1) LFS(ta2, ta2) LFS(ta3, ta3) LFS(lf64, lf64) LFS(lf40, lf40) LFS(lf16, lf16)
// ---------------------------------------------------------------- splitmix64
VC(E11, splitmix64, "") {
  uint64_t x = vf_nd64("x", 0); splitmix64 e = with_value<splitmix64>(x);
  for(int i = 1; i <= 2; ++i) {
    uint64_t z = x + i * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; z ^= z >> 31;
    vf_check(e() == z, "output is the published mix of seed + i * golden gamma");
  }
  splitmix64 f = with_value<splitmix64>(x), f2 = f; vf_check(f.next() == f2(), "next and operator() agree");
  vf_check(e == with_value<splitmix64>(x + 2 * 0x9E3779B97F4A7C15ull), "the state advances by the golden gamma");
}
VC(E01, splitmix64, "") { splitmix64 e(vf_nd64("x", 0)); vf_check((splitmix64::min)() == 0 && (splitmix64::max)() == ~0ull, "declared range"); uint64_t v = e(); vf_check(v >= (e.min)() && v <= (e.max)(), "within"); }
VC(E13, splitmix64, "") { one_word_equality<splitmix64>(vf_nd64("x", 0), vf_nd64("y", 0)); }
VC(E06, splitmix64, "") { discard_counts(splitmix64(vf_nd64("x", 0)), "splitmix64::(next|operator\\(\\))\\(", "splitmix64::discard\\("); }
// ---------------------------------------------------------------- inversive congruential
template<class T, T m> T inverse_of(T x) {                // definition: the y with x*y = 1 mod m, and 0 for 0
  typedef typename boost::make_unsigned<T>::type U;
  T y = (T)vf_uf64("inv", 1, (uint64_t)x, 0, 0, 0);
  return y;
}
template<class T, T m> void invert_one(T x) {
  typedef const_mod<T, m> M; typedef typename boost::make_unsigned<T>::type U;
  T y = M::invert(x);
  u128 mm = m == 0 ? (u128)(U)~U(0) + 1 : (u128)m;
  if(x == 0) vf_check(y == 0, "zero is mapped to zero");
  else { vf_check((u128)(U)x * (U)y % mm == 1, "x * invert(x) = 1 mod m"); vf_check((u128)(U)y < mm, "a residue"); }
}
template<class T, T m> void invert_ok(uint64_t lim, bool odd) {
  use_mulmod_contract();
  T x = (T)vf_in64("x", 0, 0, lim); if(odd) vf_assume(x & 1);
  invert_one<T, m>(x);
}
template<class T, T m> void invert_all() { use_mulmod_contract(); for(uint64_t x = 0; x <= (uint64_t)(T)(m - 1); ++x) if(m != 0 || (x & 1)) invert_one<T, m>((T)x); vf_check(true, ""); }   // every residue
VC(E11, invert_u8_31, "unroll=1100 search=0.2") { invert_all<uint8_t, 31>(); }
VC(E11, invert_u8_251, "unroll=1100 search=0.2") { invert_all<uint8_t, 251>(); }
VC(E11, invert_s16_127, "unroll=1100 search=0.2") { invert_all<int16_t, 127>(); }
VC(E11, invert_u32_1021, "unroll=1100 search=0.2") { invert_all<uint32_t, 1021>(); }
VC(E11, invert_u8_full, "unroll=1100 search=0.2") { invert_all<uint8_t, 0>(); }
VC(E11, invert_u32_m31, "native_only search=8") { invert_ok<uint32_t, 2147483647>(2147483646, false); }
VC(E11, invert_s32_m31, "native_only search=4") { invert_ok<int32_t, 2147483647>(2147483646, false); }
VC(E11, invert_u64_m61, "native_only search=4") { invert_ok<uint64_t, 2305843009213693951ull>(2305843009213693950ull, false); }
template<class T, T a, T b, T p> void ice(bool range) {
  typedef inversive_congruential_engine<T, a, b, p> E; use_mulmod_contract();
  typedef typename boost::make_unsigned<T>::type U;
  uint64_t x = vf_in64("x", 0, b == 0 ? 1 : 0, (uint64_t)(U)(p - 1)); E e = with_value<E>(x);
  T inv;
  if(vf_symbolic()) { inv = (T)vf_in64("inv", x, 0, (uint64_t)(U)(p - 1)); if(b == 0) vf_assume(inv != 0); static T slot; slot = inv; struct L { static T f(T) { return slot; } };
    vf_replace("const_mod<.*>::invert\\(", (const void*)L::f); }
  else { inv = 0; for(T y = 1; x != 0 && y < 4000 && (u128)x * y % p != 1; ++y) inv = y + 1; if(x == 1) inv = 1; if(p > 4000) inv = const_mod<T, p>::invert(x); }
  T v = e();
  T want = (T)(((u128)(U)a * (U)inv + (U)b) % (u128)p);
  if(range) {
    vf_check((E::min)() == (b == 0 ? 1 : 0) && (E::max)() == p - 1, "declared range");
    if(b == 0 && vf_symbolic()) { vf_assert(v == want, "value"); return; }
    vf_check(v >= (E::min)() && v <= (E::max)(), "output within [min, max]"); return;
  }
  vf_check(v == want, "output is a * x^-1 + b mod p"); vf_check(e == with_value<E>(v), "the state is the last output");
}
#define ICO "backends=z3-int,cvc5-int,z3-bv"
#define ICE(n, ...) VC(E11, ice_##n, ICO) { ice<__VA_ARGS__>(false); } VC(E01, ice_##n, ICO) { ice<__VA_ARGS__>(true); } \
  VC(E13, ice_##n, ICO) { typedef inversive_congruential_engine<__VA_ARGS__> E; uint64_t x = vf_in64("x", 0, 1, (E::max)()), y = vf_in64("y", 0, 1, (E::max)()); \
    if(vf_symbolic()) { struct L { static E::result_type f(E::result_type x) { return (E::result_type)vf_uf64("inv", 1, x, 0, 0, 0) % (E::max)(); } }; vf_replace("const_mod<.*>::invert\\(", (const void*)L::f); } one_word_equality<E>(x, y); } \
  VC(E06, ice_##n, "") { typedef inversive_congruential_engine<__VA_ARGS__> E; discard_counts(with_value<E>(vf_in64("x", 0, 1, (E::max)())), "inversive_congruential_engine<.*>::operator\\(\\)\\(", "inversive_congruential_engine<.*>::discard\\("); }
ICE(hellekalek, uint32_t, 9102, 2147483647-36884165, 2147483647) ICE(s32, int32_t, 9102, 2147483647-36884165, 2147483647) ICE(zero, uint32_t, 9102, 0, 2147483647) ICE(small, uint32_t, 7, 3, 1021)
// ---------------------------------------------------------------- mixmax (N = 17, m = 2^36 + 1, p = 2^61 - 1)
static const uint64_t M61 = 2305843009213693951ull; static const int NM = 17;
inline uint64_t fold(uint64_t k) { return (k & M61) + (k >> 61); }                    // one folding round modulo 2^61-1
inline uint64_t rot36(uint64_t k) { return ((k << 36) & M61) ^ (k >> 25); }           // 2^36 * k mod 2^61-1 on 61-bit words
VC(E11, mixmax_fold, "ring=2305843009213693951 backends=z3-int,z3-bv") {               // lemmas: these are the arithmetic of GF(2^61-1)
  uint64_t k = vf_nd64("k", 0), a = vf_in64("a", 0, 0, M61), b = vf_in64("b", 0, 0, M61);
  vf_check(fold(k) == k - (k >> 61) * M61, "fold subtracts a multiple of 2^61-1"); vf_check(fold(a + b) <= M61, "and keeps sums in range");
  vf_check(a == ((a >> 25) << 25) + (a & 0x1ffffff) && rot36(a) == ((a & 0x1ffffff) << 36) + (a >> 25), "rot36 is multiplication by 2^36 (2^61 = 1)"); vf_check(rot36(a) <= M61, "rot36 stays in range");
}
VC(E11, mixmax_arith, "backends=z3-bv,z3-int") {
  mixmax e; uint64_t a = vf_in64("a", 0, 0, M61), b = vf_in64("b", 0, 0, M61), k = vf_nd64("k", 0);
  vf_check(e.MOD_MERSENNE(k) == fold(k), "MOD_MERSENNE"); vf_check(e.modadd(a, b) == fold(a + b), "modadd"); vf_check(e.MULWU(a) == rot36(a), "MULWU");
}
VC(E11, mixmax_fmodmul, "ring backends=z3-int,cvc5-int,z3-bv timeout=120") {
  mixmax e; uint64_t cum = vf_in64("cum", 0, 0, M61), s = vf_in64("s", 0, 0, M61), a = vf_in64("a", 0, 0, M61);
  uint64_t r = e.fmodmulM61(cum, s, a);
  u128 t = (u128)s * a; uint64_t lo = (uint64_t)t & M61, hi = (uint64_t)(t >> 61);
  vf_check(r == fold(lo + hi + cum), "cum + s*a modulo 2^61-1");
}
static void mixmax_state(mixmax& e, uint64_t* v, uint64_t sum, uint64_t counter) {
  e = mixmax(0); for(int j = 0; j < NM; ++j) e.S.V[j] = v[j]; e.S.sumtot = sum; e.S.counter = (int)counter;
}
static uint64_t mixmax_stub(void*, uint64_t*, uint64_t*, uint32_t, uint32_t, uint32_t, uint32_t) { return 0; }
static void no_skip() { vf_replace("mixmax_engine<.*>::apply_bigskip\\(", (const void*)mixmax_stub); }
VC(E11, mixmax_step, "") {
  no_skip(); uint64_t y[NM], v[NM]; for(int j = 0; j < NM; ++j) y[j] = vf_in64("y", j, 0, M61);
  uint64_t sum = vf_in64("sum", 0, 0, M61); mixmax e; mixmax_state(e, y, sum, NM);
  uint64_t out = e(), p = 0; v[0] = sum; uint64_t lo = sum, hi = 0, t = sum;
  for(int i = 1; i < NM; ++i) {
    uint64_t pi = fold(p + y[i]); t = fold(fold(t + rot36(p)) + pi); lo += t; if(lo < t) hi++; v[i] = fold(fold(v[i-1] + rot36(p)) + pi); p = pi;      // V(i) = V(i-1) + 2^36 P(i-1) + P(i),  P(i) = P(i-1) + Y(i)
    if(vf_symbolic()) { uint64_t n = vf_nd64("v", i); vf_assume(n == v[i] && n <= M61); vf_cut64(e.S.V[i], n, "new component i"); v[i] = n; }
    else vf_check(e.S.V[i] == v[i], "new component i");
  }
  vf_check(e.S.V[0] == v[0], "first component is the old sum");
  vf_check(out == v[1], "the block's first output is component 1"); vf_check(e.S.counter == 2, "and component 2 comes next");
  vf_check(e.S.sumtot == fold(fold(lo) + 8 * hi), "sum of the components modulo 2^61-1");
}
VC(E11, mixmax_serve, "") {
  no_skip(); uint64_t y[NM]; for(int j = 0; j < NM; ++j) y[j] = vf_in64("y", j, 0, M61);
  uint64_t sum = vf_in64("sum", 0, 0, M61);
  for(int c = 1; c < NM; ++c) {
    mixmax e; mixmax_state(e, y, sum, c); uint64_t out = e();
    vf_check(out == y[c], "components are delivered in order"); vf_check(e.S.counter == c + 1 && e.S.sumtot == sum, "and the position advances");
    for(int j = 0; j < NM; ++j) vf_check(e.S.V[j] == y[j], "the vector is unchanged");
  }
}
VC(E01, mixmax, "") {
  no_skip(); uint64_t y[NM]; for(int j = 0; j < NM; ++j) y[j] = vf_in64("y", j, 0, M61);
  uint64_t sum = vf_in64("sum", 0, 0, M61);
  mixmax e; mixmax_state(e, y, sum, NM);
  vf_check((mixmax::min)() == 0 && (mixmax::max)() == M61, "declared range");
  uint64_t out = e(); vf_check(out <= M61, "output within [min, max]"); vf_check(e.S.sumtot <= M61, "sum stays reduced");
  for(int i = 2; i < NM; ++i) vf_check(e() <= M61, "every component of the next block is within range");
  vf_check(e.S.V[0] <= M61, "invariant: every component stays within range");
}
VC(E13, mixmax, "") {
  no_skip(); uint64_t y[NM], x[NM]; uint64_t tot = 0; for(int j = 0; j < NM; ++j) { y[j] = vf_in64("y", j, 0, M61); x[j] = vf_in64("x", j, 0, M61); tot = fold(tot + y[j]); }
  uint64_t sx = vf_in64("sx", 0, 0, M61); bool all = sx == tot; for(int j = 0; j < NM; ++j) all = all & (x[j] == y[j]);
  for(int c = 1; c <= NM; ++c) {
    mixmax e, f; mixmax_state(e, y, tot, c); mixmax_state(f, x, sx, 3);
    vf_check((e == f) == (all & (c == 3)), "equal exactly if vector, sum and position agree"); vf_check((e != f) == !(e == f), "operator!= is the negation");
    mixmax g; { Tape t = written(e); vf_check(!t.glued, "numbers are separated"); read_state(g, t); }
    vf_assert(g == e, "reading what was written gives an equal engine");
    mixmax h = e; vf_check(h() == g(), "with the same next value"); vf_check(h == g, "and the same state after it");
  }
}
VC(E06, mixmax, "") { no_skip(); uint64_t y[NM]; for(int j = 0; j < NM; ++j) y[j] = vf_in64("y", j, 0, M61); mixmax e; mixmax_state(e, y, vf_in64("sum", 0, 0, M61), vf_in64("c", 0, 1, NM));
  discard_counts(e, "mixmax_engine<.*>::operator\\(\\)\\(", "mixmax_engine<.*>::discard\\("); }

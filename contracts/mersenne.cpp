// Mersenne twister: E01 (range), E04 (recurrence and tempering), E05 (equality, streams, phases), E06 (discard).
#define BOOST_RANDOM_MERSENNE_TWISTER_DISCARD_THRESHOLD vf_threshold
static unsigned long vf_threshold = 10000000;
#include <boost/random/mersenne_twister.hpp>
#include "vf_ghost.hpp"
using namespace boost::random;
typedef mersenne_twister_engine<uint32_t,32,5,2,31,0x9908b0df,11,0xffffffff,7,0x9d2c5680,15,0xefc60000,18,1812433253> mt_s32;
typedef mersenne_twister_engine<uint32_t,32,4,3,19,0xccab8ee7,11,0xffffffff,7,0x31b6ab00,15,0xffe50000,17,1812433253> mt_t32;
typedef mersenne_twister_engine<uint32_t,31,4,2,12,0x4cab8ee7,11,0x7fffffff,7,0x31b6ab00,15,0x7fe50000,17,1812433253> mt_s31;
typedef mersenne_twister_engine<uint64_t,64,4,2,31,0xb5026f5aa96619e9ull,29,0x5555555555555555ull,17,0x71d67fffeda60000ull,37,0xfff7eee000000000ull,43,6364136223846793005ull> mt_s64;
typedef mersenne_twister_engine<uint64_t,48,9,4,20,0xd026f5aa9661ull,29,0x555555555555ull,17,0x71d67fffedaull,30,0x7eee00000000ull,37,6364136223846793005ull> mt_s48;
template<class E> struct Mt {
  typedef typename E::result_type U;
  static const size_t w = E::word_size, n = E::state_size, m = E::shift_size, r = E::mask_bits;
  static U msk() { return (U)(w == 64 ? ~uint64_t(0) : (uint64_t(1) << (w % 64)) - 1); }
  static U low() { return (U)((uint64_t(1) << r) - 1); }
  static U step(U x0, U x1, U xm) { U y = (x0 & ~low()) | (x1 & low()); return xm ^ (y >> 1) ^ (U)((x1 & 1) * E::xor_mask); }
  static U temper(U z) {
    z ^= (z >> E::tempering_u) & E::tempering_d; z ^= (z << E::tempering_s) & E::tempering_b;
    z ^= (z << E::tempering_t) & E::tempering_c; return z ^ (z >> E::tempering_l);
  }
  static U normal0(const U* x) {
    U y = x[m-1] ^ x[n-1], y0 = (y >> (w-1) & 1) ? ((y ^ E::xor_mask) << 1 | 1) : y << 1;
    return (x[0] & ~low()) | (y0 & low());
  }
  static void words(const char* nm, U* x) { for(size_t j = 0; j < n; ++j) x[j] = w <= 32 ? (U)(vf_nd32(nm, j) & msk()) : (U)(vf_nd64(nm, j) & msk()); }
  static void load(E& e, const U* x) {        // through the public stream operator
    Tape t; for(size_t j = 0; j < n; ++j) { t.kind[2*j] = Tape::INT; t.val[2*j] = x[j]; t.kind[2*j+1] = Tape::CHR; t.val[2*j+1] = ' '; }
    t.n = 2*n - 1; GIn is(&t); is >> e; vf_assert(!is.fail(), "a written state is accepted");
  }
  static void state_is(const E& e, const U* x, const char* msg) { StateOf s(e); for(size_t j = 0; j < n; ++j) vf_check((U)s.t.val[2*j] == x[j], msg); }
  // one block from an arbitrary normalized state at a block boundary; the state it ends in is again of that form, so
  // by induction this covers every output of every reachable state
  static void recur() {
    U x[2*n]; words("x", x); x[0] = normal0(x);
    E e; load(e, x); state_is(e, x, "reading a state restores it");
    for(size_t k = 0; k < n; ++k) {
      x[k+n] = step(x[k], x[k+1], x[k+m]);
      U v = e();
      vf_check(v == temper(x[k+n]), "output is the tempering of x(k+m) ^ ((upper x(k) | lower x(k+1)) A)");
    }
    state_is(e, x + n, "after a block the state is the last n words");
    vf_check(x[n] == normal0(x + n), "the new state is in normal form again");
  }
  static void range() {
    U x[n]; words("x", x); x[0] = normal0(x); E e; load(e, x);
    vf_check((E::min)() == 0 && (E::max)() == msk(), "declared range is [0, 2^w-1]");
    for(size_t k = 0; k < n + 1; ++k) { U v = e(); vf_check(v >= (E::min)() && v <= (E::max)(), "output within [min, max]"); }
  }
  // phases: engine a took p steps inside a block, engine b starts a block at the same point
  static void phases(size_t p0, size_t p1, size_t extra) {
    for(size_t p = p0; p <= p1; ++p) {
      U x[3*n]; words("x", x); x[0] = normal0(x);
      for(size_t k = 0; k < 2*n; ++k) x[k+n] = step(x[k], x[k+1], x[k+m]);
      E a; load(a, x); for(size_t k = 0; k < p; ++k) a();
      state_is(a, x + p, "what is written is the last n words, at any position");
      E b; load(b, x + p);
      vf_assert(a == b, "equal to the engine at the same point with another position"); vf_check(b == a, "symmetric"); vf_check(!(a != b), "operator!= agrees");
      E c = a; for(size_t k = 0; k < extra; ++k) { U u = a(), v = b(); vf_check(u == v, "equal engines return equal values"); vf_assert(a == b, "and remain equal"); }
      vf_check(extra == 0 || c() == temper(x[p+n]), "copies are independent");
    }
  }
  // equality implies equal states (hence equal futures), for any two positions
  static void equal(size_t p, size_t q) {
    U x[2*n], y[2*n]; words("x", x); words("y", y); x[0] = normal0(x); y[0] = normal0(y);
    E a, b; load(a, x); load(b, y);
    for(size_t k = 0; k < n; ++k) { x[k+n] = step(x[k], x[k+1], x[k+m]); y[k+n] = step(y[k], y[k+1], y[k+m]); }
    for(size_t k = 0; k < p; ++k) a();
    for(size_t k = 0; k < q; ++k) b();
    bool eq = a == b, same = true; for(size_t k = 0; k < n; ++k) same = same & (x[p+k] == y[q+k]);
    vf_check(eq == same, "engines compare equal exactly if the n words that determine the future agree");
  }
};
#define MT(name, E, o) VC(E04, recur_##name, o) { Mt<E>::recur(); } VC(E01, mt_##name, o) { Mt<E>::range(); }
MT(mt11213b, mt11213b, "unroll=2000") MT(mt19937, mt19937, "unroll=2000") MT(mt19937_64, mt19937_64, "unroll=2000")
MT(s32, mt_s32, "") MT(t32, mt_t32, "") MT(s31, mt_s31, "") MT(s64, mt_s64, "") MT(s48, mt_s48, "")
#define PH(name, E) VC(E05, phases_##name, "") { Mt<E>::phases(0, E::state_size, E::state_size + 1); }
PH(s32, mt_s32) PH(t32, mt_t32) PH(s31, mt_s31) PH(s64, mt_s64) PH(s48, mt_s48)
#define EQ(name, E) VC(E05, equal_##name, "") { for(size_t p = 0; p <= E::state_size; ++p) { Mt<E>::equal(p, 0); Mt<E>::equal(0, p); Mt<E>::equal(1, p); Mt<E>::equal(p, E::state_size / 2); } }
EQ(s32, mt_s32) EQ(t32, mt_t32) EQ(s31, mt_s31) EQ(s64, mt_s64)
#define PR(name, E) VC(E05, phases_##name, "unroll=2000") { Mt<E>::phases(E::state_size - 1, E::state_size, 0); }
PR(mt11213b, mt11213b) PR(mt19937, mt19937) PR(mt19937_64, mt19937_64)
// discard: below the threshold z calls, by loop invariant over every z; above it the jump, whose polynomial arithmetic
// is A02's, checked here for every state of small engines and listed z (bounded in z)
static uint64_t mt_calls; 
template<class E> typename E::result_type count_call(E* e) { ++mt_calls; e->x[0] = (typename E::result_type)vf_uf64("mtstep", 2, e->x[0], mt_calls, 0, 0); return 0; }
struct CountCtx { uint64_t start; };
static bool calls_inv(CountCtx* c, uint64_t k) { return mt_calls == c->start + k; }
template<class E> void discard_loop() {
  uint64_t z = vf_symbolic() ? vf_nd64("z", 0) : vf_in64("z", 0, 0, 3 * E::state_size);
  typename Mt<E>::U x[E::state_size]; Mt<E>::words("x", x); x[0] = Mt<E>::normal0(x);
  E e; Mt<E>::load(e, x);
  vf_threshold = ~0ul;
  if(!vf_symbolic()) { E f = e; e.discard(z); for(uint64_t k = 0; k < z; ++k) f(); vf_assert(e == f && e.i == f.i, "discard(z) is z calls"); return; }
  mt_calls = 0; CountCtx c = {0};
  vf_replace("mersenne_twister_engine<.*>::operator\\(\\)\\(", (const void*)count_call<E>);
  vf_loop_inv("mersenne_twister_engine<.*>::discard\\(", (const void*)calls_inv, &c);
  e.discard(z);
  vf_check(mt_calls == z, "discard(z) makes exactly z calls");
}
template<class E> void discard_jump() {
  typename Mt<E>::U x[E::state_size]; Mt<E>::words("x", x); x[0] = Mt<E>::normal0(x);
  uint64_t z = vf_in64("z", 0, 0, 3000); int p = (int)vf_in64("p", 0, 0, E::state_size);
  E e; Mt<E>::load(e, x); for(int i = 0; i < p; ++i) e();
  E f = e; for(uint64_t i = 0; i < z; ++i) f();
  vf_threshold = 0; e.discard(z); vf_threshold = 10000000;
  vf_check(e == f, "the jump equals z calls"); vf_check(e() == f(), "and the next value agrees");
}
typedef mersenne_twister_engine<uint32_t,8,4,2,5,0xb9,3,0xff,2,0x9c,3,0xec,4,69> mt_w8;
VC(E06, mt_loop_s32, "") { discard_loop<mt_s32>(); }
VC(E06, mt_loop_mt19937, "unroll=2000") { discard_loop<mt19937>(); }
VC(E06, mt_loop_mt19937_64, "unroll=2000") { discard_loop<mt19937_64>(); }
#define JMP(name, E) VC(E06, mt_jump_##name, "native_only bounded search=4") { discard_jump<E>(); }
JMP(w8, mt_w8) JMP(s32, mt_s32) JMP(t32, mt_t32) JMP(s31, mt_s31) JMP(s64, mt_s64) JMP(s48, mt_s48)

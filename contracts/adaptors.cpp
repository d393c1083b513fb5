// Engine adaptors: E01 (combined engines), E06, E12, E13.
#include <boost/random/additive_combine.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/taus88.hpp>
#include <boost/random/linear_congruential.hpp>
#include "vf_ghost.hpp"
#include "vf_util.hpp"
using namespace boost::random;
typedef unsigned __int128 u128;
template<class E> void read_state(E& e, Tape& t) { GIn is(&t); is >> e; vf_assert(!is.fail(), "a written state is accepted"); }
template<class E> Tape written(const E& e) { Tape t; GOut os(&t); os << e; return t; }
static uint64_t calls;
template<class E> typename E::result_type count_call(E*) { ++calls; return 0; }
static bool calls_inv(uint64_t*, uint64_t k) { return calls == k; }
template<class E> void discard_counts(E e, const char* op, const char* dis) {
  uint64_t z = vf_symbolic() ? vf_nd64("z", 0) : vf_in64("z", 0, 0, 100);
  if(!vf_symbolic()) { E f = e; e.discard(z); for(uint64_t k = 0; k < z; ++k) f(); vf_assert(e == f, "discard(z) is z calls"); return; }
  calls = 0; uint64_t c = 0;
  vf_replace(op, (const void*)count_call<E>);
  vf_loop_inv(dis, (const void*)calls_inv, &c);
  e.discard(z);
  vf_check(calls == z, "discard(z) makes exactly z calls");
}
// streams and equality of an adaptor whose state is what its operator<< writes
template<class E> void round_trip(const E& a) {
  E g = a; g(); { Tape t = written(a); vf_check(!t.glued, "numbers are separated"); read_state(g, t); }
  vf_assert(g == a && !(g != a), "reading what was written gives an equal engine");
  E f = a; vf_check(f() == g(), "with the same next value"); vf_check(f == g, "and the same state after it"); vf_check(f() == g(), "and so on");
}
typedef GEng<uint32_t, 0, 0xffffffffu, 1> G32; typedef GEng<uint32_t, 1, 2147483646u, 2> GMin; typedef GEng<uint32_t, 5, 20, 3> GSmall; typedef GEng<uint64_t, 0, ~0ull, 4> G64; typedef GEng<uint64_t, 3, 0x1000000000002ull, 5> G48; typedef GEng<uint32_t, 0, 714024, 6> GKr;
typedef GEng<uint16_t, 0, 0xffff, 7> G16; typedef GEng<int32_t, -7, 2147483000, 8> GSgn; typedef GEng<uint32_t, 0, 255, 9> G8; typedef GEng<uint64_t, 1, 0xfffffffffffffff0ull, 10> GHuge; typedef GEng<uint32_t, 1, 100, 11> G100;
template<class G> G base(uint64_t i) { return G(vf_nd64("id", i), 0); }
// ---------------------------------------------------------------- discard_block
template<class G, size_t p, size_t r> struct Blk {
  typedef discard_block_engine<G, p, r> E;
  static void rule() {
    const G g = base<G>(0); E e(g);
    for(uint64_t j = 0; j < 2*r + 1; ++j) {
      vf_check(e() == G::value(g.id, (j / r) * p + j % r), "the first r of every p base values");
      vf_check(e.base().k == (j / r) * p + j % r + 1 && e.base().id == g.id, "base() has advanced by what was used or skipped");
    }
    vf_check((E::min)() == (G::min)() && (E::max)() == (G::max)(), "the range of the base");
  }
  static E at(uint64_t id, uint64_t k, uint64_t n) { const G g(id, 0); E e(g); e._rng.k = k; e._n = n; return e; }
  static void equal() {
    uint64_t i1 = vf_nd64("id", 0), i2 = vf_nd64("id", 1), k1 = vf_nd64("k", 0), k2 = vf_nd64("k", 1), n1 = vf_in64("n", 0, 0, r), n2 = vf_in64("n", 1, 0, r);
    E a = at(i1, k1, n1), b = at(i2, k2, n2);
    vf_check((a == b) == ((i1 == i2) & (k1 == k2) & (n1 == n2)), "equal exactly if base and position in the block agree"); vf_check((a != b) == !(a == b), "operator!= is the negation");
    round_trip(a);
  }
  static void dis() { discard_counts(at(vf_nd64("id", 0), vf_nd64("k", 0), vf_in64("n", 0, 0, r)), "discard_block_engine<.*>::operator\\(\\)\\(", "discard_block_engine<.*>::discard\\("); }
};
#define BLK(n, ...) VC(E12, block_##n, "") { Blk<__VA_ARGS__>::rule(); } VC(E13, block_##n, "") { Blk<__VA_ARGS__>::equal(); } VC(E06, block_##n, "") { Blk<__VA_ARGS__>::dis(); }
BLK(11_3, G32, 11, 3) BLK(5_5, GMin, 5, 5) BLK(7_1, G64, 7, 1) BLK(223_23, G32, 223, 23) BLK(389_24, G48, 389, 24)
// ---------------------------------------------------------------- additive_combine, xor_combine
template<int ID, class T, T m> struct GMod : GEng<T, 1, (T)(m - 1), ID> { typedef GEng<T, 1, (T)(m - 1), ID> B; static const T modulus = m; GMod() {} GMod(uint64_t i, int) : B(i, 0) {} };
template<class A, class B> struct Add {
  typedef additive_combine_engine<A, B> E; typedef typename E::result_type T;
  static E at(uint64_t i) { E e; e._mlcg1 = A(vf_nd64("id1", i), 0); e._mlcg2 = B(vf_nd64("id2", i), 0); e._mlcg1.k = vf_nd64("k1", i); e._mlcg2.k = vf_nd64("k2", i); return e; }
  static void rule(bool range) {
    E e = at(0); E f = e;
    for(int j = 0; j < 2; ++j) {
      __int128 x = A::value(f._mlcg1.id, f._mlcg1.k + j), y = B::value(f._mlcg2.id, f._mlcg2.k + j), m1 = A::modulus - 1;
      T v = e();
      if(range) { vf_check((E::min)() == 1 && (E::max)() == A::modulus - 1, "declared range"); vf_check(v >= (E::min)() && v <= (E::max)(), "output within [min, max]"); continue; }
      __int128 d = x - y; if(d < 1) d += m1;
      vf_check(v == d, "difference of one value of each base, taken mod m1 - 1 into [1, m1 - 1]");
      vf_check(e._mlcg1.k == f._mlcg1.k + j + 1 && e._mlcg2.k == f._mlcg2.k + j + 1, "one value of each base");
    }
  }
  static void equal() {
    E a = at(0), b = at(1);
    vf_check((a == b) == ((a._mlcg1 == b._mlcg1) & (a._mlcg2 == b._mlcg2)), "equal exactly if both bases are"); vf_check((a != b) == !(a == b), "operator!= is the negation"); round_trip(a);
  }
  static void dis() { E e = at(0), f = e; uint64_t z = vf_nd64("z", 0); e.discard(z); f._mlcg1.k += z; f._mlcg2.k += z; vf_check(e == f, "discard(z) skips z values of each base"); }
};
typedef GMod<21, uint32_t, 2147483563> A1; typedef GMod<22, uint32_t, 2147483399> A2; typedef GMod<23, int32_t, 2147483563> S1; typedef GMod<24, int32_t, 2147483399> S2;
#define ADD(n, A, B) VC(E12, additive_##n, "") { Add<A, B>::rule(false); } VC(E01, additive_##n, "") { Add<A, B>::rule(true); } VC(E13, additive_##n, "") { Add<A, B>::equal(); } VC(E06, additive_##n, "") { Add<A, B>::dis(); }
ADD(ecuyer, A1, A2) ADD(signed, S1, S2)
template<class A, int s1, class B, int s2> struct Xor {
  typedef xor_combine_engine<A, s1, B, s2> E; typedef typename E::result_type T;
  static E at(uint64_t i) { const A a(vf_nd64("id1", i), 0); const B b(vf_nd64("id2", i), 0); E e(a, b); e._rng1.k = vf_nd64("k1", i); e._rng2.k = vf_nd64("k2", i); return e; }
  static void rule(bool range) {
    E e = at(0); E f = e;
    for(int j = 0; j < 2; ++j) {
      T x = A::value(f._rng1.id, f._rng1.k + j), y = B::value(f._rng2.id, f._rng2.k + j), v = e();
      if(range) { vf_check(v >= (E::min)() && v <= (E::max)(), "output within [min, max]"); continue; }
      vf_check(v == (T)((x << s1) ^ (y << s2)), "exclusive or of the shifted base values");
      vf_check(e.base1().k == f._rng1.k + j + 1 && e.base2().k == f._rng2.k + j + 1 && e.base1().id == f._rng1.id && e.base2().id == f._rng2.id, "one value of each base");
    }
  }
  static void equal() {
    E a = at(0), b = at(1);
    vf_check((a == b) == ((a._rng1 == b._rng1) & (a._rng2 == b._rng2)), "equal exactly if both bases are"); vf_check((a != b) == !(a == b), "operator!= is the negation"); round_trip(a);
  }
  static void dis() { E e = at(0), f = e; uint64_t z = vf_nd64("z", 0); e.discard(z); f._rng1.k += z; f._rng2.k += z; vf_check(e == f, "discard(z) skips z values of each base"); }
};
#define XR(n, ...) VC(E12, xor_##n, "") { Xor<__VA_ARGS__>::rule(false); } VC(E01, xor_##n, "") { Xor<__VA_ARGS__>::rule(true); } VC(E13, xor_##n, "") { Xor<__VA_ARGS__>::equal(); } VC(E06, xor_##n, "") { Xor<__VA_ARGS__>::dis(); }
XR(full, G32, 0, G32, 0) XR(shift, GMin, 1, G16, 3) XR(min, GMin, 0, GMin, 0)
typedef GEng<uint32_t, 0, 0xffffffffu, 31> T1; typedef GEng<uint32_t, 0, 0xffffffffu, 32> T2; XR(full2, T1, 0, T2, 0)
VC(E12, taus88, "") {                                       // taus88 as declared: three shift registers
  typedef linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12> L1; typedef linear_feedback_shift_engine<uint32_t, 32, 29, 2, 4> L2; typedef linear_feedback_shift_engine<uint32_t, 32, 28, 3, 17> L3;
  taus88 e; L1 a; L2 b; L3 c; a.value = vf_nd32("x", 0); b.value = vf_nd32("x", 1); c.value = vf_nd32("x", 2);
  { Tape t; GOut os(&t); os << a << ' ' << b << ' ' << c; read_state(e, t); }
  uint32_t x = a() ^ b() ^ c(); vf_check(e() == x, "the exclusive or of the three registers"); x = a() ^ b() ^ c(); vf_check(e() == x, "again");
}
// ---------------------------------------------------------------- shuffle_order
template<class G, size_t k> struct Shuf {
  typedef shuffle_order_engine<G, k> E; typedef typename E::result_type T; typedef typename boost::make_unsigned<T>::type U;
  static E fresh() { const G g = base<G>(0); return E(g); }
  static void init() {
    const G g = base<G>(0); E e(g);
    for(size_t i = 0; i < k; ++i) vf_check(e.v[i] == G::value(g.id, i), "the table is filled with the first k values");
    vf_check(e.y == G::value(g.id, k) && e._rng.k == k + 1, "and the next one selects"); vf_check((E::min)() == (G::min)() && (E::max)() == (G::max)(), "the range of the base");
  }
  static E any(uint64_t s) {                                // any state the engine can be in
    const G g = base<G>(s); E e(g); e._rng.k = vf_nd64("k", s);
    for(size_t i = 0; i < k; ++i) e.v[i] = (T)((U)(G::min)() + (U)vf_in64("v", i + s * k, 0, (U)(G::max)() - (U)(G::min)()));
    e.y = (T)((U)(G::min)() + (U)vf_in64("y", s, 0, (U)(G::max)() - (U)(G::min)())); return e;
  }
  static void rule() {
    use_mulmod_contract();
    E e = any(0), o = e; T v = e();
    u128 j = (u128)(U)((U)o.y - (U)(G::min)()) * k / ((u128)(U)((U)(G::max)() - (U)(G::min)()) + 1);
    vf_assert(j < k, "the index is in the table");
    bool hit = false;
    for(size_t i = 0; i < k; ++i) if(i == j) { vf_check(v == o.v[i], "the value at floor(k (y - min) / (max - min + 1)) is returned"); vf_check(e.v[i] == G::value(o._rng.id, o._rng.k), "and replaced by the next base value"); hit = true; }
      else vf_check(e.v[i] == o.v[i], "the rest of the table is unchanged");
    vf_check(hit, "one entry is used"); vf_check(e.y == v, "the returned value selects next"); vf_check(e._rng.k == o._rng.k + 1, "one base value is consumed");
  }
  static void equal() {
    E a = any(0), b = any(1); bool s = (a._rng == b._rng) & (a.y == b.y); for(size_t i = 0; i < k; ++i) s = s & (a.v[i] == b.v[i]);
    vf_check((a == b) == s, "equal exactly if base, table and selector agree"); vf_check((a != b) == !s, "operator!= is the negation");
    E g = b; { Tape t = written(a); vf_check(!t.glued, "numbers are separated"); read_state(g, t); }
    vf_assert(g == a, "reading what was written gives an equal engine");
  }
  static void dis() { discard_counts(any(0), "shuffle_order_engine<.*>::operator\\(\\)\\(", "shuffle_order_engine<.*>::discard\\("); }
};
#define SO "unroll=300 backends=z3-int,z3-bv,cvc5-int"
#define SH(n, ...) VC(E12, shuffle_init_##n, "unroll=300") { Shuf<__VA_ARGS__>::init(); } VC(E12, shuffle_##n, SO) { Shuf<__VA_ARGS__>::rule(); } VC(E13, shuffle_##n, "unroll=300") { Shuf<__VA_ARGS__>::equal(); } VC(E06, shuffle_##n, "unroll=300") { Shuf<__VA_ARGS__>::dis(); }
SH(g32_5, G32, 5) SH(min_8, GMin, 8) SH(small_7, GSmall, 7) SH(g64_6, G64, 6) SH(g48_3, G48, 3) SH(sgn_4, GSgn, 4) SH(one, GMin, 1) SH(huge_5, GHuge, 5) SH(kreutzer, GKr, 97) SH(g16, G16, 10)
VC(E12, shuffle_init_knuth_b, "unroll=300") { typedef GEng<uint32_t, 1, 2147483646u, 2> G; Shuf<G, 256>::init(); }
VC(E12, shuffle_knuth_b, SO) { typedef GEng<uint32_t, 1, 2147483646u, 2> G; Shuf<G, 256>::rule(); }
// ---------------------------------------------------------------- independent_bits
// The standard's assembly, run as an automaton on every value the engine takes from its base: it knows when a value
// must be rejected, how many bits it contributes and when the result is complete.
static struct IB { uint64_t n, n0, w0, k; uint64_t y0, y1; uint64_t y0all, y1all; uint64_t S, done; } ib;
template<class T, T lo, T hi> struct SEng : GEng<T, lo, hi, 40> {
  typedef GEng<T, lo, hi, 40> B;
  T operator()() {
    T v = B::operator()(); typedef typename boost::make_unsigned<T>::type U; uint64_t u = (U)((U)v - (U)lo);
    vf_assert(!ib.done, "no base value is taken once the result is complete");
    bool first = ib.k < ib.n0;
    if(first ? (ib.y0all || u < ib.y0) : (ib.y1all || u < ib.y1)) {
      uint64_t w = first ? ib.w0 : ib.w0 + 1;
      ib.S = (w >= 64 ? 0 : ib.S << w) + (w >= 64 ? u : u & ((uint64_t(1) << w) - 1));
      ib.k++; ib.done = ib.k == ib.n;
    }
    return v;
  }
};
template<class T, T lo, T hi, size_t w, class R> void ibits() {
  typedef SEng<T, lo, hi> G; typedef typename boost::make_unsigned<T>::type U;
  u128 R1 = (u128)(U)((U)hi - (U)lo) + 1; unsigned m = 0; while(((u128)1 << (m + 1)) <= R1) ++m;    // floor(log2(range))
  uint64_t n = (w + m - 1) / m; u128 y0, y1;
  for(;; ++n) {
    ib.n = n; ib.w0 = w / n; ib.n0 = n - w % n;
    y0 = (R1 >> ib.w0) << ib.w0; y1 = ib.w0 + 1 > m ? 0 : (R1 >> (ib.w0 + 1)) << (ib.w0 + 1);
    if(R1 - y0 <= y0 / n) break;
    if(n > (w + m - 1) / m) break;
  }
  ib.y0 = (uint64_t)y0; ib.y0all = y0 >> 64 != 0; ib.y1 = (uint64_t)y1; ib.y1all = y1 >> 64 != 0;
  ib.k = 0; ib.S = 0; ib.done = 0;
  vf_loop_abstract("independent_bits_engine<.*>::operator\\(\\)\\(");
  independent_bits_engine<G, w, R> e; e._base.id = vf_nd64("id", 0); e._base.k = vf_nd64("k", 0);
  if(!vf_symbolic()) { e._base.k &= 0xffff; }
  R v = e();
  vf_check(ib.done == 1, "all chunks were taken"); vf_check((uint64_t)v == ib.S, "the result is the concatenated low bits of accepted values");
  vf_check((e.min)() == 0 && (uint64_t)(e.max)() == (w == 64 ? ~0ull : (1ull << w % 64) - 1), "declared range"); vf_check(v <= (e.max)(), "within w bits");
}
#define IBT(n, ...) VC(E12, bits_##n, "") { ibits<__VA_ARGS__>(); }
IBT(minstd_24, uint32_t, 1, 2147483646u, 24, uint32_t) IBT(minstd_32, uint32_t, 1, 2147483646u, 32, uint32_t) IBT(minstd_64, uint32_t, 1, 2147483646u, 64, uint64_t)
IBT(u32_16, uint32_t, 0, 0xffffffffu, 16, uint32_t) IBT(u32_32, uint32_t, 0, 0xffffffffu, 32, uint32_t) IBT(u32_33, uint32_t, 0, 0xffffffffu, 33, uint64_t) IBT(u32_64, uint32_t, 0, 0xffffffffu, 64, uint64_t)
IBT(u64_1, uint64_t, 0, ~0ull, 1, uint32_t) IBT(u64_64, uint64_t, 0, ~0ull, 64, uint64_t) IBT(kr_64, uint32_t, 0, 714024, 64, uint64_t) IBT(kr_7, uint32_t, 0, 714024, 7, uint32_t) IBT(small_8, uint32_t, 5, 24, 8, uint32_t) IBT(d6_17, uint32_t, 1, 6, 17, uint32_t)
IBT(s32_40, int32_t, -7, 2147483000, 40, uint64_t) IBT(big_61, uint64_t, 1, 0xfffffffffffffff0ull, 61, uint64_t) IBT(bool_5, uint32_t, 0, 1, 5, uint32_t) IBT(u16_30, uint32_t, 0, 65535, 30, uint32_t)
VC(E13, bits, "") { typedef independent_bits_engine<G32, 40, uint64_t> E; const G32 g = base<G32>(0), h = base<G32>(1); E a(g), b(h); a._base.k = vf_nd64("k", 0); b._base.k = vf_nd64("k", 1);
  vf_check((a == b) == (a._base == b._base), "equal exactly if the bases are"); vf_check((a != b) == !(a == b), "operator!= is the negation"); round_trip(a); }
VC(E06, bits, "") { typedef independent_bits_engine<G32, 40, uint64_t> E; const G32 g = base<G32>(0); E a(g); a._base.k = vf_nd64("k", 0); discard_counts(a, "independent_bits_engine<.*>::operator\\(\\)\\(", "independent_bits_engine<.*>::discard\\("); }

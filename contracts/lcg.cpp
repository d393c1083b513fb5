// Linear congruential engines: E01 (range), E02 (step), E03 (discard), E07 (seeding).
#include <boost/random/linear_congruential.hpp>
#include "vf.hpp"
#include "vf_util.hpp"
typedef unsigned __int128 u128;
using boost::random::linear_congruential_engine;

// integer residue class of v (spec): value of IntType as mathematical integer mod m
template<class T> T lcg_next(T a, T x, T c, T m) {     // definition (a*x + c) mod m, m==0 means 2^bits
  u128 s = (u128)a * (u128)x + (u128)c;
  return m == 0 ? (T)s : (T)(s % (u128)m);
}
template<class T> T mod_inverse(T a, T m) {            // concrete Euclid on template constants
  __int128 r0 = m, r1 = a, t0 = 0, t1 = 1;
  while(r1) { __int128 q = r0 / r1, t = r0 - q * r1; r0 = r1; r1 = t; t = t0 - q * t1; t0 = t1; t1 = t; }
  return r0 == 1 ? (T)(((t0 % (__int128)m) + m) % m) : 0;
}
template<class T, T a, T c, T m> void lcg_step(bool range) {
  typedef linear_congruential_engine<T, a, c, m> E;
  typedef typename boost::make_unsigned<T>::type U;
  use_mulmod_contract();
  T lo = c == 0 ? 1 : 0, hi = (T)(m - 1);
  U x0u = (U)vf_in64("x", 0, (uint64_t)lo, (uint64_t)(U)hi);
  T x0 = (T)x0u;
  E e; e.seed(x0);
  T r = e();
  T s = lcg_next<T>(a, x0, c, m);
  if(!range) {
    vf_assert(r == s, "output is (a*x + c) mod m");
    E f = e;
    T r2 = f();
    vf_assert(r2 == lcg_next<T>(a, s, c, m), "second output continues from the first");
    vf_assert(e == E(r) , "state equals last output");
  } else {
    vf_assert((E::min)() == lo && (E::max)() == hi, "declared range is [c==0 ? 1 : 0, m-1]");
    vf_assert(r == s, "output is (a*x + c) mod m");
    if(c == 0) {
      T inv = mod_inverse<T>(a, m);
      vf_assert(inv != 0, "multiplier invertible");
      vf_assert((T)((u128)inv * s % (u128)m) == x0, "step is injective");
    }
    vf_assert(r >= (E::min)() && r <= (E::max)(), "output within [min, max]");
  }
}
#define LCG(name, T, a, c, m, o) \
  VC(E02, lcg_##name, o) { lcg_step<T, a, c, m>(false); } \
  VC(E01, lcg_##name, o) { lcg_step<T, a, c, m>(true); }
#define O "backends=z3-int,z3-bv,cvc5-int"
LCG(minstd_rand0, uint32_t, 16807, 0, 2147483647, O)
LCG(minstd_rand, uint32_t, 48271, 0, 2147483647, O)
LCG(minstd_signed, int32_t, 16807, 0, 2147483647, O)
LCG(ecuyer1, int32_t, 40014, 0, 2147483563, O)
LCG(ecuyer2, int32_t, 40692, 0, 2147483399, O)
LCG(kreutzer, uint32_t, 1366, 150889, 714025, O)
LCG(rand48, uint64_t, 0x5DEECE66Dull, 0xB, (uint64_t)1 << 48, O)
LCG(full32, uint32_t, 1664525, 1013904223, 0, O)
LCG(full64, uint64_t, 6364136223846793005ull, 1442695040888963407ull, 0, O)
LCG(m61, uint64_t, 437799614237992725ull, 0, 2305843009213693951ull, O)
LCG(m63s, int64_t, 3512401965023503517ll, 0, 9223372036854775783ll, O)
LCG(m32big, uint32_t, 279470273u, 0, 4294967291u, O)
LCG(small16, uint16_t, 75, 74, 0, O)
LCG(schrage_c, int32_t, 16807, 12345, 2147483647, O)
LCG(general_c, uint32_t, 279470273u, 4294967290u, 4294967291u, O)
LCG(m61_c, uint64_t, 437799614237992725ull, 2305843009213693950ull, 2305843009213693951ull, "ring=2305843009213693951 split backends=z3-int,z3-bv,cvc5-int")
LCG(small_c, int16_t, 25, 7, 211, O)

// The modular arithmetic underneath, for every pair of residues
template<class T, T m> void const_mod_ops() {
  typedef boost::random::const_mod<T, m> M;
  typedef typename boost::make_unsigned<T>::type U;
  use_mulmod_contract();
  T hi = (T)(m - 1); U uhi = (U)hi;
  T a = (T)(U)vf_in64("a", 0, 0, uhi), x = (T)(U)vf_in64("x", 0, 0, uhi), c = (T)(U)vf_in64("c", 0, 0, uhi);
  u128 mm = m == 0 ? (u128)uhi + 1 : (u128)m;
  vf_check(M::apply(x) == x, "apply is the identity on residues");
  vf_check((u128)(U)M::add(x, c) == ((u128)(U)x + (u128)(U)c) % mm, "add is addition mod m");
  vf_check(M::mult(0, (T)vf_nd64("any", 0)) == 0, "0 * anything is 0");
  vf_check((u128)(U)M::mult(a, x) == ((u128)(U)a * (u128)(U)x) % mm, "mult is multiplication mod m");
}
template<class T, T m> T mult_spec(T a, T x) {         // contract of const_mod::mult, proved above
  typedef typename boost::make_unsigned<T>::type U;
  U uhi = (U)(T)(m - 1);
  vf_assert((U)a <= uhi && (a == 0 || (U)x <= uhi), "mult is called on residues (or with 0)");
  u128 mm = m == 0 ? (u128)uhi + 1 : (u128)m;
  return (T)(((u128)(U)a * (u128)(U)x) % mm);
}
template<class T, T m> void const_mod_mult_add() {
  typedef boost::random::const_mod<T, m> M;
  typedef typename boost::make_unsigned<T>::type U;
  vf_replace("const_mod<.*>::mult\\(", (const void*)(T(*)(T, T))mult_spec<T, m>);
  U uhi = (U)(T)(m - 1);
  T a = (T)(U)vf_in64("a", 0, 0, uhi), x = (T)(U)vf_in64("x", 0, 0, uhi), c = (T)(U)vf_in64("c", 0, 0, uhi);
  u128 mm = m == 0 ? (u128)uhi + 1 : (u128)m;
  vf_check((u128)(U)M::mult_add(a, x, c) == ((u128)(U)a * (u128)(U)x + (u128)(U)c) % mm, "mult_add is a*x+c mod m");
}
#define CM(name, T, m) VC(E02, const_mod_##name, "ring=" #m " split backends=z3-int,cvc5-int,z3-bv timeout=60") { const_mod_ops<T, m>(); } \
  VC(E02, const_mod_add_##name, "ring=" #m " split backends=z3-int,cvc5-int,z3-bv timeout=60") { const_mod_mult_add<T, m>(); }
CM(u32_m31, uint32_t, 2147483647)
CM(s32_m31, int32_t, 2147483647)
CM(u32_big, uint32_t, 4294967291u)
CM(u32_full, uint32_t, 0)
CM(u64_m61, uint64_t, 2305843009213693951ull)
CM(u64_48, uint64_t, 0x1000000000000)
CM(s64_63, int64_t, 9223372036854775783ll)
CM(u64_full, uint64_t, 0)
CM(u64_big, uint64_t, 18446744073709551557ull)
CM(u16, uint16_t, 65521)

// E03: discard(z).  Specification: the affine map x -> A*x + c*S composed, for the set bits i of z, from the maps
// T_0 = the engine's step (A=a, S=1), T_(i+1) = T_i after T_i; that composition is the step iterated z times.
template<class T, T m> T mult_add_spec(T a, T x, T c) {   // contract of const_mod::mult_add, proved by E02
  typedef typename boost::make_unsigned<T>::type U;
  U uhi = (U)(T)(m - 1);
  vf_assert((U)a <= uhi && (U)x <= uhi && (U)c <= uhi, "mult_add is called on residues");
  u128 mm = m == 0 ? (u128)uhi + 1 : (u128)m;
  return (T)(((u128)(U)a * (u128)(U)x + (u128)(U)c) % mm);
}
template<class T, T m> T add_spec(T x, T c) {   // contract of const_mod::add, proved by E02
  typedef typename boost::make_unsigned<T>::type U;
  U uhi = (U)(T)(m - 1);
  vf_assert((U)x <= uhi && (U)c <= uhi, "add is called on residues");
  u128 mm = m == 0 ? (u128)uhi + 1 : (u128)m;
  return (T)(((u128)(U)x + (u128)(U)c) % mm);
}
template<unsigned NMIN, unsigned NMAX, class T, T a, T c, T m, class G> void lcg_discard(G make) {
  typedef boost::random::const_mod<T, m> M;
  typedef typename boost::make_unsigned<T>::type U;
  const U uhi = (U)(T)(m - 1); const u128 mm = m == 0 ? (u128)uhi + 1 : (u128)m;
  // concrete part, executed: inverses and the squared maps (T_i)
  const T b_inv = M::invert(a - 1), g = M::mult(a - 1, b_inv);
  const T b2 = g == 1 ? b_inv : M::invert((a - 1) / g);
  vf_check((u128)(U)M::mult(b2, g == 1 ? T(a - 1) : T((a - 1) / g)) == 1, "the cofactor of the gcd is invertible");
  U K[64], L[64], KI[64], Q[64];
  K[0] = (U)a; L[0] = 1; Q[0] = (U)((a - 1) / g);
  for(int i = 1; i < 64; ++i) {
    K[i] = (U)((u128)K[i-1] * K[i-1] % mm);
    L[i] = (U)(((u128)K[i-1] * L[i-1] + L[i-1]) % mm);
    Q[i] = (U)M::mult_add(g, M::mult(Q[i-1], Q[i-1]), M::add(Q[i-1], Q[i-1]));
  }
  for(int i = 0; i < 64; ++i) KI[i] = (U)mod_inverse<T>((T)K[i], m);
  uint32_t k = vf_in32("len", 0, NMIN, NMAX);
  for(uint32_t n = NMIN; n <= NMAX; ++n) if(k == n) {
    const uint64_t z = n == 0 ? 0 : (uint64_t(1) << (n - 1)) + vf_in64("low", n, 0, (uint64_t(1) << (n - 1)) - 1);
    const T lo = c == 0 ? 1 : 0;
    const U x = (U)vf_in64("x", 0, (uint64_t)lo, (uint64_t)uhi);
    if(vf_symbolic()) {
      vf_replace("const_mod<.*>::mult\\(", (const void*)(T(*)(T, T))mult_spec<T, m>);
      vf_replace("const_mod<.*>::add\\(", (const void*)(T(*)(T, T))add_spec<T, m>);
      vf_replace("const_mod<.*>::mult_add\\(", (const void*)(T(*)(T, T, T))mult_add_spec<T, m>);
      vf_replace("const_mod<.*>::invert\\(", (const void*)(T(*)(T))M::invert);
    }
    T A = 1; T S = 0; T P = 0; uint64_t e = z;
    for(uint32_t i = 0; i < n; ++i) {
      if(e % 2 == 1) {
        if(c != 0 && g != 1) {
          P = M::mult_add(g, M::mult(P, (T)Q[i]), M::add(P, (T)Q[i]));
          A = (T)(((u128)(U)A * K[i]) % mm); S = (T)(((u128)(U)S * K[i] + L[i]) % mm);
        } else {
          T A0 = A;
          A = (T)(((u128)(U)A * K[i]) % mm); S = (T)(((u128)(U)S * K[i] + L[i]) % mm);
          if(c != 0) { vf_assert((T)(((u128)(U)A * KI[i]) % mm) == A0, "the squared multiplier is invertible");
          vf_assert((U)A >= 1, "the power of the multiplier is not zero"); }
        }
      }
      if(c != 0) {
        if(g != 1) { vf_cut64((U)A, (U)((1 + (u128)(U)g * (U)P) % mm), "A = 1 + g P"); A = (T)(U)((1 + (u128)(U)g * (U)P) % mm);
          vf_assert((U)S == (U)(((u128)(U)b2 * (U)P) % mm), "S = P / ((a-1)/g)"); S = (T)(U)(((u128)(U)b2 * (U)P) % mm); }
        else { vf_assert((U)S == (U)(((u128)(U)b2 * (U)(A - 1)) % mm), "S = (A-1)/(a-1)"); S = (T)(U)(((u128)(U)b2 * (U)(A - 1)) % mm); }
      }
      e /= 2;
    }
    T got = make(x, z);
    u128 s = (((u128)(U)A * x) % mm + ((u128)(U)c * (U)S) % mm) % mm;
    vf_check((u128)(U)got == s, "discard(z) leaves the state of z calls");
  }
}
#define DSC1(name, T, a, c, m, lo, hi, o) VC(E03, lcg_##name##_##lo, o) { \
  lcg_discard<lo, hi, T, a, c, m>([](boost::make_unsigned<T>::type x, uint64_t z) { typedef linear_congruential_engine<T, a, c, m> E; E e; e._x = (T)x; e.discard(z); return e._x; }); }
#define DSC(name, T, a, c, m, o) DSC1(name, T, a, c, m, 0, 64, o)
#define DSC8(name, T, a, c, m, o) DSC1(name, T, a, c, m, 0, 40, o) DSC1(name, T, a, c, m, 41, 54, o) DSC1(name, T, a, c, m, 55, 64, o)
#define OD " split backends=z3-int,z3-bv,cvc5-int feas_every=1000 feas_small=40 exec=600"
DSC(minstd_rand0, uint32_t, 16807, 0, 2147483647, "ring=2147483647" OD)
DSC(minstd_rand, uint32_t, 48271, 0, 2147483647, "ring=2147483647" OD)
DSC(ecuyer1, int32_t, 40014, 0, 2147483563, "ring=2147483563" OD)
DSC(ecuyer2, int32_t, 40692, 0, 2147483399, "ring=2147483399" OD)
DSC8(rand48, uint64_t, 0x5DEECE66Dull, 0xB, (uint64_t)1 << 48, "ring=281474976710656" OD)
DSC1(kreutzer, uint32_t, 1366, 150889, 714025, 0, 6, "ring=714025 bounded" OD)
// the classes built on them hand the count to their engine unchanged
extern "C" uint64_t vf_g_z, vf_g_calls; uint64_t vf_g_z, vf_g_calls;
template<class E> void discard_stub(E*, uint64_t z) { vf_g_z = z; ++vf_g_calls; }
VC(E03, rand48_class, "") {
  boost::random::rand48 a; uint64_t x = vf_in64("x", 0, 0, (uint64_t(1) << 48) - 1), z = vf_symbolic() ? vf_nd64("z", 0) : vf_nd64("z", 0) % 1000;
  a.lcf._x = x; vf_g_calls = 0; auto b = a.lcf;
  if(vf_symbolic()) vf_replace("linear_congruential_engine<.*>::discard\\(", (const void*)(void(*)(decltype(a.lcf)*, uint64_t))discard_stub<decltype(a.lcf)>);
  a.discard(z);
  if(vf_symbolic()) vf_check(vf_g_calls == 1 && vf_g_z == z && a.lcf._x == x, "discard(z) is one discard(z) of the generator inside");
  else { for(uint64_t i = 0; i < z; ++i) b(); vf_check(a.lcf == b, "discard(z) is z calls"); }
}

// A01: detail::muldivmod / mulmod / muldiv and integer_log2 (128-bit arithmetic in digits).
#include <boost/random/detail/large_arithmetic.hpp>
#include <boost/random/detail/integer_log2.hpp>
#include "vf.hpp"
typedef unsigned __int128 u128;
namespace rd = boost::random::detail;
static int ghost_log2;
static int log2_contract(uint64_t t) {           // contract of integer_log2, caller side
  vf_assert(ghost_log2 >= 0 && ghost_log2 < 64 && (t >> ghost_log2) == 1, "integer_log2 called with the expected operand");
  return ghost_log2;
}
#define LOG2RX "^int boost::random::detail::integer_log2<unsigned long>|^boost::random::detail::integer_log2"
VC(A01, integer_log2_64, "backends=z3-bv,cvc5-bv") {
  uint64_t t = vf_nd64("t", 0);
  vf_assume(t != 0);
  int r = rd::integer_log2(t);
  vf_assert(r >= 0 && r < 64, "in range");
  vf_assert((t >> r) == 1, "2^r <= t < 2^(r+1)");
}
VC(A01, integer_log2_32, "backends=z3-bv,cvc5-bv") {
  uint32_t t = vf_nd32("t", 0);
  vf_assume(t != 0);
  int r = rd::integer_log2(t);
  vf_assert(r >= 0 && r < 32, "in range");
  vf_assert((t >> r) == 1, "2^r <= t < 2^(r+1)");
}
VC(A01, modulus_2_64, "backends=z3-int,z3-bv ring") {     // m == 0 stands for 2^64
  uint64_t a = vf_nd64("a", 0), b = vf_nd64("b", 0);
  rd::div_t d = rd::muldivmod(a, b, 0);
  u128 p = (u128)a * b;
  vf_assert(((u128)d.quotient << 64) + d.remainder == p, "quotient*2^64 + remainder == a*b");
}
// One step of the digit division (ghost copy; proved as a lemma, then used on the terms of the real code)
template<bool PROVE> static void div_step(uint64_t temp, uint32_t d, uint64_t m, uint32_t& qo, uint64_t& ro) {
  const uint32_t m0 = uint32_t(m & 0xffffffffu), m1 = uint32_t((m >> 32) & 0xffffffffu);
  uint32_t q = uint32_t((uint32_t(temp >> 32) == m1) ? 0xffffffffu : temp / m1);
  uint64_t rem_high = temp - uint64_t(q) * m1;
  uint64_t rem = (rem_high << 32) + d;
  uint64_t diff = m0 * uint64_t(q);
  if(PROVE) {
    vf_assert(m1 >= 0x80000000u, "lemma: leading digit of the modulus");
    vf_assert((u128)q * m1 <= temp, "lemma: trial quotient not too big for the leading digit");
    vf_assert(temp - uint64_t(q) * m1 < (u128)m1 || (uint32_t(temp >> 32) == m1 && temp - uint64_t(q) * m1 <= (u128)m1 + m0), "lemma: high part of the partial remainder");
    vf_assert((u128)q * m1 + rem_high == temp, "lemma: partial remainder");
    vf_assert(diff <= (u128)m + m, "lemma: at most two corrections");
  }
  int error = 0;
  if((rem_high >> 32) == 0 && diff > rem) { if(diff - rem > m) error = 2; else error = 1; }
  uint32_t q2 = q - error;
  uint64_t rem2 = rem + error * m - diff;
  bool ok = (((u128)temp << 32) | d) == (u128)q2 * m + rem2 && rem2 < m;
  if(PROVE) { vf_assert(rem2 < m, "digit step: remainder < m"); vf_assert((((u128)temp << 32) | d) == (u128)q2 * m + rem2, "digit step: quotient*m + remainder"); }
  else vf_assume(ok);
  qo = q2; ro = rem2;
}
VC(A01, division_step, "backends=z3-int,cvc5-int ring chunk=1 timeout=60") {
  uint64_t m = vf_in64("m", 0, 1ull << 63, ~0ull), temp = vf_nd64("temp", 0); uint32_t d = vf_nd32("d", 0), q; uint64_t r;
  vf_assume(temp < m);
  div_step<true>(temp, d, m, q, r);
}
// normalised modulus (top bit set): the digit algorithm itself
VC(A01, normalised, "backends=z3-int,cvc5-int ring chunk=1 timeout=20") {
  uint64_t a = vf_nd64("a", 0), b = vf_nd64("b", 0), m = vf_in64("m", 0, 1ull << 63, ~0ull);
  vf_assume(a < m);
  ghost_log2 = 63;
  vf_replace(LOG2RX, (const void*)log2_contract);
  // ghost copy of the digit products, to state lemmas about them
  const uint64_t mask = 0xffffffffu;
  uint32_t a_[2] = {uint32_t(a & mask), uint32_t((a >> 32) & mask)}, b_[2] = {uint32_t(b & mask), uint32_t((b >> 32) & mask)},
           m_[2] = {uint32_t(m & mask), uint32_t((m >> 32) & mask)}, p[4] = {0, 0, 0, 0}, q_[2];
  for(int i = 0; i < 2; ++i) {
    uint32_t carry = 0;
    for(int j = 0; j < 2; ++j) {
      uint64_t t = uint64_t(a_[i]) * b_[j] + carry + p[i + j];
      p[i + j] = uint32_t(t & mask); carry = uint32_t(t >> 32);
    }
    if(carry != 0) p[i + 2] += carry;
  }
  u128 P = ((u128)(((uint64_t)p[3] << 32) | p[2]) << 64) | (((uint64_t)p[1] << 32) | p[0]);
  vf_assert(P == (u128)a * b, "lemma: the four digits are a*b");
  vf_assert((((uint64_t)p[3] << 32) | p[2]) < m, "lemma: quotient fits in 64 bits");
  uint64_t r1, r2; uint32_t q1, q0;
  div_step<false>(((uint64_t)p[3] << 32) | p[2], p[1], m, q1, r1);
  uint64_t t1 = ((uint64_t)uint32_t((r1 >> 32) & mask) << 32) | uint32_t(r1 & mask);
  vf_assert(t1 == r1, "lemma: partial remainder is carried in two digits");
  div_step<false>(t1, p[0], m, q0, r2);
  rd::div_t d = rd::muldivmod(a, b, m);
  uint64_t t2 = ((uint64_t)uint32_t((r2 >> 32) & mask) << 32) | uint32_t(r2 & mask);
  vf_assert(t2 == r2, "lemma: remainder is carried in two digits");
  vf_assert(d.remainder == t2, "lemma: remainder is the last partial remainder");
  vf_assert(d.quotient == (((uint64_t)q1 << 32) | q0), "lemma: quotient digits");
  vf_assert((u128)d.quotient * m + d.remainder == (u128)a * b, "quotient*m + remainder == a*b");
  vf_assert(d.remainder < m, "remainder < m");
}
// Any modulus: normalisation by s = 63 - log2(m) reduces to the normalised case just proved.
static void scaled(int s) {
  uint64_t a = vf_nd64("a", s), b = vf_nd64("b", s), m = vf_in64("m", s, 1ull << (63 - s), (1ull << (63 - s)) - 1 + (1ull << (63 - s)));
  vf_assume(a < m);
  vf_replace(LOG2RX, (const void*)log2_contract);
  ghost_log2 = 63 - s;
  rd::div_t d = rd::muldivmod(a, b, m);
  uint64_t q = rd::muldiv(a, b, m), r = rd::mulmod(a, b, m);
  ghost_log2 = 63;
  rd::div_t n = rd::muldivmod(a << s, b, m << s);
  vf_assert(d.quotient == n.quotient, "same quotient as the normalised call");
  vf_assert(d.remainder == n.remainder >> s, "remainder is scaled back");
  vf_assert(q == d.quotient && r == d.remainder, "muldiv and mulmod return the parts");
  if(!vf_symbolic()) {
    vf_assert((u128)d.quotient * m + d.remainder == (u128)a * b, "quotient*m + remainder == a*b");
    vf_assert(d.remainder < m, "remainder < m");
  }
}
static void scaling_lemma(int s) {       // from the contract of the normalised case to the general one
  uint64_t a = vf_nd64("a", s), b = vf_nd64("b", s), m = vf_in64("m", s, 1ull << (63 - s), (1ull << (63 - s)) - 1 + (1ull << (63 - s)));
  vf_assume(a < m);
  uint64_t m2 = m << s, a2 = a << s, q, r;
  if(vf_symbolic()) {
    q = vf_nd64("q", s); r = vf_nd64("r", s);
    vf_assume(r < m2 && (u128)q * m2 + r == (u128)a2 * b);
  } else { q = (u128)a2 * b / m2; r = (u128)a2 * b % m2; }
  vf_assert((r >> s) << s == r, "remainder is a multiple of 2^s");
  vf_check((u128)q * m + (r >> s) == (u128)a * b, "quotient*m + remainder == a*b");
  vf_check((r >> s) < m, "remainder < m");
}
#define SC(i) VC(A01, scaled_##i, "backends=z3-int,cvc5-int ring chunk=1 timeout=60") { for(int s = i; s < i + 8; ++s) scaled(s); } \
  VC(A01, scaling_lemma_##i, "backends=z3-int,cvc5-int chunk=1 timeout=30 assume_off") { for(int s = i; s < i + 8; ++s) scaling_lemma(s); }
SC(0) SC(8) SC(16) SC(24) SC(32) SC(40) SC(48) SC(56)

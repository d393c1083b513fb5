// A02: GF(2) polynomial arithmetic behind the Mersenne twister jump.
#include <boost/random/detail/polynomial.hpp>
#include "vf.hpp"
using boost::random::detail::polynomial_ops; using boost::random::detail::polynomial;
typedef polynomial_ops::digit_t D;
typedef unsigned __int128 u128;
static D guard(const char* n, uint64_t i) { return vf_nd64(n, i); }
template<size_t n> void sym(const char* nm, D* x) { for(size_t i = 0; i < n; ++i) x[i] = vf_nd64(nm, i); }
// bit i of a word vector
static D bitof(const D* x, size_t i) { return x[i / 64] >> (i % 64) & 1; }
template<size_t n> void t_add() {
  D a[n], b[n], c[n + 1]; sym<n>("a", a); sym<n>("b", b); D g = guard("g", 0); c[n] = g;
  polynomial_ops::add(n, a, b, c);
  for(size_t i = 0; i < n; ++i) vf_check(c[i] == (a[i] ^ b[i]), "sum is coefficientwise");
  vf_check(c[n] == g, "nothing past the operands is written");
  D d[n]; for(size_t i = 0; i < n; ++i) d[i] = a[i];
  polynomial_ops::add(n, d, b, d);
  for(size_t i = 0; i < n; ++i) vf_check(d[i] == (a[i] ^ b[i]), "in place too");
}
VC(A02, add, "") { t_add<1>(); t_add<2>(); t_add<5>(); }
template<size_t n> void t_shift() {
  for(size_t s = 0; s < 64; ++s) {
    D a[n], o[n + 1], o0[n + 1]; sym<n>("a", a); sym<n+1>("o", o); for(size_t i = 0; i <= n; ++i) o0[i] = o[i];
    polynomial_ops::add_shifted_inplace(n, a, o, s);
    for(size_t i = 0; i <= n; ++i) {
      u128 lo = i > 0 ? a[i-1] : 0, hi = i < n ? a[i] : 0;
      vf_check(o[i] == (o0[i] ^ (D)(((hi << 64 | lo) << s) >> 64)), "output += lhs * x^shift");
    }
    if(n > 1) {                                    // the top digit is not touched unless something is carried into it
      D b[n], q[n]; sym<n>("a", b); sym<n>("o", q); b[n-1] = s == 0 ? b[n-1] : b[n-1] & (~D(0) >> s);
      polynomial_ops::add_shifted_inplace(n, b, q, s);
      vf_check(q[0] == (o0[0] ^ b[0] << s), "low digit");
    }
    D v[n]; sym<n>("a", v);
    if(s) { polynomial_ops::shift_left(v, n, s); for(size_t i = 0; i < n; ++i) { u128 lo = i > 0 ? a[i-1] : 0, hi = a[i]; vf_check(v[i] == (D)(((hi << 64 | lo) << s) >> 64), "shift_left multiplies by x^shift"); } }
  }
}
VC(A02, shift1, "") { t_shift<1>(); }
VC(A02, shift3, "") { t_shift<3>(); }
// schoolbook product of k-bit polynomials (spec), folded coefficient by coefficient
template<size_t n> void mul_spec(const D* a, const D* b, D* r) {
  for(size_t i = 0; i < 2*n; ++i) r[i] = 0;
  for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < 64; ++j) {
    D m = 0 - (a[i] >> j & 1);
    for(size_t q = 0; q < n; ++q) { r[i+q] ^= (b[q] << j) & m; if(j) r[i+q+1] ^= (b[q] >> (64 - j)) & m; }
  }
}
template<size_t n> void t_mul(D ma, D mb) {
  D a[n], b[n], c[2*n+1], r[2*n]; sym<n>("a", a); sym<n>("b", b); for(size_t i = 0; i < n; ++i) { a[i] &= ma; b[i] &= mb; }
  c[2*n] = guard("g", 0); D g = c[2*n];
  polynomial_ops::multiply_simple(n, a, b, c); mul_spec<n>(a, b, r);
  for(size_t i = 0; i < 2*n; ++i) vf_check(c[i] == r[i], "product coefficients");
  vf_check(c[2*n] == g, "nothing past the product is written");
}
VC(A02, mul1, "anf unroll=100") { t_mul<1>(~D(0), ~D(0)); }
VC(A02, mul2, "anf unroll=200") { t_mul<2>(~D(0), ~D(0)); }
VC(A02, mul3, "anf unroll=200") { t_mul<3>(~D(0), ~D(0)); }
// multiplying by each single power of x, every operand b: with additivity in the first operand (each set bit adds its
// shifted copy independently) this is the whole multiplication
VC(A02, mul_basis, "unroll=200") {
  for(size_t n = 1; n <= 2; ++n) for(size_t k = 0; k < 64 * n; k += (n == 1 ? 1 : 7)) {
    D a[2] = {0, 0}, b[2], c[4]; sym<2>("b", b); a[k/64] = D(1) << k % 64;
    polynomial_ops::multiply_simple(n, a, b, c);
    for(size_t i = 0; i < 2*n; ++i) {
      D lo = i >= k/64 && i - k/64 < n ? b[i - k/64] : 0, lo1 = i >= k/64 + 1 && i - k/64 - 1 < n ? b[i - k/64 - 1] : 0;
      vf_check(c[i] == (lo << k % 64 | (k % 64 ? lo1 >> (64 - k % 64) : 0)), "x^k * b");
    }
  }
}
VC(A02, sqr, "") {
  D x = vf_nd64("x", 0) & 0xffffffffu; D y = polynomial_ops::sqr(x);
  for(int i = 0; i < 32; ++i) { vf_check((y >> 2*i & 1) == (x >> i & 1), "coefficient 2i of the square"); vf_check((y >> (2*i+1) & 1) == 0, "odd coefficients vanish"); }
}
template<size_t n> void t_sqrv() {
  D a[n], v[2*n+1]; sym<n>("a", a); for(size_t i = 0; i < n; ++i) v[i] = a[i]; v[2*n] = guard("g", 0);
  polynomial_ops::sqr(v, n);
  for(size_t i = 0; i < n; ++i) { vf_check(v[2*i] == polynomial_ops::sqr(a[i] & 0xffffffffu), "low half squared"); vf_check(v[2*i+1] == polynomial_ops::sqr(a[i] >> 32), "high half squared"); }
  vf_check(v[2*n] == guard("g", 0), "nothing past the square is written");
}
VC(A02, sqr_vec, "") { t_sqrv<1>(); t_sqrv<2>(); t_sqrv<5>(); }
// copy_bits: every bit range of three digits
static void t_copy(size_t lo, size_t hi) {
  D x[3], o[4]; sym<3>("x", x); for(int i = 0; i < 4; ++i) o[i] = vf_nd64("o", i);
  size_t words = (hi - lo + 63) / 64;
  polynomial_ops::copy_bits(x, lo, hi, o);
  for(size_t i = 0; i < words; ++i) {
    size_t p = lo + 64*i, len = hi - p < 64 ? hi - p : 64;
    u128 w = (u128)(p/64 + 1 < 3 ? x[p/64+1] : 0) << 64 | x[p/64];
    D want = (D)(w >> p % 64); if(len < 64) want &= (D(1) << len) - 1;
    vf_check(o[i] == want, "the digits are the bits [low, high)");
  }
  for(size_t i = words; i < 4; ++i) vf_check(o[i] == vf_nd64("o", i), "nothing else is written");
}
VC(A02, copy_bits, "") {
  static const size_t lows[] = {0, 1, 31, 32, 63, 64, 65, 100, 127, 128, 130};
  for(int i = 0; i < 11; ++i) for(size_t hi = lows[i] + 1; hi <= 192; hi += 1) t_copy(lows[i], hi);
}
// reduction modulo a fixed divisor: every dividend
template<size_t n> void t_mod(const D* div, size_t dbits) {
  D x[n], r[n]; sym<n>("x", x);
  size_t bits = 2*dbits - 1; for(size_t i = 0; i < n; ++i) { D m = 64*i + 64 <= bits ? ~D(0) : 64*i >= bits ? 0 : (D(1) << bits % 64) - 1; x[i] &= m; r[i] = x[i]; }
  polynomial_ops::sparse_mod m(div, dbits); m(x, bits);
  for(size_t k = bits; k-- > dbits - 1;) {            // long division
    D c = 0 - bitof(r, k);
    for(size_t j = 0; j < dbits; ++j) if(bitof(div, j)) r[(k - dbits + 1 + j) / 64] ^= (D(1) << (k - dbits + 1 + j) % 64) & c;
  }
  for(size_t i = 0; i < n; ++i) vf_check(x[i] == r[i], "remainder of the long division");
}
#define MOD(name, n, bits, ...) VC(A02, mod_##name, "anf") { static const D d[] = {__VA_ARGS__}; t_mod<n>(d, bits); }
MOD(trinomial, 2, 32, 0x80000009ull)
MOD(dense, 2, 12, 0xd6dull)
MOD(one_word_max, 2, 64, 0x800000000000001bull)
MOD(two_words, 4, 110, 0x0000000000000421ull, 0x0000200000000000ull)
MOD(two_words_dense, 4, 100, 0xb9f3a42100000021ull, 0x0000000ea0000004ull)
MOD(power, 2, 20, 0x80000ull)
// whole products and powers, against the definition, on concrete and random operands
VC(A02, karatsuba, "native_only bounded search=4") {
  size_t n1 = vf_in64("n1", 0, 1, 150), n2 = vf_in64("n2", 0, 1, 150);
  std::vector<D> a(n1), b(n2), c(n1 + n2), r(n1 + n2 + 1);
  for(size_t i = 0; i < n1; ++i) a[i] = vf_nd64("a", i); for(size_t i = 0; i < n2; ++i) b[i] = vf_nd64("b", i);
  polynomial_ops::multiply(&a[0], n1, &b[0], n2, &c[0]);
  for(size_t i = 0; i < n1; ++i) for(size_t j = 0; j < 64; ++j) if(a[i] >> j & 1) for(size_t q = 0; q < n2; ++q) { r[i+q] ^= b[q] << j; if(j) r[i+q+1] ^= b[q] >> (64-j); }
  for(size_t i = 0; i < n1 + n2; ++i) vf_check(c[i] == r[i], "product coefficients");
}
VC(A02, mod_pow, "native_only bounded search=4") {
  size_t deg = vf_in64("deg", 0, 2, 200); polynomial p; p[deg] = 1; for(size_t i = 0; i < deg; ++i) if(vf_nd8("c", i) & 1) p[i] = 1;
  uint64_t e = vf_in64("e", 0, 0, 3000);
  polynomial r = mod_pow_x(e, p);
  std::vector<bool> q(deg + 1); q[0] = 1;
  for(uint64_t k = 0; k < e; ++k) { for(size_t i = deg; i > 0; --i) q[i] = q[i-1]; q[0] = 0; if(q[deg]) for(size_t i = 0; i <= deg; ++i) q[i] = q[i] ^ (((const polynomial&)p)[i]); }
  vf_check(r.size() == deg, "the result has degree below the modulus");
  for(size_t i = 0; i < deg; ++i) vf_check(((const polynomial&)r)[i] == q[i], "x^e mod p");
}
VC(A02, container, "") {
  for(size_t k = 0; k < 130; k += 13) {
    polynomial p; bool v = vf_ndbool("v", k), u = vf_ndbool("u", k); const polynomial& c = p;
    p[k] = v; vf_check(p.size() == k + 1, "indexing grows"); vf_check(c[k] == v, "set coefficient");
    for(size_t i = 0; i < k; i += 7) vf_check(!c[i], "new coefficients are zero");
    vf_check(!c[k+1] && !c[1000], "beyond the size reads zero"); p[k] ^= u; vf_check(c[k] == (v != u), "toggle");
    if(k) { p[k-1] = u; vf_check(c[k-1] == u && c[k] == (v != u), "neighbours are independent"); p.resize(k); vf_check(!c[k], "resize drops"); p.resize(k + 1); vf_check(!c[k] && c[k-1] == u, "dropped coefficients do not return"); }
  }
}

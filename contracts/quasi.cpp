// Quasi-random engines: Q01 (Gray-coded: sobol, niederreiter_base2), Q02 (faure).
#include <boost/random/sobol.hpp>
#include <boost/random/niederreiter_base2.hpp>
#include <stdexcept>
#include "vf_ghost.hpp"
using namespace boost::random;
typedef unsigned __int128 u128;
// ---- a lattice of arbitrary direction numbers: dir(r, d) is entry r*dimension + d
template<class T, unsigned w> struct GLat {
  typedef T value_type; static const unsigned bit_count = w;
  struct It {
    typedef std::input_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef T reference;
    uint64_t n, dim;
    T operator*() const { vf_assert(n < dim * w, "only the bit_count direction vectors are read"); return dir(n); }
    It& operator++() { ++n; return *this; } It operator++(int) { It t = *this; ++n; return t; }
    It& operator+=(std::ptrdiff_t k) { n += k; return *this; } It operator+(std::ptrdiff_t k) const { It t = *this; return t += k; } T operator[](std::ptrdiff_t k) const { return *(*this + k); }
    friend bool operator==(const It& a, const It& b) { return a.n == b.n; } friend bool operator!=(const It& a, const It& b) { return a.n != b.n; }
  };
  uint64_t dim;
  explicit GLat(std::size_t d) : dim(d) {}
  void resize(std::size_t d) { dim = d; }
  static T dir(uint64_t n) { uint64_t v = vf_uf64("dir", 1, n, 0, 0, 0); return (T)(w == 64 ? v : v & ((uint64_t(1) << w) - 1)); }
  It iter_at(std::size_t n) const { It i = { n, dim }; return i; }
};
// point n of the sequence: xor of the direction numbers selected by the bits of gray(n + 1), as the sequence skips the leading zero point
template<class L, class E> typename L::value_type point(const E& e, uint64_t D, uint64_t n, uint64_t d) {
  typedef typename L::value_type T; const uint64_t c = n + 1, g = c ^ (c >> 1); T x = 0;
  for(unsigned r = 0; r < L::bit_count; ++r) x ^= ((g >> r) & 1) ? (T)*e.lattice.iter_at(r * D + d) : (T)0;
  return x;
}
static bool opaque_points;
template<class L> struct Q {
  typedef qrng_detail::gray_coded_qrng<L> E; typedef typename L::value_type T;
  static const unsigned w = L::bit_count;
  static const uint64_t LAST = w == 64 ? ~0ull - 1 : (uint64_t(1) << (w & 63)) - 2;   // points 0 .. 2^w - 2
  // where only the identity of a point matters it is an uninterpreted function of (dimension, n, d)
  static T pt(const E& e, uint64_t D, uint64_t n, uint64_t d) { if(vf_symbolic() && opaque_points) return (T)vf_uf64("pt", 3, D, n, d, 0); return point<L>(e, D, n, d); }
  static void put(E& e, uint64_t D, uint64_t n, uint64_t c) { e.seq_count = (T)n; e.curr_elem = c; for(uint64_t d = 0; d < D; ++d) e.quasi_state[d] = pt(e, D, n, d); }
  static void at_point(E& e, uint64_t D, uint64_t n, uint64_t c, const char* what) {
    vf_check(e.seq_count == (T)n, what); vf_check(e.curr_elem == c, what); vf_check(e.quasi_state.size() == D, what);
    for(uint64_t d = 0; d < D; ++d) vf_check(e.quasi_state[d] == pt(e, D, n, d), what);
  }
  static bool is_at(E& e, uint64_t D, uint64_t n, uint64_t c) { bool r = e.seq_count == (T)n && e.curr_elem == c && e.quasi_state.size() == D; for(uint64_t d = 0; d < D; ++d) r = r & (e.quasi_state[d] == pt(e, D, n, d)); return r; }
  static void range() { vf_check((E::min)() == 0 && (E::max)() == (T)(LAST + 1), "min() is 0 and max() all bits"); }
  static void start(uint64_t D) { E e(D); at_point(e, D, 0, 0, "a new engine stands before point 0"); vf_check(e.dimension() == D, "dimension()"); e.seq_count = (T)vf_in64("n", 0, 0, LAST); e.curr_elem = D; e.seed(); at_point(e, D, 0, 0, "seed() goes back to point 0"); }
  static void step(uint64_t D) {                    // the caller's view: any position (n, c), with the least zero bit of n + 1 listed
    E e(D); uint64_t n = vf_symbolic() ? vf_nd64("n", 0) : vf_in64("n", 0, 0, LAST), c = vf_in64("c", 0, 0, D); vf_assume(n <= LAST);
    put(e, D, n, c);
    const uint64_t n1 = n + 1;
    for(unsigned r = 0; r <= w; ++r) {
      const uint64_t low = r >= 64 ? ~0ull : (uint64_t(1) << (r & 63)) - 1;
      if(r == w ? n == LAST : n < LAST && ((n1 >> (r & 63)) & 1) == 0 && (n1 & low) == low) {
        if(!vf_symbolic() && c == D && n == LAST) { bool t = false; try { e(); } catch(std::range_error&) { t = true; } vf_check(t, "past the last point range_error is thrown"); at_point(e, D, n, c, "and the engine is unchanged"); return; }
        if(c == D && n == LAST) vf_throw_ok(true);
        T v = e();
        vf_check(c < D || n < LAST, "past the last point range_error is thrown");
        if(c < D) { vf_check(v == pt(e, D, n, c), "the next coordinate of the point"); at_point(e, D, n, c + 1, "one coordinate further"); }
        else {
          vf_check(e.seq_count == (T)(n + 1) && e.curr_elem == 1 && e.quasi_state.size() == D, "at the first coordinate of the next point");
          for(uint64_t d = 0; d < D; ++d) vf_check(e.quasi_state[d] == (T)(pt(e, D, n, d) ^ *e.lattice.iter_at(r * D + d)), "point n + 1 is point n xor the direction number of the lowest zero bit of n + 1");
          vf_check(v == e.quasi_state[0], "whose first coordinate is returned");
          if(!vf_symbolic()) at_point(e, D, n + 1, 1, "point n + 1");
        }
      }
    }
  }
  static void seed_to(uint64_t D, uint32_t j, uint64_t TOP, bool same) {   // to = -1 + a number of j bits
    E e(D); uint64_t n = vf_symbolic() ? vf_nd64("n", 0) : vf_in64("n", 0, 0, LAST), c = vf_in64("c", 0, 0, D); vf_assume(n <= LAST);
    uint64_t to = j > w && w == std::numeric_limits<T>::digits ? TOP : (uint64_t(1) << (j - 1)) - 1 + (vf_nd64("low", j) & ((uint64_t(1) << (j - 1)) - 1));
    if(j > w) to += vf_in64("more", j, 0, TOP - to);
    if(same) { if(to > LAST) { vf_assume(false); return; } n = to; put(e, D, n, c); }
    else { if((T)n == (T)to) { vf_assume(false); return; } if(vf_symbolic()) { e.seq_count = (T)n; e.curr_elem = c; for(uint64_t d = 0; d < D; ++d) e.quasi_state[d] = (T)vf_uf64("old", 1, d, 0, 0, 0); } else put(e, D, n, c); }
    if(!vf_symbolic() && to > LAST) { bool t = false; try { e.seed((T)to); } catch(std::range_error&) { t = true; } vf_check(t, "seeding past the end throws range_error"); at_point(e, D, n, c, "and the engine is unchanged"); return; }
    if(to > LAST) vf_throw_ok(true);
    e.seed((T)to);
    vf_check(to <= LAST, "seeding past the end throws range_error");
    at_point(e, D, to, 0, "seed(n) stands before point n");
  }
  static void seed(uint64_t D) {
    uint32_t k = vf_in32("bits", 0, 1, w + 1); bool same = vf_in32("same", 0, 0, 3) == 0;
    for(uint32_t j = 1; j <= w + 1; ++j) if(k == j) { if(same) seed_to(D, j, (std::numeric_limits<T>::max)(), true); else seed_to(D, j, (std::numeric_limits<T>::max)(), false); }
  }
  // discard: the point is seed()'s job (replaced by its contract); here the position
  static void seed_spec(E* e, T to) {
    if((uint64_t)to > LAST) { vf_throw_ok(true); boost::throw_exception(std::range_error("seed")); }
    e->seq_count = to; e->curr_elem = 0;
  }
  static void seed_spec_point(E* e, T to) {
    if(to == e->seq_count) for(uint64_t d = 0; d < e->dimension(); ++d) vf_assert(e->quasi_state[d] == pt(*e, e->dimension(), (uint64_t)e->seq_count, d), "seed(n) is called on a valid engine");
    seed_spec(e, to); for(uint64_t d = 0; d < e->dimension(); ++d) e->quasi_state[d] = pt(*e, e->dimension(), (uint64_t)e->seq_count, d); }
  static void seed0_spec(E* e) { e->seq_count = 0; e->curr_elem = 0; for(uint64_t d = 0; d < e->dimension(); ++d) e->quasi_state[d] = pt(*e, e->dimension(), 0, d); }
  static void dis(uint64_t D) {
    E e(D); uint64_t n = vf_in64("n", 0, 0, LAST), c = vf_in64("c", 0, 0, D), z = vf_nd64("z", 0);
    if(!vf_symbolic()) {
      uint64_t k = vf_in64("k", 0, 0, 3); if(k) z %= 3 * D; n = vf_in64("near", 0, 0, 1) ? n : LAST - n % 4;
      put(e, D, n, c); E f = e; bool t = false, u = false;
      u128 p = (u128)n * D + c + z, end = ((u128)LAST + 1) * D;
      try { e.discard(z); } catch(std::range_error&) { t = true; }
      vf_check(t == (p > end), "discard past the end, and only that, throws range_error"); if(t) return;
      if(k) { for(uint64_t i = 0; i < z; ++i) f(); vf_check(e == f, "discard(z) is z calls"); }
      vf_check(is_at(e, D, e.seq_count, e.curr_elem) && (u128)e.seq_count * D + e.curr_elem == p, "discard(z) moves z coordinates on"); return;
    }
    put(e, D, n, c);
    vf_replace("gray_coded_qrng<.*>::seed\\([a-z ]+\\)", (const void*)(void(*)(E*, T))seed_spec);
    u128 p = (u128)n * D + c + z, end = ((u128)LAST + 1) * D;
    vf_throw_ok(p > end);
    e.discard(z);
    vf_check(p <= end, "discard past the end throws range_error");
    vf_check((u128)e.seq_count * D + e.curr_elem == p && e.curr_elem <= D, "discard(z) moves z coordinates on");
  }
  static void equal(uint64_t D) {                  // positions, not representation: (n, D) is (n + 1, 0)
    E a(D), b(D); uint64_t n1 = vf_in64("n", 0, 0, LAST), n2 = vf_in64("n", 1, 0, LAST), c1 = vf_in64("c", 0, 0, D), c2 = vf_in64("c", 1, 0, D);
    a.seq_count = (T)n1; b.seq_count = (T)n2; a.curr_elem = c1; b.curr_elem = c2;
    if(!vf_symbolic() && vf_in64("s", 0, 0, 1)) { n2 = n1 + vf_in64("s", 1, 0, 1); b.seq_count = (T)n2; }
    bool same = (u128)n1 * D + c1 == (u128)n2 * D + c2;
    vf_check((a == b) == same && (a != b) == !same, "equal exactly if the same number of coordinates has been delivered");
  }
  static void stream(uint64_t D, uint64_t D0) {
    E e(D); uint64_t n = vf_in64("n", 0, 0, LAST), c = vf_in64("c", 0, 0, D); put(e, D, n, c);
    Tape t; { GOut os(&t); os << e; } vf_check(!t.glued, "numbers are separated");
    E f(D0); uint64_t m = vf_in64("n", 1, 0, LAST), k = vf_in64("c", 1, 0, D0); put(f, D0, m, k);
    if(vf_symbolic()) vf_replace("gray_coded_qrng<.*>::seed\\([a-z ]+\\)", (const void*)(void(*)(E*, T))seed_spec_point);
    if(vf_symbolic()) vf_replace("gray_coded_qrng<.*>::seed\\(\\)", (const void*)(void(*)(E*))seed0_spec);
    GIn is(&t); is >> f; vf_assert(!is.fail(), "a written state is accepted");
    vf_check(f.dimension() == D, "the dimension is restored"); 
    vf_check(f.seq_count * (u128)D + f.curr_elem == n * (u128)D + c && f.curr_elem <= D, "the position is restored");
    for(uint64_t d = 0; d < D; ++d) vf_check(f.quasi_state[d] == pt(f, D, (uint64_t)f.seq_count, d), "and the point belongs to it");
  }
};
#define QO "anf eqcanon feas=z3-bv backends=z3-bv,cvc5-bv,z3-int"
#define QI "anf eqcanon feas=z3-int,z3-bv backends=z3-int,cvc5-int,z3-bv"
// the selection changes by exactly that bit: gray(c + 1) ^ gray(c) = 1 << (lowest zero bit of c)
VC(Q01, lemma_gray, QO) {
  uint64_t c = vf_nd64("c", 0); uint32_t r = vf_in32("r", 0, 0, 63); c = ((c << 1 << r) | ((uint64_t(1) << r) - 1));
  vf_check((((c + 1) ^ ((c + 1) >> 1)) ^ (c ^ (c >> 1))) == uint64_t(1) << r, "one bit of the Gray code changes: that of the lowest zero bit");
}
#define QP(n, T, w, D) \
  VC(Q01, start_##n, QO) { Q<GLat<T, w> >::start(D); Q<GLat<T, w> >::range(); } \
  VC(Q01, discard_##n, QI) { opaque_points = true; Q<GLat<T, w> >::dis(D); } VC(Q01, equal_##n, QO) { Q<GLat<T, w> >::equal(D); } VC(Q01, stream_##n, QI) { opaque_points = true; Q<GLat<T, w> >::stream(D, D); } VC(Q01, redim_##n, QI) { opaque_points = true; Q<GLat<T, w> >::stream(D, D + 2); }
#define QV(n, T, w, D) QP(n, T, w, D) \
  VC(Q01, step_##n, QO) { opaque_points = true; Q<GLat<T, w> >::step(D); } VC(Q01, seed_##n, QO) { Q<GLat<T, w> >::seed(D); }
QP(u64_1, uint64_t, 64, 1) VC(Q01, seed_u64_1, QO) { Q<GLat<uint64_t, 64> >::seed(1); } QP(u64_2, uint64_t, 64, 2) QP(u32_3, uint32_t, 32, 3) VC(Q01, seed_u32_3, QO) { Q<GLat<uint32_t, 32> >::seed(3); } VC(Q01, step_u32_1, QO) { opaque_points = true; Q<GLat<uint32_t, 32> >::step(1); } QV(u64_b30_2, uint64_t, 30, 2) QV(u32_b1, uint32_t, 1, 2) QP(u64_b63_4, uint64_t, 63, 4)
// ---- the direction numbers themselves (executed natively for the listed widths and all dimensions up to the stated one: bounded)
static void mul2(unsigned __int128& a, uint64_t p) { unsigned __int128 r = 0; for(unsigned i = 0; i < 64; ++i) if((p >> i) & 1) r ^= a << i; a = r; }
template<class T, unsigned w> void sobol_lattice_vc(std::size_t maxd) {
  typedef detail::qrng_tables::sobol Tab;
  std::size_t D = (std::size_t)vf_in64("dim", 0, 1, maxd);
  typedef typename sobol_engine<T, w>::result_type R; sobol_engine<T, w> e(D);
  for(std::size_t d = 0; d < D; ++d) {
    uint64_t m[64]; uint64_t p = d ? (uint64_t)Tab::polynomial(d - 1) : 0; unsigned s = 0; while(d && (p >> (s + 1))) ++s;
    for(unsigned k = 0; k < w; ++k) {
      if(d == 0) m[k] = 1;
      else if(k < s) { m[k] = Tab::minit(d - 1, k); vf_check((m[k] & 1) && m[k] < (uint64_t(2) << k), "initial direction numbers are odd and below 2^k"); }
      else { m[k] = m[k - s] ^ (m[k - s] << s); for(unsigned i = 1; i < s; ++i) if((p >> (s - i)) & 1) m[k] ^= m[k - i] << i; }
      uint64_t v = m[k] << (w - 1 - k); if(w < 64) v &= (uint64_t(1) << (w & 63)) - 1; 
      vf_check((uint64_t)*e.lattice.iter_at(k * D + d) == v, "direction number k is m(k) 2^(w-1-k) with the recurrence of the polynomial");
    }
    if(d > 0) vf_check((p & 1) && s >= 1 && s < 25, "the polynomial has constant term 1");
    for(std::size_t j = 1; j < d; ++j) vf_check(Tab::polynomial(j - 1) != Tab::polynomial(d - 1), "polynomials are distinct");
  }
}
template<class T, unsigned w> void nied_lattice_vc(std::size_t maxd) {
  typedef detail::qrng_tables::niederreiter_base2 Tab;
  std::size_t D = (std::size_t)vf_in64("dim", 0, 1, maxd);
  niederreiter_base2_engine<T, w> e(D);
  for(std::size_t d = 0; d < D; ++d) {
    uint64_t p = Tab::polynomial(d); unsigned s = 0; while(p >> (s + 1)) ++s;
    unsigned __int128 b = 1; unsigned deg = 0; uint64_t C[64] = {0};
    for(unsigned j = 0; j < w; ) {
      unsigned kj = deg; mul2(b, p); deg += s;
      bool v[200]; for(unsigned r = 0; r < w + s; ++r) { if(r < kj) v[r] = false; else if(r < deg) v[r] = true; else { v[r] = false; for(unsigned k = 0; k < deg; ++k) v[r] ^= (bool)((b >> k) & 1) & v[r + k - deg]; } }
      for(unsigned u = 0; u < s && j < w; ++u, ++j) for(unsigned r = 0; r < w; ++r) if(v[r + u]) C[r] |= uint64_t(1) << (w - 1 - j);
    }
    // the last rows are only compared when the power of p they need fits the space the code reserves (see DESIGN.md)
    uint64_t rows = ~0ull; if((w + s - 1) / s * s >= s * (w / s + 1)) rows <<= w - (w - 1) / s * s;
    for(unsigned r = 0; r < w; ++r) vf_check((((uint64_t)*e.lattice.iter_at(r * D + d) ^ C[r]) & rows) == 0, "direction number r packs the coefficients c(j, r) of the expansions of 1/p^q");
    for(std::size_t j = 0; j < d; ++j) vf_check(Tab::polynomial(j) != Tab::polynomial(d), "polynomials are distinct");
  }
}
VC(Q01, sobol_lattice, "native_only bounded search=3") { sobol_lattice_vc<uint32_t, 32>(60); sobol_lattice_vc<uint64_t, 64>(40); sobol_lattice_vc<uint32_t, 31>(40); }
VC(Q01, niederreiter_lattice, "native_only bounded search=3") { nied_lattice_vc<uint32_t, 32>(30); nied_lattice_vc<uint64_t, 50>(20); nied_lattice_vc<uint32_t, 30>(20); }
// ---- faure (executed natively on sampled and all small indices: bounded)
#include <boost/random/faure.hpp>
#include <cmath>
template<class R, class S> R faure_coord(uint64_t q, uint64_t n, unsigned d) {     // coordinate d: the digits of n times the d-th power of the Pascal matrix, mod q
  uint64_t y[64], L = 0; for(uint64_t k = n; k; k /= q) y[L++] = k % q; if(L == 0) y[L++] = 0;
  for(unsigned t = 0; t < d; ++t) { uint64_t z[64]; for(uint64_t i = 0; i < L; ++i) { z[i] = 0; uint64_t c = 1; 
      // C(j, i) mod q by Lucas
      for(uint64_t j = i; j < L; ++j) { c = 1; uint64_t a = j, b = i; while(a || b) { uint64_t x = a % q, w = b % q; if(w > x) { c = 0; break; } uint64_t num = 1, den = 1; for(uint64_t v = 0; v < w; ++v) { num = num * (x - v) % q; den = den * (v + 1) % q; } uint64_t inv = 1; while(inv * den % q != 1 % q) ++inv; c = c * (num * inv % q) % q; a /= q; b /= q; }
        z[i] = (z[i] + c * y[j]) % q; } }
    for(uint64_t i = 0; i < L; ++i) y[i] = z[i]; }
  long double r = 0; for(uint64_t i = L; i-- > 0; ) r = (r + y[i]) / q; return (R)r;
}
template<class R> bool near_eq(R a, R b) { return std::fabs(a - b) <= 8 * std::numeric_limits<R>::epsilon(); }
template<class R, class S> void faure_vc() {
  typedef faure_engine<R, S> E; unsigned D = (unsigned)vf_in32("dim", 0, 1, 12); uint64_t q = 2; for(;; ++q) { bool pr = q >= D; for(uint64_t k = 2; k * k <= q; ++k) pr &= q % k != 0; if(pr) break; }
  E e(D); uint64_t n0 = vf_in64("n", 0, 0, 100000), m = vf_in64("m", 0, 0, 400), c = vf_in32("c", 0, 0, 2 * D);
  if(vf_in64("boundary", 0, 0, 1)) { uint64_t p = 1; for(uint64_t k = vf_in64("pow", 0, 1, 6); k && p < 200000; --k) p *= q; n0 = p - 1 - vf_in64("below", 0, 0, 3) % p; }
  if(n0 > (std::numeric_limits<S>::max)() - 10) n0 = (S)n0 / 2;
  e.seed((S)n0);
  { E f(D); f.seed((S)m); f.discard((n0 - m) * (boost::uintmax_t)D * (n0 >= m)); E e2 = e; if(n0 >= m) vf_check(e == f && e2() == f(), "discarding whole points gives the state of seed()"); }
  for(unsigned k = 0; k < 4; ++k) for(unsigned d = 0; d < D; ++d) { R v = e(); vf_check(v >= 0 && v < 1, "values lie in [0, 1)"); vf_check(near_eq<R>(v, faure_coord<R, S>(q, n0 + k, d)), "coordinate d of point n comes from the base-q digits of n and the d-th power of the Pascal matrix"); }
  E g(D); g.seed((S)n0); E h = g; g.discard(c); for(uint64_t k = 0; k < c; ++k) h(); vf_check(g == h && !(g != h) && (g.curr_elem % D == 0 || g.quasi_state == h.quasi_state), "discard(z) is z calls"); vf_check(g() == h(), "with the same next value");
  Tape t; { GOut os(&t); os << g; } E r((unsigned)vf_in32("dim", 1, 1, 12)); r.seed((S)vf_in64("n", 3, 0, 50)); if(vf_in64("same", 0, 0, 1)) r.seed((S)g.seq_count); GIn is(&t); is >> r; vf_check(!is.fail() && r == g && r() == g(), "reading what was written gives an equal engine");
}
VC(Q02, faure_double, "native_only bounded search=6") { faure_vc<double, uint32_t>(); }
VC(Q02, faure_u64, "native_only bounded search=4") { faure_vc<double, uint64_t>(); }
VC(Q02, faure_float, "native_only bounded search=4") { faure_vc<float, uint16_t>(); }
VC(Q02, primes, "native_only bounded search=1") {
  typedef detail::qrng_tables::primes P; uint64_t n = vf_in64("n", 0, 1, 1117), p = n < 2 ? 2 : n; for(;; ++p) { bool pr = true; for(uint64_t k = 2; k * k <= p; ++k) pr &= p % k != 0; if(pr) break; }
  vf_check(P::lower_bound(n) == p, "the base is the least prime not below the dimension");
}
// deductive parts: the Pascal matrix mod q for every q, and the position arithmetic of the engine
static uint64_t choose_mod(unsigned j, unsigned i, uint64_t q) { uint64_t c[20][20]; for(unsigned a = 0; a <= j; ++a) for(unsigned b = 0; b <= a; ++b) c[a][b] = b == 0 || b == a ? 1 : c[a-1][b-1] + c[a-1][b]; return c[j][i] % q; }
template<unsigned n> void pascal_vc() {
  typedef qrng_detail::binomial_coefficients<double, uint64_t, detail::qrng_tables::primes> B;
  B b(1); uint64_t q = vf_in64("q", 0, 2, 1117); b.qs_base = (unsigned short)q;
  b.compute_coefficients(n);
  vf_check(b.coeff.size() == n * (n + 1) / 2, "an upper triangle");
  for(unsigned i = 0; i < n; ++i) for(unsigned j = i; j < n; ++j) vf_check(b.upper_element(i, j, n) == choose_mod(j, i, q), "entry (i, j) is the binomial coefficient mod q");
}
VC(Q02, pascal_1, "backends=z3-int,cvc5-int,z3-bv") { pascal_vc<1>(); }
VC(Q02, pascal_4, "backends=z3-int,cvc5-int,z3-bv") { pascal_vc<4>(); }
VC(Q02, pascal_8, "backends=z3-int,cvc5-int,z3-bv") { pascal_vc<8>(); }
template<class R, class S> struct FQ {
  typedef faure_engine<R, S> E; static const uint64_t LAST = (std::numeric_limits<S>::max)();
  static void seed_spec(E* e, S to) { e->seq_count = to; e->curr_elem = 0; }
  static void seed_spec_point(E* e, S to) { seed_spec(e, to); for(uint64_t d = 0; d < e->dimension(); ++d) e->quasi_state[d] = (R)vf_uf64("pt", 3, e->dimension(), to, d, 0); }
  static void compute_spec(E* e, S to) { for(uint64_t d = 0; d < e->dimension(); ++d) e->quasi_state[d] = (R)vf_uf64("pt", 3, e->dimension(), to, d, 0); }
  static void position(uint64_t D) {
    if(!vf_symbolic()) return;
    vf_replace("faure_engine<.*>::seed\\(", (const void*)(void(*)(E*, S))seed_spec);
    E e(D); uint64_t n = vf_in64("n", 0, 0, LAST), c = vf_in64("c", 0, 0, D), z = vf_nd64("z", 0);
    e.seq_count = (S)n; e.curr_elem = c;
    u128 p = (u128)n * D + c + z, end = ((u128)LAST + 1) * D;
    vf_throw_ok(p > end); e.discard(z);
    vf_check(p <= end, "discard past the end throws range_error");
    vf_check((u128)e.seq_count * D + e.curr_elem == p && e.curr_elem <= D, "discard(z) moves z coordinates on");
  }
  static void step(uint64_t D) {
    if(!vf_symbolic()) return;
    vf_replace("faure_engine<.*>::compute_seq\\(", (const void*)(void(*)(E*, S))compute_spec);
    E e(D); uint64_t n = vf_in64("n", 0, 0, LAST), c = vf_in64("c", 0, 0, D); 
    vf_check(e.seq_count == 0 && e.curr_elem == 0 && e.quasi_state[D-1] == (R)vf_uf64("pt", 3, D, 0, D - 1, 0), "a new engine stands before point 0");
    e.seed((S)n); for(uint64_t d = 0; d < D; ++d) vf_check(e.quasi_state[d] == (R)vf_uf64("pt", 3, D, (S)n, d, 0), "seed(n) computes point n"); vf_check(e.seq_count == (S)n && e.curr_elem == 0, "and stands before it");
    e.curr_elem = c; vf_throw_ok(c == D && n == LAST); R v = e();
    if(c == D) { vf_check(n < LAST && e.seq_count == (S)(n + 1) && e.curr_elem == 1, "after the last coordinate comes the next point"); for(uint64_t d = 0; d < D; ++d) vf_check(e.quasi_state[d] == (R)vf_uf64("pt", 3, D, (S)(n + 1), d, 0), "point n + 1"); vf_check(v == e.quasi_state[0], "its first coordinate"); }
    else vf_check(e.seq_count == (S)n && e.curr_elem == c + 1 && v == e.quasi_state[c], "the next coordinate of the point");
  }
};
VC(Q02, position_u64_3, QI) { FQ<double, uint64_t>::position(3); } VC(Q02, position_u32_2, QI) { FQ<double, uint32_t>::position(2); }
VC(Q02, step_u64_3, QO) { FQ<double, uint64_t>::step(3); } VC(Q02, step_u32_1, QO) { FQ<double, uint32_t>::step(1); }

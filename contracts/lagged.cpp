// Subtract with carry and lagged Fibonacci: E01 (range), E06 (discard), E10 (recurrence), E13 (equality, streams).
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/ranlux.hpp>
#include "vf_ghost.hpp"
using namespace boost::random;
template<class T> void tape_val(Tape& t, T v) {
  if(t.n) { t.kind[t.n] = Tape::CHR; t.val[t.n] = ' '; ++t.n; }
  t.kind[t.n] = std::is_floating_point<T>::value ? Tape::FLT : Tape::INT;
  if(std::is_floating_point<T>::value) { double d = (double)v; __builtin_memcpy(&t.val[t.n], &d, 8); } else t.val[t.n] = (uint64_t)v;
  ++t.n;
}
template<class E> void read_state(E& e, Tape& t) { GIn is(&t); is >> e; vf_assert(!is.fail(), "a written state is accepted"); }
template<class E> Tape written(const E& e) { Tape t; GOut os(&t); os << e; return t; }
inline uint64_t def(const char* nm, uint64_t i, uint64_t v) { if(!vf_symbolic()) return v; uint64_t n = vf_nd64(nm, i); vf_assume(n == v); return n; }
inline bool defb(const char* nm, uint64_t i, bool v) { if(!vf_symbolic()) return v; bool n = vf_ndbool(nm, i); vf_assume(n == v); return n; }
inline void cut(double a, double b, const char* m) { vf_cutf64(a, b, m); }
inline void cut(float a, float b, const char* m) { vf_cutf32(a, b, m); }
template<class T> typename std::enable_if<std::is_integral<T>::value>::type cut(T a, T b, const char* m) { vf_cut64((uint64_t)a, (uint64_t)b, m); }
// ---------------------------------------------------------------- subtract with carry
template<class E> struct Swc {
  typedef typename E::result_type T;
  static const size_t w = E::word_size, r = E::long_lag, s = E::short_lag;
  static const bool flt = std::is_floating_point<T>::value;
  static uint64_t msk() { return (uint64_t(1) << w) - 1; }
  static T from(uint64_t v) { return flt ? (T)v / (T)(uint64_t(1) << w) : (T)v; }       // documented representation v / 2^w
  static void words(const char* nm, uint64_t* x) { for(size_t j = 0; j < r; ++j) x[j] = w <= 32 ? vf_nd32(nm, j) & msk() : vf_nd64(nm, j) & msk(); }
  static void load(E& e, const uint64_t* x, bool c) {
    Tape t; for(size_t j = 0; j < r; ++j) { if(flt) tape_val(t, (double)x[j]); else tape_val(t, x[j]); }
    if(flt) tape_val(t, (double)c); else tape_val(t, (uint64_t)c);
    read_state(e, t);
  }
  static bool next(uint64_t xs, uint64_t xr, bool c, uint64_t& out) { uint64_t sub = xr + c; out = (xs - sub) & msk(); return xs < sub; }
  // after one call returned v: v and the carry are as defined (c: carry before, then after)
  static uint64_t& ctr() { static uint64_t c1v_ = 0; return c1v_; }
  static void step(E& e, uint64_t* x, bool& c, size_t i, T v) {
    bool c1 = next(x[i+r-s], x[i], c, x[i+r]);
    x[i+r] = def("X", i + r + (ctr()++) * 1000, x[i+r]); vf_assume(x[i+r] <= msk()); c = defb("C", i + 1 + ctr() * 1000, c1);
    cut(v, from(x[i+r]), "output is x(i-s) - x(i-r) - carry mod 2^w");
    cut(e.carry, from(c), "carry is the borrow");
  }
  // a whole block from an arbitrary state; it ends in an arbitrary state at the same position, hence every reachable state
  static void recur() {
    uint64_t x[2*r]; words("x", x); bool c = vf_ndbool("c", 0);
    E e; load(e, x, c);
    for(size_t i = 0; i < r; ++i) step(e, x, c, i, e());
    StateOf st(e); vf_assert(st.count() == r + 1, "r words and the carry");
    if(!flt) { for(size_t j = 0; j < r; ++j) vf_check(st.num(j) == x[r+j], "the state is the last r values"); vf_check(st.num(r) == c, "and the carry"); }
    uint64_t y[2*r]; for(size_t j = 0; j < r; ++j) y[j] = x[r+j];
    step(e, y, c, 0, e());
  }
  static void range() {
    uint64_t x[2*r]; words("x", x); bool c = vf_ndbool("c", 0);
    E e; load(e, x, c);
    vf_check(flt ? ((E::min)() == 0 && (E::max)() == 1) : (E::min)() == 0 && (uint64_t)(E::max)() == msk(), "declared range");
    for(size_t i = 0; i < r; ++i) {
      T v = e(); vf_check(v >= (E::min)() && v <= (E::max)(), "output within [min, max]"); if(flt) vf_check(v < 1, "never one");
      step(e, x, c, i, v);
    }
  }
  // equality decides exactly on what determines the future; streams restore it, at every position
  static void equality() {
    uint64_t x[r], y[r]; words("x", x); words("y", y); bool c = vf_ndbool("c", 0), d = vf_ndbool("d", 0);
    for(size_t p = 0; p < r; p += (p == 0 || p + 2 >= r ? 1 : (r - 3 > 0 ? r - 3 : 1))) {
      E a, b; load(a, x, c); load(b, y, d);
      for(size_t k = 0; k < p; ++k) { a(); }
      bool same = c == d; for(size_t k = 0; k < r; ++k) same = same & (x[k] == y[k]);
      if(p == 0) { vf_assert((a == b) == same, "equal exactly if all words and the carry agree"); vf_check((a != b) == !same, "operator!= is the negation"); }
      E f = a; vf_check(f == a && !(f != a), "a copy is equal");
      E g; { Tape t = written(a); vf_check(!t.glued, "numbers are separated"); read_state(g, t); }
      vf_assert(g == a && a == g, "reading what was written gives an equal engine");
      vf_check(f() == g(), "with the same next value"); vf_check(f == g, "and the same state after it");
    }
  }
  // equal engines, whatever their positions, continue equally
  static void equal_future(size_t p) {
    uint64_t x[r], y[r]; words("x", x); words("y", y); bool c = vf_ndbool("c", 0), d = vf_ndbool("d", 0);
    E a, b; load(a, x, c); load(b, y, d); for(size_t k = 0; k < p; ++k) a();
    vf_assume(a == b);
    vf_check(a() == b(), "engines that compare equal return the same value"); vf_check(a() == b(), "and the next"); vf_check(a == b, "and stay equal");
  }
  // discard from every position, all z below three blocks, then whole blocks by induction (the block loop runs
  // (z - k) / r times; each round is the r single steps shown here)
  static void discard(size_t p) {
    uint64_t x[r]; words("x", x); bool c = vf_ndbool("c", 0);
    E e; load(e, x, c); for(size_t k = 0; k < p; ++k) e();
    E f = e;
    for(uint64_t z = 0; z <= 3*r + 1; ++z) {
      E g = e; g.discard(z);
      vf_check(g == f, "discard(z) equals z calls"); E h = f, h2 = g; vf_check(h() == h2(), "and the next value agrees");
      f();
    }
  }
};
typedef subtract_with_carry_engine<uint32_t, 24, 2, 5> swc24; typedef subtract_with_carry_engine<uint64_t, 48, 3, 4> swc48; typedef subtract_with_carry_engine<int32_t, 30, 1, 3> swc30; typedef subtract_with_carry_engine<uint32_t, 31, 3, 7> swc31;
typedef subtract_with_carry_01_engine<float, 24, 2, 5> swc01f; typedef subtract_with_carry_01_engine<double, 48, 3, 4> swc01d;
#define SW(name, E, o) VC(E10, swc_##name, o) { Swc<E>::recur(); } VC(E01, swc_##name, o) { Swc<E>::range(); }
SW(ranlux24_base, ranlux24_base, "") SW(ranlux48_base, ranlux48_base, "") SW(ranlux64_base, ranlux64_base, "") SW(s24, swc24, "") SW(s48, swc48, "") SW(s30, swc30, "") SW(s31, swc31, "")
SW(01f, swc01f, "fixp") SW(01d, swc01d, "fixp") SW(ranlux_base_01, ranlux_base_01, "fixp") SW(ranlux64_base_01, ranlux64_base_01, "fixp")
#define SQ(name, E, o) VC(E13, swc_##name, o) { Swc<E>::equality(); } VC(E13, swc_future_##name, o) { Swc<E>::equal_future(0); Swc<E>::equal_future(1); }
SQ(ranlux24_base, ranlux24_base, "") SQ(ranlux48_base, ranlux48_base, "") SQ(s24, swc24, "") SQ(s48, swc48, "") SQ(s31, swc31, "") SQ(01f, swc01f, "fixp") SQ(01d, swc01d, "fixp")
#define SD(name, E, o) VC(E06, swc_##name, o) { for(size_t p = 0; p < E::long_lag; ++p) Swc<E>::discard(p); }
SD(s24, swc24, "") SD(s48, swc48, "") SD(s30, swc30, "") SD(s31, swc31, "") SD(01d, swc01d, "fixp") 
// ---------------------------------------------------------------- lagged Fibonacci (integers and [0,1))
static uint64_t lf_calls;
template<class E> struct Lf {
  typedef typename E::result_type T;
  static const size_t w = E::word_size, r = E::long_lag, s = E::short_lag;
  static const bool flt = std::is_floating_point<T>::value;
  static uint64_t msk() { return w == 64 ? ~uint64_t(0) : (uint64_t(1) << w % 64) - 1; }
  static T from(uint64_t v) { return flt ? (T)v / (T)(w < 64 ? uint64_t(1) << w % 64 : 1) : (T)v; }
  static void words(const char* nm, uint64_t* x) { for(size_t j = 0; j < r; ++j) x[j] = w <= 32 ? vf_nd32(nm, j) & msk() : vf_nd64(nm, j) & msk(); }
  static void load(E& e, const uint64_t* x, uint64_t i) {
    Tape t; t.kind[0] = Tape::INT; t.val[0] = i; t.n = 1;
    for(size_t j = 0; j < r; ++j) { if(flt) tape_val(t, (double)x[j]); else tape_val(t, x[j]); }
    read_state(e, t);
  }
  static void same_state(const E& a, const E& b, const char* m) { vf_check(a == b, m); }
  static void recur() {
    uint64_t x[2*r]; words("x", x);
    E e; load(e, x, r);
    for(size_t i = 0; i < r; ++i) {
      x[i+r] = (x[i] + x[i+r-s]) & msk();
      if(flt) x[i+r] = def("X", i + r, x[i+r]), vf_assume(x[i+r] <= msk());
      T v = e();
      if(i == 0 && flt && vf_symbolic()) {                // the block was computed at once: cut every word
        uint64_t y[2*r]; for(size_t k = 0; k < r; ++k) y[k] = x[k]; y[r] = x[r];
        vf_cutf64((double)e.x[0], (double)from(x[r]), "x(i) is x(i-r) + x(i-s) mod 1");
      } else vf_check(v == from(x[i+r]), "output is x(i-r) + x(i-s) mod 2^w");
    }
    StateOf st(e); vf_assert(st.count() == r + 1, "position and r words");
    if(!flt) for(size_t j = 0; j < r; ++j) vf_check(st.num(j+1) == x[r+j], "the state is the last r values");
    T y = e(); if(!flt) vf_check(y == from((x[r] + x[2*r-s]) & msk()), "the next block continues");
  }
  static void range() {
    uint64_t x[r]; words("x", x); E e; load(e, x, r);
    vf_check(flt ? ((E::min)() == 0 && (E::max)() == 1) : (E::min)() == 0 && (uint64_t)(E::max)() == msk(), "declared range");
    for(size_t i = 0; i < r + 1; ++i) { T v = e(); vf_check(v >= (E::min)() && v <= (E::max)(), "output within [min, max]"); if(flt && i < s) vf_check(v < 1, "never one"); }
  }
  static void equality() {
    uint64_t x[r], y[r]; words("x", x); words("y", y);
    for(uint64_t p = 0; p <= r; p += (p == 0 || p + 1 >= r ? 1 : r - 2)) for(uint64_t q = 0; q <= r; q += r) {
      E a, b; load(a, x, p); load(b, y, q);
      bool same = p == q; for(size_t k = 0; k < r; ++k) same = same & (x[k] == y[k]);
      vf_assert((a == b) == same, "equal exactly if position and words agree"); vf_check((a != b) == !same, "operator!= is the negation");
      E f = a; vf_check(f == a && !(f != a), "a copy is equal");
      E g; { Tape t = written(a); vf_check(!t.glued, "numbers are separated"); read_state(g, t); }
      vf_assert(g == a, "reading what was written gives an equal engine");
      vf_check(f() == g(), "with the same next value"); vf_check(f == g, "and the same state after it"); vf_check(f() == g(), "and so on");
    }
  }
  static T count(E* e) { ++lf_calls; e->x[0] = T(0); return T(0); }
  static bool calls_inv(uint64_t*, uint64_t k) { return lf_calls == k; }
  static void discard() {
    uint64_t x[r]; words("x", x); E e; load(e, x, vf_in64("i", 0, 0, r));
    uint64_t z = vf_symbolic() ? vf_nd64("z", 0) : vf_in64("z", 0, 0, 3*r + 2);
    if(!vf_symbolic()) { E f = e; e.discard(z); for(uint64_t k = 0; k < z; ++k) f(); vf_assert(e == f, "discard(z) is z calls"); return; }
    lf_calls = 0; uint64_t c = 0;
    vf_replace("lagged_fibonacci.*engine<.*>::operator\\(\\)\\(", (const void*)count);
    vf_loop_inv("lagged_fibonacci.*engine<.*>::discard\\(", (const void*)calls_inv, &c);
    e.discard(z);
    vf_check(lf_calls == z, "discard(z) makes exactly z calls");
  }
};
typedef lagged_fibonacci_engine<uint32_t, 32, 7, 3> lf32; typedef lagged_fibonacci_engine<uint64_t, 64, 5, 4> lf64; typedef lagged_fibonacci_engine<uint32_t, 20, 6, 1> lf20; typedef lagged_fibonacci_engine<uint64_t, 48, 55, 24> lf48;
typedef lagged_fibonacci_01_engine<double, 48, 7, 3> lf01d; typedef lagged_fibonacci_01_engine<float, 23, 5, 4> lf01f;
#define LF(name, E, o) VC(E10, lf_##name, o) { Lf<E>::recur(); } VC(E01, lf_##name, o) { Lf<E>::range(); } VC(E13, lf_##name, o) { Lf<E>::equality(); } VC(E06, lf_##name, "unroll=2000") { Lf<E>::discard(); }
LF(lf32, lf32, "") LF(lf64, lf64, "") LF(lf20, lf20, "") LF(lf48, lf48, "")
#define LFF(name, E, o) VC(E10, lf_##name, o " unroll=2000") { Lf<E>::recur(); } VC(E01, lf_##name, o " unroll=2000") { Lf<E>::range(); }  VC(E06, lf_##name, "unroll=2000") { Lf<E>::discard(); }
LFF(lf01d, lf01d, "fixp") LFF(lf01f, lf01f, "fixp") LFF(lf607, lagged_fibonacci607, "fixp")
VC(E13, lf_lf01d, "fixp") { Lf<lf01d>::equality(); } VC(E13, lf_lf01f, "fixp") { Lf<lf01f>::equality(); }

// E09: seed_seq::generate is the standard's algorithm.  D09: engine.generate splits successive values into words.
#include <boost/random/seed_seq.hpp>
#include "vf_ghost.hpp"
#include <vector>
using namespace boost::random;
// ---------------------------------------------------------------- E09
// Ghost memory: the content after k rounds is X(k, .), defined by the recursion of [rand.util.seedseq].  The iterator
// below gives the real code this memory; a round ends with its third write, when the content is compared, at an
// arbitrary index, with the definition's next content.
static struct SS { uint64_t n, s, base, nlog, fill, li[3], lv[3], j; uint32_t cell; } ss;
static uint32_t Xk(uint64_t k, uint64_t i) { return k == 0 ? 0x8b8b8b8bu : (uint32_t)vf_uf64("X", 2, k, i, 0, 0); }
static uint32_t vword(uint64_t i) { return (uint32_t)vf_uf64("vw", 1, i, 0, 0, 0); }
static uint64_t rd(uint64_t i) {
  uint64_t v = Xk(ss.base, i);
  for(int e = 0; e < 3; ++e) if((uint64_t)e < ss.nlog) v = ss.li[e] == i ? ss.lv[e] : v;
  return v;
}
struct Rnd { uint64_t ip, iq, ik; uint32_t vp, vq, vk; };
// one round of the definition on content c(.): positions and values written, in order
template<class C> uint32_t ss_spec(uint64_t k, uint64_t n, uint64_t s, C c, uint64_t j) {
  uint64_t t = n >= 623 ? 11 : n >= 68 ? 7 : n >= 39 ? 5 : n >= 7 ? 3 : (n - 1) / 2, p = (n - t) / 2, q = p + t, m = s + 1 < n ? n : s + 1;
  uint64_t ip = (k + p) % n, iq = (k + q) % n, ik = k % n, il = (k + n - 1) % n;
  if(k < m) {
    uint32_t a = c(ik) ^ c(ip) ^ c(il), r1 = 1664525u * (a ^ (a >> 27));
    uint32_t r2 = r1 + (k == 0 ? (uint32_t)s : k <= s ? (uint32_t)ik + vword(k - 1) : (uint32_t)ik);
    uint32_t vp = c(ip) + r1, vq = (iq == ip ? vp : c(iq)) + r2;
    return j == ik ? r2 : j == iq ? vq : j == ip ? vp : c(j);
  }
  uint32_t a = c(ik) + c(ip) + c(il), r3 = 1566083941u * (a ^ (a >> 27)), r4 = r3 - (uint32_t)ik;
  uint32_t vp = c(ip) ^ r3, vq = (iq == ip ? vp : c(iq)) ^ r4;
  return j == ik ? r4 : j == iq ? vq : j == ip ? vp : c(j);
}
struct XC { uint64_t k; uint32_t operator()(uint64_t i) const { return Xk(k, i); } };
template<class T> struct SIt {
  typedef std::random_access_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer;
  struct ref {
    uint64_t p;
    operator T() const { vf_assert(p < ss.n && ss.fill == ss.n, "only elements of the range, already initialised, are read"); return (T)rd(p); }
    ref& operator=(T v) {
      vf_assert(p < ss.n, "only the range is written");
      if(ss.fill < ss.n) { vf_assert(p == ss.fill && v == (T)0x8b8b8b8bu, "the range is first filled with 0x8b8b8b8b"); ++ss.fill; return *this; }
      ss.li[ss.nlog] = p; ss.lv[ss.nlog] = (uint64_t)v; ++ss.nlog;
      if(ss.nlog == 3) {
        vf_check(rd(ss.j) == ss_spec(ss.base, ss.n, ss.s, XC{ss.base}, ss.j), "after every round each word is the one of the standard's algorithm");
        ++ss.base; ss.nlog = 0; ss.cell = 0; for(int e = 0; e < 3; ++e) ss.li[e] = ss.lv[e] = 0;
      }
      return *this;
    }
    ref& operator=(const ref& o) { return *this = (T)o; }
    ref& operator+=(T v) { return *this = (T)((T)*this + v); } ref& operator^=(T v) { return *this = (T)((T)*this ^ v); } ref& operator&=(T v) { return *this = (T)((T)*this & v); }
  };
  typedef ref reference;
  uint64_t p;
  explicit SIt(uint64_t q = 0) : p(q) {}
  ref operator*() const { return ref{p}; } ref operator[](std::ptrdiff_t i) const { return ref{p + i}; }
  SIt& operator++() { ++p; return *this; } SIt operator++(int) { SIt t(p); ++p; return t; } SIt& operator--() { --p; return *this; }
  SIt& operator+=(std::ptrdiff_t i) { p += i; return *this; } SIt& operator-=(std::ptrdiff_t i) { p -= i; return *this; }
  friend SIt operator+(SIt a, std::ptrdiff_t i) { return SIt(a.p + i); } friend SIt operator+(std::ptrdiff_t i, SIt a) { return SIt(a.p + i); } friend SIt operator-(SIt a, std::ptrdiff_t i) { return SIt(a.p - i); }
  friend std::ptrdiff_t operator-(SIt a, SIt b) { return a.p - b.p; }
  friend bool operator==(SIt a, SIt b) { return a.p == b.p; } friend bool operator!=(SIt a, SIt b) { return a.p != b.p; } friend bool operator<(SIt a, SIt b) { return a.p < b.p; }
};
static uint64_t vs_size(const void*) { return ss.s; }
static const uint32_t* vs_at(const void*, uint64_t i) { vf_assert(i < ss.s, "only stored words are read"); ss.cell = vword(i); return &ss.cell; }
template<class T> void ss_fill(SIt<T> b, SIt<T> e, const T& v) {      // contract of std::fill on the ghost range
  vf_assert(b.p == 0 && e.p == ss.n && ss.fill == 0 && v == (T)0x8b8b8b8bu, "the range is first filled with 0x8b8b8b8b"); ss.fill = ss.n;
}
template<class T> void seedseq_vc(uint64_t lo, uint64_t hi) {
  if(vf_symbolic()) {
    ss.n = lo == hi ? lo : vf_in64("n", 0, lo, hi); ss.s = vf_in64("s", 0, 0, 1ull << 60); ss.j = vf_nd64("j", 0); vf_assume(ss.j < ss.n);
    vf_replace("^std::vector<unsigned int, .*::size\\(\\) const", (const void*)vs_size);
    vf_replace("^std::vector<unsigned int, .*::operator\\[\\]\\(unsigned long\\) const", (const void*)vs_at);
    vf_loop_abstract("seed_seq::generate"); vf_replace("^void std::fill<SIt", (const void*)ss_fill<T>);
    seed_seq q; q.generate(SIt<T>(0), SIt<T>(ss.n));
    uint64_t m = ss.s + 1 > ss.n ? ss.s + 1 : ss.n;
    vf_check(ss.fill == ss.n && ss.nlog == 0, "complete rounds"); vf_check(ss.n == 0 || ss.base == m + ss.n, "all rounds of the algorithm");
  } else {
    uint64_t n = vf_in64("n", 0, lo, hi > 700 ? 700 : hi), s = vf_in64("s", 0, 0, 40);
    std::vector<uint32_t> v; for(uint64_t i = 0; i < s; ++i) v.push_back(vword(i));
    seed_seq q(v); std::vector<T> x(n + 2, (T)7); q.generate(x.begin() + 1, x.begin() + 1 + n);
    std::vector<uint32_t> y(n, 0x8b8b8b8bu), z;
    if(n) for(uint64_t k = 0, m = s + 1 > n ? s + 1 : n; k < m + n; ++k) { z = y; for(uint64_t j = 0; j < n; ++j) if(j == k % n || j == (k + (n - (n >= 623 ? 11 : n >= 68 ? 7 : n >= 39 ? 5 : n >= 7 ? 3 : (n - 1) / 2)) / 2) % n || true) y[j] = ss_spec(k, n, s, [&](uint64_t i) { return z[i]; }, j); }
    for(uint64_t j = 0; j < n; ++j) vf_check(x[j+1] == y[j], "the words of the standard's algorithm");
    vf_check(x[0] == 7 && x[n+1] == 7, "nothing outside the range is written");
  }
}
#define SSO "backends=z3-abs,z3-bv,cvc5-bv,z3-int unroll=4 feas=z3-int,z3-bv"
#define SQ(n, lo, hi) VC(E09, u32_##n, SSO) { seedseq_vc<uint32_t>(lo, hi); } VC(E09, u64_##n, SSO) { seedseq_vc<uint64_t>(lo, hi); }
VC(E09, empty_u64, "") { seed_seq q; uint64_t x = vf_nd64("x", 0), y = x; q.generate(&y, &y); vf_check(x == y, "an empty request does nothing"); }
SQ(1, 1, 1) SQ(2, 2, 2) SQ(3, 3, 3) SQ(4, 4, 4) SQ(5, 5, 5) SQ(6, 6, 6) SQ(7, 7, 38) SQ(39, 39, 67) SQ(68, 68, 622) SQ(623, 623, 1ull << 62)
VC(E09, store, "") {   // construction keeps the words; size and param return them
  uint32_t a[5]; for(int i = 0; i < 5; ++i) a[i] = vf_nd32("a", i);
  uint64_t n = vf_in64("n", 0, 0, 5);
  for(uint64_t c = 0; c <= 5; ++c) if(n == c) {
    seed_seq q(a, a + c); vf_check(q.size() == c, "size is the number of words"); uint32_t o[5]; q.param(o); for(uint64_t i = 0; i < c; ++i) vf_check(o[i] == a[i], "param returns the words");
    std::vector<uint64_t> w; for(uint64_t i = 0; i < c; ++i) w.push_back(a[i] | 0x300000000ull); seed_seq r(w); vf_check(r.size() == c, "from a range"); r.param(o); for(uint64_t i = 0; i < c; ++i) vf_check(o[i] == a[i], "reduced modulo 2^32");
  }
  seed_seq d; vf_check(d.size() == 0, "default is empty");
}
VC(E09, empty, "") { seed_seq q; uint32_t x = vf_nd32("x", 0), y = x; q.generate(&y, &y); vf_check(x == y, "an empty request does nothing"); }
// ---------------------------------------------------------------- D09
#include <boost/random/detail/seed_impl.hpp>
#include <boost/random/linear_congruential.hpp>
#include <boost/random/additive_combine.hpp>
#include <boost/random/discard_block.hpp>
#include <boost/random/independent_bits.hpp>
#include <boost/random/inversive_congruential.hpp>
#include <boost/random/lagged_fibonacci.hpp>
#include <boost/random/linear_feedback_shift.hpp>
#include <boost/random/mersenne_twister.hpp>
#include <boost/random/mixmax.hpp>
#include <boost/random/shuffle_order.hpp>
#include <boost/random/subtract_with_carry.hpp>
#include <boost/random/xor_combine.hpp>
#include <boost/random/splitmix64.hpp>
#include <boost/random/taus88.hpp>
typedef unsigned __int128 u128;
// The words are the bits of the successive values, low bits first: `bits` bits of every value v - min that lies below
// the largest multiple of 2^bits in the engine's range (others are redrawn), cut into 32-bit words.
static struct Bits { uint64_t n, wr, nb; u128 acc; } bt;
template<class T, T lo, T hi, int bits> struct BEng : GEng<T, lo, hi, 60> {
  T operator()() {
    T v = GEng<T, lo, hi, 60>::operator()(); uint64_t val = (uint64_t)v - (uint64_t)lo;
    if(sizeof(T) < 8) val &= ((uint64_t)1 << (sizeof(T) * 8 % 64)) - 1;
    vf_assert(bt.wr < bt.n && bt.nb < 32, "a value is drawn only when a further word needs it");
    u128 N = (u128)((uint64_t)hi - (uint64_t)lo) + 1, B = (u128)1 << bits;
    if((u128)val < N - N % B) { bt.acc |= (u128)((u128)val & (B - 1)) << bt.nb; bt.nb += bits; }
    return v;
  }
};
template<class T> struct WIt {      // the range written
  typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer;
  struct ref { uint64_t p; const ref& operator=(T v) const {
    vf_assert(p == bt.wr && bt.wr < bt.n, "the elements are written in order, once each");
    vf_assert(bt.nb >= 32, "each word is complete"); vf_assert((uint64_t)v == (uint32_t)bt.acc, "the word is the next 32 bits of the values, low bits first");
    bt.acc >>= 32; bt.nb -= 32; ++bt.wr; return *this; } };
  typedef ref reference;
  uint64_t p;
  explicit WIt(uint64_t q = 0) : p(q) {}
  ref operator*() const { return ref{p}; } WIt& operator++() { ++p; return *this; } WIt operator++(int) { WIt t(p); ++p; return t; }
  friend bool operator==(WIt a, WIt b) { return a.p == b.p; } friend bool operator!=(WIt a, WIt b) { return a.p != b.p; }
};
static bool bits_inv(const void*, uint64_t) { return (bt.nb <= 96) & (bt.acc < ((u128)1 << (bt.nb & 127))); }
static bool bits_inv32(const void*, uint64_t) { return bt.nb < 32; }
template<class T, T lo, T hi, int bits, class W> void gen_vc() {
  typedef BEng<T, lo, hi, bits> G;
  bt.n = vf_in64("n", 0, 1, vf_symbolic() ? (uint64_t)1 << 62 : 40); bt.wr = 0; bt.nb = 0; bt.acc = 0;
  vf_loop_abstract("generate_from_int"); vf_loop_inv("generate_from_int", (const void*)bits_inv, 0); vf_loop_cand("generate_from_int", (const void*)bits_inv32, 0);
  G g; detail::generate(g, WIt<W>(0), WIt<W>(bt.n));
  vf_check(bt.wr == bt.n, "every element is written");
  bt.n = bt.wr = 0; G h; detail::generate(h, WIt<W>(5), WIt<W>(5));
  vf_check(h.k == 0, "an empty range draws nothing");
}
#define GN(n, bits, T, lo, hi) VC(D09, n, "backends=z3-bv,cvc5-bv,z3-int unroll=4 force_after=4 allpairs") { gen_vc<T, lo, hi, bits, uint32_t>(); }
GN(w32, 32, uint32_t, 0, 0xffffffffu) GN(w64, 64, uint64_t, 0, ~0ull) GN(w31, 31, uint32_t, 0, 0x7fffffffu) GN(w24, 24, uint32_t, 0, 0xffffffu) GN(w48, 48, uint64_t, 0, 0xffffffffffffull) GN(w16, 16, uint16_t, 0, 65535) GN(w8, 8, uint8_t, 0, 255) GN(w61, 61, uint64_t, 0, 0x1fffffffffffffffull) GN(w1, 1, uint32_t, 0, 1) GN(w33, 33, uint64_t, 0, 0x1ffffffffull) GN(s32, 32, int32_t, -2147483647 - 1, 2147483647) GN(w32_in64, 32, uint64_t, 0, 0xffffffffull)
GN(minstd, 26, uint32_t, 1, 2147483646u) GN(hellekalek, 26, uint32_t, 0, 2147483646u) GN(kr, 15, uint32_t, 0, 714024) GN(m61, 55, uint64_t, 0, 0x1ffffffffffffffeull) GN(off, 12, uint16_t, 7, 65534)
VC(D09, w32_u64, "backends=z3-bv,cvc5-bv,z3-int unroll=4 force_after=4 allpairs") { gen_vc<uint32_t, 0, 0xffffffffu, 32, uint64_t>(); }
// floating point engines: value m / 2^bits
template<class R, int bits> struct FEng {
  typedef R result_type; static const bool has_fixed_range = false; uint64_t id, k;
  FEng() : id(vf_nd64("eng", 0)), k(0) {}
  static R min BOOST_PREVENT_MACRO_SUBSTITUTION () { return 0; } static R max BOOST_PREVENT_MACRO_SUBSTITUTION () { return 1; }
  R operator()() {
    uint64_t m = vf_uf64("feng", 2, id, k++, 0, 0) & (((uint64_t)1 << bits) - 1);
    vf_assert(bt.wr < bt.n && bt.nb < 32, "a value is drawn only when a further word needs it");
    bt.acc |= (u128)m << bt.nb; bt.nb += bits;
    return (R)m / (R)((uint64_t)1 << bits);
  }
};
namespace boost { namespace random { namespace detail { template<class R, int bits> struct generator_bits<FEng<R, bits> > { static std::size_t value() { return bits; } }; } } }
template<class R, int bits> void genf_vc(uint64_t n) {
  bt.n = n; bt.wr = 0; bt.nb = 0; bt.acc = 0;
  FEng<R, bits> g; detail::generate(g, WIt<uint32_t>(0), WIt<uint32_t>(bt.n));
  vf_check(bt.wr == bt.n, "every element is written");
  bt.n = bt.wr = 0; FEng<R, bits> h; detail::generate(h, WIt<uint32_t>(5), WIt<uint32_t>(5));
  vf_check(h.k == 0, "an empty range draws nothing");
}
#define GF(n, R, bits, k) VC(D09, real_##n, "backends=z3-bv,cvc5-bv,z3-int fixp=z3-bv,cvc5-bv bounded") { genf_vc<R, bits>(k); }
GF(48, double, 48, 24) GF(24, float, 24, 24) GF(23, float, 23, 24) GF(31, double, 31, 16) GF(32, double, 32, 16) GF(53, double, 53, 24)
// every engine's generate member hands itself and the range to the functions above
static struct GC { const void* e; const uint32_t *b, *l; uint64_t n; } gc;
template<class E> void gen_stub(E& e, uint32_t* b, uint32_t* l) { gc.e = &e; gc.b = b; gc.l = l; ++gc.n; }
template<class E> void delegate_vc() {
  static uint32_t buf[5];
  if(vf_symbolic()) {
    vf_replace("^void boost::random::detail::generate_(from_int|from_real)<", (const void*)gen_stub<E>);
    E e; gc.n = 0; uint64_t n = vf_in64("n", 0, 0, 5);
    e.generate(&buf[0], &buf[0] + n);
    vf_check(gc.n == 1 && gc.e == (const void*)&e && gc.b == buf && gc.l == buf + n, "generate(first, last) fills exactly the range from this engine");
  } else {
    uint64_t n = vf_in64("n", 0, 0, 5); E e((uint32_t)vf_nd32("seed", 0)), f = e; uint32_t x[5] = { 1, 2, 3, 4, 5 }, y[5] = { 1, 2, 3, 4, 5 };
    e.generate(x, x + n); detail::generate(f, y, y + n);
    for(int i = 0; i < 5; ++i) vf_check(x[i] == y[i], "generate(first, last) fills exactly the range from this engine"); vf_check(e == f, "and leaves the engine as those calls do");
  }
}
#define GDL(n, ...) VC(D09, member_##n, "search=0.3") { delegate_vc<__VA_ARGS__>(); }
GDL(minstd_rand, minstd_rand) GDL(ecuyer1988, ecuyer1988) GDL(hellekalek, hellekalek1995) GDL(mt11213b, mt11213b) GDL(mt19937_64, mt19937_64) GDL(ranlux_base, subtract_with_carry_engine<uint32_t, 24, 10, 24>) GDL(swc01, subtract_with_carry_01_engine<double, 48, 10, 24>) GDL(lagged607, lagged_fibonacci607) GDL(lagged_int, lagged_fibonacci_engine<uint32_t, 24, 13, 7>)
GDL(lfsr, linear_feedback_shift_engine<uint32_t, 32, 31, 13, 12>) GDL(taus88, taus88) GDL(knuth_b, knuth_b) GDL(mixmax, mixmax) GDL(indep, independent_bits_engine<minstd_rand, 17, uint32_t>)
// rand48 and splitmix64 deliver one value per element
static struct PW { uint64_t k, wr, n; } pw;
template<class T> T pw_next(void*) { return (T)vf_uf64("pw", 1, pw.k++, 0, 0, 0); }
template<class T> struct PIt {
  typedef std::forward_iterator_tag iterator_category; typedef T value_type; typedef std::ptrdiff_t difference_type; typedef T* pointer;
  struct ref { uint64_t p; const ref& operator=(T v) const {
    vf_assert(p == pw.wr && pw.wr < pw.n, "the elements are written in order, once each"); vf_assert(pw.k == pw.wr + 1, "one value is drawn for each element");
    vf_assert(v == (T)vf_uf64("pw", 1, pw.wr, 0, 0, 0), "element i is the i-th value"); ++pw.wr; return *this; } };
  typedef ref reference; uint64_t p; explicit PIt(uint64_t q = 0) : p(q) {}
  ref operator*() const { return ref{p}; } PIt& operator++() { ++p; return *this; } PIt operator++(int) { PIt t(p); ++p; return t; }
  friend bool operator==(PIt a, PIt b) { return a.p == b.p; } friend bool operator!=(PIt a, PIt b) { return a.p != b.p; }
};
template<class E> void plain_vc(const char* next, const char* loop) {
  typedef typename E::result_type T;
  if(vf_symbolic()) {
    vf_replace(next, (const void*)pw_next<T>); vf_loop_abstract(loop);
    pw.n = vf_in64("n", 0, 0, (uint64_t)1 << 62); pw.k = pw.wr = 0;
    E e; e.generate(PIt<T>(0), PIt<T>(pw.n));
    vf_check(pw.wr == pw.n && pw.k == pw.n, "every element is written, and nothing more drawn");
  } else {
    E e, f; uint64_t n = vf_in64("n", 0, 0, 9); T x[9]; for(int i = 0; i < 9; ++i) x[i] = 7; e.generate(x, x + n);
    for(uint64_t i = 0; i < 9; ++i) vf_check(x[i] == (i < n ? f() : 7), "element i is the i-th value"); vf_check(e == f, "and nothing more is drawn");
  }
}
VC(D09, member_rand48, "backends=z3-bv,cvc5-bv,z3-int") { plain_vc<rand48>("^boost::random::rand48::operator\\(\\)\\(\\)", "rand48::generate"); }
VC(D09, member_splitmix64, "backends=z3-bv,cvc5-bv,z3-int") { plain_vc<splitmix64>("^boost::random::splitmix64::(next|operator\\(\\))\\(\\)", "splitmix64::generate"); }

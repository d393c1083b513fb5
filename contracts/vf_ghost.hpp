// Ghost environment: seed sequences, input iterators, engines and streams whose behaviour is an arbitrary
// (symbolic) input of the contract and whose use by the real code is checked.
#ifndef VF_GHOST_HPP
#define VF_GHOST_HPP
#include "vf.hpp"
#include <iterator>
#include <istream>
#include <ostream>
#include <locale>
#include <limits>
#include <type_traits>
#include <cstring>

// ---- a seed sequence delivering arbitrary 32-bit words s[0], s[1], ...
struct GSeq {
  uint64_t calls, words;
  GSeq() : calls(0), words(0) {}
  template<class It> void generate(It b, It e) {
    ++calls;
    for(; b != e; ++b) { *b = vf_nd32("s", words); ++words; }
  }
};
// ---- an input range of n arbitrary words w[0..n-1]; n itself is arbitrary
struct GRange { uint64_t n; };
struct GIt {
  typedef std::input_iterator_tag iterator_category;
  typedef uint32_t value_type; typedef std::ptrdiff_t difference_type; typedef const uint32_t* pointer; typedef uint32_t reference;
  GRange* r; uint64_t p;
  GIt() : r(0), p(0) {}
  GIt(GRange* r_, uint64_t p_) : r(r_), p(p_) {}
  uint32_t operator*() const { vf_assert(p < r->n, "the range is not dereferenced at or past its end"); return vf_nd32("w", p); }
  GIt& operator++() { vf_assert(p < r->n, "the iterator is not advanced past the end"); ++p; return *this; }
  GIt operator++(int) { GIt t = *this; ++*this; return t; }
  friend bool operator==(const GIt& a, const GIt& b) { return a.p == b.p; }
  friend bool operator!=(const GIt& a, const GIt& b) { return a.p != b.p; }
};

// ---- an engine whose k-th value is an arbitrary function of (seed id, k), within [lo, hi]
template<class T, T lo, T hi, int ID = 0, int W = 32> struct GEng {
  typedef T result_type;
  static const bool has_fixed_range = false;
  uint64_t id, k;
  GEng() : id(vf_nd64("eng", 0)), k(0) {}
  explicit GEng(uint64_t i, int) : id(i), k(0) {}
  static T value(uint64_t id, uint64_t k) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo;
    uint64_t v = vf_uf64("eng", 3, id, k, ID, 0);
    if(span == 0xffffffffffffffffull) return (T)v;
    if((span & (span + 1)) == 0) return (T)((uint64_t)lo + (v & span));
    if(!vf_symbolic()) v %= span + 1;
    vf_assume(v <= span);
    return (T)((uint64_t)lo + v);
  }
  T operator()() { return value(id, k++); }
  static constexpr T min BOOST_PREVENT_MACRO_SUBSTITUTION () { return lo; }
  static constexpr T max BOOST_PREVENT_MACRO_SUBSTITUTION () { return hi; }
  void discard(uint64_t z) { k += z; }
  void seed() { id = 0x5eed; k = 0; }
  template<class X> typename std::enable_if<std::is_arithmetic<X>::value>::type seed(const X& x) { id = (uint64_t)x; k = 0; }
  friend bool operator==(const GEng& a, const GEng& b) { return a.id == b.id && a.k == b.k; }
  friend bool operator!=(const GEng& a, const GEng& b) { return !(a == b); }
  template<class C, class Tr> friend std::basic_ostream<C, Tr>& operator<<(std::basic_ostream<C, Tr>& os, const GEng& e) { return os << e.id << ' ' << e.k; }
  template<class C, class Tr> friend std::basic_istream<C, Tr>& operator>>(std::basic_istream<C, Tr>& is, GEng& e) { return is >> e.id >> std::ws >> e.k; }
};

// ---- streams: a tape of tokens.  Models the iostream guarantee that an integer, or a floating point value
// written with enough precision, reads back as itself when it is delimited.
struct vtraits : std::char_traits<char> {};
struct Tape {
  enum { CAP = 1500 };
  enum { CHR = 1, INT = 2, NEG = 3, FLT = 4 };
  uint8_t kind[CAP]; uint64_t val[CAP]; uint64_t n, rd; bool glued; bool fail; bool eof;
  Tape() : n(0), rd(0), glued(false), fail(false), eof(false) {}
  void put(uint8_t k, uint64_t v) {
    if(k != CHR && n > 0 && kind[n-1] != CHR) glued = true;
    if(n < CAP) { kind[n] = k; val[n] = v; }
    ++n;
  }
  bool space(uint64_t i) const { return kind[i] == CHR && (val[i] == ' ' || val[i] == '\n' || val[i] == '\t'); }
  void skip() { while(rd < n && space(rd)) ++rd; }
  bool number() {                       // positions at a number or fails
    if(fail || eof) { fail = true; return false; }
    skip();
    if(rd >= n) { eof = fail = true; return false; }
    if(kind[rd] == CHR) { fail = true; return false; }
    return true;
  }
};
namespace std {
template<> class basic_ostream<char, vtraits> {
public:
  typedef char char_type; typedef vtraits traits_type;
  static const ios_base::fmtflags dec = ios_base::dec, fixed = ios_base::fixed, left = ios_base::left, scientific = ios_base::scientific;
  Tape* t;
  explicit basic_ostream(Tape* t_) : t(t_) {}
  template<class X> basic_ostream& num(X x) { if(x < X(0)) t->put(Tape::NEG, (uint64_t)(int64_t)x); else t->put(Tape::INT, (uint64_t)x); return *this; }
  basic_ostream& operator<<(short x) { return num(x); }
  basic_ostream& operator<<(unsigned short x) { return num(x); }
  basic_ostream& operator<<(int x) { return num(x); }
  basic_ostream& operator<<(unsigned x) { return num(x); }
  basic_ostream& operator<<(long x) { return num(x); }
  basic_ostream& operator<<(unsigned long x) { return num(x); }
  basic_ostream& operator<<(long long x) { return num(x); }
  basic_ostream& operator<<(unsigned long long x) { return num(x); }
  basic_ostream& operator<<(double x) { uint64_t b; __builtin_memcpy(&b, &x, 8); t->put(Tape::FLT, b); return *this; }
  basic_ostream& operator<<(float x) { return *this << (double)x; }
  basic_ostream& operator<<(char c) { t->put(Tape::CHR, (unsigned char)c); return *this; }
  basic_ostream& operator<<(const char* s) { for(; *s; ++s) *this << *s; return *this; }
  char widen(char c) const { return c; }
  basic_ostream& flush() { return *this; }
  ios_base::fmtflags flags() const { return ios_base::dec; }
  ios_base::fmtflags flags(ios_base::fmtflags) { return ios_base::dec; }
  streamsize precision() const { return 17; }
  streamsize precision(streamsize) { return 17; }
  explicit operator bool() const { return true; }
};
template<> class basic_istream<char, vtraits> {
public:
  typedef char char_type; typedef vtraits traits_type;
  static const ios_base::fmtflags dec = ios_base::dec, fixed = ios_base::fixed, left = ios_base::left, scientific = ios_base::scientific;
  Tape* t;
  explicit basic_istream(Tape* t_) : t(t_) {}
  template<class X> basic_istream& num(X& x) {
    if(!t->number()) return *this;
    if(t->kind[t->rd] == Tape::FLT) {                    // reads the integer part only: not a round trip
      double d; __builtin_memcpy(&d, &t->val[t->rd], 8);
      if(d >= 0 && d < 1.8e19 && (double)(uint64_t)d == d && (uint64_t)d <= (uint64_t)numeric_limits<X>::max()) x = (X)(uint64_t)d; else { t->fail = true; return *this; }
      ++t->rd; return *this;
    }
    uint64_t v = t->val[t->rd];
    bool ok = t->kind[t->rd] == Tape::INT ? v <= (uint64_t)numeric_limits<X>::max()
              : (numeric_limits<X>::is_signed && (int64_t)v >= (int64_t)numeric_limits<X>::min());
    if(!ok) { t->fail = true; ++t->rd; return *this; }
    x = (X)v; ++t->rd; return *this;
  }
  basic_istream& operator>>(short& x) { return num(x); }
  basic_istream& operator>>(unsigned short& x) { return num(x); }
  basic_istream& operator>>(int& x) { return num(x); }
  basic_istream& operator>>(unsigned& x) { return num(x); }
  basic_istream& operator>>(long& x) { return num(x); }
  basic_istream& operator>>(unsigned long& x) { return num(x); }
  basic_istream& operator>>(long long& x) { return num(x); }
  basic_istream& operator>>(unsigned long long& x) { return num(x); }
  basic_istream& operator>>(double& x) {
    if(!t->number()) return *this;
    uint64_t v = t->val[t->rd]; double d;
    if(t->kind[t->rd] == Tape::FLT) __builtin_memcpy(&d, &v, 8); else d = t->kind[t->rd] == Tape::INT ? (double)v : (double)(int64_t)v;
    x = d; ++t->rd; return *this;
  }
  basic_istream& operator>>(float& x) { double d; if(*this >> d) x = (float)d; return *this; }
  basic_istream& operator>>(char& c) {
    if(t->fail || t->eof) { t->fail = true; return *this; }
    t->skip();
    if(t->rd >= t->n) { t->eof = t->fail = true; return *this; }
    if(t->kind[t->rd] == Tape::CHR) c = (char)t->val[t->rd]; else c = '0';
    ++t->rd; return *this;
  }
  basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
  char widen(char c) const { return c; }
  basic_istream& putback(char) { if(t->rd) --t->rd; return *this; }
  void setstate(ios_base::iostate s) { if(s & (ios_base::failbit | ios_base::badbit)) t->fail = true; if(s & ios_base::eofbit) t->eof = true; }
  void clear() { t->fail = t->eof = false; }
  bool fail() const { return t->fail; }
  bool good() const { return !t->fail && !t->eof; }
  bool eof() const { return t->eof; }
  ios_base::iostate exceptions() const { return ios_base::goodbit; }
  void exceptions(ios_base::iostate) {}
  explicit operator bool() const { return !t->fail; }
  bool operator!() const { return t->fail; }
};
template<> inline basic_istream<char, vtraits>& ws(basic_istream<char, vtraits>& is) { if(!is.t->fail) { is.t->skip(); if(is.t->rd >= is.t->n) is.t->eof = true; } return is; }
}
typedef std::basic_ostream<char, vtraits> GOut;
typedef std::basic_istream<char, vtraits> GIn;
// the state an engine writes, as numbers: k-th number on the tape
struct StateOf {
  Tape t;
  template<class E> explicit StateOf(const E& e) { GOut os(&t); os << e; }
  uint64_t num(uint64_t k) const { uint64_t i = 0; for(;; ++i) { if(t.kind[i] != Tape::CHR) { if(k == 0) return t.val[i]; --k; } } }
  uint64_t count() const { uint64_t c = 0; for(uint64_t i = 0; i < t.n; ++i) c += t.kind[i] != Tape::CHR; return c; }
};
#endif

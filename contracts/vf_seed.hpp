#ifndef VF_SEED_HPP
#define VF_SEED_HPP
// Ways of seeding an engine from arbitrary words (E07, E08).
#include "vf_ghost.hpp"
#include "vf_util.hpp"
#include <stdexcept>
// word sources: a seed sequence's words, an iterator range's words
struct WSeq { static const bool range = false; uint32_t operator()(uint64_t i) const { return vf_nd32("s", i); } };
struct WRng { static const bool range = true; uint32_t operator()(uint64_t i) const { return vf_nd32("w", i); } };

// runs one way of seeding; need = words a range must supply, asked = words a sequence is asked for
template<class E, class W> struct Seeded;
template<class E> struct Seeded<E, WSeq> {
  static E make(uint64_t need, uint64_t asked) {
    GSeq s; E e(s);
    vf_assert(s.calls == 1 && s.words == asked, "generate is called once for exactly the documented number of words");
    E f; GSeq s2; f.seed(s2); vf_check(f == e, "seed(seq) equals construction from seq");
    return e;
  }
};
template<class E> struct Seeded<E, WRng> {
  static E make(uint64_t need, uint64_t asked) {
    GRange r; r.n = need + vf_in64("extra", 0, 0, 1000);
    GIt first(&r, 0), last(&r, r.n);
    E e(first, last);
    vf_assert(first.p == need, "the iterator is advanced past exactly the words consumed");
    E f; GIt f2(&r, 0); f.seed(f2, last); vf_check(f == e, "seed(first, last) equals construction"); vf_check(f2.p == need, "seed(first, last) advances as construction does");
    return e;
  }
};
template<class E, uint64_t need> void short_range() {
  GRange r; r.n = vf_in64("n", 0, 0, need + 3);
  GIt first(&r, 0), last(&r, r.n);
  vf_throw_ok(r.n < need);
  if(!vf_symbolic()) {              // native: the exception type as well
    bool bad = false;
    try { E e(first, last); } catch(std::invalid_argument&) { bad = true; }
    vf_assert(bad == (r.n < need), "a short range throws std::invalid_argument");
    if(!bad) vf_assert(first.p == need, "exactly the needed words are consumed");
    return;
  }
  E e(first, last);
  vf_assert(r.n >= need, "no result from a short range");
  vf_assert(first.p == need, "exactly the needed words are consumed");
}
template<int w, class W> uint64_t word_of(const W& ws, uint64_t j) {         // w bits, low 32-bit word first
  const int k = (w + 31) / 32; uint64_t v = 0;
  for(int i = 0; i < k; ++i) v += (uint64_t)ws(j * k + i) << 32 * i;
  return w == 64 ? v : v & ((uint64_t(1) << (w % 64)) - 1);
}
#endif

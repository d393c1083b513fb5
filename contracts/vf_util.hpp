#ifndef VF_UTIL_HPP
#define VF_UTIL_HPP
#include "vf.hpp"
#include <boost/random/detail/large_arithmetic.hpp>
// contract of detail::mulmod (proved by A01 against the real body): a*b mod m over the integers
inline uint64_t mulmod_spec(uint64_t a, uint64_t b, uint64_t m) {
  unsigned __int128 p = (unsigned __int128)a * b;
  return m == 0 ? (uint64_t)p : (uint64_t)(p % m);
}
inline uint64_t muldiv_spec(uint64_t a, uint64_t b, uint64_t m) {
  unsigned __int128 p = (unsigned __int128)a * b;
  return m == 0 ? (uint64_t)(p >> 64) : (uint64_t)(p / m);
}
// the contracts callers are checked against: precondition a < m (obligation at every call site), then the result
inline uint64_t mulmod_contract(uint64_t a, uint64_t b, uint64_t m) {
  vf_assert(m == 0 || a < m, "mulmod requires a < m"); return mulmod_spec(a, b, m);
}
inline uint64_t muldiv_contract(uint64_t a, uint64_t b, uint64_t m) {
  vf_assert(m == 0 || a < m, "muldiv requires a < m"); return muldiv_spec(a, b, m);
}
inline void use_mulmod_contract() {
  vf_replace("^boost::random::detail::mulmod\\(", (const void*)(uint64_t(*)(uint64_t, uint64_t, uint64_t))mulmod_contract);
  vf_replace("^boost::random::detail::muldiv\\(", (const void*)(uint64_t(*)(uint64_t, uint64_t, uint64_t))muldiv_contract);
}
#endif

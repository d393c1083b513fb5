// D10: variate_generator / random_number_generator delegate.  D08: distribution parameters survive accessors,
// param() and streams.
#include <boost/config.hpp>
#include "vf_ghost.hpp"
#include <boost/random/variate_generator.hpp>
#include <boost/random/random_number_generator.hpp>
#include <boost/random/bernoulli_distribution.hpp>
#include <boost/random/beta_distribution.hpp>
#include <boost/random/binomial_distribution.hpp>
#include <boost/random/cauchy_distribution.hpp>
#include <boost/random/chi_squared_distribution.hpp>
#include <boost/random/exponential_distribution.hpp>
#include <boost/random/extreme_value_distribution.hpp>
#include <boost/random/fisher_f_distribution.hpp>
#include <boost/random/gamma_distribution.hpp>
#include <boost/random/geometric_distribution.hpp>
#include <boost/random/laplace_distribution.hpp>
#include <boost/random/lognormal_distribution.hpp>
#include <boost/random/negative_binomial_distribution.hpp>
#include <boost/random/non_central_chi_squared_distribution.hpp>
#include <boost/random/normal_distribution.hpp>
#include <boost/random/poisson_distribution.hpp>
#include <boost/random/student_t_distribution.hpp>
#include <boost/random/triangle_distribution.hpp>
#include <boost/random/uniform_int_distribution.hpp>
#include <boost/random/uniform_real_distribution.hpp>
#include <boost/random/uniform_int.hpp>
#include <boost/random/uniform_real.hpp>
#include <boost/random/uniform_smallint.hpp>
#include <boost/random/weibull_distribution.hpp>

// ---- D10 ------------------------------------------------------------------------------------------------------
// an arbitrary distribution: stateful, its value an arbitrary function of its own state, of what the engine
// delivers and of the extra argument; records which engine object it was given
struct GDist {
  typedef uint64_t input_type; typedef uint64_t result_type;
  uint64_t id, n; const void* last;
  explicit GDist(uint64_t i) : id(i), n(0), last(0) {}
  template<class E> result_type operator()(E& e) { last = &e; uint64_t a = e(); uint64_t b = e(); return vf_uf64("dist", 4, id, n++, a, b); }
  template<class E> result_type operator()(E& e, uint64_t v) { last = &e; uint64_t a = e(); return vf_uf64("distp", 4, id, n, a, v); }
  result_type min BOOST_PREVENT_MACRO_SUBSTITUTION () const { return vf_uf64("dmin", 1, id, 0, 0, 0); }
  result_type max BOOST_PREVENT_MACRO_SUBSTITUTION () const { return vf_uf64("dmax", 1, id, 0, 0, 0); }
  bool same(const GDist& o) const { return id == o.id && n == o.n; }
};
template<class Eng> Eng fresh_engine() { Eng e; e.k = vf_in64("k", 0, 0, 1ull << 40); return e; }
// after construction the generator g behaves as (d, e): every call is the call of the direct pair
template<class VG, class Eng> void calls_alike(VG& g, Eng e, GDist d, const void* where) {
  for(int i = 0; i < 3; ++i) {
    uint64_t r = g(); uint64_t s = d(e);
    vf_check(r == s, "a call returns what the distribution returns for the engine");
    vf_check(g.engine() == e, "a call advances the engine as a direct call does");
    vf_check(g.distribution().same(d), "a call advances the distribution as a direct call does");
    vf_check(g.distribution().last == (const void*)&g.engine(), "the distribution is given the wrapped engine itself");
    if(where) vf_check((const void*)&g.engine() == where, "the wrapped engine is the one given");
  }
  uint64_t v = vf_nd64("v", 7); uint64_t r = g(v); uint64_t s = d(e, v);
  vf_check(r == s && g.engine() == e && g.distribution().same(d), "a call with an argument passes it on");
  vf_check((g.min)() == (d.min)() && (g.max)() == (d.max)(), "min and max are those of the distribution");
  const VG& c = g;
  vf_check(&c.engine() == &g.engine() && &c.distribution() == &g.distribution(), "const accessors refer to the same objects");
}
typedef GEng<uint32_t, 1, 2147483646u> DE;
VC(D10, by_value, "") {
  DE e = fresh_engine<DE>(); DE e0 = e; GDist d(vf_nd64("d", 1));
  boost::random::variate_generator<DE, GDist> g(e, d);
  calls_alike(g, e0, d, 0);
  vf_check(e == e0, "an engine held by value leaves the original alone");
  vf_check((const void*)&g.engine() != (const void*)&e, "held by value");
}
VC(D10, by_reference, "") {
  DE e = fresh_engine<DE>(); DE e0 = e; GDist d(vf_nd64("d", 1));
  boost::random::variate_generator<DE&, GDist> g(e, d);
  calls_alike(g, e0, d, &e);
  vf_check(e.id == e0.id && e.k == e0.k + 7, "the referenced engine itself advanced");
}
VC(D10, by_pointer, "") {
  DE e = fresh_engine<DE>(); DE e0 = e; GDist d(vf_nd64("d", 1));
  boost::random::variate_generator<DE*, GDist> g(&e, d);
  calls_alike(g, e0, d, &e);
  vf_check(e.id == e0.id && e.k == e0.k + 7, "the pointed-to engine itself advanced");
}
VC(D10, copies, "") {
  DE e = fresh_engine<DE>(); GDist d(vf_nd64("d", 1));
  boost::random::variate_generator<DE, GDist> g(e, d); g();
  boost::random::variate_generator<DE, GDist> h(g); DE e1 = g.engine(); GDist d1 = g.distribution();
  g(); vf_check(h.engine() == e1 && h.distribution().same(d1), "a copy is independent");
  calls_alike(h, e1, d1, 0);
  h = g; vf_check(h.engine() == g.engine() && h.distribution().same(g.distribution()), "assignment copies both parts");
  boost::random::variate_generator<DE&, GDist> r(e, d); boost::random::variate_generator<DE&, GDist> r2(r);
  vf_check(&r2.engine() == &e, "a copy of a generator by reference refers to the same engine");
}
// random_number_generator(n) is uniform_int_distribution(0, n-1) on the referenced engine
static const void* rng_engine; static uint64_t rng_calls;
template<class I> struct Rng {
  typedef boost::random::uniform_int_distribution<I> D; 
  static I spec(const D* d, DE& e) { ++rng_calls; rng_engine = &e; I n = (I)((d->b)() + (I)1); vf_assert((d->a)() == 0, "the range starts at 0"); return (I)(vf_uf64("ui", 2, e(), (uint64_t)n, 0, 0) % (uint64_t)n); }
  static void vc(uint64_t hi) {
    if(vf_symbolic()) vf_replace("uniform_int_distribution<.*>::operator\\(\\)<GEng", (const void*)spec);
    DE e = fresh_engine<DE>(); DE e0 = e; I n = (I)vf_in64("n", 0, 1, hi);
    boost::random::random_number_generator<DE, I> g(e);
    boost::random::random_number_generator<DE, I> h(g);
    for(int i = 0; i < 3; ++i) {
      I r = i == 1 ? h(n) : g(n); I s = D(0, (I)(n - 1))(e0);
      vf_check(r == s, "a call returns what uniform_int_distribution(0, n-1) returns");
      vf_check(e == e0, "a call advances the referenced engine");
      vf_check(r >= 0 && r < n, "the value lies in [0, n)");
      n = (I)vf_in64("n", i + 1, 1, hi);
    }
    if(vf_symbolic()) vf_check(rng_calls == 6 && rng_engine == &e0, "one draw for each call");
  }
};
VC(D10, rng_long, "") { Rng<long>::vc(0x7fffffffffffffffull); }
VC(D10, rng_int, "") { Rng<int>::vc(0x7fffffffull); }
VC(D10, rng_unsigned, "") { Rng<unsigned>::vc(0xffffffffull); }
VC(D10, rng_short, "") { Rng<short>::vc(0x7fff); }

// ---- D08 ------------------------------------------------------------------------------------------------------
template<class D> void put_d(Tape& t, const D& d) { GOut os(&t); os << d; vf_check(!t.glued, "numbers are separated"); }
template<class D> void get_d(Tape& t, D& d) { GIn is(&t); is >> d; vf_assert(!is.fail(), "a written distribution is accepted"); }
typedef GEng<uint32_t, 0, 0xffffffffu> WE;
// two distributions give the same values and consume the same engine values
template<class D, bool CALL> struct Alike { static void chk(D a, D b, const char* what) {
  WE e; WE f = e;
  for(int i = 0; i < 2; ++i) { typename D::result_type x = a(e), y = b(f); vf_check((x == y || (x != x && y != y)) && e == f, what); }
} };
template<class D> struct Alike<D, false> { static void chk(const D&, const D&, const char*) {} };
// P: make(i) the distribution of the i-th arbitrary parameters, parm(i) its param_type, has(d, i) the accessors
template<class P, bool CALL> void members() {
  typedef typename P::D D; typedef typename D::param_type PT;
  D d = P::make(0); vf_check(P::has(d, 0), "the accessors return the constructor's arguments");
  PT p = P::parm(1); vf_check(P::has(p, 1), "the accessors of param_type return its arguments");
  vf_check(P::has(d.param(), 0), "param() returns the parameters");
  D q(p); vf_check(P::has(q, 1), "construction from parameters");
  vf_check(q == P::make(1) && !(q != P::make(1)), "construction from parameters equals construction from values");
  vf_check(p == P::parm(1) && !(p != P::parm(1)) && q.param() == p, "equal parameters compare equal");
  if(!P::same(0, 1)) vf_check(!(d == q) && d != q && d.param() != p, "different parameters compare unequal");
  D s = d; s.param(p); vf_check(s == q && P::has(s, 1), "d.param(p) equals D(p)");
  Alike<D, CALL>::chk(s, q, "d.param(p) draws what D(p) draws");
  if(CALL) { WE e; WE f = e; D a = d, b(p); typename D::result_type x = a(e, p), y = b(f); vf_check((x == y || (x != x && y != y)) && e == f, "operator()(engine, p) returns what D(p) does"); vf_check(a == d, "operator()(engine, p) leaves the distribution's own parameters"); }
  { Tape t; put_d(t, p); PT r = P::parm(0); get_d(t, r); vf_check(r == p && P::has(r, 1), "parameters read back equal"); }
  { Tape t; put_d(t, q); D r = P::make(0); get_d(t, r); vf_check(r == q && P::has(r, 1), "a distribution reads back equal"); Alike<D, CALL>::chk(r, q, "a distribution read back draws the same values"); }
  { D r = P::make(0); r = q; vf_check(r == q, "copies compare equal"); q.reset(); vf_check(r == q && P::has(q, 1), "reset keeps the parameters"); }
}
static double fin(const char* n, int i) { double x = vf_ndf64(n, i); vf_assume(x >= -1e300 && x <= 1e300); return x; }
static double pos(const char* n, int i) { double x = vf_ndf64(n, i); vf_assume(x >= 1e-290 && x <= 1e290); return x; }
static double prob(const char* n, int i) { double x = vf_ndf64(n, i); vf_assume(x >= 0 && x <= 1); return x; }
static double oprob(const char* n, int i) { double x = vf_ndf64(n, i); vf_assume(x > 0 && x < 1); return x; }
#define PD1(N, T, a, ga) struct P_##N { typedef T D; static D make(int i) { return D(ga(#a, i)); } static D::param_type parm(int i) { return D::param_type(ga(#a, i)); } \
  template<class X> static bool has(const X& x, int i) { return x.a() == ga(#a, i); } static bool same(int i, int j) { return ga(#a, i) == ga(#a, j); } }
#define PD2(N, T, a, ga, b, gb) struct P_##N { typedef T D; static D make(int i) { return D(ga(#a, i), gb(#b, i)); } static D::param_type parm(int i) { return D::param_type(ga(#a, i), gb(#b, i)); } \
  template<class X> static bool has(const X& x, int i) { return x.a() == ga(#a, i) && x.b() == gb(#b, i); } static bool same(int i, int j) { return ga(#a, i) == ga(#a, j) && gb(#b, i) == gb(#b, j); } }
#define PR2(N, T, V, lo) struct P_##N { typedef T D; static D make(int i) { V a, b; lo(i, a, b); return D(a, b); } static D::param_type parm(int i) { V a, b; lo(i, a, b); return D::param_type(a, b); } \
  template<class X> static bool has(const X& x, int i) { V a, b; lo(i, a, b); return x.a() == a && x.b() == b; } static bool same(int i, int j) { V a, b, c, d; lo(i, a, b); lo(j, c, d); return a == c && b == d; } }
namespace br = boost::random;
static void order_d(int i, double& a, double& b) { a = fin("a", i); b = fin("b", i); vf_assume(a < b); }
static void order_i(int i, int& a, int& b) { a = (int)vf_nd32("a", i); b = (int)vf_nd32("b", i); vf_assume(a <= b); }
static void order_l(int i, int64_t& a, int64_t& b) { a = (int64_t)vf_nd64("a", i); b = (int64_t)vf_nd64("b", i); vf_assume(a <= b); }
static void order_u(int i, uint16_t& a, uint16_t& b) { a = vf_nd16("a", i); b = vf_nd16("b", i); vf_assume(a <= b); }
static int tri(const char* n, int i) { return (int)vf_in32(n, i, 0, 0x7fffffff); }
PD1(bernoulli, br::bernoulli_distribution<double>, p, prob);
PD2(beta, br::beta_distribution<double>, alpha, pos, beta, pos);
PD2(cauchy, br::cauchy_distribution<double>, median, fin, sigma, pos);
PD1(exponential, br::exponential_distribution<double>, lambda, pos);
PD2(extreme, br::extreme_value_distribution<double>, a, fin, b, pos);
PD2(gamma, br::gamma_distribution<double>, alpha, pos, beta, pos);
PD1(geometric, br::geometric_distribution<int>, p, oprob);
PD2(laplace, br::laplace_distribution<double>, mean, fin, beta, pos);
PD2(lognormal, br::lognormal_distribution<double>, m, fin, s, pos);
PD2(negbin, br::negative_binomial_distribution<int>, k, tri, p, oprob);
PD2(ncchi, br::non_central_chi_squared_distribution<double>, k, pos, lambda, pos);
PD2(normal, br::normal_distribution<double>, mean, fin, sigma, pos);
PD1(poisson, br::poisson_distribution<int>, mean, pos);
PD2(binomial, br::binomial_distribution<int>, t, tri, p, prob);
PD1(chi2, br::chi_squared_distribution<double>, n, pos);
PD2(fisher, br::fisher_f_distribution<double>, m, pos, n, pos);
PD1(student, br::student_t_distribution<double>, n, pos);
PD2(weibull, br::weibull_distribution<double>, a, pos, b, pos);
PR2(ureal, br::uniform_real_distribution<double>, double, order_d);
PR2(uint_i, br::uniform_int_distribution<int>, int, order_i);
PR2(uint_l, br::uniform_int_distribution<int64_t>, int64_t, order_l);
PR2(uint_u, br::uniform_int_distribution<uint16_t>, uint16_t, order_u);
PR2(small, br::uniform_smallint<int>, int, order_i);
struct P_triangle { typedef br::triangle_distribution<double> D;
  static void g(int i, double& a, double& b, double& c) { a = fin("a", i); b = fin("b", i); c = fin("c", i); vf_assume(a <= b && b <= c); }
  static D make(int i) { double a, b, c; g(i, a, b, c); return D(a, b, c); } static D::param_type parm(int i) { double a, b, c; g(i, a, b, c); return D::param_type(a, b, c); }
  template<class X> static bool has(const X& x, int i) { double a, b, c; g(i, a, b, c); return x.a() == a && x.b() == b && x.c() == c; }
  static bool same(int i, int j) { double a, b, c, d, e, f; g(i, a, b, c); g(j, d, e, f); return a == d && b == e && c == f; } };
#define MO "backends=z3-bv,cvc5-bv,z3-ufp"
#define MEM(n, call) VC(D08, n, MO) { members<P_##n, call>(); }
MEM(bernoulli, true) MEM(beta, false) MEM(cauchy, false) MEM(exponential, false) MEM(extreme, false) MEM(gamma, false) MEM(geometric, false)
MEM(laplace, false) MEM(lognormal, false) MEM(negbin, false) MEM(ncchi, false) MEM(normal, false) MEM(poisson, false) MEM(binomial, false)
MEM(chi2, false) MEM(fisher, false) MEM(student, false) MEM(weibull, false) MEM(ureal, false) MEM(uint_i, false) MEM(uint_l, false) MEM(uint_u, false) MEM(small, false) MEM(triangle, true)

#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["include/boost/random/"+f if not f.startswith("src") else f for f in files],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("E01","Every engine value lies in the engine's declared [min(), max()]",
  "For every predefined engine and every state reachable by seeding and generating, each value returned by operator() is at least min() and at most max(), computed without undefined behaviour. The step also leaves the engine in a valid state, so this continues to hold for ever.",
  ["inputs","histories"],"every valid internal state of every predefined engine (so every history of seeds and calls), every seed value",
  "The tests check range on a few thousand draws from the default seed; a value at or beyond a bound can need one state in 2^31 or more.",
  ["linear_congruential.hpp","mersenne_twister.hpp","subtract_with_carry.hpp","lagged_fibonacci.hpp","linear_feedback_shift.hpp","inversive_congruential.hpp","additive_combine.hpp","mixmax.hpp","splitmix64.hpp","detail/const_mod.hpp"],
  [("modular step with state < m","linear_congruential.hpp operator()"),("borrow propagation","subtract_with_carry.hpp do_update"),("word mask","linear_feedback_shift.hpp operator()")],
  ["operator()","min()","max()"])
p("E02","Linear congruential engines compute x -> (a*x + c) mod m exactly",
  "For the predefined linear congruential engines and for representative moduli of every width (power of two, near the word size, signed and unsigned), the successor of any state x is exactly (a*x + c) mod m. No intermediate overflow or other undefined behaviour is reachable for any x in range.",
  ["inputs","configurations"],"all states x of each instantiation; instantiations chosen to reach every branch of the modular arithmetic",
  "Tests compare the 10000th value from one seed; overflow handling in the reduction goes wrong only for isolated operands.",
  ["linear_congruential.hpp","detail/const_mod.hpp","detail/large_arithmetic.hpp"],
  [("Schrage / general / small multiplication selection","detail/const_mod.hpp mult, mult_add"),("128-bit multiply and divide","detail/large_arithmetic.hpp muldivmod")],
  ["linear_congruential_engine::operator()","rand48::operator()"])
p("E03","Linear congruential discard(z) equals z successive calls",
  "For the predefined linear congruential engines (minstd_rand0, minstd_rand, rand48 and those inside ecuyer1988 and knuth_b), discard(z) leaves the engine in the state that z calls of operator() would, for every state and every z.",
  ["inputs","histories"],"all states and all 64-bit jump lengths z",
  "Tests try z = 9307 and a few neighbours; the jump is computed by modular exponentiation and inversion, whose errors show for particular z only.",
  ["linear_congruential.hpp","detail/const_mod.hpp"],
  [("closed form a^z x + c (a^z-1)/(a-1)","linear_congruential.hpp discard"),("square and multiply","detail/const_mod.hpp pow"),("Euclid inverse","detail/const_mod.hpp invert")],
  ["linear_congruential_engine::discard"])
p("E04","Mersenne twister outputs obey the published recurrence and tempering",
  "From every state, the values of mt11213b, mt19937 and mt19937_64 are the tempering of words obeying x(k+n) = x(k+m) xor ((upper(x(k)) | lower(x(k+1))) A), for any number of further calls. The position inside the state block never influences the sequence.",
  ["inputs","histories"],"all n-word states and all positions in the block; arbitrarily many calls by induction over blocks",
  "Tests look at the 10000th value of one seed; an error in one bit of one of the blockwise special cases can need a specific word pattern.",
  ["mersenne_twister.hpp"],
  [("block regeneration split in four loops","mersenne_twister.hpp twist"),("tempering","mersenne_twister.hpp operator()")],
  ["mersenne_twister_engine::operator()"],state=[("x, i","state words and position of the next output","mersenne_twister.hpp")])
p("E05","Mersenne twister equality means equal future, whatever the phase",
  "Two Mersenne twister engines that compare equal produce identical sequences for ever, and an engine advanced by any number of steps compares equal to another engine that reaches the same point of the sequence with a different internal position. Writing an engine to a stream and reading it back gives an engine equal to the original.",
  ["inputs","histories"],"all valid states and every position in the block, both engines",
  "Tests compare a handful of freshly seeded engines; equality between different block positions relies on running the recurrence backwards, which only wrong bits in special positions break.",
  ["mersenne_twister.hpp"],
  [("backwards recurrence","mersenne_twister.hpp rewind, rewind_find"),("phase-independent comparison","mersenne_twister.hpp equal_imp"),("redundant-bit normalisation","mersenne_twister.hpp normalize_state")],
  ["operator==","operator!=","operator<<","operator>>"])
p("E06","discard(z) equals z calls for the non-linear-congruential engines",
  "For Mersenne twister, subtract with carry, lagged Fibonacci, linear feedback shift, inversive, mixmax, splitmix64 and the engine adaptors, discard(z) leaves the engine in exactly the state z calls of operator() leave it in.",
  ["inputs","histories"],"all states; all z by induction on z",
  "Tests use a single z per engine from one seed.",
  ["mersenne_twister.hpp","subtract_with_carry.hpp","lagged_fibonacci.hpp","discard_block.hpp","shuffle_order.hpp","independent_bits.hpp","xor_combine.hpp","additive_combine.hpp","mixmax.hpp","splitmix64.hpp","inversive_congruential.hpp","linear_feedback_shift.hpp"],
  [("loop over operator()","each engine's discard"),("polynomial jump","mersenne_twister.hpp discard_many, detail/polynomial.hpp"),("block arithmetic","subtract_with_carry.hpp detail::subtract_with_carry_discard")],
  ["discard(z)"])
p("E07","Seeding fills the engine state as documented and always validly",
  "For every seed value, every seed sequence and every word range long enough, seeding sets the documented state: the documented function of the words consumed, in order, with the documented repair of degenerate states (all zero, out of range). The state it leaves satisfies the engine's own preconditions.",
  ["inputs"],"all 32- or 64-bit seed values, all word contents of seed ranges and seed sequences",
  "Tests seed with a few constants; degenerate words (0, m, values needing more than one 32-bit word, all-zero arrays) are not sampled.",
  ["detail/seed_impl.hpp","detail/seed.hpp","linear_congruential.hpp","mersenne_twister.hpp","subtract_with_carry.hpp","lagged_fibonacci.hpp","mixmax.hpp","linear_feedback_shift.hpp","inversive_congruential.hpp"],
  [("word assembly and range repair","detail/seed_impl.hpp"),("per-engine seed()","engine headers")],
  ["engine constructors","seed(value)","seed(seq)","seed(first,last)"])
p("E08","Seeding from a short iterator range throws and reads nothing beyond the end",
  "Seeding an engine from an iterator range consumes exactly the documented number of words, advances the iterator past them and never dereferences the end; if the range is too short it throws std::invalid_argument.",
  ["inputs"],"all word values; every range length from 0 up to and beyond the required length",
  "Tests try one short range per engine, with words that are valid.",
  ["detail/seed_impl.hpp"],
  [("end test before each read","detail/seed_impl.hpp fill_array_int_impl, get_one_int, fill_array_real")],
  ["seed(It& first, It last)"])
p("E09","seed_seq::generate implements the standard's mixing algorithm",
  "For every stored seed vector and every request length, seed_seq::generate produces exactly the words of the [rand.util.seedseq] algorithm and touches nothing outside the requested range; an empty request does nothing.",
  ["inputs"],"all contents of the seed vector; vector and request lengths up to the stated bound, including every length the predefined engines use",
  "Tests compare a few fixed vectors with one length.",
  ["seed_seq.hpp"],[("two mixing passes","seed_seq.hpp generate")],["seed_seq::generate","seed_seq::param","seed_seq::size"])
p("E10","Subtract-with-carry and lagged Fibonacci engines follow their recurrences",
  "From every state, subtract_with_carry engines return x(i-s) - x(i-r) - carry mod 2^w with the borrow propagated exactly, and lagged Fibonacci engines return x(i-r) + x(i-s) mod 2^w (or mod 1 for the floating point ones), for every position inside the state block.",
  ["inputs","histories"],"all state words, both carry values, every block position",
  "Tests check one late value; borrow corner cases (difference exactly zero with carry set) occur once in 2^24 steps.",
  ["subtract_with_carry.hpp","lagged_fibonacci.hpp","ranlux.hpp"],
  [("do_update","subtract_with_carry.hpp"),("fill","lagged_fibonacci.hpp")],["operator()"])
p("E11","Shift-register, inversive, mixmax and splitmix steps match their definition",
  "linear_feedback_shift (and taus88), inversive_congruential, mixmax and splitmix64 return from every valid state exactly the value their documented recurrence defines, and move to the state it defines.",
  ["inputs","histories"],"all valid states",
  "Tests check one late value from the default seed.",
  ["linear_feedback_shift.hpp","taus88.hpp","inversive_congruential.hpp","mixmax.hpp","splitmix64.hpp"],
  [("step functions","operator() of each engine"),("modular inverse","detail/const_mod.hpp invert"),("Mersenne-prime arithmetic","mixmax.hpp")],["operator()"])
p("E12","Engine adaptors consume and combine base values exactly as documented",
  "discard_block uses the first r of every p base values, shuffle_order (knuth_b, kreutzer1986) applies the Bays-Durham shuffle whose index is floor(k*(y-min)/(max-min+1)), independent_bits assembles exactly w uniform bits, additive_combine and xor_combine combine one value of each base; for every base engine state and value.",
  ["inputs","histories","configurations"],"every sequence of base engine values, every adaptor state",
  "Tests check one late value of each predefined adaptor; base ranges with extreme sizes (a full 64-bit range, a tiny range) are not tried.",
  ["discard_block.hpp","shuffle_order.hpp","independent_bits.hpp","additive_combine.hpp","xor_combine.hpp","detail/large_arithmetic.hpp"],
  [("counter","discard_block.hpp operator()"),("table index by wide multiply and divide","shuffle_order.hpp operator()"),("w0,n,n0,y0,y1 split","independent_bits.hpp operator()")],["operator()"])
p("E13","Engines that compare equal behave equally; engine streams round-trip",
  "For every engine and adaptor other than Mersenne twister: engines that compare equal return equal values for ever, copies compare equal, and reading what operator<< wrote gives an engine equal to the one written, in every reachable state.",
  ["inputs","histories"],"all pairs of valid states (equality), all valid states (streaming)",
  "Tests stream one state per engine, mostly right after seeding, and never compare engines that differ in a single state component.",
  ["linear_congruential.hpp","subtract_with_carry.hpp","lagged_fibonacci.hpp","discard_block.hpp","shuffle_order.hpp","independent_bits.hpp","xor_combine.hpp","additive_combine.hpp","mixmax.hpp","splitmix64.hpp","inversive_congruential.hpp","linear_feedback_shift.hpp"],
  [("operator==, operator<<, operator>>","each engine")],["operator==","operator<<","operator>>"])
p("A01","128-bit multiply-divide helper is exact for all operands",
  "The internal a*b/m and a*b mod m used for wide moduli and table indices are exact for every a < m, b and m, including m standing for 2^64.",
  ["inputs"],"all 64-bit a, b, m with the quotient representable",
  "Tests try a few dozen operand triples; the correction step of the digit-wise division goes wrong on operands of probability 2^-32.",
  ["detail/large_arithmetic.hpp","detail/integer_log2.hpp"],[("schoolbook multiplication and normalised digit division","detail/large_arithmetic.hpp muldivmod")],["detail::muldiv","detail::mulmod","linear_congruential_engine with 64-bit m"])
p("A02","GF(2) polynomial arithmetic used for jumps is exact",
  "Polynomial addition, multiplication, squaring and reduction over GF(2) return the exact result for every operand and never touch storage outside their operands.",
  ["inputs"],"all coefficient words, sizes up to the stated bound",
  "Tests use random operands of few sizes.",
  ["detail/polynomial.hpp"],[("shift-xor multiply, Karatsuba split, sparse reduction, bit-spreading square","detail/polynomial.hpp")],["detail::polynomial","mersenne_twister_engine::discard"])
p("D01","uniform_int_distribution results lie in [a, b] for every a <= b and engine",
  "For every integer result type, every a <= b (including the type's extreme values) and every engine range, the returned value lies in [a, b] and no undefined behaviour occurs, whatever values the engine delivers.",
  ["inputs","configurations"],"all a <= b, all sequences of engine values; engine ranges symbolic, result types of every width and sign",
  "Tests draw from a few ranges with one engine; overflow needs extreme bounds and rare engine values.",
  ["uniform_int_distribution.hpp","detail/signed_unsigned_tools.hpp"],[("generate_uniform_int","uniform_int_distribution.hpp"),("subtract/add on unsigned","detail/signed_unsigned_tools.hpp")],["uniform_int_distribution::operator()","uniform_int","random_number_generator"])
p("D02","uniform_int_distribution is exactly uniform",
  "If engine values are independent and uniform on their range, every value of [a, b] is produced with exactly the same probability: an accepted tuple of engine values maps to a result so that each result has equally many tuples, and rejected tuples are redrawn in full.",
  ["inputs"],"all a <= b, all engine ranges of the instantiated kinds; counting over all tuples of engine values",
  "Chi-square tests see biases of about 1e-3; a bias of 2^-20, or one confined to particular ranges, is invisible.",
  ["uniform_int_distribution.hpp"],[("bucket division and rejection; digit composition","uniform_int_distribution.hpp generate_uniform_int")],["uniform_int_distribution::operator()"])
p("D03","uniform_smallint maps one engine value by the documented formula, in range",
  "uniform_smallint returns a + (value - min) mod (b - a + 1) of exactly one engine value for integer engines (the value itself offset when the engine range is not larger), always in [a, b]; for floating engines the scaled value is clamped into [a, b].",
  ["inputs"],"all a <= b, all engine values",
  "Tests sample a few ranges.",
  ["uniform_smallint.hpp","detail/signed_unsigned_tools.hpp"],[("generate","uniform_smallint.hpp")],["uniform_smallint::operator()"])
p("D04","uniform_real, uniform_01 and generate_canonical stay in the half-open interval",
  "uniform_01 and generate_canonical return values in [0, 1) and uniform_real_distribution values in [a, b), never the upper bound, for every engine value and every finite a < b, despite floating point rounding.",
  ["inputs"],"all engine values; all finite a < b of float and double",
  "Rounding to the upper bound happens for one engine value in 2^25 or more, so sampling rarely meets it.",
  ["uniform_01.hpp","uniform_real_distribution.hpp","generate_canonical.hpp","detail/uniform_int_float.hpp","detail/int_float_pair.hpp"],
  [("result < 1 retry","uniform_01.hpp new_uniform_01"),("result < max retry and halving for wide intervals","uniform_real_distribution.hpp generate_uniform_real"),("clamp","generate_canonical.hpp")],["uniform_01::operator()","uniform_real_distribution::operator()","generate_canonical"])
p("D05","discrete_distribution returns each index with exactly its weight's share",
  "For integer weights the alias table built by discrete_distribution gives every index i exactly probability w_i / sum(w); the returned index is always less than the number of weights and an index with weight zero is never returned. An empty weight list behaves as the single weight 1.",
  ["inputs"],"all weight values for vectors up to the stated length, all engine values",
  "Tests use chi-square on a few weight vectors.",
  ["discrete_distribution.hpp"],[("integer alias table","discrete_distribution.hpp detail::integer_alias_table"),("column/threshold pick","discrete_distribution.hpp operator()")],["discrete_distribution::operator()","probabilities()"])
p("D06","Distribution values follow the documented transformation of uniform draws",
  "bernoulli, triangle, cauchy, laplace, weibull, extreme_value, lognormal, chi_squared, student_t, fisher_f, geometric and hyperexponential apply exactly the documented transformation to the draws of their underlying distribution, in the documented order and number.",
  ["inputs"],"all parameter values and all underlying draws, floating point operations exact IEEE or uninterpreted",
  "Tests are statistical and see only gross errors.",
  ["bernoulli_distribution.hpp","triangle_distribution.hpp","cauchy_distribution.hpp","laplace_distribution.hpp","weibull_distribution.hpp","extreme_value_distribution.hpp","lognormal_distribution.hpp","chi_squared_distribution.hpp","student_t_distribution.hpp","fisher_f_distribution.hpp","geometric_distribution.hpp"],
  [("closed-form transformation","each operator()")],["operator()"])
p("D07","Distribution results stay within the documented support",
  "Every value returned lies within [min(), max()] of the distribution: bernoulli with p=0 is never true, exponential, gamma, weibull and chi squared are never negative, beta stays within [0, 1], triangle within [a, c], piecewise distributions within their outer boundaries, binomial within [0, t].",
  ["inputs"],"all admissible parameters, all engine values",
  "Tests sample; violations occur at extreme engine values.",
  ["bernoulli_distribution.hpp","exponential_distribution.hpp","gamma_distribution.hpp","beta_distribution.hpp","triangle_distribution.hpp","piecewise_constant_distribution.hpp","piecewise_linear_distribution.hpp","binomial_distribution.hpp"],
  [("transformation and clamping","each operator()")],["operator()","min()","max()"])
p("D08","Distribution parameters survive accessors, param() and streams",
  "For every distribution, the parameters given to the constructor are those returned by the accessors and by param(); d.param(p) and D(p) give equal distributions, operator()(engine, p) returns what D(p) would; and reading what operator<< wrote restores a distribution equal to the one written.",
  ["inputs"],"all admissible parameter values",
  "Tests use one parameter set per distribution.",
  ["uniform_int_distribution.hpp","uniform_real_distribution.hpp","normal_distribution.hpp","gamma_distribution.hpp","detail/vector_io.hpp"],
  [("param_type","each distribution header")],["param()","param(parm)","operator<<","operator>>","operator=="])
p("D09","generate(first, last) equals repeated calls, word by word",
  "engine.generate(first, last) for the integer engines fills the range with exactly the 32-bit (or narrower) words obtained by splitting successive operator() values low word first, discarding no engine value that is needed, and writing nothing else.",
  ["inputs","histories"],"all engine values; range lengths by induction / up to the stated bound",
  "Tests generate one short range.",
  ["detail/seed_impl.hpp","detail/generator_bits.hpp"],[("generate_from_int","detail/seed_impl.hpp")],["generate(first,last)","random_device::generate"])
p("D10","variate_generator and generator wrappers delegate without loss",
  "variate_generator, random_number_generator and shuffle-style helpers call the distribution with exactly the wrapped engine (by value, reference or pointer as declared), so each call advances the engine as a direct call would and min/max are those of the distribution.",
  ["inputs","histories"],"all engine states and distributions, both holding modes",
  "Tests only check compile-time use and a few values.",
  ["variate_generator.hpp","random_number_generator.hpp","detail/ptr_helper.hpp"],[("delegation","variate_generator.hpp operator()")],["variate_generator::operator()","random_number_generator::operator()"])
p("Q01","Gray-coded quasi-random points equal the direction-number definition",
  "For sobol and niederreiter_base2, point n (for every n the counter admits, reached by stepping, seed(n) or discard) has each coordinate equal to the xor of the direction numbers selected by the bits of gray(n); discard(z) equals z calls; exhausting the sequence throws std::range_error instead of wrapping.",
  ["inputs","histories"],"all indices n and discard counts z representable, all dimensions of the instantiated sizes",
  "Tests check the first hundred or so points.",
  ["detail/gray_coded_qrng.hpp","detail/qrng_base.hpp","sobol.hpp","niederreiter_base2.hpp"],
  [("one-bit update per step","detail/gray_coded_qrng.hpp compute_seq"),("direct initialisation","detail/gray_coded_qrng.hpp seed"),("discard across points","detail/qrng_base.hpp discard")],["operator()","seed","discard","operator<<","operator>>"])
p("Q02","Faure points equal the base-q digit definition",
  "Each faure point n has coordinates determined by the base-q digits of n through the Pascal matrix powers mod q, the same whether reached by stepping, seeding or discarding; values lie in [0, 1).",
  ["inputs","histories"],"all n up to the stated bound, instantiated dimensions",
  "Tests check the first hundred points.",
  ["faure.hpp","detail/qrng_base.hpp"],[("binomial table and digit transform","faure.hpp")],["operator()","seed","discard"])
p("R01","random_device delivers only bytes the source produced, or throws",
  "Every value returned by random_device and every word of generate() consists entirely of bytes delivered by the operating system source, however reads are split; an end of file or read error raises an exception rather than returning stale or partial data.",
  ["fault_sequences","inputs"],"all sequences of short reads, interruptions and errors returned by read()",
  "Tests read from a healthy device only.",
  ["src/random_device.cpp","random_device.hpp"],[("next() read and size check","src/random_device.cpp")],["random_device::operator()","random_device constructor"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))

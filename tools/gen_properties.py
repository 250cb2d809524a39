import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
N="src/bigint/nat.rs"; NA="src/bigint/nat_amd64.rs"; NV="src/bigint/nat_avx2.rs"; AG="src/bigint/arith_generic.rs"
B="src/bigint/bigint.rs"; R="src/bigint/rat.rs"; F="src/bigint/float.rs"; FF="src/bigint/float_fmt.rs"; D="src/bigint/decimal.rs"
p("C01","Natural addition and subtraction are exact",
"For all natural numbers, addition (with another natural or a machine word, assigning or not) returns the exact sum, and subtraction returns the exact absolute difference, with the signed variants also reporting whether the left operand was at least the right one. No carry or borrow is lost however far it propagates.",
["inputs"],"every pair of naturals, of any lengths",
"a lost carry shows only for operand pairs whose limbs line up in one of exponentially many carry patterns; tests sample a few literals",
[NA,N],[("add_inner/add_inner_basic",NA),("sub_inner_with_sign/sub_inner_basic",NA),("sub_with_sign",N)])
p("C02","Natural multiplication, squaring and powers are exact at every size",
"For all naturals, the product computed by the multiplication operator, the word multiplier, the explicit divide-and-conquer multiplication and the dedicated squaring routine is the exact product, and the power operation is exact repeated multiplication. All algorithms agree with each other in every operand-size regime and for every combination of operand lengths.",
["inputs"],"every pair of naturals, across all algorithm thresholds",
"algorithm switch-over points and carry chains inside the vectorised, schoolbook and recursive multipliers need specific lengths combined with specific limb patterns",
[N,NV,AG],[("mul_inner (avx2)",NV),("mul_by_karatsuba/karatsuba/basic_mul",N),("sqr_v/basic_sqr/karatsuba_sqr",N),("mul_inner_basic/pow_inner",N)])
p("C03","Natural division and remainder satisfy the division theorem",
"For every dividend and every non-zero divisor (natural or machine word), the quotient and remainder satisfy dividend = quotient*divisor + remainder with remainder below the divisor, in both the assigning and non-assigning forms. Division or remainder by zero panics and nothing else does.",
["inputs"],"every dividend/divisor pair",
"quotient estimation and shift correction errors appear only for particular bit-length differences and limb patterns",
[N],[("div_inner/rem_inner",N),("div_inner_basic/rem_inner_basic",N)])
p("C04","Natural bitwise operations, shifts and bit queries match the binary value",
"For all naturals and all shift counts, left shift multiplies by a power of two, right shift is floor division by a power of two, and and/or/xor/and-not act on the infinite zero-extended binary expansion; complement flips exactly the bits within the value's bit length. Bit length, single-bit query and trailing-zero count describe the same binary expansion (bit length of zero is one, a query beyond the bit length answers nothing, and the trailing-zero count of zero is not specified).",
["inputs"],"every natural, every second operand, every shift count",
"word-multiple shifts, top-word-vanishing shifts and unequal lengths are a product space of which tests hit a few points",
[N],[("shl_inner/shr_inner",N),("bitand_inner/bitor_inner/bitxor_inner/and_not_assign/not_inner",N),("bits_len/is_set_bit/trailling_zeros",N)])
p("C05","Values are canonical: equality, ordering and limb view depend only on the value",
"Whatever operation produced them, two naturals or integers denoting the same number compare equal, order as equal, and expose the same limbs with no superfluous leading zero limb, and zero is never negative; for different numbers equality is false and the ordering is the numeric one, also against machine integers. In particular the ordering is total and antisymmetric on numbers.",
["inputs","histories"],"every value, produced by every public operation that yields it, compared with every other value",
"a non-canonical result is invisible until it is compared with a value produced by another route, so the bug lives in pairs of producers that a unit test never combines",
[N,B,NA,"src/bigint/nat_macro.rs"],[("trim_head_zero_",N),("partial_cmp_inner/PartialEq/PartialOrd",N),("nat_eq_basic/nat_ord_basic","src/bigint/nat_macro.rs"),("sign normalisation in BigInt ops",B)])
p("C06","Byte, limb and machine-integer conversions are faithful round trips",
"Conversion of every machine integer (signed and unsigned, every width) and of every byte or limb sequence into a natural or integer yields exactly the denoted value, ignoring superfluous leading zeros. Exporting the magnitude to little- or big-endian bytes yields the minimal encoding (one zero byte for zero), re-importing it gives the same value, and copying into a caller's buffer replaces its contents.",
["inputs"],"every byte string, limb vector and machine integer",
"the errors are at limb-boundary lengths, embedded zero bytes and extreme signed values",
[N,B,"src/bigint/nat_macro.rs","src/bigint/bigint_macro.rs"],[("from_le_or_be_bytes/copy_to_le/copy_to_be",N),("From impls","src/bigint/nat_macro.rs"),("bigint_from_basici","src/bigint/bigint_macro.rs")])
p("C07","Integer text conversion is exact in every radix and rejects malformed input",
"Formatting a natural or integer in decimal, binary, octal, lower or upper hexadecimal yields the minimal digits of its value (with a leading minus sign for negatives, and the radix prefix exactly in alternate mode), and parsing decimal, 0b/0B-, 0o- or 0x/0X-prefixed digits (surrounded by optional whitespace and an optional sign) yields exactly the denoted value, so that text round-trips. A string with no digits or with a character that is not a digit of its radix is rejected with an error and never panics.",
["inputs"],"every value and every short string over the digit/sign/prefix alphabet",
"malformed strings and digit-group boundaries (10/11-digit octal groups, 8-digit hex groups, 32-bit binary groups) form a language, not a sample",
[N,B,"src/bigint/nat_macro.rs","src/bigint/bigint_macro.rs"],[("FromStr/check_base/from_*_str",N),("Octal/Display",N),("nat_fmt","src/bigint/nat_macro.rs"),("bigint_fmt_impl",  "src/bigint/bigint_macro.rs"),("FromStr for BigInt",B)])
p("C08","Not-a-number propagates and never compares",
"A natural, integer, rational or float that is not-a-number makes the result of every arithmetic or bitwise operation it takes part in (either side, assigning or not) not-a-number, is unequal to and unordered with everything including itself, and prints as NaN. No such operation panics because of it, and operations on numbers (apart from the undefined infinite cases of floats) never yield not-a-number.",
["inputs","histories"],"every operation, every position of the not-a-number operand, every other operand",
"the operand-position by operation by assigning-form matrix is not enumerated by tests",
[N,B,R,F,"src/bigint/nat_macro.rs"],[("nat_arith_ops1","src/bigint/nat_macro.rs"),("and_not_assign",N),("BigInt ops",B),("Rat ops",R),("Float ops",F)])
p("C09","Shared clones, deep clones and operands never corrupt each other",
"Operators that do not assign leave both operands and all their clones unchanged, also when both operands share storage, and give the same result as with independent copies; a deep clone, and a number converted into another number type, is never affected by later operations on the original and vice versa. Assigning operators whose right operand shares storage with the left give the same result as with an independent copy, and a clone of a natural always shows the same value as the natural it was cloned from, before and after assigning operations.",
["histories"],"every history of clone, deep-clone and arithmetic operations on a small set of handles",
"aliasing bugs need a particular earlier clone and a particular later operation; tests use fresh values",
[N,B,R,F],[("Rc<Cell<Vec>> sharing / as_mut_vec",N),("deep_clone",N),("div_inner/rem_inner/mul_inner/pow aliasing branches",N),("bitand/or/xor mixed-sign branches",B)],
state="which handles share one limb vector")
p("C10","Modular exponentiation is exact for every base, exponent and modulus",
"For all naturals, modular exponentiation (both entry points) returns base^exponent mod modulus in canonical reduced form for odd, even and unit moduli of any length, and the plain power when the modulus is zero. For integers the result is the non-negative residue modulo |modulus| when the modulus is non-zero (using the modular inverse for negative exponents of bases coprime to the modulus) and the signed power, or one for a non-positive exponent, when it is zero.",
["inputs"],"every base, exponent and modulus",
"the Montgomery, windowed and binary paths are selected by lengths and parity, and final-subtraction bugs need residues near the modulus",
[N,B],[("exp/exp_montogomery/montgomery/exp_windowed",N),("pow_mod_inner",N),("BigInt::exp",B)])
p("C11","Integer square root is the floor",
"For every natural and every non-negative integer the square root r satisfies r*r <= x < (r+1)*(r+1). The square root of a negative integer is not-a-number.",
["inputs"],"every value",
"Newton iteration stops one off only for values adjacent to squares at particular lengths",
[N,B],[("sqrt",N),("BigInt::sqrt",B)])
p("C12","Primality test never rejects a prime and bounds the error on composites",
"Whatever numbers the random source delivers, the primality test accepts every prime, rejects zero, one and every even number above two. For every composite at most a quarter of the random witnesses lead to acceptance, a test of several rounds accepts it only if every one of the drawn witnesses alone does, and the test never panics or hangs as long as the source eventually delivers suitable values.",
["inputs","fault_sequences"],"every candidate and every answer stream of the random source",
"a test runs one candidate with one random stream; the guarantee is over all streams",
[N],[("probably_prime_test/prime_validate_by_miller_rabin/miller_rabin_witness",N),("prime_validate_by_lucas",N)])
p("C13","Random values stay in range for every behaviour of the random source",
"A random natural drawn below a bound is canonical, strictly below the bound, and every value below the bound is reachable; for a negative integer bound the result lies above the bound and at most zero, and a bound of zero gives not-a-number. Errors reported by the source are retried without corrupting the result.",
["inputs","fault_sequences"],"every bound and every sequence of source answers, including errors",
"rejection sampling and error handling depend on the source's answers, which tests do not control",
[N,B,"src/rand/iter.rs"],[("random/random_inner",N),("BigInt::random",B),("Iter","src/rand/iter.rs")])
p("C14","Prime generation returns a prime of exactly the requested size",
"For every requested bit length of at least two and every behaviour of the random source (including transient errors) under which it terminates, prime generation returns a prime having exactly that bit length and its two top bits set; a smaller bit length is refused with an error.",
["inputs","fault_sequences"],"every bit length and every sequence of source answers, including errors",
"top-bit forcing and sieve stepping fail only for particular bit lengths and raw draws",
[N],[("generate_prime",N)])
p("C15","Integer arithmetic and Euclidean division are exact with correct signs",
"For all integers of either sign, sum, difference, product, square, negation and absolute value are exact, the plain quotient truncates toward zero with the remainder taking the dividend's sign, and Euclidean division yields a remainder in [0,|n|) with dividend = quotient*n + remainder; assigning forms agree with non-assigning ones. Sign queries and ordering are those of the exact value, and a zero divisor panics.",
["inputs"],"every pair of integers",
"the four sign combinations times zero results, equal magnitudes and carries are a product space",
[B],[("add_inner/sub_inner/mul_inner/div_inner/rem_inner",B),("rem_euclid_inner/div_euclid_inner",B),("PartialOrd/signnum",B)])
p("C16","Integer bitwise operations and shifts follow infinite two's complement",
"For all integers of either sign, and/or/xor/and-not/complement act on the infinite two's-complement expansions, left shift multiplies by a power of two and right shift is floor division by a power of two. The bit query answers the two's-complement bit for every index below the magnitude's bit length and answers nothing at or beyond it.",
["inputs"],"every pair of integers and every shift count",
"mixed-sign identities go wrong only where the -1 adjustments carry across limbs",
[B],[("bitand_inner/bitor_inner/bitxor_inner/and_not_assign/Not",B),("shr_inner/shl_inner/is_set_bit",B)])
p("C17","GCD, Bezout coefficients, modular inverses and linear congruences are correct",
"For all integers the gcd is the non-negative greatest common divisor (zero for two zeros) and the returned coefficients satisfy the Bezout identity. For coprime arguments with modulus of magnitude above one the modular inverse x satisfies a*x = 1 (mod n) and lies in [0,|n|), and solving a*x = b (mod n) for non-zero n returns exactly all distinct solutions in [0,|n|), or none exactly when gcd(a,n) does not divide b.",
["inputs"],"every pair/triple of integers",
"sign handling and the enumeration of all solutions are quantified over triples",
[B],[("gcd/gcd_extend",B),("mod_inverse",B),("solve_mod_linear_equation",B)])
p("C18","Jacobi symbols and modular square roots are correct",
"For every integer a and odd b the Jacobi symbol equals the mathematical one (zero b gives nothing; negative b uses the Kronecker sign convention). For every odd prime p the modular square root of a returns r in [0,p) with r*r = a (mod p) whenever a is a quadratic residue, and nothing exactly when it is not.",
["inputs"],"every a and odd b; every a and odd prime p",
"the reciprocity sign flips and the three root algorithms depend on residues of a and p modulo 4, 8 and higher powers of two",
[B],[("jacobi",B),("mod_sqrt/mod_sqrt_3mod4/mod_sqrt_5mod8/mod_sqrt_tonelli_shanks",B)])
p("C19","Range products and binomial coefficients are exact",
"The product over an inclusive range of machine integers is exact for every sign combination (one for an empty range, zero when the range contains zero), and binomial coefficients with 0 <= k are exact.",
["inputs"],"every range and every (n,k)",
"sign parity, 64-bit splitting of factors and extreme endpoints are not sampled",
[B,N],[("mul_range/binomial",B),("Nat::mul_range",N)])
p("C20","Rational arithmetic is exact and always in lowest terms",
"For all rationals, addition, subtraction, multiplication, division, negation, absolute value and inversion are exact, and every rational built by the public constructors or operations is in lowest terms with positive denominator (zero is 0/1). Ordering and equality are numeric, integer and sign queries agree with the value, division by zero panics, and constructing with a zero denominator or inverting zero is refused with an error.",
["inputs","histories"],"every pair of rationals, and every chain of operations",
"normalisation faults surface only later in a comparison or conversion of a derived value",
[R],[("norm",R),("add_inner/sub_inner/mul_inner/div_inner/inv/cmp_inner",R),("from_frac/from_frac_bigint",R)])
p("C21","Rational to and from binary floating point is exact or correctly rounded",
"Converting any finite f32/f64 to a rational is exact and converting back returns the same float. Converting any rational to f32 or f64 gives the nearest value with ties to even (denormals and overflow to infinity included), with the rational's sign, and the accompanying flag is true exactly when the result equals the rational.",
["inputs"],"every finite float and every rational",
"halfway cases, denormal double rounding and overflow boundaries are measure-zero points",
[R,"src/bigint/util.rs"],[("from_f64",R),("quo_to_f32/quo_to_f64",R),("ldexp/frexp","src/bigint/util.rs")])
p("C22","Rational text conversion is exact and canonical",
"Parsing an integer or a fraction numerator/denominator with optional signs and radix prefixes yields the exact rational in lowest terms, a zero denominator or malformed text is an error without panic, and a decimal-point literal yields the value of the nearest f64. Formatting prints numerator/denominator in the chosen radix and parses back to the same rational.",
["inputs"],"every rational and every short string over the fraction alphabet",
"non-reduced, negative-denominator and malformed fractions form a language",
[R],[("FromStr for Rat",R),("impl_rat_fmt_inner",R)])
p("C23","Float rounding obeys the rounding mode, precision and accuracy contract",
"Reducing the precision of a finite float yields exactly the value prescribed by its rounding mode for the exact original value at the new precision, and the reported accuracy says whether the result is below, equal to or above it; raising the precision or changing the mode never changes the value. Precision zero turns a finite value into zero, zeros and infinities are unaffected, and the minimum required precision is the exact number of significant mantissa bits.",
["inputs"],"every value, every target precision, every rounding mode and sign",
"rounding decisions depend on guard, round and sticky bits at every word alignment",
[F],[("round/set_precision/set_mode",F),("required_min_precision",F),("sticky",N)])
p("C24","Float arithmetic is correctly rounded and handles special values",
"Sum, difference, product and quotient of finite floats equal the exact real result rounded once to the left operand's precision (or the right one's if that is zero) in the left operand's rounding mode, with the accuracy of that rounding reported and the left operand's mode kept; at precision 24 or 53 they equal IEEE arithmetic on normal f32/f64. Infinities and signed zeros follow the IEEE rules (opposite infinities added, zero times infinity, 0/0 and infinity/infinity give not-a-number; exact cancellation gives +0, or -0 when rounding toward negative infinity), and a result whose exponent lies beyond the supported range is the infinity (above) or zero (below) of its sign.",
["inputs"],"every pair of floats, precisions, modes",
"swapped-operand branches, cancellation and mixed precisions form a product space",
[F],[("add_inner/sub_inner/mul_inner/div_inner",F),("uadd/usub/umul/uquo",F)])
p("C25","Float conversions to and from other number types are exact or correctly rounded",
"Building a float from any machine integer, f32/f64, natural or integer is exact, and from any rational is correctly rounded to nearest-even at the resulting precision, which is at least 64 and at least the bit lengths of numerator and denominator. Converting to f32/f64 gives the nearest-even value with correct sign, denormals, overflow and accuracy, and truncation to 64-bit integers truncates toward zero, saturates at the bounds and reports the correct accuracy.",
["inputs"],"every source value and every float",
"denormal boundaries, saturation bounds and extreme machine integers are isolated points",
[F,"src/bigint/float_macro.rs"],[("set_bits/set_i64/set_f64/set_nat/set_rat",F),("to_f32/to_f64",F),("truncate_to_u64/truncate_to_i64",F)])
p("C26","Float ordering and decomposition match the numeric value",
"Floats order numerically regardless of precision (-0 equals +0, infinities at the ends), and sign, infinity and integrality queries agree with the value. Splitting into mantissa and exponent gives 0.5 <= |m| < 1 with x = m*2^e (zeros and infinities unchanged with exponent zero), recombining any mantissa with any exponent scales by exactly that power of two with the mantissa's precision and mode, and exponents beyond the supported range give signed infinity or zero with the corresponding accuracy.",
["inputs"],"every float and pair of floats, every exponent",
"mixed lengths with trailing zero words and extreme exponents are outside sampled tests",
[F],[("cmp_inner/ucmp/ord",F),("mant_exp/set_mant_exp/set_exp_and_round",F),("is_integer",F)])
p("C27","Float text conversion is correctly rounded both ways",
"Exponent formatting with d fractional digits prints the value rounded half-to-even to d+1 significant decimal digits with at least two exponent digits, and plain formatting prints it rounded half-to-even to as many fractional digits as the float has bits of precision (zeros print as 0, infinities as +Inf/-Inf). Parsing a decimal literal with optional sign, fraction and exponent yields the correctly rounded value at the resulting precision; malformed decimal text, and exponents beyond the supported exponent range, are refused with an error without panic.",
["inputs"],"every float and digit count; every short decimal string",
"decimal rounding carries, trailing zeros and tiny exponents form a product space no test samples",
[FF,D],[("fmt_inner/fmt_for_exp/fmt_for_display",FF),("FromStr for Float",FF),("Decimal::new/shr_inner/round",D)])
p("C28","Named pseudo-random engines produce their published sequences",
"The linear congruential generator computes (a*x+c) mod m without intermediate overflow, the Mersenne twister follows the standard initialisation, twist and tempering for its parameters, and the lagged Fibonacci generator follows the standard subtract-with-carry recurrence and seeding, for every accepted parameter set and seed. Hence the six named engines produce exactly the sequences of their C++ standard namesakes for non-zero seeds.",
["inputs","histories"],"every seed, parameter set and output index",
"a sequence error can first appear at a state wrap-around or for seeds beyond a word",
["src/rand/linear_congruential_rand.rs","src/rand/mersenne_twister_rand.rs","src/rand/lagged_fibonacci_rand.rs"],
[("lcr_calc","src/rand/linear_congruential_rand.rs"),("check_init/gen_rand/gen","src/rand/mersenne_twister_rand.rs"),("check_init/gen","src/rand/lagged_fibonacci_rand.rs")])
p("C29","Generators are deterministic functions of seed and call history",
"After any history of draws, resets, clones and iterator use, a generator reset with a seed behaves exactly like a freshly built one with that seed, a clone continues identically and independently of its original, and drawing through the iterator equals drawing directly. A seed error makes construction or reset fail with that error and a failed reset leaves the sequence unchanged; the iterator stops at the first source error, keeps it until cleared, and then resumes.",
["histories","fault_sequences"],"every history of generator operations up to a depth, every seed answer",
"state left over from an earlier phase only shows after particular histories",
["src/rand/iter.rs","src/rand/linear_congruential_rand.rs","src/rand/mersenne_twister_rand.rs","src/rand/lagged_fibonacci_rand.rs"],
[("Iter::next/clear_error","src/rand/iter.rs"),("reset/check_init","src/rand/mersenne_twister_rand.rs"),("reset/check_init","src/rand/lagged_fibonacci_rand.rs")],state="generator state, iterator error latch")
p("C30","Generator parameters are validated and outputs stay in range",
"Construction refuses a zero modulus, a word size of zero or above the type's width, lags that are not 0 < short < long, and twister parameters violating the documented upper bounds, with an error; zero twister parameters other than those are outside the claim. Every accepted small parameter set generates without panic, and every output is below the modulus, respectively below two to the word size.",
["inputs"],"every parameter tuple in a small grid and every seed class",
"parameter validation and the panics it must prevent are a product over many parameters",
["src/rand/linear_congruential_rand.rs","src/rand/mersenne_twister_rand.rs","src/rand/lagged_fibonacci_rand.rs"],
[("new","src/rand/linear_congruential_rand.rs"),("new","src/rand/mersenne_twister_rand.rs"),("new/gen","src/rand/lagged_fibonacci_rand.rs")])
p("C31","Any chain of mixed operations agrees with exact mathematics",
"For every sequence of public operations on naturals, integers, rationals and floats starting from small and boundary values, each intermediate result equals the exact mathematical result (correctly rounded for floats), so errors never depend on how a value was obtained. This includes values that passed through assigning operations, shifts, conversions and formatting on the way.",
["histories"],"every operation sequence up to a depth over a small alphabet",
"state-dependent faults (stale words, capacity, representation left by a previous operation) need a history",
[N,B,R,F],[("in-place *_inner operations on shared vectors",N),("BigInt ops",B),("Rat ops",R),("Float ops",F)])
p("C32","Raw-pointer kernels never touch memory outside their buffers",
"For every operand length, no public big-number operation reads or writes outside the buffers it allocated: neighbouring heap memory is never modified, and results never depend on the prior contents of uninitialised or spare memory.",
["inputs"],"every combination of operand lengths across the algorithm thresholds",
"an over-read or over-write by one word usually leaves results unchanged, so value-based tests pass",
[N,NV,AG,F],[("karatsuba/basic_mul/basic_sqr/karatsuba_sqr/add_at",N),("maskstore loop",NV),("*_inner pointer kernels",AG),("round: add_vw_inner/shr_vu_inner",F)])
p("C33","The portable arithmetic kernels give the same exact results",
"On processors where the x86 kernels are not selected, the portable (pure Rust) kernels that take their place give the same exact results: natural and integer addition, subtraction, multiplication, squaring, division, shifts, bit operations and modular power agree with exact mathematics, keep results canonical, and respect NaN and shared storage exactly as the x86 build does.",
["inputs","histories"],"every operand pair and operand length, every history of shared handles",
"the existing tests compile only the kernels selected for the build machine; the portable ones are never executed by them",
["src/bigint/nat_generic.rs","src/bigint/arith_generic.rs","src/bigint/mod.rs"],
[("add_inner/sub_inner/bit operations of the portable Nat","src/bigint/nat_generic.rs"),("cfg selection of kernels","src/bigint/mod.rs"),("*_inner pointer kernels",AG)])
p("C34","Random words from the system use each delivered byte exactly once",
"On systems without hardware random instructions, a draw of a random word succeeds exactly when the operating system has so far delivered enough bytes not yet used, and is then made of the oldest unused bytes in little-endian order: no byte is used twice in one generator's history, none is lost after a short read, and an error or short read that leaves too few bytes is reported as an error, never as a word with undelivered bytes.",
["fault_sequences","histories"],"every sequence of full, short and failed answers of the system, every history of draws, iterator use, resets and clones",
"short reads and errors of the system call do not happen in a test run",
["src/os/linux/mod.rs","src/rand/crypto_rand.rs"],
[("BCrypt::gen_random","src/os/linux/mod.rs"),("cr_impl: gen/reset","src/rand/crypto_rand.rs")],state="bytes delivered by the system and not yet used")
p("C35","Hardware random draws report failure and return exactly the delivered word",
"Each draw from the default and the cryptographic random source, and each seed from the default seed source, is exactly the word delivered by the processor's random instruction at the full width of the type when that instruction reports success (zero included), and an error when it reports that no word is available, so no undelivered word is ever handed out. Their iterators stop at the first such error until it is cleared, seeds come from the seed instruction, and an engine built or reset from the default seed source fails exactly when no seed is available and otherwise behaves as seeded with that word.",
["fault_sequences","histories"],"every sequence of successes and failures of the instruction, every history of calls",
"the instruction practically never fails in a test run, and a failed one looks like a valid word zero",
["src/rand/default_rand_amd64.rs","src/rand/default_seed_amd64.rs","src/rand/crypto_rand_amd64.rs","src/rand/iter.rs"],
[("gen_u32/gen_u64","src/rand/default_rand_amd64.rs"),("rdseed_u32/rdseed_u64","src/rand/default_seed_amd64.rs"),("cr_impl","src/rand/crypto_rand_amd64.rs"),("Iter::next","src/rand/iter.rs")])
p("C36","Clock-based seeds and random words work at every clock reading",
"On systems without hardware random instructions, the default seed source delivers a seed at every reading of the system clock, before, at and after the epoch, and different readings give different 64-bit seeds; two requests at the same reading give the same seed. The default random source built on it always delivers a word, also through its iterator; its words are a function of the seed it was last given and the clock readings since, so a reset generator continues exactly like a new one and a clone like its original; different seeds give different words, and a failing seed source is reported and leaves the generator as it was.",
["inputs","histories","fault_sequences"],"every clock reading, every history of draws, resets, clones and failing seed sources",
"a test run sees one clock that is never set before the epoch, and x86 machines never run this code",
["src/rand/default_seed.rs","src/rand/default_rand.rs"],
[("DefaultSeed::time_hash","src/rand/default_seed.rs"),("DefaultRand::new/gen/reset","src/rand/default_rand.rs")])
p("C37","Every refusal names its reason",
"Whenever an operation refuses its input with an error, the kind of the error states what was wrong. Malformed integer text is reported either as not beginning like a number (nothing to read after the sign or radix prefix, or a first character that is no digit) or as containing an illegal character further on; a malformed rational or float text is reported as a malformed text, a well-formed fraction over zero (as text or as numbers) as a zero denominator, the inverse of zero as a zero numerator, and a well-formed float text whose exponent is outside the supported range as exponent underflow or overflow according to its sign. A prime of fewer than two bits is reported as invalid parameters, a zero modulus of a linear congruential engine as a zero divisor, and illegal parameters of the other engines as invalid generator parameters. An error object keeps the kind and shows the text of the cause it was made from, and passes on that cause's own source.",
["inputs"],"every refused input of every operation that can refuse",
"callers branch on the kind of an error; tests check that an input is refused, not why, and the wrong reason needs a particular malformed text or parameter",
[N,B,R,FF,"src/bigint/nat_err.rs","src/bigint/rat_err.rs","src/bigint/float_err.rs","src/rand/rand_error.rs","src/rand/mersenne_twister_rand.rs","src/rand/lagged_fibonacci_rand.rs","src/rand/linear_congruential_rand.rs"],
[("check_base/from_*_str",N),("FromStr for BigInt",B),("from_frac/from_frac_bigint/inv/FromStr",R),("FromStr for Float",FF),("check_para","src/rand/mersenne_twister_rand.rs"),("new","src/rand/lagged_fibonacci_rand.rs"),("new","src/rand/linear_congruential_rand.rs"),("RandError","src/rand/rand_error.rs")])
import sys
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))

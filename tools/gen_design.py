#!/usr/bin/env python3
"""Regenerates DESIGN.md from properties.jsonl, known_findings.txt, the suite lists in the evidence of the last quick runs, and the notes below."""
import json, glob, os
V="/verif"
props=[json.loads(l) for l in open(f"{V}/properties.jsonl")]
ORACLE={
"C01":"reference sum/difference on u32 limb vectors (schoolbook, refmath::N), canonical form and unchanged operands checked on the limb view after every operation",
"C02":"reference schoolbook product; square = product with itself; power by repeated reference product",
"C03":"reference long division (normalised, digit by digit); additionally q*d+r = n and r < d recomputed with the reference product",
"C04":"bit-by-bit reference operations on the padded limb vectors",
"C05":"the canonical limb vector of the value; equality, order and the limb view must depend on nothing else, whichever way the value was produced",
"C06":"positional value of the byte/limb string, machine casts",
"C07":"a literal-by-literal grammar in text.rs (accept/reject and value) and reference radix conversion for output",
"C08":"NaN-ness is computed structurally from the operands",
"C09":"an explicit-state model of handles: a map handle -> storage cell -> value; every operation of the implementation is mirrored on the model and after each step *all* handles are compared with it",
"C10":"reference square-and-multiply with reference division, defined for modulus 0 (plain power) and for negative operands as documented",
"C11":"r^2 <= n < (r+1)^2 with the reference product",
"C12":"deterministic Miller-Rabin (exact below 2^64, 24 bases above) in the reference; the random source is a choice point answered in every possible way",
"C13":"range, canonical form and reachability of values over all answer sequences of the source",
"C14":"as C12, plus the exact bit length and the two top bits",
"C15":"sign/magnitude reference integers; Euclidean division from its definition",
"C16":"infinite two's complement reference (sign-extended limb vectors)",
"C17":"reference Euclid; Bezout identity, a*x = 1 mod n, and for congruences the full brute-force solution set",
"C18":"Legendre symbols by Euler's criterion over the factorisation; roots squared back with the reference",
"C19":"reference products; Pascal identity for the small triangle",
"C20":"reference fractions reduced with reference gcd",
"C21":"exact dyadic value of the IEEE bit pattern; round-to-nearest-even of the exact fraction in the reference, exactness flag compared",
"C22":"fraction/decimal grammar in text.rs and reference reduction",
"C23":"exact dyadic value rounded by the reference for each of the six modes; accuracy is the sign of (rounded - exact)",
"C24":"exact sum/difference/product/quotient of the dyadic values (quotients as fractions) rounded once by the reference; IEEE hardware as a second oracle for 53/24 bit precision",
"C25":"exact values and reference rounding; machine casts where the value fits",
"C26":"order of the exact dyadic values; mantissa/exponent from the value",
"C27":"exact decimal expansion rounded by the reference; for parsing, the exact decimal fraction rounded to the stated precision",
"C28":"the recurrences of the C++ standard re-implemented with u128 arithmetic; the published 10000th outputs",
"C29":"a model of the generator as a pure function seed -> sequence with a cursor; clones are independent cursors",
"C30":"the validity predicate written down from the documentation; range of every output",
"C31":"four-register machine (natural, integer, rational, float) with exact reference registers; all registers compared after every step",
"C32":"a fencing allocator: every heap block of the implementation ends (or begins) at an inaccessible page and is filled with a pattern, so a read or write outside faults, and a result that depends on uninitialised memory differs between fills",
"C33":"the reference and the suites of C01-C04, C10, C15, C08 and C09, run on the portable code path",
"C34":"a queue of delivered bytes: a draw succeeds iff the queue holds a word after the system's answer, and takes the oldest bytes",
"C36":"a generator freshly made from the last seed and drawn at the same clock readings; seeds compared pairwise",
"C37":"the reason for a refusal derived from the text grammars of text.rs and from the parameter rules; only kinds, never message texts, are compared",
"C35":"the word scripted for the trapped instruction, or an error if it was scripted to fail",
}
NOTE={
"C09":"Model checking proper: the state is the aliasing structure plus values; every operation sequence of the stated depth is run from every initial assignment.",
"C12":"The environment (random source) is explored statelessly: each draw is a choice point, depth-first over all answers (including failures) up to the stated depth, then a fixed well-behaved tail. 'At most a quarter' is decided by counting over *all* witnesses of each composite.",
"C28":"MT: the tempering shift/mask order and the twist are compared on tiny word sizes, where all parameters can be enumerated, and on the real sizes.",
"C32":"Exhaustive in operand lengths (which decide all index arithmetic of the raw-pointer kernels), two fence sides, several fills. Memory safety is observed by the hardware, not modelled.",
"C33":"`portable.sh` copies /repo's working tree into mc/target/portable and renames the `target_arch = \"x86\"/\"x86_64\"` predicates, so the code compiled for other processors is compiled here; `mc_port` is built against that copy on every run.",
"C34":"`syscall(2)` and `getrandom(3)` are interposed in the checker; each getrandom call is a choice point (error, 0, 1, .. full length bytes). Only the random sources are switched to the portable path.",
"C36":"`clock_gettime` is interposed in the checker and stands still during one operation; readings before the epoch included. Only the random sources are switched to the portable path.",
"C35":"At startup the checker disassembles itself (objdump), replaces every rdrand/rdseed by ud2 and answers in a SIGILL handler; so the code under test is the unmodified x86 code, and each executed random instruction is a choice point.",
}
def ev(i):
    try: return json.load(open(f"{V}/evidence/{i}.json"))
    except Exception: return None
o=[]
o.append("""# Verification design for rmath (family: model checking)

rmath is a sequential library: no threads, files or crash points. The executions to be explored exhaustively are therefore the
inputs (all shapes: limb counts, boundary limb contents, signs, precisions, rounding modes, strings over an alphabet), the
operation histories (including the *sharing* structure: `clone` of a natural/integer shares storage, so a history decides which
handles alias) and the environment (the random source's, system call's and random instruction's answers **and failures**). All of this is explored directly on the real
implementation (stateless exploration, as in guide.md's section on sequential libraries); the specification is a reference
model written independently in `mc/src/refmath.rs` (schoolbook arithmetic on limb vectors, exact fractions, exact dyadics with
a six-mode rounding function), `mc/src/text.rs` (literal grammars) and, for engines, the standard's recurrences. Model and
implementation are kept bound together in the strongest way: *every* explored trace is executed on both and compared
step by step (`traces_validated_against_impl` = number of cases).

## Machinery (`/verif/mc`)

* `engine.rs` - a check is a list of suites; a suite is a finite space `0..len` whose case `i` decodes to one input, history or
  environment script. All cases are run on 8 threads, none is sampled (VERIF_SEED has no influence). A worker process is
  supervised by a parent: a crash (segfault, abort), a panic outside a documented one, or a case that does not end within 60 s
  becomes a VIOLATION with the single case isolated and re-run. The quick tier stops exploring after 600 s (never reached on
  this tree) and then says `exhaustive: false`.
* `env.rs` - the adversarial random source: a choice-point explorer with backtracking.
* `alpha.rs` - the operand spaces: all limb vectors up to a length over boundary limbs {0,1,2^31-1,2^31,2^32-2,2^32-1,...},
  structured long operands of *every* length across the multiplication thresholds, 2^i+d, all small numbers.
* `obs.rs` - observation: reads values back through two independent public views (limb iteration and comparison/format), and
  checks canonical form every time.
* `refmath.rs` - the reference; `selftest()` cross-checks it against u128/f64 machine arithmetic at the start of every run.
* `alloc.rs` - the fencing allocator of C32.
* Replay: a violation writes `/verif/replays/<id>-<tier>.txt` with suite, index and trace; `mc/target/release/<bin> <ID> <tier>
  --case <suite> <index>` re-executes exactly that case.
* `check.sh` rebuilds against /repo's working tree (staleness decided by content hash, not by time stamps). The build has
  overflow checks and debug assertions on, as the repository's own tests do, so a silent wrap-around is a panic.
* No hooks were needed in /repo: every property is checked through the public API (MANIFEST hooks is empty).

Why this reaches what the tests cannot: the repository's tests run a few dozen literals. The defects found (listed below) all sat at
limb boundaries, particular sign combinations, aliasing patterns, rounding ties, extreme exponents or environment
answers that only an enumeration of the product space visits.

Small-scope argument for bounds: the kernels treat limbs uniformly; control flow depends on operand lengths (thresholds 40 limbs
for Karatsuba, 4-limb AVX2 blocks), carries between neighbouring limbs, and on values only through comparisons with 0/1, the other operand
and powers of two. Hence: all length pairs across all thresholds with structured contents, and all contents over boundary limbs at
short lengths.

## Outside the claims

* The statistical quality of the random sources: nothing is specified.
* The wording of error messages (C37 compares kinds only).
* Windows code is not compiled here. The non-x86 variants are (C33, C34, C36). x86 without AVX2 does not compile at the pinned commit, and
  the SSE2 kernels are never enabled by build.rs.
* Division by zero panics for every type, also when the dividend is NaN (documented); NaN/0 is therefore not asserted to be NaN.
* Unspecified and therefore not asserted: integer modular power with a negative exponent and no inverse (the comment says NaN, the repository's
  own test pins a number); blanks inside a float exponent; sign of the exact zero sum of opposite zeros under round-down;
  twister parameters that are zero (except those the constructor documents); a BigInt shallow clone after an assigning operation
  on its original; shallow clones of Rat/Float other than as operands.
* IEEE agreement (C24) is only claimed for results at or above the smallest normal number: Float has no denormals.

## False alarms met and what was done

* C24 demanded IEEE results in the denormal range: property wrong (Float's exponent range is wider), restricted to normal results.
* C27 disagreed about blanks inside an exponent ("0e -0"): nothing documents it, so those strings are not judged.
* C24 expected one sign for the exact zero sum of opposite zeros under round-down: unspecified, not judged.
* C09 expected a shallow BigInt clone to follow an assigning operation on the original: unspecified, not judged.
* C30 first required refusal of zero tempering parameters: not documented, dropped.
* C08 first required NaN / 0 to be NaN: the zero divisor panic is documented and takes precedence; dropped.

## Properties
""")
for p in props:
    i=p["id"]; e=ev(i)
    o.append(f"### {i} {p['title']}\n\n{p['statement']}\n\n* Oracle: {ORACLE[i]}.")
    if i in NOTE: o.append(f"* {NOTE[i]}")
    if e:
        c=e["coverage"]; o.append("* Enumerated in the quick tier (thorough: the same spaces with larger bounds, for at most 810 s; what is left unexplored by then is reported in the evidence as not exhaustive):")
        for s in c["suites"]: o.append(f"  * `{s['suite']}`: {s['space']}")
    o.append(f"* Anchors: {'; '.join(a['name']+' ('+a['where']+')' for a in p['anchors']['mechanism'])}\n")
o.append("## Defects found and repaired in /repo\n\nEach is one `fix:` commit; none is open.\n")
for l in open(f"{V}/known_findings.txt"):
    if l.startswith("fixed:"): o.append("* "+l[7:].strip())
o.append("\n## Planted bugs and what catches them\n\n`/verif/seeded/<id>`; none is ever committed to /repo. Result of `check.sh <property> quick` with the patch applied:\n\n| bug | property | needs | caught by |\n|---|---|---|---|")
res={}
if os.path.exists(f"{V}/tools/seeded_results.json"): res=json.load(open(f"{V}/tools/seeded_results.json"))
for d in sorted(glob.glob(f"{V}/seeded/*/meta.json")):
    m=json.load(open(d)); b=os.path.basename(os.path.dirname(d)); o.append(f"| {b} | {m['property']} | {m['needs']} | {res.get(b,'not run')} |")
if os.path.exists(f"{V}/tools/mutation_notes.md"): o.append("\n"+open(f"{V}/tools/mutation_notes.md").read())
open(f"{V}/DESIGN.md","w").write("\n".join(o)+"\n")

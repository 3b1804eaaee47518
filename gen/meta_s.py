# executed by meta.py: A20 and the S-properties
import copy as _c
for _p in PROPS:
    if _p["id"] == "A20": _p.update(na=None,
      statement="For every finite x != 0, frexp(x) = (m, e) with 0.5 <= |m| < 1, the sign of x and x = m * 2^e exactly (subnormals included); for 0, infinities and NaN it returns the argument itself with exponent 0. ldexp(x, e) is x * 2^e exactly whenever that is a normal number, with the sign of x, saturates to a signed infinity or a signed zero beyond, and leaves 0, infinities and NaN alone. Hence ldexp(frexp(x)) = x. sign(a, b) is |a| with the sign bit of b, for every pair.",
      quant="every double in every binade (decided for x anywhere, and for the listed exponents of ldexp: -1000..1020 with every mantissa, and saturating ones up to the limits of i32)")
MIRT = "provenance dataflow over type-checked MIR (every path of the method and of everything it calls inside the crate)"
MIRN = ("Every MIR path is followed with symbolic values; a path, callee or loop the dataflow cannot account for is reported, never skipped. Trusts rustc's MIR and the documented meaning of HashMap operations and f64::to_bits.")
CF = ["src/bessel.rs"]
prop("S21", "Cached Bessel functions are transparent: hit or miss, same answer",
  "For each of CachedJnuYnu, CachedInuKnu, CachedBesselJY and CachedBesselIK and every history of calls on it, the value returned for (nu, x) is bit for bit what the uncached function (Jnu_Ynu, Inu_Knu, besseljy, besselik) returns for exactly that (nu, x), in the same component order; two arguments share an entry only when both have the same bits, so -0.0 and 0.0, neighbours and swapped arguments never alias.",
  CF, [w("memoising lookup keyed by the bits of (nu, x)", "src/bessel.rs CachedJnuYnu::Jnu_Ynu, CachedInuKnu::Inu_Knu, CachedBesselJY::besseljy, CachedBesselIK::besselik"), w("impl_cache! macro", "src/bessel.rs")],
  "every argument pair and every sequence of operations on a cache, of any length", "An aliasing key, a stale entry or a swapped component shows only for a particular pair of arguments after a particular history.", over=("inputs", "histories"), technique=MIRT, note=MIRN + " Decides an invariant of the map (every entry holds the function's value at the bits in its key) that every method preserves.", state=["the HashMap in each cache"])
prop("S22", "Cache bookkeeping methods do what they document and never fabricate entries",
  "For each of the four caches: new, default and with_capacity give an empty cache; len, is_empty, contains and get report the stored entries for exactly the arguments asked and change nothing; clear removes all entries; shrink_to_fit and reserve keep every entry; retain keeps exactly the entries for which the caller's predicate, given the decoded (nu, x) in that order and the stored value, returns true; clone and the conversions the type offers preserve the entries. No method other than the lookup adds or changes an entry.",
  CF, [w("impl_cache! macro", "src/bessel.rs")], "every argument and every sequence of operations on a cache, of any length", "Tests exercise one or two caches with a couple of entries.", over=("inputs", "histories"), technique=MIRT, note=MIRN, state=["the HashMap in each cache"])
prop("S23", "Jnu_Ynu and Inu_Knu are the first two results of besseljy and besselik",
  "For every (nu, x), Jnu_Ynu(nu, x) is the pair of the first and second result of besseljy(nu, x), and Inu_Knu(nu, x) that of besselik(nu, x), for the same arguments in the same order, bit for bit.",
  CF, [w("projection", "src/bessel.rs Jnu_Ynu, Inu_Knu")], "every pair of doubles", "A special case for some arguments would agree with the tests' points.", technique=MIRT, note=MIRN)
prop("S29", "The Lambert W re-exports are the lambert_w crate's functions of those names",
  "puruspe::lambert_w0, lambert_wm1, sp_lambert_w0, sp_lambert_wm1 and lambert_w are the items of the lambert_w dependency with exactly those names: calling one reaches that function with the same arguments, and returns its result unchanged.",
  ["src/lib.rs"], [w("pub use lambert_w::{..}", "src/lib.rs")], "every argument", "A wrapper or a swapped rename agrees with the tests wherever the branches agree.", technique="name resolution of each re-export in the type-checked program, and provenance dataflow over MIR when it is a wrapper", note=MIRN)
prop("S25", "Invalid arguments are rejected by a panic, always",
  "gammp and gammq panic for every a that is not > 0 and every x that is not >= 0; beta for every z or w not > 0; betai for every a or b not > 0 and every x not in [0, 1]; invgammp for every a not > 0: NaN and -0.0 (where 0 is excluded) included, whatever the other arguments (infinite or NaN too). besseljy and besselik (and Jnu_Ynu and Inu_Knu) panic for every x <= 0 and every nu < 0, infinities included. No value is ever returned for such arguments.",
  ["src/gamma.rs", "src/beta.rs", "src/bessel.rs"], [w("assert! / panic! at entry", "src/gamma.rs gammp, gammq, invgammp; src/beta.rs beta, betai; src/bessel.rs besseljy, besselik")], "every combination of doubles with at least one invalid argument", "Tests have at most one invalid value per function; a comparison turned round or moved after an early return shows only on particular combinations.", note=NOTE)
prop("S28", "A NaN argument never turns into a number",
  "Every public function given NaN as any floating-point argument either panics or returns NaN (for faddeeva, besseljy and besselik: in every component), whatever the other arguments: erf, erfc, erfcx, inverf, inverfc, gamma, ln_gamma, gammp, gammq, invgammp, beta, betai, invbetai, Jn, Yn, In, Kn (for the integer orders listed in the evidence), dawson, faddeeva, besseljy, besselik, Jnu_Ynu, Inu_Knu, lambert_w0, lambert_wm1, and sign and ldexp in their first argument.",
  ["src/error.rs", "src/gamma.rs", "src/beta.rs", "src/bessel.rs", "src/dawson.rs", "src/faddeeva.rs", "src/utils.rs"], [w("comparisons that are false for NaN", "every function with a range test")], "NaN in any argument position, the others arbitrary (integer orders 0 to 40 and a few larger; listed values for invbetai's other arguments)", "Every comparison with NaN is false, so each range test sends NaN down some branch; tests hardly ever pass NaN.", note=NOTE)
prop("S26", "Functions without a documented panic never panic",
  "erf, erfc, erfcx, inverf, inverfc, gamma, ln_gamma, dawson, frexp, ldexp, sign, factorial, lambert_w0, lambert_wm1, sp_lambert_w0 and sp_lambert_wm1 return normally for every argument whatever (NaN, infinities, subnormals, the largest integers), and so do beta for all z, w > 0 and Jn, Yn, In and Kn of orders 0 to 12, 16, 20, 25, 33, 40, 64 and 100 for every x: no index leaves its table, no integer operation overflows (which a debug build turns into a panic), no internal assertion fails.",
  ["src/error.rs", "src/gamma.rs", "src/beta.rs", "src/bessel.rs", "src/dawson.rs", "src/utils.rs"], [w("table look-ups indexed by a rounded argument, integer arithmetic on orders and exponents", "src/error.rs erfcx, src/dawson.rs dawson, src/bessel.rs Jn, In, src/utils.rs frexp, ldexp, factorial")],
  "every double and every usize; the integer orders listed", "An index or an integer conversion that overflows does so for a few arguments at the edge of the range, which tests do not contain.", note=NOTE)
prop("S24", "Every result is a function of the arguments alone",
  "Every public function, besides the cache methods (which depend on their own cache only), returns bit for bit the same result for the same arguments: whatever was called before, from whichever thread, at whatever time and in whatever environment. Nothing in the crate reads or writes mutable state that outlives a call, the clock, the environment, files, addresses, random numbers or the iteration order of a hash map, and no call leaves an effect behind (output included) other than a panic.",
  ["src/error.rs", "src/gamma.rs", "src/beta.rs", "src/bessel.rs", "src/dawson.rs", "src/faddeeva.rs", "src/utils.rs", "src/interpol.rs"],
  [w("constant tables and lazily built ones", "src/*.rs const and static items"), w("all public functions", "src/lib.rs re-exports")],
  "every argument, every history of earlier calls and every interleaving of threads", "A hidden memo, a static scratch buffer or a thread-local shows only after particular earlier calls or under particular interleavings.", over=("inputs", "histories", "schedules"),
  technique="effect analysis over type-checked MIR: every statement, callee and static reachable from each public function is classified against the list of effects allowed",
  note="Follows every function of the crate's MIR and every call out of it; a callee not on the list of effect-free std and dependency routines is reported. Trusts the list (lib/purity.py).")
prop("S27", "Every call ends after a bounded number of steps",
  "Every public function ends, by returning or by a panic, after a bounded number of loop iterations for every argument, NaN, infinities, subnormals and the extreme integers included: no loop goes round more than 100000 times and no recursion is unbounded, except that loops of the Bessel functions may be bounded by the (integer or real) order and the argument's rounding of it. In particular factorial(n) and gamma(x) do a bounded amount of work for huge arguments.",
  ["src/gamma.rs", "src/beta.rs", "src/bessel.rs", "src/dawson.rs", "src/faddeeva.rs", "src/utils.rs"],
  [w("iteration caps", "MAXIT, NMAX and the counted loops of src/gamma.rs, src/beta.rs, src/bessel.rs, src/dawson.rs"), w("exits on overflow", "src/utils.rs factorial, src/gamma.rs gamma")],
  "every double, every u32 or usize argument", "A loop whose exit compares doubles hangs only for arguments where the comparison never turns (NaN, saturation, absorbed increments).", 
  technique="LLVM scalar evolution's trip-count bounds over the IR of the current tree, recursion by strongly connected components, the remaining loops by whole-domain abstract interpretation",
  note="A loop neither analysis bounds is reported. Trusts opt's scalar evolution and the analyser.")
prop("S30", "Caches are self-contained values no one else can reach into",
  "A cached Bessel function type owns all its entries: it is Send, Sync, unwind safe and 'static, a clone shares nothing with the original, and every method that changes it takes it exclusively (&mut), so that no other holder of a reference can see it change or change it. From outside the module the entries can be read but never written, supplied or taken out: the map is private, get returns a shared reference bound to the cache, retain passes values by copy, and there is no Deref, IndexMut, Extend, FromIterator, From, entry, insert or get_mut. Every documented function stays reachable under its documented paths with its documented type.",
  ["src/bessel.rs", "src/lib.rs", "src/utils.rs"], [w("private tuple field, &mut self methods, owned HashMap", "src/bessel.rs CachedJnuYnu, CachedInuKnu, CachedBesselJY, CachedBesselIK and impl_cached_bessel_convenience_functions!"), w("public paths", "src/lib.rs")],
  "every program that uses the crate", "Tests are programs that compile; what must not compile, and what other programs rely on to compile, they cannot show. Shared interior state shows only under particular interleavings.", over=("inputs", "histories", "schedules"),
  technique="type-level encodings: witness programs that must type-check and compile-fail twins that rustc must refuse, each with an error code of its own reason", note="Trusts rustc's name resolution, type checker and borrow checker. The witnesses name public items only.", state=["the HashMap in each cache"])
prop("S31", "The crate contains no unsafe code",
  "No function, block, impl or attribute in the crate is unsafe (in any cfg the library builds with), so that no argument or sequence of calls can reach undefined behaviour through it, and an index outside a table is a panic and never a wild read.",
  ["src/lib.rs", "src/error.rs", "src/gamma.rs", "src/beta.rs", "src/bessel.rs", "src/dawson.rs", "src/faddeeva.rs", "src/utils.rs", "src/interpol.rs"], [w("safe Rust throughout", "src/*.rs")],
  "every argument and history", "get_unchecked with an index that is in range for the tests' points reads elsewhere for others.", over=("inputs", "histories"),
  technique="compiler lint (unsafe-code, forced) over the type-checked crate", note="Trusts rustc's lint, std and the dependencies.")
for _p in PROPS:
    if _p["id"] == "A06": _p.update(statement="factorial(n) is exactly n! for n <= 22, n! to a relative 1e-14 for n <= 170, and +inf for every n > 170 up to the largest usize.", quant="every usize")
NAT = "not decided"
prop("X01", "Monotone functions are monotone in floating point",
  "erf, erfc, erfcx, inverf, inverfc, gammp, gammq, betai and the inverse functions never turn round: for x <= y the computed values are ordered as the true ones, for every pair of neighbouring doubles.",
  ["src/error.rs", "src/gamma.rs", "src/beta.rs"], [w("sums, rational functions and iterations rounded at every step", "src/error.rs, src/gamma.rs, src/beta.rs")], "every pair of doubles x <= y", WHYN, technique=NAT, note=NAT,
  na="A statement about the last bits of two neighbouring results: the rounding errors of both evaluations would have to be compared exactly. Interval and Taylor-model enclosures are several ulps wide, so no static argument in reach can order results that differ by less (and most of these functions do turn round by an ulp).")
prop("X02", "The integer-order Bessel functions are accurate for every order and argument",
  "Jn(n, x), Yn(n, x), In(n, x) and Kn(n, x) are accurate for every n up to 2^32 - 1 and every x, and besseljy and besselik for every real order.",
  ["src/bessel.rs"], [w("recurrences whose length depends on the order", "src/bessel.rs Jn, Yn, In, Kn, besseljy, besselik")], "every order and argument", WHYN, technique=NAT, note=NAT,
  na="The recurrences run once per order, so each order is a separate loop-free program to the analysis; an argument for all orders at once needs an inductive error bound for the minimal and the dominant solution of the recurrence (relative to J, Y, I, K themselves), which no abstract domain here expresses. Decided for the orders and ranges of A12 to A17; and where J and Y oscillate (x in the thousands) only in windows.")
prop("X03", "Agreement with SciPy to the last digits",
  "Each function returns what SciPy returns, up to the rounding of the last place.",
  ["src/gamma.rs", "src/beta.rs", "src/error.rs", "src/bessel.rs"], [w("numerical recipes with an accuracy of 1e-7 to 1e-15 of their own", "src/*.rs")], "every argument", WHYN, technique=NAT, note=NAT,
  na="SciPy is another program and the README disclaims exact agreement; what is decidable, the distance from the mathematical function, is what A01 to A19 decide, to the accuracy the algorithms have.")
prop("X04", "The Lambert W functions are accurate to 50 and 24 bits",
  "lambert_w0 and lambert_wm1 are accurate to 50 bits and sp_lambert_w0 and sp_lambert_wm1 to 24 bits over their whole domains, lambert_w to the precision its crate states.",
  ["src/lib.rs"], [w("re-export of another crate", "src/lib.rs pub use lambert_w::..")], "every argument", WHYN, technique=NAT, note=NAT,
  na="The values are computed by the lambert_w dependency, outside this repository; no change to puruspe can alter them except by no longer re-exporting those functions, which S29 decides. 50 bits are also within the rounding noise the enclosures carry.")
prop("X05", "The caches make repeated evaluation cheaper and allocate as documented",
  "A second look-up does not evaluate the function again; with_capacity(0) does not allocate, with_capacity(n) and reserve(n) make n insertions possible without reallocation, clear keeps the memory.",
  ["src/bessel.rs"], [w("HashMap's capacity management", "src/bessel.rs impl_cached_bessel_convenience_functions!")], "every history", WHYN, over=("histories",), technique=NAT, note=NAT,
  na="Allocation and time are run-time quantities of std's HashMap that are not results of the crate; that a hit returns without calling the uncached function is part of what S21's dataflow sees, and the rest is std's contract.")

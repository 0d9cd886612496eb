#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

CLI = "JSON printed by the ecgen command"
prop("C01", "Printed curves are well-defined elliptic curves over a field of the size asked",
 "Every curve the tool prints, with any generation method, is a non-singular elliptic curve over the field it prints: a prime p of exactly the requested bit length, so p > 3 from 3 bits on (a prime supplied by the user is taken as it is), or GF(2^m) with m the requested size and an irreducible reduction polynomial x^m + x^e1 [+ x^e2 + x^e3] + 1. "
 "The printed coefficients a and b are canonical field elements (0 <= a,b < p, or polynomials of degree below m). "
 "The one exception is complex multiplication (and curve families), where the field is derived from the requested order or z; there p is still prime and consistent with the order (Hasse).",
 ["inputs", "configurations"], "All field types, bit sizes, generation methods, option combinations, random states and valid user-supplied parameters.",
 "Unit tests sample a few fixed sizes per generator with loose assertions; nothing checks irreducibility, primality, canonicity and non-singularity of what the command prints.",
 ["src/gen/field.c", "src/gen/equation.c", "src/gen/curve.c", "src/math/poly.c", "src/io/output.c", "src/util/random.c"],
 [("field generators", "src/gen/field.c"), ("discriminant check", "src/gen/curve.c:curve_check_nonzero"), ("output", "src/io/output.c:output_jjson")], [CLI])

prop("C02", "Reported curve order is the exact number of points",
 "The order printed for a curve is exactly the number of points of that curve over that field, the point at infinity included. This holds for every generation method and option combination (random, given input, Koblitz, twist, prime, cofactor, smooth), for every curve of a multi-curve run, and however many candidates were rejected before it.",
 ["inputs", "configurations", "histories"], "All curves over prime and binary fields reachable from the command line, including after retries.",
 "Tests compare a handful of fixed curves; the order is computed through a cache, a table and several special-case paths that only differ on specific inputs or after a rejected candidate.",
 ["src/gen/order.c", "src/math/koblitz.c", "src/math/twists.c", "src/exhaustive/exhaustive.c"],
 [("order generators", "src/gen/order.c"), ("Koblitz order table", "src/math/koblitz.c")], [CLI])

prop("C03", "Generators lie on the curve, have the stated order and generate the group",
 "Every printed subgroup generator is an affine point of the printed curve whose exact order is the printed order, and the printed cofactor times that order is the curve order. Except under a cofactor request (whose extra first entry is the prime-order generator), there is one generator, of the full order, or there are two, and together they generate the whole group of points.",
 ["inputs", "configurations"], "All curves printed, cyclic and non-cyclic groups, prime and binary fields.",
 "Unit tests only assert that pointers are non-null on one or two curves; non-cyclic groups and small-order structure are never examined.",
 ["src/gen/gens.c", "src/obj/subgroup.c", "src/io/output.c"], [("generator construction", "src/gen/gens.c:gens_point")], [CLI])

prop("C04", "Printed points match the requested point type, exactly",
 "For every subgroup: 'prime' prints exactly one point of each prime order dividing the generator's order, 'all' one point of each order greater than 1 dividing it, 'nonprime' one point of each composite order dividing it, '<N>random' prints N points in total over the subgroups ('random' prints one), and 'none' prints none; the default is 'prime'. "
 "Each printed point is an affine point of the curve, lies in the subgroup it is listed under, and its exact order is the printed one.",
 ["inputs", "configurations"], "All point types, amounts, subgroup orders (prime, prime powers, smooth, non-cyclic groups) and fields.",
 "Unit tests check counts on one curve; repeated prime factors, order-2 subgroups and non-cyclic groups are not sampled.",
 ["src/gen/point.c", "src/math/subgroup.c", "docs/points.md"], [("points generators", "src/gen/point.c"), ("subgroup order enumeration", "src/math/subgroup.c")], [CLI])

prop("C05", "Order constraints (prime, cofactor, smooth) hold of every curve printed",
 "With --prime the printed order is prime; with --cofactor=k the printed order is k times a prime and the first printed generator has exactly that prime as its order and k as its cofactor (unless --unique asks for the one generator of the whole group); with --smooth=B every prime factor of the order has at most B bits. A curve that does not meet the constraint is never printed. This holds for every method that searches for curves (default, ANSI, twists), whatever else is requested; methods whose orders are determined warn that they ignore the request.",
 ["inputs", "configurations", "histories"], "All fields, sizes, bounds, cofactors, random states, and given curves that do or do not satisfy the constraint.",
 "Tests check only a single successful case; boundary bit lengths and cofactors, binary fields, and rejection paths are not sampled.",
 ["src/gen/order.c", "src/gen/gens.c", "src/exhaustive/exhaustive.c"], [("order_gen_prime/cofactor/smooth", "src/gen/order.c"), ("gens_gen_cofactor", "src/gen/gens.c")], [CLI])

prop("C06", "Unique and Koblitz requests are honoured",
 "With --unique every printed curve (in an invalid-curve set: every invalid one) has a cyclic group and exactly one printed generator, whose order is the curve order (methods that construct one kind of curve may warn that they ignore the request instead). With --koblitz[=A] the printed curve has b = 1 and a equal to the requested A (0 by default), over prime and binary fields alike (with --twist this is the curve that is twisted; methods that derive the equation themselves warn that they ignore the request).",
 ["inputs", "configurations", "histories"], "All fields and sizes, random states, numbers of rejected candidates, A in {0,1} or absent.",
 "Non-cyclic candidates appear only for some curves; tests check one size with one seed.",
 ["src/gen/gens.c", "src/gen/equation.c", "src/exhaustive/exhaustive.c"], [("gens_gen_one", "src/gen/gens.c"), ("a_gen_zero/a_gen_one/b_gen_one", "src/gen/equation.c")], [CLI])

prop("C07", "Hex-check accepts exactly the curves whose parameters contain the string",
 "With --hex-check=HEX every printed curve contains HEX (case-insensitively, an optional 0x prefix of the request ignored) inside the hex form of one single parameter: the seed, the prime, a, b, the order, or a coordinate of a printed generator or point. A curve whose parameters contain HEX is not rejected for it.",
 ["inputs", "configurations"], "All hex strings (any length, case, prefix), fields, methods and numbers of generators and points.",
 "Unit tests check two hand-made curves; matches at digit boundaries, in the last parameter, or spanning two values are not sampled.",
 ["src/gen/hex.c", "src/util/str.c", "src/io/cli.c"], [("hex_check_param", "src/gen/hex.c")], [CLI, "gen/hex.h: hex_check_param"])

prop("C08", "Output is one well-formed JSON array holding exactly the requested curves",
 "A successful run writes one JSON array with exactly COUNT curves (1 by default) and exits 0; numbers in it are lower-case 0x-hex strings, with field elements, p and the curve order zero-padded to the byte length of the field size. With -o the same document goes to the file (replacing its content, or appended after the previous content with -a) and nothing to stdout; a run that fails exits non-zero and what it has printed, if anything, is valid JSON containing only complete curves.",
 ["inputs", "configurations", "fault_sequences"], "All counts, output destinations, pre-existing file contents, and failures at any curve of the run.",
 "The output tests call single serialisers; separators, counts, files and failing runs are covered only by a shell script that greps.",
 ["src/io/output.c", "src/exhaustive/exhaustive.c", "src/misc/config.c"], [("begin/separator/end", "src/io/output.c"), ("exhaustive_generate", "src/exhaustive/exhaustive.c")], [CLI, "the -o file", "exit status"])

prop("C09", "Curve parameters given as input are used exactly as given, or rejected",
 "Field, a, b (and seed, z) values supplied on standard input (one per line) or in a file (comma separated), in decimal or 0x-hex, are the values of the printed curve, reduced into the field. Values that are not acceptable (not a prime, too large, reducible polynomial, exponents of zero or above m, empty line, bad seed) are not used: the next value is read instead, and when the input ends first, the run ends with a non-zero status and prints no curve.",
 ["inputs", "histories"], "All sequences of acceptable and unacceptable input values, both delimiters and number formats, with or without a trailing delimiter, truncated at any point.",
 "Tests feed four fixed input files; malformed, negative, oversized, and truncated inputs and re-prompting are not sampled.",
 ["src/io/input.c", "src/gen/field.c", "src/gen/equation.c", "src/exhaustive/ansi.c", "src/exhaustive/brainpool.c", "src/exhaustive/family.c"],
 [("input_i/input_string", "src/io/input.c"), ("field_gen_input", "src/gen/field.c"), ("a_gen_input/b_gen_input", "src/gen/equation.c")], [CLI, "exit status"])

prop("C10", "ANSI X9.62 curves are verifiable from their printed seed",
 "For --ansi over a field of the requested size, the printed seed is the one supplied (at least 160 bits) or a random 160-bit one, and an independent ANSI X9.62 verifier accepts seed and curve: over F_p, r is derived from SEED by the standard's SHA-1 expansion and r*b^2 = a^3 (mod p); over GF(2^m), b is the field element derived from SEED by that expansion.",
 ["inputs", "configurations"], "All seeds (length >= 160 bits, leading zero bits, carries in seed+i), field sizes on both sides of multiples of 160, prime and binary.",
 "Tests use a few published curves; short top blocks, leading zeros and wrap-around of seed+i are not sampled.",
 ["src/exhaustive/ansi.c", "src/util/bits.c", "lib/sha1/sha1.c"], [("ansi_gen_equation_fp/f2m", "src/exhaustive/ansi.c"), ("seed_process", "src/exhaustive/ansi.c")], [CLI])

prop("C11", "Brainpool curves follow the original Brainpool procedure from the seed",
 "For --brainpool[=SEED] the printed prime, a, b and generator are those the Brainpool procedure (2005 draft) derives from the initial seed: p is the first prime = 3 mod 4 after the hash, a with -3/a a fourth power, b a square, order prime and below p, large embedding degree, generator k*P with P of smallest x, and the printed seed is the final state of the seed chain; a curve rejected for its order or embedding degree restarts the search with the next prime along the chain. Given the same 160-bit seed and size the result is the same curve (the generator up to sign).",
 ["inputs", "histories"], "All 160-bit seeds (including carry and wrap-around) and sizes on both sides of multiples of 160.",
 "Tests check two published seeds; rejected candidates, wrap-around and size-dependent hash lengths are not sampled.",
 ["src/exhaustive/brainpool.c", "src/exhaustive/exhaustive.c", "src/util/bits.c"], [("brainpool_hash, brainpool_update_seed", "src/exhaustive/brainpool.c")], [CLI])

prop("C12", "Brainpool RFC 5639 curves follow the RFC procedure from the seed",
 "For --brainpool-rfc[=SEED] the printed prime, a, b and generator are those RFC 5639 derives from the initial seed: as for the original procedure, except that b is the first non-square of the seed chain after a. Given the same 160-bit seed and size the result is the same curve (the generator up to sign).",
 ["inputs", "histories"], "All 160-bit seeds and sizes.",
 "The repository's RFC test is too slow to run in its suite; only published seeds are listed.",
 ["src/exhaustive/brainpool_rfc.c", "src/exhaustive/brainpool.c"], [("brainpool_rfc_gen_equation", "src/exhaustive/brainpool_rfc.c")], [CLI])

prop("C13", "NUMS curves are the deterministic NUMS result for the size",
 "For --nums at size s, p = 2^s - c with c the smallest number = 1 mod 4 making p prime, a = -3, b is the first value of the search sequence for which the curve order and its twist's order are both prime (with the embedding degree conditions), and the generator has the smallest x and the smaller y. Every curve of a multi-curve run is this same curve.",
 ["inputs", "configurations"], "All sizes and counts.",
 "One size is tested with loose assertions.",
 ["src/exhaustive/nums.c", "src/exhaustive/exhaustive.c"], [("nums_gen_*", "src/exhaustive/nums.c")], [CLI], [("b", "last b tried, shared between curves", "src/exhaustive/nums.c")])

prop("C14", "Anomalous curves have exactly p points",
 "Every curve printed with --anomalous -r is over a prime field of exactly the requested size, has exactly p points, and its order, generator order and trace (1) say so.",
 ["inputs", "configurations"], "All sizes and random states, counts.",
 "One size is tested.",
 ["src/cm/anomalous.c"], [("anomalous_prime, anomalous_c, anomalous_gen_equation", "src/cm/anomalous.c")], [CLI])

prop("C15", "Supersingular curves have exactly p + 1 points",
 "Every curve printed with --supersingular, over a random or a given prime field p > 3, is over exactly that field and has exactly p+1 points (trace zero), and the printed order is p+1.",
 ["inputs", "configurations"], "All primes, in all residue classes mod 12, random or given.",
 "Unit tests use few primes; the construction branches on p mod 4, mod 3 and on the smallest suitable auxiliary prime.",
 ["src/cm/supersingular.c", "src/cm/cm.c"], [("supersingular_gen_equation", "src/cm/supersingular.c")], [CLI])

prop("C16", "Complex multiplication yields a curve of exactly the requested order",
 "With --order=N, N given as a number or as a comma separated list of factors, every printed curve is over a prime field and has exactly N points, and the printed order is N. An N that does not fit the requested size, or is not a number, is refused with a non-zero status.",
 ["inputs", "configurations", "histories"], "All feasible orders N: prime, composite, even, prime powers, smooth, given plain or factored, decimal or hex.",
 "Three orders are tested; choosing between a curve and its twist is randomised and depends on common factors of the two orders.",
 ["src/cm/cm.c", "src/cm/cm_prime.c", "src/cm/cm_any.c"], [("cm_construct_curve", "src/cm/cm_any.c"), ("order parsing", "src/cm/cm.c:cm_init")], [CLI, "exit status"])

prop("C17", "Pairing-friendly families satisfy their defining polynomials",
 "With --family=F (BN, BLS12, BLS24, KSS16, KSS18, KSS36, KSS40; any letter case) and a z for which the family is defined, the printed curve is over F_p with p = p(z) prime, r = r(z) prime divides its order, which is one of the family's CM orders with p+1-t(z) being the expected one, the embedding degree with respect to r is the family's, and the printed seed is z with its sign. A z for which p(z) or r(z) is not a prime integer is never used.",
 ["inputs", "configurations"], "All families and all z of either sign and any feasible size, random or given.",
 "Tests fix two z for two families; the other polynomials are long transcriptions no test evaluates.",
 ["src/exhaustive/family.c", "src/cm/cm_any.c", "src/io/output.c"], [("family polynomials", "src/exhaustive/family.c:family_init"), ("family_gen_*", "src/exhaustive/family.c")], [CLI])

prop("C18", "Invalid-curve sets are complete and correct",
 "With --invalid[=FROM-TO] the output is a JSON array of the original curve followed by, for each requested prime (the primes in the range, or without a range consecutive primes, enough for their product to exceed the square of the original order), one curve over the same field with the same a and order divisible by that prime, carrying a point of exactly that order on it; each point, generator and order printed is correct for its own curve. This holds for every number of threads.",
 ["inputs", "schedules", "configurations"], "All original curves, ranges, thread counts and thread interleavings, prime and binary fields.",
 "Unit tests check a single-threaded count on one curve; sharing of curves between primes, the last-separator logic and threaded runs depend on the random curves and the schedule.",
 ["src/invalid/invalid.c", "src/invalid/invalid_thread.c", "src/gen/point.c"], [("invalid_curves_single/threaded", "src/invalid/invalid.c"), ("points_gen_trial", "src/gen/point.c")], [CLI],
 [("states/generated", "per-prime progress shared by the threads", "src/invalid/invalid.c")])

prop("C19", "Twist output is the quadratic twist of the given curve",
 "With --twist the printed curve is a quadratic twist of the curve given (or generated): same field and j-invariant, its order and the original's sum to 2q+2, and all printed data (order, generators, points) belongs to the twist.",
 ["inputs", "histories"], "All curves over prime and binary fields (j = 0 and 1728 included), with all options that can cause retries.",
 "Unit tests check one prime and one binary curve; j=0/1728 and retried candidates are not sampled.",
 ["src/math/twists.c", "src/gen/curve.c"], [("twist_rand_to", "src/math/twists.c")], [CLI])

prop("C20", "Metadata values are the true invariants of the printed curve",
 "With --metadata the j-invariant, discriminant and trace of Frobenius printed are those of the printed curve; over prime fields the embedding degree is the multiplicative order of p modulo the curve order (0 for anomalous curves) and cm_discriminant * conductor^2 = t^2 - 4p with cm_discriminant a fundamental discriminant. Without --metadata none is printed.",
 ["inputs", "configurations"], "All curves, all generation methods, prime and binary fields.",
 "No test checks the values.",
 ["src/gen/metadata.c", "src/io/output.c", "src/gen/gens.c"], [("metadata_gen", "src/gen/metadata.c")], [CLI])

prop("C21", "Built-in tables: field polynomials irreducible, Koblitz orders right",
 "For every binary field size the tool knows, the built-in trinomial or pentanomial has that degree, one or three distinct middle exponents, and is irreducible over GF(2), and every size in the supported range is found. Every built-in binary Koblitz curve order equals the order given by the Frobenius recurrence, and looking up any (m, a) finds exactly the entries of the table.",
 ["inputs"], "All sizes m from 0 to beyond the end of the table and all (m, a); enumerated completely.",
 "Tests look up a few sizes; one wrong digit among thousands of table entries goes unnoticed.",
 ["src/math/poly.c", "src/math/koblitz.c"], [("polynomial tables", "src/math/poly.c"), ("koblitz_curves", "src/math/koblitz.c")], ["math/poly.h, math/koblitz.h", CLI])

prop("C22", "Bit strings obey the laws of fixed-length bit sequences",
 "The bit-string library agrees, for every length and content, with the obvious model of a sequence of bits: conversions (integer, hex, binary, raw, bit vector) round-trip, and concatenation, and/or/not, rotation, shifts of any amount and sign, lengthening and shortening give the model's result; arguments the operation does not own are left unchanged and the unused bits of the last byte stay zero.",
 ["inputs", "histories"], "All lengths (byte-aligned or not, empty), contents, shift amounts, and sequences of operations.",
 "Parameterised tests fix about ten vectors per function.",
 ["src/util/bits.c", "src/util/bits.h"], [("bits_*", "src/util/bits.c")], ["util/bits.h"])

prop("C23", "SHA-1 is SHA-1",
 "The SHA-1 used for verifiable generation equals FIPS 180 SHA-1 for every message, however the message is split into updates, and hashing a bit string hashes exactly its bytes.",
 ["inputs", "histories"], "All message lengths around block boundaries, all splits into update calls.",
 "Two fixed vectors are tested, none across block or buffer boundaries.",
 ["lib/sha1/sha1.c", "src/util/bits.c"], [("shaUpdate/shaFinal", "lib/sha1/sha1.c"), ("bits_sha1", "src/util/bits.c")], ["sha1/sha1.h", "util/bits.h"])

prop("C24", "P1363 class polynomials are the class polynomials of their discriminant",
 "For every supported D, the reduced forms computed by the IEEE P1363 routines are exactly the reduced primitive forms of discriminant -4D, and the polynomial returned is monic with integer coefficients, of degree the class number, and is the minimal polynomial of the class invariants (it splits into linear factors modulo every prime p = x^2 + D y^2 not dividing its discriminant, and is irreducible over the rationals).",
 ["inputs"], "All square-free D in a range.",
 "Unit tests check a handful of D values.",
 ["src/cm/p1363.c"], [("p1363_forms, p1363_poly", "src/cm/p1363.c")], ["cm/p1363.h"])

prop("C25", "Logging, output and resource options do not change the result",
 "For the same input and the same random state, the curves produced do not depend on -v (to stderr or a file), -o/-a, -m, --thread-stack, --threads or a timeout that does not expire, nor on whether the parameters come from stdin or from a file (only for --invalid with more than one thread may other invalid curves come out for the same prime orders). A data directory (-d) does not change the field, equation and order of a given curve. Repeating a run with the same input and random state gives byte-identical output.",
 ["configurations", "inputs"], "All pairs of option sets that differ only in such options, for all generation methods.",
 "No test compares two runs.",
 ["src/io/cli.c", "src/io/output.c", "src/ecgen.c", "src/exhaustive/exhaustive.c"], [("init", "src/ecgen.c"), ("verbose logging", "src/exhaustive/exhaustive.c")], [CLI])

prop("C26", "No request is silently dropped",
 "Every option that asks for a property of the curve is honoured, or the tool warns on stderr that it ignored it, or refuses to run with a non-zero status. Contradictory or meaningless command lines (no field or both, two generation methods, more than one of prime/cofactor/smooth, prime-field-only methods over binary fields, unknown families, point types or random parts, bad seeds) are refused and print no curve.",
 ["configurations"], "All combinations of the options on the command line.",
 "Tests run a fixed list of command lines; warnings and option interplay are untested.",
 ["src/io/cli.c", "src/misc/config.c", "src/exhaustive/exhaustive.c", "src/cm/cm.c", "src/invalid/invalid.c"], [("cli_end", "src/io/cli.c"), ("config_report_unused", "src/misc/config.c")], [CLI, "stderr", "exit status"])

prop("C27", "Command-line values are parsed exactly",
 "Every value given on the command line takes effect as documented: sizes with k/m/g suffixes (10^3, 10^6, 10^9, either case), times with s/m/h/d suffixes, counts, thread counts, cofactors, smoothness bounds, numbers of points, Koblitz a, the parts listed for --random, hex strings and seeds with or without 0x, and defaults when omitted. Malformed bit sizes, memory and time values, thread counts, cofactors, bounds, Koblitz values, order lists, hex strings, seeds, point types and random parts are refused.",
 ["inputs", "configurations"], "All option values and orders of options.",
 "Tests parse a few values per option.",
 ["src/io/cli.c", "src/misc/config.h"], [("cli_parse, cli_parse_memory, cli_parse_time", "src/io/cli.c")], ["the parsed configuration", CLI])

prop("C28", "Randomness: fresh per run, in range, and able to reach every value",
 "Two runs (and two threads of one run) never start from the same random state. The random helpers return values in their documented range (b-bit primes, b-bit integers, [low, high) ranges, field elements, bit strings), and every value of the range, every bit position included, can come out.",
 ["inputs", "histories"], "All ranges and bit lengths, over many draws.",
 "Tests draw one value and check a bound.",
 ["src/util/random.c", "src/util/bits.c"], [("random_reseed, random_int, random_range, random_prime", "src/util/random.c"), ("bits_new_rand", "src/util/bits.c")], ["util/random.h", "util/bits.h", CLI])

prop("C29", "The generation engine runs exactly the steps the step results ask for",
 "Driving a curve from one stage to another runs the stage functions in order; a stage (or its first failing validator) that reports -n sends generation back n stages (never before the start), undoing in reverse order exactly the stages being left, and a positive result advances; a stage failing as many times in a row as the retry limit, or a hard error, ends generation with failure. The run ends with success exactly when the end stage is reached.",
 ["histories", "fault_sequences", "configurations"], "All start/end stages, retry limits, and sequences of stage and validator results.",
 "Tests drive two fixed scripts.",
 ["src/exhaustive/exhaustive.c", "src/exhaustive/check.c", "src/exhaustive/arg.c"], [("exhaustive_gen_retry", "src/exhaustive/exhaustive.c")], ["exhaustive/exhaustive.h"])

prop("C30", "Copies of curve objects are deep, equal and independent",
 "Copying or cloning a curve, subgroup, point or seed gives an object with equal seed (value and hash), field, coefficients, curve, order, generators and points, which stays so when the original is changed or freed (and vice versa); freeing either releases it once, with no use of freed memory.",
 ["inputs", "histories"], "All shapes of objects (components missing, several subgroups and points, seeds) and orders of copying, mutating and freeing.",
 "Tests copy one object each.",
 ["src/obj/curve.c", "src/obj/subgroup.c", "src/obj/point.c", "src/obj/obj.h", "src/gen/seed.c"], [("*_copy, *_clone, *_free", "src/obj/*.c")], ["obj/*.h", "gen/seed.h"])

prop("C31", "JSON library round-trips and rejects malformed text",
 "The JSON layer reads every well-formed document (without repeated keys or numbers at the limits of a double) as its value, and refuses texts whose first value is cut short, wrongly nested or separated, or has bad strings or literals; serialising a value (compact or pretty) gives a document every JSON reader reads as that value, of exactly the announced size; setting, reading and removing members and dotted paths and array elements gives what the operations say; copies are equal and independent.",
 ["inputs", "histories"], "All JSON values and texts (nesting, escapes, unicode, numbers, malformed texts) and sequences of edits.",
 "The repository does not test it.",
 ["lib/parson/parson.c"], [("parse/serialise", "lib/parson/parson.c")], ["parson/parson.h"])

prop("C32", "No command line or input makes the tool misuse memory or crash",
 "For every command line and every input stream, valid or not, the tool ends with a normal exit status: it never reads or writes outside its memory, uses freed memory, executes undefined arithmetic, lets its threads race for the same memory, or dies on a signal.",
 ["inputs", "configurations", "fault_sequences"], "All command lines (option combinations and values) and byte strings as input.",
 "No test runs under a sanitizer or with arbitrary input.",
 ["src/io/cli.c", "src/io/input.c", "src/gen/", "src/util/", "src/exhaustive/", "src/invalid/"], [("input parsing", "src/io/input.c"), ("string joining", "src/util/str.c")], ["exit status", "sanitizer reports"])

prop("C33", "A timeout restarts generation and never changes what a finished curve means",
 "With --timeout=T a generation step that takes longer than T is abandoned and generation restarts from the first step; a curve that is printed is complete and correct as without the timeout, however often and at whatever point steps timed out, and without expiry the timeout has no effect.",
 ["schedules", "histories", "configurations"], "All points at which the timer can fire, methods, counts.",
 "No test lets a timeout expire.",
 ["src/util/timeout.c", "src/util/timeout.h", "src/exhaustive/exhaustive.c"], [("timeout_start/timeout_stop", "src/util/timeout.h")], [CLI, "exhaustive/exhaustive.h"])

prop("C34", "Security validators and embedding degree decide exactly",
 "The curve validators accept exactly what they are for: the Pohlig-Hellman check passes iff the largest prime factor of the order exceeds the bound, the CM discriminant check iff the square-free discriminant exceeds its bound in absolute value, the embedding check iff every generator's embedding degree exceeds its bound, the anomalous check iff no generator order equals p, and the Brainpool checks iff order < p and embedding degree > (order-1)/100. The embedding degree of an order n over F_p is the least k >= 1 with p^k = 1 mod n.",
 ["inputs"], "All curves and bounds, boundaries included.",
 "Tests check one accepting and one rejecting curve each.",
 ["src/gen/order.c", "src/gen/gens.c", "src/exhaustive/brainpool.c"], [("order_check_*, gens_check_*, gens_get_embedding", "src/gen")], ["gen/order.h", "gen/gens.h", "exhaustive/brainpool.h"])

prop("C35", "Subgroup orders and field-element encodings are exact",
 "Enumerating subgroup orders of a cyclic group of order n > 1 gives exactly the prime divisors, all divisors above 1, or all composite divisors of n, each once and in increasing order. Encoding a field element as an integer and decoding it again is the identity (bit i of the integer is the coefficient of x^i), and the parameters reported for a field are its prime or its degree and the exponents of its polynomial in decreasing order.",
 ["inputs"], "All n (prime powers, square-free, products), all elements of prime and binary fields.",
 "Tests check a few n and two fields.",
 ["src/math/subgroup.c", "src/gen/field.c"], [("subgroups_prime/all/nonprime", "src/math/subgroup.c"), ("field_elementi/field_ielement/field_params", "src/gen/field.c")], ["math/subgroup.h", "gen/field.h"])

prop("C36", "String helpers join, count and classify exactly",
 "Joining strings gives their concatenation with the separator between consecutive elements, for any number of strings; counting a character counts its occurrences; a string is recognised as hex iff all its characters (after an optional 0x) are hex digits, and the returned text is what follows the prefix.",
 ["inputs"], "All strings, separators and numbers of strings.",
 "Tests join two or three strings.",
 ["src/util/str.c"], [("str_join, str_joinv, str_cnt, str_is_hex", "src/util/str.c")], ["util/str.h"])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80 or True
        if len(p["title"]) > 80:
            print("title too long", p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))

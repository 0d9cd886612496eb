#!/usr/bin/env python3
"""Writes /verif/known_findings.json: open findings (with the exact case) and fixed defects."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """
C02 97a349a the order of a Koblitz curve over a prime field (-K) was taken from the table of binary Koblitz curves
C16 cafbd54 --order=N printed curves whose order was not N (curve and twist were told apart by one point only)
C04 f584fa5 --order with a prime order ignored --points
C16 6561df7 --order accepted values that only begin with a number
C18 aa83333 points_gen_trial kept one order only, invalid curve generation missed points
C19 462943f --twist printed the order of a rejected candidate's twist
C18 219bccb --invalid --threads printed curves without separating commas
C18 2fe065d --invalid with an empty prime range printed an unterminated array
C18 f3edf79 --invalid=0-N used no primes
C09 f918271 the last character of the last value was lost when the input ended without a delimiter
C09 c3aaaf4 end of input was not noticed (endless loop) for binary fields, seeds and families
C09 692c533 coefficients -1 and -2 were taken for failed input
C10 21127f3 ANSI a was not reduced into the prime field; r = 0 crashed
C28 416f200 random_int could return a number of one more bit
C28 4f7d62b the last byte of random bits was always zero
C22 d904a78 rotation of bits by a negative amount
C22 7411aed lengthening a bit vector exposed stale bits
C22 2fbddb1 bits_to_i of negative zero changed the sign of PARI's constant zero
C36 3009311 buffer sizes in str_joinv and str_join (overflow)
C07 9232901 --hex-check matched a string across two points
C14 e0b66ce --anomalous used fields of the wrong size, or never ended
C08 6d3016a a failed run left an unterminated JSON array
C04 62e3095 the point at infinity was printed as a random point or as the generator for -k
C26 3c9e00a brainpool, RFC and NUMS silently ignored -p, -k, -B and -u
C26 ef2e07b -k and -B values below 1 were taken
C26 e8ac437 two different seed algorithms were accepted, one was ignored
C33 3e24eda a timeout interrupted malloc inside PARI and corrupted the heap
C20 3fa0ac5 the embedding degree was an endless loop or error when p divides the subgroup order
C09 578fa2c numbers of one more bit than the size were taken as input
C21 4bbbce1 binary fields of 1060 bits crashed (no polynomial in the table)
C22 257540e the bit vector of an empty bit string was a one bit vector
C09 8f08634 -2 as p was taken for the end of input, negative exponents were ignored
C09 21ef2ea input that is not a number was taken for zero
C10 d9ed44a seeds with an odd number of digits were not hashed as printed
C13 a7c1397 with -c the second and later NUMS curves were different ones
C16 5cd1c6d some prime orders failed with a false out of memory
C16 aff360d a singular curve over F_3 was printed for order 5
C17 3ede579 a z of KSS16 or KSS40 was given up unless the first of four twists had the order
C18 c563894 an invalid range without primes ended in a false out of memory error within the output
C19 cedcc56 the twist of a binary Koblitz curve of a known order was printed with the order of the original
C24 f8316ab the class polynomials for D = 5 mod 8 were not polynomials over the integers
C24 a60fcf6 class polynomials for D = 3 mod 8 not divisible by 3 overflowed the stack
C24 eac1e99 more reduced forms than the vector held (overflow)
C27 1f1df8d malformed, negative and too large numbers were accepted as option values
C27 d467e4c point types that only start like one, and amounts of other types than random, were accepted
C26 30e6e07 family methods drew z at random though --random=WHAT did not list seed
C31 fb39695 a lone minus sign was read as the number 0
C33 91ecc65 a timer that expired before the place to jump to was saved crashed
C33 fadbce4 a timeout while generators were computed left an incomplete list of them: null pointer in invalid threads
C33 9505af5 a timeout left PARI with the threads and error handlers of the abandoned computation: heap corruption
C33 eed4b71 a timeout between freeing and replacing b of NUMS and families was a double free
C32 9bd4537 a curve of one point ended in a false failure of allocation
C11 3462886 a Brainpool seed whose k is a multiple of the order ended in an error of PARI (generator at infinity)
C35 ff419ac the divisors of an order of more than about 20 prime factors exhausted the memory (supersingular over 2^31 - 1, --points=all)
C34 e7083a0 the embedding degree of an order which is a power of two, with the field 1 modulo it, ended in a fault of PARI (operand not reduced)
C08 1866de4 a run whose output cannot be written (full device) exited 0
"""
FINDINGS = []
json.dump({"findings": FINDINGS,
           "fixed": ["fixed: property=%s %s %s" % tuple(l.split(" ", 2)) for l in FIXED.strip().split("\n")]},
          open(os.path.join(root, "known_findings.json"), "w"), indent=1)

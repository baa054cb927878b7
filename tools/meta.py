#!/usr/bin/env python3
"""Writes checks.json and MANIFEST.json (metadata of every check) from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENUM = "bounded exhaustive enumeration of operand space on the real code against a reference model (explicit enumeration, no sampling)"
HIST = "explicit-state search over operation histories, every model transition executed on the real code and compared"
NOTE = ("Every point of the stated finite space is executed on the code built from the working tree in all five word "
        "configurations and compared with an independent naive model; trusts the model (mc/src/model.rs), the compiler and "
        "the alphabet: operand contents outside it are not covered.")
T = {}
def c(id, level, bounds, rule, technique=ENUM, note=NOTE, **kw):
    T[id] = dict(level=level, bounds=bounds, rule=rule, technique=technique, level_note=note, **kw)
X = "exploration"
R = "operand tuples enumerated from boundary-word alphabets (0, 1, 2, top bit, all ones and neighbours, generic) for every length combination in the bounds; each tuple enumerated once per configuration; "
c("C01", X, "all pairs of numbers of up to 3 boundary words; all length pairs to 72 words, structured contents; every carry/borrow chain start and length in numbers of up to 26 words; spare and exhausted storage; long operands to 1025 words; 16-bit words: every one-word value", R + "all ownership forms")
c("C02", X, "all pairs of up to 3 boundary words; all 5-word numbers over a 3-letter alphabet; all length pairs to past the schoolbook limit; block-structured operands through Karatsuba and Toom-3 with every pattern of six block kinds; unbalanced la = k*lb + r; lengths to several recursions of Toom-3; long by short; storage variants; 16-bit words: every word times boundary words", R + "both orders and signs")
c("C03", X, "all dividends of up to 4 and divisors of up to 3 boundary words; dividends b*q+r for all divisor and quotient lengths, and for divide-and-conquer sizes; unconstructed dividends by the identity; storage variants; 16-bit words: every one-word divisor with dividends next to multiples", R + "all signs and forms; zero divisors must panic")
c("C04", X, "all small values; all pairs of up to 3 boundary words; constructed dividends for all length pairs to the divide-and-conquer sizes; dividends shorter than or as long as the divisor", R + "all four sign combinations and the three operations")
c("C05", X, "boundary-word numbers by every small amount and every amount next to a word multiple; longer numbers by every amount through their length, with one low bit at every word; long numbers; growth against spare capacity; shifts past the size limit; 16-bit words: every one-word value by every amount", R + "both signs, both directions, operator and assigning forms")
c("C06", X, "all pairs of signed values in a small range; all signed pairs of up to 3 boundary words; zero and ones runs of every length at the bottom of negative operands, all length pairs; storage variants", R + "all signs of and, or, xor, and-not, not")
c("C07", X, "boundary-word numbers by every bit position through and beyond the end; clearing bits that shorten the number by any number of words; far positions; long numbers; 16-bit words: every one-word value and every top word", R + "bit, set_bit, clear_bit, bit_len, trailing_zeros, is_power_of_two, next_power_of_two, checked by a bit-array model")
c("C08", X, "every base below a bound with every exponent until the result has thousands of bits; boundary-word bases; 2^k and neighbours; base 0, 1, -1 with exponents to usize::MAX; multi-word bases; 16-bit words: every one-word base", R + "consecutive exponents multiplied up in the model")
c("C09", X, "all pairs of small values; all pairs of up to 3 boundary words; all length pairs, structured contents; a = g*u, b = g*v for consecutive Fibonacci numbers and multiples, g structured with every power of two; every pair of trailing-zero counts; long operands", R + "gcd against the model's Euclid; Bezout identity and the documented bounds")
c("C10", X, "each value produced along more than 20 different routes (arithmetic, shifts, parsing, clone_from, reused storage, memory moves); all pairs of signed structured values; long numbers that differ in one bit at any position", R + "eq, cmp, partial_cmp, hash (recorded call by call and with SipHash), signum, abs, is_zero")
c("C11", X, "every 8- and 16-bit primitive; all sums and differences of pairs of powers of two to 2^140 around every primitive's bounds; twelve types and bool; 16-bit words: every two-word number near a boundary", R + "all From and TryFrom conversions in both directions")
c("C12", X, "every byte string of up to 2 bytes (3 with 16-bit words), every string over 6-, 3- and 2-letter alphabets to lengths that cross two and four words, every length with structured contents and redundant zero bytes", R + "both byte orders, from and to")
c("C13", X, "every bit length to past the f32 and f64 overflow, mantissa patterns, every guard bit with no, one (at any position) or all lower bits set; neighbourhood of the overflow thresholds; dense 18-bit windows around the f32 rounding position", R + "the model rounds the exact value; the model itself is compared with the standard library on u128")
c("C14", X, "every string of up to 4 characters over an alphabet with every class of character, in every radix and with prefixes; every single character to U+07FF alone and inside; every length to several words with one bad character at every position; sizes around the chunk boundaries of the divide and conquer parser, to 64 chunks with runs of leading zeros; invalid radixes; 16-bit words: two-word values", R + "the model parses with the documented grammar and Horner's rule")
c("C15", X, "all boundary-word numbers of up to 3 words and structured numbers of every length, every radix; 2^k and neighbours; r^k and neighbours for every radix; texts made of blocks aligned to the digit groups and chunks of the algorithm; numbers up to 2^11 (radix 10) and 2^10 digit chunks long (radix 3, 7, 36), so that every level of the recursion is entered; 16-bit words: every one-word value and top word", R + "digits produced by the model's repeated division or known by construction; parsed back")
c("C16", X, "232 flag specifications (fill, alignment, sign, alternate, zero) by every width around the text's length, six traits and the radix form in every radix; a writer that fails at every call and every byte", R + "the expected text is padded by the standard library's own pad_integral; after an error nothing more is written")
c("C17", X, "every residue pair of every small modulus; one- and two-word moduli over boundary words, every normalization shift, all residue pairs of the alphabet; longer moduli through the multiplication and division thresholds, to 196 words; conversions of every primitive type and of numbers longer than the modulus; 16-bit words: every one-word modulus", R + "all operators and forms")
c("C18", X, "every residue and modulus below a bound by the definition of coprimality; one- to several-word moduli with residues sharing factors; every exponent of up to 9 bits by repeated multiplication; exponent bit patterns at every position across the window-size thresholds and word boundaries, long exponents; 16-bit words: every residue of several moduli and every modulus", R + "inverse, division, pow, pow_signed")
c("C19", "model_checking", "4 families of 6 rings (equal and different moduli, equal and different lengths) and 3 variables: all operations of an alphabet of about 130 after every assignment of rings, all dependent pairs of operations when two variables share a ring, breadth-first search over model states to a stated number of expanded states, all histories of three moving operations", "histories enumerated; a pair whose second operation touches nothing the first wrote is not repeated (it commutes)",
  technique=HIST, note="Every transition of the model is executed on real rings and elements, and after each history all residues and all cross-variable comparisons are audited; the search over model states stops at a stated cap (counters.model_states_frontier were reached and not expanded).")
c("C20", X, "every range of small size at every position by every generator output pattern of the words consumed; ranges of boundary-word sizes and longer ones by outputs over a boundary alphabet; inclusive and half-open, signed and unsigned, sample_single and the reusable sampler; exact counting of outputs per value with 16-bit words and small ranges", "generator outputs enumerated (a scripted generator replaces the source of randomness)", features=["use_rand"])
c("C21", X, "boundary-word numbers of up to 4 words, small values, neighbours of powers of two, every length to 120 words, both signs; sequences with 0 to 5 redundant zero words, of every length, with and without size hints; two serializers and a recording one; every truncation of binary forms, length fields false by any power of two and its neighbours, 24 malformed texts", R + "the recorded form must be the same sequence of 64-bit words everywhere", features=["use_serde"])
c("C22", X, "each of the twelve types: its bounds, small values and every neighbour of a power of two up to 2^128, against boundary-word numbers of up to 3 words, longer ones, and multiples of the primitive with neighbours; every 8-bit value of both 8-bit types", R + "about 150 forms per pair (both orders where offered, by value and by reference, assigning, division family, bitwise); result types checked by the compiler")
HN = "Every transition of the model is executed on the real code by replaying its history and all variables are compared; states are values plus the storage each variable holds. Trusts the model and the checking allocator; values outside the starting points and constants are reached only through the operations."
c("C23", "model_checking", "two unsigned variables from 49 starting points with the whole alphabet (about 420 operations in all ownership forms): every history of 2 operations; two signed and one unsigned variable from 25 starting points; a smaller alphabet to depth 4; three variables; numbers of up to 40 words", "histories enumerated breadth first, merging equal states (values and storage)",
  technique=HIST, note=HN)
c("C24", X, "17 binary operations on every pair of lengths to 36 words and around every algorithm threshold (balanced and not, to 1770 words), 13 unary ones on 50 lengths in three storage states, powers, results past the size limit (16-bit words), every history of 2 operations from 25 starting points; a subset interpreted by Miri", "operations enumerated and executed under a checking allocator with different poison bytes; outcomes must not depend on it",
  technique="bounded exhaustive enumeration of operations, sizes and histories on the real code under a checking allocator (guard zones, exact layouts, poison, quarantine, leak accounting), and a subset under the Miri interpreter",
  note="Reads outside an allocation are seen only through the poison's influence on results, or by Miri on the subset it executes.", miri="c24m")
c("C25", X, "16-bit words (limit 65536 bits): products of every pair of a size list at every total around the limit and at the exact threshold floor(max/a); sums and differences at max, max+1; shifts and bit updates at every amount around the limit; bitwise results at the limit; powers at and past the largest exponent for each base; text in every radix and bytes at the limit; division, rings and Bezout coefficients of operands at the limit with divisors of 1 to 4096 words and several shifts; queries of, shifts of and exponents made of numbers at the limit. Other word sizes: requests past the limit, and one history at the limit (32-bit words)",
  "operand pairs enumerated around the limit; the model's exact result decides between returning it and the number-too-large panic", threads=8)
c("C26", "model_checking", "34 operation families (including ring elements made small, combined and assigned over one another) on long and short numbers: every long length to 90 words with short, near and fractional second lengths, three contents, three storage states; numbers of thousands of words made small in one step; every history of 2 operations (about 420 operations) from 36 pairs of starting points, signed histories, growing and shrinking histories of up to 5 operations over 16 operations", "operand tuples and histories enumerated; the bytes each result holds are measured by the allocator when it is dropped",
  technique=HIST, note=HN)
c("C27", X, "all pairs of 46 numbers of up to 40 words (54 with those at the 16-bit-word limit) and of all small values, in all forms and signs; neighbours a, a+2^k of every length; twelve primitive types; shifts, bits and powers with amounts to usize::MAX; every radix to 39 and beyond; all pairs of rings from 20 moduli with residues sharing factors, every residue of every small modulus; 3-letter strings over 15 letters in every radix; every history of up to 3 operations (stated cap) over panicking alphabets",
  "for each operation the model decides whether it must panic; it must panic exactly then, borrowed operands must be unchanged, and a variable assigned to must hold a valid number after the panic")
c("C28", X, "operands as fixed bit patterns: all pairs of boundary patterns of 16-, 32- and 64-bit blocks (up to 4, 4 and 3 of them); every bit length to 2600 with three contents; all pairs of lengths on a grid, long pairs to 30000 bits; moduli of every bit length to 300 with exponents to 200 bits; numbers to the limit of 16-bit words (65536 bits) under the operations that stay within it; strings", "the same enumeration in every configuration, outcomes (values, text, errors, whether it panics) folded into digests per operation and first operand, which must agree",
  technique="bounded exhaustive enumeration of operand space executed in five configurations (word sizes 16, 32, 64, with and without CPU-specific code) whose outcomes must agree", digests=True,
  note="Agreement between configurations only: a fault common to all is left to the other properties. Outcomes are folded into 64-bit digests.")
c("C29", X, "trait calls on all values to 300, boundary-word numbers of up to 3 words and structured ones to 60 words, both signs; trait arithmetic on all pairs of about 250 numbers and signs; strings of up to 4 characters over 13 characters in every radix to 40 and beyond; exponents to usize::MAX; 5149 literal forms of the macros: numeric literals of every base next to every power of two boundary, digits after an underscore to 500 bits, every base 2..=36 with digit strings at the ends of the base's alphabet, keywords, invalid digits and bases",
  "each entry point against the inherent operation and the model; literal values computed by an independent generator (tools/lits.py)", features=["use_num"])
c("C30", X, "moduli 1..=20 and boundary words of up to 2 words and structured ones to 33 words, a dozen residues of each (0, 1, m-1, digit boundaries, powers of two), each residue reached along 5 routes (conversion, reduction, negation, product, clone_from); six formatting traits, every flag, fill, alignment and widths around both printed lengths, plain and debug; writers that fail at each of the pieces written; every residue of every modulus to 40",
  "the two numbers padded by the standard library's own integer formatting, put together as documented")
c("C31", "fault_enumeration", "50 operations (arithmetic, in-place forms, printing, parsing, modular rings, powers, conversions) on operands of 0 to 200 words with 2 contents each; every one of their allocations made to fail, alone and together with all later ones, each in a forked process of its own",
  "the standard allocation-error abort naming the size asked for, a panic that leaves the operands as they were and leaks nothing, or the right result; anything else (signals, hangs, wrong results, invalid numbers after a caught failure) is a violation")
c("C32", "model_checking", "27 reading operations on shared numbers and ring elements of up to 72 words (the two threads exchange the operands): every pair, and programs of two operations each, under every schedule with one preemption at any allocator call or writer callback (thorough: two); three threads; every operation of up to 10 shapes followed one processor instruction at a time: memory shared between threads is compared after every instruction, and where an operation writes to it, every preemption at a single instruction by every operation is executed, on first use and after warm-ups; all pairs at once under Miri's data race detector",
  "schedules enumerated depth first; an operation observed to write to no shared memory commutes with every other, so one schedule stands for all (partial-order reduction); else every instruction is a preemption point",
  technique="stateless model checking of the real code's thread schedules: controlled scheduler with bounded preemptions, instruction-level preemption by single-stepping with partial-order reduction, and Miri's race detector",
  note="Bounds: one preemption (two in thorough, some programs), the operand shapes listed; sequentially consistent interleavings except under Miri.", miri="c32m")
if __name__ == "__main__":
    import importlib.util, sys
    extra = os.path.join(ROOT, "tools", "meta2.py")
    if os.path.exists(extra):
        exec(open(extra).read())
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    json.dump({k: v for k, v in sorted(T.items())}, open(os.path.join(ROOT, "checks.json"), "w"), indent=1)
    man = dict(version=1, setup_cmd="python3 check.py --setup", checks=[], not_applicable=[])
    for p in props:
        i = p["id"]
        if i in T:
            man["checks"].append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                technique=T[i]["technique"], level=T[i]["level"], level_note=T[i]["level_note"]))
        else:
            man["not_applicable"].append(dict(property=i, reason="check not built yet"))
    json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)

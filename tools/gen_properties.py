#!/usr/bin/env python3
"""Writes properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": ["sources/" + f for f in files],
                          "state": [{"name": n, "meaning": m, "where": "sources/" + w} for n, m, w in state],
                          "mechanism": [{"name": n, "where": "sources/" + w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})

INT_STATE = [("sign_", "-1, 0 or 1; 0 exactly when there are no digits", "int.hpp"),
             ("chunks_", "little-endian decimal digits of the magnitude, no leading zeros", "int.hpp")]
FR_STATE = [("numerator_/denominator_", "reduced fraction, denominator > 0", "fraction.hpp")]

prop("C01", "Int addition, subtraction and multiplication are exact",
     "For integers of any size and sign, +, -, *, unary + and -, abs, and pre-increment/decrement give exactly the mathematical result. The binary and the compound-assignment form agree, also when both operands are the same object, and the right-hand operand is never changed. The result is an ordinary integer: it prints, compares and computes like any other integer of that value, through any chain of further operations.",
     ["inputs", "histories"], "all integers of any length and sign, all operand pairs including an object with itself, all sequences of operations on results",
     "tests use a dozen literals of at most 20 digits and never an operand aliased with itself; carries, borrows and sign cases over all lengths are unbounded",
     ["int.hpp"], [("operator+=/-=/*=, operator++/--", "int.hpp"), ("trim", "int.hpp"), ("abs_inc/abs_dec", "int.hpp")], INT_STATE, ["operator<<", "operator==", "digits()"])

prop("C02", "Int division and remainder are exact and consistent",
     "For any integer a and any non-zero integer b, a / b is the quotient truncated toward zero, a % b has the sign of a (or is zero) and magnitude below |b|, and a == (a / b) * b + a % b; compound forms agree, also with an object divided by itself. Division or remainder by zero throws std::runtime_error and leaves the left operand unchanged.",
     ["inputs"], "all dividend/divisor pairs of any length and sign",
     "tests divide only values by themselves, by zero and by one; no test has a non-zero remainder of a negative number or operands of different lengths",
     ["int.hpp", "utility.hpp"], [("operator/= , operator%=", "int.hpp"), ("check_zero", "utility.hpp"), ("abs_cmp", "int.hpp")], INT_STATE, ["operator/", "operator%"])

prop("C03", "Int text and machine-integer conversions preserve the value",
     "Every optionally signed non-empty decimal digit string constructs (and reads from a stream, one token at a time) the integer it denotes, every int constructs its value, and printing gives the canonical decimal form (no leading zeros, '-' only for negatives, '0' for zero) that reads back as an equal integer. Any other literal, including an empty one, is rejected with std::runtime_error. digits() (0 for zero), the sign and parity predicates describe the value, and to_integer<T>() returns it exactly whenever T can represent it.",
     ["inputs"], "all literals (well-formed and malformed), all ints, all integers, all target types",
     "tests read five literals and convert +-1024; leading zeros, extreme ints, long numbers and malformed literals other than 'hello' are not covered",
     ["int.hpp"], [("Int(const char*)", "int.hpp"), ("Int(int)", "int.hpp"), ("is_integer", "int.hpp"), ("operator<<, operator>>", "int.hpp"), ("to_integer<T>", "int.hpp")], INT_STATE, ["operator<<", "operator>>"])

prop("C04", "Int comparison and hashing follow the numeric value",
     "The six comparison operators between integers (and with ints and literals converted to integers) agree with the order of the numbers they denote. Two integers of equal value are equal and have equal std::hash values no matter by which computation each was produced.",
     ["inputs", "histories"], "all pairs and triples of integers, however computed",
     "tests compare 0 and +-(2^64+1) only; equality after computation depends on every operation leaving a canonical representation",
     ["int.hpp"], [("operator<=>, operator==", "int.hpp"), ("abs_cmp", "int.hpp"), ("std::hash<Int>", "int.hpp")], INT_STATE, ["operator<=>", "std::hash"])

prop("C05", "Int power, square root, logarithm and factorial are exact",
     "pow(b, e) is b to the e (0 for |b| > 1 and negative e; b = 0 with negative e is rejected), and with a non-zero modulus m, pow(b, e, m) equals pow(b, e) % m. sqrt(n) returns, for every n >= 0, the largest r with r*r <= n; log(n, b) returns, for n > 0 and b >= 2, the largest k with b^k <= n; n.factorial() is the product 1*2*...*n. Negative square roots and factorials and logarithms outside that domain throw std::runtime_error, and every call terminates.",
     ["inputs"], "all bases, exponents, moduli and arguments, in particular neighbours of perfect powers",
     "tests use about 40 fixed values; integer square roots are tested only at 0..5, 9, 10, 16, 100 and 9801, so numbers just below a perfect square are never tried",
     ["int.hpp"], [("pow, sqrt, log", "int.hpp"), ("factorial", "int.hpp")], INT_STATE, ["Int::pow", "Int::sqrt", "Int::log", "factorial"])

prop("C06", "Int primality, next prime, gcd and lcm are correct",
     "is_prime() holds exactly for prime numbers (never for values below 2), and next_prime() is the smallest prime greater than the value. gcd(a, b) is the non-negative greatest common divisor of any two integers, of either sign and including zeros (gcd(0, 0) = 0), and lcm(a, b) their non-negative least common multiple (0 if either is 0), so that gcd * lcm == |a * b|.",
     ["inputs"], "all integers (primality bounded by trial-division cost), all pairs for gcd/lcm",
     "tests check numbers up to 10, the first twenty primes and six positive gcd pairs; no negative arguments, no squares of primes",
     ["int.hpp", "utility.hpp"], [("is_prime, next_prime, lcm", "int.hpp"), ("internal::gcd", "utility.hpp")], INT_STATE, ["is_prime", "next_prime", "gcd", "lcm"])

prop("C07", "Int::random returns a well-formed integer of the requested length",
     "For every d >= 0 and every outcome of the random source, random(d) is a non-negative integer with exactly d decimal digits (0 for d = 0), and random() is one with at most 4300 digits; the value is a normal integer that prints without leading zeros and computes like any other. A digit count below -1 throws std::runtime_error.",
     ["inputs", "histories"], "all digit counts and all outcomes of the random device",
     "the tests draw from the real device, so rare outcomes (a leading zero drawn, an empty draw) may never be seen in a run",
     ["int.hpp"], [("random", "int.hpp")], INT_STATE, ["Int::random"])

prop("C08", "Fraction arithmetic is exact and results are in lowest terms",
     "Whenever the exact result's lowest terms fit the numerator and denominator type, constructing p/q and computing +, -, *, /, %, unary minus, abs, ++ and -- on fractions give exactly the mathematical value, where a % b is a - b * trunc(a / b). The result always has a positive denominator, coprime to the numerator, and zero is 0/1; compound forms agree, also with an object combined with itself. A zero denominator and division or remainder by zero throw std::runtime_error and leave the operand unchanged.",
     ["inputs", "histories"], "all numerator/denominator pairs of the int type and all pairs of fractions whose exact result fits",
     "tests use 0 and +-1/2 only; large numerators and denominators whose intermediate products exceed int are never tried",
     ["fraction.hpp", "utility.hpp"], [("Fraction(numerator, denominator)", "fraction.hpp"), ("operator+,-,*,/,%", "fraction.hpp"), ("check_zero", "utility.hpp")], FR_STATE, ["numerator()", "denominator()"])

prop("C09", "Fraction comparison, equality, hash and double value are consistent",
     "For all representable fractions, <, <=, >, >=, == and != agree with the order of the rational numbers, equality holds exactly when numerator and denominator agree, and equal fractions have equal hashes, however they were built. Conversion to double gives numerator/denominator correctly rounded, and a number of a built-in type equals exactly the fractions with that double value.",
     ["inputs"], "all pairs of representable fractions, including large and nearly equal ones",
     "tests compare 0 and +-1/2; products that overflow int and fractions closer than double precision are not tried",
     ["fraction.hpp"], [("operator<=>, operator==", "fraction.hpp"), ("operator double", "fraction.hpp"), ("std::hash<Fraction>", "fraction.hpp")], FR_STATE, ["operator<=>", "operator=="])

prop("C10", "Fraction gcd and lcm are the greatest common divisor and least common multiple",
     "gcd(a, b) is the largest non-negative fraction of which both a and b are integer multiples and lcm(a, b) the smallest non-negative one that is an integer multiple of both (gcd(0, x) = |x|, lcm with 0 is 0), for either sign and whenever the result fits the numerator and denominator type.",
     ["inputs"], "all pairs of fractions whose gcd/lcm is representable",
     "tests check twelve small pairs; intermediate results that overflow are never reached",
     ["fraction.hpp"], [("gcd, lcm", "fraction.hpp")], FR_STATE, ["Fraction::gcd", "Fraction::lcm"])

prop("C11", "Fraction and Complex stream input reads exactly the well-formed tokens",
     "Reading whitespace-separated tokens from a stream yields, in order, the value each token denotes: [sign]n or [sign]n/[sign]d for fractions, and a real r, an imaginary ij or r+ij / r-ij for complex numbers; printed fractions read back equal, and the next token is left intact. A malformed token is rejected, by std::runtime_error or a failed stream, never silently accepted or skipped, and reading terminates on every input, including an empty or exhausted stream.",
     ["inputs", "histories"], "all token sequences, well-formed, malformed, truncated and empty, with any whitespace between them",
     "tests read two fixed lines and ten malformed tokens; end of input and tokens after a failed read are never exercised",
     ["fraction.hpp", "complex.hpp"], [("Fraction operator>>", "fraction.hpp"), ("Complex operator>>", "complex.hpp")], (), ["operator>>"])

prop("C12", "Complex arithmetic is that of the complex numbers",
     "For finite complex numbers of moderate magnitude, +, -, * and / by a non-zero number agree with complex arithmetic, each part up to the floating-point rounding of the terms it is the sum of, unary minus and conjugate are exact, abs is the modulus and arg the angle in [-pi, pi], and real() and imag() return the components; compound forms agree with binary ones, also with an object combined with itself. Division by zero throws std::runtime_error and leaves the operand unchanged.",
     ["inputs"], "all pairs of finite complex numbers in a range without overflow or underflow",
     "tests use 0 and +-1+2j only",
     ["complex.hpp"], [("operator+,-,*,/", "complex.hpp"), ("abs, arg, conjugate", "complex.hpp")], [("real_/imag_", "components", "complex.hpp")], ["real()", "imag()"])

prop("C13", "Complex power and equality are correct",
     "pow(b, e) is 1 for e = 0, rejects b = 0 with e != 0 by std::runtime_error, and otherwise is the principal value exp(e * log b) up to floating-point rounding. A complex number equals every number with the same components, equality is symmetric, and numbers whose components differ by machine epsilon or more are unequal.",
     ["inputs"], "all bases and exponents in a range without overflow; all pairs of finite numbers",
     "tests check nine fixed powers and a handful of equalities",
     ["complex.hpp"], [("pow", "complex.hpp"), ("operator==", "complex.hpp")], (), ["Complex::pow", "operator=="])

prop("C14", "Str search functions report the real occurrences",
     "find(p, start, stop) is the smallest position at which p occurs entirely within [start, stop) (a stop past the end counts as the end, a start below zero as zero, and an empty p occurs everywhere in range), or -1 if there is none; contains agrees with it. count(p) is the number of non-overlapping occurrences scanned from the left (size + 1 for empty p), and starts_with / ends_with hold exactly for prefixes / suffixes. None of these reads outside the string, whatever the range.",
     ["inputs"], "all strings (any bytes), patterns and ranges",
     "tests try about 30 fixed calls; overlapping patterns, reversed ranges and bytes outside ASCII are hardly covered",
     ["str.hpp"], [("find, contains, count, starts_with, ends_with", "str.hpp")], [("str_", "the characters", "str.hpp")], ["find", "count"])

prop("C15", "Str indexing, slicing and rearranging are exact",
     "s[i] is the i-th character, counting from the end for negative i, and slice(start, stop, step) selects exactly the characters a Python-like walk from start (negative counts from the end) by step, stopping before stop, visits; an index, a slice bound or an erase bound outside the string, and a zero step, throw std::runtime_error. erase(start, stop) removes exactly [start, stop) and never changes anything for a reversed range; >> n and << n rotate by n for every int n; reverse, * n and + give the reversed, repeated and concatenated text, and a negative or too large repeat count throws std::runtime_error.",
     ["inputs"], "all strings (any bytes), indices, bounds, steps, rotation and repeat counts of the int type",
     "tests use strings of 5 to 11 characters with small arguments; extreme counts and steps are never tried",
     ["str.hpp", "utility.hpp"], [("operator[], slice, erase, >>, <<, reverse, *, +", "str.hpp"), ("check_bounds", "utility.hpp")], (), ["operator[]", "slice", "erase", "operator>>", "operator<<", "operator*"])

prop("C16", "Str case conversion and stripping change only what they should",
     "lower() and upper() convert exactly the ASCII letters and leave every other byte as it was. strip() removes exactly the maximal leading and trailing runs of blank and control characters (codes 0 to 32), strip(c) those of c; interior characters and non-ASCII bytes are never touched.",
     ["inputs"], "all strings over all byte values, all strip characters",
     "tests convert only the words HAHAHA/hahaha and strip five ASCII strings",
     ["str.hpp"], [("lower, upper, strip", "str.hpp")], (), ["lower", "upper", "strip"])

prop("C17", "Str split, join and replace are consistent and exact",
     "split(sep, true) returns exactly the pieces between the non-overlapping occurrences of sep from the left, and split(sep) the non-empty ones among them, in order; sep.join(pieces) concatenates pieces with sep between them, so sep.join(s.split(sep, true)) == s. replace(old, new) replaces each non-overlapping occurrence from the left and nothing else (an empty old inserts new before every character and at the end), never rescanning inserted text; an empty separator throws std::runtime_error.",
     ["inputs"], "all strings, separators, patterns and replacements (any bytes)",
     "tests cover about 30 fixed ASCII cases; overlapping separators, replacements containing the pattern and embedded zero bytes are not covered",
     ["str.hpp", "list.hpp"], [("split, join, replace", "str.hpp")], (), ["split", "join", "replace"])

prop("C18", "Str format substitutes arguments in order and nothing else",
     "format(args...) replaces the text from the first remaining '{' to the next '}' by the printed form of the next argument, for each argument in order, copies all other text unchanged, ignores arguments without a placeholder and leaves placeholders without an argument. Braces inside substituted values are never treated as placeholders.",
     ["inputs"], "all format strings and argument lists",
     "tests format three fixed strings whose placeholders match their arguments",
     ["str.hpp"], [("format, format_helper", "str.hpp")], (), ["format"])

prop("C19", "Str to_integer parses every base exactly and rejects the rest",
     "For every base 2 to 36, a string of the form blanks, optional sign, one or more digits of that base in either case, blanks (space, tab, newline, carriage return) converts to exactly the integer it denotes, of any length. Every other string, and every base outside 2..36, throws std::runtime_error.",
     ["inputs"], "all strings and all bases",
     "tests check about 25 strings in bases 2, 10, 16 and 36",
     ["str.hpp", "int.hpp"], [("to_integer state machine", "str.hpp"), ("char_to_integer", "str.hpp")], (), ["to_integer"])

prop("C20", "Str to_decimal parses decimal numbers accurately and rejects the rest",
     "A string of the form blanks, optional sign, decimal digits with an optional point (at least one digit), optional e/E with optionally signed digits, blanks converts to the double nearest its value up to a relative error of 1e-12, whatever the number of digits or the exponent: too large a value gives infinity of its sign, too small a value gives (nearly) zero, never NaN. The spellings inf/infinity and nan (lower, upper or capitalised, optionally signed) give infinity and NaN; every other string that is not of the first form throws std::runtime_error.",
     ["inputs"], "all strings, any digit count and exponent",
     "tests check about 35 short literals; long digit strings and extreme exponents are not tried",
     ["str.hpp"], [("to_decimal state machine", "str.hpp")], (), ["to_decimal"])

prop("C21", "List behaves as a sequence under every history of edits",
     "After any sequence of construction, indexing with positive or negative index, element assignment, insert, remove, erase, append, extend, removal by value, repeat, rotate, reverse and clear, the list holds exactly the elements, in the order, that a plain sequence under the same edits holds, and each edit returns what it removed or the list itself. size, is_empty, indexing, forward and reverse iteration and equality all describe that same sequence.",
     ["histories", "inputs"], "all sequences of operations, element types int, string, Int and structs, any length",
     "tests run one short scripted sequence per operation on lists of at most 20 elements",
     ["list.hpp", "utility.hpp"], [("insert, remove, erase, +=, -=, *=, /=, >>=, <<=, extend", "list.hpp"), ("check_bounds, check_empty", "utility.hpp")], [("vector_", "the elements in order", "list.hpp")], ["operator[]", "begin/end"])

prop("C22", "List queries, comparison, slicing and copying operators are exact",
     "find and count report the first occurrence and the number of occurrences of a value, index and contains do so within [start, stop) (stop past the end counts as the end), and comparison is lexicographic. slice(start, stop, step) selects exactly the elements a Python-like walk visits; a start or stop outside the list, or a zero step, throws std::runtime_error. +, -, * and / return a new list equal to the in-place operation's result and leave their operands unchanged; a negative or too large repeat count throws std::runtime_error.",
     ["inputs"], "all lists, values, ranges, bounds, steps and counts of the int type",
     "tests use lists of five elements with small arguments",
     ["list.hpp", "utility.hpp"], [("find, index, contains, count", "list.hpp"), ("slice, operator+,-,*,/", "list.hpp"), ("operator<=>", "list.hpp")], (), ["index", "slice"])

prop("C23", "List sort is a stable sort and the bulk operations are exact",
     "sort(less) leaves a permutation of the elements, ordered by the comparator, with equivalent elements in their previous relative order; without a comparator it orders by <. uniquify keeps exactly the first occurrence of every distinct value in order, filter keeps exactly the elements satisfying the predicate in order, map applies the action once to every element in order, reverse and rotation by any int n are exact, and removal of all occurrences removes exactly those.",
     ["inputs"], "all lists, of any length and with any duplicates, comparators inducing any strict weak order, all predicates and rotation counts",
     "tests sort ten distinct integers and five persons; stability over long inputs and duplicates cannot be sampled by hand",
     ["list.hpp"], [("sort, uniquify, filter, map, reverse, <<=, >>=, /=", "list.hpp")], (), ["sort", "uniquify", "filter"])

prop("C24", "Deque behaves as a double-ended sequence under every history",
     "After any sequence of pushes and pops at both ends, extensions of both ends (extend_front keeps the order of the range), rotations by any int, reversal, element assignment and clearing, the deque holds exactly the elements, in the order, that a plain sequence under the same operations holds. front, back, positive and negative indexing, size, iteration in both directions, lexicographic comparison and the values returned by pops all describe that same sequence.",
     ["histories", "inputs"], "all sequences of operations, any length, extension by any range including the deque's own",
     "tests run one scripted sequence of about a hundred pushes and small rotations",
     ["deque.hpp", "utility.hpp"], [("push/pop, extend_back/front, >>=, <<=, reverse", "deque.hpp"), ("check_empty, check_bounds", "utility.hpp")], [("deque_", "the elements in order", "deque.hpp")], ["operator[]", "begin/end"])

prop("C25", "Set behaves as a mathematical set under every history",
     "After any sequence of construction (with duplicates), add, remove, pop, extend, clear and in-place &=, |=, -= and ^=, the set contains exactly the distinct elements a mathematical set under the same operations contains. add and remove return whether they changed the set, pop removes and returns a member, contains, find, size, min, max and equality describe that set, and iteration visits each element once in ascending order.",
     ["histories", "inputs"], "all sequences of operations over any element values",
     "tests run one scripted sequence per operation on sets of five integers",
     ["set.hpp", "utility.hpp"], [("add, remove, pop, extend, &=, |=, -=, ^=", "set.hpp"), ("check_empty", "utility.hpp")], [("set_", "the distinct elements in order", "set.hpp")], ["contains", "begin/end"])

prop("C26", "Set algebra and subset comparisons are exact",
     "For any two sets, &, |, - and ^ return exactly the intersection, union, difference and symmetric difference and leave their operands unchanged, also when both operands are the same set; &=, |=, -= and ^= change the left operand to that result. <= and >= are exactly subset and superset, < and > their proper versions, and == equality of contents, so the usual laws of set algebra and of a partial order hold.",
     ["inputs"], "all pairs and triples of sets, of any relative size and overlap",
     "tests use one pair of sets for the algebra and six pairs for the comparisons",
     ["set.hpp"], [("operator&,|,-,^", "set.hpp"), ("operator<,<=,>,>=,==", "set.hpp")], (), ["operator&", "operator<="])

prop("C27", "Dict behaves as a finite map under every history",
     "After any sequence of construction, add, assignment through [], remove, pop, extend and clear, the dictionary maps exactly the keys a finite map under the same operations maps, to the same values; add and extend never overwrite an existing key, and add, remove and pop report what they did. [], get (default for missing keys), contains, find, size, min and max key, equality and iteration in ascending key order describe that map, and keys(), values() and items() are exactly the sets of its keys, values and pairs; reading a missing key through [] throws std::runtime_error and adds nothing.",
     ["histories", "inputs"], "all sequences of operations over any keys and values",
     "tests run one scripted sequence per operation on dictionaries of three entries",
     ["dict.hpp", "set.hpp", "utility.hpp"], [("add, remove, pop, extend, operator[], get", "dict.hpp"), ("keys, values, items", "dict.hpp")], [("map_", "the entries in key order", "dict.hpp")], ["operator[]", "begin/end"])

prop("C28", "Tuple keeps its elements, and equality is by length, type and value",
     "A tuple built from values (directly or by make_tuple) returns each of them by position, has their number as its size, and rest() is the tuple of all but the first. Two tuples are equal exactly when they have the same length and pairwise the same element types and equal values, != is the negation, and printing gives '(a, b, c)', with '(a,)' for one element and '()' for none.",
     ["inputs", "programs"], "all element values for tuple shapes of length 0 to 6 with mixed, repeated and nested types",
     "tests check three tuples and never two tuples of equal shape that differ in one element",
     ["tuple.hpp"], [("get, rest, size, operator==, operator!=", "tuple.hpp"), ("make_tuple, operator<<", "tuple.hpp")], [("value_", "element of this level", "tuple.hpp")], ["get", "operator=="])

prop("C29", "Printing any composition of types follows one format and keeps the stream state",
     "Printing yields [a, b] for lists, {a, b} for sets, {k: v, ...} for dictionaries, <a, b> for deques, (a, b) for tuples, \"text\" for strings, (re+imj) or (re-imj) for complex numbers, p or p/q for fractions and decimal digits for integers, at every nesting depth and length, with elements in iteration order. Printing changes neither the value nor the stream's fill, flags and precision, so what is printed afterwards looks as without it.",
     ["inputs"], "all values of all types and nested compositions",
     "tests print three values per type and one nested dictionary, and never look at the stream afterwards",
     ["utility.hpp", "list.hpp", "set.hpp", "dict.hpp", "deque.hpp", "tuple.hpp", "str.hpp", "int.hpp", "fraction.hpp", "complex.hpp"],
     [("internal::print", "utility.hpp"), ("operator<< of every type", "utility.hpp")], (), ["operator<<"])

prop("C30", "Values are independent: copies, moves and self-arguments behave",
     "A copy equals its source, and changing either never changes the other; a move transfers the value and leaves the source a usable value that is empty (zero for numbers). Passing an object, one of its own elements or its own range as the argument of its own operation has the effect of passing an equal independent copy, const operations never change their operands, and the result of an operation that produces a value is a value of its own, unaffected by later changes of its operands.",
     ["histories", "inputs"], "all types, all values, all operations that take a value of the same or of the element type",
     "tests copy and move one value per type; aliased arguments appear only in two list/deque calls on tiny containers",
     ["list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "int.hpp", "str.hpp", "fraction.hpp", "complex.hpp"],
     [("copy/move constructors and assignments", "int.hpp"), ("in-place operators taking const T& or own type", "list.hpp")], (), ["operator=", "in-place operators"])

prop("C31", "Invalid calls are rejected and change nothing",
     "An out-of-range index or bound, access to or removal from an empty container, a missing key, an empty separator, a zero divisor, step or denominator, a negative or too large repeat count, an argument outside a numeric function's domain and a malformed literal throw std::runtime_error. After such a rejection the object is exactly as before and remains fully usable.",
     ["histories", "inputs", "fault_sequences"], "all types, all invalid arguments at any point of a history",
     "tests provoke each error once, with one argument, and never look at the object afterwards",
     ["utility.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "str.hpp", "int.hpp", "fraction.hpp", "complex.hpp"],
     [("check_bounds, check_empty, check_full, check_zero", "utility.hpp")], (), ["std::runtime_error"])

prop("C32", "Immutable types work as keys: equal values hash equal and are found",
     "Int, Str, Fraction and Complex values used as keys of hashed and ordered standard containers behave as a set of their values: a value is found exactly if an equal one was inserted, however each was computed. Equal values always have equal hashes, and hashing does not change them.",
     ["histories", "inputs"], "all histories of insertions, erasures and lookups of values computed in different ways",
     "tests only construct such containers; nothing is ever looked up",
     ["int.hpp", "str.hpp", "fraction.hpp", "complex.hpp"], [("std::hash specialisations", "int.hpp"), ("operator==, operator<=>", "int.hpp")], (), ["std::hash", "operator=="])

prop("C33", "No sequence of calls corrupts memory or runs into undefined behaviour",
     "Any program of calls on any objects of the library, with any arguments the parameter types allow (including out-of-range indices, extreme counts, empty containers, arbitrary bytes), either completes or throws a standard exception. It never reads or writes outside its objects, never overflows a signed integer except where a fraction's exact result does not fit its type, and always terminates.",
     ["programs", "inputs", "histories"], "all programs over the public interface",
     "tests run without sanitizers, on in-range arguments apart from one rejected call per check",
     ["int.hpp", "str.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "fraction.hpp", "complex.hpp", "tuple.hpp", "utility.hpp"],
     [("bounds checks", "utility.hpp"), ("index arithmetic in every operation", "list.hpp")], (), ["AddressSanitizer, UndefinedBehaviorSanitizer"])

prop("C34", "Results depend only on the values involved, also across threads",
     "Every deterministic operation gives the same result for the same operand values whenever it is called, whatever calls on other objects came before and whatever the global locale and errno are. Threads that only read shared objects, or work on distinct ones, never race or influence each other's results.",
     ["schedules", "histories"], "all interleavings of const operations on shared objects and of any operations on distinct objects",
     "tests are single-threaded and evaluate every expression once",
     ["int.hpp", "str.hpp", "list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "fraction.hpp", "complex.hpp"],
     [("no hidden mutable or static state in const operations", "str.hpp")], (), ["ThreadSanitizer", "results"])

prop("C35", "Str keeps exactly the characters it is given",
     "A Str constructed from a std::string holds all its characters including zero bytes, one constructed from a C string those before its terminator, each its own copy. Size, is_empty, data (with a terminator), indexing, iteration in both directions and printing give these characters; copies, moves and assignments in any order carry them, and a moved-from Str takes a new value. Comparison is that of std::string, byte by byte, equal texts hash equal, and reading a Str from a stream takes one line and leaves the rest of the input, the state of the stream and the value exactly as std::getline does.",
     ["inputs", "histories"], "all byte strings, histories of assignments between several variables, all inputs of any number of lines with or without a final newline",
     "tests use a few printable ASCII texts and read one line; bytes above 127, zero bytes, long texts and the end of the input never occur",
     ["str.hpp"], [("constructors, assignments", "str.hpp"), ("operator<=>", "str.hpp"), ("operator>>, operator<<", "str.hpp")], [("str_", "the characters; const, but replaced through const_cast by assignments", "str.hpp")], ["begin/end", "data", "operator<=>", "operator>>"])

prop("C36", "Element lifetimes balance, and faults in the middle of a call are survived",
     "Every element a container holds is constructed and destroyed exactly once: after each call the elements alive are exactly those in the containers, and destroying objects releases all they acquired. If copying or comparing an element throws, or a memory allocation fails, in the middle of any call, the exception reaches the caller, nothing is leaked or used outside its lifetime, every object except the one being modified keeps its value, and the one being modified stays valid: size and iteration agree, Sets and Dicts are sorted without duplicates, and it can be cleared, assigned and destroyed.",
     ["fault_sequences", "histories"], "all histories of calls with a fault at any copy, comparison or allocation",
     "tests use int elements and no call ever fails half way",
     ["list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "str.hpp", "int.hpp"], [("temporary buffers of uniquify, slice, operator*", "list.hpp"), ("new_set of the set operators", "set.hpp"), ("copies before modifications", "list.hpp")], (), ["count of live elements", "count of live allocations", "iteration"])

prop("C37", "Printed text reads back as the same value, across types and streams",
     "An Int, a Fraction, a Complex (whose parts need no more digits than are printed), or a line of a Str printed to a stream is read back as an equal value, also when values of all these types and built-in ones follow each other on one stream, separated by any white space: each read consumes exactly its own token. Str::to_integer, Str::to_decimal, Int(const char*), format, join and split agree with printing: the text of an integer converts back to it in every base, the printed elements of a container are its text split at the separators, and a Dict is recovered from its printed entries.",
     ["inputs", "histories"], "all values of the printable types in all mixtures on one stream",
     "tests check printing and reading of fixed values separately, each on a stream of its own",
     ["int.hpp", "fraction.hpp", "complex.hpp", "str.hpp", "list.hpp", "dict.hpp", "utility.hpp"], [("operator>>, operator<<", "fraction.hpp"), ("internal::print", "utility.hpp"), ("to_integer, split, join, format", "str.hpp")], (), ["operator<<", "operator>>"])

prop("C38", "The guarantees hold for large values",
     "Lists, Deques and Strs of hundreds of thousands of elements, Sets and Dicts of tens of thousands, and Ints of thousands of digits follow the same laws as small ones: construction, edits, rotation, slicing, sorting, search, counting, replacement, splitting and joining, set algebra, arithmetic, comparison, hashing and printing give the exact results. A List may hold up to INT_MAX elements; up to there every edit, index and slice works, and appending or inserting an element, appending a List or repeating beyond that throws std::runtime_error and changes nothing.",
     ["inputs", "histories"], "all values up to the sizes memory and the int type allow",
     "the largest value in the tests has a few dozen elements; effects of narrow counters, buffers and thresholds start far above",
     ["list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "str.hpp", "int.hpp"], [("int sizes and indices", "list.hpp"), ("digit loops", "int.hpp")], (), ["all results"])

prop("C39", "Results do not depend on how the program was compiled",
     "The same sequence of calls with the same arguments gives the same values, texts, orders and exceptions (hash values and random numbers aside) in every build of the program: by g++ or clang++, with or without optimization, with signed or unsigned plain char, with or without NDEBUG, in C++20 or C++23, and whatever uninitialised memory holds. In particular nothing depends on the order in which a compiler evaluates the arguments of a call, on the signedness of char, or on side effects inside assertions.",
     ["inputs", "histories"], "all sequences of calls, in builds by two compilers with four sets of options",
     "the tests are run in one build (g++, without optimization, signed char, assertions on), and so cannot show a difference between builds",
     ["int.hpp", "str.hpp", "utility.hpp", "list.hpp", "set.hpp", "dict.hpp", "deque.hpp", "fraction.hpp", "complex.hpp", "tuple.hpp"], [("sign_ (signed char)", "int.hpp"), ("strip, case conversion, comparison of characters", "str.hpp"), ("internal::print", "utility.hpp")], (), ["all results"])

prop("C40", "The work of a call grows only as its task requires",
     "The number of elements that a call copies, moves or compares stays within a fixed multiple of what the task needs, whatever the size: a constant for moving a container, for indexing, and for pushing, popping and looking at either end of a Deque; a logarithm of the size in comparisons, and a constant number of copies, for looking up, adding, removing or popping one element of a Set or Dict, including min and max; the size for whole-container calls (copying, comparing, searching, inserting, removing, reversing, rotating, mapping, filtering, slicing, printing), counted together for any number of elements appended to a List one after another; the size times its logarithm for sorting, set algebra and building Sets, Dicts, keys, values and items. Iteration copies nothing. Str calls ask for memory in proportion to the texts and results involved, and so do Int's addition, subtraction, comparison, copying, printing and parsing.",
     ["inputs", "histories"], "all sizes of containers, texts and integers, all histories",
     "tests check results of containers with a few elements, for which the work of any order of growth is the same",
     ["list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "str.hpp", "int.hpp", "utility.hpp"], [("operator+=, extend, insert", "list.hpp"), ("push/pop", "deque.hpp"), ("find/add/remove", "set.hpp"), ("find/get/operator[]", "dict.hpp"), ("replace, split, join, format, slice", "str.hpp")], (), ["counters in the element type", "bytes requested from operator new"])

prop("C41", "Plain C++ values stand for the objects made from them",
     "Wherever an Int, Fraction, Complex, Str or container is expected and a plain value converts to it - an int, short, char or bool or a text of digits for Int, an int for Fraction, an int or double for Complex, a literal or std::string for Str, a std::vector, std::set, std::map or std::deque for a container - passing the plain value gives the same result as passing the object made from it: in operators and assignments, in comparisons with the plain value on either side, in named functions, and as element or key of a container; invalid plain operands (zero divisors, empty separators) are rejected in the same way.",
     ["inputs"], "all objects and all plain values that convert to their type",
     "tests mix few values, while a shortcut for plain operands goes wrong for particular ones (integers that agree in 32 bits, texts with null characters, prefixes)",
     ["int.hpp", "fraction.hpp", "complex.hpp", "str.hpp", "list.hpp", "set.hpp", "dict.hpp", "deque.hpp"], [("Int(int), Int(const char*)", "int.hpp"), ("Fraction(long long, long long), operator==(number)", "fraction.hpp"), ("Complex(double, double)", "complex.hpp"), ("Str(const char*), Str(const std::string&)", "str.hpp"), ("List(const std::vector<T>&)", "list.hpp"), ("Set(const std::set<T>&)", "set.hpp")], (), ["all results"])

prop("C42", "The headers work in any combination, order and number of source files",
     "A program may include any of the headers, in any order and repetition, before and after standard headers, in any number of its source files: it compiles and links, and the included types compute the same results as with everything included in one file. Apart from include guards, namespace pyincpp and specialisations of std::hash the headers take no names: every other name, also one spelled like a name inside the library or the standard library, is free for the program's own declarations.",
     ["programs"], "all selections, orders and repetitions of headers, all partitions of a program into source files, all names of its own",
     "the test suite includes each header in one way; a macro, a using-directive or a definition that depends on an earlier header shows only in other programs",
     ["pyincpp.hpp", "utility.hpp", "int.hpp", "str.hpp", "list.hpp", "set.hpp", "dict.hpp", "deque.hpp", "tuple.hpp", "fraction.hpp", "complex.hpp"], [("include guards and includes", "pyincpp.hpp"), ("namespace pyincpp::internal", "utility.hpp")], (), ["compiler and linker verdicts", "output of the program"])

prop("C43", "Containers treat their elements as values of any type",
     "What List, Deque, Set, Dict and Tuple do depends only on the equality, the order and the printed form that the element type itself defines: for any element, key or value type with those operations - machine integers of every width and sign at their extremes, char and bool, floating point numbers with infinities and subnormals, enumerations, pointers, aggregates, padded or large types, types that know their own address, types whose equality ignores part of their bytes or whose order is reversed, nested containers - every sequence of calls gives the same result as for small integers, with every integer replaced by the element it stands for. Containers are built and extended from any input range - pointers, list, reverse, move and single-pass iterators - and values of another type in the range are converted, not reinterpreted.",
     ["inputs", "histories"], "all element types with equality, order and printing, all histories, all input ranges",
     "tests use int, a few double and text elements; a shortcut for one kind of type (one byte, trivially copyable, integral, contiguous) is right for those and wrong for others",
     ["list.hpp", "deque.hpp", "set.hpp", "dict.hpp", "tuple.hpp", "utility.hpp"], [("index, count, uniquify, sort, operator*, constructors from ranges", "list.hpp"), ("rotation, reverse, extend_front, extend_back", "deque.hpp"), ("set algebra and comparison", "set.hpp"), ("keys, values, items, operator==", "dict.hpp"), ("operator==, get", "tuple.hpp"), ("internal::print", "utility.hpp")], (), ["all results"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")

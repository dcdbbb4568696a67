#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
B, L, N, U, A, S, C = ("include/logic/big_num.hh", "include/logic/bit.hh"), "include/logic/logic.hh", "include/logic/big_num.hh", "include/logic/util.hh", "include/logic/array.hh", "include/logic/struct.hh", "src/util.cc"
BIT = "include/logic/bit.hh"
P = []
def p(id, title, statement, over, q, why, files, mech, obs):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=obs, hook_needed=None)))
IN = ["inputs", "configurations"]

p("C01", "Bitwise operators follow the IEEE 1800 truth tables in every bit lane",
  "For operands of equal or different width, bitwise and, or, xor and not give in every bit position exactly the value of the SystemVerilog four-state truth table for the two operand bits (z behaves as x, and an unknown result is x, never z), after each operand is extended to the wider width. On two-state operands they are the ordinary Boolean operations, and compound assignments store the same result truncated to the target.",
  IN, "every operand value including every mixture of 0/1/x/z, for every width and signedness combination, inline and multi-word storage",
  "4^(2N) operand pairs per width; tests use a handful of literals, mostly without z and never mixing x/z with both 0 and 1 in multi-word operands.",
  [L, BIT, N], [("per-lane and/or/xor/not mask algebra", "include/logic/logic.hh operator& operator| operator^ operator~"), ("word loops", "include/logic/big_num.hh operator& | ^ ~"), ("native operators", "include/logic/bit.hh")],
  ["value and unknown mask of the result of & | ^ ~ &= |= ^="])
p("C02", "Reduction operators and logical negation agree with folding the vector's bits",
  "Reduction and/or/xor, population count, the any-bit-set and all-bits-set queries and logical not return what folding the corresponding truth table over all bits of the vector returns, with x and z treated as unknown and dominating 0 (and) or 1 (or) winning over unknown bits. The answer depends on every bit and on nothing but the vector's bits.",
  IN, "every vector value including x/z bits, every width and signedness",
  "needs every bit position at every width to matter; tests probe a few literals in small vectors.",
  [L, BIT, N], [("r_and/r_or/r_xor/popcount/any_set/all_set", "include/logic/{logic,bit,big_num}.hh")], ["return value of the reductions"])
p("C03", "Any x/z operand bit makes every arithmetic result entirely x",
  "If any bit of any operand of addition, subtraction, multiplication, division or remainder is x or z, or a divisor is zero, then every bit of the four-state result is x; if no operand bit is unknown and no divisor is zero, no result bit is unknown.",
  IN, "every operand value and every position and number of x/z bits, all widths and signedness combinations",
  "the unknown bit may be in any of the N positions of either operand; tests try one.",
  [L], [("any_set guards before + - * / %", "include/logic/logic.hh operator+ - * / %")], ["unknown mask of the arithmetic result"])
p("C04", "Addition, subtraction, negation and increment are exact modulo 2^N",
  "With fully known operands, sums, differences, unary minus, and pre/post increment and decrement equal the mathematical result modulo 2^N, where N is the wider operand width after each operand is extended according to its own signedness. Carries propagate across every bit and word boundary.",
  IN, "every operand value pair, all widths 1..several hundred, all signedness combinations",
  "carry chains depend on 2^(2N) operand pairs; tests pick a few sums.",
  [L, BIT, N], [("128-bit carry loop, two's complement negate", "include/logic/big_num.hh operator+ operator- negate"), ("native arithmetic", "include/logic/bit.hh")], ["value of a+b, a-b, -a, ++a, a++, --a, a--"])
p("C05", "Multiplication is exact modulo 2^N",
  "With fully known operands the product equals the mathematical product modulo 2^N, where N is the wider operand width after each operand is extended according to its own signedness, for single-word and multi-word operands alike.",
  IN, "every operand value pair, all widths, all signedness combinations",
  "word-by-word partial products depend on 2^(2N) operand pairs; tests pick a few products.",
  [L, BIT, N], [("school-book multiply with single-word shortcut", "include/logic/big_num.hh operator*")], ["value of a*b"])
p("C06", "Division and remainder of single-word operands truncate toward zero",
  "For fully known operands of at most 64 bits and a nonzero divisor, the quotient truncates toward zero and the remainder takes the sign of the dividend, signed only if both operands are signed. For wider operands the single-word shortcuts (dividing by one, equal operands, dividend smaller than divisor) obey the same rule.",
  IN, "every operand value pair with nonzero divisor, all widths up to 64 and the shortcut cases above",
  "2^(2N) operand pairs; tests pick a few quotients.",
  [L, BIT, N], [("native / and %", "include/logic/bit.hh operator/ operator%"), ("div_mod shortcuts", "include/logic/big_num.hh div_mod_unsigned")], ["value of a/b and a%b"])
p("C07", "Equality operators compare every bit and return x when unknown bits are involved",
  "Logical equality and inequality of known operands are decided on all bits of both operands after extending the narrower one, whatever the order of the operands and even when they differ only in one bit of one word. If any operand bit is x or z, the four-state result is x.",
  IN, "every operand pair, including pairs differing in a single arbitrary bit; all width combinations and signedness",
  "operand pairs that differ in exactly one of hundreds of positions are never enumerated by tests.",
  [L, BIT, N], [("operator== / operator!=", "include/logic/{logic,bit,big_num}.hh")], ["result of == and !="])
p("C08", "Relational operators realise the numeric order, signed only if both are signed",
  "Less-than, greater-than and their or-equal forms on known operands give the order of the operands' numeric values; the comparison is signed exactly when both operands are signed, and the narrower operand is extended first. If any operand bit is x or z, the four-state result is x.",
  IN, "every operand pair, all width combinations and signedness",
  "the deciding bit can be in any of N positions of any word and the sign bits interact; tests use a few constants.",
  [L, BIT, N], [("operator< > <= >=", "include/logic/{logic,bit,big_num}.hh")], ["result of < > <= >="])
p("C09", "Case equality compares 0, 1, x and z literally",
  "Case equality is true exactly when both operands have the same 0/1/x/z value in every bit position of the wider operand, never returns an unknown value, and distinguishes x from z.",
  IN, "every pair of four-state vectors, all widths, both operand kinds",
  "4^(2N) operand pairs; a single differing state in one bit must flip the result.",
  [L, BIT], [("match", "include/logic/logic.hh match"), ("match", "include/logic/bit.hh match")], ["result of case equality"])
p("C10", "Logical shifts move every bit by exactly the amount and fill with zeros",
  "A logical left or right shift by any known amount moves each bit of a known vector by exactly that many positions, fills vacated positions with 0, and yields all zeros once the amount reaches the width. An unknown bit in the amount or in the vector makes the whole result x.",
  IN, "every vector value and every amount from 0 to beyond the width (including amounts wider than a word), all widths",
  "N+1 amounts times 4^N values per width; tests shift by a few constants.",
  [L, BIT, N], [("operator>> / operator<<", "include/logic/{logic,bit,big_num}.hh")], ["value and unknown mask of << and >>"])
p("C11", "Arithmetic right shift replicates the sign bit",
  "An arithmetic right shift of a signed vector fills the vacated positions with the operand's top bit and keeps every surviving bit, for every amount including 0 and amounts at or beyond the width; on an unsigned vector, and for arithmetic left shift, it equals the logical shift. An unknown bit in the amount or in the vector makes the whole result x.",
  IN, "every vector value and amount, all widths and signedness",
  "N+1 amounts times 4^N values per width; the tests fix one 420-bit example.",
  [L, BIT, N], [("ashr/ashl", "include/logic/{logic,bit,big_num}.hh")], ["value and unknown mask of arithmetic shifts"])
p("C12", "Stored vectors never carry stray bits outside their declared width",
  "After any operation, constructor or conversion, the storage bits of a result beyond its declared width are in canonical form: zero for unsigned, multi-word and mask storage, copies of the top bit for signed single-word storage. Two vectors with the same bits therefore have identical representations and compare equal.",
  ["inputs", "configurations", "histories"], "every operation on every operand value, all widths that do not fill their storage, both signednesses",
  "stray bits are invisible at the widths tests use (8/16/32/64) and only surface in a later comparison, reduction or print.",
  [BIT, N, L], [("mask_off", "include/logic/{bit,big_num}.hh mask_off"), ("operators returning fresh results", "include/logic/bit.hh")], ["the storage words of every result"])
p("C13", "Result width and signedness of every operator follow IEEE 1800 typing",
  "The type of an operator's result is fixed by its operand types: the wider width for binary arithmetic and bitwise operators, the left width for shifts, one bit for comparisons and reductions, signed only if both operands are signed, unsigned for concatenations, part-selects and inversions of unsigned operands; a result is four-state if an operand is.",
  ["programs", "configurations"], "every operator and every combination of operand widths, signedness and state kinds in the analysed grid",
  "types are per instantiation; tests instantiate few combinations and rarely assert on the type.",
  [BIT, L, U], [("return types", "include/logic/{bit,logic}.hh"), ("signed_result", "include/logic/util.hh")], ["static type of each operator expression"])
p("C14", "Width and sign conversion preserves values",
  "Widening a vector copies its bits and fills the new ones with 0 when unsigned and with copies of the top bit when signed, across word boundaries; reinterpreting as signed or unsigned keeps every bit and its unknown state. Assigning between different widths truncates or extends by the same rule.",
  IN, "every vector value, every source/target width pair in the grid, both signednesses",
  "fill depends on the top bit and on the word boundaries of both widths; tests convert a few literals.",
  [BIT, L, N], [("extend, to_signed, to_unsigned, operator=", "include/logic/{bit,logic,big_num}.hh")], ["bits of the converted vector"])
p("C15", "Bit-select reads exactly the addressed bit and reads x out of range",
  "Reading bit i of a vector, with a constant or a run-time index, returns that bit's 0/1/x/z state and nothing else for every in-range i, counted by numeric value (so a negative signed index is a negative position); an out-of-range index of a four-state vector reads x.",
  IN, "every vector value, every index inside and outside the range, all widths, descending, ascending and offset declared ranges",
  "N indices times 4^N values; tests read a few indices of a few literals.",
  [BIT, L, N], [("operator[] / get", "include/logic/{bit,logic,big_num}.hh")], ["value of v[i]"])
p("C16", "Part-select reads exactly the addressed range",
  "Reading a range, with constant bounds, run-time bounds or an indexed base with ascending or descending width, returns an unsigned vector whose bit k is bit low+k of the source with its unknown state, for every in-range position including ranges that straddle word boundaries.",
  IN, "every vector value and in-range bounds, all widths",
  "N^2/2 ranges times 4^N values; tests read a few ranges.",
  [BIT, L, N], [("slice", "include/logic/{bit,logic,big_num}.hh")], ["value of v[hi:lo], v[b +: w], v[b -: w]"])
p("C17", "Writing a bit or range changes exactly the addressed bits",
  "Assigning a bit or a range, with constant or run-time bounds, stores the source's bits and their unknown state at the addressed positions and leaves every other bit of the target, value and unknown state, unchanged. Writing a known value clears the unknown state of exactly the written bits.",
  IN, "every old value, new value and in-range position, all widths",
  "the frame condition ranges over every untouched bit of every value; tests check a few results.",
  [BIT, L, N], [("set / update / slice_ref", "include/logic/{bit,logic,big_num}.hh")], ["all bits of the vector after the write"])
p("C18", "Concatenation and unpacking are inverse and lose no bit",
  "Concatenating vectors places the first operand in the most significant position with every bit and its unknown state preserved, whatever the total width; unpacking a vector into parts assigns consecutive ranges so that concatenating the parts again restores the original.",
  IN, "every operand value, all width combinations including totals crossing 8/16/32/64-bit storage boundaries and multi-word totals",
  "bit placement depends on the widths relative to storage boundaries; tests cover few width tuples.",
  [BIT, L, N], [("concat / unpack", "include/logic/{bit,logic,big_num}.hh")], ["bits of the concatenation and of each unpacked part"])
p("C19", "Two-state/four-state conversion and default values are faithful",
  "A default-constructed four-state vector is all x and a two-state one all 0; converting two-state to four-state keeps every bit and makes none unknown; assigning a native number or a vector stores its low bits, with no unknown bits left behind.",
  IN, "every value, all widths and signedness",
  "must hold for every value at every width and after any previous unknown contents; tests use a few.",
  [BIT, L], [("constructors and operator=", "include/logic/{bit,logic}.hh")], ["bits and unknown mask of the converted vector"])
p("C20", "Conversion to native numbers and truth values is exact",
  "Converting a known vector of at most 64 bits to a native number yields its numeric value, sign included, and yields 0 when any bit is unknown; the low 64 bits are returned for wider vectors. A vector is true exactly when it has no unknown bit and some bit is 1.",
  IN, "every vector value, all widths and signedness",
  "depends on every bit including the sign and all unknown positions.",
  [BIT, L, N], [("to_num / to_uint64 / operator bool / operator!", "include/logic/{bit,logic,big_num}.hh")], ["returned number or truth value"])
p("C21", "Binary, octal and hexadecimal literals place every digit in its lane",
  "Constructing a vector from a sized literal in base b, o or h stores each digit in its own bit lane, least significant digit last, in either letter case, with x/X and z/Z digits filling their whole lane with that state; underscores are ignored, missing digits read as 0, and digits or digit parts beyond the width are dropped.",
  IN, "every literal text up to and beyond the vector's width, all widths, single-word and multi-word",
  "the literal text is unbounded and each digit has 16+ alternatives; tests parse a few literals.",
  [C, BIT, L], [("parse_raw_str / parse_xz_raw_str", "src/util.cc")], ["bits of the constructed vector"])
p("C22", "Decimal literals denote their exact value modulo the width",
  "Constructing a vector from a decimal literal stores the denoted number modulo 2^N, for values that span several storage words as well, ignoring underscores.",
  IN, "every decimal digit string, all widths",
  "each digit affects bits in every higher word; tests parse a few decimals.",
  [C], [("decimal parsing", "src/util.cc")], ["bits of the constructed vector"])
p("C23", "Binary, octal and hexadecimal rendering shows every bit once, in order",
  "Rendering in base 2, 8 or 16 prints the digits of the whole vector most significant first, without losing, repeating or reordering any bit at word boundaries; a digit whose bits are all x (or all z) prints as x (z) and a partially unknown digit prints as X or Z, with z winning only if no x is present.",
  IN, "every value and unknown mask, every width, for two-state and four-state vectors",
  "each printed digit depends on up to 4 bits plus masks at every word boundary; tests print a few values.",
  [C, BIT, L], [("to_string", "src/util.cc")], ["the returned text"])
p("C24", "Field width, padding and string formats render predictably",
  "A format without a width prints the natural number of digits of the vector's type; a width of 0 strips leading zeros (leading blanks in decimal), a larger width pads on the left (zeros in base 2, 8 and 16, blanks in decimal and for strings) and a smaller nonzero width never truncates. The string format prints the vector's bytes as characters, most significant first.",
  IN, "every value, every vector width and every legal format string",
  "combinations of widths, formats and values are unbounded; tests sample a few.",
  [C, BIT, L], [("parse_fmt / pad", "src/util.cc")], ["the returned text"])
p("C25", "Packed array element access touches exactly the addressed element",
  "Reading element i of a packed array returns the element's bits with their unknown state and writing it changes exactly those bits; an unknown or out-of-range index reads as all x for four-state (all 0 for two-state) elements and writes nothing.",
  IN, "every array content and every index value inside and outside the range (descending, ascending or offset), known or unknown, all element widths and counts in the grid",
  "index times content space is unbounded; tests access a few elements.",
  [A, L, BIT], [("packed_array operator[] / update / slice_array", "include/logic/array.hh")], ["value of a[i] and of the array after a[i] = v"])
p("C26", "Unpacked array element access is isolated and safe out of range",
  "Reading an unpacked array element returns exactly that element, reading out of range returns the default (unknown) element, and writing changes only the addressed element; out-of-range writes change nothing.",
  IN, "every content and index, descending, ascending and offset ranges",
  "index range and contents are unbounded; tests access a few in-range elements.",
  [A], [("unpacked_array", "include/logic/array.hh")], ["value of a[i] and of the array after a write"])
p("C27", "Packed layouts are contiguous and compact",
  "A vector stores exactly one value bit (plus one unknown bit when four-state) per declared bit in the smallest standard storage that fits, is trivially copyable, and a packed struct, union or packed array of given total width has exactly the layout of a plain vector of that width, so members alias the documented bit ranges.",
  ["programs", "configurations"], "every width, signedness, element type and count in the grid",
  "the layout is per instantiation; tests check a handful of sizes.",
  [U, BIT, L, S, "include/logic/union.hh", A], [("get_holder_type", "include/logic/util.hh"), ("packed_struct / union_ / get_array_type", "include/logic/{struct,union,array}.hh")], ["sizeof, alignment, triviality and base types"])
p("C28", "Value operations never throw, allocate or block",
  "No operator, conversion to a number, select, update, concatenation or reduction on vectors and arrays can throw an exception, allocate memory, perform input/output or call into the operating system, whatever the operand values; only text parsing and rendering may allocate.",
  ["inputs", "programs"], "every call path from every value operation, all instantiations in the grid",
  "absence of a behaviour on every path cannot be sampled.",
  [BIT, L, N, A], [("plain arithmetic on fixed-size storage", "include/logic/*.hh")], ["the call graph below each operation"])
p("C29", "No hidden shared state: results depend only on operands",
  "Operations read and write only their operands and results: the library keeps no mutable global, static or thread-local state, and operations on constant operands never modify them, so vectors may be used concurrently from several threads without synchronisation.",
  ["schedules", "histories", "programs"], "every operation, every interleaving and call history",
  "interleavings and call histories are not enumerable, and tests are single-threaded.",
  [BIT, L, N, A, C], [("const member functions, no globals", "include/logic/*.hh src/util.cc")], ["stores reachable from each operation; global variables of the library"])
p("C30", "No operation leaves its operands' storage or executes undefined behaviour",
  "For every operand value, each operation accesses only storage that belongs to its operands and result, reads no uninitialised storage, and executes no oversized shift, division by zero (two-state division excepted), or other undefined arithmetic.",
  IN, "every operand value, shift amount and in-contract index, all widths and signedness in the grid, plus text parsing and rendering",
  "undefined behaviour often yields the expected value at test widths and in the tested build.",
  [BIT, L, N, C, A], [("bounds and shift guards", "include/logic/*.hh src/util.cc")], ["every memory access and shift on every path"])
p("C31", "Mixed two-state and four-state operands behave as if promoted to four-state",
  "An operation between a four-state and a two-state vector, in widths and signedness of any combination that it accepts, gives the same result as converting the two-state operand to four-state first; comparisons, bitwise and arithmetic operators included. Where a comparison with a two-state left operand returns a plain truth value, that value is true exactly when the four-state comparison would be a known 1.",
  IN, "every operand value pair, all widths and signedness accepted",
  "the promotion path is separate code per operator; tests exercise few.",
  [L], [("overloads taking a two-state operand", "include/logic/logic.hh")], ["result of mixed operations"])
p("C32", "Rendering decimal values of any width is exact",
  "Rendering in decimal prints the exact numeric value with a minus sign for negative signed vectors, for values of any number of storage words.",
  IN, "every value, all widths and signedness", "2^N values; tests print a few.",
  [C], [("decimal to_string", "src/util.cc")], ["the returned text"])
p("C33", "Multi-word division is exact",
  "For operands wider than 64 bits with a nonzero divisor, quotient and remainder satisfy dividend = quotient*divisor + remainder with the remainder smaller in magnitude than the divisor.",
  IN, "every operand pair with at least one operand wider than 64 bits; the check covers the families of operands described in DESIGN.md (constant backgrounds with free windows), not all of them", "2^(2N) operand pairs; tests divide a few constants.",
  [N], [("div_mod", "include/logic/big_num.hh div_mod_unsigned")], ["value of a/b and a%b"])
p("C34", "Exponentiation is exact modulo 2^N",
  "Raising a known vector to a known unsigned power equals repeated multiplication modulo 2^N.",
  IN, "every base and exponent", "2^(2N) operand pairs; there is no test.",
  [N, BIT], [("power", "include/logic/big_num.hh power")], ["value of a**b"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")

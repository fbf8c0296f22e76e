import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
AR="src/apint/arithmetic.rs"
p("C01","Addition, subtraction, multiplication and negation are exact modulo 2^w",
 "For two integers of the same bit width w, sum, difference and product are the mathematical results modulo 2^w; negation, increment, decrement and absolute value (two's complement) are exact modulo 2^w for a single integer of any width. The other operand is never changed, and the width of the result is w.",
 ["inputs","configurations"],"for every width w >= 1, all operand values and every form in which the operation is offered",
 "carry and borrow chains across storage digits, excess bits of the top digit and the many shortcuts of multiplication give infinitely many width/value combinations; the tests sample a few dozen",
 [AR,"src/digit.rs","src/int.rs","src/uint.rs"],[("digit-wise carry loops and schoolbook multiplication",AR),("top digit excess-bit clearing","src/apint/utils.rs")],"results of wrapping_add/sub/mul/neg/inc/dec and Int::wrapping_abs")
p("C02","Unsigned quotient and remainder are exact",
 "For integers x and y of the same width with y not zero, unsigned division yields the quotient q and remainder r with x = q*y + r and 0 <= r < y, both of the operands' width, whether requested separately or together in either order. A divisor that is only read is never changed.",
 ["inputs","configurations"],"for every width and every dividend and non-zero divisor",
 "the long-division algorithm chooses between many paths depending on the leading digits and lengths of both operands; wrong quotient estimates show only on rare digit patterns that samples do not hit",
 [AR],[("special-cased long division of digit sequences",AR+" aarons_algorithm_divrem"),("division entry points",AR+" wrapping_udiv*, wrapping_urem*")],"results of all unsigned division calls")
p("C03","Signed division truncates toward zero; remainder takes the dividend's sign",
 "For integers x and y of the same width read as two's complement with y not zero, signed division yields the quotient truncated toward zero and the remainder with the sign of the dividend, so that x = q*y + r; the smallest value divided by minus one wraps to itself with remainder zero. Quotient and remainder are the same whether requested separately or together in either order, and a divisor that is only read is never changed.",
 ["inputs","configurations"],"for every width, all sign combinations and magnitudes including the most negative value",
 "it composes sign handling, in-place negation and the unsigned algorithm; errors show only for particular sign and magnitude combinations at particular widths",
 [AR,"src/int.rs"],[("sign handling around the unsigned algorithm",AR+" wrapping_sdiv*, wrapping_srem*")],"results of all signed division calls")
p("C04","Shifts move every bit by exactly the amount",
 "Shifting a w-bit integer left by k < w multiplies by 2^k modulo 2^w; a logical right shift divides by 2^k rounding down and fills with zeros; an arithmetic right shift fills with copies of the sign bit. The width is kept.",
 ["inputs","configurations"],"for every width w, every value and every amount 0 <= k < w",
 "whole-digit moves, in-digit shifts and sign filling interact at multiples of 64 and at the top digit; all (width, amount) pairs cannot be listed in tests",
 ["src/apint/shift.rs"],[("digit move plus in-digit shift","src/apint/shift.rs")],"results of wrapping_shl/lshr/ashr and << >> operators")
p("C05","Bitwise operations and single-bit access act on exactly the addressed bits",
 "And, or, exclusive or and complement act on every bit position independently; setting, clearing, flipping or reading one bit, the most significant bit or all bits affects exactly those bits and nothing else. Widths are kept, and no bit outside the width ever becomes visible.",
 ["inputs","configurations"],"for every width, all operand values and every valid bit position",
 "position-to-digit arithmetic and top-digit masking differ for every width/position pair",
 ["src/apint/bitwise.rs","src/bitpos.rs"],[("bit position split into digit and offset","src/bitpos.rs"),("digit-wise loops","src/apint/bitwise.rs")],"results of bit operations")
p("C06","Truncation, extension and resizing change the width and keep the value",
 "Truncation to t <= w keeps the low t bits; zero extension keeps the unsigned value and sign extension the signed value for t >= w; resizing truncates or extends depending on the target. The result has exactly the target width.",
 ["inputs","configurations"],"for every source width, every target width and every value",
 "storage switches between one inline digit and a heap buffer, and buffers are re-created; the quadratic space of width pairs times values cannot be sampled densely",
 ["src/apint/casting.rs","src/storage.rs"],[("width change with reallocation","src/apint/casting.rs")],"results of truncate/zero_extend/sign_extend/zero_resize/sign_resize")
p("C07","Comparison is the numeric order, and equality and hashing agree with it",
 "Two integers of the same width compare, unsigned or signed, exactly as the numbers they denote, in all comparison calls and operators; integers are equal exactly when width and bits agree, and equal integers hash equally. Integers of different widths are unequal and unordered.",
 ["inputs","configurations"],"for every pair of widths and every pair of values",
 "the comparison walks digits from the top and treats signs separately; consistency between eight calls, the operators, equality and hashing is a relation over all pairs",
 ["src/apint/relational.rs","src/apint/utils.rs","src/int.rs","src/uint.rs"],[("lexicographic digit comparison","src/apint/relational.rs"),("Hash over digits","src/apint/utils.rs")],"results of checked_* comparisons, ==, <, partial_cmp and hash")
p("C08","A value carries no trace of how it was produced",
 "After any history of operations, an integer is indistinguishable from one freshly constructed with the same width and bits: every query, comparison, hash, text and serialized form agrees, and every further operation gives the same result on either. In particular no leftover bits beyond the width influence anything.",
 ["histories","inputs"],"for every sequence of operations, widths and values",
 "a stray bit left by one operation is invisible until a later, different operation reads it; tests look at single operations",
 ["src/apint/utils.rs","src/apint/arithmetic.rs","src/apint/bitwise.rs","src/apint/shift.rs","src/apint/casting.rs"],[("clear_unused_bits after each mutation","src/apint/utils.rs")],"all queries after multi-step histories")
p("C09","Violated preconditions are reported precisely and change nothing",
 "Unequal widths, a zero divisor, a shift amount or bit position not below the width, a truncation or extension in the wrong direction, an unrepresentable primitive conversion, an invalid width or radix each yield an error of the documented kind carrying the offending numbers, never a panic in the fallible calls. After an error both operands have their former value; operators panic in those cases.",
 ["inputs","configurations"],"for every fallible call, every width and every invalid argument",
 "it is a statement about every entry point times every invalid argument, including extreme amounts, and about operands after the failure, which tests do not look at",
 ["src/errors.rs","src/checks.rs",AR,"src/apint/shift.rs","src/apint/casting.rs","src/apint/bitwise.rs"],[("argument checks before mutation","src/checks.rs"),("error constructors","src/errors.rs")],"returned errors and operands after failing calls")
p("C10","Conversions to and from primitive types preserve the value or refuse",
 "Constructing an integer from a primitive type or an array of 64-bit digits yields that type's width and value. The fallible conversion to a primitive type succeeds exactly when the number (unsigned reading, or the signed one for the signed wrapper type) is representable, and then yields it; the resizing conversion yields the low bits, zero- or sign-extended.",
 ["inputs","configurations"],"for every width, every value and every primitive type",
 "each of eleven types has its own boundary at every width; tests check a few values",
 ["src/apint/to_primitive.rs","src/apint/constructors.rs","src/int.rs","src/uint.rs"],[("representability test and truncation","src/apint/to_primitive.rs"),("From implementations","src/apint/constructors.rs")],"from_*, From, resize_to_*, try_to_*")
p("C11","Parsing a number in any radix from 2 to 36 yields exactly its value",
 "Text consisting of digits of the radix in either case, with underscores between them, parses to an integer with exactly the denoted value, whatever its length. Any other text is rejected with an error that names the input, the radix and, if a character is the reason, the first offending character and its position.",
 ["inputs"],"for every radix and every text",
 "radix conversion goes by chunks whose size depends on the radix, so carries across 64-bit digits happen only for particular lengths and values in each radix",
 ["src/apint/serialization.rs","src/radix.rs"],[("three parsing algorithms chosen by radix","src/apint/serialization.rs from_str_radix")],"result of from_str_radix")
p("C12","Binary and hexadecimal formatting shows exactly the value",
 "Formatting an integer as binary, lower-case or upper-case hexadecimal yields the shortest digits of its unsigned value, most significant first, zero being a single zero; the signed and unsigned wrapper types print the same. Parsing the text again gives the same value. Octal formatting shows the octal digits in the same way, unless it is not available for the value.",
 ["inputs","configurations"],"for every width and value",
 "leading zeros inside and across storage digits must be padded or suppressed depending on position; only certain digit patterns show an error",
 ["src/apint/serialization.rs"],[("fmt implementations","src/apint/serialization.rs")],"format!(\"{:b} {:x} {:X}\")")
p("C13","Serialization round-trips, and malformed input is refused",
 "An integer serialized in a human-readable or a compact format deserializes to the same width and value, and the serialized form is its width followed by its 64-bit digits, least significant first. Input with missing, surplus, duplicate or unknown parts, a zero width, or a number of digits that does not fit the width is refused with an error, never a panic or an ill-formed value.",
 ["inputs","configurations"],"for every width and value, and every malformed input",
 "the space of malformed inputs and of widths versus digit counts is unbounded; tests round-trip a few values",
 ["src/apint/serde_impl.rs"],[("Serialize/Deserialize visitors","src/apint/serde_impl.rs")],"serialized bytes and deserialization results")
p("C14","The unsigned and signed types and the operators agree with the core type",
 "Every operation on the unsigned or signed wrapper type, every consuming variant and every operator gives the same result, the same reply or the same kind of failure as the corresponding in-place operation of the core type under that reading of signedness. Where the method reports an error the operator panics.",
 ["inputs","configurations"],"for every operation offered in more than one form, every width and operands",
 "several hundred thin forwarding methods, each of which could forward to the wrong operation in a way that only some widths or signs reveal",
 ["src/int.rs","src/uint.rs","src/std_ops.rs"],[("forwarding methods","src/int.rs, src/uint.rs"),("operator macros","src/std_ops.rs")],"every form compared pairwise")
p("C15","Bit counts, parity, sign and special-value queries tell the truth",
 "The counts of ones, zeros, leading and trailing zeros, the width, parity, sign, most and least significant bit and the tests for zero, one, all bits set and none set return exactly what the w-bit pattern implies. No query changes the integer.",
 ["inputs","configurations"],"for every width and value",
 "counts must correct for the unused bits of the top digit at every width; tests use few widths",
 ["src/apint/bitwise.rs","src/apint/utils.rs","src/int.rs","src/uint.rs"],[("digit-wise counting with top-digit correction","src/apint/bitwise.rs"),("special-value tests","src/apint/utils.rs")],"query results")
p("C16","Constants have exactly the requested width and value",
 "Zero, one, all-set, all-unset and the smallest and largest unsigned and signed value of a width are exactly those numbers in exactly that width; the signed one of width 1 does not exist. Widths are accepted exactly when positive and radices exactly from 2 to 36.",
 ["inputs","configurations"],"for every width",
 "the constructors fill inline or heap storage and mask the top digit differently at every width",
 ["src/apint/constructors.rs","src/bitwidth.rs","src/radix.rs"],[("repeat-digit constructors","src/apint/constructors.rs")],"constructor results")
p("C17","Random integers have the requested width and use the generator's whole output",
 "A random integer drawn with a given generator has exactly the requested width and consists of the generator's successive 64-bit outputs, least significant first, cut to the width, so every value of the width is possible and a seeded generator reproduces it. Re-randomizing an integer keeps its width and does the same. A draw takes one output per digit of the width, so the next one goes on where it stopped.",
 ["inputs","configurations"],"for every width, every generator output and every former value",
 "bits outside the width must be masked and no digit may be skipped or reused, at every width and for every output",
 ["src/apint/rand_impl.rs"],[("digit-wise random fill","src/apint/rand_impl.rs")],"random_with_width_using, randomize_using")
p("C18","Copies are independent, and storage is released exactly once",
 "A clone or assigned integer shares nothing with its source: changing or dropping either never affects the other, and no operation changes an integer it was not given mutably. Over any history of operations, copies, width changes and failures, every piece of memory obtained is released exactly once and never used afterwards.",
 ["histories","inputs"],"for every sequence of operations mixing inline and heap-allocated integers",
 "integers own manually managed memory in a union; leaks, double frees and aliasing do not change results and appear only for particular storage transitions",
 ["src/apint/constructors.rs","src/apint/casting.rs","src/apint/mod.rs","src/storage.rs"],[("manual heap buffer in a union, Drop","src/apint/constructors.rs"),("Clone and assign","src/apint/casting.rs")],"values of bystanders and allocator calls")
p("C19","Integers can be moved between and read by several threads at once",
 "Integers and errors can be sent to other threads and shared with them. Calls made by several threads at the same time, on integers of their own and reading integers they share, give exactly the results they give when made alone, whatever the schedule, and leave shared integers as they were.",
 ["schedules","histories"],"for every interleaving of calls in different threads",
 "the types are declared thread-safe by hand over a raw pointer, which the compiler does not verify; the tests never share an integer between threads",
 ["src/apint/mod.rs","src/apint/utils.rs","src/apint/arithmetic.rs"],[("unsafe impl Send and Sync, no shared mutable state","src/apint/mod.rs")],"results and replies of concurrent calls")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
M={"version":1,"setup_cmd":"quint --version && cargo --version && python3 --version","checks":[],"not_applicable":[]}
for x in P:
    i=x["id"]
    M["checks"].append({"property":i,"quick_cmd":"python3 /verif/check.py %s --tier quick"%i,"thorough_cmd":"python3 /verif/check.py %s --tier thorough"%i,
     "technique":"Quint specification (register machine over exact w-bit semantics); behaviours generated by quint run (random walks and systematic sweeps) replayed into the crate"+("" if i in("C08","C14","C18","C19") else "; histories recorded from the crate validated against the specification"),
     "level":"model_checking","level_note":("" if i!="C19" else "schedules: all of the small design model, those that occur in the crate; ")+"bounded: explicit behaviours of the specification at widths up to about 17000 bits (a few up to 98304), every API form of each call; not a proof for all inputs"})
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)

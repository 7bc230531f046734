import json
P=[]
BI="src/BigInteger.cpp"; C="src/BigIntegerCalculator/"
def p(id,title,st,over,text,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
SGN=("sign/limbs pair","value is the sign field alone when |v| < 2^31, else sign +-1 with a trimmed little-endian limb array","include/public/bigintegercpp/BigInteger.h (_sign, _bits)")
p("C01","Addition and subtraction are exact",
"For all integers a and b of any size and sign, every form of addition and subtraction (operators, compound assignments, named functions) yields exactly a+b and a-b. Increment, decrement, negation, unary plus and absolute value are exact too; compound assignments and prefix forms return the object itself, and the postfix forms leave the object stepped by one while yielding its previous value.",
["inputs"],"all pairs of integers, every carry/borrow chain length and every small/large representation mix",
"The tests draw ten values per case from a fixed generator (and mostly parse a few decimal digits); carries that ripple through several limbs or results that shrink across a representation boundary are reached only by specific limb patterns.",
[BI,C+"AddSub.cpp"],[("limb-wise carry/borrow propagation",C+"AddSub.cpp"),("sign dispatch and small-value fast path",BI+" operator+=, operator-=, add, subtract")],
["result value via comparison, bits, bytes and decimal text"],[SGN])
p("C02","Multiplication is exact at every operand size",
"For all integers a and b of any sign and any size, every form of multiplication yields exactly a*b. This includes squaring, equal operands, and operands of very different lengths, on both sides of every size at which the algorithm changes.",
["inputs"],"all pairs of integers; all length pairs around and between the schoolbook/recursive thresholds, nested several levels deep",
"Existing tests multiply a handful of medium numbers; the recursive (Karatsuba) paths start at 32 limbs and their carry corrections show up only for particular limb patterns and length splits.",
[BI,C+"SquMul.cpp",C+"AddSub.cpp"],[("schoolbook and Karatsuba multiply/square",C+"SquMul.cpp"),("operand ordering and square shortcut",BI+" operator*=")],["result value"],[SGN])
p("C03","Division truncates toward zero and division and remainder agree",
"For all integers a and all non-zero b, the quotient q is a/b truncated toward zero and the remainder r satisfies a = q*b + r with |r| < |b| and r zero or of the sign of a. Every form (operators, compound assignments, named functions, combined quotient-and-remainder) gives the same q and r. A zero divisor always raises the divide-by-zero error and never crashes or returns.",
["inputs"],"all (dividend, divisor) pairs, all sign combinations, all normalisation shifts, all quotient-digit estimate corrections",
"Quotient-digit over-estimates and the add-back step occur with probability about 2^-32 for random limbs; negative dividends with one-limb divisors and mixed sizes are barely sampled.",
[BI,C+"DivRem.cpp","include/exceptions.h"],[("Knuth-style long division with guess correction and add-back",C+"DivRem.cpp"),("sign dispatch, small-divisor path",BI+" operator/=, operator%=, div_rem")],["quotient, remainder, raised error"],[SGN])
p("C04","Integer power is exact",
"For every integer base and every non-negative exponent whose result fits in memory, power yields exactly base^exponent, with anything^0 = 1. A negative exponent raises the out-of-range error.",
["inputs"],"all bases and exponents, including 0, 1, -1, even/odd exponents of negative bases and results long enough to use recursive squaring",
"Tests use a few small powers; buffer length bookkeeping in repeated squaring depends on exponent bit patterns and operand length.",
[BI,C+"PowMod.cpp",C+"BitsBuffer.cpp"],[("square-and-multiply over reusable buffers",C+"PowMod.cpp"),("buffer swap/clear",C+"BitsBuffer.cpp Apply")],["result value, raised error"],[SGN])
p("C05","Modular exponentiation equals the remainder of the power",
"For every value v, exponent e >= 0 and modulus m != 0 of any size, modular exponentiation yields exactly the truncated remainder of v^e divided by m (so it is zero or has the sign of v^e). A negative exponent raises the out-of-range error and a zero modulus raises the divide-by-zero error, whatever the size of the other arguments.",
["inputs"],"all triples (value, exponent, modulus), including multi-limb exponents with zero limbs and moduli on both sides of the size where the reduction algorithm changes",
"The tests' values are almost all below 32 bits; the fast reduction path needs a modulus of 32 limbs or more and was never executed by a test.",
[BI,C+"PowMod.cpp",C+"FastReducer.cpp",C+"BitsBuffer.cpp",C+"DivRem.cpp"],[("modular square-and-multiply for each operand-size combination",C+"PowMod.cpp"),("Barrett reduction",C+"FastReducer.cpp"),("final sign fix",BI+" mod_pow")],["result value, raised error"],[SGN])
p("C06","Greatest common divisor is correct and terminates",
"For all integers a and b of any size and sign, the greatest common divisor function terminates and returns the non-negative gcd(|a|,|b|), with gcd(0,b) = |b| and gcd(0,0) = 0. The result does not depend on argument order or signs.",
["inputs"],"all pairs, in particular pairs of three and more limbs with every length difference and every quotient sequence of the approximation loop",
"Tests sample pairs that mostly stay below three limbs; the approximate-quotient (Lehmer) loop and its exit conditions depend on leading digits of specific pairs.",
[BI,C+"GcdInv.cpp",C+"BitsBuffer.cpp"],[("Euclid for one and two limbs, Lehmer above",C+"GcdInv.cpp"),("buffer refresh/overwrite",C+"BitsBuffer.cpp")],["result value"],[SGN])
p("C07","Shifts are exact arithmetic shifts",
"For every integer v and every shift count n >= 0, left shift yields v*2^n and right shift yields floor(v / 2^n), for negative v as well. A negative count shifts in the opposite direction by its absolute value, and the extreme count values behave accordingly.",
["inputs"],"all values x all shift counts (positive, negative, multiples of the limb size, beyond the value's length)",
"Sign-extension and limb-aligned corner cases depend on joint patterns of value and shift count; tests shift a few random values.",
[BI],[("limb/bit shift split, two's-complement conversion for negatives",BI+" operator<<=, operator>>="),("two's complement helper","include/NumericsHelpers.h")],["result value"],[SGN])
p("C08","Bitwise operators act on infinite two's complement",
"For all integers a and b, and/or/xor/complement yield the integer whose infinite two's-complement representation is the bitwise combination of those of a and b. This holds for every mix of signs, lengths and zero operands, in operator and compound-assignment form.",
["inputs"],"all pairs with all sign/length combinations, in particular magnitudes whose two's complement gains or loses a limb",
"Tests use random operands; patterns such as -2^(32k) and all-ones magnitudes, where sign limbs appear or vanish, are not sampled.",
[BI,"include/NumericsHelpers.h"],[("conversion to and from two's complement with sign extension",BI+" to_uint32_array, BigInteger(uint_array)"),("limb loop",BI+" operator&=, |=, ^=, ~")],["result value"],[SGN])
p("C09","Comparison is the total order of the integers; equal values hash equally",
"For all integers a and b, three-way comparison and all six relational operators agree with the mathematical order of a and b, and equality holds exactly when the values are the same. Equal values always have the same hash code, however the objects were obtained.",
["inputs","histories"],"all pairs of integers and all ways of producing an equal value",
"Order errors hide in one limb position or one sign/length combination; hash agreement must hold between objects produced by different operation histories.",
[BI,"include/public/bigintegercpp/BigInteger.h"],[("sign, length, then limb comparison",BI+" compare_to, equals, get_diff_length"),("hash combine",BI+" get_hash_code")],["relational operators, compare_to, hash"],[SGN])
p("C10","Byte conversions are exact, minimal and round-trip",
"Decoding any byte string (either endianness, signed or unsigned) yields the integer it denotes, redundant leading bytes included; the empty string is zero. Encoding yields the shortest two's-complement (or unsigned) encoding in the requested endianness, its length is what the byte-count query reports, decoding it gives the value back, and asking for an unsigned encoding of a negative value raises an error. The same holds for construction from a limb array plus sign.",
["inputs"],"all byte strings, all integers, all flag combinations",
"Tests decode a few lengths; errors hide in particular combinations of length modulo 4, redundant sign bytes, sign bit of the top byte and endianness.",
[BI],[("byte-array constructor",BI+" BigInteger(byte_array,...)"),("to_byte_array / get_byte_count",BI)],["constructed value, encoded bytes, reported length, raised error"],[SGN])
p("C11","Decimal text conversion is exact and round-trips",
"The decimal text of any integer is its canonical base-10 numeral (a leading '-' only for negative values, no leading zeros). Parsing accepts an optional single sign followed by decimal digits, ignores everything from the first other character on, and yields exactly the integer written (zero if there are no digits). Parsing the text of any value gives the value back.",
["inputs"],"all integers of every decimal length and sign; all input strings",
"Group boundaries (every 9 digits), zero groups and buffer sizing depend on the exact number of digits and sign; tests print random values only.",
[BI,"README.md"],[("base 10^9 conversion",BI+" to_string"),("digit accumulation",BI+" parse, try_parse")],["text, parsed value"],[SGN])
p("C12","Conversions to and from fixed-width integers are exact or refused",
"Constructing from any 32- or 64-bit signed or unsigned integer preserves its value. Converting to such a type returns the exact value whenever it is representable in that type and raises the overflow error otherwise.",
["inputs"],"all values around every representability limit, for each of the four types",
"Only exhaustive coverage of boundary neighbourhoods decides the comparisons involved; tests convert a few values.",
[BI],[("constructors from int32/uint32/int64/uint64",BI),("conversion operators with range checks",BI)],["constructed value, converted value, raised error"],[SGN])
p("C13","Floating-point conversions truncate exactly",
"Constructing from a finite double yields that double truncated toward zero, exactly; NaN and infinities raise the overflow error. Converting to double yields the value truncated toward zero to 53 significant bits, or an infinity of the right sign when the magnitude is 2^1024 or more; converting to float equals rounding that double to float.",
["inputs"],"all doubles (every exponent and mantissa shape) and all integers",
"Each exponent/mantissa combination takes its own shift path; tests construct from a few doubles.",
[BI,"include/NumericsHelpers.h"],[("double decomposition/composition","include/NumericsHelpers.h get_double_parts, get_double_from_parts"),("top-limb extraction",BI+" operator double, BigInteger(double)")],["constructed value, converted value, raised error"],[SGN])
p("C14","Logarithms are accurate on their domain and NaN outside it",
"For every positive integer v and every base accepted by the .NET definition, the logarithm agrees with the true value of ln(v)/ln(base) to near double precision (relative error below 1e-12), natural and base-10 forms included. Negative values, base 1, and (for v other than 1) base 0 or an infinite base give NaN; the logarithm of zero is the appropriately signed infinity and of one is zero.",
["inputs"],"all positive integers of any length x all bases, plus all special arguments",
"Large values go through a scaled path that depends on the leading limbs and total length; tests compare against a rounded approximation.",
[BI,"include/NumericsHelpers.h"],[("leading 64 bits plus exponent",BI+" log"),("special-case wrapper","include/NumericsHelpers.h csharp_log_wrapper")],["returned double"],[])
p("C15","Predicates and size queries agree with the value",
"For every integer, the zero, one, even and power-of-two predicates, the sign, and the bit length (minimal two's-complement length without the sign bit) are exactly those of the mathematical value. A value is a power of two only if it is positive.",
["inputs"],"all integers, all positions of the single set bit, both signs",
"Each predicate has one path for small and one for large representations with position-dependent checks; tests cover a few values.",
[BI],[("is_* predicates, sign, get_bit_length",BI)],["returned values"],[SGN])
p("C16","Results depend only on values, never on history",
"After any sequence of operations, including ones that failed, an object holding value v is indistinguishable from a freshly constructed v: same equality, ordering, hash, bits, bytes and text, and the same results in every further operation. The outcome of an operation is a function of its operand values alone and does not depend on what was computed before.",
["histories"],"all operation sequences, from any starting values",
"Tests perform one operation on fresh values; leftovers (untrimmed limbs, sign on zero, stale scratch data) only surface after particular sequences.",
[BI,C+"BitsBuffer.cpp"],[("normalising constructors",BI+" BigInteger(uint_array,bool), BigInteger(uint_array)"),("buffer clearing between uses",C+"BitsBuffer.cpp")],["all public queries after each step"],[SGN])
p("C17","Operands are not modified and may alias",
"No operation changes the value of an operand it is not documented to assign, even when several operands (or an operand and the assigned object or an output argument) are the same object. With aliased arguments every operation gives the same results as with distinct objects holding the same values.",
["inputs","histories"],"all operations x all aliasing patterns x all operand values",
"Tests always pass distinct temporaries; an in-place shortcut or early output write is visible only under a specific aliasing pattern.",
[BI],[("by-value left operands and local copies",BI),("order of writing output arguments",BI+" div_rem")],["operand values before/after, results under aliasing"],[SGN])
p("C18","Every call is memory-safe, free of undefined behaviour and terminates",
"For all valid arguments every public operation terminates without out-of-bounds or uninitialised access, without undefined arithmetic, without leaking memory and without tripping an internal consistency check. Errors are only ever reported by the documented exceptions.",
["inputs","histories"],"all operations on all inputs, in every size class and algorithm path",
"A one-element overrun or an overflow in a rarely taken branch does not change the tested results and the tests run without sanitizers.",
[BI,C+"AddSub.cpp",C+"SquMul.cpp",C+"DivRem.cpp",C+"PowMod.cpp",C+"FastReducer.cpp",C+"BitsBuffer.cpp",C+"GcdInv.cpp","include/NumericsHelpers.h"],[("buffer sizing (result bounds, fold/core lengths, reducer buffers, text buffer)","src/")],["sanitizer reports, abnormal termination"],[])
p("C19","Failures are clean: no leak, no corruption, operands intact",
"When an operation fails, whether by a domain error (zero divisor, negative exponent, overflow, refused conversion) or because any one of its memory allocations fails, the error reaches the caller as an exception (a failure result for the try-parse form), no memory is leaked, and every operand that is only read keeps its value. After a domain error the assigned object keeps its old value, after an allocation failure it still holds a valid integer, and later operations give correct results.",
["fault_sequences"],"every operation x every allocation point failing x every domain error",
"Tests never make an allocation fail and do not inspect objects after an exception.",
[BI,C+"PowMod.cpp",C+"DivRem.cpp"],[("results built in locals before assignment",BI),("owning temporaries",BI+" to_string")],["exceptions, outstanding allocations, values after failure"],[])
p("C20","Concurrent use of shared values equals sequential use",
"Any number of threads may apply reading operations to the same objects, or operate on distinct objects, at the same time: under every interleaving each call returns what it returns when run alone. There is no data race and no hidden shared mutable state.",
["schedules"],"all interleavings of operations by two or three threads on shared read-only operands",
"All tests are single-threaded; a shared scratch buffer or lazily filled cache is invisible to them.",
[BI,C+"PowMod.cpp",C+"SquMul.cpp"],[("no mutable static state; all scratch memory is local","src/")],["per-thread results, conflicting accesses"],[])
p("C21","Python operators agree with the integer model for every operand kind",
"For every binary and unary Python operator of the binding, with operands BigInteger/BigInteger, BigInteger/int and int/BigInteger, the result is the mathematically exact one under truncating division semantics, of type BigInteger when the left operand is a BigInteger and int otherwise. Errors (zero divisor, negative or oversized exponent or shift) surface as Python exceptions, and operands are never modified.",
["inputs"],"all operators x all operand kinds and orders x all values",
"The Python tests check one or two values per operator; swapped operands or a truncated conversion in one overload needs asymmetric, negative or large operands.",
["bindings/python/python-bindings.cpp"],[("operator overload set","bindings/python/python-bindings.cpp")],["result value and type, raised exception"],[])
p("C22","Python conversions are exact and consistent with equality and hash",
"Conversion from any Python int and from any one-dimensional byte buffer (two's complement, little endian, whatever its stride) and back to int, bytes, byte arrays, text and float gives exactly the value; round trips are identities. Objects that compare equal, including a BigInteger and an int, have equal hashes, and copies are equal and independent.",
["inputs"],"all Python ints, all byte buffers and strides",
"Conversion has separate positive/negative and width-dependent paths; tests use a dozen values and only contiguous bytes.",
["bindings/python/python-bindings.cpp"],[("int <-> bytes bridging","bindings/python/python-bindings.cpp to_biginteger, to_py_int"),("buffer constructor","bindings/python/python-bindings.cpp")],["converted values, hash, equality"],[])
p("C23","Global constants are correct whatever the initialisation order",
"BigInteger objects created or computed during static initialisation of a program have the same values as if created later, whether the library is linked as a shared or a static library and in whatever order translation units are linked.",
["configurations"],"all link orders x static/shared linking x all ways of constructing a value at namespace scope",
"The test program constructs values only after main starts and links the shared library.",
[BI,"include/public/bigintegercpp/BigInteger.h"],[("internal constants","include/public/bigintegercpp/BigInteger.h, src/BigInteger.cpp s_bn*")],["values of namespace-scope objects"],[])
p("C24","Every build configuration computes the same results",
"With internal assertions enabled or disabled, at any optimisation level and with either supported compiler, every operation gives the same exact results and errors. No result depends on a side effect of an assertion or on undefined behaviour that one configuration happens to tolerate.",
["configurations","inputs"],"{compiler} x {optimisation} x {assertions on/off} x all operations",
"The tests run in one configuration only (gcc -O2, assertions enabled), whereas users build with NDEBUG.",
[BI,C+"AddSub.cpp",C+"DivRem.cpp",C+"GcdInv.cpp","include/NumericsHelpers.h"],[("assertions without side effects","src/"),("unsigned limb arithmetic","src/")],["results and errors per configuration"],[])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P:
    jsonschema.validate(x,s); n=x["statement"].count(". ")+1; print(x["id"],len(x["title"]),n)

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to review and edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Integers format to their canonical decimal numeral",
  "For every integer type (signed and unsigned, 8 to 64 bits) and every value of that type, the formatted text is the canonical base-10 numeral of the value: a single '-' if and only if the value is negative, then the decimal digits of its magnitude with no leading zeros, no other characters, and '0' for zero. This includes the minimum and maximum value of each type, whichever public entry point (formatter object, generic function) is used.",
  ["inputs"], "every value of int8/uint8/short/ushort/int/uint/long/ulong/long long/unsigned long long",
  "The suite formats only the value 1 in four unsigned types (and 0 through an enum); no signed, multi-digit or boundary value is ever formatted, while the code branches on 16 magnitude ranges.",
  ["src/int.cpp", "src/detail/itoa.cpp", "include/lexi/int.hpp"],
  [("per-magnitude branch cascades over a two-digit table", "src/detail/itoa.cpp u32toa/u64toa"), ("two's complement negation on the unsigned image", "src/detail/itoa.cpp i32toa/i64toa"), ("constructor per integer type selects the width", "src/int.cpp FormatInt::FormatInt")],
  [("buffer", "characters of the numeral, then a terminator", "FormatInt::buffer_")], ["FormatInt(...).string()", "lexi::lexi(x)", "lexi::string(x)"])

p("C02", "Integer extraction reads exactly the leading decimal numeral",
  "Extracting an integer type from any text skips leading white space, takes one optional '+' or '-' and the longest following run of decimal digits, ignores everything after it, and yields 0 when there are no digits. The value returned is that signed numeral whenever it is representable in the requested type; more generally, a numeral whose magnitude is below 2^64 is returned reduced modulo 2^width of the type, and a larger magnitude yields 2^64-1, whatever the sign, reduced to the type. It never throws.",
  ["inputs"], "every byte string (including embedded NULs, empty text, signs, white space, junk suffixes, overlong numerals) and every integer type, enumeration and stream position",
  "The suite extracts '-1', '5', '102', '0' and the empty text only.",
  ["src/int.cpp", "include/lexi/int.hpp", "include/lexi/enum.hpp", "include/lexi/lexi.hpp"],
  [("scan of the text into an unsigned 64-bit accumulator", "src/int.cpp ExtractInt::ExtractInt"), ("narrowing conversion operators", "src/int.cpp ExtractInt::operator T")],
  [("accumulator", "the numeral modulo 2^64, saturated", "ExtractInt::data_")], ["lexi::lexi<T>(text)"])

p("C03", "Formatting then extracting returns the original value",
  "For every supported scalar type and every value of it, extracting that type from the text obtained by formatting the value gives back an equal value: all integers, enumerators of any underlying type, stream positions, booleans, characters, null, and every float and double (bit for bit, except that the sign of zero and the payload of a NaN may be lost; infinities and NaN come back as themselves).",
  ["inputs"], "every (type, value) pair over the scalar types the generic interface accepts",
  "No test formats a value and extracts it again; the two halves are each sampled at a handful of points.",
  ["include/lexi/lexi.hpp", "src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/char.cpp", "src/null.cpp", "include/lexi/enum.hpp"],
  [("type-directed dispatch of both directions", "include/lexi/lexi.hpp Format/Extract"), ("shortest-digits output inside the rounding interval", "src/detail/dtoa.cpp"), ("correctly rounded reading", "src/float.cpp ExtractFloat")],
  (), ["lexi::lexi<T>(lexi::lexi(x))"])

p("C04", "The text of a double identifies exactly that double",
  "For every finite double, the formatted text is a decimal number that, read with exact arithmetic and rounded to the nearest double (ties to even), gives back the same double with the same sign of non-zero values. It never uses more than 17 significant digits.",
  ["inputs"], "all 2^64 - 2^53 finite bit patterns: every binary exponent, subnormals, powers of two (asymmetric rounding interval), both signs",
  "The suite formats 15 chosen doubles, which reach 13 of the 87 cached powers; the digit generator depends on the cached power, the exponent and the significand.",
  ["src/detail/dtoa.cpp", "src/detail/diyfp.cpp", "src/float.cpp"],
  [("rounding interval boundaries", "src/detail/diyfp.cpp normalizedBoundaries"), ("cached powers of ten", "src/detail/dtoa.cpp CACHED_POWERS_F/E, getCachedPower"), ("digit generation inside the shrunk interval", "src/detail/dtoa.cpp generateDigits, grisu2")],
  [("W, Wp, Wm", "scaled value and rounding interval", "src/detail/dtoa.cpp grisu2")], ["FormatFloat(x).string()"])

p("C05", "The text of a double is as short and as close as Grisu2 promises",
  "For every finite non-zero double, no decimal with a coarser last digit than the one printed lies inside the middle 99% of the double's rounding interval, and the printed decimal is at least as close to the double as any other decimal with the same last place inside that interval, up to 1% of half an ulp. The printed digits never end in a superfluous zero.",
  ["inputs"], "all finite non-zero doubles",
  "A longer or less accurate digit string still reads back to the same double, so even a round-trip test cannot see it; the suite compares 15 literal strings.",
  ["src/detail/dtoa.cpp", "src/detail/diyfp.cpp"],
  [("stop at the first digit position whose remainder fits the interval", "src/detail/dtoa.cpp generateDigits"), ("move the last digit towards the value", "src/detail/dtoa.cpp grisuRound")],
  (), ["FormatFloat(x).string()"])

p("C06", "Float text has one canonical layout",
  "With the significant digits d1..dn of the printed number and its decimal magnitude 10^(E-1) <= |x| < 10^E, the text of every finite non-zero double is exactly: plain digits padded with zeros and followed by '.0' when n <= E <= 21; digits with an embedded '.' when 0 < E < n (E <= 21); '0.' plus -E zeros plus the digits when -6 < E <= 0; otherwise scientific d1[.d2..dn]e[-]X with X = E-1 written without sign '+' or leading zeros. A '-' precedes negative numbers, and the magnitude shown is that of the value.",
  ["inputs"], "all finite non-zero doubles; every digit count 1..17 crossed with every decimal exponent",
  "The suite has one example per layout; the boundaries (1e21, 1e-6), the padding lengths and the two- and three-digit exponents are crossed with few digit counts.",
  ["src/detail/dtoa.cpp"],
  [("layout selection", "src/detail/dtoa.cpp prettify"), ("exponent rendering", "src/detail/dtoa.cpp writeExponent"), ("sign", "src/detail/dtoa.cpp dtoa")],
  (), ["FormatFloat(x).string()"])

p("C07", "Zeros, infinities, NaNs and the other float widths format right",
  "Both zeros format as '0.0', every NaN (any sign and payload) as 'NaN', the infinities as 'Infinity' and '-Infinity'. A float formats exactly as the double of equal value, and a long double as the double nearest to it (becoming an infinity or zero when out of double range).",
  ["inputs"], "every bit pattern of float, double and x87 long double in the special classes, every float, every long double",
  "The suite checks one quiet NaN, both infinities, and zero; no non-zero float or long double at all.",
  ["src/float.cpp", "src/detail/ieee754.cpp", "src/detail/dtoa.cpp"],
  [("classification by bit pattern", "src/detail/ieee754.cpp"), ("special strings", "src/float.cpp FormatFloat::format")],
  (), ["FormatFloat(x).string()"])

p("C08", "Float extraction is correctly rounded and reads the longest prefix",
  "Extracting float, double or long double from any text skips leading white space and reads the longest prefix that is a decimal number (optional sign, digits with optional '.', optional exponent) or, ignoring case, 'inf', 'infinity' or 'nan' (texts whose number starts with a hexadecimal prefix '0x' are outside this guarantee); with no such prefix it yields 0, and it never throws. The result is the value of the requested type nearest to the number written (ties to even), with overflow to infinity and gradual underflow to zero, however many digits are written.",
  ["inputs"], "every byte string not starting a hexadecimal numeral; in particular numerals at and next to the midpoint of two adjacent floats or doubles, and with hundreds of digits",
  "No test extracts a floating-point value.",
  ["src/float.cpp", "include/lexi/float.hpp", "include/lexi/lexi.hpp"],
  [("C library conversion per requested type", "src/float.cpp ExtractFloat")],
  (), ["lexi::lexi<float|double|long double>(text)"])

p("C09", "JSON string literals are valid and decode to the original bytes",
  "For every byte string (and every single char) the JSON form is a double-quoted string literal that contains no unescaped quote, backslash or control character below 0x20, and that decodes, by the JSON rules, to exactly the original bytes. Bytes that JSON does not require to be escaped appear unchanged and in order.",
  ["inputs"], "every byte string, including NULs, DEL, bytes 0x80-0xFF, and every adjacency of escaped and unescaped bytes",
  "The suite checks the four one-character strings NUL, backspace, form feed and 'a'.",
  ["src/detail/string.cpp", "include/lexi/lexi.hpp", "src/char.cpp"],
  [("per-byte escape switch", "src/detail/string.cpp jsonify"), ("quoting", "include/lexi/lexi.hpp jsonify, src/char.cpp FormatChar::jsonify")],
  (), ["lexi::jsonify(s)", "FormatChar(c).jsonify()"])

p("C10", "Escaping prefixes every ASCII non-alphanumeric byte, and nothing else",
  "For every byte string the escaped form is the original with one backslash inserted before each ASCII byte that is not a letter or digit (control characters, punctuation, space and DEL included), and no other change: letters, digits and bytes from 0x80 up are copied as they are. Removing the inserted backslashes therefore gives back the original.",
  ["inputs"], "every byte string and every single char",
  "The suite checks NUL, backspace, form feed and 'a'.",
  ["src/detail/string.cpp", "include/lexi/lexi.hpp", "src/char.cpp"],
  [("range test per byte", "src/detail/string.cpp escape")],
  (), ["lexi::escape(s)", "FormatChar(c).escape()"])

p("C11", "null, booleans and characters convert strictly",
  "null formats as 'null', booleans as 'true' and 'false', a char as that one byte; in JSON form null and booleans are the bare words and a char is a quoted string. Extracting null or a boolean accepts exactly those words (no prefix, suffix, case variation or embedded NUL) and throws a runtime error on every other text; extracting a char returns the first byte of any non-empty text, whatever follows, and throws a runtime error on empty text.",
  ["inputs"], "every byte string as extraction input; all 256 chars, both booleans, null as format input",
  "The suite tries one wrong word for bool, none for null, and no near-miss (prefix, extra byte, NUL, case).",
  ["src/bool.cpp", "src/null.cpp", "src/char.cpp", "include/lexi/lexi.hpp"],
  [("exact comparison with the configured word", "src/bool.cpp ExtractBool, src/null.cpp ExtractNull"), ("first byte", "src/char.cpp ExtractChar")],
  (), ["lexi::lexi<bool|std::nullptr_t|char>(text)", "lexi::lexi(x)"])

p("C12", "Formatter objects are independent values",
  "A formatter object keeps showing the text of the value it was constructed or last assigned from, whatever other formatter objects are created, copied, assigned, moved, swapped, stored in containers or destroyed. A copy shows the same text as its source and does not depend on the source staying alive or unchanged.",
  ["histories"], "every sequence of construct, copy, move, assign, self-assign, swap, relocate, destroy and read operations over any set of formatter objects of every kind",
  "Every test uses a formatter as a temporary that is read once; none is ever copied, assigned or outlives another.",
  ["include/lexi/int.hpp", "include/lexi/float.hpp", "include/lexi/enum.hpp", "include/lexi/bool.hpp", "include/lexi/char.hpp", "include/lexi/null.hpp", "src/int.cpp", "src/float.cpp"],
  [("text is stored inside the object", "buffer_ members"), ("copy operations rebase the text pointers", "FormatInt/FormatFloat copy constructor and assignment")],
  [("first/last", "bounds of the text inside the object's own buffer", "FormatInt, FormatFloat")], ["size()/data()/string() of any live formatter"])

p("C13", "All views of a formatter agree and are NUL-terminated",
  "For every formatter object, size() equals length(), data() and c_str() point to the same characters, string(), the std::string conversion and the generic functions give exactly those size() characters, and a NUL follows them. For null, booleans, integers, enumerations and floats the escaped and JSON forms are the same characters; the generic functions pass existing strings through unchanged.",
  ["inputs"], "every formatter kind and every value; every string type and content for the pass-through",
  "The suite reads string() almost exclusively; size, length, data, c_str and the terminator are never checked.",
  ["src/bool.cpp", "src/char.cpp", "src/null.cpp", "src/int.cpp", "src/float.cpp", "include/lexi/lexi.hpp"],
  [("terminator written after the last character", "FormatInt constructors, writeExponent/prettify/dtoa, strncpy of the literals"), ("accessors", "size/length/data/c_str/string/escape/jsonify of each formatter")],
  (), ["accessors of FormatNull/Bool/Char/Int/Enum/Float", "lexi::lexi/string/escape/jsonify"])

p("C14", "Every conversion stays in bounds and ends normally",
  "For every input, formatting and extraction read and write only memory that belongs to the call's arguments, the formatter object (its text and terminator fit its own buffer) or the library's own tables, execute no undefined operation, terminate, and end by returning or (only for null, boolean and char extraction) by throwing a runtime error.",
  ["inputs", "histories"], "every value of every type, every text, and every history of formatter objects",
  "An out-of-bounds read or write usually leaves the result unchanged; no test runs with memory checking, and the longest outputs are not exercised.",
  ["src/detail/dtoa.cpp", "src/detail/itoa.cpp", "src/float.cpp", "src/int.cpp", "src/bool.cpp", "src/null.cpp", "src/char.cpp", "src/detail/string.cpp", "include/lexi/detail/fmt.hpp"],
  [("fixed buffer sizes", "include/lexi/detail/fmt.hpp INTEGER_SIZE, FLOAT_SIZE"), ("table index arithmetic", "src/detail/dtoa.cpp getCachedPower, generateDigits; src/detail/itoa.cpp")],
  (), ["every public entry point, built with address and undefined-behaviour checking"])

p("C15", "Configured spellings of the literals are honoured everywhere",
  "When the library is built with its own configuration macros giving other spellings of null, true, false, NaN, Infinity or -Infinity, formatting produces exactly the configured spelling (with its own length, terminated), and extraction of null and booleans accepts exactly the configured spelling. This holds for spellings shorter and longer than the default ones.",
  ["configurations"], "every assignment of spellings (non-empty, up to 29 characters) to the six configurable literals",
  "The suite is built with the defaults only, for which hard-coded lengths happen to be right.",
  ["include/lexi/detail/define.hpp", "src/bool.cpp", "src/null.cpp", "src/float.cpp", "include/lexi/bool.hpp", "include/lexi/null.hpp"],
  [("configuration macros", "include/lexi/detail/define.hpp"), ("length and storage derived from the spelling", "src/bool.cpp, src/null.cpp, src/float.cpp")],
  (), ["formatters and extractors of null, bool and float in a library built with the macros set"])

p("C16", "Concurrent conversions do not disturb each other",
  "Any number of threads may format and extract distinct or equal values at the same time without synchronisation: every call returns exactly what it returns when run alone, and no conversion writes memory shared with another thread. One formatter object may be read from several threads at once.",
  ["schedules"], "every interleaving of conversions of every type on any number of threads",
  "The suite is single-threaded.",
  ["src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/char.cpp", "src/null.cpp", "src/detail/itoa.cpp", "src/detail/dtoa.cpp", "src/detail/string.cpp", "include/lexi/lexi.hpp"],
  [("all shared data is constant; results live in the caller's object", "static const tables; buffer_ members")],
  (), ["every public entry point, called from several threads"])

p("C17", "Big-integer arithmetic is exact",
  "The library's big integer computes exactly: after any sequence of construction from decimal digits or a machine word, copying, assignment, adding or multiplying by a word, multiplying by a power of five, shifting left, taking absolute differences (into a third object) and comparing, its value is the mathematical result, equality and ordering agree with the mathematical ones, and the representation has no leading zero word. An operation whose result does not fit the capacity (at least 3328 bits are available), a non-digit character, an out-of-range word index or a difference of equal numbers raises a runtime error and never corrupts memory.",
  ["histories", "inputs"], "every finite sequence of operations with every operand, including all-ones words, carries and borrows across words, shifts by multiples of the word size",
  "No test touches the big integer at all.",
  ["include/lexi/detail/bigint.hpp", "src/detail/bigint.cpp"],
  [("carry, borrow and shift across words", "src/detail/bigint.cpp"), ("capacity assertion", "src/detail/bigint.cpp push_back, operator<<=")],
  [("digits_/count_", "little-endian words of the value", "include/lexi/detail/bigint.hpp")], ["BigInteger::count/digit/compare/operator==/difference/isZero"])

p("C18", "Float classification and powers of ten are exact",
  "For every double bit pattern, the classification predicates partition the values as IEEE 754 does: exactly one of finite, infinite, NaN holds; the signed-infinity tests hold for exactly one pattern each; zero holds for exactly the two zeros; positive reflects the sign bit. The power-of-ten lookup returns the double nearest to 10^n for every n from 0 to 308.",
  ["inputs"], "all 2^64 bit patterns; all 309 exponents",
  "The suite classifies three special values indirectly and never calls the power table.",
  ["src/detail/ieee754.cpp", "include/lexi/detail/ieee754.hpp", "src/detail/pow.cpp", "include/lexi/detail/pow.hpp"],
  [("bit masks", "include/lexi/detail/ieee754.hpp"), ("constant table", "src/detail/pow.cpp")],
  (), ["isNan/isInf/isNegativeInfinity/isInfinity/isFinite/isZero/isPositive", "pow10(n)"])

p("C19", "Conversions do not depend on the process locale",
  "Formatting, escaping and extraction give the same results whatever locale the process has selected: the decimal point is always '.', there is never digit grouping, and text written under one locale is read back to the same value under any other; which characters are white space, letters or digits does not change.",
  ["configurations", "inputs"], "every locale the C library can select, every number and every text",
  "The suite runs in the C locale only.",
  ["src/int.cpp", "src/float.cpp", "src/detail/dtoa.cpp", "src/detail/itoa.cpp"],
  [("formatting writes its own '.' and digits", "src/detail/dtoa.cpp, src/detail/itoa.cpp")],
  (), ["lexi::lexi(x) and lexi::lexi<T>(text) after setlocale"])

p("C20", "Types are dispatched to the right textual form",
  "The generic functions choose the form by type alone: null, bool and char (exactly char) have their own forms; every other integer type, signed and unsigned char included, is written and read as a number; enumerations, scoped or not and of any integral underlying type, are written and read as the number of their underlying value; stream positions as their offset; float, double and long double as floats. The result of a generic function equals that of the matching formatter or extractor class, for const and non-const arguments alike. All these types, and strings given as std::string, a class derived from it, a literal, an array or a pointer, are accepted by every one of these functions, which return std::string, and lexi<T> returns T.",
  ["inputs", "programs"], "every supported argument type crossed with every value",
  "The suite calls the generic functions with one value for eight types; signed char, stream positions, enumerations with signed, char or 64-bit underlying types are never used.",
  ["include/lexi/lexi.hpp", "include/lexi/detail/type.hpp", "include/lexi/enum.hpp"],
  [("overload selection by type traits", "include/lexi/lexi.hpp Format/Extract, include/lexi/detail/type.hpp"), ("conversion through the underlying type", "include/lexi/enum.hpp")],
  (), ["lexi::lexi/string/escape/jsonify(x)", "lexi::lexi<T>(text)"])

p("C21", "Results do not depend on how the library is built",
  "Formatting and extraction give the same, correct results in every supported build of the library: with GCC or Clang, at any optimisation level, with signed or unsigned plain char, with or without copy elision, and with the portable fallback code in place of the compiler-specific fast paths. (Where a build choice changes the values of a type itself, as char signedness does for an enumeration over plain char, the texts follow the values.)",
  ["configurations", "inputs"], "the product of compiler, optimisation, char signedness, elision and fast-path selection, and every input",
  "The suite is run in one build (GCC, no optimisation, 64-bit multiply and count-leading-zeros intrinsics); the portable implementations are never compiled.",
  ["src/detail/diyfp.cpp", "src/detail/bigint.cpp", "src/detail/dtoa.cpp", "src/detail/string.cpp", "include/lexi/lexi.hpp"],
  [("alternative implementations selected by the preprocessor", "src/detail/diyfp.cpp mul/normalize, src/detail/bigint.cpp mulAdd, src/detail/dtoa.cpp LEXI_UNREACHABLE")],
  (), ["every public entry point, in several builds"])

p("C22", "Calls are pure and leave nothing behind",
  "What a conversion returns (or that it throws) depends only on its argument: not on which conversions ran before it in the process, in which order, how often, or whether some of them threw. A conversion, a formatter or extractor object that has been destroyed, and a conversion that threw, leave no memory allocated (repeating a call any number of times does not make the process grow) and no process-wide state changed (locale, rounding mode).",
  ["histories", "inputs"], "every history of calls, throwing ones included, and every later call",
  "Each test makes a handful of successful calls in one fixed order and looks at each result once; a stale cache, a scratch buffer not reset after an exception, or a leak is invisible to it.",
  ["src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/char.cpp", "src/null.cpp", "src/detail/dtoa.cpp", "src/detail/itoa.cpp", "src/detail/string.cpp", "include/lexi/lexi.hpp"],
  [("all working storage is automatic or inside the object", "FormatInt::buffer_, FormatFloat::buffer_, detail::dtoa, detail::escape"), ("tables are constant", "src/detail/dtoa.cpp, src/detail/pow.cpp, include/lexi/detail/fmt.hpp")],
  (), ["every public entry point, in a pristine process and after other calls", "allocation balance around repeated calls"])

p("C23", "Extractor objects are independent values that answer every conversion alike",
  "An extractor object (ExtractInt, ExtractEnum, ExtractFloat, ExtractBool, ExtractChar, ExtractNull) built from a text gives, for each type of its family, exactly what extracting that type from the text gives: whichever conversions are made, in whatever order and however often, after the text itself has been changed or destroyed, and from copies, assigned-to and swapped objects, whatever happens to other extractor objects. Building one from a text its family does not accept throws and leaves every existing object as it was.",
  ["histories", "inputs"], "every history of construction, copying, assignment, swapping, destruction and conversion, over every text",
  "The suite converts each extractor once, immediately, to one type.",
  ["include/lexi/int.hpp", "include/lexi/float.hpp", "include/lexi/enum.hpp", "include/lexi/bool.hpp", "include/lexi/char.hpp", "include/lexi/null.hpp", "src/int.cpp", "src/float.cpp", "src/char.cpp"],
  [("the readings are stored in the object", "ExtractInt::data_, ExtractFloat::float_/double_/data_, ExtractBool::data_, ExtractChar::c"), ("one conversion operator per type", "src/int.cpp, src/float.cpp, include/lexi/enum.hpp")],
  [("readings", "what the text means, for each type of the family", "ExtractInt::data_, ExtractFloat members, ExtractBool::data_, ExtractChar::c")], ["explicit conversions of the extractor classes", "ExtractNull::null()"])

p("C24", "Formatting does not depend on the rounding mode",
  "The text of every integer, float and double, the value of every integer extracted from text, and the escaped and JSON forms of every string are the same whichever floating-point rounding direction the calling thread has selected.",
  ["configurations", "inputs"], "the four rounding directions and every input (long double formatting and float extraction, which round by definition, are excluded)",
  "The suite runs with rounding to nearest only; the double formatter contains a floating-point estimate of a decimal exponent.",
  ["src/detail/dtoa.cpp", "src/detail/diyfp.cpp", "src/float.cpp", "src/int.cpp", "src/detail/itoa.cpp"],
  [("decimal exponent estimated in floating point, everything else in integers", "src/detail/dtoa.cpp getCachedPower")],
  (), ["lexi::lexi(x) after fesetround"])

p("C25", "Extended-precision arithmetic behind the double formatter is exact",
  "For the internal 64-bit-significand numbers f*2^e: taking a finite double apart gives its exact magnitude; normalising (significands below 2^53) and normalising a boundary (below 2^54) keep the exact value and set the top bit; the boundaries of a non-zero value are exactly half a unit above and half a unit below it (a quarter of a unit below when the significand is 2^52), with a common exponent; subtracting a smaller number of equal exponent is exact; a product has the 64 high bits of the exact product rounded to nearest with halves up, and the exponents' sum plus 64. For every exponent a normalised boundary of a finite double can have, the cached power of ten is the nearest 64-bit approximation of that power of ten, and brings the exponent of the product into -60..-32. The compiler-specific and the portable implementations agree.",
  ["inputs", "configurations"], "every double, every pair of significands, every exponent, both implementations",
  "The suite formats a few doubles; an error of a few units in the last place in this arithmetic changes the digits of only a few doubles in a million.",
  ["src/detail/diyfp.cpp", "include/lexi/detail/diyfp.hpp", "src/detail/dtoa.cpp"],
  [("128-bit product and portable four-part product", "src/detail/diyfp.cpp mul"), ("count-leading-zeros and portable normalisation", "src/detail/diyfp.cpp normalize, normalizeBoundary"), ("table of powers of ten", "src/detail/dtoa.cpp CACHED_POWERS_F, CACHED_POWERS_E, getCachedPower")],
  (), ["DiyFp members", "getCachedPower"])

p("C26", "The JSON form of every value is a valid JSON value that stands for it",
  "The JSON form (lexi::jsonify(x) and jsonify() of a formatter object) of every value of every supported scalar type is, with the default spellings, a complete JSON value (RFC 8259) of the right kind that stands for exactly that value: an integer, enumerator or finite float gives a JSON number (optional '-', no '+', no leading zero, digits on both sides of any '.', digits in any exponent) equal to the canonical numeral of an integer and reading back to the same double for a float (for a long double, to the nearest double; zero may lose its sign); a boolean gives true or false, null gives null, and a char a quoted string literal that decodes to that one byte, whichever byte it is (digits included). NaN and the infinities, which JSON cannot express, are excluded.",
  ["inputs"], "every value of every supported scalar type except NaN and infinities",
  "The suite looks at the JSON form of a handful of values, and never parses one.",
  ["include/lexi/lexi.hpp", "src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/char.cpp", "src/null.cpp", "include/lexi/enum.hpp", "src/detail/dtoa.cpp", "src/detail/string.cpp"],
  [("numbers are their own JSON form", "FormatInt::jsonify, FormatFloat::jsonify, FormatEnum::jsonify"), ("a char is a one-character string", "src/char.cpp FormatChar::jsonify"), ("layout of floats", "src/detail/dtoa.cpp prettify")],
  (), ["lexi::jsonify(x)", "Format*(x).jsonify()"])

p("C27", "Running out of memory is reported and harms nothing",
  "If any of the memory allocations a conversion makes fails (one of them, or all from some point on), the conversion either returns (or throws) exactly what it would have with memory to spare, or throws std::bad_alloc; it never returns a truncated, unescaped or otherwise different result, never ends the process, and loses no memory. Formatter objects that existed before, including the target of a failed assignment, still show what they showed, and the same conversion made afterwards gives its normal result.",
  ["fault_sequences", "inputs"], "every allocation made by every conversion, for every input",
  "No test makes an allocation fail.",
  ["src/detail/string.cpp", "src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/char.cpp", "src/null.cpp", "include/lexi/lexi.hpp", "include/lexi/detail/define.hpp"],
  [("all owned memory is in std::string objects", "src/detail/string.cpp escape/jsonify, Format*::string"), ("formatters keep their text inside the object", "FormatInt::buffer_, FormatFloat::buffer_")],
  (), ["every public conversion with each of its allocations made to fail in turn"])

p("C28", "Conversions work before main and after static objects are destroyed",
  "Every conversion gives its normal result when it is called from a static initialiser that runs before the initialisers of the library's own translation units, again from main after that, and from a destructor or exit handler that runs after all static objects have been destroyed, having also been used in between. The library needs no initialisation and leaves nothing that has to be torn down.",
  ["schedules", "inputs"], "every order of static initialisation and destruction, every conversion and input",
  "All tests run from main.",
  ["src/detail/dtoa.cpp", "src/detail/itoa.cpp", "src/detail/pow.cpp", "src/detail/string.cpp", "src/float.cpp", "src/bool.cpp", "src/null.cpp", "include/lexi/detail/fmt.hpp"],
  [("tables and spellings are constant-initialised", "CACHED_POWERS_F/E, POWER10, HEX, TRUE_STRING, NAN_STRING"),],
  (), ["every public entry point, from prioritised constructors and destructors"])

p("C29", "Conversions cost time and memory in proportion to the text",
  "The time and the memory that escaping, JSON encoding, passing through, or extracting any type from a text takes grow at most in proportion to the length of the text, whatever its contents: there is no input on which they grow faster (with the square of the length, say).",
  ["inputs"], "every text, of every length: runs of characters to escape, of white space, of zeros and digits, of junk",
  "The suite's longest text has a few dozen characters, for which any growth is invisible.",
  ["src/detail/string.cpp", "src/int.cpp", "src/float.cpp", "src/bool.cpp", "src/null.cpp", "src/char.cpp", "include/lexi/lexi.hpp"],
  [("one pass over the source into a reserved buffer", "src/detail/string.cpp escape/jsonify"), ("one scan of the text", "src/int.cpp ExtractInt, src/float.cpp ExtractFloat")],
  (), ["processor time and peak memory of a conversion of a text and of one eight times as long"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")

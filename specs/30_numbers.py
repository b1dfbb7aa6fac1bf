P("N01", "Integer parsing is exact and rejects everything that is not in range",
  "For every byte string and every integer type, conversion succeeds if and only if the string is an optional '+' (or '-' for signed types) followed by one or more decimal digits whose value fits the type, and then yields exactly that value; otherwise it reports failure (the returning form throws std::invalid_argument) and leaves the target untouched. Byte-sized types take exactly one character as it is, bool exactly one character '0' or '1', and a string takes the whole input.",
  ["inputs", "configurations"], "all strings over small alphabets x 8 integer types x iterator kinds; every digit position of every type limit; all byte values at every position",
  "The tests convert some numbers back and forth; overflow by one, a wrong digit at one position of a long number, or a stray byte are single points among 2^64.",
  [("string_to_type_converter", "strtk.hpp: string_to_type_converter_impl(unsigned_type_tag/signed_type_tag)"), ("numeric limits", "strtk.hpp: details::numeric<T>")],
  "n01_int_parse.cpp", "All strings over {0,1,9,+,-,x} to length 6; all values 0..140000 with signs for 16-bit types; limits and all powers of 2 and 10 +-12 with signs, zeros and trailing characters; every digit of every limit changed to every digit; digit counts 1..40; all bytes at each position of lengths 1..22.")
P("N02", "Integers become canonical decimal text that reads back to the same value",
  "For every value of every integer type, type_to_string() yields the shortest decimal text ('-' only for negative values, no leading zeros) and string_to_type_converter() of that text gives the same value. Single bytes, bools and strings become their text unchanged.",
  ["inputs"], "all 16-bit values; all three-digit groups at each position; neighbourhoods of powers of 2 and 10; contiguous ranges at both ends of the 32- and 64-bit types; targets that hold the number before or another text of the same, a smaller or a larger length",
  "The tests round-trip a list of numbers; the writer uses digit tables of 1000 and 100 entries, one wrong entry or group boundary shows for few values only.",
  [("type_to_string", "strtk.hpp: type_to_string_converter_impl(unsigned_type_tag/signed_type_tag), rev_3digit_lut, rev_2digit_lut")],
  "n02_int_text.cpp", "All 2^16 values of the 16-bit types, every value of every three-digit group, +-1050 around all powers of 2 and 10 and their multiples, 700000 values at each end of the 32/64-bit types (thorough 20 million).")
P("N03", "Real numbers are accepted by one grammar and converted to the nearby value",
  "For every byte string, conversion to float, double or long double succeeds if and only if it reads [+-]digits[.digits][(e|E)[+-]digits of at most 4 significant digits][fFlL] with at least one mantissa digit, or [+-][1.][#] inf, infinity or nan in one case, and then yields the written value: exactly for integers up to 2^53, otherwise within (digits+8) units of 2^-52 relative (float: one float unit more), infinity or zero when out of range. On failure it returns false (the returning form throws) and leaves the target untouched. Unspecified: inf or nan after another numeric prefix, an integer part above, or a mantissa below, the double range brought back by its exponent.",
  ["inputs", "configurations"], "all strings over small number alphabets, all exponents -700..700 (and 0..12000) times 20 mantissas, 0..420 digits before and after the point, all bytes at every position",
  "The tests convert a list of well formed numbers; a wrong table entry for one exponent, a digit count limit or an accepted garbage byte needs that exact input.",
  [("string_to_type_converter", "strtk.hpp: string_to_type_converter_impl(real_type_tag), details::pow10, details::parse_inf, details::parse_nan")],
  ["n03_real_parse.cpp", "n03_real_parse_lut.cpp"], "Both with digit arithmetic and with the digit table (strtk_use_lut) and unrolled loops (strtk_enable_superscalar): all strings over {0,5,.,e,-,+} to length 7 and {1,.,E,-,f,L,x} to 6; 20 mantissas x exponents; 7 digit patterns x 0..420 digits in 10 forms; 20000 values at every point position; integers near powers of 2 and 10; all bytes substituted and inserted at every position; 7 iterator kinds and 3 throwing forms; oracle strtold.",
  assumptions=("strtold of glibc is correctly rounded",))
P("N04", "Fast fixed-width conversion is exact for every width and position",
  "strtk::fast::numeric_convert for every compile-time and run-time width of 0 to 19 digits gives exactly the decimal value whenever it fits the type (20 digits for unsigned 64-bit without digit check), the checked forms report (or yield 0 for the compile-time width) any non-digit, and more than 20 digits are refused. all_digits_check and signed_all_digits_check are true exactly for digits (after one optional sign), and signed_numeric_convert skips leading zeros and applies the sign.",
  ["inputs", "configurations"], "every width 0..24; every digit at every position over three backgrounds; every byte at every position; all strings over {0,1,9,+,-,/,:} to length 6",
  "The hand-unrolled code has one body per width; the tests use a few of them with a few values.",
  [("strtk::fast", "strtk.hpp: namespace fast, numeric_convert_impl, all_digits_check_impl, signed_numeric_convert")],
  "n04_fast_convert.cpp", "All 20 compile-time widths and run-time widths to 24 with structured digit patterns, 6-7 integer types.")
P("N05", "Real numbers and streamed values become text that reads back",
  "For every float, double and long double, type_to_string gives one number, inf or nan in plain or exponent form that converts back to within one part in 10^9 of it (a float exactly), signs of zero included; and for every type with a stream output operator it gives exactly what that operator prints. join, construct and build_string use the same text, and a target that already holds text is replaced.",
  ["inputs", "configurations"], "every exponent of float and double x up to 69 (thorough 160) mantissa patterns x signs, long doubles over their whole range, decimals of few digits, streamed strings of all bytes, with and without boost, every stream state before the call, targets with other contents",
  "The tests print a handful of ordinary numbers; zeros, subnormal and extreme numbers, and the text reading back, are not sampled.",
  [("type_to_string", "strtk.hpp: type_to_string_converter_impl(not_supported_type_tag), details::precision"), ("join, construct, build_string", "strtk.hpp")],
  ["n05_real_text.cpp", {"src": "n05_real_text_boost.cpp", "flags": ["-lboost_regex"]}], "2048 exponents x 35-160 mantissas x 2 signs for double, 256 x 74 x 2 for float; 1400 (10000) exponents of long double x 20; 20000 (200000) short decimals; strings to length 5 (7) and scales to 70000 through a stream operator; both configurations.",
  assumptions=("a number within one part in 10^9 of the largest may read back as infinity",))

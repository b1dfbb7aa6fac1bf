P("J01", "join and its relatives compose exactly, and split undoes join",
  "For every sequence of elements and every delimiter, join() appends the elements' text in order with the delimiter between consecutive elements and nowhere else; join_if() does so for exactly the elements that satisfy the predicate, construct() for its arguments at every arity, bracketize() surrounds every element, build_string concatenates, replicate() repeats exactly n times and inserter() inserts after every k-th element. Joining one or more delimiter-free elements and splitting the non-empty result on that delimiter gives the elements back.",
  ["inputs", "configurations"], "all element sequences x delimiters x container kinds x arities 2..12 (sets of any order); iterators that pass only once",
  "The tests join a handful of fixed lists; empty elements, single elements, predicate-rejected ends and every arity are not covered.",
  [("join/join_if", "strtk.hpp: join, join_if overloads"), ("construct", "strtk.hpp: construct 2..12"), ("bracketize, replicate, inserter", "strtk.hpp")],
  "j01_join.cpp", "All tuples of up to 5 elements from 5 texts (empty, containing the delimiter, ...) x 4 delimiters x every overload; element counts to 300; every keep-mask of up to 12 elements; all construct arities.")
P("P01", "parse() fills exactly the requested values, in order, or reports failure",
  "For every input and delimiter set, parse() into 1 to 16 values succeeds if and only if the input has at least that many tokens (runs of delimiters counting as one) and each of the first ones converts to its target's type; on success target i holds the conversion of token i. With a trailing container (1 to 11 values before it) at least one further token is required and all of them are appended in order; values after the first token that fails to convert are left untouched.",
  ["inputs", "configurations"], "all inputs x delimiter sets x arities x target types x positions of a failing token; delimiter lists in turn; text targets with other contents",
  "The tests parse fixed, well-formed lines at a few arities; each arity is separate hand-unrolled code and failure can happen at any position.",
  [("parse 1..16", "strtk.hpp: strtk::parse(begin,end,delimiters,t1..t16)"), ("parse with container_adder", "strtk.hpp: strtk::parse(...,t1..t11,container)")],
  "p01_parse.cpp", "All strings over {1 , ; x} to a length; token counts 0..18 x failing position x every arity 1..16 (and 1..11 with each of eight container kinds) x delimiter shapes.")
P("P02", "parse() and parse_n() into containers add exactly the convertible tokens",
  "For every input, delimiter set and option combination, parse() into any supported container adds the conversion of each token split() yields that converts, in token order, keeps the container's previous contents, and returns the number of tokens. parse_n() does the same for the first n tokens only and returns how many elements it added, never writing past that many into an array; parsing an argument vector converts each argument in order, into a sequence (stopping at the first failure when asked to) or into 1 to 9 variables.",
  ["inputs", "configurations"], "all inputs x delimiters x options x n x container kinds x element types (with orders and underlying containers of their own); delimiter lists in turn; sizes to 131073",
  "The tests parse well-formed lists with default options; malformed tokens, n at the limits and each container's own code path are not covered.",
  [("parse into containers", "strtk.hpp: strtk::parse(...,Container)"), ("parse_n", "strtk.hpp: strtk::parse_n"), ("range_to_type inserters", "strtk.hpp: range_to_type_*")],
  "p02_containers.cpp", "All strings over small alphabets x 8 options x every n x eight container kinds plus arrays x int/string/double, token counts to 40 with a failing token at stepped positions.")
P("P03", "Line reading visits each line exactly once and parses it as parse() would",
  "For every text, for_each_line() passes each line to the callback exactly once and in order and returns their number; the _n forms (n at least 1) stop after n lines, and the conditional forms after the first line the callback rejects, which is not counted. read_line_as_value(), parse_line() and parse_line_n() consume exactly one line per call and give what conversion, parse() or parse_n() gives for that line, an empty line or an exhausted stream adding nothing and reporting failure (an empty line still reads as an empty string value).",
  ["inputs", "configurations"], "all texts made of up to 3 lines from a menu x final newline or not x arities x containers x options x n x stopping line; delimiter lists in turn",
  "The tests do not read line by line at all; empty lines, a missing final newline, a line longer than the buffer hint and failing lines in mid-stream are what goes wrong.",
  [("for_each_line family", "strtk.hpp: for_each_line*, read_line_as_value"), ("parse_line", "strtk.hpp: parse_line 1..12 and containers"), ("parse_line_n", "strtk.hpp: parse_line_n")],
  "p03_lines.cpp", "All texts of up to 3 (thorough: 5) lines from an 8-line menu with and without final newline, long lines, every arity 1..12 with a failing token at each position, eight container kinds, every n and every stopping line; read_line_as_value with nine buffer sizes over lines of every size to 70,000 (thorough: 140,000).")
P("P04", "Field adapters accept exactly the right fields and store exactly the right value",
  "For every field and at every field position, expect()/iexpect() succeed exactly on equality (ignoring ASCII case), like() exactly when the wild-card pattern matches, inrange() exactly when the field converts to a value within [low,hi], trim*() after removing the leading and/or trailing listed characters, as_lcase()/as_ucase() store the case-converted field, fill_array() succeeds exactly for a field of the array's size and ignore_token always. A failing adapter makes the parse fail; inrange, numeric trim and fill_array then leave their target untouched, and fill_array never writes outside it.",
  ["inputs", "configurations"], "all short fields x adapter arguments at first, middle, last and only position; all byte values; fields to 80 characters; text targets with other contents",
  "The examples use each adapter once with a matching field; near misses in length, case or bound are not tested.",
  [("expect, iexpect, like, inrange, trim, as_lcase, as_ucase, fill_array, ignore_token", "strtk.hpp: details::*_impl, string_to_type_converter_impl")],
  "p04_adapters.cpp", "All expectation/field pairs to length 3 over 5 letters, all byte pairs, all patterns to length 4 over {a,b,*,?} x fields to 4, all ranges over -3..3 x values -5..5 x 8 integer types and reals, all trims over 4 letters to length 5, array sizes 1..64.")
P("P05", "Number and container sinks store exactly what their field says",
  "For every field, hex_to_number_sink accepts exactly [0x]1..2*sizeof hex digits and stores that number, base64_to_number_sink stores the big-endian value of 1..sizeof decoded bytes, hex_to_string_sink the decoded bytes, truncated_int the integer before the point (or before the last fractional_size+1 characters), decimal_sink the decimal value with at most frac_size fraction digits for integer parts of at most int_size digits. A sink_type container receives the field's elements in order and succeeds only if there are any, or with count(n) only if the first n exist and convert (a set counts distinct ones); a refused number leaves its target untouched.",
  ["inputs", "configurations"], "all short fields x 8 integer types x entry points; every digit position and byte; all element lists to length 4 x 8 containers x delimiters x counts; container delimiter lists in turn",
  "The examples parse one full-width hex number; shorter and too long numbers, limits, truncation lengths and counts around the element number are untested.",
  [("hex_to_number_sink, base64_to_number_sink, hex_to_string_sink, truncated_int, decimal_sink, sink_type", "strtk.hpp")],
  "p05_sinks.cpp", "All hex texts over 6 letters to length 5 and all digits at each position to 18 digits; byte strings to length 5 over 4 bytes for base64; all texts over {0,3,.,-,x} to length 5 x truncation and decimal sizes; type limits; containers of all lists over 3 values to length 4 and one list to 40; counts of 255 to 2^64-2 that no field can satisfy.")
P("P06", "Column selection takes exactly the listed columns of a row",
  "For every row, delimiter set and strictly increasing list of 1 to 12 columns, parse_columns() converts the listed tokens of the compressing split, left to right, and succeeds exactly when the row has the last listed column and every listed token converts; on failure the targets before the failing column are set and the others unchanged. A column_selector receiving the tokens of a split sets the target of each listed column that exists and converts and leaves the rest unchanged.",
  ["inputs", "configurations"], "all column lists x all short rows, every arity, form, type and position of an unconvertible token; delimiter lists in turn",
  "The tests read five even or odd columns of one row; the hand-written overloads for each arity, missing columns, repeated delimiters and mixed types are not reached.",
  [("parse_columns", "strtk.hpp: strtk::parse_columns (48 overloads)"), ("column_selector, column_list", "strtk.hpp: details::column_selector_base/_impl, compose_st_selector_impl")],
  "p06_columns.cpp", "All rows over 3 letters to length 7 (thorough 9) x all column lists within 4; all 1..12-column lists out of 13 tokens x each unconvertible token; each arity in every form (range, string, array list, vector, deque, list, named selector) for 0..28 tokens; all four-type assignments.")
P("P08", "Type-erased values, attributes and semantic actions stay bound through copies",
  "A util::value bound to an object converts a field into exactly that object (and prints it) as the object's own type would, an unbound one refuses, and copies and assignments are bound to the same object, independent of the life of the value copied from. A util::attribute reports value, previous value (the one before the last assignment), initialised and changed accordingly, a parsed field sets its value, and it has no text before it is initialised. A semantic action is called once per token, in order, with exactly that token, and a refusal fails the parse there.",
  ["sequences of operations", "inputs"], "all operation histories over two values and two objects, all attribute histories, all short rows x refusals",
  "The tests bind and feed each type once; copies outliving their source, rebinding, refusals and histories of assignments and parses are never combined.",
  [("value", "strtk.hpp: util::value"), ("attribute", "strtk.hpp: util::attribute"), ("semantic_action", "strtk.hpp: util::semantic_action_impl")],
  "p08_value.cpp", "All histories of 4 (thorough 5) operations (bind, copy, assign, reset, feed, destroy source) over 2 values x 2 objects for int and string; 15 bound types; all attribute histories of 5 (thorough 6) operations; all rows over {1,x,comma} to length 6 x refusing call x copied actions.", level="model_checking")
P("P07", "Key-value parsing sets exactly the registered targets named by the data",
  "For every data string, the non-empty blocks between block delimiters are taken in order, each split at its first pair delimiter, and the value (which may not be empty) converted into the target last registered for exactly that key; string keys compare bytewise and numeric keys by value. A strict parse stops with false at the first malformed, unknown, refused or unconvertible pair and is false for empty data, an ignoring parse processes all pairs, returns true and counts the failures.",
  ["inputs", "configurations", "sequences of operations"], "all short data strings, key texts at every width and limit, each breakage at each pair, all registration and parse histories",
  "The tests parse two well-formed strings; malformed, unknown and duplicate pairs, numeric keys that wrap and re-registered keys are never combined.",
  [("keyvalue::parser", "strtk.hpp: keyvalue::parser"), ("keyvalue::uintkey_map, key_map, stringkey_map", "strtk.hpp")],
  "p07_keyvalue.cpp", "All strings over {a,b,=,|,1} to length 7 (thorough 8) with string keys, over {0,1,3,=,|} to 6 with numeric keys for 0..12 slots; key texts to 40 digits and all bytes; 7 breakages at each of up to 70 pairs; all histories of 5 registrations or parses; validators; 10 target types.")
P("P09", "Types and structures a user registers are parsed as they define themselves",
  "A type given a conversion with strtk_string_to_type_begin is converted by exactly that code from every iterator kind, and so wherever a built-in type may stand: as a parse target at every arity, as element of every container, in a registered sink, a grid, columns, a type-erased value or a text file. A structure described with strtk_parse_begin is filled exactly as parse() would fill its members in the order listed, ignored tokens being skipped. Success, failure and targets left untouched follow the same rules as for built-in types.",
  ["inputs", "configurations"], "all token sequences to length 4 over well formed, malformed, empty and over-long tokens x 2 registered types x 8 containers x arities 1..16 x 6 sinks, all token sequences to length 6 into 4 structures",
  "One example program converts a list of well formed dates; failures inside a user's conversion, other containers and positions, and structures with ignored tokens are not run by any test.",
  [("strtk_string_to_type_begin, strtk_register_userdef_type_sink", "strtk.hpp"), ("strtk_parse_begin, strtk_parse_type, strtk_parse_ignore_token", "strtk.hpp"), ("string_to_type_converter", "strtk.hpp: string_to_type_converter, supported_conversion_to_type")],
  "p09_userdef.cpp", "All tokens to length 5 (thorough 6) over {1,:,-,x,space} and 4 over {0,255,:} through 9 ways of conversion; all sequences of 4 of 6 tokens, 5..18 tokens with a bad one at each position; structures with up to 2 of 6 members wrong.")

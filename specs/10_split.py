W = "The bundled tests split a few dozen fixed strings"
P("S01", "split() partitions the input exactly as its options say",
  "For every input sequence, delimiter predicate or delimiter set and every combination of split options, split() yields exactly the tokens of the documented rule, in order, as sub-ranges of the input: one token between consecutive delimiters plus the leading and trailing ones (an empty input has none), runs of delimiters merged under compress, and the following delimiter (or whole run) appended under the include options. The returned count equals the number of tokens written, and every overload, container and output form agrees.",
  ["inputs", "configurations"], "all inputs x delimiters x the 8 option combinations x every split overload (char, C string, std::string, predicate objects, ranges, container, output iterator); delimiter sets and lists in turn (a call must not remember the last list); inputs inside longer texts; sizes to 131073",
  W + " with mostly default options; the rule has to hold for all inputs, all 256 byte values and all option combinations, including empty and delimiter-only inputs.",
  [("split", "strtk.hpp: strtk::split(DelimiterPredicate,begin,end,out,split_options) and overloads"), ("delimiter predicates", "strtk.hpp: single/multiple_char/multiple_delimiter_predicate")],
  "s01_split.cpp", "Inputs: all strings over small alphabets to a length, structured strings of every length to ~140 and sizes around powers of two, all 256 byte values as delimiter and as text, delimiter sets of 0..255 members; all 8 option sets.")
P("S02", "split_n() yields the first n tokens of split()",
  "For every input, delimiter, option combination and n, split_n() yields exactly the first min(n, count) tokens that split() yields for the same arguments, and returns how many it yielded. With n = 0 nothing is written.",
  ["inputs", "configurations"], "all inputs x delimiters x options x n (0 to beyond the token count) x overloads; delimiter lists in turn; sizes to 131073",
  W + " and compare few values of n; the two implementations are separate loops that have to agree everywhere.",
  [("split_n", "strtk.hpp: strtk::split_n and overloads")],
  "s02_split_n.cpp", "As S01, with every n from 0 past the token count.")
P("S03", "tokenizer iteration denotes the tokens of split()",
  "For every input, delimiter predicate and option combination, iterating a tokenizer from begin() to end() visits exactly the tokens split() yields for the same arguments, in order, after any history of copying, advancing, assigning a new range and restarting. An iterator equals end() if and only if every token has been visited, as_string() and remaining() describe the current token and the rest of the input, and for_each_token() visits the same tokens.",
  ["inputs", "histories", "configurations"], "all inputs x predicates x options x histories of iterator and tokenizer operations",
  W + "; iterator state (last token, trailing delimiter, copies, reassignment) depends on histories the tests do not walk.",
  [("tokenizer::iterator", "strtk.hpp: class tokenizer"), ("for_each_token", "strtk.hpp: for_each_token")],
  "s03_tokenizer.cpp", "Inputs as S01; histories: all sequences of 11 iterator/tokenizer operations to depth 4 (quick) or 5 (thorough) from every small input and option set.", level="model_checking")
P("S04", "Fixed-offset, pair and class-run segmentation follow their rules",
  "For every input, fixed-offset splitting cuts the input at the given lengths in order and in full, split_pair() cuts at the first delimiter, and the consecutive-run extractors yield, left to right, the maximal runs of characters of the requested class (bounded by the requested run length and token count). Each returns the number of pieces it wrote, and pieces never reach outside the input.",
  ["inputs", "configurations"], "all inputs x offset lists (1..12 offsets) x run classes x counts and lengths; predicates with a state, asked once for each character",
  "The tests use one or two fixed strings per function; ends of input, zero counts and runs that touch the end are not reached.",
  [("offset_splitter / offset_predicate", "strtk.hpp: offsets, offset_splitter"), ("split_pair", "strtk.hpp: split_pair"), ("consecutive runs", "strtk.hpp: split_on_consecutive*, match_n_consecutive")],
  "s04_segments.cpp", "All short inputs over class-covering alphabets, all offset arities with all small offset values, every run length and count bound.",
  assumptions=["offset predicates are fresh or reset"])
P("S05", "Regular expression splitting yields the chosen group of every match in order",
  "For every text and expression that matches no empty string, split_regex() emits, for each successive leftmost match, the range of the chosen group (0 to 9; an empty range when the group did not take part) and returns their number. split_regex_n() emits the first n of them and writes nothing beyond.",
  ["inputs", "configurations"], "18 expressions x all short texts x all groups x all limits around the number of matches, all overloads",
  "The examples print one text; group numbers, absent groups and limits at the number of matches are not checked by any test.",
  [("split_regex, split_regex_n", "strtk.hpp")], "s05_regex.cpp",
  "18 expressions x all texts over {a,b} to length 7 (documented ones over 4 letters to length 5), groups 0..9, limits 0,1,2 and count-1..count+1; texts to 120 matches; oracle std::regex of libstdc++, offsets compared.",
  flags=["-Dstrtk_no_tr1_or_boost", "-Dstrtk_enable_regex", "-lboost_regex"], assumptions=("std::regex and boost::regex agree on the chosen expressions (checked by the comparison itself)",))

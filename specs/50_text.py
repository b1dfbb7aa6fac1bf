P("T01", "In-place removal keeps exactly the elements it should, in order",
  "For every sequence and predicate or character set (all 256 byte values), remove_inplace drops exactly the matching elements, remove_consecutives_inplace all but the first of each run of matching (or, without a set, equal) elements, remove_leading/trailing(_leading_trailing) exactly the matching prefix/suffix, remove_duplicates all but the first occurrence of each byte, index_remover the elements at the given ascending indexes and remove_empty_strings the empty strings; survivors keep their order and the returned count is the number dropped. copy_if, copy_while, copy_until, copy_n, extract_unique and range_only_contains select the corresponding elements.",
  ["inputs", "configurations"], "all strings over a small alphabet x removal sets x every overload; all byte values; long strings; removal sets in turn; removal inside longer texts; copying forms to 131073; iterators that pass only once",
  "The tests remove from a few ASCII strings; runs at either end, everything matching, bytes of 0x80 and above and empty input are where in-place compaction goes wrong.",
  [("remove_inplace, remove_consecutives_inplace", "strtk.hpp: strtk::remove_*"), ("remove_leading/trailing, remove_duplicates", "strtk.hpp"), ("index_remover", "strtk.hpp: details::index_remover_impl")],
  "t01_remove.cpp", "All strings over 3 letters to a length x 6 sets x every overload (char, string, const char*, predicate, iterator range, adapter, sequence); all ordered byte pairs; lengths to 130 (thorough 400) with the special character at boundary positions; all index masks of up to 10 elements.")
P("T02", "Character replacement, case conversion and translation act bytewise",
  "For every string, replace() changes exactly the characters equal to the first argument, case conversion changes exactly the ASCII letters of the other case, convert_to_printable_chars() turns exactly the bytes outside 0x21..0x7E into '.', and a translation_table maps each byte of its input list to the byte at the same place in its output list (the last one given, if repeated) and leaves every other byte alone. A table whose lists differ in length is rejected by an exception, and range forms change nothing outside their range.",
  ["inputs", "configurations"], "all 256 byte values x replacements, all small translation tables, strings of every length to 512",
  "The tests use a few ASCII letters; bytes of 0x80 and above, case boundaries and range ends are not sampled.",
  [("replace, convert_to_lowercase/uppercase/printable_chars", "strtk.hpp"), ("translation_table", "strtk.hpp: strtk::translation_table, translate*")],
  "t02_translate.cpp", "All byte pairs for case and replacement, all input/output tables over 3 letters up to length 4 on all short strings, all 256 rotations of the full table.")
P("T03", "replace_pattern replaces every leftmost non-overlapping occurrence",
  "For every input, pattern and replacement, replace_pattern() yields the input with each occurrence of a non-empty pattern, scanned left to right without overlap, replaced (an empty pattern leaves the input unchanged); the iterator form writes exactly that many elements to its output and returns their number. remove_pattern() is replacement by nothing.",
  ["inputs"], "all inputs x patterns x replacements over small alphabets, occurrence counts, gaps and replacement lengths; targets with other contents",
  "The tests replace in fixed texts; overlapping candidates, occurrences at the ends, shrinking and growing replacements need every combination.",
  [("replace_pattern", "strtk.hpp: strtk::replace_pattern (string and iterator forms)"), ("remove_pattern", "strtk.hpp")],
  "t03_replace.cpp", "All patterns to length 4 x 6 replacements x all inputs to length 9 over {a,b}; 3-letter variant; 0..80 occurrences x gaps x pattern and replacement lengths; runs to 300; all byte pairs.")
P("T04", "Wild-card matching accepts exactly the strings the pattern describes",
  "For every pattern and string, match() is true if and only if the whole string can be obtained from the pattern by replacing each zero-or-more wild card by any string, each zero-or-one wild card by at most one character, and leaving the other characters as they are. This holds for any choice of wild-card values and element type.",
  ["inputs", "configurations"], "all patterns x all strings up to a length, all bytes",
  "The tests try a list of patterns; wrong matching needs a particular placement of several wild cards and repeated letters.",
  [("match", "strtk.hpp: details::match_impl, strtk::match")],
  "t04_wildcard.cpp", "All patterns over {a,*,?} to length 7 and {a,b,*,?} to length 5 x all strings over {a,b} to length 7; other wild cards and element types; all byte pairs; long inputs.")
P("T05", "Comparison and search, with and without case, find exactly the occurrences",
  "For every pattern and text, imatch, (i)begins_with and (i)ends_with hold exactly when the text equals, starts with or ends with the pattern (the i-forms after folding ASCII case), index_of and ifind (non-empty pattern) return the first position or npos, and (i)find_all report every leftmost non-overlapping occurrence in order (none for an empty pattern). imatch against a container finds the first equal element.",
  ["inputs"], "all patterns x all texts over a mixed-case alphabet, all byte pairs, long texts",
  "The tests search a few words; overlaps, case differences and non-ASCII bytes at the ends are not sampled.",
  [("imatch, ifind, find_all, ifind_all", "strtk.hpp"), ("begins_with, ends_with, index_of", "strtk.hpp")],
  "t05_search.cpp", "All patterns over {a,A,b} to length 3 x all texts over {a,A,b,B} to length 5; periodic patterns; all byte pairs; texts to 150 characters with patterns to 40.")
P("T06", "Text layout, single-character edits and character classes are exact",
  "For every string, width and padding character, left_align, right_align and center return the text unchanged if it is at least that wide and otherwise pad it to exactly the width (center puts the odd character on the right); values are laid out as type_to_string prints them. text::insert, remove and swap change exactly the indexed characters and do nothing for an index beyond the end, remaining_string is the suffix from the index (past the end: the whole string or, on request, nothing), and the is_ predicates hold exactly for the ASCII characters they name.",
  ["inputs", "sequences of operations"], "all lengths x widths x indexes, all byte pairs, all edit histories",
  "The tests do not touch this namespace; off-by-one padding and edits at the last index show for single lengths only.",
  [("text::center, left_align, right_align, remaining_string", "strtk.hpp: namespace strtk::text"), ("text::insert, remove, swap, is_*", "strtk.hpp: namespace strtk::text")],
  "t06_layout.cpp", "Lengths 0..80 x widths 0..90 (thorough 300 x 320), all byte pairs, values of 9 types; all edits at every index of strings to 80 characters; all histories of 5 (thorough 6) edits out of 12; all 256 bytes at each position of 40.", level="model_checking")
P("T07", "ext_string operations agree with the plain string operations",
  "Every ext_string operation (construction, case conversion, imatch, remove_leading/trailing, +, -, *, +=, -=, *=, <<, replace, as_type, split, split_n, parse and the character lists) yields the string, tokens or value of the corresponding plain string operation: + appends the printed value, - removes every non-overlapping occurrence, * repeats. Operators returning a new ext_string leave their operands unchanged.",
  ["inputs", "sequences of operations"], "all short strings x patterns x repetition counts x options, all histories of mutators",
  "The tests use one or two strings per operator; empty operands, zero repetitions, overlapping removals and operation sequences are not sampled.",
  [("ext_string", "strtk.hpp: strtk::ext_string")],
  "t07_ext_string.cpp", "All strings over 3-4 letters to length 7 (thorough 9) x patterns to length 3 x counts 0..9 x 7 removal sets x 4 split options; values of 9 types at their limits; all histories of 4 (thorough 6) operations out of 11; split and split_n (n from 0) into containers that are not empty.", level="model_checking")
P("T08", "String conditions and token filters pass exactly what they describe",
  "For every condition string and text, string_condition (equal, notequal, like, begins_with, ends_with; within and notwithin for a non-empty condition string) holds exactly when the text compares in the named way, also for copies. filter_on_match and filter_on_wildcard_match hand on exactly the tokens that equal a listed word (optionally ignoring ASCII case) or match the pattern, or exactly the others when told to hold matches back.",
  ["inputs", "configurations"], "all condition kinds x strings x texts, all word lists and tokens, all patterns; texts and conditions with NUL",
  "Nothing in the tests runs these; tokens shorter than a listed word, partial matches and the hold-back mode are where they go wrong.",
  [("string_condition", "strtk.hpp: strtk::string_condition"), ("filter_on_match, filter_on_wildcard_match", "strtk.hpp")],
  "t08_conditions.cpp", "All condition strings over {a,b,*,?} to length 3 x texts over {a,b,*} to length 4 (thorough 6), lengths to 40 with one differing byte anywhere, all byte pairs; word lists of 0..12 words x all tokens x 4 modes; all patterns over {a,*,?} to length 4 x all tokens over {a,b} to length 4.")

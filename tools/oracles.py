"""What each check compares the code with (used by gen.py to write the per-property part of DESIGN.md)."""
ORACLE = {
 "S01": "`split_model.hpp`: positions of delimiters, runs merged under compress, delimiter (run) appended under include; written as an index loop over a vector of cut positions, shares nothing with the code.",
 "S02": "the first n entries of the S01 model.",
 "S03": "the S01 model plus a cursor into its token list; histories run on copies of real iterators/tokenizers and are compared operation by operation.",
 "S04": "cumulative offsets; first delimiter; left-to-right scan for maximal runs of a class.",
 "S05": "std::regex of libstdc++ (the code uses boost), compared by offsets of the chosen group.",
 "J01": "string concatenation in a loop; for the inverse law, the S01 model.",
 "P01": "`parse_model.hpp`: compressing split, token i converted by the N01/N03 grammar; arity expanded by `parse_arity.hpp`.",
 "P02": "S01/S02 models plus element-wise conversion into a std container, previous contents kept.",
 "P03": "a getline model over the text (lines, final newline, empty lines), then P01/P02.",
 "P04": "one-line definitions of each adapter (equality, T04 wildcard model, bound test, trimmed substring).",
 "P05": "independent hex/base64/decimal readers working on __int128 and digit lists.",
 "P06": "the listed tokens of the compressing split, converted left to right.",
 "P07": "std::map from key to target plus a sequential interpreter of blocks and pairs.",
 "P08": "a map from value objects to bound targets (histories), an (old, new, initialised) triple (attributes), a log of calls (actions).",
 "P09": "the same conversion written over `std::string` tokens of the compressing split, applied in order by the P01/P02 models.",
 "N01": "a decimal reader over __int128 with explicit range test.",
 "N02": "snprintf of the C library.",
 "N03": "a hand-written grammar automaton for acceptance, strtold for the value with the stated tolerance.",
 "N04": "the N01 reader / snprintf per digit count.",
 "N05": "a number grammar for the text, the library's own N03-checked conversion for reading back, and the stream operator itself.",
 "E01": "digit-by-digit hex tables.", "E02": "RFC 4648 encoder/decoder over a bit list.", "E03": "bit-by-bit loops over std::vector<bool>.",
 "T01": "std::string loops (erase each unwanted position).", "T02": "256-entry map built entry by entry.", "T03": "leftmost non-overlapping search and replace on std::string.",
 "T04": "dynamic programming over (pattern position, text position).", "T05": "std::string::find / equality after tolower, position by position.",
 "T06": "std::string insert/erase/resize.", "T07": "std::string with the same operation spelled out.", "T08": "std::string predicates; filters compared with the list of accepted tokens.",
 "U01": "std algorithms or direct loops.", "U02": "std containers plus a live-object registry that sees every deletion.", "U03": "the list of converted tokens.",
 "G01": "`grid_model.hpp`: rows and columns as vector<vector<string>>, with a character automaton for quotes.",
 "G02": "the same model edited operation by operation; every view of the grid compared after every step.", "G03": "the same model; joins and partitions by loops.",
 "B01": "`bin_model.hpp`: native bytes with 32-bit counts.", "B02": "the B01 decoder over a byte vector; a reference cursor for histories.", "B03": "byte lists in the required order; std::string padding.",
 "B04": "memcpy of each value.", "U04": "the name composed by hand; std::string; a stack of saved values.",
 "U05": "the same elements through another container, and the same input with one element replaced.", "U06": "a controlled clock and two stored instants.",
 "C01": "std::next_permutation over index masks; Pascal's triangle in __int128.", "C02": "the complete tree of generator answers, weights counted exactly.",
 "D01": "std::map<std::string,value>.", "D02": "a bit vector filled through the filter's own indices, plus std::set of inserted keys for the no-false-negative half.",
 "D03": "std::set of inserted keys, and the size arithmetic in integers.", "D04": "equality with the filter written, and its behaviour afterwards.",
 "F01": "byte strings kept beside the files.", "F02": "lines and element lists kept beside the files.",
}

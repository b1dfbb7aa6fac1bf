P("U01", "Sequence utilities compute exactly what their names say",
  "For every sequence (every container or range form): iota stores value, value+1, ...; cut keeps characters [r0,r1) of each string not shorter than r0; count_consecutive_duplicates, min/max_of_cont and min_max_of_range/cont, first_non_repeated_char, skip_while_matching and the size_ predicates report the true count, extremum, position or comparison; lexicographically_canonicalize yields the least rotation; memcmp_n<N> compares exactly N bytes. make_string, clear_array, set_array, reverse, fill and the range adapters touch exactly the elements they are given and refuse lengths that do not fit.",
  ["inputs", "configurations"], "all short sequences over small alphabets, all lengths over block boundaries, all N to 70, all differing-byte positions; iterators that pass only once",
  "The tests call a few of these with one input; rotations with repeated runs, lengths around block sizes, extremes at the ends and bytes above 0x7F are not sampled.",
  [("iota, cut, min_max_of_range, lexicographically_canonicalize, first_non_repeated_char", "strtk.hpp"), ("memcmp_n, set_array, make_string, fill, reverse", "strtk.hpp"), ("range::adapter, size_equal_to ...", "strtk.hpp: strtk::range")],
  "u01_sequence.cpp", "iota: 5 element types x starts x lengths to 130 x 8 forms; cut: all bounds to 6 x all lists of 3 strings, bounds to 40; rotations: binary to length 12, ternary to 8, periodic to 40; memcmp_n 0..70, 127..129, 255 with each byte differing; arrays of 16 sizes x lengths.")
P("U02", "Container helpers move, own and delete exactly the elements asked for",
  "For every container: make_key_list and make_value_list return exactly the keys, respectively the values of one key, in order; delete_if deletes (once) and removes exactly the matching pointers and keeps the others in order, delete_all every pointer, leaving the container empty; util::push_back adds its 1 to 11 arguments in order; clear leaves the container empty. scoped_restore puts back the saved value at the end of its scope exactly if restoring is switched on at that time.",
  ["inputs", "sequences of operations"], "all subsets of deleted elements, all small multimaps, all arities, all histories of nested scopes, multimaps and sets with an order of their own, one pointer equivalent to another",
  "The tests do not touch these; double deletion or a skipped neighbour after an erase needs particular subsets.",
  [("make_key_list, make_value_list, delete_all, delete_if, push_back, clear", "strtk.hpp: namespace strtk::util"), ("scoped_restore", "strtk.hpp: util::scoped_restore")],
  "u02_containers.cpp", "7 container types x all masks of up to 8 (thorough 12) instance-counted elements, sizes to 100; multimaps of up to 5 entries over 3 keys; 11 arities x 5 containers; all histories of 6 (thorough 8) operations out of 5 over nested scopes.", level="model_checking")
P("U03", "Output iterators deliver every converted token once, in order",
  "For every token sequence, range_to_type_(back_/push_)inserter and range_to_ptr_type, used through *it++ = token, *it = token; ++it, split() or as call-backs, append exactly the values of the tokens that convert, in order, and range_to_ptr_type writes only that many elements and counts them. The value, push, counting and functional inserters append, count or hand on every value once, and for_each_token calls its function once per token, in order.",
  ["inputs", "configurations"], "all token sequences of valid and invalid tokens x inserters x ways of writing, all delimiter placements, an unconvertible token at every position of every size",
  "The tests only use them through split() into a vector; unconvertible tokens between good ones and both increment forms are not sampled.",
  [("range_to_type_back_inserter, range_to_type_inserter, range_to_type_push_inserter, range_to_ptr_type", "strtk.hpp"), ("back_inserter_with_valuetype, inserter_with_valuetype, push_inserter, counting_back_inserter, functional_inserter", "strtk.hpp"), ("for_each_token", "strtk.hpp")],
  "u03_inserters.cpp", "All sequences of 3 (thorough 4) tokens out of 10 x 10 targets x 4 ways of writing, lengths to 80 with an unconvertible token anywhere; all value sequences of length 6 over 4 values x 10 inserters; all strings over {a,comma,semicolon} to length 8.")
P("U04", "Type names, printed tokens and scoped restoration say what is there",
  "For every supported type, array, pair and container type_name() is the composition of the names of its parts, on every call. Printing a token range or tokenizer iterator writes exactly the characters of the token, an attribute prints and compares as its value does, and a scoped_restore resets its variable when the scope ends, normally or by an exception, if and only if it is armed at that time.",
  ["inputs", "histories"], "all 14 named types x 9 compositions; all sub-ranges of all short strings x 6 iterator kinds; all nestings of scopes to depth 4 x armed, switched or left by exception",
  "No test prints a range with NUL or 8-bit characters, names a composed type or nests scopes.",
  [("type_name", "strtk.hpp: strtk::type_name"), ("operator<<", "strtk.hpp: ostream operators for ranges, tokenizer iterators and attributes"), ("scoped_restore", "strtk.hpp: util::scoped_restore")],
  "u04_describe.cpp", "14 types x 9 compositions, asked twice; all strings to length 5 (thorough 7) over 4 bytes x all sub-ranges; all histories of nested scopes to depth 4 (5) over 8 kinds.", level="model_checking")
P("U05", "A hash depends on every element, on the seed and on nothing else",
  "For every string, sequence and iterator range of integers or doubles, hash gives the same value for the same elements in the same order and the same seed, whatever container or iterator they come through and however often it is asked, and leaves the elements alone. Every element at every position has a say: at each place of an input of any length some other element gives another value, so no element is skipped. The seed is honoured, and where it is not given the documented default is used.",
  ["inputs", "configurations"], "all lengths to 300 (thorough 2000) x every position x 7 element types x 7 seeds, every byte of every element, all short strings",
  "No test calls it; an element lost at an odd length or after a block boundary changes nothing a user can see until keys that differ only there collide.",
  [("hash(string), hash(sequence), hash(iterator,length,seed)", "strtk.hpp: strtk::hash"), ("compute_block, compute_pod_hash", "strtk.hpp: details::hash")],
  "u05_hash.cpp", "Lengths 0..140 and on to 300 (2000) x 3 fillings x up to 7 seeds, each position replaced by each other value; every byte of int, unsigned, 64-bit and double elements at every position to 40 (140) elements; all strings over {a,b,0x80} to length 7 (9) and all two-byte strings through 7 kinds of iterator; every place of texts to 200 (600) characters.",
  assumptions=["The mixing quality is not claimed, and seeds below 8 (which the mixing function multiplies away for one element) are left out; characters from 128 up are compared through constant pointers only, since char* hashes them as unsigned."])
P("U06", "A timer reports exactly the clock's time between its start and its stop",
  "For every history of start, stop and clock readings, usec_time() is the clock's distance from the last start to the last stop in microseconds and time() the same in seconds; while the timer runs, or if the clock was set back between the two by any amount, it is the greatest value instead. in_use() holds exactly from a start to the next stop. A scoped_timer writes its scope's time when the scope ends, normally or by an exception, and not before.",
  ["histories", "faults"], "all histories of starts, stops and clock movements to depth 4 (thorough 6) under a clock the harness controls, all pairs of positions within a second, nested scopes, several initial values of the clock",
  "A test cannot move the system clock: borrow across the second boundary and clocks set back never occur in one.",
  [("timer::start, stop, usec_time, time, in_use", "strtk.hpp: util::timer"), ("scoped_timer", "strtk.hpp: util::scoped_timer")],
  "u06_timer.cpp", "12 operations (start, stop, 10 clock movements between -1 hour and +1 day) to depth 4 (6) from 3 positions in the second, copies included; 16 x 16 microsecond positions x 18 distances; nested scoped timers to depth 3 (4), each left normally or by exception.", level="model_checking",
  assumptions=["gettimeofday and clock_gettime are replaced by the harness' clock; the Windows branch is not built."])

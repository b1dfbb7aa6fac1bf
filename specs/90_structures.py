P("C01", "Combinations and permutations are enumerated completely, once, in order",
  "For every sorted sequence and every k next_combination, combination_iterator, for_each_combination and for_each_permutation visit each k-subset (arrangement) exactly once, the first two in lexicographic order, stop when told to, and leave the sequence as it was. n_choose_k is exact whenever the result fits 64 bits, whatever was asked before, and the n'th combination or permutation is the n'th that the enumeration visits.",
  ["inputs", "sequences of calls"], "all sequences to length 8 over 4 letters (repeats included) x all k x all container forms; all (n,k) to 110 in both orders and after each other; every index of every n'th query to size 8, combinations of up to 140 elements",
  "The example program prints two enumerations; repeated elements, k=0 and k=n, the memo table of n_choose_k and the first and last index are not sampled.",
  [("next_combination, combination_iterator", "strtk.hpp: namespace strtk"), ("for_each_combination, for_each_combutation, for_each_permutation", "strtk.hpp"), ("n_choose_k, nth_combination_sequence, nth_permutation_sequence", "strtk.hpp")],
  "c01_combinations.cpp", "All strings to length 8 (thorough 9) over 4 letters and selected to 12; n_choose_k for n to 110 ascending, descending, and all call histories of a small set; all indices of all sizes to 8.", level="model_checking")
P("C02", "Random selection depends only on its generator and can give every outcome",
  "For every sequence of answers of a generator over [0,1), random permutation, combination, select_k and select_1 return elements of the input only, as many as asked for and none twice, and over all answer sequences every outcome occurs with the weight a uniform choice gives it. Values, integers and random data stay in the range asked for and fill exactly the space given.",
  ["inputs", "generator answers"], "the complete tree of generator answers (every answer one of L equally likely values, and the end points of their intervals), for all sizes to 6 and all k, larger inputs by merging generator answers that lead to the same state",
  "A test cannot judge a random outcome; a bias, an element that can never come first, or an index one past the end at the largest generator answer does not show in any run with a fixed seed.",
  [("random_permutation, random_combination", "strtk.hpp: strtk_enable_random section"), ("generate_random_values, generate_random_data, uniform_real_rng", "strtk.hpp"), ("select_k_randomly, select_1_randomly", "strtk.hpp")],
  "c02_random.cpp", "Full answer trees with lcm(1..n) answers a call, n to 6; end points 0 and nextafter(1,0); data lengths 0..70 for fixed seeds; values drawn after up to 66,000 discarded words.", level="model_checking",
  assumptions=("the generator answers values in [0,1)",))
P("D01", "A prefix trie is an exact map from keys to their last value",
  "After every sequence of insertions find succeeds exactly for the non-empty keys inserted and gives the last value inserted for that key, and find_prefix succeeds exactly for the non-empty prefixes of inserted keys, for string, C string, pointer and other iterator keys. No insertion changes what another key maps to.",
  ["sequences of operations", "inputs"], "all insertion histories of depth 3-4 over all keys to length 3, all 256 bytes, and word sized key elements, against std::map, probing every key one longer",
  "The library's own tests do not touch the trie; a value stored on the wrong node shows only when one key is a prefix of another, and in one insertion order.",
  [("trie::prefix::insert, find, find_prefix", "strtk.hpp: namespace strtk::trie"), ("trie::insert, find, find_prefix, prefix_trie", "strtk.hpp")],
  "d01_trie.cpp", "All histories to depth 3 (thorough 4) over 15 keys, depth 4 (5) over 7 keys, keys with NUL, 0x80 and 0xFF, all one-byte keys with two-byte extensions, long keys.", level="model_checking")
P("D02", "A bloom filter never forgets a key, and its set operations are exact",
  "For every history of insertions, unions, intersections, differences, assignments, copies and clears on two filters, every key inserted and not cleared is reported contained, a key is reported exactly when all its bits are set, and size, element_count and equality follow. Filters of different parameters never affect each other, invalid parameters are refused, and optimal parameters give a filter whose false positive rate is near the one requested.",
  ["sequences of operations", "configurations"], "all histories to depth 4 of 12 operations over 7 keys, table sizes 1..4096 bits including those not a multiple of 8, 1..200 hashes and extreme seeds, against a bit model",
  "The example programs insert and look up one set of words with one filter; odd table sizes, many hashes, and combinations of set operations are not sampled.",
  [("bloom_filter", "strtk.hpp: namespace strtk::bloom"), ("bloom_parameters::compute_optimal_parameters, operator!", "strtk.hpp: namespace strtk::bloom")],
  "d02_bloom.cpp", "All histories to depth 4 (thorough 5) on 64 bits, 3 (4) on 5 odd sizes; keys to length 70, all one-byte keys, built-in types; 20000 probes per parameter set.", level="model_checking")
P("D03", "Compressing a bloom filter keeps every key, at every step of any history",
  "For every history of insertions, compressions, copies, assignments, set operations and clears of a compressible filter, every key inserted is still contained, compress succeeds exactly when the percentage is inside (0,100) and the smaller table holds at least one byte, a refused compress changes nothing, and no bit outside the table is touched. Filters compressed to different sizes are not combined.",
  ["sequences of operations", "configurations"], "all histories to depth 4 of up to 13 operations over table sizes 1..4099 bits, percentages from -5 to 105 in half steps, and chains of compressions down to the smallest table, with insertions in between, every load of the table",
  "The example program compresses step by step from one large filter; strong compression, tables of odd size and insertions after compressing twice are not sampled.",
  [("compressible_bloom_filter::compress, compute_indices", "strtk.hpp: namespace strtk::bloom")],
  "d03_bloom_compress.cpp", "All histories to depth 4 (thorough 5) at 64 bits and 3 (4) at 11 other sizes; every half percent from -5 to 105; chains to the smallest table.", level="model_checking")
P("D04", "A stored bloom filter is read back equal, or the failure is reported",
  "For every filter write_to_file followed by read_from_file gives an equal filter that keeps working. For every truncation of the file, implausible size in it, missing file, and every byte at which the disk is full, the reading or writing call returns false; a failed read of an opened file leaves an empty filter that can be used safely, and a missing file changes nothing.",
  ["fault points", "inputs"], "every truncation point of the stored file, every header field set to every boundary value, and a write failure injected at every byte of the file, every load of the table",
  "The tests never store a filter; a full disk and a file cut short cannot be sampled by an ordinary unit test.",
  [("bloom_filter::write_to_file, read_from_file", "strtk.hpp: namespace strtk::bloom")],
  "d04_bloom_files.cpp", "Filters of 9 sizes x 8 hash counts x 4 fillings x 2 seeds; all truncations of 6 files; file size limits at every byte (RLIMIT_FSIZE) and /dev/full.", level="model_checking",
  assumptions=("a full disk is simulated with a file size limit set for a child process, and /dev/full",))

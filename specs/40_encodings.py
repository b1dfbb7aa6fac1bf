P("E01", "Hexadecimal encoding and decoding are exact inverses for every byte string",
  "For every byte string, convert_bin_to_hex() gives two upper case hex digits per byte, high nibble first, and convert_hex_to_bin() of that text in either letter case gives the bytes back. Decoding an empty or odd-length text returns false and leaves the output unchanged; every form stays inside its buffers.",
  ["inputs", "configurations"], "all one and two byte inputs, every byte at every position, every length to 300; all short texts for decoding; every overload; targets with other contents of every relation to the result",
  "The tests encode a few strings; a wrong entry of the 256-entry tables shows for one byte only.",
  [("convert_bin_to_hex, convert_hex_to_bin", "strtk.hpp")], "e01_hex.cpp",
  "All 65792 inputs of up to two bytes, all 256 bytes at each position of lengths to 18, lengths to 300 with three fillings, all texts to length 6 over {0,a,F,9,f,g}, all byte pairs as text; string, pointer and pair overloads on exact-size buffers.")
P("E02", "Base64 encoding and decoding are exact inverses for every byte string",
  "For every byte string, convert_bin_to_base64() gives the standard padded encoding, and convert_base64_to_bin() of that text, with or without its padding, gives the bytes back. Both return the exact output length, empty input gives empty output, and decoding any bytes writes only that many bytes.",
  ["inputs", "configurations"], "all one and two byte inputs, bit-pattern triples, every byte at every position, every length to 200; texts of every remainder; targets with other contents",
  "The tests encode a few strings; errors live in one table entry, one remainder class or the handling of padding and short input.",
  [("convert_bin_to_base64, convert_base64_to_bin", "strtk.hpp")], "e02_base64.cpp",
  "All inputs of up to two bytes, all triples of bytes with at most one bit set or clear (thorough two), all bytes at each position of lengths to 16, lengths to 200, all texts to length 8 over 4 letters, foreign bytes at every position; exact-size buffers.")
P("E03", "Bit interleaving, bitwise transforms, bit counts and distances are exact",
  "For all byte strings, twoway_bitwise_interleave() puts bit i of the first at 2i and of the second at 2i+1 of each 16-bit group, bitwise_transform() is bytewise and/or/xor, hamming_distance() counts differing bits, hamming_distance_elementwise() differing elements and high_bit_count() set bits, and strings of unequal length are refused (false, output untouched, or the maximum size_t). bit_state, set_bit_high and set_bit_low touch exactly the indexed bit, and create_nway_interleave_table<2,4,8> spreads the bits n apart.",
  ["inputs", "configurations"], "all byte pairs; all short strings; every length to 150; all 16-bit values; every bit of buffers to 20 bytes; targets with other contents",
  "Not covered by the tests beyond one interleaving example; tables of 256 entries hide single wrong entries.",
  [("twoway_bitwise_interleave, bitwise_transform, hamming_distance*, high_bit_count, bit_state", "strtk.hpp")], "e03_bits.cpp",
  "All 65536 byte pairs through every operation and overload, all pairs of strings to length 3 over 4 byte values, lengths to 150, byte-pair patterns in 32 and 64-bit words, every bit index of 1..20 bytes x 3 fillings; single bits of a full 140,000-byte (thorough: 600,000-byte) table at every size boundary.")

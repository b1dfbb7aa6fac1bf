P("B01", "What the binary writer writes, the binary reader reads back exactly",
  "For every value of a built-in type, string, pair, user record, array, pointer with a count, and every vector, deque, list, set or multiset of them (nested to any depth), writer produces its native bytes (strings and sequences behind a 32-bit count) and reader restores an equal value from them. Both succeed if and only if the room or input has at least that many bytes, and never touch a byte outside it.",
  ["inputs", "configurations"], "all small containers over boundary values x element types x container types, every capacity and every truncation of every encoding (sets of any order)",
  "The example programs write a few values to a large buffer; exact-fit buffers, every truncation point, empty elements and nested containers are not sampled.",
  [("binary::reader", "strtk.hpp: namespace strtk::binary"), ("binary::writer", "strtk.hpp: namespace strtk::binary"), ("strtk_binary_reader/writer macros", "strtk.hpp")],
  "b01_binary_roundtrip.cpp", "14 built-in types with every byte value at every position; strings to length 6 over {a,0,255} and all lengths to 300; all containers to length 4 (thorough 6) over 3 values of 11 element types, lengths to 257; arrays of 5 sizes; every capacity and truncation.", opt="-O0")
P("B02", "The binary reader and writer never leave their buffer, whatever the history",
  "For every input bytes, reader decodes a string, pair, record or container exactly as the format says or returns false, however large the counts in it are, without touching memory outside the buffer. For every sequence of reads or writes, seek, rewind, mark, reset_to_mark, reset and clear, position, amount and position_ptr follow, a refused fixed-size read, write or move changes nothing, and only the bytes accepted are written.",
  ["inputs", "sequences of operations"], "all byte strings to length 8 over {0,1,2,255} plus hostile counts x 17 types; all histories of 4-5 operations on buffers of several sizes, against a reference cursor",
  "The example programs only read what was just written, in order; hostile counts, moves to and past either end and operations after a refused one are not sampled.",
  [("reader::operator(), seek, rewind, mark, reset_to_mark, reset, clear", "strtk.hpp: binary::reader"), ("writer::operator(), mark, reset_to_mark, reset, clear", "strtk.hpp: binary::writer")],
  "b02_binary_bounded.cpp", "All byte strings to length 8 (thorough 10) over 4 bytes and 16 counts x 41 lengths x 3 fillings, 17 decoded types; all histories of up to 4 (thorough 5) operations out of 19 (reader) and 14 (writer) on buffers of 5 sizes.", level="model_checking")
P("B03", "Byte order, padded fields and short strings are exact in binary buffers",
  "For every 16, 32 and 64-bit integer native_to_be/le writes the big, respectively little endian bytes, be/le_to_native reads them back, and convert is its own inverse. A padded field holds the value's text and the padding on the requested side, exactly size characters, or nothing is written; a fixed width read converts exactly those characters. pascal_string and short_string hold strings up to 255 and 65535 characters or refuse them, and streams carry exactly the bytes written.",
  ["inputs", "configurations"], "all 16-bit values, all byte patterns over boundary bytes for 32 and 64 bits, all widths around the text x rooms x paddings, all short-string lengths around the limits",
  "The tests do not check byte order, and pad one number; single lost bytes, right padding, exact limits and short rooms are not sampled.",
  [("details::convert, convert_to_be, convert_to_le, native_to_be, be_to_native", "strtk.hpp: namespace strtk::binary"), ("writer::operator()(input,size,padding_mode), reader::operator()(output,size)", "strtk.hpp"), ("short_string_impl", "strtk.hpp: binary::details")],
  "b03_binary_endian.cpp", "All 65536 16-bit values signed and unsigned; 6^4 and 3^8 byte patterns plus every byte at every position; integers -120..120 and extremes and strings to length 4 x widths x rooms x 3 paddings; lengths 0..520 and around 65535.")
P("B04", "Values packed into memory are their native bytes, and unpack to themselves",
  "For every list of 1 to 12 values, array, vector, deque, list, set or multiset, write_pod to memory writes exactly the values' native bytes one after the other and returns the address behind them. read_pod from such bytes gives back the values (or the first n of them, added to a container) and returns the address behind what it read; neither touches a byte outside.",
  ["inputs", "configurations"], "all arities x type mixes of different sizes x alignments; arrays and containers of every small content and sizes to 65537, every count",
  "No test or example uses these functions; one wrong size or address in twenty-four unrolled overloads shows only in the arity and type mix it concerns.",
  [("read_pod, write_pod (memory)", "strtk.hpp: strtk::read_pod(unsigned char*,...), strtk::write_pod(unsigned char*,...)")],
  "b04_memory_pods.cpp", "Arities 1..12 in 24 type mixes x 40 (thorough 400) value sets x 3 alignments; arrays of 7 types x 10 sizes; containers of all contents to 4 (thorough 6) elements over 3 values of 6 types and sizes to 65537.", opt="-O0")

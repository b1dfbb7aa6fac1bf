P("F01", "File helpers move exactly the bytes asked for, or report failure",
  "For every file size write_file, load_file, copy_file, concatenate, read_at_offset, read_pod and write_pod move exactly the requested bytes, file_size and files_identical are exact, and inputs are unchanged. A missing input, a request past the end of a file, and a disk full after any number of bytes make the call return false, and a missing input leaves an existing output as it was.",
  ["inputs", "fault points"], "all file sizes to 20 and around every multiple of the block size x contents x overwritten files, every truncation and offset, and a full disk at every byte near block edges; strings with other contents",
  "The library's own tests never touch these helpers; block boundaries, a disk that fills up during the last flush, and missing inputs are not sampled.",
  [("fileio::write_file, load_file, copy_file, concatenate, files_identical, file_size", "strtk.hpp: namespace strtk::fileio"), ("fileio::read_pod, write_pod, read_at_offset", "strtk.hpp: namespace strtk::fileio")],
  "f01_fileio.cpp", "48 file sizes x 5 contents x 3 old contents; all pairs of 13 sizes; single byte differences at up to 15 positions; file size limits at every byte near the edges of 8 KB blocks; pods of 1-10 values, arrays and containers cut at every byte.", level="model_checking",
  assumptions=("regular files; source and destination are different files", "a full disk is simulated with a file size limit (RLIMIT_FSIZE) and /dev/full"))
P("F02", "Text files are loaded line by line and written element by element, completely",
  "For every text load_from_text_file adds one converted element per line, in order, to a vector, deque, list, set, multiset, queue, stack or priority queue, and returns the number of lines; a missing file or unusable stream adds nothing. write_to_text_file writes every element followed by the delimiter and returns their number, so elements without newlines written with a newline are read back equal.",
  ["inputs", "configurations"], "all texts to length 8 over {character, newline} and 4-5 over control bytes x 8 containers x buffer sizes x stream and file; all sequences of 4-5 elements x delimiters x 5 containers (of any order)",
  "The examples load one well formed file into one container; empty lines, missing final newlines, embedded NUL and CR and the other containers are not sampled.",
  [("load_from_text_file", "strtk.hpp: namespace strtk"), ("write_to_text_file", "strtk.hpp: namespace strtk")],
  "f02_textfile.cpp", "All texts to length 8 (thorough 11) over 2 characters, 4 (5) over 4; long lines around the buffer size; all sequences to length 4 (5) over 5 strings, 3 over numbers and characters x 4 delimiters.",
  assumptions=("the file system accepts all that is written (F01 treats full disks)",))

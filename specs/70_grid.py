P("G01", "A token grid shows exactly the rows and tokens of its text",
  "For every text, delimiter set and column split mode, a token_grid has one row per non-blank line, in order, holding the tokens split() gives for that line (with double-quote support a delimiter inside quotes does not separate, quotes end with the line, and trimming removes one enclosing pair). Every accessor (token, row, size, null and range queries, counts, raw lengths, as_string, row parsing, iteration over rows, columns and row ranges) reports exactly that, and out of range positions give null tokens or false. Loading the same text from a buffer, string, file or by load() gives the same grid and a failed load leaves no rows of the earlier text.",
  ["inputs", "configurations", "sequences of operations"], "all short texts over data, quote and delimiter characters x options, all row and column positions and ranges, histories of loads, rows of up to hundreds of tokens of every type",
  "The tests use a handful of tidy texts; blank lines, unbalanced quotes, ragged rows, empty last tokens and reuse of one grid for several loads are not sampled.",
  [("token_grid constructors, load, process_token_split, dquote handling", "strtk.hpp: token_grid"), ("row_type accessors, row_type::parse, for_each_row, for_each_column", "strtk.hpp: token_grid::row_type"), ("token_grid::store", "strtk.hpp")],
  "g01_grid_view.cpp", "All texts to length 6-8 over {a,b,comma,newline,quote} alphabets x modes x quote/trim options x delimiter sets, all accessors at all positions, sizes to 70 rows x 12 columns; histories of loads good, empty and missing.", level="model_checking")
P("G02", "Editing a token grid removes exactly the asked rows and tokens",
  "After every sequence of remove_row, remove_row_if, remove_token_if, remove_empty_tokens, enforce_column_count and enforce_min_max_column_count (over all rows or a row range) a token_grid holds exactly the rows and tokens that the operations keep, in order; a row that loses all its tokens disappears, an invalid range changes nothing, and results count what was removed. Predicates see each row of the range once, in order, with its index, and row, minimum and maximum column counts are those of the rows left.",
  ["sequences of operations", "inputs"], "all histories of edits to depth 2-3 from all small grids, every operation at every row and range, compared with a reference model after each",
  "The tests remove rows once from one grid; edits of an already edited grid, ranges at either end, and counts after removal need histories.",
  [("remove_row, remove_row_if, remove_token_if, remove_empty_tokens", "strtk.hpp: token_grid"), ("enforce_column_count, enforce_min_max_column_count", "strtk.hpp: token_grid"), ("store::remove_row, row_index column counts", "strtk.hpp: token_grid::store")],
  "g02_grid_edit.cpp", "All texts to length 4 (4 symbols) and 6 (3 symbols) x every edit at every position; all 2-edit histories of all texts to length 4; all 2-3-edit histories of 5 larger grids; grids of 33 rows x 9 columns with every row range.", level="model_checking")
P("G03", "Column and row computations on a token grid use exactly the rows asked",
  "For every grid, row range, column (other than the one just past the last) and row predicate: extract_column and extract_column_checked deliver, for 1 to 5 columns, the converted tokens of the rows that have all those columns, in order; column_width is the longest token, accumulate_row and accumulate_column add every token once and return how many or 0, and join_row and join_column concatenate the non-empty accepted tokens with the delimiter between. sequential_partition calls its function with maximal runs, each starting at the first row or a row the transition predicate accepts, and stops when told to.",
  ["inputs", "configurations"], "all short texts x all row ranges x all columns and column tuples x all row subsets; all transition masks",
  "The tests sum and extract columns of tidy rectangular grids; ragged rows, missing columns, empty tokens, single-row groups and proper ranges are not sampled.",
  [("extract_column, extract_column_checked", "strtk.hpp: token_grid"), ("column_width, get_column_widths, accumulate_row, accumulate_column", "strtk.hpp: token_grid"), ("join_row, join_column, sequential_partition", "strtk.hpp: token_grid")],
  "g03_grid_columns.cpp", "All texts over {1,comma,newline} to length 6 and {1,x,comma,newline} to length 4, all row ranges, columns, 2-5-tuples of columns and row subsets; grids to 8 x 6; all transition masks of up to 10 rows x early stops.")

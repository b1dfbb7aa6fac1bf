#!/usr/bin/env python3
"""Write tools/bugs/CATCHES.md: which check catches which planted bug, and which were missed when planted."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {   # what the check lacked, and has now
 "P03-value-line-long": "read_line_as_value over lines and buffer sizes of every magnitude", "E03-bit-index-16": "single bits of large tables whose other bytes are in use",
 "C02-values-pregen": "pregen counts past the engine's table", "T07-split-n-zero": "n = 0 and containers that are not empty", "P05-count-max": "counts at and past 2^31, 2^32 and 2^63",
 "T08-assign-method": "ranges and sets that hold a NUL", "N02-u-hundred": "targets that already hold text of the same length",
 "S01-strnlen": "texts whose length is taken from a terminator", "S04-offset-tail": "tokens of one character at the end of longer records",
 "T03-inc-size": "replacements longer than the counted growth", "T05-iends": "suffixes compared over every length",
 "B02-seek-back": "seeks to every position, from every position", "B01-amount-array": "the amounts reported for arrays",
 "G02-enforce-max": "grids in which the longest row is not the first", "D02-and-tail": "tables of every size, not multiples of eight only",
 "C01-nth-perm-int": "permutation numbers past 2^31", "P02-parse-n-multiset": "repeated values and delimiter sets of every size",
 "P07-fail-count": "lenient parses of different texts one after another", "J01-empty-first": "joining onto an empty output",
 "T02-translate-dup": "translation lists longer than the character set", "T07-minus-growing": "the text in the middle of longer texts",
 "S01-delims-cached": "delimiter lists one after another, beginning with lists of every length", "C02-select-last": "up to nine elements, by merging generator answers with the same continuations",
 "C01-nth-comb-first": "combinations of up to 140 elements with their remainder", "U03-for-each-token-long": "unusual tokens at every container size",
 "D04-inserted": "filters at every load", "U06-adds": "several initial values", "N05-shared-stream": "streams left in every format state",
 "U02-delete-if-multimap": "multimaps with many elements of one key", "U03-inserter-copy": "hundreds of equal values",
}
rows = []
for d in sorted(os.listdir(os.path.join(R, "seeded"))):
    m = json.load(open(os.path.join(R, "seeded", d, "meta.json")))
    rows.append((d, m["property"], m["needs"].replace("|", "\\|"), "missed when planted; the check now also covers " + MISSED[d] if d in MISSED else "caught when planted"))
with open(os.path.join(R, "tools/bugs/CATCHES.md"), "w") as f:
    f.write("# Planted bugs and the checks that catch them\n\nEvery bug below lies in seeded/<id>/ and is caught by the quick command of the check named after its property (%d bugs, %d of them missed at first).\n\n| bug | caught by | needs | history |\n|---|---|---|---|\n" % (len(rows), sum(r[0] in MISSED for r in rows)))
    for r in rows: f.write("| %s | %s | %s | %s |\n" % r)
print(len(rows), "bugs")

sites = range(14)
text_out = ("Texts longer than the bound except behind the concrete paddings listed; several symbolic texts of more than one byte in one record. "
            "Values that implement json.Marshaler are covered only for being a JSON value, fmt of arbitrary Go values is not covered.")
for pid, h, deep in (("C01", 0, 4), ("C02", 1, 4)):
    spec(pid, "logs", [
        ("Text", prod([h], sites, [0, 1, 2]) + prod([h], [0, 2, 4], [3]), prod([h], sites, [3]) + prod([h], [0, 2, 5], [deep])),
        ("Padded", prod([h], range(6), [30, 62, 500, 510, 1000, 1020, 4090], [1]), prod([h], range(6), [14, 31, 126, 254, 505, 1010, 2040], [2])),
        ("Two", prod([h], range(5))),
        ("Compound", prod([h], [0, 1], [1])),
        ("Runes", [[h, 0]], [[h, 1]]),
        ("Long", prod([h], [2, 3, 4], [2100]), prod([h], [2, 3, 4], [9000])),
        ("Errors", [[h]]),
    ], "every text of 1 and 2 bytes (any byte values) at 14 places of a record, 20 texts that look like escapes, values or parts of a record behind or before any byte there, of 3 bytes in message, value and WithGroup name; thorough: 3 bytes everywhere, 4 in message, value and WithAttrs; any 1 byte (thorough 2) behind 30 to 4090 others at 6 places, two texts of 1 byte at 5 pairs of places, four bytes that start a sequence, texts within lists and maps; 2100 bytes (9000) of sequences of 2, 3 and 4 bytes from any offset and one symbolic byte at 4 places; errors that hold others", text_out)

spec("C03", "logs", [
    ("Ints", prod(H, [1], [0], [0, 3, 5, 9]) + prod(H, [0, 1], [1, 2], [0, 1, 4, 9]) + prod(H, [0], [1, 2], [10]) + prod(H, [2, 3, 4, 5], [0, 1, 2, 3, 4], [0, 9]), prod(H, range(6), range(5), range(12))),
    ("IntsAll", prod(H, [0], [0]), prod(H, [0, 1], [0, 1, 2])),
    ("Bools", prod(H, range(6))),
    ("Specials", prod(H, range(6))),
    ("Floats", prod(H, range(6))),
    ("Float32", prod(H, [0, 1])),
    ("Kinds", prod(H, [0], [0, 1, 2, 4, 5, 6, 7, 8, 9]), prod(H, [1, 2, 3], [0, 1, 2, 4, 5, 6, 7, 8, 9])),
    ("Times", prod(H, [0, 1, 2, 3, 4, 5])),
    ("NearTimes", prod(H, [8, 9])),
], "every int64 and uint64 as attribute of a record; windows of 256 integers around 12 bases (0, powers of ten, 2^31, 2^53, both ends of int64) at 6 places (record, WithAttrs, group, LogValuer, WithGroup, WithGroup+WithAttrs); both booleans; every NaN bit pattern and both infinities; values within 256 of the ends of every Go integer type; 29 finite floats, 8 of 32 bits; times over 7x6x3 instants, nanoseconds and zones; two or three times from the same to a week apart, in one record or one after another",
   "finite floats outside the table (the shortest-decimal algorithm of strconv is not encoded), times outside the table")

spec("C04", "logs", [
    ("Structure", prod(H, [0, 1], [1, 2]) + prod(H, [2], [1]) + prod(H, [0, 1, 2, 3], [0]), prod(H, [3], [1])),
    ("Wide", prod(H, [6, 12], [0, 1]), prod(H, [7, 24], [0, 2])),
    ("Deep", prod(H, [5], [0]), prod(H, [7], [0])),
], "every history of up to 2 derivation steps (WithGroup of a name or of the empty name, WithAttrs of nothing, of one of 22 attribute shapes, of pairs) followed by a record with 1 or 2 attributes of 22 shapes (leaf, zero Attr, empty group, group, inlined group, nested and emptied groups, LogValuer of leaf or group, empty key), every leaf text symbolic; records, groups and WithAttrs of 6 and 12 attributes, any one of which is zero, an empty or another group; every history of 5 steps (7) out of 4 kinds in which names repeat; thorough: 3 steps",
   "longer histories, deeper nesting than 3, more attributes per step")

spec("C05", "logs", [
    ("Siblings", prod(H, [0, 1, 3], [0, 1, 2, 3]) + prod(H, [1], [4]), prod(H, [2, 4, 5], [0, 1, 2, 3])),
    ("Kept", prod(H)),
    ("Family", prod(H, [4, 5], [0, 1]), prod(H, [9], [0, 1])),
], "up to 5 handlers derived from a common ancestor with 0 to 3 open groups and up to 600 bytes of attributes (5000 with one group), each by one of 4 kinds of step, used in two orders; 16 and 20 handlers derived at every depth of a chain of 4 and 5 groups, also with ReplaceAttr (thorough: 9 groups); the same record through the same handler twice with another in between; caller changes its slice after WithAttrs; what the caller gave (4 lists, records of 22 shapes) is as it was",
   "larger families of handlers, concurrent derivation")

spec("C06", "logs", [
    ("Returned", prod(H, range(4))),
    ("Replace", prod(H, [0, 1], [1], range(6)) + prod(H, [0], [2], [1, 2, 4]), prod(H, [2], [1], [1, 2, 4])),
    ("Deep", prod(H, [4], [1]), prod(H, [6], [1])),
    ("Family", prod(H, [4, 5], [1]), prod(H, [9], [1])),
    ("Builtins", prod(H, [0, 1])),
], "6 kinds of ReplaceAttr function (identity, remove some, rename and change, remove level and message, change only inside groups, remove all) over every history of up to 1 step and records of 1 or 2 attributes of 22 shapes; a function that returns one of 11 other values (groups, LogValuers, empty keys and texts) at 4 places; a function that shows its groups over histories of 4 steps (6) and 20 handlers derived at every depth; every choice of keeping, removing or changing time, level, message and source, with attributes of the same names elsewhere; thorough: 2 steps",
   "further values that ReplaceAttr functions return", ["a group emptied by ReplaceAttr may be written as an empty object or left out"])

spec("C07", "logs", [
    ("LevelName", prod(H, [0, 1])),
    ("LevelAny", prod(H, [0], [0, 2, 4, 5]), prod(H, [0, 1], range(6))),
    ("Threshold", prod(H, range(4))),
    ("Logger", prod(H)),
], "Enabled for every pair of 64-bit levels, with fixed, dynamic, nil and missing level, on a handler and 5 derived ones; names of levels -20 to 19 and in windows of 256 around -128, 100, 2^31 and 2^62; logging through slog.Logger for levels -5 to 8",
   "names of levels outside these windows")

spec("C09", "logs", [
    ("Writer", prod(H, [0, 1, 2], [0, 1])),
    ("Values", prod(H, range(4))),
], "every pattern of failing (after any number of bytes) or panicking writes over three consecutive records then a good one, three derivations; 16 values that cannot be rendered (5 of them of kinds other than pointers and structures) (marshal errors, channels, functions, panicking String, Error, MarshalText, MarshalJSON or LogValue, nil pointers) at 4 places",
   "writers that misreport the number of bytes, failures longer than three records")

spec("C10", "logs", [
    ("Extras", prod([0, 1])),
    ("Names", prod([0, 1])),
    ("Times", prod(H, [9])),
    ("NearTimes", prod(H, [9])),
    ("Source", prod(H, [0, 1])),
    ("Context", prod(H)),
], "every subset of flash.Extras with any two-letter names, levels -5 to 5, with and without ReplaceAttr; every subset of the names, of up to 20 letters, with 7 time formats, source and open group; record times over 7x6x3 instants, nanoseconds and zones, and up to three near each other; AddSource and known or unknown program counter at 5 levels; three contexts",
   "longer names, other time formats")

spec("C13", "ginw", [
    ("ParseLine", prod(range(5), [1, 2], [0, 2]) + [[0, 3, 1], [4, 3, 0]], [[0, 6, 0], [1, 3, 1], [1, 4, 0], [2, 3, 1], [3, 3, 2], [4, 4, 1]]),
    ("ParseLong", [[17, 2], [18, 2]], [[16, 3], [16, 4]]),
    ("ParseWide", prod(range(5))),
    ("ParseAny", [[0, 1], [0, 2], [0, 3], [1, 1], [1, 2], [2, 3], [3, 2], [4, 2], [5, 2]], [[0, 4], [1, 3], [2, 4], [3, 3], [4, 3], [5, 3]]),
], "each of the five fields of a line in Gin's layout any text of 1 or 2 bytes (codes of up to 3 digits, URLs of up to 3 bytes) with 3 amounts of padding; codes of 19 and 20 digits around the largest number; any text of up to 3 bytes as the line or at 5 places of one; realistic lines with long fields and any one byte replaced; thorough: one or two bytes more, codes of 6 digits",
   "longer texts of any bytes, two fields arbitrary at the same time")
spec("C14", "ginw", [
    ("Prefixes", [[0, 1, 0, 0], [1, 1, 1, 0], [2, 1, 0, 0], [1, 1, 2, 1], [0, 2, 1, 1], [3, 0, 0, 0]], [[2, 2, 1, 0], [3, 1, 0, 0], [2, 1, 2, 1], [0, 3, 1, 0], [4, 0, 0, 0]]),
    ("AnyLine", [[0, 2], [1, 1], [2, 2], [3, 1]], [[0, 3], [1, 2], [2, 3], [3, 2]]),
    ("Line", prod([0, 1], [0, 1, 2], [0, 1], [0, 1])),
    ("Messages", prod([0, 1], [0, 1, 10])),
    ("Sequence", [[2, 1]], [[2, 2], [3, 1]]),
], "lines of up to 3 of 6 prefixes, blanks between them, any text of 1 or 2 bytes and up to 2 line ends; any text of up to 2 bytes alone, as an unknown prefix or after one; traffic with and without parsing, embedding, group and message names, time stamp, with the levels missing, any 64-bit level or a LevelVar; 19 longer messages with any one byte replaced, after 0, 1 or 10 prefixes; several lines to two writers; thorough: 4 prefixes, texts of 3 bytes",
   "longer texts of any bytes, records split over several writes")

spec("C11", "repl", [
    ("Match", prod(range(5), [0], [1, 2], [0, 2, 4], [1]) + prod(range(5), [1, 2, 3], [1], [1, 3], [0]) + prod(range(5), [0], [1], [1, 2], range(8)), prod(range(5), [0], [3], [2, 4], [1]) + prod(range(5), [2], [2, 3], [2], [0])),
    ("Case", prod([0, 1], [1, 2, -1, -2], range(5)), prod([0, 1], [3, 4], [0, 2])),
    ("Multiple", [[0, 1], [1, 1], [2, 0], [2, 1], [3, 0], [3, 1]], [[4, 1]]),
    ("Again", prod(range(5), [2]), prod(range(5), [3])),
], "keys of 1 or 2 bytes (any ASCII text on both sides with and without case; any bytes with the exact match; 17 pairs of words beyond ASCII), up to 3 open groups of any name, 5 kinds of group check, 8 kinds of value, any number or text in them; case changes of any ASCII text of 1 or 2 bytes, 6 words beyond ASCII and 5 kinds of value that are not texts; every sequence of up to 3 functions of 6 kinds; one function applied to several attributes, with keys of up to 60 bytes and up to 8 groups; thorough: one or two bytes more, 4 functions",
   "case folding beyond ASCII other than the table (the case tables of package unicode), any longer keys than those tried")

spec("C12", "repl", [
    ("Trace", prod([0, 1, 2], [1], [0], [0, 1], [4]) + prod([0, 1], [0, 2], [1], [0], [11]) + [[1, 1, 1, 1, 4], [2, 0, 0, 1, 4], [2, 2, 0, 0, 4], [0, 1, 2, 1, 4], [0, 1, 2, 0, 11], [1, 1, 0, 0, 11], [0, 1, 7, 0, 1], [0, 1, 6, 1, 1]],
     [[3, 1, 0, 0, 4], [1, 1, 2, 0, 4], [2, 1, 1, 1, 4], [2, 2, 1, 0, 4], [0, 1, 3, 0, 4], [0, 1, 3, 0, 11], [1, 1, 1, 1, 11]]),
    ("Deep", [[4], [9]], [[20]]),
], "every history of up to 2 WithGroup or WithAttrs calls (none, 1 or 2 attributes of 11 kinds) on a trace handler, then Enabled and Handle, directly or through slog.Logger, with 6 levels and up to 2 attributes, 7 of one kind; any texts of up to 2 bytes; chains of 4 and 9 derivations with up to 12 attributes; thorough: 3 derivations or 3 attributes, chains of 20",
   "other kinds of value (rendered by package slog), concurrent use")

spec("C16", "warn", [
    ("History", [[1, 1, 0], [2, 1, 0], [2, 1, 1], [2, 0, 0]], [[3, 1, 1], [3, 0, 0], [2, 2, 1]]),
    ("Two", [[1]]),
    ("Flag", [[]]),
    ("Long", [[7], [24]], [[60]]),
    ("Depth", [[12]], [[40]]),
    ("ByWarning", [[1, 1, 3], [2, 1, 3], [2, 0, 2], [3, 1, 1]], [[3, 1, 2], [3, 0, 2]]),
], "every sequence of up to 2 calls of 7 kinds for 5 warnings of 3 levels, the administrative ones included, with any texts of 1 byte, asked at the end or after each call; two managers side by side; names of functions up to 12 (thorough: 40) calls up the stack, through methods, functions and closures; up to 3 managers with any of 3 warnings shown by warning, under every order of iteration over small maps; the flag on and off; 7 and 24 calls one after another, with 8 warnings, 3 of them own ones; thorough: 60 calls, 3 calls, texts of 2 bytes",
   "concurrent use, managers of the same name")
spec("C17", "warn", [
    ("Parse", prod([0], range(5)) + prod([1], [0, 1, 2, 3]) + prod([2, 3, 5], range(5)), [[1, 4]] + prod([4], range(5))),
    ("LevelName", [[]]),
    ("Create", [[1, 1, 0, 0], [1, 1, 1, 0], [2, 1, 0, 0], [2, 1, 1, 0], [2, 2, 1, 0], [3, 1, 1, 0], [1, 1, 1, 40]], [[3, 2, 0, 0], [4, 1, 1, 0], [2, 1, 1, 100]]),
    ("Predefined", [[]]),
], "any text of up to 3 bytes, the five level names with two of three letters in either case, with any one byte replaced or put in, and every part of them; every 64-bit level; up to 3 new warnings of any level with names of up to 2 letters, one of them after 40 others, with the lists asked for before, between and after; all predefined warnings; thorough: texts of 4 bytes, 4 warnings",
   "descriptions in Markdown, concurrent use, texts longer than that which are no level names")
spec("C18", "parse", [
    ("Bench", [[1, 3, 1, 1], [1, 5, 0, 1], [2, 1, 0, 1], [2, 0, 1, 1], [2, 0, 0, 1], [1, 0, 0, 2]], [[1, 12, 0, 1], [2, 2, 1, 1], [3, 0, 0, 1], [1, 0, 0, 3], [2, 0, 0, 2]]),
    ("Items", [[1], [2]], [[3]]),
    ("Large", [[2, 3], [5, 4]], [[12, 9]]),
], "reports of up to 2 lines of 4 kinds (data, name of a handler, text of a warning, other) in any order, or two reports of one line; data with or without number of processors, memory and throughput columns, integers of up to 5 digits (any), floats from a table of 5, handlers and tests from a table of 4 or of any 2 letters; texts of any 2 bytes; any item and any record, any name of 1 or 2 bytes; reports of up to 5 handlers with 4 tests; thorough: 3 lines, 12 digits, 3 reports",
   "floats beyond the table (strconv.ParseFloat), lines over 64 KiB, reading of files")
spec("C19", "parse", [
    ("RoundTrip", [[1, 1, 1, 0, 0, 0, 1], [1, 1, 2, 1, 1, 1, 1], [1, 2, 0, 0, 0, 0, 1], [2, 1, 0, 0, 1, 1, 1], [1, 1, 0, 0, 1, 1, 2], [1, 1, 10, 0, 0, 0, 1], [1, 1, 11, 1, 1, 1, 1], [1, 1, 12, 0, 0, 1, 1], [1, 1, 13, 1, 0, 0, 1], [1, 1, 14, 1, 0, 0, 1], [1, 2, 0, 2, 0, 0, 1], [1, 1, 0, 1, 0, 0, 2], [1, 1, 0, 2, 1, 0, 2]],
     [[1, 1, 3, 2, 0, 1, 1], [1, 2, 1, 0, 1, 0, 1], [1, 1, 1, 1, 0, 1, 2]]),
    ("Many", [[3, 1], [14, 2], [25, 3]], [[40, 4]]),
], "the output of up to 2 managers with up to 2 of 5 warnings each (one that is not predefined) (or of 1 manager twice, from two sources), in 3 test functions, each with or without a text of any bytes (up to 2, several lines included) and with a record that is JSON, is not JSON or is missing; up to 25 instances (thorough: 40) of one warning from 3 functions; with and without benchmark prefix, known handler tags, and other text around the output; a text of 16 lines; thorough: texts of 3 bytes, texts with 2 warnings or 2 reports",
   "texts that start with blanks or whose lines end with them, function and handler names with blanks, records of several lines, lines over 64 KiB")
spec("C15", "fields", [
    ("Object", [[1, 0, 1, 1], [1, 1, 1, 0], [1, 0, 2, 0], [2, 0, 1, 0]], [[1, 2, 1, 0], [1, 1, 1, 1], [2, 1, 1, 0]]),
    ("Members", [[2, 1], [3, 1], [4, 1], [3, 2]], [[5, 1]]),
    ("Apex", [[1, 1], [2, 1]], [[3, 1]]),
    ("Text", prod(range(6), [1, 2, 3]), prod(range(6), [4])),
    ("Broken", [[]]),
    ("Large", [[4, 6], [13, 3]], [[40, 18]]),
    ("Others", [[]]),
], "objects of 1 or 2 members built from the grammar: names and texts of any 1 or 2 ASCII bytes that need no escape, 12 escapes and other texts, keywords, numbers of every form, arrays and objects of depth 1, white space of 3 kinds in any one place; objects of up to 4 members with any names of 1 or 2 letters; an object called fields among up to 2 others, which may be called fields or hold such objects; any ASCII text of up to 3 bytes in 6 places; 14 kinds of fault; objects with long names and numbers, deep values and up to 13 members; two counters side by side; thorough: depth 2, 5 members, texts of 4 bytes",
   "texts beyond ASCII other than the table, what is accepted of texts that are no JSON")

spec("C08", "conc", [
    ("Logging", prod(H, [2], [0], range(6), [0, 1], [0], [2]) + prod(H, [2], range(1, 6), [0, 3], [0], [0], [2]) + prod(H, [2], [0, 2], [0, 3], [0], [1, 2, 3], [2])
     + prod(H, [2], [2, 3], [0], [0], [4], [2]) + prod(H, [2], [2], [2], [0, 1], [4], [1]) + prod(H, [3], [0], [0, 4], [0], [0], [1]),
     prod(H, [2], range(6), range(6), [0, 1], [0, 1, 2, 3], [3]) + prod(H, [2], [2, 3, 4], [0, 1, 2, 3], [0, 1], [4, 5], [2]) + prod(H, [3], range(4), [0, 3, 4], [0], [0], [2])),
    ("Same", prod(H, [1, 3], [0, 4], [2]), prod(H, range(6), range(6), [3])),
    ("Attrs", prod(H, [2]), prod(H, [4])),
    ("Level", prod(H, [1]), prod(H, [2])),
    ("Failing", prod(H, [1, 2], [2]), prod(H, [1, 2], [3])),
    ("Nested", prod(H, [0, 1, 2], [1, 2], [1]), prod(H, [0, 1, 2], [2], [3])),
    ("Creating", prod(H, [0, 1], [2]), prod(H, [0, 1], [3])),
    ("Apart", prod(H, [0, 1, 3], [3], [0, 2], [1]), prod(H, [0, 1, 2, 3], [0, 1, 2, 3], range(6), [2])),
], "2 goroutines with up to 2 preemptions at locks, pools, atomics, calls of the writer, of ReplaceAttr and of LogValue (3 goroutines, 1 preemption; thorough 3 and 2), one record each of 6 kinds (8 attributes, groups, LogValuers, text beyond the buffers), through one handler or handlers derived in 6 ways before or meanwhile, some with 3 (5) open groups; the same record or attributes used by both; level changed meanwhile; a writer that fails; values and ReplaceAttr that log; handlers made with the same options; for every schedule, every order of its memory accesses is asked for data races",
   "more goroutines, more preemptions; data races inside the standard library; weak memory effects of programs that have a data race", race=True,
   assumptions=["an execution without data races is one of the schedules that switch at synchronisations only"])

spec("C20", "scoring", [
    ("Filter", [[1, 0, 2], [2, 1, 1], [1, 2, 1], [3, 0, 1], [0, 0, 1], [1, 2, 0]], [[2, 0, 3], [2, 2, 1], [3, 1, 1]]),
    ("Keepers", [[1, 1, 0], [2, 1, 1], [3, 1, 0], [2, 2, 0], [3, 1, 1], [2, 2, 2]], [[3, 2, 1], [4, 1, 0], [3, 1, 2]]),
    ("FilterLarge", [[3, 4], [6, 2]], [[7, 9]]),
    ("KeepersMany", [[3], [17]], [[37]]),
    ("Setup", [[1, 1, 1], [2, 1, 1], [2, 2, 2], [0, 1, 0]], [[3, 1, 1], [2, 3, 1]]),
    ("Types", [[0, 0], [1, 8], [2, 1], [2, 2], [3, 0], [4, 3]], [[2, 3], [4, 4]]),
    ("Average", [[1, 0], [3, 0], [2, 1], [3, 1]], [[5, 0], [4, 1]]),
], "filters of up to 3 items, groups nested up to 2 deep with up to 2 items, with any names of up to 2 bytes; up to 3 keepers with any tags of 1 or 2 bytes, listed before and after each is added; keepers with up to 2 handlers and 2 tests, any filter of one name or none, either axis failing, set up twice; all 256 score types and all names in any case, names with any byte replaced, lists of up to 3 names; averages of up to 3 any reals of at most a million with multiples up to 3; filters of up to 6 items, 17 keepers; thorough: names of 3 bytes, groups within groups, 4 keepers, 3 handlers, 5 values",
   "floating-point rounding (numbers are reals, compared with a tolerance of 1e-6); filters over handlers that share a name; tests of a keeper with a filter; empty tags")

spec("C21", "scoring", [
    ("Bench", prod([2, 3], [1], [0], [0], [0, 2]) + [[3, 2, 0, 0, 0], [2, 3, 1, 0, 0], [3, 2, 1, 0, 1], [3, 3, 2, 0, 0], [3, 3, 3, 0, 3], [3, 3, 4, 0, 0], [3, 2, 5, 0, 1], [2, 2, 6, 0, 0], [3, 3, 2, 1, 0], [3, 2, 2, 2, 0], [2, 3, 5, 3, 3], [1, 2, 2, 0, 0], [9, 7, 4, 0, 0], [7, 5, 4, 2, 1]],
     [[4, 1, 0, 0, 0], [4, 1, 0, 0, 1], [3, 3, 0, 0, 3], [3, 3, 6, 0, 0], [3, 3, 1, 0, 0], [3, 3, 3, 3, 1], [4, 3, 2, 0, 0]]),
    ("Axes", [[2, 2, 0], [9, 7, 1]], [[4, 3, 0], [12, 8, 1]]),
    ("Warnings", prod([2], range(3), [5], [1]) + [[1, 0, 5, 2], [3, 0, 3, 1], [2, 0, 3, 4], [1, 2, 1, 9], [5, 0, 4, 3], [9, 0, 99, 3]], [[3, 0, 5, 1], [2, 1, 5, 2], [3, 2, 4, 1]]),
], "up to 3 handlers and 3 tests; any real times from 0.001 ns to 1 s in the first test or one test of each handler, allocations of 6 kinds, any subset of the tests not run, equal numbers, no allocations at all; 4 weightings; any of the tests included, excluded; 9 handlers with 7 tests at fixed times; three axes over the same data in any order; warnings: any subset of 5 warnings of 4 levels for up to 3 handlers, up to 9 instances, 3 weightings; 9 handlers with all predefined warnings; thorough: 4 handlers, more combinations",
   "floating-point rounding (times are reals, compared with a tolerance of 1e-6); the value of a score when no test or item differs between handlers; the HTML of the exhibits")

spec("C22", "pages", [
    ("Requests", [[0, i, 1, 1, 2] for i in range(31)] + [[1, i, 1, 1, 2] for i in (4, 13, 18, 20)], [[1, i, 1, 1, 2] for i in range(31)] + [[2, i, 1, 1, 2] for i in range(0, 31, 3)] + [[0, i, 1, 1, 3] for i in (6, 9, 13, 18, 20)]),
    ("Markdown", [[2]], [[3]]),
], "the data of 2 handlers, 3 tests and 2 warnings, the scores, the registry of keepers and Markdown texts; 2 requests at the same time with every pair of 31 things pages ask for, 4 of them with 1 preemption (thorough: all with 1, some with 2, or 3 requests); for every schedule, every order of its memory accesses is asked for data races; any 2 (thorough: 3) of 12 Markdown texts one after another",
   "other data (the accesses do not depend on its values), more requests, HTML of pages and charts (their packages cannot be compiled here); data races inside the standard library and the Markdown library", race=True,
   assumptions=["an execution without data races is one of the schedules that switch at synchronisations only"])


spec("C23", "suites", [
    ("Bench", [[b, d, 0, 3] for b in range(1, 12) for d in range(10)] + [[0, 0, w, n] for w in (0, 6) for n in (0, 3)] + [[2, 10, 0, 3], [2, 10, 5, 3]] + prod([3, 6, 8], [0, 1, 2, 4, 5, 9], [1, 2, 3, 4], [2]),
     prod(range(1, 12), range(10), [0], [5]) + prod([4, 5, 7, 9], [0, 1, 2, 4, 5, 9], [1, 2, 3, 4], [3])),
    ("Two", [[4, i, k, 2, d] for i in range(4) for k in range(i, 4) for d in range(4)] + [[8, 0, 3, 2, d] for d in range(4)],
     [[b, i, k, 3, d] for b in (5, 6, 8) for i in range(4) for k in range(4) for d in range(4)]),
    ("Empty", [[b] for b in range(1, 12)]),
    ("Big", prod(range(6), [5]), prod(range(6), [8])),
    ("Count", [[2, 2, 2]], [[3, 2, 2], [2, 3, 3]]),
    ("Whole", [[q, 0] for q in (0, 1, 2, 4, 12, 25, 26, 27, 31)] + [[0, 1], [0, 2]]),
], "one line of each of the 12 benchmarks (3 lines of Logging), right or with one of 9 departures at any field, groups included: missing, any other text of 3 letters (thorough: 5), any one byte another letter, any other name, there twice, a field more, the level in any letters, the other message key, a value as text; two departures at two fields of some benchmarks, with none or one of the warnings for them; none or one of 6 warnings declared; 5 outputs that are no line; nested groups that are wrong at any depth; what a reference handler writes for the benchmarks, right in any order of fields or with one of 8 faults; 2 goroutines with 2 writes of up to 2 bytes counted, up to 2 preemptions (thorough: 3)",
   "values of time, duration, error and client, which the verification does not look at; three and more departures at once, and two of them other than missing fields, other text, other names or fields twice; what BigGroup and Logging log (random groups, embedded lines); benchmark numbers; Run itself", race=True,
   assumptions=["an execution without data races is one of the schedules that switch at synchronisations only"])

# tests in which a declared warning turns further comparisons off: which departures pass along with the fault
LENIENT = {1: [4], 4: [4], 5: [4, 5], 8: [0, 1, 3, 4, 5], 9: [4, 5], 19: [4, 5], 20: [4], 21: [4, 5], 23: [4], 24: [4, 5], 31: [4, 5], 38: [6], 42: [4, 5], 50: [0, 4, 5], 51: [0, 4, 5]}
QUIRKED = [1, 2, 4, 5, 8, 9, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 31, 32, 34, 35, 38, 39, 42, 45, 49, 50, 51]
spec("C24", "suites", [
    ("Right", [[i, 0, 0] for i in range(54)] + [[i, o, 0] for i in range(53) if i not in (27, 30, 33, 36, 37) for o in (1, 2)] + [[i, 0, 16] for i in range(53) if i not in (27, 30, 33, 36, 37)]),
    ("Quirk", prod([i for i in range(1, 37) if i != 3], [0, 1])),
    ("Declared", [[i] for i in range(1, 35) if i not in (3, 32)]),
    ("Altered", [[i, h, 3, d] for i in range(53) if i not in (27, 30, 33, 36, 37) for h in range(8) for d in (0, 1) if d == 0 or i not in (5, 9, 21, 24, 26, 34, 38, 42) and (i, h) not in ((8, 4), (12, 4), (13, 4))],
     [[i, h, 6, 0] for i in range(53) if i not in (27, 30, 33, 36, 37) for h in (1, 3, 5)]),
    ("Both", [[i, h, 3] for i in QUIRKED for h in range(8) if h not in LENIENT.get(i, ())]),
    ("Levels", [[27], [30], [33], [36], [37]]),
    ("Slogtest", prod([0, 2, 4, 5, 8, 9, 12, 34], [0, 1])),
], "54 tests of the suite, with a reference handler that is right, with its fields in any order and white space of 4 kinds in any of 16 places, or that has one of 33 faults for which 27 warnings exist, declared or not; one line of the output changed in one of 7 ways at any field, groups included (a field missing, any other text, name or extra field of 3 letters (thorough: 6), any byte any other letter, twice, 6 other values), without a declared warning and, except for 8 tests, with any one of those the test knows; handlers enabled from any level on (all 16-bit levels)",
   "several departures or declared warnings at once; output that is wrong in the same place as a declared warning forgives, in the tests where a declared warning turns the comparison off; Duplicates is not reported as unused; TestReplaceAttrFnRemoveEmptyKey and TestReplaceAttrFnChangeKey with warnings; TestGroupEmpty (log/slog drops the group itself)",
   assumptions=["the reference handler in harness/suites/ref.go is right, as its own check with testing/slogtest and log/slog's documentation says"])

spec("C25", "creators", [
    ("Made", [[1], [2]]),
    ("Options", [[]]),
    ("Levels", [[]]),
    ("Same", prod([0, 1, 2, 3], [1], [1]), prod([0, 1, 2, 3], [2], [1])),
    ("Repl", prod([1], [1], [0, 1]), prod([2], [1], [0, 1])),
    ("Dedup", prod(range(1, 5), [2], [0, 1, 2]), prod(range(1, 5), [3], [0, 1, 2])),
    ("Modes", [[]]),
    ("Wrapped", [[i] for i in range(5)]),
    ("Two", [[i] for i in range(14)]),
], "creators with any name, summary and link of 1 or 2 bytes and any of the two functions, asked twice; the options for tests with every level; both conversions for every 64-bit level; 4 creators with no options or any of 14 levels, a LevelVar, source and ReplaceAttr, after 1 derivation of 4 kinds, with any texts of 1 byte; madkins/replattr with 3 kinds of ReplaceAttr and 6 keys, in groups and (one key) outside; 4 modes of veqryn/dedup with 2 attributes or groups of 5 keys (two of which differ in case), at the top, in a group or from WithAttrs; names of modes with any byte replaced; two handlers from each of 14 creators with the same or different options, used in any order; 5 creators for other libraries with levels of 4 kinds, changed or not, and records of 16 levels (samber/slog-logrus: 4); thorough: 2 derivations, 3 attributes",
   "attributes called lvl, message, level, msg or time next to the built-in ones (madkins/replattr renames them); what other libraries write beyond message and attribute; creators whose libraries are not there (chanchal/zap, snqk/meld, svcrunner/jsonlog); no options for madkins/replattr and the samber creators")

RECORD = [
    {"module": "github.com/vicanso/go-charts/v2",
     "edits": [["charts.go", "func Render(opt ChartOption, opts ...OptionFunc) (*Painter, error) {\n", "\tif Shown != nil {\n\t\tfor _, fn := range opts {\n\t\t\tfn(&opt)\n\t\t}\n\t\treturn Shown(opt)\n\t}\n"],
               ["painter.go", "func (p *Painter) Bytes() ([]byte, error) {\n", "\tif p.recorded != nil {\n\t\treturn p.recorded, nil\n\t}\n"],
               ["painter.go", "type Painter struct {\n", "\trecorded []byte\n"]],
     "files": {"zz_shown.go": """package charts

// Shown is asked instead of drawing a chart.
var Shown func(ChartOption) (*Painter, error)

// Recorded makes a painter that gives b.
func Recorded(b []byte) *Painter { return &Painter{recorded: b} }
"""}},
    {"module": "github.com/wcharczuk/go-chart/v2",
     "edits": [["chart.go", "func (c Chart) Render(rp RendererProvider, w io.Writer) error {\n", "\tif OnRender != nil {\n\t\treturn OnRender(c, w)\n\t}\n"]],
     "files": {"zz_shown.go": "package chart\n\nimport \"io\"\n\n// OnRender is asked instead of drawing a chart.\nvar OnRender func(c Chart, w io.Writer) error\n"}},
]
spec("C26", "charts", [
    ("Bar", [[2, 2, 1], [1, 2, 2], [10, 7, 1]], [[2, 2, 2], [3, 2, 1]]),
    ("Score", [[2, 0, 1, 1], [2, 1, 0, 1], [3, 2, 0, 1], [2, 0, 2, 2], [10, 3, 3, 2]], [[3, 0, 1, 1]]),
    ("Smallest", [[1, 0, 0], [2, 0, 0], [10, 3, 3]], [[3, 0, 0]]),
    ("Colors", [[0], [1], [2], [3]]),
    ("Requests", [[1, 2, 1]], [[2, 2, 1]]),
], "results of up to 3 handlers (thorough: 3, with 2 tests) for up to 2 tests, any of which may be missing, lines in either order, one time any number of nanoseconds; 7 kinds of figures and an unknown one, with and without .svg, asked for a handler, a test or nothing known, once or twice; scores of up to 3 handlers: any from 0 to 100 on one axis, or one of 6 on it, all four sizes, given in 8 ways, known and unknown keepers, twice; any scores of 2 handlers on both axes for the smallest size; 10 handlers with 7 tests, 10 with scattered scores; the four corners of the colours and the middle; two requests at the same time for any of 8 charts, all schedules with one preemption (thorough: 2)",
   "drawing (go-charts and go-chart: a copy of each is patched to hand over what it is asked to draw); handlers with benchmark data and without warning data; scores under 0.001 other than 0; what is answered for an unknown kind of figures; races within the drawing libraries (go-chart reads its default font without its lock)",
   patches=RECORD, race=True)
spec("C27", "tabular", [
    ("Tables", [[1, 1, 4], [2, 2, 2], [3, 1, 2], [2, 1, 4], [8, 6, 4]], [[3, 2, 2], [1, 3, 4]]),
    ("Warnings", [[1, 1, 1, 1], [1, 1, 2, 1], [2, 1, 0, 2], [1, 2, 0, 1], [7, 30, 0, 2]], [[2, 1, 1, 2], [1, 2, 1, 1]]),
], "benchmark reports of up to 3 handlers and 3 tests, any of them not run, with figures from a table of 4 with up to 7 digits; a report of 8 handlers and 6 tests, 30 warnings of 7 handlers in each of two files; warnings of up to 2 handlers in one or two files (with the prefix of benchmarks and without), in all up to 2, of 4 kinds from 2 functions, with no text, text on one to four lines, of up to 2 bytes (any but blanks and bytes over 0x7f) or 300, with a record of up to 300 bytes or none; thorough: symbolic texts with 2 warnings",
   "other languages than en_US; names of handlers over 23 bytes; figures over 13 characters; files that cannot be read, and what is written to the standard error", mains=["cmd/tabular"])

MELD = [{"module": "snqk.dev/slog/meld", "stub": True, "files": {"meld.go": """package meld

import "log/slog"

// NewHandler stands in for the library, which is not here.
func NewHandler(h slog.Handler) slog.Handler { return h }
"""}}]
spec("C28", "keepers", [
    ("Keepers", [[2, 4, 0], [2, 3, 1], [3, 4, 2]], [[3, 3, 0], [2, 3, 3], [3, 4, 1]]),
], "2 handlers with 4 tests, each handler any of 12 names (those the filters know and names next to them) or any other of 3 letters; 2 handlers with 3 tests, one time any from 0.001 to 1e9 ns; 3 handlers with 4 tests, of which the first has any subset of 5 warnings of all levels, the others the same or other ones; thorough: 3 handlers of any names, with 3 tests; 3 handlers with one time any, 2 with two",
   "descriptions and exhibits of keepers (embedded files are empty in the encoding); more handlers and tests; handlers with records and without warning data", patches=MELD)

SERVE = MELD + [{"module": "github.com/madkins23/gin-utils", "edits": [
    ["pkg/shutdown/graceful.go", "func (g *Graceful) Initialize() {\n", "\tif OnServe != nil {\n\t\treturn\n\t}\n"],
    ["pkg/shutdown/graceful.go", "func (g *Graceful) Serve(router *gin.Engine, port uint) error {\n", "\tif OnServe != nil {\n\t\treturn OnServe(router)\n\t}\n"],
    ["pkg/shutdown/graceful.go", "func (g *Graceful) Close() {\n", "\tif OnServe != nil {\n\t\treturn\n\t}\n"]],
    "files": {"pkg/shutdown/zz_serve.go": "package shutdown\n\nimport \"github.com/gin-gonic/gin\"\n\n// OnServe is given what would be served.\nvar OnServe func(router *gin.Engine) error\n"}}]
spec("C29", "server", [
    ("Held", prod([0, 1, 3, 4], [1]), prod([2], [1]) + prod([1, 4], [2])),
    ("Pages", prod([2], [1], [2]) + prod([1], [2], [2]), [[2, 2, 2], [3, 1, 3]]),
    ("Pages", [[2, 1, 1, k] for k in range(5)], [[2, 2, 1, k] for k in range(5)] + [[3, 1, 1, 0]]),
    ("Links", [[2, 1, 1]], [[2, 2, 1]]),
    ("Asked", prod(range(5), [1]), prod(range(4), [2])),
    ("Texts", [[4, 0, 1], [4, 2, 1]], [[4, 3, 2]]),
    ("Figures", [[0, 1, 3, 4], [3, 1, 2, 1]], [[0, 2, 0, 2], [2, 1, 0, 0], [3, 2, 2, 1], [2, 1, 4, 4]]),
    ("Language", prod([1, 2], [1]), prod([0, 3, 4, 5], [1])),
], "sites of up to 2 handlers and 2 tests (thorough: 3 handlers), any of which ran or not, with up to 2 (3) warnings of either source, any of which are there; every page of these sites, the scores of 5 scorekeepers; names of handlers, texts and records of warnings, text files, and names in URLs of unknown handlers, tests, texts and scorekeepers, each with any visible ASCII character at two places of it (thorough: any two); every digit (thorough: any two digits) of the runs, bytes and allocations of a benchmark at some places of numbers of up to 8 digits; 6 lists of languages",
   "the scripts of the pages, what a browser makes of them, the drawings of charts (see C25), requests other than GET, longer symbolic texts, texts with control characters or beyond ASCII, pages asked for at the same time (see C26), sites without any benchmark",
   assumptions=["the server is taken up to where it would listen, and is handed requests by its router; the library gin-utils is cut down to a copy whose Serve hands out the router", "the library meld (only used by a handler that is not compiled) is a stub"],
   patches=SERVE, mains=["cmd/server"], steps=80_000_000)

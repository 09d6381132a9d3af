FL = ["handlers/flash/composer.go", "handlers/flash/handler.go"]
SL = ["handlers/sloggy/composer.go", "handlers/sloggy/handler.go"]
BOTH = FL + ["handlers/flash/group.go"] + SL + ["handlers/sloggy/group.go"]
OUT = ["the bytes passed to the io.Writer of the handler"]

prop("C01", "Every record flash writes is one line of valid JSON with the text it was given",
     "Each record handled by the flash handler is written as exactly one newline-terminated line holding one valid JSON object, whatever bytes its texts hold. Every message, attribute key, group name and string-like value (string, error, Stringer, text marshaler, resolved LogValuer, list of strings) reads back from that line unchanged, with malformed UTF-8 read back as U+FFFD. No text can end its string, add a member or add a line.",
     ["inputs"], "all byte strings in every place a record may hold text",
     "The tests log a handful of fixed strings; the escaping depends on every byte value, on multi-byte sequences cut short and on where the text stands.",
     FL, [("string escaping and unsafe string conversion", "handlers/flash/composer.go"), ("prefix composed by WithAttrs and WithGroup", "handlers/flash/handler.go")], OUT)

prop("C02", "Every record sloggy writes is one line of valid JSON with the text it was given",
     "Each record handled by the sloggy handler is written as exactly one newline-terminated line holding one valid JSON object, whatever bytes its texts hold. Every message, attribute key, group name and string-like value (string, error, Stringer, text marshaler, resolved LogValuer, list of strings) reads back from that line unchanged, with malformed UTF-8 read back as U+FFFD. No text can end its string, add a member or add a line.",
     ["inputs"], "all byte strings in every place a record may hold text",
     "The tests log a handful of fixed strings; quoting depends on every byte value and on where the text stands.",
     SL, [("string quoting", "handlers/sloggy/composer.go"), ("prefix composed by WithAttrs and WithGroup", "handlers/sloggy/handler.go")], OUT)

prop("C03", "Numbers, booleans, durations and times are logged without loss",
     "An integer, unsigned integer, float, boolean or duration attribute reads back from the JSON that flash or sloggy writes as exactly the value logged (a duration as its nanoseconds, NaN and the infinities by their names as strings). A time attribute is a string that denotes the same instant to the nanosecond, with the offset of its zone. This holds in a record, in WithAttrs, inside groups and behind a LogValuer.",
     ["inputs"], "all 64-bit values of each kind in every place an attribute may be",
     "The tests log a few small numbers and one time; boundaries (2^53, the ends of int64, NaN payloads, zones) are not among them.",
     FL + SL, [("formatting of a value by its kind", "handlers/flash/composer.go"), ("formatting of a value by its kind", "handlers/sloggy/composer.go")], OUT)

prop("C04", "Groups and attributes appear exactly where slog's rules put them",
     "For any history of WithGroup and WithAttrs calls and any attributes, the members flash and sloggy write below the message are exactly those slog.Handler prescribes, in order: attributes under the groups open when they were added, zero attributes dropped, groups without a name inlined, LogValuers resolved at any depth. A group, from WithGroup or as an attribute, appears if and only if something is in it.",
     ["histories", "inputs"], "all histories of derivations and all trees of attributes",
     "The tests try single constructs; their combinations (an empty group after attributes, nested inlined groups, WithGroup after WithAttrs) are unbounded.",
     BOTH, [("prefix, suffix and groups kept by a derived handler", "handlers/flash/handler.go"), ("prefix, suffix and groups kept by a derived handler", "handlers/sloggy/handler.go"), ("group opening and closing", "handlers/flash/group.go")], OUT)

prop("C05", "Handlers derived from one another never influence each other",
     "What a flash or sloggy handler writes for a record depends only on its own options and chain of WithGroup and WithAttrs calls and on that record: deriving or using other handlers from it, from an ancestor or from a sibling, before or after, changes nothing. The caller may change its attribute slice after WithAttrs without effect, what it hands over stays as it was, and handling a record twice gives the same bytes twice.",
     ["histories"], "all trees of derived handlers and orders of deriving and using them",
     "Sharing of backing arrays shows only for certain lengths, capacities and orders of derivation; tests derive one handler at a time.",
     BOTH + ["handlers/flash/pools.go"], [("copying of prefix, suffix and groups", "handlers/flash/handler.go"), ("copying of prefix, suffix and groups", "handlers/sloggy/handler.go"), ("reuse of pooled buffers", "handlers/flash/pools.go")], OUT)

prop("C06", "ReplaceAttr is applied to every attribute once, as slog prescribes",
     "With a ReplaceAttr function, flash and sloggy call it exactly once for each non-group attribute that is logged, built-in ones included, with the resolved value and the list of the names of the groups open around it, and never for a group. Each attribute is then written under the key and value returned, or not at all when the zero attribute is returned, and everything else in the record stays as it is.",
     ["inputs", "histories", "configurations"], "all histories, attribute trees and replacement functions",
     "The tests use one or two replacement functions on top-level attributes.",
     BOTH, [("calls to the replacement function", "handlers/flash/composer.go"), ("calls to the replacement function", "handlers/sloggy/composer.go")], OUT + ["the arguments ReplaceAttr is called with"])

prop("C07", "Exactly the records at or above the level in force are logged, under its name",
     "A flash or sloggy handler, and everything derived from it, is enabled for a level if and only if that level is at or above the configured one, read at that moment (INFO when none is configured), so a logger writes exactly those records, once. The level is written under slog's name for it, offsets such as INFO+1 included.",
     ["inputs", "configurations", "histories"], "all pairs of levels, fixed or changing, on any derived handler",
     "The tests try the four named levels.",
     ["handlers/flash/handler.go", "handlers/flash/composer.go", "handlers/sloggy/handler.go", "handlers/sloggy/composer.go"],
     [("comparison with the configured level", "handlers/flash/handler.go"), ("comparison with the configured level", "handlers/sloggy/handler.go"), ("level names", "handlers/flash/composer.go")], ["the result of Enabled"] + OUT)

prop("C08", "Goroutines may share handlers: every record is written whole, nothing races",
     "When goroutines log at the same time through a flash or sloggy handler and handlers derived from it (derived before or meanwhile, by any of them, with shared records, attributes or options), each record is written by exactly one call of the writer, never while another is under way, with exactly the bytes it has when it is logged alone, and there is no data race. Handlers made separately do not disturb each other. A value or ReplaceAttr function that logs through the same handler does not block, nor does a writer that fails.",
     ["schedules"], "all interleavings of the goroutines",
     "The existing tests never log from two goroutines; a race shows only under particular interleavings.",
     BOTH + ["handlers/flash/pools.go", "handlers/flash/extras.go"], [("mutex shared by derived handlers around the single write", "handlers/flash/handler.go"), ("mutex shared by derived handlers around the single write", "handlers/sloggy/handler.go"), ("pools of buffers and composers", "handlers/flash/pools.go")], OUT + ["the memory accesses and synchronisations of the goroutines"],
     note="For each schedule explored the solver is asked for an order of the recorded events in which two conflicting accesses are adjacent.")

prop("C09", "A fault in a writer or a value costs at most what failed and is reported",
     "When the writer fails, Handle returns that error and the records after it are written whole, unaffected by what failed before, even if the writer panicked. A value that cannot be rendered (failing or panicking methods, nil pointers, unsupported type, panicking LogValue) does not make Handle panic or lose the record: it is replaced by a text and all other attributes are there in a valid record.",
     ["fault_sequences", "inputs"], "all patterns of failing writes and failing values",
     "The tests never make a writer or a value fail.",
     FL + ["handlers/flash/pools.go"] + SL, [("error paths and buffer reuse", "handlers/flash/handler.go"), ("error paths", "handlers/sloggy/handler.go"), ("rendering of values that fail", "handlers/flash/composer.go")], ["the result of Handle"] + OUT)

prop("C10", "Time, level, message and source are written as configured and only then",
     "The time of the record comes first and denotes the same instant to the nanosecond (with the default format), followed by level and message; a zero time is left out, and the source (function, file, line) is there if and only if it is asked for and known. Flash uses the configured key names, level names and time format, each independently of the others, whatever characters they hold, and slog's for what is not configured. Nothing in the context changes the record.",
     ["inputs", "configurations"], "all times, levels, subsets of options and contexts",
     "The tests check one configuration each.",
     FL + ["handlers/flash/extras.go", "handlers/flash/source.go"] + SL, [("built-in fields", "handlers/flash/composer.go"), ("defaults of options", "handlers/flash/extras.go"), ("built-in fields", "handlers/sloggy/composer.go")], OUT)

prop("C13", "gin.Parse reads back every field of a Gin traffic line, rejects anything else",
     "For every line in Gin's traffic layout, whatever its status code, elapsed time, client, method and URL (blanks and bars in the URL included) and whatever the padding, gin.Parse returns exactly one attribute for each of the five fields, with the text of that field, the code as a number. For any other text it returns an error without attributes, or those five attributes; it never panics.",
     ["inputs"], "all texts",
     "The tests parse a few lines; blanks, quotes and bars may stand anywhere in what a client sends.",
     ["gin/parser.go"], [("parsing of the four parts of a line", "gin/parser.go")], ["the result of gin.Parse"])

prop("C14", "The gin writer turns every line into exactly one record of the right level",
     "Each line written to a gin writer becomes exactly one record of the default logger, or an error and no record. Its level is the one the last prefix names, else the configured one (INFO by default), read when the line is written. Its message is the text after prefixes and time stamp. When traffic is to be parsed, a traffic line becomes a record with the five fields, in the configured group or embedded, at the configured traffic level and message. Write reports the whole length.",
     ["inputs", "configurations"], "all lines and all options",
     "The tests write a few lines with one set of options each.",
     ["gin/writer.go", "gin/parser.go"], [("prefixes, levels and time stamps", "gin/writer.go"), ("defaults of options", "gin/writer.go")], ["the records the default logger receives", "the result of Write"])

prop("C11", "The functions of package replace change exactly the attributes they are asked to",
     "ChangeCase, ChangeKey, ChangeValue and RemoveKey change an attribute if and only if its key equals the given one (or equals it but for case, when asked so) and the group check, if there is one, accepts the open groups: TopCheck only when there are none, Current(name) only when name is the innermost. They then change only the key, only the value (its text in upper or lower case, or what the function gives for it), or give the empty attribute. Multiple applies its functions in order, each to the result of the one before, until one gives the empty attribute.",
     ["inputs", "configurations"], "all keys, groups, values and settings",
     "The tests use seven such functions on one record.",
     ["replace/change.go", "replace/group.go", "replace/multiple.go"],
     [("match of key and groups", "replace/change.go"), ("group checks", "replace/group.go"), ("sequence of functions", "replace/multiple.go")], ["the attribute returned"])

prop("C12", "The trace handler shows every call made to it, once, in order and indented",
     "Each call of Enabled, Handle, WithAttrs or WithGroup on a trace handler prints one entry to the standard output, in the order of the calls: the indentation given to NewHandler plus two blanks for each derivation, the name of the method and its argument, for Handle the level, the message in quotes and all attributes in order. A trace handler is enabled for every level, never fails, and deriving another handler leaves it as it was.",
     ["histories", "inputs"], "all histories of calls and all arguments",
     "No test covers the trace handler.",
     ["handlers/trace/handler.go"], [("printing of calls and of records", "handlers/trace/handler.go")], ["the standard output"])

prop("C16", "A warning manager reports exactly the warnings that were added, in order",
     "After any history of calls, GetWarnings gives one entry for each warning that was added, from the highest level to the lowest and by name within a level, with all its instances in the order they were added, each with its function, text and record (the line end dropped), and their number. Unused is reported only for a warning that was not itself added. HasWarning, HasWarnings and SkipTestIf answer for exactly the warnings set with WarnOnly; SkipTest adds both of its warnings. Managers do not influence each other. ShowHandlersByWarning lists under every warning shown each handler that had it, once, in order.",
     ["histories"], "all histories of calls on one or more managers",
     "The tests of the manager are the suites themselves, each with one fixed history.",
     ["infra/warning/manager.go", "internal/misc/function.go"], [("instances kept by name of the warning", "infra/warning/manager.go"), ("name of the calling test function", "internal/misc/function.go")], ["GetWarnings, HasWarning, HasWarnings, SkipTestIf", "the standard output"])

prop("C17", "Warning levels and the list of warnings of each level are always consistent",
     "ParseLevel accepts exactly the names of the levels (admin as well), in any mix of cases, and gives that level; every other text is an error. A level's String parses back to it, and no other level has that name. Every warning made with NewWarning is found by ByName and is in the list of its level exactly once, whether or not that list was asked for before; making a warning of a name in use gives the one there is. Lists are ordered by name.",
     ["inputs", "histories"], "all texts, levels and sequences of new warnings",
     "The tests parse the names only as they are written; lists are cached, so the order of asking and making matters.",
     ["infra/warning/level.go", "infra/warning/warning.go"], [("names of levels", "infra/warning/level.go"), ("warnings by name and by level", "infra/warning/warning.go")], ["ParseLevel, String, ByName, WarningsForLevel, NewWarning"])

prop("C18", "Benchmark output is parsed into exactly the records it shows",
     "ParseBenchmarkData keeps, for every line go test writes for a benchmark of a handler (with or without number of processors, memory and throughput columns), one record with the numbers of that line, the same by handler and by test; a later line for the same pair replaces it. Handler names and look up come from the handler lines, warning text is kept line by line, and anything else is ignored. The lists of handlers and tests hold each once, in order of name, also after a second report. ItemValue and the names of the items match the record.",
     ["inputs", "histories"], "all reports in the layout of go test",
     "The test parses one recorded report.",
     ["internal/data/bench_parser.go", "internal/data/bench.go", "internal/data/bench_items.go", "internal/data/benchitems_enumer.go"],
     [("patterns for the parts of a line", "internal/data/bench_parser.go"), ("records by test and by handler, cached lists", "internal/data/bench.go")], ["the methods of Benchmarks and TestRecord"])

prop("C19", "Warnings read back from a report are those that were reported",
     "Whatever warnings managers show for verification or benchmark runs, parsing that output gives, for each handler, level and warning, the summary and every instance with its function, text (all lines), record and source, and the same by test and by warning, with their counts; nothing else is found, whatever other output is around. Lists of handlers, tests, levels, warnings and instances are complete and in order, also when another report is parsed later. A handler without warnings is kept, without losing what an earlier report said of it.",
     ["inputs", "histories"], "all sets of warnings, texts and records, and all sequences of reports",
     "The test parses one recorded report; texts are free and the layout is read with a dozen patterns that overlap.",
     ["internal/data/warnings_parser.go", "internal/data/warnings.go", "internal/data/tags.go", "infra/warning/manager.go"],
     [("layout of the report", "infra/warning/manager.go"), ("patterns for the lines of a report", "internal/data/warnings_parser.go"), ("warnings by handler, test and name, cached lists", "internal/data/warnings.go")], ["the methods of Warnings"])

prop("C15", "The field counter counts the top-level members of every JSON object",
     "For every JSON object, whatever its white space, values, nesting and escapes, FieldCounter.Parse succeeds and then Fields lists each name that stands at the top level (as it is written) once and in order, NumFields is their number and Duplicates gives exactly those that appear more than once with how often; members of an object named fields at the top level count as if they stood there themselves (and the object does not), members of other objects do not count. A missing or doubled comma or colon, a wrong word or number or a value that is no object is an error. Parse and Expect of package json accept exactly JSON objects (and null). Nothing panics on any text.",
     ["inputs"], "all JSON objects and all texts",
     "The tests count fields of a few objects.",
     ["internal/json/field.go", "internal/json/parse.go"], [("reader of objects, arrays, strings, numbers and keywords", "internal/json/field.go")], ["the results of Parse, Fields, NumFields, Duplicates, String, Expect"])

prop("C20", "A scorekeeper shows exactly the handlers its filter keeps",
     "An include filter keeps a handler exactly if its name is among the items of the filter or, at any depth, of its groups; an exclude filter keeps exactly the others; what happens later to the lists a filter or group was made of does not matter. The registry refuses a keeper under a tag that is taken, gives each keeper under its tag, and lists all tags once: those that start with '+' last, otherwise in order, also after more are added. Setting a keeper up sets both its axes up with the data, reports the error of an axis, and afterwards the keeper lists the handlers whose names its filter keeps (all without one) in the order of the data, also when set up again. Titles and captions are those of the options or the defaults. Types of score have distinct names which read back in any case, and nothing else reads as one. An average is the sum of its values, each with its multiple, by their number.",
     ["inputs", "histories"], "all filters, tags, handlers and values",
     "The tests keep a few names; registry, groups and set-up are not tested.",
     ["internal/scoring/score/filter.go", "internal/scoring/score/keeper.go", "internal/scoring/score/axis.go", "internal/scoring/score/type.go", "internal/scoring/score/type_enumer.go", "internal/scoring/score/average.go"],
     [("filters and groups", "internal/scoring/score/filter.go"), ("registry and set-up of keepers", "internal/scoring/score/keeper.go"), ("averages", "internal/scoring/score/average.go")], ["results of the exported functions and methods of package score"])

prop("C21", "Scores are the documented weighted averages, from 0 (worst) to 100 (best)",
     "In each benchmark test and for each item (time, memory, allocations) in which handlers differ, the best handler gets 100, the worst 0 and others their place between; the score of a test is the average of its items by the weights of the axis; ByTest and Original are the average of the tests a handler ran (among those the axis includes and does not exclude), ByData is the weighted average of its averages by item, and Default and ScoreFor the mean of ByTest and ByData; what no handlers differ in does not count, and does not spoil the rest. HasTest holds exactly for tests that count. For warnings the score of a level is 100 times the share of the level's warnings (of those any handler has) that a handler does not have, however many instances there are; ByData, Default and ScoreFor weight the levels, Original weights the counts. Scores are never outside 0 to 100. The exhibits list the weights in order and the tests included and excluded.",
     ["inputs"], "all benchmark numbers, missing tests, weights and sets of warnings",
     "The test compares scores of one recorded run with each other; missing tests, equal numbers and warnings are not in it.",
     ["internal/scoring/axis/benchmarks.go", "internal/scoring/axis/bench/data.go", "internal/scoring/axis/bench/original.go", "internal/scoring/axis/common/data.go", "internal/scoring/axis/common/range.go", "internal/scoring/axis/warnings.go", "internal/scoring/axis/warn/data.go", "internal/scoring/axis/warn/original.go"],
     [("ranges, scores by test and item", "internal/scoring/axis/benchmarks.go"), ("scores by level", "internal/scoring/axis/warnings.go")], ["ScoreFor, ScoreForTest, ScoreForType, ScoreForLevel, HasTest"])

prop("C22", "Requests for pages at the same time do not disturb each other",
     "Once benchmark and warning data are loaded and scored, any number of goroutines may ask at the same time for everything pages show: names of tags, lists of handlers, tests, levels, warnings, instances and keepers, data of a warning by name (also one nobody has), scores of handlers, tests and levels, descriptions and other Markdown. There is no data race in any schedule, nothing panics or blocks, and each gets what it would get on its own. Markdown becomes the same HTML whatever was rendered before or is rendered meanwhile.",
     ["schedules", "histories"], "all schedules of requests",
     "The tests read the data from one goroutine; a race needs two first readers at the same time.",
     ["internal/data/tags.go", "internal/data/bench.go", "internal/data/warnings.go", "internal/scoring/score/keeper.go", "internal/scoring/axis/common/data.go", "internal/scoring/axis/warn/data.go", "internal/markdown/html.go", "infra/warning/warning.go"],
     [("names of tags", "internal/data/tags.go"), ("lists filled when first used", "internal/data/warnings.go"), ("registry of keepers", "internal/scoring/score/keeper.go"), ("rendering of Markdown", "internal/markdown/html.go")],
     ["results of the methods of Benchmarks, Warnings, Keeper and axes", "data races"])

prop("C23", "The benchmark suite accepts right output and notices every departure",
     "For each benchmark the verification of what was logged reports nothing about output that holds what the benchmark logs, whatever the order of fields, the case of the level, the usual other key of the message and further fields (but for Simple), and reports an error or a warning for output in which a field is missing, has another name, value or kind (text instead of a group, say), is there twice, or which is empty or no JSON; nested groups have to reach their depth under their names, and a disabled benchmark has to write nothing. With a warning declared (Mismatch, StringAny, Duplicates, SourceKey, NotDisabled) the departure is recorded as that warning and is no error, while a departure no declared warning is for still is an error, also next to one that is declared; what was declared and did not happen is recorded as unused. Lines written by several goroutines are all counted.",
     ["inputs", "schedules"], "all outputs that depart at one place, and all schedules of writers",
     "The tests verify a few recorded lines; a verification that lets wrong output through passes them all.",
     ["bench/tests/benchmarks.go", "bench/tests/checks.go", "bench/tests/data.go", "bench/tests/utility.go", "bench/tests/suite.go", "internal/test/writer.go", "internal/json/field.go"],
     [("verification of each benchmark", "bench/tests/benchmarks.go"), ("comparisons of fields", "bench/tests/checks.go"), ("expected values", "bench/tests/data.go"), ("counting lines", "internal/test/writer.go")],
     ["VerifyFn of the benchmarks", "warnings recorded by the manager"])

prop("C24", "The verification suite passes right handlers and notices wrong ones",
     "A handler that writes what the documentation of log/slog asks for passes every test of the verification suite, without a warning, whatever the order of its fields and the white space between them. A handler whose output lacks a field a test looks at, or has it with another name, value or kind, twice, or with fields too many, that is enabled from another level on, or that changes its parent when deriving, fails the test. With the warning for a fault declared, a test that meets the fault records that warning and does not fail; a test that knows the warning and does not meet the fault records that it is unused and nothing else. Faults that no declared warning is for still fail the test or are recorded.",
     ["inputs"], "all handlers that differ from a right one in one place",
     "The repository runs the suite with handlers at hand, whose output is right or forgiven; a test that no longer notices anything passes with all of them.",
     ["verify/tests/slogtest.go", "verify/tests/documented.go", "verify/tests/checks.go", "verify/tests/other.go", "verify/tests/replace.go", "verify/tests/complex.go", "verify/tests/duplicate.go", "verify/tests/utility.go", "verify/tests/suite.go", "verify/tests/warnings.go", "infra/warning/manager.go"],
     [("tests that mimic testing/slogtest", "verify/tests/slogtest.go"), ("common checks", "verify/tests/checks.go"), ("tests of ReplaceAttr", "verify/tests/replace.go"), ("declared and recorded warnings", "infra/warning/manager.go")],
     ["whether a test fails", "warnings recorded by the manager"])

prop("C25", "Creators make the handlers they are named for, with the options asked for",
     "A Creator gives back the name, summary and links it was given, and makes loggers and handlers with its functions, to which it hands writer and options as they are: NewLogger prefers the function for loggers and otherwise wraps a handler, without a function for handlers NewHandler returns nil and CanMakeHandler is false. The handlers of madkins/flash, madkins/sloggy, slog/JSONHandler (and veqryn/dedup/None) write byte for byte what those handlers write with the same options (none included), and madkins/replattr writes the fields of madkins/flash, the caller's ReplaceAttr included, without changing the options. The other modes of veqryn/dedup append, ignore, increment or overwrite keys that repeat, at the top and in groups. Handlers of the other creators write to their writer exactly the records at or above the Level asked for, also when a LevelVar is changed later. The conversions to levels of zap and logrus give each level the nearest named one below (debug at least); names of modes are read back in any case.",
     ["inputs", "histories"], "all options, levels, texts and derivations",
     "The suites run each creator with a few fixed options and warn rather than fail where its library departs from slog.",
     ["infra/creator.go", "infra/options.go", "infra/attributes.go", "creator/madkinsflash/creator.go", "creator/madkinssloggy/creator.go", "creator/madkinsreplattr/creator.go", "creator/slogjson/creator.go", "creator/veqryndedup/creator.go", "creator/veqryndedup/mode_enumer.go", "creator/utilzap/conversion.go", "creator/utillogrus/conversion.go", "creator/samberzap/creator.go", "creator/samberlogrus/creator.go", "creator/samberzerolog/creator.go", "creator/phsymzerolog/creator.go", "creator/phusluslog/creator.go"],
     [("functions for handlers and loggers", "infra/creator.go"), ("ReplaceAttr functions that undo Extras", "creator/madkinsreplattr/creator.go"), ("handlers by mode", "creator/veqryndedup/creator.go"), ("levels of other libraries", "creator/utilzap/conversion.go")],
     ["results of Creator, NewHandler and NewLogger", "what handlers write"])

prop("C26", "Charts show exactly the records and scores of the data, whoever asks",
     "A bar chart for a handler or a test and a kind of figures has one bar for each record the data has for it, with the value of that record, labelled with the name of the test or handler, the first name at the top, under the title of the figures. A score chart of a scorekeeper names its two axes, and has for every handler whose scores are both within the size asked for (0, 25, 50 or 75 and up) exactly one dot at those scores and one label with the name of the handler, joined with it, in the order of the scores and without overlap, and the borders of the smaller sizes; sizes out of range are taken as the nearest. What is not known gives no chart and nothing panics. The smallest size a keeper is said to have is the smallest that still has all of its handlers. Dots are red at the worst scores and green at the best. Charts asked for again, or by several goroutines at the same time, are the same ones, without a data race.",
     ["inputs", "histories", "schedules"], "all scores, sets of records, orders and schedules of requests",
     "The repository has no test of charts; a chart of the wrong record looks like any other.",
     ["cmd/server/chart/bar.go", "cmd/server/chart/score.go", "cmd/server/chart/cache.go", "internal/data/bench.go", "internal/data/bench_items.go", "internal/scoring/score/keeper.go"],
     [("bars", "cmd/server/chart/bar.go"), ("dots, labels and sizes", "cmd/server/chart/score.go"), ("charts kept", "cmd/server/chart/cache.go")],
     ["options handed to the libraries that draw", "responses"])

prop("C27", "The tabular command shows every record and every warning of its files",
     "Given the output of the benchmarks, of the verification or both, the command prints one table for each test that was run, in the order of their names, with exactly one row for each handler that ran it, in the order of their names, which holds the name of the handler and the five figures of its record (thousands separated by commas, times and throughput with two digits); and then for every handler, each level and warning in order with its number of instances, and every instance with its source, its function, all lines of its text and its record. Nothing is left out, shown twice or shown under another handler, test, level or warning, whatever the texts are.",
     ["inputs"], "all reports, texts and sets of warnings",
     "The command has no test.",
     ["cmd/tabular/tabular.go", "internal/data/setup.go", "internal/data/bench_parser.go", "internal/data/warnings_parser.go", "internal/data/warnings.go", "internal/language/setup.go"],
     [("tables and lists", "cmd/tabular/tabular.go"), ("loading both files", "internal/data/setup.go")],
     ["standard output of the command"])

prop("C28", "The scorekeepers show the handlers of their group by the documented weights",
     "After setup there are exactly the scorekeepers Default, Simple, Size, +Dedup and +ReplAttr, in this order, found under their tags and no other. Default, Simple and Size show all handlers with benchmarks but madkins/replattr, snqk/meld and the four modes of veqryn/dedup; +Dedup shows slog/JSONHandler, snqk/meld and those four modes, and +ReplAttr shows madkins/flash and madkins/replattr, all in the order of the data; which handler is shown depends on its name alone. The x axis of Size scores the BigGroup and Logging benchmarks and its y axis all others; those of the others score the warnings and all benchmarks. Scores are those of the documented weights: 3, 2 and 1 for time, bytes and allocations and 8, 4, 2 and 1 for required, implied, suggested and administrative warnings, for Simple 2 and 1 for time and allocations and 2 and 1 for required and implied warnings.",
     ["inputs"], "all names of handlers, times and sets of warnings",
     "The tests look at filters and averages one by one; no test sets up the keepers the server shows.",
     ["internal/scoring/setup.go", "internal/scoring/keeper/default.go", "internal/scoring/keeper/simple.go", "internal/scoring/keeper/size.go", "internal/scoring/keeper/dedup.go", "internal/scoring/keeper/replattr.go", "internal/scoring/group/dedup.go", "internal/scoring/group/replattr.go", "internal/scoring/filter/dedup.go", "internal/scoring/filter/replattr.go", "internal/scoring/filter/basic.go", "internal/scoring/axis/benchmarks.go", "internal/scoring/axis/warnings.go", "internal/scoring/score/keeper.go"],
     [("keepers", "internal/scoring/keeper/setup.go"), ("groups of handlers", "internal/scoring/group/dedup.go"), ("weights and tests of the axes", "internal/scoring/keeper/size.go")],
     ["score.Keepers, GetKeeper, HandlerTags, X and Y"])

prop("C29", "The server's pages show all the data there is, and only as text",
     "The page of a handler or test shows exactly the benchmarks and warnings there are of it, in order, with what was measured, what was warned about, its text and its record (indented when it is JSON, as it is otherwise), and charts exactly when there are benchmarks; every page offers all handlers, tests with benchmarks or verification warnings, scorekeepers and text files to choose from and marks the one it shows; the page of warnings counts them by handler and lists who has them; the page of tags names what each tag stands for; the page of a scorekeeper shows its handlers with the scores and measurements of both axes. No text of the files, no file shown and no name in a URL changes anything of a page but its text: it adds no tag or attribute and appears as it is. Numbers look as they do in the first known language of the -language flags, in American English otherwise. Every page can be reached by links, no link is dead, and a page asked for again is the same.",
     ["inputs"], "all sets of benchmarks and warnings, texts in files and URLs, and numbers",
     "No test asks the server for a page; a text that is harmful, missing data, or several sources of one test never come up.",
     ["cmd/server/server.go", "cmd/server/text.go", "cmd/server/pages/handler.gohtml", "cmd/server/pages/test.gohtml", "cmd/server/pages/home.gohtml", "cmd/server/pages/warnings.gohtml", "cmd/server/pages/guts.gohtml", "cmd/server/pages/scores.gohtml", "cmd/server/pages/text.gohtml", "cmd/server/parts/header.gohtml", "cmd/server/parts/warnings.gohtml", "cmd/server/parts/source.gohtml", "internal/data/warnings.go", "internal/data/bench.go", "internal/data/tags.go", "internal/language/setup.go", "internal/scoring/score/keeper.go"],
     [("pages and their data", "cmd/server/server.go"), ("texts of warnings", "internal/data/warnings.go"), ("text files", "cmd/server/text.go"), ("what the pages show", "cmd/server/pages/handler.gohtml")],
     ["the bodies and statuses of responses to GET requests"])

"""How each property is decided and against what; bounds are in specs_list.py."""
# property: (how it is decided, oracle)
TEXT = {
 "C01": ("A logger over `flash.NewHandler` with a recording writer logs a record whose texts (message, key, group name, value, error, Stringer, ...) have symbolic bytes. The escaping code of composer.go branches on them; every path's output is a string of terms.",
         "`harness/jt`, a strict JSON parser that runs symbolically over the output, and `strings.ToValidUTF8` of the text given."),
 "C02": ("As C01 with `sloggy.NewHandler`.", "As C01."),
 "C03": ("Scalars are symbolic (64-bit vectors, float bit patterns for NaN) and logged at six places; decimal formatting is a stand-in that constrains fresh digits by their weighted sum, so that the solver compares numbers rather than texts.",
         "The number the JSON parser reads, as a term, equals the one logged. Finite floats and times are concrete tables."),
 "C04": ("Every choice of derivation steps and attribute shapes is a path of its own; leaf texts are symbolic.", "A model of slog's rules (`harness/logs/structure.go`) that builds the expected tree from the history alone; the tree the parser reads must equal it, order included."),
 "C05": ("Handlers are derived from a common ancestor in every arrangement, used in two orders; what each writes is compared as terms.", "The same chain of derivations from a fresh handler, which nothing else was derived from."),
 "C06": ("As C04 with a ReplaceAttr that records its calls.", "The model of C04, which applies the function to the resolved leaves with the names of the groups open, and says how often it is to be called with what."),
 "C07": ("Level and threshold are symbolic 64-bit integers; Enabled's answer is compared as a term.", "`level >= threshold`; `slog.Level.String` for names."),
 "C08": ("Goroutines are threads of the executor. Switches happen at synchronisation operations and at calls of the writer, of ReplaceAttr and of LogValue, up to the number of preemptions; for every such execution the happens-before order that must hold and all memory accesses are collected, and the solver is asked whether there is an order of the events in which two conflicting accesses are not ordered (`engine/race.go`). A race found is replayed with the race detector.",
         "The bytes of each record logged alone; writes are whole and do not overlap; no deadlock; no pair of conflicting accesses that may be concurrent."),
 "C09": ("A writer fails or panics by symbolic choice at each record, after a symbolic number of bytes; values whose methods fail are put at four places.", "Handle's error is the writer's; records after it equal those of a handler without faults; the record with a bad value has all other members."),
 "C10": ("Options are symbolic: which of the extras are set, their texts, the level; the output is parsed.", "Order and presence of time, level, source, message as slog documents them, keys and names as configured."),
 "C11": ("Keys, group names and values are symbolic texts; the replace functions run on attributes made of them.", "Own definitions: equality, ASCII case folding byte by byte, the innermost group; case tables beyond ASCII are concrete words."),
 "C12": ("Standard output is a buffer; histories of derivations and calls are choices, texts symbolic.", "The entries the documentation describes, composed from the history."),
 "C13": ("Lines in Gin's format with symbolic fields; `regexp` runs as the host's automaton over symbolic bytes (`engine/regex.go`).", "The fields the line was built from."),
 "C14": ("As C13 through `gin.NewWriter(...).Write` with a recording default logger.", "Own reading of prefixes and levels, by the README's description."),
 "C15": ("JSON text built from the grammar with symbolic names, values and white space in any place.", "The members it was built from."),
 "C16": ("Histories of calls of a warning manager as choices, texts symbolic; iteration over maps in every order.", "A list-based model of the manager."),
 "C17": ("Texts of levels and names are symbolic; the registry of warnings is asked before, between and after.", "The documented names; a list model of the registry."),
 "C18": ("Text of a report is built from lines with symbolic integers and names, and parsed.", "The records the lines were built from."),
 "C19": ("Managers are filled by choices and symbolic texts, shown (real code), the output parsed (real code), and compared.", "What was put into the managers (a round trip)."),
 "C20": ("Filters, tags and names are symbolic texts; keepers get stub axes which record what they are asked; averages are over symbolic reals.", "Own definitions of membership, order and weighted average."),
 "C21": ("Benchmark times are symbolic reals (SMT reals in place of float64), counts and presence are choices.", "The documented formula in the same reals, compared with a tolerance of 1e-6."),
 "C22": ("As C08, for requests of pages over loaded data.", "What each request returns alone; no data race."),
 "C23": ("`VerifyFn` of each benchmark is called on what a reference handler writes for it, with a departure at a symbolic place with symbolic text.", "Whether the departure leaves the line different from what the benchmark documents; for a declared warning, the manager's record of it."),
 "C25": ("Creators with recording functions; handlers made by a creator and directly, given the same symbolic options, derivations and records. zap, logrus, zerolog, phuslu/log and slog-dedup are executed symbolically too.", "The handler the creator is named for; a model of the four ways to treat repeated keys; tables of levels."),
 "C26": ("The handlers for charts answer requests of a gin context over parsed data with symbolic scores. In copies of go-charts and go-chart the functions that draw hand over what they were asked to draw.", "The records and scores themselves: which bars, dots, labels, borders there have to be, compared with a tolerance of 1e-6; for concurrent requests, the chart drawn alone; no data race."),
 "C27": ("The code of the command is copied into a package whose `Main` the harness calls, with files made in memory and the standard output kept; x/text, go-utils' tables and fmt are executed too.", "The whole text that should be shown, written down independently from the same records and warnings."),
 "C28": ("The server's setup (templates, axes, keepers) runs on parsed data of handlers with symbolic names, times and warnings; snqk/meld, which is not here, is a stand-in of the check, only its creator's name matters.", "The groups of handlers and the weights as the documentation of the keepers has them; scores in SMT reals."),
 "C29": ("The command's main runs on files with symbolic texts or digits up to where it would listen; its router is handed requests and executes the real templates (the engine encodes text/template and html/template with their reflection). A reader of HTML in the harness turns each page into rows, links, choices and images.", "A model of what there is (handlers, tests, measurements, warnings by source) and what each page is to show of it; for texts, the page with a harmless text has the same tags and attributes, and the text reads back as it is. Scores themselves are those of C20, C21 and C28."),
 "C24": ("Each test method of the suite runs with a reference handler (`harness/suites/ref.go`) that is right, that has one of the faults the warnings are for, or whose output is changed at a symbolic place. Testify's assertions are stand-ins that record whether they failed.", "Whether the change is one the test is to notice: `v.sees` (fields looked at, counts) per test, from the documentation of the tests; the warnings of a fault are a table."),
}
# changes a check first missed: what was added to the check since
LATE = {
 "replattr-functions-shared": "`Two`, two creators side by side",
 "dedup-one-json-handler": "`Two`",
 "filter-large-group": "`FilterLarge`",
 "gin-many-prefixes": "`Messages` after 10 prefixes",
 "trace-no-attrs-flat": "WithAttrs of nothing",
 "sloggy-group-chain-alias": "handlers with 3 open groups",
 "flash-time-same-microsecond": "`NearTimes`",
 "tabular-three-lines": "texts of up to four lines",
 "tabular-long-record": "texts and records of 300 bytes",
}

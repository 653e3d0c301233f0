#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run it to regenerate the file."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, title
    P.append(d)

FL="handlers/flash/"; SL="handlers/sloggy/"
p("H01","Every log record is exactly one complete, valid JSON line",
  "Whatever is logged through a flash or sloggy handler (any message, keys, group names, attribute values including arbitrary bytes, NaN or infinite floats and values whose marshalling fails, any level, any chain of derived loggers), each enabled record reaches the writer as exactly one Write call whose bytes are one syntactically valid JSON object followed by a line end. Nothing is written for a record in any other form: no second object, no raw control character, no invalid UTF-8, no missing or doubled separator.",
  ["inputs","programs"],"all records, attribute trees, logger derivation chains and handler options",
  "The tests log a handful of fixed well-behaved attributes and a few printable strings; they never log invalid UTF-8, special floats, failing marshallers, odd group names or groups emptied during output.",
  [FL+"composer.go",FL+"handler.go",SL+"composer.go",SL+"handler.go"],
  [("addEscaped / addString","handlers/flash/composer.go, handlers/sloggy/composer.go"),("prefix/suffix composition","Handle in both handler.go")],
  observe=["bytes handed to the io.Writer"])
p("H02","A record's JSON carries exactly the attached attributes, in order",
  "Decoding a flash or sloggy line gives the time (omitted when zero), level and message followed by exactly the attributes attached by With and by the record, in the order they were attached, nested under the groups open when they were attached, repeated keys kept, and every scalar equal to the logged one. Durations appear as integer nanoseconds, times as RFC 3339 text with nanoseconds, log valuers as what they resolve to at any depth, errors and stringers as their text, text and JSON marshalers as what they produce (the JSON possibly as text), other values as their JSON encoding (an IP network given by value possibly as its text). A value with several of these forms appears in one of them.",
  ["inputs","histories"],"all chains of WithAttrs/WithGroup and all records over every attribute kind",
  "Tests compare a few fixed attribute lists through maps, which hides order and duplicates, and use at most two derivation steps.",
  [FL+"composer.go",FL+"handler.go",SL+"composer.go",SL+"handler.go"],
  [("addAttribute","handlers/flash/composer.go, handlers/sloggy/composer.go"),("prefix, suffix","WithAttrs/WithGroup")],
  state=[("prefix/suffix","serialised With state of a logger","handlers/flash/handler.go")])
p("H03","Empty attributes and groups without content never appear in the output",
  "An empty attribute, an empty or all-empty group value, and a group opened by WithGroup into which nothing ends up being written leave no trace in a flash or sloggy line, while a group value with an empty name is inlined and WithGroup with an empty name changes nothing. Everything else in the record is unaffected by their presence, wherever they occur.",
  ["inputs","histories"],"all placements of empty attributes, empty groups (also produced by log valuers) and empty-named groups in derivation chains and records",
  "Tests place a few empty attributes in fixed positions and one trailing empty subgroup.",
  [FL+"composer.go",SL+"composer.go"],
  [("emptyGroup","composer.go"),("prefix of open groups","handler.go")])
p("H04","Derived loggers are independent of each other",
  "Deriving loggers with WithAttrs or WithGroup from a flash or sloggy logger never changes what any previously derived logger, the parent or a sibling logs, nor the groups its replace function sees: a logger's output is a function of its own derivation path and the record alone. This holds whatever the order of derivations and logging.",
  ["histories"],"all interleavings of derivations and logging over a tree of loggers",
  "Every test derives a single chain and logs through the last logger only.",
  [FL+"handler.go",SL+"handler.go"],
  [("WithAttrs, WithGroup copy of parent state","handlers/flash/handler.go, handlers/sloggy/handler.go")],
  state=[("prefix, suffix, groups","per-logger state whose backing arrays could be shared","handlers/flash/handler.go")])
p("H05","Concurrent logging keeps every record whole and is free of data races",
  "When goroutines log and derive concurrently through loggers that share one flash or sloggy root handler, the writer never sees two Write calls at once, each record arrives whole, and the received lines are, as a multiset, exactly those a sequential run produces. No data race occurs.",
  ["schedules"],"all goroutine interleavings of logging and derivation on loggers sharing a writer",
  "No handler test uses a second goroutine; the parallel benchmarks discard output.",
  [FL+"handler.go",FL+"pools.go",SL+"handler.go"],
  [("shared mutex around Write","handler.go"),("buffer and composer pools","handlers/flash/pools.go")])
p("H06","Level gating follows the configured threshold at the moment of the call",
  "A flash or sloggy logger emits a record exactly when its level is at least the configured threshold at that moment, the default being Info, and every logger derived from it uses the same, possibly changing, threshold. The emitted level text is the standard one for every level value, also between and beyond the named levels.",
  ["inputs","histories"],"all levels and all histories of threshold changes, derivations and logging",
  "Tests probe nine levels against the default constant threshold and never change it.",
  [FL+"handler.go",SL+"handler.go"],[("Enabled","handler.go"),("fixOptions","handler.go")])
p("H07","ReplaceAttr sees every non-group attribute once, with its open groups",
  "For flash and sloggy handlers with a replace function, it is called for each built-in field with no groups and for each other non-group attribute with the names of all groups open around it (from WithGroup and from nested group values alike), receives resolved values, and is never called on a group itself. What it returns is what is logged; returning the empty attribute removes the field, and groups left without content disappear.",
  ["inputs","programs"],"all replace functions and attribute trees",
  "Tests use a few fixed replace functions on top-level fields only.",
  [FL+"composer.go",FL+"handler.go",SL+"composer.go",SL+"handler.go"],
  [("addAttribute","composer.go"),("groups stack","composer.go / handler.go")])
p("H08","Text round-trips: any string decodes back to itself from the log line",
  "Any string used as message, attribute key, string value, group name, error or stringer text comes back unchanged when a flash or sloggy line is decoded as JSON, except that each maximal invalid UTF-8 part is replaced by replacement characters. Flash writes quotes, backslashes and slashes with a backslash, the five short control escapes, upper-case hexadecimal escapes for other control characters, and passes all other characters through unchanged.",
  ["inputs"],"all byte strings in all text positions",
  "Six fixed strings are checked; truncated or invalid sequences and characters next to multi-byte sequences are not.",
  [FL+"composer.go",SL+"composer.go","internal/test/data.go"],
  [("addEscaped","handlers/flash/composer.go"),("addString","handlers/sloggy/composer.go")])
p("H09","Flash extras rename and reformat the built-in fields and nothing else",
  "The extra options of the flash handler set the names of the time, level, message and source fields, the time format of the built-in time and the names of levels, every unset one keeping its default (level names not given fall back to the standard text of that level). No other part of the line changes, and neither the caller's handler options nor extras are modified by, or connected to, the handler afterwards.",
  ["configurations","inputs"],"all combinations of extra options with all records",
  "One fixed full configuration is tested; partial level maps, unnamed levels and reuse of one options value are not.",
  [FL+"extras.go",FL+"handler.go",FL+"composer.go"],[("fixExtras","handlers/flash/extras.go"),("fixOptions","handler.go")])
p("H10","The source field names the call site that logged the record",
  "With AddSource set, a flash or sloggy line has one source field holding the function, file and line of the statement that logged the record, however the logger was derived and called; without AddSource, or for a record without program counter, there is none. The field is a built-in field: outside any group and subject to replacement.",
  ["inputs","configurations"],"all call sites, derivation chains and records with or without a program counter",
  "One direct call site is tested and only for presence.",
  [FL+"source.go",FL+"handler.go",SL+"handler.go"],[("loadSource","handlers/flash/source.go"),("CallersFrames","handlers/sloggy/handler.go")])
p("H11","A failing write or attribute affects only its own record",
  "If the writer fails or writes short with an error, or user code run for a record (stringer, error, marshaller, log valuer, replace function) panics, the failure of the writer is reported as an error by the handler and every other record, before, after or concurrent, is logged exactly as if the failing one had not happened. The handler never deadlocks, also when user code logs through the same handler while a record is being composed.",
  ["fault_sequences","histories"],"all placements of write failures, panics and re-entrant logging in a history of records",
  "No test has a failing writer, a panicking value or re-entrant logging.",
  [FL+"handler.go",FL+"pools.go",SL+"handler.go"],[("deferred unlock and pool return","Handle")])
p("H12","Flash, sloggy and the standard JSON handler log the same content",
  "For attributes of the basic kinds, groups and log valuers, under any options without replacement and any derivation chain, a flash handler, a sloggy handler and the standard library JSON handler produce lines that decode to the same sequence of fields and values. A user can switch between them without changing log content.",
  ["inputs","programs"],"all programs of derivations and records over basic kinds",
  "The verification suite checks about forty fixed situations per handler against hand-written expectations.",
  [FL+"doc.go",SL+"doc.go",FL+"composer.go",SL+"composer.go"],[("documented equivalence","handlers/sloggy/doc.go")])
p("H13","The trace handler prints one faithful line per handler call",
  "Each call on a trace handler or on any handler derived from it prints exactly one line made of that handler's indent, the method name and the arguments (free of line breaks) in call order, where every derivation adds two spaces of indent to the derived handler only. All levels are enabled, no call fails, and nothing else is printed.",
  ["histories"],"all histories of handler calls over a tree of trace handlers",
  "The trace handler has no tests.",
  ["handlers/trace/handler.go"],[("show, recordImage","handlers/trace/handler.go")])
p("R01","Replace functions change exactly the matching attributes",
  "Each replace function (key change, value change, case change, removal) changes an attribute only when its key matches, exactly or ignoring case as requested, and its group check (none, top level, current group) accepts the open groups; it then changes only the key or only the value as described, and leaves everything else identical. A sequence of functions behaves as applying them one after the other until one empties the attribute. Functions used by several goroutines at once behave the same.",
  ["inputs","programs"],"all attributes, group stacks, keys and compositions of replace functions",
  "Eight fixed attributes are tested, none in groups and none composed.",
  ["replace/change.go","replace/group.go","replace/multiple.go"],[("checkFieldGroups","replace/change.go"),("Multiple","replace/multiple.go")])
p("C01","The replace-attribute handler corrects its deviations completely",
  "Records at the standard levels logged through the handler that uses replace functions to undo renamed level and message fields are identical to those of the plain flash handler with the same options, including a user replace function, which sees the corrected fields. User attributes are never touched, whatever their keys and groups, as long as they are not top-level fields with the renamed names. The same lines come, in any order, when goroutines log at the same time.",
  ["inputs","configurations"],"all records and options at the four standard levels",
  "The verification suite runs fixed situations only and compares each with its own expectation, not with the plain handler.",
  ["creator/madkinsreplattr/creator.go","replace/multiple.go","replace/change.go"],[("handlerFn","creator/madkinsreplattr/creator.go")])
p("C02","Handler factories deliver what their parts and options promise",
  "A creator with a handler function makes both handlers and loggers from it, one with only a logger function makes loggers and no handler and says so, and names, summaries and links are returned as given. Every bundled creator that builds here gives loggers that honour the given level threshold at the standard levels (Info if none is given, except where the wrapped library has another default), leave the given options as they are, write one JSON object per record to the given writer with message, level, attributes and (only if asked for) source, and stay independent of separately created loggers. The ready-made options set what they are named for and nothing else. Dedup creators treat repeated keys as their mode says, and levels convert to the highest standard level not above them.",
  ["configurations","inputs"],"all creator combinations, options and levels",
  "Tests check one creator's accessors; gating across all levels and independence are not checked.",
  ["infra/creator.go","infra/options.go","creator/slogjson/creator.go","creator/utilzap/conversion.go","creator/utillogrus/conversion.go","creator/veqryndedup/creator.go"],
  [("NewLogger/NewHandler/CanMakeHandler","infra/creator.go"),("level conversion","creator/util*/conversion.go")])
p("G01","Each Gin log write becomes one slog record at the right level",
  "A message written to the Gin writer is forwarded as exactly one record on the default logger carrying the text without its Gin tags, level tags, time prefix and trailing newlines, and the write reports all bytes consumed. Its level is the one of the last level tag (the debug tag counting as Debug) or else the writer's configured level; a leading unknown bracketed level is reported as an error with nothing logged, and bracketed text inside the message is left alone. Writes at the same time give the same records as writes one after the other.",
  ["inputs","configurations"],"all combinations of leading tags, time prefixes, message texts and writer levels",
  "Tests write eight fixed lines; brackets inside messages, stacked tags and custom levels are not covered.",
  ["gin/writer.go"],[("Write","gin/writer.go"),("ptnLogLevel","gin/writer.go")])
p("G02","Gin traffic lines are parsed into exactly the fields they show",
  "With traffic parsing on, a line with status code, elapsed time, client, method and quoted URL is logged with exactly those five values, either in the configured group or embedded at top level, under the configured message and traffic level (defaults included). A line that is not traffic, also one with further text behind it, is logged unchanged as without parsing, a debug note about it aside. Lines written at the same time are not mixed up.",
  ["inputs","configurations"],"all traffic field values a Gin server can print and all traffic options",
  "One fixed traffic line is parsed; other codes, padded values, URLs with separators and the traffic level option are not.",
  ["gin/parser.go","gin/writer.go","gin/doc.go"],[("Parse","gin/parser.go"),("Traffic options","gin/writer.go")])
p("W01","Warning definitions are unique, complete and consistently ordered",
  "Every defined warning is found under its name and listed exactly once, in name order, under its own level, also after further warnings are defined; a second definition of a name yields the first. Level names parse back to their level regardless of case, error texts carry level, name, summary and extra text, and a description reads the same however far its text is indented and however often it is asked for. All this also holds when warnings are defined, listed and looked up at the same time.",
  ["histories","inputs"],"all sequences of warning definitions and look-ups",
  "A single count per level is compared with a constant; definition order, duplicates and late definitions are not covered.",
  ["infra/warning/warning.go","infra/warning/level.go","infra/warning/errors.go","internal/markdown/html.go"],[("NewWarning, WarningsForLevel","infra/warning/warning.go")])
p("W02","The warning manager reports exactly the warnings that were recorded",
  "After any sequence of warning-manager calls, the result lists each recorded warning once, with a count equal to its instances, instances in recording order with their function, text and record, sorted from most to least important level and by name; an unused-warning entry survives only if that warning was never recorded. Asking for the result again, or showing it, changes nothing, and tests are skipped exactly for the warnings declared.",
  ["histories"],"all sequences of manager operations",
  "The manager has no direct tests; the suites use it along fixed paths.",
  ["infra/warning/manager.go"],[("AddWarningFnText, GetWarnings, SkipTestIf, WarnOnly","infra/warning/manager.go")],
  state=[("warnings, warnOnly, predefined","manager state","infra/warning/manager.go")])
p("W03","A printed warning report parses back to the same warnings",
  "Parsing the report printed by warning managers, plain or embedded in other test output, gives for every handler exactly the warnings, levels, summaries, functions, texts and log records that were recorded, for every warning exactly the handlers and tests that raised it with the right counts, and handlers without warnings as present but empty. Handler summaries and links printed by the suite are recovered too, and the closing overview lists each raised warning once, under its level, with exactly the handlers that raised it.",
  ["inputs","histories"],"all sets of recorded warnings over several handlers and the output around them",
  "Two stored outputs are parsed and a dozen values compared; printer and parser are never run together.",
  ["infra/warning/manager.go","internal/data/warnings_parser.go","internal/data/warnings.go","verify/tests/suite.go"],[("ShowWarnings","infra/warning/manager.go"),("ParseWarningData","internal/data/warnings_parser.go")])
p("D01","Benchmark output is parsed into exactly the results it contains",
  "Parsing Go benchmark output gives one result per handler and test, identical whether looked up by handler or by test, with every printed number intact and derived rates consistent; handler names come from their definition lines or else from the tag, commented lines are collected as warning text in order, and all other lines are ignored. The listed handlers and tests are complete, free of duplicates and sorted by name.",
  ["inputs"],"all benchmark outputs: any handlers, tests, optional columns, interleaved definition, comment and unrelated lines",
  "There is no test of the parser besides a score test on one stored file.",
  ["internal/data/bench_parser.go","internal/data/bench.go","internal/data/tags.go"],[("ParseBenchmarkData","internal/data/bench_parser.go")])
p("D02","Parsers survive arbitrary and damaged input",
  "The benchmark, warning and traffic parsers and the field counter terminate without panicking on any input, including truncated, reordered, duplicated or corrupted versions of real output, and whatever they accept can be queried, listed and scored without panicking. Unless the damage is reported as an error, the undamaged lines and reports around it are still taken into account.",
  ["inputs","fault_sequences"],"all byte strings and all damage to valid outputs",
  "Only intact stored outputs are parsed by tests.",
  ["internal/data/bench_parser.go","internal/data/warnings_parser.go","internal/data/warnings.go","internal/json/field.go","gin/parser.go"],[("ParseWarningData","internal/data/warnings_parser.go"),("readLoop","internal/json/field.go")])
p("J01","The field counter counts exactly the top-level fields of a JSON object",
  "For every valid JSON object the counter reports, without error, each top-level field name with the number of times it occurs, nested objects and arrays not counting except for the members of a top-level object called fields, which count instead of it. Names are listed sorted, duplicates are exactly the names occurring more than once, and malformed objects that a log handler might emit are not silently counted as valid.",
  ["inputs"],"all JSON objects, any nesting, whitespace, escapes, numbers and duplicates",
  "A few stored objects are counted.",
  ["internal/json/field.go"],[("parseObject, parseField, parseValue","internal/json/field.go")])
p("S01","Benchmark scores rank handlers by measured performance on a 0 to 100 scale",
  "For any benchmark results, every handler's score and per-test score lies between 0 and 100, where results differ the handler that is best in every measure of every test gets 100 and the one that is worst in every measure 0 (measures in which all handlers are equal do not count, and if nothing is comparable every handler with results gets 100), and improving one of a handler's measurements without leaving the range of the others never lowers its score. Scores depend only on the results of the included tests, not on order, naming or how often a result set is evaluated.",
  ["inputs"],"all benchmark result sets, weights and test selections",
  "One stored result set is scored and compared with constants.",
  ["internal/scoring/axis/benchmarks.go","internal/scoring/axis/bench/data.go","internal/scoring/axis/common/range.go","internal/scoring/score/average.go"],[("Benchmarks.Setup","internal/scoring/axis/benchmarks.go"),("RangedValue","internal/scoring/axis/common/range.go")])
p("S02","Warning scores penalise exactly the distinct warnings of each level",
  "For any warning data, a handler without warnings scores 100, every score lies between 0 and 100, each level's score falls linearly with the number of distinct warnings of that level relative to those raised by any handler, and the total is the weighted mean of the level scores. More warnings never raise a score.",
  ["inputs"],"all sets of warnings over handlers and all weights",
  "There is no test of warning scores.",
  ["internal/scoring/axis/warnings.go","internal/scoring/axis/warn/data.go","internal/scoring/axis/warn/original.go"],[("Warnings.Setup","internal/scoring/axis/warnings.go")])
p("S03","Averages, ranges, filters and score types obey their definitions",
  "An average equals the weighted mean of what was added in any order and is undefined only when nothing was; a range spans exactly the values added and maps its low end to 100 and its high end to 0 linearly; include and exclude filters over the same names are exact complements with nested groups flattened. Enumerations of score types and benchmark items convert to text and back without loss.",
  ["inputs"],"all sequences of values, nested groups and enumeration values",
  "One value each is checked for percentage helpers and filters.",
  ["internal/scoring/score/average.go","internal/scoring/axis/common/range.go","internal/scoring/axis/common/stuff.go","internal/scoring/score/filter.go","internal/scoring/score/type.go","internal/data/benchitems_enumer.go"],[("Average, Range, Filter","internal/scoring")])
p("S04","Score keepers select, order and chart their handlers correctly",
  "A keeper lists exactly the handlers and tests its filter keeps, in name order; keepers are listed once each, sorted by tag with specially marked ones last, and adding a tag twice fails. The smallest chart size offered is the largest zoom that still shows every handler, and charts are served complete for every registered keeper and size; a request for an unknown keeper, item or tag is answered with an error status.",
  ["inputs","configurations"],"all filters, keeper tags, and score constellations",
  "There are no tests of keepers or charts.",
  ["internal/scoring/score/keeper.go","cmd/server/chart/score.go","cmd/server/chart/bar.go"],[("Keepers, Setup","internal/scoring/score/keeper.go"),("SmallestChartSize","cmd/server/chart/score.go")])
p("V01","The verification suite flags exactly the deviations a handler has",
  "Run against a handler that behaves like the standard JSON handler the verification suite reports no failure and no warning (duplicate fields apart), and run against the same handler with injected deviations and the warnings describing them declared it passes and records exactly those warnings. Without one of these warnings declared, or with a deviation no warning describes, some test fails or another warning is recorded. A declared warning for which there is no cause is not recorded but listed as unused.",
  ["programs","configurations"],"all combinations of injected handler deviations and declared warnings",
  "The suite is only run against real handlers whose deviations are fixed, with their warnings declared by hand.",
  ["verify/tests/slogtest.go","verify/tests/documented.go","verify/tests/checks.go","verify/tests/other.go","verify/tests/complex.go","verify/tests/replace.go","verify/tests/duplicate.go","verify/tests/suite.go","infra/warning/manager.go","infra/creator.go"],[("suite methods and checks","verify/tests"),("HasWarning, AddUnused","infra/warning/manager.go")])
p("B01","Benchmark checks accept correct output, reject corrupted; results are read back",
  "For each benchmark scenario, the built-in check accepts the output of any correct handler, whatever its spacing, order of fields or additional fields, and reports an error or a warning when that output is altered so that a field, value, nesting level, line or source is missing, changed or duplicated. What the two suites print for a handler, correct or not, is read back as exactly the results of every scenario and the warnings recorded.",
  ["programs","inputs"],"all benchmark scenarios, all single corruptions of their output, all combinations of deviations of a handler",
  "Verification functions only ever see output of working handlers, and nothing parses what the suites really print.",
  ["bench/tests/checks.go","bench/tests/benchmarks.go","bench/tests/data.go","bench/tests/suite.go","infra/warning/manager.go","internal/data/bench.go","internal/data/warnings.go"],[("verify functions","bench/tests/checks.go"),("Run","bench/tests/suite.go"),("ShowWarnings","infra/warning/manager.go")])
p("T01","The tabular report shows every parsed result once, in order",
  "For any benchmark and verification output the tabular command prints one table per benchmark test with one row per handler holding that result's numbers formatted for the chosen language, and for each handler its warnings grouped by level, and it exits successfully. No result is dropped, duplicated or shown under another name, and every line is indented below the one it belongs to.",
  ["inputs"],"all benchmark and verification outputs",
  "The command has no tests.",
  ["cmd/tabular/tabular.go","internal/language/setup.go","internal/data/bench.go","internal/data/warnings.go"],[("main","cmd/tabular/tabular.go")])
p("P01","The web server's pages show exactly the parsed results",
  "For any benchmark and verification output every page of the server is served complete with status 200 and shows exactly the handlers, tests, measurements, scores, warnings, summaries and links parsed from it, the numbers formatted for the chosen language. Text taken from the data is always shown as text and never interpreted as markup, every local link on a page leads to an existing page or picture, and every button shows or hides what it belongs to.",
  ["inputs","configurations"],"all benchmark and verification outputs, text files and languages",
  "The server has no tests.",
  ["cmd/server/server.go","cmd/server/text.go","cmd/server/pages","cmd/server/parts","internal/data/warnings.go","internal/scoring","internal/language/setup.go"],[("pageFunction","cmd/server/server.go"),("templates","cmd/server/pages"),("ExtraHTML, Description","internal/data/warnings.go")])
p("P02","The web server answers a request the same alone, in any order, and concurrently",
  "Every page and chart of the server has the same contents whether it is asked for alone, after any other requests, repeatedly, or while other requests are being answered, and no requests race for shared data.",
  ["schedules","histories"],"all orders and interleavings of requests",
  "The server has no tests, and nothing runs its handlers concurrently.",
  ["cmd/server/server.go","cmd/server/chart/bar.go","cmd/server/chart/score.go","cmd/server/chart/cache.go","internal/data/bench.go","internal/data/warnings.go","internal/scoring/score/keeper.go"],[("pageFunction","cmd/server/server.go"),("Cache","cmd/server/chart/cache.go")],
  state=[("bench, warns, keepers","parsed data with values cached on first use","internal/data/warnings.go"),("Cache","rendered charts","cmd/server/chart/cache.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P),"properties")

# Source of properties.jsonl, MANIFEST.json and props.json (run tools/gen.py).
P = []

def prop(id, title, statement, over, text, why, files, mech, bounds, assume=(), state=(), note="", level="model_checking"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, bounds=bounds, assume=list(assume), state=list(state), note=note, level=level))

GF = "grpc/federation/"
GEN = "generator/"

prop("C01", "Numeric casts are exact or fail",
     "Converting a number between any two of the integer types of protobuf (int32, int64, uint32, uint64) yields exactly the same number whenever the target type can represent it. Otherwise the conversion fails with the overflow error; it never truncates, wraps or changes the sign silently.",
     ["inputs"], "all 2^32 or 2^64 values of the source type, for every conversion",
     "The tests never convert out-of-range values; the claim is about every one of 2^64 inputs.",
     [GF + "cast.go"], [("range checks before the conversions", GF + "cast.go")],
     {"inputs": "unbounded: full width of every integer type"})

prop("C02", "A definition is evaluated exactly once, whatever the schedule",
     "Within one request, a definition that several concurrent branches need is evaluated exactly once: every branch sees the one value it was given, or the one failure or panic it ended in. This holds under every interleaving of the branches, for single and list definitions, and two definitions never disturb each other.",
     ["schedules"], "every interleaving at synchronisation and shared-memory operations, with up to 2 (thorough: 4) preemptions, of two or three branches evaluating one or two definitions",
     "Tests run whatever schedule the Go scheduler happens to pick; the window between looking up the result and starting an evaluation is a few instructions wide.",
     [GF + "cel.go"], [("singleflight plus result cache", GF + "cel.go: do, EvalDef, EvalDefMap")],
     {"branches": "2-3", "schedules": "all with at most 2 preemptions (two definitions: 3; three branches in the thorough tier: 4); up to 2 goroutines starved", "definitions": "1-2, one may depend on order", "inputs": "values symbolic, 64 bit"},
     ["scheduling points are synchronisation operations, channel operations and accesses to shared state protected by them; code between two points is atomic"])

prop("C03", "Conditions, values and failures of definitions",
     "A definition's body (expression, message, enum or validation) is evaluated exactly when its condition is absent or true; otherwise the variable takes the zero value of its type. In both cases the variable is assigned once and is visible, under its name and with that value, to everything evaluated later. Every failure - of the condition, the body or the assignment - is reported and keeps its identity and status code (a validation failure without a status becomes an internal error), a failing condition skips the body and the assignment, and the same rules decide conditional statements and the response expressions of ignored failures.",
     ["inputs", "fault_sequences"], "every combination of condition (absent, true, false, failing), kind of body, outcome of body and outcome of assignment, with arbitrary values",
     "The tests exercise generated services on a handful of happy paths; combinations of failing conditions, bodies and assignments are not sampled.",
     [GF + "cel.go"], [("evaluation of one definition", GF + "cel.go: evalDef, If, SetCELValue, IgnoreAndResponse")],
     {"definitions": "1-3 per request", "inputs": "values symbolic, 64 bit", "outcomes": "4 conditions x 5 kinds x 3 results x 2 assignments"},
     ["results of CEL expressions are supplied by stubs at the cel.Program interface"])

prop("C04", "List definitions: one element per source element, in order",
     "A list definition yields exactly one element per element of its source list, in the source's order, each computed from its own source element with the iterator and everything defined before visible to it. Its condition, and every failure of the condition, an element or the assignment, is respected and reported; elements after a failed one are not evaluated. The source is never modified, and neither the iterator nor anything computed for one element is visible outside the list or to another list.",
     ["inputs", "fault_sequences"], "all source lists up to the stated length with arbitrary elements, every position of a failing element, every outcome of the condition and the assignment, lists in sequence and nested",
     "The tests run list definitions only through generated examples with fixed two- or three-element lists that never fail.",
     [GF + "cel.go"], [("evaluation of list definitions", GF + "cel.go: EvalDefMap, evalMap, MapIteratorValue")],
     {"source": "0-3 elements quick, 0-6 thorough; elements are symbolic 64-bit numbers", "failures": "each position; conditions absent/true/false/failing; assignment failing", "nesting": "2 levels"},
     ["conditions and element bodies are supplied by stubs at the cel.Program and iterator interfaces"])

prop("C05", "Results of expressions keep their value and type, or fail",
     "The result of an expression arrives in the Go type the service declared for it with exactly the value the expression had: numbers, enums, strings, bytes, booleans, and lists of them, element by element. Null and the empty optional become the type's zero value and a present optional counts as its value. A number that does not fit, or a result of another kind, is an error - never a panic, a wrapped number or an invented value.",
     ["inputs"], "every 64-bit number, float and boolean, all strings and byte strings up to the stated length, every kind of result against every requested kind",
     "The tests evaluate a few constant expressions whose results fit.",
     [GF + "cel.go"], [("conversion of results", GF + "cel.go: EvalCEL, toReflectValue")],
     {"numbers": "full width", "strings and bytes": "<= 3 arbitrary bytes", "lists": "<= 2-3 elements", "kinds": "all pairs of 9 kinds of result and the requested kinds"},
     ["results of CEL expressions are supplied by stubs at the cel.Program interface"])

prop("C06", "Comparing with null, and the message argument, mean the same everywhere",
     "In an expression, comparing a value with null (on either side, equal or not equal) is true exactly when the value is absent (nil message, missing or null value), no matter where in the expression the comparison stands: operands, conditions, list and map literals, arguments, macros. Comparisons not involving null are unaffected, and values that are plain data never equal null. The message argument ($) is found wherever it is written, while the same character within a string literal or comment stays text.",
     ["inputs", "programs"], "every combination of the stated operands and expression positions, with every presence/absence and arbitrary scalar values",
     "The tests contain three null comparisons in plain positions and no dollar sign in a literal.",
     [GF + "cel.go"], [("rewriting of null comparisons", GF + "cel.go: comparison with null in the checked expression"), ("message argument", GF + "cel.go: EvalCEL, replacement of $")],
     {"positions": "over 20 expression shapes", "operands": "variables, message fields, list and map elements, literals, both orders, == and !=", "combinations": "quick: positions x plain operand, operands x 2 positions; thorough: all pairs", "values": "presence symbolic, scalars 64 bit, strings <= 2 bytes"},
     ["expressions are compiled and evaluated by the real cel-go, executed symbolically"])

prop("C07", "Time limits of calls",
     "A call under a time limit returns its own result or error when it finishes within the limit, and fails with deadline exceeded otherwise; it never fails before the limit for lack of time, and never returns later because the callee ignores cancellation. When the caller gives up earlier, so does the call. The callee always learns of the limit through its context, and neither a late result, a late failure nor a late panic does harm.",
     ["schedules", "inputs", "fault_sequences"], "every duration and outcome (result, error, cooperative or stubborn callee, panic) of the call relative to the limit, and every relative order of completion, deadline and cancellation within the preemption bound",
     "No test runs a call into its limit; races between completion and deadline cannot be scheduled by tests.",
     [GF + "lib.go"], [("running a call with a limit", GF + "lib.go: WithTimeout")],
     {"calls": 1, "schedules": "at most 1 (thorough: 2) preemptions, timers firing at any point", "durations": "several below and above the limit"},
     ["time is virtual; expiry of a timer may be delayed arbitrarily only in the race harness"])

prop("C08", "Retry policies are followed exactly",
     "A call with a retry policy is attempted until it succeeds, its condition refuses another attempt, the condition itself fails, the configured number of retries or total time is used up, or the caller gives up - never more, never fewer, and the condition sees the error of the attempt just made. Waits between attempts stay within the bounds the policy configures. The result is that of the successful attempt or the error, with its status, of the last attempt (or of the failing condition).",
     ["histories", "inputs"], "every history of attempts and condition outcomes up to the stated number, every configured maximum, several moments at which the caller gives up, symbolic randomisation",
     "The tests have a single retry example; histories of failures, refusals and cancellations are not sampled.",
     [GF + "lib.go", GF + "alias.go"], [("retry loop", GF + "lib.go: WithRetry"), ("back-off construction", GF + "lib.go, alias.go")],
     {"attempts": "<= 4", "intervals": "27 exponential configurations, 4 steps; randomisation symbolic for 1-2 steps"},
     ["time is virtual"])

prop("C09", "Failures keep their identity on the way to the client and the log",
     "A branch that panics becomes an error of its group with the panic's message and stack, and neither crashes the process nor disturbs the other branches. Attaching log attributes to an error, and reporting it, changes neither its identity, text nor status, and an error is logged exactly once, at its configured level, with its message, status and attributes. An expression that handles a failed call sees that call's code, message and all its details, each under its kind and in order.",
     ["inputs", "schedules", "fault_sequences"], "every kind of panic and error, every subset and order of details up to the stated number, every log level, every order of branches",
     "Tests hardly produce failing branches, panics or errors with several details.",
     [GF + "error.go", GF + "lib.go", GF + "cel.go", GF + "cel/error.go"], [("recovery", GF + "error.go: RecoverError, GoWithRecover"), ("errors with attributes", GF + "error.go"), ("error value", GF + "cel.go: SetGRPCError")],
     {"branches": "2-3", "details": "<= 2-3 of 7 kinds", "strings": "<= 2 bytes"})

prop("C18", "Error details contain exactly what was configured",
     "A precondition failure, bad request, localized message or custom message detail of a validation contains exactly the entries whose parts could all be evaluated, with the evaluated values in the configured order; entries with a failing part are left out without affecting others. A detail without any entry is not added, and an absent custom message yields nothing. Evaluating details never fails the request and never panics.",
     ["inputs", "fault_sequences"], "every combination of succeeding and failing parts of up to the stated number of entries, with arbitrary strings",
     "The tests evaluate only details whose every part succeeds.",
     [GF + "validation.go", GF + "cel.go"], [("detail evaluation", GF + "validation.go: PreconditionFailure, BadRequest, LocalizedMessage, CustomMessage")],
     {"entries": "<= 2 (thorough: 3)", "strings": "<= 2-3 arbitrary bytes"})

prop("C22", "Log attributes belong to their request context and are never lost",
     "Attributes added to a request's context appear, in order, on every record logged from that context and on every error logged for it, including those added concurrently by several branches. They never appear on a sibling's records, and neither adding, logging nor taking attributes changes those already there. Replacing the logger of a context affects that context and its children only.",
     ["histories", "schedules", "inputs"], "every history up to the stated length of adding attributes, replacing the logger, logging, taking attributes and deriving contexts; every interleaving of two branches within the preemption bound",
     "The tests check single log lines; mixing of attributes needs specific histories or schedules.",
     [GF + "context.go", GF + "error.go"], [("logger in the context", GF + "context.go")],
     {"history": "4 operations (thorough: 6)", "branches": 2, "schedules": "at most 2 preemptions"})

prop("C10", "String functions follow their documentation on every input",
     "Every string function available in expressions (search, split, trim, case, comparison, quoting, number parsing and formatting, rune and byte classification, appending) returns what the documented Go function returns, for every input, including empty and non-ASCII ones. On input the documented function rejects, the result is an error; evaluation never panics, and arguments are never modified.",
     ["inputs"], "all strings and byte strings up to the stated length, all 64-bit integers, all float bit patterns",
     "The tests call each function once or twice with fixed ASCII words.",
     [GF + "cel/strings.go", GF + "cel/bind.go"], [("function bindings", GF + "cel/strings.go"), ("argument dispatch", GF + "cel/bind.go: BindFunction, BindMemberFunction")],
     {"strings": "<= 2-4 arbitrary bytes (all UTF-8 lengths, invalid UTF-8)", "integers": "full width", "floats": "all bit patterns where the function takes floats"},
     ["the standard library functions named in the documentation are executed symbolically too, so a shared misbehaviour of the Go library is not reported", "complex number functions are not covered"])

prop("C11", "URL functions follow their documentation on every input",
     "Every URL function available in expressions (parsing, escaping, parts of a URL, user information, joining paths, resolving references, printing, binary form) returns what the documented Go function returns, for every input. Rejected input gives the documented error and never a panic; a URL survives being passed from one function to another unchanged.",
     ["inputs"], "all URLs made of the stated fixed parts and symbolic bytes in every part",
     "The tests use a few well-formed ASCII URLs.",
     [GF + "cel/url.go"], [("URL library and its URL value", GF + "cel/url.go")],
     {"strings": "1-3 arbitrary bytes in scheme, user, host, path, query, fragment positions"},
     ["the standard library functions named in the documentation are executed symbolically too"])

prop("C12", "Time functions follow their documentation on every input",
     "Every time, duration and location function available in expressions returns what the documented Go function returns: instants from numbers and text, parts, comparison, arithmetic, rounding, formatting and zones. A time keeps its instant to the nanosecond and its zone from one function to the next. Rejected input gives the documented error and never a panic, and arguments are never modified.",
     ["inputs"], "all 64-bit durations; all instants in windows of 65536 seconds and nanoseconds around the epoch, leap days, year ends and the limits; all dates with one field out of range; all layouts and texts with the stated symbolic bytes",
     "The tests call each function once with one instant.",
     [GF + "cel/time.go"], [("time library and its time and location values", GF + "cel/time.go")],
     {"instants": "windows of 65536 s around 5 bases, 65536 ns at both ends of a second", "zones": "UTC and fixed zones, any int32 offset for locations", "text": "2-3 symbolic bytes in each of 6 layouts, layouts of 2 bytes"},
     ["the standard library functions named in the documentation are executed symbolically too", "time zone files are not modelled: only zones known without them"])

prop("C13", "List functions keep every element, in the documented order",
     "reduce, first, sort and flatten visit every element of the list once and in order: reduce folds from the initial value, first gives the first element that satisfies its condition or an absent value, sorting gives a permutation in the requested direction by the requested key (keeping the order of equal keys where that is documented), and flatten concatenates. None modifies the source list, and an expression that fails on some element makes the result fail.",
     ["inputs", "programs"], "all lists up to the stated length with arbitrary symbolic elements and arbitrary symbolic conditions on them",
     "The tests use two or three fixed lists per function.",
     [GF + "cel/list.go"], [("macros and functions", GF + "cel/list.go")],
     {"lists": "0-4 elements, symbolic 64-bit numbers, strings <= 2 bytes, floats, messages", "nesting": "2 levels"},
     ["expressions are compiled and evaluated by the real cel-go, executed symbolically"])

prop("C14", "Random numbers, UUIDs and math functions follow their documentation",
     "A random generator made from a seed yields exactly the sequence Go's generator with that seed yields, whatever history of calls is made on it and its source, and a bounded number is always within its bound while an impossible bound is an error. A UUID prints, parses, compares and reports its parts as RFC 4122 says, and a random one is of version 4 with every other bit taken from the random source. The math functions return what the documented Go function returns, for every number.",
     ["inputs", "histories"], "every history of calls up to the stated length, all 64-bit bounds and numbers, all UUIDs",
     "The tests call each function once with one seed or number.",
     [GF + "cel/rand.go", GF + "cel/uuid.go", GF + "cel/math.go"], [("random library", GF + "cel/rand.go"), ("uuid library", GF + "cel/uuid.go"), ("math library", GF + "cel/math.go")],
     {"history": "2 calls (thorough: 3) of 14 functions", "seeds": "4 fixed seeds", "bounds": "windows of 256 around 0, 2^20 and 2^31, and symbolic 64-bit numbers below 1", "UUIDs": "all 2^128", "math": "all bit patterns for floor, ceil, round, sqrt; pow over a grid of special values"},
     ["the Go generator itself is executed, not specified"])

prop("C15", "Log and metadata functions of expressions",
     "A log function writes exactly one record, at its level, with its message and exactly its attributes in plain form, to the logger of its request if that logger takes the level, and yields true; attributes added by an expression appear on every later record of the same request and on no other. A call with a failing argument fails and writes nothing. The incoming metadata of a request appears with every key and all values in order, and changing either side afterwards does not affect the other.",
     ["inputs", "histories"], "all messages, attribute values of every kind and metadata up to the stated sizes, every level of the logger",
     "The tests write one line with one attribute.",
     [GF + "cel/log.go", GF + "cel/metadata.go"], [("log library", GF + "cel/log.go"), ("metadata library", GF + "cel/metadata.go")],
     {"strings": "<= 2 arbitrary bytes", "attributes": "<= 2, nested lists and maps of 2 levels", "metadata": "<= 2 keys with <= 2 values", "history": "2 additions"})

prop("C16", "Values cross the plugin boundary unchanged or fail",
     "Every argument of a plugin function reaches the plugin's code with exactly the value and type the expression had, and every result comes back the same way: numbers of every width, strings, bytes, booleans, enums, messages, and lists of them from any source, element by element and in order. A value the declared type cannot hold is an error, never a wrapped or invented one. A failure of the plugin function arrives as a failure with the same text.",
     ["inputs"], "all values of every type plugin functions can have, lists up to the stated length",
     "The tests run one plugin with one number and a few strings.",
     [GF + "cel_plugin.go", GF + "cel/plugin.go", GEN + "templates/plugin.go.tmpl", GEN + "code_generator.go", "resolver/cel.go"], [("plugin side conversions", GF + "cel_plugin.go: To*, *ToCELPluginValue"), ("host side conversions", GF + "cel/plugin.go: refToCELPluginValue, celPluginValueToRef"), ("generated plugins", GEN + "templates/plugin.go.tmpl, code_generator.go: CELPluginType")],
     {"numbers": "full width (in the generated plugin: the ends of each type's range)", "strings and bytes": "<= 2-3 arbitrary bytes", "lists": "<= 2-3 elements; literal, native, concatenated and message-field lists", "generated plugin": "gen/protos/zzplugin: 22 functions with every type as argument and result, methods, overloads, metadata and failures"},
     ["the plugin is not compiled to WebAssembly: the generated plugin runs as a goroutine, with its standard streams replaced by pipes that the host reads and writes"])

prop("C17", "Plugin calls are isolated and never hang",
     "Concurrent calls to a plugin each get the result of their own request, with the function, metadata and arguments of that request. Calling, collecting garbage and closing in any order and any number of times never panics or blocks forever: calls before the end succeed and calls after it fail, also when the plugin dies at any point of a call. A plugin is accepted exactly when it speaks this protocol version and offers every declared function.",
     ["schedules", "histories", "fault_sequences"], "every history up to the stated length and every interleaving of callers, reader and plugin within the bound, with the plugin's death at every point of the protocol",
     "The tests run one well-behaved plugin with one call at a time.",
     [GF + "cel/plugin.go"], [("request/response protocol", GF + "cel/plugin.go: sendRequest, recvResponse, Close, GC"), ("version check", GF + "cel/plugin.go: ValidatePlugin")],
     {"callers": "2", "history": "3 operations", "plugin": "reads one request at a time, or ahead", "schedules": "all within 2 delays of round-robin (lifecycle: 1); up to 2 goroutines starved", "death": "3 points, with and without an error"},
     ["the WebAssembly runtime is replaced by a stub that speaks the protocol over the same pipes"])

prop("C19", "Code generation plugins receive the definitions unchanged",
     "A code generation plugin that receives the resolved definitions over the wire sees exactly what the generator has: every file, package, message, field, type, enum, service, method, definition, error, argument and plan, with all their options and with the same identities. Two things that are one before are one after, two things that are distinct before are distinct after, whatever their names, and a thing that is absent stays absent. The kind of action, input files and output directory of the request arrive as well.",
     ["programs", "inputs"], "worlds of two files with every part of every kind of definition present or absent, arbitrary names (also equal ones), references between all of them, cyclic included",
     "The tests send one generated file set and look at a few names; loss of a part goes unnoticed.",
     [GF + "generator/encode.go", GF + "generator/decode.go"], [("definitions to wire format", GF + "generator/encode.go"), ("wire format to definitions", GF + "generator/decode.go")],
     {"files": "2", "names": "1 arbitrary character, so that any two of them may be equal", "texts": "<= 2 characters", "parts": "each present or absent, at most 2 of a kind", "graphs": "3 definitions, all graphs"},
     ["symbolic runs hand the message structure over directly; the replay of a counterexample goes through protobuf serialisation", "the log level of a message error and the scope of a field rule are not part of the wire format and are not compared"])

prop("C20", "Definitions run after everything they refer to",
     "In the computed plan every definition of a message is evaluated exactly once per use and after every earlier definition it refers to, in whatever part of it the reference stands: value, condition, arguments, retry and error conditions, messages, responses, details, list elements. What follows a validation is planned after that validation. The plan is complete: no definition is left out.",
     ["programs"], "every dependency graph over the stated number of definitions, with validations at any place, and every part of a definition that can hold an expression",
     "The tests contain a handful of messages whose references stand in the usual places.",
     ["resolver/graph.go", "resolver/def.go", "resolver/value.go"], [("dependency graph and groups", "resolver/graph.go"), ("references of a definition", "resolver/def.go: ReferenceNames")],
     {"definitions": "4 (thorough: 5), all graphs", "parts": "41 parts of a definition, reference name: any byte"},
     ["expressions are given as checked expressions with their reference table, the checker itself is cel-go"])

prop("C21", "Resolving the same definitions twice gives the same result",
     "The evaluation plan of a message, the names a definition refers to and the order of messages depend on the definitions alone, not on the order in which maps happen to be visited, also for messages of the same name in different packages. So the same input always generates the same code.",
     ["schedules", "programs"], "every order of visiting every map of up to 4 entries, for all dependency graphs over the stated number of definitions or messages",
     "The tests compare with golden files, which a rare order passes by chance.",
     ["resolver/graph.go", "resolver/def.go"], [("dependency graph", "resolver/graph.go")],
     {"definitions": "3, all graphs", "messages": "3, all graphs, with equal and distinct names", "maps": "<= 4 entries"})

prop("C23", "Messages that need each other are refused",
     "A set of messages is refused exactly if some message needs itself, directly or through others, in any of the ways a message can need another: as a definition, as the element of a list, in the definitions or details of an error of a call or validation, or in a oneof. In an accepted set, every message is reachable from those that no other message needs, so evaluating a response always ends.",
     ["programs"], "all graphs over the stated number of messages, with every way in which one message can need another",
     "The tests contain one cycle of two messages.",
     ["resolver/graph.go", "resolver/message.go"], [("message dependency graph and cycle check", "resolver/graph.go")],
     {"messages": "3 with all graphs; 2 with all 8 ways per edge; 4 with half of the edges (thorough: all)"})

prop("C24", "Responses hold exactly what their definitions name",
     "Every field of a message that a generated service returns holds exactly the value its definition names, whether the value is bound by an expression, automatically from a definition that has a field of that name, or through aliased messages and enums; nested messages, lists, maps, bytes and exclusive fields keep their presence, order and content. Arguments reach exactly the message they are given to, one by one or inline, and a definition never changes an argument that has the same name. A number that a field or argument cannot represent fails the request.",
     ["inputs"], "all values of every field of the messages a dependency returns and of the request, within the stated sizes, with every field present or absent",
     "The generator's tests compare the text of generated code with recorded text, and the examples send one request each.",
     [GEN + "templates/server.go.tmpl", GEN + "templates/cast.go.tmpl", GEN + "code_generator.go", GF + "cel.go", GF + "cast.go", "resolver/resolver.go"],
     [("casts between aliased types", GEN + "templates/cast.go.tmpl"), ("binding of fields and arguments", GEN + "templates/server.go.tmpl"), ("evaluation at run time", GF + "cel.go: SetCELValue, EvalDef")],
     {"services": "gen/protos/zzcompose: 3 methods, 30 fields of 15 kinds, aliased message with nested message, aliased enums; gen/protos/zzcast: 3 methods, 40 fields, requests of 13 fields, recursive aliased messages with exclusive fields in both directions; gen/protos/zznames: names and texts; gen/protos/zzmulti: one message and one enum that each stand for two others; proto3 optional fields are outside: no code can be generated for them", "inputs": "numbers and enums full width; strings <= 1 byte; lists and maps <= 2 entries"},
     ["the dependency is a stub that returns symbolic messages", "tracing is a stub"])

prop("C25", "Conditions, exclusive fields, lists and validations",
     "In a generated service, a definition whose condition is false leaves its variable empty whatever kind of definition it is, and later conditions and expressions see it so. Of the members of an exclusive field the first whose condition holds is set, else the default, else none; a list definition gives one element per element of its source, in order, computed from that element. A validation whose condition holds ends the request with its code, text and those details whose conditions hold, and otherwise has no effect.",
     ["inputs"], "all truth values of all conditions, and all requests within the stated sizes",
     "Which member of an exclusive field or which validation applies depends on combinations of conditions that no test goes through.",
     [GEN + "templates/server.go.tmpl", GEN + "templates/eval.go.tmpl", GEN + "templates/validation.go.tmpl", GEN + "code_generator.go", GF + "cel.go", GF + "validation.go"],
     [("exclusive fields", GEN + "templates/server.go.tmpl"), ("definitions", GEN + "templates/eval.go.tmpl"), ("validations", GEN + "templates/validation.go.tmpl")],
     {"services": "gen/protos/zzflow: 4 methods; 2 exclusive fields of 4 and 2 members, 5 list definitions, 2 validations, 7 conditional definitions", "inputs": "numbers full width, strings <= 1 byte, lists <= 2-3 elements"},
     ["tracing is a stub"])

prop("C26", "Names, numbers and attributes of enums",
     "In an expression, name gives the name of exactly the enum value with that number and the empty text for a number that is no value of the enum; value gives the number of a name. attr gives the attribute of exactly that value, and fails for a number that is no value; from keeps the number. The selection function gives its first enum when its condition holds and its second otherwise, converted to the field's enum like any other value.",
     ["inputs"], "every 64-bit number, every name within the stated length, and both selections",
     "The tests look up one or two values that exist.",
     [GF + "cel.go", GF + "cel/enum.go", GEN + "templates/server.go.tmpl"],
     [("accessors", GF + "cel.go: EnumAccessorOptions, EnumAttrOption"), ("selection", GF + "cel/enum.go")],
     {"numbers": "full width", "names": "the enum's names and arbitrary names of up to 2 bytes", "enums": "gen/protos/zzflow: an enum with gaps and attributes, and an aliased one"})

prop("C27", "Failed calls: blocks, texts, details and logging",
     "When a call of a generated service fails, the first error block whose condition holds decides: it replaces the code, the text and the details as far as it gives any and keeps the original ones otherwise, or ignores the failure with an empty or the given response. Without such a block, or if a block cannot be evaluated, the failure itself is the response's, with its code, text and details. No other failure ever becomes a success, conditions see everything the failure carries, and a failed request is logged once at the deciding block's level.",
     ["inputs", "fault_sequences"], "every code, text and set of details of a failure within the stated sizes, also failures that carry no status, against every request",
     "The tests compare the text of one generated error handler and never run it.",
     [GEN + "templates/error_handler.go.tmpl", GF + "cel.go", GF + "error.go", GF + "lib.go", GF + "validation.go"],
     [("error blocks", GEN + "templates/error_handler.go.tmpl"), ("error variable", GF + "cel.go: SetGRPCError"), ("status of a failure", GF + "lib.go: GRPCStatusFromError"), ("logging", GF + "error.go")],
     {"services": "gen/protos/zzerrors: 6 methods with 20 error blocks", "failures": "16 codes and no status; texts <= 1 byte; details: 5 kinds present or absent, <= 2 of a kind", "requests": "numbers full width, strings <= 1 byte, lists <= 2"},
     ["the dependency is a stub that fails with a symbolic failure", "tracing is a stub"])

prop("C28", "Order, concurrency and independence of calls",
     "A generated service makes each call of a request exactly once (plus its retries), after everything it needs and only if that succeeded, and with the values of what it needs; calls that need nothing of each other run at the same time. Each call's failure is handled by its own blocks, with its own error, whatever the others do at the same time. Retries, their intervals and number, and the time limit are those configured for the call, and the first failure nobody handles is the request's.",
     ["schedules", "fault_sequences", "inputs"], "all outcomes of each call, and all orders of execution within the stated bound",
     "The tests never run generated code under more than one schedule, nor with failures at the same time.",
     [GEN + "templates/eval.go.tmpl", GEN + "templates/server.go.tmpl", GEN + "templates/retry.go.tmpl", GEN + "templates/error_handler.go.tmpl", GF + "cel.go", GF + "lib.go", "resolver/graph.go"],
     [("concurrent groups", GEN + "templates/eval.go.tmpl"), ("error of a call", GF + "cel.go: grpcErrorScope"), ("retry and time limit", GF + "lib.go: WithRetry, WithTimeout")],
     {"services": "gen/protos/zzasync: two calls at once; a diamond of 4 definitions over 2 messages; retries within a limit; gen/protos/zzrefs: 30 variables, each used at one place only, each late or failing", "schedules": "up to 2 delays at synchronisation operations; one goroutine starved", "failures": "each call: success, a status, an error without status, a plain cancellation or a panic", "time": "virtual"},
     ["the dependency is a stub with symbolic outcomes and durations", "tracing is a stub"])

prop("C29", "Starting a service: environment and service variables",
     "A generated service starts exactly if every required environment variable is there, every present one can be read as its declared type, and no validation of its variables fails; a failing validation gives its text and the code Internal. Each environment variable then has the value read under its own or its configured name, else its default, else it is empty, and an ignored one is empty. The service's variables are computed once, in order, each from the environment and the earlier ones, stay empty where their condition is false, and every message of every request sees them unchanged.",
     ["configurations", "inputs"], "which variables are present, and all their texts within the stated lengths",
     "The tests load one environment, and compare the text of the code that computes the variables.",
     [GEN + "templates/server.go.tmpl", GEN + "templates/eval.go.tmpl", GEN + "code_generator.go", GF + "alias.go", GF + "cel.go"],
     [("environment", GEN + "code_generator.go: Env"), ("variables", GEN + "templates/server.go.tmpl: initServiceVariables"), ("loading", GF + "alias.go: LoadEnv"), ("definitions", GF + "cel.go: EvalDef, If")],
     {"services": "gen/protos/zzconfig: 9 environment variables of 9 types, 8 variables, 3 validations", "texts": "arbitrary, up to 2 bytes (3 thorough)"},
     ["the process environment is a map", "tracing is a stub"])

prop("C30", "Resolvers written by hand, other responses and time limits of methods",
     "A message or field with a custom resolver gets exactly the value its resolver returns. Each resolver is called once per message it belongs to, after everything the message needs is there, with the message's arguments and variables and, for a field of such a message, the message itself; its failure or panic is the request's, and it is not called when its message fails before. A method whose response comes from another message gives that message's values, and a method with a time limit gives its response or its own failure within the limit, and deadline exceeded at the limit otherwise.",
     ["inputs", "schedules", "fault_sequences"], "all requests and responses within the stated sizes, each failing party, and all orders of execution within the stated bound",
     "The tests never run generated code with resolvers under more than one order, nor with failing resolvers.",
     [GEN + "templates/server.go.tmpl", GEN + "templates/eval.go.tmpl", GEN + "code_generator.go", GF + "cel.go", GF + "lib.go", GF + "error.go"],
     [("resolvers", GEN + "templates/server.go.tmpl: custom_resolver, setReturnValueByFieldCustomResolver"), ("responses and limits of methods", GEN + "templates/server.go.tmpl"), ("time limit", GF + "lib.go: WithTimeout")],
     {"services": "gen/protos/zzresolve: 4 methods, 2 messages and 3 fields with resolvers", "inputs": "numbers full width, strings <= 1 byte, lists <= 2", "failures": "each party; a status, an error without status, a panic", "schedules": "1 delay at synchronisation operations or one goroutine starved, with data race detection", "time": "virtual; 7 durations around the limits"},
     ["the dependency and the resolvers are stubs that record what they are given", "tracing is a stub"])

NA = []

prop("C16", "No data races in correct concurrent use",
 "Using any part of the library from several goroutines at once, the objects shared as the documentation allows, never causes unsynchronised conflicting memory accesses. This covers starting and finishing spans, observing, collecting, reading statistics and rendering while others write, in the default build and in the build without unsafe pointers.",
 ["schedules"], "every scenario of the concurrent checks of the other properties, all schedules up to the bound of the race pass, happens-before checked on each by the race detector",
 "The race detector reports only races of executions that happen: a test run sees one schedule, and most of these pairs of operations are never run concurrently by a test.",
 ["ctx.go", "span.go", "spanbag.go", "funcset.go", "registry.go", "trace.go", "scope.go", "counter.go", "val.go", "meter.go", "tags.go", "cas_safe.go", "cas_unsafe.go", "spinlock.go", "collect/collect.go"],
 [("mutexes, spin locks and atomics", "throughout")],
 tech="stateless model checking: all schedules up to a preemption bound of every concurrent scenario, each execution monitored by a happens-before race detector")

prop("C13", "Transformed registries: right order, exact deltas, no interference",
 "A registry with transformers reports every statistic of the underlying registry through its transformers, the one given last seeing the data first, and nothing else; it shares scopes, functions, spans, watchers and everything but the transformers with the registry it was made from, and no derived registry influences another or the original. The delta transformer passes every statistic on unchanged, and for totals adds, from the second report of a series on, exactly one delta: total minus the previous total of the same series, so that deltas add up to the growth of the total even when reports run concurrently.",
 ["histories", "schedules", "inputs"], "all chains of transformers up to the depth, all histories of reports on several derived registries, all interleavings of concurrent reports up to the bound",
 "Order and isolation show only with several transformers and registries, deltas only with concurrent reports and series whose keys nearly agree.",
 ["transform.go", "registry.go", "scope.go"], [("registry sharing its internals", "registry.go: WithTransformers"), ("previous totals under a lock", "transform.go: DeltaTransformer")], observe=["Registry.WithTransformers", "Registry.Stats", "NewDeltaTransformer"])

prop("C14", "Registry reports are complete: every source exactly once, scope-tagged",
 "Reporting a registry's statistics reports every function, metric, gauge and chained source that was created before the report began: each exactly once, with the values it reports itself and tagged with the name of its scope (a chained source with that of the scope it was chained to); nothing is lost or reported twice when sources and scopes are created concurrently, and what was created is there for good. Collect gives the same as a map, and the package-level functions act on the default registry alike. Iterating functions and scopes visits each exactly once.",
 ["histories", "inputs", "schedules"], "all sequences of creations over several scopes and kinds up to the depth and all interleavings of creations with reports up to the bound",
 "A source lost by a racing creation, or reported without its scope, appears only for particular combinations of kinds, scopes and moments.",
 ["registry.go", "scope.go", "stats.go", "funcset.go"], [("scope map and chain list", "registry.go"), ("source map", "scope.go: Stats")], observe=["Registry.Stats", "Collect", "Registry.Funcs/Scopes", "Scope.Stats/Funcs/Chain"])

prop("C15", "Callbacks may call back: no deadlock, no lost state after a panic",
 "Every callback the library makes (span observers, trace watchers, gauges, chained sources, statistics callbacks, transformers, iteration callbacks, error namers, errors' own methods, matchers, sampling callbacks) may itself use the library on the same objects, from its own or another goroutine that it waits for, without deadlock, and when a callback panics the library stays usable: no lock remains held and later operations work as before.",
 ["schedules", "inputs"], "all pairs of callback and operation inside it, run in the callback's goroutine and in another one it waits for, and with the callback panicking",
 "A deadlock needs the one pair of callback and operation that meet on the same lock, usually seen from another goroutine only.",
 ["registry.go", "scope.go", "funcstats.go", "trace.go", "span.go", "spanbag.go", "error_names.go", "collect/collect.go"], [("locks are released before callbacks", "throughout")], observe=["return of the calls"])

prop("C21", "Identifiers are non-negative and never repeat",
 "Trace and span identifiers made by the library are non-negative and no two calls in a process, concurrent or not, return the same one within its period, whatever the entropy source delivers, even when it fails.",
 ["inputs", "schedules"], "all boundary entropy values and failures of the source, all positions of the counter near wrap-around, all interleavings of concurrent calls up to the bound",
 "Whether identifiers repeat or turn negative depends on the random seed, which a test sees one of.",
 ["id.go"], [("atomic counter over a random start, xor mask", "id.go: NewId")], observe=["NewId", "Span.Id", "Trace.Id"])

prop("C22", "Errors get exactly one name, by the documented order of rules",
 "An error is counted under exactly one name: that of the most recently registered error name handler that accepts it, handlers being asked from newest to oldest and each at most once; if none accepts it, the name the error gives itself if it does; otherwise the built-in name of a known standard, context, system or network error; otherwise one fixed fallback name. Successes and panics are not named. Concurrent registrations lose no handler, a handler is asked for every error captured after its registration returned, and any error value, also one that cannot be compared, is named without failing; what an error wraps does not give it a name.",
 ["inputs", "histories", "schedules"], "all error values of the stated alphabet (wrapped, nil pointers, self-naming, system), all registration histories up to the depth, all interleavings of registrations with naming up to the bound",
 "Each error kind takes another branch and the order of rules matters only for errors that several rules recognise.",
 ["error_names.go", "error_names_net.go", "error_names_syscall.go", "funcstats.go"], [("handler list", "error_names.go")], observe=["AddErrorNameHandler", "Func.Errors"])

prop("C24", "Trace values, annotations and span counts are kept exactly",
 "A trace's values behave as one atomic map: a read returns the value last set for that key, keys compare by type and value, and the listing is a copy of its own. A key that cannot be one (not comparable) is refused by a panic that leaves the values usable. Annotations of a span are listed completely and in the order added, every list handed out is unaffected by later changes and changes to it do not reach the span. A trace counts exactly its running spans, a span knows whether its parent has ended before it, and its start and duration follow the clock.",
 ["histories", "inputs", "schedules"], "all histories of sets, reads, annotations, starts and finishes up to the depth and all interleavings up to the bound, against a sequential specification",
 "Aliasing of lists and lost updates need particular lengths, orders and interleavings.",
 ["trace.go", "span.go", "ctx.go"], [("value map under a lock", "trace.go: Get, Set, GetAll"), ("annotation slice", "span.go: Annotate"), ("span counter", "trace.go: incrementSpans")], observe=["Trace.Get/Set/GetAll/Spans", "Span.Annotate/Annotations/Orphaned/Start/Duration"])

prop("C17", "Traces cross HTTP hops intact: ids, parent, sampling, baggage",
 "Trace information written to headers is read back unchanged for every trace id and parent id (negative ones included), sampling flag and allowed baggage; baggage keys that are not allowed, and a malformed or foreign-version traceparent, contribute nothing and never fail. A sampled client's request (also one that has no headers yet) is served in a span of the same trace id with the client's span as parent; without a propagated trace a new trace starts, sampled if the state header asks for it, and then (only then) its ids are returned in the response headers. The handler runs exactly once in exactly one span that ends with it (also by panic), with a context that carries the span, the request's values and what observers added; allowed baggage, URI and final status are annotated. The client's request is accounted under its method with its outcome, and response and error are passed on unchanged.",
 ["inputs", "histories", "schedules"], "all identifiers of a boundary alphabet, all header lines over an alphabet of well-formed and malformed parts, all chains of up to two hops over the kinds of client trace and handler behaviour, two concurrent requests",
 "The tests send small positive identifiers over one hop; header syntax, sign, chains, panics and observers that extend the context are not exercised.",
 ["http/info.go", "http/server.go", "http/client.go", "http/http.go"], [("traceparent, tracestate and baggage headers", "http/info.go: SetHeader, TraceInfoFromHeader"), ("request span", "http/server.go: ServeHTTP")], observe=["TraceInfoFromHeader/FromSpan/SetHeader", "TraceHandler", "TraceRequest"])

prop("C18", "Observed responses reach the client unchanged, and the status is right",
 "A response writer wrapped for observation passes every status, header change, byte and flush on to the original in the same order and returns its results unchanged; it can be flushed exactly if the original can; and the observed status is the one set most recently, 200 if none was set, also as annotated on the request's span.",
 ["inputs", "histories"], "all sequences of header changes, statuses, writes (also failing ones) and flushes up to the depth, on writers with and without flushing",
 "Tests cover one order of one write and one status.",
 ["http/http.go", "http/server.go"], [("wrapping writer", "http/http.go: Wrap")], observe=["Wrap", "annotation http.responsecode"])

prop("C19", "Presentations are complete, well-formed and true",
 "Each text, JSON, dot and SVG presentation shows every live span, function, statistic or collected span exactly once, with the values that the accessors give (names, ids, parents, arguments, annotations, orphans, counts, times, outcomes) and with the right edges, and nothing else. JSON, dot and SVG output, with the scripts in a drawing, is well-formed whatever characters names, arguments, annotations and errors contain and whatever the values are; values JSON cannot express appear as null. In a drawing each bar covers its span's time, lies inside the picture, spans that run at the same time do not overlap on one row, and colours tell success, error, cancellation and panic apart. Requests by path give the matching presentation and content type, unknown paths status 404, bad queries 400.",
 ["inputs", "histories", "schedules"], "all forests of spans, call histories, traces and sets of statistics up to the stated size over odd names and values, all paths over the alphabet, presentations concurrent with work",
 "There are no tests of the presentations; malformed output needs special characters, zero durations, NaN values or particular overlaps.",
 ["present/json.go", "present/funcs.go", "present/spans.go", "present/dot.go", "present/stats.go", "present/trace.go", "present/path.go", "present/http.go", "present/errs.go"], [("list writer", "present/json.go"), ("row layout", "present/trace.go: computeLayoutInformation"), ("escaping", "present/dot.go, present/trace.go")], observe=["SpansText/Dot/JSON", "FuncsText/Dot/JSON", "StatsText/JSON", "SpansToSVG/JSON", "FromRequest", "HTTP"])

prop("C20", "Trace queries wait, keep the connection alive, answer once, and leave",
 "A trace query returns only when a matching span has been found (and, for spans, has ended), and then answers with exactly the spans of that match, or with its trace id after marking the trace as sampled. While it waits, one keep-alive reaches the client every 30 seconds, also through the HTTP handler's buffers. When a keep-alive cannot be written, by error or panic, the query ends with that error. Nothing is written after a query ended or in the middle of its answer, and it then neither observes the registry nor keeps a goroutine.",
 ["histories", "schedules", "inputs"], "all histories of clock steps, matching and other spans and their ends up to the depth, for every kind of query and position and kind of write failure, and all interleavings of keep-alive, match and end up to the bound",
 "The interval is 30 seconds, the failures and races are between a hidden goroutine and the query: no test gets there.",
 ["present/path.go", "present/trace.go", "present/utils.go", "collect/ctx.go"], [("keep-alive goroutine", "present/utils.go: keepAlive"), ("query", "present/trace.go: watchForSpansWithKeepalive; present/path.go")], observe=["TraceQueryJSON/SVG", "FromRequest trace/json, svg, remote", "bytes at the writer"])

prop("C23", "Environment statistics tell the truth, and only what is known",
 "The environment's sources report what the system says at that moment: each numeric field of process status, memory, resource usage and runtime statistics under its name, the number of open files, the uptime by the clock and the program's checksum; whatever the program is called. Something that cannot be read or parsed is left out rather than guessed, and the rest is still reported. Each garbage collection pause is counted at most once, and reports may run concurrently. Registering makes every source report exactly once, in the scope of the environment package; the monotonic clock advances exactly with time.",
 ["inputs", "histories", "schedules"], "all scripted answers of the system over the alphabet (names with spaces and parentheses, truncated and unreadable files, extreme values), all histories of collections and reports up to the depth, concurrent reports up to the bound",
 "Tests see the one environment they run in, where files are readable and the program's name is plain.",
 ["environment/runtime.go", "environment/proc_linux.go", "environment/process.go", "environment/os.go", "environment/rusage.go", "environment/env.go", "monotime/monotime.go"], [("parsing", "environment/proc_linux.go"), ("pause distribution", "environment/runtime.go")], observe=["Runtime/Proc/Process/OS/Rusage Stats", "Register", "monotime.Now"])

prop("C25", "Presentations report every failed write and stop",
 "When any single write of a presentation fails (for good, once, or after a part), the presentation returns that error and writes nothing more; when the writer panics, the panic or an error reaches the caller. In either case the registry stays fully usable and the next presentation is complete.",
 ["crash_points", "inputs"], "every write position of every presentation, direct and by path, with every kind of failure",
 "Tests use writers that do not fail; each position and kind needs its own run.",
 ["present/funcs.go", "present/spans.go", "present/stats.go", "present/json.go", "present/trace.go", "present/path.go"], [("error variable shared with iteration callbacks", "present/*.go")], observe=["returned error", "writes after the failure"],
 tech="exhaustive fault-injection model checking of the real code: every write position and failure kind of every presentation is executed")

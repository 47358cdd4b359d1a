#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, tech=tech, note=note, na=na))

prop("C01", "Function accounting: every call is counted once, by outcome, exactly",
 "At every moment a function's current count equals the calls that have started and not ended, its highwater is the largest current count ever reached, and every call that ends is counted in exactly one of successes, errors (also under its error name) and panics. Its duration statistics hold exactly one entry per ended call, successes and failures (errors and panics) kept apart, each with the time the call took; a panicking call counts as a panic and the panic goes on to the caller unchanged. This holds for tasks, remote tasks, reset traces and directly used function statistics, under any interleaving, whether one reads the statistics or the accessors, and copies handed to readers do not change when the original does.",
 ["schedules", "histories", "inputs"], "every history of starts and ends (nil, error, named error, panic, nested) up to the stated depth and every interleaving of concurrent starts, ends and readers up to the preemption bound",
 "The tests run one call at a time and look at a few counters; lost updates, a missed highwater or a mixed-up outcome need particular interleavings or particular nestings of panics and errors.",
 ["funcstats.go", "func.go", "task.go", "ctx.go", "span.go", "durdist.go"],
 [("start/end pair around each call, atomic current and highwater, locked outcome maps", "funcstats.go: start, end"), ("deferred exit closure of a task", "ctx.go: newSpan")],
 observe=["Func.Stats", "Func.Current/Highwater/Success/Panics/Errors", "SuccessTimes/FailureTimes"])

prop("C02", "Live spans are enumerated exactly, from every viewpoint",
 "Whenever no start or finish is under way, iterating a registry's root spans reports exactly the unfinished spans that have no unfinished local parent chain to report them otherwise (including orphans whose parent has ended), iterating all spans reports exactly the unfinished spans, each once, and a span's children are exactly its unfinished children. During concurrent starts and finishes an iteration of roots never lists a span twice, and no iteration reports a span that ended before it began or misses a running span none of whose ancestors ends meanwhile. When everything has finished, nothing is left behind.",
 ["schedules", "histories"], "every tree of spans and order of starts and finishes up to the stated size, parents ending before, during or after their children, and every interleaving of these with each other and with readers",
 "Whether an orphan is still reported depends on the order in which parent and child end and on races between the two; the tests end spans in one nesting order only.",
 ["ctx.go", "span.go", "spanbag.go", "registry.go"],
 [("orphaning: finished parent hands its live children to the registry", "ctx.go, registry.go: orphanedSpan, orphanEnd"), ("child bag with its one-element fast path", "spanbag.go")],
 observe=["Registry.RootSpans", "Registry.AllSpans", "Span.Children"])

prop("C03", "Spans carry the right identity: trace, parent, function, context",
 "A span started from a context that carries a live or finished span joins that span's trace and has it as parent; otherwise, or after a reset, it starts a new trace of its own; a remote span joins the given trace with the given parent id. Its function is the one that was named or that contains the call (package and function as written, scope as asked), the function's recorded parents are exactly the functions that called it, and it keeps its start time, its arguments and its own fresh id. The span is a context: values, deadline and cancellation are those of the context it was started from, and the original context is unchanged.",
 ["histories", "inputs", "schedules", "programs"], "every sequence of starts, resets, remote starts and parents up to the depth, every way to name a function and every shape of caller, and concurrent first uses of one task",
 "The tests look at a couple of names and one nesting; wrong parents appear only for particular chains (reset, remote, finished parent), wrong names only for particular callers (inlined, closures, methods, vendored or dotted package paths).",
 ["ctx.go", "task.go", "func.go", "scope.go", "callers.go", "trace.go", "span.go"],
 [("span construction", "ctx.go: newSpan"), ("caller naming", "callers.go, scope.go"), ("parent set of a function", "funcset.go")],
 observe=["Span.Trace/ParentId/Id/Func/Args/Start", "Func.Parents", "SpanFromCtx"])

prop("C04", "Span observers see every span of their trace exactly once",
 "An observer added to a trace sees the start and the finish of every span of the trace that starts after it was added and ends before it is cancelled: exactly once each, start before finish, finish with the call's error, panic flag and end time; after its cancellation has returned it is not called for spans that start later. Observers are independent: adding or cancelling one, in any order and concurrently, never loses, repeats or removes another, and cancelling twice is harmless. When an observer extends the context, the spans below see the extension and each finish is given the context the task went on with.",
 ["schedules", "histories"], "every history of add, cancel, start and finish on up to three observers and every interleaving of concurrent adds, cancels and spans up to the bound",
 "Lock-free lists lose or resurrect entries only in particular interleavings of add and cancel; the tests add one observer and never cancel concurrently.",
 ["trace.go", "ctx.go", "span.go", "collect/ctx.go"],
 [("linked list of observers, replaced by compare-and-swap", "trace.go: ObserveSpansCtx, addObserver, removeObserver"), ("observer chain kept per span", "ctx.go")],
 observe=["SpanObserver.Start/Finish", "SpanCtxObserver.Start/Finish"])

prop("C05", "Trace watchers hear of every new trace, once, until cancelled",
 "A trace watcher registered with a registry is called exactly once for every trace whose first local span starts after the registration returned, early enough that an observer it adds to the trace sees that first span too, and never for traces that start after its cancellation returned; watchers neither lose, repeat nor remove one another under any order of registration and cancellation. Observing all traces applies the watcher to every trace with a live span at that moment and to every later one, once each. A trace that continues a remote one is announced like any other.",
 ["schedules", "histories"], "every history of register, cancel, start and finish up to the depth, and every interleaving up to the bound",
 "As for span observers: the list of watchers is updated with compare-and-swap loops whose failures need a particular interleaving.",
 ["registry.go", "trace.go", "collect/collect.go", "ctx.go"],
 [("copy-on-write list of watchers", "registry.go: ObserveTraces, observeTrace"), ("ObserveAllTraces", "collect/collect.go")],
 observe=["Registry.ObserveTraces callback", "collect.ObserveAllTraces callback"])

prop("C06", "Collecting spans yields each finished span once, in full, and then stops",
 "A collector yields the span it started on and every span below it that finished during collection and hangs on it through spans that finished too: each exactly once, with its error, panic flag and finish time as they were, sortable by start time, and nothing of other traces; its done signal comes when that span has finished or it is stopped, and afterwards nothing more is recorded. Collecting around a piece of work runs the work exactly once, returns all of its finished spans, and then no longer observes the trace; watching for a matching span returns the spans of the first match, or the context's error once that is cancelled. Finding a span offers the matcher every span that starts, on old and new traces alike, until the matcher accepts one or the context ends, and then observes nothing any more.",
 ["schedules", "histories", "inputs"], "every history of span starts and finishes, match results and stop times up to the depth, and every interleaving of concurrent finishes, matches, stops and cancellations up to the bound",
 "Collectors decide from racing start, match, finish and stop events; no test drives them concurrently.",
 ["collect/collect.go", "collect/ctx.go", "collect/trace.go", "trace.go"],
 [("span collector state machine", "collect/collect.go: SpanCollector"), ("observer removal on return", "collect/ctx.go, collect/collect.go")],
 observe=["SpanCollector.Spans/Done", "WatchForSpans", "CollectSpans", "FindSpan", "StartTimeSorter"])

prop("C07", "One name, one metric: get-or-create identity",
 "Asking a scope for a metric with the same kind, name and list of tags always yields the same object, also when many callers ask at once, and asking with a different name, different tags or for a different kind never yields the statistics of another one: distinct metrics never share or overwrite their data, whatever characters names and tag values contain. The same holds for functions and for scopes of a registry, a gauge reports its function most recently given, and everything created is reported by the scope under its own name and tags. A name already taken by another kind is refused by panicking, without harm to the existing metric.",
 ["inputs", "schedules", "histories"], "all pairs and triples over the stated alphabet of kinds, names and tag sets including separators and quotes, and all interleavings of concurrent first requests up to the bound",
 "Collisions need adversarial names, and duplicate creation needs a race between two first requests; tests use one plain name each.",
 ["scope.go", "registry.go", "funcset.go"],
 [("source map with double-checked lookup", "scope.go: newSource"), ("name with tags as key", "scope.go: sourceName")],
 observe=["Scope.Counter/Meter/DiffMeter/IntVal/FloatVal/DurationVal/BoolVal/StructVal/Timer/Event/Gauge/Chain/Func", "Registry.Package/ScopeNamed"])

prop("C08", "Counters are linearizable, with exact low and high marks",
 "Every operation on a counter takes effect at one instant between its call and its return: increments, decrements, sets and resets return the value the specification gives, and low and high are the least and greatest value since creation or the last reset, including the first. Its reported statistics are a consistent view of value, low and high of a counter that has been used, and undefined marks are reported as not-a-number before the first use.",
 ["schedules", "histories", "inputs"], "all operation sequences over boundary values up to the depth and all interleavings of up to three threads up to the bound, against a sequential specification",
 "A lost update or a low/high mark inconsistent with the value shows only in particular interleavings or after particular sequences around reset.",
 ["counter.go"], [("mutex-protected value, low, high", "counter.go")], observe=["Counter.*"])

prop("C09", "Value distributions: exact count, sum, extremes; sane quantiles",
 "A value, timer or duration statistic reports exactly the number, sum (where kept), minimum, maximum and most recent of the values given to it since creation or reset, with no value lost, duplicated or merged under concurrency. As long as no more values were given than the reservoir keeps, its average and quantiles are those of exactly these values, monotone in the quantile (as exactly as single precision allows); beyond it they are made of values that were really given, older values being replaced over time. No quantile or average lies outside the smallest and largest value, whatever the quantile asked for, NaN included. A timer's running measurement records its elapsed time exactly once, when first stopped, and a reset forgets everything.",
 ["inputs", "histories", "schedules"], "all sequences over boundary values up to the depth and around the reservoir's capacity, all outcomes of the random replacement, all interleavings of concurrent observations and readings up to the bound",
 "There is no test of values or distributions; replacement is random and the reservoir's boundary cases, resets and races are reached by no example.",
 ["dist.go", "durdist.go", "intdist.go", "floatdist.go", "distgen.go.m4", "val.go", "timer.go"],
 [("reservoir with sorted flag", "distgen.go.m4 and generated files"), ("locks around distributions", "val.go, timer.go")],
 observe=["IntVal/FloatVal/DurationVal/Timer Stats, Quantile, Observe"])

prop("C10", "Meters: exact totals, windowed rates, ticks and resets lose nothing",
 "A meter's total is exactly the sum of all marks since creation or reset (plus a total set at creation), with none lost to concurrent marks, ticks or readings, and its rate is what was marked within its sliding window (24 steps, one per ten minutes in which something was marked) divided by the time since the window began. The background ticker reaches every meter that exists, however many are created concurrently, and a meter that saw no events since the last step is not shifted. A difference meter reports exactly the difference of its two sides.",
 ["histories", "schedules"], "all histories of marks, ticks, resets, readings and clock steps up to the depth, wrap-around of the window included, and all interleavings of marks with ticks and registrations up to the bound",
 "The window moves every ten minutes for four hours and the ticker is a hidden goroutine: tests with real clocks cannot reach the wrap-around or the race of mark and tick.",
 ["meter.go", "ticker", "scope.go"], [("ring of buckets under a lock", "meter.go"), ("shared ticker started once", "meter.go: ticker")], observe=["Meter.Stats/Total/Rate/Mark/Reset", "DiffMeter"])

prop("C11", "Boolean and structure values report the truth, whatever their type",
 "A boolean value counts exactly the true and false observations, reports their difference as disposition and, as recent, the latest observation. A structure value reports, for the structure observed last, exactly one statistic per numeric or boolean field, under the field's path and with its value, descending into nested, embedded and pointed-to structures, and none for fields of other kinds; nothing is reported before the first observation. No structure that does not contain itself, nil pointers included, makes reporting panic.",
 ["inputs", "histories", "schedules"], "all structures over the stated set of field kinds, nestings and nil pointers, and all interleavings of observations and readings up to the bound",
 "Each structure shape takes another path through reflection; the test has one structure.",
 ["val.go", "struct.go"], [("reflection walk", "struct.go: StatSourceFromStruct"), ("atomic or locked last value", "val.go")], observe=["BoolVal", "StructVal", "StatSourceFromStruct"])

prop("C12", "Series keys are values: sharing, tagging and rendering never interfere",
 "A series key or tag set keeps its content for ever: adding tags yields a new one with exactly the union, later tags winning, and never changes the one it came from or its siblings, under any sharing and concurrency. Its rendering is deterministic, sorted by tag, and separates measurement, tags and field unambiguously by escaping, so that different keys free of backslashes render differently and can be read back. Rendering the same key at the same time from several places is safe and gives the same text.",
 ["inputs", "histories", "schedules"], "all keys and tag sets over an alphabet with every special character up to the length, all derivation histories up to the depth, and all interleavings of concurrent rendering up to the bound",
 "Collisions need special characters in combination, aliasing needs two derivations from one base: the tests render a handful of fixed keys.",
 ["tags.go", "stats.go"], [("copy on SetAll, cached rendering", "tags.go")], observe=["SeriesKey.String/WithField/WithTag(s)", "TagSet.Set/SetAll/Get/Len/String"])

exec(open(os.path.join(here, "tools", "meta2.py")).read())

KIND_SEQ = "explicit-state exploration of the real code: exhaustive enumeration of operation and input sequences against a reference model"
KIND_CONC = "stateless model checking of the real code under a controlled scheduler (all schedules up to a preemption bound, statement- and synchronisation-level points) plus exhaustive enumeration of operation sequences"
NOTE = ("Every execution runs the code of /repo's working tree, rewritten so that goroutines, locks, atomics, channels, the clock, map order and random numbers go through a controlled scheduler. "
        "Complete within the bounds recorded in the evidence (sequence depth, threads, preemptions); nothing is sampled. Trusts the rewriting, the Go toolchain and sequential consistency (C16 covers data races).")

def main():
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                            "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "bash run.sh %s quick" % p["id"],
                     "thorough_cmd": "bash run.sh %s thorough" % p["id"],
                     "technique": p["tech"] or (KIND_CONC if "schedules" in p["over"] else KIND_SEQ),
                     "level": "model_checking", "level_note": p["note"] or NOTE} for p in P if not p["na"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
         "notes": "No hooks in /repo: instrumentation is done on the fly by rewriting the sources into a go build overlay. fix: commits are listed in known_findings.json."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
main()

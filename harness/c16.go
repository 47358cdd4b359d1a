package main

import (
	"context"
	"io"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/environment"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// Every pair of public operations, on one shared world, at the same time. The
// race-detector pass (C16) decides that no pair is a data race; the same body
// explored without it (C15) that no pair deadlocks or panics.
//
// Operations only read the world: what they change belongs to the code under
// test, and what they produce stays in the thread.

type world struct {
	r, tr   *monkit.Registry // tr: the same with a transformer
	s       *monkit.Scope
	f, g    *monkit.Func
	fs      *monkit.FuncStats
	ctx     context.Context // of the running span of f
	sp, kid *monkit.Span
	t       *monkit.Trace
	task    monkit.Task
	lazy    monkit.Task
	kids    [2]func(*error) // running children of sp
	roots   [2]func(*error) // running spans of their own
	runs    [2]*monkit.RunningTimer
	rexit   [1]func(*error) // of sp
	cancels [2]func()
	watches [2]func()
	col     *collect.SpanCollector
	own     *collect.SpanCollector // collecting sp
	dt      *monkit.DeltaTransformer
	src     monkit.StatSource // with dt
	fin     []*collect.FinishedSpan
	c       *monkit.Counter
	m, m2   *monkit.Meter
	iv      *monkit.IntVal
	fv      *monkit.FloatVal
	dv      *monkit.DurationVal
	bv      *monkit.BoolVal
	sv      *monkit.StructVal
	tm      *monkit.Timer
	dm      *monkit.DiffMeter
	ts      *monkit.TagSet
	key     monkit.SeriesKey
	h       http.Handler
	ui      http.Handler
	env     monkit.StatSource
}

type nopObs struct{}

func (nopObs) Start(*monkit.Span)                          {}
func (nopObs) Finish(*monkit.Span, error, bool, time.Time) {}

type nopCtxObs struct{}

func (nopCtxObs) Start(ctx context.Context, _ *monkit.Span) context.Context    { return ctx }
func (nopCtxObs) Finish(context.Context, *monkit.Span, error, bool, time.Time) {}

type nullWriter struct{ h http.Header }

func (w nullWriter) Header() http.Header         { return w.h }
func (w nullWriter) Write(b []byte) (int, error) { return len(b), nil }
func (w nullWriter) WriteHeader(int)             {}

type nullClient struct{}

func (nullClient) Do(req *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(""))}, nil
}

func newWorld() *world {
	w := &world{r: monkit.NewRegistry(), dt: monkit.NewDeltaTransformer()}
	w.tr = w.r.WithTransformers(w.dt)
	w.src = monkit.TransformStatSource(w.r, w.dt)
	w.s = w.r.ScopeNamed("s")
	w.f, w.g = w.s.FuncNamed("f"), w.s.FuncNamed("g", monkit.NewSeriesTag("k", "v"))
	w.fs = monkit.NewFuncStats(monkit.NewSeriesKey("fs"))
	w.task = w.s.TaskNamed("task")
	w.lazy = w.s.Task()
	err := io.EOF
	w.f.Task(nil)(nil)
	w.f.Task(nil)(&err)
	w.f.Observe()(&err)
	w.fs.Observe()(&err)
	w.ctx = context.Background()
	w.rexit[0] = w.f.Task(&w.ctx, 1)
	w.sp = monkit.SpanFromCtx(w.ctx)
	w.t = w.sp.Trace()
	w.t.Set("k", "v")
	w.t.Set(present.SampledKey, true)
	w.sp.Annotate("n", "v")
	w.col = collect.NewSpanCollector(nil)
	w.own = collect.NewSpanCollector(nil)
	w.t.ObserveSpans(w.own)
	w.own.ForceStart(w.sp)
	for i := range w.kids {
		c := w.ctx
		w.kids[i] = w.g.Task(&c)
		w.kid = monkit.SpanFromCtx(c)
		w.roots[i] = w.g.Task(nil)
		w.cancels[i] = w.t.ObserveSpans(nopObs{})
		w.watches[i] = w.r.ObserveTraces(func(*monkit.Trace) {})
		w.runs[i] = w.s.Timer("t").Start()
	}
	c := w.ctx
	w.g.Task(&c)(nil)
	w.fin = w.own.Spans()
	w.c, w.m, w.m2, w.iv, w.fv = w.s.Counter("c"), w.s.Meter("m"), w.s.Meter("m2"), w.s.IntVal("i"), w.s.FloatVal("fl")
	w.dv, w.bv, w.sv, w.tm = w.s.DurationVal("du"), w.s.BoolVal("b"), w.s.StructVal("st"), w.s.Timer("t")
	w.c.Inc(1)
	w.iv.Observe(1)
	w.iv.Observe(2)
	w.fv.Observe(1)
	w.dv.Observe(1)
	w.bv.Observe(true)
	w.sv.Observe(struct{ A, B int }{1, 2})
	w.dm = monkit.NewDiffMeter(monkit.NewSeriesKey("d"), w.m, w.m2)
	w.s.Gauge("ga", func() float64 { return 1 })
	w.key = monkit.NewSeriesKey("shared").WithTags(monkit.NewSeriesTag("b", "2"), monkit.NewSeriesTag("a", "1"))
	w.ts = w.key.Tags
	w.h = mhttp.TraceHandler(handlerFunc(func(rw http.ResponseWriter, _ *http.Request) { rw.WriteHeader(204) }), w.s, "k")
	w.ui = present.HTTP(w.r)
	w.env = environment.Runtime()
	return w
}

type wop struct {
	name string
	run  func(w *world, i int)
	solo bool   // only one thread may
	of   string // what it touches, one letter each
}

func nopStat(monkit.SeriesKey, string, float64) {}

var wops = []wop{
	{"task", func(w *world, i int) { c := w.ctx; w.g.Task(&c)(nil) }, false, "fspoc"},
	{"task-args", func(w *world, i int) {
		c := w.ctx
		x := w.task(&c, 1, "a")
		monkit.SpanFromCtx(c).Annotate("x", "y")
		x(nil)
	}, false, "fspoca"},
	{"task-err", func(w *world, i int) { c := w.ctx; err := io.ErrNoProgress; w.f.Task(&c)(&err) }, false, "fsoce"},
	{"task-panic", func(w *world, i int) {
		catch(func() {
			c := w.ctx
			defer w.f.Task(&c)(nil)
			panic("x")
		})
	}, false, "fs"},
	{"root", func(w *world, i int) { w.g.Task(nil)(nil); w.task(nil)(nil) }, false, "fspo"},
	{"lazy-root", func(w *world, i int) { w.lazy(nil)(nil) }, false, "fs"},
	{"remote", func(w *world, i int) {
		c := context.Background()
		w.g.RemoteTrace(&c, 7, w.t)(nil)
	}, false, "fsot"},
	{"reset-trace", func(w *world, i int) { c := w.ctx; w.g.ResetTrace(&c)(nil) }, false, "fspo"},
	{"finish-child", func(w *world, i int) { err := io.EOF; w.kids[i](&err) }, false, "fsocp"},
	{"finish-root", func(w *world, i int) { w.roots[i](nil) }, false, "fs"},
	{"finish-span", func(w *world, i int) { w.rexit[0](nil) }, true, "fsoc"},
	{"observe", func(w *world, i int) { err := io.ErrShortWrite; w.fs.Observe()(&err); w.f.Observe()(nil) }, false, "f"},
	{"func-reads", func(w *world, i int) {
		for _, f := range []*monkit.FuncStats{w.fs, &w.f.FuncStats} {
			f.Current()
			f.Highwater()
			f.Success()
			f.Panics()
		}
	}, false, "f"},
	{"errors", func(w *world, i int) {
		for range w.f.Errors() {
		}
		for range w.fs.Errors() {
		}
	}, false, "f"},
	{"times", func(w *world, i int) { w.f.SuccessTimes().Query(.5); w.fs.FailureTimes().Query(.9) }, false, "f"},
	{"func-stats", func(w *world, i int) { w.f.Stats(nopStat); w.fs.Stats(nopStat) }, false, "f"},
	{"func-reset", func(w *world, i int) { w.f.Reset(); w.fs.Reset() }, false, "f"},
	{"parents", func(w *world, i int) { w.g.Parents(func(*monkit.Func) {}) }, false, "p"},
	{"new-parent", func(w *world, i int) {
		c := w.ctx
		x := w.s.FuncNamed("p").Task(&c)
		w.g.Task(&c)(nil)
		x(nil)
	}, false, "pn"},
	{"names", func(w *world, i int) { w.f.FullName(); w.f.ShortName(); w.f.Id(); w.f.Scope().Name(); w.task.Func() }, false, "f"},
	{"scope", func(w *world, i int) { w.r.ScopeNamed("s2").FuncNamed("z").Task(nil)(nil) }, false, "n"},
	{"funcs", func(w *world, i int) { w.r.Funcs(func(f *monkit.Func) { f.Current() }) }, false, "n"},
	{"scopes", func(w *world, i int) { w.r.Scopes(func(s *monkit.Scope) { s.Name() }) }, false, "n"},
	{"create", func(w *world, i int) {
		w.s.Counter("c2").Inc(1)
		w.s.IntVal("i2").Observe(1)
		w.s.Timer("t2").Start().Stop()
	}, false, "n"},
	{"create-more", func(w *world, i int) {
		w.s.FloatVal("f2").Observe(1)
		w.s.BoolVal("b2").Observe(true)
		w.s.StructVal("s2").Observe(struct{ C int }{})
		w.s.DurationVal("d2").Observe(1)
		w.s.Event("e")
	}, false, "n"},
	{"gauge", func(w *world, i int) {
		w.s.Gauge("ga", func() float64 { return 2 })
		w.s.Chain(w.c)
		w.s.DiffMeter("dm", w.m, w.m2)
	}, false, "n"},
	{"root-spans", func(w *world, i int) {
		w.r.RootSpans(func(s *monkit.Span) { s.Children(func(*monkit.Span) {}) })
	}, false, "s"},
	{"all-spans", func(w *world, i int) {
		w.r.AllSpans(func(s *monkit.Span) { s.Annotations(); s.Args(); s.Orphaned(); s.Duration() })
	}, false, "sa"},
	{"span-reads", func(w *world, i int) {
		for _, s := range []*monkit.Span{w.sp, w.kid} {
			s.Id()
			s.ParentId()
			s.Start()
			s.Func()
			s.Trace()
			s.Value("k")
			_ = s.String()
			s.Duration()
			s.Orphaned()
			s.Args()
		}
	}, false, "s"},
	{"children", func(w *world, i int) { w.sp.Children(func(s *monkit.Span) { s.Orphaned(); s.ParentId() }) }, false, "s"},
	{"annotate", func(w *world, i int) { w.sp.Annotate("a", "b"); w.kid.Annotate("a", "b") }, false, "a"},
	{"annotations", func(w *world, i int) {
		for _, a := range w.sp.Annotations() {
			_ = a.Name
		}
		w.kid.Annotations()
	}, false, "a"},
	{"trace-set", func(w *world, i int) { w.t.Set("k", "w"); w.t.Set("k2", 1) }, false, "t"},
	{"trace-get", func(w *world, i int) { w.t.Get("k"); w.t.Id(); w.t.Spans() }, false, "t"},
	{"trace-get-all", func(w *world, i int) {
		for range w.t.GetAll() {
		}
	}, false, "t"},
	{"observe-spans", func(w *world, i int) { w.t.ObserveSpans(nopObs{})() }, false, "o"},
	{"observe-spans-ctx", func(w *world, i int) { w.t.ObserveSpansCtx(nopCtxObs{}) }, false, "o"},
	{"cancel-observer", func(w *world, i int) { w.cancels[0](); w.cancels[i]() }, false, "o"},
	{"observe-traces", func(w *world, i int) { w.r.ObserveTraces(func(*monkit.Trace) {})() }, false, "o"},
	{"cancel-watch", func(w *world, i int) { w.watches[0](); w.watches[i]() }, false, "o"},
	{"observe-all", func(w *world, i int) { collect.ObserveAllTraces(w.r, nopObs{})() }, false, "o"},
	{"observe-all-stay", func(w *world, i int) { collect.ObserveAllTraces(w.r, w.col) }, false, "o"},
	{"col-spans", func(w *world, i int) {
		for _, s := range w.own.Spans() {
			_, _, _ = s.Err, s.Finish, s.Span.Id()
		}
	}, false, "c"},
	{"col-stop", func(w *world, i int) { w.own.Stop() }, false, "c"},
	{"col-force", func(w *world, i int) { w.col.ForceStart(w.kid); w.own.ForceStart(w.kid) }, false, "c"},
	{"col-done", func(w *world, i int) {
		select {
		case <-w.own.Done():
		default:
		}
	}, false, "c"},
	{"col-feed", func(w *world, i int) { w.col.Start(w.sp); w.col.Finish(w.kid, nil, false, w.kid.Start()) }, false, "c"},
	{"collect-spans", func(w *world, i int) {
		collect.CollectSpans(w.ctx, func(c context.Context) { w.g.Task(&c)(nil) })
	}, false, ""},
	{"counter", func(w *world, i int) { w.c.Inc(1); w.c.Dec(2); w.c.Set(3) }, false, "C"},
	{"counter-read", func(w *world, i int) { w.c.High(); w.c.Low(); w.c.Current(); w.c.Stats(nopStat) }, false, "C"},
	{"counter-reset", func(w *world, i int) { w.c.Reset() }, false, "C"},
	{"meter", func(w *world, i int) { w.m.Mark(1); w.m.Mark64(2); w.m.SetTotal(5) }, false, "M"},
	{"meter-read", func(w *world, i int) { w.m.Rate(); w.m.Total(); w.m.Stats(nopStat) }, false, "M"},
	{"meter-reset", func(w *world, i int) { w.m.Reset(3) }, false, "M"},
	{"diff", func(w *world, i int) { w.dm.Stats(nopStat) }, false, "M"},
	{"vals", func(w *world, i int) { w.iv.Observe(3); w.fv.Observe(3); w.dv.Observe(3) }, false, "v"},
	{"vals-read", func(w *world, i int) {
		w.iv.Quantile(.5)
		w.iv.Stats(nopStat)
		w.fv.Quantile(.5)
		w.fv.Stats(nopStat)
		w.dv.Quantile(.5)
		w.dv.Stats(nopStat)
	}, false, "v"},
	{"vals2", func(w *world, i int) {
		w.bv.Observe(false)
		w.sv.Observe(struct{ A, B int }{1, 2})
		w.sv.Observe(struct{ D int }{1})
	}, false, "b"},
	{"vals2-read", func(w *world, i int) { w.bv.Stats(nopStat); w.sv.Stats(nopStat) }, false, "b"},
	{"timer", func(w *world, i int) { w.tm.Start().Stop(); w.runs[i].Stop() }, false, "T"},
	{"timer-read", func(w *world, i int) { w.tm.Values().Query(.5); w.tm.Stats(nopStat) }, false, "T"},
	{"tags-read", func(w *world, i int) {
		_ = w.ts.String()
		w.ts.All()
		w.ts.Get("a")
		w.ts.Len()
		_ = w.key.String()
		w.key.WithField("f")
	}, false, "g"},
	{"tags-derive", func(w *world, i int) {
		w.ts.Set("c", "3")
		w.ts.SetAll(map[string]string{"a": "0"})
		w.ts.SetTags(monkit.NewSeriesTag("d", "4"))
		_ = w.key.WithTag("e", "5").WithTags(monkit.NewSeriesTag("a", "")).String()
	}, false, "g"},
	{"delta", func(w *world, i int) { w.src.Stats(nopStat) }, false, ""},
	{"stats", func(w *world, i int) { w.r.Stats(nopStat) }, false, ""},
	{"stats-transformed", func(w *world, i int) { w.tr.Stats(nopStat) }, false, ""},
	{"scope-stats", func(w *world, i int) { w.s.Stats(nopStat) }, false, ""},
	{"handler", func(w *world, i int) { monkit.AddErrorNameHandler(func(error) (string, bool) { return "", false }) }, false, "e"},
	{"clash", func(w *world, i int) {
		// a taken name is refused, whatever its owner is doing
		for _, ask := range []func(){
			func() { w.s.Meter("c") }, func() { w.s.Meter("i") }, func() { w.s.Counter("m") },
			func() { w.s.Counter("fl") }, func() { w.s.IntVal("du") }, func() { w.s.FloatVal("b") },
			func() { w.s.BoolVal("st") }, func() { w.s.StructVal("t") }, func() { w.s.DurationVal("c") },
			func() { w.s.Timer("fl") }, func() { w.s.DiffMeter("i", w.m, w.m2) },
			func() { w.s.Gauge("t", func() float64 { return 0 }) }, func() { w.s.IntVal("ga") },
		} {
			_, refused := catch(ask)
			check(refused, "a name in use was given to another kind")
		}
	}, false, "CMvbT"},
	{"new-id", func(w *world, i int) { monkit.NewId(); monkit.NewTrace(monkit.NewId()) }, false, "i"},
	{"http-serve", func(w *world, i int) {
		rq, _ := http.NewRequest("GET", "http://h/", nil)
		rq.Header.Set("traceparent", "00-0000000000000000000000000000000a-000000000000000b-01")
		w.h.ServeHTTP(nullWriter{http.Header{}}, rq)
	}, false, "t"},
	{"http-request", func(w *world, i int) {
		rq, _ := http.NewRequest("GET", "http://h/", nil)
		rs, err := mhttp.TraceRequest(w.ctx, w.s, nullClient{}, rq)
		if err == nil {
			rs.Body.Close()
		}
	}, false, "t"},
	{"trace-info", func(w *world, i int) { mhttp.TraceInfoFromSpan(w.sp).SetHeader(http.Header{}) }, false, "t"},
	{"funcs-text", func(w *world, i int) { present.FuncsText(w.r, io.Discard) }, false, ""},
	{"funcs-json", func(w *world, i int) { present.FuncsJSON(w.r, io.Discard) }, false, ""},
	{"funcs-dot", func(w *world, i int) { present.FuncsDot(w.r, io.Discard) }, false, ""},
	{"spans-text", func(w *world, i int) { present.SpansText(w.r, io.Discard) }, false, ""},
	{"spans-json", func(w *world, i int) { present.SpansJSON(w.r, io.Discard) }, false, ""},
	{"spans-dot", func(w *world, i int) { present.SpansDot(w.r, io.Discard) }, false, ""},
	{"stats-text", func(w *world, i int) { present.StatsText(w.r, io.Discard) }, false, ""},
	{"stats-json", func(w *world, i int) { present.StatsJSON(w.r, io.Discard) }, false, ""},
	{"svg", func(w *world, i int) { present.SpansToSVG(io.Discard, w.fin) }, false, ""},
	{"spans-to-json", func(w *world, i int) { present.SpansToJSON(io.Discard, w.fin) }, false, ""},
	{"ui", func(w *world, i int) {
		rq, _ := http.NewRequest("GET", "http://h/ps/text", nil)
		w.ui.ServeHTTP(nullWriter{http.Header{}}, rq)
	}, false, ""},
	{"trace-query", func(w *world, i int) {
		res, _, err := present.FromRequest(w.r, "/trace/json", url.Values{"regex": {"z"}, "preselect": {"false"}})
		if err == nil {
			_ = res
		}
	}, false, ""},
	{"env", func(w *world, i int) { w.env.Stats(nopStat) }, false, "E"},
}

func init() {
	body := func(near bool) func() {
		return func() {
			a := choose(len(wops))
			b := a + choose(len(wops)-a)
			x, y := wops[a], wops[b]
			if x.solo && y.solo || near && !strings.ContainsAny(x.of, y.of) {
				return
			}
			w := newWorld()
			par(func() { x.run(w, 0) }, func() { y.run(w, 1) })
			note("%s", x.name)
		}
	}
	conc("C16", "pairs", Bounds{-1, 0}, Bounds{-1, 0}, 0, body(false))
	conc("C16", "pairs-near", Bounds{-1, 1}, Bounds{-1, 1}, 1, body(true))
	conc("C15", "pairs", Bounds{-1, 0}, Bounds{-1, 0}, -1, body(false))
	conc("C15", "pairs-near", Bounds{-1, 1}, Bounds{-1, 2}, -1, body(true))
}

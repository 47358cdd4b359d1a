package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/url"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// C15: user code called by the library may call the library, or panic.

type renv struct {
	r      *monkit.Registry
	s      *monkit.Scope
	f, g   *monkit.Func
	ctx    context.Context // of a running task of f
	exit   func(*error)
	sp     *monkit.Span
	tr     *monkit.Trace
	cancel func() // of the registration under test
	dt     *monkit.DeltaTransformer
	col    *collect.SpanCollector
	n      int // callbacks that did something
	act    func()
	busy   bool
	max    int // callbacks that act; 0: all
}

func newRenv(light bool) *renv {
	e := &renv{r: monkit.NewRegistry(), dt: monkit.NewDeltaTransformer()}
	e.s = e.r.ScopeNamed("s")
	e.f, e.g = e.s.FuncNamed("f"), e.s.FuncNamed("g")
	e.ctx = context.Background()
	e.exit = e.f.Task(&e.ctx)
	e.sp = monkit.SpanFromCtx(e.ctx)
	e.tr = e.sp.Trace()
	e.cancel = func() {}
	e.col = collect.NewSpanCollector(nil)
	if light {
		return e
	}
	e.s.Counter("c").Inc(1)
	e.s.Meter("m").Mark(1)
	e.s.IntVal("i").Observe(1)
	e.s.BoolVal("b").Observe(true)
	e.s.StructVal("st").Observe(struct{ A int }{1})
	e.s.Timer("t").Start().Stop()
	return e
}

// cb is the user code.
func (e *renv) cb() {
	if e.busy || e.max > 0 && e.n >= e.max {
		return
	}
	e.busy = true
	defer func() { e.busy = false }()
	e.n++
	e.act()
}

type reObs struct{ e *renv }

func (o reObs) Start(s *monkit.Span)                                { o.e.cb() }
func (o reObs) Finish(s *monkit.Span, _ error, _ bool, _ time.Time) { o.e.cb() }

type reFinObs struct{ e *renv }

func (o reFinObs) Start(s *monkit.Span)                                {}
func (o reFinObs) Finish(s *monkit.Span, _ error, _ bool, _ time.Time) { o.e.cb() }

type reCtxObs struct{ e *renv }

func (o reCtxObs) Start(ctx context.Context, s *monkit.Span) context.Context { o.e.cb(); return ctx }
func (o reCtxObs) Finish(ctx context.Context, s *monkit.Span, _ error, _ bool, _ time.Time) {
	o.e.cb()
}

type reErr struct{ e *renv }

func (x *reErr) Error() string        { return "re" }
func (x *reErr) Name() (string, bool) { x.e.cb(); return "Re", true }

type reArg struct{ e *renv }

func (a reArg) GoString() string { a.e.cb(); return "arg" }

type reCtx struct {
	context.Context
	e *renv
}

func (c reCtx) Value(k any) any { c.e.cb(); return c.Context.Value(k) }

type reTr struct{ e *renv }

func (t reTr) Transform(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
	t.e.cb()
	return cb
}

type site struct {
	name string
	run  func(e *renv)
}

type reAct struct {
	name string
	run  func(e *renv)
}

var errRe = errors.New("re")

func init() {
	child := func(e *renv) { c := e.ctx; e.g.Task(&c)(nil) }
	statCb := func(e *renv) func(monkit.SeriesKey, string, float64) {
		return func(monkit.SeriesKey, string, float64) { e.cb() }
	}
	sites := []site{
		{"observer", func(e *renv) { e.cancel = e.tr.ObserveSpans(reObs{e}); child(e) }},
		{"observer-finish", func(e *renv) { e.cancel = e.tr.ObserveSpans(reFinObs{e}); child(e) }},
		{"observers", func(e *renv) {
			e.tr.ObserveSpans(reObs{e})
			e.cancel = e.tr.ObserveSpans(reObs{e})
			e.tr.ObserveSpansCtx(reCtxObs{e})
			child(e)
		}},
		{"ctx-observer", func(e *renv) { e.cancel = e.tr.ObserveSpansCtx(reCtxObs{e}); child(e) }},
		{"watcher", func(e *renv) { e.cancel = e.r.ObserveTraces(func(*monkit.Trace) { e.cb() }); e.g.Task(nil)(nil) }},
		{"watchers", func(e *renv) {
			e.cancel = e.r.ObserveTraces(func(*monkit.Trace) { e.cb() })
			e.r.ObserveTraces(func(*monkit.Trace) { e.cb() })
			c := e.ctx
			e.g.ResetTrace(&c)(nil)
		}},
		{"all-traces", func(e *renv) {
			e.cancel = collect.ObserveAllTraces(e.r, reObs{e})
			child(e)
			e.g.Task(nil)(nil)
		}},
		{"matcher", func(e *renv) {
			e.col = collect.NewSpanCollector(func(*monkit.Span) bool { e.cb(); return true })
			e.cancel = collect.ObserveAllTraces(e.r, e.col)
			child(e)
			e.g.Task(nil)(nil)
		}},
		{"all-traces-remote", func(e *renv) {
			e.cancel = collect.ObserveAllTraces(e.r, reObs{e})
			for i := 0; i < 3; i++ {
				c := context.Background()
				x := e.g.RemoteTrace(&c, 5, e.tr)
				e.g.Task(&c)(nil)
				x(nil)
			}
			c := e.ctx
			e.g.ResetTrace(&c)(nil)
		}},
		{"stats-registry", func(e *renv) { e.r.Stats(statCb(e)) }},
		{"stats-scope", func(e *renv) { e.s.Stats(statCb(e)) }},
		{"stats-func", func(e *renv) { child(e); e.g.Stats(statCb(e)) }},
		{"stats-counter", func(e *renv) { e.s.Counter("c").Stats(statCb(e)) }},
		{"stats-meter", func(e *renv) { e.s.Meter("m").Stats(statCb(e)) }},
		{"stats-int", func(e *renv) { e.s.IntVal("i").Stats(statCb(e)) }},
		{"stats-bool", func(e *renv) { e.s.BoolVal("b").Stats(statCb(e)) }},
		{"stats-struct", func(e *renv) { e.s.StructVal("st").Stats(statCb(e)) }},
		{"stats-timer", func(e *renv) { e.s.Timer("t").Stats(statCb(e)) }},
		{"stats-float", func(e *renv) { e.s.FloatVal("fl").Observe(1); e.s.FloatVal("fl").Stats(statCb(e)) }},
		{"stats-duration", func(e *renv) { e.s.DurationVal("du").Observe(1); e.s.DurationVal("du").Stats(statCb(e)) }},
		{"stats-diff", func(e *renv) {
			monkit.NewDiffMeter(monkit.NewSeriesKey("d"), e.s.Meter("m"), e.s.Meter("m2")).Stats(statCb(e))
		}},
		{"stats-delta", func(e *renv) {
			w := monkit.TransformStatSource(e.r, e.dt)
			monkit.Collect(w)
			w.Stats(statCb(e))
		}},
		{"funcs", func(e *renv) { e.r.Funcs(func(*monkit.Func) { e.cb() }) }},
		{"scope-funcs", func(e *renv) { e.s.Funcs(func(*monkit.Func) { e.cb() }) }},
		{"scopes", func(e *renv) { e.r.Scopes(func(*monkit.Scope) { e.cb() }) }},
		{"root-spans", func(e *renv) { e.r.RootSpans(func(*monkit.Span) { e.cb() }) }},
		{"all-spans", func(e *renv) {
			c := e.ctx
			x := e.g.Task(&c)
			defer x(nil)
			e.r.AllSpans(func(*monkit.Span) { e.cb() })
		}},
		{"children", func(e *renv) {
			c := e.ctx
			x := e.g.Task(&c)
			defer x(nil)
			e.sp.Children(func(*monkit.Span) { e.cb() })
		}},
		{"parents", func(e *renv) { child(e); e.g.Parents(func(*monkit.Func) { e.cb() }) }},
		{"gauge", func(e *renv) { e.s.Gauge("gg", func() float64 { e.cb(); return 1 }); monkit.Collect(e.r) }},
		{"chain", func(e *renv) {
			e.s.Chain(monkit.StatSourceFunc(func(func(monkit.SeriesKey, string, float64)) { e.cb() }))
			monkit.Collect(e.r)
		}},
		{"error-handler", func(e *renv) {
			monkit.AddErrorNameHandler(func(err error) (string, bool) {
				if err == errRe {
					e.cb()
					return "handled", true
				}
				return "", false
			})
			var err error = errRe
			c := e.ctx
			e.g.Task(&c)(&err)
		}},
		{"error-name", func(e *renv) {
			var err error = &reErr{e}
			c := e.ctx
			e.g.Task(&c)(&err)
		}},
		{"error-name-observe", func(e *renv) {
			var err error = &reErr{e}
			e.g.Observe()(&err)
		}},
		{"transformer", func(e *renv) { monkit.Collect(e.r.WithTransformers(reTr{e})) }},
		{"collect-work", func(e *renv) { collect.CollectSpans(e.ctx, func(context.Context) { e.cb() }) }},
		{"args", func(e *renv) {
			c := e.ctx
			x := e.g.Task(&c, reArg{e})
			monkit.SpanFromCtx(c).Args()
			x(nil)
		}},
		{"context", func(e *renv) {
			var c context.Context = reCtx{e.ctx, e}
			e.g.Task(&c)(nil)
		}},
	}
	reset := func(e *renv) {
		if e.cancel != nil {
			e.cancel()
		}
	}
	acts := []reAct{
		{"child", child},
		{"root", func(e *renv) { e.g.Task(nil)(nil) }},
		{"error", func(e *renv) {
			c := e.ctx
			var err error = errRe
			e.g.Task(&c)(&err)
			err = io.EOF
			e.f.Observe()(&err)
			err = &reErr{e}
			e.g.Observe()(&err)
		}},
		{"panic-in-task", func(e *renv) {
			catch(func() {
				c := e.ctx
				defer e.g.Task(&c)(nil)
				panic("x")
			})
		}},
		{"stats", func(e *renv) { monkit.Collect(e.r); monkit.Collect(e.s); monkit.Collect(e.g) }},
		{"create", func(e *renv) {
			e.r.ScopeNamed("new").Counter("n").Inc(1)
			for _, m := range makers {
				m.use(m.get(e.s, "n-"+m.kind, nil))
			}
			e.s.FuncNamed("h").Task(nil)(nil)
		}},
		{"lists", func(e *renv) {
			e.r.Funcs(func(*monkit.Func) {})
			e.r.Scopes(func(*monkit.Scope) {})
			e.r.RootSpans(func(*monkit.Span) {})
			e.r.AllSpans(func(*monkit.Span) {})
			e.sp.Children(func(*monkit.Span) {})
			e.g.Parents(func(*monkit.Func) {})
		}},
		{"remote", func(e *renv) {
			c := context.Background()
			e.g.RemoteTrace(&c, 5, e.tr)(nil)
			e.g.RemoteTrace(&c, 6, monkit.NewTrace(9))(nil)
			c = e.ctx
			e.g.ResetTrace(&c)(nil)
			c = e.ctx
			e.g.RemoteTrace(&c, 5, e.tr)(nil)
		}},
		{"watch", func(e *renv) {
			c := e.r.ObserveTraces(func(*monkit.Trace) {})
			e.g.Task(nil)(nil)
			c()
		}},
		{"observe", func(e *renv) {
			c := e.tr.ObserveSpans(reObs{e})
			child(e)
			c()
			c2 := collect.ObserveAllTraces(e.r, reObs{e})
			c2()
		}},
		{"cancel", reset},
		{"values", func(e *renv) {
			c := e.s.Counter("c")
			c.Inc(1)
			c.Set(3)
			c.High()
			c.Reset()
			m := e.s.Meter("m")
			m.Mark(1)
			m.Rate()
			m.Reset(0)
			e.s.IntVal("i").Observe(3)
			e.s.IntVal("i").Quantile(.5)
			e.s.FloatVal("fl").Observe(2)
			e.s.DurationVal("du").Observe(2)
			e.s.BoolVal("b").Observe(false)
			e.s.StructVal("st").Observe(struct{ B int }{1})
			e.s.Timer("t").Start().Stop()
		}},
		{"handler", func(e *renv) { monkit.AddErrorNameHandler(func(error) (string, bool) { return "", false }) }},
		{"gauge", func(e *renv) {
			e.s.Gauge("gg", func() float64 { return 2 })
			e.s.Chain(monkit.NewCounter(monkit.NewSeriesKey("z")))
		}},
		{"readers", func(e *renv) {
			for _, f := range []*monkit.Func{e.f, e.g} {
				f.Errors()
				f.Success()
				f.Panics()
				f.Current()
				f.SuccessTimes()
				f.FailureTimes()
			}
		}},
		{"span", func(e *renv) {
			e.sp.Annotate("a", "b")
			e.sp.Annotations()
			e.sp.Orphaned()
			e.sp.Duration()
			e.sp.Args()
			e.tr.Set("k", "v")
			e.tr.Get("k")
			e.tr.GetAll()
			e.tr.Spans()
		}},
		{"collect", func(e *renv) {
			collect.CollectSpans(e.ctx, func(c context.Context) { e.g.Task(&c)(nil) })
			e.col.ForceStart(e.sp)
			e.col.Spans()
			e.col.Stop()
		}},
		{"delta", func(e *renv) { monkit.Collect(monkit.TransformStatSource(e.r, e.dt)) }},
		{"finish", func(e *renv) {
			if x := e.exit; x != nil {
				e.exit = nil
				x(nil)
			}
		}},
	}
	sane := func(e *renv, what string) {
		if e.cancel != nil {
			e.cancel()
		}
		e.act = func() {}
		for _, a := range acts {
			a.run(e)
		}
		if e.exit != nil {
			e.exit(nil)
		}
		n := 0
		e.r.AllSpans(func(*monkit.Span) { n++ })
		check(n == 0, "%s: %d spans shown after everything ended", what, n)
		check(e.f.Current() == 0 && e.g.Current() == 0, "%s: current %d and %d after everything ended", what, e.f.Current(), e.g.Current())
	}
	seq("C15", "same-thread", func() {
		e := newRenv(false)
		st := sites[choose(len(sites))]
		a, b := acts[choose(len(acts))], acts[choose(len(acts))]
		e.act, e.max = func() { a.run(e); b.run(e) }, 2
		st.run(e)
		check(e.n > 0, "the callback of %s was not called", st.name)
		sane(e, st.name+"/"+a.name+"/"+b.name)
	})
	seq("C15", "other-thread", func() {
		e := newRenv(false)
		st := sites[choose(len(sites))]
		a := acts[choose(len(acts))]
		e.act, e.max = func() { sched.Join(sched.Spawn("other", func() { a.run(e) })) }, 25
		st.run(e)
		check(e.n > 0, "the callback of %s was not called", st.name)
		sane(e, st.name+"/"+a.name)
	})
	// user code that panics leaves no lock behind: spans whose observers
	// panicked at their start are not claimed to be accounted for
	seq("C15", "panic", func() {
		e := newRenv(false)
		st := sites[choose(len(sites))]
		e.act = func() { panic("user") }
		rec, p := catch(func() { st.run(e) })
		check(!p || rec == "user", "%s: the panic came out as %v", st.name, rec)
		e.act = func() {}
		for _, a := range acts {
			a.run(e)
			sched.Join(sched.Spawn("other", func() { a.run(e) }))
		}
		note("%s panic passed on: %v", st.name, p)
	})
	// the callback of a trace that a remote trace query samples
	seq("C15", "sampling", func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		how := choose(4)
		elsewhere := choose(2) == 1
		n := 0
		var old context.Context
		r.ObserveTraces(func(t *monkit.Trace) {
			t.Set(present.SampledCBKey, func(x *monkit.Trace) {
				n++
				act := func() {
					c := context.Background()
					switch how {
					case 0: // a span of another trace that matches, too
						f.Task(&c)(nil)
					case 1:
						f.RemoteTrace(&c, 1, x)(nil)
					case 2:
						x.Set("k", x.Get(present.SampledKey))
						f.Task(&old)(nil)
					case 3:
						panic("user")
					}
				}
				if elsewhere && how != 3 {
					sched.Join(sched.Spawn("other", act))
				} else {
					act()
				}
			})
		})
		old = context.Background()
		f.Task(&old)(nil)
		query, _, err := present.FromRequest(r, "/trace/remote", url.Values{"regex": {"."}})
		check(err == nil, "%v", err)
		var out strings.Builder
		q0 := sched.Spawn("query", func() { err = query(&out) })
		settle()
		c := context.Background()
		rec, p := catch(func() { f.Task(&c)(nil) })
		check(p == (how == 3) && (!p || rec == "user"), "the task panicked: %v", rec)
		check(n == 1, "the sampling callback ran %d times", n)
		if how == 3 {
			c = context.Background()
			f.Task(&c)(nil)
		}
		sched.Join(q0)
		check(err == nil && strings.Contains(out.String(), "trace_id"), "the query answered %q, %v", out.String(), err)
	})
	// two threads in user code at once
	conc("C15", "two-callbacks", Bounds{-1, 1}, Bounds{-1, 2}, 0, func() {
		e := newRenv(true)
		e2 := &renv{}
		*e2 = *e
		e2.exit, e2.cancel = nil, nil
		pickS := []int{0, 5, 9, 25, 31}
		pickA := []int{2, 4, 9}
		if thorough {
			pickS = []int{0, 4, 6, 8, 9, 22, 25, 29, 31, 32}
			pickA = []int{0, 2, 4, 5, 7, 8, 9}
		}
		s1, s2 := sites[pick(pickS...)], sites[pick(pickS...)]
		a1, a2 := acts[pick(pickA...)], acts[pick(pickA...)]
		e.act, e.max = func() { a1.run(e) }, 1
		e2.act, e2.max = func() { a2.run(e2) }, 1
		par(func() { s1.run(e) }, func() { s2.run(e2) })
		note("%s", s1.name)
	})
	_ = fmt.Sprint
}

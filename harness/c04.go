package main

import (
	"context"
	"fmt"
	"io"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

// C04: span observers of a trace.

const (
	evStart = iota
	evFinish
)

type plainObs struct {
	id int
	l  *evlog
}

func (o *plainObs) Start(s *monkit.Span) { o.l.add(event{who: o.id, kind: evStart, sp: s}) }
func (o *plainObs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.l.add(event{who: o.id, kind: evFinish, sp: s, err: err, pan: panicked, at: finish})
}

type funcObs struct{ f func() }

func (o funcObs) Start(*monkit.Span)                          { o.f() }
func (o funcObs) Finish(*monkit.Span, error, bool, time.Time) { o.f() }

type ctxObs struct {
	id   int
	l    *evlog
	ctxs map[*monkit.Span]context.Context // contexts given to Finish; nil: not kept
}

func (o *ctxObs) Start(ctx context.Context, s *monkit.Span) context.Context {
	o.l.add(event{who: o.id, kind: evStart, sp: s})
	if monkit.SpanFromCtx(ctx) != s {
		sched.Fail("observer started with a context of another span")
	}
	return context.WithValue(ctx, ck(fmt.Sprint("obs", o.id)), s.Id())
}

func (o *ctxObs) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.l.add(event{who: o.id, kind: evFinish, sp: s, err: err, pan: panicked, at: finish})
	if monkit.SpanFromCtx(ctx) != s {
		sched.Fail("observer finished with a context of another span")
	}
	if o.ctxs != nil {
		o.ctxs[s] = ctx
	}
}

type ctxFuncs struct {
	start  func(context.Context, *monkit.Span) context.Context
	finish func(context.Context, *monkit.Span)
}

func (o ctxFuncs) Start(ctx context.Context, s *monkit.Span) context.Context { return o.start(ctx, s) }
func (o ctxFuncs) Finish(ctx context.Context, s *monkit.Span, _ error, _ bool, _ time.Time) {
	o.finish(ctx, s)
}

func init() {
	// all histories of adding and cancelling observers and starting and
	// finishing spans
	seq("C04", "histories", func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		l := &evlog{}
		ctx0 := context.Background()
		rootExit := f.Task(&ctx0)
		tr := monkit.SpanFromCtx(ctx0).Trace()
		type ob struct {
			id      int
			isCtx   bool
			o       *ctxObs
			p       *plainObs
			cancel  func()
			on      bool
			cancels int
		}
		type sp struct {
			s       *monkit.Span
			ctx     context.Context
			exit    func(*error)
			live    bool
			startOn map[int]bool
		}
		var obs []*ob
		var spans []*sp
		isOn := func(id int) bool {
			for _, o := range obs {
				if o.id == id && o.on {
					return true
				}
			}
			return false
		}
		byID := func(id int) *ob {
			for _, o := range obs {
				if o.id == id {
					return o
				}
			}
			return nil
		}
		wantS, wantF := map[string]int{}, map[string]int{}
		depth := q(7, 8)
		for i := 0; i < depth; i++ {
			type op struct {
				kind int
				k    int
			}
			var ops []op
			if len(obs) < 3 {
				ops = append(ops, op{0, 0}, op{0, 1})
				if len(obs) > 0 {
					ops = append(ops, op{4, len(obs) - 1})
				}
			}
			for k, o := range obs {
				if o.cancels < 2 {
					ops = append(ops, op{1, k})
				}
			}
			if len(spans) < 3 {
				ops = append(ops, op{2, -1})
				if len(spans) > 0 {
					ops = append(ops, op{2, len(spans) - 1})
				}
			}
			for k, s := range spans {
				if s.live {
					ops = append(ops, op{3, k})
				}
			}
			o := ops[choose(len(ops))]
			adv(time.Second + 1)
			switch o.kind {
			case 0:
				n := &ob{id: len(obs), isCtx: o.k == 1, on: true}
				if n.isCtx {
					n.o = &ctxObs{id: n.id, l: l, ctxs: map[*monkit.Span]context.Context{}}
					n.cancel = tr.ObserveSpansCtx(n.o)
				} else {
					n.p = &plainObs{n.id, l}
					n.cancel = tr.ObserveSpans(n.p)
				}
				obs = append(obs, n)
			case 4: // the same observer once more
				n := *obs[o.k]
				n.on, n.cancels = true, 0
				if n.isCtx {
					n.cancel = tr.ObserveSpansCtx(n.o)
				} else {
					n.cancel = tr.ObserveSpans(n.p)
				}
				obs = append(obs, &n)
			case 1:
				obs[o.k].cancel()
				obs[o.k].on = false
				obs[o.k].cancels++
			case 2:
				s := &sp{live: true, ctx: ctx0, startOn: map[int]bool{}}
				if o.k >= 0 {
					s.ctx = spans[o.k].ctx
				}
				s.exit = f.Task(&s.ctx)
				s.s = monkit.SpanFromCtx(s.ctx)
				for _, ob := range obs {
					if ob.on {
						wantS[fmt.Sprint(ob.id, len(spans))]++
						s.startOn[ob.id] = true
						if ob.isCtx {
							check(s.ctx.Value(ck(fmt.Sprint("obs", ob.id))) == s.s.Id(), "the value observer %d put into the context is not in the task's context", ob.id)
						}
					} else if v := s.ctx.Value(ck(fmt.Sprint("obs", ob.id))); v != nil && !isOn(ob.id) {
						check(v != s.s.Id(), "a cancelled observer put a value into the context")
					}
				}
				spans = append(spans, s)
			case 3:
				s := spans[o.k]
				s.live = false
				var err error
				now := sched.Now()
				mode := i % 4
				switch mode {
				case 0:
					finish(s.exit, oOK)
				case 1:
					err = io.EOF
					finish(s.exit, oEOF)
				case 2:
					finish(s.exit, oPanic)
				case 3:
					err = errNamed
					finish(s.exit, oPanicErr)
				}
				for _, ob := range obs {
					if !ob.on {
						continue
					}
					wantF[fmt.Sprint(ob.id, o.k)]++
					e := l.find(ob.id, evFinish, s.s)
					check(e != nil, "observer %d was not told that span %d finished", ob.id, o.k)
					check(e.err == err && e.pan == (mode >= 2) && e.at.Equal(now), "observer told err=%v panicked=%v finish=%v; want %v %v %v", e.err, e.pan, e.at, err, mode >= 2, now)
					if ob.isCtx {
						c := ob.o.ctxs[s.s]
						for id := range s.startOn {
							if byID(id).isCtx {
								check(c.Value(ck(fmt.Sprint("obs", id))) == s.s.Id(), "Finish's context lacks the value observer %d added at Start", id)
							}
						}
					}
				}
			}
			for _, ob := range obs {
				for k, s := range spans {
					key := fmt.Sprint(ob.id, k)
					check(l.count(ob.id, evStart, s.s) == wantS[key], "observer %d saw span %d start %d times, want %d", ob.id, k, l.count(ob.id, evStart, s.s), wantS[key])
					check(l.count(ob.id, evFinish, s.s) == wantF[key], "observer %d saw span %d finish %d times, want %d", ob.id, k, l.count(ob.id, evFinish, s.s), wantF[key])
				}
			}
		}
		_ = rootExit
	})

	// observers of one trace do not hear of another; one observer may be
	// registered twice
	seq("C04", "traces", func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		l := &evlog{}
		ctxA, ctxB := context.Background(), context.Background()
		ea, eb := f.Task(&ctxA), f.Task(&ctxB)
		ta, tb := monkit.SpanFromCtx(ctxA).Trace(), monkit.SpanFromCtx(ctxB).Trace()
		o := &plainObs{0, l}
		nA, nB := choose(3), choose(2)
		var cs []func()
		for i := 0; i < nA; i++ {
			cs = append(cs, ta.ObserveSpans(o))
		}
		for i := 0; i < nB; i++ {
			cs = append(cs, tb.ObserveSpans(o))
		}
		drop := choose(len(cs) + 1)
		if drop > 0 {
			cs[drop-1]()
			if drop-1 < nA {
				nA--
			} else {
				nB--
			}
		}
		sa, sb := monkit.SpanFromCtx(ctxA), monkit.SpanFromCtx(ctxB)
		c := ctxA
		e := f.Task(&c)
		child := monkit.SpanFromCtx(c)
		e(nil)
		check(l.count(0, evStart, child) == nA && l.count(0, evFinish, child) == nA, "child of A: start %d finish %d, want %d", l.count(0, evStart, child), l.count(0, evFinish, child), nA)
		c = ctxA
		e = f.ResetTrace(&c)
		other := monkit.SpanFromCtx(c)
		e(nil)
		check(l.count(0, evStart, other)+l.count(0, evFinish, other) == 0, "observer heard of a span of another trace")
		ea(nil)
		eb(nil)
		check(l.count(0, evFinish, sa) == nA, "root of A finish %d want %d", l.count(0, evFinish, sa), nA)
		check(l.count(0, evFinish, sb) == nB, "root of B finish %d want %d", l.count(0, evFinish, sb), nB)
	})

	// observers need not be comparable
	seq("C04", "uncomparable", func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		defer f.Task(&ctx)(nil)
		tr := monkit.SpanFromCtx(ctx).Trace()
		var got [3]int
		var cs []func()
		on := []bool{}
		for i := 0; i < 3; i++ {
			i := i
			cs = append(cs, tr.ObserveSpans(funcObs{func() { got[i]++ }}))
			on = append(on, true)
		}
		for i := 0; i < 3; i++ {
			k := choose(3)
			cs[k]()
			on[k] = false
			got = [3]int{}
			c := ctx
			f.Task(&c)(nil)
			for j := range got {
				want := 0
				if on[j] {
					want = 2
				}
				check(got[j] == want, "observer %d heard %d events, want %d", j, got[j], want)
			}
		}
	})

	base := func() (*evlog, *monkit.Trace, context.Context, *monkit.Func) {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		_ = f.Task(&ctx)
		return &evlog{}, monkit.SpanFromCtx(ctx).Trace(), ctx, f
	}
	span := func(f *monkit.Func, ctx context.Context) *monkit.Span {
		e := f.Task(&ctx)
		s := monkit.SpanFromCtx(ctx)
		e(nil)
		return s
	}
	exact := func(l *evlog, who int, s *monkit.Span, n int, what string) {
		check(l.count(who, evStart, s) == n && l.count(who, evFinish, s) == n, "%s: observer %d saw start %d and finish %d times, want %d", what, who, l.count(who, evStart, s), l.count(who, evFinish, s), n)
	}
	atMost := func(l *evlog, who int, s *monkit.Span) {
		check(l.count(who, evStart, s) <= 1 && l.count(who, evFinish, s) <= 1, "observer %d saw a span start %d and finish %d times", who, l.count(who, evStart, s), l.count(who, evFinish, s))
	}

	// two cancels among three observers, with a span running through
	for _, pair := range [][2]int{{0, 1}, {1, 2}, {0, 2}} {
		pair := pair
		conc("C04", fmt.Sprintf("cancel-cancel-%d%d", pair[0], pair[1]), Bounds{1, 3}, Bounds{2, 4}, 1, func() {
			l, tr, ctx, f := base()
			var cs [3]func()
			for i := range cs {
				cs[i] = tr.ObserveSpans(&plainObs{i, l})
			}
			keep := 3 - pair[0] - pair[1]
			var s *monkit.Span
			par(cs[pair[0]], cs[pair[1]], func() { s = span(f, ctx) })
			exact(l, keep, s, 1, "registered all the time")
			atMost(l, pair[0], s)
			atMost(l, pair[1], s)
			s2 := span(f, ctx)
			exact(l, keep, s2, 1, "registered all the time")
			exact(l, pair[0], s2, 0, "cancelled")
			exact(l, pair[1], s2, 0, "cancelled")
		})
	}
	// adds and a cancel
	conc("C04", "add-cancel", Bounds{2, 4}, Bounds{3, 6}, 2, func() {
		l, tr, ctx, f := base()
		c0 := tr.ObserveSpans(&plainObs{0, l})
		tr.ObserveSpans(&plainObs{1, l})
		var c2 func()
		par(c0, func() { c2 = tr.ObserveSpans(&plainObs{2, l}) })
		s := span(f, ctx)
		exact(l, 0, s, 0, "cancelled")
		exact(l, 1, s, 1, "kept")
		exact(l, 2, s, 1, "added")
		c2()
		s = span(f, ctx)
		exact(l, 1, s, 1, "kept")
		exact(l, 2, s, 0, "cancelled")
	})
	conc("C04", "add-add", Bounds{2, 4}, Bounds{3, 6}, 2, func() {
		l, tr, ctx, f := base()
		par(func() { tr.ObserveSpans(&plainObs{0, l}) }, func() { tr.ObserveSpansCtx(&ctxObs{id: 1, l: l}) })
		s := span(f, ctx)
		exact(l, 0, s, 1, "added")
		exact(l, 1, s, 1, "added")
	})
	conc("C04", "add-add-cancel", Bounds{1, 3}, Bounds{2, 4}, 1, func() {
		l, tr, ctx, f := base()
		c0 := tr.ObserveSpans(&plainObs{0, l})
		par(func() { tr.ObserveSpans(&plainObs{1, l}) }, func() {
			c := tr.ObserveSpans(&plainObs{2, l})
			c()
		}, c0)
		s := span(f, ctx)
		exact(l, 0, s, 0, "cancelled")
		exact(l, 1, s, 1, "added")
		exact(l, 2, s, 0, "cancelled")
	})
	// whatever context an observer returns is the task's from then on
	seq("C04", "ctx-contents", func() {
		l, tr, ctx, f := base()
		_ = l
		n := 1 + choose(2)
		var gave, got [2]context.Context
		var order []int
		var fin [2]context.Context
		for i := 0; i < n; i++ {
			i := i
			how := choose(6)
			tr.ObserveSpansCtx(ctxFuncs{func(c context.Context, s *monkit.Span) context.Context {
				got[i] = c
				order = append(order, i)
				switch how {
				case 0: // unchanged
				case 1:
					c = context.WithValue(c, ck("a"), i)
				case 2:
					c = monkit.ResetContextSpan(c)
				case 3:
					c = context.WithValue(context.Background(), ck("b"), i)
				case 4:
					c = ctx
				case 5:
					c, _ = context.WithCancel(c)
				}
				gave[i] = c
				return c
			}, func(c context.Context, s *monkit.Span) { fin[i] = c }})
		}
		c := context.WithValue(ctx, ck("own"), 7)
		exit := f.Task(&c)
		check(len(order) == n, "%d starts", len(order))
		check(got[order[0]].Value(ck("own")) == 7, "the first observer got a context without the caller's values")
		check(n == 1 || got[order[1]] == gave[order[0]], "the second observer did not get the context of the first")
		check(c == gave[order[n-1]], "the task goes on with a context that the observer did not return")
		exit(nil)
		for i := 0; i < n; i++ {
			check(fin[i] == gave[order[n-1]], "finish was given another context than the task's")
		}
	})
	// a span next to an add: all or nothing about its own order
	conc("C04", "add-span", Bounds{2, 3}, Bounds{3, 5}, 2, func() {
		l, tr, ctx, f := base()
		tr.ObserveSpans(&plainObs{0, l})
		var s *monkit.Span
		par(func() { tr.ObserveSpans(&plainObs{1, l}) }, func() { s = span(f, ctx) })
		exact(l, 0, s, 1, "registered all the time")
		atMost(l, 1, s)
		check(l.count(1, evStart, s) <= l.count(1, evFinish, s), "an observer that saw the start and stayed did not see the finish")
		exact(l, 1, span(f, ctx), 1, "added")
	})
	conc("C04", "cancel-span", Bounds{2, 3}, Bounds{3, 5}, 2, func() {
		l, tr, ctx, f := base()
		tr.ObserveSpans(&plainObs{0, l})
		c1 := tr.ObserveSpans(&plainObs{1, l})
		tr.ObserveSpans(&plainObs{2, l})
		var s *monkit.Span
		par(c1, func() { s = span(f, ctx) })
		exact(l, 0, s, 1, "registered all the time")
		exact(l, 2, s, 1, "registered all the time")
		atMost(l, 1, s)
		check(l.count(1, evFinish, s) <= l.count(1, evStart, s), "an observer saw the finish but not the start although it was there first")
		exact(l, 1, span(f, ctx), 0, "cancelled")
	})
	// spans in two threads under one observer
	conc("C04", "span-span", Bounds{1, 2}, Bounds{2, 4}, 1, func() {
		l, tr, ctx, f := base()
		tr.ObserveSpans(&plainObs{0, l})
		tr.ObserveSpansCtx(&ctxObs{id: 1, l: l})
		var s [2]*monkit.Span
		par(func() { s[0] = span(f, ctx) }, func() { s[1] = span(f, ctx) })
		for _, x := range s {
			exact(l, 0, x, 1, "registered")
			exact(l, 1, x, 1, "registered")
			check(l.find(0, evStart, x).step < l.find(0, evFinish, x).step, "finish before start")
		}
	})
}

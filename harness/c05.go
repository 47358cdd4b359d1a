package main

import (
	"context"
	"fmt"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

// C05: trace watchers of a registry.

func init() {
	seq("C05", "histories", func() {
		regs := []*monkit.Registry{monkit.NewRegistry(), monkit.NewRegistry()}
		f := []*monkit.Func{regs[0].ScopeNamed("s").FuncNamed("f"), regs[1].ScopeNamed("s").FuncNamed("f")}
		l := &evlog{}
		type w struct {
			cancel  func()
			on      bool
			cancels int
		}
		var ws []*w
		depth := q(5, 7)
		var live context.Context
		for i := 0; i < depth; i++ {
			type op struct{ kind, k int }
			ops := []op{{2, 0}, {2, 1}, {2, 2}, {2, 3}, {2, 4}, {2, 5}, {2, 6}, {2, 7}}
			if len(ws) < 3 {
				ops = append(ops, op{0, 0})
			}
			for k, x := range ws {
				if x.cancels < 2 {
					ops = append(ops, op{1, k})
				}
			}
			o := ops[choose(len(ops))]
			switch o.kind {
			case 0:
				id := len(ws)
				reg := regs[0]
				if id == 1 { // a view of the registry watches the same traces
					reg = reg.WithTransformers()
				}
				ws = append(ws, &w{on: true, cancel: reg.ObserveTraces(func(t *monkit.Trace) {
					l.add(event{who: id, tr: t})
					check(t.Spans() == 0 || live != nil, "watcher told after the first span of the trace")
				})})
			case 1:
				ws[o.k].cancel()
				ws[o.k].on = false
				ws[o.k].cancels++
			case 2:
				before := make([]int, len(ws))
				n0 := l.n
				ctx := context.Background()
				expect := 1
				var exit func(*error)
				switch o.k {
				case 0:
					exit = f[0].Task(&ctx)
				case 1:
					exit = f[0].ResetTrace(&ctx)
				case 2:
					tr := monkit.NewTrace(9)
					switch i % 3 { // already in use for something else
					case 1:
						tr.ObserveSpans(&finObs{})
					case 2:
						tr.Set("k", "v")
					}
					exit = f[0].RemoteTrace(&ctx, 1, tr)
				case 3:
					exit = f[1].Task(&ctx) // another registry
					expect = 0
				case 4: // child: no new trace
					if live == nil {
						exit = f[0].Task(&ctx)
						live = ctx
					} else {
						ctx = live
						exit = f[0].Task(&ctx)
						expect = 0
					}
				case 5: // remote without trace from a plain context
					exit = f[0].RemoteTrace(&ctx, 1, nil)
				case 6:
					exit = f[0].Task(nil)
				case 7: // a new trace within a span, or what stands for one
					if live == nil {
						exit = f[0].ResetTrace(nil)
					} else {
						ctx = live
						if i%2 == 1 {
							ctx = context.WithValue(ctx, ck("k"), 1)
						}
						exit = f[0].ResetTrace(&ctx)
						check(monkit.SpanFromCtx(ctx).Trace() != monkit.SpanFromCtx(live).Trace(), "no new trace")
					}
				}
				var t *monkit.Trace
				if o.k != 6 && ctx != context.Background() {
					t = monkit.SpanFromCtx(ctx).Trace()
				}
				for k, x := range ws {
					for j := n0; j < l.n; j++ {
						if l.ev[j].who == k {
							before[k]++
							check(t == nil || l.ev[j].tr == t, "watcher was told of another trace")
						}
					}
					want := 0
					if x.on {
						want = expect
					}
					check(before[k] == want, "watcher %d was told %d times of a start of kind %d, want %d", k, before[k], o.k, want)
				}
				if ctx != live {
					exit(nil)
				}
			}
		}
	})

	// watchers that come and go, up to four at a time
	seq("C05", "churn", func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		var told, want []int
		var cancels []func()
		var on []int
		for i := q(7, 9); i > 0; i-- {
			k := choose(len(on) + 2)
			switch {
			case k == 0:
			case k <= len(on):
				k--
				cancels[on[k]]()
				on = append(on[:k:k], on[k+1:]...)
			case len(on) < 4:
				id := len(told)
				told, want = append(told, 0), append(want, 0)
				on = append(on, id)
				cancels = append(cancels, r.ObserveTraces(func(*monkit.Trace) { told[id]++ }))
			}
			for _, id := range on {
				want[id]++
			}
			ctx := context.Background()
			f.Task(&ctx)(nil)
			for id := range told {
				check(told[id] == want[id], "watcher %d was told %d times of %d traces", id, told[id], want[id])
			}
		}
		for _, c := range cancels {
			c()
		}
		f.Task(nil)(nil)
		for id := range told {
			check(told[id] == want[id], "watcher %d was told after its end", id)
		}
	})

	conc("C05", "add-start", Bounds{2, 4}, Bounds{3, 6}, 2, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		l := &evlog{}
		r.ObserveTraces(func(t *monkit.Trace) { l.add(event{who: 0, tr: t}) })
		var tr *monkit.Trace
		par(func() { r.ObserveTraces(func(t *monkit.Trace) { l.add(event{who: 1, tr: t}) }) }, func() {
			ctx := context.Background()
			defer f.Task(&ctx)(nil)
			tr = monkit.SpanFromCtx(ctx).Trace()
		})
		check(l.countTr(0, tr) == 1, "a watcher registered all the time was told %d times", l.countTr(0, tr))
		check(l.countTr(1, tr) <= 1, "a watcher was told %d times", l.countTr(1, tr))
		f.Task(nil)(nil)
		check(l.count(0, 0, nil) == 2 && l.count(1, 0, nil) == 1+l.countTr(1, tr), "a later trace was missed or told twice")
	})
	conc("C05", "cancel-start", Bounds{2, 4}, Bounds{3, 6}, 2, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		l := &evlog{}
		c0 := r.ObserveTraces(func(t *monkit.Trace) { l.add(event{who: 0, tr: t}) })
		r.ObserveTraces(func(t *monkit.Trace) { l.add(event{who: 1, tr: t}) })
		par(c0, func() { f.Task(nil)(nil) })
		check(l.count(1, 0, nil) == 1, "a watcher registered all the time was told %d times", l.count(1, 0, nil))
		check(l.count(0, 0, nil) <= 1, "told %d times", l.count(0, 0, nil))
		n := l.count(0, 0, nil)
		f.Task(nil)(nil)
		check(l.count(0, 0, nil) == n, "told after cancel")
		check(l.count(1, 0, nil) == 2, "missed a trace")
	})
	conc("C05", "add-cancel-add", Bounds{1, 3}, Bounds{2, 4}, 1, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		l := &evlog{}
		w := func(id int) func() {
			return r.ObserveTraces(func(t *monkit.Trace) { l.add(event{who: id, tr: t}) })
		}
		c0 := w(0)
		var c1, c2 func()
		par(c0, func() { c1 = w(1) }, func() { c2 = w(2) })
		f.Task(nil)(nil)
		check(l.count(0, 0, nil) == 0 && l.count(1, 0, nil) == 1 && l.count(2, 0, nil) == 1, "told %d %d %d times, want 0 1 1", l.count(0, 0, nil), l.count(1, 0, nil), l.count(2, 0, nil))
		par(c1, c2)
		f.Task(nil)(nil)
		check(l.count(1, 0, nil) == 1 && l.count(2, 0, nil) == 1, "told after cancel")
	})
	conc("C05", "start-start", Bounds{1, 3}, Bounds{2, 5}, 1, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		l := &evlog{}
		r.ObserveTraces(func(t *monkit.Trace) { l.add(event{who: 0, tr: t}) })
		r.ObserveTraces(func(t *monkit.Trace) { l.add(event{who: 1, tr: t}) })
		var tr [2]*monkit.Trace
		work := func(i int) func() {
			return func() {
				ctx := context.Background()
				defer f.ResetTrace(&ctx)(nil)
				tr[i] = monkit.SpanFromCtx(ctx).Trace()
			}
		}
		par(work(0), work(1))
		for i := range tr {
			for w := 0; w < 2; w++ {
				check(l.countTr(w, tr[i]) == 1, "watcher %d was told %d times", w, l.countTr(w, tr[i]))
			}
		}
	})

	// observing all traces: existing and future ones, each once
	seq("C05", "all-traces", func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		l := &evlog{}
		type tr struct {
			ctx  context.Context
			exit func(*error)
			live bool
		}
		var ts []*tr
		on := false
		var cancel func()
		orphanCtx := context.Background()
		pe := f.Task(&orphanCtx)
		depth := q(6, 7)
		dead := false
		parentDone := false
		for i := 0; i < depth; i++ {
			type op struct{ kind, k int }
			var ops []op
			if len(ts) < 2 {
				ops = append(ops, op{0, 0}, op{0, 1}, op{0, 2})
				if !parentDone {
					ops = append(ops, op{0, 3}) // a child that outlives its parent
				}
			}
			for k, t := range ts {
				if t.live {
					ops = append(ops, op{1, k}, op{2, k})
				}
			}
			if !on && !dead {
				ops = append(ops, op{3, 0})
			} else if on {
				ops = append(ops, op{4, 0})
			}
			if len(ops) == 0 {
				break
			}
			o := ops[choose(len(ops))]
			exp := func(s *monkit.Span, kind int, old bool) {
				want := 0
				if on {
					want = 1
				}
				_ = old
				check(l.count(0, kind, s) == want, "observing all traces: event %d seen %d times, want %d (op %d)", kind, l.count(0, kind, s), want, o.kind)
			}
			switch o.kind {
			case 0:
				t := &tr{ctx: context.Background(), live: true}
				switch o.k {
				case 0:
					t.exit = f.Task(&t.ctx)
				case 1:
					t.exit = f.ResetTrace(&t.ctx)
				case 2:
					t.exit = f.RemoteTrace(&t.ctx, 3, monkit.NewTrace(7))
				case 3:
					t.ctx = orphanCtx
					t.exit = f.Task(&t.ctx)
					pe(nil)
					parentDone = true
				}
				exp(monkit.SpanFromCtx(t.ctx), evStart, false)
				ts = append(ts, t)
			case 1: // a child
				c := ts[o.k].ctx
				e := f.Task(&c)
				s := monkit.SpanFromCtx(c)
				exp(s, evStart, true)
				e(nil)
				exp(s, evFinish, true)
			case 2:
				ts[o.k].exit(nil)
				ts[o.k].live = false
				exp(monkit.SpanFromCtx(ts[o.k].ctx), evFinish, true)
			case 3:
				cancel = collect.ObserveAllTraces(r, &plainObs{0, l})
				on = true
			case 4:
				cancel()
				on = false
				dead = true
			}
		}
	})
	conc("C05", "all-traces-cancel", Bounds{1, 3}, Bounds{2, 4}, 1, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		l := &evlog{}
		ctx := context.Background()
		exit := f.Task(&ctx)
		cancel := collect.ObserveAllTraces(r, &plainObs{0, l})
		ctx2 := context.Background()
		var exit2 func(*error)
		par(cancel, func() {
			exit2 = f.Task(&ctx2)
			c := ctx2
			f.Task(&c)(nil)
		})
		n := l.n
		check(n <= 3, "too many events: %d", n)
		c := ctx
		f.Task(&c)(nil)
		exit(nil)
		c = ctx2 // a trace that was announced when the cancellation came
		f.Task(&c)(nil)
		exit2(nil)
		f.Task(nil)(nil)
		check(l.n == n, "observer called after cancel returned")
	})
	conc("C05", "all-traces-start", Bounds{1, 3}, Bounds{2, 4}, 1, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		l := &evlog{}
		ctx := context.Background()
		exit := f.Task(&ctx)
		par(func() { collect.ObserveAllTraces(r, &plainObs{0, l}) }, func() { f.Task(nil)(nil) })
		s := monkit.SpanFromCtx(ctx)
		exit(nil)
		check(l.count(0, evFinish, s) == 1, "the finish of a span running all the time was seen %d times", l.count(0, evFinish, s))
		for i := 0; i < l.n; i++ {
			check(l.count(0, l.ev[i].kind, l.ev[i].sp) == 1, "an event was seen twice")
		}
		ctx = context.Background()
		e := f.Task(&ctx)
		s = monkit.SpanFromCtx(ctx)
		e(nil)
		check(l.count(0, evStart, s) == 1 && l.count(0, evFinish, s) == 1, "a later trace was seen %d/%d times", l.count(0, evStart, s), l.count(0, evFinish, s))
	})
	// the trace both exists and is announced again
	conc("C05", "all-traces-remote", Bounds{1, 3}, Bounds{2, 4}, 1, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		l := &evlog{}
		t := monkit.NewTrace(3)
		ctx := context.Background()
		exit := f.RemoteTrace(&ctx, 1, t)
		par(func() { collect.ObserveAllTraces(r, &plainObs{0, l}) }, func() {
			c := context.Background()
			f.RemoteTrace(&c, 2, t)(nil)
		})
		exit(nil)
		for i := 0; i < l.n; i++ {
			check(l.count(0, l.ev[i].kind, l.ev[i].sp) == 1, "an event was seen %d times", l.count(0, l.ev[i].kind, l.ev[i].sp))
		}
		check(l.count(0, evFinish, monkit.SpanFromCtx(ctx)) == 1, "finish missed")
	})
	_ = fmt.Sprint
	_ = sched.Self
}

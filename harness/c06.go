package main

import (
	"context"
	"fmt"
	"io"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

// C06: collecting spans.

type c6span struct {
	s      *monkit.Span
	ctx    context.Context
	exit   func(*error)
	parent int // index, -1 none
	trace  *monkit.Trace
	live   bool
	err    error
	pan    bool
	fin    time.Time
	seq    int // finish order
	// collected: finished while collection of its trace ran
	collected bool
}

// c6end finishes sp and records what it finished with.
func c6end(sp *c6span, how int) {
	sp.live = false
	sp.fin = sched.Now()
	switch how {
	case 1:
		sp.err = io.EOF
		e := error(io.EOF)
		sp.exit(&e)
	case 2:
		sp.pan = true
		rec, ok := catch(func() {
			defer sp.exit(nil)
			panic("boom")
		})
		check(ok && rec == "boom", "panic swallowed")
	case 3:
		sp.pan, sp.err = true, errPlain
		e := errPlain
		rec, ok := catch(func() {
			defer sp.exit(&e)
			panic("boom")
		})
		check(ok && rec == "boom", "panic swallowed")
	default:
		sp.exit(nil)
	}
}

// c6want is what a collector rooted at root must return: root and the
// collected spans connected to it through collected spans, parents first,
// siblings in the order they finished.
func c6want(all []*c6span, root int) (out []*c6span) {
	var walk func(i int)
	walk = func(i int) {
		out = append(out, all[i])
		for {
			best := -1
			for j, c := range all {
				if c.parent == i && c.collected && j != root && !has(out, c) && (best < 0 || c.seq < all[best].seq) {
					best = j
				}
			}
			if best < 0 {
				return
			}
			walk(best)
		}
	}
	walk(root)
	return out
}

func has(xs []*c6span, x *c6span) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func c6same(got []*collect.FinishedSpan, want []*c6span) {
	check(len(got) == len(want), "%d spans collected, want %d", len(got), len(want))
	pos := map[*monkit.Span]int{}
	for i, g := range got {
		_, dup := pos[g.Span]
		check(!dup, "a span was collected twice")
		pos[g.Span] = i
	}
	for i, w := range want {
		p, ok := pos[w.s]
		check(ok, "a span that finished during collection is missing")
		g := got[p]
		check(g.Err == w.err && g.Panicked == w.pan && g.Finish.Equal(w.fin), "collected span says err=%v panicked=%v finish=%v, want %v %v %v", g.Err, g.Panicked, g.Finish, w.err, w.pan, w.fin)
		if i == 0 {
			check(p == 0, "the root is at position %d", p)
		}
		for _, v := range want {
			if v != w && v.parent >= 0 && want != nil && parentOf(want, v) == w {
				check(pos[v.s] > p, "a child comes before its parent")
			}
		}
	}
}

func parentOf(want []*c6span, v *c6span) *c6span {
	id, ok := v.s.ParentId()
	if !ok {
		return nil
	}
	for _, w := range want {
		if w.s.Id() == id {
			return w
		}
	}
	return nil
}

func closedCh(ch <-chan struct{}) bool {
	select {
	case <-ch:
		return true
	default:
		return false
	}
}

func init() {
	hist := func(force bool) func() {
		return func() {
			r := monkit.NewRegistry()
			sc := r.ScopeNamed("s")
			plain, match := sc.FuncNamed("plain"), sc.FuncNamed("match")
			var c *collect.SpanCollector
			if force {
				c = collect.NewSpanCollector(nil)
			} else {
				c = collect.NewSpanCollector(func(s *monkit.Span) bool { return s.Func() == match })
			}
			collect.ObserveAllTraces(r, c)
			var all []*c6span
			root, stopped, finished, fins := -1, false, false, 0
			depth := q(7, 8)
			if force {
				depth = q(6, 7)
			}
			for i := 0; i < depth; i++ {
				adv(time.Second + 1)
				type op struct{ kind, k, how int }
				var ops []op
				if len(all) < q(4, 5) {
					for k, s := range all {
						if s.live || k == len(all)-1 {
							ops = append(ops, op{0, k, 0}, op{0, k, 1})
							if k == 0 {
								ops = append(ops, op{0, k, 2})
							}
						}
					}
					ops = append(ops, op{0, -1, 0}, op{0, -1, 1})
				}
				for k, s := range all {
					if s.live {
						ops = append(ops, op{1, k, 0}, op{1, k, 1 + k%3})
						if force && root < 0 {
							ops = append(ops, op{3, k, 0})
						}
					}
				}
				if !stopped {
					ops = append(ops, op{2, 0, 0})
				}
				o := ops[choose(len(ops))]
				switch o.kind {
				case 0:
					sp := &c6span{ctx: context.Background(), parent: o.k, live: true}
					f := plain
					if o.how == 1 {
						f = match
					}
					switch {
					case o.k < 0:
						sp.exit = f.Task(&sp.ctx)
					case o.how == 2: // a child by id only
						sp.exit = f.RemoteTrace(&sp.ctx, all[o.k].s.Id(), all[o.k].trace)
					default:
						sp.ctx = all[o.k].ctx
						sp.exit = f.Task(&sp.ctx)
					}
					sp.s = monkit.SpanFromCtx(sp.ctx)
					sp.trace = sp.s.Trace()
					all = append(all, sp)
					if root < 0 && !stopped && f == match && !force {
						root = len(all) - 1
					}
				case 1:
					sp := all[o.k]
					c6end(sp, o.how)
					fins++
					sp.seq = fins
					if root >= 0 && !stopped && sp.trace == all[root].trace {
						sp.collected = true
						if o.k == root {
							stopped, finished = true, true
						}
					}
				case 2:
					c.Stop()
					stopped = true
				case 3:
					c.ForceStart(all[o.k].s)
					if !stopped {
						root = o.k
					}
				}
				check(closedCh(c.Done()) == stopped, "Done is closed: %v, want %v", closedCh(c.Done()), stopped)
				if finished {
					c6same(c.Spans(), c6want(all, root))
				} else {
					check(len(c.Spans()) == 0, "spans returned before the matching span finished")
				}
			}
			if stopped {
				c.Stop()
			}
			note("collected %d", len(c.Spans()))
		}
	}
	seq("C06", "collector-match", hist(false))
	seq("C06", "collector-force", hist(true))

	// collecting around a piece of work
	seq("C06", "collect-spans", func() {
		r := monkit.NewRegistry()
		sc := r.ScopeNamed("s")
		f, g := sc.FuncNamed("f"), sc.FuncNamed("g")
		probe := func(ctx context.Context) int {
			c := ctx
			e := g.Task(&c)
			e(nil)
			a := sched.Step()
			c = ctx
			e = g.Task(&c)
			e(nil)
			return sched.Step() - a
		}
		if choose(2) == 0 {
			// nothing monitored above: the work still runs, once
			n := 0
			ctx := context.WithValue(context.Background(), ck("k"), 1)
			got := collect.CollectSpans(ctx, func(c context.Context) {
				n++
				check(c == ctx, "work got another context")
			})
			check(n == 1 && got == nil, "unmonitored: work ran %d times, %d spans", n, len(got))
			return
		}
		ctx := context.Background()
		exit := f.Task(&ctx)
		outer := monkit.SpanFromCtx(ctx)
		nest := choose(2) == 1
		before := probe(ctx)
		var all []*c6span
		fins := 0
		runs := 0
		var work func(ctx context.Context)
		panics := false
		work = func(ctx context.Context) {
			runs++
			top := monkit.SpanFromCtx(ctx)
			pid, ok := top.ParentId()
			check(top != outer && ok && pid == outer.Id() && top.Trace() == outer.Trace(), "work does not run in a child of the current span")
			check(top.Func().Scope() == sc && top.Func().ShortName() == "f-TRACED", "work runs in span of %s", top.Func().FullName())
			all = append(all, &c6span{s: top, ctx: ctx, parent: -1, trace: outer.Trace(), collected: true})
			for i := 0; i < q(5, 6); i++ {
				adv(time.Second + 1)
				type op struct{ kind, k, how int }
				ops := []op{{9, 0, 0}}
				if len(all) < 4 {
					for k, s := range all {
						if s.live || k == 0 {
							ops = append(ops, op{0, k, 0})
						}
					}
					ops = append(ops, op{0, -1, 0}, op{0, -2, 0}) // sibling of the work; another trace
				}
				for k, s := range all {
					if s.live {
						ops = append(ops, op{1, k, 0}, op{1, k, 1 + k%3})
					}
				}
				o := ops[choose(len(ops))]
				switch o.kind {
				case 0:
					sp := &c6span{parent: o.k, live: true}
					switch o.k {
					case -1:
						sp.ctx = outer
					case -2:
						sp.ctx = context.Background()
					default:
						sp.ctx = all[o.k].ctx
					}
					sp.exit = g.Task(&sp.ctx)
					sp.s = monkit.SpanFromCtx(sp.ctx)
					sp.trace = sp.s.Trace()
					all = append(all, sp)
				case 1:
					c6end(all[o.k], o.how)
					fins++
					all[o.k].seq = fins
					all[o.k].collected = all[o.k].trace == outer.Trace()
				case 9:
					i = 1 << 20
				}
			}
			adv(time.Second + 1)
			all[0].fin = sched.Now()
			if choose(2) == 1 {
				panics = true
				all[0].pan = true
				panic("work failed")
			}
		}
		var got []*collect.FinishedSpan
		call := func() { got = collect.CollectSpans(ctx, work) }
		if nest {
			// within another collection of the same trace
			inner := call
			call = func() {
				var outerGot []*collect.FinishedSpan
				rec, ok := catch(func() {
					outerGot = collect.CollectSpans(ctx, func(context.Context) { inner() })
				})
				if ok {
					panic(rec)
				}
				check(len(outerGot) >= 1 && outerGot[0].Span.Func().ShortName() == "f-TRACED", "outer collection lost")
			}
		}
		rec, panicked := catch(call)
		check(runs == 1, "work ran %d times", runs)
		check(panicked == panics, "panic of work: got %v", rec)
		if panicked {
			check(rec == "work failed", "panic changed to %v", rec)
			check(got == nil, "spans returned from a panic")
		} else {
			c6same(got, c6want(all, 0))
		}
		for _, s := range all[1:] {
			if s.live {
				s.exit(nil)
			}
		}
		after := probe(ctx)
		check(after == before, "a span of the trace takes %d steps after the collection, %d before: something still observes the trace", after, before)
		exit(nil)
		note("%d spans, panic %v", len(got), panicked)
	})
	seq("C06", "sorter", func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		c := collect.NewSpanCollector(nil)
		ctx := context.Background()
		exit := f.Task(&ctx)
		root := monkit.SpanFromCtx(ctx)
		root.Trace().ObserveSpans(c)
		c.ForceStart(root)
		n := 4
		var exits []func(*error)
		for i := 0; i < n; i++ {
			adv(time.Duration(choose(2)) * time.Nanosecond)
			ci := ctx
			exits = append(exits, f.Task(&ci))
		}
		for len(exits) > 0 {
			k := choose(len(exits))
			exits[k](nil)
			exits = append(exits[:k:k], exits[k+1:]...)
		}
		exit(nil)
		got := c.Spans()
		seen := map[*monkit.Span]bool{}
		collect.StartTimeSorter(got).Sort()
		check(len(got) == n+1, "%d spans", len(got))
		for i, g := range got {
			check(!seen[g.Span], "twice")
			seen[g.Span] = true
			check(i == 0 || !g.Span.Start().Before(got[i-1].Span.Start()), "not sorted by start time")
		}
	})

	conc("C06", "finish-finish", Bounds{2, 4}, Bounds{3, 6}, 2, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		c := collect.NewSpanCollector(func(s *monkit.Span) bool { _, ok := s.ParentId(); return !ok })
		collect.ObserveAllTraces(r, c)
		ctx := context.Background()
		exit := f.Task(&ctx)
		c1, c2 := ctx, ctx
		e1 := f.Task(&c1)
		e2 := f.Task(&c2)
		e2(nil)
		par(func() { e1(nil) }, func() { exit(nil) })
		check(closedCh(c.Done()), "not done")
		got := c.Spans()
		note("%d", len(got))
		check(len(got) == 2 || len(got) == 3, "%d spans", len(got))
		check(got[0].Span == monkit.SpanFromCtx(ctx), "the root is not first")
		seen := map[*monkit.Span]bool{}
		for _, g := range got {
			check(!seen[g.Span], "a span is listed twice")
			seen[g.Span] = true
		}
		check(seen[monkit.SpanFromCtx(c2)], "a span that finished before is missing")
		check(len(got) == 2 || seen[monkit.SpanFromCtx(c1)], "wrong span")
	})
	conc("C06", "children", Bounds{1, 3}, Bounds{2, 4}, 1, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		c := collect.NewSpanCollector(nil)
		ctx := context.Background()
		exit := f.Task(&ctx)
		c.ForceStart(monkit.SpanFromCtx(ctx))
		monkit.SpanFromCtx(ctx).Trace().ObserveSpans(c)
		work := func() {
			ci := ctx
			e := f.Task(&ci)
			cj := ci
			f.Task(&cj)(nil)
			e(nil)
		}
		par(work, work)
		exit(nil)
		got := c.Spans()
		seen := map[*monkit.Span]bool{}
		for _, g := range got {
			id, ok := g.Span.ParentId()
			pf := !ok
			for s := range seen {
				pf = pf || s.Id() == id
			}
			check(pf && !seen[g.Span], "order or duplicate")
			seen[g.Span] = true
		}
		check(len(got) == 5, "%d spans, want 5", len(got))
	})
	conc("C06", "stop-finish", Bounds{2, 4}, Bounds{3, 6}, 2, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		c := collect.NewSpanCollector(func(s *monkit.Span) bool { return true })
		collect.ObserveAllTraces(r, c)
		ctx := context.Background()
		exit := f.Task(&ctx)
		par(c.Stop, func() { exit(nil) }, c.Stop)
		check(closedCh(c.Done()), "not done")
		n := len(c.Spans())
		check(n <= 1, "%d spans", n)
		f.Task(nil)(nil)
		check(len(c.Spans()) == n, "collected after stop")
	})
	conc("C06", "match-match", Bounds{2, 3}, Bounds{3, 5}, 2, func() {
		r := monkit.NewRegistry()
		f, g := r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("s").FuncNamed("g")
		c := collect.NewSpanCollector(func(s *monkit.Span) bool { return s.Func() == f })
		collect.ObserveAllTraces(r, c)
		var roots [2]*monkit.Span
		work := func(i int) func() {
			return func() {
				ctx := context.Background()
				e := f.Task(&ctx)
				roots[i] = monkit.SpanFromCtx(ctx)
				g.Task(&ctx)(nil)
				e(nil)
			}
		}
		par(work(0), work(1))
		check(closedCh(c.Done()), "not done")
		got := c.Spans()
		check(len(got) == 2 && (got[0].Span == roots[0] || got[0].Span == roots[1]), "%d spans", len(got))
		id, _ := got[1].Span.ParentId()
		check(id == got[0].Span.Id(), "spans of two traces mixed")
	})
	// ForceStart and a matching start compete; one of them determines all
	conc("C06", "force-match", Bounds{2, 3}, Bounds{3, 5}, 2, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		exit := f.Task(&ctx)
		old := monkit.SpanFromCtx(ctx)
		c := collect.NewSpanCollector(func(s *monkit.Span) bool { return true })
		collect.ObserveAllTraces(r, c)
		var child *monkit.Span
		par(func() { c.ForceStart(old) }, func() {
			cc := ctx
			e := f.Task(&cc)
			child = monkit.SpanFromCtx(cc)
			e(nil)
		})
		exit(nil)
		got := c.Spans()
		check(closedCh(c.Done()) && len(got) >= 1, "not done")
		switch got[0].Span {
		case old:
			check(len(got) <= 2, "%d spans", len(got))
		case child:
			check(len(got) == 1, "%d spans", len(got))
		default:
			fail("foreign root")
		}
	})

	watch := func(settle, cancelToo bool, traces int) func() {
		return func() {
			r := monkit.NewRegistry()
			f, g := r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("s").FuncNamed("g")
			old := context.Background()
			oldExit := g.Task(&old)
			before := c6probe(r, old)
			ctx, cancel := context.WithCancel(context.Background())
			var got []*collect.FinishedSpan
			var err error
			calls := 0
			var kid [2]*monkit.Span
			var top [2]*monkit.Span
			w := sched.Spawn("watch", func() {
				got, err = collect.WatchForSpans(ctx, r, func(s *monkit.Span) bool {
					c6count(&calls)
					return s.Func() == f
				})
			})
			if settle {
				sched.Sequential(sched.Quiesce)
			}
			var ts []*sched.Thread
			for i := 0; i < traces; i++ {
				i := i
				ts = append(ts, sched.Spawn("work", func() {
					c := old
					if i == 1 {
						c = context.Background()
					}
					e := f.Task(&c)
					top[i] = monkit.SpanFromCtx(c)
					ck := c
					ek := g.Task(&ck)
					kid[i] = monkit.SpanFromCtx(ck)
					ek(nil)
					e(nil)
				}))
			}
			if cancelToo {
				cancel()
			}
			sched.Join(ts...)
			if !settle {
				cancel()
			}
			sched.Join(w)
			if err != nil {
				check(err == context.Canceled && got == nil, "cancelled: %d spans and %v", len(got), err)
				check(!settle || cancelToo, "cancelled without cancellation")
				note("cancelled")
			} else {
				ok := false
				for i := 0; i < traces; i++ {
					ok = ok || len(got) > 0 && got[0].Span == top[i] && (len(got) == 2 && got[1].Span == kid[i])
				}
				check(ok, "%d spans collected, want the matching span and its child", len(got))
				note("collected")
			}
			n := calls
			c := old
			f.Task(&c)(nil)
			f.Task(nil)(nil)
			check(calls == n, "the matcher was called after WatchForSpans returned")
			after := c6probe(r, old)
			check(after == before, "spans take %d steps after WatchForSpans, %d before: something still observes them", after, before)
			oldExit(nil)
			cancel()
		}
	}
	conc("C06", "watch", Bounds{1, 2}, Bounds{2, 4}, 1, watch(true, false, 1))
	conc("C06", "watch-race", Bounds{1, 2}, Bounds{2, 3}, 1, watch(false, false, 1))
	conc("C06", "watch-two", Bounds{0, 2}, Bounds{1, 3}, 1, watch(true, false, 2))
	conc("C06", "watch-cancel", Bounds{1, 2}, Bounds{2, 3}, 1, watch(true, true, 1))

	find := func(cancelToo bool) func() {
		return func() {
			r := monkit.NewRegistry()
			f, g := r.ScopeNamed("s").FuncNamed("f"), r.ScopeNamed("s").FuncNamed("g")
			old := context.Background()
			oldExit := g.Task(&old)
			before := c6probe(r, old)
			where := 2 // matches in the old trace, in a new one, in both
			if !cancelToo {
				where = choose(3)
			}
			ctx, cancel := context.WithCancel(context.Background())
			calls, hits := 0, 0
			w := sched.Spawn("find", func() {
				collect.FindSpan(ctx, r, func(s *monkit.Span) bool {
					c6count(&calls)
					if s.Func() == f {
						c6count(&hits)
						return true
					}
					return false
				})
			})
			sched.Sequential(sched.Quiesce)
			check(!w.Done(), "FindSpan returned before a match")
			var ts []*sched.Thread
			for i := 0; i < 2; i++ {
				i := i
				ts = append(ts, sched.Spawn("work", func() {
					c := old
					if i == 1 {
						c = context.Background()
					}
					m := g
					if where == 2 || where == i {
						m = f
					}
					defer m.Task(&c)(nil)
					g.Task(&c)(nil)
				}))
			}
			if cancelToo {
				cancel()
			}
			sched.Join(ts...)
			sched.Join(w) // a missed match would leave FindSpan waiting
			check(cancelToo || hits >= 1, "FindSpan returned without a match")
			n := calls
			c := old
			f.Task(&c)(nil)
			f.Task(nil)(nil)
			check(calls == n, "the matcher was called after FindSpan returned")
			after := c6probe(r, old)
			check(after == before, "spans take %d steps after FindSpan, %d before: something still observes them", after, before)
			oldExit(nil)
			cancel()
		}
	}
	conc("C06", "find", Bounds{0, 2}, Bounds{1, 3}, 1, find(false))
	conc("C06", "find-cancel", Bounds{0, 1}, Bounds{1, 2}, 1, find(true))
	seq("C06", "find-nil", func() {
		collect.FindSpan(context.Background(), monkit.NewRegistry(), nil)
		ctx, cancel := context.WithCancel(context.Background())
		cancel()
		collect.FindSpan(ctx, monkit.NewRegistry(), func(*monkit.Span) bool { return false })
		got, err := collect.WatchForSpans(ctx, monkit.NewRegistry(), func(*monkit.Span) bool { return false })
		check(got == nil && err == context.Canceled, "got %v %v", got, err)
	})
	_ = fmt.Sprint
}

//go:norace
func c6count(p *int) { *p++ }

// c6probe counts the steps that a child of ctx and a new trace take once the
// function has been used before. Leftover observers make them longer.
func c6probe(r *monkit.Registry, ctx context.Context) int {
	h := r.ScopeNamed("s").FuncNamed("probe")
	n := 0
	sched.Sequential(func() {
		for i := 0; i < 2; i++ {
			a := sched.Step()
			c := ctx
			h.Task(&c)(nil)
			h.Task(nil)(nil)
			n = sched.Step() - a
		}
	})
	return n
}

package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

// C02: which spans a registry shows as running.

type mspan struct {
	name     string
	sp       *monkit.Span
	ctx      context.Context
	exit     func(*error)
	parent   *mspan
	live     bool
	orphaned bool
	reg      *monkit.Registry
}

type forest struct {
	spans []*mspan
	r     *monkit.Registry
}

func (fo *forest) finished(m *mspan) {
	m.live = false
	for _, c := range fo.spans {
		if c.parent == m && c.live {
			c.orphaned = true
		}
	}
}

func names(sps []*monkit.Span, fo *forest) string {
	var out []string
	for _, s := range sps {
		n := "?" + fmt.Sprint(s.Id())
		for _, m := range fo.spans {
			if m.sp == s {
				n = m.name
			}
		}
		out = append(out, n)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func want(ms []*mspan) string {
	var out []string
	for _, m := range ms {
		out = append(out, m.name)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// verify checks every view of the running spans in a quiescent state.
func (fo *forest) verify() {
	for _, r := range fo.regs() {
		var roots, all []*monkit.Span
		r.RootSpans(func(s *monkit.Span) { roots = append(roots, s) })
		r.AllSpans(func(s *monkit.Span) { all = append(all, s) })
		var wr, wa []*mspan
		for _, m := range fo.spans {
			if !m.live {
				continue
			}
			if m.reg == r && (m.parent == nil || m.orphaned) {
				wr = append(wr, m)
			}
		}
		var reach func(m *mspan)
		reach = func(m *mspan) {
			wa = append(wa, m)
			for _, c := range fo.spans {
				if c.live && c.parent == m {
					reach(c)
				}
			}
		}
		for _, m := range wr {
			reach(m)
		}
		check(names(roots, fo) == want(wr), "root spans are [%s], want [%s]", names(roots, fo), want(wr))
		check(names(all, fo) == want(wa), "all spans are [%s], want [%s]", names(all, fo), want(wa))
		// reported sorted by function name, then id
		for _, l := range [][]*monkit.Span{roots} {
			for i := 1; i < len(l); i++ {
				a, b := l[i-1], l[i]
				an, bn := a.Func().FullName(), b.Func().FullName()
				check(an < bn || an == bn && a.Id() < b.Id(), "root spans out of order")
			}
		}
	}
	for _, m := range fo.spans {
		check(m.sp.Orphaned() == m.orphaned, "span %s orphaned = %v, want %v", m.name, m.sp.Orphaned(), m.orphaned)
		var kids []*monkit.Span
		m.sp.Children(func(s *monkit.Span) { kids = append(kids, s) })
		var wk []*mspan
		for _, c := range fo.spans {
			if c.live && c.parent == m {
				wk = append(wk, c)
			}
		}
		check(names(kids, fo) == want(wk), "children of %s are [%s], want [%s]", m.name, names(kids, fo), want(wk))
	}
}

func (fo *forest) regs() (out []*monkit.Registry) {
	seen := map[*monkit.Registry]bool{fo.r: true}
	out = append(out, fo.r)
	for _, m := range fo.spans {
		if !seen[m.reg] {
			seen[m.reg] = true
			out = append(out, m.reg)
		}
	}
	return out
}

func (fo *forest) start(name string, f *monkit.Func, parent *mspan) *mspan {
	m := &mspan{name: name, parent: parent, live: true, reg: fo.r}
	ctx := context.Background()
	if parent != nil {
		ctx = parent.ctx
		if !parent.live {
			m.orphaned = true
		}
	}
	m.exit = f.Task(&ctx)
	m.ctx = ctx
	m.sp = monkit.SpanFromCtx(ctx)
	fo.spans = append(fo.spans, m)
	return m
}

func init() {
	// every forest of up to n spans built and torn down in every order,
	// children of running, orphaned and finished spans included
	seq("C02", "histories", func() {
		fo := &forest{r: monkit.NewRegistry()}
		sc := fo.r.ScopeNamed("s")
		fs := []*monkit.Func{sc.FuncNamed("g"), sc.FuncNamed("f")}
		depth := q(7, 8)
		maxSpans := q(4, 5)
		for i := 0; i < depth; i++ {
			type op struct {
				start bool
				kind  int
				on    *mspan
			}
			var ops []op
			if len(fo.spans) < maxSpans {
				for _, m := range fo.spans {
					ops = append(ops, op{true, 0, m})
				}
				if len(fo.spans) < 2 {
					ops = append(ops, op{true, 0, nil}, op{true, 1, nil})
					if len(fo.spans) == 1 {
						ops = append(ops, op{true, 1, fo.spans[0]}, op{true, 2, fo.spans[0]}, op{true, 3, fo.spans[0]})
					}
				}
			}
			for _, m := range fo.spans {
				if m.live {
					ops = append(ops, op{false, 0, m})
				}
			}
			if len(ops) == 0 {
				break
			}
			o := ops[choose(len(ops))]
			if o.start {
				n := fmt.Sprint("s", len(fo.spans))
				f := fs[len(fo.spans)%2]
				switch o.kind {
				case 0:
					fo.start(n, f, o.on)
				case 1, 2, 3: // own trace: a root even below another span
					m := &mspan{name: n, live: true, reg: fo.r}
					ctx := context.Background()
					if o.on != nil && o.kind != 3 {
						ctx = o.on.ctx
					}
					switch o.kind {
					case 1:
						m.exit = f.ResetTrace(&ctx)
					case 2:
						m.exit = f.RemoteTrace(&ctx, 9, monkit.NewTrace(8))
					case 3: // another remote span of a trace in use
						m.exit = f.RemoteTrace(&ctx, 9, o.on.sp.Trace())
					}
					m.ctx, m.sp = ctx, monkit.SpanFromCtx(ctx)
					fo.spans = append(fo.spans, m)
				}
			} else {
				finish(o.on.exit, []outcome{oOK, oPanic}[i%2])
				fo.finished(o.on)
			}
			fo.verify()
		}
		// unwind: nothing may stay behind
		for _, m := range fo.spans {
			if m.live {
				finish(m.exit, oOK)
				fo.finished(m)
			}
		}
		fo.verify()
		n := 0
		fo.r.AllSpans(func(*monkit.Span) { n++ })
		check(n == 0, "%d spans still shown after all finished", n)
	})

	// a span and its parent in different registries
	seq("C02", "two-registries", func() {
		r2 := monkit.NewRegistry()
		fo := &forest{r: monkit.NewRegistry()}
		f1 := fo.r.ScopeNamed("a").FuncNamed("f")
		f2 := r2.ScopeNamed("a").FuncNamed("f")
		p := fo.start("p", f1, nil)
		c := fo.start("c", f2, p)
		c.reg = r2
		g := fo.start("g", pick(f1, f2), c)
		if g.sp.Func() == f2 {
			g.reg = r2
		}
		live := []*mspan{p, c, g}
		for len(live) > 0 {
			k := choose(len(live))
			finish(live[k].exit, oOK)
			fo.finished(live[k])
			live = append(live[:k:k], live[k+1:]...)
			// roots per registry; the walk crosses registries
			for _, r := range []*monkit.Registry{fo.r, r2} {
				var roots []*monkit.Span
				r.RootSpans(func(s *monkit.Span) { roots = append(roots, s) })
				var wr []*mspan
				for _, m := range fo.spans {
					if m.live && m.reg == r && (m.parent == nil || m.orphaned) {
						wr = append(wr, m)
					}
				}
				check(names(roots, fo) == want(wr), "root spans [%s], want [%s]", names(roots, fo), want(wr))
			}
		}
	})

	end := func(fo *forest) {
		fo.verify()
		for _, m := range fo.spans {
			if m.live {
				finish(m.exit, oOK)
				fo.finished(m)
			}
		}
		fo.verify()
		var n int
		fo.r.AllSpans(func(*monkit.Span) { n++ })
		check(n == 0, "%d spans still shown after all finished", n)
	}

	// parent finishes while its child finishes
	conc("C02", "finish-finish", Bounds{2, 4}, Bounds{3, 6}, 2, func() {
		fo := &forest{r: monkit.NewRegistry()}
		f := fo.r.ScopeNamed("s").FuncNamed("f")
		p := fo.start("p", f, nil)
		c := fo.start("c", f, p)
		par(func() { p.exit(nil) }, func() { c.exit(nil) })
		p.live, c.live = false, false
		c.orphaned = c.sp.Orphaned() // either order happened
		note("orphaned=%v", c.orphaned)
		end(fo)
	})
	// parent finishes while a child starts
	conc("C02", "start-finish", Bounds{2, 4}, Bounds{3, 6}, 2, func() {
		fo := &forest{r: monkit.NewRegistry()}
		f := fo.r.ScopeNamed("s").FuncNamed("f")
		p := fo.start("p", f, nil)
		var c *mspan
		par(func() { p.exit(nil) }, func() { c = fo.start("c", f, p) })
		fo.finished(p)
		c.orphaned = true
		end(fo)
	})
	// parent finishes while a child runs from start to finish
	conc("C02", "parent-vs-child-life", Bounds{1, 3}, Bounds{2, 5}, 1, func() {
		fo := &forest{r: monkit.NewRegistry()}
		f := fo.r.ScopeNamed("s").FuncNamed("f")
		p := fo.start("p", f, nil)
		par(func() { p.exit(nil) }, func() {
			ctx := p.ctx
			f.Task(&ctx)(nil)
		})
		fo.finished(p)
		end(fo)
	})
	// grandparent, parent and child finish at the same time
	conc("C02", "three-finish", Bounds{1, 2}, Bounds{2, 3}, 1, func() {
		fo := &forest{r: monkit.NewRegistry()}
		f := fo.r.ScopeNamed("s").FuncNamed("f")
		g := fo.start("g", f, nil)
		p := fo.start("p", f, g)
		c := fo.start("c", f, p)
		par(func() { g.exit(nil) }, func() { p.exit(nil) }, func() { c.exit(nil) })
		for _, m := range fo.spans {
			m.live = false
			m.orphaned = m.sp.Orphaned()
		}
		check(!g.orphaned, "a root cannot be orphaned")
		end(fo)
	})
	// parent and grandparent finish while the child stays: it must be shown
	conc("C02", "chain-finish", Bounds{1, 3}, Bounds{2, 4}, 1, func() {
		fo := &forest{r: monkit.NewRegistry()}
		f := fo.r.ScopeNamed("s").FuncNamed("f")
		g := fo.start("g", f, nil)
		p := fo.start("p", f, g)
		fo.start("c", f, p)
		par(func() { g.exit(nil) }, func() { p.exit(nil) })
		p.orphaned = p.sp.Orphaned()
		g.live = false
		p.live = false
		fo.spans[2].orphaned = true
		end(fo)
	})
	// siblings come and go
	conc("C02", "siblings", Bounds{1, 3}, Bounds{2, 4}, 1, func() {
		fo := &forest{r: monkit.NewRegistry()}
		f := fo.r.ScopeNamed("s").FuncNamed("f")
		p := fo.start("p", f, nil)
		a := fo.start("a", f, p)
		b := fo.start("b", f, p)
		var c *mspan
		par(func() { a.exit(nil) }, func() { c = fo.start("c", f, p) }, func() { b.exit(nil) })
		a.live, b.live = false, false
		_ = c
		end(fo)
	})
	// roots come and go
	conc("C02", "roots", Bounds{1, 3}, Bounds{2, 4}, 1, func() {
		fo := &forest{r: monkit.NewRegistry()}
		f := fo.r.ScopeNamed("s").FuncNamed("f")
		a := fo.start("a", f, nil)
		par(func() { a.exit(nil) }, func() { fo.start("b", f, nil) }, func() { f.Task(nil)(nil) })
		a.live = false
		end(fo)
	})
	// a reader next to spans that come and go
	conc("C02", "reader", Bounds{1, 3}, Bounds{2, 4}, 1, func() {
		fo := &forest{r: monkit.NewRegistry()}
		f := fo.r.ScopeNamed("s").FuncNamed("f")
		stay := fo.start("stay", f, nil)
		old := fo.start("old", f, nil)
		old.exit(nil)
		fo.finished(old)
		p := fo.start("p", f, nil)
		c := fo.start("c", f, p)
		par(func() { p.exit(nil) }, func() { c.exit(nil) }, func() {
			pDone, cDone := !p.live, !c.live
			_ = pDone
			_ = cDone
			seen := map[*monkit.Span]int{}
			fo.r.AllSpans(func(s *monkit.Span) { seen[s]++ })
			check(seen[stay.sp] == 1, "a root span running all the time was shown %d times", seen[stay.sp])
			check(seen[old.sp] == 0, "a finished span is shown")
			roots := map[*monkit.Span]int{}
			fo.r.RootSpans(func(s *monkit.Span) { roots[s]++ })
			check(roots[stay.sp] == 1, "a root span running all the time was listed %d times", roots[stay.sp])
			check(roots[old.sp] == 0, "a finished span is listed")
			for s, n := range roots {
				check(n == 1, "a span was listed %d times", n)
				check(s == stay.sp || s == p.sp || s == c.sp, "an unknown span is listed")
			}
		})
		p.live, c.live = false, false
		c.orphaned = c.sp.Orphaned()
		end(fo)
	})
	_ = sched.Self
}

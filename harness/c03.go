package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/harness/pkgx"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

// C03: trace membership, parents and context propagation.

type ck string

type c3span struct {
	sp      *monkit.Span
	ctx     context.Context
	exit    func(*error)
	trace   *monkit.Trace
	parent  *c3span
	remote  int64
	isRem   bool
	f       *monkit.Func
	live    bool
	started time.Time
	vals    map[ck]string
}

func parentNames(f *monkit.Func) string {
	var out []string
	f.Parents(func(p *monkit.Func) {
		if p == nil {
			out = append(out, "-")
		} else {
			out = append(out, p.ShortName())
		}
	})
	sort.Strings(out)
	return strings.Join(out, " ")
}

func init() {
	// every program of up to n starts, each from every available context and
	// every way to start, with finishes in between
	c3 := func(name string, n int, deep bool) {
		seq("C03", name, func() {
			r := monkit.NewRegistry()
			sc := r.ScopeNamed("s")
			f := []*monkit.Func{sc.FuncNamed("f0"), sc.FuncNamed("f1"), sc.FuncNamed("f2"), sc.FuncNamed("f3")}
			wantParents := map[*monkit.Func]map[string]bool{}
			shared := monkit.NewTrace(4242)
			var all []*c3span
			ids := map[int64]bool{}
			depth := n
			if thorough {
				depth++
			}
			for i := 0; i < depth && i < len(f); i++ {
				// which context
				var base context.Context
				var from *c3span
				vals := map[ck]string{}
				kinds := []int{0}
				if len(all) > 0 {
					kinds = []int{0, 1, 2, 3, 4}
				}
				if i == 0 && !deep {
					kinds = []int{0, 5, 6, 7}
				}
				kind := pick(kinds...)
				useNil, ptrNil := false, false
				if kind >= 1 && kind <= 4 {
					from = all[choose(len(all))]
					base = from.ctx
					for k, v := range from.vals {
						vals[k] = v
					}
				} else {
					base = context.Background()
				}
				switch kind {
				case 2:
					k := ck(fmt.Sprint("k", i))
					base = context.WithValue(base, k, "v")
					vals[k] = "v"
				case 3:
					base = monkit.ResetContextSpan(base)
					from = nil
				case 4:
					base = context.WithValue(monkit.ResetContextSpan(base), ck("r"), "x")
					vals["r"] = "x"
					from = nil
				case 5:
					useNil = true
				case 6:
					ptrNil = true
					base = nil
				case 7:
					base = context.WithValue(base, ck("z"), "1")
					vals["z"] = "1"
				}
				if base != nil {
					cur := monkit.SpanFromCtx(base)
					if from == nil {
						check(cur == nil, "a context without span has span %v", cur)
					} else {
						check(cur == from.sp, "the context carries the wrong span")
					}
				}
				ctx := base
				c := &c3span{f: f[i], live: true, vals: vals}
				how := choose(5)
				p := &ctx
				if useNil {
					p = nil
				}
				adv(time.Second + 1)
				c.started = sched.Now()
				switch how {
				case 0:
					c.exit = f[i].Task(p, i, "arg")
				case 1:
					c.exit = f[i].ResetTrace(p)
				case 2:
					c.remote, c.isRem = int64(1000*i-1000), true
					c.exit = f[i].RemoteTrace(p, c.remote, shared)
				case 3:
					c.remote, c.isRem = int64(-2000*i), true
					c.exit = f[i].RemoteTrace(p, c.remote, nil)
				case 4:
					c.exit = sc.TaskNamed(fmt.Sprint("f", i))(p)
				}
				wp := wantParents[f[i]]
				if wp == nil {
					wp = map[string]bool{}
					wantParents[f[i]] = wp
				}
				par := "-"
				switch how {
				case 0, 4:
					c.parent = from
					if from != nil {
						c.trace = from.trace
						par = from.f.ShortName()
					}
				case 2:
					c.trace = shared
				case 3:
					if from != nil {
						c.trace = from.trace
					}
				}
				wp[par] = true
				if useNil {
					// no context to hand out: the span is findable among the roots
					r.AllSpans(func(s *monkit.Span) {
						if s.Func() == f[i] {
							c.sp = s
						}
					})
					check(c.sp != nil, "a task without context shows no span")
					check(ctx == base, "context changed")
					c.ctx = c.sp
				} else {
					c.ctx = ctx
					c.sp = monkit.SpanFromCtx(ctx)
				}
				_ = ptrNil
				check(c.sp != nil, "no span in the context after starting a task")
				if c.trace == nil {
					c.trace = c.sp.Trace()
					check(c.trace != nil, "no trace")
					for _, o := range all {
						check(o.trace != c.trace && o.trace.Id() != c.trace.Id(), "a new trace was expected")
					}
					check(c.trace != shared, "a new trace was expected")
				}
				check(!ids[c.sp.Id()], "span id %d used twice", c.sp.Id())
				ids[c.sp.Id()] = true
				all = append(all, c)
				// an earlier context keeps its span
				if from != nil {
					check(monkit.SpanFromCtx(base) == from.sp, "the parent's context lost its span")
				}
				// finish some
				if len(all) > 1 && choose(2) == 1 {
					k := choose(len(all))
					if all[k].live {
						finish(all[k].exit, oOK)
						all[k].live = false
					}
				}
				counts := map[*monkit.Trace]int64{}
				for _, o := range all {
					counts[o.trace] += 0
					if o.live {
						counts[o.trace]++
					}
				}
				for t, n := range counts {
					check(t.Spans() == n, "trace has %d spans, want %d", t.Spans(), n)
				}
				for _, o := range all {
					check(o.sp.Trace() == o.trace, "span is in the wrong trace")
					check(o.sp.Func() == o.f, "span has the wrong function")
					check(o.sp.Func().Scope() == sc, "function has the wrong scope")
					pid, ok := o.sp.ParentId()
					switch {
					case o.isRem:
						check(ok && pid == o.remote, "remote parent is %d,%v want %d", pid, ok, o.remote)
					case o.parent != nil:
						check(ok && pid == o.parent.sp.Id(), "parent id is %d,%v want %d", pid, ok, o.parent.sp.Id())
					default:
						check(!ok, "a root span reports parent %d", pid)
					}
					check(o.sp.Start().Equal(o.started), "start is %v want %v", o.sp.Start(), o.started)
					check(o.sp.Duration() == sched.Now().Sub(o.started), "duration is %v want %v", o.sp.Duration(), sched.Now().Sub(o.started))
					check(monkit.SpanFromCtx(o.ctx) == o.sp, "context lost its span")
					check(monkit.SpanFromCtx(context.WithValue(o.ctx, ck("q"), 1)) == o.sp, "derived context lost its span")
					check(monkit.SpanFromCtx(o.sp) == o.sp, "a span used as context lost itself")
					for k, v := range o.vals {
						check(o.ctx.Value(k) == v, "context value %s lost", k)
					}
					check(o.ctx.Value(ck("none")) == nil, "context invents values")
				}
				for _, fn := range f {
					var w []string
					for k := range wantParents[fn] {
						w = append(w, k)
					}
					sort.Strings(w)
					check(parentNames(fn) == strings.Join(w, " "), "parents of %s are [%s], want %v", fn.ShortName(), parentNames(fn), w)
				}
			}
			for _, o := range all {
				if o.live {
					finish(o.exit, oOK)
				}
				check(o.trace.Spans() >= 0, "negative span count")
			}
			for _, o := range all {
				check(o.trace.Spans() == 0, "trace has %d spans after all finished", o.trace.Spans())
			}
		})
	}
	c3("starts", 2, false)
	c3("programs", 3, true)

	// one or two functions calling themselves and each other, their ends and
	// further calls in every order
	seq("C03", "recursion", func() {
		sc := monkit.NewRegistry().ScopeNamed("s")
		f := []*monkit.Func{sc.FuncNamed("f"), sc.FuncNamed("g")}
		type one struct {
			ctx  context.Context
			sp   *monkit.Span
			par  *one
			exit func(*error)
			f    *monkit.Func
		}
		var all []*one
		tr := monkit.NewTrace(77)
		for i := 0; i < q(5, 6); i++ {
			var ends []int
			for k, o := range all {
				if o.exit != nil {
					ends = append(ends, k)
				}
			}
			n := len(all) + 1
			k := choose(n + len(ends))
			if k >= n {
				o := all[ends[k-n]]
				o.exit(nil)
				o.exit = nil
			} else {
				o := &one{f: f[0]}
				if len(all) == 2 {
					o.f = f[1]
				}
				ctx := context.Background()
				if k > 0 {
					o.par = all[k-1]
					ctx = o.par.ctx
					o.exit = o.f.Task(&ctx)
				} else {
					o.exit = o.f.RemoteTrace(&ctx, 5, tr)
				}
				o.ctx, o.sp = ctx, monkit.SpanFromCtx(ctx)
				all = append(all, o)
			}
			for k, o := range all {
				check(monkit.SpanFromCtx(o.ctx) == o.sp && o.sp.Func() == o.f && o.sp.Trace() == tr, "the context of span %d carries another", k)
				for l := 0; l < k; l++ {
					check(all[l].sp != o.sp && all[l].sp.Id() != o.sp.Id(), "spans %d and %d are the same", l, k)
				}
				id, ok := o.sp.ParentId()
				if o.par == nil {
					check(ok && id == 5, "remote parent %d %v", id, ok)
				} else {
					check(ok && id == o.par.sp.Id(), "parent of span %d is %d %v, want %d", k, id, ok, o.par.sp.Id())
				}
			}
		}
	})

	// functions called from several parents, in every order
	seq("C03", "func-parents", func() {
		sc := monkit.NewRegistry().ScopeNamed("s")
		ps := []*monkit.Func{sc.FuncNamed("a"), sc.FuncNamed("b"), sc.FuncNamed("c"), nil}
		f := sc.FuncNamed("f")
		want := map[string]bool{}
		for i := 0; i < 4; i++ {
			p := ps[choose(4)]
			ctx := context.Background()
			var exit func(*error)
			name := "-"
			if p != nil {
				name = p.ShortName()
				exit = p.Task(&ctx)
			}
			f.Task(&ctx)(nil)
			if exit != nil {
				exit(nil)
			}
			want[name] = true
			var w []string
			for k := range want {
				w = append(w, k)
			}
			sort.Strings(w)
			check(parentNames(f) == strings.Join(w, " "), "parents are [%s], want %v", parentNames(f), w)
		}
	})

	// tasks without a context begin unrelated traces
	seq("C03", "no-context", func() {
		r := monkit.NewRegistry()
		sc := r.ScopeNamed("s")
		f := sc.FuncNamed("f")
		lazy, named := sc.Task(), sc.TaskNamed("n")
		var last *monkit.Span
		var exits []func(*error)
		for i := 0; i < q(4, 5); i++ {
			var none context.Context
			var exit func(*error)
			at := map[*monkit.Span]bool{}
			r.RootSpans(func(s *monkit.Span) { at[s] = true })
			switch choose(8) {
			case 0:
				exit = f.Task(nil)
			case 1:
				exit = lazy(nil)
			case 2:
				exit = named(nil)
			case 3:
				exit = sc.Task()(nil)
			case 4:
				exit = f.ResetTrace(nil)
			case 5:
				exit = sc.TaskNamed("m")(nil)
			case 6:
				exit = named(&none)
			case 7:
				exit = lazy(&none)
			}
			var s *monkit.Span
			r.RootSpans(func(x *monkit.Span) {
				if !at[x] {
					check(s == nil, "two new roots")
					s = x
				}
			})
			check(s != nil, "the task without a context is no root")
			if none != nil {
				check(monkit.SpanFromCtx(none) == s, "the context is not of the task")
			}
			_, has := s.ParentId()
			check(!has && parentNames(s.Func()) == "-", "the task has a parent: %v %s", has, parentNames(s.Func()))
			check(last == nil || last.Trace() != s.Trace() && last.Trace().Id() != s.Trace().Id(), "unrelated tasks share a trace")
			last = s
			if choose(2) == 0 {
				exit(nil)
			} else {
				exits = append(exits, exit)
			}
		}
		for _, e := range exits {
			e(nil)
		}
		r.RootSpans(func(x *monkit.Span) { check(false, "%s still runs", x.Func().ShortName()) })
	})
	// deadline, cancellation and values pass through the task's context
	seq("C03", "context", func() {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		base, cancel := context.WithCancel(context.WithValue(context.Background(), ck("a"), "b"))
		dl := time.Now().Add(time.Hour * 1000)
		base, cancel2 := context.WithDeadline(base, dl)
		defer cancel2()
		defer cancel()
		ctx := base
		how := choose(4)
		var exit func(*error)
		switch how {
		case 0:
			exit = f.Task(&ctx)
		case 1:
			exit = f.ResetTrace(&ctx)
		case 2:
			exit = f.RemoteTrace(&ctx, 1, monkit.NewTrace(1))
		case 3:
			ctx = monkit.ResetContextSpan(ctx)
			exit = f.Task(&ctx)
		}
		check(ctx != base, "the context was not replaced")
		check(ctx.Value(ck("a")) == "b", "value lost")
		got, ok := ctx.Deadline()
		check(ok && got.Equal(dl), "deadline lost")
		check(ctx.Err() == nil, "cancelled too early")
		early := choose(2) == 1
		if early {
			exit(nil)
		}
		cancel()
		check(ctx.Err() == context.Canceled, "cancellation lost: %v", ctx.Err())
		select {
		case <-ctx.Done():
		default:
			fail("done channel not closed")
		}
		if !early {
			exit(nil)
		}
	})

	// nested tasks through reset contexts
	seq("C03", "reset-chain", func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		ctx := context.Context(context.WithValue(context.Background(), ck("v"), "w"))
		var cur *monkit.Span
		for i := 0; i < q(6, 8); i++ {
			switch choose(3) {
			case 0:
				prev := cur
				_ = f.Task(&ctx)
				cur = monkit.SpanFromCtx(ctx)
				check(cur != nil && cur != prev, "no new span")
				id, ok := cur.ParentId()
				if prev == nil {
					check(!ok, "unexpected parent %d", id)
				} else {
					check(ok && id == prev.Id(), "wrong parent")
					check(cur.Trace() == prev.Trace(), "wrong trace")
				}
			case 1:
				ctx = monkit.ResetContextSpan(ctx)
				cur = nil
			case 2:
				ctx = context.WithValue(ctx, ck(fmt.Sprint(i)), i)
			}
			check(monkit.SpanFromCtx(ctx) == cur, "wrong span in context")
			check(ctx.Value(ck("v")) == "w", "value lost")
		}
	})

	// argument rendering never depends on other spans and never fails
	seq("C03", "args", func() {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		tm := time.Date(2001, 2, 3, 4, 5, 6, 789, time.UTC)
		vals := []interface{}{1, "a\"b", []byte{1, 255}, nil, []interface{}{"x", 2, []byte{9}, tm}, tm, 2.5, true}
		wants := []string{"1", `"a\"b"`, "[]uint8(0x01ff)", "<nil>", `{"x", 2, []uint8(0x09), time.Time(2001-02-03T04:05:06.000000789Z)}`, "time.Time(2001-02-03T04:05:06.000000789Z)", "2.5", "true"}
		var args []interface{}
		var w []string
		for n := choose(4); n > 0; n-- {
			k := choose(len(vals))
			args = append(args, vals[k])
			w = append(w, wants[k])
		}
		ctx := context.Background()
		exit := f.Task(&ctx, args...)
		got := monkit.SpanFromCtx(ctx).Args()
		check(strings.Join(got, "|") == strings.Join(w, "|") && len(got) == len(w), "args %q want %q", got, w)
		exit(nil)
		got = monkit.SpanFromCtx(ctx).Args()
		check(strings.Join(got, "|") == strings.Join(w, "|"), "args changed after finish")
	})

	// names taken from the calling code
	seq("C03", "names", func() {
		r := monkit.NewRegistry()
		const here = "github.com/spacemonkeygo/monkit/v3/internal/zv/harness/pkgx"
		for i, s := range []*monkit.Scope{(&pkgx.T{R: r}).Scope(), pkgx.Closure(r), pkgx.DefaultScope(), pkgx.Inlinable(r), pkgx.DefaultInlinable()} {
			check(s.Name() == here, "Package() #%d called in %s names the scope %q", i, here, s.Name())
		}
		check(r.ScopeNamed(here) == (&pkgx.T{R: r}).Scope(), "Package and ScopeNamed disagree")
		sc := r.ScopeNamed("x")
		n := pkgx.New(sc)
		c1 := monkit.SpanFromCtx(n.DoWork(context.Background()))
		check(c1.Func().ShortName() == "(*Named).DoWork", "task named %q", c1.Func().ShortName())
		check(c1.Func().FullName() == "x.(*Named).DoWork", "task full name %q", c1.Func().FullName())
		c2 := monkit.SpanFromCtx(pkgx.Plain(n, context.Background()))
		check(c2.Func().ShortName() == "Plain", "task named %q", c2.Func().ShortName())
		c3 := monkit.SpanFromCtx(pkgx.InPlace(sc, context.Background()))
		check(c3.Func().ShortName() == "InPlace", "task named %q", c3.Func().ShortName())
		c4 := monkit.SpanFromCtx(pkgx.InPlace(sc, context.Background()))
		check(c4.Func() == c3.Func(), "the same function got two records")
		check(pkgx.FuncHere(sc).ShortName() == "FuncHere", "Func named %q", pkgx.FuncHere(sc).ShortName())
		// a task's function, before and after its first run
		t := sc.TaskNamed("tn")
		check(t.Func() == sc.FuncNamed("tn"), "TaskNamed's Func is another one")
		check(n.Work.Func() == c1.Func(), "Task.Func is another one than the span's")
		check(monkit.Task(c2.Func().Task).Func() == c2.Func(), "Func.Task's Func is another one")
		check(monkit.Task(c2.Func().ResetTrace).Func() == c2.Func(), "Func.ResetTrace's Func is another one")
		check(c1.Func().Current() == 0 && c1.Func().Success() == 1, "asking for the Func ran the task")
		fresh := sc.Task()
		rec, p := catch(func() { fresh.Func() })
		check(p, "Func of a task never run gave %v", rec)
		check(r.ScopeNamed("x").FuncNamed("Plain") != c2.Func(), "tags ignored in the identity of a function")
		check(r.ScopeNamed("x").FuncNamed("Plain", monkit.NewSeriesTag("k", "v")) == c2.Func(), "tagged function not found again")
	})

	// concurrent children of one parent
	conc("C03", "children", Bounds{1, 2}, Bounds{2, 4}, 1, func() {
		r := monkit.NewRegistry()
		sc := r.ScopeNamed("s")
		f, g := sc.FuncNamed("f"), sc.FuncNamed("g")
		ctx := context.Background()
		exit := f.Task(&ctx)
		p := monkit.SpanFromCtx(ctx)
		res := make([]*monkit.Span, 2)
		work := func(i int) func() {
			return func() {
				c := ctx
				e := g.Task(&c)
				res[i] = monkit.SpanFromCtx(c)
				n := p.Trace().Spans()
				check(n >= 2 && n <= 3, "trace counts %d spans", n)
				e(nil)
			}
		}
		par(work(0), work(1))
		check(res[0].Id() != res[1].Id(), "two spans share id %d", res[0].Id())
		for _, s := range res {
			id, ok := s.ParentId()
			check(ok && id == p.Id() && s.Trace() == p.Trace(), "wrong parent or trace")
		}
		check(p.Trace().Spans() == 1, "trace counts %d spans", p.Trace().Spans())
		exit(nil)
		check(p.Trace().Spans() == 0, "trace counts %d spans", p.Trace().Spans())
		check(parentNames(g) == "f" && parentNames(f) == "-", "parents [%s] [%s]", parentNames(g), parentNames(f))
	})
	// first runs of one scope task in two threads: one function record
	conc("C03", "task-init", Bounds{1, 3}, Bounds{2, 4}, 2, func() {
		r := monkit.NewRegistry()
		n := pkgx.New(r.ScopeNamed("x"))
		res := make([]*monkit.Span, 2)
		work := func(i int) func() {
			return func() { res[i] = monkit.SpanFromCtx(n.DoWork(context.Background())) }
		}
		par(work(0), work(1))
		check(res[0].Func() == res[1].Func() && res[0].Func().ShortName() == "(*Named).DoWork", "functions differ: %s %s", res[0].Func().ShortName(), res[1].Func().ShortName())
		check(res[0].Func().Success() == 2, "successes %d", res[0].Func().Success())
		check(res[0].Trace() != res[1].Trace() && res[0].Trace().Id() != res[1].Trace().Id(), "unrelated tasks share a trace")
	})
	// callers of one function from different parents at the same time
	conc("C03", "parents-conc", Bounds{1, 2}, Bounds{2, 3}, 1, func() {
		sc := monkit.NewRegistry().ScopeNamed("s")
		f := sc.FuncNamed("f")
		work := func(p *monkit.Func) func() {
			return func() {
				ctx := context.Background()
				if p != nil {
					e := p.Task(&ctx)
					defer e(nil)
				}
				f.Task(&ctx)(nil)
			}
		}
		par(work(sc.FuncNamed("a")), work(sc.FuncNamed("b")), work(nil))
		check(parentNames(f) == "- a b", "parents are [%s]", parentNames(f))
	})
}

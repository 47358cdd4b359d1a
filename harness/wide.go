package main

import (
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/environment"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// The same properties where there is much of everything: every size up to a
// bound, so that nothing depends on how many of a thing there are.

// size is a number of things: every one up to 66 (thorough: 200), and those
// around the powers of two above, up to max.
func size(max int) int {
	var l []int
	for n := 0; n <= max; n++ {
		pow := false
		for p := 32; p <= 4096; p *= 2 {
			pow = pow || n >= p-1 && n <= p+1
		}
		if n <= q(66, 200) || pow {
			l = append(l, n)
		}
	}
	return pick(l...)
}

// manyNames are n names that differ in one place only.
func manyNames(n int) (out []string) {
	shape := choose(3)
	for i := 0; i < n; i++ {
		switch shape {
		case 0:
			out = append(out, fmt.Sprint("n", i))
		case 1:
			out = append(out, fmt.Sprint(i, strings.Repeat("x", 60)))
		case 2:
			out = append(out, fmt.Sprint(strings.Repeat("x", 60), i))
		}
	}
	return out
}

func init() {
	seq("C01", "many", func() {
		n := size(q(300, 1100))
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		m := newFmodel()
		switch choose(3) {
		case 0: // different errors
			for i, name := range manyNames(n) {
				for k := 0; k <= i%2; k++ {
					var err error = &namedErr{name}
					m.start()
					ctx := context.Background()
					x := f.Task(&ctx)
					adv(time.Second)
					x(&err)
					m.cur--
					m.errs[name]++
					m.failT = append(m.failT, 1)
				}
			}
			m.verify(&f.FuncStats, "function", "name", "f")
			f.Reset()
			newFmodel().verify(&f.FuncStats, "function", "name", "f")
		case 1: // tasks running at once, ending in or against the order
			exits := make([]func(*error), n)
			rev := choose(2)
			for i := range exits {
				m.start()
				ctx := context.Background()
				exits[i] = f.Task(&ctx)
			}
			m.verify(&f.FuncStats, "function", "name", "f")
			adv(time.Second)
			for i := range exits {
				k := i
				if rev == 1 {
					k = n - 1 - i
				}
				o := outcome(k % int(nOutcomes))
				finish(exits[k], o)
				m.end(o, time.Second)
			}
			m.verify(&f.FuncStats, "function", "name", "f")
		case 2: // tasks running one within the other
			exits := make([]func(*error), n)
			ctx := context.Background()
			for i := range exits {
				m.start()
				exits[i] = f.Task(&ctx)
			}
			m.verify(&f.FuncStats, "function", "name", "f")
			adv(time.Second)
			for i := n - 1; i >= 0; i-- {
				o := outcome(i % int(nOutcomes))
				finish(exits[i], o)
				m.end(o, time.Second)
			}
			m.verify(&f.FuncStats, "function", "name", "f")
		}
	})

	seq("C02", "many", func() {
		n := size(q(520, 1100))
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		fo := &forest{r: r}
		add := func(par *mspan) *mspan {
			m := &mspan{name: fmt.Sprintf("%04d", len(fo.spans)), parent: par, live: true, reg: r, ctx: context.Background()}
			if par != nil {
				m.ctx = par.ctx
			}
			m.exit = f.Task(&m.ctx)
			m.sp = monkit.SpanFromCtx(m.ctx)
			fo.spans = append(fo.spans, m)
			return m
		}
		end := func(m *mspan) { m.exit(nil); fo.finished(m) }
		top := add(nil)
		shape := choose(4)
		last := top
		for i := 0; i < n; i++ {
			switch shape {
			case 0: // roots
				add(nil)
			case 1: // siblings
				add(top)
			case 2: // a chain
				last = add(last)
			case 3: // pairs
				add(add(top))
			}
		}
		fo.verify()
		switch choose(4) {
		case 0: // outermost first
			end(top)
			fo.verify()
			for _, m := range fo.spans[1:] {
				end(m)
			}
		case 1: // innermost first
			for i := len(fo.spans) - 1; i > 0; i-- {
				end(fo.spans[i])
			}
			fo.verify()
			end(top)
		case 2: // every other one
			for i, m := range fo.spans {
				if i%2 == 0 {
					end(m)
				}
			}
			fo.verify()
			for i, m := range fo.spans {
				if i%2 == 1 {
					end(m)
				}
			}
		case 3: // all but the last
			for _, m := range fo.spans[:len(fo.spans)-1] {
				end(m)
			}
			fo.verify()
			end(fo.spans[len(fo.spans)-1])
		}
		fo.verify()
	})

	seq("C03", "many", func() {
		n := size(q(300, 1100))
		r := monkit.NewRegistry()
		sc := r.ScopeNamed("s")
		f := sc.FuncNamed("f")
		ctx := context.Background()
		str := strings.Repeat("ab\n", n)[:n]
		switch choose(6) {
		case 0: // arguments
			var args []interface{}
			var want []string
			for i := 0; i < n; i++ {
				args = append(args, i)
				want = append(want, strconv.Itoa(i))
			}
			defer f.Task(&ctx, args...)(nil)
			got := monkit.SpanFromCtx(ctx).Args()
			check(fmt.Sprint(got) == fmt.Sprint(want) && len(got) == n, "%d arguments read %v", n, got)
		case 1: // long ones
			in := []interface{}{str, []byte(str), []interface{}{str, []byte(str)}}
			h := "[]uint8(0x" + hex.EncodeToString([]byte(str)) + ")"
			want := []string{strconv.Quote(str), h, "{" + strconv.Quote(str) + ", " + h + "}"}
			defer f.Task(&ctx, in...)(nil)
			got := monkit.SpanFromCtx(ctx).Args()
			for i := range want {
				check(len(got) == 3 && got[i] == want[i], "argument %d of size %d reads %q, want %q", i, n, got[i], want[i])
			}
		case 2: // lists
			var l []interface{}
			var want []string
			for i := 0; i < n; i++ {
				l = append(l, i)
				want = append(want, strconv.Itoa(i))
			}
			defer f.Task(&ctx, l)(nil)
			got := monkit.SpanFromCtx(ctx).Args()
			check(len(got) == 1 && got[0] == "{"+strings.Join(want, ", ")+"}", "a list of %d reads %q", n, got)
		case 3: // callers
			for twice := 0; twice < 2; twice++ {
				for i := 0; i < n; i++ {
					c := context.Background()
					x := sc.FuncNamed(fmt.Sprint("p", i)).Task(&c)
					f.Task(&c)(nil)
					x(nil)
				}
			}
			seen := map[string]bool{}
			f.Parents(func(p *monkit.Func) {
				check(p != nil && !seen[p.ShortName()], "a caller was listed twice, or there is none")
				seen[p.ShortName()] = true
			})
			check(len(seen) == n, "%d callers, want %d", len(seen), n)
		case 4: // depth: trace, parents and values come through
			if n > 300 {
				return
			}
			tr := (*monkit.Trace)(nil)
			var last *monkit.Span
			for i := 0; i < n; i++ {
				defer sc.FuncNamed(fmt.Sprint("p", i)).Task(&ctx)(nil)
				s := monkit.SpanFromCtx(ctx)
				if i > 0 {
					check(s.Trace() == tr, "another trace at depth %d", i)
					p, ok := s.ParentId()
					check(ok && p == last.Id(), "another parent at depth %d", i)
				}
				tr, last = s.Trace(), s
				ctx = context.WithValue(ctx, ck(fmt.Sprint(i)), i)
				for _, k := range []int{0, i / 2, i} {
					check(ctx.Value(ck(fmt.Sprint(k))) == k, "value lost at depth %d", i)
				}
			}
			if n > 0 {
				check(tr.Spans() == int64(n), "the trace counts %d spans, want %d", tr.Spans(), n)
			}
		case 5: // names of functions
			for _, name := range manyNames(n) {
				fn := sc.FuncNamed(name)
				check(fn.ShortName() == name && fn.FullName() == "s."+name, "function %q is called %q, %q", name, fn.ShortName(), fn.FullName())
			}
		}
	})

	seq("C04", "many", func() {
		n := size(q(260, 1100))
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		tr := monkit.NewTrace(5)
		starts, ends := make([]int, n), make([]int, n)
		cancels := make([]func(), n)
		mixed := choose(2)
		for i := 0; i < n; i++ {
			i := i
			if i%2 == mixed {
				cancels[i] = tr.ObserveSpansCtx(ctxFuncs{
					func(ctx context.Context, s *monkit.Span) context.Context {
						starts[i]++
						return context.WithValue(ctx, ck(fmt.Sprint("o", i)), s.Id())
					},
					func(ctx context.Context, s *monkit.Span) {
						ends[i]++
						check(ctx.Value(ck(fmt.Sprint("o", i))) == s.Id(), "observer %d of %d does not find its value", i, n)
					}})
			} else {
				cancels[i] = tr.ObserveSpans(countObs{&starts[i], &ends[i]})
			}
		}
		on := make([]bool, n)
		for i := range on {
			on[i] = true
		}
		want := make([]int, n)
		span := func() {
			ctx := context.Background()
			f.RemoteTrace(&ctx, 1, tr)(nil)
			for i := range on {
				if on[i] {
					want[i]++
				}
				check(starts[i] == want[i] && ends[i] == want[i], "observer %d of %d saw %d starts and %d ends, want %d", i, n, starts[i], ends[i], want[i])
			}
		}
		span()
		drop := func(i int) {
			if i >= 0 && i < n {
				cancels[i]()
				on[i] = false
			}
		}
		switch choose(6) {
		case 0:
			drop(0)
		case 1:
			drop(n - 1)
		case 2:
			drop(n / 2)
		case 3:
			for i := 0; i < n; i += 2 {
				drop(i)
			}
		case 4:
			for i := 0; i < n; i++ {
				drop(i)
				if i%8 == 0 {
					span()
				}
			}
		case 5:
			for i := n - 1; i > 0; i-- {
				drop(i)
			}
		}
		span()
		span()
	})

	// every way to start and end a task tells the observers the same
	seq("C04", "kinds", func() {
		r := monkit.NewRegistry()
		sc := r.ScopeNamed("s")
		f := sc.FuncNamed("f")
		l := &evlog{}
		tr := monkit.NewTrace(9)
		base := context.Background()
		if choose(2) == 1 {
			defer f.RemoteTrace(&base, 3, tr)(nil)
		}
		co := &ctxObs{1, l, map[*monkit.Span]context.Context{}}
		when := choose(3) // before the start, before the end, cancelled before the end
		order := choose(3)
		watch := func() func() {
			var cs []func()
			if order != 0 {
				cs = append(cs, tr.ObserveSpans(&plainObs{0, l}))
			}
			if order != 1 && when != 1 {
				cs = append(cs, tr.ObserveSpansCtx(co))
			}
			return func() {
				for _, c := range cs {
					c()
				}
			}
		}
		cancel := func() {}
		if when != 1 {
			cancel = watch()
		}
		ctx := base
		var exit func(*error)
		if inside := monkit.SpanFromCtx(base) != nil; inside {
			switch choose(5) {
			case 0:
				exit = f.Task(&ctx)
			case 1:
				exit = sc.TaskNamed("g")(&ctx, 1)
			case 2:
				exit = f.RemoteTrace(&ctx, 4, tr, 1)
			case 3:
				exit = f.RemoteTrace(&ctx, 0, tr)
			case 4:
				exit = f.RemoteTrace(&ctx, 4, nil)
			}
		} else {
			switch choose(2) {
			case 0:
				exit = f.RemoteTrace(&ctx, 4, tr)
			case 1:
				exit = f.RemoteTrace(&ctx, 0, tr, "x")
			}
		}
		s := monkit.SpanFromCtx(ctx)
		check(s.Trace() == tr, "the span is in another trace")
		adv(time.Second)
		switch when {
		case 1:
			cancel = watch()
		case 2:
			cancel()
		}
		at := sched.Now()
		o := outcome(choose(int(nOutcomes)))
		finish(exit, o)
		for who := 0; who < 2; who++ {
			ws, we := 0, 0
			if who == 0 && order != 0 || who == 1 && order != 1 && when != 1 {
				if when != 1 {
					ws = 1
				}
				if when != 2 {
					we = 1
				}
			}
			check(l.count(who, evStart, s) == ws && l.count(who, evFinish, s) == we, "observer %d saw %d starts and %d ends, want %d and %d", who, l.count(who, evStart, s), l.count(who, evFinish, s), ws, we)
			if e := l.find(who, evFinish, s); e != nil {
				wantErr := map[outcome]bool{oEOF: true, oPlain: true, oNamed: true, oPanicErr: true, oTypedNil: true}[o]
				wantPan := map[outcome]bool{oPanic: true, oPanicErr: true, oPanicNil: true, oPanicIsErr: true, oPanicRun: true}[o]
				check((e.err != nil) == wantErr && e.pan == wantPan && e.at.Equal(at), "observer %d was told err %v panicked %v at %v for outcome %d at %v", who, e.err, e.pan, e.at, o, at)
			}
		}
		cancel()
	})

	seq("C05", "many", func() {
		n := size(q(260, 1100))
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		got, want := make([]int, n), make([]int, n)
		on := make([]bool, n)
		cancels := make([]func(), n)
		var cur *monkit.Trace
		for i := 0; i < n; i++ {
			i := i
			on[i] = true
			cancels[i] = r.ObserveTraces(func(t *monkit.Trace) {
				got[i]++
				check(cur == nil || cur == t, "watchers were told of different traces")
				cur = t
			})
		}
		start := func() {
			cur = nil
			ctx := context.Background()
			x := f.Task(&ctx)
			check(cur == nil || cur == monkit.SpanFromCtx(ctx).Trace(), "told of another trace")
			x(nil)
			for i := range on {
				if on[i] {
					want[i]++
				}
				check(got[i] == want[i], "watcher %d of %d was told %d times, want %d", i, n, got[i], want[i])
			}
		}
		start()
		drop := func(i int) {
			if i >= 0 && i < n {
				cancels[i]()
				on[i] = false
			}
		}
		switch choose(5) {
		case 0:
			drop(0)
		case 1:
			drop(n - 1)
		case 2:
			drop(n / 2)
		case 3:
			for i := 0; i < n; i += 2 {
				drop(i)
			}
		case 4:
			for i := 0; i < n; i++ {
				drop(i)
				if i%8 == 0 {
					start()
				}
			}
		}
		start()
		start()
	})
	// observing all traces when there are many of them
	seq("C05", "many-traces", func() {
		n := size(q(260, 1100))
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		seen := map[*monkit.Span]int{}
		type one struct {
			ctx  context.Context
			exit func(*error)
		}
		var all []one
		begin := func() {
			for i := 0; i < n; i++ {
				c := context.Background()
				x := f.Task(&c)
				all = append(all, one{c, x})
			}
		}
		begin()
		cancel := collect.ObserveAllTraces(r, mapObs{seen})
		begin()
		use := func(want int) {
			for i, o := range all {
				c := o.ctx
				f.Task(&c)(nil)
				check(seen[monkit.SpanFromCtx(c)] == want, "a span of trace %d of %d was seen %d times, want %d", i, len(all), seen[monkit.SpanFromCtx(c)], want)
			}
		}
		use(2)
		cancel()
		use(0)
		for i, o := range all {
			o.exit(nil)
			w := 0
			if i >= n {
				w = 1
			}
			check(seen[monkit.SpanFromCtx(o.ctx)] == w, "span %d seen %d times, want %d", i, seen[monkit.SpanFromCtx(o.ctx)], w)
		}
	})

	seq("C06", "many", func() {
		n := size(q(1100, 4200))
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		exit := f.Task(&ctx)
		shape, how := choose(3), choose(2)
		want := map[*monkit.Span]bool{}
		var order []*monkit.Span
		body := func(ctx context.Context) {
			want[monkit.SpanFromCtx(ctx)] = true
			var exits []func(*error)
			for i := 0; i < n; i++ {
				c := ctx
				x := f.Task(&c)
				s := monkit.SpanFromCtx(c)
				want[s] = true
				adv(time.Second)
				switch shape {
				case 0: // one after the other
					x(nil)
					order = append(order, s)
				case 1: // each within the one before
					ctx = c
					exits = append([]func(*error){x}, exits...)
					order = append(order, s)
				case 2: // at the same time
					exits = append(exits, x)
					order = append(order, s)
				}
			}
			for _, x := range exits {
				x(nil)
			}
		}
		var got []*collect.FinishedSpan
		if how == 0 {
			got = collect.CollectSpans(ctx, body)
		} else {
			c := collect.NewSpanCollector(nil)
			cancel := monkit.SpanFromCtx(ctx).Trace().ObserveSpans(c)
			cc := ctx
			x := f.Task(&cc)
			c.ForceStart(monkit.SpanFromCtx(cc))
			body(cc)
			check(!closedCh(c.Done()) && len(c.Spans()) == 0, "done too early")
			x(nil)
			check(closedCh(c.Done()), "not done")
			cancel()
			got = c.Spans()
		}
		exit(nil)
		check(len(got) == n+1, "%d spans, want %d", len(got), n+1)
		seen := map[*monkit.Span]int{}
		for i, g := range got {
			check(want[g.Span], "span %d was not part of it", i)
			_, dup := seen[g.Span]
			check(!dup, "a span was collected twice")
			seen[g.Span] = i
		}
		if shape == 1 {
			for i := 1; i < len(order); i++ {
				check(seen[order[i-1]] < seen[order[i]], "a child comes before its parent")
			}
		}
		collect.StartTimeSorter(got).Sort()
		for i := 1; i < len(got); i++ {
			check(!got[i].Span.Start().Before(got[i-1].Span.Start()), "not sorted by start")
		}
	})

	seq("C07", "many", func() {
		n := size(q(520, 1100))
		r := monkit.NewRegistry()
		s := r.ScopeNamed("s")
		mk := makers[choose(len(makers))]
		what := choose(4)
		seen := map[any]int{}
		names := manyNames(n)
		get := func(i int) any {
			switch what {
			case 0:
				return mk.get(s, names[i], nil)
			case 1: // the names as values of a tag
				return mk.get(s, "m", []tag{{Key: "k", Val: names[i]}})
			case 2: // growing lists of tags
				var ts []tag
				for k := 0; k <= i; k++ {
					ts = append(ts, tag{Key: names[k], Val: "v"})
				}
				return mk.get(s, "m", ts)
			default: // scopes
				return mk.get(r.ScopeNamed(names[i]), "m", nil)
			}
		}
		if what == 2 && n > 70 {
			return
		}
		for i := 0; i < n; i++ {
			x := get(i)
			o, dup := seen[x]
			check(!dup, "%s %d and %d of %d are one", mk.kind, o, i, n)
			seen[x] = i
		}
		for i := 0; i < n; i++ {
			x := get(i)
			o, ok := seen[x]
			check(ok && o == i, "%s %d of %d is another one the second time", mk.kind, i, n)
		}
	})

	seq("C10", "many", func() {
		n := size(q(70, 260))
		if n == 0 {
			return
		}
		ms := make([]*monkit.Meter, n)
		mods := make([]*mmodel, n)
		s := monkit.NewRegistry().ScopeNamed("s")
		c := &mclock{}
		half := 0
		if choose(2) == 1 {
			half = n / 2 // made a while after the others
		}
		mk := func(i int) {
			ms[i] = s.Meter(fmt.Sprint("m", i))
			mods[i] = newMmodel(sched.Now(), 0)
			c.models = append(c.models, mods[i])
		}
		for i := half; i < n; i++ {
			mk(i)
		}
		settle()
		c.now, c.next = sched.Now(), sched.Now().Add(10*time.Minute)
		for k := 0; k < 3; k++ {
			for i := range ms {
				if ms[i] != nil {
					ms[i].Mark(i + 1)
					mods[i].mark(int64(i + 1))
				}
			}
			c.advance(10 * time.Minute)
			if k == 0 {
				for i := 0; i < half; i++ {
					mk(i)
				}
			}
		}
		for k := 0; k < 23; k++ {
			for i := range ms {
				ms[i].Mark(1)
				mods[i].mark(1)
			}
			c.advance(10 * time.Minute)
		}
		for i := range ms {
			rate, total := mods[i].read(c.now)
			check(ms[i].Total() == total && near(ms[i].Rate(), rate, 1e-9), "meter %d of %d: total %v rate %v, want %v %v", i, n, ms[i].Total(), ms[i].Rate(), total, rate)
		}
	})

	seq("C12", "many", func() {
		n := size(q(300, 1100))
		names := manyNames(n)
		k := monkit.NewSeriesKey("m")
		tags := map[string]string{}
		var list []tag
		how := choose(4)
		odd := choose(2)
		for i := 0; i < n; i++ {
			j := (i*7 + 3) % n // not in order, where 7 does not divide n
			v := fmt.Sprint("v", j)
			if odd == 1 {
				v += "\\ , ="
			}
			if n%7 == 0 {
				j = n - 1 - i
			}
			tags[names[j]] = v
			switch how {
			case 0:
				k = k.WithTag(names[j], v)
			case 1:
				k = k.WithTags(tag{Key: names[j], Val: "old"}, tag{Key: names[j], Val: v})
			default:
				list = append(list, tag{Key: names[j], Val: v})
			}
		}
		switch how {
		case 2:
			k = k.WithTags(list...)
		case 3:
			k.Tags = k.Tags.SetAll(tags)
		}
		before := k
		checkKey(k, "m", tags)
		checkLine(k, "m", tags)
		if n > 0 {
			k2 := k.WithTag(names[n/2], "changed")
			checkKey(before, "m", tags)
			checkLine(before, "m", tags)
			tags[names[n/2]] = "changed"
			checkKey(k2, "m", tags)
			checkLine(k2, "m", tags)
		}
	})

	seq("C13", "many", func() {
		n := size(q(300, 1100))
		switch choose(3) {
		case 0: // transformers, in order
			src := monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
				cb(monkit.NewSeriesKey("m"), "f", 1)
			})
			var ts []monkit.CallbackTransformer
			want := "m"
			for i := n - 1; i >= 0; i-- {
				want += fmt.Sprint(",", i)
			}
			for i := 0; i < n; i++ {
				ts = append(ts, marker(fmt.Sprint(",", i)))
			}
			got := stats(monkit.TransformStatSource(src, ts...))
			check(len(got) == 1 && got[0].Series == key(want), "%d transformers give %v, want %s", n, got, want)
			r := monkit.NewRegistry()
			r.ScopeNamed("s").Counter("m").Inc(1)
			if choose(2) == 0 {
				r = r.WithTransformers(ts...)
			} else {
				for _, t := range ts {
					r = r.WithTransformers(t)
				}
			}
			got = stats(r)
			check(len(got) > 0, "nothing reported")
			for _, g := range got {
				check(g.Series == key(want, "scope", "s"), "%d transformers on a registry give %v, want %s", n, g.Series, want)
			}
		case 1: // series
			names := manyNames(n)
			vals := make([]float64, n)
			src := monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
				for i, name := range names {
					cb(monkit.NewSeriesKey(name), "total", vals[i])
				}
			})
			d := monkit.TransformStatSource(src, monkit.NewDeltaTransformer())
			check(len(stats(d)) == n, "deltas the first time")
			for rep := 1; rep <= 2; rep++ {
				for i := range vals {
					vals[i] += float64(i * rep)
				}
				m := statMap(d)
				check(len(m) == 2*n, "%d statistics, want %d", len(m), 2*n)
				for i, name := range names {
					check(m[key(name)+".delta"] == float64(i*rep) && m[key(name)+".total"] == vals[i], "series %d of %d: total %v delta %v, want %v %v", i, n, m[key(name)+".total"], m[key(name)+".delta"], vals[i], i*rep)
				}
			}
		case 2: // rounds
			v := 0.0
			src := monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
				cb(monkit.NewSeriesKey("m"), "total", v)
			})
			d := monkit.TransformStatSource(src, monkit.NewDeltaTransformer())
			stats(d)
			for i := 1; i <= n; i++ {
				v += float64(i)
				check(statMap(d)[key("m")+".delta"] == float64(i), "delta in round %d: %v", i, statMap(d))
			}
		}
	})

	seq("C14", "many", func() {
		n := size(q(300, 1100))
		r := monkit.NewRegistry()
		want := map[string]float64{}
		switch choose(4) {
		case 0: // scopes
			var names []string
			for i, name := range manyNames(n) {
				r.ScopeNamed(name).Gauge("g", func() float64 { return 4 })
				want[key("g", "scope", name)+".value"] = 4
				names = append(names, name)
				_ = i
			}
			sort.Strings(names)
			check(scopeNames(r) == strings.Join(names, " "), "scopes %q, want %q", scopeNames(r), names)
		case 1: // sources
			for i, name := range manyNames(n) {
				i := i
				r.ScopeNamed("s").Gauge(name, func() float64 { return float64(i) })
				want[key(name, "scope", "s")+".value"] = float64(i)
			}
		case 2: // chains
			var order []int
			for i := 0; i < n; i++ {
				i := i
				r.ScopeNamed("s").Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
					order = append(order, i)
					cb(monkit.NewSeriesKey("c"), fmt.Sprint("f", i), float64(i))
				}))
				want[key("c", "scope", "s")+fmt.Sprint(".f", i)] = float64(i)
			}
			mustSame(statMap(r), want, fmt.Sprint(n, " chains"))
			check(len(order) == n, "%d chains asked, want %d", len(order), n)
		case 3: // functions
			for _, name := range manyNames(n) {
				r.ScopeNamed("s").FuncNamed(name)
			}
			m := map[*monkit.Func]bool{}
			r.Funcs(func(f *monkit.Func) { check(!m[f], "listed twice"); m[f] = true })
			check(len(m) == n, "%d functions listed, want %d", len(m), n)
			m2 := statMap(r)
			for f := range m {
				v, ok := m2[key("function", "name", f.ShortName(), "scope", "s")+".total"]
				check(ok && v == 0, "function %q is not reported", f.ShortName())
			}
			return
		}
		mustSame(statMap(r), want, fmt.Sprint(n, " things"))
	})

	seq("C19", "many", func() {
		n := size(q(260, 520))
		reg := monkit.NewRegistry()
		f := &spanForest{reg: reg}
		switch choose(4) {
		case 0: // live spans side by side
			f.start(-1, "top")
			for i := 0; i < n; i++ {
				f.start(pick2(i%3 == 0, -1, 0), fmt.Sprint("n", i%7))
			}
			adv(time.Second)
			f.checkSpans(true)
		case 1: // and within one another
			for i := 0; i < n; i++ {
				f.start(i-1, fmt.Sprint("n", i))
			}
			adv(time.Second)
			f.checkSpans(true)
		case 2: // annotations and arguments
			var args []any
			for i := 0; i < n; i++ {
				args = append(args, i)
			}
			f.start(-1, "a", args...)
			for i := 0; i < n; i++ {
				f.spans[0].Annotate(fmt.Sprint("k", i), fmt.Sprint("v", i))
			}
			f.checkSpans(true)
		case 3: // functions, callers, errors
			sc := reg.ScopeNamed("s")
			g := sc.FuncNamed("g")
			for i := 0; i < n; i++ {
				c := context.Background()
				x := sc.FuncNamed(fmt.Sprint("p", i)).Task(&c)
				var err error = &namedErr{fmt.Sprint("e", i)}
				y := g.Task(&c)
				adv(time.Second)
				y(&err)
				x(nil)
			}
			checkFuncs(reg, true)
		}
	})
	seq("C19", "many-rows", func() {
		n := size(q(260, 520))
		reg := monkit.NewRegistry()
		tr := monkit.NewTrace(7)
		obs := &finObs{}
		tr.ObserveSpans(obs)
		ctx := context.Background()
		f := reg.ScopeNamed("s").FuncNamed("f")
		root := f.RemoteTrace(&ctx, 0, tr)
		shape := choose(4)
		var exits []func(*error)
		c := ctx
		for i := 0; i < n; i++ {
			adv(time.Second)
			switch shape {
			case 0: // one after the other
				c = ctx
				x := f.Task(&c)
				adv(time.Second)
				x(nil)
			case 1: // all at once, ending in order
				c = ctx
				exits = append(exits, f.Task(&c))
			case 2: // ending against the order
				c = ctx
				exits = append([]func(*error){f.Task(&c)}, exits...)
			case 3: // within one another
				exits = append([]func(*error){f.Task(&c)}, exits...)
			}
		}
		for _, x := range exits {
			adv(time.Second)
			x(nil)
		}
		adv(time.Second)
		root(nil)
		checkSVG(obs.fins)
		var js []jspan
		unjson(render(func(w io.Writer) error { return present.SpansToJSON(w, obs.fins) }), &js)
		check(len(js) == n+1, "%d spans written, want %d", len(js), n+1)
	})

	seq("C22", "many", func() {
		n := size(q(260, 1100))
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		k := pick(0, n/2, n-1, -1)
		var asked []int
		for i := 0; i < n; i++ {
			i := i
			monkit.AddErrorNameHandler(func(error) (string, bool) {
				asked = append(asked, i)
				return "mine", i == k
			})
		}
		err := errors.New("x")
		f.Task(nil)(&err)
		want := "System Error"
		cnt := n
		if k >= 0 && k < n {
			want, cnt = "mine", n-k
		}
		check(f.Errors()[want] == 1 && len(f.Errors()) == 1, "with %d handlers, the one that knows at %d: %v", n, k, f.Errors())
		check(len(asked) == cnt, "%d handlers asked, want %d", len(asked), cnt)
		for i, a := range asked {
			check(a == n-1-i, "handlers asked in the order %v", asked)
		}
	})

	seq("C11", "many", func() {
		n := size(q(300, 1100))
		want := map[string]float64{}
		k := key("m")
		var data any
		if choose(2) == 0 { // fields
			var sf []reflect.StructField
			for i := 0; i < n; i++ {
				sf = append(sf, reflect.StructField{Name: fmt.Sprint("F", i), Type: reflect.TypeOf(0)})
			}
			v := reflect.New(reflect.StructOf(sf)).Elem()
			for i := 0; i < n; i++ {
				v.Field(i).SetInt(int64(i))
				want[k+fmt.Sprint(".F", i)] = float64(i)
			}
			data = v.Interface()
		} else { // depth
			if n > 130 {
				return
			}
			v := reflect.ValueOf(7)
			for i := 0; i < n; i++ {
				if i%3 == 1 {
					p := reflect.New(v.Type())
					p.Elem().Set(v)
					v = p
				}
				w := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "F", Type: v.Type()}})).Elem()
				w.Field(0).Set(v)
				v = w
			}
			if n > 0 {
				want[k+strings.Repeat(".F", n)] = 7
			}
			data = v.Interface()
		}
		mustSame(statMap(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			monkit.StatSourceFromStruct(monkit.NewSeriesKey("m"), data).Stats(cb)
		})), want, "structure")
	})

	seq("C17", "many", func() {
		n := size(q(300, 1100))
		h := http.Header{}
		h.Set("traceparent", "00-1-2-1")
		names := manyNames(n)
		var items, allowed []string
		want := map[string]string{}
		step := pick(1, 2, 3)
		for i, name := range names {
			items = append(items, name+"="+fmt.Sprint("v", i))
			if i%step == 0 {
				allowed = append(allowed, name)
				want[name] = fmt.Sprint("v", i)
			}
		}
		h.Set("baggage", strings.Join(items, ","))
		got := mhttp.TraceInfoFromHeader(h, allowed...)
		w := mhttp.TraceInfo{TraceId: i64(1), ParentId: i64(2), Sampled: true, Baggage: want}
		check(showInfo(got) == showInfo(w), "%d baggage items, %d allowed, received as %s, want %s", n, len(allowed), showInfo(got), showInfo(w))
	})

	seq("C20", "many", func() {
		n := size(q(520, 1100))
		reg := monkit.NewRegistry()
		f, kid := reg.ScopeNamed("s").FuncNamed("target"), reg.ScopeNamed("s").FuncNamed("other")
		p := &pipe{at: -1}
		tq := tqueries[choose(len(tqueries))]
		done := false
		var err error
		q0 := sched.Spawn("query", func() {
			err = tq.run(reg, p)
			p.close()
			done = true
		})
		settle()
		wait, before := choose(2) == 0, choose(2) == 0
		var spans []*monkit.Span
		if wait && before { // for a long time
			elapse(time.Duration(n) * 30 * time.Second)
			check(!done, "the query ended by itself")
		}
		if !wait && before { // while others come and go
			for i := 0; i < n; i++ {
				ctx := context.Background()
				kid.Task(&ctx)(nil)
			}
			settle()
			check(!done, "the query ended by itself")
		}
		ctx := context.Background()
		var x func(*error)
		if tq.kind == "path-id" || tq.kind == "path-both" {
			x = f.RemoteTrace(&ctx, 4, monkit.NewTrace(int64(0xfffffffffffffff9-1<<63-1<<63)))
		} else {
			x = f.Task(&ctx)
		}
		spans = append(spans, monkit.SpanFromCtx(ctx))
		if !before {
			for i := 0; i < n && !wait; i++ {
				c := ctx
				y := kid.Task(&c)
				spans = append(spans, monkit.SpanFromCtx(c))
				y(nil)
			}
			if wait {
				elapse(time.Duration(n) * 30 * time.Second)
			}
			settle()
			check(done == tq.early, "the query ended: %v", done)
		}
		x(nil)
		settle()
		check(done && err == nil, "the query ended: %v, with %v", done, err)
		sched.Join(q0)
		pings := 0
		if wait && (before || !tq.early) {
			pings = n
		}
		lead := pre(tq) + strings.Repeat("\n", pings)
		check(strings.HasPrefix(p.text(), lead), "the answer does not start with %d pings", pings)
		tq.answer(p.text()[len(lead):], spans)
	})

	seq("C23", "many", func() {
		newScript()
		n := size(q(300, 1100))
		n0 := statMap(environment.OS())[key("fds")+".count"]
		var fs []*os.File
		for i := 0; i < n; i++ {
			f, err := os.Open("/dev/null")
			check(err == nil, "%v", err)
			fs = append(fs, f)
		}
		n1 := statMap(environment.OS())[key("fds")+".count"]
		for _, f := range fs {
			f.Close()
		}
		check(n1 == n0+float64(n), "%v open files after opening %d more than %v", n1, n, n0)
	})

	seq("C24", "many", func() {
		n := size(q(300, 1100))
		ctx := context.Background()
		defer monkit.NewRegistry().ScopeNamed("s").FuncNamed("f").Task(&ctx)(nil)
		s := monkit.SpanFromCtx(ctx)
		names := manyNames(n)
		switch choose(3) {
		case 0:
			var olds [][]monkit.Annotation
			for i := 0; i < n; i++ {
				olds = append(olds, s.Annotations())
				s.Annotate(names[i], names[n-1-i])
			}
			a := s.Annotations()
			check(len(a) == n, "%d annotations, want %d", len(a), n)
			for i := range a {
				check(a[i].Name == names[i] && a[i].Value == names[n-1-i], "annotation %d of %d is %v", i, n, a[i])
			}
			for i, o := range olds {
				check(len(o) == i, "an earlier list changed")
			}
		case 1:
			for i, k := range names {
				s.Trace().Set(k, i)
			}
			for i, k := range names {
				check(s.Trace().Get(k) == i, "value %d of %d is %v", i, n, s.Trace().Get(k))
			}
			all := s.Trace().GetAll()
			check(len(all) == n, "%d values, want %d", len(all), n)
			for i, k := range names {
				check(all[k] == i, "value %d of %d listed as %v", i, n, all[k])
			}
		case 2: // the same key over and over
			for i := 0; i < n; i++ {
				s.Trace().Set("k", i)
				s.Annotate("k", fmt.Sprint(i))
				check(s.Trace().Get("k") == i, "value is %v, want %d", s.Trace().Get("k"), i)
			}
			check(len(s.Annotations()) == n, "%d annotations, want %d", len(s.Annotations()), n)
		}
	})
}

func pick2[T any](c bool, a, b T) T {
	if c {
		return a
	}
	return b
}

type countObs struct{ s, f *int }

func (o countObs) Start(*monkit.Span)                          { *o.s++ }
func (o countObs) Finish(*monkit.Span, error, bool, time.Time) { *o.f++ }

type mapObs struct{ m map[*monkit.Span]int }

func (o mapObs) Start(s *monkit.Span)                                { o.m[s]++ }
func (o mapObs) Finish(s *monkit.Span, _ error, _ bool, _ time.Time) { o.m[s]++ }

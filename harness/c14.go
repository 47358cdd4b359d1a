package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

// C14: everything registered is reported, once, with its scope.

func withScope(src monkit.StatSource, scope string, into map[string]float64) {
	src.Stats(func(k monkit.SeriesKey, f string, v float64) {
		tags := map[string]string{}
		for t, x := range k.Tags.All() {
			tags[t] = x
		}
		tags["scope"] = scope
		var l []string
		for t, x := range tags {
			l = append(l, t, x)
		}
		into[key(k.Measurement, l...)+"."+f] = v
	})
}

func statCount(src monkit.StatSource) map[string]int {
	m := map[string]int{}
	for _, s := range stats(src) {
		m[s.Series+"."+s.Field]++
	}
	return m
}

func scopeNames(r *monkit.Registry) string {
	var l []string
	r.Scopes(func(s *monkit.Scope) { l = append(l, s.Name()) })
	return strings.Join(l, " ")
}

func init() {
	body := func(def bool) func() {
		return func() {
			r := monkit.NewRegistry()
			if def {
				r = monkit.Default
			}
			base := statMap(r) // the default registry may not be empty
			baseN := scopeNames(r)
			want := map[string]float64{}
			names := []string{"s1", "a/b.c", ""}
			used := map[string]bool{}
			for _, n := range strings.Split(baseN, " ") {
				if baseN != "" {
					used[n] = true
				}
			}
			var late []func()
			funcs := map[*monkit.Func]bool{}
			r.Funcs(func(f *monkit.Func) { funcs[f] = true })
			gauges := map[string]float64{}
			for i := 0; i < q(3, 4); i++ {
				sn := names[choose(2+i%2)]
				used[sn] = true
				sc := r.ScopeNamed(sn)
				if def && i != 1 {
					sc = monkit.ScopeNamed(sn)
				}
				check(sc.Name() == sn, "scope named %q, want %q", sc.Name(), sn)
				k := choose(len(makers) + 6)
				n := fmt.Sprint("n", i)
				tags := c7tags[i%2]
				if k < len(makers) {
					x := makers[k].get(sc, n, tags)
					if i != 1 {
						makers[k].use(x)
					}
					if f, ok := x.(*monkit.Func); ok {
						funcs[f] = true
					}
					late = append(late, func() { withScope(x.(monkit.StatSource), sn, want) })
					continue
				}
				switch k - len(makers) {
				case 0:
					v := float64(i + 1)
					g := pick("g1", "g2")
					sc.Gauge(g, func() float64 { return v })
					gauges[sn+"\x00"+g] = v
				case 1:
					src := monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
						cb(monkit.NewSeriesKey("chain").WithTag("n", n).WithTag("scope", "mine"), "f", 3)
						cb(monkit.NewSeriesKey("chain").WithTag("n", n), "g", 4)
						cb(monkit.NewSeriesKey("chain").WithTag("n", n), "g h,i=j", 5)
					})
					sc.Chain(src)
					late = append(late, func() { withScope(src, sn, want) })
				case 2: // chain of a whole scope of another registry
					o := monkit.NewRegistry()
					o.ScopeNamed("inner").Counter(n).Inc(int64(i))
					sc.Chain(o)
					late = append(late, func() { withScope(o, sn, want) })
				case 5: // chain of a scope
					o := monkit.NewRegistry().ScopeNamed("inner2")
					o.Counter(n).Inc(int64(i))
					sc.Chain(o)
					late = append(late, func() { withScope(o, sn, want) })
				case 3:
					sc.Event(n, tags...)
					late = append(late, func() { withScope(sc.Meter(n, tags...), sn, want) })
				case 4:
					a, b := monkit.NewMeter(monkit.NewSeriesKey("x")), monkit.NewMeter(monkit.NewSeriesKey("y"))
					a.Mark(5)
					b.Mark(3)
					sc.DiffMeter(n, a, b, tags...)
					late = append(late, func() { withScope(monkit.NewDiffMeter(monkit.NewSeriesKey(n).WithTags(tags...), a, b), sn, want) })
				}
			}
			for _, f := range late {
				f()
			}
			for k, v := range gauges {
				p := strings.SplitN(k, "\x00", 2)
				want[key(p[1], "scope", p[0])+".value"] = v
			}
			for k, v := range base {
				want[k] = v
			}
			mustSame(statMap(r), want, "registry")
			if def {
				mustSame(statMap(monkit.StatSourceFunc(monkit.Stats)), want, "default registry")
			}
			col := monkit.Collect(r)
			check(len(col) == len(want), "collected %d statistics, want %d", len(col), len(want))
			r.Stats(func(k monkit.SeriesKey, f string, v float64) {
				x, ok := col[k.WithField(f)]
				check(ok && near(x, v, 1e-9), "collected %s = %v (%v), want %v", k.WithField(f), x, ok, v)
			})
			// scopes: each once, by name
			var wn []string
			for n := range used {
				wn = append(wn, n)
			}
			sort.Strings(wn)
			check(scopeNames(r) == strings.Join(wn, " "), "scopes %q, want %q", scopeNames(r), strings.Join(wn, " "))
			// per scope
			part := map[string]float64{}
			r.Scopes(func(s *monkit.Scope) {
				for k, v := range statMap(s) {
					_, dup := part[k]
					check(!dup, "%s reported by two scopes", k)
					part[k] = v
				}
			})
			mustSame(part, want, "scopes together")
			nf := map[*monkit.Func]int{}
			list := r.Funcs
			if def {
				list = monkit.Funcs
			}
			list(func(f *monkit.Func) { nf[f]++ })
			check(len(nf) == len(funcs), "%d functions listed, want %d", len(nf), len(funcs))
			for f, n := range nf {
				check(n == 1 && funcs[f], "function %s listed %d times", f.FullName(), n)
			}
			if def {
				var l []string
				monkit.Scopes(func(s *monkit.Scope) { l = append(l, s.Name()) })
				check(strings.Join(l, " ") == strings.Join(wn, " "), "monkit.Scopes %q", l)
			}
		}
	}
	seq("C14", "registry", body(false))
	seq("C14", "default", body(true))
	// the package's own list of running spans
	seq("C14", "default-spans", func() {
		f := monkit.ScopeNamed("s").FuncNamed("f")
		g := monkit.NewRegistry().ScopeNamed("s").FuncNamed("other")
		type run struct {
			exit func(*error)
			s    *monkit.Span
		}
		var roots []run
		for i := 0; i < q(4, 5); i++ {
			switch k := choose(3 + len(roots)); k {
			case 0, 1:
				ctx := context.Background()
				x := f.Task(&ctx)
				roots = append(roots, run{x, monkit.SpanFromCtx(ctx)})
				if k == 1 {
					f.Task(&ctx)
				}
			case 2: // of another registry
				ctx := context.Background()
				g.Task(&ctx)
			default:
				roots[k-3].exit(nil)
				roots = append(roots[:k-3:k-3], roots[k-2:]...)
			}
			n := map[*monkit.Span]int{}
			monkit.RootSpans(func(s *monkit.Span) { n[s]++ })
			for _, r := range roots {
				check(n[r.s] == 1, "a running span of the default registry is listed %d times", n[r.s])
				delete(n, r.s)
			}
			for s := range n {
				_, child := s.ParentId()
				check(child && n[s] == 1 && s.Func() == f, "a span that is no root of the default registry is listed")
			}
		}
	})

	// the same source chained twice is there twice; chains of two scopes
	seq("C14", "chains", func() {
		r := monkit.NewRegistry()
		c := monkit.NewCounter(monkit.NewSeriesKey("c"))
		c.Inc(1)
		want := map[string]int{}
		for i := 0; i < 4; i++ {
			n := pick("s", "t")
			r.ScopeNamed(n).Chain(c)
			for _, f := range []string{"value", "high", "low"} {
				want[key("c", "scope", n)+"."+f]++
			}
			got := statCount(r)
			check(fmt.Sprint(got) == fmt.Sprint(want), "reported %v, want %v", got, want)
		}
	})

	// creation next to reporting
	conc("C14", "create-report", Bounds{1, 3}, Bounds{2, 5}, 2, func() {
		r := monkit.NewRegistry()
		s := r.ScopeNamed("s")
		s.Counter("old").Inc(1)
		g := 0.0
		s.Gauge("g", func() float64 { return 5 })
		_ = g
		s.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(monkit.NewSeriesKey("ch"), "f", 1) }))
		par(func() {
			s.Counter("new").Inc(1)
			s.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(monkit.NewSeriesKey("ch2"), "f", 1) }))
		}, func() {
			r.ScopeNamed("t").FuncNamed("f").Observe()
		}, func() {
			got := statCount(r)
			check(got[key("old", "scope", "s")+".value"] == 1, "a counter that was there before is reported %d times", got[key("old", "scope", "s")+".value"])
			check(got[key("g", "scope", "s")+".value"] == 1, "a gauge that was there before is reported %d times", got[key("g", "scope", "s")+".value"])
			check(got[key("ch", "scope", "s")+".f"] == 1, "a chain that was there before is reported %d times", got[key("ch", "scope", "s")+".f"])
			for k, n := range got {
				check(n == 1, "%s reported %d times", k, n)
			}
		})
		got := statCount(r)
		for _, k := range []string{key("old", "scope", "s") + ".value", key("new", "scope", "s") + ".value", key("ch", "scope", "s") + ".f", key("ch2", "scope", "s") + ".f", key("function", "scope", "t", "name", "f") + ".current"} {
			check(got[k] == 1, "%s reported %d times in the end", k, got[k])
		}
	})
	conc("C14", "chain-chain", Bounds{2, 6}, Bounds{3, 9}, 2, func() {
		r := monkit.NewRegistry()
		s := r.ScopeNamed("s")
		mk := func(n string) monkit.StatSource {
			return monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) { cb(monkit.NewSeriesKey(n), "f", 1) })
		}
		n0 := choose(3)
		for i := 0; i < n0; i++ {
			s.Chain(mk(fmt.Sprint("o", i)))
		}
		par(func() { s.Chain(mk("a")) }, func() { s.Chain(mk("b")) }, func() {
			got := statCount(s)
			check(len(got) >= n0, "%v", got)
		})
		got := statCount(s)
		check(len(got) == n0+2 && got[key("a", "scope", "s")+".f"] == 1 && got[key("b", "scope", "s")+".f"] == 1, "reported %v", got)
	})
	conc("C14", "list", Bounds{1, 3}, Bounds{2, 5}, 2, func() {
		r := monkit.NewRegistry()
		f := r.ScopeNamed("s").FuncNamed("f")
		par(func() { r.ScopeNamed("s").FuncNamed("g") }, func() { r.ScopeNamed("t") }, func() {
			n := map[*monkit.Func]int{}
			r.Funcs(func(f *monkit.Func) { n[f]++ })
			check(n[f] == 1, "a function was listed %d times", n[f])
			seen := map[string]int{}
			r.Scopes(func(s *monkit.Scope) { seen[s.Name()]++ })
			check(seen["s"] == 1 && seen["t"] <= 1, "scopes listed %v", seen)
		})
		check(scopeNames(r) == "s t", "scopes %q", scopeNames(r))
		n := 0
		r.Funcs(func(*monkit.Func) { n++ })
		check(n == 2, "%d functions listed", n)
	})
	_ = sched.Self
}

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/spacemonkeygo/monkit/v3"
)

// C13: transformers.

type scb = func(monkit.SeriesKey, string, float64)

// marker appends its letter to the measurement.
func marker(l string) monkit.CallbackTransformer {
	return monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
		return func(k monkit.SeriesKey, f string, v float64) {
			k.Measurement += l
			cb(k, f, v)
		}
	})
}

// doubler reports everything once more under another field.
func doubler(l string) monkit.CallbackTransformer {
	return monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
		return func(k monkit.SeriesKey, f string, v float64) {
			cb(k, f, v)
			cb(k, f+l, v*10)
		}
	})
}

// dropper leaves out everything that was marked by l.
func dropper(l string) monkit.CallbackTransformer {
	return monkit.CallbackTransformerFunc(func(cb func(monkit.SeriesKey, string, float64)) func(monkit.SeriesKey, string, float64) {
		return func(k monkit.SeriesKey, f string, v float64) {
			if !strings.Contains(k.Measurement+f, l) {
				cb(k, f, v)
			}
		}
	})
}

type c13t struct {
	t     monkit.CallbackTransformer
	apply func([]stat) []stat
}

var c13ts = []c13t{
	{marker("x"), func(in []stat) (out []stat) {
		for _, s := range in {
			out = append(out, stat{s.Series + "x", s.Field, s.Val})
		}
		return
	}},
	{marker("y"), func(in []stat) (out []stat) {
		for _, s := range in {
			out = append(out, stat{s.Series + "y", s.Field, s.Val})
		}
		return
	}},
	{doubler("z"), func(in []stat) (out []stat) {
		for _, s := range in {
			out = append(out, s, stat{s.Series, s.Field + "z", s.Val * 10})
		}
		return
	}},
	{dropper("x"), func(in []stat) (out []stat) {
		for _, s := range in {
			if !strings.Contains(s.Series+s.Field, "x") {
				out = append(out, s)
			}
		}
		return
	}},
	{dropper("z"), func(in []stat) (out []stat) {
		for _, s := range in {
			if !strings.Contains(s.Series+s.Field, "z") {
				out = append(out, s)
			}
		}
		return
	}},
}

func plainStats(src monkit.StatSource) (out []stat) {
	src.Stats(func(key monkit.SeriesKey, field string, val float64) {
		out = append(out, stat{key.Measurement, field, val})
	})
	return out
}

func statSet(ss []stat) string {
	var l []string
	for _, s := range ss {
		l = append(l, fmt.Sprintf("%s.%s=%v", s.Series, s.Field, s.Val))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// expect: the transformer given last sees the data first.
func expect(ts []int, in []stat) []stat {
	for i := len(ts) - 1; i >= 0; i-- {
		in = c13ts[ts[i]].apply(in)
	}
	return in
}

func init() {
	seq("C13", "delta", func() {
		dt := monkit.NewDeltaTransformer()
		type in struct {
			m, t, f string
			v       float64
		}
		var round []in
		src := monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			for _, i := range round {
				k := monkit.NewSeriesKey(i.m)
				if i.t != "" {
					k = k.WithTag("t", i.t)
				}
				cb(k, i.f, i.v)
			}
		})
		wrapped := monkit.TransformStatSource(src, dt)
		again := monkit.TransformStatSource(src, dt) // same state
		other := monkit.TransformStatSource(src, monkit.NewDeltaTransformer())
		series := []in{{"m", "", "total", 0}, {"m", "a", "total", 0}, {"m,t=a", "", "total", 0}, {"m", "", "totals", 0}}
		last, lastO := map[string]float64{}, map[string]float64{}
		vals := []float64{0.1, 1e17, -3}
		if thorough {
			vals = append(vals, 0, math.Inf(1))
		}
		rounds := 4
		for r := 0; r < rounds; r++ {
			round = nil
			for j := 0; j < 2; j++ {
				if k := choose(len(series) + 1); k > 0 {
					x := series[k-1]
					x.v = pick(vals...)
					if len(round) > 0 && round[0].m == x.m && round[0].t == x.t && round[0].f == x.f {
						continue
					}
					round = append(round, x)
				}
				if r > 0 && j == 0 {
					break
				}
			}
			expectRound := func(last map[string]float64) map[string]float64 {
				w := map[string]float64{}
				for _, i := range round {
					k := key(i.m)
					if i.t != "" {
						k = key(i.m, "t", i.t)
					}
					w[k+"."+i.f] = i.v
					if i.f == "total" {
						if l, ok := last[k]; ok {
							w[k+".delta"] = i.v - l
						}
						last[k] = i.v
					}
				}
				return w
			}
			w := wrapped
			if r == 1 {
				w = again
			}
			want := expectRound(last)
			mustSame(statMap(w), want, fmt.Sprint("delta, round ", r, round))
			if r > 0 {
				mustSame(statMap(other), expectRound(lastO), fmt.Sprint("independent delta, round ", r))
			}
		}
	})
	// any two series have deltas of their own
	seq("C13", "delta-pairs", func() {
		var ks []monkit.SeriesKey
		for _, m := range []string{"a", "ab=c", "ab", "a,b=c", "a,b", "a b", ""} {
			k := monkit.NewSeriesKey(m)
			ks = append(ks, k, k.WithTag("b", "c"), k.WithTag("", ""), k.WithTag("b", "c,d=e"), k.WithTags(monkit.NewSeriesTag("b", "c"), monkit.NewSeriesTag("d", "e")), k.WithTag("b", "c total"))
		}
		i, j := choose(len(ks)), choose(len(ks))
		if i == j {
			return
		}
		v := []float64{5, 7}
		w := monkit.TransformStatSource(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			cb(ks[i], "total", v[0])
			cb(ks[j], "total", v[1])
		}), monkit.NewDeltaTransformer())
		for r := 0; r < 3; r++ {
			var got []float64
			w.Stats(func(k monkit.SeriesKey, f string, x float64) { got = append(got, x) })
			want := []float64{v[0], v[1]}
			if r > 0 {
				want = []float64{v[0], float64(r), v[1], float64(3 * r)}
			}
			check(fmt.Sprint(got) == fmt.Sprint(want), "series %q and %q, round %d: %v, want %v", ks[i].WithField("total"), ks[j].WithField("total"), r, got, want)
			v[0] += float64(r + 1)
			v[1] += 3 * float64(r+1)
		}
	})
	seq("C13", "order", func() {
		src := monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
			cb(monkit.NewSeriesKey("m"), "f", 1)
			cb(monkit.NewSeriesKey("n"), "g", 2)
		})
		in := []stat{{"m", "f", 1}, {"n", "g", 2}}
		var ts []int
		var cts []monkit.CallbackTransformer
		for i := choose(5); i > 0; i-- {
			k := choose(len(c13ts))
			ts = append(ts, k)
			cts = append(cts, c13ts[k].t)
		}
		w := monkit.TransformStatSource(src, cts...)
		for i := 0; i < 2; i++ {
			check(statSet(plainStats(w)) == statSet(expect(ts, in)), "transformers %v give %s, want %s", ts, statSet(plainStats(w)), statSet(expect(ts, in)))
		}
		check(statSet(plainStats(src)) == statSet(in), "the source itself changed")
		// nested
		if len(cts) > 1 {
			n := monkit.TransformStatSource(monkit.TransformStatSource(src, cts[1:]...), cts[0])
			check(statSet(plainStats(n)) == statSet(expect(ts[:1], expect(ts[1:], in))), "nested transformers give %s", statSet(plainStats(n)))
		}
	})
	// registries derived from one another do not influence each other
	seq("C13", "registries", func() {
		base := monkit.NewRegistry()
		base.ScopeNamed("s").Counter("c").Inc(7)
		in := plainStats(base)
		type reg struct {
			r  *monkit.Registry
			ts []int
		}
		all := []reg{{base, nil}}
		for i := 0; i < q(4, 5); i++ {
			src := all[choose(len(all))]
			var cts []monkit.CallbackTransformer
			ts := append([]int(nil), src.ts...)
			n := 1
			if i == 0 {
				n = choose(4)
			} else if i == 1 {
				n = 1 + choose(2)
			}
			for ; n > 0; n-- {
				k := choose(3)
				ts = append(ts, k)
				cts = append(cts, c13ts[k].t)
			}
			all = append(all, reg{src.r.WithTransformers(cts...), ts})
			for j := range cts { // the caller's slice is the caller's
				cts[j] = c13ts[4].t
			}
		}
		for i, x := range all {
			check(statSet(plainStats(x.r)) == statSet(expect(x.ts, in)), "registry %d with %v gives %s, want %s", i, x.ts, statSet(plainStats(x.r)), statSet(expect(x.ts, in)))
		}
		// they are views of one registry
		last := all[len(all)-1].r
		check(last.ScopeNamed("s") == base.ScopeNamed("s"), "a derived registry has scopes of its own")
		check(last.ScopeNamed("new") == base.ScopeNamed("new"), "a scope created through a derived registry is not shared")
		exit := last.ScopeNamed("new").FuncNamed("f").Task(nil)
		for _, x := range all {
			n := 0
			x.r.RootSpans(func(*monkit.Span) { n++ })
			check(n == 1, "%d running spans shown by a derived registry", n)
			n = 0
			x.r.Funcs(func(*monkit.Func) { n++ })
			check(n == 1, "%d functions shown by a derived registry", n)
		}
		exit(nil)
		for _, x := range all {
			n := 0
			x.r.RootSpans(func(*monkit.Span) { n++ })
			check(n == 0, "%d running spans shown by a derived registry", n)
		}
		var heard int
		cancel := last.ObserveTraces(func(*monkit.Trace) { heard++ })
		base.ScopeNamed("s").FuncNamed("g").Task(nil)(nil)
		check(heard == 1, "a watcher of a derived registry heard %d traces", heard)
		cancel()
		base.ScopeNamed("s").FuncNamed("g").Task(nil)(nil)
		check(heard == 1, "a cancelled watcher heard of a trace")
	})
	// concurrent readers of one delta transformer: some order explains all deltas
	deltas := func(name string, bq, bt Bounds, race int, threads [][]float64) {
		conc("C13", name, bq, bt, race, func() {
			dt := monkit.NewDeltaTransformer()
			type st struct {
				any  bool
				last float64
			}
			h := &history{}
			var ops []*lop
			var fns []func()
			for i, vs := range threads {
				vs := vs
				slots := make([]*lop, len(vs))
				for j := range vs {
					slots[j] = &lop{}
				}
				ops = append(ops, slots...)
				_ = i
				fns = append(fns, func() {
					for j, v := range vs {
						v := v
						h.do(slots[j], fmt.Sprint("total ", v), func() func(any) (any, bool) {
							var tot, del float64
							nt, nd := 0, 0
							dt.Transform(func(_ monkit.SeriesKey, f string, x float64) {
								if f == "total" {
									tot = x
									nt++
								} else {
									del = x
									nd++
								}
							})(monkit.NewSeriesKey("m"), "total", v)
							check(nt == 1 && tot == v && nd <= 1, "total %v passed on %d times as %v, %d deltas", v, nt, tot, nd)
							return func(s any) (any, bool) {
								x := s.(st)
								if !x.any {
									return st{true, v}, nd == 0
								}
								return st{true, v}, nd == 1 && del == v-x.last
							}
						})
					}
				})
			}
			par(fns...)
			check(linearizable(ops, st{}, nil), "no order of these explains the deltas: %s", opNames(ops))
		})
	}
	deltas("delta-2", Bounds{3, 6}, Bounds{4, 9}, 2, [][]float64{{1, 10}, {100}})
	deltas("delta-22", Bounds{2, 4}, Bounds{3, 6}, 1, [][]float64{{1, 10}, {100, 1000}})
	deltas("delta-3", Bounds{1, 3}, Bounds{2, 4}, 1, [][]float64{{1}, {10}, {100}})
	conc("C13", "derive", Bounds{1, 3}, Bounds{2, 5}, 2, func() {
		base := monkit.NewRegistry().WithTransformers(c13ts[0].t, c13ts[1].t, c13ts[0].t)
		base.ScopeNamed("s").Counter("c").Inc(7)
		in := []stat{{"c", "value", 7}, {"c", "high", 7}, {"c", "low", 7}}
		ts := []int{0, 1, 0}
		read := func(k int) func() {
			return func() {
				r := base.WithTransformers(c13ts[k].t)
				got, want := statSet(plainStats(r)), statSet(expect(append(append([]int(nil), ts...), k), in))
				check(got == want, "derived registry gives %s, want %s", got, want)
			}
		}
		par(read(0), read(1), func() {
			check(statSet(plainStats(base)) == statSet(expect(ts, in)), "base registry gives %s", statSet(plainStats(base)))
		})
	})
}

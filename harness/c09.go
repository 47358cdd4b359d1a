package main

import (
	"fmt"
	"math"
	"sort"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

// C09: distributions.

// dist is one of the three kinds of distribution, seen as float64s.
type dist struct {
	kind   string
	insert func(v int)
	query  func(q float64) float64
	fields func() (low, high, recent, sum float64, count int64)
	favg   func() float64
	ravg   func() float64
	reset  func()
	copy   func() *dist
	src    monkit.StatSource
	unit   float64 // one unit of insert, as the fields say it
	scale  float64 // fields to reported statistics
	whole  bool
}

func intDist(d *monkit.IntDist) *dist {
	return &dist{"int", func(v int) { d.Insert(int64(v)) }, func(q float64) float64 { return float64(d.Query(q)) },
		func() (float64, float64, float64, float64, int64) {
			return float64(d.Low), float64(d.High), float64(d.Recent), float64(d.Sum), d.Count
		},
		func() float64 { return float64(d.FullAverage()) }, func() float64 { return float64(d.ReservoirAverage()) },
		d.Reset, func() *dist { return intDist(d.Copy()) }, d, 1, 1, true}
}
func floatDist(d *monkit.FloatDist) *dist {
	return &dist{"float", func(v int) { d.Insert(float64(v) / 4) }, func(q float64) float64 { return d.Query(q) },
		func() (float64, float64, float64, float64, int64) {
			return d.Low, d.High, d.Recent, d.Sum, d.Count
		},
		func() float64 { return d.FullAverage() }, func() float64 { return d.ReservoirAverage() },
		d.Reset, func() *dist { return floatDist(d.Copy()) }, d, .25, 1, false}
}
func durDist(d *monkit.DurationDist) *dist {
	return &dist{"duration", func(v int) { d.Insert(time.Duration(v) * 1024) }, func(q float64) float64 { return float64(d.Query(q)) },
		func() (float64, float64, float64, float64, int64) {
			return float64(d.Low), float64(d.High), float64(d.Recent), float64(d.Sum), d.Count
		},
		func() float64 { return float64(d.FullAverage()) }, func() float64 { return float64(d.ReservoirAverage()) },
		d.Reset, func() *dist { return durDist(d.Copy()) }, d, 1024, 1e-9, true}
}

func newDist(k int) *dist {
	key := monkit.NewSeriesKey("d")
	switch k {
	case 0:
		return intDist(monkit.NewIntDist(key))
	case 1:
		return floatDist(monkit.NewFloatDist(key))
	}
	return durDist(monkit.NewDurationDist(key))
}

// quantile of at most 64 values: linear interpolation between order statistics.
func quantile(vals []float64, qq float64) float64 {
	s := append([]float64(nil), vals...)
	sort.Float64s(s)
	if len(s) == 0 {
		return 0
	}
	if qq <= 0 || len(s) == 1 {
		return s[0]
	}
	if qq >= 1 {
		return s[len(s)-1]
	}
	p := qq * float64(len(s)-1)
	i := int(p)
	return s[i] + (p-float64(i))*(s[i+1]-s[i])
}

var c9q = []float64{-1, 0, .1, .25, .5, .75, .9, .99, 1, 2}

// checkDist compares d with all the values inserted since the last reset.
// Small values only: they are exact in every representation.
func checkDist(d *dist, ints []int) {
	vals := make([]float64, len(ints))
	sum := 0.0
	for i, v := range ints {
		vals[i] = float64(v) * d.unit
		sum += vals[i]
	}
	low, high, recent, s, count := d.fields()
	check(count == int64(len(vals)), "%s: count %d, want %d", d.kind, count, len(vals))
	if len(vals) == 0 {
		check(low == 0 && high == 0 && recent == 0 && s == 0, "%s: empty but low %v high %v recent %v sum %v", d.kind, low, high, recent, s)
		check(d.favg() == 0 && d.ravg() == 0, "%s: average of nothing: %v %v", d.kind, d.favg(), d.ravg())
		for _, x := range c9q {
			check(d.query(x) == 0, "%s: quantile %v of an empty distribution is %v", d.kind, x, d.query(x))
		}
		got := statMap(d.src)
		mustSame(got, map[string]float64{key("d") + ".count": 0}, d.kind)
		return
	}
	wl, wh := vals[0], vals[0]
	for _, v := range vals {
		wl, wh = math.Min(wl, v), math.Max(wh, v)
	}
	check(low == wl && high == wh, "%s: low %v high %v, want %v %v", d.kind, low, high, wl, wh)
	check(recent == vals[len(vals)-1], "%s: recent %v, want %v", d.kind, recent, vals[len(vals)-1])
	check(s == sum, "%s: sum %v, want %v", d.kind, s, sum)
	avg := sum / float64(len(vals))
	if d.whole {
		check(d.favg() == math.Trunc(avg), "%s: average %v, want %v", d.kind, d.favg(), math.Trunc(avg))
	} else {
		check(near(d.favg(), avg, 1e-12), "%s: average %v, want %v", d.kind, d.favg(), avg)
	}
	tol := 1e-5*(math.Abs(wl)+math.Abs(wh)) + 1e-9
	if d.whole {
		tol += 1
	}
	if len(vals) <= 64 {
		check(math.Abs(d.ravg()-avg) <= tol, "%s: average of the sample %v, want %v", d.kind, d.ravg(), avg)
		for _, x := range c9q {
			g, w := d.query(x), quantile(vals, x)
			check(math.Abs(g-w) <= tol, "%s: quantile %v of %d values is %v, want %v", d.kind, x, len(vals), g, w)
			if x <= 0 || x >= 1 {
				check(g == w, "%s: quantile %v is %v, want %v", d.kind, x, g, w)
			}
		}
	} else {
		last := math.Inf(-1)
		for _, x := range c9q {
			g := d.query(x)
			check(g >= last, "%s: quantiles decrease at %v", d.kind, x)
			last = g
			check(g >= wl-tol && g <= wh+tol, "%s: quantile %v is %v, outside [%v, %v]", d.kind, x, g, wl, wh)
		}
		check(d.ravg() >= wl-tol && d.ravg() <= wh+tol, "%s: sample average %v outside [%v, %v]", d.kind, d.ravg(), wl, wh)
	}
	got := statMap(d.src)
	k := key("d")
	for f, x := range map[string]float64{"rmin": d.query(0), "ravg": d.ravg(), "r10": d.query(.1), "r50": d.query(.5), "r90": d.query(.9), "r99": d.query(.99), "rmax": d.query(1)} {
		g, ok := got[k+"."+f]
		check(ok && near(g, x*d.scale, 1e-9), "%s: reported %s %v, want %v", d.kind, f, g, x*d.scale)
		delete(got, k+"."+f)
	}
	mustSame(got, map[string]float64{k + ".count": float64(count), k + ".sum": s * d.scale, k + ".min": low * d.scale, k + ".max": high * d.scale, k + ".recent": recent * d.scale}, d.kind)
}

// sample reads the current sample of a distribution of distinct values, in
// units, through quantiles.
func sample(d *dist, n int) []int {
	var out []int
	for k := 0; k < n; k++ {
		x := 0.0
		if n > 1 {
			x = float64(k) / float64(n-1)
		}
		out = append(out, int(math.Round(d.query(x)/d.unit)))
	}
	return out
}

func init() {
	// every sequence of inserts, queries, copies and resets
	seq("C09", "sequences", func() {
		d := newDist(choose(3))
		var ints []int
		type cp struct {
			d    *dist
			ints []int
		}
		var cps []cp
		vals := []int{0, 7, -3, 12}
		n := q(5, 6)
		for i := 0; i < n; i++ {
			switch k := choose(len(vals) + 4); k {
			case len(vals):
				d.reset()
				ints = nil
			case len(vals) + 1:
				cps = append(cps, cp{d.copy(), append([]int(nil), ints...)})
			case len(vals) + 2: // continue with the copy
				cps = append(cps, cp{d, append([]int(nil), ints...)})
				d = d.copy()
			case len(vals) + 3: // look
				checkDist(d, ints)
			default:
				d.insert(vals[k])
				ints = append(ints, vals[k])
			}
		}
		checkDist(d, ints)
		for _, c := range cps {
			checkDist(c.d, c.ints)
		}
	})
	// all orders of a few values
	seq("C09", "orders", func() {
		d := newDist(choose(3))
		rest := []int{5, -8, 40, 0, 5, 17}[:q(5, 6)]
		rest = append([]int(nil), rest...)
		look := choose(2) == 1
		var ints []int
		for len(rest) > 0 {
			k := choose(len(rest))
			d.insert(rest[k])
			ints = append(ints, rest[k])
			rest = append(rest[:k:k], rest[k+1:]...)
			if look {
				checkDist(d, ints)
			}
		}
		checkDist(d, ints)
	})
	// every size up to and beyond the sample, ascending, descending, mixed
	seq("C09", "sizes", func() {
		d := newDist(choose(3))
		n := choose(q(140, 400))
		shape := choose(4)
		monkit.Window = pick(int64(1024), 0, 64, 1)
		looks := pick(1000, 1, 7)
		var ints []int
		for i := 0; i < n; i++ {
			v := i
			switch shape {
			case 1:
				v = n - i
			case 2:
				v = (i * 37) % 101
			case 3:
				v = 3
			}
			d.insert(v)
			ints = append(ints, v)
			if i%looks == looks-1 {
				d.query(.5)
			}
		}
		checkDist(d, ints)
		// a reset forgets all of it
		d.reset()
		checkDist(d, nil)
		d.insert(-50)
		checkDist(d, []int{-50})
	})
	// the sample holds distinct inserts; with a window no larger than the
	// sample the newest value is always in it
	seq("C09", "window", func() {
		sched.SetRandSeed(uint64(choose(q(4, 16)) + 1))
		d := newDist(choose(3))
		monkit.Window = pick(int64(1), 2, 64, 65, 128, 1024, 0)
		n := pick(64, 65, 66, 80, 129, 300)
		look := choose(2) == 1
		for i := 0; i < n; i++ {
			d.insert(i * 3)
			if look {
				d.query(.5)
			}
			if i >= 64 && monkit.Window > 0 && monkit.Window <= 64 {
				check(math.Round(d.query(1)/d.unit) == float64(i*3), "%s: with window %d the newest value is not in the sample after %d inserts", d.kind, monkit.Window, i+1)
			}
		}
		s := sample(d, 64)
		for i, v := range s {
			check(v%3 == 0 && v >= 0 && v < n*3, "%s: the sample holds %d, which was never inserted", d.kind, v)
			check(i == 0 || v > s[i-1], "%s: the sample holds %d twice", d.kind, v)
		}
	})
	// how fast the sample forgets
	seq("C09", "forgetting", func() {
		sched.SetRandSeed(uint64(choose(q(6, 30)) + 1))
		d := newDist(choose(3))
		type c struct {
			window     int64
			n, recent  int
			atL, atMax int
		}
		x := pick(c{1024, 9216, 1024, 22, 58}, c{0, 4096, 2048, 14, 50}, c{0, 8192, 1024, 0, 24}, c{128, 1024, 128, 22, 58}, c{1 << 20, 4096, 2048, 14, 50}, c{-1, 4096, 2048, 14, 50})
		monkit.Window = x.window
		for i := 0; i < x.n; i++ {
			d.insert(i)
		}
		k := 0
		for _, v := range sample(d, 64) {
			if v >= x.n-x.recent {
				k++
			}
		}
		check(k >= x.atL && k <= x.atMax, "%s: window %d: %d of 64 sampled values are among the last %d of %d, want %d to %d", d.kind, x.window, k, x.recent, x.n, x.atL, x.atMax)
		note("window %d: %d", x.window, k)
	})
	// extreme values
	seq("C09", "extremes", func() {
		a := pick[int64](math.MaxInt64, math.MinInt64, 1<<40, -1<<40, 0)
		b := pick[int64](math.MaxInt64, math.MinInt64, 1<<40, -1<<40, 0)
		d := monkit.NewIntDist(monkit.NewSeriesKey("d"))
		d.Insert(a)
		d.Insert(b)
		within := func(kind string, query func(q float64) float64, avg, lo, hi float64) {
			last := lo
			for _, x := range c9q {
				g := query(x)
				check(g >= last && g <= hi, "%s: quantile %v of %d and %d is %v", kind, x, a, b, g)
				last = g
				if x <= 0 {
					check(g == lo, "%s: quantile %v of %d and %d is %v", kind, x, a, b, g)
				} else if x >= 1 {
					check(g == hi, "%s: quantile %v of %d and %d is %v", kind, x, a, b, g)
				}
			}
			check(avg >= lo && avg <= hi, "%s: average of the sample of %d and %d is %v", kind, a, b, avg)
		}
		lo, hi := a, b
		if b < a {
			lo, hi = b, a
		}
		check(d.Low == lo && d.High == hi && d.Recent == b && d.Count == 2 && d.Sum == a+b, "int: low %d high %d recent %d", d.Low, d.High, d.Recent)
		within("int", func(q float64) float64 { return float64(d.Query(q)) }, float64(d.ReservoirAverage()), float64(lo), float64(hi))
		e := monkit.NewDurationDist(monkit.NewSeriesKey("d"))
		e.Insert(time.Duration(a))
		e.Insert(time.Duration(b))
		check(int64(e.Low) == lo && int64(e.High) == hi && int64(e.Recent) == b && e.Count == 2, "duration: low %d high %d", e.Low, e.High)
		within("duration", func(q float64) float64 { return float64(e.Query(q)) }, float64(e.ReservoirAverage()), float64(lo), float64(hi))
		f := monkit.NewFloatDist(monkit.NewSeriesKey("d"))
		f.Insert(float64(a) * 1e10)
		f.Insert(float64(b) * 1e10)
		check(f.Low == float64(lo)*1e10 && f.High == float64(hi)*1e10 && f.Recent == float64(b)*1e10 && f.Count == 2, "float: low %v high %v", f.Low, f.High)
		within("float", f.Query, f.ReservoirAverage(), float64(lo)*1e10, float64(hi)*1e10)
	})
	// a quantile that is not a number is an answer like any other, and what
	// was asked stays usable
	seq("C09", "quantile-nan", func() {
		n := choose(5)
		if n == 4 {
			n = 70
		}
		sk := monkit.NewSeriesKey("d")
		iv, fv, dv, tm := monkit.NewIntVal(sk), monkit.NewFloatVal(sk), monkit.NewDurationVal(sk), monkit.NewTimer(sk)
		obs := func(i int) {
			iv.Observe(int64(i))
			fv.Observe(float64(i))
			dv.Observe(time.Duration(i))
			t := tm.Start()
			adv(time.Duration(i))
			t.Stop()
		}
		for i := 1; i <= n; i++ {
			obs(i)
		}
		v := tm.Values()
		for k, f := range []func() float64{
			func() float64 { return float64(iv.Quantile(math.NaN())) },
			func() float64 { return fv.Quantile(math.NaN()) },
			func() float64 { return float64(dv.Quantile(math.NaN())) },
			func() float64 { return float64(v.Query(math.NaN())) },
		} {
			g := 0.0
			rec, bad := catch(func() { g = f() })
			check(!bad, "value %d: quantile NaN of %d values: %v", k, n, rec)
			check(g != g || (g >= 0 && g <= float64(n)), "value %d: quantile NaN of %d values is %v", k, n, g)
		}
		obs(n + 1)
		for k, s := range []monkit.StatSource{iv, fv, dv, tm} {
			got := statMap(s)
			check(got[key("d")+".count"] == float64(n+1), "value %d: count after quantile NaN: %v", k, got)
		}
	})

	// an observation that is not a number is an observation
	seq("C09", "observe-nan", func() {
		v := monkit.NewFloatVal(monkit.NewSeriesKey("d"))
		n := 0
		nan := false
		for i := 0; i < 4; i++ {
			x := pick(1.5, math.NaN(), math.Inf(1))
			rec, bad := catch(func() { v.Observe(x) })
			check(!bad, "observing %v: %v", x, rec)
			n++
			nan = nan || x != x
			m := statMap(v)
			check(m[key("d")+".count"] == float64(n), "%v observations, want %d", m[key("d")+".count"], n)
			r := m[key("d")+".recent"]
			check(r == x || r != r && x != x, "the most recent value is %v, want %v", r, x)
		}
	})

	// the thread-safe wrappers
	seq("C09", "values", func() {
		iv := monkit.NewIntVal(monkit.NewSeriesKey("d"))
		fv := monkit.NewFloatVal(monkit.NewSeriesKey("d"))
		dv := monkit.NewDurationVal(monkit.NewSeriesKey("d"))
		tm := monkit.NewTimer(monkit.NewSeriesKey("d"))
		var ints []int
		unit := pick(time.Second, 1234567*time.Nanosecond, time.Nanosecond)
		for i := 0; i < q(4, 5); i++ {
			v := pick(0, 3, 8, 1)
			ints = append(ints, v)
			iv.Observe(int64(v))
			fv.Observe(float64(v))
			d := time.Duration(v) * unit
			dv.Observe(d)
			t := tm.Start()
			adv(d)
			check(t.Elapsed() == d, "elapsed %v, want %v", t.Elapsed(), d)
			check(t.Stop() == d, "stop")
			if choose(2) == 1 {
				adv(time.Second)
				check(t.Stop() == d+time.Second, "second stop")
			}
			var fs, ds []float64
			for _, x := range ints {
				fs = append(fs, float64(x))
				ds = append(ds, (time.Duration(x) * unit).Seconds())
			}
			for k, src := range []monkit.StatSource{iv, fv, dv, tm, tm.Values()} {
				got := statMap(src)
				stripR(got, key("d"))
				w := fs
				if k >= 2 {
					w = ds
				}
				mustSame(got, distWant(key("d"), w), fmt.Sprint("value ", k))
			}
			for _, x := range c9q {
				w := quantile(fs, x)
				check(math.Abs(float64(iv.Quantile(x))-w) <= 1 && math.Abs(fv.Quantile(x)-w) < 1e-5 && math.Abs(dv.Quantile(x).Seconds()-w*unit.Seconds()) <= 1e-6*w*unit.Seconds()+1e-9, "quantile %v: %v %v %v, want %v", x, iv.Quantile(x), fv.Quantile(x), dv.Quantile(x), w)
			}
		}
	})
	// values are not disturbed by what is done with a copy
	seq("C09", "timer-values", func() {
		tm := monkit.NewTimer(monkit.NewSeriesKey("d"))
		ts := [3]*monkit.RunningTimer{}
		n := 0
		for i := 0; i < q(6, 7); i++ {
			adv(time.Second)
			k := choose(3)
			switch choose(2) {
			case 0:
				if ts[k] == nil {
					ts[k] = tm.Start()
				} else {
					v := tm.Values()
					v.Insert(time.Hour)
					v.Reset()
				}
			case 1:
				if ts[k] != nil {
					ts[k].Stop()
					ts[k] = nil
					n++
				}
			}
			check(tm.Values().Count == int64(n), "timer counted %d, want %d", tm.Values().Count, n)
			check(tm.Values().High < time.Minute, "a copy of the values is not independent")
		}
	})

	// snapshots taken while values arrive are those of some moment
	type vop struct {
		val  int
		read bool
	}
	type model struct {
		n, sum, lo, hi, recent int
	}
	lin := func(name string, bq, bt Bounds, race int, mk func() (func(int), monkit.StatSource, func() float64), threads ...[]vop) {
		conc("C09", name, bq, bt, race, func() {
			obs, src, qu := mk()
			var ops []*lop
			h := &history{}
			var fns []func()
			for _, th := range threads {
				th := th
				slots := make([]*lop, len(th))
				for i := range slots {
					slots[i] = &lop{}
				}
				ops = append(ops, slots...)
				fns = append(fns, func() {
					for i, o := range th {
						o := o
						h.do(slots[i], fmt.Sprint(o), func() func(any) (any, bool) {
							if !o.read {
								obs(o.val)
								return func(st any) (any, bool) {
									m := st.(model)
									if m.n == 0 || o.val < m.lo {
										m.lo = o.val
									}
									if m.n == 0 || o.val > m.hi {
										m.hi = o.val
									}
									m.n++
									m.sum += o.val
									m.recent = o.val
									return m, true
								}
							}
							v := qu()
							got := statMap(src)
							return func(st any) (any, bool) {
								_ = v
								m := st.(model)
								k := key("d") + "."
								if got[k+"count"] != float64(m.n) {
									return st, false
								}
								return st, m.n == 0 || near(got[k+"sum"], float64(m.sum), 1e-9) && near(got[k+"min"], float64(m.lo), 1e-9) && near(got[k+"max"], float64(m.hi), 1e-9) && near(got[k+"recent"], float64(m.recent), 1e-9) &&
									near(got[k+"rmin"], float64(m.lo), 1e-6) && near(got[k+"rmax"], float64(m.hi), 1e-6)
							}
						})
					}
				})
			}
			par(fns...)
			want := model{}
			for _, th := range threads {
				for _, o := range th {
					if !o.read {
						want.n++
						want.sum += o.val
					}
				}
			}
			got := statMap(src)
			check(got[key("d")+".count"] == float64(want.n) && near(got[key("d")+".sum"], float64(want.sum), 1e-9), "count %v sum %v, want %d %d", got[key("d")+".count"], got[key("d")+".sum"], want.n, want.sum)
			if !linearizable(ops, model{}, nil) {
				fail("no order of the observations explains a report: %s", opNames(ops))
			}
		})
	}
	kinds := map[string]func() (func(int), monkit.StatSource, func() float64){
		"int": func() (func(int), monkit.StatSource, func() float64) {
			v := monkit.NewIntVal(monkit.NewSeriesKey("d"))
			return func(x int) { v.Observe(int64(x)) }, v, func() float64 { return float64(v.Quantile(.5)) }
		},
		"float": func() (func(int), monkit.StatSource, func() float64) {
			v := monkit.NewFloatVal(monkit.NewSeriesKey("d"))
			return func(x int) { v.Observe(float64(x)) }, v, func() float64 { return v.Quantile(.5) }
		},
		"duration": func() (func(int), monkit.StatSource, func() float64) {
			v := monkit.NewDurationVal(monkit.NewSeriesKey("d"))
			return func(x int) { v.Observe(time.Duration(x) * time.Second) }, v, func() float64 { return float64(v.Quantile(.5)) }
		},
	}
	for _, k := range []string{"int", "float", "duration"} {
		lin("obs-obs-"+k, Bounds{2, 6}, Bounds{3, 9}, 2, kinds[k], []vop{{val: 3}, {val: 9}}, []vop{{val: 5}, {val: 1}})
		lin("obs-read-"+k, Bounds{1, 6}, Bounds{2, 9}, 2, kinds[k], []vop{{val: 3}, {val: 9}, {val: -4}}, []vop{{read: true}, {read: true}})
		lin("read-read-"+k, Bounds{1, 3}, Bounds{2, 5}, 2, kinds[k], []vop{{val: 3}, {val: 9}}, []vop{{read: true}}, []vop{{read: true}})
	}
	conc("C09", "timer-stop-stop", Bounds{2, 6}, Bounds{3, 9}, 3, func() {
		tm := monkit.NewTimer(monkit.NewSeriesKey("d"))
		t, t2 := tm.Start(), tm.Start()
		adv(time.Second)
		par(func() { t.Stop() }, func() { t.Stop(); t2.Stop() })
		v := tm.Values()
		check(v.Count == 2 && v.Sum == 2*time.Second, "two timers: %d counted, sum %v", v.Count, v.Sum)
	})
	conc("C09", "timer-stats", Bounds{2, 5}, Bounds{3, 8}, 2, func() {
		tm := monkit.NewTimer(monkit.NewSeriesKey("d"))
		t, t2 := tm.Start(), tm.Start()
		adv(time.Second)
		t.Stop()
		par(func() { t2.Stop() }, func() {
			v := tm.Values()
			check(v.Count >= 1 && v.Sum == time.Duration(v.Count)*time.Second, "%d counted, sum %v", v.Count, v.Sum)
			got := statMap(tm)
			check(got[key("d")+".count"] == got[key("d")+".sum"], "%v", got)
		})
		check(tm.Values().Count == 2, "%d counted", tm.Values().Count)
	})
}

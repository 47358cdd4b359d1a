package main

import (
	"fmt"
	"math"

	"github.com/spacemonkeygo/monkit/v3"
)

// C08: counters.

type cmodel struct {
	val, low, high int64
	any            bool
}

func (m *cmodel) set(v int64) {
	m.val = v
	if !m.any || v < m.low {
		m.low = v
	}
	if !m.any || v > m.high {
		m.high = v
	}
	m.any = true
}

func (m cmodel) stats(series string) map[string]float64 {
	w := map[string]float64{series + ".value": float64(m.val), series + ".low": math.NaN(), series + ".high": math.NaN()}
	if m.any {
		w[series+".low"], w[series+".high"] = float64(m.low), float64(m.high)
	}
	return w
}

func init() {
	seq("C08", "sequences", func() {
		c := monkit.NewCounter(monkit.NewSeriesKey("c").WithTag("t", "v"))
		var m cmodel
		n := q(5, 6)
		for i := 0; i < n; i++ {
			v := []int64{1, -2, 0, 5, math.MaxInt64, math.MinInt64}
			switch choose(4) {
			case 0:
				x := pick(v...)
				old := m.val
				got := c.Set(x)
				m.set(x)
				check(got == old, "Set returned %d, want the former value %d", got, old)
			case 1:
				x := pick(v[:4]...)
				got := c.Inc(x)
				m.set(m.val + x)
				check(got == m.val, "Inc returned %d, want %d", got, m.val)
			case 2:
				x := pick(v[:4]...)
				got := c.Dec(x)
				m.set(m.val - x)
				check(got == m.val, "Dec returned %d, want %d", got, m.val)
			case 3:
				a, b, d := c.Reset()
				check(a == m.val && b == m.low && d == m.high, "Reset returned %d %d %d, want %d %d %d", a, b, d, m.val, m.low, m.high)
				m = cmodel{}
			}
			check(c.Current() == m.val, "value %d, want %d", c.Current(), m.val)
			check(c.High() == m.high, "high %d, want %d", c.High(), m.high)
			check(c.Low() == m.low, "low %d, want %d", c.Low(), m.low)
			mustSame(statMap(c), m.stats(key("c", "t", "v")), "counter")
		}
	})

	type cop struct {
		name string
		run  func(c *monkit.Counter) func(any) (any, bool)
	}
	inc := func(d int64) cop {
		return cop{fmt.Sprint("inc", d), func(c *monkit.Counter) func(any) (any, bool) {
			r := c.Inc(d)
			return func(st any) (any, bool) { m := st.(cmodel); m.set(m.val + d); return m, r == m.val }
		}}
	}
	dec := func(d int64) cop {
		return cop{fmt.Sprint("dec", d), func(c *monkit.Counter) func(any) (any, bool) {
			r := c.Dec(d)
			return func(st any) (any, bool) { m := st.(cmodel); m.set(m.val - d); return m, r == m.val }
		}}
	}
	set := func(v int64) cop {
		return cop{fmt.Sprint("set", v), func(c *monkit.Counter) func(any) (any, bool) {
			r := c.Set(v)
			return func(st any) (any, bool) { m := st.(cmodel); old := m.val; m.set(v); return m, r == old }
		}}
	}
	reset := cop{"reset", func(c *monkit.Counter) func(any) (any, bool) {
		a, b, d := c.Reset()
		return func(st any) (any, bool) {
			m := st.(cmodel)
			return cmodel{}, a == m.val && b == m.low && d == m.high
		}
	}}
	cur := cop{"current", func(c *monkit.Counter) func(any) (any, bool) {
		r := c.Current()
		return func(st any) (any, bool) { return st, st.(cmodel).val == r }
	}}
	high := cop{"high", func(c *monkit.Counter) func(any) (any, bool) {
		r := c.High()
		return func(st any) (any, bool) { return st, st.(cmodel).high == r }
	}}
	low := cop{"low", func(c *monkit.Counter) func(any) (any, bool) {
		r := c.Low()
		return func(st any) (any, bool) { return st, st.(cmodel).low == r }
	}}
	st := cop{"stats", func(c *monkit.Counter) func(any) (any, bool) {
		var a, b, v float64
		c.Stats(func(_ monkit.SeriesKey, f string, x float64) {
			switch f {
			case "high":
				a = x
			case "low":
				b = x
			case "value":
				v = x
			}
		})
		return func(st any) (any, bool) {
			w := st.(cmodel).stats("")
			return st, feq(w[".high"], a) && feq(w[".low"], b) && feq(w[".value"], v)
		}
	}}
	lin := func(name string, bq, bt Bounds, race int, threads ...[]cop) {
		conc("C08", name, bq, bt, race, func() {
			c := monkit.NewCounter(monkit.NewSeriesKey("c"))
			h := &history{}
			var fns []func()
			for _, ops := range threads {
				ops := ops
				slots := make([]*lop, len(ops))
				for i := range slots {
					slots[i] = &lop{}
				}
				h.ops = append(h.ops, slots...)
				fns = append(fns, func() {
					for i, o := range ops {
						o := o
						h.do(slots[i], o.name, func() func(any) (any, bool) { return o.run(c) })
					}
				})
			}
			par(fns...)
			v, l, hi := c.Current(), c.Low(), c.High()
			if !linearizable(h.ops, cmodel{}, func(st any) bool {
				m := st.(cmodel)
				return m.val == v && m.low == l && m.high == hi
			}) {
				fail("no order of the operations explains the results: %s, then value %d low %d high %d", opNames(h.ops), v, l, hi)
			}
		})
	}
	b2, b3 := Bounds{2, 8}, Bounds{4, 12}
	lin("inc-inc", b2, b3, 3, []cop{inc(1), inc(2)}, []cop{inc(4), dec(3)})
	lin("inc-set", b2, b3, 3, []cop{inc(1), inc(1)}, []cop{set(10), set(-5)})
	lin("set-set", b2, b3, 2, []cop{set(3), set(-3)}, []cop{set(7), set(-7)})
	lin("inc-reset", b2, b3, 3, []cop{inc(1), inc(1)}, []cop{reset, inc(5)})
	lin("reset-reset", b2, b3, 2, []cop{inc(3), reset}, []cop{reset, dec(2)})
	lin("inc-read", b2, b3, 2, []cop{inc(2), dec(5)}, []cop{cur, high, low})
	lin("stats", b2, b3, 3, []cop{inc(2), dec(5)}, []cop{st, st})
	lin("stats-reset", b2, b3, 2, []cop{inc(2), reset}, []cop{st, cur})
	lin("three", Bounds{1, 4}, Bounds{2, 8}, 2, []cop{inc(1), set(4)}, []cop{dec(1), reset}, []cop{st, inc(3)})
	lin("four", Bounds{1, 3}, Bounds{2, 6}, 2, []cop{inc(1)}, []cop{dec(2)}, []cop{st}, []cop{set(9), cur})
}

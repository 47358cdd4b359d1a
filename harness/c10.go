package main

import (
	"fmt"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

// C10: meters.

// mmodel: the window holds 24 buckets; every ten minutes it moves on by one if
// the newest bucket has events.
type mmodel struct {
	start  time.Time // of the buckets before the window is full
	base   int64     // events before the window, and the initial total
	counts []int64   // oldest first, 24 of them
	starts []time.Time
}

func newMmodel(now time.Time, base int64) *mmodel {
	m := &mmodel{base: base}
	for i := 0; i < 24; i++ {
		m.counts = append(m.counts, 0)
		m.starts = append(m.starts, now)
	}
	return m
}

func (m *mmodel) mark(n int64) { m.counts[23] += n }
func (m *mmodel) tick(now time.Time) {
	if m.counts[23] == 0 {
		return
	}
	m.base += m.counts[0]
	m.counts = append(m.counts[1:], 0)
	m.starts = append(m.starts[1:], now)
}
func (m *mmodel) read(now time.Time) (rate, total float64) {
	n := int64(0)
	for _, c := range m.counts {
		n += c
	}
	d := now.Sub(m.starts[0]).Seconds()
	if d > 0 {
		rate = float64(n) / d
	}
	return rate, float64(n + m.base)
}

type mclock struct {
	now    time.Time
	next   time.Time
	models []*mmodel
}

// advance moves the virtual clock; the meters tick every ten minutes from the
// moment the first one was made.
func (c *mclock) advance(d time.Duration) {
	end := c.now.Add(d)
	for !c.next.After(end) {
		adv(c.next.Sub(c.now))
		settle()
		c.now = c.next
		for _, m := range c.models {
			m.tick(c.now)
		}
		c.next = c.next.Add(10 * time.Minute)
	}
	adv(end.Sub(c.now))
	settle()
	c.now = end
}

// settle lets the ticker do what it has to.
func settle() { sched.Sequential(sched.Quiesce) }

func init() {
	seq("C10", "histories", func() {
		s := monkit.NewRegistry().ScopeNamed("s")
		var ms [2]*monkit.Meter
		ms[0] = s.Meter("m0")
		settle()
		c := &mclock{now: sched.Now(), next: sched.Now().Add(10 * time.Minute)}
		var mods [2]*mmodel
		mods[0] = newMmodel(c.now, 0)
		c.models = append(c.models, mods[0])
		late := choose(2) == 1
		if !late {
			ms[1] = s.Meter("m1", monkit.NewSeriesTag("k", "v"))
			mods[1] = newMmodel(c.now, 0)
			c.models = append(c.models, mods[1])
		}
		n := q(5, 6)
		for i := 0; i < n; i++ {
			switch choose(8) {
			case 0:
				ms[0].Mark(3)
				mods[0].mark(3)
			case 1:
				ms[0].Mark64(-5)
				mods[0].mark(-5)
			case 2:
				c.advance(4 * time.Minute)
			case 3:
				c.advance(10 * time.Minute)
			case 4:
				c.advance(35 * time.Minute)
			case 5: // a busy period: k ticks with events in each
				for k := 23 + choose(3); k > 0; k-- {
					s.Event("m0")
					mods[0].mark(1)
					c.advance(10 * time.Minute)
				}
			case 6:
				ms[0].Reset(100)
				*mods[0] = *newMmodel(c.now, 100)
			case 7:
				if ms[1] == nil {
					ms[1] = s.Meter("m1", monkit.NewSeriesTag("k", "v"))
					mods[1] = newMmodel(c.now, 0)
					c.models = append(c.models, mods[1])
					ms[1].SetTotal(40)
					mods[1].base = 40
				}
				ms[1].Mark(2)
				mods[1].mark(2)
			}
			for k := range ms {
				if ms[k] == nil {
					continue
				}
				rate, total := mods[k].read(c.now)
				check(ms[k].Total() == total, "meter %d: total %v, want %v", k, ms[k].Total(), total)
				check(near(ms[k].Rate(), rate, 1e-9), "meter %d: rate %v, want %v", k, ms[k].Rate(), rate)
				kk := key("m0")
				if k == 1 {
					kk = key("m1", "k", "v")
				}
				mustSame(statMap(ms[k]), map[string]float64{kk + ".rate": rate, kk + ".total": total}, "meter")
			}
			if ms[1] != nil {
				r0, t0 := mods[0].read(c.now)
				r1, t1 := mods[1].read(c.now)
				d := statMap(monkit.NewDiffMeter(monkit.NewSeriesKey("d").WithTag("x", "y"), ms[0], ms[1]))
				mustSame(d, map[string]float64{key("d", "x", "y") + ".rate": r0 - r1, key("d", "x", "y") + ".total": t0 - t1}, "difference")
				d = statMap(monkit.NewDiffMeter(monkit.NewSeriesKey("d"), ms[1], ms[0]))
				mustSame(d, map[string]float64{key("d") + ".rate": r1 - r0, key("d") + ".total": t1 - t0}, "difference")
			}
		}
	})
	// a long life: nothing is lost when events leave the window
	seq("C10", "long", func() {
		m := monkit.NewMeter(monkit.NewSeriesKey("m"))
		settle()
		c := &mclock{now: sched.Now(), next: sched.Now().Add(10 * time.Minute)}
		md := newMmodel(c.now, 0)
		c.models = []*mmodel{md}
		if choose(2) == 1 {
			m.SetTotal(7)
			md.base = 7
		}
		period := pick(1, 2, 3, 7)
		gap := pick(10*time.Minute, 7*time.Minute, 25*time.Minute, 10*time.Minute+time.Nanosecond)
		n := pick(23, 24, 25, 26, 49, 60)
		sum := md.base
		for i := 1; i <= n; i++ {
			if i%period == 0 {
				m.Mark(i)
				md.mark(int64(i))
				sum += int64(i)
			}
			rate, total := md.read(c.now)
			check(total == float64(sum), "model")
			check(m.Total() == total && near(m.Rate(), rate, 1e-9), "after %d periods: total %v rate %v, want %v %v", i, m.Total(), m.Rate(), total, rate)
			c.advance(gap)
		}
		switch choose(3) { // the total before the window is set late
		case 1:
			m.SetTotal(-3)
			md.base = -3
		case 2:
			m.SetTotal(0)
			md.base = 0
		}
		rate, total := md.read(c.now)
		check(m.Total() == total && near(m.Rate(), rate, 1e-9), "at the end: total %v rate %v, want %v %v", m.Total(), m.Rate(), total, rate)
	})

	// large amounts, and times short and long
	seq("C10", "scales", func() {
		m := monkit.NewMeter(monkit.NewSeriesKey("m"))
		settle()
		start := sched.Now()
		n := int64(0)
		for i := 0; i < 2; i++ {
			a := pick[int64](1, -1, 1<<31, -1<<31-1, 1<<32, 5<<40+1, 1<<60+1)
			if choose(2) == 1 {
				m.Mark(int(a))
			} else {
				m.Mark64(a)
			}
			n += a
		}
		check(m.Total() == float64(n), "total %v, want %v", m.Total(), n)
		for _, base := range []int64{0, 1, 1 << 32, 1 << 60} { // exact also where a float64 is not
			o := monkit.NewMeter(monkit.NewSeriesKey("o"))
			o.Mark64(base)
			got := statMap(monkit.NewDiffMeter(monkit.NewSeriesKey("d"), m, o))[key("d")+".total"]
			check(got == float64(n-base), "difference of totals %d and %d: %v", n, base, got)
		}
		d := time.Duration(0)
		for i := 0; i < 2; i++ {
			x := pick(time.Nanosecond, 7*time.Microsecond, 1234567*time.Nanosecond, 999999999*time.Nanosecond, 599*time.Second)
			if d+x >= 10*time.Minute {
				break
			}
			d += x
			adv(x)
			want := float64(n) / sched.Now().Sub(start).Seconds()
			check(near(m.Rate(), want, 1e-9), "rate %v after %v, want %v", m.Rate(), d, want)
			got := statMap(m)
			check(near(got[key("m")+".rate"], want, 1e-9) && got[key("m")+".total"] == float64(n), "%v", got)
		}
	})

	conc("C10", "mark-mark", Bounds{2, 6}, Bounds{3, 9}, 3, func() {
		m := monkit.NewMeter(monkit.NewSeriesKey("m"))
		w := &tracker{}
		mark := func(n int) func() {
			return func() {
				w.bump(n, 0)
				m.Mark(n)
				w.bump(0, n)
			}
		}
		par(func() { mark(1)(); mark(2)() }, mark(4), func() {
			win := w.begin()
			t := m.Total()
			check(int64(t) >= win.lo && int64(t) <= win.hi, "total %v outside [%d, %d]", t, win.lo, win.hi)
		})
		check(m.Total() == 7, "total %v, want 7", m.Total())
	})
	// marks, ticks and reads at once
	tick := func(fill int, reset bool) func() {
		return func() {
			m := monkit.NewMeter(monkit.NewSeriesKey("m"))
			settle()
			var mods [3]*mmodel // by how many of the marks come before the tick
			for i := range mods {
				mods[i] = newMmodel(sched.Now(), 0)
			}
			base := 0
			for i := 0; i < fill; i++ {
				m.Mark(1)
				base++
				adv(10 * time.Minute)
				settle()
				for _, md := range mods {
					md.mark(1)
					md.tick(sched.Now())
				}
			}
			m.Mark(1)
			base++
			check(m.Total() == float64(base), "total %v, want %d", m.Total(), base)
			w := &tracker{}
			w.bump(base, base)
			par(func() {
				for _, n := range []int{2, 4} {
					w.bump(n, 0)
					m.Mark64(int64(n))
					w.bump(0, n)
				}
			}, func() {
				adv(10 * time.Minute) // wakes the ticker, which runs concurrently
			}, func() {
				win := w.begin()
				t := m.Total()
				check(int64(t) >= win.lo && int64(t) <= win.hi, "total %v outside [%d, %d]", t, win.lo, win.hi)
			})
			settle()
			check(m.Total() == float64(base+6), "total %v, want %d", m.Total(), base+6)
			for i, md := range mods {
				md.mark(1)
				if i > 0 {
					md.mark(2)
				}
				if i > 1 {
					md.mark(4)
				}
				md.tick(sched.Now())
				if i < 2 {
					md.mark(4)
				}
				if i < 1 {
					md.mark(2)
				}
			}
			for i := 0; i < 24; i++ {
				if i > 20 || i == 0 {
					ok := false
					for _, md := range mods {
						r, _ := md.read(sched.Now())
						ok = ok || near(m.Rate(), r, 1e-9)
					}
					check(ok, "rate %v %d ticks later", m.Rate(), i)
				}
				m.Mark(1)
				adv(10 * time.Minute)
				settle()
				for _, md := range mods {
					md.mark(1)
					md.tick(sched.Now())
				}
			}
			check(m.Total() == float64(base+6+24), "total %v, want %d", m.Total(), base+30)
			if reset {
				m.Reset(5)
				check(m.Total() == 5 && m.Rate() == 0, "after reset: %v %v", m.Total(), m.Rate())
			}
		}
	}
	conc("C10", "mark-tick", Bounds{2, 3}, Bounds{3, 6}, 2, tick(0, true))
	conc("C10", "mark-tick-full", Bounds{1, 2}, Bounds{2, 4}, 1, tick(25, false))
	conc("C10", "register-tick", Bounds{1, 3}, Bounds{2, 4}, 2, func() {
		s := monkit.NewRegistry().ScopeNamed("s")
		s.Meter("a").Mark(1)
		settle()
		par(func() { s.Meter("b").Mark(1); s.Meter("c").Mark(2) }, func() { adv(10 * time.Minute) })
		settle()
		for i := 0; i < 30; i++ {
			for k, n := range []string{"a", "b", "c"} {
				s.Meter(n).Mark(k + 1)
			}
			adv(10 * time.Minute)
			settle()
		}
		for k, n := range []string{"a", "b", "c"} {
			m := s.Meter(n)
			w := float64(31 * (k + 1))
			if n == "b" {
				w = 30*2 + 1
			}
			if n == "c" {
				w = 30*3 + 2
			}
			check(m.Total() == w, "%s: total %v, want %v", n, m.Total(), w)
			// all of them still slide: 23 buckets of ten minutes with events
			r := float64(23*(k+1)) / (23 * 600)
			check(near(m.Rate(), r, 1e-9), "%s: rate %v, want %v", n, m.Rate(), r)
		}
	})
	conc("C10", "first-meters", Bounds{2, 3}, Bounds{3, 6}, 2, func() {
		var m [2]*monkit.Meter
		par(func() { m[0] = monkit.NewMeter(monkit.NewSeriesKey("a")); m[0].Mark(3) }, func() { m[1] = monkit.NewMeter(monkit.NewSeriesKey("b")); m[1].Mark(3) })
		settle()
		for i := 0; i < 26; i++ {
			adv(10 * time.Minute)
			settle()
			for k := range m {
				check(m[k].Total() == float64(3+3*i), "total %v", m[k].Total())
				m[k].Mark(3)
			}
		}
		for k := range m {
			r := float64(24*3) / (23 * 600)
			check(near(m[k].Rate(), r, 1e-9), "meter %d: rate %v, want %v", k, m[k].Rate(), r)
		}
	})
	conc("C10", "reset-mark", Bounds{2, 6}, Bounds{3, 9}, 3, func() {
		m := monkit.NewMeter(monkit.NewSeriesKey("m"))
		m.Mark(1)
		par(func() { m.Reset(10) }, func() { m.Mark(4) }, func() {
			t := m.Total()
			check(t == 1 || t == 5 || t == 10 || t == 14, "total %v", t)
		})
		t := m.Total()
		check(t == 10 || t == 14, "total %v, want 10 or 14", t)
	})
	conc("C10", "diff", Bounds{1, 4}, Bounds{2, 6}, 2, func() {
		a, b := monkit.NewMeter(monkit.NewSeriesKey("a")), monkit.NewMeter(monkit.NewSeriesKey("b"))
		d := monkit.NewDiffMeter(monkit.NewSeriesKey("d"), a, b)
		par(func() { a.Mark(4); b.Mark(4) }, func() {
			v := statMap(d)[key("d")+".total"]
			check(v == 0 || v == 4 || v == -4, "difference %v", v)
		})
		check(statMap(d)[key("d")+".total"] == 0, "difference %v", statMap(d))
	})
	_ = fmt.Sprint
}

//go:norace
func (t *tracker) bump(pos, def int) { t.pos += int64(pos); t.def += int64(def); t.upd() }

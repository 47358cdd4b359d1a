package main

import (
	"fmt"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
)

// C07: get-or-create identity of metrics.

type tag = monkit.SeriesTag

type maker struct {
	kind string
	get  func(s *monkit.Scope, name string, tags []tag) any
	use  func(x any)
}

var makers = []maker{
	{"counter", func(s *monkit.Scope, n string, t []tag) any { return s.Counter(n, t...) }, func(x any) { x.(*monkit.Counter).Inc(1) }},
	{"meter", func(s *monkit.Scope, n string, t []tag) any { return s.Meter(n, t...) }, func(x any) { x.(*monkit.Meter).Mark(1) }},
	{"int", func(s *monkit.Scope, n string, t []tag) any { return s.IntVal(n, t...) }, func(x any) { x.(*monkit.IntVal).Observe(1) }},
	{"float", func(s *monkit.Scope, n string, t []tag) any { return s.FloatVal(n, t...) }, func(x any) { x.(*monkit.FloatVal).Observe(1) }},
	{"bool", func(s *monkit.Scope, n string, t []tag) any { return s.BoolVal(n, t...) }, func(x any) { x.(*monkit.BoolVal).Observe(true) }},
	{"struct", func(s *monkit.Scope, n string, t []tag) any { return s.StructVal(n, t...) }, func(x any) { x.(*monkit.StructVal).Observe(struct{ A int }{1}) }},
	{"duration", func(s *monkit.Scope, n string, t []tag) any { return s.DurationVal(n, t...) }, func(x any) { x.(*monkit.DurationVal).Observe(time.Second) }},
	{"timer", func(s *monkit.Scope, n string, t []tag) any { return s.Timer(n, t...) }, func(x any) { x.(*monkit.Timer).Start().Stop() }},
	{"func", func(s *monkit.Scope, n string, t []tag) any { return s.FuncNamed(n, t...) }, func(x any) { x.(*monkit.Func).Observe()(nil) }},
}

var c7names = []string{"a", "b", "a,k=v", "func:a", "", `a\`, "a,k", "Ab"}
var c7tags = [][]tag{
	nil,
	{{Key: "k", Val: "v"}},
	{{Key: "k", Val: "w"}},
	{{Key: "k", Val: "v"}, {Key: "l", Val: "w"}},
	{{Key: "k", Val: "v,l=w"}},
	{{Key: "k", Val: "v=w"}},
	{{Key: "k=v", Val: "w"}},
	{{Key: "kv", Val: ""}},
	{{Key: "", Val: "kv"}},
	{{Key: "k", Val: `v\`}, {Key: "l", Val: "w"}},
	{{Key: "k", Val: `v\,l=w`}},
}

func sameTags(a, b []tag) bool { return fmt.Sprintf("%q", a) == fmt.Sprintf("%q", b) }

func init() {
	// every byte at every place of a name, tag or scope makes another one
	seq("C07", "bytes", func() {
		r := monkit.NewRegistry()
		mk := makers[choose(len(makers))]
		what := choose(4)
		names := []string{"", "ab", "a b", "AB", "aB", "\u00e4b", "a\u0308b", "\u212a", "K", "\ufffdab", "\u200bab", "ab\u00a0"}
		for b := 0; b < 256; b++ {
			c := string([]byte{byte(b)})
			names = append(names, c+"ab", "a"+c+"b", "ab"+c, "ab"+c+c, "a"+c+"b"+c)
		}
		get := func(n string) any {
			switch what {
			case 0:
				x := mk.get(r.ScopeNamed("s"), n, nil)
				if f, ok := x.(*monkit.Func); ok {
					check(f.ShortName() == n && f.FullName() == "s."+n, "function %q is called %q, %q", n, f.ShortName(), f.FullName())
				}
				return x
			case 1:
				return mk.get(r.ScopeNamed("s"), "m", []tag{{Key: "k", Val: n}})
			case 2:
				return mk.get(r.ScopeNamed("s"), "m", []tag{{Key: n, Val: "v"}})
			default:
				s := r.ScopeNamed(n)
				check(s.Name() == n, "scope %q is called %q", n, s.Name())
				return mk.get(s, "m", nil)
			}
		}
		seen, first := map[any]string{}, map[string]any{}
		for _, n := range names {
			x := get(n)
			o, dup := seen[x]
			check(!dup || o == n, "%s (%d): %q and %q are one", mk.kind, what, o, n)
			check(first[n] == nil || first[n] == x, "%s (%d): %q is two", mk.kind, what, n)
			seen[x], first[n] = n, x
		}
		for _, n := range names {
			check(get(n) == first[n], "%s (%d): %q is another one the second time", mk.kind, what, n)
		}
	})
	seq("C07", "pairs", func() {
		r := monkit.NewRegistry()
		s := r.ScopeNamed("s")
		k1, k2 := choose(len(makers)), choose(len(makers))
		n1, n2 := pick(c7names...), pick(c7names...)
		t1, t2 := pick(c7tags...), pick(c7tags...)
		x := makers[k1].get(s, n1, append([]tag(nil), t1...))
		clash := n1 == n2 && sameTags(t1, t2) && k1 != k2 && makers[k1].kind != "func" && makers[k2].kind != "func"
		same := n1 == n2 && sameTags(t1, t2) && k1 == k2
		var y any
		rec, panicked := catch(func() { y = makers[k2].get(s, n2, append([]tag(nil), t2...)) })
		desc := fmt.Sprintf("%s %q %q and %s %q %q", makers[k1].kind, n1, t1, makers[k2].kind, n2, t2)
		if clash {
			check(panicked, "two kinds of metric share a name: %s", desc)
		} else {
			check(!panicked, "%s: panic %v", desc, rec)
			check((x == y) == same, "%s: the same metric: %v, want %v", desc, x == y, same)
		}
		// both still there, and the scope is still usable
		check(makers[k1].get(s, n1, t1) == x, "%s: another metric on the second request", desc)
		if y != nil {
			check(makers[k2].get(s, n2, t2) == y, "%s: another metric on the second request", desc)
		}
		makers[k1].use(x)
		if y != nil && y != x {
			makers[k2].use(y)
		}
		s.Counter("fresh").Inc(1)
		n := 0
		s.Stats(func(monkit.SeriesKey, string, float64) { n++ })
		check(n > 0, "no statistics")
		// another scope has its own
		check(makers[k1].get(r.ScopeNamed("other"), n1, t1) != x, "%s: shared by two scopes", desc)
		note("clash=%v same=%v", clash, same)
	})
	seq("C07", "triples", func() {
		s := monkit.NewRegistry().ScopeNamed("s")
		names := c7names[:3]
		tags := c7tags[:q(3, 5)]
		ms := []maker{makers[0], makers[2], makers[8]}
		type have struct {
			k    int
			n    string
			t    []tag
			x    any
			kind string
		}
		var hs []have
		for i := 0; i < 3; i++ {
			k, n, t := choose(len(ms)), pick(names...), pick(tags...)
			var x any
			_, panicked := catch(func() { x = ms[k].get(s, n, t) })
			want := false
			for _, h := range hs {
				ns := (h.kind == "func") == (ms[k].kind == "func")
				if ns && h.n == n && sameTags(h.t, t) {
					if h.k != k {
						want = true
					} else {
						check(!panicked && h.x == x, "%s %q %q: not the same metric as before", ms[k].kind, n, t)
					}
				} else {
					check(panicked || h.x != x, "%s %q %q is the same metric as %s %q %q", ms[k].kind, n, t, h.kind, h.n, h.t)
				}
			}
			check(panicked == want, "%s %q %q: panicked %v, want %v", ms[k].kind, n, t, panicked, want)
			if !panicked {
				hs = append(hs, have{k, n, t, x, ms[k].kind})
			}
		}
	})
	// every name and tag over a small alphabet is its own metric
	words := func(chars string, n int) []string {
		out, last := []string{""}, []string{""}
		for ; n > 0; n-- {
			var next []string
			for _, w := range last {
				for _, c := range chars {
					next = append(next, w+string(c))
				}
			}
			out, last = append(out, next...), next
		}
		return out
	}
	seq("C07", "alphabet", func() {
		s := monkit.NewRegistry().ScopeNamed("s")
		m := makers[pick(0, 2, 8)]
		seen := map[any]string{}
		count := 0
		add := func(n string, t ...tag) {
			id := fmt.Sprintf("%q %q", n, t)
			x := m.get(s, n, append([]tag(nil), t...))
			o, dup := seen[x]
			check(!dup, "%s %s and %s are one", m.kind, o, id)
			seen[x] = id
			check(m.get(s, n, t) == x, "%s %s is not the same the second time", m.kind, id)
			count++
		}
		switch c := choose(4); c {
		case 0: // names
			for _, n := range words("aA ,=\\é", 3) {
				add(n)
				add(n, tag{Key: "a", Val: ""})
			}
		case 1, 3: // one tag
			ws, vs := words("aA ,=\\", 1+c/2), words("aA ,=\\", 2-c/2)
			for _, k := range ws {
				for _, v := range vs {
					add("a", tag{Key: k, Val: v})
				}
			}
			for _, n := range ws {
				if n != "a" {
					add(n, tag{Key: "a", Val: "a"})
				}
			}
		case 2: // two tags
			ws := words("a,=\\", 1)
			for _, n := range ws {
				add(n)
				for _, k := range ws {
					for _, v := range ws {
						add(n, tag{Key: k, Val: v})
						for _, l := range ws {
							for _, w := range ws {
								if k < l {
									add(n, tag{Key: k, Val: v}, tag{Key: l, Val: w})
								}
							}
						}
					}
				}
			}
		}
		got := 0
		s.Stats(func(k monkit.SeriesKey, field string, _ float64) {
			if field == "value" || field == "count" && k.Measurement != "function_times" || field == "current" {
				got++
			}
		})
		check(got == count, "%d of %d reported", got, count)
	})
	// lists of tags, with keys coming more than once: what ends up as another
	// set of tags is another metric
	seq("C07", "tag-lists", func() {
		s := monkit.NewRegistry().ScopeNamed("s")
		m := makers[choose(len(makers))]
		seen := map[any]string{}
		var lists [][]tag
		lists = append(lists, nil)
		for from, n := 0, 0; n < q(3, 4); n++ {
			end := len(lists)
			for _, l := range lists[from:end] {
				for _, k := range []string{"k", "l"} {
					for _, v := range []string{"v", "w"} {
						lists = append(lists, append(append([]tag(nil), l...), tag{Key: k, Val: v}))
					}
				}
			}
			from = end
		}
		eff := func(l []tag) string {
			m := map[string]string{}
			for _, t := range l {
				m[t.Key] = t.Val
			}
			return fmt.Sprint(m)
		}
		got := make([]any, len(lists))
		for i, l := range lists {
			got[i] = m.get(s, "m", append([]tag(nil), l...))
			o, dup := seen[got[i]]
			check(!dup || o == eff(l), "%s with tags %q and with %s are one", m.kind, l, o)
			seen[got[i]] = eff(l)
		}
		for i, l := range lists {
			check(m.get(s, "m", l) == got[i], "%s with tags %q is not the same the second time", m.kind, l)
		}
	})
	seq("C07", "formatted", func() {
		s := monkit.NewRegistry().ScopeNamed("s")
		a := pick("x", "%d", "x,y", "")
		switch choose(3) {
		case 0:
			check(s.IntValf("n%s%d", a, 3) == s.IntVal("n"+a+"3"), "IntValf")
		case 1:
			check(s.FloatValf("n%s%d", a, 3) == s.FloatVal("n"+a+"3"), "FloatValf")
		case 2:
			check(s.BoolValf("n%s%d", a, 3) == s.BoolVal("n"+a+"3"), "BoolValf")
		}
		for _, t := range []string{"a%%b", "100%%", "ab", ""} {
			n := fmt.Sprintf(t)
			a, b, c := s, monkit.NewRegistry().ScopeNamed("t"), monkit.NewRegistry().ScopeNamed("u")
			if t == "" {
				a = monkit.NewRegistry().ScopeNamed("v")
			}
			check(a.IntValf(t) == a.IntVal(n) && b.FloatValf(t) == b.FloatVal(n) && c.BoolValf(t) == c.BoolVal(n), "%q without arguments", t)
		}
	})
	// events, gauges and differences have the tags they were given
	seq("C07", "tags-of-all", func() {
		s := monkit.NewRegistry().ScopeNamed("s")
		t := []tag{}
		for i, n := 0, choose(5); i < n; i++ {
			t = append(t, tag{Key: pick("k", "l", "z"), Val: pick("v", "w")})
		}
		var kv []string
		for i, l := range t {
			over := false
			for _, m := range t[i+1:] {
				over = over || m.Key == l.Key
			}
			if !over {
				kv = append(kv, l.Key, l.Val)
			}
		}
		kv = append(kv, "scope", "s")
		given := func() []tag { return append([]tag(nil), t...) }
		switch choose(3) {
		case 0:
			s.Event("e", given()...)
			s.Event("e", given()...)
			m := statMap(s)
			check(len(m) == 2 && m[key("e", kv...)+".total"] == 2, "events with %q: %v", t, m)
			check(s.Meter("e", given()...).Total() == 2, "meter with %q", t)
		case 1:
			s.Gauge("g", func() float64 { return 1 })
			mustSame(statMap(s), map[string]float64{key("g", "scope", "s") + ".value": 1}, "gauge")
		case 2:
			a, b := s.Meter("a", given()...), s.Meter("b", given()...)
			a.Mark(3)
			b.Mark(1)
			s.DiffMeter("d", a, b, given()...)
			m := statMap(s)
			check(len(m) == 6 && m[key("d", kv...)+".total"] == 2 && m[key("a", kv...)+".total"] == 3 && m[key("b", kv...)+".total"] == 1, "difference with %q: %v", t, m)
		}
	})
	// gauges replace gauges, and nothing else
	seq("C07", "gauges", func() {
		s := monkit.NewRegistry().ScopeNamed("s")
		owner := map[string]string{}
		val := map[string]float64{}
		zero := monkit.NewMeter(monkit.NewSeriesKey("0"))
		for i := 0; i < q(5, 6); i++ {
			n := pick("a", "b,k=v")
			switch choose(4) {
			case 0, 1:
				v := float64(10 + i)
				_, panicked := catch(func() { s.Gauge(n, func() float64 { return v }) })
				if o := owner[n]; o == "" || o == "gauge" {
					check(!panicked, "gauge %q refused", n)
					owner[n], val[n] = "gauge", v
				} else {
					check(panicked, "gauge %q took the name of a %s", n, o)
				}
			case 2:
				_, panicked := catch(func() { s.Counter(n).Inc(1) })
				if o := owner[n]; o == "" || o == "counter" {
					check(!panicked, "counter %q refused", n)
					owner[n] = "counter"
					val[n]++
				} else {
					check(panicked, "counter %q took the name of a %s", n, o)
				}
			case 3:
				_, panicked := catch(func() {
					m := monkit.NewMeter(monkit.NewSeriesKey("1"))
					m.SetTotal(int64(100 + i))
					s.DiffMeter(n, m, zero)
				})
				if o := owner[n]; o == "" || o == "diff" {
					check(!panicked, "diff meter %q refused", n)
					if o == "" { // the first one stays
						val[n] = float64(100 + i)
					}
					owner[n] = "diff"
				} else {
					check(panicked, "diff meter %q took the name of a %s", n, o)
				}
			}
			m := statMap(s)
			for n, o := range owner {
				f := ".value"
				if o == "diff" {
					f = ".total"
				}
				got, ok := m[key(n, "scope", "s")+f]
				check(ok && got == val[n], "%s %q reports %v, want %v", o, n, got, val[n])
			}
		}
	})
	seq("C07", "scopes", func() {
		r := monkit.NewRegistry()
		v := r.WithTransformers()
		names := []string{"a", "b", "", "a/b"}
		var seen [4]*monkit.Scope
		for i := 0; i < 4; i++ {
			k := choose(len(names))
			reg := r
			if choose(2) == 1 {
				reg = v
			}
			s := reg.ScopeNamed(names[k])
			check(s.Name() == names[k], "scope is named %q", s.Name())
			check(seen[k] == nil || seen[k] == s, "two scopes named %q", names[k])
			seen[k] = s
			for j := range seen {
				check(j == k || seen[j] != s, "one scope for two names")
			}
		}
		n := 0
		last := ""
		r.Scopes(func(s *monkit.Scope) {
			check(n == 0 || last < s.Name(), "scopes not in order: %q then %q", last, s.Name())
			last = s.Name()
			n++
			found := false
			for _, x := range seen {
				found = found || x == s
			}
			check(found, "unknown scope")
		})
		w := 0
		for _, x := range seen {
			if x != nil {
				w++
			}
		}
		check(n == w, "%d scopes listed, want %d", n, w)
	})
	seq("C07", "funcs", func() {
		r := monkit.NewRegistry()
		want := map[*monkit.Func]bool{}
		for i := 0; i < 3; i++ {
			s := r.ScopeNamed(pick("s1", "s2"))
			f := s.FuncNamed(pick("f", "g"), pick(c7tags[:2]...)...)
			want[f] = true
			s.Counter("c")
			check(f.Scope() == s, "func in another scope")
		}
		ids := map[int64]bool{}
		for f := range want {
			check(!ids[f.Id()], "two funcs with one id")
			ids[f.Id()] = true
		}
		r.Funcs(func(f *monkit.Func) {
			check(want[f], "a func is listed twice or unknown")
			delete(want, f)
		})
		check(len(want) == 0, "funcs missing from the list")
	})

	for _, m := range makers {
		m := m
		conc("C07", "create-"+m.kind, Bounds{2, 6}, Bounds{3, 8}, 2, func() {
			s := monkit.NewRegistry().ScopeNamed("s")
			var x [2]any
			t := []tag{{Key: "k", Val: "v"}}
			work := func(i int) func() {
				return func() {
					x[i] = m.get(s, "n", t)
					m.use(x[i])
				}
			}
			par(work(0), work(1))
			check(x[0] == x[1], "two %ss for one name", m.kind)
			check(m.get(s, "n", t) == x[0], "yet another %s", m.kind)
		})
	}
	conc("C07", "create-three", Bounds{1, 2}, Bounds{2, 3}, 1, func() {
		s := monkit.NewRegistry().ScopeNamed("s")
		work := func() { s.Counter("n").Inc(1); s.Event("e") }
		par(work, work, work)
		check(s.Counter("n").Current() == 3, "increments lost: %d", s.Counter("n").Current())
		check(s.Meter("e").Total() == 3, "events lost: %v", s.Meter("e").Total())
	})
	conc("C07", "create-clash", Bounds{2, 5}, Bounds{3, 8}, 2, func() {
		s := monkit.NewRegistry().ScopeNamed("s")
		var p [2]bool
		par(func() { _, p[0] = catch(func() { s.Counter("n") }) }, func() { _, p[1] = catch(func() { s.Meter("n") }) })
		check(p[0] != p[1], "both kinds got the name, or none: %v", p)
		s.Counter("other").Inc(1)
		statMap(s)
	})
	conc("C07", "create-scope", Bounds{2, 5}, Bounds{3, 8}, 2, func() {
		r := monkit.NewRegistry()
		var x [2]*monkit.Scope
		par(func() { x[0] = r.ScopeNamed("n"); x[0].Counter("c").Inc(1) }, func() { x[1] = r.WithTransformers().ScopeNamed("n"); x[1].Counter("c").Inc(1) })
		check(x[0] == x[1], "two scopes for one name")
		check(x[0].Counter("c").Current() == 2, "increments lost")
	})
	conc("C07", "create-list", Bounds{1, 3}, Bounds{2, 5}, 2, func() {
		r := monkit.NewRegistry()
		s := r.ScopeNamed("s")
		s.FuncNamed("f")
		par(func() { s.FuncNamed("g"); r.ScopeNamed("t").FuncNamed("h") }, func() {
			n, f := 0, false
			r.Funcs(func(x *monkit.Func) { n++; f = f || x.ShortName() == "f" })
			check(n >= 1 && n <= 3 && f, "%d funcs listed", n)
		})
	})
	conc("C07", "gauge-replace", Bounds{1, 3}, Bounds{2, 5}, 2, func() {
		s := monkit.NewRegistry().ScopeNamed("s")
		s.Gauge("g", func() float64 { return 1 })
		par(func() { s.Gauge("g", func() float64 { return 2 }) }, func() {
			m := statMap(s)
			v := m[key("g", "scope", "s")+".value"]
			check(len(m) == 1 && (v == 1 || v == 2), "gauge reports %v", m)
		})
		m := statMap(s)
		check(len(m) == 1 && m[key("g", "scope", "s")+".value"] == 2, "gauge reports %v", m)
	})
}

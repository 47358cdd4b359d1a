package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

// C24: trace values, span annotations, span counts.

type tkey struct{ n int }

func init() {
	seq("C24", "values", func() {
		a, b := monkit.NewTrace(1), monkit.NewTrace(1)
		traces := []*monkit.Trace{a, b}
		keys := []any{"k", tkey{1}, 1, ck("k")}
		vals := []any{"v", nil, 7}
		model := []map[any]any{{}, {}}
		type snap struct {
			m    map[any]any
			want string
		}
		var snaps []snap
		for i := 0; i < q(3, 4); i++ {
			t := choose(2)
			switch choose(3) {
			case 2: // a key that cannot be one
				for _, bad := range []func(){
					func() { traces[t].Set([]int{1}, "x") },
					func() { traces[t].Set("k", "v"); model[t]["k"] = "v"; traces[t].Get(map[string]int{}) },
					func() { traces[t].Get([]int{1}) },
				} {
					_, refused := catch(bad)
					check(refused, "an unusable key was accepted")
				}
			case 0:
				k, v := pick(keys...), pick(vals...)
				traces[t].Set(k, v)
				model[t][k] = v
			case 1:
				m := traces[t].GetAll()
				check(m != nil, "GetAll returned nil")
				snaps = append(snaps, snap{m, fmt.Sprint(model[t])})
				check(fmt.Sprint(m) == fmt.Sprint(model[t]), "all values %v, want %v", m, model[t])
				if i%2 == 0 {
					m["mine"] = "x" // the copy is the caller's
					snaps[len(snaps)-1].want = fmt.Sprint(m)
				}
			}
			for j, tr := range traces {
				for _, k := range keys {
					check(tr.Get(k) == model[j][k], "value of %v is %v, want %v", k, tr.Get(k), model[j][k])
				}
				check(tr.Get("mine") == nil, "a change to a copy of the values reached the trace")
				all := tr.GetAll()
				check(len(all) == len(model[j]), "%d values, want %d", len(all), len(model[j]))
				for k, v := range model[j] {
					w, ok := all[k]
					check(ok && w == v, "value of %v listed as %v", k, w)
				}
			}
			for _, s := range snaps {
				check(fmt.Sprint(s.m) == s.want, "a copy of the values changed to %v", s.m)
			}
		}
	})
	seq("C24", "annotations", func() {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		f.Task(&ctx)
		p := monkit.SpanFromCtx(ctx)
		f.Task(&ctx)
		spans := []*monkit.Span{p, monkit.SpanFromCtx(ctx)}
		want := [][]monkit.Annotation{nil, nil}
		type snap struct {
			l    []monkit.Annotation
			want string
		}
		var snaps []snap
		for i := 0; i < q(6, 8); i++ {
			j := choose(2)
			switch choose(3) {
			case 0:
				n, v := fmt.Sprint("n", i%3/2), fmt.Sprint("v", i/3)
				spans[j].Annotate(n, v)
				want[j] = append(want[j], monkit.Annotation{Name: n, Value: v})
			case 1:
				l := spans[j].Annotations()
				snaps = append(snaps, snap{l, fmt.Sprint(l)})
			case 2:
				l := spans[j].Annotations()
				l = append(l, monkit.Annotation{Name: "mine"})
				for k := range l {
					l[k].Value = "changed"
				}
				snaps = append(snaps, snap{l, fmt.Sprint(l)})
			}
			for j, s := range spans {
				check(fmt.Sprint(s.Annotations()) == fmt.Sprint(want[j]), "annotations %v, want %v", s.Annotations(), want[j])
			}
			for _, s := range snaps {
				check(fmt.Sprint(s.l) == s.want, "a list of annotations changed to %v, was %s", s.l, s.want)
			}
		}
	})
	seq("C24", "annotation-words", func() {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		defer f.Task(&ctx)(nil)
		s := monkit.SpanFromCtx(ctx)
		var want []monkit.Annotation
		for i := 0; i < q(3, 4); i++ {
			n, v := pick("", "n", "m", "\xff=,"), pick("", "v", "n", "\n\x00")
			s.Annotate(n, v)
			want = append(want, monkit.Annotation{Name: n, Value: v})
			check(fmt.Sprintf("%q", s.Annotations()) == fmt.Sprintf("%q", want), "annotations %q, want %q", s.Annotations(), want)
		}
	})
	seq("C24", "counts", func() {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		type sp struct {
			s    *monkit.Span
			exit func(*error)
			ctx  context.Context
			at   time.Time
			orph bool
			par  int
		}
		var all []sp
		live := map[int]bool{}
		shared := monkit.NewTrace(9)
		counts := map[*monkit.Trace]int64{}
		for i := 0; i < q(5, 7); i++ {
			var fin []int
			for k := range all {
				if live[k] {
					fin = append(fin, k)
				}
			}
			adv(time.Second + 1)
			k := choose(3 + len(fin))
			if k < 3 {
				s := sp{ctx: context.Background(), at: sched.Now(), par: -1}
				switch k {
				case 0:
					if len(all) > 0 {
						s.par = len(all) - 1
						s.ctx = all[s.par].ctx
						s.orph = !live[s.par]
					}
					s.exit = f.Task(&s.ctx)
				case 1:
					s.exit = f.ResetTrace(&s.ctx)
				case 2:
					s.exit = f.RemoteTrace(&s.ctx, 3, shared)
				}
				s.s = monkit.SpanFromCtx(s.ctx)
				counts[s.s.Trace()]++
				live[len(all)] = true
				all = append(all, s)
			} else {
				x := fin[k-3]
				finish(all[x].exit, outcome(i%int(nOutcomes)))
				delete(live, x)
				counts[all[x].s.Trace()]--
				for j := range all {
					if live[j] && all[j].par == x {
						all[j].orph = true
					}
				}
			}
			for t, n := range counts {
				check(t.Spans() == n, "the trace counts %d running spans, want %d", t.Spans(), n)
			}
			for j, s := range all {
				check(s.s.Start().Equal(s.at), "start of span %d changed", j)
				check(s.s.Duration() == sched.Now().Sub(s.at), "duration %v of span %d, want %v", s.s.Duration(), j, sched.Now().Sub(s.at))
				// also after its end
				check(s.s.Orphaned() == s.orph, "span %d orphaned: %v, want %v", j, s.s.Orphaned(), s.orph)
			}
		}
	})
	type vst map[string]string
	render := func(m vst) string { return fmt.Sprint(map[string]string(m)) }
	vals := func(name string, bq, bt Bounds, race int, threads [][]string) {
		conc("C24", name, bq, bt, race, func() {
			tr := monkit.NewTrace(1)
			h := &history{}
			var ops []*lop
			var fns []func()
			for _, os := range threads {
				os := os
				slots := make([]*lop, len(os))
				for j := range os {
					slots[j] = &lop{}
				}
				ops = append(ops, slots...)
				fns = append(fns, func() {
					for j, o := range os {
						o := o
						h.do(slots[j], o, func() func(any) (any, bool) {
							p := strings.Split(o, " ")
							switch p[0] {
							case "set":
								tr.Set(p[1], p[2])
								return func(s any) (any, bool) {
									m := vst{}
									for k, v := range s.(vst) {
										m[k] = v
									}
									m[p[1]] = p[2]
									return m, true
								}
							case "get":
								v := tr.Get(p[1])
								return func(s any) (any, bool) {
									w, ok := s.(vst)[p[1]]
									return s, ok && v == w || !ok && v == nil
								}
							}
							all := vst{}
							for k, v := range tr.GetAll() {
								all[k.(string)] = v.(string)
							}
							return func(s any) (any, bool) { return s, render(s.(vst)) == render(all) }
						})
					}
				})
			}
			par(fns...)
			check(linearizable(ops, vst{}, nil), "no order explains: %s", opNames(ops))
		})
	}
	vals("set-set-all", Bounds{2, 4}, Bounds{3, 6}, 2, [][]string{{"set a 1", "set b 1"}, {"set a 2", "get b"}, {"all"}})
	vals("set-get", Bounds{3, 6}, Bounds{4, 9}, 2, [][]string{{"set a 1", "get a"}, {"set a 2", "all"}})
	conc("C24", "annotate-conc", Bounds{2, 4}, Bounds{3, 6}, 2, func() {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		f.Task(&ctx)
		s := monkit.SpanFromCtx(ctx)
		n0 := choose(4)
		for i := 0; i < n0; i++ {
			s.Annotate("old", fmt.Sprint(i))
		}
		par(func() { s.Annotate("a", "1"); s.Annotate("a", "2") }, func() { s.Annotate("b", "1") }, func() {
			l := s.Annotations()
			check(len(l) >= n0 && len(l) <= n0+3, "%d annotations", len(l))
			for i := 0; i < n0; i++ {
				check(l[i].Name == "old" && l[i].Value == fmt.Sprint(i), "annotation %d is %v", i, l[i])
			}
			for _, x := range l[n0:] {
				check(x.Name != "" && x.Value != "", "an empty annotation shows")
			}
		})
		l := s.Annotations()
		check(len(l) == n0+3, "%d annotations, want %d: %v", len(l), n0+3, l)
		var a []string
		for _, x := range l {
			if x.Name == "a" {
				a = append(a, x.Value)
			}
		}
		check(strings.Join(a, "") == "12", "annotations of one thread out of order: %v", l)
	})
	conc("C24", "counts-conc", Bounds{1, 3}, Bounds{2, 5}, 1, func() {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		f.Task(&ctx)
		tr := monkit.SpanFromCtx(ctx).Trace()
		child := func() func(*error) { c := ctx; return f.Task(&c) }
		x := child()
		par(func() { x(nil) }, func() { child() }, func() { child()(nil) })
		check(tr.Spans() == 2, "the trace counts %d running spans, want 2", tr.Spans())
	})
}

package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

// C01: function accounting.

type namedErr struct{ n string }

func (e *namedErr) Error() string { return "named " + e.n }

type nilErr struct{}

func (*nilErr) Error() string { return "nil inside" }

func (e *namedErr) Name() (string, bool) { return e.n, true }

var errPlain = errors.New("plain")
var errNamed error = &namedErr{"MyErr"}

type outcome int

const (
	oOK outcome = iota
	oEOF
	oPanic
	oNilPtr
	oPlain
	oNamed
	oPanicErr
	oPanicNil   // panics without a place for an error
	oPanicIsErr // panics with an error, and has a place for one
	oPanicRun   // fails at run time
	oTypedNil   // an error that holds a nil pointer
	nOutcomes
)

type fmodel struct {
	cur, high int64
	succ      []float64
	failT     []float64
	errs      map[string]int64
	panics    int64
}

func newFmodel() *fmodel { return &fmodel{errs: map[string]int64{}} }

func (m *fmodel) start() {
	m.cur++
	if m.cur > m.high {
		m.high = m.cur
	}
}

func (m *fmodel) end(o outcome, d time.Duration) {
	m.cur--
	switch o {
	case oOK, oNilPtr:
		m.succ = append(m.succ, d.Seconds())
		return
	case oEOF:
		m.errs["EOF"]++
	case oPlain, oTypedNil:
		m.errs["System Error"]++
	case oNamed:
		m.errs["MyErr"]++
	case oPanic, oPanicErr, oPanicNil, oPanicIsErr, oPanicRun:
		m.panics++
	}
	m.failT = append(m.failT, d.Seconds())
}

// finish ends a task with outcome o and checks that a panic comes through.
func finish(exit func(*error), o outcome) {
	if o == oNilPtr {
		exit(nil)
		return
	}
	var err error
	switch o {
	case oPanicNil, oPanicIsErr, oPanicRun:
		ep := &err
		if o == oPanicNil {
			ep = nil
		}
		var want interface{}
		rec, p := catch(func() {
			defer exit(ep)
			defer func() {
				want = recover()
				panic(want)
			}()
			if o == oPanicRun {
				var m map[string]int
				m["x"] = 1
			}
			panic(errNamed)
		})
		check(p && rec == want, "panic %v came out as %v (panicked %v)", want, rec, p)
		check(err == nil, "the task made the panic an error")
		return
	case oEOF:
		err = io.EOF
	case oPlain:
		err = errPlain
	case oTypedNil:
		err = (*nilErr)(nil)
	case oNamed, oPanicErr:
		err = errNamed
	}
	if o == oPanic || o == oPanicErr {
		val := fmt.Sprintf("boom%d", o)
		rec, p := catch(func() {
			defer exit(&err)
			panic(val)
		})
		check(p && rec == val, "panic %q came out as %v (panicked %v)", val, rec, p)
		return
	}
	before := err
	rec, p := catch(func() {
		defer exit(&err)
	})
	check(!p, "finishing a task panicked: %v", rec)
	check(err == before, "the task changed the returned error")
}

func (m *fmodel) verify(f *monkit.FuncStats, meas string, tags ...string) {
	check(f.Current() == m.cur, "current = %d, want %d", f.Current(), m.cur)
	check(f.Highwater() == m.high, "highwater = %d, want %d", f.Highwater(), m.high)
	check(f.Success() == int64(len(m.succ)), "successes = %d, want %d", f.Success(), len(m.succ))
	check(f.Panics() == m.panics, "panics = %d, want %d", f.Panics(), m.panics)
	errs := f.Errors()
	check(len(errs) == len(m.errs), "errors = %v, want %v", errs, m.errs)
	for k, n := range m.errs {
		check(errs[k] == n, "errors = %v, want %v", errs, m.errs)
	}
	st, ft := f.SuccessTimes(), f.FailureTimes()
	check(st.Count == int64(len(m.succ)), "success times hold %d, want %d", st.Count, len(m.succ))
	check(ft.Count == int64(len(m.failT)), "failure times hold %d, want %d", ft.Count, len(m.failT))
	m.verifyStats(statMap(f), meas, tags...)
}

func (m *fmodel) verifyStats(got map[string]float64, meas string, tags ...string) {
	s := key(meas, tags...)
	want := map[string]float64{}
	var ec int64
	for k, n := range m.errs {
		ec += n
		want[key(meas, append([]string{"error_name", k}, tags...)...)+".count"] = float64(n)
	}
	want[s+".current"] = float64(m.cur)
	want[s+".highwater"] = float64(m.high)
	want[s+".successes"] = float64(len(m.succ))
	want[s+".errors"] = float64(ec)
	want[s+".panics"] = float64(m.panics)
	want[s+".failures"] = float64(ec + m.panics)
	want[s+".total"] = float64(ec + m.panics + int64(len(m.succ)))
	for kind, vals := range map[string][]float64{"success": m.succ, "failure": m.failT} {
		ts := key(meas+"_times", append([]string{"kind", kind}, tags...)...)
		for k, v := range distWant(ts, vals) {
			want[k] = v
		}
		stripR(got, ts)
	}
	mustSame(got, want, "function statistics")
}

type openTask struct {
	exit  func(*error)
	start time.Time
	ctx   context.Context
}

// startKind starts a task one of the five ways.
func startKind(kind int, s *monkit.Scope, f *monkit.Func, ctx *context.Context) func(*error) {
	switch kind {
	case 0:
		return f.Task(ctx)
	case 1:
		return f.ResetTrace(ctx)
	case 2:
		return f.RemoteTrace(ctx, 77, monkit.NewTrace(5))
	case 3:
		return f.Observe()
	case 4:
		return f.RemoteTrace(ctx, 77, nil)
	case 5:
		return f.Task(nil)
	case 6:
		return s.TaskNamed("f")(ctx, 1, "x")
	}
	panic("kind")
}

func init() {
	// every history of starts and finishes, in every order and with every
	// outcome, of up to three simultaneous tasks of one function
	seq("C01", "histories", func() {
		r := monkit.NewRegistry()
		s := r.ScopeNamed("sc")
		f := s.FuncNamed("f")
		m := newFmodel()
		var open []openTask
		depth := q(7, 9)
		for i := 0; i < depth; i++ {
			outs := []outcome{oOK, oEOF, oPanic}
			if i == depth-1 {
				outs = []outcome{oOK, oNilPtr, oEOF, oPlain, oNamed, oPanic, oPanicErr, oPanicNil, oPanicIsErr}
			}
			n := 1 + len(open)*len(outs)
			if i == depth-1 {
				n-- // no point in starting one more
			}
			if n == 0 {
				break
			}
			c := choose(n)
			if i != depth-1 {
				c--
			}
			adv(time.Duration(i+1)*time.Second + time.Duration(i)*time.Nanosecond)
			if c < 0 {
				if len(open) == 3 {
					return
				}
				ctx := context.Background()
				if len(open) > 0 {
					ctx = open[len(open)-1].ctx
				}
				m.start()
				t := sched.Now()
				exit := f.Task(&ctx)
				open = append(open, openTask{exit, t, ctx})
			} else {
				o := open[c/len(outs)]
				open = append(append([]openTask(nil), open[:c/len(outs)]...), open[c/len(outs)+1:]...)
				finish(o.exit, outs[c%len(outs)])
				m.end(outs[c%len(outs)], sched.Now().Sub(o.start))
			}
			m.verify(&f.FuncStats, "function", "name", "f")
		}
		note("succ=%d errs=%d panics=%d open=%d", len(m.succ), len(m.errs), m.panics, len(open))
	})

	// every way to start a task, every outcome, twice in a row
	seq("C01", "kinds", func() {
		r := monkit.NewRegistry()
		s := r.ScopeNamed("sc")
		f := s.FuncNamed("f")
		m := newFmodel()
		for i := 0; i < 2; i++ {
			kind := choose(7)
			o := outcome(choose(int(nOutcomes)))
			ctx := context.Background()
			m.start()
			exit := startKind(kind, s, f, &ctx)
			m.verify(&f.FuncStats, "function", "name", "f")
			d := time.Duration(3*i+1)*time.Millisecond + 137
			adv(d)
			finish(exit, o)
			m.end(o, d)
			m.verify(&f.FuncStats, "function", "name", "f")
		}
		if choose(2) == 1 {
			f.Reset()
			m = newFmodel()
			m.verify(&f.FuncStats, "function", "name", "f")
			m.start()
			exit := f.Task(nil)
			finish(exit, oPlain)
			m.end(oPlain, 0)
			m.verify(&f.FuncStats, "function", "name", "f")
		}
	})

	// free-standing function statistics with tags
	seq("C01", "funcstats", func() {
		f := monkit.NewFuncStats(monkit.NewSeriesKey("fs").WithTag("a", "b"))
		m := newFmodel()
		var exits []func(*error)
		for i := 0; i < 3; i++ {
			m.start()
			exits = append(exits, f.Observe())
			adv(time.Second)
		}
		for i := 0; i < 3; i++ {
			o := outcome(choose(int(nOutcomes)))
			k := choose(len(exits))
			finish(exits[k], o)
			exits = append(exits[:k:k], exits[k+1:]...)
			m.end(o, 0)
		}
		check(f.Current() == 0 && f.Highwater() == 3, "current %d highwater %d", f.Current(), f.Highwater())
		check(f.Success() == int64(len(m.succ)) && f.Panics() == m.panics && len(f.Errors()) == len(m.errs), "counts differ")
		for k, n := range m.errs {
			check(f.Errors()[k] == n, "errors %v want %v", f.Errors(), m.errs)
		}
	})

	// the returned error map is the caller's own
	seq("C01", "snapshots", func() {
		f := monkit.NewRegistry().ScopeNamed("x").FuncNamed("f")
		m := newFmodel()
		for i := 0; i < 2; i++ {
			e := f.Errors()
			st, ft := f.SuccessTimes(), f.FailureTimes()
			e["EOF"] += 10
			e["bogus"] = 1
			st.Insert(time.Hour)
			ft.Insert(time.Hour)
			st.Reset()
			o := outcome(choose(int(nOutcomes)))
			m.start()
			exit := f.Task(nil)
			adv(time.Second)
			finish(exit, o)
			m.end(o, time.Second)
			m.verify(&f.FuncStats, "function", "name", "f")
		}
	})

	concFunc := func(name string, bq, bt Bounds, race int, threads [][]outcome, reader bool) {
		conc("C01", name, bq, bt, race, func() {
			r := monkit.NewRegistry()
			f := r.ScopeNamed("sc").FuncNamed("f")
			tr := &tracker{}
			var fns []func()
			m := newFmodel()
			for _, outs := range threads {
				outs := outs
				for _, o := range outs {
					m.cur++
					m.end(o, 0)
				}
				fns = append(fns, func() {
					for _, o := range outs {
						tr.starting()
						exit := f.Task(nil)
						tr.started()
						tr.ending()
						finish(exit, o)
						tr.ended()
					}
				})
			}
			if reader {
				fns = append(fns, func() {
					w := tr.begin()
					c := f.Current()
					check(c >= w.lo && c <= w.hi, "current = %d while between %d and %d tasks run", c, w.lo, w.hi)
					got := statMap(f)
					s := key("function", "name", "f")
					check(got[s+".total"] == got[s+".successes"]+got[s+".errors"]+got[s+".panics"], "total %v != successes %v + errors %v + panics %v", got[s+".total"], got[s+".successes"], got[s+".errors"], got[s+".panics"])
					check(got[s+".failures"] == got[s+".errors"]+got[s+".panics"], "failures inconsistent")
					check(got[key("function_times", "name", "f", "kind", "success")+".count"] == got[s+".successes"], "success times inconsistent with successes")
					check(got[key("function_times", "name", "f", "kind", "failure")+".count"] == got[s+".failures"], "failure times inconsistent with failures")
					h := f.Highwater()
					check(h >= w.lo && h <= tr.maxPos, "highwater %d not in [%d,%d]", h, w.lo, tr.maxPos)
				})
			}
			par(fns...)
			h := f.Highwater()
			check(h >= tr.maxDef && h <= tr.maxPos, "highwater %d, certainly %d and at most %d tasks ran at once", h, tr.maxDef, tr.maxPos)
			m.high = h
			m.verify(&f.FuncStats, "function", "name", "f")
			note("highwater=%d", h)
		})
	}
	concFunc("two-tasks", Bounds{2, 4}, Bounds{3, 6}, 2, [][]outcome{{oOK}, {oEOF}}, false)
	concFunc("error-error", Bounds{2, 3}, Bounds{3, 5}, 1, [][]outcome{{oEOF}, {oEOF}}, false)
	concFunc("panic-error", Bounds{1, 3}, Bounds{2, 5}, 1, [][]outcome{{oPanic}, {oPlain}}, false)
	concFunc("three-tasks", Bounds{1, 2}, Bounds{2, 3}, 1, [][]outcome{{oOK}, {oOK}, {oNamed}}, false)
	concFunc("task-reader", Bounds{1, 3}, Bounds{2, 5}, 1, [][]outcome{{oOK, oEOF}}, true)
	concFunc("tasks-reader", Bounds{1, 2}, Bounds{2, 3}, 1, [][]outcome{{oPanic}, {oOK}}, true)

	// calls that only start: all of them run at once in the end
	starts := func(name string, bq, bt Bounds, race, n int, direct bool) {
		conc("C01", name, bq, bt, race, func() {
			r := monkit.NewRegistry()
			f := r.ScopeNamed("sc").FuncNamed("f")
			st := &f.FuncStats
			if direct {
				st = monkit.NewFuncStats(monkit.NewSeriesKey("k"))
			}
			exits := make([]func(*error), n)
			var fns []func()
			for i := 0; i < n; i++ {
				i := i
				fns = append(fns, func() {
					if direct {
						exits[i] = st.Observe()
					} else {
						exits[i] = f.Task(nil)
					}
				})
			}
			par(fns...)
			check(st.Current() == int64(n), "current %d while %d calls run", st.Current(), n)
			check(st.Highwater() == int64(n), "highwater %d although %d calls run at once", st.Highwater(), n)
			for i, e := range exits {
				e(nil)
				check(st.Current() == int64(n-1-i), "current %d", st.Current())
			}
			check(st.Highwater() == int64(n), "highwater %d although %d calls ran at once", st.Highwater(), n)
			check(st.Success() == int64(n), "%d successes, want %d", st.Success(), n)
		})
	}
	starts("starts-2", Bounds{2, 4}, Bounds{3, 8}, 1, 2, false)
	starts("starts-3", Bounds{1, 3}, Bounds{2, 4}, 1, 3, false)
	starts("observes-2", Bounds{3, 6}, Bounds{5, 10}, 2, 2, true)
	starts("observes-3", Bounds{2, 3}, Bounds{3, 5}, 1, 3, true)
}

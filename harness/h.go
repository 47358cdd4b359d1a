package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

var thorough bool

func tierName() string {
	if thorough {
		return "thorough"
	}
	return "quick"
}

// q picks a bound by tier.
func q(quick, thor int) int {
	if thorough {
		return thor
	}
	return quick
}

var fail = sched.Fail
var choose = sched.Choose
var note = sched.Note
var logf = sched.Logf

func check(ok bool, format string, args ...any) {
	if !ok {
		fail(format, args...)
	}
}

// par runs the functions as concurrent threads and joins them.
func par(fns ...func()) {
	ts := make([]*sched.Thread, len(fns))
	for i, f := range fns {
		ts[i] = sched.Spawn(fmt.Sprintf("w%d", i), f)
	}
	sched.Join(ts...)
}

// catch runs f and returns what it panicked with.
func catch(f func()) (rec any, panicked bool) {
	panicked = true
	defer func() {
		if panicked {
			rec = recover()
		}
	}()
	f()
	panicked = false
	return nil, false
}

func pick[T any](xs ...T) T { return xs[choose(len(xs))] }

// stat is one reported statistic, with the series rendered independently of
// the code under test.
type stat struct {
	Series string
	Field  string
	Val    float64
}

func renderKey(k monkit.SeriesKey) string {
	var parts []string
	for t, v := range k.Tags.All() {
		parts = append(parts, fmt.Sprintf("%q=%q", t, v))
	}
	sort.Strings(parts)
	return fmt.Sprintf("%q{%s}", k.Measurement, strings.Join(parts, ","))
}

func stats(src monkit.StatSource) (out []stat) {
	src.Stats(func(key monkit.SeriesKey, field string, val float64) {
		out = append(out, stat{renderKey(key), field, val})
	})
	return out
}

// statMap is stats as a map; a statistic reported twice is a violation.
func statMap(src monkit.StatSource) map[string]float64 {
	m := map[string]float64{}
	for _, s := range stats(src) {
		k := s.Series + "." + s.Field
		if _, dup := m[k]; dup {
			fail("statistic %s reported twice", k)
		}
		m[k] = s.Val
	}
	return m
}

func feq(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

// near compares with relative tolerance, for values that pass through
// different but equivalent floating point expressions.
func near(a, b, rel float64) bool {
	if feq(a, b) {
		return true
	}
	d := math.Abs(a - b)
	m := math.Max(math.Abs(a), math.Abs(b))
	return d <= rel*m+1e-12
}

func sameStats(got, want map[string]float64) error {
	for k, w := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Errorf("statistic %s is missing (want %v); got %v", k, w, short(got))
		}
		if !near(g, w, 1e-9) {
			return fmt.Errorf("statistic %s = %v, want %v", k, g, w)
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok {
			return fmt.Errorf("unexpected statistic %s = %v", k, g)
		}
	}
	return nil
}

func short(m map[string]float64) string {
	s := fmt.Sprint(m)
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

func mustSame(got, want map[string]float64, ctx string) {
	if err := sameStats(got, want); err != nil {
		fail("%s: %v", ctx, err)
	}
}

// key renders a series the way renderKey does.
func key(measurement string, tags ...string) string {
	k := monkit.SeriesKey{}
	_ = k
	var parts []string
	m := map[string]string{}
	for i := 0; i < len(tags); i += 2 {
		m[tags[i]] = tags[i+1]
	}
	for t, v := range m {
		parts = append(parts, fmt.Sprintf("%q=%q", t, v))
	}
	sort.Strings(parts)
	return fmt.Sprintf("%q{%s}", measurement, strings.Join(parts, ","))
}

func sortedKeys(m map[string]int64) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func deepEq(a, b any) bool { return reflect.DeepEqual(a, b) }

// ---- linearizability, by brute force over orders ----

type lop struct {
	call, ret int
	name      string
	apply     func(state any) (any, bool) // new state, and whether the recorded result fits
}

type history struct{ ops []*lop }

// do records one operation: f runs it and returns how to apply it.
//
//go:norace
func (h *history) do(slot *lop, name string, f func() func(any) (any, bool)) {
	slot.name = name
	slot.call = sched.Step()
	slot.apply = f()
	slot.ret = sched.Step()
}

// linearizable says whether some order of ops that respects real time fits.
func linearizable(ops []*lop, state any, final func(any) bool) bool {
	used := make([]bool, len(ops))
	var rec func(n int, st any) bool
	rec = func(n int, st any) bool {
		if n == len(ops) {
			return final == nil || final(st)
		}
		for i, o := range ops {
			if used[i] {
				continue
			}
			ok := true
			for j, p := range ops {
				if !used[j] && j != i && p.ret < o.call {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			ns, fits := o.apply(st)
			if !fits {
				continue
			}
			used[i] = true
			if rec(n+1, ns) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(0, state)
}

func opNames(ops []*lop) string {
	var s []string
	for _, o := range ops {
		s = append(s, fmt.Sprintf("%s[%d,%d]", o.name, o.call, o.ret))
	}
	return strings.Join(s, " ")
}

// span of possible values of a quantity while an observation runs.
type window struct{ lo, hi int64 }

type tracker struct {
	def, pos int64 // certainly and possibly in flight
	maxDef   int64
	maxPos   int64
	obs      []*window
}

//go:norace
func (t *tracker) upd() {
	if t.def > t.maxDef {
		t.maxDef = t.def
	}
	if t.pos > t.maxPos {
		t.maxPos = t.pos
	}
	for _, w := range t.obs {
		if t.def < w.lo {
			w.lo = t.def
		}
		if t.pos > w.hi {
			w.hi = t.pos
		}
	}
}

//go:norace
func (t *tracker) starting() { t.pos++; t.upd() }

//go:norace
func (t *tracker) started() { t.def++; t.upd() }

//go:norace
func (t *tracker) ending() { t.def--; t.upd() }

//go:norace
func (t *tracker) ended() { t.pos--; t.upd() }

//go:norace
func (t *tracker) begin() *window {
	w := &window{t.def, t.pos}
	t.obs = append(t.obs, w)
	return w
}

func adv(d time.Duration) { sched.Advance(d) }

// elapse lets d pass like adv, but everything that is due on the way happens at
// its time: no thread lags behind the clock.
func elapse(d time.Duration) {
	for i := 0; ; i++ {
		next, ok := sched.NextTimer()
		if !ok || next > d || i > 1000 {
			break
		}
		adv(next)
		settle()
		d -= next
	}
	adv(d)
	settle()
}

// distWant is the expected statistics of a distribution after vals.
func distWant(series string, vals []float64) map[string]float64 {
	m := map[string]float64{series + ".count": float64(len(vals))}
	if len(vals) == 0 {
		return m
	}
	sum, lo, hi := 0.0, vals[0], vals[0]
	for _, v := range vals {
		sum += v
		lo = math.Min(lo, v)
		hi = math.Max(hi, v)
	}
	m[series+".sum"] = sum
	m[series+".min"] = lo
	m[series+".max"] = hi
	m[series+".recent"] = vals[len(vals)-1]
	return m
}

// stripR removes the reservoir estimates from m after checking that they lie
// between the smallest and the largest value.
func stripR(m map[string]float64, series string) {
	for _, f := range []string{"rmin", "ravg", "r10", "r50", "r90", "r99", "rmax"} {
		k := series + "." + f
		v, ok := m[k]
		if m[series+".count"] == 0 {
			check(!ok, "%s reported for an empty distribution", k)
			continue
		}
		check(ok, "%s is missing", k)
		lo, hi := m[series+".min"], m[series+".max"]
		eps := 1e-6*(math.Abs(lo)+math.Abs(hi)) + 1e-12
		check(v >= lo-eps && v <= hi+eps, "%s = %v outside [%v, %v]", k, v, lo, hi)
		delete(m, k)
	}
}

// evlog records events from several threads without synchronising them.
type event struct {
	who   int
	kind  int
	sp    *monkit.Span
	tr    *monkit.Trace
	step  int
	err   error
	pan   bool
	at    time.Time
	extra int
}

type evlog struct {
	n  int
	ev [512]event
}

//go:norace
func (l *evlog) add(e event) {
	e.step = sched.Step()
	if l.n < len(l.ev) {
		l.ev[l.n] = e
		l.n++
	}
}

//go:norace
func (l *evlog) count(who, kind int, sp *monkit.Span) (n int) {
	for i := 0; i < l.n; i++ {
		e := &l.ev[i]
		if e.who == who && e.kind == kind && (sp == nil || e.sp == sp) {
			n++
		}
	}
	return n
}

//go:norace
func (l *evlog) countTr(who int, tr *monkit.Trace) (n int) {
	for i := 0; i < l.n; i++ {
		if l.ev[i].who == who && l.ev[i].tr == tr {
			n++
		}
	}
	return n
}

//go:norace
func (l *evlog) find(who, kind int, sp *monkit.Span) *event {
	for i := 0; i < l.n; i++ {
		e := &l.ev[i]
		if e.who == who && e.kind == kind && e.sp == sp {
			return e
		}
	}
	return nil
}

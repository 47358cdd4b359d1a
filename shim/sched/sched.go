// Package sched is a cooperative scheduler for the instrumented build of
// monkit: exactly one controlled goroutine ("thread") runs at any time, and
// every synchronisation operation, shared-memory statement, clock read and
// environment answer is a point at which the explorer decides what happens
// next. It is linked into the code under test by rewriting sync, sync/atomic,
// channel operations, go statements, time and rand (see tools/vdrive).
//
// Everything that runs inside a controlled thread is marked norace and avoids
// maps and append, so that in -race builds the race detector sees only the
// happens-before edges of the program under test.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
	"time"
	"unsafe"
)

const (
	MaxThreads = 32
	maxPoints  = 1 << 16
	MaxSteps   = 4000000
	spinLimit  = 400 // steps without a switch, others enabled: forced yield
)

// Point kinds.
const (
	KPreempt = 0 // running thread still enabled: picking another costs 1
	KSwitch  = 1 // running thread blocked, finished or yielded: free choice
	KData    = 2 // environment answer or operation choice: free choice
	KDev     = 3 // environment answer where non-zero costs one deviation
)

type Pt struct {
	N    int32
	Pick int32
	Kind uint8
}

// Waiter is what a blocked thread waits for.
type Waiter interface{ Ready() bool }

type Thread struct {
	ID      int
	Name    string
	ch      chan struct{}
	done    bool
	started bool
	daemon  bool
	wait    Waiter
	waitMsg string
	yields  uint32 // threads that must step or block before this one may run again
	site    int32
	joinKey byte
	e       *Exec
}

type timerEntry struct {
	when   int64
	seq    int64
	live   bool
	period int64
	ch     chan time.Time
	f      func()
}

// Exec is one execution.
type Exec struct {
	threads  [MaxThreads]*Thread
	nth      int
	running  *Thread
	prefix   []int32
	points   []Pt
	npoints  int
	steps    int
	noSwitch int
	switches int

	aborting bool
	killing  bool
	killed   chan struct{}
	fin      chan struct{}
	failed   bool
	failMsg  string
	failKind string
	diverged bool

	StmtPoints bool // statement-level points on
	free       bool // no scheduling choices (sequential section)

	clock   int64
	tick    int64 // added on every clock read
	timers  []*timerEntry
	ntimers int
	tseq    int64
	adv     int

	randState uint64
	MapOrder  int // 0 ascending, 1 descending, 2 alternating
	maps      int // iterations over more than one key

	Log    []string
	logOn  bool
	Notes  map[string]int
	cover  []byte
	rounds int
}

var (
	active bool  // a session is running
	cur    *Exec // the session
)

// Active says whether a controlled session is running.
//
//go:norace
func Active() bool { return active && !cur.aborting }

// Cur returns the current session or nil.
//
//go:norace
func Cur() *Exec {
	if active {
		return cur
	}
	return nil
}

type abortSignal struct{}

// P is a statement-level point.
//
//go:norace
func P(site int32) {
	if !active {
		return
	}
	e := cur
	if e.aborting {
		return
	}
	e.running.site = site
	if e.StmtPoints {
		e.point()
	} else {
		e.countStep()
	}
}

// L is the point at the top of every loop body.
//
//go:norace
func L(site int32) {
	if !active {
		return
	}
	e := cur
	if e.aborting {
		if e.killing {
			runtime.Goexit()
		}
		return
	}
	e.running.site = site
	e.countStep()
}

// Sync is a point before a synchronisation operation.
//
//go:norace
func Sync() {
	if !active || cur.aborting {
		return
	}
	cur.point()
}

//go:norace
func (e *Exec) countStep() {
	e.steps++
	if e.steps > MaxSteps {
		e.failNow("livelock", "no completion within the step horizon")
	}
}

//go:norace
func (t *Thread) enabled() bool {
	if t.done || !t.started {
		return false
	}
	if t.wait == nil {
		return true
	}
	return t.wait.Ready()
}

//go:norace
func (e *Exec) point() {
	e.countStep()
	if e.free || e.nth == 1 {
		return
	}
	t := e.running
	// the running thread makes a step: threads that yielded may run again
	e.stepped(t)
	e.noSwitch++
	if e.noSwitch > spinLimit {
		e.noSwitch = 0
		e.yield(t)
	}
	e.reschedule(t)
}

// stepped notes that t makes a step.
//
//go:norace
func (e *Exec) stepped(t *Thread) {
	m := ^(uint32(1) << uint(t.ID))
	for i := 0; i < e.nth; i++ {
		e.threads[i].yields &= m
	}
	t.yields = 0
}

// yield makes t wait until every thread that can run now has made a step or
// has become unable to run (fair scheduling of busy waiting).
//
//go:norace
func (e *Exec) yield(t *Thread) {
	t.yields = 0
	for i := 0; i < e.nth; i++ {
		if o := e.threads[i]; o != t && o.enabled() {
			t.yields |= 1 << uint(i)
		}
	}
}

// held says whether t still has to let others go first.
//
//go:norace
func (e *Exec) held(t *Thread) bool {
	if t.yields == 0 {
		return false
	}
	for i := 0; i < e.nth; i++ {
		if t.yields&(1<<uint(i)) != 0 && e.threads[i].enabled() {
			return true
		}
	}
	t.yields = 0
	return false
}

// Gosched yields.
//
//go:norace
func Gosched() {
	if !active {
		runtime.Gosched()
		return
	}
	e := cur
	if e.aborting {
		if e.killing {
			runtime.Goexit()
		}
		return
	}
	e.countStep()
	if e.free || e.nth == 1 {
		return
	}
	t := e.running
	e.stepped(t)
	e.yield(t)
	e.reschedule(t)
}

// Wait blocks the running thread until w is ready. It does not include a
// point of its own when w is ready at once.
//
//go:norace
func Wait(w Waiter, msg string) {
	e := cur
	if e.aborting {
		if e.killing {
			runtime.Goexit()
		}
		return
	}
	t := e.running
	if w.Ready() {
		return
	}
	t.wait = w
	t.waitMsg = msg
	e.countStep()
	e.reschedule(t)
	t.wait = nil
}

// reschedule picks the next thread. t is the running thread.
//
//go:norace
func (e *Exec) reschedule(t *Thread) {
	var en [MaxThreads]*Thread
	for {
		n := 0
		ten := t.enabled()
		if ten && !e.held(t) {
			en[n] = t
			n++
		}
		for i := 0; i < e.nth; i++ {
			o := e.threads[i]
			if o == t || !o.enabled() || e.held(o) {
				continue
			}
			en[n] = o
			n++
		}
		if n == 0 {
			// only yielders, or nobody
			for i := 0; i < e.nth; i++ {
				o := e.threads[i]
				if o.enabled() {
					o.yields = 0
					en[n] = o
					n++
				}
			}
			if n > 0 && ten && en[0] != t {
				// keep canonical order: running first
				for i := 0; i < n; i++ {
					if en[i] == t {
						for j := i; j > 0; j-- {
							en[j] = en[j-1]
						}
						en[0] = t
						break
					}
				}
			}
		}
		if n == 0 {
			if e.fireNext() {
				continue
			}
			e.failNow("deadlock", e.describe())
			return
		}
		pick := 0
		if n > 1 {
			kind := uint8(KSwitch)
			if ten && en[0] == t {
				kind = KPreempt
			}
			pick = e.choose(n, kind)
		}
		next := en[pick]
		if next == t {
			return
		}
		e.noSwitch = 0
		e.switches++
		if e.logOn {
			e.logSwitch(t, next)
		}
		e.handoff(t, next)
		return
	}
}

//go:norace
func (e *Exec) handoff(from, to *Thread) {
	raceDisable()
	e.running = to
	to.ch <- struct{}{}
	<-from.ch
	raceEnable()
	if e.aborting {
		runtime.Goexit()
	}
}

//go:norace
func (e *Exec) choose(n int, kind uint8) int {
	i := e.npoints
	if i >= maxPoints {
		e.failNow("horizon", "too many choice points")
	}
	pick := int32(0)
	if i < len(e.prefix) {
		pick = e.prefix[i]
		if int(pick) >= n || pick < 0 {
			e.diverged = true
			pick = 0
		}
	}
	e.points[i] = Pt{N: int32(n), Pick: pick, Kind: kind}
	e.npoints++
	return int(pick)
}

// Choose is a free environment or operation choice in [0,n).
//
//go:norace
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if !active || cur.aborting {
		return 0
	}
	return cur.choose(n, KData)
}

// Deviate is an environment choice in [0,n) whose non-zero answers each count
// against the deviation bound.
//
//go:norace
func Deviate(n int) int {
	if n <= 1 || !active || cur.aborting {
		return 0
	}
	return cur.choose(n, KDev)
}

// Spawn starts a controlled thread for a go statement of the code under test.
//
//go:norace
func Go(f func()) {
	if !active || cur.aborting {
		// outside a session (package initialisation): goroutines are not
		// started, so that no uncontrolled goroutine ever runs.
		return
	}
	t := cur.spawn("go", f, true)
	_ = t
	cur.point()
}

//go:norace
func (e *Exec) spawn(name string, f func(), daemon bool) *Thread {
	if e.nth >= MaxThreads {
		e.failNow("horizon", "too many threads")
	}
	t := &Thread{ID: e.nth, Name: name, ch: make(chan struct{}, 1), daemon: daemon, e: e}
	e.threads[e.nth] = t
	e.nth++
	t.started = true
	go t.main(f)
	return t
}

//go:norace
func (t *Thread) main(f func()) {
	raceDisable()
	<-t.ch
	raceEnable()
	t.body(f)
}

//go:norace
func (t *Thread) body(f func()) {
	e := t.e
	ok := false
	defer func() {
		if !ok {
			if r := recover(); r != nil && !e.aborting {
				e.setFail("panic", fmt.Sprintf("thread %d (%s) panicked: %v\n%s", t.ID, t.Name, r, trimStack(string(debug.Stack()))))
			}
		}
		t.finish()
	}()
	if e.aborting {
		runtime.Goexit()
	}
	f()
	ok = true
}

//go:norace
func trimStack(s string) string {
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// finish ends the thread and passes control on.
//
//go:norace
func (t *Thread) finish() {
	e := t.e
	t.done = true
	Release(unsafe.Pointer(&t.joinKey))
	if e.killing {
		raceDisable()
		e.killed <- struct{}{}
		raceEnable()
		return
	}
	if e.failed || t.ID == 0 {
		e.aborting = true
		raceDisable()
		e.fin <- struct{}{}
		raceEnable()
		return
	}
	// hand over
	var en [MaxThreads]*Thread
	for {
		n := 0
		for pass := 0; pass < 2 && n == 0; pass++ {
			for i := 0; i < e.nth; i++ {
				o := e.threads[i]
				if !o.enabled() || (pass == 0 && e.held(o)) {
					continue
				}
				en[n] = o
				n++
			}
		}
		if n == 0 {
			if e.fireNext() {
				continue
			}
			e.setFail("deadlock", e.describe())
			e.aborting = true
			raceDisable()
			e.fin <- struct{}{}
			raceEnable()
			return
		}
		pick := 0
		if n > 1 {
			pick = e.choose(n, KSwitch)
		}
		next := en[pick]
		next.yields = 0
		e.noSwitch = 0
		e.switches++
		if e.logOn {
			e.logSwitch(t, next)
		}
		raceDisable()
		e.running = next
		next.ch <- struct{}{}
		raceEnable()
		return
	}
}

//go:norace
func (e *Exec) setFail(kind, msg string) {
	if !e.failed {
		e.failed = true
		e.failKind = kind
		e.failMsg = msg
	}
}

// failNow records a failure and ends the session from a controlled thread.
//
//go:norace
func (e *Exec) failNow(kind, msg string) {
	e.setFail(kind, msg)
	runtime.Goexit() // the deferred finish sees failed and ends the session
}

// Fail reports a property violation found by the harness.
//
//go:norace
func Fail(format string, args ...any) {
	e := cur
	if e == nil || e.aborting {
		return
	}
	e.failNow("property", fmt.Sprintf(format, args...))
}

//go:norace
func (e *Exec) describe() string {
	s := "no thread can run:"
	for i := 0; i < e.nth; i++ {
		t := e.threads[i]
		if !t.done {
			s += fmt.Sprintf(" [%d %s waits: %s at %s]", t.ID, t.Name, t.waitMsg, SiteName(t.site))
		}
	}
	return s
}

//go:norace
func (e *Exec) logSwitch(t, next *Thread) {
	if len(e.Log) < 4000 {
		st := "preempted"
		if t.done {
			st = "done"
		} else if t.wait != nil {
			st = "blocked: " + t.waitMsg
		} else if t.yields != 0 {
			st = "yielded"
		}
		e.Log = append(e.Log, fmt.Sprintf("step %d: t%d(%s) %s at %s -> t%d(%s) at %s", e.steps, t.ID, t.Name, st, SiteName(t.site), next.ID, next.Name, SiteName(next.site)))
	}
}

// Sites is filled by the generated site tables.
var Sites [1 << 17]string

//go:norace
func SiteName(i int32) string {
	if i <= 0 || int(i) >= len(Sites) {
		return "?"
	}
	return Sites[i]
}

// ---- virtual time ----

// Epoch is the virtual time at the start of every session.
var Epoch = time.Date(2020, 1, 2, 3, 4, 5, 123456789, time.UTC)

//go:norace
func Now() time.Time {
	if active {
		e := cur
		e.clock += e.tick
		return Epoch.Add(time.Duration(e.clock))
	}
	return Epoch
}

//go:norace
func ClockNanos() int64 {
	if active {
		return cur.clock
	}
	return 0
}

type sleepWait struct {
	e    *Exec
	when int64
}

//go:norace
func (w *sleepWait) Ready() bool { return w.e.clock >= w.when }

//go:norace
func Sleep(d time.Duration) {
	if !active || cur.aborting {
		if active && cur.killing {
			runtime.Goexit()
		}
		return
	}
	e := cur
	e.point()
	if d <= 0 {
		return
	}
	// a timer entry with no channel makes the clock able to advance to it
	w := &sleepWait{e, e.clock + int64(d)}
	te := e.addTimer(w.when, 0, nil, nil)
	Wait(w, "sleep")
	te.live = false
}

//go:norace
func (e *Exec) addTimer(when, period int64, ch chan time.Time, f func()) *timerEntry {
	te := &timerEntry{when: when, seq: e.tseq, live: true, period: period, ch: ch, f: f}
	e.tseq++
	for i := 0; i < e.ntimers; i++ {
		if !e.timers[i].live {
			e.timers[i] = te
			return te
		}
	}
	if e.ntimers >= len(e.timers) {
		e.failNow("horizon", "too many timers")
	}
	e.timers[e.ntimers] = te
	e.ntimers++
	return te
}

//go:norace
func (e *Exec) earliest() *timerEntry {
	var best *timerEntry
	for i := 0; i < e.ntimers; i++ {
		te := e.timers[i]
		if !te.live {
			continue
		}
		if best == nil || te.when < best.when || (te.when == best.when && te.seq < best.seq) {
			best = te
		}
	}
	return best
}

// fireNext advances the clock to the earliest timer when nobody can run.
//
//go:norace
func (e *Exec) fireNext() bool {
	if e.adv <= 0 {
		return false
	}
	te := e.earliest()
	if te == nil {
		return false
	}
	e.adv--
	if te.when > e.clock {
		e.clock = te.when
	}
	e.fire(te)
	return true
}

//go:norace
func (e *Exec) fire(te *timerEntry) {
	if te.period > 0 {
		te.when += te.period
	} else {
		te.live = false
	}
	if te.ch != nil {
		raceDisable()
		select {
		case te.ch <- Epoch.Add(time.Duration(e.clock)):
		default:
		}
		raceEnable()
	}
	if te.f != nil {
		f := te.f
		e.spawn("timer", f, true)
	}
}

// Advance moves the virtual clock forward by d, firing timers in order.
//
//go:norace
func Advance(d time.Duration) {
	if !active || cur.aborting {
		return
	}
	e := cur
	target := e.clock + int64(d)
	for {
		te := e.earliest()
		if te == nil || te.when > target {
			break
		}
		if te.when > e.clock {
			e.clock = te.when
		}
		if te.ch == nil && te.f == nil {
			te.live = false // sleeper: ready by the clock
			continue
		}
		e.fire(te)
	}
	if target > e.clock {
		e.clock = target
	}
	e.point()
}

// NextTimer returns how far away the earliest pending timer or sleeper is.
//
//go:norace
func NextTimer() (d time.Duration, ok bool) {
	if !active || cur.aborting {
		return 0, false
	}
	te := cur.earliest()
	if te == nil {
		return 0, false
	}
	if te.when <= cur.clock {
		return 0, true
	}
	return time.Duration(te.when - cur.clock), true
}

// SetTick makes every clock read advance the clock by d.
//
//go:norace
func SetTick(d time.Duration) { cur.tick = int64(d) }

// Timer handles for vtime.
type TimerHandle struct{ te *timerEntry }

//go:norace
func NewTimer(d time.Duration, period time.Duration, ch chan time.Time, f func()) *TimerHandle {
	if !active || cur.aborting {
		return &TimerHandle{}
	}
	return &TimerHandle{cur.addTimer(cur.clock+int64(d), int64(period), ch, f)}
}

//go:norace
func (h *TimerHandle) Stop() bool {
	if h.te == nil {
		return false
	}
	was := h.te.live
	h.te.live = false
	return was
}

//go:norace
func (h *TimerHandle) Reset(d, period time.Duration) bool {
	if h.te == nil || !active || cur.aborting {
		return false
	}
	was := h.te.live
	ch, f := h.te.ch, h.te.f
	h.te.live = false
	h.te = cur.addTimer(cur.clock+int64(d), int64(period), ch, f)
	return was
}

// ---- randomness ----

//go:norace
func Rand64() uint64 {
	if !active {
		return splitmix(&initRand)
	}
	return splitmix(&cur.randState)
}

var initRand uint64 = 42

//go:norace
func splitmix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SetRandSeed fixes the generator of the session.
//
//go:norace
func SetRandSeed(s uint64) { cur.randState = s }

// ---- harness API ----

// Step returns the number of steps made so far: a logical time stamp.
//
//go:norace
func Step() int { cur.steps++; return cur.steps }

//go:norace
func Self() int { return cur.running.ID }

type joinWait struct{ ts []*Thread }

//go:norace
func (w *joinWait) Ready() bool {
	for _, t := range w.ts {
		if !t.done {
			return false
		}
	}
	return true
}

// Spawn starts a harness thread.
//
//go:norace
func Spawn(name string, f func()) *Thread {
	return cur.spawn(name, f, false)
}

// Join waits for threads to finish.
//
//go:norace
func Join(ts ...*Thread) {
	if cur.aborting {
		return
	}
	Wait(&joinWait{ts}, "join")
	for _, t := range ts {
		Acquire(unsafe.Pointer(&t.joinKey))
	}
}

//go:norace
func (t *Thread) Done() bool { return t.done }

// Blocked says whether the thread currently waits for something not ready.
//
//go:norace
func (t *Thread) Blocked() bool { return !t.done && t.wait != nil && !t.wait.Ready() }

// Quiesce lets every other thread run until it finishes or blocks (used by
// a harness thread to wait for background goroutines to settle).
type quiesceWait struct {
	e    *Exec
	self *Thread
}

//go:norace
func (w *quiesceWait) Ready() bool {
	for i := 0; i < w.e.nth; i++ {
		t := w.e.threads[i]
		if t == w.self || t.done {
			continue
		}
		if q, ok := t.wait.(*quiesceWait); ok && q != nil {
			continue
		}
		if t.wait == nil || t.wait.Ready() {
			return false
		}
	}
	return true
}

//go:norace
func Quiesce() {
	if cur.aborting {
		return
	}
	Wait(&quiesceWait{cur, cur.running}, "quiesce")
}

// Sequential runs f without scheduling choices.
//
//go:norace
func Sequential(f func()) {
	e := cur
	old := e.free
	e.free = true
	f()
	e.free = old
}

// Note counts an observed outcome.
//
//go:norace
func Note(format string, args ...any) {
	e := cur
	if e == nil || e.aborting {
		return
	}
	noteMu.Lock()
	e.Notes[fmt.Sprintf(format, args...)]++
	noteMu.Unlock()
}

var noteMu sync.Mutex

// Logf adds a line to the log of a replay.
//
//go:norace
func Logf(format string, args ...any) {
	e := cur
	if e != nil && e.logOn && !e.aborting {
		e.Log = append(e.Log, fmt.Sprintf("step %d: t%d: ", e.steps, e.running.ID)+fmt.Sprintf(format, args...))
	}
}

// ---- running one execution ----

type Config struct {
	Stmt     bool
	MapOrder int
	Advances int // how often the clock may advance by itself when all block
	Log      bool
	Seed     uint64
}

type Result struct {
	Failed   bool
	Kind     string
	Msg      string
	Points   []Pt
	Steps    int
	Switches int
	Diverged bool
	Log      []string
	Notes    map[string]int
	Races    int
	Maps     int // iterations over maps with more than one key
}

var shared = make([]Pt, maxPoints)
var sharedTimers = make([]*timerEntry, 4096)

// Run executes body once, following prefix.
//
//go:norace
func Run(cfg Config, prefix []int32, body func()) *Result {
	resetGlobals()
	resetChans()
	e := &Exec{prefix: prefix, points: shared, fin: make(chan struct{}, 1), killed: make(chan struct{}, 1),
		timers: sharedTimers, StmtPoints: cfg.Stmt, MapOrder: cfg.MapOrder, adv: cfg.Advances, logOn: cfg.Log,
		randState: cfg.Seed, Notes: map[string]int{}}
	races := RaceErrors()
	cur = e
	active = true
	t := e.spawn("main", body, false)
	e.running = t
	t.ch <- struct{}{}
	<-e.fin
	// end whatever is left
	e.aborting = true
	e.killing = true
	for i := 0; i < e.nth; i++ {
		o := e.threads[i]
		if !o.done {
			o.ch <- struct{}{}
			<-e.killed
		}
		Acquire(unsafe.Pointer(&o.joinKey))
	}
	active = false
	cur = nil
	r := &Result{Failed: e.failed, Kind: e.failKind, Msg: e.failMsg, Steps: e.steps, Switches: e.switches,
		Diverged: e.diverged, Log: e.Log, Notes: e.Notes, Maps: e.maps}
	r.Points = e.points[:e.npoints]
	if n := RaceErrors() - races; n > 0 {
		r.Races = n
		if r.Failed {
			r.Msg = "; and then: " + r.Msg
		}
		r.Failed = true
		r.Kind = "race"
		r.Msg = "data race reported by the race detector" + r.Msg
	}
	for i := 0; i < e.ntimers; i++ {
		sharedTimers[i] = nil
	}
	return r
}

package sched

import (
	"runtime"
	"unsafe"
)

// Channel operations of the code under test. Buffered channels and closing are
// those of the real channel; an unbuffered send is an offer that a receiver
// takes. All communication is by the running thread only, so a non-blocking
// operation on the real channel is a probe.

type offer struct {
	ch    unsafe.Pointer
	val   any
	taken bool
	live  bool
}

const maxOffers = 64

type chanState struct {
	offers [maxOffers]*offer
	n      int
}

var chans chanState

//go:norace
func resetChans() {
	for i := 0; i < chans.n; i++ {
		chans.offers[i] = nil
	}
	chans.n = 0
	for i := 0; i < nclosed; i++ {
		closedCh[i] = nil
	}
	nclosed = 0
}

//go:norace
func addOffer(o *offer) {
	for i := 0; i < chans.n; i++ {
		if !chans.offers[i].live {
			chans.offers[i] = o
			return
		}
	}
	if chans.n >= maxOffers {
		cur.failNow("horizon", "too many pending sends")
	}
	chans.offers[chans.n] = o
	chans.n++
}

//go:norace
func findOffer(ch unsafe.Pointer) *offer {
	for i := 0; i < chans.n; i++ {
		if o := chans.offers[i]; o.live && o.ch == ch {
			return o
		}
	}
	return nil
}

func chanPtr[T any](ch <-chan T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&ch))
}

// Case is one communication of a select.
type Case interface {
	Ready() bool
	fire()
	wantsRecv() unsafe.Pointer // channel a receiver waits on, nil for senders
}

type RecvCase[T any] struct {
	ch     <-chan T
	V      T
	OK     bool
	got    bool
	closed bool
}

//go:norace
func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

//go:norace
func (c *RecvCase[T]) wantsRecv() unsafe.Pointer { return chanPtr(c.ch) }

//go:norace
func (c *RecvCase[T]) Ready() bool {
	if c.ch == nil {
		return false
	}
	if c.got || c.closed || len(c.ch) > 0 {
		return true
	}
	if findOffer(chanPtr(c.ch)) != nil {
		return true
	}
	raceDisable()
	defer raceEnable()
	select {
	case v, ok := <-c.ch:
		if ok {
			c.V, c.OK, c.got = v, true, true
		} else {
			c.closed = true
		}
		return true
	default:
	}
	return false
}

//go:norace
func (c *RecvCase[T]) fire() {
	if c.got {
		Acquire(chanPtr(c.ch))
		return
	}
	if o := findOffer(chanPtr(c.ch)); o != nil && len(c.ch) == 0 {
		o.live = false
		o.taken = true
		c.V, c.OK = o.val.(T), true
		Acquire(chanPtr(c.ch))
		ReleaseMerge(unsafe.Pointer(o))
		return
	}
	// the real channel: buffered data or closed
	select {
	case c.V, c.OK = <-c.ch:
	default:
	}
}

type SendCase[T any] struct {
	ch chan<- T
	v  T
	o  *offer
}

//go:norace
func CaseSend[T any](ch chan<- T, v T) *SendCase[T] { return &SendCase[T]{ch: ch, v: v} }

//go:norace
func (c *SendCase[T]) wantsRecv() unsafe.Pointer { return nil }

//go:norace
func (c *SendCase[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&c.ch)) }

//go:norace
func (c *SendCase[T]) Ready() bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) > 0 {
		return len(c.ch) < cap(c.ch) || isClosed(c.ptr())
	}
	if isClosed(c.ptr()) {
		return true
	}
	// a receiver must be waiting
	return receiverWaiting(c.ptr(), cur.running)
}

//go:norace
func (c *SendCase[T]) fire() {
	if cap(c.ch) > 0 || isClosed(c.ptr()) {
		c.ch <- c.v // panics if closed
		return
	}
	Release(c.ptr())
	addOffer(&offer{ch: c.ptr(), val: c.v, live: true})
}

// closed channels of the session (kept alive by the references here).
var closedCh [512]unsafe.Pointer
var nclosed int

//go:norace
func isClosed(p unsafe.Pointer) bool {
	for i := 0; i < nclosed; i++ {
		if closedCh[i] == p {
			return true
		}
	}
	return false
}

//go:norace
func receiverWaiting(ch unsafe.Pointer, self *Thread) bool {
	e := cur
	for i := 0; i < e.nth; i++ {
		t := e.threads[i]
		if t == self || t.done || t.wait == nil {
			continue
		}
		switch w := t.wait.(type) {
		case *selectWait:
			for _, c := range w.cases {
				if c.wantsRecv() == ch {
					return true
				}
			}
		}
	}
	return false
}

type selectWait struct{ cases []Case }

//go:norace
func (w *selectWait) Ready() bool {
	for _, c := range w.cases {
		if c.Ready() {
			return true
		}
	}
	return false
}

// Select executes one ready case and returns its index, or -1 for default.
// Which of several ready cases is taken is explored.
//
//go:norace
func Select(hasDefault bool, cases ...Case) int {
	if !active {
		panic("sched: select outside a session")
	}
	e := cur
	if e.aborting {
		runtime.Goexit()
	}
	e.point()
	w := &selectWait{cases}
	for {
		var ready [16]int
		n := 0
		for i, c := range cases {
			if n < len(ready) && c.Ready() {
				ready[n] = i
				n++
			}
		}
		if n == 0 {
			if hasDefault {
				return -1
			}
			Wait(w, "select")
			continue
		}
		k := 0
		if n > 1 {
			k = e.choose(n, KData)
		}
		cases[ready[k]].fire()
		return ready[k]
	}
}

//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	c := CaseRecv(ch)
	if !active {
		v, ok := <-ch
		return v, ok
	}
	Select(false, c)
	return c.V, c.OK
}

type offerWait struct{ o *offer }

//go:norace
func (w *offerWait) Ready() bool { return w.o.taken }

//go:norace
func Send[T any](ch chan<- T, v T) {
	if !active {
		ch <- v
		return
	}
	e := cur
	if e.aborting {
		runtime.Goexit()
	}
	c := CaseSend(ch, v)
	if ch == nil || cap(ch) > 0 || isClosed(c.ptr()) {
		Select(false, c)
		return
	}
	e.point()
	o := &offer{ch: c.ptr(), val: v, live: true}
	Release(c.ptr())
	addOffer(o)
	Wait(&offerWait{o}, "send")
	Acquire(unsafe.Pointer(o))
}

//go:norace
func Close[T any](ch chan<- T) {
	if active && cur.aborting {
		defer func() { recover() }()
		close(ch)
		return
	}
	Sync()
	close(ch)
	if nclosed < len(closedCh) {
		closedCh[nclosed] = *(*unsafe.Pointer)(unsafe.Pointer(&ch))
		nclosed++
	}
}

type never struct{}

//go:norace
func (never) Ready() bool { return false }

// Block blocks forever (select {}).
func Block() {
	for {
		Wait(never{}, "forever")
		L(0)
	}
}

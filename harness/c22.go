package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"syscall"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
)

// C22: how errors are named.

type maybeErr struct {
	n  string
	ok bool
}

func (e maybeErr) Error() string        { return "maybe" }
func (e maybeErr) Name() (string, bool) { return e.n, e.ok }

type sliceErr []string // not comparable

func (e sliceErr) Error() string { return "slice" }

type myNetErr struct{}

func (myNetErr) Error() string   { return "net" }
func (myNetErr) Timeout() bool   { return false }
func (myNetErr) Temporary() bool { return false }

type slowErr struct{}

func (slowErr) Error() string { return "slow" }
func (slowErr) Timeout() bool { return true }

type slowNetErr struct{ slowErr }

func (slowNetErr) Temporary() bool { return true }

type c22case struct {
	err  error
	want string // without handlers
	what string
}

var c22cases = []c22case{
	{io.EOF, "EOF", "io.EOF"},
	{io.ErrUnexpectedEOF, "Unexpected EOF Error", "unexpected EOF"},
	{io.ErrClosedPipe, "Closed Pipe Error", "closed pipe"},
	{io.ErrNoProgress, "No Progress Error", "no progress"},
	{io.ErrShortBuffer, "Short Buffer Error", "short buffer"},
	{io.ErrShortWrite, "Short Write Error", "short write"},
	{context.Canceled, "Canceled", "canceled"},
	{context.DeadlineExceeded, "Timeout", "deadline"},
	{syscall.ENOENT, "Errno", "errno"},
	{&os.SyscallError{Syscall: "open", Err: syscall.ENOENT}, "System Error", "syscall error"},
	{net.UnknownNetworkError("x"), "Unknown Network Error", "unknown network"},
	{&net.AddrError{}, "Addr Error", "addr"},
	{net.InvalidAddrError("x"), "Invalid Addr Error", "invalid addr"},
	{&net.OpError{Op: "dial", Err: io.EOF}, "Net Op Error", "op"},
	{&net.ParseError{}, "Net Parse Error", "parse"},
	{&net.DNSError{}, "DNS Error", "dns"},
	{&net.DNSConfigError{Err: io.EOF}, "DNS Config Error", "dns config"},
	{myNetErr{}, "Network Error", "net error"},
	{slowErr{}, "System Error", "times out"},
	{slowNetErr{}, "Network Error", "net error that times out"},
	{&net.OpError{Op: "dial", Err: slowNetErr{}}, "Net Op Error", "op that times out"},
	{&net.DNSError{IsTimeout: true}, "DNS Error", "dns that times out"},
	{&os.SyscallError{Syscall: "read", Err: syscall.ETIMEDOUT}, "System Error", "syscall that times out"},
	{syscall.ETIMEDOUT, "Errno", "errno that times out"},
	{errors.New("EOF"), "System Error", "plain"},
	{fmt.Errorf("wrapped: %w", io.EOF), "System Error", "wrapped"},
	{fmt.Errorf("wrapped: %w", maybeErr{"mine", true}), "System Error", "wraps one that names itself"},
	{&os.PathError{Op: "open", Path: "x", Err: syscall.ENOENT}, "System Error", "wraps an errno"},
	{errors.Join(context.Canceled), "System Error", "joined"},
	{fmt.Errorf("wrapped: %w", &net.DNSError{}), "System Error", "wraps a network error"},
	{sliceErr{"a"}, "System Error", "not comparable"},
	{maybeErr{"mine", true}, "mine", "names itself"},
	{maybeErr{"", true}, "", "names itself empty"},
	{maybeErr{"mine", false}, "System Error", "declines to name itself"},
	{&namedErr{"ptr"}, "ptr", "names itself through a pointer"},
}

func init() {
	const kinds = 6
	seq("C22", "handlers", func() {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		c := c22cases[choose(len(c22cases))]
		var log []string
		want := map[string]int64{}
		var hs []int
		use := func() {
			log = nil
			var err error = c.err
			way := choose(2)
			if way == 0 {
				f.Task(nil)(&err)
			} else {
				f.Observe()(&err)
			}
			name, wl := c.want, []string{}
			for i := len(hs) - 1; i >= 0; i-- {
				wl = append(wl, fmt.Sprint(i))
				done := true
				switch hs[i] {
				case 0:
					name = fmt.Sprint("always", i)
				case 1:
					name = ""
				default:
					done = false
				}
				if done {
					break
				}
			}
			want[name]++
			got := f.Errors()
			check(fmt.Sprint(got) == fmt.Sprint(want), "%s with handlers %v counted as %q, want %q", c.what, hs, got, want)
			check(strings.Join(log, " ") == strings.Join(wl, " "), "%s: handlers consulted: %v, want %v", c.what, log, wl)
		}
		use()
		for i := 0; i < q(2, 3); i++ {
			i := i
			k := choose(4)
			if i == q(2, 3)-1 && k == 3 {
				k = 2
			}
			if k == 3 {
				use()
				continue
			}
			id := len(hs)
			hs = append(hs, k)
			monkit.AddErrorNameHandler(func(err error) (string, bool) {
				log = append(log, fmt.Sprint(id))
				check(fmt.Sprintf("%T %v", err, err) == fmt.Sprintf("%T %v", c.err, c.err), "a handler was given %v, want %v", err, c.err)
				switch k {
				case 0:
					return fmt.Sprint("always", id), true
				case 1:
					return "", true
				}
				return "unused", false
			})
		}
		use()
		// successes and panics are not named
		log = nil
		f.Task(nil)(nil)
		var no error
		f.Task(nil)(&no)
		catch(func() {
			err := io.EOF
			defer f.Task(nil)(&err)
			panic(1)
		})
		check(len(log) == 0, "handlers were consulted without an error: %v", log)
		check(fmt.Sprint(f.Errors()) == fmt.Sprint(want), "errors %v, want %v", f.Errors(), want)
		m := statMap(f)
		for n, x := range want {
			check(m[key("function", "name", "f", "error_name", n)+".count"] == float64(x), "errors named %q reported as %v, want %d", n, m[key("function", "name", "f", "error_name", n)+".count"], x)
		}
	})
	conc("C22", "add-add", Bounds{3, 6}, Bounds{4, 9}, 2, func() {
		n0 := choose(3)
		var calls [8]int
		mk := func(i int) func(error) (string, bool) {
			return func(error) (string, bool) { calls[i]++; return "", false }
		}
		for i := 0; i < n0; i++ {
			monkit.AddErrorNameHandler(mk(i))
		}
		par(func() { monkit.AddErrorNameHandler(mk(n0)) }, func() { monkit.AddErrorNameHandler(mk(n0 + 1)) })
		f := monkit.NewFuncStats(monkit.NewSeriesKey("k"))
		err := io.EOF
		f.Observe()(&err)
		for i := 0; i < n0+2; i++ {
			check(calls[i] == 1, "handler %d was consulted %d times", i, calls[i])
		}
		check(f.Errors()["EOF"] == 1, "%v", f.Errors())
	})
	// the handlers that are there already are asked as before, each once and
	// newest first, while another is added
	conc("C22", "add-asking", Bounds{-1, 4}, Bounds{2, 7}, 1, func() {
		n0 := choose(6)
		var log [3][]int
		var user [8]int // by thread
		mk := func(i int) func(error) (string, bool) {
			return func(error) (string, bool) {
				sched.Sync()
				u := user[sched.Self()%8]
				log[u] = append(log[u], i)
				return "", false
			}
		}
		for i := 0; i < n0; i++ {
			monkit.AddErrorNameHandler(mk(i))
		}
		f := monkit.NewFuncStats(monkit.NewSeriesKey("k"))
		use := func(u int) {
			user[sched.Self()%8] = u
			err := io.EOF
			f.Observe()(&err)
		}
		par(func() {
			monkit.AddErrorNameHandler(mk(n0))
			use(1)
		}, func() { use(2) })
		for u := 1; u <= 2; u++ {
			l := log[u]
			if u == 2 && len(l) > 0 && l[0] != n0 {
				l = append([]int{n0}, l...) // added too late
			}
			if u == 2 && n0 == 0 && len(l) == 0 {
				l = []int{0}
			}
			check(len(l) == n0+1, "handlers asked: %v, want all of %d", log[u], n0)
			for i, x := range l {
				check(x == n0-i, "handlers asked: %v, want newest first, each once", log[u])
			}
		}
		check(f.Errors()["EOF"] == 2, "%v", f.Errors())
	})
	conc("C22", "add-use", Bounds{2, 5}, Bounds{3, 8}, 2, func() {
		n0 := choose(2)
		if n0 == 1 {
			monkit.AddErrorNameHandler(func(error) (string, bool) { return "old", true })
		}
		f := monkit.NewFuncStats(monkit.NewSeriesKey("k"))
		use := func() {
			err := io.EOF
			f.Observe()(&err)
		}
		par(func() {
			monkit.AddErrorNameHandler(func(error) (string, bool) { return "new", true })
			use()
		}, func() { use() })
		got := f.Errors()
		was := "EOF"
		if n0 == 1 {
			was = "old"
		}
		check(got["new"]+got[was] == 2 && got["new"] >= 1 && len(got) <= 2, "errors %v", got)
		note("%d new", got["new"])
	})
}

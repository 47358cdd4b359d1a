package main

import (
	"context"
	"errors"
	"fmt"
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// C20: trace queries: wait, keep the connection alive, answer.

// pipe is the client's end of the answer.
type pipe struct {
	n, at   int
	mode    int // 0 fails for good, 1 and 3 panic, 2 fails once
	busy    bool
	answers int // thread that writes the answer
	broken  string
	buf     []byte
	flushed int
	closed  bool // nothing may be written any more
	late    bool
}

//go:norace
func (p *pipe) Write(b []byte) (int, error) {
	if p.closed {
		p.late = true
	}
	if p.busy {
		p.broken = "two writes at once"
	}
	if p.answers != 0 && p.answers != sched.Self() {
		p.broken = "a keep-alive in the middle of the answer"
	}
	if p.at >= 0 && p.n > p.at {
		p.broken = "a write after a failed one"
	}
	p.busy = true
	sched.Sync()
	if len(b) > 0 && (b[0] == '{' || b[0] == '[' || b[0] == '<' && len(b) > 100) {
		p.answers = sched.Self()
	}
	p.busy = false
	p.n++
	if p.n-1 >= p.at && p.at >= 0 && (p.mode != 2 || p.n-1 == p.at) {
		if p.panics() {
			panic([]string{"gone", ""}[p.mode/2])
		}
		return 0, errWrite
	}
	p.buf = append(p.buf, b...)
	return len(b), nil
}

//go:norace
func (p *pipe) panics() bool { return p.mode == 1 || p.mode == 3 }

//go:norace
func (p *pipe) Flush() { p.flushed = len(p.buf) }

//go:norace
func (p *pipe) close() { p.closed = true }

//go:norace
func (p *pipe) text() string { return string(p.buf) }

type tquery struct {
	kind    string
	buffers bool // goes through a buffer that the client does not see
	run     func(reg *monkit.Registry, w *pipe) error
	answer  func(text string, spans []*monkit.Span)
	early   bool // answers when the span is found, not when it ends
}

func spanIds(spans []*monkit.Span) (out []string) {
	for _, s := range spans {
		out = append(out, fmt.Sprint(s.Id()))
	}
	return out
}

func answerJSON(text string, spans []*monkit.Span) {
	var js []jspan
	unjson(text, &js)
	var got []string
	for _, j := range js {
		got = append(got, showId(j.Id))
	}
	sameLists("answer", got, spanIds(spans))
}

func answerSVG(text string, spans []*monkit.Span) {
	bars, _, _ := svg(text)
	var got []string
	for id := range bars {
		got = append(got, fmt.Sprint(id))
	}
	sameLists("answer", got, spanIds(spans))
}

func answerRemote(text string, spans []*monkit.Span) {
	var js struct {
		TraceId *int64 `json:"trace_id"`
	}
	unjson(text, &js)
	check(showId(js.TraceId) == fmt.Sprint(spans[0].Trace().Id()), "trace %s, want %d", showId(js.TraceId), spans[0].Trace().Id())
}

func answerViz(url string) func(text string, spans []*monkit.Span) {
	return func(text string, spans []*monkit.Span) {
		want := fmt.Sprintf("url=%s?argv=%d", url, spans[0].Trace().Id())
		check(strings.Contains(text, want), "redirect %q lacks %q", text, want)
	}
}

var theMatch = func(s *monkit.Span) bool { return s.Func().ShortName() == "target" }

func fromReq(path, query string) func(reg *monkit.Registry, w *pipe) error {
	return func(reg *monkit.Registry, w *pipe) error {
		v, err := url.ParseQuery(query)
		check(err == nil, "%v", err)
		f, _, err := present.FromRequest(reg, path, v)
		check(err == nil && f != nil, "%s?%s: %v", path, query, err)
		return f(w)
	}
}

var tqueries = []tquery{
	{"json", false, func(r *monkit.Registry, w *pipe) error { return present.TraceQueryJSON(r, w, theMatch) }, answerJSON, false},
	{"svg", false, func(r *monkit.Registry, w *pipe) error { return present.TraceQuerySVG(r, w, theMatch) }, answerSVG, false},
	{"path-json", true, fromReq("/trace/json", "regex=%5Es%5C.target$"), answerJSON, false},
	{"path-svg", true, fromReq("/trace/svg", "regex=targ&preselect=false"), answerSVG, false},
	{"path-remote", true, fromReq("/trace/remote", "regex=target&preselect=true"), answerRemote, true},
	{"path-viz", true, fromReq("/trace/remote", "regex=target&viz=viz/x"), answerViz("http://viz/x"), true},
	{"path-viz-http", true, fromReq("/trace/remote", "regex=target&viz=http://viz/y"), answerViz("http://viz/y"), true},
	{"path-viz-https", true, fromReq("/trace/remote", "regex=target&viz=https://viz/z"), answerViz("https://viz/z"), true},
	{"path-id", true, fromReq("/trace/json", "trace_id="+strconv.FormatUint(uint64(0xfffffffffffffff9), 16)), answerJSON, false},
	{"path-both", true, fromReq("/trace/json", "regex=target&trace_id="+strconv.FormatUint(uint64(0xfffffffffffffff9), 16)), answerJSON, false},
}

func init() {
	seq("C20", "query", func() {
		tq := tqueries[choose(len(tqueries))]
		p := &pipe{at: -1}
		if choose(2) == 1 {
			p.at = choose(2)
			p.mode = choose(4)
		}
		reg := monkit.NewRegistry()
		other := reg.ScopeNamed("s").FuncNamed("other")
		target := func() *monkit.Func { return reg.ScopeNamed("s").FuncNamed("target") }
		if tq.kind != "path-svg" { // which finds functions that come later
			target()
		}
		var old context.Context
		var oldExit func(*error)
		if choose(2) == 1 { // something runs already
			old = context.Background()
			oldExit = other.Task(&old)
		}
		seenCB := 0
		reg.ObserveTraces(func(t *monkit.Trace) {
			t.Set(present.SampledCBKey, func(x *monkit.Trace) { check(x == t, "callback for another trace"); seenCB++ })
		})
		var err error
		done, failed := false, false
		q0 := sched.Spawn("query", func() {
			if rec, pan := catch(func() { err = tq.run(reg, p) }); pan {
				check((rec == "gone" || rec == "") && p.panics() && !failed, "the query panicked: %v", rec)
			}
			p.close()
			done = true
		})
		settle()
		pings := 0
		var spans []*monkit.Span // of the answer
		var root *monkit.Span
		var rootCtx context.Context
		var exits []func(*error)
		elapsed := time.Duration(0)
		over := func() bool { return failed || root != nil && (tq.early || len(exits) == 0) }
		expect := func() {
			settle()
			check(done == over(), "the query ended: %v, want %v", done, over())
			check(!p.late, "something was written after the query had ended")
			if !done {
				check(p.text() == pre(tq)+strings.Repeat("\n", pings) || !tq.buffers || pings == 0, "after %d intervals the client has got %q", pings, p.text())
				if tq.buffers && pings > 0 {
					check(p.flushed == len(p.buf), "of %d bytes only %d were flushed to the client", len(p.buf), p.flushed)
				}
				if !tq.buffers {
					check(p.text() == strings.Repeat("\n", pings), "after %d intervals the client has got %q", pings, p.text())
				}
			}
		}
		traceId := int64(0xfffffffffffffff9 - 1<<63 - 1<<63)
		begin := func() {
			ctx := context.Background()
			var x func(*error)
			switch {
			case tq.kind == "path-id" || tq.kind == "path-both":
				x = target().RemoteTrace(&ctx, 4, monkit.NewTrace(traceId))
			case old != nil && oldExit != nil:
				ctx = old
				x = target().Task(&ctx)
			default:
				x = target().Task(&ctx)
			}
			if over() {
				x(nil)
				return
			}
			root, rootCtx = monkit.SpanFromCtx(ctx), ctx
			spans = append(spans, root)
			exits = append(exits, x)
		}
		for i := 0; i < q(4, 5); i++ {
			n := 4
			if root != nil {
				n = 5
			}
			switch k := choose(n); k {
			case 0, 1:
				d := []time.Duration{30 * time.Second, 29 * time.Second}[k]
				crosses := elapsed/(30*time.Second) != (elapsed+d)/(30*time.Second)
				elapsed += d
				was, sent := over(), p.n
				elapse(d)
				if crosses && !was {
					if p.at >= 0 && sent >= p.at {
						failed = true
					} else {
						pings++
					}
				}
			case 2:
				ctx := context.Background()
				switch {
				case tq.kind == "path-both" && i%2 == 0:
					other.RemoteTrace(&ctx, 4, monkit.NewTrace(traceId))(nil)
				case tq.kind == "path-both" || tq.kind == "path-id":
					target().Task(&ctx)(nil)
				default:
					other.Task(&ctx)(nil)
				}
			case 3:
				if root == nil || over() {
					begin()
				} else {
					ctx := rootCtx
					x := other.Task(&ctx)
					spans = append(spans, monkit.SpanFromCtx(ctx))
					x(nil)
				}
			case 4:
				for j := len(exits) - 1; j >= 0; j-- {
					exits[j](nil)
				}
				exits = nil
			}
			expect()
		}
		if root == nil && !over() {
			begin()
			expect()
		}
		for j := len(exits) - 1; j >= 0; j-- {
			exits[j](nil)
		}
		exits = nil
		settle()
		check(done, "the query still waits although its span has ended")
		sched.Join(q0)
		if failed {
			if !p.panics() {
				check(errors.Is(err, errWrite), "the client is gone, but the query ended with %v", err)
			} else {
				check(err != nil && (p.mode == 3 || strings.Contains(err.Error(), "gone")), "the client is gone, but the query ended with %v", err)
			}
		} else if p.at >= 0 && p.n > p.at {
			check(err != nil || p.panics(), "the answer could not be written, but the query ended with %v", err)
		} else {
			check(err == nil, "the query ended with %v", err)
			lead := pre(tq) + strings.Repeat("\n", pings)
			check(strings.HasPrefix(p.text(), lead), "the answer %q does not start with %d pings", p.text(), pings)
			tq.answer(p.text()[len(lead):], spans)
			if tq.early {
				check(root.Trace().Get(present.SampledKey) == true, "the trace found is not sampled")
				if oldExit == nil {
					check(seenCB == 1, "the sampling callback ran %d times", seenCB)
				}
			}
		}
		// nothing goes on afterwards
		w := p.n
		for i := 0; i < 3; i++ {
			elapse(30 * time.Second)
			ctx := context.Background()
			target().Task(&ctx)(nil)
		}
		check(p.n == w && !p.late, "something was written after the query had ended")
		check(p.broken == "", "%s: %q", p.broken, p.text())
	})
	race := func(name string, kinds []int, qb, tb Bounds) {
		conc("C20", name, qb, tb, 0, func() {
			tq := tqueries[kinds[choose(len(kinds))]]
			p := &pipe{at: -1}
			if choose(2) == 1 {
				p.at = 0
				p.mode = pick(0, 2)
			}
			reg := monkit.NewRegistry()
			target := reg.ScopeNamed("s").FuncNamed("target")
			var err error
			q0 := sched.Spawn("query", func() {
				err = tq.run(reg, p)
				p.close()
			})
			settle()
			var s *monkit.Span
			par(func() {
				ctx := context.Background()
				x := target.Task(&ctx)
				s = monkit.SpanFromCtx(ctx)
				x(nil)
			}, func() {
				adv(30 * time.Second)
			})
			sched.Join(q0)
			settle()
			elapse(time.Minute)
			check(!p.late, "something was written after the query had ended")
			check(p.broken == "", "%s: %q", p.broken, p.text())
			if p.at < 0 {
				check(err == nil, "the query ended with %v", err)
				t := p.text()
				if strings.HasPrefix(t, pre(tq)+"\n") && !strings.HasPrefix(t, pre(tq)+"\n<html") {
					t = t[len(pre(tq))+1:]
				} else {
					t = t[len(pre(tq)):]
				}
				tq.answer(t, []*monkit.Span{s})
			} else {
				check(errors.Is(err, errWrite), "no write succeeded, but the query ended with %v", err)
			}
			n := 0
			reg.AllSpans(func(*monkit.Span) { n++ })
			check(n == 0, "%d spans left", n)
		})
	}
	// two matches at the same time: one trace is answered and marked
	conc("C20", "race-two", Bounds{-1, 2}, Bounds{1, 3}, 0, func() {
		p := &pipe{at: -1}
		reg := monkit.NewRegistry()
		target := reg.ScopeNamed("s").FuncNamed("target")
		var err error
		q0 := sched.Spawn("query", func() {
			err = tqueries[4].run(reg, p)
			p.close()
		})
		settle()
		var s [2]*monkit.Span
		work := func(i int) func() {
			return func() {
				ctx := context.Background()
				x := target.Task(&ctx)
				s[i] = monkit.SpanFromCtx(ctx)
				x(nil)
			}
		}
		par(work(0), work(1))
		sched.Join(q0)
		check(err == nil && !p.late, "%v", err)
		n := 0
		for i := range s {
			if s[i].Trace().Get(present.SampledKey) == true {
				n++
				answerRemote(p.text(), []*monkit.Span{s[i]})
			}
		}
		check(n == 1, "%d traces are marked as sampled", n)
	})
	race("race-watch", []int{0}, Bounds{-1, 2}, Bounds{1, 3})
	race("race-remote", []int{4}, Bounds{-1, 2}, Bounds{1, 3})
}

// pre is what an answer starts with, before any keep-alive.
func pre(tq tquery) string {
	if strings.HasPrefix(tq.kind, "path-viz") {
		return "<!DOCTYPE html>\n"
	}
	return ""
}

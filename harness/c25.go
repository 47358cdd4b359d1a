package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// C25: presentations whose writer fails.

var errWrite = errors.New("write failed")

type faultWriter struct {
	buf   bytes.Buffer
	n     int
	at    int // which write fails
	mode  int
	after int
	hit   bool
	err   error
}

// modes: 0 fails for good, 1 fails once, 2 writes a part and fails, 3 panics
func (w *faultWriter) Write(p []byte) (int, error) {
	if w.hit {
		w.after++
		if w.mode == 0 {
			return 0, w.err
		}
	}
	w.n++
	if w.n-1 == w.at && !w.hit {
		w.hit = true
		switch w.mode {
		case 2:
			w.buf.Write(p[:len(p)/2])
			return len(p) / 2, w.err
		case 3:
			panic(w.err)
		}
		return 0, w.err
	}
	w.buf.Write(p)
	return len(p), nil
}

func faultRegistry() (*monkit.Registry, []*collect.FinishedSpan) {
	reg := monkit.NewRegistry()
	f := &spanForest{reg: reg}
	obs := &finObs{}
	reg.ObserveTraces(func(t *monkit.Trace) { t.ObserveSpans(obs) })
	f.start(-1, "root", "arg", 1)
	f.start(0, "kid")
	f.start(0, "kid")
	f.start(1, "grandkid")
	f.start(-1, "root")
	f.start(3, "kid")
	f.start(3, "root")
	for i, s := range f.spans {
		for j := 0; j < i%3; j++ {
			s.Annotate(fmt.Sprint("n", j), "v")
		}
	}
	adv(time.Second)
	f.end(1, errors.New("x")) // its child becomes an orphan
	f.end(4, io.EOF)
	f.end(5, nil)
	f.start(0, "kid")
	catch(func() { defer f.exit[6](nil); panic(1) })
	reg.ScopeNamed("s").Counter("c").Inc(1)
	reg.ScopeNamed("s").FloatVal("v").Observe(1)
	return reg, obs.fins
}

func init() {
	type rend struct {
		name string
		f    func(reg *monkit.Registry, fins []*collect.FinishedSpan, w io.Writer) error
	}
	on := func(name string, f func(*monkit.Registry, io.Writer) error) rend {
		return rend{name, func(reg *monkit.Registry, _ []*collect.FinishedSpan, w io.Writer) error { return f(reg, w) }}
	}
	path := func(p string) rend {
		return rend{p, func(reg *monkit.Registry, _ []*collect.FinishedSpan, w io.Writer) error {
			r, _, err := present.FromRequest(reg, p, nil)
			check(err == nil, "%v", err)
			return r(w)
		}}
	}
	rends := []rend{
		on("SpansText", present.SpansText), on("SpansDot", present.SpansDot), on("SpansJSON", present.SpansJSON),
		on("FuncsText", present.FuncsText), on("FuncsDot", present.FuncsDot), on("FuncsJSON", present.FuncsJSON),
		on("StatsText", present.StatsText), on("StatsOld", present.StatsOld), on("StatsJSON", present.StatsJSON),
		{"SpansToSVG", func(_ *monkit.Registry, fins []*collect.FinishedSpan, w io.Writer) error {
			return present.SpansToSVG(w, fins)
		}},
		{"SpansToJSON", func(_ *monkit.Registry, fins []*collect.FinishedSpan, w io.Writer) error {
			return present.SpansToJSON(w, fins)
		}},
		path("/"), path("/ps"), path("/ps/dot"), path("/ps/json"), path("/funcs"), path("/funcs/dot"), path("/funcs/json"), path("/stats"), path("/stats/json"),
	}
	seq("C25", "faults", func() {
		r := rends[choose(len(rends))]
		reg, fins := faultRegistry()
		clean := &faultWriter{at: -1}
		err := r.f(reg, fins, clean)
		check(err == nil && clean.n > 0, "%s failed: %v", r.name, err)
		w := &faultWriter{mode: choose(4), err: pick(errWrite, io.ErrShortWrite, io.EOF)}
		w.at = choose(clean.n)
		rec, pan := catch(func() { err = r.f(reg, fins, w) })
		check(w.hit, "%s: write %d did not happen", r.name, w.at)
		if w.mode == 3 {
			// text/template turns a panic into an error
			if pan {
				check(rec == w.err, "%s: the writer's panic became %v", r.name, rec)
			} else {
				check(err != nil, "%s lost the writer's panic", r.name)
			}
		} else {
			check(!pan, "%s panicked: %v", r.name, rec)
			check(err != nil && (errors.Is(err, w.err) || strings.Contains(err.Error(), w.err.Error())), "%s returned %v although write %d of %d failed", r.name, err, w.at, clean.n)
		}
		check(w.after == 0, "%s wrote %d more times after write %d of %d had failed", r.name, w.after, w.at, clean.n)
		// the registry is none the worse for it
		again := &faultWriter{at: -1}
		err = r.f(reg, fins, again)
		check(err == nil && sameLines(again.buf.String(), clean.buf.String()), "%s after a failure: %v, %q, want %q", r.name, err, again.buf.String(), clean.buf.String())
		ctx := context.Background()
		reg.ScopeNamed("s").FuncNamed("f").Task(&ctx)(nil)
		n := 0
		reg.AllSpans(func(*monkit.Span) { n++ })
		check(n == 4, "%d spans are live after a failure", n)
	})
}

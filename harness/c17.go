package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net/http"
	"net/url"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	mhttp "github.com/spacemonkeygo/monkit/v3/http"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// C17: traces across HTTP. C18: what the handler's response looks like.

func i64(v int64) *int64 { return &v }

func showId(p *int64) string {
	if p == nil {
		return "none"
	}
	return strconv.FormatInt(*p, 10)
}

func showInfo(i mhttp.TraceInfo) string {
	var b []string
	for k, v := range i.Baggage {
		b = append(b, k+"="+v)
	}
	sort.Strings(b)
	return fmt.Sprintf("trace %s parent %s sampled %v baggage %q", showId(i.TraceId), showId(i.ParentId), i.Sampled, b)
}

// resp records what reaches the real response.
type resp struct {
	hdr   http.Header
	log   []string
	werr  error
	short bool
}

func (r *resp) Header() http.Header { return r.hdr }
func (r *resp) WriteHeader(c int)   { r.log = append(r.log, fmt.Sprint("status ", c)) }
func (r *resp) Write(p []byte) (int, error) {
	r.log = append(r.log, "write "+string(p))
	if r.short {
		return len(p) / 2, nil
	}
	if r.werr != nil {
		return len(p) / 2, r.werr
	}
	return len(p), nil
}

type flushResp struct{ resp }

func (r *flushResp) Flush() { r.log = append(r.log, "flush") }

type handlerFunc func(http.ResponseWriter, *http.Request)

func (f handlerFunc) ServeHTTP(w http.ResponseWriter, r *http.Request) { f(w, r) }

type clientFunc func(*http.Request) (*http.Response, error)

func (f clientFunc) Do(r *http.Request) (*http.Response, error) { return f(r) }

func newReq(method, uri string) *http.Request {
	u, err := url.Parse("http://host" + uri)
	if err != nil {
		fail("%v", err)
	}
	return &http.Request{Method: method, URL: u, RequestURI: uri, Header: http.Header{}}
}

func annots(s *monkit.Span) string {
	var out []string
	for _, a := range s.Annotations() {
		out = append(out, a.Name+"="+a.Value)
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

// spy remembers every span of a registry and how it ended.
type spy struct {
	reg    *monkit.Registry
	spans  []*monkit.Span
	ended  map[*monkit.Span]string
	traces map[*monkit.Trace]int
	cb     func(*monkit.Trace)
	ext    bool
}

type extKey struct{}

func newSpy() *spy {
	p := &spy{reg: monkit.NewRegistry(), ended: map[*monkit.Span]string{}, traces: map[*monkit.Trace]int{}}
	p.reg.ObserveTraces(func(t *monkit.Trace) {
		p.traces[t]++
		if p.cb != nil {
			t.Set(present.SampledCBKey, p.cb)
		}
		t.ObserveSpansCtx(p)
	})
	return p
}

func (p *spy) Start(ctx context.Context, s *monkit.Span) context.Context {
	p.spans = append(p.spans, s)
	if p.ext {
		return context.WithValue(ctx, extKey{}, s.Id())
	}
	return ctx
}

func (p *spy) Finish(ctx context.Context, s *monkit.Span, err error, panicked bool, finish time.Time) {
	_, dup := p.ended[s]
	check(!dup, "a span ended twice")
	p.ended[s] = fmt.Sprint(err, " ", panicked)
	if p.ext {
		check(ctx.Value(extKey{}) == s.Id(), "a span ended with a context that lacks what its observer added")
	}
}

func init() {
	ids := []*int64{nil, i64(0), i64(1), i64(0x1f), i64(1 << 40), i64(math.MaxInt64), i64(math.MinInt64), i64(-1), i64(-0x10)}
	seq("C17", "headers", func() {
		in := mhttp.TraceInfo{TraceId: pick(ids...), ParentId: pick(ids...), Sampled: choose(2) == 1}
		in.Baggage = pick(nil, map[string]string{}, map[string]string{"k": "v"}, map[string]string{"k": " v\t", "j": "a=b"},
			map[string]string{"x": "y"}, map[string]string{"x": "y", "kk": "", "k": ""})
		allowed := pick(nil, []string{"k"}, []string{"j", "k"}, []string{"kk", "x"})
		h := http.Header{"Other": {"1"}}
		in.SetHeader(h)
		check(h.Get("Other") == "1", "another header changed: %v", h)
		want := mhttp.TraceInfo{Sampled: in.Sampled}
		if in.TraceId != nil && in.ParentId != nil {
			want.TraceId, want.ParentId = in.TraceId, in.ParentId
			want.Baggage = map[string]string{}
			for _, a := range allowed {
				if v, ok := in.Baggage[a]; ok {
					want.Baggage[a] = v
				}
			}
		}
		got := mhttp.TraceInfoFromHeader(h, allowed...)
		check(showInfo(got) == showInfo(want), "%s sent as %v is received as %s, want %s", showInfo(in), h, showInfo(got), showInfo(want))
	})
	seq("C17", "parse", func() {
		nums := []string{"", "0", "1", "2", "3", "00", "01", "ff", "FF", "102", "0000000000000001", "ffffffffffffffff", "10000000000000000", "g", "-1", "+1", " 1", "0x1", "1_1"}
		num := func(s string) (uint64, bool) {
			if s == "" {
				return 0, false
			}
			var v uint64
			for _, c := range strings.ToLower(s) {
				d := strings.IndexRune("0123456789abcdef", c)
				if d < 0 || v > math.MaxUint64>>4 {
					return 0, false
				}
				v = v<<4 | uint64(d)
			}
			return v, true
		}
		n := 2 + choose(5)
		parts := make([]string, n)
		for i := range parts {
			if n == 4 && i < 4 {
				parts[i] = pick(nums...)
			} else {
				parts[i] = pick("00", "1")
			}
		}
		line := strings.Join(parts, "-")
		h := http.Header{}
		h.Set("traceparent", line)
		bag := ""
		if n != 4 {
			bag = pick("", "k=v", "k=v,j=w", "j,k=", "k", ",,k=v=w", "=,k=v", "kk=v", "k=1,k=2")
			h.Set("baggage", bag)
		}
		got := mhttp.TraceInfoFromHeader(h, "k", "j")
		flat := strings.Split(line, "-")
		want := mhttp.TraceInfo{}
		if len(flat) == 4 {
			var v [4]uint64
			ok := true
			for i := range v {
				var o bool
				v[i], o = num(flat[i])
				ok = ok && o
			}
			if ok && v[0] == 0 {
				want.TraceId, want.ParentId, want.Sampled = i64(int64(v[1])), i64(int64(v[2])), v[3]&1 == 1
			}
		}
		check(showInfo(got) == showInfo(want), "traceparent %q baggage %q is received as %s, want %s", line, bag, showInfo(got), showInfo(want))
	})
	seq("C17", "baggage", func() {
		h := http.Header{}
		h.Set("traceparent", "00-1-2-1")
		var items []string
		want := map[string]string{}
		allowed := pick(nil, []string{"k"}, []string{"j", "k"}, []string{"k", "k", ""})
		for i, n := 0, choose(q(3, 4)); i < n; i++ {
			k, v := pick("k", "j", "kk", "", "K"), pick("v", "", "a=b", "w", "none")
			item := k + "=" + v
			if v == "none" {
				item = k // no value at all
			} else {
				for _, a := range allowed {
					if a == k {
						want[k] = v
					}
				}
			}
			items = append(items, item)
		}
		h.Set("baggage", strings.Join(items, ","))
		got := mhttp.TraceInfoFromHeader(h, allowed...)
		w := mhttp.TraceInfo{TraceId: i64(1), ParentId: i64(2), Sampled: true, Baggage: want}
		check(showInfo(got) == showInfo(w), "baggage %q with %q allowed is received as %s, want %s", items, allowed, showInfo(got), showInfo(w))
	})
	seq("C17", "state", func() {
		h := http.Header{}
		st := pick("", "sampled=true", "a=b,sampled=true", "sampled=true,c=d", "sampled=false", "sampled", "true")
		if st != "" {
			h.Set("tracestate", st)
		}
		got := mhttp.TraceInfoFromHeader(h)
		want := mhttp.TraceInfo{Sampled: strings.Contains(st, "sampled=true")}
		check(showInfo(got) == showInfo(want), "tracestate %q is received as %s, want %s", st, showInfo(got), showInfo(want))
	})
	seq("C17", "from-span", func() {
		p := newSpy()
		f := p.reg.ScopeNamed("s").FuncNamed("f")
		tid := pick[int64](1, -5, math.MaxInt64)
		tr := monkit.NewTrace(tid)
		sampled := pick[any](nil, true, false, "true", 1)
		if sampled != nil {
			tr.Set(present.SampledKey, sampled)
		}
		ctx := context.Background()
		want := mhttp.TraceInfo{Sampled: sampled == true}
		switch choose(4) {
		case 0:
			f.RemoteTrace(&ctx, 77, tr)
			want.ParentId = i64(77)
		case 1:
			f.RemoteTrace(&ctx, -77, tr)
			want.ParentId = i64(-77)
		case 2:
			f.RemoteTrace(&ctx, 77, tr)
			want.ParentId = i64(monkit.SpanFromCtx(ctx).Id())
			f.Task(&ctx)
		case 3:
			f.ResetTrace(&ctx)
			tr = monkit.SpanFromCtx(ctx).Trace()
			tid = tr.Id()
			if sampled != nil {
				tr.Set(present.SampledKey, sampled)
			}
			want.ParentId = i64(monkit.SpanFromCtx(ctx).Id())
		}
		want.TraceId = &tid
		if !want.Sampled {
			want.TraceId, want.ParentId = nil, nil
		}
		got := mhttp.TraceInfoFromSpan(monkit.SpanFromCtx(ctx))
		check(showInfo(got) == showInfo(want), "span information %s, want %s", showInfo(got), showInfo(want))
	})
	// A chain of requests, each made while the one before it is served.
	hop := func(depth int) func() {
		return func() {
			start := choose(6) // where the trace comes from
			ext := choose(2) == 1
			last := choose(5) // what the last handler does
			bag := choose(2) == 1
			var sps []*spy
			var level func(ctx context.Context, i int, exp *int64, tid *int64, sampled bool)
			boom := errors.New("boom")
			level = func(ctx context.Context, i int, exp, tid *int64, sampled bool) {
				srv := newSpy()
				srv.ext = ext
				sps = append(sps, srv)
				var calls []*monkit.Trace
				srv.cb = func(t *monkit.Trace) { calls = append(calls, t) }
				scope := srv.reg.ScopeNamed("server")
				cli := newSpy()
				req := newReq(pick("GET", "POST"), pick("/", "/a?b=c"))
				body := io.NopCloser(bytes.NewReader(nil))
				req.Body = body
				if bag {
					req.Header.Set("baggage", "k=v,x=y")
				}
				if i == 0 && start == 4 {
					req.Header.Set("tracestate", "sampled=true")
					sampled = true
				} else if exp != nil && bag { // a request that was sent before
					req.Header.Set("traceparent", "00-0000000000000abc-00000def-1")
				} else if !bag && choose(2) == 1 { // a client does not mind
					req.Header = nil
				}
				var reqs int
				var inner *monkit.Span
				status := 200
				h := mhttp.TraceHandler(handlerFunc(func(w http.ResponseWriter, r *http.Request) {
					reqs++
					check(r.Method == req.Method && r.URL.String() == req.URL.String() && r.RequestURI == req.RequestURI && r.Body == body, "the handler was given another request")
					s := monkit.SpanFromCtx(r.Context())
					check(s != nil && len(srv.spans) == 1 && srv.spans[0] == s, "the handler's context is not that of the one span of the request")
					inner = s
					check(r.Context().Value(ck("req")) == "mine", "the handler's context lost the values of the request's")
					if ext {
						check(r.Context().Value(extKey{}) == s.Id(), "the handler's context lacks what a span observer added")
					}
					check(s.Func().Scope() == scope, "the span is not in the handler's scope")
					check((s.Trace().Get(present.SampledKey) == true) == sampled, "sampling is %v, want %v", s.Trace().Get(present.SampledKey), sampled)
					if tid != nil {
						check(s.Trace().Id() == *tid, "the trace is %d, want %d", s.Trace().Id(), *tid)
						pid, ok := s.ParentId()
						check(ok && pid == *exp, "the parent is %d, want %d", pid, *exp)
					} else {
						check(s.Trace().Id() >= 0, "a new trace with negative id")
					}
					if sampled {
						check(len(calls) == 1 && calls[0] == s.Trace(), "the sampling callback ran for %d traces", len(calls))
					}
					wa := "http.uri=" + req.RequestURI
					if bag && tid != nil {
						wa += " k=v"
					}
					check(annots(s) == wa, "annotations %q, want %q", annots(s), wa)
					live := 0
					srv.reg.RootSpans(func(x *monkit.Span) { live++; check(x == s, "another span is live") })
					check(live == 1, "%d root spans during the request", live)
					w.Header().Set("X", "1")
					if i+1 < depth {
						var nt, np *int64
						if sampled {
							nt, np = i64(s.Trace().Id()), i64(s.Id())
						}
						level(r.Context(), i+1, np, nt, sampled)
					}
					switch last {
					case 0:
						w.Write([]byte("hi"))
					case 1:
						status = 404
						w.WriteHeader(404)
					case 2:
					case 3, 4:
						if i == depth-1 && last == 3 {
							panic(boom)
						}
						status = 500
						w.WriteHeader(500)
					}
				}), scope, "k")
				rw := &resp{hdr: http.Header{}}
				var failed *http.Response
				cl := clientFunc(func(r *http.Request) (*http.Response, error) {
					if i == 0 && start == 5 {
						return nil, boom
					}
					_, pan := catch(func() { h.ServeHTTP(rw, r.WithContext(context.WithValue(context.Background(), ck("req"), "mine"))) })
					check(pan == (last == 3 && i == depth-1), "the handler panicked: %v", pan)
					if pan { // such as a client that gives up while redirecting
						failed = pick(nil, &http.Response{StatusCode: 302})
						return failed, boom
					}
					return &http.Response{StatusCode: status, Header: rw.hdr}, nil
				})
				if i == 0 && start == 4 {
					cl.Do(req)
				} else {
					rs, err := mhttp.TraceRequest(ctx, cli.reg.ScopeNamed("client"), cl, req)
					var cs *monkit.Span
					cli.reg.Funcs(func(f *monkit.Func) {
						check(f.ShortName() == req.Method && f.Scope().Name() == "client", "the request is accounted under %s", f.FullName())
						check(f.Current() == 0 && f.Success()+f.Errors()["System Error"] == 1, "the request is not accounted once")
						check((f.Success() == 0) == (err != nil), "the request's outcome is misrepresented")
					})
					for _, x := range cli.spans {
						cs = x
					}
					if cs != nil { // the client's trace was new
						wa := "http.uri=" + req.URL.String()
						if err == nil {
							wa = fmt.Sprintf("http.responsecode=%d %s", status, wa)
						}
						check(annots(cs) == wa, "client annotations %q, want %q", annots(cs), wa)
						check(len(cli.ended) == 1, "%d client spans ended", len(cli.ended))
					}
					if err == nil {
						check(rs != nil && rs.StatusCode == status && rs.Header.Get("X") == "1", "another response")
					} else {
						check(err == boom && rs == failed, "another error or response: %v %v", err, rs)
					}
					if i == 0 && start == 5 {
						check(err == boom && reqs == 0, "the client's error became %v", err)
						return
					}
				}
				check(reqs == 1, "the handler ran %d times", reqs)
				pan := last == 3 && i == depth-1
				own := 0
				for x := range srv.ended {
					if x.Func().Scope() == scope {
						own++
					}
				}
				check(own == 1 && len(srv.traces) == 1, "%d spans of %d traces after the request", own, len(srv.traces))
				if pan {
					check(strings.HasSuffix(srv.ended[inner], "true"), "the panic is not recorded: %s", srv.ended[inner])
				} else {
					check(srv.ended[inner] == "<nil> false", "the request ended as %s", srv.ended[inner])
					check(strings.Contains(annots(inner), fmt.Sprintf("http.responsecode=%d ", status)), "annotations %q lack the status %d", annots(inner), status)
				}
				srv.reg.RootSpans(func(*monkit.Span) { fail("a span is left behind") })
				orph := i == 0 && start == 4
				check((rw.hdr.Get("trace-id") != "") == orph && (rw.hdr.Get("child-id") != "") == orph, "response headers %v", rw.hdr)
				if orph {
					check(rw.hdr.Get("trace-id") == strconv.FormatInt(inner.Trace().Id(), 16) && rw.hdr.Get("child-id") == strconv.FormatInt(inner.Id(), 16), "response headers %v for trace %d span %d", rw.hdr, inner.Trace().Id(), inner.Id())
				}
			}
			ctx := context.Background()
			f := monkit.NewRegistry().ScopeNamed("top").FuncNamed("top")
			var tid, exp *int64
			sampled := false
			switch start {
			case 0: // no span
			case 1: // not sampled
				f.ResetTrace(&ctx)
			case 2, 3:
				tr := monkit.NewTrace(map[int]int64{2: 12, 3: -12}[start])
				tr.Set(present.SampledKey, true)
				f.RemoteTrace(&ctx, 5, tr)
				tid, exp = i64(tr.Id()), i64(monkit.SpanFromCtx(ctx).Id())
				sampled = true
			}
			level(ctx, 0, exp, tid, sampled)
		}
	}
	seq("C17", "hop", hop(1))
	seq("C17", "hops", hop(2))
	conc("C17", "two-requests", Bounds{1, 3}, Bounds{2, 5}, 1, func() {
		reg := monkit.NewRegistry()
		h := mhttp.TraceHandler(handlerFunc(func(w http.ResponseWriter, r *http.Request) {
			s := monkit.SpanFromCtx(r.Context())
			want, _ := strconv.ParseInt(r.RequestURI[1:], 10, 64)
			check(s.Trace().Id() == want, "request of trace %d served in trace %d", want, s.Trace().Id())
			p, _ := s.ParentId()
			check(p == want+1, "request of span %d has parent %d", want+1, p)
			check(annots(s) == "http.uri="+r.RequestURI+" k="+r.RequestURI, "annotations %q", annots(s))
			w.WriteHeader(int(want))
		}), reg.ScopeNamed("server"), "k")
		one := func(id int64) func() {
			return func() {
				rq := newReq("GET", fmt.Sprint("/", id))
				mhttp.TraceInfo{TraceId: i64(id), ParentId: i64(id + 1), Sampled: true, Baggage: map[string]string{"k": rq.RequestURI}}.SetHeader(rq.Header)
				rw := &resp{hdr: http.Header{}}
				h.ServeHTTP(rw, rq)
				check(strings.Join(rw.log, ";") == fmt.Sprint("status ", id), "response %q", rw.log)
			}
		}
		par(one(100), one(200))
		reg.RootSpans(func(*monkit.Span) { fail("a span is left behind") })
		n := 0
		reg.Funcs(func(f *monkit.Func) { n++; check(f.Success() == 2 && f.Current() == 0, "%d successes", f.Success()) })
		check(n == 1, "%d functions", n)
	})

	seq("C18", "wrap", func() {
		under := &flushResp{resp{hdr: http.Header{"A": {"1"}}}}
		var w http.ResponseWriter
		var status func() int
		fl := choose(2) == 1
		switch choose(3) {
		case 1:
			under.werr = pick(errors.New("disk"), http.ErrBodyNotAllowed, http.ErrHandlerTimeout, error(syscall.EPIPE))
		case 2:
			under.short = true
		}
		run := func(w http.ResponseWriter, status func() int) int {
			f, ok := w.(http.Flusher)
			check(ok == fl, "the response can be flushed: %v, want %v", ok, fl)
			want := 200
			var log []string
			for i := 0; i < q(4, 5); i++ {
				switch k := choose(8); k {
				case 0, 1, 2, 3:
					c := []int{200, 204, 404, 500}[k]
					w.WriteHeader(c)
					want = c
					log = append(log, fmt.Sprint("status ", c))
				case 4, 5:
					p := []string{"", "abcd"}[k-4]
					n, err := w.Write([]byte(p))
					log = append(log, "write "+p)
					wn := len(p)
					if under.werr != nil || under.short {
						wn /= 2
					}
					check(n == wn && err == under.werr, "writing %q gave %d, %v", p, n, err)
				case 6:
					k := fmt.Sprint("H", i)
					w.Header().Set(k, "v")
					check(under.hdr.Get(k) == "v", "a header was not passed on")
					w.Header().Del("A")
					check(under.hdr.Get("A") == "", "a header was not removed")
				case 7:
					if fl {
						f.Flush()
						log = append(log, "flush")
					}
				}
				if status != nil {
					check(status() == want, "the status is %d, want %d", status(), want)
				}
			}
			check(strings.Join(under.log, ";") == strings.Join(log, ";"), "the response got %q, want %q", under.log, log)
			return want
		}
		var orig http.ResponseWriter = under
		if !fl {
			orig = &under.resp
		}
		if choose(2) == 0 {
			w, status = mhttp.Wrap(orig)
			run(w, status)
			return
		}
		var s *monkit.Span
		want := 0
		h := mhttp.TraceHandler(handlerFunc(func(w http.ResponseWriter, r *http.Request) {
			s = monkit.SpanFromCtx(r.Context())
			want = run(w, nil)
		}), monkit.NewRegistry().ScopeNamed("s"))
		h.ServeHTTP(orig, newReq("GET", "/"))
		check(annots(s) == fmt.Sprintf("http.responsecode=%d http.uri=/", want), "annotations %q, want status %d", annots(s), want)
	})
}

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"encoding/xml"
	"errors"
	"fmt"
	"html"
	"io"
	"math"
	"net/http"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/collect"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
	"github.com/spacemonkeygo/monkit/v3/present"
)

// C19: what the presentations say. C25: what they do when writing fails.

var oddNames = []string{"plain", `q"u\o<t>&'e`, "new\nli\rne\t", "\xff\x01é", "]]>-->%s%d"}

// asJSON is what a string becomes in JSON and back.
func asJSON(s string) string {
	b, err := json.Marshal(s)
	if err != nil {
		fail("%v", err)
	}
	var out string
	if err := json.Unmarshal(b, &out); err != nil {
		fail("%v", err)
	}
	return out
}

func render(f func(io.Writer) error) string {
	var b bytes.Buffer
	err := f(&b)
	check(err == nil, "rendering failed: %v", err)
	return b.String()
}

func regRender(reg *monkit.Registry, f func(*monkit.Registry, io.Writer) error) string {
	return render(func(w io.Writer) error { return f(reg, w) })
}

func unjson(text string, to any) {
	d := json.NewDecoder(strings.NewReader(text))
	if err := d.Decode(to); err != nil {
		fail("not JSON: %v: %q", err, text)
	}
	_, err := d.Token()
	check(err == io.EOF, "more than one JSON value: %q", text)
}

// sameLists compares as multisets.
func sameLists(what string, got, want []string) {
	sort.Strings(got)
	sort.Strings(want)
	check(strings.Join(got, "\x00") == strings.Join(want, "\x00"), "%s: %q, want %q", what, got, want)
}

// dot parses a graph into nodes with their decoded labels, and edges.
var dotNode = regexp.MustCompile(`^ ([fr]-?\d+) \[label="([^"\n]*)"\];$`)
var dotEdge = regexp.MustCompile(`^ ([fr]-?\d+) -> ([fr]-?\d+);$`)

func dot(text string) (nodes map[string]string, edges []string) {
	nodes = map[string]string{}
	lines := strings.Split(text, "\n")
	check(len(lines) >= 4 && lines[0] == "digraph G {" && lines[1] == " node [shape=box];" && lines[len(lines)-2] == "}" && lines[len(lines)-1] == "", "not a graph: %q", text)
	for _, l := range lines[2 : len(lines)-2] {
		if m := dotNode.FindStringSubmatch(l); m != nil {
			_, dup := nodes[m[1]]
			check(!dup, "node %s twice", m[1])
			check(!strings.Contains(strings.ReplaceAll(m[2], `\l`, ""), `\`), "unescaped label %q", m[2])
			nodes[m[1]] = html.UnescapeString(strings.ReplaceAll(m[2], `\l`, "\n"))
		} else if m := dotEdge.FindStringSubmatch(l); m != nil {
			edges = append(edges, m[1]+">"+m[2])
		} else {
			fail("unexpected line in a graph: %q", l)
		}
	}
	for _, e := range edges {
		p := strings.Split(e, ">")
		_, a := nodes[p[0]]
		_, b := nodes[p[1]]
		check(a && b, "an edge of the graph leads nowhere: %s", e)
	}
	return nodes, edges
}

// label is what html.UnescapeString makes of a label's text.
func dotText(s string) string {
	var b []byte
	for _, c := range []byte(s) { // control characters do not survive unescaping
		if c < 32 && c != '\n' && c != '\t' || c == '\r' {
			b = append(b, html.UnescapeString(fmt.Sprintf("&#%d;", c))...)
		} else {
			b = append(b, c)
		}
	}
	return string(b)
}

func distText(d *monkit.DurationDist, in string) string {
	out := ""
	for _, x := range monkit.ObservedQuantiles {
		out += fmt.Sprintf("%s%.02f: %s\n", in, x, d.Query(x))
	}
	return out + fmt.Sprintf("%savg: %s\n%sravg: %s\n%srecent: %s\n%ssum: %s\n", in, d.FullAverage(), in, d.ReservoirAverage(), in, d.Recent, in, d.Sum)
}

type jspan struct {
	Id       *int64
	ParentId *int64 `json:"parent_id"`
	Func     struct{ Package, Name string }
	Trace    struct{ Id int64 }
	Start    int64
	Elapsed  *int64
	Finish   *int64
	Orphaned *bool
	Err      *string
	Panicked *bool
	Args     []string
	Annots   [][]string `json:"annotations"`
}

func (j jspan) String() string {
	s := fmt.Sprintf("span %s of %s in %q.%q trace %d start %d args %q annotations %q", showId(j.Id), showId(j.ParentId), j.Func.Package, j.Func.Name, j.Trace.Id, j.Start, j.Args, j.Annots)
	if j.Orphaned != nil {
		s += fmt.Sprint(" orphaned ", *j.Orphaned)
	}
	s += " elapsed " + showId(j.Elapsed) + " finish " + showId(j.Finish)
	if j.Err != nil {
		s += fmt.Sprintf(" err %q", *j.Err)
	}
	if j.Panicked != nil {
		s += fmt.Sprint(" panicked ", *j.Panicked)
	}
	return s
}

func wantSpan(s *monkit.Span, fin *collect.FinishedSpan) string {
	j := jspan{Id: i64(s.Id())}
	if p, ok := s.ParentId(); ok {
		j.ParentId = &p
	}
	j.Func.Package, j.Func.Name = asJSON(s.Func().Scope().Name()), asJSON(s.Func().ShortName())
	j.Trace.Id = s.Trace().Id()
	j.Start = s.Start().UnixNano()
	j.Args, j.Annots = []string{}, [][]string{}
	for _, a := range s.Args() {
		j.Args = append(j.Args, asJSON(fmt.Sprintf("%#v", a)))
	}
	for _, a := range s.Annotations() {
		j.Annots = append(j.Annots, []string{asJSON(a.Name), asJSON(a.Value)})
	}
	o := s.Orphaned()
	j.Orphaned = &o
	if fin == nil {
		j.Elapsed = i64(int64(sched.Now().Sub(s.Start())))
	} else {
		j.Finish = i64(fin.Finish.UnixNano())
		e := ""
		if fin.Err != nil {
			e = asJSON(fin.Err.Error())
		}
		j.Err, j.Panicked = &e, &fin.Panicked
	}
	return j.String()
}

// spanForest makes a few live spans, some of them orphaned.
type spanForest struct {
	reg   *monkit.Registry
	spans []*monkit.Span
	live  []bool
	exit  []func(*error)
	ctx   []context.Context
}

func (f *spanForest) start(par int, name string, args ...any) {
	ctx := context.Background()
	if par >= 0 {
		ctx = f.ctx[par]
	}
	f.exit = append(f.exit, f.reg.ScopeNamed("sc"+name).FuncNamed(name).Task(&ctx, args...))
	f.ctx = append(f.ctx, ctx)
	f.spans = append(f.spans, monkit.SpanFromCtx(ctx))
	f.live = append(f.live, true)
}

func (f *spanForest) end(i int, err error) {
	f.exit[i](&err)
	f.live[i] = false
}

func (f *spanForest) grow(n int, names []string) {
	f.start(-1, pick(names...))
	for i := 1; i < n; i++ {
		adv(16100000009)
		k := choose(1 + 2*len(f.spans))
		switch {
		case k == 0:
			f.start(-1, names[i%len(names)], "x\n<y>", 7)
		case k%2 == 1:
			f.start((k-1)/2, names[(i+1)%len(names)], []byte{1})
		default:
			if j := (k - 2) / 2; f.live[j] {
				f.spans[j].Annotate(pick(names...), "v\"<")
				f.end(j, nil)
			}
		}
		if last := len(f.spans) - 1; choose(2) == 1 {
			f.spans[last].Annotate(names[i%len(names)], "w\n&")
			f.spans[last].Annotate("again", "")
		}
	}
	adv(time.Second)
}

// checkSpans compares the three presentations with the live spans.
func (f *spanForest) checkSpans(text bool) {
	var want []string
	for i, s := range f.spans {
		if f.live[i] {
			want = append(want, wantSpan(s, nil))
		}
	}
	var js []jspan
	unjson(regRender(f.reg, present.SpansJSON), &js)
	var got []string
	for _, j := range js {
		got = append(got, j.String())
	}
	sameLists("spans", got, want)

	nodes, edges := dot(regRender(f.reg, present.SpansDot))
	var wantE []string
	n := 0
	for i, s := range f.spans {
		if !f.live[i] {
			continue
		}
		n++
		l := fmt.Sprintf("%s(%s)\nelapsed: %s\n", s.Func().FullName(), strings.Join(s.Args(), ", "), sched.Now().Sub(s.Start()))
		if s.Orphaned() {
			l += "orphaned\n"
		}
		for _, a := range s.Annotations() {
			l += a.Name + ": " + a.Value + "\n"
		}
		id := fmt.Sprintf("f%d", s.Id())
		check(nodes[id] == dotText(l), "node %s says %q, want %q", id, nodes[id], dotText(l))
		if p, ok := s.ParentId(); ok && !s.Orphaned() {
			wantE = append(wantE, fmt.Sprintf("f%d>f%d", p, s.Id()))
		}
	}
	check(len(nodes) == n, "%d spans in the graph, want %d", len(nodes), n)
	sameLists("edges", edges, wantE)

	if !text {
		return
	}
	var blocks []string
	var block func(s *monkit.Span, in string) string
	block = func(s *monkit.Span, in string) string {
		o := ""
		if s.Orphaned() {
			o = ", orphaned"
		}
		out := fmt.Sprintf("%s[%d,%d] %s(%s) (elapsed: %s%s)\n", in, s.Id(), s.Trace().Id(), s.Func().FullName(), strings.Join(s.Args(), ", "), sched.Now().Sub(s.Start()), o)
		for _, a := range s.Annotations() {
			out += in + "  " + a.Name + ": " + a.Value + "\n"
		}
		var kids []string
		for i, c := range f.spans {
			if p, ok := c.ParentId(); ok && f.live[i] && !c.Orphaned() && p == s.Id() {
				kids = append(kids, block(c, in+" "))
			}
		}
		sort.Strings(kids)
		return out + strings.Join(kids, "")
	}
	for i, s := range f.spans {
		if _, ok := s.ParentId(); f.live[i] && (!ok || s.Orphaned()) {
			blocks = append(blocks, block(s, ""))
		}
	}
	text2 := regRender(f.reg, present.SpansText)
	// the same tree, siblings in any order
	var parse func(lines []string, depth int) string
	parse = func(lines []string, depth int) string {
		var kids []string
		var own []string
		for i := 0; i < len(lines); {
			ind := len(lines[i]) - len(strings.TrimLeft(lines[i], " "))
			isSpan := strings.HasPrefix(strings.TrimLeft(lines[i], " "), "[")
			if !isSpan {
				own = append(own, lines[i]+"\n")
				i++
				continue
			}
			check(ind == depth, "unexpected indentation: %q", lines[i])
			j := i + 1
			for j < len(lines) {
				t := strings.TrimLeft(lines[j], " ")
				if strings.HasPrefix(t, "[") && len(lines[j])-len(t) <= depth {
					break
				}
				j++
			}
			kids = append(kids, lines[i]+"\n"+parse(lines[i+1:j], depth+1))
			i = j
		}
		sort.Strings(kids)
		return strings.Join(own, "") + strings.Join(kids, "")
	}
	var gotB []string
	for _, b := range strings.Split(strings.TrimSuffix(text2, "\n\n"), "\n\n") {
		if b != "" {
			gotB = append(gotB, parse(strings.Split(strings.TrimSuffix(b, "\n"), "\n"), 0))
		}
	}
	check(text2 == "" || strings.HasSuffix(text2, "\n\n"), "the text ends in %q", text2)
	sameLists("text", gotB, blocks)
}

type jdist struct {
	Average, ReservoirAverage, FullAverage, Max, Min, Recent time.Duration
	Quantiles                                                map[string]time.Duration
}

func (d *jdist) UnmarshalJSON(b []byte) error {
	var m struct {
		Average *time.Duration           `json:"average"`
		RAvg    *time.Duration           `json:"reservoir_average"`
		FAvg    *time.Duration           `json:"full_average"`
		Max     *time.Duration           `json:"max"`
		Min     *time.Duration           `json:"min"`
		Recent  *time.Duration           `json:"recent"`
		Q       map[string]time.Duration `json:"quantiles"`
	}
	if err := json.Unmarshal(b, &m); err != nil {
		return err
	}
	if m.Average == nil || m.RAvg == nil || m.FAvg == nil || m.Max == nil || m.Min == nil || m.Recent == nil {
		return errors.New("incomplete distribution")
	}
	*d = jdist{*m.Average, *m.RAvg, *m.FAvg, *m.Max, *m.Min, *m.Recent, m.Q}
	return nil
}

func wantDist(d *monkit.DurationDist) jdist {
	j := jdist{d.FullAverage(), d.ReservoirAverage(), d.FullAverage(), d.High, d.Low, d.Recent, map[string]time.Duration{}}
	for _, x := range monkit.ObservedQuantiles {
		j.Quantiles[fmt.Sprintf("%.02f", x)] = d.Query(x)
	}
	return j
}

// errTable renders error counts the same way whatever their order.
func errTable(m map[string]int64) string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%q:%d", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, " ")
}

func checkFuncs(reg *monkit.Registry, text bool) {
	var js []struct {
		Id                                  int64
		ParentIds                           []int64 `json:"parent_ids"`
		Package, Name                       string
		Current, Highwater, Success, Panics int64
		Entry                               bool
		Errors                              map[string]int64
		SuccessTimes                        jdist `json:"success_times"`
		FailureTimes                        jdist `json:"failure_times"`
	}
	unjson(regRender(reg, present.FuncsJSON), &js)
	var got, want, wantE, wantT []string
	for _, j := range js {
		sort.Slice(j.ParentIds, func(a, b int) bool { return j.ParentIds[a] < j.ParentIds[b] })
		got = append(got, fmt.Sprintf("%d %v %q %q %d %d %d %d %v %s %v %v", j.Id, j.ParentIds, j.Package, j.Name, j.Current, j.Highwater, j.Success, j.Panics, j.Entry, errTable(j.Errors), j.SuccessTimes, j.FailureTimes))
	}
	nodes, edges := dot(regRender(reg, present.FuncsDot))
	n := 0
	reg.Funcs(func(f *monkit.Func) {
		n++
		var ps []int64
		entry := false
		f.Parents(func(p *monkit.Func) {
			if p == nil {
				entry = true
				wantE = append(wantE, fmt.Sprintf("r%d>f%d", f.Id(), f.Id()))
			} else {
				ps = append(ps, p.Id())
				wantE = append(wantE, fmt.Sprintf("f%d>f%d", p.Id(), f.Id()))
			}
		})
		sort.Slice(ps, func(a, b int) bool { return ps[a] < ps[b] })
		errs := map[string]int64{}
		total := int64(0)
		for k, v := range f.Errors() {
			errs[asJSON(k)] = v
			total += v
		}
		want = append(want, fmt.Sprintf("%d %v %q %q %d %d %d %d %v %s %v %v", f.Id(), ps, asJSON(f.Scope().Name()), asJSON(f.ShortName()), f.Current(), f.Highwater(), f.Success(), f.Panics(), entry, errTable(errs), wantDist(f.SuccessTimes()), wantDist(f.FailureTimes())))
		// the graph
		head := fmt.Sprintf("%s\ncurrent: %d, highwater: %d, success: %d, errors: %d, panics: %d\n", f.FullName(), f.Current(), f.Highwater(), f.Success(), total, f.Panics())
		tail := ""
		if f.Success() > 0 {
			tail += "success times:\n" + distText(f.SuccessTimes(), "        ")
		}
		if total+f.Panics() > 0 {
			tail += "failure times:\n" + distText(f.FailureTimes(), "        ")
		}
		l := nodes[fmt.Sprintf("f%d", f.Id())]
		head, tail = dotText(head), dotText(tail)
		check(strings.HasPrefix(l, head) && strings.HasSuffix(l, tail) && len(l) >= len(head)+len(tail), "function %q is drawn as %q, want %q ... %q", f.FullName(), l, head, tail)
		mid := l[len(head) : len(l)-len(tail)]
		size := 0
		for k, v := range f.Errors() {
			line := dotText(fmt.Sprintf("error %s: %d\n", k, v))
			check(strings.Contains(mid, line), "function %q lacks %q: %q", f.FullName(), line, mid)
			size += len(line)
		}
		check(len(mid) == size, "function %q has more errors than it should: %q", f.FullName(), mid)
		if entry {
			n++
			check(nodes[fmt.Sprintf("r%d", f.Id())] == "entry", "entry of %q is drawn as %q", f.FullName(), nodes[fmt.Sprintf("r%d", f.Id())])
		}
		// the text
		var pl []string
		for _, p := range ps {
			pl = append(pl, fmt.Sprint(p))
		}
		if entry {
			pl = append(pl, "entry")
		}
		sort.Strings(pl)
		var el []string
		for k, v := range f.Errors() {
			el = append(el, fmt.Sprintf("  error %s: %d\n", k, v))
		}
		sort.Strings(el)
		wantT = append(wantT, fmt.Sprintf("[%d] %s\n  parents: %s\n  current: %d, highwater: %d, success: %d, errors: %d, panics: %d\n%s  success times:\n%s  failure times:\n%s\n",
			f.Id(), f.FullName(), strings.Join(pl, ", "), f.Current(), f.Highwater(), f.Success(), total, f.Panics(), strings.Join(el, ""), distText(f.SuccessTimes(), "    "), distText(f.FailureTimes(), "    ")))
	})
	sameLists("functions", got, want)
	check(len(nodes) == n, "%d nodes, want %d", len(nodes), n)
	sameLists("calls", edges, wantE)
	if !text {
		return
	}
	var gotT []string
	for _, b := range strings.Split(regRender(reg, present.FuncsText), "\n\n") {
		if b == "" {
			continue
		}
		lines := strings.Split(b, "\n")
		if len(lines) > 2 && strings.HasPrefix(lines[1], "  parents: ") {
			p := strings.Split(strings.TrimPrefix(lines[1], "  parents: "), ", ")
			sort.Strings(p)
			lines[1] = "  parents: " + strings.Join(p, ", ")
			j := 3
			for j < len(lines) && strings.HasPrefix(lines[j], "  error ") {
				j++
			}
			sort.Strings(lines[3:j])
		}
		gotT = append(gotT, strings.Join(lines, "\n")+"\n\n")
	}
	sameLists("text", gotT, wantT)
}

type wrapErr struct{ e error }

func (w wrapErr) Error() string     { return "wrapped " + w.e.Error() }
func (w wrapErr) WrappedErr() error { return w.e }

type loopErr struct{}

func (loopErr) Error() string     { return "inner nil" }
func (loopErr) WrappedErr() error { return nil }

type svgBar struct {
	parent               int64
	x, y, w, h           int
	fill, text           string
	over, out            string // scripts
	lx1, lx2, ly1, ly2   int
	rects, texts, groups int
}

// svg parses a drawing.
func svg(text string) (bars map[int64]*svgBar, width, height int) {
	bars = map[int64]*svgBar{}
	d := xml.NewDecoder(strings.NewReader(text))
	var cur *svgBar
	var intext bool
	depth := 0
	at := func(e xml.StartElement, n string) string {
		for _, a := range e.Attr {
			if a.Name.Local == n {
				return a.Value
			}
		}
		return ""
	}
	num := func(s string) int {
		v, err := strconv.Atoi(s)
		check(err == nil, "not a number in the drawing: %q", s)
		return v
	}
	for {
		tok, err := d.Token()
		if err == io.EOF {
			break
		}
		if err != nil {
			fail("the drawing is not well-formed: %v", err)
		}
		switch e := tok.(type) {
		case xml.StartElement:
			depth++
			id := at(e, "id")
			switch {
			case e.Name.Local == "svg":
				width, height = num(at(e, "width")), num(at(e, "height"))
			case e.Name.Local == "g" && strings.HasPrefix(id, "id-"):
				n, err := strconv.ParseInt(id[3:], 10, 64)
				check(err == nil, "bad id %q", id)
				check(bars[n] == nil, "span %d is drawn twice", n)
				cur = &svgBar{over: at(e, "onmouseover"), out: at(e, "onmouseout")}
				bars[n] = cur
				c := at(e, "class")
				check(strings.HasPrefix(c, "func parent-"), "class %q", c)
				cur.parent, err = strconv.ParseInt(c[12:], 10, 64)
				check(err == nil, "class %q", c)
			case cur != nil && e.Name.Local == "rect" && strings.HasPrefix(id, "rect-"):
				cur.x, cur.y, cur.w, cur.h = num(at(e, "x")), num(at(e, "y")), num(at(e, "width")), num(at(e, "height"))
				cur.fill = at(e, "fill")
				cur.rects++
			case cur != nil && e.Name.Local == "text" && strings.HasPrefix(id, "text-"):
				intext = true
				cur.texts++
			case cur != nil && e.Name.Local == "line":
				cur.lx1, cur.lx2, cur.ly1, cur.ly2 = num(at(e, "x1")), num(at(e, "x2")), num(at(e, "y1")), num(at(e, "y2"))
			}
		case xml.CharData:
			if intext {
				cur.text += string(e)
			}
		case xml.EndElement:
			depth--
			if e.Name.Local == "text" {
				intext = false
			}
		}
	}
	check(depth == 0 && width > 0, "the drawing is incomplete")
	return bars, width, height
}

// scriptCall reads a call of a function with strings.
func scriptCall(s string) (name string, args []string, err error) {
	i := strings.IndexByte(s, '(')
	if i < 0 {
		return "", nil, fmt.Errorf("no call")
	}
	name, s = strings.TrimSpace(s[:i]), s[i+1:]
	for {
		s = strings.TrimLeft(s, " ")
		if s == "" || s[0] != '\'' && s[0] != '"' {
			return name, args, fmt.Errorf("no string at %q", s)
		}
		q, arg, done := s[0], []byte(nil), false
		for s = s[1:]; s != "" && !done; {
			c := s[0]
			s = s[1:]
			switch {
			case c == q:
				done = true
			case c == '\n' || c == '\r':
				return name, args, fmt.Errorf("a line ends inside a string")
			case c != '\\':
				arg = append(arg, c)
			case s == "":
			case s[0] == 'u' || s[0] == 'x':
				n := 5
				if s[0] == 'x' {
					n = 3
				}
				if len(s) < n {
					return name, args, fmt.Errorf("bad escape %q", s)
				}
				r, err := strconv.ParseUint(s[1:n], 16, 32)
				if err != nil {
					return name, args, fmt.Errorf("bad escape %q", s)
				}
				arg = append(arg, string(rune(r))...)
				s = s[n:]
			default:
				if k := strings.IndexByte("nrtbfv0", s[0]); k >= 0 {
					arg = append(arg, "\n\r\t\b\f\v\x00"[k])
				} else {
					arg = append(arg, s[0])
				}
				s = s[1:]
			}
		}
		if !done {
			return name, args, fmt.Errorf("a string does not end")
		}
		args = append(args, string(arg))
		s = strings.TrimLeft(s, " ")
		switch {
		case strings.HasPrefix(s, ","):
			s = s[1:]
		case s == ")" || s == ");":
			return name, args, nil
		default:
			return name, args, fmt.Errorf("no end of the call at %q", s)
		}
	}
}

func xmlText(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	var out struct {
		T string `xml:",chardata"`
	}
	if err := xml.Unmarshal([]byte("<a>"+b.String()+"</a>"), &out); err != nil {
		fail("%v", err)
	}
	return out.T
}

// checkOrders draws the spans in other orders than that of their ends.
func checkOrders(fins []*collect.FinishedSpan) {
	x := append([]*collect.FinishedSpan(nil), fins...)
	for i := range fins {
		x[len(x)-1-i] = fins[i]
	}
	checkSVG(x)
	depth := map[int64]int{}
	par := map[int64]int64{}
	for _, f := range fins {
		if p, ok := f.Span.ParentId(); ok {
			par[f.Span.Id()] = p
		}
	}
	for _, f := range fins {
		for id, ok := f.Span.Id(), true; ok; id, ok = par[id] {
			depth[f.Span.Id()]++
		}
	}
	for _, s := range []int{1, -1, 0} {
		sort.SliceStable(x, func(i, j int) bool {
			a, b := depth[x[i].Span.Id()]*s, depth[x[j].Span.Id()]*s
			return a > b || a == b && x[i].Span.Start().Before(x[j].Span.Start())
		})
		checkSVG(x)
	}
}

func checkSVG(fins []*collect.FinishedSpan) {
	text := render(func(w io.Writer) error { return present.SpansToSVG(w, append([]*collect.FinishedSpan(nil), fins...)) })
	bars, width, height := svg(text)
	check(len(bars) == len(fins), "%d spans drawn, want %d", len(bars), len(fins))
	if len(fins) == 0 {
		return
	}
	lo, hi := fins[0].Span.Start(), fins[0].Finish
	byId := map[int64]*collect.FinishedSpan{}
	for _, f := range fins {
		byId[f.Span.Id()] = f
		if f.Span.Start().Before(lo) {
			lo = f.Span.Start()
		}
		if f.Finish.After(hi) {
			hi = f.Finish
		}
	}
	px := func(t time.Time) float64 {
		if hi.Equal(lo) {
			return 0
		}
		return float64(t.Sub(lo)) / float64(hi.Sub(lo)) * float64(width)
	}
	for _, f := range fins {
		b := bars[f.Span.Id()]
		check(b != nil, "span %d is not drawn", f.Span.Id())
		check(b.rects == 1 && b.texts == 1, "span %d has %d bars and %d texts", f.Span.Id(), b.rects, b.texts)
		x0, x1 := px(f.Span.Start()), px(f.Finish)
		check(math.Abs(float64(b.x)-x0) <= 1.5, "bar of span %d starts at %d, want %v", f.Span.Id(), b.x, x0)
		check(b.w >= 1 && (math.Abs(float64(b.x+b.w)-x1) <= 2.5), "bar of span %d ends at %d, want %v", f.Span.Id(), b.x+b.w, x1)
		check(b.y >= 0 && b.y+b.h <= height, "bar of span %d at %d..%d lies outside the drawing of height %d", f.Span.Id(), b.y, b.y+b.h, height)
		dur := f.Finish.Sub(f.Span.Start()).String()
		wt := xmlText(f.Span.Func().FullName()) + "(" + xmlText(strings.Join(f.Span.Args(), " ")) + ") (" + dur + ")"
		check(b.text == wt, "span %d is labelled %q, want %q", f.Span.Id(), b.text, wt)
		// what is shown when the mouse is over the bar
		me, up := fmt.Sprint(f.Span.Id()), "0"
		if p, ok := f.Span.ParentId(); ok && byId[p] != nil {
			up = fmt.Sprint(p)
		}
		_, over, err := scriptCall(b.over)
		check(err == nil && len(over) == 3 && over[0] == me && over[1] == up, "span %d has the script %q: %v %q", f.Span.Id(), b.over, err, over)
		tip := xmlText(over[2])
		wt = xmlText(f.Span.Func().FullName()+"("+strings.Join(f.Span.Args(), " ")+")") + " Duration:" + dur + " Started:" + f.Span.Start().Sub(lo).String()
		check(tip == wt, "span %d is explained by %q, want %q", f.Span.Id(), tip, wt)
		_, out, err := scriptCall(b.out)
		check(err == nil && len(out) == 2 && out[0] == me && out[1] == up, "span %d has the script %q: %v %q", f.Span.Id(), b.out, err, out)
		if p, ok := f.Span.ParentId(); ok && byId[p] != nil {
			pb := bars[p]
			check(b.parent == p, "span %d is drawn as child of %d, want %d", f.Span.Id(), b.parent, p)
			check(b.lx2 == pb.x && b.ly2 >= pb.y && b.ly2 <= pb.y+pb.h, "the line from span %d to its parent ends at %d,%d", f.Span.Id(), b.lx2, b.ly2)
		} else {
			check(b.parent == 0, "span %d is drawn as child of %d", f.Span.Id(), b.parent)
		}
		check(b.lx1 == b.x && b.ly1 >= b.y && b.ly1 <= b.y+b.h, "the line from span %d starts at %d,%d", f.Span.Id(), b.lx1, b.ly1)
		for _, g := range fins {
			if g == f || bars[g.Span.Id()].y != b.y {
				continue
			}
			if f.Span.Start().Before(g.Finish) && g.Span.Start().Before(f.Finish) {
				fail("spans %d and %d overlap in the drawing", f.Span.Id(), g.Span.Id())
			}
		}
	}
	// colours tell the outcomes apart
	class := func(f *collect.FinishedSpan) string {
		switch {
		case f.Panicked:
			return "panic"
		case f.Err == nil:
			return "ok"
		}
		e := f.Err
		for {
			w, ok := e.(wrapErr)
			if !ok {
				break
			}
			e = w.e
		}
		if e == context.Canceled {
			return "canceled"
		}
		return "error"
	}
	for _, f := range fins {
		for _, g := range fins {
			a, b := bars[f.Span.Id()].fill, bars[g.Span.Id()].fill
			check((a == b) == (class(f) == class(g)), "outcomes %s and %s are drawn as %s and %s", class(f), class(g), a, b)
		}
	}
}

func init() {
	seq("C19", "stats", func() {
		reg := monkit.NewRegistry()
		name := pick(oddNames...)
		sc := reg.ScopeNamed(pick(oddNames...))
		switch choose(5) {
		case 0:
			c := sc.Counter(name)
			if choose(2) == 1 {
				c.Inc(3)
			}
		case 1:
			sc.FloatVal(name).Observe(pick(1.5, math.NaN(), math.Inf(1), math.Inf(-1), 1e300, -1e-9, math.MaxFloat64))
		case 2:
			sc.Gauge(name, func() float64 { return 1 })
			sc.IntVal(name, monkit.NewSeriesTag("a\"b", "c<\n")).Observe(-1 << 60)
		case 3:
			v := pick(math.NaN(), math.Inf(-1), 0.1, math.Copysign(0, -1))
			sc.Chain(monkit.StatSourceFunc(func(cb func(monkit.SeriesKey, string, float64)) {
				cb(monkit.NewSeriesKey(name).WithTag("t", name), "f "+name, v)
				cb(monkit.NewSeriesKey("second"), "x", 2)
			}))
		case 4:
			sc.BoolVal(name).Observe(true)
			sc.Meter(name + "m").Mark(1)
			sc.FuncNamed(name).Task(nil)(nil)
		}
		var wantT, wantJ []string
		reg.Stats(func(k monkit.SeriesKey, field string, v float64) {
			wantT = append(wantT, fmt.Sprintf("%s=%s\n", k.WithField(field), strconv.FormatFloat(v, 'f', 6, 64)))
			tags := map[string]string{}
			for t, x := range k.Tags.All() {
				tags[asJSON(t)] = asJSON(x)
			}
			num := "null"
			if !math.IsNaN(v) && !math.IsInf(v, 0) {
				num = fmt.Sprint(v)
			}
			wantJ = append(wantJ, fmt.Sprintf("%q %q %q %s", asJSON(k.Measurement), fmt.Sprint(tags), asJSON(field), num))
		})
		for i, f := range []func(*monkit.Registry, io.Writer) error{present.StatsText, present.StatsOld} {
			text := regRender(reg, f)
			n := 0
			for _, w := range wantT {
				w = strings.Replace(w, "=+Inf\n", "=Inf\n", 1)
				t2 := strings.ReplaceAll(text, "=+Inf\n", "=Inf\n")
				check(strings.Contains(t2, w), "the text (%d) lacks %q: %q", i, w, text)
				n += len(w)
			}
			check(n == len(strings.ReplaceAll(text, "=+Inf\n", "=Inf\n")), "the text (%d) contains more than the statistics: %q, want %q", i, text, wantT)
		}
		var js [][]any
		unjson(regRender(reg, present.StatsJSON), &js)
		var got []string
		for _, e := range js {
			check(len(e) == 4, "entry %v", e)
			tags := map[string]string{}
			for k, v := range e[1].(map[string]any) {
				tags[k] = v.(string)
			}
			num := "null"
			if f, ok := e[3].(float64); ok {
				num = fmt.Sprint(f)
			} else {
				check(e[3] == nil, "value %v", e[3])
			}
			got = append(got, fmt.Sprintf("%q %q %q %s", e[0], fmt.Sprint(tags), e[2], num))
		}
		sameLists("statistics", got, wantJ)
	})
	seq("C19", "spans", func() {
		f := &spanForest{reg: monkit.NewRegistry()}
		f.checkSpans(true)
		f.grow(q(4, 5), []string{"b", "a"})
		f.checkSpans(true)
	})
	seq("C19", "spans-odd-names", func() {
		f := &spanForest{reg: monkit.NewRegistry()}
		f.grow(3, oddNames)
		f.checkSpans(false)
	})
	seq("C19", "remote-spans", func() {
		f := &spanForest{reg: monkit.NewRegistry()}
		ctx := context.Background()
		tr := monkit.NewTrace(pick[int64](3, -3))
		f.exit = append(f.exit, f.reg.ScopeNamed("s").FuncNamed("f").RemoteTrace(&ctx, pick[int64](0, 9, -9), tr))
		f.ctx, f.live, f.spans = append(f.ctx, ctx), append(f.live, true), append(f.spans, monkit.SpanFromCtx(ctx))
		f.start(0, "kid")
		adv(time.Millisecond)
		js := []jspan{}
		unjson(regRender(f.reg, present.SpansJSON), &js)
		var got []string
		for _, j := range js {
			got = append(got, j.String())
		}
		sameLists("spans", got, []string{wantSpan(f.spans[0], nil), wantSpan(f.spans[1], nil)})
		text := regRender(f.reg, present.SpansText)
		for _, s := range f.spans {
			check(strings.Contains(text, fmt.Sprintf("[%d,%d] ", s.Id(), tr.Id())), "span %d of trace %d is missing: %q", s.Id(), tr.Id(), text)
		}
		nodes, edges := dot(regRender(f.reg, present.SpansDot))
		check(len(nodes) == 2 && len(edges) == 1, "%v %v", nodes, edges)
	})
	seq("C19", "funcs", func() {
		reg := monkit.NewRegistry()
		names := pick([]string{"a", "b"}, []string{`q"u\o<t>&'e`, "new\nline\t"}, []string{"\xff\x01é", "%s"})
		odd := names[0] != "a"
		checkFuncs(reg, true)
		sc := reg.ScopeNamed("s" + names[1])
		fs := []*monkit.Func{sc.FuncNamed(names[0]), sc.FuncNamed(names[1])}
		ctxs := []context.Context{context.Background()}
		var exits []func(*error)
		for i := 0; i < q(4, 5); i++ {
			adv(time.Duration(i+1) * time.Second)
			k := choose(2 + 5)
			if k < 2 || k == 6 {
				ctx := ctxs[len(ctxs)-1]
				if k == 6 {
					ctx = context.Background()
				}
				exits = append(exits, fs[k%5].Task(&ctx))
				ctxs = append(ctxs, ctx)
			} else if len(exits) > 0 {
				n := len(exits) - 1
				var err error
				switch k {
				case 3:
					err = errors.New("x")
				case 4:
					err = maybeErr{[]string{names[0], ""}[i%2], true}
				}
				if k == 5 {
					catch(func() { defer exits[n](nil); panic(1) })
				} else {
					exits[n](&err)
				}
				exits, ctxs = exits[:n], ctxs[:n+1]
			}
		}
		checkFuncs(reg, !odd)
	})
	seq("C19", "traces", func() {
		reg := monkit.NewRegistry()
		variant := choose(4)
		names := [][]string{oddNames[:1], oddNames[1:2], oddNames[2:4], oddNames[:1]}[variant]
		var fins []*collect.FinishedSpan
		type open struct {
			ctx  context.Context
			exit func(*error)
			kids int
		}
		tr := monkit.NewTrace(7)
		obs := &finObs{}
		tr.ObserveSpans(obs)
		var stack []open
		top := context.Background()
		// properly nested spans; each step starts, ends or goes wrong
		clock := []time.Duration{0, 1, time.Millisecond, 24 * time.Hour}[variant]
		for i := 0; i < q(4, 5); i++ {
			if clock != 0 && choose(2) == 1 {
				adv(clock)
			}
			n := 5
			if len(stack) == 0 {
				n = 3
			}
			k := choose(n)
			if len(stack) == 0 || k == 0 {
				ctx := top
				var exit func(*error)
				f := reg.ScopeNamed("s").FuncNamed(names[i%len(names)])
				if len(stack) > 0 {
					ctx = stack[len(stack)-1].ctx
					exit = f.Task(&ctx, "a<\n", i)
				} else {
					exit = f.RemoteTrace(&ctx, int64(k%3), tr)
				}
				stack = append(stack, open{ctx: ctx, exit: exit})
				continue
			}
			o := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			var err error
			switch k {
			case 2:
				err = errors.New("err<\"\xff")
			case 3:
				err = []error{context.Canceled, wrapErr{context.Canceled}, wrapErr{wrapErr{io.EOF}}, loopErr{}, context.DeadlineExceeded, wrapErr{context.DeadlineExceeded}}[(i+variant)%6]
			case 4:
				err = []error{nil, io.EOF, context.Canceled}[i%3]
				catch(func() { defer o.exit(&err); panic(1) })
				continue
			}
			o.exit(&err)
		}
		for len(stack) > 0 {
			adv(clock)
			stack[len(stack)-1].exit(nil)
			stack = stack[:len(stack)-1]
		}
		fins = obs.fins
		var js []jspan
		unjson(render(func(w io.Writer) error { return present.SpansToJSON(w, fins) }), &js)
		var got, want []string
		for _, j := range js {
			got = append(got, j.String())
		}
		for _, f := range fins {
			want = append(want, wantSpan(f.Span, f))
		}
		sameLists("spans", got, want)
		checkSVG(fins)
		checkSVG(nil)
	})
	// traces of nanoseconds and of years
	seq("C19", "scales", func() {
		reg := monkit.NewRegistry()
		tr := monkit.NewTrace(7)
		obs := &finObs{}
		tr.ObserveSpans(obs)
		ctx := context.Background()
		f := reg.ScopeNamed("s").FuncNamed("f")
		root := f.RemoteTrace(&ctx, 5, tr)
		units := []time.Duration{time.Nanosecond, time.Millisecond, time.Hour, 24 * time.Hour, 40 * 24 * time.Hour, 3650 * 24 * time.Hour}
		var live []func(*error)
		for i := 0; i < q(4, 5); i++ {
			adv(pick(units...))
			if len(live) > 0 && choose(2) == 1 {
				live[0](nil)
				live = live[1:]
				continue
			}
			c := ctx
			live = append(live, f.Task(&c))
		}
		for _, x := range live {
			x(nil)
		}
		root(nil)
		checkSVG(obs.fins)
	})
	seq("C19", "rows", func() {
		// siblings and their children, overlapping in time in every way
		reg := monkit.NewRegistry()
		tr := monkit.NewTrace(7)
		obs := &finObs{}
		tr.ObserveSpans(obs)
		ctx := context.Background()
		f := reg.ScopeNamed("s").FuncNamed("f")
		root := f.RemoteTrace(&ctx, pick[int64](0, 5), tr)
		type one struct {
			ctx  context.Context
			exit func(*error)
			par  int
		}
		var all []one
		live := map[int]bool{}
		for i := 0; i < q(7, 9); i++ {
			adv(time.Second)
			var ends []int
			for j := range all {
				busy := false
				for k := range all {
					busy = busy || live[k] && all[k].par == j
				}
				if live[j] && !busy {
					ends = append(ends, j)
				}
			}
			starts := []int{-1}
			for j := range all {
				if live[j] && all[j].par == -1 {
					starts = append(starts, j)
				}
			}
			k := choose(len(starts) + len(ends))
			if k < len(starts) {
				c := ctx
				if starts[k] >= 0 {
					c = all[starts[k]].ctx
				}
				x := f.Task(&c)
				live[len(all)] = true
				all = append(all, one{c, x, starts[k]})
			} else {
				j := ends[k-len(starts)]
				all[j].exit(nil)
				delete(live, j)
			}
		}
		adv(time.Second)
		for pass := 0; pass < 2; pass++ {
			for j := range all {
				if live[j] && (all[j].par >= 0) == (pass == 0) {
					all[j].exit(nil)
					adv(time.Second)
				}
			}
		}
		root(nil)
		checkSVG(obs.fins)
		checkOrders(obs.fins)
	})
	seq("C19", "rows-late", func() {
		// spans that outlive their parents, next to a later sibling of the
		// parents with spans of its own
		reg := monkit.NewRegistry()
		tr := monkit.NewTrace(7)
		obs := &finObs{}
		tr.ObserveSpans(obs)
		f := reg.ScopeNamed("s").FuncNamed("f")
		ctx := context.Background()
		root := f.RemoteTrace(&ctx, 5, tr)
		if choose(2) == 1 {
			f.Task(&ctx)(nil)
		}
		var live []func(*error)
		gap := pick(time.Second, 0)
		tree := func() {
			var c []context.Context
			adv(time.Second)
			for i := 0; i < q(3, 4); i++ {
				adv(gap)
				x := ctx
				if i > 0 {
					x = c[choose(i)]
				}
				live = append(live, f.Task(&x))
				c = append(c, x)
			}
		}
		late := func() {
			var keep []func(*error)
			for i, x := range live {
				adv(time.Second)
				if i < 4 && choose(2) == 1 {
					keep = append(keep, x)
					continue
				}
				x(nil)
			}
			live = keep
		}
		tree()
		late()
		tree()
		late()
		adv(time.Second)
		if choose(2) == 1 {
			root(nil)
			root = nil
		}
		for i := range live {
			live[i](nil)
			adv(time.Second)
		}
		if root != nil {
			root(nil)
		}
		checkSVG(obs.fins)
		checkOrders(obs.fins)
	})
	seq("C19", "spans-deep", func() {
		f := &spanForest{reg: monkit.NewRegistry()}
		f.start(-1, "a")
		n := 1 + choose(8)
		for i := 0; i < n; i++ {
			adv(time.Second)
			f.start(i, pick("a", "b"))
		}
		f.checkSpans(true)
	})
	routes := map[string]struct {
		typ string
		f   func(*monkit.Registry, io.Writer) error
	}{
		"ps": {"text/plain", present.SpansText}, "ps/text": {"text/plain", present.SpansText},
		"ps/dot": {"text/plain", present.SpansDot}, "ps/json": {"application/json", present.SpansJSON},
		"funcs": {"text/plain", present.FuncsText}, "funcs/text": {"text/plain", present.FuncsText},
		"funcs/dot": {"text/plain", present.FuncsDot}, "funcs/json": {"application/json", present.FuncsJSON},
		"stats": {"text/plain", present.StatsText}, "stats/text": {"text/plain", present.StatsText},
		"stats/old": {"text/plain", present.StatsText}, "stats/json": {"application/json", present.StatsJSON},
	}
	seq("C19", "routes", func() {
		reg := monkit.NewRegistry()
		big := choose(2) == 1
		ctx := context.Background()
		n := 1
		if big { // more than a buffer of output
			n = 60
		}
		for i := 0; i < n; i++ {
			reg.ScopeNamed("s").FuncNamed(fmt.Sprint("f", i)).Task(&ctx)
		}
		first := pick("", "ps", "funcs", "stats", "trace", "nothing", "PS")
		second := pick("", "text", "old", "dot", "json", "svg", "remote", "xml")
		lead := pick("", "/", "//")
		path := lead + first
		if second != "" {
			path += "/" + second
		}
		if second != "" {
			path += pick("", "/", "/more")
		} else {
			path += pick("", "/")
		}
		quer := pick("", "regex=%28", "regex=nomatch", "regex=nomatch&trace_id=1", "trace_id=xyz", "trace_id=", "regex=f&preselect=maybe", "regex=f&trace_id=-1")
		if first != "trace" && quer != "" && quer != "regex=%28" {
			return
		}
		vals, err := url.ParseQuery(quer)
		if err != nil {
			fail("%v", err)
		}
		name := strings.TrimSuffix(first+"/"+second, "/")
		r, known := routes[name]
		status := 200
		switch {
		case first == "":
			// "//json" and the like: empty components are skipped
			if strings.Trim(path, "/") != "" {
				return
			}
		case first == "trace":
			status = 400
		case !known:
			status = 404
		}
		p, typ, err := present.FromRequest(reg, path, vals)
		check((err == nil) == (status == 200), "%q %q gives %v", path, quer, err)
		rw := &resp{hdr: http.Header{}}
		rq := &http.Request{Method: "GET", URL: &url.URL{Path: path, RawQuery: quer}}
		present.HTTP(reg).ServeHTTP(rw, rq)
		body := ""
		code := 200
		for _, l := range rw.log {
			if strings.HasPrefix(l, "write ") {
				body += l[6:]
			} else {
				fmt.Sscanf(l, "status %d", &code)
			}
		}
		check(code == status, "%q answers with status %d, want %d", path, code, status)
		if status != 200 {
			check(strings.TrimSpace(body) == err.Error(), "%q answers %q, want %q", path, body, err)
			return
		}
		ct := rw.hdr.Get("Content-Type")
		check(ct == typ, "%q has type %q over HTTP, otherwise %q", path, ct, typ)
		direct := render(p)
		check(sameLines(direct, body), "%q answers %q, want %q", path, body, direct)
		if first == "" {
			check(strings.HasPrefix(ct, "text/html") && strings.Contains(body, "Monkit"), "the index is %q of type %q", body, ct)
			return
		}
		check(strings.HasPrefix(ct, r.typ), "%q has type %q, want %q", path, ct, r.typ)
		check(sameLines(body, regRender(reg, r.f)), "%q answers %q", path, body)
	})
	// presentations while others work
	conc("C19", "live", Bounds{0, 2}, Bounds{1, 3}, 0, func() {
		reg := monkit.NewRegistry()
		f := &spanForest{reg: reg}
		f.start(-1, "stay")
		f.start(0, "kid")
		f.start(-1, "go")
		kind := choose(3)
		par(func() {
			f.spans[2].Annotate("a", "b")
			f.exit[2](nil)
			c := f.ctx[1]
			reg.ScopeNamed("scnew").FuncNamed("new").Task(&c)
		}, func() {
			switch kind {
			case 0:
				var js []jspan
				unjson(regRender(reg, present.SpansJSON), &js)
				n := map[string]int{}
				for _, j := range js {
					n[j.Func.Name]++
				}
				check(n["stay"] == 1 && n["kid"] == 1 && n["go"] <= 1 && n["new"] <= 1 && len(n) <= 4, "spans %v", n)
			case 1:
				nodes, _ := dot(regRender(reg, present.FuncsDot))
				check(len(nodes) >= 5, "%v", nodes)
				regRender(reg, present.FuncsText)
			case 2:
				nodes, _ := dot(regRender(reg, present.SpansDot))
				check(len(nodes) >= 2 && len(nodes) <= 4, "%v", nodes)
				regRender(reg, present.SpansText)
			}
		})
	})
}

type finObs struct{ fins []*collect.FinishedSpan }

func (o *finObs) Start(*monkit.Span) {}
func (o *finObs) Finish(s *monkit.Span, err error, panicked bool, finish time.Time) {
	o.fins = append(o.fins, &collect.FinishedSpan{Span: s, Err: err, Panicked: panicked, Finish: finish})
}

// sameLines compares two renderings up to the order of their parts.
func sameLines(a, b string) bool {
	norm := func(s string) string {
		l := strings.Split(s, "\n")
		for i := range l {
			l[i] = strings.TrimRight(l[i], ",]")
		}
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	return norm(a) == norm(b)
}

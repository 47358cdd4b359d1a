// Command harness explores the instrumented monkit: it enumerates, for every
// scenario of one property, all schedules up to a preemption bound and all
// operation, input and environment choices, and checks each execution.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/sched"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/venv"
)

// Bounds: preemption bounds with statement-level points and with points at
// synchronisation operations only; -1: pass not run.
type Bounds struct{ Stmt, Sync int }

type Scenario struct {
	Prop     string
	Name     string
	Body     func()
	Quick    Bounds
	Thorough Bounds
	Race     int // preemption bound of the race-detector pass (quick), -1 none
	Cfg      sched.Config
	Only     string // "thorough": not in the quick tier
}

func (s *Scenario) conc() bool { return s.Quick.Stmt >= 0 || s.Quick.Sync > 0 || s.Race >= 0 }

var scenarios []*Scenario

func add(s *Scenario) { scenarios = append(scenarios, s) }

// seq registers a sequential scenario: only data choices.
func seq(prop, name string, body func()) *Scenario {
	name = prop + "/" + name
	s := &Scenario{Prop: prop, Name: name, Body: body, Quick: Bounds{-1, 0}, Thorough: Bounds{-1, 0}, Race: -1}
	add(s)
	return s
}

// conc registers a concurrent scenario.
func conc(prop, name string, q, t Bounds, race int, body func()) *Scenario {
	name = prop + "/" + name
	s := &Scenario{Prop: prop, Name: name, Body: body, Quick: q, Thorough: t, Race: race}
	add(s)
	return s
}

type PassReport struct {
	Scenario   string         `json:"scenario"`
	Mode       string         `json:"mode"`
	Bound      int            `json:"bound"`
	Complete   bool           `json:"complete"`
	Exhausted  bool           `json:"exhausted"` // nothing was cut by the bound
	Execs      int64          `json:"execs"`
	States     int64          `json:"states"`
	Steps      int64          `json:"steps"`
	MaxPoints  int            `json:"max_points"`
	MaxThreads int            `json:"-"`
	Diverged   int64          `json:"diverged"`
	Outcomes   map[string]int `json:"outcomes,omitempty"`
	Sample     []string       `json:"sample,omitempty"`
}

type Violation struct {
	Prop     string   `json:"property"`
	Scenario string   `json:"scenario"`
	Mode     string   `json:"mode"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Prefix   []int32  `json:"prefix"`
	Cost     int      `json:"deviations"`
	Tier     string   `json:"tier"`
	Log      []string `json:"log,omitempty"`
}

type Report struct {
	Shard     int            `json:"shard"`
	Passes    []*PassReport  `json:"passes"`
	Violation *Violation     `json:"violation,omitempty"`
	Known     map[string]int `json:"known,omitempty"`
	Seconds   float64        `json:"seconds"`
}

type explorer struct {
	sc       *Scenario
	mode     string
	bound    int
	shard    int
	shards   int
	deadline time.Time
	rep      *PassReport
	viol     *Violation
	cut      bool
	timeup   bool
	journal  *os.File
	race     bool
	known    []knownFinding
	knownHit map[string]int
	maps     bool // an iteration over a map of several keys was seen
}

type knownFinding struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

var execStart int64 // unix nanos of the running execution, for the watchdog

func (x *explorer) cfg() sched.Config {
	c := x.sc.Cfg
	c.Stmt = x.mode == "stmt"
	switch x.mode {
	case "sync/desc":
		c.MapOrder = 1
	case "sync/alt":
		c.MapOrder = 2
	}
	if c.Seed == 0 {
		c.Seed = 1
	}
	return c
}

func run(cfg sched.Config, prefix []int32, body func()) *sched.Result {
	atomic.StoreInt64(&execStart, time.Now().UnixNano())
	defer atomic.StoreInt64(&execStart, 0)
	return sched.Run(cfg, prefix, func() {
		monkit.Default = monkit.NewRegistry()
		venv.Script(venv.Env{})
		body()
	})
}

type pnode struct {
	pts  []sched.Pt
	cost int
}

func costOf(pts []sched.Pt) int {
	c := 0
	for _, p := range pts {
		if p.Pick != 0 && (p.Kind == sched.KPreempt || p.Kind == sched.KDev) {
			c++
		}
	}
	return c
}

// explore runs prefix and everything below it. devs is the number of non-zero
// choices in prefix; a subtree at devs==2 belongs to one shard.
func (x *explorer) explore(prefix []int32, cost, devs int, owned bool) {
	if x.viol != nil || x.timeup {
		return
	}
	if time.Now().After(x.deadline) {
		x.timeup = true
		return
	}
	if x.journal != nil {
		x.journal.Truncate(0)
		b, _ := json.Marshal(Violation{Prop: x.sc.Prop, Scenario: x.sc.Name, Mode: x.mode, Prefix: prefix, Tier: tierName(), Kind: "crash"})
		x.journal.WriteAt(b, 0)
	}
	r := run(x.cfg(), prefix, x.sc.Body)
	x.maps = x.maps || r.Maps > 0
	count := owned && cost == x.bound
	if r.Diverged {
		x.rep.Diverged++
	}
	if count {
		x.rep.Execs++
		x.rep.States += int64(len(r.Points) - len(prefix) + 1)
		x.rep.Steps += int64(r.Steps)
		if len(r.Points) > x.rep.MaxPoints {
			x.rep.MaxPoints = len(r.Points)
		}
		for k, n := range r.Notes {
			if len(x.rep.Outcomes) < 2000 {
				x.rep.Outcomes[k] += n
			}
		}
		if len(x.rep.Sample) < 2 && len(r.Notes) > 0 {
			ks := []string{}
			for k := range r.Notes {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			x.rep.Sample = append(x.rep.Sample, fmt.Sprintf("choices=%v outcome=%s", trim(prefix), strings.Join(ks, "; ")))
		}
	}
	if r.Failed {
		for _, k := range x.known {
			if k.Property == x.sc.Prop && (k.Scenario == "" || k.Scenario == x.sc.Name) && strings.Contains(r.Msg, k.Match) {
				x.knownHit[k.What]++
				r.Failed = false
			}
		}
	}
	if x.race && r.Kind != "race" {
		r.Failed = false // other kinds are the business of the scenario's own property
	}
	if r.Failed {
		picks := make([]int32, len(r.Points))
		last := 0
		for i, p := range r.Points {
			picks[i] = p.Pick
			if p.Pick != 0 {
				last = i + 1
			}
		}
		x.viol = &Violation{Prop: x.sc.Prop, Scenario: x.sc.Name, Mode: x.mode, Tier: tierName(), Kind: r.Kind, Msg: r.Msg, Prefix: picks[:last], Cost: cost}
		return
	}
	// children: deviate at a point beyond the prefix
	n := len(r.Points)
	pts := make([]sched.Pt, n)
	copy(pts, r.Points)
	base := make([]int32, n)
	for i, p := range pts {
		base[i] = p.Pick
	}
	for i := len(prefix); i < n; i++ {
		p := pts[i]
		if p.N <= 1 {
			continue
		}
		c := cost
		if p.Kind == sched.KPreempt || p.Kind == sched.KDev {
			c++
		}
		if c > x.bound {
			x.cut = true
			continue
		}
		for alt := int32(1); alt < p.N; alt++ {
			child := make([]int32, i+1)
			copy(child, base[:i])
			child[i] = alt
			own := owned
			if devs <= 1 {
				mine := x.owner(child) == x.shard
				if devs == 1 {
					if !mine {
						continue
					}
					own = true
				} else {
					own = mine
				}
			}
			x.explore(child, c, devs+1, own)
			if x.viol != nil || x.timeup {
				return
			}
		}
	}
}

func (x *explorer) owner(p []int32) int {
	h := fnv.New32a()
	for i, v := range p {
		if v != 0 {
			fmt.Fprintf(h, "%d:%d,", i, v)
		}
	}
	v := h.Sum32()
	v ^= v >> 15
	v *= 0x85ebca6b
	v ^= v >> 13
	return int(v % uint32(x.shards))
}

func trim(p []int32) []int32 {
	if len(p) > 60 {
		return p[:60]
	}
	return p
}

type pass struct {
	sc    *Scenario
	mode  string
	bound int
}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	shard := flag.Int("shard", 0, "")
	shards := flag.Int("shards", 1, "")
	budget := flag.Float64("budget", 300, "seconds")
	racePass := flag.Bool("racepass", false, "")
	only := flag.String("scenario", "", "")
	boundF := flag.Int("bound", -1, "")
	replay := flag.String("replay", "", "")
	journal := flag.String("journal", "", "")
	known := flag.String("known", "", "")
	list := flag.Bool("list", false, "")
	verbose := flag.Bool("v", false, "")
	concOnly := flag.Bool("conconly", false, "only concurrent scenarios")
	stmtOff := flag.Bool("nostmt", false, "statement points not compiled in")
	idsN := flag.Int("ids", 0, "")
	flag.Parse()
	if *idsN > 0 {
		printIds(*idsN)
		return
	}
	thorough = *tier == "thorough"
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	if *list {
		type listed struct {
			Prop, Name string
			Conc       bool
			Race       int
		}
		var l []listed
		for _, s := range scenarios {
			l = append(l, listed{s.Prop, s.Name, s.conc(), s.Race})
		}
		json.NewEncoder(os.Stdout).Encode(l)
		return
	}
	go watchdog()
	if *replay != "" {
		os.Exit(doReplay(*replay))
	}
	var passes []pass
	for _, s := range scenarios {
		if *racePass {
			if s.Race < 0 {
				continue
			}
		} else if s.Prop != *prop {
			continue
		}
		if *concOnly && !s.conc() {
			continue
		}
		if *only != "" && s.Name != *only {
			continue
		}
		if s.Only == "thorough" && *tier != "thorough" {
			continue
		}
		b := s.Quick
		if *tier == "thorough" {
			b = s.Thorough
		}
		if *racePass {
			b = Bounds{-1, s.Race}
			if *tier == "thorough" {
				b.Sync++
			}
		}
		if *boundF >= 0 {
			if b.Stmt >= 0 {
				b.Stmt = *boundF
			}
			if b.Sync >= 0 {
				b.Sync = *boundF
			}
		}
		if *stmtOff {
			b.Stmt = -1
		}
		for k := 0; k <= b.Sync; k++ {
			passes = append(passes, pass{s, "sync", k})
			// the other orders of iteration over maps, as far as there are any
			if *racePass || s.conc() && k > 1 && (k == b.Sync || *tier != "thorough") {
				continue
			}
			passes = append(passes, pass{s, "sync/desc", k})
			if *tier == "thorough" && k <= 1 {
				passes = append(passes, pass{s, "sync/alt", k})
			}
		}
		for k := 0; k <= b.Stmt; k++ {
			passes = append(passes, pass{s, "stmt", k})
		}
	}
	// all scenarios at bound 0, then 1, ...
	sort.SliceStable(passes, func(i, j int) bool { return passes[i].bound < passes[j].bound })
	start := time.Now()
	rep := &Report{Shard: *shard, Known: map[string]int{}}
	deadline := start.Add(time.Duration(*budget * float64(time.Second)))
	var jf *os.File
	if *journal != "" {
		jf, _ = os.Create(*journal)
	}
	var kn []knownFinding
	if *known != "" {
		if b, err := os.ReadFile(*known); err == nil {
			json.Unmarshal(b, &kn)
		}
	}
	exhausted := map[string]bool{}
	usesMaps := map[*Scenario]bool{}
	for _, p := range passes {
		key := p.sc.Name + "/" + p.mode
		if exhausted[key] || strings.HasPrefix(p.mode, "sync/") && !usesMaps[p.sc] {
			continue
		}
		x := &explorer{sc: p.sc, mode: p.mode, bound: p.bound, shard: *shard, shards: *shards, deadline: deadline, race: *racePass, journal: jf, known: kn, knownHit: rep.Known,
			rep: &PassReport{Scenario: p.sc.Name, Mode: p.mode, Bound: p.bound, Outcomes: map[string]int{}}}
		t0 := time.Now()
		x.explore(nil, 0, 0, *shard == 0)
		usesMaps[p.sc] = usesMaps[p.sc] || x.maps
		x.rep.Complete = !x.timeup && x.viol == nil
		x.rep.Exhausted = x.rep.Complete && !x.cut
		if x.rep.Exhausted {
			exhausted[key] = true
		}
		rep.Passes = append(rep.Passes, x.rep)
		if *verbose {
			fmt.Fprintf(os.Stderr, "%-40s %-4s bound=%d execs=%d states=%d steps=%d maxpts=%d div=%d outcomes=%d complete=%v exh=%v %.2fs\n", p.sc.Name, p.mode, p.bound, x.rep.Execs, x.rep.States, x.rep.Steps, x.rep.MaxPoints, x.rep.Diverged, len(x.rep.Outcomes), x.rep.Complete, x.rep.Exhausted, time.Since(t0).Seconds())
		}
		if x.viol != nil {
			rep.Violation = x.viol
			// annotate with a log from a replay
			c := x.cfg()
			c.Log = true
			r := run(c, x.viol.Prefix, p.sc.Body)
			x.viol.Log = r.Log
			break
		}
		if x.timeup {
			break
		}
	}
	rep.Seconds = time.Since(start).Seconds()
	json.NewEncoder(os.Stdout).Encode(rep)
}

func watchdog() {
	for {
		time.Sleep(2 * time.Second)
		t := atomic.LoadInt64(&execStart)
		if t != 0 && time.Since(time.Unix(0, t)) > 90*time.Second {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "HANG: one execution took more than 90 s\n%s\n", buf[:n])
			os.Exit(3)
		}
	}
}

// doReplay runs one recorded execution and prints what happened.
func doReplay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 102
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 102
	}
	thorough = v.Tier == "thorough"
	for _, s := range scenarios {
		if s.Name == v.Scenario {
			x := &explorer{sc: s, mode: v.Mode}
			c := x.cfg()
			c.Log = true
			r := run(c, v.Prefix, s.Body)
			out, _ := json.Marshal(map[string]any{"failed": r.Failed, "kind": r.Kind, "msg": r.Msg, "log": r.Log, "steps": r.Steps})
			fmt.Println(string(out))
			if r.Failed && (v.Kind != "race" || r.Kind == "race") {
				return 1
			}
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such scenario", v.Scenario)
	return 102
}

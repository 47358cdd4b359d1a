// Command vdrive builds the instrumented monkit from /repo's working tree,
// explores one property with it and writes the evidence.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type PassReport struct {
	Scenario  string         `json:"scenario"`
	Mode      string         `json:"mode"`
	Bound     int            `json:"bound"`
	Complete  bool           `json:"complete"`
	Exhausted bool           `json:"exhausted"`
	Execs     int64          `json:"execs"`
	States    int64          `json:"states"`
	Steps     int64          `json:"steps"`
	MaxPoints int            `json:"max_points"`
	Diverged  int64          `json:"diverged"`
	Outcomes  map[string]int `json:"outcomes,omitempty"`
	Sample    []string       `json:"sample,omitempty"`
}

type Violation struct {
	Prop     string   `json:"property"`
	Scenario string   `json:"scenario"`
	Mode     string   `json:"mode"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Prefix   []int32  `json:"prefix"`
	Cost     int      `json:"deviations"`
	Tier     string   `json:"tier"`
	Log      []string `json:"log,omitempty"`
	Variant  string   `json:"variant"`
	Repro    string   `json:"reproduced,omitempty"`
	Detail   string   `json:"detail,omitempty"`
	Shard    int      `json:"-"`
}

type Report struct {
	Shard     int            `json:"shard"`
	Passes    []*PassReport  `json:"passes"`
	Violation *Violation     `json:"violation,omitempty"`
	Known     map[string]int `json:"known,omitempty"`
	Seconds   float64        `json:"seconds"`
}

type listed struct {
	Prop  string
	Name  string
	Conc  bool
	Race  int
	Quick bool
}

type variant struct {
	name string
	race bool
	tags string
	part float64 // share of the budget
}

const workers = 8

var runDir string

func cleanup() {
	if runDir != "" {
		os.RemoveAll(runDir)
	}
}

func die(code int, format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	cleanup()
	os.Exit(code)
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "build" {
		race := len(os.Args) > 3 && os.Args[3] == "race"
		os.MkdirAll(os.Args[2], 0o755)
		tags := ""
		if len(os.Args) > 4 {
			tags = os.Args[4]
		}
		bin, lvl, err := buildHarness(os.Args[2], race, tags)
		fmt.Println(bin, lvl, err)
		return
	}
	if len(os.Args) < 4 || os.Args[1] != "check" {
		die(2, "usage: vdrive check PROPERTY quick|thorough")
	}
	c := make(chan os.Signal, 2)
	signal.Notify(c, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-c; die(2, "interrupted") }()
	code := check(os.Args[2], os.Args[3])
	cleanup()
	os.Exit(code)
}

func budgetFor(tier string) float64 {
	if s := os.Getenv("VERIF_BUDGET"); s != "" {
		if v, err := strconv.ParseFloat(s, 64); err == nil {
			return v
		}
	}
	if tier == "thorough" {
		return 2400
	}
	return 420
}

type totals struct {
	passes   map[string]*PassReport
	order    []string
	known    map[string]int
	timeout  bool
	workerEr []string
}

func (t *totals) merge(v string, p *PassReport) {
	key := v + "/" + p.Scenario + "/" + p.Mode + "/" + strconv.Itoa(p.Bound)
	o := t.passes[key]
	if o == nil {
		cp := *p
		cp.Outcomes = map[string]int{}
		cp.Execs, cp.States, cp.Steps, cp.Diverged = 0, 0, 0, 0
		t.passes[key] = &cp
		t.order = append(t.order, key)
		o = &cp
	} else {
		o.Complete = o.Complete && p.Complete
		o.Exhausted = o.Exhausted && p.Exhausted
		if len(o.Sample) < 2 {
			o.Sample = append(o.Sample, p.Sample...)
		}
	}
	o.Execs += p.Execs
	o.States += p.States
	o.Steps += p.Steps
	o.Diverged += p.Diverged
	if p.MaxPoints > o.MaxPoints {
		o.MaxPoints = p.MaxPoints
	}
	for k, n := range p.Outcomes {
		o.Outcomes[k] += n
	}
}

func check(prop, tier string) int {
	start := time.Now()
	budget := budgetFor(tier)
	runDir = filepath.Join(verif, ".build", fmt.Sprintf("run-%d", os.Getpid()))
	os.MkdirAll(runDir, 0o755)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	dir := filepath.Join(runDir, "std")
	os.MkdirAll(dir, 0o755)
	bin, level, err := buildHarness(dir, false, "")
	if err != nil {
		die(2, "the instrumented harness does not build: %v", err)
	}
	out, err := exec.Command(bin, "-list").Output()
	if err != nil {
		die(2, "harness -list: %v", err)
	}
	var all []listed
	json.Unmarshal(out, &all)
	conc, any := false, false
	race := prop == "C16"
	for _, l := range all {
		if l.Prop == prop {
			any = true
			conc = conc || l.Conc
		}
	}
	if !any && !race {
		die(2, "no scenario for property %s", prop)
	}
	var vs []variant
	switch {
	case race:
		vs = []variant{{"race", true, "", 0.7}, {"race-appengine", true, "appengine", 0.3}}
	case conc:
		vs = []variant{{"default", false, "", 0.75}, {"appengine", false, "appengine", 0.25}}
	default:
		vs = []variant{{"default", false, "", 1}}
	}
	t := &totals{passes: map[string]*PassReport{}, known: map[string]int{}}
	levels := map[string]int{}
	var viol *Violation
	for i, v := range vs {
		b, l := bin, level
		if v.race || v.tags != "" {
			d := filepath.Join(runDir, v.name)
			os.MkdirAll(d, 0o755)
			var err error
			b, l, err = buildHarness(d, v.race, v.tags)
			if err != nil {
				if i > 0 { // the optional configuration does not build: say so, decide on the default one
					t.workerEr = append(t.workerEr, v.name+": does not build")
					fmt.Fprintln(os.Stderr, "note:", v.name, "does not build:", err)
					continue
				}
				die(2, "%s: %v", v.name, err)
			}
		}
		levels[v.name] = l
		left := budget - time.Since(start).Seconds()
		share := left
		if i < len(vs)-1 {
			share = left * v.part
		}
		viol = explore(t, b, l, v, prop, tier, share)
		if viol != nil {
			break
		}
	}
	code := 0
	if viol != nil {
		path := filepath.Join(verif, "replays", fmt.Sprintf("%s-%s-%d.json", prop, viol.Variant, os.Getpid()))
		os.MkdirAll(filepath.Dir(path), 0o755)
		data, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(path, data, 0o644)
		fmt.Printf("scenario %s (%s, %s, %d deviations): %s: %s\n", viol.Scenario, viol.Variant, viol.Mode, viol.Cost, viol.Kind, clip(viol.Msg, 1500))
		for i, l := range viol.Log {
			if i > 60 {
				break
			}
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}
	var ks []string
	for k := range t.known {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
	}
	writeEvidence(t, prop, tier, seed, levels, viol, ks, time.Since(start).Seconds())
	var ex, st int64
	done := true
	for _, p := range t.passes {
		ex += p.Execs
		st += p.States
		done = done && p.Complete
	}
	fmt.Printf("%s %s: %d executions, %d states, all bounds completed: %v, %.1f s\n", prop, tier, ex, st, done, time.Since(start).Seconds())
	return code
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func workerEnv(v variant) []string {
	env := append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
	if v.race {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 history_size=2 log_path=stderr")
	}
	return env
}

type workerResult struct {
	rep    *Report
	code   int
	sig    bool
	stderr string
	shard  int
	args   []string
}

func startWorker(bin string, v variant, args []string, kill <-chan struct{}, limit time.Duration) workerResult {
	c := exec.Command(bin, args...)
	c.Env = workerEnv(v)
	c.Dir = runDir
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var out bytes.Buffer
	errb := &tail{max: 64 << 10}
	c.Stdout, c.Stderr = &out, errb
	r := workerResult{args: args}
	if err := c.Start(); err != nil {
		r.code = -1
		r.stderr = err.Error()
		return r
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	tm := time.NewTimer(limit)
	defer tm.Stop()
	var err error
	select {
	case err = <-done:
	case <-kill:
		c.Process.Kill()
		<-done
		r.sig = true
		return r
	case <-tm.C:
		c.Process.Kill()
		<-done
		r.sig = true
		r.stderr = "worker exceeded its time limit"
		return r
	}
	r.stderr = errb.String()
	if err != nil {
		r.code = c.ProcessState.ExitCode()
		if ws, ok := c.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
			r.sig = true
		}
		return r
	}
	rep := &Report{}
	if json.Unmarshal(out.Bytes(), rep) == nil && rep.Passes != nil {
		r.rep = rep
	}
	return r
}

type tail struct {
	mu   sync.Mutex
	head []byte
	max  int
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < t.max {
		n := t.max - len(t.head)
		if n > len(p) {
			n = len(p)
		}
		t.head = append(t.head, p[:n]...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.head) }

// explore runs the workers of one variant and returns a confirmed violation.
func explore(t *totals, bin string, level int, v variant, prop, tier string, budget float64) *Violation {
	if budget < 5 {
		t.timeout = true
		return nil
	}
	base := []string{"-prop", prop, "-tier", tier, "-shards", strconv.Itoa(workers), "-budget", fmt.Sprint(budget), "-known", filepath.Join(verif, "known_findings.json")}
	if v.race {
		base = append(base, "-racepass")
	}
	if level < 2 {
		base = append(base, "-nostmt")
	}
	if v.tags != "" {
		base = append(base, "-conconly")
	}
	kill := make(chan struct{})
	var once sync.Once
	res := make([]workerResult, workers)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			args := append(append([]string{}, base...), "-shard", strconv.Itoa(i))
			r := startWorker(bin, v, args, kill, time.Duration(budget+150)*time.Second)
			r.shard = i
			res[i] = r
			if r.rep != nil && r.rep.Violation != nil {
				once.Do(func() { close(kill) })
			}
		}(i)
	}
	wg.Wait()
	var found *Violation
	var foundArgs []string
	for i := range res {
		r := &res[i]
		if r.rep == nil {
			continue
		}
		for _, p := range r.rep.Passes {
			if !p.Complete && r.rep.Violation == nil {
				t.timeout = true
			}
			t.merge(v.name, p)
		}
		for k, n := range r.rep.Known {
			t.known[k] += n
		}
		if r.rep.Violation != nil && (found == nil || r.rep.Violation.Cost < found.Cost) {
			found = r.rep.Violation
			found.Shard = i
			foundArgs = r.args
		}
	}
	if found != nil {
		found.Variant = v.name
		found.Prop = prop
		if n, detail := confirm(bin, v, found); n > 0 {
			found.Repro = fmt.Sprintf("%d of 5 replays in fresh processes", n)
			found.Detail = clip(detail, 4000)
			return found
		}
		// not reproducible from the choice prefix alone: state carried over
		// between executions? Re-run the shard as it was.
		for k := 0; k < 2; k++ {
			r := startWorker(bin, v, foundArgs, make(chan struct{}), time.Duration(budget+150)*time.Second)
			if r.rep != nil && r.rep.Violation != nil && r.rep.Violation.Scenario == found.Scenario && r.rep.Violation.Kind == found.Kind {
				found.Repro = "by re-running the shard"
				return found
			}
		}
		t.workerEr = append(t.workerEr, "unreproducible: "+found.Scenario+": "+clip(found.Msg, 300))
		fmt.Fprintln(os.Stderr, "note: dropped unreproducible report:", found.Scenario, found.Msg)
		return nil
	}
	// workers that crashed or hung
	for i := range res {
		r := &res[i]
		if r.rep != nil {
			continue
		}
		if r.sig {
			t.workerEr = append(t.workerEr, fmt.Sprintf("shard %d was killed: %s", i, clip(r.stderr, 200)))
			t.timeout = true
			continue
		}
		fmt.Fprintf(os.Stderr, "note: shard %d ended with code %d: %s\n", i, r.code, clip(r.stderr, 3000))
		j := filepath.Join(runDir, fmt.Sprintf("journal-%d", i))
		r2 := startWorker(bin, v, append(append([]string{}, r.args...), "-journal", j), make(chan struct{}), time.Duration(budget+150)*time.Second)
		if r2.rep != nil || r2.sig {
			t.workerEr = append(t.workerEr, fmt.Sprintf("shard %d crashed once (code %d), not again", i, r.code))
			t.timeout = true
			continue
		}
		vi := &Violation{}
		data, _ := os.ReadFile(j)
		if json.Unmarshal(bytes.TrimRight(data, "\x00"), vi) != nil {
			t.workerEr = append(t.workerEr, "crash without journal")
			continue
		}
		vi.Variant, vi.Prop, vi.Kind = v.name, prop, "crash"
		vi.Msg = "the process died: " + clip(firstLines(r2.stderr, 6), 600)
		if n, detail := confirm(bin, v, vi); n > 0 {
			vi.Repro = fmt.Sprintf("%d of 5 replays in fresh processes", n)
			vi.Detail = clip(detail, 4000)
			return vi
		}
		t.workerEr = append(t.workerEr, "crash not reproducible: "+vi.Scenario)
	}
	return nil
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// confirm replays the execution in five fresh processes.
func confirm(bin string, v variant, vi *Violation) (int, string) {
	f := filepath.Join(runDir, "replay.json")
	data, _ := json.Marshal(vi)
	os.WriteFile(f, data, 0o644)
	n, detail := 0, ""
	for i := 0; i < 5; i++ {
		r := startWorker(bin, v, []string{"-replay", f}, make(chan struct{}), 150*time.Second)
		if r.code != 0 && r.code != 2+100 && !r.sig {
			n++
			detail = r.stderr
		}
	}
	return n, detail
}

func writeEvidence(t *totals, prop, tier string, seed int, levels map[string]int, viol *Violation, known []string, wall float64) {
	var execs, states, steps, div int64
	complete, exhausted := true, true
	bounds := map[string]any{}
	outcomes := map[string]bool{}
	var samples []string
	last := map[string]*PassReport{}
	for _, k := range t.order {
		p := t.passes[k]
		execs += p.Execs
		states += p.States
		steps += p.Steps
		div += p.Diverged
		complete = complete && p.Complete
		bounds[k] = map[string]any{"executions": p.Execs, "states": p.States, "completed": p.Complete, "nothing_cut_by_bound": p.Exhausted, "deepest_choice_sequence": p.MaxPoints, "distinct_outcomes": len(p.Outcomes)}
		for o := range p.Outcomes {
			outcomes[p.Scenario+": "+o] = true
		}
		if len(samples) < 12 {
			for _, s := range p.Sample {
				samples = append(samples, p.Scenario+": "+s)
			}
		}
		kk := strings.TrimSuffix(k, "/"+strconv.Itoa(p.Bound))
		last[kk] = p
	}
	for _, p := range last {
		exhausted = exhausted && p.Exhausted
	}
	if len(samples) == 0 {
		for _, k := range t.order {
			samples = append(samples, fmt.Sprintf("%s: %d executions", k, t.passes[k].Execs))
			if len(samples) > 5 {
				break
			}
		}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall,
		"coverage": map[string]any{
			"states": states, "transitions": steps, "traces_validated_against_impl": execs, "samples": samples,
			"exhaustive":                   complete && !t.timeout && viol == nil,
			"exhaustive_without_any_bound": exhausted && complete && !t.timeout && viol == nil,
			"passes":                       bounds, "distinct_outcomes": len(outcomes), "replay_divergences": div,
			"instrumentation_level": levels, "worker_notes": t.workerEr,
			"rule": "states: distinct nodes of the choice tree (schedule, operation, input, environment); transitions: instrumented steps executed; traces_validated_against_impl: complete executions, each of the real code under test",
		},
		"assumptions": []string{
			"sequentially consistent memory (weak-memory effects are covered by the race-freedom property)",
			"schedule points: every synchronisation operation, and in stmt passes every statement that touches memory reachable by another thread; preemptions up to the bound of each pass",
			"the Go compiler, runtime and standard library are trusted",
		},
		"known_findings": known,
	}
	if viol != nil {
		ev["violations"] = 1
		ev["violation"] = viol
	} else {
		ev["violations"] = 0
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(data, '\n'), 0o644)
}

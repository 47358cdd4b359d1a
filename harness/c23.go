package main

import (
	"errors"
	"fmt"
	"hash/crc32"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/spacemonkeygo/monkit/v3"
	"github.com/spacemonkeygo/monkit/v3/environment"
	"github.com/spacemonkeygo/monkit/v3/internal/zv/venv"
	"github.com/spacemonkeygo/monkit/v3/monotime"
)

// C23: statistics of the environment.

var errEnv = errors.New("environment fails")

// script answers every question about the environment.
type script struct {
	gcs     int64
	pauses  []time.Duration // most recent first
	mem     runtime.MemStats
	threads int
	ru      syscall.Rusage
	ruErr   error
	stat    string
	statm   string
	exe     string
	fail    map[string]bool
	partial bool // fail after the content
}

//go:norace
func (s *script) gc(g *debug.GCStats) {
	g.NumGC = s.gcs
	// element by element: the race detector sees slice copies even here
	g.Pause = g.Pause[:0]
	for i := 0; i < len(s.pauses) && i < 256; i++ {
		g.Pause = append(g.Pause, s.pauses[i])
	}
}

//go:norace
func (s *script) collect(p time.Duration) {
	s.gcs++
	n := make([]time.Duration, len(s.pauses)+1)
	n[0] = p
	for i := 0; i < len(s.pauses); i++ {
		n[i+1] = s.pauses[i]
	}
	s.pauses = n
}

func newScript() *script {
	s := &script{threads: 17, stat: statLine("(x)", 100), statm: "1 22 333 4444 5 66 7\n", exe: "the program", fail: map[string]bool{}}
	s.mem.Alloc, s.mem.NumGC, s.mem.GCCPUFraction, s.mem.EnableGC = 11, 22, 0.5, true
	s.ru.Utime = syscall.Timeval{Sec: 3, Usec: 4}
	s.ru.Maxrss, s.ru.Nivcsw = 5, 6
	venv.Script(venv.Env{
		GC:         s.gc,
		Mem:        func(m *runtime.MemStats) { *m = s.mem },
		Goroutines: func() int { return s.threads },
		Rusage: func(who int, r *syscall.Rusage) error {
			check(who == syscall.RUSAGE_SELF, "resource usage of %d", who)
			*r = s.ru
			return s.ruErr
		},
		File: func(name string) ([]byte, error, bool) {
			d := ""
			switch name {
			case "/proc/self/stat":
				d = s.stat
			case "/proc/self/statm":
				d = s.statm
			case "/proc/self/exe":
				d = s.exe
			default:
				if s.fail[name] {
					return nil, errEnv, true
				}
				return nil, nil, false
			}
			if s.fail[name] && s.partial {
				return []byte(d), venv.ErrPartial, true
			}
			if s.fail[name] {
				return nil, errEnv, true
			}
			return []byte(d), nil, true
		},
	})
	return s
}

var statFields = strings.Fields("Pid Comm State Ppid Pgrp Session TtyNr Tpgid Flags Minflt Cminflt Majflt Cmajflt Utime Stime Cutime Cstime Priority Nice NumThreads Itrealvalue Starttime Vsize Rss Rsslim Startcode Endcode Startstack Kstkesp Kstkeip Signal Blocked Sigignore Sigcatch Wchan Nswap Cnswap ExitSignal Processor RtPriority Policy DelayAcctBlkioTicks GuestTime CguestTime")

// statLine is a line as the kernel writes it, the values counting up from base.
func statLine(comm string, base int64) string {
	v := statValues(base)
	out := fmt.Sprintf("%s %s S", v["Pid"], comm)
	for _, f := range statFields[3:] {
		out += " " + v[f]
	}
	return out + " 1 2 3 4 5 6 7 0\n"
}

func statValues(base int64) map[string]string {
	m := map[string]string{"State": "S"}
	for i, f := range statFields {
		switch f {
		case "Comm", "State":
			continue
		case "Tpgid", "Nice", "Cutime":
			m[f] = fmt.Sprint(-base - int64(i)) // signed fields
		case "Rsslim":
			m[f] = "18446744073709551615"
		default:
			m[f] = fmt.Sprint(base + int64(i))
		}
	}
	return m
}

// structStats lists the numeric and boolean fields of a structure.
func structStats(v reflect.Value, prefix string, out map[string]float64) {
	for i := 0; i < v.NumField(); i++ {
		f, name := v.Field(i), prefix+v.Type().Field(i).Name
		switch f.Kind() {
		case reflect.Struct:
			structStats(f, name+".", out)
		case reflect.Bool:
			out[name] = map[bool]float64{true: 1}[f.Bool()]
		case reflect.Float32, reflect.Float64:
			out[name] = f.Float()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			out[name] = float64(f.Int())
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			out[name] = float64(f.Uint())
		}
	}
}

func prefixed(series string, m map[string]float64) map[string]float64 {
	out := map[string]float64{}
	for k, v := range m {
		out[series+"."+k] = v
	}
	return out
}

func countFds() int {
	d, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(d)
}

func init() {
	seq("C23", "gc", func() {
		s := newScript()
		srcs := []monkit.StatSource{environment.Runtime(), environment.Runtime()}
		want := [][]float64{nil, nil}
		seen := []int64{0, 0}
		for i := 0; i < q(6, 8); i++ {
			switch k := choose(4); k {
			case 0, 1:
				m := statMap(srcs[k])
				if seen[k] != s.gcs {
					want[k] = append(want[k], s.pauses[0].Seconds())
					seen[k] = s.gcs
				}
				check(m[key("goroutines")+".count"] == 17, "%v goroutines, want 17", m[key("goroutines")+".count"])
				w := map[string]float64{}
				structStats(reflect.ValueOf(s.mem), "", w)
				for f, v := range prefixed(key("runtime_memstats"), w) {
					g, ok := m[f]
					check(ok && g == v, "%s is %v (%v), want %v", f, g, ok, v)
				}
				d := map[string]float64{}
				for f, v := range m {
					if strings.HasPrefix(f, key("runtime_gcstats")+".") {
						d[f] = v
					}
				}
				stripR(d, key("runtime_gcstats"))
				mustSame(d, distWant(key("runtime_gcstats"), want[k]), fmt.Sprintf("after %d collections", s.gcs))
			case 2:
				s.collect(time.Duration(i+1) * time.Second)
			case 3:
				s.collect(time.Duration(10+i) * time.Millisecond)
				s.collect(time.Duration(20+i) * time.Millisecond)
			}
		}
	})
	seq("C23", "proc", func() {
		s := newScript()
		comm := pick("(x)", "(my program)", "(a) (b)", "(a (b)) S 5)", "())", "( )", "(tab\tand\nline)", "()", "(3 R 4)", "(kworker/0:1-events)")
		base := pick[int64](0, 1, 1<<40)
		s.stat = statLine(comm, base)
		what := choose(8)
		switch what {
		case 1:
			s.fail["/proc/self/stat"] = true
		case 2:
			s.stat = s.stat[:len(s.stat)/2]
		case 3:
			s.stat = pick("", "\n", "1", "1 (x", "1 x) S 2", "garbage (x) y z", "(x) S 1 2 3", ") ( 1")
		case 4:
			s.fail["/proc/self/statm"] = true
		case 5:
			s.statm = pick("", "1 2 3", "a b c d e f g", "1 2 3 4 5 6 x")
		case 6:
			s.statm = fmt.Sprintf("%d 2 3 4 5 6 0", int64(math.MaxInt32)+5)
		case 7:
			i := strings.LastIndex(s.stat, " S ")
			s.stat = s.stat[:i] + " ? x " + s.stat[i+3:]
		}
		m := statMap(environment.Proc())
		want := map[string]float64{}
		if what != 1 && what != 2 && what != 3 && what != 7 {
			v := statValues(base)
			for _, f := range statFields {
				if f == "Comm" {
					continue
				}
				if f == "State" {
					want[key("proc_stat")+"."+f] = 'S'
					continue
				}
				var x float64
				fmt.Sscan(v[f], &x)
				want[key("proc_stat")+"."+f] = x
			}
		}
		if what != 4 && what != 5 {
			for i, f := range strings.Fields("Size Resident Share Text Lib Data Dt") {
				var x [7]float64
				fmt.Sscan(s.statm, &x[0], &x[1], &x[2], &x[3], &x[4], &x[5], &x[6])
				want[key("proc_statm")+"."+f] = x[i]
			}
		}
		mustSame(m, want, fmt.Sprintf("stat %q statm %q", s.stat, s.statm))
	})
	seq("C23", "process", func() {
		s := newScript()
		s.exe = pick("", "the program", strings.Repeat("long", 1000))
		switch choose(3) {
		case 1:
			s.fail["/proc/self/exe"] = true
		case 2: // in the middle
			if s.exe == "the program" {
				s.partial = true
				s.fail["/proc/self/exe"] = true
			}
		}
		before := math.NaN()
		for i := 0; i < 3; i++ {
			d := pick(0, time.Second, 1000*time.Hour, 1250*time.Millisecond)
			adv(d)
			m := statMap(environment.Process())
			check(m[key("process")+".control"] == 1, "control is %v", m)
			crc, ok := m[key("process")+".crc"]
			if s.fail["/proc/self/exe"] {
				check(!ok, "a checksum %v although the program cannot be read", crc)
			} else {
				check(ok && crc == float64(crc32.ChecksumIEEE([]byte(s.exe))), "checksum %v (%v), want %v", crc, ok, crc32.ChecksumIEEE([]byte(s.exe)))
			}
			up, ok := m[key("process")+".uptime"]
			check(ok, "no uptime")
			if i > 0 {
				check(near(up-before, d.Seconds(), 1e-6) || math.Abs(up-before-d.Seconds()) < 1e-3, "uptime grew by %v in %v", up-before, d)
			}
			before = up
			n := 2
			if !s.fail["/proc/self/exe"] {
				n++
			}
			check(len(m) == n, "statistics %v", m)
		}
		venv.CloseHeld()
	})
	seq("C23", "os", func() {
		s := newScript()
		switch choose(3) {
		case 0:
			s.ruErr = pick(nil, errEnv)
			m := statMap(environment.Rusage())
			want := map[string]float64{}
			if s.ruErr == nil {
				structStats(reflect.ValueOf(s.ru), "", want)
			}
			mustSame(m, prefixed(key("rusage"), want), "resource usage")
		case 1:
			n0 := statMap(environment.OS())[key("fds")+".count"]
			check(n0 == float64(countFds()), "%v open files, want %d", n0, countFds())
			k := pick(0, 1, 2, 3, 1100, 4500)
			var fs []*os.File
			for i := 0; i < k; i++ {
				f, err := os.Open("/dev/null")
				if err != nil && i > 100 { // as many as may be open
					k = i - 10
					for _, f := range fs[k:] {
						f.Close()
					}
					fs = fs[:k]
					break
				}
				check(err == nil, "%v", err)
				fs = append(fs, f)
			}
			n1 := statMap(environment.OS())[key("fds")+".count"]
			for _, f := range fs {
				f.Close()
			}
			check(n1 == n0+float64(k), "%v open files after opening %d more than %v", n1, k, n0)
			n2 := statMap(environment.OS())[key("fds")+".count"]
			check(n2 == n0, "%v open files after closing, want %v", n2, n0)
		case 2:
			s.fail["/proc/self/fd"] = true
			check(len(statMap(environment.OS())) == 0, "a count of open files although they cannot be listed")
		}
	})
	seq("C23", "register", func() {
		newScript()
		reg := monkit.NewRegistry()
		def := choose(2) == 1
		if def {
			reg = monkit.Default
			environment.Register(nil)
		} else {
			environment.Register(reg)
		}
		n := map[string]int{}
		scopes := map[string]bool{}
		reg.Stats(func(k monkit.SeriesKey, field string, v float64) {
			n[k.Measurement+"."+field]++
			scopes[k.Tags.Get("scope")] = true
		})
		for _, w := range []string{"fds.count", "proc_stat.Pid", "proc_statm.Size", "process.control", "process.crc", "process.uptime", "goroutines.count", "runtime_memstats.Alloc", "runtime_gcstats.count", "rusage.Maxrss"} {
			check(n[w] == 1, "%s is reported %d times: %v", w, n[w], n)
		}
		check(len(scopes) == 1 && scopes["github.com/spacemonkeygo/monkit/v3/environment"], "scopes %v", scopes)
		for k, c := range n {
			check(c == 1, "%s is reported %d times", k, c)
		}
	})
	conc("C23", "concurrent", Bounds{1, 3}, Bounds{2, 5}, 1, func() {
		s := newScript()
		s.collect(time.Second)
		src := environment.Runtime()
		k := key("runtime_gcstats")
		rd := func() {
			n := math.NaN()
			src.Stats(func(x monkit.SeriesKey, f string, v float64) {
				if x.Measurement == "runtime_gcstats" && f == "count" {
					n = v
				}
			})
			check(n >= 1 && n <= 2, "%v pauses", n)
		}
		more := choose(2) == 1
		par(rd, func() {
			if more {
				s.collect(2 * time.Second)
			}
			rd()
		})
		n := 1.0
		if more {
			n = 2
		}
		got := statMap(src)[k+".count"]
		check(got == n || more && got == 1, "%v pauses after %v collections", got, n)
		note("%v pauses", got)
	})
	conc("C23", "crc", Bounds{2, 4}, Bounds{3, 6}, 2, func() {
		s := newScript()
		src := environment.Process()
		w := float64(crc32.ChecksumIEEE([]byte(s.exe)))
		rd := func() {
			src.Stats(func(x monkit.SeriesKey, f string, v float64) {
				if f == "crc" {
					check(v == w, "checksum %v, want %v", v, w)
				}
			})
		}
		par(rd, rd)
	})
	seq("C23", "monotime", func() {
		last := monotime.Now()
		for i := 0; i < q(4, 6); i++ {
			d := pick[time.Duration](0, 1, time.Second, 100*365*24*time.Hour/10)
			adv(d)
			now := monotime.Now()
			check(now.Sub(last) == d, "the monotonic clock moved by %v in %v", now.Sub(last), d)
			last = now
		}
	})
}

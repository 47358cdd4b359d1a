package main

import (
	"bufio"
	"context"
	"fmt"
	"os"
	"os/exec"

	"github.com/spacemonkeygo/monkit/v3"
)

// C21: identifiers.

// printIds is the child process of C21/seeds.
func printIds(n int) {
	w := bufio.NewWriter(os.Stdout)
	for i := 0; i < n; i++ {
		fmt.Fprintln(w, monkit.NewId())
	}
	w.Flush()
}

func init() {
	// the identifiers of a process, for many answers of the entropy source
	seq("C21", "seeds", func() {
		seeds := []string{"", "fail"}
		for b := 0; b < 256; b += q(5, 1) {
			seeds = append(seeds, fmt.Sprintf("x%02x", b))
		}
		for i := 1; i < q(40, 200); i++ {
			seeds = append(seeds, fmt.Sprint(i))
		}
		s := seeds[choose(len(seeds))]
		n := q(20000, 100000)
		c := exec.Command(os.Args[0], "-ids", fmt.Sprint(n))
		c.Env = append(os.Environ(), "VERIF_CSEED="+s)
		out, err := c.StdoutPipe()
		if err != nil {
			return
		}
		if c.Start() != nil {
			return
		}
		seen := make(map[int64]int, n)
		sc := bufio.NewScanner(out)
		k := 0
		bad := ""
		for sc.Scan() && bad == "" {
			var id int64
			fmt.Sscan(sc.Text(), &id)
			if id < 0 {
				bad = fmt.Sprintf("entropy %q: identifier %d of the process is negative: %d", s, k, id)
			}
			if j, dup := seen[id]; dup {
				bad = fmt.Sprintf("entropy %q: identifiers %d and %d of the process are the same: %d", s, j, k, id)
			}
			seen[id] = k
			k++
		}
		c.Process.Kill()
		c.Wait()
		if bad != "" {
			fail("%s", bad)
		}
		note("%d", k)
	})
	// spans and traces get identifiers of their own
	seq("C21", "spans", func() {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		spans, traces := map[int64]bool{}, map[int64]bool{}
		ctx := context.Background()
		var last *monkit.Trace
		for i := 0; i < 6; i++ {
			switch choose(4) {
			case 0:
				f.Task(&ctx)
			case 1:
				f.ResetTrace(&ctx)
			case 2:
				ctx = context.Background()
				f.Task(&ctx)
			case 3:
				f.RemoteTrace(&ctx, 1, monkit.NewTrace(monkit.NewId()))
			}
			s := monkit.SpanFromCtx(ctx)
			check(s.Id() >= 0 && !spans[s.Id()], "span id %d is negative or used already", s.Id())
			spans[s.Id()] = true
			if s.Trace() != last {
				last = s.Trace()
				check(last.Id() >= 0 && !traces[last.Id()], "trace id %d is negative or used already", last.Id())
				traces[last.Id()] = true
			}
		}
	})
	ids := func(name string, bq, bt Bounds, race, threads, each int) {
		conc("C21", name, bq, bt, race, func() {
			got := make([]int64, threads*each)
			var fns []func()
			for t := 0; t < threads; t++ {
				t := t
				fns = append(fns, func() {
					for i := 0; i < each; i++ {
						got[t*each+i] = monkit.NewId()
					}
				})
			}
			par(fns...)
			seen := map[int64]bool{}
			for _, id := range got {
				check(id >= 0, "identifier %d", id)
				check(!seen[id], "identifier %d was given twice", id)
				seen[id] = true
			}
		})
	}
	ids("two", Bounds{6, 6}, Bounds{10, 10}, 3, 2, 4)
	ids("three", Bounds{3, 5}, Bounds{5, 8}, 2, 3, 2)
	ids("four", Bounds{3, 4}, Bounds{5, 6}, 1, 4, 1)
	conc("C21", "spans-conc", Bounds{1, 3}, Bounds{2, 5}, 1, func() {
		f := monkit.NewRegistry().ScopeNamed("s").FuncNamed("f")
		var sp [3]*monkit.Span
		mk := func(i int) func() {
			return func() { ctx := context.Background(); f.Task(&ctx); sp[i] = monkit.SpanFromCtx(ctx) }
		}
		par(mk(0), mk(1), mk(2))
		ids := map[int64]int{}
		for _, s := range sp {
			ids[s.Id()]++
			ids[s.Trace().Id()]++
		}
		check(len(ids) == 6, "three spans and three traces have %d identifiers: %v", len(ids), ids)
	})
}

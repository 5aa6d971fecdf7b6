package main

import (
	"flag"
	"fmt"
	"go/constant"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugMode = os.Getenv("GOVC_DEBUG") != ""

// coversOf lists the vCover names that appear in a harness.
func coversOf(p *Program, h *Harness) []string {
	var out []string
	var walk func(fn *ssa.Function)
	walk = func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if f, ok := c.Call.Value.(*ssa.Function); ok && f.Name() == "vCover" && p.isRuntime(f) {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok {
							out = append(out, constant.StringVal(k.Value))
						}
					}
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			walk(a)
		}
	}
	walk(h.fn)
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: govc check|dev ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dev":
		dev(os.Args[2:])
	case "selftest":
		os.Exit(selftest())
	case "check":
		os.Exit(check(os.Args[2:]))
	}
}

// dev runs harnesses matching a prefix and prints details.
func dev(args []string) {
	fs := flag.NewFlagSet("dev", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	name := fs.String("h", "", "harness name substring")
	par := fs.Int("j", runtime.NumCPU(), "parallel harnesses")
	verb := fs.Bool("v", false, "list obligations")
	model := fs.Bool("model", false, "print counterexamples")
	fs.Parse(args)
	t0 := time.Now()
	p, err := Load(*prop)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	fmt.Printf("loaded in %v\n", time.Since(t0))
	var hs []*Harness
	for _, h := range p.hs {
		if _, ok := h.opts["stress"]; ok {
			continue
		}
		if (*prop == "" || hasProp(h, *prop)) && strings.Contains(h.name+"$", *name) {
			hs = append(hs, h)
		}
	}
	rs := runAll(p, hs, *par)
	bad := 0
	for _, r := range rs {
		st := "ok"
		if r.err != "" || len(r.failures) > 0 {
			st = "FAIL"
			bad++
		}
		paths, steps := 0, 0
		if r.x != nil {
			paths, steps = r.x.paths, r.x.steps
		}
		fmt.Printf("%-4s %-40s obl %d/%d checks %d paths %d steps %d queries %d (%.1fs) %.1fs\n", st, r.h.name, r.disch, r.obligs, r.checks, paths, steps, r.queries, r.qtime.Seconds(), r.dur.Seconds())
		if *verb && r.x != nil {
			for _, n := range r.x.order {
				o := r.x.obligs[n]
				fmt.Printf("      %-50s checks %d fails %d\n", n, o.checks, len(o.fails))
			}
			fmt.Println("      loops:", r.x.loops, "assumes:", sortedKeys(r.x.assumes))
		}
		if r.err != "" {
			fmt.Println("     ", r.err)
		}
		seen := map[string]int{}
		for _, f := range r.failures {
			seen[f.name]++
			if seen[f.name] > 1 {
				continue
			}
			u := ""
			if f.unknown {
				u = " (unknown)"
			}
			fmt.Printf("      failed %s%s: %s\n", f.name, u, f.why)
			if *model {
				e := NewEngine(r.x.c)
				r.x.e = e
				a, ok := r.x.concretize(f)
				fmt.Println("        model:", ok, a)
				e.Close()
			}
		}
	}
	fmt.Printf("%d harnesses, %d bad, %v\n", len(rs), bad, time.Since(t0))
}

func runAll(p *Program, hs []*Harness, par int) []*HResult {
	rs := make([]*HResult, len(hs))
	sem := make(chan struct{}, par)
	var wg sync.WaitGroup
	idx := make([]int, len(hs))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return hs[idx[a]].opts["slow"] > hs[idx[b]].opts["slow"] })
	for _, i := range idx {
		i := i
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			rs[i] = runHarness(p, hs[i])
		}()
	}
	wg.Wait()
	return rs
}

// selftest builds the replay binaries of all packages with contracts.
func selftest() int {
	all, err := scanContracts(filepath.Join(verifDir(), "contracts"))
	if err != nil {
		fmt.Println(err)
		return 1
	}
	seen := map[string]bool{}
	rc := 0
	for _, cf := range all {
		for pr := range cf.props {
			if seen[pr] {
				continue
			}
			seen[pr] = true
			p, err := Load(pr)
			if err != nil {
				fmt.Println(pr, err)
				rc = 1
				continue
			}
			s := scratchDir()
			done := map[string]bool{}
			for _, h := range p.hs {
				if !hasProp(h, pr) || done[h.dir] {
					continue
				}
				done[h.dir] = true
				if rb := p.buildReplay(h.dir, s); rb.err != "" {
					fmt.Println(pr, h.dir, clip(rb.err, 1500))
					rc = 1
				}
			}
			os.RemoveAll(s)
		}
	}
	fmt.Println(len(seen), "properties")
	return rc
}

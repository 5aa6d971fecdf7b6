package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"go/constant"

	"golang.org/x/tools/go/ssa"
)

// ---- inputs from a counterexample

type concretizer struct {
	x      *Exec
	lens   map[*Term]bool
	maxLen uint64
}

func (cz *concretizer) collectLens(v Value, t types.Type, d int) {
	if d > 3 {
		return
	}
	switch v := v.(type) {
	case *StrV:
		cz.lens[v.len] = true
	case *SliceV:
		cz.lens[v.len] = true
	case *StructV:
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := range v.f {
				cz.collectLens(v.f[i], st.Field(i).Type(), d+1)
			}
		}
	case *PtrV:
		if pt, ok := t.Underlying().(*types.Pointer); ok && v.obj != 0 {
			cz.collectLens(cz.x.inObj(v).val, pt.Elem(), d+1)
		}
	}
}

// inObj is the object an input pointed to at entry.
func (x *Exec) inObj(p *PtrV) *Obj {
	if o, ok := x.inHeap[p.obj]; ok {
		return o
	}
	return x.obj(p.obj)
}

type wantEnt struct {
	t   *Term
	set func(v uint64)
}

// build makes the JSON value; scalars are queued in want.
func (cz *concretizer) build(v Value, t types.Type, lens map[*Term]uint64, want *[]wantEnt, d int) (interface{}, func() interface{}) {
	x := cz.x
	fixed := func(i interface{}) (interface{}, func() interface{}) { return nil, func() interface{} { return i } }
	if d > 6 {
		return fixed(nil)
	}
	bytesOf := func(arr *Arr, off *Term, n uint64) func() interface{} {
		b := make([]byte, n)
		for i := uint64(0); i < n; i++ {
			if i > 1500 && i+64 < n {
				b[i] = byte(i*7 + i>>8 + uint64(arr.id)*31) // not asked for: anything
				continue
			}
			i := i
			ev := x.sel(arr, x.c.Add(off, x.c.Const(64, i)))
			if et, ok := ev.(*Term); ok {
				*want = append(*want, wantEnt{et, func(v uint64) { b[i] = byte(v) }})
			}
		}
		return func() interface{} { return hex.EncodeToString(b) }
	}
	lenOf := func(t *Term) uint64 {
		if t.isConst() {
			return t.val
		}
		return lens[t]
	}
	switch v := v.(type) {
	case *Term:
		var r uint64
		*want = append(*want, wantEnt{v, func(u uint64) { r = u }})
		w := v.w
		sg := isSigned(t)
		return nil, func() interface{} {
			if w == 0 {
				return strconv.FormatUint(r, 10)
			}
			if sg {
				return strconv.FormatInt(signExt(r, w), 10)
			}
			return strconv.FormatUint(r, 10)
		}
	case *StrV:
		return nil, bytesOf(v.arr, v.off, lenOf(v.len))
	case *SliceV:
		if v.base == nil {
			return fixed(nil)
		}
		el := t.Underlying().(*types.Slice).Elem()
		o := x.inObj(v.base)
		av, ok := o.val.(*ArrV)
		if !ok {
			return fixed(nil)
		}
		n := lenOf(v.len)
		if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return nil, bytesOf(av.arr, v.off, n)
		}
		var fs []func() interface{}
		for i := uint64(0); i < n && i < 64; i++ {
			_, f := cz.build(x.sel(av.arr, x.c.Add(v.off, x.c.Const(64, i))), el, lens, want, d+1)
			fs = append(fs, f)
		}
		return nil, func() interface{} {
			l := []interface{}{}
			for _, f := range fs {
				l = append(l, f())
			}
			return l
		}
	case *ArrV:
		at, ok := t.Underlying().(*types.Array)
		if !ok {
			return fixed(nil)
		}
		var fs []func() interface{}
		for i := int64(0); i < at.Len() && i < 4096; i++ {
			_, f := cz.build(x.sel(v.arr, x.c.Const(64, uint64(i))), at.Elem(), lens, want, d+1)
			fs = append(fs, f)
		}
		return nil, func() interface{} {
			l := []interface{}{}
			for _, f := range fs {
				l = append(l, f())
			}
			return l
		}
	case *StructV:
		st := t.Underlying().(*types.Struct)
		var fs []func() interface{}
		for i := range v.f {
			_, f := cz.build(v.f[i], st.Field(i).Type(), lens, want, d+1)
			fs = append(fs, f)
		}
		return nil, func() interface{} {
			l := []interface{}{}
			for _, f := range fs {
				l = append(l, f())
			}
			return l
		}
	case *PtrV:
		if v.obj == 0 {
			return fixed(nil)
		}
		pt := t.Underlying().(*types.Pointer)
		_, f := cz.build(x.inObj(v).val, pt.Elem(), lens, want, d+1)
		return nil, func() interface{} { return []interface{}{f()} }
	case *IfaceV:
		return fixed("o")
	}
	return fixed(nil)
}

// args solves for inputs that reach the failure; nil when the solver gives none.
func (x *Exec) concretizeArgs(f *Failure, timeout int) (res json.RawMessage) {
	defer func() {
		if r := recover(); r != nil {
			res = nil
		}
	}()
	c := x.c
	cz := &concretizer{x: x, lens: map[*Term]bool{}}
	for _, in := range x.inputs {
		cz.collectLens(in.val, in.typ, 0)
	}
	var lt []*Term
	for t := range cz.lens {
		if !t.isConst() {
			lt = append(lt, t)
		}
	}
	sort.Slice(lt, func(i, j int) bool { return lt[i].id < lt[j].id })
	lens := map[*Term]uint64{}
	pc := append([]*Term{}, f.pc...)
	ok := false
	for _, cap := range []uint64{8, 24, 80, 600, 70000, 20 << 20} {
		p2 := append([]*Term{}, pc...)
		for _, t := range lt {
			p2 = append(p2, c.Ule(t, c.Const(64, cap)))
		}
		r, vs := x.e.model(p2, f.goal, lt, timeout)
		if r == Sat {
			for i, t := range lt {
				lens[t] = vs[i]
				p2 = append(p2, c.Eq(t, c.Const(64, vs[i])))
			}
			pc = p2
			ok = true
			break
		}
	}
	if !ok {
		return nil
	}
	var want []wantEnt
	var fs []func() interface{}
	for _, in := range x.inputs {
		_, fn := cz.build(in.val, in.typ, lens, &want, 0)
		fs = append(fs, fn)
	}
	wt := make([]*Term, len(want))
	for i := range want {
		wt[i] = want[i].t
	}
	r, vs := x.e.model(pc, f.goal, wt, timeout*2)
	if r != Sat {
		return nil
	}
	for i := range want {
		want[i].set(vs[i])
	}
	var out []interface{}
	for _, fn := range fs {
		out = append(out, fn())
	}
	b, err := json.Marshal(out)
	if err != nil {
		return nil
	}
	return b
}

func signExt(v uint64, w int) int64 {
	return int64(v<<(64-uint(w))) >> (64 - uint(w))
}

func (x *Exec) concretize(f *Failure) (string, bool) {
	b := x.concretizeArgs(f, 5000)
	return string(b), b != nil
}

// ---- running harnesses on the real code

type replayBin struct {
	dir  string // package dir
	bin  string
	err  string
	race bool
}

type job struct {
	Mode    string
	Harness []string
	Args    json.RawMessage `json:",omitempty"`
	Seed    int64
	Iter    int64
	Seconds float64
	Out     string
	State   string
	Ints    []string
	Strs    []string
}
type jobResult struct {
	Harness string
	Kind    string
	What    string
	Args    json.RawMessage
	Iter    int64
	Runs    int64
	Skips   int64
}

func scratchDir() string {
	d, err := os.MkdirTemp("", "govc-")
	if err != nil {
		d = filepath.Join(verifDir(), ".cache", fmt.Sprintf("run-%d", os.Getpid()))
		os.MkdirAll(d, 0755)
	}
	return d
}

// buildReplay compiles the test binary of a package with its harnesses.
func (p *Program) buildReplay(dir, scratch string, race ...bool) *replayBin {
	rb := &replayBin{dir: dir, race: len(race) > 0}
	pkg := ""
	var table []string
	ov := map[string]string{}
	n := 0
	put := func(dest, text string) {
		n++
		src := filepath.Join(scratch, fmt.Sprintf("%s_%d.go", strings.ReplaceAll(dir, "/", "_"), n))
		os.WriteFile(src, []byte(text), 0644)
		ov[dest] = src
	}
	others := map[string]string{} // packages whose contract files this one builds on
	for _, cf := range p.files {
		if p.bad[cf.src] != "" {
			continue
		}
		if cf.dir != dir {
			put(cf.dest, cf.text)
			if others[cf.dir] == "" {
				others[cf.dir] = cf.pkg
				put(filepath.Join(repoDir, cf.dir, "zz_verif_rt.go"), strings.Replace(rtSource, "package PKG", "package "+cf.pkg, 1))
			}
			continue
		}
		pkg = cf.pkg
		put(cf.dest, cf.text)
		for _, h := range cf.hs {
			if h.fn != nil {
				table = append(table, fmt.Sprintf("\t%q: %s,", h.name, h.name))
			}
		}
	}
	if pkg == "" {
		rb.err = "no harness of the package applies to the code"
		return rb
	}
	put(filepath.Join(repoDir, dir, "zz_verif_rt.go"), strings.Replace(rtSource, "package PKG", "package "+pkg, 1))
	t := strings.Replace(replaySource, "package PKG", "package "+pkg, 1)
	t = strings.Replace(t, "//HARNESSES", strings.Join(table, "\n"), 1)
	put(filepath.Join(repoDir, dir, "zz_verif_replay_test.go"), t)
	// the repository's own tests of the package are left out
	ents, _ := os.ReadDir(filepath.Join(repoDir, dir))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			ov[filepath.Join(repoDir, dir, e.Name())] = ""
		}
	}
	oj := filepath.Join(scratch, strings.ReplaceAll(dir, "/", "_")+"_overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	os.WriteFile(oj, b, 0644)
	rb.bin = filepath.Join(scratch, strings.ReplaceAll(dir, "/", "_")+".test")
	args := []string{"test", "-c", "-vet=off", "-overlay", oj, "-o", rb.bin, "./" + dir}
	if rb.race {
		args = append([]string{"test", "-race", "-gcflags=all=-d=checkptr=0"}, args[1:]...)
	}
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local")
	out, err := cmd.CombinedOutput()
	if err != nil {
		rb.err = "replay build: " + string(out)
	}
	return rb
}

func (rb *replayBin) run(j job, scratch string, limit time.Duration) (jobResult, string) {
	id := fmt.Sprintf("%d", time.Now().UnixNano())
	j.Out = filepath.Join(scratch, "out-"+id)
	j.State = filepath.Join(scratch, "state-"+id)
	jf := filepath.Join(scratch, "job-"+id)
	b, _ := json.Marshal(j)
	os.WriteFile(jf, b, 0644)
	limitMem := "ulimit -v 12000000; "
	if rb.race {
		limitMem = "" // the race detector reserves address space
	}
	cmd := exec.Command("bash", "-c", limitMem+"exec \"$0\" -test.run '^TestVerifReplay$' -test.timeout 600s", rb.bin)
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "VERIF_JOB="+jf, "GOTRACEBACK=single", "GORACE=halt_on_error=1")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return jobResult{Kind: "error", What: err.Error()}, ""
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
	}
	var r jobResult
	ob, err := os.ReadFile(j.Out)
	if err == nil && json.Unmarshal(ob, &r) == nil {
		return r, buf.String()
	}
	// the process died: find the input
	out := buf.String()
	if i := strings.Index(out, "WARNING: DATA RACE"); i >= 0 {
		return jobResult{Harness: j.Harness[0], Kind: "crash", What: "data race"}, out[i:]
	}
	line := out
	if i := strings.IndexByte(line, '\n'); i >= 0 && len(line) > 300 {
		line = line[:300]
	}
	if j.Mode == "search" && j.Iter < 0 {
		sb, err := os.ReadFile(j.State)
		if err == nil && len(sb) >= 8 {
			j2 := j
			j2.Iter = int64(binary.LittleEndian.Uint64(sb))
			r2, _ := rb.run(j2, scratch, 30*time.Second)
			if r2.Kind == "args" {
				r2.Kind = "crash"
				r2.What = line
				r2.Iter = j2.Iter
				return r2, out
			}
		}
		return jobResult{Kind: "error", What: line}, out
	}
	if strings.Contains(out, "goroutine") || strings.Contains(out, "fatal") {
		return jobResult{Harness: j.Harness[0], Kind: "crash", What: line, Args: j.Args}, out
	}
	return jobResult{Kind: "error", What: line}, out
}

func broken(k string) bool { return k == "fail" || k == "panic" || k == "hang" || k == "crash" }

// constants of the functions a harness touches, used by the search.
func minedConsts(p *Program, rs []*HResult, dirs map[string]bool) (ints, strs []string) {
	seenI, seenS := map[string]bool{}, map[string]bool{}
	for d := range dirs {
		sp := p.pkgs[d]
		if sp == nil {
			continue
		}
		var walk func(fn *ssa.Function)
		walk = func(fn *ssa.Function) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						k, ok := (*op).(*ssa.Const)
						if !ok || k.Value == nil {
							continue
						}
						switch k.Value.Kind() {
						case constant.Int:
							if u, ok := constant.Uint64Val(k.Value); ok {
								seenI[strconv.FormatUint(u, 10)] = true
							} else if i, ok := constant.Int64Val(k.Value); ok {
								seenI[strconv.FormatUint(uint64(i), 10)] = true
							}
						case constant.String:
							if s := constant.StringVal(k.Value); len(s) > 0 && len(s) < 200 {
								seenS[s] = true
							}
						}
					}
				}
			}
			for _, a := range fn.AnonFuncs {
				walk(a)
			}
		}
		for _, m := range sp.Members {
			if fn, ok := m.(*ssa.Function); ok {
				walk(fn)
			}
		}
	}
	return sortedKeys(seenI), sortedKeys(seenS)
}

type knownFinding struct{ prop, harness, oblig, text string }

// known findings: lines "finding: property=<id> harness=<name> obligation=<name> -- text"
func loadKnown() (out []knownFinding) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		k := knownFinding{}
		parts := strings.SplitN(l[len("finding: "):], " -- ", 2)
		if len(parts) == 2 {
			k.text = parts[1]
		}
		for _, kv := range strings.Split(parts[0], ";") {
			e := strings.SplitN(strings.TrimSpace(kv), "=", 2)
			if len(e) != 2 {
				continue
			}
			switch e[0] {
			case "property":
				k.prop = e[1]
			case "harness":
				k.harness = e[1]
			case "obligation":
				k.oblig = e[1]
			}
		}
		out = append(out, k)
	}
	return
}

// ---- the check command

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	replay := fs.String("replay", "", "replay file to run again")
	noSearch := fs.Bool("nosearch", false, "skip the search for a failing input")
	fs.Parse(args)
	if *replay != "" {
		return rerun(*replay)
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	t0 := time.Now()
	scratch := scratchDir()
	defer os.RemoveAll(scratch)
	ck := &checker{prop: *prop, tier: *tier, seed: seed, t0: t0, scratch: scratch, noSearch: *noSearch}
	return ck.run()
}

type checker struct {
	prop, tier string
	seed       int64
	t0         time.Time
	scratch    string
	noSearch   bool
	p          *Program
	rs         []*HResult
	bins       map[string]*replayBin
	viol       int
	stress     int64
	cross      int
	crossOK    int
}

func (ck *checker) emit(what string, rep map[string]interface{}, found bool) {
	ck.viol++
	dir := filepath.Join(verifDir(), "replay")
	os.MkdirAll(dir, 0755)
	f := filepath.Join(dir, fmt.Sprintf("%s-%d.json", ck.prop, ck.viol))
	rep["property"] = ck.prop
	rep["what"] = what
	rep["failing_input_found"] = found
	if found {
		rep["rerun"] = "/verif/bin/govc check -replay " + f
	}
	b, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(f, append(b, '\n'), 0644)
	l := fmt.Sprintf("VIOLATION property=%s replay=%s", ck.prop, f)
	if !found {
		l += " no-failing-input-found"
	}
	fmt.Println(what)
	fmt.Println(l)
}

func (ck *checker) bin(dir string) *replayBin {
	if b, ok := ck.bins[dir]; ok {
		return b
	}
	b := ck.p.buildReplay(dir, ck.scratch)
	ck.bins[dir] = b
	return b
}

func (ck *checker) run() int {
	ck.bins = map[string]*replayBin{}
	p, err := Load(ck.prop)
	if err != nil {
		ck.emit("the contracts cannot be checked: "+err.Error(), map[string]interface{}{"verifier": err.Error()}, false)
		ck.evidence()
		return 1
	}
	ck.p = p
	var hs, stress []*Harness
	for _, h := range p.hs {
		if _, ok := h.opts["stress"]; ok {
			if hasProp(h, ck.prop) {
				stress = append(stress, h)
			}
			continue
		}
		if hasProp(h, ck.prop) && (h.opts["tier"] == "" || h.opts["tier"] == ck.tier) {
			hs = append(hs, h)
		}
	}
	if ck.tier == "thorough" {
		timeoutScale = 4
	}
	known := loadKnown()
	p.known = map[string]bool{}
	for _, k := range known {
		if k.prop == ck.prop {
			p.known[k.harness+"/"+k.oblig] = true
		}
	}
	ck.rs = runAll(p, hs, runtime.NumCPU())
	isKnown := func(h, o string) *knownFinding {
		for i := range known {
			k := &known[i]
			if k.prop == ck.prop && k.harness == h && (k.oblig == o) {
				return k
			}
		}
		return nil
	}
	type bad struct {
		r    *HResult
		f    *Failure
		name string
		why  string
	}
	var bads []bad
	printed := map[*knownFinding]bool{}
	for _, r := range ck.rs {
		nf := 0
		for _, f := range r.failures {
			if isKnown(r.h.name, f.name) == nil {
				nf++
			}
		}
		if r.err != "" && nf == 0 && !strings.HasPrefix(r.err, stoppedEarly) {
			bads = append(bads, bad{r, nil, "unverified", r.err})
		}
		seen := map[string]bool{}
		for _, f := range r.failures {
			if seen[f.name] {
				continue
			}
			seen[f.name] = true
			if k := isKnown(r.h.name, f.name); k != nil {
				if !printed[k] {
					printed[k] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.prop, k.text)
				}
				r.known++
				continue
			}
			bads = append(bads, bad{r, f, f.name, f.why})
		}
	}
	sort.SliceStable(bads, func(i, j int) bool { return bads[i].r.dur < bads[j].r.dur })
	if ck.tier == "thorough" && len(bads) == 0 {
		ck.thorough(hs)
	}
	if len(bads) > 0 {
		// one report per failing harness, at most four
		reported := map[*HResult]bool{}
		found := false
		type rep struct {
			what string
			m    map[string]interface{}
			ok   bool
		}
		var reps []rep
		var failedH []*Harness
		dirs := map[string]bool{}
		for _, b := range bads {
			dirs[b.r.h.dir] = true
			failedH = append(failedH, b.r.h)
		}
		deadline := time.Now().Add(60 * time.Second)
		for _, b := range bads {
			if reported[b.r] || found && time.Now().After(deadline.Add(-40*time.Second)) {
				continue
			}
			m := map[string]interface{}{"harness": b.r.h.name, "package": b.r.h.dir, "obligation": b.name, "reason": b.why}
			if b.f != nil {
				if b.f.unknown {
					m["solver"] = "unknown (no answer within the time limit)"
				} else {
					m["solver"] = "counterexample"
				}
				m["trace"] = b.f.trace
			}
			what := fmt.Sprintf("%s: obligation %s of %s fails: %s", ck.prop, b.name, b.r.h.name, b.why)
			ok := false
			if b.f != nil && b.r.x != nil && b.r.h.fn != nil && !ck.noSearch && time.Now().Before(deadline) {
				if rb := ck.bin(b.r.h.dir); rb.err == "" {
					e := NewEngine(b.r.x.c)
					b.r.x.e = e
					n := 0
					for _, f := range b.r.failures {
						if f.name != b.name || n >= 3 {
							continue
						}
						n++
						a := b.r.x.concretizeArgs(f, 4000)
						if a == nil {
							continue
						}
						m["counterexample"] = a
						jr, out := rb.run(job{Mode: "replay", Harness: []string{b.r.h.name}, Args: a, Iter: -1}, ck.scratch, 40*time.Second)
						m["replayed"] = map[string]interface{}{"result": jr.Kind, "what": jr.What}
						if broken(jr.Kind) {
							m["args"] = a
							m["observed"] = jr.Kind + ": " + jr.What
							if jr.Kind == "crash" {
								m["output"] = clip(out, 3000)
							}
							ok = true
							break
						}
					}
					e.Close()
				} else {
					m["replay_build"] = clip(rb.err, 2000)
				}
			}
			reps = append(reps, rep{what, m, ok})
			reported[b.r] = ok
			if ok {
				found = true
			}
		}
		if !found && !ck.noSearch {
			// search the failing harnesses, then all harnesses of the property
			if jr, m := ck.search(failedH, dirs, 25); m != nil {
				for i := range reps {
					if reps[i].m["harness"] == jr.Harness {
						for k, v := range m {
							reps[i].m[k] = v
						}
						reps[i].ok, found = true, true
						break
					}
				}
			}
			if !found {
				for _, h := range hs {
					dirs[h.dir] = true
				}
				if jr, m := ck.search(hs, dirs, 15); m != nil {
					m["harness"] = jr.Harness
					reps = append([]rep{{fmt.Sprintf("%s: %s breaks on the real code: %s", ck.prop, jr.Harness, jr.What), m, true}}, reps...)
					found = true
				}
			}
		}
		if !found && !ck.noSearch {
			// concurrent use of the real code under the race detector
			if h, m := ck.concurrently(stress); m != nil {
				for i := range reps {
					if reps[i].m["package"] == h.dir {
						for k, v := range m {
							reps[i].m[k] = v
						}
						reps[i].ok, found = true, true
						break
					}
				}
			}
		}
		sort.SliceStable(reps, func(i, j int) bool { return reps[i].ok && !reps[j].ok })
		n := 0
		for _, r := range reps {
			if found && !r.ok {
				continue
			}
			if n >= 3 {
				break
			}
			n++
			ck.emit(r.what, r.m, r.ok)
		}
	}
	ck.evidence()
	if ck.viol > 0 {
		return 1
	}
	nob := 0
	nd := 0
	for _, r := range ck.rs {
		nob += r.obligs
		nd += r.disch
	}
	fmt.Printf("%s: %d of %d obligations of %d contracts discharged in %.1fs\n", ck.prop, nd, nob, len(ck.rs), time.Since(ck.t0).Seconds())
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// search runs harnesses on random and boundary inputs of the real code.
func (ck *checker) search(hs []*Harness, dirs map[string]bool, seconds float64) (jobResult, map[string]interface{}) {
	ints, strs := minedConsts(ck.p, ck.rs, dirs)
	by := map[string][]string{}
	seen := map[string]bool{}
	for _, h := range hs {
		if h.fn == nil || seen[h.dir+h.name] || h.opts["nosearch"] != "" {
			continue
		}
		seen[h.dir+h.name] = true
		by[h.dir] = append(by[h.dir], h.name)
	}
	type out struct {
		r jobResult
		o string
		d string
	}
	var mu sync.Mutex
	var outs []out
	var wg sync.WaitGroup
	var ds []string
	for d := range by {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		rb := ck.bin(d)
		if rb.err != "" {
			continue
		}
		workers := 8 / len(ds)
		if workers < 1 {
			workers = 1
		}
		for w := 0; w < workers; w++ {
			d, w := d, w
			wg.Add(1)
			go func() {
				defer wg.Done()
				time.Sleep(time.Duration(w) * time.Millisecond)
				r, o := rb.run(job{Mode: "search", Harness: by[d], Seed: ck.seed*100 + int64(w), Iter: -1, Seconds: seconds, Ints: ints, Strs: strs}, ck.scratch, time.Duration(seconds+60)*time.Second)
				mu.Lock()
				outs = append(outs, out{r, o, d})
				mu.Unlock()
			}()
		}
	}
	wg.Wait()
	for _, o := range outs {
		ck.stress += o.r.Runs
	}
	for _, o := range outs {
		if !broken(o.r.Kind) {
			continue
		}
		// confirm in a fresh process
		jr, txt := ck.bin(o.d).run(job{Mode: "replay", Harness: []string{o.r.Harness}, Args: o.r.Args, Iter: -1}, ck.scratch, 60*time.Second)
		if !broken(jr.Kind) {
			continue
		}
		m := map[string]interface{}{"package": o.d, "args": o.r.Args, "observed": jr.Kind + ": " + jr.What, "input_from": "search of boundary and random inputs"}
		if jr.Kind == "crash" {
			m["output"] = clip(txt, 3000)
		}
		jr.Harness = o.r.Harness
		return jr, m
	}
	return jobResult{}, nil
}

// concurrently runs the property's stress functions on the real code, built with
// the race detector; only asked for when an obligation has failed.
func (ck *checker) concurrently(hs []*Harness) (*Harness, map[string]interface{}) {
	for _, h := range hs {
		if h.fn == nil {
			continue
		}
		sc := filepath.Join(ck.scratch, "race")
		os.MkdirAll(sc, 0755)
		rb := ck.p.buildReplay(h.dir, sc, true)
		if rb.err != "" {
			fmt.Fprintln(os.Stderr, clip(rb.err, 500))
			continue
		}
		jr, out := rb.run(job{Mode: "stress", Harness: []string{h.name}, Iter: -1, Seconds: 15}, sc, 60*time.Second)
		if broken(jr.Kind) {
			return h, map[string]interface{}{"stress": h.name, "package": h.dir, "observed": jr.Kind + ": " + jr.What, "output": clip(out, 5000), "input_from": "concurrent use of the real code under the race detector"}
		}
	}
	return nil, nil
}

// thorough: every discharged query again with a second solver, and a bounded
// run of the harnesses on the real code as a sanity check of the verifier.
func (ck *checker) thorough(hs []*Harness) {
	dirs := map[string]bool{}
	for _, h := range hs {
		dirs[h.dir] = true
	}
	if jr, m := ck.search(hs, dirs, 60); m != nil {
		m["harness"] = jr.Harness
		ck.emit(fmt.Sprintf("%s: %s breaks on the real code: %s", ck.prop, jr.Harness, jr.What), m, true)
	}
}

func rerun(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	var m struct {
		Property, Harness, Package, Stress string
		Args                       json.RawMessage
	}
	json.Unmarshal(b, &m)
	if m.Args == nil && m.Stress == "" {
		fmt.Println("no failing input recorded; obligation:", string(b))
		return 1
	}
	p, err := Load(m.Property)
	if err != nil {
		fmt.Println(err)
		return 1
	}
	s := scratchDir()
	defer os.RemoveAll(s)
	var rb *replayBin
	if m.Stress != "" {
		rb = p.buildReplay(m.Package, s, true)
	} else {
		rb = p.buildReplay(m.Package, s)
	}
	if rb.err != "" {
		fmt.Println(rb.err)
		return 1
	}
	j := job{Mode: "stress", Harness: []string{m.Stress}, Iter: -1, Seconds: 15}
	if m.Stress == "" {
		j = job{Mode: "replay", Harness: []string{m.Harness}, Args: m.Args, Iter: -1}
	}
	jr, out := rb.run(j, s, 60*time.Second)
	fmt.Printf("%s %s: %s %s\n", m.Property, m.Harness, jr.Kind, jr.What)
	if jr.Kind == "crash" {
		fmt.Println(clip(out, 3000))
	}
	if broken(jr.Kind) {
		return 1
	}
	return 0
}

// ---- evidence

func (ck *checker) evidence() {
	obl, dis, checks, queries, known := 0, 0, 0, 0, 0
	var qt time.Duration
	assumes := map[string]bool{}
	funcs := map[string]bool{}
	contracts := map[string]bool{}
	loops := map[string]bool{}
	var hl []map[string]interface{}
	bounded := map[string]interface{}{}
	bobl, bdis, unb := 0, 0, 0
	for _, r := range ck.rs {
		if b := r.h.opts["bounded"]; b != "" {
			// a bounded stand-in is never counted as proved
			bounded[r.h.name] = b
			bobl += r.obligs
			bdis += r.disch
		} else {
			unb++
			obl += r.obligs
			dis += r.disch
		}
		checks += r.checks
		queries += r.queries
		qt += r.qtime
		known += r.known
		e := map[string]interface{}{"contract": r.h.name, "package": r.h.dir, "obligations": r.obligs, "discharged": r.disch, "conditions": r.checks, "solver_queries": r.queries, "solver_s": round(r.qtime.Seconds()), "wall_s": round(r.dur.Seconds())}
		if b := r.h.opts["bounded"]; b != "" {
			e["bounded"] = b
		}
		if r.err != "" {
			e["not_verified"] = r.err
		}
		if r.x != nil {
			for a := range r.x.assumes {
				assumes[a] = true
			}
			for f := range r.x.funcs {
				funcs[f] = true
			}
			for c := range r.x.contractsUsed {
				contracts[c] = true
			}
			for l, k := range r.x.loops {
				loops[l+": "+k] = true
			}
			e["paths"] = r.x.paths
		}
		hl = append(hl, e)
	}
	tb := []string{
		"govc (/verif/engine): symbolic execution of go/ssa and the loop-invariant and quantifier handling in it",
		"golang.org/x/tools/go/ssa as the semantics of the compiled code; memory safety of the Go runtime and garbage collector",
		"z3 (z3-new), with z3 4.8.12 and cvc5 as second opinions when z3-new gives no answer",
	}
	as := sortedKeys(assumes)
	as = append(as, "integers are machine integers with wrap-around (no mathematical integers); lengths of inputs are at most 2^40")
	var real []string
	for f := range funcs {
		real = append(real, f)
	}
	sort.Strings(real)
	cov := map[string]interface{}{
		"obligations": obl, "discharged": dis, "checker_cmd": fmt.Sprintf("/verif/bin/govc check -prop %s -tier %s", ck.prop, ck.tier),
		"trusted_base": tb, "verification_conditions": checks, "solver_queries": queries, "solver_s": round(qt.Seconds()),
		"back_end": "z3-new (bit-vectors and exact integer translation)", "contracts": hl, "functions_under_contract": real, "callee_contracts_used": sortedKeys(contracts),
		"loops": sortedKeys(loops), "known_findings": known, "bounded_real_code_runs": ck.stress,
	}
	level := "proof"
	if len(bounded) > 0 {
		cov["bounded"] = bounded
		cov["bounded_obligations"] = bobl
		cov["bounded_discharged"] = bdis
		as = append(as, "the contracts listed under bounded hold for the stated sizes only")
		if unb == 0 {
			level = "other"
			cov["explanation"] = "contracts over the real functions, discharged by the same verifier for every input within the stated bounds; nothing is counted as proved"
		}
	}
	ev := map[string]interface{}{"property": ck.prop, "tier": ck.tier, "seed": ck.seed, "level": level, "coverage": cov, "wall_s": round(time.Since(ck.t0).Seconds()), "assumptions": as, "violations": ck.viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	os.WriteFile(filepath.Join(verifDir(), "evidence", ck.prop+".json"), append(b, '\n'), 0644)
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type Solver struct {
	name    string
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	inc     io.WriteCloser
	timeout int // ms
	args    []string
	queries int
	spent   time.Duration
	dead    bool
	log     io.Writer
	logic   string
}

func NewSolver(name string, timeoutMs int) *Solver {
	s := &Solver{name: name, timeout: timeoutMs}
	switch name {
	case "z3", "z3-new":
		s.args = []string{"-in", "-smt2"}
	case "cvc5":
		s.args = []string{"--incremental", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", timeoutMs)}
	}
	s.start()
	return s
}
func (s *Solver) start() {
	s.cmd = exec.Command(s.name, s.args...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "govc: cannot start solver", s.name, err)
		s.dead = true
		return
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.dead = false
}
func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) Kill() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
	}
}

func (s *Solver) readLine(d time.Duration) (string, bool) {
	type r struct {
		s  string
		ok bool
	}
	ch := make(chan r, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		ch <- r{strings.TrimSpace(l), err == nil}
	}()
	select {
	case x := <-ch:
		return x.s, x.ok
	case <-time.After(d):
		return "", false
	}
}

// Check runs one query (text without check-sat); if vals non-empty and sat, returns values.
func (s *Solver) Check(body string, vals []string, timeoutMs int) (Result, []string) {
	if s.dead {
		s.start()
		if s.dead {
			return Unknown, nil
		}
	}
	t0 := time.Now()
	s.queries++
	defer func() { s.spent += time.Since(t0) }()
	if s.name == "cvc5" {
		fmt.Fprintf(s.in, "(reset)\n(set-option :produce-models true)\n(set-logic QF_UFBV)\n")
	} else {
		fmt.Fprintf(s.in, "(reset)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", timeoutMs)
		if len(vals) == 0 {
			lg := s.logic
			if lg == "" {
				lg = "QF_UFBV"
			}
			fmt.Fprintf(s.in, "(set-logic %s)\n", lg)
		}
	}
	s.in.WriteString(body)
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		s.Close()
		s.dead = true
		return Unknown, nil
	}
	wait := time.Duration(timeoutMs)*time.Millisecond + 3*time.Second
	var line string
	for {
		var ok bool
		line, ok = s.readLine(wait)
		if !ok {
			s.Close()
			s.dead = true
			return Unknown, nil
		}
		if strings.HasPrefix(line, "(error") {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "SOLVER ERROR:", line, "\n", body)
			}
			s.Close()
			s.dead = true
			return Unknown, nil
		}
		if line == "sat" || line == "unsat" || line == "unknown" || line == "timeout" {
			break
		}
	}
	switch line {
	case "unsat":
		return Unsat, nil
	case "sat":
		var res []string
		if len(vals) > 0 {
			// in batches, so that neither pipe fills up
			end := time.Now().Add(wait)
		batches:
			for k := 0; k < len(vals); k += 64 {
				m := k + 64
				if m > len(vals) {
					m = len(vals)
				}
				for _, v := range vals[k:m] {
					fmt.Fprintf(s.in, "(get-value (%s))\n", v)
				}
				s.in.WriteString("(echo \"END\")\n")
				s.in.Flush()
				for {
					l, ok := s.readLine(time.Until(end))
					if !ok {
						s.Close()
						s.dead = true
						break batches
					}
					if l == "END" || l == "\"END\"" {
						break
					}
					res = append(res, l)
				}
			}
		}
		return Sat, res
	}
	return Unknown, nil
}

// ---- printing a query

type printer struct {
	c     *Ctx
	b     strings.Builder
	refs  map[*Term]int
	names map[*Term]string
	vars  map[string]bool
	nlet  int
	extra []*Term
}

func sortOf(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}
func q(n string) string { return "|" + n + "|" }

func constStr(w int, v uint64) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v)
	}
	return fmt.Sprintf("#b%0*b", w, v)
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
}

func (p *printer) expr(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	switch t.op {
	case OConst:
		return constStr(t.w, t.val)
	case OVar:
		if !p.vars[t.name] {
			p.vars[t.name] = true
			fmt.Fprintf(&p.b, "(declare-const %s %s)\n", q(t.name), sortOf(t.w))
			if t.w == 64 && strings.HasPrefix(t.name, "len!") {
				fmt.Fprintf(&p.b, "(assert (bvule %s %s))\n", q(t.name), constStr(64, maxLen))
			}
		}
		return q(t.name)
	}
	as := make([]string, len(t.args))
	for i, a := range t.args {
		as[i] = p.expr(a)
	}
	var e string
	switch t.op {
	case OUF:
		if !p.vars[t.name] {
			p.vars[t.name] = true
			ws := p.c.ufs[t.name]
			var in []string
			for _, w := range ws[:len(ws)-1] {
				in = append(in, sortOf(w))
			}
			fmt.Fprintf(&p.b, "(declare-fun %s (%s) %s)\n", q(t.name), strings.Join(in, " "), sortOf(ws[len(ws)-1]))
		}
		e = "(" + q(t.name) + " " + strings.Join(as, " ") + ")"
		if t.w == 64 && strings.HasPrefix(t.name, "len!") {
			fmt.Fprintf(&p.b, "(assert (bvule %s %s))\n", e, constStr(64, maxLen))
		}
	case OLin:
		var parts []string
		if t.val != 0 {
			parts = append(parts, constStr(t.w, t.val))
		}
		for i, a := range as {
			k := t.coef[i]
			switch {
			case k == 1:
				parts = append(parts, a)
			case k == mask(t.w):
				parts = append(parts, "(bvneg "+a+")")
			default:
				parts = append(parts, "(bvmul "+constStr(t.w, k)+" "+a+")")
			}
		}
		e = parts[0]
		if len(parts) > 1 {
			e = "(bvadd " + strings.Join(parts, " ") + ")"
		}
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+t.w-1, t.val, as[0])
	case OSext:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, as[0])
	default:
		e = "(" + opNames[t.op] + " " + strings.Join(as, " ") + ")"
	}
	if p.refs[t] > 1 || len(e) > 4000 {
		p.nlet++
		n := fmt.Sprintf("$%d", p.nlet)
		fmt.Fprintf(&p.b, "(define-fun %s () %s %s)\n", n, sortOf(t.w), e)
		p.names[t] = n
		return n
	}
	return e
}

func (c *Ctx) printQuery(as []*Term, want []*Term) (string, []string) {
	p := &printer{c: c, refs: map[*Term]int{}, names: map[*Term]string{}, vars: map[string]bool{}}
	for _, a := range as {
		p.count(a)
	}
	for _, a := range want {
		p.count(a)
	}
	for _, a := range as {
		e := p.expr(a)
		fmt.Fprintf(&p.b, "(assert %s)\n", e)
	}
	var vs []string
	for _, a := range want {
		vs = append(vs, p.expr(a))
	}
	return p.b.String(), vs
}

// symbols of a term (variables and UF names), cached
type symset struct{ m map[string]struct{} }

type Engine struct {
	c        *Ctx
	z3       *Solver
	alt      map[string]*Solver
	liaFirst bool
	cache    map[string]Result
	syms     map[*Term]map[string]struct{}
	nq, nhit int
	nlia     int
	ranges   map[string]bool
}

func NewEngine(c *Ctx) *Engine {
	return &Engine{c: c, cache: map[string]Result{}, syms: map[*Term]map[string]struct{}{}}
}
func (e *Engine) Close() {
	if e.z3 != nil {
		e.z3.Close()
	}
	for _, a := range e.alt {
		a.Close()
	}
}

func (e *Engine) symsOf(t *Term) map[string]struct{} {
	if s, ok := e.syms[t]; ok {
		return s
	}
	m := map[string]struct{}{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if s, ok := e.syms[t]; ok {
			for k := range s {
				m[k] = struct{}{}
			}
			return
		}
		if t.op == OVar {
			m[t.name] = struct{}{}
			if qn := e.c.quants[t.name]; qn != nil {
				walk(qn.body)
				walk(qn.lo)
				walk(qn.hi)
			}
		}
		if t.op == OUF {
			m[t.name] = struct{}{}
			if u := e.c.unfolds[t]; u != nil {
				walk(u)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(t)
	e.syms[t] = m
	return m
}

// slice keeps the assertions connected to goal.
func (e *Engine) slice(pc []*Term, goal *Term) []*Term {
	live := map[string]struct{}{}
	for k := range e.symsOf(goal) {
		live[k] = struct{}{}
	}
	used := make([]bool, len(pc))
	for ch := true; ch; {
		ch = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			ss := e.symsOf(p)
			for k := range ss {
				if _, ok := live[k]; ok {
					used[i] = true
					ch = true
					for k2 := range ss {
						live[k2] = struct{}{}
					}
					break
				}
			}
		}
	}
	var out []*Term
	for i, p := range pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return out
}

var quickTimeout = 4000
var mainSolver = "z3-new"
var noLIA = os.Getenv("GOVC_NOLIA") != ""

// sat checks pc && goal.
func (e *Engine) sat(pc []*Term, goal *Term) Result { return e.satT(pc, goal, quickTimeout) }

func (e *Engine) satT(pc []*Term, goal *Term, timeout int) Result {
	if goal == e.c.False {
		return Unsat
	}
	var as []*Term
	if goal == e.c.True {
		as = append(as, pc...) // is the path itself possible?
	} else {
		as = append(e.slice(pc, goal), goal)
	}
	for _, a := range as {
		if a == e.c.False {
			return Unsat
		}
	}
	ids := make([]int, len(as))
	for i, a := range as {
		ids[i] = a.id
	}
	sort.Ints(ids)
	key := fmt.Sprint(ids)
	if r, ok := e.cache[key]; ok && (r != Unknown || timeout <= quickTimeout) {
		e.nhit++
		return r
	}
	full := e.c.instantiate(as)
	for _, a := range full {
		if a == e.c.False {
			e.cache[key] = Unsat
			return Unsat
		}
	}
	if e.z3 == nil {
		e.z3 = NewSolver(mainSolver, quickTimeout)
	}
	t0 := time.Now()
	r := Unknown
	body := ""
	e.nq++
	lb, nmod, lok := "", 0, false
	if !noLIA {
		lb, nmod, lok = e.c.printLIA(full)
	}
	body, _ = e.c.printQuery(full, nil)
	lia := func(ms int) {
		if !lok || r != Unknown {
			return
		}
		e.z3.logic = "QF_UFLIA"
		r, _ = e.z3.Check(lb, nil, ms)
		e.z3.logic = ""
		e.nlia++
	}
	bv := func(ms int) {
		if r == Unknown {
			r, _ = e.z3.Check(body, nil, ms)
		}
	}
	// what settled the last query of this kind goes first
	kind := 0
	if nmod > 2 {
		kind = 1
	}
	if kind == 0 || e.liaFirst {
		lia(300)
		if r != Unknown {
			e.liaFirst = true
		}
		if r == Unknown {
			bv(500)
			if r != Unknown {
				e.liaFirst = false
			}
		}
	} else {
		bv(300)
		if r == Unknown {
			lia(500)
			e.liaFirst = r != Unknown
		}
	}
	if r == Unknown {
		r = e.race(body, lb, lok, timeout)
	}
	if os.Getenv("GOVC_DUMP") != "" || os.Getenv("GOVC_SLOW") != "" && time.Since(t0) > 500*time.Millisecond {
		f := fmt.Sprintf("/tmp/slow-%d-%d.smt2", os.Getpid(), e.nq)
		os.WriteFile(f, []byte(body+"(check-sat)\n"), 0644)
		os.WriteFile(f+".lia", []byte("(set-logic QF_UFLIA)\n"+lb+"(check-sat)\n"), 0644)
		fmt.Fprintln(os.Stderr, "slow query", time.Since(t0), r, nmod, lok, f)
	}
	e.cache[key] = r
	return r
}

var raceSlots = make(chan bool, 4)

// race gives a hard query to several solvers at once; the first answer counts.
func (e *Engine) race(body, lb string, lok bool, timeout int) Result {
	raceSlots <- true
	defer func() { <-raceSlots }()
	if e.alt == nil {
		e.alt = map[string]*Solver{}
	}
	type ent struct{ key, name, body, logic string }
	ents := []ent{{"bv", mainSolver, body, ""}, {"cvc5", "cvc5", body, ""}}
	if lok {
		ents = append(ents, ent{"lia", mainSolver, lb, "QF_UFLIA"}, ent{"lia-old", "z3", lb, "QF_UFLIA"})
	}
	type ans struct {
		r   Result
		key string
	}
	ch := make(chan ans, len(ents))
	t0 := time.Now()
	for _, en := range ents {
		s := e.alt[en.key]
		if s == nil || s.dead || en.name == "cvc5" && s.timeout < timeout {
			if s != nil {
				s.Close()
			}
			s = NewSolver(en.name, timeout)
			e.alt[en.key] = s
		}
		en := en
		go func() {
			s.logic = en.logic
			r, _ := s.Check(en.body, nil, timeout)
			ch <- ans{r, en.key}
		}()
	}
	res := Unknown
	done := map[string]bool{}
	for range ents {
		a := <-ch
		done[a.key] = true
		if a.r != Unknown {
			res = a.r
			break
		}
	}
	left := 0
	for _, en := range ents {
		if !done[en.key] {
			if s := e.alt[en.key]; s.cmd != nil && s.cmd.Process != nil {
				s.cmd.Process.Kill()
			}
			left++
		}
	}
	for ; left > 0; left-- {
		<-ch // its reader sees the end of the output
	}
	e.z3.spent += time.Since(t0)
	return res
}

// model returns values for the wanted terms under pc && goal (nil if not sat).
func (e *Engine) model(pc []*Term, goal *Term, want []*Term, timeout int) (Result, []uint64) {
	as := append(append([]*Term{}, pc...), goal)
	full := e.c.instantiate(as)
	body, vs := e.c.printQuery(full, want)
	if e.z3 == nil {
		e.z3 = NewSolver(mainSolver, quickTimeout)
	}
	r, vals := e.z3.Check(body, vs, timeout)
	if r != Sat {
		return r, nil
	}
	out := make([]uint64, len(want))
	for i := range want {
		if i < len(vals) {
			out[i] = parseVal(vals[i])
		}
	}
	return r, out
}

func parseVal(l string) uint64 {
	l = strings.TrimSpace(l)
	l = strings.TrimRight(l, ")")
	i := strings.LastIndexAny(l, " (")
	v := l[i+1:]
	var x uint64
	switch {
	case strings.HasPrefix(v, "#x"):
		fmt.Sscanf(v[2:], "%x", &x)
	case strings.HasPrefix(v, "#b"):
		for _, ch := range v[2:] {
			x = x<<1 | uint64(ch-'0')
		}
	case v == "true":
		x = 1
	}
	return x
}

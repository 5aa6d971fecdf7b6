package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"

	_ "embed"
)

//go:embed rt/rt.go.txt
var rtSource string

//go:embed rt/replay_test.go.txt
var replaySource string

type Harness struct {
	name     string
	prop     string
	file     string
	dir      string // package directory relative to /repo
	opts     map[string]string
	uses     []string
	contract string // target function name when this is a contract
	fn       *ssa.Function
	missing  string // why it could not be loaded
}

func (h *Harness) timeout() int {
	if v, ok := h.opts["timeout"]; ok {
		n, _ := strconv.Atoi(v)
		return n * timeoutScale
	}
	return 15000 * timeoutScale
}

var timeoutScale = 1

func (h *Harness) budget() int {
	if v, ok := h.opts["budget"]; ok {
		n, _ := strconv.Atoi(v)
		return n
	}
	return 240
}

type cfile struct {
	src   string // path below contracts
	dir   string // package dir in /repo
	dest  string
	pkg   string
	text  string
	hs    []*Harness
	props map[string]bool
	with  []string // packages whose common contract files are used
}

type Program struct {
	fset       *token.FileSet
	prog       *ssa.Program
	pkgs       map[string]*ssa.Package // by repo-relative dir
	pkgPath    map[string]string
	mu         sync.Mutex
	slotsC     map[*ssa.Function]map[ssa.Value]int
	loopsC     map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo
	contracts  map[string]*Harness // target -> contract
	hs         []*Harness
	files      []*cfile
	overlay    map[string][]byte
	overlaySrc map[string]string
	loadErrs   []string
	bad        map[string]string
	known      map[string]bool // harness/obligation of known findings
	stop       atomic.Int64    // when to give up after a failure (unix ns)
}

var repoDir = envOr("GOVC_REPO", "/repo") // elsewhere only while developing

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// scanContracts parses the contract files that concern a property.
func scanContracts(root string) ([]*cfile, error) {
	var out []*cfile
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		cf := &cfile{src: p, text: string(b), props: map[string]bool{}}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, p, b, parser.ParseComments)
		if err != nil {
			return err
		}
		cf.pkg = af.Name.Name
		for _, l := range strings.Split(cf.text, "\n") {
			if strings.HasPrefix(l, "//verif:pkg ") {
				cf.dir = strings.TrimSpace(l[len("//verif:pkg "):])
			}
		}
		if cf.dir == "" {
			return fmt.Errorf("%s: no //verif:pkg", p)
		}
		cf.dest = filepath.Join(repoDir, cf.dir, "zz_verif_"+strings.TrimSuffix(filepath.Base(p), ".go")+".go")
		for _, l := range strings.Split(cf.text, "\n") {
			if strings.HasPrefix(l, "//verif:with ") {
				cf.with = append(cf.with, strings.Fields(l)[1:]...)
			}
			// stands for a file of stubs of functions that are imported from elsewhere
			if strings.HasPrefix(l, "//verif:replace ") {
				cf.dest = filepath.Join(repoDir, cf.dir, strings.TrimSpace(l[len("//verif:replace "):]))
			}
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil || fd.Recv != nil {
				continue
			}
			h := &Harness{name: fd.Name.Name, file: p, dir: cf.dir, opts: map[string]string{}}
			for _, c := range fd.Doc.List {
				if !strings.HasPrefix(c.Text, "//verif:") {
					continue
				}
				kv := strings.SplitN(c.Text[len("//verif:"):], " ", 2)
				val := ""
				if len(kv) > 1 {
					val = strings.TrimSpace(kv[1])
				}
				switch kv[0] {
				case "prop":
					h.prop = val
				case "use":
					h.uses = append(h.uses, strings.Fields(strings.ReplaceAll(val, ",", " "))...)
				case "contract":
					h.contract = val
				default:
					h.opts[kv[0]] = val
				}
			}
			if h.prop != "" {
				for _, p := range strings.Fields(h.prop) {
					cf.props[p] = true
				}
				cf.hs = append(cf.hs, h)
			}
		}
		out = append(out, cf)
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].src < out[j].src })
	return out, err
}

func hasProp(h *Harness, prop string) bool {
	for _, p := range strings.Fields(h.prop) {
		if p == prop {
			return true
		}
	}
	return false
}

// Load loads /repo with the contract files overlaid.
func Load(prop string) (*Program, error) {
	all, err := scanContracts(filepath.Join(verifDir(), "contracts"))
	if err != nil {
		return nil, err
	}
	p := &Program{pkgs: map[string]*ssa.Package{}, pkgPath: map[string]string{}, slotsC: map[*ssa.Function]map[ssa.Value]int{}, loopsC: map[*ssa.Function]map[*ssa.BasicBlock]*loopInfo{}, contracts: map[string]*Harness{}}
	// files of the property plus contract files they use
	need := map[string]bool{}
	useNames := map[string]bool{}
	for _, cf := range all {
		if prop == "" || cf.props[prop] {
			need[cf.src] = true
			for _, h := range cf.hs {
				for _, u := range h.uses {
					useNames[u] = true
				}
			}
		}
		if strings.Contains(cf.text, "//verif:common") {
			need[cf.src] = true
		}
	}
	for _, cf := range all {
		for _, h := range cf.hs {
			if useNames[h.name] {
				need[cf.src] = true
			}
		}
	}
	// common files only for packages in use
	dirs := map[string]bool{}
	for _, cf := range all {
		if need[cf.src] && !strings.Contains(cf.text, "//verif:common") {
			dirs[cf.dir] = true
		}
	}
	for _, cf := range all {
		if need[cf.src] {
			for _, d := range cf.with {
				dirs[d] = true
			}
		}
	}
	for _, cf := range all {
		if need[cf.src] && dirs[cf.dir] {
			p.files = append(p.files, cf)
		}
	}
	if len(p.files) == 0 {
		return nil, fmt.Errorf("no contract files for %s", prop)
	}
	bad := map[string]string{}
	p.bad = bad
	for try := 0; try < 4; try++ {
		p.buildOverlay(bad)
		ok, err := p.load(bad)
		if err != nil {
			return nil, err
		}
		if ok {
			break
		}
	}
	for _, cf := range p.files {
		for _, h := range cf.hs {
			if why, isBad := bad[cf.src]; isBad {
				h.missing = "contract file no longer applies to the code: " + why
			} else if sp := p.pkgs[cf.dir]; sp != nil {
				h.fn = sp.Func(h.name)
				if h.fn == nil {
					h.missing = "harness function not found"
				}
			} else {
				h.missing = "package did not load"
			}
			p.hs = append(p.hs, h)
			if h.contract != "" {
				p.contracts[h.contract] = h
			}
		}
	}
	return p, nil
}

func (p *Program) buildOverlay(bad map[string]string) {
	p.overlay = map[string][]byte{}
	p.overlaySrc = map[string]string{}
	seen := map[string]bool{}
	for _, cf := range p.files {
		if _, b := bad[cf.src]; b {
			continue
		}
		p.overlay[cf.dest] = []byte(cf.text)
		if !seen[cf.dir] {
			seen[cf.dir] = true
			p.overlay[filepath.Join(repoDir, cf.dir, "zz_verif_rt.go")] = []byte(strings.Replace(rtSource, "package PKG", "package "+cf.pkg, 1))
		}
	}
}

func (p *Program) load(bad map[string]string) (bool, error) {
	dirs := map[string]bool{}
	var pats []string
	for _, cf := range p.files {
		if !dirs[cf.dir] {
			dirs[cf.dir] = true
			pats = append(pats, "./"+cf.dir)
		}
	}
	env := append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Overlay: p.overlay, Env: env}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return false, err
	}
	nbad := 0
	var others []string
	packages.Visit(ps, nil, func(pk *packages.Package) {
		for _, e := range pk.Errors {
			pos := e.Pos
			hit := false
			for _, cf := range p.files {
				if strings.HasPrefix(pos, cf.dest+":") {
					hit = true
					if _, ok := bad[cf.src]; !ok {
						bad[cf.src] = e.Msg
						if os.Getenv("GOVC_DEBUG") != "" {
							fmt.Fprintln(os.Stderr, cf.src, e.Pos, e.Msg)
						}
						nbad++
					}
				}
			}
			if !hit {
				others = append(others, e.Error())
			}
		}
	})
	if nbad > 0 {
		return false, nil
	}
	if len(others) > 0 {
		return false, fmt.Errorf("package errors: %s", strings.Join(others, "; "))
	}
	prog, sp := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p.prog = prog
	p.fset = prog.Fset
	for i, pk := range ps {
		if sp[i] == nil {
			continue
		}
		for d := range dirs {
			if len(pk.GoFiles) > 0 && filepath.Dir(pk.GoFiles[0]) == filepath.Join(repoDir, d) || strings.HasSuffix(pk.PkgPath, "/"+d) && len(pk.GoFiles) == 0 {
				p.pkgs[d] = sp[i]
				p.pkgPath[d] = pk.PkgPath
			}
		}
	}
	return true, nil
}

func (p *Program) slots(fn *ssa.Function) map[ssa.Value]int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if m, ok := p.slotsC[fn]; ok {
		return m
	}
	m := map[ssa.Value]int{}
	for _, a := range fn.Params {
		m[a] = len(m)
	}
	for _, a := range fn.FreeVars {
		m[a] = len(m)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				m[v] = len(m)
			}
		}
	}
	p.slotsC[fn] = m
	return m
}
func (p *Program) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if m, ok := p.loopsC[fn]; ok {
		return m
	}
	m := computeLoops(fn)
	p.loopsC[fn] = m
	return m
}

func (p *Program) fileOf(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	pos := fn.Pos()
	if o := fn.Origin(); o != nil {
		pos = o.Pos()
	}
	if !pos.IsValid() {
		return ""
	}
	return p.fset.Position(pos).Filename
}
func (p *Program) isRuntime(fn *ssa.Function) bool {
	if len(fn.Name()) < 2 || fn.Name()[0] != 'v' {
		return false
	}
	return strings.HasSuffix(p.fileOf(fn), "/zz_verif_rt.go")
}
func (p *Program) isGhost(fn *ssa.Function) bool {
	f := p.fileOf(fn)
	return strings.Contains(f, "/zz_verif_")
}

func envOr(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

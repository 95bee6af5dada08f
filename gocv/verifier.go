package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const fileModeType = 1<<31 | 1<<27 | 1<<26 | 1<<25 | 1<<24 | 1<<21 | 1<<19

func newBig(n uint64) *big.Int { return new(big.Int).SetUint64(n) }

type Contract struct {
	Name    string   `json:"name"`
	Pkg     string   `json:"pkg"`
	Props   []string `json:"props"`
	Target  string   `json:"target"`
	Apply   bool     `json:"apply"`
	Replay  bool     `json:"replay"`
	File    string   `json:"file"`
	Lemma   bool     `json:"lemma"`
	Thor    bool     `json:"thorough_only"`
	inlines map[string]bool
	extra   map[string]bool
	fn      *ssa.Function
	target  *ssa.Function
}

type Model struct {
	key, doc string
	fn       *ssa.Function
	only     map[string]bool
}

type invRec struct {
	target string
	label  string
	fn     *ssa.Function
	use    string // only for contracts that use this set
	loop   int    // only for the loop-th of loops loops (in order of appearance), if the function has that many
	loops  int
	depth  int    // only for loops nested this deep (1: outermost); 0: any
}

type Verifier struct {
	prog       *ssa.Program
	pkgs       []*packages.Package
	ssaPkgs    map[string]*ssa.Package
	contracts  []*Contract
	contractFn map[*ssa.Function]*Contract
	byTarget   map[*ssa.Function]*Contract
	models     map[string]*Model
	pure       map[string]bool
	pureIn     map[string]map[string]bool
	invs       []*invRec
	opaque     map[*ssa.Function]bool
	notes      []string
	trivial    int
	invariants int
	dropped    []string // contract files that no longer type-check
	buildErr   string
	curModels  map[string]bool
	cur        *Contract
}

func (v *Verifier) notef(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	for _, n := range v.notes {
		if n == s {
			return
		}
	}
	v.notes = append(v.notes, s)
}

const modPath = "github.com/datawire/ocibuild"

// overlayFiles maps /repo paths to contract sources.
func overlayFiles(contractsDir, repo string, skip map[string]bool) (map[string]string, map[string]bool) {
	out := map[string]string{}
	pk := map[string]bool{}
	filepath.Walk(contractsDir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(contractsDir, p)
		if strings.HasPrefix(rel, "_") || skip[p] {
			return nil
		}
		dir := filepath.Dir(rel)
		if strings.HasPrefix(filepath.Base(p), "native_") {
			return nil
		}
		pk[dir] = true
		out[filepath.Join(repo, dir, "zz_verif_"+filepath.Base(p))] = p
		return nil
	})
	return out, pk
}

func pkgNameOf(dir string) string {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "package ") {
				return strings.Fields(l)[1]
			}
		}
	}
	return ""
}

func LoadAll(repo, contractsDir string) (*Verifier, error) {
	skip := map[string]bool{}
	v := &Verifier{opaque: map[*ssa.Function]bool{}, contractFn: map[*ssa.Function]*Contract{}, byTarget: map[*ssa.Function]*Contract{}, models: map[string]*Model{}, pure: map[string]bool{}, pureIn: map[string]map[string]bool{}, ssaPkgs: map[string]*ssa.Package{}}
	rt, err := os.ReadFile(filepath.Join(contractsDir, "_rt", "rt.go.tmpl"))
	if err != nil {
		return nil, err
	}
	for attempt := 0; attempt < 6; attempt++ {
		files, pk := overlayFiles(contractsDir, repo, skip)
		ov := map[string][]byte{}
		for dst, src := range files {
			b, err := os.ReadFile(src)
			if err != nil {
				return nil, err
			}
			ov[dst] = b
		}
		for dir := range pk {
			n := pkgNameOf(filepath.Join(repo, dir))
			ov[filepath.Join(repo, dir, "zz_verif_rt.go")] = []byte("package " + n + "\n" + string(rt))
		}
		cfg := &packages.Config{
			Mode:    packages.LoadSyntax | packages.NeedModule,
			Dir:     repo,
			Env:     os.Environ(),
			Overlay: ov,
		}
		pkgs, err := packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		bad := false
		other := ""
		for _, p := range pkgs {
			for _, er := range p.Errors {
				f, _, _ := strings.Cut(er.Pos, ":")
				if src, ok := files[f]; ok {
					if !skip[src] {
						skip[src] = true
						v.dropped = append(v.dropped, src+": "+er.Msg)
					}
					bad = true
				} else {
					other = er.Error()
				}
			}
		}
		if bad {
			continue
		}
		if other != "" {
			v.buildErr = other
			return v, fmt.Errorf("repository does not type-check: %s", other)
		}
		v.pkgs = pkgs
		break
	}
	if v.pkgs == nil {
		return v, fmt.Errorf("could not load")
	}
	prog, sp := ssautil.Packages(v.pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	v.prog = prog
	for i, p := range v.pkgs {
		if sp[i] != nil {
			v.ssaPkgs[p.PkgPath] = sp[i]
		}
	}
	v.parseDirectives()
	return v, nil
}

func (v *Verifier) parseDirectives() {
	for _, p := range v.pkgs {
		sp := v.ssaPkgs[p.PkgPath]
		if sp == nil {
			fmt.Fprintln(os.Stderr, "no SSA for", p.PkgPath, p.IllTyped, p.TypeErrors)
			continue
		}
		for _, f := range p.Syntax {
			fname := v.prog.Fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(filepath.Base(fname), "zz_verif_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				var doc []string
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					if !strings.HasPrefix(t, "gocv:") {
						doc = append(doc, t)
					}
				}
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//")
					if !strings.HasPrefix(t, "gocv:") {
						continue
					}
					fs := strings.Fields(t)
					fn := sp.Func(fd.Name.Name)
					switch fs[0] {
					case "gocv:contract", "gocv:lemma":
						c := &Contract{Name: sp.Pkg.Name() + "." + fd.Name.Name, Pkg: p.PkgPath, fn: fn, File: fname, Replay: true, inlines: map[string]bool{}, extra: map[string]bool{}}
						c.Props = strings.Split(fs[1], ",")
						c.Lemma = fs[0] == "gocv:lemma"
						rest := fs[2:]
						if !c.Lemma {
							c.Target = fs[2]
							rest = fs[3:]
							c.target = v.resolve(sp, fs[2])
							if c.target == nil {
								v.notef("contract %s: target %s not found", c.Name, fs[2])
								continue
							}
						}
						for _, o := range rest {
							switch {
							case o == "apply":
								c.Apply = true
								v.byTarget[c.target] = c
							case o == "noreplay":
								c.Replay = false
							case o == "thorough":
								c.Thor = true
							case strings.HasPrefix(o, "inline="):
								for _, x := range strings.Split(o[7:], ",") {
									c.inlines[x] = true
								}
							case strings.HasPrefix(o, "use="):
								for _, x := range strings.Split(o[4:], ",") {
									c.extra[sp.Pkg.Path()+":"+x] = true
								}
							}
						}
						v.contracts = append(v.contracts, c)
						v.contractFn[fn] = c
					case "gocv:extern", "gocv:iface":
						m := &Model{key: fs[1], doc: strings.Join(doc, " "), fn: fn}
						k := m.key
						if len(fs) > 2 {
							k = fs[1] + "#" + sp.Pkg.Path() + ":" + fs[2] // only with use=NAME, in the same package
						}
						if fs[0] == "gocv:extern" && v.resolve(sp, fs[1]) != nil {
							m.key = fnKey(v.resolve(sp, fs[1]))
							if len(fs) > 2 {
								k = m.key + "#" + sp.Pkg.Path() + ":" + fs[2]
							} else {
								k = m.key
							}
						}
						v.models[k] = m
					case "gocv:opaque":
						v.opaque[fn] = true
					case "gocv:pure":
						k := fs[1]
						if r := v.resolve(sp, fs[1]); r != nil {
							k = fnKey(r)
						}
						if len(fs) > 2 {
							x := sp.Pkg.Path() + ":" + fs[2]
							if v.pureIn[x] == nil {
								v.pureIn[x] = map[string]bool{}
							}
							v.pureIn[x][k] = true
						} else {
							v.pure[k] = true
						}
					case "gocv:invariant":
						lbl := fd.Name.Name
						r := v.resolve(sp, fs[1])
						if r == nil {
							v.notef("invariant %s: function %s not found", lbl, fs[1])
							continue
						}
						ir := &invRec{target: fnKey(r), label: lbl, fn: fn}
						for _, o := range fs[2:] {
							fmt.Sscanf(o, "depth=%d", &ir.depth)
							fmt.Sscanf(o, "loop=%d/%d", &ir.loop, &ir.loops)
							if strings.HasPrefix(o, "use=") {
								ir.use = sp.Pkg.Path() + ":" + o[4:]
							}
						}
						v.invs = append(v.invs, ir)
					}
				}
			}
		}
	}
	sort.Slice(v.contracts, func(i, j int) bool { return v.contracts[i].Name < v.contracts[j].Name })
}

// resolve finds T.m, *T.m, f, or a fully qualified function.
func (v *Verifier) resolve(sp *ssa.Package, name string) *ssa.Function {
	if strings.Contains(name, "/") {
		i := strings.LastIndex(name, "/")
		j := strings.Index(name[i:], ".")
		ptr := ""
		full := name[:i+j]
		if strings.HasPrefix(full, "*") {
			ptr, full = "*", full[1:]
		}
		sp = v.ssaPkgs[full]
		if sp == nil {
			return nil
		}
		name = ptr + name[i+j+1:]
	}
	// anonymous function: outer$1
	if i := strings.Index(name, "$"); i >= 0 {
		o := v.resolve(sp, name[:i])
		if o == nil {
			return nil
		}
		for _, a := range o.AnonFuncs {
			if strings.HasSuffix(a.Name(), name[i:]) {
				return a
			}
		}
		return nil
	}
	tn, mn, isM := strings.Cut(name, ".")
	if !isM {
		return sp.Func(name)
	}
	ptr := strings.HasPrefix(tn, "*")
	tn = strings.TrimPrefix(tn, "*")
	t := sp.Type(tn)
	if t == nil {
		return nil
	}
	var rt types.Type = t.Type()
	if ptr {
		rt = types.NewPointer(rt)
	}
	sel := v.prog.MethodSets.MethodSet(rt).Lookup(sp.Pkg, mn)
	if sel == nil {
		return nil
	}
	return v.prog.MethodValue(sel)
}

func (v *Verifier) isIntrinsic(fn *ssa.Function) bool {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if o.Parent() != nil || !o.Pos().IsValid() {
		return false
	}
	base := filepath.Base(v.prog.Fset.Position(o.Pos()).Filename)
	if base == "zz_verif_rt.go" {
		return true
	}
	if strings.HasPrefix(base, "zz_verif_") {
		for _, p := range []string{"forallKey", "existsKey", "nondet", "freshObj", "identical", "visitedKey", "visitedTo"} {
			if strings.HasPrefix(o.Name(), p) {
				return true
			}
		}
	}
	return false
}

func (v *Verifier) externModel(key string) *Model {
	if v.cur != nil {
		for x := range v.cur.extra {
			if m := v.models[key+"#"+x]; m != nil {
				return m
			}
			if v.pureIn[x][key] {
				return nil
			}
		}
	}
	return v.models[key]
}

func (v *Verifier) ifaceModel(m *types.Func) *Model {
	return v.externModel(m.FullName())
}

func (v *Verifier) applyContract(fn *ssa.Function) *Contract {
	c := v.byTarget[fn]
	if c == nil || c == v.cur && false {
		return nil
	}
	return c
}

func (v *Verifier) invariantsFor(fn *ssa.Function) []*invRec {
	var out []*invRec
	for _, i := range v.invs {
		if i.target == fnKey(fn) && (i.use == "" || v.cur != nil && v.cur.extra[i.use]) {
			out = append(out, i)
		}
	}
	return out
}

type Result struct {
	Contract    string
	Props       []string
	Params      []string
	Status      string // proved, failed, undecided, unsupported
	Reason      string
	Obligations []*Obligation
	Trivial     int
	Invariants  int
	Assumptions []string
	Inlined     []string
	Applied     []string
	Notes       []string
	Models      []ModelInput
	SolverSecs  float64
	SolverCalls int
	ExecSecs    float64
	Vacuous     bool
	Lines       []string
}

type ModelInput struct {
	Obligation string
	Inputs     map[string]any
	Raw        string
}

// Verify runs one contract.
func (v *Verifier) Verify(c *Contract, secs, par int) (res *Result) {
	res = &Result{Contract: c.Name, Props: c.Props}
	e := NewExec(v)
	v.cur = c
	v.trivial, v.invariants = 0, 0
	e.repoPkg = map[*ssa.Package]bool{}
	for _, p := range v.ssaPkgs {
		e.repoPkg[p] = true
	}
	for x := range c.extra {
		for k := range v.pureIn[x] {
			v.pure[k] = true
		}
	}
	finish := func() {
		res.Trivial = v.trivial
		res.Invariants = v.invariants
		res.Assumptions = sortedKeys(e.assumed)
		res.Inlined = sortedKeys(e.inlined)
		res.Applied = sortedKeys(e.applied)
		res.Notes = v.notes
		res.SolverSecs = solverSecs
		res.SolverCalls = solverCalls
		res.Obligations = e.obls
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Status = "unsupported"
				res.Reason = u.msg
				finish()
				return
			}
			if os.Getenv("GOCV_DEBUG") != "" {
				panic(r)
			}
			res.Status = "unsupported"
			res.Reason = fmt.Sprintf("internal: %v", r)
			finish()
		}
	}()
	st := &State{guard: True(), mem: map[string]*Term{}, alloc: IntT(objAlloc0)}
	e.runInits(c.fn.Pkg, st)
	var args []Val
	curState = st
	for _, p := range c.fn.Params {
		x := e.sym(p.Name(), p.Type(), IntT(objAlloc0))
		args = append(args, x)
		res.Params = append(res.Params, p.Name())
		e.inputs = append(e.inputs, inputVar{p.Name(), p.Type(), x})
	}
	e.mode = []*cmode{{target: c.target, con: c}}
	t0 := time.Now()
	e.runFunc(c.fn, args, nil, st)
	res.ExecSecs = time.Since(t0).Seconds()
	// vacuity: the end of the contract must be reachable
	nEns := 0
	for _, o := range e.obls {
		if o.Kind == "ensures" || o.Kind == "check" {
			nEns++
		}
	}
	e.discharge(par, secs)
	res.Status = "proved"
	for _, o := range e.obls {
		if o.Result != "proved" {
			if res.Status == "proved" || o.Result == "failed" {
				res.Status = map[string]string{"failed": "failed", "unknown": "undecided"}[o.Result]
			}
		}
	}
	if nEns == 0 && v.trivial == 0 {
		res.Vacuous = true
	}
	// can the preconditions and facts hold at all?
	sc := script(e.facts, Not(e.fullGuard(st.guard)), false)
	if r, _ := proveQuickUnsat(sc); r {
		res.Vacuous = true
	}
	if res.Status != "proved" {
		e.models(res)
	}
	finish()
	return res
}

func (e *Exec) runInits(pkg *ssa.Package, st *State) {
	// repo packages imported, dependencies first
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			visit(i)
		}
		if sp := e.prog.Package(p); sp != nil && e.repoPkg[sp] {
			order = append(order, sp)
		}
	}
	visit(pkg.Pkg)
	for _, sp := range order {
		e.runInit(sp, st)
	}
}

func (e *Exec) runInit(sp *ssa.Package, st *State) {
	fn := sp.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	sn := e.snap()
	save := st.clone()
	nstack, nouter := len(e.stack), len(e.outer)
	e.quiet++
	e.inInit = true
	e.initPkg = sp
	// zero all globals of the package
	for _, m := range sp.Members {
		if g, ok := m.(*ssa.Global); ok {
			a := e.globalAddr(g)
			func() {
				defer func() { recover() }()
				curState = st
				e.store(st, a, g.Type().Underlying().(*types.Pointer).Elem(), e.zero(g.Type().Underlying().(*types.Pointer).Elem()))
			}()
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("GOCV_DEBUG") == "2" {
					panic(r)
				}
				e.restore(sn)
				*st = *save
				e.stack = e.stack[:nstack]
				e.outer = e.outer[:nouter]
				e.binders = nil
				e.v.notef("package initialiser of %s not executed: %v (its variables are arbitrary)", sp.Pkg.Path(), r)
			}
		}()
		curState = st
		e.runFunc(fn, nil, nil, st)
		st.guard = True()
	}()
	e.inInit = false
	e.quiet--
}

var _ = token.NoPos

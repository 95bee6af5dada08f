package main

// Symbolic execution of SSA with merging at joins: every function is executed once
// per call, block guards replace path enumeration, and loops are cut by invariants.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type State struct {
	guard *Term // relative to the entry of the current function
	mem   map[string]*Term
	alloc *Term
}

func (s *State) clone() *State {
	m := make(map[string]*Term, len(s.mem))
	for k, v := range s.mem {
		m[k] = v
	}
	return &State{s.guard, m, s.alloc}
}

type Obligation struct {
	Label  string
	Kind   string // ensures, requires, index, nil, slice, panic, check, assert, invariant
	Pos    string
	Func   string
	Goal   *Term `json:"-"` // closed: guard => cond
	NFacts int
	Result string // "proved", "failed", "unknown"
	Model  string `json:"-"`
	Solver string
	Secs   float64
}

type closure struct {
	fn   *ssa.Function
	bind []Val
}

type deferRec struct {
	guard *Term
	call  *ssa.CallCommon
	fn    Val
	args  []Val
	bind  []Val
	site  ssa.Instruction
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	rets   []retRec
	defers []deferRec
	iter   map[*ssa.Range]*iterState
	unroll map[*ssa.BasicBlock]int
	lost   map[string]bool // invariant candidates refuted under stronger assumptions
}

type iterState struct {
	mi      *mapInfo
	m       *Term // map address
	dom     *Term // domain at loop start
	visited *Term // ghost set
	str     *Term
	pos     *Term
	forced  *Term // binder summary: the current key
	first   bool
	okv     bool
	dirty   bool // the loop changes the map
	delOnly bool // but only removes keys
}

type retRec struct {
	guard *Term
	vals  []Val
	st    *State
}

type writeEvent struct {
	key string
	ex  *excl // nil: anything
	del bool  // removes a map key
}

type Exec struct {
	prog    *ssa.Program
	v       *Verifier
	fset    *token.FileSet
	repoPkg map[*ssa.Package]bool

	fieldCache, tagCache typeutil.Map
	nextField, nextTag   int64
	fieldNames           map[int64]string
	tagTypes             map[int64]types.Type
	binders              []*Term
	binderG              []*Term // guards of binders
	typed                map[[2]int]bool
	strs                 []*Term
	mem0                 map[string]*Term
	memVars              map[*Term]*memVar
	noOff0               bool
	opaqueMemo           map[*Term]*Term
	opaqueKeys           map[string]string
	specLocals           map[*ssa.Alloc]bool
	opaqueDef            map[*Term]bool
	opaqueApplied        map[*Term]bool
	nstack               int64 // stack objects made so far; their ids are -1, -2, ...
	unguarded            *Term
	mapKeySort           map[string]Sort
	zeroObj              map[*Term]bool
	initPkg              *ssa.Package
	zeroBytes            map[*Term]int

	globals    map[*ssa.Global]*Term
	nextGlobal int64
	facts      []*Term
	factSet    map[*Term]bool
	obls       []*Obligation
	quiet      int
	outer      []*Term // guards of callers
	stack      []*Frame
	writeLogs  []*[]writeEvent
invIter    *iterState
	closures   map[int64]*closure
	nextFunc   int64
	fnIDs      map[*ssa.Function]int64
	applyDepth int
	assumed    map[string]bool // assumption log
	inlined    map[string]bool
	applied    map[string]bool
	initDone   map[*ssa.Package]bool
	initState  *State
	inInit     bool
	mode       []*cmode // contract mode stack
	steps      int
	maxSteps   int
	inputs     []inputVar
	deadline   func() bool
	retHint    map[string]Val
	rec        map[*ssa.Function]int
	ghost      map[string]*Term
	callCount  map[string]int
}

type inputVar struct {
	Name string
	T    types.Type
	V    Val
}

type cmode struct {
	apply        bool
	target       *ssa.Function
	reqs         []*Term
	con          *Contract
	captured     Val
	guard, named *Term
}

func NewExec(v *Verifier) *Exec {
	DB = NewTermDB()
	addrMarks = map[*Term]*Term{}
	e := &Exec{prog: v.prog, v: v, fset: v.prog.Fset,
		fieldNames: map[int64]string{}, tagTypes: map[int64]types.Type{}, typed: map[[2]int]bool{},
		mem0: map[string]*Term{}, memVars: map[*Term]*memVar{}, mapKeySort: map[string]Sort{}, opaqueMemo: map[*Term]*Term{}, opaqueKeys: map[string]string{}, specLocals: map[*ssa.Alloc]bool{}, opaqueDef: map[*Term]bool{}, opaqueApplied: map[*Term]bool{},
		zeroObj: map[*Term]bool{}, zeroBytes: map[*Term]int{}, globals: map[*ssa.Global]*Term{},
		factSet: map[*Term]bool{}, closures: map[int64]*closure{}, fnIDs: map[*ssa.Function]int64{},
		assumed: map[string]bool{}, inlined: map[string]bool{}, applied: map[string]bool{}, initDone: map[*ssa.Package]bool{},
		nextGlobal: objGlobal0, maxSteps: 400000, rec: map[*ssa.Function]int{}, ghost: map[string]*Term{}, callCount: map[string]int{},
	}
	selectHook = e.resolveSelect
	return e
}

func (e *Exec) assume(f string, a ...any) { e.assumed[fmt.Sprintf(f, a...)] = true }

func (e *Exec) frame() *Frame { return e.stack[len(e.stack)-1] }

func (e *Exec) fullGuard(g *Term) *Term {
	return And(And(e.outer...), g)
}

var curState *State

func (e *Exec) closeOver(t *Term) *Term {
	for i := len(e.binders) - 1; i >= 0; i-- {
		t = Forall([]*Term{e.binders[i]}, t)
	}
	return t
}

// addFactG records a fact under the current guard.
func (e *Exec) addFactG(f *Term) {
	if f.IsTrue() {
		return
	}
	if u := e.unguarded; u != nil {
		if len(u.bv) > 0 {
			f = Forall(u.bv, f, []*Term{u})
		}
		e.addFactRaw(f)
		return
	}
	g := True()
	if curState != nil {
		g = e.fullGuard(curState.guard)
	}
	e.addFactRaw(e.closeOver(Imp(g, f)))
}

func (e *Exec) addFactRaw(f *Term) {
	if f.IsTrue() || e.factSet[f] {
		return
	}
	if f.Op == "and" {
		for _, a := range f.Args {
			e.addFactRaw(a)
		}
		return
	}
	e.factSet[f] = true
	e.facts = append(e.facts, f)
}

type snapshot struct {
	nf, no int
	typed  map[[2]int]bool
}

func (e *Exec) snap() snapshot {
	t := make(map[[2]int]bool, len(e.typed))
	for k := range e.typed {
		t[k] = true
	}
	return snapshot{len(e.facts), len(e.obls), t}
}
func (e *Exec) restore(s snapshot) (facts []*Term) {
	facts = append(facts, e.facts[s.nf:]...)
	for _, f := range facts {
		delete(e.factSet, f)
	}
	e.facts = e.facts[:s.nf]
	e.obls = e.obls[:s.no]
	e.typed = s.typed
	return
}

func (e *Exec) posOf(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}

// oblige records an obligation, then assumes it.
func (e *Exec) oblige(kind, label string, st *State, cond *Term, pos token.Pos) {
	if (kind == "ensures" || kind == "check") && e.quiet == 0 {
		if cond.Op == "and" {
			for _, a := range cond.Args {
				e.oblige(kind, label, st, a, pos)
			}
			return
		}
		if cond.Op == "=" && cond.Args[0].Sort == SBool {
			e.oblige(kind, label, st, Imp(cond.Args[0], cond.Args[1]), pos)
			e.oblige(kind, label, st, Imp(cond.Args[1], cond.Args[0]), pos)
			return
		}
	}
	if cond.IsTrue() {
		if e.quiet == 0 {
			e.v.trivial++
		}
		return
	}
	goal := e.closeOver(Imp(e.fullGuard(st.guard), cond))
	if goal.IsTrue() {
		if e.quiet == 0 {
			e.v.trivial++
		}
		return
	}
	if e.quiet == 0 && !e.factSet[goal] {
		fn := ""
		if len(e.stack) > 0 {
			fn = e.frame().fn.String()
		}
		e.obls = append(e.obls, &Obligation{Label: label, Kind: kind, Pos: e.posOf(pos), Func: fn, Goal: goal, NFacts: len(e.facts)})
	}
	if e.inInit && (kind == "check" || kind == "ensures") {
		return // a model meant for the target was called by an initialiser
	}
	e.addFactRaw(goal)
}

// ---- function execution ----

func (e *Exec) runFunc(fn *ssa.Function, args []Val, bind []Val, st *State) Val {
	if fn.Blocks == nil {
		unsup("no body: %s", fn)
	}
	e.steps++
	if len(e.stack) > 60 {
		unsup("call depth")
	}
	if e.rec[fn] >= 3 {
		unsup("recursion in %s needs a contract", fn)
	}
	e.rec[fn]++
	defer func() { e.rec[fn]-- }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, iter: map[*ssa.Range]*iterState{}, unroll: map[*ssa.BasicBlock]int{}}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.env[p] = bind[i]
	}
	e.stack = append(e.stack, fr)
	stack0 := e.nstack
	var wlog []writeEvent
	e.writeLogs = append(e.writeLogs, &wlog)
	callerGuard := st.guard
	e.outer = append(e.outer, callerGuard)
	inner := st.clone()
	inner.guard = True()
	save := curState
	defer func() { curState = save }()
	e.runRegion(fr, allBlocks(fn), fn.Blocks[0], []edge{{nil, fn.Blocks[0], inner}})
	e.stack = e.stack[:len(e.stack)-1]
	e.outer = e.outer[:len(e.outer)-1]
	e.writeLogs = e.writeLogs[:len(e.writeLogs)-1]
	// merge returns
	if len(fr.rets) == 0 {
		st.guard = False()
		return e.zeroResult(fn.Signature)
	}
	var sts []*State
	for _, r := range fr.rets {
		r.st.guard = r.guard
		sts = append(sts, r.st)
	}
	m := e.mergeStates(sts)
	conds := stripCommon(sts)
	var res Val
	n := fn.Signature.Results().Len()
	if n > 0 {
		vals := make(TupleV, n)
		for i := 0; i < n; i++ {
			var v Val
			for j := len(fr.rets) - 1; j >= 0; j-- {
				if j == len(fr.rets)-1 {
					v = fr.rets[j].vals[i]
				} else {
					v = mergeVal(conds[j], fr.rets[j].vals[i], v)
				}
			}
			if t, ok := v.(*Term); ok && t.Sort == SBool {
				v = simpBool(t)
			}
			vals[i] = v
		}
		if n == 1 {
			res = vals[0]
		} else {
			res = vals
		}
	}
	if e.localOnly(wlog, st.alloc, stack0, res, mayHoldFunc(fn.Signature.Results(), 0)) {
		st.alloc = m.alloc // the call's own objects are garbage now
	} else {
		st.mem, st.alloc = m.mem, m.alloc
	}
	st.guard = And(callerGuard, m.guard)
	return res
}

// localOnly: every write went to objects made during the call, and none of them is returned.
func (e *Exec) localOnly(log []writeEvent, alloc0 *Term, stack0 int64, res Val, funcs bool) bool {
	if res != nil {
		for _, t := range flatten(res) {
			switch t.Sort {
			case SAddr, SSlice, SIface:
				return false
			case SInt:
				if funcs && e.refersToMemory(t) {
					return false
				}
			}
		}
	}
	return e.onlyNew(log, alloc0, stack0)
}

// mayHoldFunc: values of the type may have functions in them (pointers are looked at elsewhere).
func mayHoldFunc(t types.Type, d int) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Pointer, *types.Slice, *types.Interface, *types.Map:
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if mayHoldFunc(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if mayHoldFunc(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return mayHoldFunc(u.Elem(), d+1)
	}
	return true
}

// refersToMemory: the value may be a function that refers to variables.
func (e *Exec) refersToMemory(t *Term) bool {
	if t.Op == "ite" {
		return e.refersToMemory(t.Args[1]) || e.refersToMemory(t.Args[2])
	}
	if !t.IsInt() || !t.Num.IsInt64() {
		return false
	}
	cl := e.closures[t.Int()]
	return cl != nil && len(cl.bind) > 0
}

// onlyNew: every write went to objects made since the given allocation point.
func (e *Exec) onlyNew(log []writeEvent, alloc0 *Term, stack0 int64) bool {
	for _, w := range log {
		if w.ex == nil {
			return false
		}
		var obj *Term
		switch {
		case w.ex.addr != nil:
			obj = Sel("a_obj", w.ex.addr)
		case w.ex.base != nil:
			obj = Sel("a_obj", w.ex.base)
		case w.ex.obj != nil:
			obj = w.ex.obj
		default:
			return false
		}
		if !madeSince(alloc0, stack0, obj) {
			return false
		}
	}
	return true
}

func (e *Exec) zeroResult(sig *types.Signature) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return e.zero(sig.Results().At(0).Type())
	}
	return e.zero(sig.Results())
}

func allBlocks(fn *ssa.Function) map[*ssa.BasicBlock]bool {
	m := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		m[b] = true
	}
	return m
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

// stripCommon returns, per state, its guard without the conjuncts common to all.
func stripCommon(sts []*State) []*Term {
	cnt := map[int]int{}
	for _, s := range sts {
		for _, c := range conjs(s.guard) {
			cnt[c.id]++
		}
	}
	var out []*Term
	for _, s := range sts {
		var r []*Term
		for _, c := range conjs(s.guard) {
			if cnt[c.id] < len(sts) {
				r = append(r, c)
			}
		}
		out = append(out, And(r...))
	}
	return out
}

func (e *Exec) mergeStates(sts []*State) *State {
	if len(sts) == 1 {
		return sts[0].clone()
	}
	conds := stripCommon(sts)
	n := len(sts)
	r := sts[n-1].clone()
	keys := map[string]bool{}
	for _, s := range sts {
		for k := range s.mem {
			keys[k] = true
		}
	}
	var gs []*Term
	for _, s := range sts {
		gs = append(gs, s.guard)
	}
	r.guard = simpBool(Or(gs...))
	for k := range keys {
		m := e.memGet(sts[n-1], k)
		for j := n - 2; j >= 0; j-- {
			m = Ite(conds[j], e.memGet(sts[j], k), m)
		}
		r.mem[k] = m
	}
	// allocation counter: when they differ, a fresh upper bound
	same := true
	for _, s := range sts {
		if s.alloc != r.alloc {
			same = false
		}
	}
	if !same {
		// constants: take the maximum
		allConst := true
		mx := big.NewInt(0)
		for _, s := range sts {
			if !s.alloc.IsInt() {
				allConst = false
				break
			}
			if s.alloc.Num.Cmp(mx) > 0 {
				mx = s.alloc.Num
			}
		}
		if allConst {
			r.alloc = BigT(mx)
		} else {
			// same base symbol, different offsets
			b0, c0 := splitAdd(sts[0].alloc)
			okb := b0 != nil
			for _, s := range sts[1:] {
				b, c := splitAdd(s.alloc)
				if b != b0 {
					okb = false
					break
				}
				if c.Cmp(c0) > 0 {
					c0 = c
				}
			}
			if okb {
				r.alloc = Add(b0, BigT(c0))
			} else {
				a := e.fresh("alloc", SInt)
				var lo *Term
				for _, s := range sts {
					e.addFactRaw(e.closeOver(Imp(e.fullGuard(True()), Le(s.alloc, a))))
					if lo == nil || intLeKnown(lo, s.alloc) {
						lo = s.alloc
					}
				}
				// syntactic lower bound valid only if all are <= lo
				okAll := true
				for _, s := range sts {
					if !intLeKnown(s.alloc, lo) {
						okAll = false
					}
				}
				if okAll {
					DB.lower[a] = lo
				} else {
					// keep a multi-bound
					for _, s := range sts {
						DB.lowers[a] = append(DB.lowers[a], s.alloc)
					}
				}
				r.alloc = a
			}
		}
	}
	return r
}

// ---- regions and loops ----

// runRegion executes a set of blocks (a DAG after loops are collapsed) and returns edges leaving it.
func (e *Exec) runRegion(fr *Frame, blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, in []edge) (out []edge) {
	sccs := sccOrder(blocks, entry)
	incoming := map[*ssa.BasicBlock][]edge{}
	for _, ed := range in {
		incoming[ed.to] = append(incoming[ed.to], ed)
	}
	push := func(ed edge) {
		if ed.st.guard.IsFalse() {
			return
		}
		if blocks[ed.to] && ed.to != entry {
			incoming[ed.to] = append(incoming[ed.to], ed)
		} else {
			out = append(out, ed)
		}
	}
	for _, scc := range sccs {
		if len(scc) == 1 && !selfLoop(scc[0]) || len(scc) == 1 && scc[0] == entry && len(in) > 0 && in[0].from == nil && !selfLoop(scc[0]) {
			b := scc[0]
			eds := incoming[b]
			if len(eds) == 0 {
				continue
			}
			st := e.enter(fr, b, eds)
			for _, ed := range e.runBlock(fr, b, st) {
				push(ed)
			}
			continue
		}
		// loop: find header
		set := map[*ssa.BasicBlock]bool{}
		for _, b := range scc {
			set[b] = true
		}
		var header *ssa.BasicBlock
		for _, b := range scc {
			if len(incoming[b]) > 0 {
				if header != nil && header != b {
					unsup("irreducible loop in %s", fr.fn)
				}
				header = b
			}
		}
		if header == nil {
			continue
		}
		for _, ed := range e.runLoop(fr, set, header, incoming[header]) {
			push(ed)
		}
	}
	return out
}

func selfLoop(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if s == b {
			return true
		}
	}
	return false
}

// sccOrder: strongly connected components in topological order; edges back to entry are ignored.
func sccOrder(blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock) [][]*ssa.BasicBlock {
	index := map[*ssa.BasicBlock]int{}
	low := map[*ssa.BasicBlock]int{}
	on := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	var out [][]*ssa.BasicBlock
	n := 0
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		n++
		index[b], low[b] = n, n
		stack = append(stack, b)
		on[b] = true
		for _, s := range b.Succs {
			if !blocks[s] || s == entry {
				continue
			}
			if index[s] == 0 {
				dfs(s)
				low[b] = min(low[b], low[s])
			} else if on[s] {
				low[b] = min(low[b], index[s])
			}
		}
		if low[b] == index[b] {
			var c []*ssa.BasicBlock
			for {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[x] = false
				c = append(c, x)
				if x == b {
					break
				}
			}
			out = append(out, c)
		}
	}
	dfs(entry)
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// enter merges the incoming edges of b and evaluates its phis.
func (e *Exec) enter(fr *Frame, b *ssa.BasicBlock, eds []edge) *State {
	var sts []*State
	for _, ed := range eds {
		sts = append(sts, ed.st)
	}
	st := e.mergeStates(sts)
	conds := stripCommon(sts)
	type upd struct {
		p *ssa.Phi
		v Val
	}
	var upds []upd
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var v Val
		for j := len(eds) - 1; j >= 0; j-- {
			x := e.phiEdge(fr, phi, b, eds[j].from)
			if j == len(eds)-1 {
				v = x
			} else {
				v = mergeVal(conds[j], x, v)
			}
		}
		if t, ok := v.(*Term); ok && t.Sort == SBool {
			v = simpBool(t)
		}
		upds = append(upds, upd{phi, v})
	}
	for _, u := range upds {
		fr.env[u.p] = u.v
	}
	return st
}

func (e *Exec) phiEdge(fr *Frame, phi *ssa.Phi, b, from *ssa.BasicBlock) Val {
	for i, p := range b.Preds {
		if p == from {
			return e.val(fr, phi.Edges[i])
		}
	}
	panic("phi edge")
}

func (e *Exec) runBlock(fr *Frame, b *ssa.BasicBlock, st *State) []edge {
	for _, in := range b.Instrs {
		curState = st
		if st.guard.IsFalse() {
			return nil
		}
		e.steps++
		if e.steps > e.maxSteps {
			unsup("step limit")
		}
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := e.val(fr, x.Cond).(*Term)
			t := st.clone()
			t.guard = And(st.guard, c)
			f := st
			f.guard = And(f.guard, Not(c))
			return []edge{{b, b.Succs[0], t}, {b, b.Succs[1], f}}
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var vs []Val
			for _, r := range x.Results {
				vs = append(vs, e.val(fr, r))
			}
			fr.rets = append(fr.rets, retRec{st.guard, vs, st})
			return nil
		case *ssa.Panic:
			e.oblige("panic", "no explicit panic", st, False(), x.Pos())
			return nil
		default:
			e.instr(fr, in, st)
		}
	}
	curState = st
	return nil
}

// ---- values ----

func (e *Exec) val(fr *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return e.globalAddr(x)
	case *ssa.Function:
		return e.funcVal(x)
	case *ssa.Builtin:
		return nil
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsupported{fmt.Sprintf("value %s (%T) not available in %s", v.Name(), v, fr.fn)})
}

func (e *Exec) funcVal(fn *ssa.Function) *Term {
	id, ok := e.fnIDs[fn]
	if !ok {
		e.nextFunc++
		id = e.nextFunc
		e.fnIDs[fn] = id
		e.closures[id] = &closure{fn: fn}
	}
	return IntT(id)
}

func (e *Exec) globalAddr(g *ssa.Global) *Term {
	if a, ok := e.globals[g]; ok {
		return a
	}
	e.nextGlobal++
	a := MkAddr(IntT(e.nextGlobal), PNil())
	e.globals[g] = a
	return a
}

func (e *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zero(t)
	}
	s, ok := scalarSort(t)
	if !ok {
		unsup("const of type %s", t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return BoolT(constant.BoolVal(c.Value))
	case constant.String:
		return StrT(constant.StringVal(c.Value))
	case constant.Int:
		n, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		if s.IsBV() {
			return BVT(new(big.Int).Mod(n, new(big.Int).Lsh(big.NewInt(1), uint(s.BVWidth()))), s.BVWidth())
		}
		return BigT(n)
	}
	return UF("const_"+c.Value.ExactString(), s)
}

// ---- instructions ----

func (e *Exec) nilCheck(st *State, a *Term, pos token.Pos, what string) {
	obj, path := Sel("a_obj", a), Sel("a_path", a)
	if intLeKnown(IntT(1), obj) || obj.IsInt() && obj.Num.Sign() < 0 || path.Op == "ctor" && path.Name != "pnil" {
		// (element and field addresses: checked where they were formed)
		if e.quiet == 0 {
			e.v.trivial++
		}
		return
	}
	e.oblige("nil", "non-nil "+what, st, Ne(Sel("a_obj", a), IntT(0)), pos)
}

// specLocal: a variable captured only by functions handed directly to a quantifier does not escape.
func (e *Exec) specLocal(x *ssa.Alloc) bool {
	if r, ok := e.specLocals[x]; ok {
		return r
	}
	var ok func(v ssa.Value, d int) bool
	ok = func(v ssa.Value, d int) bool {
		if d > 8 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
				if r.Op != token.MUL {
					return false
				}
			case *ssa.Store:
				if r.Val == v {
					return false
				}
			case *ssa.FieldAddr:
				if !ok(r, d+1) {
					return false
				}
			case *ssa.IndexAddr:
				if !ok(r, d+1) {
					return false
				}
			case *ssa.MakeClosure:
				for _, u := range *r.Referrers() {
					if _, dbg := u.(*ssa.DebugRef); dbg {
						continue
					}
					c, isc := u.(*ssa.Call)
					if !isc || c.Call.StaticCallee() == nil || !e.v.isIntrinsic(c.Call.StaticCallee()) {
						return false
					}
				}
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v && !ok(fn.FreeVars[i], d+1) {
						return false
					}
				}
			default:
				return false
			}
		}
		return true
	}
	r := ok(x, 0)
	e.specLocals[x] = r
	return r
}

func (e *Exec) instr(fr *Frame, in ssa.Instruction, st *State) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if (!x.Heap || e.specLocal(x)) && smallType(t) {
			// a local variable whose address does not escape
			e.nstack++
			a := MkAddr(IntT(-e.nstack), PNil())
			e.store(st, a, t, e.zero(t))
			fr.env[x] = a
		} else {
			fr.env[x] = e.allocZero(st, t)
		}
	case *ssa.BinOp:
		fr.env[x] = e.binop(st, x.Op, e.val(fr, x.X), e.val(fr, x.Y), x.X.Type(), x.Type(), x.Y.Type(), x.Pos())
	case *ssa.UnOp:
		fr.env[x] = e.unop(fr, st, x)
	case *ssa.Store:
		a := e.val(fr, x.Addr).(*Term)
		e.nilCheck(st, a, x.Pos(), "store target")
		e.storeLogged(st, a, x.Val.Type(), e.val(fr, x.Val))
	case *ssa.FieldAddr:
		a := e.val(fr, x.X).(*Term)
		e.nilCheck(st, a, x.Pos(), "pointer for field access")
		pt := x.X.Type().Underlying().(*types.Pointer).Elem()
		if _, op := isOpaqueScalar(pt); op {
			unsup("field of opaque %s", pt)
		}
		fr.env[x] = e.fldAddr(a, pt, x.Field)
	case *ssa.Field:
		sv, ok := e.val(fr, x.X).(*StructV)
		if !ok {
			unsup("field of opaque %s", x.X.Type())
		}
		fr.env[x] = sv.F[x.Field]
	case *ssa.IndexAddr:
		i := e.idx(e.val(fr, x.Index).(*Term))
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			s := e.val(fr, x.X).(*Term)
			e.oblige("index", "index in range", st, And(Le(IntT(0), i), Lt(i, Sel("s_len", s))), x.Pos())
			fr.env[x] = sliceElt(s, i)
		case *types.Pointer:
			a := e.val(fr, x.X).(*Term)
			e.nilCheck(st, a, x.Pos(), "array pointer")
			arr := u.Elem().Underlying().(*types.Array)
			e.oblige("index", "index in range", st, And(Le(IntT(0), i), Lt(i, IntT(arr.Len()))), x.Pos())
			fr.env[x] = EltAddr(a, i)
		default:
			unsup("IndexAddr %s", x.X.Type())
		}
	case *ssa.Index:
		i := e.idx(e.val(fr, x.Index).(*Term))
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			e.oblige("index", "index in range", st, And(Le(IntT(0), i), Lt(i, IntT(u.Len()))), x.Pos())
			switch av := e.val(fr, x.X).(type) {
			case *Term:
				fr.env[x] = coerceByte(Ord(StrAt(av, i)), u.Elem())
			case *StructV:
				if i.IsInt() {
					fr.env[x] = av.F[i.Int()]
				} else {
					var r Val = av.F[len(av.F)-1]
					for k := len(av.F) - 2; k >= 0; k-- {
						r = mergeVal(Eq(i, IntT(int64(k))), av.F[k], r)
					}
					fr.env[x] = r
				}
			}
		default: // string
			s := e.val(fr, x.X).(*Term)
			e.oblige("index", "index in range", st, And(Le(IntT(0), i), Lt(i, StrLen(s))), x.Pos())
			r := Ord(StrAt(s, i))
			e.typeFacts(r, types.Typ[types.Byte], nil)
			fr.env[x] = r
		}
	case *ssa.Lookup:
		switch x.X.Type().Underlying().(type) {
		case *types.Map:
			mi := e.mapInfo(x.X.Type())
			v, ok := e.mapLookup(st, mi, e.val(fr, x.X).(*Term), e.mapKey(mi, e.val(fr, x.Index)))
			if x.CommaOk {
				fr.env[x] = TupleV{v, ok}
			} else {
				fr.env[x] = v
			}
		default:
			i := e.idx(e.val(fr, x.Index).(*Term))
			s := e.val(fr, x.X).(*Term)
			e.oblige("index", "index in range", st, And(Le(IntT(0), i), Lt(i, StrLen(s))), x.Pos())
			r := Ord(StrAt(s, i))
			e.typeFacts(r, types.Typ[types.Byte], nil)
			fr.env[x] = r
		}
	case *ssa.MapUpdate:
		mi := e.mapInfo(x.Map.Type())
		m := e.val(fr, x.Map).(*Term)
		e.nilCheck(st, m, x.Pos(), "map for update")
		e.mapUpdateLogged(st, mi, m, e.mapKey(mi, e.val(fr, x.Key)), e.val(fr, x.Value))
	case *ssa.MakeMap:
		fr.env[x] = e.makeMap(st, x.Type())
	case *ssa.MakeSlice:
		n := e.val(fr, x.Len).(*Term)
		c := e.val(fr, x.Cap).(*Term)
		e.oblige("slice", "make length in range", st, And(Le(IntT(0), n), Le(n, c)), x.Pos())
		fr.env[x] = e.makeSlice(st, x.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.MakeChan:
		fr.env[x] = e.alloc(st)
	case *ssa.Slice:
		fr.env[x] = e.sliceOp(fr, st, x)
	case *ssa.MakeInterface:
		fr.env[x] = e.makeIface(st, e.val(fr, x.X), x.X.Type())
	case *ssa.ChangeInterface:
		fr.env[x] = e.val(fr, x.X)
	case *ssa.ChangeType:
		v := e.val(fr, x.X)
		if t, ok := v.(*Term); ok {
			if s, ok := scalarSort(x.Type()); ok {
				v = coerce(t, s)
			}
		}
		fr.env[x] = v
	case *ssa.Convert:
		fr.env[x] = e.convert(st, e.val(fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeClosure:
		var bs []Val
		for _, b := range x.Bindings {
			bs = append(bs, e.val(fr, b))
		}
		e.nextFunc++
		e.closures[e.nextFunc] = &closure{x.Fn.(*ssa.Function), bs}
		fr.env[x] = IntT(e.nextFunc)
	case *ssa.Extract:
		fr.env[x] = e.val(fr, x.Tuple).(TupleV)[x.Index]
	case *ssa.TypeAssert:
		fr.env[x] = e.typeAssert(st, e.val(fr, x.X).(*Term), x)
	case *ssa.Range:
		it := &iterState{}
		switch x.X.Type().Underlying().(type) {
		case *types.Map:
			it.mi = e.mapInfo(x.X.Type())
			it.m = e.val(fr, x.X).(*Term)
			it.dom = e.mapDom(st, it.mi, it.m)
			it.visited = ConstArr(SArr(it.mi.ks, SBool), False())
		default:
			it.str = e.val(fr, x.X).(*Term)
			it.pos = IntT(0)
		}
		fr.iter[x] = it
		fr.env[x] = &IterV{x}
	case *ssa.Next:
		fr.env[x] = e.next(fr, st, x)
	case *ssa.Call:
		r := e.call(fr, st, &x.Call, x)
		if x.Call.Signature().Results().Len() > 0 {
			fr.env[x] = r
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			_ = b
			fr.env[x] = r
		}
	case *ssa.Defer:
		d := deferRec{guard: st.guard, call: &x.Call, site: x}
		if !x.Call.IsInvoke() {
			if _, ok := x.Call.Value.(*ssa.Builtin); !ok {
				d.fn = e.val(fr, x.Call.Value)
			}
		} else {
			d.fn = e.val(fr, x.Call.Value)
		}
		for _, a := range x.Call.Args {
			d.args = append(d.args, e.val(fr, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			g := relGuard(d.guard, st.guard)
			if g.IsFalse() {
				continue
			}
			run := st.clone()
			run.guard = And(st.guard, g)
			skip := st.clone()
			skip.guard = And(st.guard, Not(g))
			curState = run
			e.callWith(fr, run, d.call, d.fn, d.args, d.site)
			var m *State
			if skip.guard.IsFalse() || g.IsTrue() {
				m = run
			} else {
				m = e.mergeStates([]*State{run, skip})
			}
			*st = *m
			curState = st
		}
	case *ssa.Send, *ssa.Go, *ssa.Select:
		unsup("%T in %s", in, fr.fn)
	case *ssa.SliceToArrayPointer:
		unsup("%T in %s", in, fr.fn)
	default:
		unsup("instruction %T in %s", in, fr.fn)
	}
}

// relGuard: part of g not implied syntactically by ctx.
func relGuard(g, ctx *Term) *Term {
	have := map[int]bool{}
	for _, c := range conjs(ctx) {
		have[c.id] = true
	}
	var r []*Term
	for _, c := range conjs(g) {
		if !have[c.id] {
			r = append(r, c)
		}
		if have[Not(c).id] {
			return False()
		}
	}
	return And(r...)
}

func (e *Exec) fldAddr(a *Term, st types.Type, i int) *Term {
	return FldAddr(a, e.fields(st)[i].id)
}

func sliceElt(s, i *Term) *Term {
	if s.Op == "ite" {
		return Ite(s.Args[0], sliceElt(s.Args[1], i), sliceElt(s.Args[2], i))
	}
	return EltAddr(Sel("s_base", s), Add(Sel("s_off", s), i))
}

func (e *Exec) idx(i *Term) *Term {
	if i.Sort.IsBV() {
		return BV2Int(i)
	}
	return i
}

func coerceByte(x *Term, t types.Type) *Term {
	if s, _ := scalarSort(t); s.IsBV() {
		return Int2BV(x, 8)
	}
	return x
}

// mapKey turns a Go value into a map key term (struct keys are packed by an injective function).
func (e *Exec) mapKey(mi *mapInfo, v Val) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	return e.packKey(mi.kt, v)
}

func (e *Exec) packKey(t types.Type, v Val) *Term {
	ls := flatten(v)
	name := "pack_" + sanitize(types.TypeString(t, nil))
	k := UF(name, SInt, ls...)
	lts := e.leafTypes(t)
	for i, l := range ls {
		s, _ := scalarSort(lts[i])
		e.addFactG(Eq(UF(fmt.Sprintf("un%s_%d", name, i), s, k), l))
	}
	return k
}

func (e *Exec) unpackKey(t types.Type, k *Term) Val {
	if _, ok := scalarSort(t); ok {
		return k
	}
	name := "pack_" + sanitize(types.TypeString(t, nil))
	var ls []*Term
	for i, lt := range e.leafTypes(t) {
		s, _ := scalarSort(lt)
		x := UF(fmt.Sprintf("un%s_%d", name, i), s, k)
		e.typeFacts(x, lt, nil)
		ls = append(ls, x)
	}
	e.addFactG(Eq(UF(name, SInt, ls...), k))
	return e.unflatten(t, ls)
}

func (e *Exec) log(key string, ex *excl) {
	for _, l := range e.writeLogs {
		*l = append(*l, writeEvent{key: key, ex: ex})
	}
}

func (e *Exec) logDelete(key string, ex *excl) {
	for _, l := range e.writeLogs {
		*l = append(*l, writeEvent{key, ex, true})
	}
}

func (e *Exec) logType(a *Term, t types.Type) {
	if len(e.writeLogs) == 0 {
		return
	}
	if s, ok := scalarSort(t); ok {
		if _, isArr := t.Underlying().(*types.Array); isArr {
			e.log("Bytes", &excl{addr: a})
			return
		}
		if isByteElem(t) {
			p := Sel("a_path", a)
			if p.Op == "ctor" && p.Name == "pelt" {
				e.log("Bytes", &excl{addr: MkAddr(Sel("a_obj", a), p.Args[0])})
				return
			}
		}
		e.log(string(s), &excl{addr: a})
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for _, f := range e.fields(t) {
			e.logType(FldAddr(a, f.id), f.t)
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			e.logType(EltAddr(a, IntT(i)), u.Elem())
		}
	}
}

func (e *Exec) storeLogged(st *State, a *Term, t types.Type, v Val) {
	e.logType(a, t)
	if a.Op == "ite" {
		// store through a conditional address: branch
		s1, s2 := st.clone(), st.clone()
		e.store(s1, a.Args[1], t, v)
		e.store(s2, a.Args[2], t, v)
		for k := range s1.mem {
			st.mem[k] = Ite(a.Args[0], e.memGet(s1, k), e.memGet(s2, k))
		}
		return
	}
	e.store(st, a, t, v)
}

func (e *Exec) mapUpdateLogged(st *State, mi *mapInfo, m, k *Term, v Val) {
	e.log(mi.dom, &excl{addr: m})
	for _, vk := range mi.vals {
		e.log(vk, &excl{addr: m})
	}
	e.log(mi.ln, &excl{addr: m})
	e.mapUpdate(st, mi, m, k, v)
}

func (e *Exec) makeSlice(st *State, et types.Type, n, c *Term) *Term {
	a := e.alloc(st)
	if isByteElem(et) {
		var content *Term
		if n.IsInt() && n.Int() <= 4096 {
			content = StrT(string(make([]byte, n.Int())))
		} else {
			content = e.fresh("bytes", SStr)
			e.addFactG(Eq(StrLen(content), n))
		}
		e.log("Bytes", &excl{addr: a})
		e.setMem(st, "Bytes", Store(e.memGet(st, "Bytes"), a, content))
		return MkSlice(a, IntT(0), n, n)
	}
	if Sel("a_obj", a).IsInt() {
		e.zeroObj[Sel("a_obj", a)] = true
	} else if n.IsInt() && n.Int() <= 16 {
		for i := int64(0); i < n.Int(); i++ {
			e.store(st, EltAddr(a, IntT(i)), et, e.zero(et))
		}
	} else {
		e.havocElts(st, a, et, n)
	}
	return MkSlice(a, IntT(0), n, c)
}

// havocElts zero-initialises a symbolic number of elements at a symbolic object by quantified facts.
func (e *Exec) havocElts(st *State, a *Term, et types.Type, n *Term) {
	j := NewBVar("z", SInt)
	e.binders = append(e.binders, j)
	ea := EltAddr(a, j)
	v := flatten(e.load(st, ea, et))
	z := flatten(e.zero(et))
	var cs []*Term
	for i := range v {
		cs = append(cs, Eq(v[i], z[i]))
	}
	e.addFactG(And(cs...))
	e.binders = e.binders[:len(e.binders)-1]
}

func (e *Exec) sliceOp(fr *Frame, st *State, x *ssa.Slice) Val {
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return e.idx(e.val(fr, v).(*Term))
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = IntT(0)
	}
	switch u := x.X.Type().Underlying().(type) {
	case *types.Basic:
		s := e.val(fr, x.X).(*Term)
		n := StrLen(s)
		if hi == nil {
			hi = n
		}
		e.oblige("slice", "slice bounds in range", st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, n)), x.Pos())
		return Substr(s, lo, hi)
	case *types.Slice:
		s := e.val(fr, x.X).(*Term)
		if isByteElem(u.Elem()) {
			return e.sliceBytes(st, s, lo, hi, x.Pos())
		}
		if hi == nil {
			hi = Sel("s_len", s)
		}
		if mx == nil {
			mx = Sel("s_cap", s)
		}
		e.oblige("slice", "slice bounds in range", st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, Sel("s_cap", s))), x.Pos())
		return MkSlice(Sel("s_base", s), Add(Sel("s_off", s), lo), Sub(hi, lo), Sub(mx, lo))
	case *types.Pointer:
		a := e.val(fr, x.X).(*Term)
		arr := u.Elem().Underlying().(*types.Array)
		if hi == nil {
			hi = IntT(arr.Len())
		}
		if mx == nil {
			mx = IntT(arr.Len())
		}
		e.oblige("slice", "slice bounds in range", st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, IntT(arr.Len()))), x.Pos())
		return MkSlice(a, lo, Sub(hi, lo), Sub(mx, lo))
	}
	unsup("slice of %s", x.X.Type())
	return nil
}

func (e *Exec) sliceBytes(st *State, s, lo, hi *Term, pos token.Pos) *Term {
	if hi == nil {
		hi = Sel("s_len", s)
	}
	e.oblige("slice", "slice bounds in range", st, And(Le(IntT(0), lo), Le(lo, hi), Le(hi, Sel("s_cap", s))), pos)
	return MkSlice(Sel("s_base", s), Add(Sel("s_off", s), lo), Sub(hi, lo), Sub(Sel("s_cap", s), lo))
}

// bytesOf: content of a []byte as a string term.
func (e *Exec) bytesOf(st *State, s *Term) *Term {
	if s.Op == "ite" {
		return Ite(s.Args[0], e.bytesOf(st, s.Args[1]), e.bytesOf(st, s.Args[2]))
	}
	if s == NilSlice() {
		return StrT("")
	}
	c := Select(e.memGet(st, "Bytes"), Sel("s_base", s))
	off, ln := Sel("s_off", s), Sel("s_len", s)
	if !c.IsConst() && c.Op != "str.++" {
		e.addFactG(Le(Add(off, Sel("s_cap", s)), mk(&Term{Op: "str.len", Args: []*Term{c}, Sort: SInt})))
	}
	return Substr(c, off, Add(off, ln))
}

func (e *Exec) newBytes(st *State, content *Term) *Term {
	a := e.alloc(st)
	e.log("Bytes", &excl{addr: a})
	e.setMem(st, "Bytes", Store(e.memGet(st, "Bytes"), a, content))
	n := StrLen(content)
	return MkSlice(a, IntT(0), n, n)
}

func (e *Exec) makeIface(st *State, v Val, t types.Type) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v.(*Term)
	}
	tag := IntT(e.typeTag(t))
	var pay *Term
	if x, ok := v.(*Term); ok {
		switch {
		case x.Sort == SAddr:
			pay = Ctor("payA", SPay, x)
		case x.Sort == SInt:
			pay = Ctor("payI", SPay, x)
		case x.Sort == SStr:
			pay = Ctor("payS", SPay, x)
		case x.Sort == SBool:
			pay = Ctor("payB", SPay, x)
		case x.Sort == SSlice:
			pay = Ctor("payL", SPay, x)
		case x.Sort.IsBV():
			pay = Ctor("payI", SPay, BV2Int(x))
		default:
			unsup("iface of %s", x.Sort)
		}
	} else {
		a := e.alloc(st)
		e.logType(a, t)
		e.store(st, a, t, v)
		pay = Ctor("payA", SPay, a)
	}
	return Ctor("mkiface", SIface, tag, pay)
}

func (e *Exec) unIface(st *State, x *Term, t types.Type) Val {
	if x.Op == "ite" {
		return mergeVal(x.Args[0], e.unIface(st, x.Args[1], t), e.unIface(st, x.Args[2], t))
	}
	pay := Sel("i_pay", x)
	if s, ok := scalarSort(t); ok {
		var r *Term
		switch {
		case s == SAddr:
			r = Sel("p_addr", pay)
		case s == SInt:
			r = Sel("p_int", pay)
		case s == SStr:
			r = Sel("p_str", pay)
		case s == SBool:
			r = Sel("p_bool", pay)
		case s == SSlice:
			r = Sel("p_slice", pay)
		case s.IsBV():
			r = Int2BV(Sel("p_int", pay), s.BVWidth())
		default:
			unsup("uniface %s", s)
		}
		return r
	}
	return e.load(st, Sel("p_addr", pay), t)
}

func (e *Exec) hasType(x *Term, t types.Type) *Term {
	if x.Op == "ite" {
		return Ite(x.Args[0], e.hasType(x.Args[1], t), e.hasType(x.Args[2], t))
	}
	tag := Sel("i_tag", x)
	if it, ok := t.Underlying().(*types.Interface); ok {
		if tag.IsInt() {
			if tag.Num.Sign() == 0 {
				return False()
			}
			if ct, ok := e.tagTypes[tag.Int()]; ok {
				return BoolT(types.Implements(ct, it))
			}
		}
		if it.NumMethods() == 0 {
			return Ne(tag, IntT(0))
		}
		return And(Ne(tag, IntT(0)), UF("implements_"+types.TypeString(t, nil), SBool, tag))
	}
	return Eq(tag, IntT(e.typeTag(t)))
}

func (e *Exec) typeAssert(st *State, x *Term, ta *ssa.TypeAssert) Val {
	ok := e.hasType(x, ta.AssertedType)
	if it, isI := ta.AssertedType.Underlying().(*types.Interface); isI && types.Implements(ta.X.Type(), it) {
		ok = Ne(Sel("i_tag", x), IntT(0)) // what is of an interface type implements it
	}
	var v Val
	if _, isI := ta.AssertedType.Underlying().(*types.Interface); isI {
		v = x
	} else {
		v = e.unIface(st, x, ta.AssertedType)
		if t, isT := v.(*Term); isT && !t.IsConst() {
			g := st.guard
			st.guard = And(g, ok)
			e.eachLeaf(t, 0, func(y *Term) {
				if y.Op == "sel" || y.Op == "select" {
					e.typeFacts(y, ta.AssertedType, addrMarks[rootOf(x)])
				}
			})
			st.guard = g
		}
	}
	if ta.CommaOk {
		return TupleV{mergeVal(ok, v, e.zero(ta.AssertedType)), ok}
	}
	e.oblige("panic", "type assertion", st, ok, ta.Pos())
	return v
}

func (e *Exec) convert(st *State, v Val, from, to types.Type) Val {
	x, ok := v.(*Term)
	if !ok {
		return v
	}
	fu, tu := from.Underlying(), to.Underlying()
	// string <-> []byte
	if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
		switch f := fu.(type) {
		case *types.Slice:
			if isByteElem(f.Elem()) {
				return e.bytesOf(st, x)
			}
			r := UF("string_of_runes", SStr, x)
			return r
		case *types.Basic:
			if f.Info()&types.IsString != 0 {
				return x
			}
			if f.Info()&types.IsInteger != 0 {
				xi := e.idx(x)
				g := UF("utf8enc", SStr, xi)
				e.addFactG(And(Le(IntT(1), mk(&Term{Op: "str.len", Args: []*Term{g}, Sort: SInt})), Le(mk(&Term{Op: "str.len", Args: []*Term{g}, Sort: SInt}), IntT(4))))
				return Ite(And(Le(IntT(0), xi), Lt(xi, IntT(128))), Chr(xi), g)
			}
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			if isByteElem(ts.Elem()) {
				return e.newBytes(st, x)
			}
			r := e.sym("runes", to, st.alloc)
			return r
		}
		return x
	}
	s, ok := scalarSort(to)
	if !ok {
		return v
	}
	tb, isB := tu.(*types.Basic)
	fb, isFB := fu.(*types.Basic)
	if !isB || !isFB {
		return x
	}
	if tb.Info()&types.IsFloat != 0 || fb.Info()&types.IsFloat != 0 {
		return UF("conv_"+fb.Name()+"_"+tb.Name(), s, x)
	}
	switch {
	case x.Sort.IsBV() && s.IsBV():
		return BVResize(x, s.BVWidth())
	case x.Sort.IsBV():
		n := BV2Int(x)
		lo, hi, ok := intRange(to)
		if ok {
			w := new(big.Int).Lsh(big.NewInt(1), uint(x.Sort.BVWidth()))
			if new(big.Int).Sub(w, big.NewInt(1)).Cmp(hi) > 0 {
				return wrapInt(n, lo, hi, true)
			}
		}
		return n
	case s.IsBV():
		return Int2BV(x, s.BVWidth())
	}
	lo, hi, ok1 := intRange(to)
	flo, fhi, ok2 := intRange(from)
	if !ok1 || !ok2 {
		return x
	}
	if flo.Cmp(lo) >= 0 && fhi.Cmp(hi) <= 0 {
		return x
	}
	return wrapInt(x, lo, hi, true)
}

// wrapInt reduces t to [lo,hi]. If wide, t may be many multiples outside.
func wrapInt(t *Term, lo, hi *big.Int, wide bool) *Term {
	mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if t.IsInt() {
		n := new(big.Int).Sub(t.Num, lo)
		n.Mod(n, mod)
		return BigT(n.Add(n, lo))
	}
	if wide {
		m := mk(&Term{Op: "mod", Args: []*Term{Sub(t, BigT(lo)), BigT(mod)}, Sort: SInt})
		return Ite(And(Le(BigT(lo), t), Le(t, BigT(hi))), t, Add(m, BigT(lo)))
	}
	return Ite(Lt(BigT(hi), t), Sub(t, BigT(mod)), Ite(Lt(t, BigT(lo)), Add(t, BigT(mod)), t))
}

// ---- operators ----

func (e *Exec) unop(fr *Frame, st *State, x *ssa.UnOp) Val {
	v := e.val(fr, x.X)
	switch x.Op {
	case token.MUL:
		a := v.(*Term)
		e.nilCheck(st, a, x.Pos(), "pointer dereference")
		if g, ok := x.X.(*ssa.Global); ok {
			if r := e.externGlobal(g, x.Type()); r != nil {
				return r
			}
		}
		return e.loadIte(st, a, x.Type())
	case token.NOT:
		return Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.Sort.IsBV() {
			return BV2("bvsub", BVT(big.NewInt(0), t.Sort.BVWidth()), t)
		}
		lo, hi, ok := intRange(x.Type())
		if !ok {
			return UF("fneg", t.Sort, t)
		}
		return wrapInt(Neg(t), lo, hi, false)
	case token.XOR:
		t := v.(*Term)
		if t.Sort.IsBV() {
			return BVNot(t)
		}
		return Add(Neg(t), IntT(-1))
	}
	unsup("unop %s", x.Op)
	return nil
}

func (e *Exec) loadIte(st *State, a *Term, t types.Type) Val {
	return e.load(st, a, t)
}

// externGlobal: error variables of other packages are distinct non-nil errors.
func (e *Exec) externGlobal(g *ssa.Global, t types.Type) Val {
	if e.repoPkg[g.Pkg] {
		return nil
	}
	if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() == 1 && it.Method(0).Name() == "Error" {
		a := e.globalAddr(g)
		return Ctor("mkiface", SIface, IntT(e.typeTag(externErrType)), Ctor("payA", SPay, a))
	}
	return nil
}

var externErrType = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "externError", nil), types.NewStruct(nil, nil), nil))
var newErrType = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "newError", nil), types.NewStruct(nil, nil), nil))
var plainErrType = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "plainError", nil), types.NewStruct(nil, nil), nil))

func indexLike(t *Term) bool {
	switch t.Op {
	case "int":
		return t.Num.IsInt64() && t.Num.Int64() < 1<<40 && t.Num.Int64() > -(1<<40)
	case "str.len":
		return true
	case "sel":
		return t.Name == "s_len" || t.Name == "s_cap" || t.Name == "s_off"
	case "str.indexof":
		return true
	case "+", "neg":
		for _, a := range t.Args {
			if !indexLike(a) {
				return false
			}
		}
		return true
	case "ite":
		return indexLike(t.Args[1]) && indexLike(t.Args[2])
	case "var", "app", "bvar":
		return indexVars[t]
	}
	return false
}

// indexVars: integer constants standing for loop counters (bounded by object sizes).
var indexVars = map[*Term]bool{}

func (e *Exec) binop(st *State, op token.Token, xv, yv Val, xt, rt, yt types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return e.equal(st, xv, yv, xt, yt)
	case token.NEQ:
		return Not(e.equal(st, xv, yv, xt, yt))
	}
	x, y := xv.(*Term), yv.(*Term)
	bi, _ := xt.Underlying().(*types.Basic)
	if bi != nil && bi.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return StrCat(x, y)
		case token.LSS:
			return StrLt(x, y)
		case token.GTR:
			return StrLt(y, x)
		case token.LEQ:
			return Not(StrLt(y, x))
		case token.GEQ:
			return Not(StrLt(x, y))
		}
	}
	if bi != nil && bi.Info()&(types.IsFloat|types.IsComplex) != 0 {
		s, _ := scalarSort(rt)
		return UF("fop_"+op.String(), s, x, y)
	}
	if bi != nil && bi.Info()&types.IsBoolean != 0 {
		switch op {
		case token.AND:
			return And(x, y)
		case token.OR:
			return Or(x, y)
		}
	}
	if x.Sort.IsBV() {
		w := x.Sort.BVWidth()
		if op == token.SHL || op == token.SHR {
			yi := y
			if y.Sort.IsBV() {
				yi = BVResize(y, w)
			} else {
				e.oblige("panic", "non-negative shift count", st, Le(IntT(0), y), pos)
				big1 := Int2BV(y, w)
				if !y.IsInt() {
					// counts >= width give zero
					r := BV2(map[token.Token]string{token.SHL: "bvshl", token.SHR: "bvlshr"}[op], x, big1)
					return Ite(Lt(y, IntT(int64(w))), r, BVT(big.NewInt(0), w))
				}
				if y.Num.Cmp(big.NewInt(int64(w))) >= 0 {
					return BVT(big.NewInt(0), w)
				}
				yi = big1
			}
			return BV2(map[token.Token]string{token.SHL: "bvshl", token.SHR: "bvlshr"}[op], x, yi)
		}
		y = coerce(y, x.Sort)
		switch op {
		case token.ADD:
			return BV2("bvadd", x, y)
		case token.SUB:
			return BV2("bvsub", x, y)
		case token.MUL:
			return BV2("bvmul", x, y)
		case token.AND:
			return BV2("bvand", x, y)
		case token.OR:
			return BV2("bvor", x, y)
		case token.XOR:
			return BV2("bvxor", x, y)
		case token.AND_NOT:
			return BV2("bvand", x, BVNot(y))
		case token.LSS:
			return Not(BVUle(y, x))
		case token.LEQ:
			return BVUle(x, y)
		case token.GTR:
			return Not(BVUle(x, y))
		case token.GEQ:
			return BVUle(y, x)
		case token.QUO:
			e.oblige("panic", "non-zero divisor", st, Ne(y, BVT(big.NewInt(0), w)), pos)
			return BV2("bvudiv", x, y)
		case token.REM:
			e.oblige("panic", "non-zero divisor", st, Ne(y, BVT(big.NewInt(0), w)), pos)
			return BV2("bvurem", x, y)
		}
		unsup("bv op %s", op)
	}
	if y.Sort.IsBV() {
		y = BV2Int(y)
	}
	lo, hi, _ := intRange(rt)
	switch op {
	case token.ADD, token.SUB:
		var r *Term
		if op == token.ADD {
			r = Add(x, y)
		} else {
			r = Sub(x, y)
		}
		if indexLike(x) && indexLike(y) && lo != nil && lo.Sign() < 0 && hi.BitLen() == 63 {
			return r
		}
		if lo == nil {
			return r
		}
		return wrapInt(r, lo, hi, false)
	case token.MUL:
		r := Mul(x, y)
		if lo == nil || indexLike(x) && y.IsInt() && y.Num.IsInt64() && y.Int() < 1000 {
			return r
		}
		return wrapInt(r, lo, hi, true)
	case token.LSS:
		return Lt(x, y)
	case token.LEQ:
		return Le(x, y)
	case token.GTR:
		return Lt(y, x)
	case token.GEQ:
		return Le(y, x)
	case token.QUO, token.REM:
		e.oblige("panic", "non-zero divisor", st, Ne(y, IntT(0)), pos)
		if x.IsInt() && y.IsInt() && y.Num.Sign() != 0 {
			if op == token.QUO {
				return BigT(new(big.Int).Quo(x.Num, y.Num))
			}
			return BigT(new(big.Int).Rem(x.Num, y.Num))
		}
		ax := Ite(Le(IntT(0), x), x, Neg(x))
		ay := Ite(Le(IntT(0), y), y, Neg(y))
		q := mk(&Term{Op: "div", Args: []*Term{ax, ay}, Sort: SInt})
		m := mk(&Term{Op: "mod", Args: []*Term{ax, ay}, Sort: SInt})
		if op == token.QUO {
			return Ite(Eq(Le(IntT(0), x), Le(IntT(0), y)), q, Neg(q))
		}
		return Ite(Le(IntT(0), x), m, Neg(m))
	case token.SHL:
		if y.IsInt() && y.Num.IsInt64() && y.Int() >= 0 && y.Int() < 64 {
			return wrapInt(Mul(x, BigT(new(big.Int).Lsh(big.NewInt(1), uint(y.Int())))), lo, hi, true)
		}
		return UF("shl", SInt, x, y)
	case token.SHR:
		if y.IsInt() && y.Num.IsInt64() && y.Int() >= 0 && y.Int() < 64 {
			d := BigT(new(big.Int).Lsh(big.NewInt(1), uint(y.Int())))
			if x.IsInt() {
				return BigT(new(big.Int).Rsh(x.Num, uint(y.Int())))
			}
			return mk(&Term{Op: "div", Args: []*Term{x, d}, Sort: SInt})
		}
		return UF("shr", SInt, x, y)
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if x.IsInt() && y.IsInt() {
			r := new(big.Int)
			switch op {
			case token.AND:
				return BigT(r.And(x.Num, y.Num))
			case token.OR:
				return BigT(r.Or(x.Num, y.Num))
			case token.XOR:
				return BigT(r.Xor(x.Num, y.Num))
			case token.AND_NOT:
				return BigT(r.AndNot(x.Num, y.Num))
			}
		}
		// go through bit-vectors of the type's width
		w := 64
		if hi != nil {
			w = hi.BitLen()
			if lo.Sign() < 0 {
				w++
			}
		}
		bx, by := Int2BV(x, w), Int2BV(y, w)
		var r *Term
		switch op {
		case token.AND:
			r = BV2("bvand", bx, by)
		case token.OR:
			r = BV2("bvor", bx, by)
		case token.XOR:
			r = BV2("bvxor", bx, by)
		default:
			r = BV2("bvand", bx, BVNot(by))
		}
		n := BV2Int(r)
		if lo != nil && lo.Sign() < 0 {
			return wrapInt(n, lo, hi, false)
		}
		return n
	}
	unsup("binop %s", op)
	return nil
}

func (e *Exec) equal(st *State, xv, yv Val, xt, yt types.Type) *Term {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi != yi {
		if xi {
			return And(e.hasType(xv.(*Term), yt), e.equal(st, e.unIface(st, xv.(*Term), yt), yv, yt, yt))
		}
		return e.equal(st, yv, xv, yt, xt)
	}
	switch x := xv.(type) {
	case *Term:
		y := yv.(*Term)
		if _, ok := xt.Underlying().(*types.Slice); ok {
			// only comparison with nil is legal
			if y == NilSlice() {
				return Eq(Sel("s_base", x), NilAddr())
			}
			if x == NilSlice() {
				return Eq(Sel("s_base", y), NilAddr())
			}
		}
		if xi {
			if y == NilIface() {
				return Eq(Sel("i_tag", x), IntT(0))
			}
			if x == NilIface() {
				return Eq(Sel("i_tag", y), IntT(0))
			}
		}
		return Eq(x, y)
	case *StructV:
		y := yv.(*StructV)
		var cs []*Term
		switch u := xt.Underlying().(type) {
		case *types.Struct:
			for i := range x.F {
				ft := u.Field(i).Type()
				cs = append(cs, e.equal(st, x.F[i], y.F[i], ft, ft))
			}
		case *types.Array:
			for i := range x.F {
				cs = append(cs, e.equal(st, x.F[i], y.F[i], u.Elem(), u.Elem()))
			}
		}
		return And(cs...)
	}
	unsup("equality of %s", xt)
	return nil
}

// ---- iteration ----

func (e *Exec) next(fr *Frame, st *State, x *ssa.Next) Val {
	it := fr.iter[x.Iter.(*ssa.Range)]
	if x.IsString {
		n := StrLen(it.str)
		ok := Lt(it.pos, n)
		b := Ord(StrAt(it.str, it.pos))
		e.typeFacts(b, types.Typ[types.Byte], nil)
		r := e.fresh("rune", SInt)
		w := e.fresh("runew", SInt)
		e.addFactG(Imp(ok, And(
			Imp(Lt(b, IntT(128)), And(Eq(r, b), Eq(w, IntT(1)))),
			Imp(Le(IntT(128), b), And(Le(IntT(128), r), Le(r, IntT(0x10ffff)))),
			Le(IntT(1), w), Le(w, IntT(4)), Le(Add(it.pos, w), n))))
		if it.str.IsStr() && it.pos.IsInt() && it.pos.Int() < int64(len(it.str.Name)) && it.str.Name[it.pos.Int()] < 128 {
			r, w = IntT(int64(it.str.Name[it.pos.Int()])), IntT(1)
		}
		cur := it.pos
		nit := *it
		nit.pos = Ite(ok, Add(it.pos, w), it.pos)
		if ok.IsTrue() {
			nit.pos = Add(it.pos, w)
		}
		indexVars[w] = true
		fr.iter[x.Iter.(*ssa.Range)] = &nit
		return TupleV{ok, cur, r}
	}
	mi := it.mi
	var ok, k *Term
	if it.forced != nil {
		ok, k = True(), it.forced
	} else {
		ok = e.fresh("mapok", SBool)
		k = e.fresh("mapkey", mi.ks)
		e.typeFacts(k, mi.kt, st.alloc)
		if !it.dirty {
			kv := NewBVar("vk", mi.ks)
			e.addFactG(And(
				Imp(ok, And(Select(it.dom, k), Not(Select(it.visited, k)))),
				Imp(Not(ok), Forall([]*Term{kv}, Imp(Select(it.dom, kv), Select(it.visited, kv))))))
		} else if cur := e.mapDom(st, mi, it.m); it.delOnly {
			// a key that was there before the loop is visited unless it was removed first
			kv := NewBVar("vk", mi.ks)
			e.addFactG(And(
				Forall([]*Term{kv}, Imp(Select(cur, kv), Select(it.dom, kv))),
				Imp(ok, And(Select(it.dom, k), Select(cur, k), Not(Select(it.visited, k)))),
				Imp(Not(ok), Forall([]*Term{kv}, Imp(Select(cur, kv), Select(it.visited, kv))))))
		} else {
			e.addFactG(Imp(ok, Select(cur, k)))
		}
		nit := *it
		nit.visited = Ite(ok, Store(it.visited, k, True()), it.visited)
		fr.iter[x.Iter.(*ssa.Range)] = &nit
	}
	var leaves []*Term
	for i, vk := range mi.vals {
		y := Select(Select(e.memGet(st, vk), it.m), k)
		e.loadFacts(y, mi.vts[i])
		leaves = append(leaves, y)
	}
	var v Val
	if len(mi.vts) == 0 {
		v = e.zero(mi.vt)
	} else {
		v = e.unflatten(mi.vt, leaves)
	}
	return TupleV{ok, e.unpackKey(mi.kt, k), v}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

var dryDepth int

func (e *Exec) runLoop(fr *Frame, set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, in []edge) []edge {
	if out, ok := e.tryUnroll(fr, set, header, in); ok {
		return out
	}
	return e.invLoop(fr, set, header, in)
}

func headerIf(header *ssa.BasicBlock, set map[*ssa.BasicBlock]bool) *ssa.If {
	i, ok := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if set[header.Succs[0]] && set[header.Succs[1]] {
		return nil
	}
	return i
}

const maxUnroll = 300

func (e *Exec) tryUnroll(fr *Frame, set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, in []edge) ([]edge, bool) {
	hif := headerIf(header, set)
	if hif == nil {
		return nil, false
	}
	for _, ed := range in {
		_ = ed
	}
	sn := e.snap()
	nr, nd := len(fr.rets), len(fr.defers)
	iters := copyIter(fr.iter)
	var exits []edge
	// clone incoming states: execution mutates them
	cur := cloneEdges(in)
	fail := func() ([]edge, bool) {
		e.restore(sn)
		fr.rets = fr.rets[:nr]
		fr.defers = fr.defers[:nd]
		fr.iter = iters
		return nil, false
	}
	for n := 0; ; n++ {
		// evaluate the header test first
		sn2 := e.snap()
		e.quiet++
		it2 := copyIter(fr.iter)
		env2 := map[ssa.Value]Val{}
		for _, in := range header.Instrs {
			if v, ok := in.(ssa.Value); ok {
				env2[v] = fr.env[v] // the back edge's values are computed in the header itself
			}
		}
		st := e.enter(fr, header, cloneEdges(cur))
		e.runBlock(fr, header, st)
		c := e.val(fr, hif.Cond).(*Term)
		for v, x := range env2 {
			if x == nil {
				delete(fr.env, v)
			} else {
				fr.env[v] = x
			}
		}
		e.quiet--
		e.restore(sn2)
		fr.iter = it2
		if !c.IsTrue() && !c.IsFalse() {
			return fail()
		}
		out := e.runRegion(fr, set, header, cur)
		cur = nil
		for _, ed := range out {
			if ed.to == header {
				cur = append(cur, ed)
			} else {
				exits = append(exits, ed)
			}
		}
		if len(cur) == 0 {
			return exits, true
		}
		if n >= maxUnroll {
			return fail()
		}
	}
}

func cloneEdges(in []edge) []edge {
	var out []edge
	for _, ed := range in {
		out = append(out, edge{ed.from, ed.to, ed.st.clone()})
	}
	return out
}

func copyIter(m map[*ssa.Range]*iterState) map[*ssa.Range]*iterState {
	r := map[*ssa.Range]*iterState{}
	for k, v := range m {
		c := *v
		r[k] = &c
	}
	return r
}

type cand struct {
	label string
	user  bool
	term  *Term                                         // over fresh phi leaves
	eval  func(st *State, get func(*ssa.Phi) Val) *Term // user invariants
	pos   string
	key   string
}

var symNum = regexp.MustCompile(`![0-9]+`)

// askAll decides several goals side by side.
func (e *Exec) askAll(gs []*Term, cs []*cand) []bool {
	res := make([]bool, len(gs))
	var wg sync.WaitGroup
	sem := make(chan bool, 4)
	for i := range gs {
		i := i
		p := e.askPrep(gs[i])
		if p.done {
			res[i] = p.res
			continue
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer wg.Done()
			res[i] = e.askRun(p, cs[i].limit())
			<-sem
		}()
	}
	wg.Wait()
	return res
}

// mentionsFrom reports whether t mentions a symbol declared at index >= n (and < hi if hi>0).
func mentionsRange(t *Term, lo, hi int, cache map[*Term]bool) bool {
	if r, ok := cache[t]; ok {
		return r
	}
	r := false
	if t.Op == "var" || t.Op == "app" {
		if i, ok := DB.index[t.Name]; ok && i >= lo && (hi < 0 || i < hi) {
			r = true
		}
	}
	if !r {
		for _, a := range t.Args {
			if mentionsRange(a, lo, hi, cache) {
				r = true
				break
			}
		}
	}
	cache[t] = r
	return r
}

// weaken drops the parts of a condition for which bad holds, never strengthening it.
func weaken(t *Term, bad func(*Term) bool) *Term {
	switch {
	case t.Op == "and":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, weaken(a, bad))
		}
		return And(r...)
	case t.Op == "or":
		var r []*Term
		for _, a := range t.Args {
			r = append(r, weaken(a, bad))
		}
		return Or(r...)
	case t.Op == "=>":
		return Or(weaken(Not(t.Args[0]), bad), weaken(t.Args[1], bad))
	case t.Op == "not" && t.Args[0].Op == "and":
		var r []*Term
		for _, a := range t.Args[0].Args {
			r = append(r, weaken(Not(a), bad))
		}
		return Or(r...)
	case t.Op == "not" && t.Args[0].Op == "or":
		var r []*Term
		for _, a := range t.Args[0].Args {
			r = append(r, weaken(Not(a), bad))
		}
		return And(r...)
	case t.Op == "ite" && t.Sort == SBool && !bad(t.Args[0]):
		return Ite(t.Args[0], weaken(t.Args[1], bad), weaken(t.Args[2], bad))
	}
	if bad(t) {
		return True()
	}
	return t
}

func (e *Exec) invLoop(fr *Frame, set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, in []edge) []edge {
	st0 := e.enter(fr, header, in)
	if st0.guard.IsFalse() {
		return nil
	}
	var phis []*ssa.Phi
	for _, i := range header.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	init := map[*ssa.Phi]Val{}
	for _, p := range phis {
		init[p] = fr.env[p]
	}
	n0 := len(DB.order)
	iters0 := copyIter(fr.iter)
	var ranges []*ssa.Range
	for b := range set {
		for _, i := range b.Instrs {
			if nx, ok := i.(*ssa.Next); ok {
				r := nx.Iter.(*ssa.Range)
				if !set[r.Block()] {
					ranges = append(ranges, r)
				}
			}
		}
	}
	alloc1 := e.fresh("alloc", SInt)
	stack0 := e.nstack
	DB.lower[alloc1] = st0.alloc
	e.addFactRaw(e.closeOver(Imp(e.fullGuard(st0.guard), Le(st0.alloc, alloc1))))

	fixed := map[*ssa.Phi]bool{}
	fresh := map[*ssa.Phi]Val{}
	curState = st0
	for _, p := range phis {
		e.noOff0 = true
		fresh[p] = e.sym(phiName(p), p.Type(), alloc1)
		e.noOff0 = false
		for _, t := range flatten(fresh[p]) {
			if t.Sort == SInt && isIntType(p.Type()) {
				indexVars[t] = true
			}
		}
	}
	events := map[string][]excl{}
	mems := map[string]*Term{} // havocked memory

	setup := func() *State {
		st := st0.clone()
		st.alloc = alloc1
		for k, m := range mems {
			st.mem[k] = m
		}
		for _, p := range phis {
			if fixed[p] {
				fr.env[p] = init[p]
			} else {
				fr.env[p] = fresh[p]
			}
		}
		fr.iter = copyIter(iters0)
		return st
	}
	iterVis := map[*ssa.Range]*Term{}
	inserts := map[string][]excl{} // the events other than removals of map keys
	setIter := func() {
		for _, r := range ranges {
			it := fr.iter[r]
			if it == nil {
				continue
			}
			if it.mi != nil {
				if iterVis[r] == nil {
					iterVis[r] = e.fresh("visited", SArr(it.mi.ks, SBool))
				}
				it.visited = iterVis[r]
				it.delOnly = true
				for _, x := range events[it.mi.dom] {
					if x.rel(it.m) != relNE {
						it.dirty = true
					}
				}
				for _, x := range inserts[it.mi.dom] {
					if x.rel(it.m) != relNE {
						it.delOnly = false
					}
				}
			} else {
				if iterVis[r] == nil {
					p := e.fresh("strpos", SInt)
					indexVars[p] = true
					iterVis[r] = p
				}
				it.pos = iterVis[r]
			}
		}
	}
	setIter()
	iterFacts := func() {
		for _, r := range ranges {
			it := fr.iter[r]
			if it == nil {
				continue
			}
			if it.mi == nil {
				e.addFactG(And(Le(IntT(0), it.pos), Le(it.pos, StrLen(it.str))))
			} else if !it.dirty || it.delOnly {
				kv := NewBVar("vk", it.mi.ks)
				e.addFactG(Forall([]*Term{kv}, Imp(Select(it.visited, kv), Select(it.dom, kv))))
			}
		}
	}
	body := func(st *State) []edge {
		return e.runBody(fr, set, header, st)
	}
	// ---- dry runs: find what the loop changes
	nr, nd := len(fr.rets), len(fr.defers)
	backVals := map[*ssa.Phi][]Val{}
	for pass := 0; ; pass++ {
		if pass > 8 {
			unsup("loop frame does not stabilise in %s", fr.fn)
		}
		sn := e.snap()
		var log []writeEvent
		e.writeLogs = append(e.writeLogs, &log)
		e.quiet++
		dryDepth++
		st := setup()
		setIter()
		curState = st
		out := body(st)
		for _, p := range phis {
			backVals[p] = nil
		}
		for _, ed := range out {
			if ed.to == header {
				for _, p := range phis {
					backVals[p] = append(backVals[p], e.phiEdge(fr, p, header, ed.from))
				}
			}
		}
		dryDepth--
		e.quiet--
		e.writeLogs = e.writeLogs[:len(e.writeLogs)-1]
		e.restore(sn)
		fr.rets = fr.rets[:nr]
		if len(fr.defers) > nd {
			unsup("defer inside a loop in %s", fr.fn)
		}
		changed := false
		for _, p := range phis {
			if fixed[p] {
				continue
			}
			inv := true
			for _, v := range backVals[p] {
				if !sameVal(v, fresh[p]) && !sameVal(v, init[p]) {
					inv = false
				}
			}
			if inv && len(backVals[p]) > 0 {
				fixed[p] = true
				changed = true
			}
		}
		for _, w := range log {
			g := e.generalise(w.ex, n0, alloc1, stack0)
			if g == nil {
				// fresh objects only: memory still changes above the frame mark
				if _, ok := events[w.key]; !ok {
					events[w.key] = []excl{}
					changed = true
				}
				continue
			}
			if !w.del {
				inserts[w.key] = append(inserts[w.key], *g)
			}
			dup := false
			for _, x := range events[w.key] {
				if x == *g || x == (excl{}) {
					dup = true
				}
			}
			if !dup {
				events[w.key] = append(events[w.key], *g)
				changed = true
			}
		}
		if !changed {
			break
		}
		mems = map[string]*Term{}
		for k, ex := range events {
			prev := e.memGet(st0, k)
			m := e.fresh("M_"+k, prev.Sort)
			e.memVars[m] = &memVar{key: k, mark: alloc1, prev: prev, prevMk: st0.alloc, exc: ex}
			addrMarks[m] = alloc1
			mems[k] = m
		}
	}
	// propagate the writes to enclosing logs
	for k, ex := range events {
		if len(ex) == 0 {
			// only fresh objects
			e.log(k, &excl{addr: MkAddr(alloc1, PNil())})
		}
		for i := range ex {
			x := ex[i]
			e.log(k, &x)
		}
	}
	// frame facts
	curState = st0
	for _, k := range sortedKeys(events) {
		m := mems[k]
		mv := e.memVars[m]
		a := NewBVar("fa", SAddr)
		var notEx []*Term
		for _, x := range mv.exc {
			notEx = append(notEx, Not(x.term(a)))
		}
		lhs := mk(&Term{Op: "select", Args: []*Term{m, a}, Sort: elemSort(m)})
		rhs := mk(&Term{Op: "select", Args: []*Term{mv.prev, a}, Sort: elemSort(m)})
		obj := Sel("a_obj", a)
		below := mk(&Term{Op: "not", Args: []*Term{mk(&Term{Op: "<=", Args: []*Term{mv.prevMk, obj}, Sort: SBool})}, Sort: SBool})
		e.addFactG(Forall([]*Term{a}, Imp(And(append(notEx, below)...), Eq(lhs, rhs)), []*Term{lhs}))
	}
	// ---- candidates
	varying := func(t *Term, extra map[*Term]bool) bool { return mentionsRange(t, n0, -1, extra) }
	var cands []*cand
	if dryDepth == 0 {
		cands = e.autoCands(fr, set, header, phis, fixed, init, fresh, backVals, n0, varying)
		uc := e.userCands(fr, header, phis)
		hasUser := len(uc) > 0
		cands = append(cands, uc...)
		if fr.lost == nil {
			fr.lost = map[string]bool{}
		}
		{
			// a candidate lost in an earlier round of an enclosing loop, which assumed more, stays lost
			var keep []*cand
			for i, c := range cands {
				c.key = fmt.Sprintf("%d/%d/%d/%s", header.Index, len(e.binders), i, c.label)
				if c.term != nil {
					c.key += "/" + symNum.ReplaceAllString(c.term.String(), "")
				}
				if !fr.lost[c.key] {
					keep = append(keep, c)
				}
			}
			cands = keep
		}
		getInit := func(p *ssa.Phi) Val { return init[p] }
		sub := func(get func(*ssa.Phi) Val) map[*Term]*Term {
			m := map[*Term]*Term{}
			for _, p := range phis {
				if fixed[p] {
					continue
				}
				fl := flatten(fresh[p])
				for i, t := range flatten(get(p)) {
					m[fl[i]] = t
				}
			}
			return m
		}
		value := func(c *cand, st *State, get func(*ssa.Phi) Val) *Term {
			if c.eval != nil {
				return c.eval(st, get)
			}
			return Subst(c.term, sub(get))
		}
		g0 := func(t *Term, st *State) *Term { return e.closeOver(Imp(e.fullGuard(st.guard), t)) }
		// initiation
		fr.iter = copyIter(iters0)
		var ok []*cand
		var initTerms []*Term
		for _, c := range cands {
			curState = st0
			t := value(c, st0, getInit)
			if t == nil {
				continue
			}
			initTerms = append(initTerms, t)
			ok = append(ok, c)
		}
		if len(ok) > 0 && !e.ask(g0(And(initTerms...), st0), 5) {
			var keep []*cand
			var gs []*Term
			for i := range ok {
				gs = append(gs, g0(initTerms[i], st0))
			}
			res := e.askAll(gs, ok)
			for i, c := range ok {
				if res[i] {
					keep = append(keep, c)
					continue
				}
				fr.lost[c.key] = true
				if c.user {
					e.v.notef("invariant %s of %s does not hold on entry", c.label, fr.fn)
				}
			}
			ok = keep
		}
		cands = ok
		// preservation
		for round := 0; len(cands) > 0 && round < 12; round++ {
			sn := e.snap()
			e.quiet++
			st := setup()
			setIter()
			curState = st
			iterFacts()
			getFresh := func(p *ssa.Phi) Val { return fr.env[p] }
			for _, c := range cands {
				curState = st
				e.addFactG(value(c, st, getFresh))
			}
			if !hasUser {
				e.summary(fr, set, header, phis, fixed, init, fresh, backVals, ranges, n0, st, setup, setIter)
			}
			out := body(st)
			var backs []edge
			for _, ed := range out {
				if ed.to == header {
					backs = append(backs, ed)
				}
			}
			var keep []*cand
			if len(backs) == 0 {
				keep = cands
			} else {
				mst := e.enter(fr, header, backs)
				nv := map[*ssa.Phi]Val{}
				for _, p := range phis {
					nv[p] = fr.env[p]
				}
				getBack := func(p *ssa.Phi) Val { return nv[p] }
				var ts []*Term
				for _, c := range cands {
					curState = mst
					ts = append(ts, value(c, mst, getBack))
				}
				if e.ask(g0(And(ts...), mst), 5) {
					keep = cands
				} else {
					var gs []*Term
					for i := range cands {
						gs = append(gs, g0(ts[i], mst))
					}
					res := e.askAll(gs, cands)
					for i, c := range cands {
						if res[i] {
							keep = append(keep, c)
							continue
						}
						fr.lost[c.key] = true
						if c.user {
							e.v.notef("invariant %s of %s is not preserved", c.label, fr.fn)
						}
					}
				}
			}
			e.quiet--
			e.restore(sn)
			fr.rets = fr.rets[:nr]
			stable := len(keep) == len(cands)
			cands = keep
			if stable {
				break
			}
		}
		// ---- final: assume invariants
		st := setup()
		setIter()
		curState = st
		iterFacts()
		for _, c := range cands {
			curState = st
			t := value(c, st, func(p *ssa.Phi) Val { return fr.env[p] })
			e.addFactG(t)
			if e.quiet == 0 {
				e.v.invariants++
				if c.user {
					e.obls = append(e.obls, &Obligation{Label: "loop invariant " + c.label, Kind: "invariant", Pos: e.posOf(header.Instrs[0].Pos()), Func: fr.fn.String(), Goal: True(), Result: "proved", Solver: "z3"})
				}
			}
		}
		if !hasUser {
			e.summary(fr, set, header, phis, fixed, init, fresh, backVals, ranges, n0, st, setup, setIter)
		}
		fr.rets = fr.rets[:nr]
	}
	st := setup()
	setIter()
	curState = st
	if dryDepth > 0 {
		iterFacts()
	}
	out := body(st)
	var exits []edge
	for _, ed := range out {
		if ed.to != header {
			exits = append(exits, ed)
		}
	}
	return exits
}

func (c *cand) limit() int {
	if c.user {
		return 10
	}
	return 3
}

func elemSort(m *Term) Sort { _, v := m.Sort.arrParts(); return v }

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

func sameVal(a, b Val) bool {
	x, y := flatten(a), flatten(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

// runBody executes one iteration starting at the header (phis already set).
func (e *Exec) runBody(fr *Frame, set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, st *State) []edge {
	var out []edge
	heads := e.runBlock(fr, header, st)
	rest := map[*ssa.BasicBlock]bool{}
	for b := range set {
		if b != header {
			rest[b] = true
		}
	}
	incoming := map[*ssa.BasicBlock][]edge{}
	push := func(ed edge) {
		if ed.st.guard.IsFalse() {
			return
		}
		if rest[ed.to] {
			incoming[ed.to] = append(incoming[ed.to], ed)
		} else {
			out = append(out, ed)
		}
	}
	for _, ed := range heads {
		push(ed)
	}
	if len(rest) == 0 {
		return out
	}
	// order the remaining blocks topologically from the header's successors
	order := sccOrder(set, header)
	for _, scc := range order {
		if len(scc) == 1 && scc[0] == header {
			continue
		}
		if len(scc) == 1 && !selfLoop(scc[0]) {
			b := scc[0]
			eds := incoming[b]
			if len(eds) == 0 {
				continue
			}
			s := e.enter(fr, b, eds)
			for _, ed := range e.runBlock(fr, b, s) {
				push(ed)
			}
			continue
		}
		s := map[*ssa.BasicBlock]bool{}
		var h *ssa.BasicBlock
		for _, b := range scc {
			s[b] = true
		}
		for _, b := range scc {
			if len(incoming[b]) > 0 {
				if h != nil {
					unsup("irreducible loop in %s", fr.fn)
				}
				h = b
			}
		}
		if h == nil {
			continue
		}
		for _, ed := range e.runLoop(fr, s, h, incoming[h]) {
			push(ed)
		}
	}
	return out
}

// generalise an address written in the loop to something loop-invariant; nil: only objects made in the loop.
func (e *Exec) generalise(x *excl, n0 int, alloc1 *Term, stack0 int64) *excl {
	if x == nil {
		return &excl{}
	}
	cache := map[*Term]bool{}
	vary := func(t *Term) bool { return mentionsRange(t, n0, -1, cache) || len(t.bv) > len(e.binders) }
	switch {
	case x.addr != nil:
		if x.addr.Op == "ite" {
			if !vary(x.addr) {
				return x
			}
			return &excl{}
		}
		obj := Sel("a_obj", x.addr)
		if madeSince(alloc1, stack0, obj) {
			return nil
		}
		if !vary(x.addr) {
			return x
		}
		p := Sel("a_path", x.addr)
		if p.Op == "ctor" {
			switch p.Name {
			case "pfld":
				if !vary(obj) {
					base := MkAddr(obj, p.Args[0])
					_ = base
				}
				return &excl{fld: p.Args[1].Int()}
			case "pelt":
				base := MkAddr(obj, p.Args[0])
				if !vary(base) {
					return &excl{base: base}
				}
				return &excl{elts: true}
			}
		}
		if !vary(obj) {
			return &excl{obj: obj}
		}
		return &excl{}
	case x.base != nil:
		if madeSince(alloc1, stack0, Sel("a_obj", x.base)) {
			return nil
		}
		if !vary(x.base) {
			return x
		}
		return &excl{elts: true}
	case x.obj != nil:
		if madeSince(alloc1, stack0, x.obj) {
			return nil
		}
		if !vary(x.obj) {
			return x
		}
		return &excl{}
	}
	return x
}

func (e *Exec) autoCands(fr *Frame, set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, phis []*ssa.Phi, fixed map[*ssa.Phi]bool, init, fresh map[*ssa.Phi]Val, back map[*ssa.Phi][]Val, n0 int, varying func(*Term, map[*Term]bool) bool) []*cand {
	var out []*cand
	cache := map[*Term]bool{}
	leaf := map[*Term]bool{}
	for _, p := range phis {
		if !fixed[p] {
			for _, t := range flatten(fresh[p]) {
				leaf[t] = true
			}
		}
	}
	// only phi leaves vary in t
	var okTerm func(t *Term) bool
	okTerm = func(t *Term) bool {
		if leaf[t] {
			return true
		}
		if !varying(t, cache) {
			return true
		}
		if t.Op == "var" || t.Op == "app" || len(t.Args) == 0 || t.Op == "select" {
			return false
		}
		for _, a := range t.Args {
			if !okTerm(a) {
				return false
			}
		}
		return true
	}
	add := func(label string, t *Term) {
		if !t.IsTrue() && !t.IsFalse() {
			out = append(out, &cand{label: label, term: t})
		}
	}
	var ints []*ssa.Phi
	var slices []*ssa.Phi
	for _, p := range phis {
		if fixed[p] {
			continue
		}
		f, ok := fresh[p].(*Term)
		if !ok {
			continue
		}
		if f.Sort == SInt && isIntType(p.Type()) {
			ints = append(ints, p)
			iv := init[p].(*Term)
			up, down := true, true
			for _, b := range back[p] {
				bt := b.(*Term)
				for _, l := range iteLeaves(bt) {
					bb, c := splitAdd(l)
					if bb != f || c.Sign() < 0 {
						up = false
					}
					if bb != f || c.Sign() > 0 {
						down = false
					}
				}
			}
			if up {
				add("counter not below its start", Le(iv, f))
			}
			if down {
				add("counter not above its start", Le(f, iv))
			}
		}
		if f.Sort == SSlice {
			slices = append(slices, p)
		}
	}
	// header test
	var conds []*Term
	for b := range set {
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && (b == header || b.Dominates(header) || true) {
			if v, ok := fr.env[i.Cond]; ok && (!set[b.Succs[0]] || !set[b.Succs[1]]) {
				c := v.(*Term)
				if !set[b.Succs[0]] {
					c = Not(c)
				}
				conds = append(conds, conjs(c)...)
			}
		}
	}
	for _, c := range conds {
		a := c
		neg := false
		if a.Op == "not" {
			a, neg = a.Args[0], true
		}
		if a.Op == "or" && !neg {
			for _, x := range a.Args {
				conds2 := x
				e.boundCand(conds2, okTerm, leaf, add)
			}
			continue
		}
		e.boundCand(c, okTerm, leaf, add)
	}
	for i, p := range ints {
		for _, q := range ints[i+1:] {
			fp, fq := fresh[p].(*Term), fresh[q].(*Term)
			d := Sub(init[p].(*Term), init[q].(*Term))
			if !varying(d, cache) {
				add("counters move together", Eq(Sub(fp, fq), d))
			}
		}
		for _, s := range slices {
			if len(slices)*len(ints) > 12 {
				break
			}
			fp, fs := fresh[p].(*Term), Sel("s_len", fresh[s].(*Term))
			d := Sub(Sel("s_len", init[s].(*Term)), init[p].(*Term))
			if !varying(d, cache) {
				add("length follows counter", Eq(Sub(fs, fp), d))
				add("length bounded by counter", Le(fs, Add(fp, d)))
			}
		}
	}
	return out
}

func (e *Exec) boundCand(c *Term, okTerm func(*Term) bool, leaf map[*Term]bool, add func(string, *Term)) {
	neg := false
	a := c
	if a.Op == "not" {
		a, neg = a.Args[0], true
	}
	if a.Op == "=" && neg && a.Args[0].Sort == SInt {
		for k := 0; k < 2; k++ {
			x, y := a.Args[k], a.Args[1-k]
			if b, _ := splitAdd(x); b != nil && leaf[b] && okTerm(y) {
				add("counter bounded", Le(x, y))
			}
		}
		return
	}
	if a.Op != "<=" {
		return
	}
	x, y := a.Args[0], a.Args[1]
	if neg { // y < x
		x, y = y, x
	}
	// loop continues while x <= y (or x < y)
	bx, _ := splitAdd(x)
	by, _ := splitAdd(y)
	if !okTerm(x) || !okTerm(y) {
		return
	}
	if bx != nil && leaf[bx] {
		if neg {
			add("counter bounded", Le(x, y))
		} else {
			add("counter bounded", Le(x, Add(y, IntT(1))))
		}
	} else if by != nil && leaf[by] {
		if neg {
			add("counter bounded", Le(x, y))
		} else {
			add("counter bounded", Le(Add(x, IntT(-1)), y))
		}
	}
}

func iteLeaves(t *Term) []*Term {
	if t.Op == "ite" {
		return append(iteLeaves(t.Args[1]), iteLeaves(t.Args[2])...)
	}
	return []*Term{t}
}

// summary adds, for search-like loops, that every earlier iteration took the back edge.
func (e *Exec) summary(fr *Frame, set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, phis []*ssa.Phi, fixed map[*ssa.Phi]bool, init, fresh map[*ssa.Phi]Val, back map[*ssa.Phi][]Val, ranges []*ssa.Range, n0 int, st *State, setup func() *State, setIter func()) {
	if len(e.binders) > 2 {
		return
	}
	for _, p := range phis {
		if fixed[p] || !isIntType(p.Type()) {
			continue
		}
		f, ok := fresh[p].(*Term)
		if !ok || f.Sort != SInt || len(back[p]) == 0 {
			continue
		}
		var step *big.Int
		good := true
		for _, b := range back[p] {
			bb, c := splitAdd(b.(*Term))
			if bb != f || (step != nil && step.Cmp(c) != 0) {
				good = false
				break
			}
			step = c
		}
		if !good || step.CmpAbs(big.NewInt(1)) != 0 {
			continue
		}
		iv := init[p].(*Term)
		j := NewBVar("j", SInt)
		indexVars[j] = true
		var rng *Term
		if step.Sign() > 0 {
			rng = And(Le(iv, j), Lt(j, f))
		} else {
			rng = And(Le(j, iv), Lt(f, j))
		}
		at := j
		if step.Sign() > 0 && iv.IsInt() && iv.Int() == -1 {
			// range loop: number the iterations from 0
			at = Sub(j, IntT(1))
			rng = And(Le(IntT(0), j), Le(j, f))
		}
		e.summaryRun(fr, set, header, n0, j, rng, setup, setIter, func() { fr.env[p] = at })
		break
	}
	for _, r := range ranges {
		it := iterOf(fr, r)
		if it == nil || it.mi == nil || it.dirty {
			continue
		}
		k := NewBVar("k", it.mi.ks)
		vis := it.visited
		rg := r
		e.summaryRun(fr, set, header, n0, k, And(Select(vis, k), Select(it.dom, k)), setup, setIter, func() {
			c := *fr.iter[rg]
			c.forced = k
			fr.iter[rg] = &c
		})
	}
	// restore environment for the caller's run
	s2 := setup()
	setIter()
	_ = s2
	curState = st
}

func iterOf(fr *Frame, r *ssa.Range) *iterState { return fr.iter[r] }

func (e *Exec) summaryRun(fr *Frame, set map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, n0 int, j, rng *Term, setup func() *State, setIter func(), prep func()) {
	sn := e.snap()
	nr := len(fr.rets)
	n1 := len(DB.order)
	e.quiet++
	st := setup()
	setIter()
	prep()
	base := st.guard
	// everything but j varies: the other phis keep their (varying) constants
	e.binders = append(e.binders, j)
	st.guard = And(base, rng)
	curState = st
	failed := ""
	var out []edge
	nst, nout, nbind, nmode, nlog, q, dd := len(e.stack), len(e.outer), len(e.binders), len(e.mode), len(e.writeLogs), e.quiet, dryDepth
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					failed = u.msg
					e.stack, e.outer, e.binders, e.mode, e.writeLogs = e.stack[:nst], e.outer[:nout], e.binders[:nbind], e.mode[:nmode], e.writeLogs[:nlog]
					e.quiet, dryDepth = q, dd
					return
				}
				panic(r)
			}
		}()
		out = e.runBody(fr, set, header, st)
	}()
	e.binders = e.binders[:len(e.binders)-1]
	e.quiet--
	facts := e.restore(sn)
	fr.rets = fr.rets[:nr]
	if failed != "" {
		return
	}
	var gs []*Term
	for _, ed := range out {
		if ed.to == header {
			gs = append(gs, relGuard(ed.st.guard, And(base, rng)))
		}
	}
	cache := map[*Term]bool{}
	bad := func(t *Term) bool { return mentionsRange(t, n0, n1, cache) }
	G := weaken(Or(gs...), bad)
	if G.IsTrue() {
		return
	}
	// keep the facts that define the symbols of G and mention nothing loop-varying (the range guard aside)
	rngSet := map[*Term]bool{}
	for _, c := range conjs(rng) {
		rngSet[c] = true
	}
	for _, f := range facts {
		x := f
		var bound []*Term
		for x.Op == "forall" {
			bound = append(bound, x.Bound...)
			x = x.Args[0]
		}
		// strip guard parts that only say "j in range" (weakening the antecedent would strengthen the fact,
		// but the range guard is re-added below)
		y := x
		if x.Op == "=>" {
			var ant []*Term
			for _, c := range conjs(x.Args[0]) {
				if !rngSet[c] {
					ant = append(ant, c)
				}
			}
			y = Imp(And(ant...), x.Args[1])
		}
		if bad(y) {
			continue
		}
		e.addFactRaw(f)
	}
	st2 := setup()
	curState = st2
	e.addFactG(Forall([]*Term{j}, Imp(rng, G), patFor(G, j)...))
}

// patFor picks triggers mentioning the bound variable.
func patFor(t *Term, j *Term) [][]*Term {
	return nil
}

// userCands evaluates //gocv:invariant functions for this loop.
func (e *Exec) userCands(fr *Frame, header *ssa.BasicBlock, phis []*ssa.Phi) []*cand {
	var out []*cand
	for _, inv := range e.v.invariantsFor(fr.fn) {
		inv := inv
		fn := inv.fn
		if inv.depth != 0 && inv.depth != loopDepth(header) {
			continue
		}
		if inv.loop != 0 {
			if i, n := loopNumber(header); n == inv.loops && i != inv.loop {
				continue
			}
		}
		// resolve parameters: by name; a renamed variable is looked for among those of its type
		type src struct {
			phi   *ssa.Phi
			val   ssa.Value
			deref bool
			plus1 bool
		}
		combos := [][]src{nil}
		for _, prm := range fn.Params {
			var opts []src
			for _, p := range phis {
				if phiName(p) == prm.Name() && types.Identical(p.Type(), prm.Type()) {
					opts = []src{{phi: p}}
				}
			}
			if opts == nil && prm.Name() == "n" {
				// number of completed iterations: the induction phi (range index + 1)
				for _, p := range phis {
					if p.Comment == "rangeindex" {
						opts = []src{{phi: p, deref: true}}
					}
				}
			}
			if opts == nil && len(prm.Name()) == 2 && prm.Name()[0] == 'n' && prm.Name()[1] >= '1' && prm.Name()[1] <= '9' {
				// completed iterations of the enclosing loop at that depth
				d := int(prm.Name()[1] - '0')
				for _, b := range fr.fn.Blocks {
					if !b.Dominates(header) || loopDepth(b) != d {
						continue
					}
					for _, i := range b.Instrs {
						if p, ok := i.(*ssa.Phi); ok && p.Comment == "rangeindex" {
							if b == header {
								opts = []src{{phi: p, deref: true}}
							} else if _, ok := fr.env[p]; ok {
								opts = []src{{val: p, plus1: true}}
							}
						}
					}
				}
				if opts == nil {
					combos = nil
				}
			}
			if opts == nil {
				if v := e.findNamed(fr, header, prm.Name(), prm.Type()); v != nil {
					o := src{val: v}
					if _, isAlloc := v.(*ssa.Alloc); isAlloc && !types.Identical(v.Type(), prm.Type()) {
						o.deref = true
					}
					opts = []src{o}
				}
			}
			if opts == nil {
				for _, p := range phis {
					if types.Identical(p.Type(), prm.Type()) {
						opts = append(opts, src{phi: p})
					}
				}
				for _, p := range fr.fn.Params {
					if types.Identical(p.Type(), prm.Type()) {
						opts = append(opts, src{val: p})
					}
				}
			}
			var next [][]src
			for _, c := range combos {
				for _, o := range opts {
					if len(next) < 12 {
						next = append(next, append(append([]src{}, c...), o))
					}
				}
			}
			combos = next
		}
		for _, srcs := range combos {
			srcs := srcs
			hasPhi := false
			for _, i := range header.Instrs {
				if _, ok := i.(*ssa.Next); ok {
					hasPhi = true // it may speak about what the iteration has visited
				}
			}
			for i, s := range srcs {
				if s.phi != nil {
					hasPhi = true
				}
				switch fn.Params[i].Type().Underlying().(type) {
				case *types.Pointer, *types.Interface, *types.Map, *types.Slice:
					hasPhi = true // it may speak about memory the loop changes
				}
			}
			if !hasPhi {
				continue
			}
			out = append(out, &cand{label: inv.label, user: true, eval: func(st *State, get func(*ssa.Phi) Val) *Term {
				var args []Val
				for i, s := range srcs {
					switch {
					case s.phi != nil && s.deref:
						args = append(args, Add(get(s.phi).(*Term), IntT(1)))
					case s.phi != nil:
						args = append(args, get(s.phi))
					case s.plus1:
						args = append(args, Add(fr.env[s.val].(*Term), IntT(1)))
					case s.deref:
						args = append(args, e.load(st, fr.env[s.val].(*Term), fn.Params[i].Type()))
					default:
						args = append(args, e.val(fr, s.val))
					}
				}
				tmp := st.clone()
				g := tmp.guard
				old := e.invIter
				e.invIter = nil
				for _, i := range header.Instrs {
					if nx, ok := i.(*ssa.Next); ok {
						e.invIter = fr.iter[nx.Iter.(*ssa.Range)]
					}
				}
				e.quiet++
				r := e.runFunc(fn, args, nil, tmp)
				e.quiet--
				e.invIter = old
				curState = st
				st.alloc = tmp.alloc
				_ = g
				return r.(*Term)
			}})
		}
	}
	return out
}

// findNamed resolves a source variable name at a loop header.
func (e *Exec) findNamed(fr *Frame, header *ssa.BasicBlock, name string, t types.Type) ssa.Value {
	for _, p := range fr.fn.Params {
		if p.Name() == name && types.Identical(p.Type(), t) {
			return p
		}
	}
	for _, p := range fr.fn.FreeVars {
		if p.Name() == name {
			if types.Identical(p.Type(), t) {
				return p
			}
		}
	}
	var best ssa.Value
	alloc := false // the variable lives in memory: values loaded from it before the loop are stale
	for _, b := range fr.fn.Blocks {
		if b != header && !b.Dominates(header) {
			continue
		}
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Alloc:
				if x.Comment == name && types.Identical(x.Type().Underlying().(*types.Pointer).Elem(), t) {
					if _, ok := fr.env[x]; ok {
						best, alloc = x, true
					}
				}
			case *ssa.DebugRef:
				if !alloc && !x.IsAddr && x.Object() != nil && x.Object().Name() == name && types.Identical(x.X.Type(), t) {
					if _, ok := fr.env[x.X]; ok {
						best = x.X
					}
				}
			case *ssa.Phi:
				if b != header && x.Comment == name && types.Identical(x.Type(), t) {
					if _, ok := fr.env[x]; ok {
						best = x
					}
				}
			}
		}
	}
	return best
}

var _ = fmt.Sprint
var _ = strings.Join
var _ = token.NoPos

// loopDepth counts the loops of its function that contain the block.
func loopDepth(b *ssa.BasicBlock) int {
	n := 0
	for _, h := range b.Parent().Blocks {
		if !h.Dominates(b) {
			continue
		}
		in := map[*ssa.BasicBlock]bool{h: true}
		var work []*ssa.BasicBlock
		for _, p := range h.Preds {
			if h.Dominates(p) {
				work = append(work, p)
			}
		}
		if len(work) == 0 {
			continue
		}
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if in[x] {
				continue
			}
			in[x] = true
			work = append(work, x.Preds...)
		}
		if in[b] {
			n++
		}
	}
	return n
}

// loopNumber: which of the loops of its function the header is of, by position, and how many there are.
func loopNumber(header *ssa.BasicBlock) (int, int) {
	i, n := 0, 0
	for _, h := range header.Parent().Blocks {
		for _, p := range h.Preds {
			if h.Dominates(p) {
				n++
				if h.Index <= header.Index {
					i++
				}
				break
			}
		}
	}
	return i, n
}

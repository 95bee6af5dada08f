package main

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (e *Exec) call(fr *Frame, st *State, c *ssa.CallCommon, site ssa.Instruction) Val {
	var fv Val
	var args []Val
	if c.IsInvoke() {
		fv = e.val(fr, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fv = e.val(fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	return e.callWith(fr, st, c, fv, args, site)
}

func (e *Exec) callWith(fr *Frame, st *State, c *ssa.CallCommon, fv Val, args []Val, site ssa.Instruction) Val {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return e.builtin(fr, st, b, c, args, site)
	}
	if c.IsInvoke() {
		return e.invoke(st, fv.(*Term), c.Method, args, site.Pos(), 0)
	}
	return e.callFuncTerm(st, fv.(*Term), args, c.Signature(), site.Pos())
}

func (e *Exec) callFuncTerm(st *State, f *Term, args []Val, sig *types.Signature, pos token.Pos) Val {
	if f.Op == "ite" {
		return e.branch(st, f.Args[0],
			func(s *State) Val { return e.callFuncTerm(s, f.Args[1], args, sig, pos) },
			func(s *State) Val { return e.callFuncTerm(s, f.Args[2], args, sig, pos) })
	}
	if f.Op == "select" && f.Args[0].Op == "store" {
		// a lookup in a map literal: one case per stored key
		m, k := f.Args[0], f.Args[1]
		return e.branch(st, Eq(k, m.Args[1]),
			func(s *State) Val { return e.callFuncTerm(s, m.Args[2], args, sig, pos) },
			func(s *State) Val { return e.callFuncTerm(s, Select(m.Args[0], k), args, sig, pos) })
	}
	if f.IsInt() {
		if f.Num.Sign() == 0 {
			e.oblige("nil", "non-nil function value", st, False(), pos)
			st.guard = False()
			return e.zeroResult(sig)
		}
		cl := e.closures[f.Int()]
		return e.callFn(cl.fn, args, cl.bind, st, pos)
	}
	// unknown function value: a deterministic function without effects
	e.oblige("nil", "non-nil function value", st, Ne(f, IntT(0)), pos)
	e.assume("unknown function values (callbacks) are deterministic and have no effect on the verified state")
	return e.pureResult("callfn_"+sanitize(sig.String()), sig, append([]Val{f}, args...), st)
}

// branch runs two alternatives and merges.
func (e *Exec) branch(st *State, c *Term, a, b func(*State) Val) Val {
	s1, s2 := st.clone(), st.clone()
	s1.guard = And(st.guard, c)
	s2.guard = And(st.guard, Not(c))
	save := curState
	var v1, v2 Val
	ok1, ok2 := !s1.guard.IsFalse(), !s2.guard.IsFalse()
	if ok1 {
		curState = s1
		v1 = a(s1)
		ok1 = !s1.guard.IsFalse()
	}
	if ok2 {
		curState = s2
		v2 = b(s2)
		ok2 = !s2.guard.IsFalse()
	}
	curState = save
	switch {
	case ok1 && ok2:
		m := e.mergeStates([]*State{s1, s2})
		cc := stripCommon([]*State{s1, s2})[0]
		*st = *m
		if v1 == nil {
			return v2
		}
		return mergeVal(cc, v1, v2)
	case ok1:
		*st = *s1
		return v1
	case ok2:
		*st = *s2
		return v2
	}
	st.guard = False()
	if v1 != nil {
		return v1
	}
	return v2
}

func (e *Exec) invoke(st *State, recv *Term, m *types.Func, args []Val, pos token.Pos, depth int) Val {
	sig := m.Type().(*types.Signature)
	if recv.Op == "ite" {
		return e.branch(st, recv.Args[0],
			func(s *State) Val { return e.invoke(s, recv.Args[1], m, args, pos, depth) },
			func(s *State) Val { return e.invoke(s, recv.Args[2], m, args, pos, depth) })
	}
	tag := Sel("i_tag", recv)
	e.oblige("nil", "non-nil interface for "+m.Name(), st, Ne(tag, IntT(0)), pos)
	if tag.IsInt() && tag.Num.Sign() != 0 {
		t := e.tagTypes[tag.Int()]
		if ms := e.prog.MethodSets.MethodSet(t); ms != nil {
			if sel := ms.Lookup(m.Pkg(), m.Name()); sel != nil {
				if fn := e.prog.MethodValue(sel); fn != nil {
					return e.callFn(fn, append([]Val{e.unIface(st, recv, t)}, args...), nil, st, pos)
				}
			}
		}
	}
	if mod := e.v.ifaceModel(m); mod != nil {
		return e.runModel(mod, append([]Val{recv}, args...), st, pos)
	}
	if f, ok := ifaceLib[m.Name()]; ok {
		if r, ok := f(e, st, recv, args, sig); ok {
			return r
		}
	}
	e.assume("interface method %s on an unknown implementation is deterministic and has no effect on the verified state", m.FullName())
	return e.pureResult("method_"+m.FullName(), sig, append([]Val{recv}, args...), st)
}

// pureResult: the same arguments always give the same result.
func (e *Exec) pureResult(name string, sig *types.Signature, args []Val, st *State) Val {
	var leaves []*Term
	for _, a := range args {
		if a == nil {
			continue
		}
		leaves = append(leaves, e.deepLeaves(st, a)...)
	}
	mkv := func(i int, t types.Type) Val {
		lts := e.leafTypes(t)
		var out []*Term
		for k, lt := range lts {
			s, _ := scalarSort(lt)
			x := UF(fmt.Sprintf("%s_r%d_%d", name, i, k), s, leaves...)
			e.typeFacts(x, lt, IntT(objParam0*10))
			out = append(out, x)
		}
		return e.unflatten(t, out)
	}
	switch n := sig.Results().Len(); n {
	case 0:
		return nil
	case 1:
		return mkv(0, sig.Results().At(0).Type())
	default:
		var tv TupleV
		for i := 0; i < n; i++ {
			tv = append(tv, mkv(i, sig.Results().At(i).Type()))
		}
		return tv
	}
}

// deepLeaves flattens a value (byte slices by content).
func (e *Exec) deepLeaves(st *State, v Val) []*Term { return flatten(v) }

func (e *Exec) freshResult(name string, sig *types.Signature, st *State) Val {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return e.sym(name, sig.Results().At(0).Type(), st.alloc)
	}
	return e.sym(name, sig.Results(), st.alloc)
}

func fnKey(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.String()
}

func (e *Exec) callFn(fn *ssa.Function, args []Val, bind []Val, st *State, pos token.Pos) Val {
	if st.guard.IsFalse() {
		return e.zeroResult(fn.Signature)
	}
	key := fnKey(fn)
	name := fn.Name()
	if fn.Origin() != nil {
		name = fn.Origin().Name()
	}
	// intrinsics live in the overlay runtime file
	if e.v.isIntrinsic(fn) {
		return e.intrinsic(name, fn, args, st, pos)
	}
	if c := e.v.contractFn[fn]; c != nil && len(e.stack) > 0 {
		// a lemma used inside another contract
		e.applied[c.Name] = true
		e.mode = append(e.mode, &cmode{apply: true, con: c})
		e.runFunc(fn, args, bind, st)
		e.mode = e.mode[:len(e.mode)-1]
		return nil
	}
	if e.inInit && fn.Name() == "init" && fn.Synthetic != "" && len(e.stack) > 0 {
		return nil // package initialisers run once each, in order
	}
	// target of a contract being applied
	if n := len(e.mode); n > 0 && e.mode[n-1].apply && fn == e.mode[n-1].target {
		r := e.freshResult("res_"+fn.Name(), fn.Signature, st)
		e.mode[n-1].captured = r
		e.mode[n-1].guard = st.guard
		return r
	}
	// the contract's own call of its target runs the real body, also when calls inside it have a model
	own := len(e.mode) == 1 && len(e.stack) == 1 && fn == e.mode[0].target && !e.mode[0].apply
	if m := e.v.externModel(key); m != nil && !own && !e.inModel(m) {
		return e.runModel(m, args, st, pos)
	}
	if e.v.pure[key] && !own {
		e.assume("%s is treated as an arbitrary deterministic function (its own contract is checked separately)", key)
		return e.pureResult("pure_"+key, fn.Signature, args, st)
	}
	if lm, ok := libModels[key]; ok {
		if r, ok := lm(e, st, fn, args, pos); ok {
			return r
		}
	}
	if c := e.v.applyContract(fn); c != nil && !e.verifyingTop(fn) {
		return e.apply(c, fn, args, st, pos)
	}
	if fn.Synthetic != "" && fn.Blocks != nil {
		return e.runFunc(fn, args, bind, st)
	}
	if e.inInit && fn.Pkg != e.initPkg && fn.Blocks != nil && e.isRepo(fn) {
		e.assume("package initialisation: the result of %s is arbitrary", key)
		return e.freshResult("init_"+fn.Name(), fn.Signature, st)
	}
	if fn.Blocks != nil && e.isRepo(fn) {
		if e.v.opaque[fn] {
			return e.opaqueCall(fn, args, bind, st)
		}
		e.inlined[key] = true
		if len(e.mode) == 1 && e.mode[0].con.Apply && fn == e.mode[0].con.target {
			// frame condition of an applicable contract: the target writes only objects it makes
			var log []writeEvent
			e.writeLogs = append(e.writeLogs, &log)
			a0, s0 := st.alloc, e.nstack
			r := e.runFunc(fn, args, bind, st)
			e.writeLogs = e.writeLogs[:len(e.writeLogs)-1]
			if !e.onlyNew(log, a0, s0) {
				unsup("%s writes to memory it did not make: its contract cannot be applied", fn)
			}
			return r
		}
		return e.runFunc(fn, args, bind, st)
	}
	return e.unknownCall(fn, args, st)
}

// opaqueCall names the value of a specification function; its definition is a fact the prover may ignore.
func (e *Exec) opaqueCall(fn *ssa.Function, args []Val, bind []Val, st *State) Val {
	s := st.clone()
	r := e.runFunc(fn, args, bind, s)
	t, ok := r.(*Term)
	if !ok || t.IsConst() {
		return r
	}
	if p, ok := e.opaqueMemo[t]; ok {
		return p
	}
	var p, def *Term
	name, leaves := e.opaqueTemplate(fn, t, args)
	if leaves == nil {
		name, leaves = fmt.Sprintf("P_%s_%d", fn.Name(), t.id), t.bv
	}
	if len(leaves) == 0 {
		p = NamedVar(name, t.Sort)
	} else {
		p = UF(name, t.Sort, leaves...)
	}
	def = mk(&Term{Op: "=", Args: []*Term{p, t}, Sort: SBool})
	if len(t.bv) > 0 {
		def = Forall(t.bv, def, []*Term{p})
	}
	e.opaqueMemo[t] = p
	if n := len(e.mode); n > 0 && e.mode[n-1].apply {
		e.opaqueApplied[def] = true
	}
	e.opaqueDef[def] = true
	e.addFactRaw(def)
	return p
}

// opaqueTemplate: two instances of one specification function whose values are the same expression
// of their argument leaves get the same symbol, applied to those leaves. Returns nil leaves if the
// value is not an expression of the leaves.
func (e *Exec) opaqueTemplate(fn *ssa.Function, t *Term, args []Val) (string, []*Term) {
	idx := map[*Term]int{}
	var all []*Term
	for _, a := range args {
		if a == nil {
			continue
		}
		for _, l := range flatten(a) {
			if _, ok := idx[l]; !ok && !l.IsConst() && l.Op != "ctor" {
				idx[l] = len(all)
			}
			all = append(all, l)
		}
	}
	used := map[int]bool{}
	bad := false
	memo := map[*Term]string{}
	var canon func(t *Term, env map[*Term]int) string
	canon = func(t *Term, env map[*Term]int) string {
		if i, ok := idx[t]; ok {
			used[i] = true
			return fmt.Sprintf("x%d", i)
		}
		local := false
		for _, b := range t.bv {
			if _, ok := env[b]; ok {
				local = true
			}
		}
		if !local {
			if m, ok := memo[t]; ok {
				return m
			}
		}
		var r string
		switch {
		case t.Op == "bvar":
			d, ok := env[t]
			if !ok {
				bad = true
			}
			r = fmt.Sprintf("b%d", d)
		case len(t.Args) == 0:
			r = fmt.Sprintf("t%d", t.id)
		default:
			if len(t.Bound) > 0 {
				n := map[*Term]int{}
				for k, v := range env {
					n[k] = v
				}
				for _, b := range t.Bound {
					n[b] = len(n)
				}
				env = n
			}
			var parts []string
			for _, a := range t.Args {
				parts = append(parts, canon(a, env))
			}
			switch t.Op {
			case "and", "or", "=", "+":
				sort.Strings(parts)
			}
			h := sha256.New()
			fmt.Fprintf(h, "%s|%s|%s|%d|%s", t.Op, t.Name, t.Sort, len(t.Bound), strings.Join(parts, "|"))
			if t.Num != nil {
				fmt.Fprintf(h, "|%s", t.Num)
			}
			r = fmt.Sprintf("%x", h.Sum(nil)[:12])
		}
		if !local {
			memo[t] = r
		}
		return r
	}
	key := fn.String() + " " + canon(t, map[*Term]int{})
	if bad || len(used) == 0 {
		return "", nil
	}
	var leaves []*Term
	for i, l := range all {
		if used[i] {
			leaves = append(leaves, l)
			key += fmt.Sprintf(" %d:%s", i, l.Sort)
		}
	}
	n, ok := e.opaqueKeys[key]
	if !ok {
		n = fmt.Sprintf("P_%s_t%d", fn.Name(), len(e.opaqueKeys))
		e.opaqueKeys[key] = n
	}
	return n, leaves
}

func (e *Exec) isRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Parent() != nil {
		return e.isRepo(fn.Parent())
	}
	return p != nil && e.repoPkg[p]
}

// verifyingTop: the contract under verification calls its own target: execute the real body once.
func (e *Exec) verifyingTop(fn *ssa.Function) bool {
	if len(e.mode) == 0 {
		return false
	}
	m := e.mode[0]
	if m.con.inlines[fn.Name()] {
		return true
	}
	return m.target == fn && e.rec[fn] == 0
}

// apply executes the contract body with the target replaced by an arbitrary result: preconditions
// become obligations of the caller, postconditions are assumed.
func (e *Exec) apply(c *Contract, fn *ssa.Function, args []Val, st *State, pos token.Pos) Val {
	e.applied[c.Name] = true
	m := &cmode{apply: true, target: fn, con: c}
	e.mode = append(e.mode, m)
	e.runFunc(c.fn, args, nil, st)
	e.mode = e.mode[:len(e.mode)-1]
	if m.captured == nil && fn.Signature.Results().Len() > 0 {
		unsup("contract %s never calls its target", c.Name)
	}
	if m.named != nil {
		return m.named
	}
	return m.captured
}

func (e *Exec) inModel(m *Model) bool {
	for _, f := range e.stack {
		if f.fn == m.fn {
			return true
		}
	}
	return false
}

func (e *Exec) runModel(m *Model, args []Val, st *State, pos token.Pos) Val {
	e.assume("model of %s: %s", m.key, m.doc)
	// convert arguments whose declared type differs (e.g. any)
	for i, p := range m.fn.Params {
		if i < len(args) {
			if t, ok := args[i].(*Term); ok {
				if s, ok := scalarSort(p.Type()); ok && t.Sort != s {
					args[i] = coerce(t, s)
				}
			}
		}
	}
	return e.runFunc(m.fn, args, nil, st)
}

var pureStdPkgs = map[string]bool{"strings": true, "path": true, "path/filepath": true, "strconv": true, "unicode": true, "unicode/utf8": true, "html": true, "net/url": true, "bytes": true, "encoding/hex": true, "encoding/base64": true, "math": true, "regexp": true, "time": true, "net/textproto": true, "mime": true}

func (e *Exec) unknownCall(fn *ssa.Function, args []Val, st *State) Val {
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	}
	key := fn.String()
	if pureStdPkgs[pkg] && !strings.HasPrefix(key, "(*strings.Builder)") && !strings.HasPrefix(key, "(*bytes.") {
		ok := true
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			t := fn.Signature.Results().At(i).Type()
			if _, isS := scalarSort(t); !isS {
				ok = false
			}
			switch t.Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				ok = false
			}
		}
		for _, a := range args {
			if a == nil {
				ok = false
			}
		}
		if ok {
			e.assume("%s is an arbitrary deterministic function", key)
			var as []Val
			for i, a := range args {
				t, isT := a.(*Term)
				if isT && t.Sort == SSlice && i < fn.Signature.Params().Len() {
					if sl, okS := fn.Signature.Params().At(i).Type().Underlying().(*types.Slice); okS && isByteElem(sl.Elem()) {
						a = e.bytesOf(st, t)
					} else if okS {
						// content may change between calls: not a function of the header alone
						return e.freshResult("ext_"+fn.Name(), fn.Signature, st)
					}
				}
				as = append(as, a)
			}
			return e.pureResult("std_"+key, fn.Signature, as, st)
		}
	}
	e.assume("call of %s: arbitrary result, no effect on the verified state", key)
	return e.freshResult("ext_"+fn.Name(), fn.Signature, st)
}

// ---- builtins ----

func (e *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, c *ssa.CallCommon, args []Val, site ssa.Instruction) Val {
	switch b.Name() {
	case "len":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			return Sel("s_len", args[0].(*Term))
		case *types.Basic:
			return StrLen(args[0].(*Term))
		case *types.Map:
			mi := e.mapInfo(c.Args[0].Type())
			m := args[0].(*Term)
			e.mapLenFacts(st, mi, m)
			return Ite(Eq(m, NilAddr()), IntT(0), Select(e.memGet(st, mi.ln), m))
		case *types.Array:
			return IntT(u.Len())
		case *types.Pointer:
			return IntT(u.Elem().Underlying().(*types.Array).Len())
		}
	case "cap":
		return Sel("s_cap", args[0].(*Term))
	case "append":
		return e.append(st, args[0].(*Term), args[1].(*Term), c.Args[0].Type(), c.Args[1].Type())
	case "copy":
		return e.copyBuiltin(st, args[0].(*Term), args[1].(*Term), c.Args[0].Type(), c.Args[1].Type())
	case "delete":
		mi := e.mapInfo(c.Args[0].Type())
		m := args[0].(*Term)
		e.logDelete(mi.dom, &excl{addr: m})
		e.log(mi.ln, &excl{addr: m})
		e.mapDelete(st, mi, m, e.mapKey(mi, args[1]))
		return nil
	case "print", "println", "close":
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "recover":
		return NilIface()
	}
	unsup("builtin %s", b.Name())
	return nil
}

// append is modelled as always copying to a fresh backing array. (Sharing of spare capacity between
// slices appended twice from the same prefix is therefore not modelled; it is listed as an assumption.)
func (e *Exec) append(st *State, a, b *Term, at, bt types.Type) Val {
	et := at.Underlying().(*types.Slice).Elem()
	if isByteElem(et) {
		var add *Term
		if b.Sort == SStr {
			add = b
		} else {
			add = e.bytesOf(st, b)
		}
		return e.newBytes(st, StrCat(e.bytesOf(st, a), add))
	}
	e.assume("append never writes through spare capacity shared with another live slice")
	if b == NilSlice() {
		return a
	}
	n1, n2 := Sel("s_len", a), Sel("s_len", b)
	n := Add(n1, n2)
	obj := e.alloc(st)
	// an arbitrary object whose contents are the concatenation
	keys := map[string]bool{}
	for _, lt := range e.leafTypes(et) {
		s, _ := scalarSort(lt)
		k := string(s)
		if isByteElem(lt) || isArr(lt) {
			// bytes stored in scalar cells of the element
			if isArr(lt) {
				k = "Bytes"
			}
		}
		keys[k] = true
	}
	if n1.IsInt() && n2.IsInt() && n1.Int()+n2.Int() <= 32 {
		for i := int64(0); i < n1.Int(); i++ {
			e.storeLogged(st, EltAddr(obj, IntT(i)), et, e.load(st, sliceElt(a, IntT(i)), et))
		}
		for i := int64(0); i < n2.Int(); i++ {
			e.storeLogged(st, EltAddr(obj, IntT(n1.Int()+i)), et, e.load(st, sliceElt(b, IntT(i)), et))
		}
		c := n
		return MkSlice(obj, IntT(0), n, c)
	}
	// symbolic: new memory versions agreeing with the old on every existing object
	old := st.clone()
	for _, k := range sortedKeys(keys) {
		prev := e.memGet(st, k)
		m := e.fresh("A_"+k, prev.Sort)
		e.memVars[m] = &memVar{key: k, mark: Add(Sel("a_obj", obj), IntT(1)), prev: prev, prevMk: Sel("a_obj", obj)}
		addrMarks[m] = Add(Sel("a_obj", obj), IntT(1))
		q := NewBVar("fa", SAddr)
		lhs := mk(&Term{Op: "select", Args: []*Term{m, q}, Sort: elemSort(m)})
		rhs := mk(&Term{Op: "select", Args: []*Term{prev, q}, Sort: elemSort(m)})
		o := Sel("a_obj", q)
		e.addFactG(Forall([]*Term{q}, Imp(mk(&Term{Op: "not", Args: []*Term{mk(&Term{Op: "=", Args: []*Term{o, Sel("a_obj", obj)}, Sort: SBool})}, Sort: SBool}), Eq(lhs, rhs)), []*Term{lhs}))
		e.setMem(st, k, m)
		e.log(k, &excl{obj: Sel("a_obj", obj)})
	}
	j := NewBVar("ap", SInt)
	e.binders = append(e.binders, j)
	cell := func(addr *Term, s *State) []*Term { return flatten(e.loadRaw(s, addr, et)) }
	dst := cell(EltAddr(obj, j), st)
	eqs := func(x, y []*Term) *Term {
		var cs []*Term
		for i := range x {
			cs = append(cs, Eq(x[i], y[i]))
		}
		return And(cs...)
	}
	src := cell(sliceElt(a, j), old)
	keep := Imp(And(Le(IntT(0), j), Lt(j, n1)), eqs(dst, src))
	var pats [][]*Term
	for i := range dst {
		// either side's cell makes the other side's known
		if containsBV(dst[i], j) {
			pats = append(pats, []*Term{dst[i]})
		}
		if src[i].Op == "select" && containsBV(src[i], j) {
			pats = append(pats, []*Term{src[i]})
		}
	}
	e.binders = e.binders[:len(e.binders)-1]
	e.addFactG(Forall([]*Term{j}, keep, pats...))
	e.binders = append(e.binders, j)
	if !n2.IsInt() {
		e.addFactG(Imp(And(Le(n1, j), Lt(j, n)), eqs(dst, cell(sliceElt(b, Sub(j, n1)), old))))
	}
	e.binders = e.binders[:len(e.binders)-1]
	if n2.IsInt() {
		for i := int64(0); i < n2.Int(); i++ {
			d := cell(EltAddr(obj, Add(n1, IntT(i))), st)
			e.addFactG(eqs(d, cell(sliceElt(b, IntT(i)), old)))
		}
	}
	cp := n
	return MkSlice(obj, IntT(0), n, cp)
}

func isArr(t types.Type) bool { _, ok := t.Underlying().(*types.Array); return ok }

// loadRaw loads without adding type facts.
func (e *Exec) loadRaw(st *State, a *Term, t types.Type) Val {
	if s, ok := scalarSort(t); ok {
		if isArr(t) {
			return Select(e.memGet(st, "Bytes"), a)
		}
		return Select(e.memGet(st, string(s)), a)
	}
	sv := &StructV{}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for _, f := range e.fields(t) {
			sv.F = append(sv.F, e.loadRaw(st, FldAddr(a, f.id), f.t))
		}
		return sv
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			sv.F = append(sv.F, e.loadRaw(st, EltAddr(a, IntT(i)), u.Elem()))
		}
		return sv
	}
	unsup("loadRaw %s", t)
	return nil
}

func (e *Exec) copyBuiltin(st *State, dst, src *Term, dt, stt types.Type) Val {
	et := dt.Underlying().(*types.Slice).Elem()
	n1 := Sel("s_len", dst)
	var n2 *Term
	if src.Sort == SStr {
		n2 = StrLen(src)
	} else {
		n2 = Sel("s_len", src)
	}
	n := Ite(Le(n1, n2), n1, n2)
	if isByteElem(et) {
		var c *Term
		if src.Sort == SStr {
			c = src
		} else {
			c = e.bytesOf(st, src)
		}
		base := Sel("s_base", dst)
		if base.Op == "ite" {
			unsup("copy to conditional slice")
		}
		off := Sel("s_off", dst)
		old := Select(e.memGet(st, "Bytes"), base)
		nc := StrCat(Substr(old, IntT(0), off), Substr(c, IntT(0), n), Substr(old, Add(off, n), StrLen(old)))
		e.log("Bytes", &excl{addr: base})
		e.setMem(st, "Bytes", Store(e.memGet(st, "Bytes"), base, nc))
		return n
	}
	base := Sel("s_base", dst)
	old := st.clone()
	keys := map[string]bool{}
	for _, lt := range e.leafTypes(et) {
		s, _ := scalarSort(lt)
		if isArr(lt) {
			keys["Bytes"] = true
		} else {
			keys[string(s)] = true
		}
	}
	ex := excl{obj: Sel("a_obj", base)}
	for _, k := range sortedKeys(keys) {
		prev := e.memGet(st, k)
		m := e.fresh("C_"+k, prev.Sort)
		e.memVars[m] = &memVar{key: k, mark: st.alloc, prev: prev, prevMk: st.alloc, exc: []excl{ex}}
		addrMarks[m] = st.alloc
		q := NewBVar("fa", SAddr)
		lhs := mk(&Term{Op: "select", Args: []*Term{m, q}, Sort: elemSort(m)})
		rhs := mk(&Term{Op: "select", Args: []*Term{prev, q}, Sort: elemSort(m)})
		e.addFactG(Forall([]*Term{q}, Imp(Not(ex.term(q)), Eq(lhs, rhs)), []*Term{lhs}))
		e.setMem(st, k, m)
		e.log(k, &ex)
	}
	j := NewBVar("cp", SInt)
	e.binders = append(e.binders, j)
	d := flatten(e.loadRaw(st, sliceElt(dst, j), et))
	inr := And(Le(IntT(0), j), Lt(j, n))
	sv := flatten(e.loadRaw(old, sliceElt(src, j), et))
	dv := flatten(e.loadRaw(old, sliceElt(dst, j), et))
	var a1, a2 []*Term
	for i := range d {
		a1 = append(a1, Eq(d[i], sv[i]))
		a2 = append(a2, Eq(d[i], dv[i]))
	}
	e.addFactG(Imp(inr, And(a1...)))
	e.addFactG(Imp(Not(inr), And(a2...)))
	e.binders = e.binders[:len(e.binders)-1]
	return n
}

func containsBV(t, v *Term) bool {
	for _, b := range t.bv {
		if b == v {
			return true
		}
	}
	return false
}

package main

// Go types -> SMT layout, symbolic values, memory access.

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Val any // *Term | *StructV | TupleV | *IterV

type StructV struct{ F []Val } // structs and (non-byte) arrays
type TupleV []Val
type IterV struct{ R *ssa.Range }

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

const (
	objGlobal0 = 1000
	objParam0  = 100000
	objAlloc0  = 1000000
)

var maxLen = new(big.Int).Lsh(big.NewInt(1), 47)

func isOpaqueScalar(t types.Type) (Sort, bool) {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		switch n.Obj().Pkg().Path() + "." + n.Obj().Name() {
		case "time.Time":
			return SInt, true
		}
	}
	return "", false
}

func isByte(t types.Type) bool {
	b, ok := types.Unalias(t).(*types.Basic)
	if !ok {
		b, ok = t.Underlying().(*types.Basic)
	}
	return ok && b.Kind() == types.Uint8
}

// isByteElem: element type stored in string-backed memory.
func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isNamedUint8(t types.Type) bool {
	switch x := t.(type) {
	case *types.Named:
		b, ok := x.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	case *types.Basic:
		return x.Kind() == types.Uint8 && x.Name() == "uint8"
	}
	return false
}

func scalarSort(t types.Type) (Sort, bool) {
	if s, ok := isOpaqueScalar(t); ok {
		return s, true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return SBool, true
		case types.String, types.UntypedString:
			return SStr, true
		case types.Uint8:
			if isNamedUint8(t) {
				return SBV(8), true
			}
			return SInt, true
		case types.Uint16:
			return SBV(16), true
		case types.Uint32:
			return SBV(32), true
		case types.Float32, types.Float64, types.UntypedFloat:
			return SInt, true // opaque
		case types.UnsafePointer:
			return SAddr, true
		case types.UntypedNil:
			return SAddr, true
		}
		return SInt, true
	case *types.Pointer, *types.Map, *types.Chan:
		return SAddr, true
	case *types.Slice:
		return SSlice, true
	case *types.Interface:
		return SIface, true
	case *types.Signature:
		return SInt, true
	case *types.Array:
		if isByteElem(u.Elem()) {
			return SStr, true
		}
	}
	return "", false
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	w, signed := 0, true
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		w = 64
	case types.Int32, types.UntypedRune:
		w = 32
	case types.Int16:
		w = 16
	case types.Int8:
		w = 8
	case types.Uint, types.Uint64, types.Uintptr:
		w, signed = 64, false
	case types.Uint8:
		if isNamedUint8(t) {
			return
		}
		w, signed = 8, false
	default:
		return
	}
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(w-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(w-1)))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(w)), one)
	}
	return lo, hi, true
}

type structField struct {
	id int64
	t  types.Type
}

func (e *Exec) fields(t types.Type) []structField {
	if r, ok := e.fieldCache.At(t).([]structField); ok {
		return r
	}
	st := t.Underlying().(*types.Struct)
	var out []structField
	for i := 0; i < st.NumFields(); i++ {
		e.nextField++
		out = append(out, structField{e.nextField, st.Field(i).Type()})
		e.fieldNames[e.nextField] = types.TypeString(t, func(p *types.Package) string { return p.Name() }) + "." + st.Field(i).Name()
	}
	e.fieldCache.Set(t, out)
	return out
}

func (e *Exec) typeTag(t types.Type) int64 {
	if r, ok := e.tagCache.At(t).(int64); ok {
		return r
	}
	e.nextTag++
	e.tagCache.Set(t, e.nextTag)
	e.tagTypes[e.nextTag] = t
	return e.nextTag
}

// zero value
func (e *Exec) zero(t types.Type) Val {
	if s, ok := scalarSort(t); ok {
		if a, isArr := t.Underlying().(*types.Array); isArr {
			return StrT(string(make([]byte, a.Len())))
		}
		return zeroOfSort(s)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{}
		for _, f := range e.fields(t) {
			sv.F = append(sv.F, e.zero(f.t))
		}
		return sv
	case *types.Array:
		sv := &StructV{}
		if u.Len() > 256 {
			unsup("large array value")
		}
		for i := int64(0); i < u.Len(); i++ {
			sv.F = append(sv.F, e.zero(u.Elem()))
		}
		return sv
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.zero(u.At(i).Type()))
		}
		return tv
	}
	unsup("zero of %s", t)
	return nil
}

func zeroOfSort(s Sort) *Term {
	switch {
	case s == SBool:
		return False()
	case s == SInt:
		return IntT(0)
	case s == SStr:
		return StrT("")
	case s == SAddr:
		return NilAddr()
	case s == SSlice:
		return NilSlice()
	case s == SIface:
		return NilIface()
	case s.IsBV():
		return BVT(big.NewInt(0), s.BVWidth())
	}
	panic("zeroOfSort " + string(s))
}

// fresh makes an arbitrary term of a sort; under binders it is a function of them.
func (e *Exec) fresh(base string, s Sort) *Term {
	if len(e.binders) == 0 {
		return NewVar(base, s)
	}
	n := uniqName("f_" + base)
	t := UF(n, s, append([]*Term{}, e.binders...)...)
	DB.index[n] = len(DB.order) - 1
	return t
}

// sym makes an arbitrary value of a Go type, adding its type facts. mark bounds reachable objects.
func (e *Exec) sym(base string, t types.Type, mark *Term) Val {
	if s, ok := scalarSort(t); ok {
		x := e.fresh(base, s)
		if s == SSlice && !e.noOff0 {
			off0[x] = true
		}
		e.typeFacts(x, t, mark)
		return x
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{}
		for i, f := range e.fields(t) {
			sv.F = append(sv.F, e.sym(base+"."+u.Field(i).Name(), f.t, mark))
		}
		return sv
	case *types.Array:
		sv := &StructV{}
		if u.Len() > 64 {
			unsup("large array value")
		}
		for i := int64(0); i < u.Len(); i++ {
			sv.F = append(sv.F, e.sym(fmt.Sprintf("%s.%d", base, i), u.Elem(), mark))
		}
		return sv
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.sym(fmt.Sprintf("%s.%d", base, i), u.At(i).Type(), mark))
		}
		return tv
	}
	unsup("symbolic %s", t)
	return nil
}

// typeFacts asserts what every value of type t satisfies.
func (e *Exec) typeFacts(x *Term, t types.Type, mark *Term) {
	if x.IsConst() || x.Op == "ctor" {
		return
	}
	k := [2]int{x.id, 0}
	if e.typed[k] {
		return
	}
	e.typed[k] = true
	if lo, hi, ok := intRange(t); ok && x.Sort == SInt {
		if _, op := isOpaqueScalar(t); !op {
			e.addFactG(And(Le(BigT(lo), x), Le(x, BigT(hi))))
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if x.Sort == SStr {
			e.addFactG(Le(StrLen(x), BigT(maxLen)))
			// characters are bytes
			e.strs = append(e.strs, x)
		}
	case *types.Pointer, *types.Map, *types.Chan:
		e.refFacts(x, mark)
	case *types.Slice:
		if mark != nil {
			addrMarks[x] = mark
		}
		ln, cp, off := Sel("s_len", x), Sel("s_cap", x), Sel("s_off", x)
		base := Sel("s_base", x)
		if off.IsInt() {
			e.addFactG(Eq(mk(&Term{Op: "sel", Name: "s_off", Args: []*Term{x}, Sort: SInt}), off))
		}
		e.addFactG(And(Le(IntT(0), ln), Le(ln, cp), Le(cp, BigT(maxLen)), Le(IntT(0), off),
			Imp(Eq(base, NilAddr()), Eq(x, NilSlice()))))
		e.refFacts(base, mark)
	case *types.Interface:
		if mark != nil {
			addrMarks[x] = mark
		}
		tag := Sel("i_tag", x)
		e.addFactG(And(Le(IntT(0), tag), Imp(Eq(tag, IntT(0)), Eq(x, NilIface()))))
		pa := Sel("p_addr", Sel("i_pay", x))
		if mark != nil {
			addrMarks[pa] = mark
			e.addFactG(And(Le(IntT(0), Sel("a_obj", pa)), Lt(Sel("a_obj", pa), mark)))
		}
	case *types.Array:
		if x.Sort == SStr {
			e.addFactG(Eq(mk(&Term{Op: "str.len", Args: []*Term{x}, Sort: SInt}), IntT(u.Len())))
		}
	}
}

func (e *Exec) refFacts(x *Term, mark *Term) {
	if x.Op == "ctor" {
		return
	}
	if mark != nil {
		addrMarks[x] = mark
	}
	obj := Sel("a_obj", x)
	f := []*Term{Le(IntT(0), obj), Imp(Eq(obj, IntT(0)), Eq(x, NilAddr()))}
	if mark != nil {
		f = append(f, mk(&Term{Op: "not", Args: []*Term{mk(&Term{Op: "<=", Args: []*Term{mark, obj}, Sort: SBool})}, Sort: SBool}))
	}
	e.addFactG(And(f...))
}

// flatten lists the scalar leaves of a value.
func flatten(v Val) []*Term {
	switch x := v.(type) {
	case *Term:
		return []*Term{x}
	case *StructV:
		var out []*Term
		for _, f := range x.F {
			out = append(out, flatten(f)...)
		}
		return out
	case TupleV:
		var out []*Term
		for _, f := range x {
			out = append(out, flatten(f)...)
		}
		return out
	}
	unsup("flatten %T", v)
	return nil
}

// leafTypes lists the scalar leaf types of t, in flatten order.
func (e *Exec) leafTypes(t types.Type) []types.Type {
	if _, ok := scalarSort(t); ok {
		return []types.Type{t}
	}
	var out []types.Type
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for _, f := range e.fields(t) {
			out = append(out, e.leafTypes(f.t)...)
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			out = append(out, e.leafTypes(u.Elem())...)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			out = append(out, e.leafTypes(u.At(i).Type())...)
		}
	default:
		unsup("leafTypes %s", t)
	}
	return out
}

// unflatten rebuilds a value of type t from leaves.
func (e *Exec) unflatten(t types.Type, leaves []*Term) Val {
	v, rest := e.unflat(t, leaves)
	if len(rest) != 0 {
		panic("unflatten")
	}
	return v
}
func (e *Exec) unflat(t types.Type, l []*Term) (Val, []*Term) {
	if _, ok := scalarSort(t); ok {
		return l[0], l[1:]
	}
	sv := &StructV{}
	var x Val
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for _, f := range e.fields(t) {
			x, l = e.unflat(f.t, l)
			sv.F = append(sv.F, x)
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			x, l = e.unflat(u.Elem(), l)
			sv.F = append(sv.F, x)
		}
	case *types.Tuple:
		tv := TupleV{}
		for i := 0; i < u.Len(); i++ {
			x, l = e.unflat(u.At(i).Type(), l)
			tv = append(tv, x)
		}
		return tv, l
	}
	return sv, l
}

func mergeVal(c *Term, a, b Val) Val {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			return nil
		}
		if x.Sort != y.Sort {
			if x.Sort.IsBV() && y.Sort == SInt {
				y = Int2BV(y, x.Sort.BVWidth())
			} else if y.Sort.IsBV() && x.Sort == SInt {
				x = Int2BV(x, y.Sort.BVWidth())
			} else {
				unsup("merge of %s and %s", x.Sort, y.Sort)
			}
		}
		return Ite(c, x, y)
	case *StructV:
		y, ok := b.(*StructV)
		if !ok {
			return nil
		}
		if x == y {
			return x
		}
		r := &StructV{}
		for i := range x.F {
			r.F = append(r.F, mergeVal(c, x.F[i], y.F[i]))
		}
		return r
	case TupleV:
		y := b.(TupleV)
		r := TupleV{}
		for i := range x {
			r = append(r, mergeVal(c, x[i], y[i]))
		}
		return r
	case *IterV:
		return x
	}
	unsup("merge %T", a)
	return nil
}

// ---- memory ----

func memKeySort(k string) Sort { return SArr(SAddr, Sort(k)) }

func (e *Exec) memGet(st *State, k string) *Term {
	if m, ok := st.mem[k]; ok {
		return m
	}
	// initial memory
	m := e.initMem(k)
	return m
}

func (e *Exec) initMem(k string) *Term {
	if m, ok := e.mem0[k]; ok {
		return m
	}
	var s Sort
	switch k {
	case "Bytes":
		s = SArr(SAddr, SStr)
	default:
		if len(k) >= 2 && k[1] == ':' {
			s = e.mapKeySort[k]
			if k[0] == 'L' {
				s = SArr(SAddr, SInt)
			}
		} else {
			s = memKeySort(k)
		}
	}
	m := NamedVar("M0_"+k, s)
	e.mem0[k] = m
	addrMarks[m] = IntT(objAlloc0)
	e.memVars[m] = &memVar{key: k, mark: IntT(objAlloc0)}
	switch k[:min(2, len(k))] {
	case "D:":
		ks, _ := mapDomSort(s)
		save := e.binders
		e.binders = nil
		e.addFactRaw(Eq(mk(&Term{Op: "select", Args: []*Term{m, NilAddr()}, Sort: SArr(ks, SBool)}), ConstArr(SArr(ks, SBool), False())))
		e.binders = save
	}
	return m
}

func mapDomSort(s Sort) (Sort, Sort) {
	_, inner := s.arrParts()
	return inner.arrParts()
}

type memVar struct {
	key    string
	mark   *Term // allocation counter when created
	prev   *Term // memory before the havoc (frame)
	prevMk *Term // objects below this are framed
	exc    []excl
}

// excl describes addresses a loop may change.
type excl struct {
	addr *Term // exact address
	base *Term // element addresses under this base
	fld  int64 // any address whose last component is this field
	elts bool  // any element address whose parent path ends in...
	obj  *Term // any address in this object
}

func (x excl) String() string {
	return fmt.Sprintf("{addr:%v base:%v fld:%d obj:%v elts:%v}", x.addr, x.base, x.fld, x.obj, x.elts)
}

// excludes: could address a be one of the changed ones?  relNE = certainly not.
func (x excl) rel(a *Term) rel {
	switch {
	case x.addr != nil:
		return addrRel(x.addr, a)
	case x.obj != nil:
		if objRel(x.obj, Sel("a_obj", a)) == relNE {
			return relNE
		}
		return relUnk
	case x.base != nil:
		if objRel(Sel("a_obj", x.base), Sel("a_obj", a)) == relNE {
			return relNE
		}
		p := Sel("a_path", a)
		if p.Op == "ctor" {
			if p.Name != "pelt" {
				return relNE
			}
			if pathRel(p.Args[0], Sel("a_path", x.base)) == relNE {
				return relNE
			}
		}
		return relUnk
	case x.fld != 0:
		p := Sel("a_path", a)
		if p.Op == "ctor" {
			if p.Name != "pfld" {
				return relNE
			}
			return intRel(p.Args[1], IntT(x.fld))
		}
		return relUnk
	case x.elts:
		p := Sel("a_path", a)
		if p.Op == "ctor" && p.Name != "pelt" {
			return relNE
		}
		return relUnk
	}
	return relUnk
}

func (x excl) term(a *Term) *Term {
	switch {
	case x.addr != nil:
		return Eq(a, x.addr)
	case x.obj != nil:
		return Eq(Sel("a_obj", a), x.obj)
	case x.base != nil:
		return And(Eq(Sel("a_obj", a), Sel("a_obj", x.base)), isCtor("pelt", Sel("a_path", a)), Eq(Sel("pe_p", Sel("a_path", a)), Sel("a_path", x.base)))
	case x.fld != 0:
		return And(isCtor("pfld", Sel("a_path", a)), Eq(Sel("pf_i", Sel("a_path", a)), IntT(x.fld)))
	case x.elts:
		return isCtor("pelt", Sel("a_path", a))
	}
	return True()
}

func isCtor(name string, t *Term) *Term {
	if t.Op == "ctor" {
		return BoolT(t.Name == name)
	}
	return mk(&Term{Op: "(_ is " + name + ")", Args: []*Term{t}, Sort: SBool})
}

// resolveSelect is installed as selectHook.
func (e *Exec) resolveSelect(m, k *Term) *Term {
	if k.Sort != SAddr || m.Op != "var" && m.Op != "app" {
		return nil
	}
	mv := e.memVars[m]
	if mv == nil {
		return nil
	}
	obj := Sel("a_obj", k)
	if mv.prev != nil {
		// framed?
		pre := false
		if obj.IsInt() && mv.prevMk.IsInt() {
			pre = obj.Num.Cmp(mv.prevMk.Num) < 0
		} else {
			pre = objLess(obj, mv.prevMk)
		}
		if pre {
			ok := true
			for _, x := range mv.exc {
				if x.rel(k) != relNE {
					ok = false
					break
				}
			}
			if ok {
				return Select(mv.prev, k)
			}
		}
	}
	// zero-initialised object allocated after this memory version was created
	if z, ok := e.zeroObj[obj]; ok && z && (intLeKnown(mv.mark, obj)) {
		_, vs := m.Sort.arrParts()
		if mv.key == "Bytes" {
			if n, ok := e.zeroBytes[k]; ok {
				return StrT(string(make([]byte, n)))
			}
			return nil
		}
		if mv.key[1:2] == ":" {
			return nil
		}
		return zeroOfSort(vs)
	}
	return nil
}

func (e *Exec) load(st *State, a *Term, t types.Type) Val {
	if s, ok := scalarSort(t); ok {
		if arr, isArr := t.Underlying().(*types.Array); isArr {
			_ = arr
			x := Select(e.memGet(st, "Bytes"), a)
			e.typeFacts(x, t, nil)
			return x
		}
		if isByteElem(t) {
			p := Sel("a_path", a)
			if p.Op == "ctor" && p.Name == "pelt" {
				base := MkAddr(Sel("a_obj", a), p.Args[0])
				c := Select(e.memGet(st, "Bytes"), base)
				x := Ord(StrAt(c, p.Args[1]))
				if s.IsBV() {
					return Int2BV(x, 8)
				}
				e.typeFacts(x, t, nil)
				return x
			}
			// byte variable or field
		}
		x := Select(e.memGet(st, string(s)), a)
		e.loadFacts(x, t)
		return x
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := &StructV{}
		for _, f := range e.fields(t) {
			sv.F = append(sv.F, e.load(st, FldAddr(a, f.id), f.t))
		}
		return sv
	case *types.Array:
		if u.Len() > 64 {
			unsup("load of large array")
		}
		sv := &StructV{}
		for i := int64(0); i < u.Len(); i++ {
			sv.F = append(sv.F, e.load(st, EltAddr(a, IntT(i)), u.Elem()))
		}
		return sv
	}
	unsup("load %s", t)
	return nil
}

func (e *Exec) loadFacts(x *Term, t types.Type) {
	e.eachLeaf(x, 0, func(y *Term) {
		if y.Op != "select" && y.Op != "app" && y.Op != "var" {
			return
		}
		var mark *Term
		if y.Op == "select" {
			r := rootOf(y)
			mark = addrMarks[r]
			if r.Op == "store" || r.Op == "ite" {
				mark = e.memMark(r)
			}
		} else {
			mark = addrMarks[y]
		}
		if y.Op == "select" && y.Args[0].Op == "var" && e.memVars[y.Args[0]] != nil && !viaIface(y) && y.Sort != SStr {
			n := 0
			z := abstractIdx(y, &n, map[*Term]*Term{})
			if z.Op == "select" && len(z.bv) == n {
				if mark != nil {
					switch y.Sort {
					case SAddr, SSlice, SIface:
						addrMarks[y] = mark
					}
				}
				e.unguarded = z
				e.typeFacts(z, t, mark)
				e.unguarded = nil
				return
			}
		}
		e.typeFacts(y, t, mark)
	})
}

func smallType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Len() <= 32 && smallType(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !smallType(u.Field(i).Type()) {
				return false
			}
		}
	}
	return true
}

// madeSince: the object was made after the allocation counter was alloc0 (or is a stack object made since).
func madeSince(alloc0 *Term, stack0 int64, obj *Term) bool {
	if obj.IsInt() && obj.Num.Sign() < 0 {
		return obj.Num.Int64() < -stack0
	}
	return intLeKnown(alloc0, obj)
}

var payCache = map[*Term]bool{}

func viaIface(t *Term) bool {
	if r, ok := payCache[t]; ok {
		return r
	}
	r := t.Op == "sel" && t.Name == "p_addr"
	for _, a := range t.Args {
		r = r || viaIface(a)
	}
	payCache[t] = r
	return r
}

var lfPool []*Term

// abstractIdx replaces element indices that depend on bound variables by canonical bound variables.
func abstractIdx(t *Term, n *int, cache map[*Term]*Term) *Term {
	if len(t.bv) == 0 {
		return t
	}
	if r, ok := cache[t]; ok {
		return r
	}
	var r *Term
	if t.Op == "ctor" && t.Name == "pelt" {
		p := abstractIdx(t.Args[0], n, cache)
		i := t.Args[1]
		if len(i.bv) > 0 {
			for len(lfPool) <= *n {
				lfPool = append(lfPool, NewBVar("lf", SInt))
			}
			i = lfPool[*n]
			*n++
		}
		r = Ctor("pelt", SPath, p, i)
	} else if t.Op == "select" {
		r = Select(abstractIdx(t.Args[0], n, cache), abstractIdx(t.Args[1], n, cache))
	} else if t.Op == "sel" {
		r = Sel(t.Name, abstractIdx(t.Args[0], n, cache))
	} else if t.Op == "ctor" {
		var as []*Term
		for _, a := range t.Args {
			as = append(as, abstractIdx(a, n, cache))
		}
		r = Ctor(t.Name, t.Sort, as...)
	} else {
		r = t
	}
	cache[t] = r
	return r
}

// memMark: highest allocation mark any memory variable under m may contain.
func (e *Exec) memMark(m *Term) *Term {
	return nil
}

func (e *Exec) eachLeaf(x *Term, d int, f func(*Term)) {
	if x.Op == "ite" && d < 12 {
		e.eachLeaf(x.Args[1], d+1, f)
		e.eachLeaf(x.Args[2], d+1, f)
		return
	}
	f(x)
}

func coerce(x *Term, s Sort) *Term {
	if x.Sort == s {
		return x
	}
	if x.Sort == SInt && s.IsBV() {
		return Int2BV(x, s.BVWidth())
	}
	if x.Sort.IsBV() && s == SInt {
		return BV2Int(x)
	}
	if x.Sort.IsBV() && s.IsBV() {
		return BVResize(x, s.BVWidth())
	}
	unsup("coerce %s to %s", x.Sort, s)
	return nil
}

func (e *Exec) store(st *State, a *Term, t types.Type, v Val) {
	if s, ok := scalarSort(t); ok {
		x := coerce(v.(*Term), s)
		if _, isArr := t.Underlying().(*types.Array); isArr {
			e.setMem(st, "Bytes", Store(e.memGet(st, "Bytes"), a, x))
			return
		}
		if isByteElem(t) {
			p := Sel("a_path", a)
			if p.Op == "ctor" && p.Name == "pelt" {
				base := MkAddr(Sel("a_obj", a), p.Args[0])
				c := Select(e.memGet(st, "Bytes"), base)
				n := StrLen(c)
				i := p.Args[1]
				code := x
				if code.Sort.IsBV() {
					code = BV2Int(code)
				}
				nc := StrCat(Substr(c, IntT(0), i), Chr(code), Substr(c, Add(i, IntT(1)), n))
				e.setMem(st, "Bytes", Store(e.memGet(st, "Bytes"), base, nc))
				return
			}
		}
		e.setMem(st, string(s), Store(e.memGet(st, string(s)), a, x))
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv := v.(*StructV)
		for i, f := range e.fields(t) {
			e.store(st, FldAddr(a, f.id), f.t, sv.F[i])
		}
		return
	case *types.Array:
		sv := v.(*StructV)
		for i := int64(0); i < u.Len(); i++ {
			e.store(st, EltAddr(a, IntT(i)), u.Elem(), sv.F[i])
		}
		return
	}
	unsup("store %s", t)
}

func (e *Exec) setMem(st *State, k string, m *Term) { st.mem[k] = m }

// alloc returns a fresh object address.
func (e *Exec) alloc(st *State) *Term {
	o := st.alloc
	if len(e.binders) > 0 {
		// an allocation per binder value: an arbitrary fresh object
		o2 := e.fresh("obj", SInt)
		e.addFactG(Le(st.alloc, o2))
		DB.lower[o2] = st.alloc
		return MkAddr(o2, PNil())
	}
	st.alloc = Add(st.alloc, IntT(1))
	return MkAddr(o, PNil())
}

// allocZero allocates a zeroed object of type t.
func (e *Exec) allocZero(st *State, t types.Type) *Term {
	a := e.alloc(st)
	e.zeroInit(st, a, t)
	return a
}

func (e *Exec) zeroInit(st *State, a *Term, t types.Type) {
	if len(e.binders) > 0 || !Sel("a_obj", a).IsInt() {
		// symbolic object: write zeros explicitly where small
		if arr, ok := t.Underlying().(*types.Array); ok && arr.Len() > 64 && !isByteElem(arr.Elem()) {
			return
		}
		e.store(st, a, t, e.zero(t))
		return
	}
	e.zeroObj[Sel("a_obj", a)] = true
	if arr, ok := t.Underlying().(*types.Array); ok && isByteElem(arr.Elem()) {
		if arr.Len() <= 64 {
			e.store(st, a, t, e.zero(t))
		} else {
			c := e.fresh("bytes", SStr)
			e.addFactG(Eq(StrLen(c), IntT(arr.Len())))
			e.setMem(st, "Bytes", Store(e.memGet(st, "Bytes"), a, c))
		}
		return
	}
	e.byteFields(st, a, t)
}

// byteFields initialises byte arrays nested in structs.
func (e *Exec) byteFields(st *State, a *Term, t types.Type) {
	if _, ok := scalarSort(t); ok {
		if arr, isArr := t.Underlying().(*types.Array); isArr && arr.Len() <= 64 {
			e.store(st, a, t, e.zero(t))
		}
		return
	}
	if _, ok := t.Underlying().(*types.Struct); ok {
		for _, f := range e.fields(t) {
			e.byteFields(st, FldAddr(a, f.id), f.t)
		}
	}
}

// ---- maps ----

type mapInfo struct {
	kt, vt types.Type
	ks     Sort
	dom    string
	vals   []string
	vts    []types.Type
	ln     string
}

func (e *Exec) mapInfo(t types.Type) *mapInfo {
	mt := t.Underlying().(*types.Map)
	mi := &mapInfo{kt: mt.Key(), vt: mt.Elem()}
	ks, ok := scalarSort(mt.Key())
	if !ok {
		ks = SInt // packed key
	}
	mi.ks = ks
	if st, ok := mt.Elem().Underlying().(*types.Struct); !ok || st.NumFields() > 0 {
		mi.vts = e.leafTypes(mt.Elem())
	}
	// maps whose values differ in their representation have different types, and are different maps
	kind := sortKey(ks)
	for _, lt := range mi.vts {
		s, _ := scalarSort(lt)
		kind += ":" + sortKey(s)
	}
	mi.dom = "D:" + kind
	if !ok {
		mi.dom += sanitize(types.TypeString(mt.Key(), nil))
	}
	e.mapKeySort[mi.dom] = SArr(SAddr, SArr(ks, SBool))
	mi.ln = "L:" + kind
	e.mapKeySort[mi.ln] = SArr(SAddr, SInt)
	for i, lt := range mi.vts {
		s, _ := scalarSort(lt)
		k := fmt.Sprintf("V:%s:%s:%d", kind, sortKey(s), i)
		e.mapKeySort[k] = SArr(SAddr, SArr(ks, s))
		mi.vals = append(mi.vals, k)
	}
	return mi
}

func sortKey(s Sort) string { return sanitize(string(s)) }

func (e *Exec) mapDom(st *State, mi *mapInfo, m *Term) *Term {
	return Select(e.memGet(st, mi.dom), m)
}

func (e *Exec) mapLookup(st *State, mi *mapInfo, m *Term, k *Term) (Val, *Term) {
	k = coerce(k, mi.ks)
	ok := Select(e.mapDom(st, mi, m), k)
	z := flattenZero(e, mi)
	var leaves []*Term
	for i, vk := range mi.vals {
		x := Select(Select(e.memGet(st, vk), m), k)
		e.loadFacts(x, mi.vts[i])
		leaves = append(leaves, Ite(ok, x, z[i]))
	}
	if len(mi.vts) == 0 {
		return e.zero(mi.vt), ok
	}
	return e.unflatten(mi.vt, leaves), ok
}

func flattenZero(e *Exec, mi *mapInfo) []*Term {
	var out []*Term
	for _, t := range mi.vts {
		s, _ := scalarSort(t)
		out = append(out, zeroOfSort(s))
	}
	return out
}

func (e *Exec) mapUpdate(st *State, mi *mapInfo, m, k *Term, v Val) {
	k = coerce(k, mi.ks)
	d := e.mapDom(st, mi, m)
	had := Select(d, k)
	e.setMem(st, mi.dom, Store(e.memGet(st, mi.dom), m, Store(d, k, True())))
	if len(mi.vts) > 0 {
		for i, x := range flatten(v) {
			vk := mi.vals[i]
			s, _ := scalarSort(mi.vts[i])
			mm := e.memGet(st, vk)
			e.setMem(st, vk, Store(mm, m, Store(Select(mm, m), k, coerce(x, s))))
		}
	}
	lm := e.memGet(st, mi.ln)
	l := Select(lm, m)
	e.addFactG(Le(IntT(0), l))
	e.setMem(st, mi.ln, Store(lm, m, Ite(had, l, Add(l, IntT(1)))))
}

func (e *Exec) mapDelete(st *State, mi *mapInfo, m, k *Term) {
	k = coerce(k, mi.ks)
	d := e.mapDom(st, mi, m)
	had := Select(d, k)
	isNil := Eq(m, NilAddr())
	nd := Store(d, k, False())
	dm := e.memGet(st, mi.dom)
	lm := e.memGet(st, mi.ln)
	l := Select(lm, m)
	nlm := Store(lm, m, Ite(had, Add(l, IntT(-1)), l))
	e.setMem(st, mi.dom, Ite(isNil, dm, Store(dm, m, nd)))
	e.setMem(st, mi.ln, Ite(isNil, lm, nlm))
	e.mapLenFacts(st, mi, m)
}

// mapLenFacts ties the length to emptiness of the domain.
func (e *Exec) mapLenFacts(st *State, mi *mapInfo, m *Term) {
	l := Select(e.memGet(st, mi.ln), m)
	d := e.mapDom(st, mi, m)
	if d.Op == "constarr" {
		return
	}
	kv := NewBVar("mk", mi.ks)
	e.addFactG(And(Le(IntT(0), l), Imp(Eq(l, IntT(0)), Forall([]*Term{kv}, Not(Select(d, kv))))))
	// and a non-zero length has a witness
	w := e.fresh("mapwit", mi.ks)
	e.addFactG(Imp(Lt(IntT(0), l), Select(d, w)))
}

func (e *Exec) makeMap(st *State, t types.Type) *Term {
	mi := e.mapInfo(t)
	a := e.alloc(st)
	ks := mi.ks
	e.setMem(st, mi.dom, Store(e.memGet(st, mi.dom), a, ConstArr(SArr(ks, SBool), False())))
	e.setMem(st, mi.ln, Store(e.memGet(st, mi.ln), a, IntT(0)))
	return a
}

var _ = typeutil.Map{}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type libFn func(e *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool)

var ifaceLib = map[string]func(e *Exec, st *State, recv *Term, args []Val, sig *types.Signature) (Val, bool){}

var libModels map[string]libFn

func strLib(f func(a []*Term) *Term) libFn {
	return func(e *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
		var ts []*Term
		for _, a := range args {
			t, ok := a.(*Term)
			if !ok {
				return nil, false
			}
			ts = append(ts, t)
		}
		r := f(ts)
		if r == nil {
			return nil, false
		}
		return r, true
	}
}

func newError(e *Exec, st *State) *Term {
	a := e.alloc(st)
	return Ctor("mkiface", SIface, IntT(e.typeTag(newErrType)), Ctor("payA", SPay, a))
}

func init() {
	libModels = map[string]libFn{
		"strings.HasPrefix": strLib(func(a []*Term) *Term { return StrPrefix(a[1], a[0]) }),
		"strings.HasSuffix": strLib(func(a []*Term) *Term { return StrSuffix(a[1], a[0]) }),
		"strings.Contains":  strLib(func(a []*Term) *Term { return StrContains(a[0], a[1]) }),
		"strings.Index":     strLib(func(a []*Term) *Term { return StrIndex(a[0], a[1]) }),
		"strings.IndexByte": strLib(func(a []*Term) *Term { return StrIndex(a[0], Chr(a[1])) }),
		"strings.TrimPrefix": strLib(func(a []*Term) *Term {
			return Ite(StrPrefix(a[1], a[0]), Substr(a[0], StrLen(a[1]), StrLen(a[0])), a[0])
		}),
		"strings.TrimSuffix": strLib(func(a []*Term) *Term {
			return Ite(StrSuffix(a[1], a[0]), Substr(a[0], IntT(0), Sub(StrLen(a[0]), StrLen(a[1]))), a[0])
		}),
		"strings.ReplaceAll": strLib(func(a []*Term) *Term {
			return mk(&Term{Op: "str.replace_all", Args: []*Term{a[0], a[1], a[2]}, Sort: SStr})
		}),
		"strings.Compare": strLib(func(a []*Term) *Term {
			return Ite(Eq(a[0], a[1]), IntT(0), Ite(StrLt(a[0], a[1]), IntT(-1), IntT(1)))
		}),
		"strings.ToLower": strLib(func(a []*Term) *Term {
			if a[0].IsStr() {
				return StrT(strings.ToLower(a[0].Name))
			}
			return nil
		}),
		"strings.Cut": func(e *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
			s, sep := args[0].(*Term), args[1].(*Term)
			i := StrIndex(s, sep)
			ok := Le(IntT(0), i)
			return TupleV{Ite(ok, Substr(s, IntT(0), i), s), Ite(ok, Substr(s, Add(i, StrLen(sep)), StrLen(s)), StrT("")), ok}, true
		},
		"strconv.Itoa": strLib(func(a []*Term) *Term { return StrOfInt(a[0]) }),
		"errors.New": func(e *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
			return Ctor("mkiface", SIface, IntT(e.typeTag(plainErrType)), Ctor("payA", SPay, e.alloc(st))), true
		},
		"fmt.Errorf": func(e *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
			return newError(e, st), true
		},
		"fmt.Sprintf":        sprintf,
		"(time.Time).After":  strLib(func(a []*Term) *Term { return Lt(a[1], a[0]) }),
		"(time.Time).Before": strLib(func(a []*Term) *Term { return Lt(a[0], a[1]) }),
		"(time.Time).Equal":  strLib(func(a []*Term) *Term { return Eq(a[0], a[1]) }),
		"(time.Time).IsZero": strLib(func(a []*Term) *Term { return Eq(a[0], IntT(0)) }),
		"errors.Is": func(e *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
			x, y := args[0].(*Term), args[1].(*Term)
			u := UF("errors_Is", SBool, x, y)
			e.addFactG(And(Imp(Eq(x, y), u), Imp(Eq(Sel("i_tag", x), IntT(0)), Eq(u, Eq(Sel("i_tag", y), IntT(0))))))
			// errors made by errors.New (or the exported ones of other packages, taken to be such) wrap nothing
			plain := Or(Eq(Sel("i_tag", x), IntT(e.typeTag(externErrType))), Eq(Sel("i_tag", x), IntT(e.typeTag(plainErrType))))
			e.addFactG(Imp(plain, Eq(u, Eq(x, y))))
			if plain == BoolT(true) {
				return Eq(x, y), true
			}
			return u, true
		},
		"bytes.Equal": func(e *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
			return Eq(e.bytesOf(st, args[0].(*Term)), e.bytesOf(st, args[1].(*Term))), true
		},
		"bytes.HasPrefix": func(e *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
			return StrPrefix(e.bytesOf(st, args[1].(*Term)), e.bytesOf(st, args[0].(*Term))), true
		},
		"(os.FileMode).IsDir": func(e *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
			return nil, false
		},
	}
	bvm := func(f func(x *Term) *Term) libFn {
		return strLib(func(a []*Term) *Term {
			if !a[0].Sort.IsBV() {
				return nil
			}
			return f(a[0])
		})
	}
	c32 := func(n uint32) *Term { return BVT(newBig(uint64(n)), 32) }
	const modeDir, modeType, modePerm = 1 << 31, 1<<31 | 1<<27 | 1<<25 | 1<<24 | 1<<26 | 1<<21 | 1<<19, 0o777
	for _, p := range []string{"(io/fs.FileMode).", "(os.FileMode)."} {
		libModels[p+"IsDir"] = bvm(func(x *Term) *Term { return Ne(BV2("bvand", x, c32(modeDir)), c32(0)) })
		libModels[p+"IsRegular"] = bvm(func(x *Term) *Term { return Eq(BV2("bvand", x, c32(fileModeType)), c32(0)) })
		libModels[p+"Perm"] = bvm(func(x *Term) *Term { return BV2("bvand", x, c32(modePerm)) })
		libModels[p+"Type"] = bvm(func(x *Term) *Term { return BV2("bvand", x, c32(fileModeType)) })
	}
}

// sprintf handles formats made only of %s/%d/%q-free literal text with string and int arguments.
func sprintf(e *Exec, st *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
	f := args[0].(*Term)
	sl := args[1].(*Term)
	n := Sel("s_len", sl)
	if !f.IsStr() || !n.IsInt() {
		return nil, false
	}
	var parts []*Term
	ai := int64(0)
	s := f.Name
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			parts = append(parts, StrT(s[i:i+1]))
			continue
		}
		i++
		if i >= len(s) {
			return nil, false
		}
		if s[i] == '%' {
			parts = append(parts, StrT("%"))
			continue
		}
		if ai >= n.Int() {
			return nil, false
		}
		x := Select(e.memGet(st, string(SIface)), sliceElt(sl, IntT(ai)))
		ai++
		tag := Sel("i_tag", x)
		if !tag.IsInt() {
			return nil, false
		}
		t := e.tagTypes[tag.Int()]
		if t == nil {
			return nil, false
		}
		b, isB := t.Underlying().(*types.Basic)
		switch s[i] {
		case 's', 'v', 'd':
			_, named := t.(*types.Named)
			if isB && b.Info()&types.IsString != 0 && !named && s[i] != 'd' {
				parts = append(parts, Sel("p_str", Sel("i_pay", x)))
				continue
			}
			if isB && b.Info()&types.IsInteger != 0 && !named && s[i] != 's' {
				parts = append(parts, StrOfInt(Sel("p_int", Sel("i_pay", x))))
				continue
			}
			if s[i] != 'd' {
				// Stringer
				if ms := e.prog.MethodSets.MethodSet(t); ms != nil {
					if sel := ms.Lookup(nil, "String"); sel != nil {
						if m := e.prog.MethodValue(sel); m != nil && e.isRepo(m) {
							parts = append(parts, e.callFn(m, []Val{e.unIface(st, x, t)}, nil, st, pos).(*Term))
							continue
						}
					}
				}
			}
			return nil, false
		default:
			return nil, false
		}
	}
	if ai != n.Int() {
		return nil, false
	}
	return StrCat(parts...), true
}

// ---- intrinsics ----

func (e *Exec) intrinsic(name string, fn *ssa.Function, args []Val, st *State, pos token.Pos) Val {
	for _, p := range []string{"forallKey", "existsKey", "nondet", "freshObj", "identical", "visitedKey", "visitedTo"} {
		if strings.HasPrefix(name, p) {
			name = p
		}
	}
	n := len(e.mode)
	apply := n > 0 && e.mode[n-1].apply
	switch name {
	case "requires":
		c := args[0].(*Term)
		if apply {
			e.oblige("requires", "precondition of "+e.mode[n-1].con.Name, st, c, pos)
			e.mode[n-1].reqs = append(e.mode[n-1].reqs, c)
			return nil
		}
		e.addFactG(c)
		if c.IsFalse() {
			st.guard = False()
		}
		return nil
	case "ensures":
		c := args[1].(*Term)
		if apply {
			e.addFactG(Imp(And(e.mode[n-1].reqs...), c))
			// "result == expression" names the result (its preconditions are obligations of the caller)
			if m := e.mode[n-1]; c.Op == "=" && m.guard == st.guard {
				if cv, ok := m.captured.(*Term); ok && (cv.Op == "var" || cv.Op == "app") && m.named == nil {
					for i := 0; i < 2; i++ {
						if c.Args[i] == cv && !mentions(c.Args[1-i], cv) {
							m.named = c.Args[1-i]
						}
					}
				}
			}
			return nil
		}
		lbl := "postcondition"
		if t := args[0].(*Term); t.IsStr() {
			lbl = t.Name
		}
		e.oblige("ensures", lbl, st, c, pos)
		return nil
	case "check":
		lbl := "check"
		if t := args[0].(*Term); t.IsStr() {
			lbl = t.Name
		}
		e.oblige("check", lbl, st, args[1].(*Term), pos)
		return nil
	case "assume":
		e.addFactG(args[0].(*Term))
		if args[0].(*Term).IsFalse() {
			st.guard = False()
		}
		return nil
	case "forall", "exists":
		lo, hi := args[0].(*Term), args[1].(*Term)
		j := e.depthBVar("i", SInt)
		indexVars[j] = true
		rng := And(Le(lo, j), Lt(j, hi))
		r := e.quantBody(st, j, rng, args[2].(*Term), []Val{j}, fn, pos)
		if name == "forall" {
			return Forall([]*Term{j}, Imp(rng, r))
		}
		return Exists([]*Term{j}, And(rng, r))
	case "forallStr", "existsStr":
		j := e.depthBVar("s", SStr)
		r := e.quantBody(st, j, True(), args[0].(*Term), []Val{j}, fn, pos)
		if name == "forallStr" {
			return Forall([]*Term{j}, r)
		}
		return Exists([]*Term{j}, r)
	case "forallKey", "existsKey":
		mt := fn.Signature.Params().At(0).Type()
		mi := e.mapInfo(mt)
		k := e.depthBVar("k", mi.ks)
		rng := Select(e.mapDom(st, mi, args[0].(*Term)), k)
		switch mi.kt.Underlying().(type) {
		case *types.Pointer, *types.Map:
			// keys are well-formed references
			obj := Sel("a_obj", k)
			rng = And(rng, Imp(Eq(obj, IntT(0)), Eq(k, NilAddr())))
		}
		r := e.quantBody(st, k, rng, args[1].(*Term), []Val{e.unpackKey(mi.kt, k)}, fn, pos)
		if name == "forallKey" {
			return Forall([]*Term{k}, Imp(rng, r))
		}
		return Exists([]*Term{k}, And(rng, r))
	case "implies":
		return Imp(args[0].(*Term), args[1].(*Term))
	case "nondet":
		return e.sym("nd", fn.Signature.Results().At(0).Type(), st.alloc)
	case "visitedKey":
		// the keys the map iteration of the loop whose invariant this is has seen
		it := e.invIter
		if it == nil || it.mi == nil || it.dirty && !it.delOnly {
			return e.fresh("visited", SBool)
		}
		return Select(it.visited, e.mapKey(it.mi, args[0]))
	case "visitedTo":
		// where in its string the iteration of the loop whose invariant this is has arrived
		it := e.invIter
		if it == nil || it.mi != nil || it.pos == nil {
			return e.fresh("visited", SInt)
		}
		return it.pos
	case "identical":
		var cs []*Term
		x, y := flatten(args[0]), flatten(args[1])
		for i := range x {
			cs = append(cs, Eq(x[i], y[i]))
		}
		return And(cs...)
	case "freshObj":
		// a new object with arbitrary contents
		t := fn.Signature.Results().At(0).Type()
		a := e.alloc(st)
		e.store(st, a, t.Underlying().(*types.Pointer).Elem(), e.sym("fo", t.Underlying().(*types.Pointer).Elem(), st.alloc))
		return a
	case "verifying":
		return True()
	}
	unsup("intrinsic %s", name)
	return nil
}

func mentions(t, x *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// depthBVar names a bound variable by nesting depth, so that two evaluations of one specification
// function on the same values give the same term.
func (e *Exec) depthBVar(base string, s Sort) *Term {
	return mk(&Term{Op: "bvar", Name: fmt.Sprintf("Q_%s_%s_%d", base, sortKey(s), len(e.binders)), Sort: s})
}

func (e *Exec) quantBody(st *State, j, rng, f *Term, args []Val, fn *ssa.Function, pos token.Pos) *Term {
	if !f.IsInt() {
		unsup("quantifier body is not a literal function")
	}
	cl := e.closures[f.Int()]
	s := st.clone()
	s.guard = And(st.guard, rng)
	e.binders = append(e.binders, j)
	save := curState
	curState = s
	r := e.callFn(cl.fn, args, cl.bind, s, pos)
	curState = save
	e.binders = e.binders[:len(e.binders)-1]
	return r.(*Term)
}

var _ = fmt.Sprint

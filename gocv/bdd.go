package main

// Boolean simplification of path conditions and merged Boolean values by a small BDD.

type bddNode struct{ v, hi, lo int }

type bdd struct {
	nodes []bddNode
	uniq  map[bddNode]int
	memo  map[[3]int]int
	atoms []*Term
	aidx  map[*Term]int
	tmemo map[*Term]int
	limit int
}

type bddOverflow struct{}

func (b *bdd) mk(v, hi, lo int) int {
	if hi == lo {
		return hi
	}
	n := bddNode{v, hi, lo}
	if i, ok := b.uniq[n]; ok {
		return i
	}
	if len(b.nodes) > b.limit {
		panic(bddOverflow{})
	}
	b.nodes = append(b.nodes, n)
	b.uniq[n] = len(b.nodes) - 1
	return len(b.nodes) - 1
}

func (b *bdd) top(i int) int {
	if i < 2 {
		return 1 << 30
	}
	return b.nodes[i].v
}

func (b *bdd) cof(i, v int, pos bool) int {
	if b.top(i) != v {
		return i
	}
	if pos {
		return b.nodes[i].hi
	}
	return b.nodes[i].lo
}

func (b *bdd) ite(f, g, h int) int {
	switch {
	case f == 1:
		return g
	case f == 0:
		return h
	case g == h:
		return g
	case g == 1 && h == 0:
		return f
	}
	k := [3]int{f, g, h}
	if r, ok := b.memo[k]; ok {
		return r
	}
	if len(b.memo) > 8*b.limit {
		panic(bddOverflow{})
	}
	v := min(b.top(f), b.top(g), b.top(h))
	r := b.mk(v, b.ite(b.cof(f, v, true), b.cof(g, v, true), b.cof(h, v, true)), b.ite(b.cof(f, v, false), b.cof(g, v, false), b.cof(h, v, false)))
	b.memo[k] = r
	return r
}

func (b *bdd) build(t *Term) int {
	if r, ok := b.tmemo[t]; ok {
		return r
	}
	var r int
	switch {
	case t.IsTrue():
		r = 1
	case t.IsFalse():
		r = 0
	case t.Op == "not":
		r = b.ite(b.build(t.Args[0]), 0, 1)
	case t.Op == "and":
		r = 1
		for _, a := range t.Args {
			r = b.ite(r, b.build(a), 0)
		}
	case t.Op == "or":
		r = 0
		for _, a := range t.Args {
			r = b.ite(r, 1, b.build(a))
		}
	case t.Op == "=>":
		r = b.ite(b.build(t.Args[0]), b.build(t.Args[1]), 1)
	case t.Op == "ite" && t.Sort == SBool:
		r = b.ite(b.build(t.Args[0]), b.build(t.Args[1]), b.build(t.Args[2]))
	case t.Op == "=" && t.Args[0].Sort == SBool:
		g := b.build(t.Args[1])
		r = b.ite(b.build(t.Args[0]), g, b.ite(g, 0, 1))
	default:
		i, ok := b.aidx[t]
		if !ok {
			i = len(b.atoms)
			if i > 60 {
				panic(bddOverflow{})
			}
			b.aidx[t] = i
			b.atoms = append(b.atoms, t)
		}
		r = b.mk(i, 1, 0)
	}
	b.tmemo[t] = r
	return r
}

func (b *bdd) term(i int, memo map[int]*Term) *Term {
	switch i {
	case 0:
		return False()
	case 1:
		return True()
	}
	if t, ok := memo[i]; ok {
		return t
	}
	n := b.nodes[i]
	v := b.atoms[n.v]
	hi, lo := b.term(n.hi, memo), b.term(n.lo, memo)
	var t *Term
	switch {
	case n.lo == 0:
		t = And(v, hi)
	case n.hi == 1:
		t = Or(v, lo)
	case n.hi == 0:
		t = And(Not(v), lo)
	case n.lo == 1:
		t = Or(Not(v), hi)
	default:
		t = Or(And(v, hi), And(Not(v), lo))
	}
	memo[i] = t
	return t
}

var simpMemo = map[*Term]*Term{}

func boolSize(t *Term, seen map[*Term]bool, n *int) {
	if seen[t] {
		*n++
		return
	}
	seen[t] = true
	*n++
	switch t.Op {
	case "not", "and", "or", "=>", "ite":
		for _, a := range t.Args {
			if a.Sort == SBool {
				boolSize(a, seen, n)
			}
		}
	}
}

// simpBool returns an equivalent, no larger formula.
func simpBool(t *Term) (out *Term) {
	if t.Op != "or" && t.Op != "and" && t.Op != "ite" && t.Op != "=>" {
		return t
	}
	if r, ok := simpMemo[t]; ok {
		return r
	}
	out = t
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(bddOverflow); !ok {
				panic(r)
			}
			out = t
		}
		simpMemo[t] = out
	}()
	b := &bdd{nodes: make([]bddNode, 2), uniq: map[bddNode]int{}, memo: map[[3]int]int{}, aidx: map[*Term]int{}, tmemo: map[*Term]int{}, limit: 1500}
	b.nodes[0].v, b.nodes[1].v = 1<<30, 1<<30
	r := b.term(b.build(t), map[int]*Term{})
	var n0, n1 int
	boolSize(t, map[*Term]bool{}, &n0)
	boolSize(r, map[*Term]bool{}, &n1)
	if n1 <= n0 {
		out = r
	}
	return out
}

package main

// Hash-consed SMT terms with a small simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort string

const (
	SBool  Sort = "Bool"
	SInt   Sort = "Int"
	SStr   Sort = "String"
	SAddr  Sort = "Addr"
	SPath  Sort = "Path"
	SSlice Sort = "Slice"
	SIface Sort = "Iface"
	SPay   Sort = "Payload"
)

func SBV(n int) Sort      { return Sort(fmt.Sprintf("(_ BitVec %d)", n)) }
func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }
func (s Sort) IsBV() bool { return strings.HasPrefix(string(s), "(_ BitVec") }
func (s Sort) BVWidth() (n int) {
	fmt.Sscanf(string(s), "(_ BitVec %d)", &n)
	return
}
func (s Sort) arrParts() (Sort, Sort) {
	str := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	depth := 0
	for i, c := range str {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	Op    string // "int","bool","str","bv","var","bvar","app","forall","exists", or an SMT operator
	Name  string // var/bvar/app symbol, or literal string payload
	Num   *big.Int
	Args  []*Term
	Sort  Sort
	Bound []*Term // forall/exists
	Pats  [][]*Term
	id    int
	bv    []*Term // free bound vars (sorted by id), cached
	// metadata for vars
	Mark *Term // memory vars: allocation counter at creation; addr vars: upper bound on object id
}

type TermDB struct {
	tab   map[string]*Term
	next  int
	decls map[string]string // symbol -> declaration
	order []string
	uniq  map[string]int
	// lower bounds of alloc-counter symbols
	lower    map[*Term]*Term
	lowers   map[*Term][]*Term
	selCache map[[2]int]*Term
	index    map[string]int // creation index of fresh symbols
}

var DB *TermDB

func NewTermDB() *TermDB {
	return &TermDB{tab: map[string]*Term{}, decls: map[string]string{}, uniq: map[string]int{}, lower: map[*Term]*Term{}, lowers: map[*Term][]*Term{}, index: map[string]int{}, selCache: map[[2]int]*Term{}}
}

func key(t *Term) string {
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('|')
	sb.WriteString(t.Name)
	sb.WriteByte('|')
	if t.Num != nil {
		sb.WriteString(t.Num.String())
	}
	sb.WriteByte('|')
	sb.WriteString(string(t.Sort))
	for _, a := range t.Args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	if t.Bound != nil {
		sb.WriteString("|b")
		for _, a := range t.Bound {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
		for _, ps := range t.Pats {
			sb.WriteString("|p")
			for _, a := range ps {
				fmt.Fprintf(&sb, ",%d", a.id)
			}
		}
	}
	return sb.String()
}

func mk(t *Term) *Term {
	k := key(t)
	if o, ok := DB.tab[k]; ok {
		return o
	}
	t.id = DB.next
	DB.next++
	DB.tab[k] = t
	// free bound vars
	set := map[*Term]bool{}
	if t.Op == "bvar" {
		set[t] = true
	}
	for _, a := range t.Args {
		for _, b := range a.bv {
			set[b] = true
		}
	}
	for _, b := range t.Bound {
		delete(set, b)
	}
	for b := range set {
		t.bv = append(t.bv, b)
	}
	sort.Slice(t.bv, func(i, j int) bool { return t.bv[i].id < t.bv[j].id })
	return t
}

func IntT(n int64) *Term    { return mk(&Term{Op: "int", Num: big.NewInt(n), Sort: SInt}) }
func BigT(n *big.Int) *Term { return mk(&Term{Op: "int", Num: n, Sort: SInt}) }
func StrT(s string) *Term   { return mk(&Term{Op: "str", Name: s, Sort: SStr}) }
func BVT(n *big.Int, w int) *Term {
	m := new(big.Int).And(n, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1)))
	return mk(&Term{Op: "bv", Num: m, Sort: SBV(w)})
}
func BoolT(b bool) *Term {
	n := "false"
	if b {
		n = "true"
	}
	return mk(&Term{Op: "bool", Name: n, Sort: SBool})
}

func True() *Term  { return BoolT(true) }
func False() *Term { return BoolT(false) }

func (t *Term) IsTrue() bool  { return t.Op == "bool" && t.Name == "true" }
func (t *Term) IsFalse() bool { return t.Op == "bool" && t.Name == "false" }
func (t *Term) IsInt() bool   { return t.Op == "int" }
func (t *Term) IsStr() bool   { return t.Op == "str" }
func (t *Term) IsConst() bool {
	return t.Op == "int" || t.Op == "str" || t.Op == "bool" || t.Op == "bv"
}
func (t *Term) Int() int64 { return t.Num.Int64() }

func uniqName(base string) string {
	base = sanitize(base)
	n := DB.uniq[base]
	DB.uniq[base] = n + 1
	if n == 0 {
		return base
	}
	return fmt.Sprintf("%s!%d", base, n)
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, c := range s {
		switch {
		case c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= '0' && c <= '9', c == '_', c == '.', c == '!', c == '$':
			sb.WriteRune(c)
		default:
			sb.WriteByte('_')
		}
	}
	r := sb.String()
	if r == "" || (r[0] >= '0' && r[0] <= '9') {
		r = "v" + r
	}
	return r
}

// NewVar declares a fresh constant.
func NewVar(base string, s Sort) *Term {
	n := uniqName("k_" + base)
	DB.decls[n] = fmt.Sprintf("(declare-fun %s () %s)", n, s)
	DB.index[n] = len(DB.order)
	DB.order = append(DB.order, n)
	return mk(&Term{Op: "var", Name: n, Sort: s})
}

// NamedVar declares (once) a constant with exactly that name.
func NamedVar(n string, s Sort) *Term {
	n = sanitize(n)
	if _, ok := DB.decls[n]; !ok {
		DB.decls[n] = fmt.Sprintf("(declare-fun %s () %s)", n, s)
		DB.order = append(DB.order, n)
	}
	return mk(&Term{Op: "var", Name: n, Sort: s})
}

func NewBVar(base string, s Sort) *Term {
	return mk(&Term{Op: "bvar", Name: uniqName("q_" + base), Sort: s})
}

// UF applies an uninterpreted function, declaring it on first use.
func UF(name string, ret Sort, args ...*Term) *Term {
	name = sanitize(name)
	if len(args) == 0 {
		return NamedVar(name, ret)
	}
	if _, ok := DB.decls[name]; !ok {
		var as []string
		for _, a := range args {
			as = append(as, string(a.Sort))
		}
		DB.decls[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(as, " "), ret)
		DB.order = append(DB.order, name)
	}
	return mk(&Term{Op: "app", Name: name, Args: args, Sort: ret})
}

// --- boolean ---

func Not(a *Term) *Term {
	if a.IsTrue() {
		return False()
	}
	if a.IsFalse() {
		return True()
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return mk(&Term{Op: "not", Args: []*Term{a}, Sort: SBool})
}

func flat(op string, in []*Term, out []*Term) []*Term {
	for _, a := range in {
		if a.Op == op {
			out = flat(op, a.Args, out)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func And(in ...*Term) *Term {
	var args []*Term
	seen := map[int]bool{}
	for _, a := range flat("and", in, nil) {
		if a.IsTrue() || seen[a.id] {
			continue
		}
		if a.IsFalse() {
			return a
		}
		seen[a.id] = true
		args = append(args, a)
	}
	for _, a := range args {
		if a.Op == "not" && seen[a.Args[0].id] {
			return False()
		}
	}
	switch len(args) {
	case 0:
		return True()
	case 1:
		return args[0]
	}
	return mk(&Term{Op: "and", Args: args, Sort: SBool})
}

func Or(in ...*Term) *Term {
	var args []*Term
	seen := map[int]bool{}
	for _, a := range flat("or", in, nil) {
		if a.IsFalse() || seen[a.id] {
			continue
		}
		if a.IsTrue() {
			return a
		}
		seen[a.id] = true
		args = append(args, a)
	}
	for _, a := range args {
		if a.Op == "not" && seen[a.Args[0].id] {
			return True()
		}
	}
	switch len(args) {
	case 0:
		return False()
	case 1:
		return args[0]
	}
	// factor common conjuncts:  (g & c) | (g & !c)  ->  g
	common := conjs(args[0])
	for _, a := range args[1:] {
		cs := map[int]bool{}
		for _, c := range conjs(a) {
			cs[c.id] = true
		}
		var keep []*Term
		for _, c := range common {
			if cs[c.id] {
				keep = append(keep, c)
			}
		}
		common = keep
		if len(common) == 0 {
			break
		}
	}
	if len(common) > 0 {
		cm := map[int]bool{}
		for _, c := range common {
			cm[c.id] = true
		}
		var rest []*Term
		for _, a := range args {
			var r []*Term
			for _, c := range conjs(a) {
				if !cm[c.id] {
					r = append(r, c)
				}
			}
			rest = append(rest, And(r...))
		}
		return And(append(common, Or(rest...))...)
	}
	// (a) | (!a & b) -> a | b
	for i, a := range args {
		na := Not(a)
		changed := false
		for j, b := range args {
			if i == j || b.Op != "and" {
				continue
			}
			var r []*Term
			hit := false
			for _, c := range b.Args {
				if c == na {
					hit = true
				} else {
					r = append(r, c)
				}
			}
			if hit {
				args[j] = And(r...)
				changed = true
			}
		}
		if changed {
			return Or(args...)
		}
	}
	return mk(&Term{Op: "or", Args: args, Sort: SBool})
}

func conjs(a *Term) []*Term {
	if a.Op == "and" {
		return a.Args
	}
	return []*Term{a}
}

func Imp(a, b *Term) *Term {
	if a.IsTrue() {
		return b
	}
	if a.IsFalse() || b.IsTrue() {
		return True()
	}
	if b.IsFalse() {
		return Not(a)
	}
	if a == b {
		return True()
	}
	if b.Op == "=>" {
		return Imp(And(a, b.Args[0]), b.Args[1])
	}
	have := map[*Term]bool{}
	for _, c := range conjs(a) {
		have[c] = true
	}
	if b.Op == "and" {
		var keep []*Term
		for _, c := range b.Args {
			if !have[c] {
				keep = append(keep, c)
			}
		}
		if len(keep) < len(b.Args) {
			return Imp(a, And(keep...))
		}
	}
	if have[b] {
		return True()
	}
	if b.Op == "or" {
		for _, c := range b.Args {
			if have[c] {
				return True()
			}
		}
	}
	return mk(&Term{Op: "=>", Args: []*Term{a, b}, Sort: SBool})
}

func Ite(c, a, b *Term) *Term {
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s / %s : %s  %s", a.Sort, b.Sort, a, b))
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if a.Sort == SBool {
		if a.IsTrue() {
			return Or(c, b)
		}
		if a.IsFalse() {
			return And(Not(c), b)
		}
		if b.IsTrue() {
			return Or(Not(c), a)
		}
		if b.IsFalse() {
			return And(c, a)
		}
	}
	if b.Op == "ite" && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	if a.Op == "ite" && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	return mk(&Term{Op: "ite", Args: []*Term{c, a, b}, Sort: a.Sort})
}

// --- equality ---

func Eq(a, b *Term) *Term {
	if a == b {
		return True()
	}
	if a.Sort != b.Sort {
		if a.Sort.IsBV() && b.Sort == SInt {
			b = Int2BV(b, a.Sort.BVWidth())
		} else if b.Sort.IsBV() && a.Sort == SInt {
			a = Int2BV(a, b.Sort.BVWidth())
		} else {
			panic(fmt.Sprintf("eq sorts %s / %s: %s  ==  %s", a.Sort, b.Sort, a, b))
		}
		return Eq(a, b)
	}
	if a.IsConst() && b.IsConst() {
		return False() // hash-consed and different
	}
	if a.Sort == SBool {
		if a.IsTrue() {
			return b
		}
		if a.IsFalse() {
			return Not(b)
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return Not(a)
		}
	}
	if a.Sort == SAddr {
		switch addrRel(a, b) {
		case relNE:
			return False()
		}
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		if a.Name != b.Name {
			return False()
		}
		var cs []*Term
		for i := range a.Args {
			cs = append(cs, Eq(a.Args[i], b.Args[i]))
		}
		return And(cs...)
	}
	// push into ite with constant leaves
	if a.Op == "ite" && (b.IsConst() || b.Op == "ctor") && iteLeavesConst(a, 6) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (a.IsConst() || a.Op == "ctor") && iteLeavesConst(b, 6) {
		return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
	}
	if a.Sort == SInt {
		// linear normalization of x + c == y + c'
		ab, ac := splitAdd(a)
		bb, bc := splitAdd(b)
		if ab == bb {
			return BoolT(ac.Cmp(bc) == 0)
		}
	}
	if a.Op == "str.at" && b.IsStr() && len(b.Name) > 1 {
		return False()
	}
	if b.id < a.id {
		a, b = b, a
	}
	return mk(&Term{Op: "=", Args: []*Term{a, b}, Sort: SBool})
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func iteLeavesConst(t *Term, d int) bool {
	if t.IsConst() || t.Op == "ctor" {
		return true
	}
	if t.Op == "ite" && d > 0 {
		return iteLeavesConst(t.Args[1], d-1) || iteLeavesConst(t.Args[2], d-1)
	}
	return false
}

// --- integer arithmetic ---

func splitAdd(t *Term) (*Term, *big.Int) {
	if t.IsInt() {
		return nil, t.Num
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[1].IsInt() {
		return t.Args[0], t.Args[1].Num
	}
	return t, big.NewInt(0)
}

func Add(a, b *Term) *Term {
	if a.IsInt() && b.IsInt() {
		return BigT(new(big.Int).Add(a.Num, b.Num))
	}
	ab, ac := splitAdd(a)
	bb, bc := splitAdd(b)
	c := new(big.Int).Add(ac, bc)
	var base *Term
	switch {
	case ab == nil:
		base = bb
	case bb == nil:
		base = ab
	default:
		if ab.Op == "neg" && ab.Args[0] == bb || bb.Op == "neg" && bb.Args[0] == ab {
			return BigT(c)
		}
		base = mk(&Term{Op: "+", Args: []*Term{ab, bb}, Sort: SInt})
	}
	if c.Sign() == 0 {
		return base
	}
	return mk(&Term{Op: "+", Args: []*Term{base, BigT(c)}, Sort: SInt})
}

func Neg(a *Term) *Term {
	if a.IsInt() {
		return BigT(new(big.Int).Neg(a.Num))
	}
	if a.Op == "neg" {
		return a.Args[0]
	}
	if b, c := splitAdd(a); b != nil && c.Sign() != 0 {
		return Add(Neg(b), BigT(new(big.Int).Neg(c)))
	}
	return mk(&Term{Op: "neg", Args: []*Term{a}, Sort: SInt})
}

func Sub(a, b *Term) *Term {
	if a == b {
		return IntT(0)
	}
	ab, ac := splitAdd(a)
	bb, bc := splitAdd(b)
	if ab == bb {
		return BigT(new(big.Int).Sub(ac, bc))
	}
	if ab != nil && ab.Op == "+" && bb != nil {
		// (x + y) - x
		if ab.Args[0] == bb {
			return Add(ab.Args[1], BigT(new(big.Int).Sub(ac, bc)))
		}
		if ab.Args[1] == bb {
			return Add(ab.Args[0], BigT(new(big.Int).Sub(ac, bc)))
		}
	}
	return Add(a, Neg(b))
}

func Mul(a, b *Term) *Term {
	if a.IsInt() && b.IsInt() {
		return BigT(new(big.Int).Mul(a.Num, b.Num))
	}
	if a.IsInt() && a.Num.Cmp(big.NewInt(1)) == 0 {
		return b
	}
	if b.IsInt() && b.Num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk(&Term{Op: "*", Args: []*Term{a, b}, Sort: SInt})
}

func Le(a, b *Term) *Term {
	if a.IsInt() && b.IsInt() {
		return BoolT(a.Num.Cmp(b.Num) <= 0)
	}
	if a == b {
		return True()
	}
	ab, ac := splitAdd(a)
	bb, bc := splitAdd(b)
	if ab == bb {
		return BoolT(ac.Cmp(bc) <= 0)
	}
	if b.IsInt() && a.Op == "str.len" && b.Num.Sign() < 0 {
		return False()
	}
	if a.IsInt() && b.Op == "str.len" && a.Num.Sign() <= 0 {
		return True()
	}
	if b.IsInt() && a.Op == "ite" && iteLeavesConst(a, 4) {
		return Ite(a.Args[0], Le(a.Args[1], b), Le(a.Args[2], b))
	}
	if a.IsInt() && b.Op == "ite" && iteLeavesConst(b, 4) {
		return Ite(b.Args[0], Le(a, b.Args[1]), Le(a, b.Args[2]))
	}
	return mk(&Term{Op: "<=", Args: []*Term{a, b}, Sort: SBool})
}
func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Not(Le(a, b)) }

// --- bitvectors ---

func bvMask(w int) *big.Int {
	return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))
}

func BV2(op string, a, b *Term) *Term {
	w := a.Sort.BVWidth()
	if a.Op == "bv" && b.Op == "bv" {
		r := new(big.Int)
		switch op {
		case "bvand":
			return BVT(r.And(a.Num, b.Num), w)
		case "bvor":
			return BVT(r.Or(a.Num, b.Num), w)
		case "bvxor":
			return BVT(r.Xor(a.Num, b.Num), w)
		case "bvadd":
			return BVT(r.Add(a.Num, b.Num), w)
		case "bvsub":
			return BVT(new(big.Int).And(r.Sub(a.Num, b.Num), bvMask(w)), w)
		case "bvshl":
			if b.Num.IsInt64() && b.Num.Int64() < 256 {
				return BVT(r.Lsh(a.Num, uint(b.Num.Int64())), w)
			}
		case "bvlshr":
			if b.Num.IsInt64() && b.Num.Int64() < 256 {
				return BVT(r.Rsh(a.Num, uint(b.Num.Int64())), w)
			}
		}
	}
	return mk(&Term{Op: op, Args: []*Term{a, b}, Sort: a.Sort})
}

func BVNot(a *Term) *Term {
	if a.Op == "bv" {
		return BVT(new(big.Int).Xor(a.Num, bvMask(a.Sort.BVWidth())), a.Sort.BVWidth())
	}
	return mk(&Term{Op: "bvnot", Args: []*Term{a}, Sort: a.Sort})
}

func BVUle(a, b *Term) *Term {
	if a.Op == "bv" && b.Op == "bv" {
		return BoolT(a.Num.Cmp(b.Num) <= 0)
	}
	return mk(&Term{Op: "bvule", Args: []*Term{a, b}, Sort: SBool})
}

// BVResize zero-extends or truncates.
func BVResize(a *Term, w int) *Term {
	aw := a.Sort.BVWidth()
	if aw == w {
		return a
	}
	if a.Op == "bv" {
		return BVT(a.Num, w)
	}
	if w < aw {
		return mk(&Term{Op: fmt.Sprintf("(_ extract %d 0)", w-1), Args: []*Term{a}, Sort: SBV(w)})
	}
	return mk(&Term{Op: fmt.Sprintf("(_ zero_extend %d)", w-aw), Args: []*Term{a}, Sort: SBV(w)})
}

func BV2Int(a *Term) *Term {
	if a.Op == "bv" {
		return BigT(a.Num)
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], BV2Int(a.Args[1]), BV2Int(a.Args[2]))
	}
	return mk(&Term{Op: "bv2nat", Args: []*Term{a}, Sort: SInt})
}

func Int2BV(a *Term, w int) *Term {
	if a.IsInt() {
		m := new(big.Int).Mod(a.Num, new(big.Int).Lsh(big.NewInt(1), uint(w)))
		return BVT(m, w)
	}
	if a.Op == "bv2nat" {
		return BVResize(a.Args[0], w)
	}
	if a.Op == "ite" {
		return Ite(a.Args[0], Int2BV(a.Args[1], w), Int2BV(a.Args[2], w))
	}
	return mk(&Term{Op: fmt.Sprintf("(_ int2bv %d)", w), Args: []*Term{a}, Sort: SBV(w)})
}

// --- strings ---

func StrLen(a *Term) *Term {
	if a.IsStr() {
		return IntT(int64(len(a.Name)))
	}
	if a.Op == "str.++" {
		r := IntT(0)
		for _, x := range a.Args {
			r = Add(r, StrLen(x))
		}
		return r
	}
	if a.Op == "chr" {
		return IntT(1)
	}
	return mk(&Term{Op: "str.len", Args: []*Term{a}, Sort: SInt})
}

func StrCat(in ...*Term) *Term {
	var args []*Term
	for _, a := range flat("str.++", in, nil) {
		if a.IsStr() && a.Name == "" {
			continue
		}
		if n := len(args); n > 0 && args[n-1].IsStr() && a.IsStr() {
			args[n-1] = StrT(args[n-1].Name + a.Name)
			continue
		}
		args = append(args, a)
	}
	switch len(args) {
	case 0:
		return StrT("")
	case 1:
		return args[0]
	}
	return mk(&Term{Op: "str.++", Args: args, Sort: SStr})
}

// Chr is the one-byte string with the given code (an Int 0..255 or BV8 term).
func Chr(code *Term) *Term {
	if code.IsInt() {
		return StrT(string([]byte{byte(code.Int())}))
	}
	if code.Op == "ord" { // chr(ord(s)) where s is one char
		return code.Args[0]
	}
	if code.Op == "ite" {
		return Ite(code.Args[0], Chr(code.Args[1]), Chr(code.Args[2]))
	}
	return mk(&Term{Op: "chr", Args: []*Term{code}, Sort: SStr})
}

// Ord is the code of a one-byte string.
func Ord(s *Term) *Term {
	if s.IsStr() && len(s.Name) == 1 {
		return IntT(int64(s.Name[0]))
	}
	if s.Op == "chr" {
		return s.Args[0]
	}
	if s.Op == "ite" {
		return Ite(s.Args[0], Ord(s.Args[1]), Ord(s.Args[2]))
	}
	return mk(&Term{Op: "ord", Args: []*Term{s}, Sort: SInt})
}

func StrAt(s, i *Term) *Term { return Substr(s, i, Add(i, IntT(1))) }

// Substr is s[lo:hi] (assuming bounds hold).
func Substr(s, lo, hi *Term) *Term {
	if lo == hi {
		return StrT("")
	}
	if lo.IsInt() && lo.Num.Sign() == 0 && hi == StrLen(s) {
		return s
	}
	if s.IsStr() && lo.IsInt() && hi.IsInt() {
		l, h := lo.Int(), hi.Int()
		if 0 <= l && l <= h && h <= int64(len(s.Name)) {
			return StrT(s.Name[l:h])
		}
	}
	if s.Op == "str.++" && lo.IsInt() && hi.IsInt() {
		// peel constant-length parts
		l, h := lo.Int(), hi.Int()
		pos := int64(0)
		var out []*Term
		ok := true
		for _, a := range s.Args {
			ln := StrLen(a)
			if !ln.IsInt() {
				ok = pos >= h
				break
			}
			n := ln.Int()
			if pos+n > l && pos < h {
				x, y := max(l-pos, 0), min(h-pos, n)
				if x == 0 && y == n {
					out = append(out, a)
				} else {
					out = append(out, Substr(a, IntT(x), IntT(y)))
				}
			}
			pos += n
			if pos >= h {
				break
			}
		}
		if ok {
			return StrCat(out...)
		}
	}
	if s.Op == "str.++" && lo.IsInt() && hi == StrLen(s) {
		// drop constant prefix
		if f := s.Args[0]; f.IsStr() && lo.Int() <= int64(len(f.Name)) {
			return StrCat(append([]*Term{StrT(f.Name[lo.Int():])}, s.Args[1:]...)...)
		}
	}
	n := Sub(hi, lo)
	if n.IsInt() && n.Int() == 1 {
		return mk(&Term{Op: "str.at", Args: []*Term{s, lo}, Sort: SStr})
	}
	return mk(&Term{Op: "str.substr", Args: []*Term{s, lo, n}, Sort: SStr})
}

func StrPrefix(pre, s *Term) *Term { // HasPrefix(s, pre)
	if pre.IsStr() && s.IsStr() {
		return BoolT(strings.HasPrefix(s.Name, pre.Name))
	}
	if pre.IsStr() && pre.Name == "" || pre == s {
		return True()
	}
	if s.Op == "str.++" && pre.IsStr() {
		f := s.Args[0]
		if f.IsStr() {
			if len(f.Name) >= len(pre.Name) {
				return BoolT(strings.HasPrefix(f.Name, pre.Name))
			}
			if !strings.HasPrefix(pre.Name, f.Name) {
				return False()
			}
			return StrPrefix(StrT(pre.Name[len(f.Name):]), StrCat(s.Args[1:]...))
		}
	}
	return mk(&Term{Op: "str.prefixof", Args: []*Term{pre, s}, Sort: SBool})
}

func StrSuffix(suf, s *Term) *Term {
	if suf.IsStr() && s.IsStr() {
		return BoolT(strings.HasSuffix(s.Name, suf.Name))
	}
	if suf.IsStr() && suf.Name == "" || suf == s {
		return True()
	}
	return mk(&Term{Op: "str.suffixof", Args: []*Term{suf, s}, Sort: SBool})
}

func StrContains(s, sub *Term) *Term {
	if s.IsStr() && sub.IsStr() {
		return BoolT(strings.Contains(s.Name, sub.Name))
	}
	return mk(&Term{Op: "str.contains", Args: []*Term{s, sub}, Sort: SBool})
}

func StrIndex(s, sub *Term) *Term {
	if s.IsStr() && sub.IsStr() {
		return IntT(int64(strings.Index(s.Name, sub.Name)))
	}
	return mk(&Term{Op: "str.indexof", Args: []*Term{s, sub, IntT(0)}, Sort: SInt})
}

func StrLt(a, b *Term) *Term {
	if a.IsStr() && b.IsStr() {
		return BoolT(a.Name < b.Name)
	}
	if a == b || b.IsStr() && b.Name == "" {
		return False()
	}
	if a.IsStr() && a.Name == "" {
		return Ne(b, a)
	}
	return mk(&Term{Op: "slt", Args: []*Term{a, b}, Sort: SBool})
}

// StrOfInt renders an integer in decimal.
func StrOfInt(a *Term) *Term {
	if a.IsInt() {
		return StrT(a.Num.String())
	}
	pos := mk(&Term{Op: "str.from_int", Args: []*Term{a}, Sort: SStr})
	neg := StrCat(StrT("-"), mk(&Term{Op: "str.from_int", Args: []*Term{Neg(a)}, Sort: SStr}))
	return Ite(Le(IntT(0), a), pos, neg)
}

// --- datatypes ---

func Ctor(name string, s Sort, args ...*Term) *Term {
	// eta: mkslice(sel0 x, sel1 x, ...) -> x
	if len(args) > 0 {
		if sels, ok := ctorSels[name]; ok {
			var base *Term
			all := true
			for i, a := range args {
				if a.Op != "sel" || a.Name != sels[i] || (base != nil && a.Args[0] != base) {
					all = false
					break
				}
				base = a.Args[0]
			}
			if all && base.Sort == s && singleCtor[s] {
				return base
			}
		}
	}
	return mk(&Term{Op: "ctor", Name: name, Args: args, Sort: s})
}

var ctorSels = map[string][]string{
	"mkaddr":  {"a_obj", "a_path"},
	"pfld":    {"pf_p", "pf_i"},
	"pelt":    {"pe_p", "pe_i"},
	"mkslice": {"s_base", "s_off", "s_len", "s_cap"},
	"mkiface": {"i_tag", "i_pay"},
	"payA":    {"p_addr"},
	"payI":    {"p_int"},
	"payS":    {"p_str"},
	"payB":    {"p_bool"},
	"payL":    {"p_slice"},
}
var singleCtor = map[Sort]bool{SAddr: true, SSlice: true, SIface: true}
var selSort = map[string]Sort{
	"a_obj": SInt, "a_path": SPath, "pf_p": SPath, "pf_i": SInt, "pe_p": SPath, "pe_i": SInt,
	"s_base": SAddr, "s_off": SInt, "s_len": SInt, "s_cap": SInt,
	"i_tag": SInt, "i_pay": SPay, "p_addr": SAddr, "p_int": SInt, "p_str": SStr, "p_bool": SBool, "p_slice": SSlice,
}

const prelude = `(declare-datatypes ((Path 0)) (((pnil) (pfld (pf_p Path) (pf_i Int)) (pelt (pe_p Path) (pe_i Int)))))
(declare-datatypes ((Addr 0)) (((mkaddr (a_obj Int) (a_path Path)))))
(declare-datatypes ((Slice 0)) (((mkslice (s_base Addr) (s_off Int) (s_len Int) (s_cap Int)))))
(declare-datatypes ((Payload 0)) (((payA (p_addr Addr)) (payI (p_int Int)) (payS (p_str String)) (payB (p_bool Bool)) (payL (p_slice Slice)))))
(declare-datatypes ((Iface 0)) (((mkiface (i_tag Int) (i_pay Payload)))))
`

func Sel(name string, t *Term) *Term {
	if t.Op == "ctor" {
		sels := ctorSels[t.Name]
		for i, s := range sels {
			if s == name {
				return t.Args[i]
			}
		}
		if t.Sort == SPay || t.Sort == SPath {
			// wrong constructor: arbitrary value
			return mk(&Term{Op: "sel", Name: name, Args: []*Term{t}, Sort: selSort[name]})
		}
		panic("sel " + name + " of " + t.Name)
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], Sel(name, t.Args[1]), Sel(name, t.Args[2]))
	}
	if name == "s_off" && startsAtZero(t) {
		return IntT(0)
	}
	return mk(&Term{Op: "sel", Name: name, Args: []*Term{t}, Sort: selSort[name]})
}

// off0: slice values of the pre-state (inputs, results of externals). They start at index 0 of
// their backing array: overlapping input slices are excluded (a stated assumption).
var off0 = map[*Term]bool{}

func startsAtZero(t *Term) bool {
	if off0[t] {
		return true
	}
	return t.Op == "select" && t.Args[0].Op == "var" && t.Args[0].Name == "M0_Slice"
}

func PNil() *Term               { return Ctor("pnil", SPath) }
func MkAddr(obj, p *Term) *Term { return Ctor("mkaddr", SAddr, obj, p) }
func NilAddr() *Term            { return MkAddr(IntT(0), PNil()) }
func FldAddr(a *Term, f int64) *Term {
	return MkAddr(Sel("a_obj", a), Ctor("pfld", SPath, Sel("a_path", a), IntT(f)))
}
func EltAddr(a, i *Term) *Term {
	return MkAddr(Sel("a_obj", a), Ctor("pelt", SPath, Sel("a_path", a), i))
}
func MkSlice(base, off, ln, cp *Term) *Term { return Ctor("mkslice", SSlice, base, off, ln, cp) }
func NilSlice() *Term                       { return MkSlice(NilAddr(), IntT(0), IntT(0), IntT(0)) }
func NilIface() *Term                       { return Ctor("mkiface", SIface, IntT(0), Ctor("payI", SPay, IntT(0))) }

type rel int

const (
	relUnk rel = iota
	relEQ
	relNE
)

// intDistinct reports whether two Int terms are known to differ.
func intRel(a, b *Term) rel {
	if a == b {
		return relEQ
	}
	ab, ac := splitAdd(a)
	bb, bc := splitAdd(b)
	if ab == bb {
		if ac.Cmp(bc) == 0 {
			return relEQ
		}
		return relNE
	}
	return relUnk
}

// objRel compares object ids using allocation bounds.
func objRel(a, b *Term) rel {
	if r := intRel(a, b); r != relUnk {
		return r
	}
	// stack objects are never reachable through memory or inputs
	if a.IsInt() && a.Num.Sign() < 0 || b.IsInt() && b.Num.Sign() < 0 {
		return relNE
	}
	if objLess(a, b) || objLess(b, a) {
		return relNE
	}
	return relUnk
}

// objUpper returns a term U such that a < U is known, or nil.
func objUpper(a *Term) *Term {
	if a.Op == "sel" && a.Name == "a_obj" {
		return addrUpper(a.Args[0])
	}
	return nil
}

func addrUpper(x *Term) *Term {
	if m := addrMarks[x]; m != nil {
		return m
	}
	switch x.Op {
	case "sel", "select":
		r := rootOf(x.Args[0])
		return addrMarks[r]
	}
	return nil
}

// rootOf strips selectors/selects to the base memory variable or constant.
func rootOf(x *Term) *Term {
	for {
		switch x.Op {
		case "sel", "select":
			if m, ok := addrMarks[x]; ok && m != nil {
				return x
			}
			x = x.Args[0]
		default:
			return x
		}
	}
}

// addrMarks: upper bound (exclusive) on object ids reachable through this term
// (address/slice/iface constants, or memory variables).
var addrMarks map[*Term]*Term

func objLess(a, b *Term) bool {
	// a < b known?
	if a.IsInt() && b.IsInt() {
		return a.Num.Cmp(b.Num) < 0
	}
	if u := objUpper(a); u != nil {
		return intLeKnown(u, b)
	}
	return intLeKnown(Add(a, IntT(1)), b)
}

// intLeKnown: a <= b using alloc symbol lower bounds.
func intLeKnown(a, b *Term) bool {
	ab, ac := splitAdd(a)
	for i := 0; i < 20; i++ {
		bb, bc := splitAdd(b)
		if ab == bb {
			return ac.Cmp(bc) <= 0
		}
		if bb == nil {
			return false
		}
		lo := DB.lower[bb]
		if lo == nil {
			for _, l := range DB.lowers[bb] {
				if intLeKnown(a, Add(l, BigT(bc))) {
					return true
				}
			}
			return false
		}
		b = Add(lo, BigT(bc))
	}
	return false
}

func pathRel(a, b *Term) rel {
	if a == b {
		return relEQ
	}
	if a.Op == "ctor" && b.Op == "ctor" {
		if a.Name != b.Name {
			return relNE
		}
		if a.Name == "pnil" {
			return relEQ
		}
		r1 := intRel(a.Args[1], b.Args[1])
		if r1 == relNE {
			return relNE
		}
		r2 := pathRel(a.Args[0], b.Args[0])
		if r2 == relNE {
			return relNE
		}
		if r1 == relEQ && r2 == relEQ {
			return relEQ
		}
		return relUnk
	}
	return relUnk
}

func addrRel(a, b *Term) rel {
	if a == b {
		return relEQ
	}
	if a.Op == "ite" || b.Op == "ite" {
		return relUnk
	}
	o := objRel(Sel("a_obj", a), Sel("a_obj", b))
	if o == relNE {
		return relNE
	}
	p := pathRel(Sel("a_path", a), Sel("a_path", b))
	if p == relNE {
		return relNE
	}
	if o == relEQ && p == relEQ {
		return relEQ
	}
	return relUnk
}

// --- arrays ---

func keyRel(a, b *Term) rel {
	if a == b {
		return relEQ
	}
	if a.Sort == SAddr {
		return addrRel(a, b)
	}
	if a.Sort == SInt {
		return intRel(a, b)
	}
	if a.IsConst() && b.IsConst() {
		return relNE
	}
	e := Eq(a, b)
	if e.IsFalse() {
		return relNE
	}
	if e.IsTrue() {
		return relEQ
	}
	return relUnk
}

// selectHook lets the executor resolve reads of zero-initialised memory.
var selectHook func(mem, k *Term) *Term

func Select(m, k *Term) *Term {
	ck := [2]int{m.id, k.id}
	if r, ok := DB.selCache[ck]; ok {
		return r
	}
	r := select1(m, k)
	DB.selCache[ck] = r
	return r
}

func select1(m, k *Term) *Term {
	for {
		if m.Op == "store" {
			switch keyRel(m.Args[1], k) {
			case relEQ:
				return m.Args[2]
			case relNE:
				m = m.Args[0]
				continue
			}
			break
		}
		if m.Op == "ite" {
			a := Select(m.Args[1], k)
			b := Select(m.Args[2], k)
			return Ite(m.Args[0], a, b)
		}
		if m.Op == "constarr" {
			return m.Args[0]
		}
		break
	}
	if k.Op == "ite" && k.Sort == SAddr {
		return Ite(k.Args[0], Select(m, k.Args[1]), Select(m, k.Args[2]))
	}
	if k.Op == "ctor" && k.Name == "mkaddr" && k.Args[0].Op == "ite" {
		c := k.Args[0].Args[0]
		return Ite(c, Select(m, assumeIte(k, c, true)), Select(m, assumeIte(k, c, false)))
	}
	if selectHook != nil {
		if r := selectHook(m, k); r != nil {
			return r
		}
	}
	_, v := m.Sort.arrParts()
	return mk(&Term{Op: "select", Args: []*Term{m, k}, Sort: v})
}

func Store(m, k, v *Term) *Term {
	_, vs := m.Sort.arrParts()
	if vs != v.Sort {
		panic(fmt.Sprintf("store sort mismatch %s vs %s", m.Sort, v.Sort))
	}
	if m.Op == "store" && keyRel(m.Args[1], k) == relEQ {
		return Store(m.Args[0], k, v)
	}
	if m.Op == "store" && keyRel(m.Args[1], k) == relNE {
		// drop an older store to the same key deeper in a chain of known-distinct keys
		var chain []*Term
		x := m
		for x.Op == "store" && keyRel(x.Args[1], k) == relNE && len(chain) < 64 {
			chain = append(chain, x)
			x = x.Args[0]
		}
		if x.Op == "store" && keyRel(x.Args[1], k) == relEQ {
			x = x.Args[0]
			for i := len(chain) - 1; i >= 0; i-- {
				x = mk(&Term{Op: "store", Args: []*Term{x, chain[i].Args[1], chain[i].Args[2]}, Sort: m.Sort})
			}
			m = x
		}
	}
	return mk(&Term{Op: "store", Args: []*Term{m, k, v}, Sort: m.Sort})
}

func ConstArr(s Sort, v *Term) *Term {
	return mk(&Term{Op: "constarr", Args: []*Term{v}, Sort: s})
}

// --- quantifiers ---

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	var used []*Term
	for _, v := range vars {
		for _, b := range body.bv {
			if b == v {
				used = append(used, v)
			}
		}
	}
	if len(used) == 0 {
		return body
	}
	if body.IsTrue() {
		return body
	}
	return mk(&Term{Op: "forall", Bound: used, Args: []*Term{body}, Sort: SBool, Pats: pats})
}

func Exists(vars []*Term, body *Term) *Term {
	var used []*Term
	for _, v := range vars {
		for _, b := range body.bv {
			if b == v {
				used = append(used, v)
			}
		}
	}
	if len(used) == 0 {
		return body
	}
	return mk(&Term{Op: "exists", Bound: used, Args: []*Term{body}, Sort: SBool})
}

// --- substitution ---

func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	return subst(t, m, cache)
}

func subst(t *Term, m map[*Term]*Term, cache map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := cache[t]; ok {
		return r
	}
	if len(t.Bound) > 0 {
		for _, b := range t.Bound {
			if _, ok := m[b]; ok {
				m2 := map[*Term]*Term{}
				for k, v := range m {
					m2[k] = v
				}
				for _, b := range t.Bound {
					delete(m2, b)
				}
				m, cache = m2, map[*Term]*Term{}
				break
			}
		}
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = subst(a, m, cache)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	cache[t] = r
	return r
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.Op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Imp(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "=":
		return Eq(a[0], a[1])
	case "+":
		return Add(a[0], a[1])
	case "neg":
		return Neg(a[0])
	case "*":
		return Mul(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "sel":
		return Sel(t.Name, a[0])
	case "ctor":
		return Ctor(t.Name, t.Sort, a...)
	case "str.++":
		return StrCat(a...)
	case "str.len":
		return StrLen(a[0])
	case "str.prefixof":
		return StrPrefix(a[0], a[1])
	case "ord":
		return Ord(a[0])
	case "chr":
		return Chr(a[0])
	}
	return mk(&Term{Op: t.Op, Name: t.Name, Num: t.Num, Args: a, Sort: t.Sort, Bound: t.Bound, Pats: t.Pats})
}

// --- printing ---

func (t *Term) String() string {
	var sb strings.Builder
	t.print(&sb, nil)
	s := sb.String()
	return s
}

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c == '\\' || c < 0x20 || c > 0x7e:
			fmt.Fprintf(&sb, `\u{%x}`, c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func (t *Term) head() string {
	switch t.Op {
	case "neg":
		return "-"
	case "app", "ctor", "sel":
		return t.Name
	case "ord":
		return "str.to_code"
	case "chr":
		return "str.from_code"
	case "constarr":
		return fmt.Sprintf("(as const %s)", t.Sort)
	}
	return t.Op
}

func (t *Term) print(sb *strings.Builder, let map[*Term]string) {
	if n, ok := let[t]; ok {
		sb.WriteString(n)
		return
	}
	switch t.Op {
	case "int":
		if t.Num.Sign() < 0 {
			fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(t.Num))
		} else {
			sb.WriteString(t.Num.String())
		}
	case "bool", "var", "bvar":
		sb.WriteString(t.Name)
	case "str":
		sb.WriteString(smtStr(t.Name))
	case "bv":
		fmt.Fprintf(sb, "(_ bv%s %d)", t.Num, t.Sort.BVWidth())
	case "forall", "exists":
		fmt.Fprintf(sb, "(%s (", t.Op)
		for _, b := range t.Bound {
			fmt.Fprintf(sb, "(%s %s)", b.Name, b.Sort)
		}
		sb.WriteString(") ")
		if len(t.Pats) > 0 {
			sb.WriteString("(! ")
		}
		printBody(sb, t.Args[0], t.Bound, let)
		if len(t.Pats) > 0 {
			for _, ps := range t.Pats {
				sb.WriteString(" :pattern (")
				for i, p := range ps {
					if i > 0 {
						sb.WriteByte(' ')
					}
					p.print(sb, let)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		if len(t.Args) == 0 {
			sb.WriteString(t.head())
			return
		}
		sb.WriteByte('(')
		sb.WriteString(t.head())
		for _, a := range t.Args {
			sb.WriteByte(' ')
			a.print(sb, let)
		}
		sb.WriteByte(')')
	}
}

// printBody prints a quantifier body, sharing repeated non-ground subterms with let.
func printBody(sb *strings.Builder, body *Term, bound []*Term, let map[*Term]string) {
	count := map[*Term]int{}
	inner := map[*Term]bool{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if _, ok := let[t]; ok {
			return
		}
		count[t]++
		if count[t] > 1 {
			return
		}
		for _, b := range t.Bound {
			inner[b] = true
		}
		for _, a := range t.Args {
			walk(a)
		}
		order = append(order, t)
	}
	walk(body)
	let2 := map[*Term]string{}
	for k, v := range let {
		let2[k] = v
	}
	n := 0
	for _, t := range order {
		if count[t] < 2 || len(t.Args) == 0 || t == body {
			continue
		}
		ok := true
		for _, b := range t.bv {
			if inner[b] {
				ok = false
			}
		}
		if !ok {
			continue
		}
		name := fmt.Sprintf("l!%d", t.id)
		fmt.Fprintf(sb, "(let ((%s ", name)
		t.print(sb, let2)
		sb.WriteString(")) ")
		let2[t] = name
		n++
	}
	body.print(sb, let2)
	for i := 0; i < n; i++ {
		sb.WriteByte(')')
	}
}

// collect counts uses and gathers symbols.
type collector struct {
	count map[*Term]int
	order []*Term // postorder
	syms  map[string]bool
}

func (c *collector) visit(t *Term) {
	c.count[t]++
	if c.count[t] > 1 {
		return
	}
	if t.Op == "var" || t.Op == "app" {
		c.syms[t.Name] = true
	}
	for _, a := range t.Args {
		c.visit(a)
	}
	for _, ps := range t.Pats {
		for _, p := range ps {
			c.visit(p)
		}
	}
	c.order = append(c.order, t)
}

// Script renders assertions as an SMT-LIB script with shared ground subterms as definitions.
// slt: bytewise string order, axiomatised as a strict total order.
const sltAxioms = `(declare-fun slt (String String) Bool)
(assert (forall ((a String) (b String)) (! (and (or (slt a b) (slt b a) (= a b)) (not (and (slt a b) (slt b a))) (=> (= a b) (not (slt a b)))) :pattern ((slt a b)))))
(assert (forall ((a String) (b String) (c String)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c)))))
`

// keepSyms are declared even when no assertion mentions them (for model extraction).
var keepSyms = map[string]bool{}

func Script(asserts []*Term, goals []string) string {
	c := &collector{count: map[*Term]int{}, syms: map[string]bool{}}
	for _, a := range asserts {
		c.visit(a)
	}
	var sb strings.Builder
	sb.WriteString(prelude)
	for _, n := range DB.order {
		if c.syms[n] || keepSyms[n] {
			sb.WriteString(DB.decls[n])
			sb.WriteByte('\n')
		}
	}
	for _, t := range c.order {
		if t.Op == "slt" {
			sb.WriteString(sltAxioms)
			break
		}
	}
	let := map[*Term]string{}
	for _, t := range c.order {
		if c.count[t] > 1 && len(t.Args) > 0 && len(t.bv) == 0 && t.Op != "bv" {
			name := fmt.Sprintf("d!%d", t.id)
			sb.WriteString("(define-fun ")
			sb.WriteString(name)
			sb.WriteString(" () ")
			sb.WriteString(string(t.Sort))
			sb.WriteByte(' ')
			t.print(&sb, let)
			sb.WriteString(")\n")
			let[t] = name
		}
	}
	for i, a := range asserts {
		sb.WriteString("(assert ")
		a.print(&sb, let)
		sb.WriteString(")")
		if i < len(goals) && goals[i] != "" {
			sb.WriteString(" ; " + goals[i])
		}
		sb.WriteByte('\n')
	}
	return sb.String()
}

// assumeIte resolves the conditionals on c along an address's constructor spine.
func assumeIte(t, c *Term, v bool) *Term {
	switch {
	case t.Op == "ite" && t.Args[0] == c:
		if v {
			return assumeIte(t.Args[1], c, v)
		}
		return assumeIte(t.Args[2], c, v)
	case t.Op == "ctor" && t.Name == "mkaddr":
		return MkAddr(assumeIte(t.Args[0], c, v), assumeIte(t.Args[1], c, v))
	case t.Op == "ctor" && (t.Name == "pfld" || t.Name == "pelt"):
		if a := assumeIte(t.Args[0], c, v); a != t.Args[0] {
			return mk(&Term{Op: "ctor", Name: t.Name, Args: []*Term{a, t.Args[1]}, Sort: t.Sort})
		}
	}
	return t
}

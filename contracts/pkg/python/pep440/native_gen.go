package pep440

import (
	"math/rand"
	"strings"

	"k8s.io/apimachinery/pkg/util/intstr"
)

func genInt(r *rand.Rand) int {
	switch r.Intn(12) {
	case 0:
		return int(^uint(0) >> 1)
	case 1:
		return 10 + r.Intn(20)
	case 2:
		return 1<<31 - 1 + r.Intn(3)
	}
	return r.Intn(3)
}

func genPub(r *rand.Rand) PublicVersion {
	var v PublicVersion
	if r.Intn(5) == 0 {
		v.Epoch = genInt(r)
	}
	for i := 1 + r.Intn(4); i > 0; i-- {
		v.Release = append(v.Release, genInt(r))
	}
	if r.Intn(3) == 0 {
		v.Pre = &PreRelease{L: []string{"a", "b", "rc", "alpha", "beta", "c", "pre", "preview"}[r.Intn(8)], N: genInt(r)}
		if r.Intn(3) > 0 {
			v.Pre.L = []string{"a", "b", "rc"}[r.Intn(3)]
		}
	}
	if r.Intn(3) == 0 {
		n := genInt(r)
		v.Post = &n
	}
	if r.Intn(3) == 0 {
		n := genInt(r)
		v.Dev = &n
	}
	return v
}

func genLocal(r *rand.Rand) []intstr.IntOrString {
	var l []intstr.IntOrString
	if r.Intn(3) == 0 {
		for i := r.Intn(4); i > 0; i-- {
			if r.Intn(2) == 0 {
				l = append(l, intstr.IntOrString{Type: intstr.Int, IntVal: []int32{0, 1, 2, 10, 1<<31 - 1}[r.Intn(5)]})
			} else {
				l = append(l, intstr.IntOrString{Type: intstr.String, StrVal: []string{"a", "ab", "b", "ubuntu", "1a", "a1"}[r.Intn(6)]})
			}
		}
	}
	return l
}

func genVersion(r *rand.Rand) Version { return Version{PublicVersion: genPub(r), Local: genLocal(r)} }

func genClone(v Version) Version {
	w := v
	w.Release = append([]int(nil), v.Release...)
	w.Local = append([]intstr.IntOrString(nil), v.Local...)
	if v.Pre != nil {
		p := *v.Pre
		w.Pre = &p
	}
	if v.Post != nil {
		p := *v.Post
		w.Post = &p
	}
	if v.Dev != nil {
		p := *v.Dev
		w.Dev = &p
	}
	return w
}

// genNear changes one part of v.
func genNear(r *rand.Rand, v Version) Version {
	w := genClone(v)
	for n := r.Intn(3); n > 0; n-- {
		switch r.Intn(9) {
		case 0:
			w.Release = append(w.Release, 0)
		case 1:
			w.Release = append(w.Release, r.Intn(2))
		case 2:
			if len(w.Release) > 1 {
				w.Release = w.Release[:len(w.Release)-1]
			}
		case 3:
			w.Release[r.Intn(len(w.Release))] = genInt(r)
		case 4:
			w.Pre = genPub(r).Pre
		case 5:
			w.Post = genPub(r).Post
		case 6:
			w.Dev = genPub(r).Dev
		case 7:
			w.Local = genLocal(r)
		case 8:
			w.Epoch = r.Intn(2)
		}
	}
	return w
}

func genClause(r *rand.Rand, near Version) SpecifierClause {
	return SpecifierClause{CmpOp: CmpOp(r.Intn(int(_CmpOpEnd))), Version: genNear(r, near)}
}

// genVersionText: a spelling of a version, or nearly one.
func genVersionText(r *rand.Rand) string {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	num := func() string {
		return pick("0", "1", "2", "10", "007", "2147483647", "2147483648", "9223372036854775807", "99999999999999999999", "1", "2", "3")
	}
	var b strings.Builder
	b.WriteString(pick("", "", "", " ", "\t", "\n"))
	b.WriteString(pick("", "", "v", "V"))
	if r.Intn(4) == 0 {
		b.WriteString(num() + "!")
	}
	b.WriteString(num())
	for i := r.Intn(3); i > 0; i-- {
		b.WriteString("." + num())
	}
	sep := func() string { return pick("", "", ".", "-", "_") }
	if r.Intn(3) == 0 {
		b.WriteString(sep() + pick("a", "b", "rc", "c", "alpha", "beta", "pre", "preview", "A", "RC", "Alpha") + sep() + pick("", num(), num()))
	}
	if r.Intn(3) == 0 {
		if r.Intn(3) == 0 {
			b.WriteString("-" + num())
		} else {
			b.WriteString(sep() + pick("post", "rev", "r", "POST", "Rev") + sep() + pick("", num(), num()))
		}
	}
	if r.Intn(3) == 0 {
		b.WriteString(sep() + pick("dev", "DEV", "Dev") + sep() + pick("", num(), num()))
	}
	if r.Intn(3) == 0 {
		b.WriteString("+")
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			if i > 0 {
				b.WriteString(pick(".", "-", "_"))
			}
			b.WriteString(pick("a", "Ubuntu", "1", "007", "1a", "a1", "2147483648", num(), "z"))
		}
	}
	b.WriteString(pick("", "", "", " ", "\n"))
	s := b.String()
	if r.Intn(4) == 0 { // damage it
		for n := 1 + r.Intn(2); n > 0 && len(s) > 0; n-- {
			i := r.Intn(len(s) + 1)
			ins := pick("", ".", "-", "_", "+", "!", "x", "1", " ", "\x00", "é", "ſ", "K", "*", "a", "dev", "=")
			if r.Intn(2) == 0 && i < len(s) {
				s = s[:i] + ins + s[i+1:]
			} else {
				s = s[:i] + ins + s[i:]
			}
		}
	}
	return s
}

func genClauseText(r *rand.Rand) string {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	s := pick("", " ", "  ") + pick("~=", "==", "!=", "<=", ">=", "<", ">", "===", "=", "", "=<", "~") + pick("", " ", "\t") + strings.TrimSpace(genVersionText(r))
	if r.Intn(3) == 0 {
		s += ".*"
	}
	return s + pick("", " ")
}

func init() {
	two := func(r *rand.Rand) []interface{} {
		a := genVersion(r)
		return []interface{}{a, genNear(r, a)}
	}
	three := func(r *rand.Rand) []interface{} {
		a := genVersion(r)
		return []interface{}{a, genNear(r, a), genNear(r, a)}
	}
	verifGens["contract_LocalVersion_Cmp"] = two
	verifGens["contract_PublicVersion_Cmp"] = func(r *rand.Rand) []interface{} {
		x := two(r)
		return []interface{}{x[0].(Version).PublicVersion, x[1].(Version).PublicVersion}
	}
	verifGens["lemma_Cmp_antisym"] = two
	verifGens["lemma_Cmp_trans"] = three
	verifGens["lemma_localLess_trans"] = three
	verifGens["contract_SpecifierClause_Match"] = func(r *rand.Rand) []interface{} {
		v := genVersion(r)
		return []interface{}{genClause(r, v), genNear(r, v)}
	}
	verifGens["lemma_exclude_complements"] = func(r *rand.Rand) []interface{} {
		v := genVersion(r)
		return []interface{}{genClause(r, v), genClause(r, v), genNear(r, v)}
	}
	verifGens["contract_Specifier_Match"] = func(r *rand.Rand) []interface{} {
		v := genVersion(r)
		s := Specifier{}
		for i := r.Intn(4); i > 0; i-- {
			s = append(s, genClause(r, v))
		}
		return []interface{}{s, genNear(r, v)}
	}
	verifGens["contract_Specifier_Select"] = func(r *rand.Rand) []interface{} {
		v := genVersion(r)
		s := Specifier{}
		for i := r.Intn(3); i > 0; i-- {
			c := genClause(r, v)
			if c.CmpOp == CmpOpCompatible && len(c.Version.Release) < 2 {
				c.Version.Release = append(c.Version.Release, 0)
			}
			s = append(s, c)
		}
		var ch []Version
		for i := r.Intn(5); i > 0; i-- {
			ch = append(ch, genNear(r, v))
		}
		var e ExclusionBehavior
		switch r.Intn(4) {
		case 0:
			e = AllowAll{}
		case 1:
			e = ExcludePreReleases{}
		case 2:
			e = MultiExcluder{ExcludePreReleases{AllowList: ch[:len(ch)/2]}, AllowAll{}}
		}
		return []interface{}{s, ch, e}
	}
	verifGens["contract_MultiExcluder_Allow"] = func(r *rand.Rand) []interface{} {
		v := genVersion(r)
		m := MultiExcluder{}
		for i := r.Intn(4); i > 0; i-- {
			if r.Intn(2) == 0 {
				m = append(m, AllowAll{})
			} else {
				m = append(m, ExcludePreReleases{AllowList: []Version{genNear(r, v)}})
			}
		}
		return []interface{}{m, v}
	}
	verifGens["contract_ExcludePreReleases_Allow"] = func(r *rand.Rand) []interface{} {
		v := genVersion(r)
		var e ExcludePreReleases
		for i := r.Intn(4); i > 0; i-- {
			e.AllowList = append(e.AllowList, genNear(r, v))
		}
		return []interface{}{e, v}
	}
	verifGens["contract_parseSpecifierClause"] = func(r *rand.Rand) []interface{} { return []interface{}{genClauseText(r)} }
}

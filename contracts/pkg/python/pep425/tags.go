package pep425

import (
	"strings"
)

// strings.Split on a one-character separator: specN(s, sep) parts, specPart(s, sep, i) the i-th.

//gocv:pure specN
func specN(s, sep string) int { return len(strings.Split(s, sep)) }

//gocv:pure specPart
func specPart(s, sep string, i int) string { return strings.Split(s, sep)[i] }

func nondetStrings() []string { return nil }

//gocv:extern strings.Split SPLIT
func model_Split(s, sep string) []string {
	m := nondetStrings()
	assume(len(m) == specN(s, sep) && specN(s, sep) >= 1)
	assume(forall(0, len(m), func(i int) bool { return m[i] == specPart(s, sep, i) }))
	return m
}

func specHas(s, x string) bool {
	return exists(0, specN(s, "."), func(i int) bool { return specPart(s, ".", i) == x })
}

//gocv:invariant Tag.Decompress use=SPLITONLY
func inv_Decompress_only_python(t Tag, ret []Tag) bool {
	return forall(0, len(ret), func(m int) bool { return specHas(t.Python, ret[m].Python) })
}

//gocv:invariant Tag.Decompress use=SPLITONLY
func inv_Decompress_only_abi(t Tag, ret []Tag) bool {
	return forall(0, len(ret), func(m int) bool { return specHas(t.ABI, ret[m].ABI) })
}

//gocv:invariant Tag.Decompress use=SPLITONLY
func inv_Decompress_only_platform(t Tag, ret []Tag) bool {
	return forall(0, len(ret), func(m int) bool { return specHas(t.Platform, ret[m].Platform) })
}

//gocv:contract C07 Tag.Decompress use=SPLIT,SPLITONLY
func contract_Tag_Decompress_only(t Tag) {
	ret := t.Decompress()
	ensures("every expansion's Python tag is one of the parts", forall(0, len(ret), func(m int) bool { return specHas(t.Python, ret[m].Python) }))
	ensures("every expansion's ABI tag is one of the parts", forall(0, len(ret), func(m int) bool { return specHas(t.ABI, ret[m].ABI) }))
	ensures("every expansion's platform tag is one of the parts", forall(0, len(ret), func(m int) bool { return specHas(t.Platform, ret[m].Platform) }))
}

// ---- tag sets, over an abstract expansion ----

//gocv:pure specExpN
func specExpN(t Tag) int { return len(t.Decompress()) }

//gocv:pure specExp
func specExp(t Tag, i int) Tag { return t.Decompress()[i] }

func nondetTags() []Tag { return nil }

//gocv:extern Tag.Decompress EXP
func model_Decompress(t Tag) []Tag {
	m := nondetTags()
	assume(len(m) == specExpN(t))
	assume(forall(0, len(m), func(i int) bool { return m[i] == specExp(t, i) }))
	return m
}

func specMeet(a, b Tag) bool {
	return exists(0, specExpN(a), func(x int) bool { return specExpands(b, specExp(a, x)) })
}

func specExpands(t, e Tag) bool {
	return exists(0, specExpN(t), func(y int) bool { return specExp(t, y) == e })
}

//gocv:invariant Intersect depth=1
func inv_Intersect_1(a, b []Tag, n int) bool {
	return forall(0, n, func(i int) bool { return forall(0, len(b), func(j int) bool { return !specMeet(a[i], b[j]) }) })
}

//gocv:invariant Intersect depth=2
func inv_Intersect_2(b []Tag, a1 Tag, n int) bool {
	return forall(0, n, func(x int) bool {
		return forall(0, len(b), func(j int) bool { return !specExpands(b[j], specExp(a1, x)) })
	})
}

//gocv:invariant Intersect depth=3
func inv_Intersect_3(b []Tag, a2 Tag, n int) bool {
	return forall(0, n, func(j int) bool { return !specExpands(b[j], a2) })
}

//gocv:invariant Intersect depth=4
func inv_Intersect_4(a2, b1 Tag, n int) bool {
	return forall(0, n, func(y int) bool { return a2 != specExp(b1, y) })
}

//gocv:invariant Installer.Preference
func inv_Preference(inst Installer, t Tag, n int) bool {
	return forall(0, n, func(i int) bool { return !specMeet(inst[i], t) })
}

//gocv:contract C07 Intersect apply use=EXP
func contract_Intersect(a, b []Tag) {
	r := Intersect(a, b)
	ensures("two tag sets without an equal expansion do not intersect",
		r || forall(0, len(a), func(i int) bool { return forall(0, len(b), func(j int) bool { return !specMeet(a[i], b[j]) }) }))
	ensures("two tag sets with an equal expansion intersect",
		!r || exists(0, len(a), func(i int) bool { return exists(0, len(b), func(j int) bool { return specMeet(a[i], b[j]) }) }))
}

//gocv:contract C07 Installer.Supports use=EXP
func contract_Installer_Supports(inst Installer, t Tag) {
	r := inst.Supports(t)
	ensures("supported exactly when some expansion of some listed tag equals an expansion of the tag",
		r == exists(0, len(inst), func(i int) bool { return specMeet(inst[i], t) }))
}

//gocv:contract C07 Installer.Preference use=EXP
func contract_Installer_Preference(inst Installer, t Tag) {
	r := inst.Preference(t)
	ensures("the preference is a 1-based position or one past the end", r >= 1 && r <= len(inst)+1)
	ensures("no earlier tag matches", forall(0, r-1, func(i int) bool { return !specMeet(inst[i], t) }))
	ensures("the tag at the position matches", r == len(inst)+1 || specMeet(inst[r-1], t))
}

//gocv:contract C07 ParseTag use=SPLIT
func contract_ParseTag(str string) {
	t, err := ParseTag(str)
	ensures("accepted exactly when there are three dash-separated parts", (err == nil) == (specN(str, "-") == 3))
	if err == nil {
		ensures("the parts in order", t.Python == specPart(str, "-", 0) && t.ABI == specPart(str, "-", 1) && t.Platform == specPart(str, "-", 2))
	}
}

//gocv:contract C07 Tag.String
func contract_Tag_String(t Tag) {
	ensures("the three parts joined by dashes", t.String() == t.Python+"-"+t.ABI+"-"+t.Platform)
}

//gocv:contract C07 Tag.MarshalText
func contract_Tag_MarshalText(t Tag) {
	b, err := t.MarshalText()
	ensures("the text form", err == nil && string(b) == t.Python+"-"+t.ABI+"-"+t.Platform)
}

// ---- the expansion is complete ----

func specAt(t Tag, i, j, k int) Tag {
	return Tag{specPart(t.Python, ".", i), specPart(t.ABI, ".", j), specPart(t.Platform, ".", k)}
}

func specIn(e Tag, ret []Tag) bool {
	return exists(0, len(ret), func(m int) bool { return ret[m] == e })
}

// An arbitrary combination (uninterpreted constants for the verifier, set by the contract natively).
var ghostI, ghostJ, ghostK int

//gocv:pure specI
func specI() int { return ghostI }

//gocv:pure specJ
func specJ() int { return ghostJ }

//gocv:pure specK
func specK() int { return ghostK }

//gocv:invariant Tag.Decompress use=SPLITALL
func inv_Decompress_all(t Tag, ret []Tag, n1 int) bool {
	return implies(specI() < n1, specIn(specAt(t, specI(), specJ(), specK()), ret))
}

//gocv:invariant Tag.Decompress use=SPLITALL
func inv_Decompress_all2(t Tag, ret []Tag, n1, n2 int) bool {
	return implies(specI() == n1 && specJ() < n2, specIn(specAt(t, specI(), specJ(), specK()), ret))
}

//gocv:invariant Tag.Decompress use=SPLITALL
func inv_Decompress_all3(t Tag, ret []Tag, n1, n2, n3 int) bool {
	return implies(specI() == n1 && specJ() == n2 && specK() < n3, specIn(specAt(t, specI(), specJ(), specK()), ret))
}

//gocv:contract C07 Tag.Decompress use=SPLIT,SPLITALL
func contract_Tag_Decompress_all(t Tag, i, j, k int) {
	if !verifying() {
		ghostI, ghostJ, ghostK = i, j, k
	}
	requires(specI() >= 0 && specI() < specN(t.Python, "."))
	requires(specJ() >= 0 && specJ() < specN(t.ABI, "."))
	requires(specK() >= 0 && specK() < specN(t.Platform, "."))
	ret := t.Decompress()
	ensures("every combination of the parts is an expansion", specIn(specAt(t, specI(), specJ(), specK()), ret))
}

//gocv:contract C07 *Tag.UnmarshalText use=SPLIT
func contract_Tag_UnmarshalText(old Tag, txt []byte) {
	s := string(txt)
	t := old
	err := t.UnmarshalText(txt)
	ensures("accepted exactly when there are three dash-separated parts", (err == nil) == (specN(s, "-") == 3))
	if err == nil {
		ensures("the parts in order", t.Python == specPart(s, "-", 0) && t.ABI == specPart(s, "-", 1) && t.Platform == specPart(s, "-", 2))
	} else {
		ensures("unchanged on error", t == old)
	}
}

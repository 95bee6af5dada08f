package pep440

import (
	"k8s.io/apimachinery/pkg/util/intstr"
)

// ---- specification of the PEP 440 order, written from the PEP, not from the code ----

// specPreRank is the position of the pre-release letter: a < b < rc < (nothing).
func specPreRank(l string) int {
	switch l {
	case "a", "alpha":
		return 1
	case "b", "beta":
		return 2
	case "rc", "c", "pre", "preview":
		return 3
	}
	return 0
}

//gocv:opaque
func specValidPub(v PublicVersion) bool {
	return len(v.Release) >= 1 &&
		v.Epoch >= 0 &&
		forall(0, len(v.Release), func(i int) bool { return v.Release[i] >= 0 }) &&
		(v.Pre == nil || specPreRank(v.Pre.L) != 0 && v.Pre.N >= 0) &&
		(v.Post == nil || *v.Post >= 0) &&
		(v.Dev == nil || *v.Dev >= 0)
}

func specSeg(v PublicVersion, i int) int {
	if i < len(v.Release) {
		return v.Release[i]
	}
	return 0
}

func specMax(a, b int) int {
	if a > b {
		return a
	}
	return b
}

//gocv:opaque
func specRelEq(a, b PublicVersion) bool {
	return forall(0, specMax(len(a.Release), len(b.Release)), func(i int) bool { return specSeg(a, i) == specSeg(b, i) })
}

//gocv:opaque
func specRelLess(a, b PublicVersion) bool {
	return exists(0, specMax(len(a.Release), len(b.Release)), func(k int) bool {
		return specSeg(a, k) < specSeg(b, k) &&
			forall(0, k, func(i int) bool { return specSeg(a, i) == specSeg(b, i) })
	})
}

// within one release: .devN < aN < bN < rcN < (final) < .postN ; inside each, .devN < (none) < .postN
func specPhase(v PublicVersion) int {
	switch {
	case v.Pre != nil:
		return specPreRank(v.Pre.L)
	case v.Dev != nil && v.Post == nil:
		return 0
	}
	return 4
}

func specPreN(v PublicVersion) int {
	if v.Pre != nil {
		return v.Pre.N
	}
	return 0
}

func specPostN(v PublicVersion) int {
	if v.Post != nil {
		return *v.Post
	}
	return -1
}

func specDevLess(a, b PublicVersion) bool {
	if a.Dev == nil {
		return false
	}
	return b.Dev == nil || *a.Dev < *b.Dev
}

func specSuffixLess(a, b PublicVersion) bool {
	if specPhase(a) != specPhase(b) {
		return specPhase(a) < specPhase(b)
	}
	if specPreN(a) != specPreN(b) {
		return specPreN(a) < specPreN(b)
	}
	if specPostN(a) != specPostN(b) {
		return specPostN(a) < specPostN(b)
	}
	return specDevLess(a, b)
}

func specSuffixEq(a, b PublicVersion) bool {
	return specPhase(a) == specPhase(b) && specPreN(a) == specPreN(b) && specPostN(a) == specPostN(b) &&
		(a.Dev == nil) == (b.Dev == nil) && (a.Dev == nil || *a.Dev == *b.Dev)
}

//gocv:opaque
func specPubLess(a, b PublicVersion) bool {
	if a.Epoch != b.Epoch {
		return a.Epoch < b.Epoch
	}
	return specRelLess(a, b) || specRelEq(a, b) && specSuffixLess(a, b)
}

//gocv:opaque
func specPubEq(a, b PublicVersion) bool {
	return a.Epoch == b.Epoch && specRelEq(a, b) && specSuffixEq(a, b)
}

// Local labels: segment by segment; absent < text < number; text bytewise, numbers by value.
//
//gocv:opaque
func specValidLocal(v LocalVersion) bool {
	return forall(0, len(v.Local), func(i int) bool {
		return v.Local[i].Type == intstr.Int && v.Local[i].IntVal >= 0 || v.Local[i].Type == intstr.String
	})
}

func specValid(v LocalVersion) bool { return specValidPub(v.PublicVersion) && specValidLocal(v) }

func specSegLess(a, b LocalVersion, i int) bool {
	if i >= len(b.Local) {
		return false
	}
	if i >= len(a.Local) {
		return true
	}
	if a.Local[i].Type == intstr.Int {
		return b.Local[i].Type == intstr.Int && a.Local[i].IntVal < b.Local[i].IntVal
	}
	return b.Local[i].Type == intstr.Int || a.Local[i].StrVal < b.Local[i].StrVal
}

func specSegEq(a, b LocalVersion, i int) bool {
	return i < len(a.Local) && i < len(b.Local) && a.Local[i].Type == b.Local[i].Type &&
		(a.Local[i].Type == intstr.Int && a.Local[i].IntVal == b.Local[i].IntVal ||
			a.Local[i].Type == intstr.String && a.Local[i].StrVal == b.Local[i].StrVal)
}

//gocv:opaque
func specLocalEq(a, b LocalVersion) bool {
	return len(a.Local) == len(b.Local) && forall(0, len(a.Local), func(i int) bool { return specSegEq(a, b, i) })
}

//gocv:opaque
func specLocalLess(a, b LocalVersion) bool {
	return exists(0, len(b.Local), func(k int) bool {
		return specSegLess(a, b, k) && forall(0, k, func(i int) bool { return specSegEq(a, b, i) })
	})
}

func specLess(a, b Version) bool {
	return specPubLess(a.PublicVersion, b.PublicVersion) ||
		specPubEq(a.PublicVersion, b.PublicVersion) && specLocalLess(a, b)
}

func specEq(a, b Version) bool {
	return specPubEq(a.PublicVersion, b.PublicVersion) && specLocalEq(a, b)
}

// ---- contracts ----

//gocv:contract C01 PublicVersion.Cmp apply
func contract_PublicVersion_Cmp(a, b PublicVersion) {
	requires(specValidPub(a) && specValidPub(b))
	r := a.Cmp(b)
	ensures("Cmp<0 exactly when a precedes b in PEP 440 order", (r < 0) == specPubLess(a, b))
	ensures("Cmp>0 exactly when b precedes a in PEP 440 order", (r > 0) == specPubLess(b, a))
	ensures("Cmp==0 exactly when a and b are the same public version", (r == 0) == specPubEq(a, b))
	ensures("Cmp==0 is symmetric", (r == 0) == specPubEq(b, a))
}

//gocv:contract C01 LocalVersion.Cmp apply
func contract_LocalVersion_Cmp(a, b LocalVersion) {
	requires(specValid(a) && specValid(b))
	r := a.Cmp(b)
	ensures("Cmp<0 exactly when a precedes b in PEP 440 order", (r < 0) == specLess(a, b))
	ensures("Cmp>0 exactly when b precedes a in PEP 440 order", (r > 0) == specLess(b, a))
	ensures("Cmp==0 exactly when a and b are the same version", (r == 0) == specEq(a, b))
}

// ---- order laws, over the contracts ----

//gocv:lemma C01
func lemma_Cmp_antisym(a, b Version) {
	requires(specValid(a) && specValid(b))
	x, y := a.Cmp(b), b.Cmp(a)
	ensures("Cmp(a,b) and Cmp(b,a) have opposite signs", (x < 0) == (y > 0) && (x == 0) == (y == 0))
}

//gocv:lemma C01
func lemma_Cmp_refl(a Version) {
	requires(specValid(a))
	ensures("Cmp(a,a) is 0", a.Cmp(a) == 0)
}

//gocv:lemma C01
func lemma_relLess_trans(a, b, c PublicVersion) {
	ensures("release order is transitive", implies(specRelLess(a, b) && specRelLess(b, c), specRelLess(a, c)))
	ensures("release equality is transitive", implies(specRelEq(a, b) && specRelEq(b, c), specRelEq(a, c)))
	ensures("release less-eq 1", implies(specRelLess(a, b) && specRelEq(b, c), specRelLess(a, c)))
	ensures("release less-eq 2", implies(specRelEq(a, b) && specRelLess(b, c), specRelLess(a, c)))
}

//gocv:lemma C01
func lemma_localLess_trans(a, b, c Version) {
	requires(specValidLocal(a) && specValidLocal(b) && specValidLocal(c))
	ensures("local order is transitive", implies(specLocalLess(a, b) && specLocalLess(b, c), specLocalLess(a, c)))
	ensures("local equality is transitive", implies(specLocalEq(a, b) && specLocalEq(b, c), specLocalEq(a, c)))
	ensures("local less-eq 1", implies(specLocalLess(a, b) && specLocalEq(b, c), specLocalLess(a, c)))
	ensures("local less-eq 2", implies(specLocalEq(a, b) && specLocalLess(b, c), specLocalLess(a, c)))
}

//gocv:lemma C01
func lemma_Cmp_trans(a, b, c Version) {
	requires(specValid(a) && specValid(b) && specValid(c))
	lemma_relLess_trans(a.PublicVersion, b.PublicVersion, c.PublicVersion)
	lemma_localLess_trans(a, b, c)
	x, y, z := a.Cmp(b), b.Cmp(c), a.Cmp(c)
	ensures("a<=b and b<=c imply a<=c", implies(x <= 0 && y <= 0, z <= 0))
	ensures("a<b and b<=c imply a<c", implies(x < 0 && y <= 0, z < 0))
	ensures("a==b and b==c imply a==c", implies(x == 0 && y == 0, z == 0))
}

package pep345

import (
	"errors"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep440"
)

// Comparison and clause matching of pep440 are used through their contracts (C01, C02): the sign of Cmp
// is a comparison of ranks, and the exclusion operators complement the matching ones.

//gocv:pure specRank
func specRank(v pep440.Version) int { panic("abstract") }

//gocv:extern github.com/datawire/ocibuild/pkg/python/pep440.LocalVersion.Cmp P345
func model_Cmp(a, b pep440.LocalVersion) int {
	switch x, y := specRank(a), specRank(b); {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

//gocv:pure specPrefixed
func specPrefixed(s, v pep440.Version) bool {
	return pep440.SpecifierClause{CmpOp: pep440.CmpOpPrefixMatch, Version: s}.Match(v)
}

//gocv:pure specSame
func specSame(s, v pep440.Version) bool {
	return pep440.SpecifierClause{CmpOp: pep440.CmpOpStrictMatch, Version: s}.Match(v)
}

//gocv:pure specOther
func specOther(c pep440.SpecifierClause, v pep440.Version) bool { panic("abstract") }

//gocv:extern github.com/datawire/ocibuild/pkg/python/pep440.SpecifierClause.Match P345
func model_ClauseMatch(c pep440.SpecifierClause, v pep440.Version) bool {
	switch c.CmpOp {
	case pep440.CmpOpPrefixMatch:
		return specPrefixed(c.Version, v)
	case pep440.CmpOpPrefixExclude:
		return !specPrefixed(c.Version, v)
	case pep440.CmpOpStrictMatch:
		return specSame(c.Version, v)
	case pep440.CmpOpStrictExclude:
		return !specSame(c.Version, v)
	}
	return specOther(c, v)
}

// specBase: v has s as prefix (equal to it where a prefix match is not allowed).
func specBase(s, v pep440.Version) bool {
	if len(s.Local) > 0 || s.Dev != nil {
		return specSame(s, v)
	}
	return specPrefixed(s, v)
}

func specEqual(s, v pep440.Version) bool {
	if !specBase(s, v) {
		return false
	}
	if s.Dev == nil && v.Dev != nil {
		return false
	}
	if s.Dev == nil && s.Post == nil && v.Post != nil {
		return false
	}
	return s.Dev != nil || s.Post != nil || s.Pre != nil || v.Pre == nil
}

//gocv:opaque
func specClause(c VersionSpecifierClause, v pep440.Version) bool {
	s := c.Version
	switch c.CmpOp {
	case CmpOpLT:
		return v.Cmp(s) < 0 && !specBase(s, v)
	case CmpOpGT:
		return v.Cmp(s) > 0
	case CmpOpLE:
		return v.Cmp(s) <= 0
	case CmpOpGE:
		return v.Cmp(s) >= 0
	case CmpOpEQ:
		return specEqual(s, v)
	case CmpOpNE:
		return !specEqual(s, v)
	}
	return false
}

func specOp(op CmpOp) bool { return op >= CmpOpLT && op <= CmpOpNE }

//gocv:contract C06 VersionSpecifierClause.Match apply use=P345
func contract_VersionSpecifierClause_Match(c VersionSpecifierClause, v pep440.Version) {
	requires(specOp(c.CmpOp))
	r := c.Match(v)
	ensures("the clause matches exactly what PEP 345 says", r == specClause(c, v))
}

//gocv:lemma C06
func lemma_NE_complements(c VersionSpecifierClause, v pep440.Version) {
	c.CmpOp = CmpOpEQ
	d := c
	d.CmpOp = CmpOpNE
	ensures("!= is the exact complement of ==", c.Match(v) == !d.Match(v))
}

//gocv:contract C06 VersionSpecifier.Match use=P345
func contract_VersionSpecifier_Match(s VersionSpecifier, v pep440.Version) {
	requires(forall(0, len(s), func(i int) bool { return specOp(s[i].CmpOp) }))
	r := s.Match(v)
	ensures("a comma list is a conjunction", r == forall(0, len(s), func(i int) bool { return specClause(s[i], v) }))
}

// ---- text ----

func freshObjVersion() *pep440.Version { return new(pep440.Version) }

//gocv:pure specParsed
func specParsed(str string) pep440.Version {
	v, err := pep440.ParseVersion(str)
	if err != nil {
		return pep440.Version{}
	}
	return *v
}

//gocv:pure specParses
func specParses(str string) bool {
	_, err := pep440.ParseVersion(str)
	return err == nil
}

//gocv:extern github.com/datawire/ocibuild/pkg/python/pep440.ParseVersion P345
func model_ParseVersion(str string) (*pep440.Version, error) {
	v := freshObjVersion()
	*v = specParsed(str)
	if !specParses(str) {
		return nil, errors.New("invalid version")
	}
	return v, nil
}

func specSplit(t string) (CmpOp, string) {
	switch {
	case strings.HasPrefix(t, "<="):
		return CmpOpLE, t[2:]
	case strings.HasPrefix(t, ">="):
		return CmpOpGE, t[2:]
	case strings.HasPrefix(t, "=="):
		return CmpOpEQ, t[2:]
	case strings.HasPrefix(t, "!="):
		return CmpOpNE, t[2:]
	case strings.HasPrefix(t, "<"):
		return CmpOpLT, t[1:]
	case strings.HasPrefix(t, ">"):
		return CmpOpGT, t[1:]
	}
	return CmpOpEQ, t
}

func specSameContent(a, b pep440.Version) bool {
	return a.Epoch == b.Epoch && (a.Pre == nil) == (b.Pre == nil) && (a.Pre == nil || *a.Pre == *b.Pre) &&
		(a.Post == nil) == (b.Post == nil) && (a.Post == nil || *a.Post == *b.Post) &&
		(a.Dev == nil) == (b.Dev == nil) && (a.Dev == nil || *a.Dev == *b.Dev) &&
		len(a.Release) == len(b.Release) && forall(0, len(a.Release), func(i int) bool { return a.Release[i] == b.Release[i] }) &&
		len(a.Local) == len(b.Local) && forall(0, len(a.Local), func(i int) bool { return a.Local[i] == b.Local[i] })
}

//gocv:contract C06 parseVersionSpecifierClause use=P345
func contract_parseVersionSpecifierClause(str string) {
	c, err := parseVersionSpecifierClause(str)
	op, rest := specSplit(strings.TrimSpace(str))
	ensures("accepted exactly when the version is valid", (err == nil) == specParses(rest))
	if err == nil {
		ensures("the clause has the operator written in the text", c.CmpOp == op)
		ensures("the clause has the version written in the text", specSameContent(c.Version, specParsed(rest)))
	}
}

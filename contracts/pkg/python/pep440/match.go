package pep440

// ---- what PEP 440 says each clause matches ----

//gocv:opaque
func specRelPrefix(s, v PublicVersion) bool {
	return forall(0, len(s.Release), func(i int) bool { return specSeg(s, i) == specSeg(v, i) })
}

func specSamePre(s, v PublicVersion) bool {
	if s.Pre == nil || v.Pre == nil {
		return s.Pre == nil && v.Pre == nil
	}
	return specPreRank(s.Pre.L) == specPreRank(v.Pre.L) && s.Pre.N == v.Pre.N
}

//gocv:opaque
func specPrefix(s, v PublicVersion) bool {
	if s.Epoch != v.Epoch {
		return false
	}
	if s.Post == nil && s.Pre == nil {
		return specRelPrefix(s, v)
	}
	return specRelEq(s, v) && specSamePre(s, v) && (s.Post == nil || v.Post != nil && *v.Post == *s.Post)
}

// specCompatPrefix is ==V.* for V without its last release segment and suffixes.
//
//gocv:opaque
func specCompatPrefix(s, v PublicVersion) bool {
	return s.Epoch == v.Epoch && forall(0, len(s.Release)-1, func(i int) bool { return specSeg(s, i) == specSeg(v, i) })
}

// specPostOf: v is a post-release (or a development release of one) of s.
func specPostOf(s, v PublicVersion) bool {
	b := v
	b.Post = nil
	b.Dev = nil
	return v.Post != nil && specPubEq(s, b)
}

func specClause(op CmpOp, s, v Version) bool {
	switch op {
	case CmpOpCompatible:
		return !specPubLess(v.PublicVersion, s.PublicVersion) && specCompatPrefix(s.PublicVersion, v.PublicVersion)
	case CmpOpStrictMatch:
		return specPubEq(s.PublicVersion, v.PublicVersion) && (len(s.Local) == 0 || specLocalEq(s, v))
	case CmpOpStrictExclude:
		return !(specPubEq(s.PublicVersion, v.PublicVersion) && (len(s.Local) == 0 || specLocalEq(s, v)))
	case CmpOpPrefixMatch:
		return specPrefix(s.PublicVersion, v.PublicVersion)
	case CmpOpPrefixExclude:
		return !specPrefix(s.PublicVersion, v.PublicVersion)
	case CmpOpLE:
		return !specPubLess(s.PublicVersion, v.PublicVersion)
	case CmpOpGE:
		return !specPubLess(v.PublicVersion, s.PublicVersion)
	case CmpOpLT:
		return specPubLess(v.PublicVersion, s.PublicVersion)
	case CmpOpGT:
		return specPubLess(s.PublicVersion, v.PublicVersion) &&
			!(s.Post == nil && specPostOf(s.PublicVersion, v.PublicVersion))
	}
	return false
}

//gocv:opaque
func specClauseMatch(c SpecifierClause, v Version) bool { return specClause(c.CmpOp, c.Version, v) }

//gocv:opaque
func specValidClause(c SpecifierClause) bool {
	return specValid(c.Version) && c.CmpOp >= 0 && c.CmpOp < _CmpOpEnd &&
		(c.CmpOp != CmpOpCompatible || len(c.Version.Release) >= 2)
}

//gocv:contract C02 SpecifierClause.Match apply
func contract_SpecifierClause_Match(c SpecifierClause, v Version) {
	requires(specValidClause(c) && specValid(v))
	r := c.Match(v)
	ensures("the clause matches exactly the versions PEP 440 says", r == specClauseMatch(c, v))
}

func specSpecMatch(s Specifier, v Version) bool {
	return forall(0, len(s), func(i int) bool { return specClauseMatch(s[i], v) })
}

func specValidSpec(s Specifier) bool {
	return forall(0, len(s), func(i int) bool { return specValidClause(s[i]) })
}

//gocv:contract C02,C05 Specifier.Match apply
func contract_Specifier_Match(s Specifier, v Version) {
	requires(specValidSpec(s) && specValid(v))
	r := s.Match(v)
	ensures("a specifier matches exactly when every clause does", r == specSpecMatch(s, v))
}

//gocv:lemma C02
func lemma_exclude_complements(a, b SpecifierClause, v Version) {
	requires(specValidClause(a) && specValid(v))
	b = a
	switch a.CmpOp {
	case CmpOpStrictMatch:
		b.CmpOp = CmpOpStrictExclude
	case CmpOpPrefixMatch:
		b.CmpOp = CmpOpPrefixExclude
	default:
		requires(false)
	}
	ensures("!= is the exact complement of ==", a.Match(v) == !b.Match(v))
}

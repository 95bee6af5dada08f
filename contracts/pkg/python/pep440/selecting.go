package pep440

// For selection, Cmp is a comparison of ranks: its sign is a total preorder (C01), and every total
// preorder on finitely many candidates is one.
//
//gocv:pure specRank
func specRank(v Version) int { panic("abstract") }

//gocv:extern LocalVersion.Cmp RANK
func model_Cmp_rank(a, b LocalVersion) int {
	switch x, y := specRank(a), specRank(b); {
	case x < y:
		return -1
	case x > y:
		return 1
	}
	return 0
}

//gocv:pure Specifier.Match RANK
func specAllowed(e ExclusionBehavior, v Version) bool { return e == nil || e.Allow(v) }

// identicalVersion: the same version value, sharing its parts (verifier intrinsic).
func identicalVersion(a, b Version) bool {
	return a.Epoch == b.Epoch && a.Pre == b.Pre && a.Post == b.Post && a.Dev == b.Dev &&
		len(a.Release) == len(b.Release) && (len(a.Release) == 0 || &a.Release[0] == &b.Release[0]) &&
		len(a.Local) == len(b.Local) && (len(a.Local) == 0 || &a.Local[0] == &b.Local[0])
}

//gocv:invariant Specifier.Select
func inv_Select_best_none(spec Specifier, choices []Version, exclusionBehavior ExclusionBehavior, n int, best *Version) bool {
	return best != nil || forall(0, n, func(i int) bool {
		return !(spec.Match(choices[i]) && specAllowed(exclusionBehavior, choices[i]) == true)
	})
}

//gocv:invariant Specifier.Select
func inv_Select_best_match(spec Specifier, choices []Version, exclusionBehavior ExclusionBehavior, n int, best *Version) bool {
	return best == nil || spec.Match(*best) && specAllowed(exclusionBehavior, *best) == true
}

//gocv:invariant Specifier.Select
func inv_Select_best_cand(spec Specifier, choices []Version, exclusionBehavior ExclusionBehavior, n int, best *Version) bool {
	return best == nil || exists(0, n, func(i int) bool { return identicalVersion(*best, choices[i]) })
}

//gocv:invariant Specifier.Select
func inv_Select_best_high(spec Specifier, choices []Version, exclusionBehavior ExclusionBehavior, n int, best *Version) bool {
	return best == nil || forall(0, n, func(i int) bool {
		return implies(spec.Match(choices[i]) && specAllowed(exclusionBehavior, choices[i]) == true, choices[i].Cmp(*best) <= 0)
	})
}

//gocv:invariant Specifier.Select
func inv_Select_bestExcluded_none(spec Specifier, choices []Version, exclusionBehavior ExclusionBehavior, n int, bestExcluded *Version) bool {
	return bestExcluded != nil || forall(0, n, func(i int) bool {
		return !(spec.Match(choices[i]) && specAllowed(exclusionBehavior, choices[i]) == false)
	})
}

//gocv:invariant Specifier.Select
func inv_Select_bestExcluded_match(spec Specifier, choices []Version, exclusionBehavior ExclusionBehavior, n int, bestExcluded *Version) bool {
	return bestExcluded == nil || spec.Match(*bestExcluded) && specAllowed(exclusionBehavior, *bestExcluded) == false
}

//gocv:invariant Specifier.Select
func inv_Select_bestExcluded_cand(spec Specifier, choices []Version, exclusionBehavior ExclusionBehavior, n int, bestExcluded *Version) bool {
	return bestExcluded == nil || exists(0, n, func(i int) bool { return identicalVersion(*bestExcluded, choices[i]) })
}

//gocv:invariant Specifier.Select
func inv_Select_bestExcluded_high(spec Specifier, choices []Version, exclusionBehavior ExclusionBehavior, n int, bestExcluded *Version) bool {
	return bestExcluded == nil || forall(0, n, func(i int) bool {
		return implies(spec.Match(choices[i]) && specAllowed(exclusionBehavior, choices[i]) == false, choices[i].Cmp(*bestExcluded) <= 0)
	})
}

//gocv:contract C05 Specifier.Select use=RANK
func contract_Specifier_Select(s Specifier, choices []Version, e ExclusionBehavior) {
	r := s.Select(choices, e)
	none := forall(0, len(choices), func(i int) bool { return !s.Match(choices[i]) })
	noneAllowed := forall(0, len(choices), func(i int) bool { return !(s.Match(choices[i]) && specAllowed(e, choices[i])) })
	ensures("nil exactly when no candidate satisfies the specifier", (r == nil) == none)
	if r == nil {
		return
	}
	ensures("the selected version is a candidate", exists(0, len(choices), func(i int) bool { return identicalVersion(*r, choices[i]) }))
	ensures("the selected version satisfies the specifier", s.Match(*r))
	ensures("an excluded version is selected only if every satisfying candidate is excluded", specAllowed(e, *r) || noneAllowed)
	ensures("no satisfying candidate of the same standing is higher",
		forall(0, len(choices), func(i int) bool {
			return implies(s.Match(choices[i]) && specAllowed(e, choices[i]) == specAllowed(e, *r), choices[i].Cmp(*r) <= 0)
		}))
}

//gocv:contract C05 AllowAll.Allow
func contract_AllowAll_Allow(a AllowAll, v Version) {
	ensures("everything is allowed", a.Allow(v))
}

//gocv:contract C05 ExcludePreReleases.Allow
func contract_ExcludePreReleases_Allow(e ExcludePreReleases, v Version) {
	requires(specValid(v) && forall(0, len(e.AllowList), func(i int) bool { return specValid(e.AllowList[i]) }))
	r := e.Allow(v)
	ensures("pre-releases are excluded unless listed",
		r == (v.Pre == nil && v.Dev == nil || exists(0, len(e.AllowList), func(i int) bool { return specEq(e.AllowList[i], v) })))
}

//gocv:contract C05 MultiExcluder.Allow
func contract_MultiExcluder_Allow(m MultiExcluder, v Version) {
	requires(forall(0, len(m), func(i int) bool { return m[i] != nil }))
	r := m.Allow(v)
	ensures("combined policies allow only what all of them allow",
		r == forall(0, len(m), func(i int) bool { return m[i].Allow(v) }))
}

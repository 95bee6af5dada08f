package pep345

import (
	"math/rand"

	"github.com/datawire/ocibuild/pkg/python/pep440"
)

func init() {
	ver := func(r *rand.Rand) pep440.Version { v, _ := pep440.ParseVersion(genVer(r)); return *v }
	cl := func(r *rand.Rand) VersionSpecifierClause {
		return VersionSpecifierClause{CmpOp: CmpOp(r.Intn(6)), Version: ver(r)}
	}
	one := func(r *rand.Rand) []interface{} { return []interface{}{cl(r), ver(r)} }
	verifGens["contract_VersionSpecifierClause_Match"] = one
	verifGens["lemma_NE_complements"] = one
	verifGens["contract_VersionSpecifier_Match"] = func(r *rand.Rand) []interface{} {
		s := VersionSpecifier{}
		for i := r.Intn(4); i > 0; i-- {
			s = append(s, cl(r))
		}
		return []interface{}{s, ver(r)}
	}
	verifGens["contract_parseVersionSpecifierClause"] = func(r *rand.Rand) []interface{} {
		op := []string{"", "==", "!=", "<", "<=", ">", ">=", "=", "~=", "==="}[r.Intn(10)]
		return []interface{}{[]string{"", " "}[r.Intn(2)] + op + []string{"", " "}[r.Intn(2)] + genVer(r) + []string{"", " ", ".*"}[r.Intn(3)]}
	}
}

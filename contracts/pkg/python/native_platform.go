package python

import "math/rand"

func init() {
	levels := []string{"alpha", "beta", "candidate", "final", "", "rc", "Final", "dev"}
	verifGens["contract_VersionInfo_PEP440"] = func(r *rand.Rand) []interface{} {
		return []interface{}{VersionInfo{r.Intn(5), r.Intn(20), r.Intn(20), levels[r.Intn(len(levels))], r.Intn(5)}}
	}
	p := func(r *rand.Rand) string {
		return []string{"/usr", "/usr/bin", "/", "", "usr", "./x", "/a/../b", "C:/x", "//x"}[r.Intn(9)]
	}
	abs := func(r *rand.Rand) string {
		if r.Intn(8) == 0 {
			return p(r)
		}
		return []string{"/usr", "/usr/bin", "/"}[r.Intn(3)]
	}
	sb := func(r *rand.Rand) string { return []string{"", "/usr/bin/python3", "/usr/bin/pythonw"}[r.Intn(3)] }
	verifGens["contract_Platform_Init"] = func(r *rand.Rand) []interface{} {
		return []interface{}{sb(r), sb(r), Scheme{abs(r), abs(r), abs(r), abs(r), abs(r)}, r.Intn(5), r.Intn(5), "u", "g"}
	}
	verifGens["contract_Platform_Init_idempotent"] = func(r *rand.Rand) []interface{} {
		return []interface{}{sb(r), sb(r), Scheme{abs(r), abs(r), abs(r), abs(r), abs(r)}}
	}
}

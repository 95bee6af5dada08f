package pep440

//gocv:contract C01 PublicVersion.IsPreRelease apply
func contract_PublicVersion_IsPreRelease(v PublicVersion) {
	r := v.IsPreRelease()
	ensures("pre-releases are the versions with a pre-release or dev part", r == (v.Pre != nil || v.Dev != nil))
}

//gocv:contract C01 PublicVersion.IsFinal
func contract_PublicVersion_IsFinal(v PublicVersion) {
	r := v.IsFinal()
	ensures("final releases have only epoch and release segments", r == (v.Pre == nil && v.Post == nil && v.Dev == nil))
}

//gocv:contract C01 LocalVersion.IsFinal
func contract_LocalVersion_IsFinal(v LocalVersion) {
	r := v.IsFinal()
	ensures("final releases have no suffix and no local label", r == (v.Pre == nil && v.Post == nil && v.Dev == nil && len(v.Local) == 0))
}

//gocv:contract C01 PublicVersion.Major
func contract_PublicVersion_Major(v PublicVersion) {
	ensures("major is the zero-padded first release segment", v.Major() == specSeg(v, 0))
}

//gocv:contract C01 PublicVersion.Minor
func contract_PublicVersion_Minor(v PublicVersion) {
	ensures("minor is the zero-padded second release segment", v.Minor() == specSeg(v, 1))
}

//gocv:contract C01 PublicVersion.Micro
func contract_PublicVersion_Micro(v PublicVersion) {
	ensures("micro is the zero-padded third release segment", v.Micro() == specSeg(v, 2))
}

package python

import "path/filepath"

//gocv:contract C27 VersionInfo.PEP440
func contract_VersionInfo_PEP440(vi VersionInfo) {
	v, err := vi.PEP440()
	l := vi.ReleaseLevel
	known := l == "alpha" || l == "beta" || l == "candidate" || l == "final"
	ensures("an unknown release level is an error and only that", (err == nil) == known)
	if err == nil {
		ensures("a version is returned", v != nil)
		ensures("three release numbers", len(v.Release) == 3)
		ensures("the same release numbers", v.Release[0] == vi.Major && v.Release[1] == vi.Minor && v.Release[2] == vi.Micro)
		ensures("nothing else is set", v.Epoch == 0 && v.Post == nil && v.Dev == nil && len(v.Local) == 0)
		ensures("a final interpreter is a final version", (v.Pre == nil) == (l == "final"))
		if l != "final" {
			ensures("matching pre-release phase", v.Pre.L == specPhase(l))
			ensures("the same serial", v.Pre.N == vi.Serial)
		}
	} else {
		ensures("no version with an error", v == nil)
	}
}

func specPhase(l string) string {
	switch l {
	case "alpha":
		return "a"
	case "beta":
		return "b"
	}
	return "rc"
}

//gocv:contract C27 *Platform.Init
func contract_Platform_Init(c, g string, s Scheme, uid, gid int, uname, gname string) {
	plat := &Platform{ConsoleShebang: c, GraphicalShebang: g, Scheme: s, UID: uid, GID: gid, UName: uname, GName: gname}
	err := plat.Init()
	abs := filepath.IsAbs(s.PureLib) && filepath.IsAbs(s.PlatLib) && filepath.IsAbs(s.Headers) && filepath.IsAbs(s.Scripts) && filepath.IsAbs(s.Data)
	ensures("no interpreter line at all is an error", implies(c == "" && g == "", err != nil))
	ensures("a relative install directory is an error", implies(!abs, err != nil))
	ensures("nothing else is an error", implies(abs && (c != "" || g != ""), err == nil))
	ensures("the scheme is left alone", plat.Scheme == s)
	ensures("the owner is left alone", plat.UID == uid && plat.GID == gid && plat.UName == uname && plat.GName == gname)
	if err == nil {
		ensures("a given console line is kept", implies(c != "", plat.ConsoleShebang == c))
		ensures("a given graphical line is kept", implies(g != "", plat.GraphicalShebang == g))
		ensures("a missing console line takes the other's", implies(c == "", plat.ConsoleShebang == g))
		ensures("a missing graphical line takes the other's", implies(g == "", plat.GraphicalShebang == c))
	}
}

//gocv:lemma C27
func contract_Platform_Init_idempotent(c, g string, s Scheme) {
	plat := &Platform{ConsoleShebang: c, GraphicalShebang: g, Scheme: s}
	err := plat.Init()
	requires(err == nil)
	c1, g1 := plat.ConsoleShebang, plat.GraphicalShebang
	err = plat.Init()
	ensures("a completed platform stays as it is", err == nil && plat.ConsoleShebang == c1 && plat.GraphicalShebang == g1)
}

package bdist

import (
	"path"
	"path/filepath"
	"strings"

	"github.com/datawire/ocibuild/pkg/python"
)

func specRootRel(p string) string { return strings.TrimPrefix(path.Clean(filepath.ToSlash(p)), "/") }

//gocv:contract C27 sanitizePlatformForLayer
func contract_sanitizePlatform(plat python.Platform) {
	s := plat.Scheme
	abs := filepath.IsAbs(s.PureLib) && filepath.IsAbs(s.PlatLib) && filepath.IsAbs(s.Headers) && filepath.IsAbs(s.Scripts) && filepath.IsAbs(s.Data)
	ok := abs && (plat.ConsoleShebang != "" || plat.GraphicalShebang != "")
	r, err := sanitizePlatformForLayer(plat)
	ensures("rejected exactly when the platform is not valid", (err == nil) == ok)
	if err == nil {
		ensures("purelib becomes root-relative", r.Scheme.PureLib == specRootRel(s.PureLib))
		ensures("platlib becomes root-relative", r.Scheme.PlatLib == specRootRel(s.PlatLib))
		ensures("headers becomes root-relative", r.Scheme.Headers == specRootRel(s.Headers))
		ensures("scripts becomes root-relative", r.Scheme.Scripts == specRootRel(s.Scripts))
		ensures("data becomes root-relative", r.Scheme.Data == specRootRel(s.Data))
		ensures("owner unchanged", r.UID == plat.UID && r.GID == plat.GID && r.UName == plat.UName && r.GName == plat.GName)
		ensures("interpreter lines completed", r.ConsoleShebang != "" && r.GraphicalShebang != "" &&
			implies(plat.ConsoleShebang != "", r.ConsoleShebang == plat.ConsoleShebang) && implies(plat.GraphicalShebang != "", r.GraphicalShebang == plat.GraphicalShebang))
		ensures("the rest is unchanged", r.VersionInfo == plat.VersionInfo && len(r.Tags) == len(plat.Tags) && len(r.MagicNumber) == len(plat.MagicNumber))
	}
}

package pyinspect

import (
	"io/fs"
	"strings"
	"time"
)

func nondetInt() int { return 0 }

type ghostError struct{}

func (*ghostError) Error() string { return "ghost" }

var errGhost error = &ghostError{}

// ---- lookupEnv ----

//gocv:contract C26 lookupEnv
func contract_lookupEnv(environ []string, key string, k int) {
	requires(0 <= k && k < len(environ))
	val, ok := lookupEnv(environ, key)
	set := func(i int) bool { return strings.HasPrefix(environ[i], key+"=") }
	if ok {
		ensures("the value is that of the first setting", exists(0, len(environ), func(i int) bool {
			return environ[i] == key+"="+val && forall(0, i, func(j int) bool { return !set(j) })
		}))
	} else {
		ensures("there is no setting", !set(k) && val == "")
	}
}

// ---- LookPath ----

// specExecutable: a path that exists, follows to something that is not a directory, and may be executed.
//
//gocv:pure specExecutable
func specExecutable(name string) bool { return false }

//gocv:extern (*github.com/datawire/ocibuild/pkg/python/pyinspect.ImageFS).checkExecutable LOOK
func model_checkExecutable(sys *ImageFS, name string) error {
	check("executability is asked of absolute paths", specIsAbs(name))
	if specExecutable(name) {
		return nil
	}
	switch nondetInt() {
	case 0:
		return fs.ErrPermission
	case 1:
		return fs.ErrNotExist
	}
	return errGhost
}

//gocv:pure specJoin
func specJoin(a, b string) string { return a + "/" + b }

func specIsAbs(a string) bool { return len(a) > 0 && a[0] == '/' }

//gocv:extern path.Join LOOK
func model_Join(elem ...string) string {
	check("two parts are joined", len(elem) == 2)
	r := specJoin(elem[0], elem[1])
	assume(!specIsAbs(elem[0]) || specIsAbs(r))
	return r
}

//gocv:extern path.IsAbs LOOK
func model_IsAbs(p string) bool { return specIsAbs(p) }

//gocv:pure specSlash
func specSlash(name string) bool { return false }

//gocv:extern strings.Contains LOOK
func model_Contains(s, sub string) bool {
	check("it is looked whether the name has a slash", sub == "/")
	return specSlash(s)
}

type ghostInit struct {
	sys  *ImageFS
	fail bool
}

var ghostInits *ghostInit

//gocv:extern (*github.com/datawire/ocibuild/pkg/python/pyinspect.ImageFS).ensureInitialized LOOK
func model_ensureInitialized(sys *ImageFS) error {
	check("the image is loaded", sys == ghostInits.sys)
	if ghostInits.fail {
		return errGhost
	}
	return nil
}

func specFull(wd, name string) string {
	if specIsAbs(name) {
		return name
	}
	return specJoin(wd, name)
}

//gocv:contract C26 *ImageFS.LookPath use=LOOK noreplay
func contract_LookPath(sys *ImageFS, name string, fail bool, k int) {
	requires(sys != nil && specIsAbs(sys.imgWD) && 0 <= k && k < len(sys.imgPATH))
	ghostInits = &ghostInit{sys: sys, fail: fail}
	wd, dirs := sys.imgWD, sys.imgPATH
	got, err := sys.LookPath(name)
	candidate := func(i int) string { return specFull(wd, specJoin(dirs[i], name)) }
	switch {
	case fail:
		ensures("an image that cannot be loaded is an error", err != nil && got == "")
	case specSlash(name):
		if specExecutable(specFull(wd, name)) {
			ensures("a name with a slash is resolved against the working directory", err == nil && got == specFull(wd, name))
		} else {
			ensures("a name with a slash is not searched for", err != nil && got == "")
		}
	case err == nil:
		ensures("the first executable along PATH is found", exists(0, len(dirs), func(i int) bool {
			return got == candidate(i) && specExecutable(candidate(i)) && forall(0, i, func(j int) bool { return !specExecutable(candidate(j)) })
		}))
	default:
		ensures("nothing along PATH is executable", !specExecutable(candidate(k)) && got == "")
	}
}

//gocv:invariant *ImageFS.LookPath use=LOOK
func inv_LookPath(sys *ImageFS, filename string, n int) bool {
	return forall(0, n, func(i int) bool {
		return !specExecutable(specFull(sys.imgWD, specJoin(sys.imgPATH[i], filename)))
	})
}

// ---- checkExecutable ----

type ghostInfo struct {
	name string
	mode fs.FileMode
	fail bool
}

func (g *ghostInfo) Name() string       { return "" }
func (g *ghostInfo) Size() int64        { return 0 }
func (g *ghostInfo) Mode() fs.FileMode  { return g.mode }
func (g *ghostInfo) ModTime() time.Time { return time.Time{} }
func (g *ghostInfo) IsDir() bool        { return g.mode&fs.ModeDir != 0 }
func (g *ghostInfo) Sys() interface{}   { return nil }
func (g *ghostInfo) UID() int           { return 0 }
func (g *ghostInfo) GID() int           { return 0 }
func (g *ghostInfo) UName() string      { return "" }
func (g *ghostInfo) GName() string      { return "" }

var ghostFile *ghostInfo

//gocv:extern (*github.com/datawire/ocibuild/pkg/python/pyinspect.ImageFS).Stat EXEC
func model_Stat(sys *ImageFS, name string) (FileInfo, error) {
	check("the file itself is looked at", name == ghostFile.name)
	if ghostFile.fail {
		return nil, errGhost
	}
	return ghostFile, nil
}

//gocv:contract C26 *ImageFS.checkExecutable use=EXEC noreplay
func contract_checkExecutable(sys *ImageFS, g *ghostInfo) {
	requires(g != nil)
	ghostFile = g
	err := sys.checkExecutable(g.name)
	ensures("executable are existing files with an execute bit that are not directories", (err == nil) == (!g.fail && g.mode&fs.ModeDir == 0 && g.mode&0o111 != 0))
}

// ---- Shebangs ----

type ghostSys struct{}

//gocv:pure specFound
func specFound(name string) bool { return false }

//gocv:pure specPath
func specPath(name string) string { return name }

//gocv:pure specDir
func specDir(name string) string { return name }

//gocv:pure specBase
func specBase(name string) string { return name }

func (*ghostSys) Split(p string) (string, string) { return specDir(p), specBase(p) }
func (*ghostSys) Join(elem ...string) string {
	check("two parts are joined", len(elem) == 2)
	return specJoin(elem[0], elem[1])
}
func (*ghostSys) Stat(string) (FileInfo, error) { return nil, errGhost }
func (*ghostSys) LookPath(name string) (string, error) {
	if !specFound(name) {
		return "", errGhost
	}
	return specPath(name), nil
}

//gocv:contract C26 Shebangs noreplay
func contract_Shebangs(generic string) {
	var sys FS = &ghostSys{}
	console, graphical, err := Shebangs(sys, generic)
	if !specFound(generic) {
		ensures("an interpreter that is not found is an error", err != nil && console == "" && graphical == "")
		return
	}
	ensures("an interpreter that is found is no error", err == nil)
	found := specPath(generic)
	dir, base := specDir(found), specBase(found)
	if strings.HasPrefix(base, "pythonw") {
		plain := specJoin(dir, "python"+base[7:])
		if specFound(plain) {
			ensures("the console interpreter is the plain variant when that exists", console == specPath(plain))
		} else {
			ensures("the console interpreter is the given one otherwise", console == found)
		}
	} else {
		ensures("the console interpreter is the given one", console == found)
	}
	cdir, cbase := specDir(console), specBase(console)
	windowed := strings.HasPrefix(cbase, "python") && !strings.HasPrefix(cbase, "pythonw") && specFound(specJoin(cdir, "pythonw"+strings.TrimPrefix(cbase, "python")))
	if windowed {
		ensures("the graphical interpreter is the windowed variant when that exists", graphical == specPath(specJoin(cdir, "pythonw"+strings.TrimPrefix(cbase, "python"))))
	} else {
		ensures("the graphical interpreter is the given one otherwise", graphical == found)
	}
}

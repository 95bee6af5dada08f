package entry_points

import (
	"archive/tar"
	"bytes"
	"context"
	"io"
	"io/fs"
	"regexp"
	"text/template"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
)

type ghostError struct{}

func (*ghostError) Error() string { return "ghost" }

var errGhost error = &ghostError{}

func identicalBytes(a, b []byte) bool { return false }
func visitedKey(k string) bool        { return false }
func nondetBytes() []byte             { return nil }

func forallKeyVFS(m map[string]fsutil.FileReference, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func forallKeySection(m python.ConfigSection, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func specHas(m map[string]fsutil.FileReference, k string) bool {
	_, ok := m[k]
	return ok
}

func specDeclared(m python.ConfigSection, k, v string) bool {
	x, ok := m[k]
	return ok && x == v
}

// ghostRun: what the hook is given, and the entry point it is at.
type ghostRun struct {
	plat                             *python.Platform
	dist, consoleShebang, guiShebang string
	scripts                          string
	failInit, failOpen, failParse    bool
	config                           python.Config
	clamp                            time.Time
	key, val                         string
	text                             []byte
	hdr                              tar.Header
	parsed, written                  int
}

var ghost *ghostRun

//gocv:extern (*github.com/datawire/ocibuild/pkg/python.Platform).Init EP
func model_Init(p *python.Platform) error {
	if ghost.failInit {
		return errGhost
	}
	return nil
}

//gocv:pure specJoined
func specJoined(a, b string) string { return a + "/" + b }

//gocv:extern path.Join EP
func model_Join(elem ...string) string {
	if len(elem) == 2 {
		return specJoined(elem[0], elem[1])
	}
	check("joins two or three parts", len(elem) == 3)
	if elem[0] != "/" {
		return specJoined(specJoined(elem[0], elem[1]), elem[2])
	}
	return "/" + specJoined(elem[1], elem[2])
}

type ghostFile struct {
	fs.FileInfo
	name string
}

func (g *ghostFile) FullName() string { return g.name }
func (g *ghostFile) Open() (io.ReadCloser, error) {
	check("the declarations are those of the installed distribution", g.name == specJoined(ghost.dist, "entry_points.txt"))
	if ghost.failOpen {
		return nil, errGhost
	}
	return nil, nil
}

//gocv:extern (*github.com/datawire/ocibuild/pkg/python.ConfigParser).Parse EP
func model_Parse(p *python.ConfigParser, r io.Reader) (python.Config, error) {
	ghost.parsed++
	if ghost.failParse {
		return nil, errGhost
	}
	return ghost.config, nil
}

//gocv:pure specSlash
func specSlash(s string) bool { return false }

//gocv:extern strings.Contains EP
func model_Contains(s, sub string) bool {
	check("names are searched for slashes", sub == "/")
	ghost.key = s
	return specSlash(s)
}

// specIsRef: the value has the form of an object reference.
//
//gocv:pure specIsRef
func specIsRef(v string) bool { return true }

// specObject: the object reference, without extras.
//
//gocv:pure specObject
func specObject(v string) string { return v }

//gocv:pure specColons
func specColons(v string) int { return 1 }

//gocv:pure specModule
func specModule(v string) string { return v }

//gocv:pure specAttr
func specAttr(v string) string { return v }

//gocv:pure specFirst
func specFirst(v string) string { return v }

//gocv:extern (*regexp.Regexp).FindStringSubmatch EP
func model_Find(re *regexp.Regexp, s string) []string {
	ghost.val = s
	if !specIsRef(s) {
		return nil
	}
	return []string{s, specObject(s), ""}
}

//gocv:extern (*regexp.Regexp).SubexpIndex EP
func model_SubexpIndex(re *regexp.Regexp, s string) int {
	check("the callable is used", s == "callable")
	return 1
}

//gocv:extern strings.Split EP
func model_Split(s, sep string) []string {
	check("references are split at the colon", sep == ":")
	if specColons(s) != 1 {
		if specColons(s) <= 0 {
			return []string{s}
		}
		return []string{"", "", ""}
	}
	return []string{specModule(s), specAttr(s)}
}

//gocv:extern strings.SplitN EP
func model_SplitN(s, sep string, n int) []string {
	check("attributes are split at the first dot", sep == "." && n == 2)
	return []string{specFirst(s), ""}
}

//gocv:extern (*text/template.Template).Execute EP
func model_Execute(t *template.Template, w io.Writer, data interface{}) error {
	g := ghost
	d := data.(map[string]string)
	check("the script template is used", t == scriptTmpl)
	check("it is for a declared entry point, with the interpreter of its section",
		d["Shebang"] == g.consoleShebang && specDeclared(g.config["console_scripts"], g.key, g.val) ||
			d["Shebang"] == g.guiShebang && specDeclared(g.config["gui_scripts"], g.key, g.val))
	check("it imports from the declared module and calls the declared object", d["Module"] == specModule(specObject(g.val)) &&
		d["Func"] == specAttr(specObject(g.val)) && d["ImportName"] == specFirst(specAttr(specObject(g.val))))
	check("only references to one object in a module are accepted", specIsRef(g.val) && specColons(specObject(g.val)) == 1)
	g.text = nondetBytes()
	return nil
}

//gocv:extern (*bytes.Buffer).Len EP
func model_Len(b *bytes.Buffer) int { return len(ghost.text) }

//gocv:extern (*bytes.Buffer).Bytes EP
func model_Bytes(b *bytes.Buffer) []byte { return ghost.text }

//gocv:extern (*archive/tar.Header).FileInfo EP
func model_FileInfo(h *tar.Header) fs.FileInfo {
	g := ghost
	check("the script is an executable file in the scripts directory", h.Typeflag == tar.TypeReg && h.Mode == 0o755 && h.Name == specJoined(g.scripts, g.key))
	check("of the size of its text and no later than the clamp time", h.Size == int64(len(g.text)) && h.ModTime == g.clamp)
	g.written++
	return nil
}

//gocv:contract C24 CreateScripts use=EP noreplay
func contract_CreateScripts(plat python.Platform, g *ghostRun, vfs map[string]fsutil.FileReference, config python.Config, declared bool) {
	requires(g != nil && vfs != nil && config != nil && g.written == 0 && g.parsed == 0)
	g.config, g.consoleShebang, g.guiShebang, g.scripts = config, plat.ConsoleShebang, plat.GraphicalShebang, plat.Scheme.Scripts
	name := specJoined(g.dist, "entry_points.txt")
	if declared {
		vfs[name] = &ghostFile{name: name}
	} else {
		requires(!specHas(vfs, name))
	}
	ghost = g
	err := CreateScripts(plat)(context.Background(), g.clamp, vfs, g.dist)
	if !declared {
		ensures("nothing is created without declarations", g.written == 0 && (err != nil) == g.failInit)
	}
	if err == nil && declared {
		ensures("the declarations are read", !g.failInit && !g.failOpen && !g.failParse && g.parsed == 1)
		ensures("every console entry point has its script", forallKeySection(config["console_scripts"], func(k string) bool { return specHas(vfs, specJoined(g.scripts, k)) }))
		ensures("every graphical entry point has its script", forallKeySection(config["gui_scripts"], func(k string) bool { return specHas(vfs, specJoined(g.scripts, k)) }))
	}
}

//gocv:invariant CreateScripts$1 depth=2 use=EP
func inv_scripts_seen(sectionData python.ConfigSection, vfs map[string]fsutil.FileReference) bool {
	g := ghost
	return forallKeySection(sectionData, func(k string) bool { return !visitedKey(k) || specHas(vfs, specJoined(g.scripts, k)) })
}

//gocv:invariant CreateScripts$1 depth=1 use=EP
func inv_scripts_console(vfs map[string]fsutil.FileReference, n int) bool {
	g := ghost
	return n < 1 || forallKeySection(g.config["console_scripts"], func(k string) bool { return specHas(vfs, specJoined(g.scripts, k)) })
}

//gocv:invariant CreateScripts$1 depth=2 use=EP
func inv_scripts_console2(vfs map[string]fsutil.FileReference, n1 int) bool {
	g := ghost
	return n1 < 1 || forallKeySection(g.config["console_scripts"], func(k string) bool { return specHas(vfs, specJoined(g.scripts, k)) })
}

//gocv:invariant CreateScripts$1 depth=1 use=EP
func inv_scripts_gui(vfs map[string]fsutil.FileReference, n int) bool {
	g := ghost
	return n < 2 || forallKeySection(g.config["gui_scripts"], func(k string) bool { return specHas(vfs, specJoined(g.scripts, k)) })
}

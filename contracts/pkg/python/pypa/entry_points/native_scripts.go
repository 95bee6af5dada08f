package entry_points

import (
	"archive/tar"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os/exec"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
)

func verifFile(name, content string) fsutil.FileReference {
	h := &tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: 0o644, Size: int64(len(content))}
	return &fsutil.InMemFileReference{FileInfo: h.FileInfo(), MFullName: name, MContent: []byte(content)}
}

func verifIdent(r *rand.Rand) string {
	return []string{"a", "mod", "_x", "Cls", "main", "f9", "a_b", "__main__", "Z"}[r.Intn(9)]
}

func verifDotted(r *rand.Rand, n int) string {
	var p []string
	for i := 0; i < 1+r.Intn(n); i++ {
		p = append(p, verifIdent(r))
	}
	return strings.Join(p, ".")
}

const verifScriptPy = `
import sys, json, ast
out = []
for c in json.load(sys.stdin):
    try:
        m = ast.parse(c)
    except SyntaxError as e:
        out.append(["syntax", str(e)])
        continue
    r = []
    for n in ast.walk(m):
        if isinstance(n, ast.ImportFrom):
            r.append("from %s%s import %s" % ("." * n.level, n.module, ",".join(a.name + (" as " + a.asname if a.asname else "") for a in n.names)))
        if isinstance(n, ast.Call) and ast.unparse(n.func) == "sys.exit":
            r.append("exit " + ",".join(ast.unparse(a) for a in n.args))
        if isinstance(n, ast.If):
            r.append("if " + ast.unparse(n.test))
    out.append(sorted(r))
json.dump(out, sys.stdout)
`

func TestVerif_C24_scripts(t *testing.T) {
	h := newVH(t, "C24", "scripts", "each declared entry point has its script, which the installed Python reads as the import and the call that were declared; references of another form are rejected", 1500)
	defer h.done()
	_, noPython := exec.LookPath("python3")
	var texts []string
	var wants [][]string
	var inputs []string
	for h.more() {
		r := h.r
		plat := python.Platform{ConsoleShebang: "/usr/bin/python3", GraphicalShebang: "/usr/bin/pythonw3",
			Scheme: python.Scheme{PureLib: "/usr/lib/p", PlatLib: "/usr/lib/q", Headers: "/usr/include", Scripts: []string{"/usr/bin", "/opt/x/bin", "/usr/bin/"}[r.Intn(3)], Data: "/usr"}}
		if r.Intn(4) == 0 {
			plat.GraphicalShebang = plat.ConsoleShebang
		}
		scripts := strings.Trim(plat.Scheme.Scripts, "/")
		clamp := time.Unix(int64(r.Intn(2000000000)), 0)
		type script struct{ shebang, module, attr string }
		want := map[string]script{}
		bad := false
		var b strings.Builder
		sections := []string{"console_scripts", "gui_scripts", "other.group", "console_scripts_x"}
		r.Shuffle(len(sections), func(i, j int) { sections[i], sections[j] = sections[j], sections[i] })
		gui := map[string]script{}
		for _, s := range sections {
			if r.Intn(3) == 0 {
				continue
			}
			fmt.Fprintf(&b, "[%s]\n", s)
			used := map[string]bool{}
			for i, n := 0, r.Intn(4+2); i < n; i++ {
				key := []string{"tool", "Tool", "my-tool", "a.b", "x y", "run.py", "é"}[r.Intn(7)]
				if used[key] {
					continue
				}
				used[key] = true
				mod, attr := verifDotted(r, 3), verifDotted(r, 3)
				val := mod + ":" + attr
				ok := true
				switch r.Intn(14) {
				case 0:
					val += " [extra]"
				case 1:
					val += "[a,b]"
				case 2, 3:
					ok = false
					val = []string{mod, "", mod + ":", ":" + attr, mod + ":" + attr + ":x", mod + " : " + attr, "9a:" + attr, mod + ":9", mod + ":" + attr + "()", mod + "..x:" + attr, mod + ":" + attr + ".", "-" + val, val + " extra", val + ";import os", "a b:c"}[r.Intn(15)]
				case 4:
					if s == "console_scripts" || s == "gui_scripts" {
						ok = false
					}
					key = []string{"a/b", "..", ".", "/x"}[r.Intn(4)]
					if used[key] {
						continue
					}
					used[key] = true
				}
				fmt.Fprintf(&b, "%s%s%s\n", key, []string{"=", " = ", "= "}[r.Intn(3)], val)
				switch s {
				case "console_scripts":
					want[scripts+"/"+key] = script{plat.ConsoleShebang, mod, attr}
					bad = bad || !ok
				case "gui_scripts":
					gui[scripts+"/"+key] = script{plat.GraphicalShebang, mod, attr}
					bad = bad || !ok
				}
			}
		}
		dist := "usr/lib/p/x-1.dist-info"
		vfs := map[string]fsutil.FileReference{
			"usr/lib/p/x.py": verifFile("usr/lib/p/x.py", "x"),
		}
		before := map[string]bool{"usr/lib/p/x.py": true}
		declared := r.Intn(6) != 0
		if declared {
			vfs[dist+"/entry_points.txt"] = verifFile(dist+"/entry_points.txt", b.String())
			before[dist+"/entry_points.txt"] = true
		} else {
			vfs["usr/lib/p/y-1.dist-info/entry_points.txt"] = verifFile("usr/lib/p/y-1.dist-info/entry_points.txt", b.String())
			before["usr/lib/p/y-1.dist-info/entry_points.txt"] = true
			want, gui, bad = nil, nil, false
		}
		in := fmt.Sprintf("scripts in %s, declared %v:\n%s", plat.Scheme.Scripts, declared, b.String())
		h.tick(in)
		h.try("creating scripts", in, func() {
			err := CreateScripts(plat)(context.Background(), clamp, vfs, dist)
			if bad != (err != nil) {
				h.fail("references of another form, and only those, are rejected", in, "%v", err)
				return
			}
			if err != nil {
				return
			}
			for n := range before {
				if vfs[n] == nil {
					h.fail("other files stay", in, "%s is gone", n)
				}
			}
			for n, f := range vfs {
				if before[n] {
					continue
				}
				s, isCon := want[n]
				g, isGUI := gui[n]
				if !isCon && !isGUI {
					h.fail("only declared scripts are created", in, "%s", n)
					continue
				}
				rd, err := f.Open()
				if err != nil {
					h.fail("scripts can be read", in, "%s: %v", n, err)
					continue
				}
				text, _ := io.ReadAll(rd)
				lines := strings.SplitN(string(text), "\n", 2)
				if isGUI && (!isCon || lines[0] == "#!"+g.shebang) {
					s = g
				}
				if lines[0] != "#!"+s.shebang {
					h.fail("the interpreter is that of the section", in, "%s: %q", n, lines[0])
				}
				hdr, _ := f.Sys().(*tar.Header)
				if f.Mode() != 0o755 || f.Size() != int64(len(text)) || f.FullName() != n || hdr == nil || hdr.Typeflag != tar.TypeReg || hdr.Name != n || f.ModTime().After(clamp) {
					h.fail("a script is an executable file", in, "%s: mode %v size %d name %s", n, f.Mode(), f.Size(), f.FullName())
				}
				texts = append(texts, string(text))
				inputs = append(inputs, in)
				wants = append(wants, []string{"exit " + s.attr + "()", "from " + s.module + " import " + strings.SplitN(s.attr, ".", 2)[0], "if __name__ == '__main__'"})
				if isCon && isGUI && want[n] != gui[n] {
					texts, inputs, wants = texts[:len(texts)-1], inputs[:len(inputs)-1], wants[:len(wants)-1]
				}
			}
			for n := range want {
				if vfs[n] == nil {
					h.fail("every declared script is created", in, "%s", n)
				}
			}
			for n := range gui {
				if vfs[n] == nil {
					h.fail("every declared script is created", in, "%s", n)
				}
			}
		})
	}
	if noPython != nil || len(texts) == 0 {
		return
	}
	js, _ := json.Marshal(texts)
	cmd := exec.Command("python3", "-c", verifScriptPy)
	cmd.Stdin = bytes.NewReader(js)
	out, err := cmd.Output()
	var ans [][]string
	if err != nil || json.Unmarshal(out, &ans) != nil || len(ans) != len(texts) {
		return
	}
	for i := range ans {
		if !reflect.DeepEqual(ans[i], wants[i]) {
			h.fail("the script imports and calls what was declared", inputs[i], "Python reads %q, want %q, in:\n%s", ans[i], wants[i], texts[i])
		}
	}
}

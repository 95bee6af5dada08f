package pyinspect

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"path"
	"strings"
	"testing"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	"github.com/google/go-containerregistry/pkg/v1/empty"
	"github.com/google/go-containerregistry/pkg/v1/mutate"
	"github.com/google/go-containerregistry/pkg/v1/tarball"
)

// an image made of plain entries, and an independent view of what is in it

type verifEntry struct {
	kind byte // 'f', 'd', 'l'
	mode int64
	link string
}

type verifTree map[string]verifEntry // by absolute clean name

var errVerifNot = errors.New("not there")

// verifResolve walks the way a system does.
func (t verifTree) resolve(name string) (verifEntry, error) {
	todo := strings.Split(name, "/")
	cur := ""
	for steps := 0; len(todo) > 0; steps++ {
		if steps > 200 {
			return verifEntry{}, errVerifNot
		}
		c := todo[0]
		todo = todo[1:]
		switch c {
		case "", ".":
			continue
		case "..":
			cur = strings.TrimSuffix(path.Dir(cur), "/")
			if cur == "." {
				cur = ""
			}
			continue
		}
		e, ok := t[cur+"/"+c]
		if !ok {
			return verifEntry{}, errVerifNot
		}
		if e.kind == 'l' {
			todo = append(strings.Split(e.link, "/"), todo...)
			if strings.HasPrefix(e.link, "/") {
				cur = ""
			}
			continue
		}
		if e.kind == 'f' && len(todo) > 0 {
			return verifEntry{}, errVerifNot
		}
		cur += "/" + c
	}
	if cur == "" {
		return verifEntry{kind: 'd', mode: 0o755}, nil
	}
	return t[cur], nil
}

func verifImage(t verifTree, names []string, split int, cfg ociv1.Config) (ociv1.Image, error) {
	img := empty.Image
	for _, part := range [][]string{names[:split], names[split:]} {
		var buf bytes.Buffer
		tw := tar.NewWriter(&buf)
		for _, n := range part {
			e := t[n]
			h := &tar.Header{Name: n[1:], Mode: e.mode}
			switch e.kind {
			case 'f':
				h.Typeflag = tar.TypeReg
			case 'd':
				h.Typeflag = tar.TypeDir
				h.Name += "/"
			case 'l':
				h.Typeflag, h.Linkname = tar.TypeSymlink, e.link
			}
			if err := tw.WriteHeader(h); err != nil {
				return nil, err
			}
		}
		if err := tw.Close(); err != nil {
			return nil, err
		}
		b := buf.Bytes()
		l, err := tarball.LayerFromOpener(func() (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(b)), nil })
		if err != nil {
			return nil, err
		}
		if img, err = mutate.AppendLayers(img, l); err != nil {
			return nil, err
		}
	}
	return mutate.Config(img, cfg)
}

func verifGenTree(r *rand.Rand) (verifTree, []string) {
	t := verifTree{}
	var names []string
	add := func(n string, e verifEntry) {
		if _, ok := t[n]; !ok {
			t[n] = e
			names = append(names, n)
		}
	}
	for _, d := range []string{"/a", "/b", "/c", "/a/s", "/w", "/w/r"} {
		add(d, verifEntry{kind: 'd', mode: 0o755})
	}
	if r.Intn(2) == 0 {
		add("/ln", verifEntry{kind: 'l', mode: 0o777, link: []string{"a", "/b", "a/s", "nowhere", "ln"}[r.Intn(5)]})
	}
	for i := r.Intn(20); i > 0; i-- {
		n := []string{"/a", "/b", "/c", "/a/s", "/w", "/w/r"}[r.Intn(6)] + "/" + []string{"python", "pythonw", "python3", "pythonw3", "sh", "python3.9", "pypy", "Python", "w"}[r.Intn(5+r.Intn(5))]
		switch r.Intn(6) {
		case 0:
			add(n, verifEntry{kind: 'd', mode: 0o755})
		case 1:
			add(n, verifEntry{kind: 'l', mode: 0o777, link: []string{"python3", "../b/python", "/a/sh", "nowhere", "/b", ".", "../a/s/sh"}[r.Intn(7)]})
		default:
			add(n, verifEntry{kind: 'f', mode: []int64{0o755, 0o644, 0o700, 0o010, 0o001, 0o600, 0o4644, 0, 0o777, 0o111, 0o100}[r.Intn(11)]})
		}
	}
	return t, names
}

func TestVerif_C26_lookup(t *testing.T) {
	h := newVH(t, "C26", "lookup", "the lookup in an image is that of a walk along PATH in an independent tree; the interpreters follow from the lookups", 30000)
	defer h.done()
	for h.more() {
		r := h.r
		tree, names := verifGenTree(r)
		var dirs []string
		for i := r.Intn(7); i > 0; i-- {
			dirs = append(dirs, []string{"/a", "/b", "/c", "/a/s", "", ".", "r", "/ln", "/b/", "../c", "/none", "/a/python"}[r.Intn(12)])
		}
		wd := []string{"", "/", "/w", "/w/", "/a", "w"}[r.Intn(6)]
		cfg := ociv1.Config{WorkingDir: wd, Env: []string{"XPATH=/b", "PATHX=/b"}}
		hasPath := r.Intn(8) != 0
		if hasPath {
			cfg.Env = append(cfg.Env, "PATH="+strings.Join(dirs, ":"))
		}
		if r.Intn(4) == 0 {
			cfg.Env = append(cfg.Env, "PATH=/c:/b:/a") // the first one counts
			if !hasPath {
				hasPath, dirs = true, []string{"/c", "/b", "/a"}
			}
		}
		if !hasPath || strings.Join(dirs, ":") == "" {
			dirs = nil
		}
		if wd == "" {
			wd = "/"
		}
		if wd[0] != '/' {
			wd = "/" + wd
		}
		img, err := verifImage(tree, names, r.Intn(len(names)+1), cfg)
		if err != nil {
			t.Fatal(err)
		}
		exec := func(n string) bool {
			e, err := tree.resolve(n)
			return err == nil && e.kind == 'f' && e.mode&0o111 != 0
		}
		want := func(name string) string {
			if strings.Contains(name, "/") {
				full := name
				if name[0] != '/' {
					full = path.Join(wd, name)
				}
				if exec(path.Clean(full)) {
					return full
				}
				return ""
			}
			for _, d := range dirs {
				full := path.Join(d, name)
				if full[0] != '/' {
					full = path.Join(wd, full)
				}
				if exec(full) {
					return full
				}
			}
			return ""
		}
		sys := &ImageFS{Image: img}
		for _, name := range []string{"python", "pythonw", "python3", "sh", "r/sh", "./sh", "/a/sh", "/b/python", "../a/sh", "/a//sh", "/ln/sh", "/a", "none", "python3.9", "pypy", "Python", "w"} {
			in := fmt.Sprintf("lookup of %q, PATH %q, working directory %q, image %v", name, dirs, wd, tree)
			h.tick(in)
			h.try("lookup", in, func() {
				w := want(name)
				got, err := sys.LookPath(name)
				if (w == "") != (err != nil) || got != w {
					h.fail("the lookup finds the first executable", in, "got %q (%v), want %q", got, err, w)
				}
				con, gui, err := Shebangs(sys, name)
				if (w == "") != (err != nil) {
					h.fail("the interpreter is looked up", in, "got %q %q (%v), want %q", con, gui, err, w)
				}
				if err != nil {
					return
				}
				wcon, wgui := w, w
				if d, f := path.Split(w); strings.HasPrefix(f, "pythonw") {
					if p := path.Join(d, "python"+f[7:]); exec(p) {
						wcon = p
					}
				}
				if d, f := path.Split(wcon); strings.HasPrefix(f, "python") && !strings.HasPrefix(f, "pythonw") {
					if p := path.Join(d, "pythonw"+f[6:]); exec(p) {
						wgui = p
					}
				}
				if con != wcon || gui != wgui {
					h.fail("the interpreters are the plain and the windowed one", in, "got %q %q, want %q %q", con, gui, wcon, wgui)
				}
			})
		}
	}
}

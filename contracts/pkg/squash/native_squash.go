package squash

import (
	"archive/tar"
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"path"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
)

// ---- an independent reading of the OCI layer rules: a filesystem is a map from path to node ----

type vNode struct {
	typ  byte   // tar type; directories that only exist because something is under them have meta ""
	meta string // everything else of the header
	data string
}

type vFS map[string]vNode

type vEnt struct {
	hdr  tar.Header
	data string
}

func vMeta(h *tar.Header) string {
	pax := map[string]string{} // the records that are not just how another field is written
	for k, v := range h.PAXRecords {
		if k != "path" && k != "linkpath" && k != "uname" && k != "gname" {
			pax[k] = v
		}
	}
	return fmt.Sprintf("mode=%o uid=%d gid=%d uname=%q gname=%q link=%q dev=%d,%d mtime=%d pax=%v", h.Mode, h.Uid, h.Gid, h.Uname, h.Gname, h.Linkname, h.Devmajor, h.Devminor, h.ModTime.Unix(), pax)
}

func (f vFS) remove(p string, self bool) {
	for k := range f {
		if self && k == p || strings.HasPrefix(k, p+"/") || p == "." && k != "." {
			delete(f, k)
		}
	}
}

// mkparents makes sure that everything above p is a directory.
func (f vFS) mkparents(p string) {
	parts := strings.Split(p, "/")
	for i := 1; i < len(parts); i++ {
		d := strings.Join(parts[:i], "/")
		if n, ok := f[d]; !ok || n.typ != tar.TypeDir {
			f[d] = vNode{typ: tar.TypeDir}
		}
	}
}

func (f vFS) apply(layer []vEnt) vFS {
	ret := vFS{}
	for k, v := range f {
		ret[k] = v
	}
	// whiteouts concern what is below this layer only
	for _, e := range layer {
		p := path.Clean(e.hdr.Name)
		b := path.Base(p)
		if !strings.HasPrefix(b, ".wh.") {
			continue
		}
		ret.mkparents(p)
		if b == ".wh..wh..opq" {
			ret.remove(path.Dir(p), false)
		} else {
			ret.remove(path.Join(path.Dir(p), b[len(".wh."):]), true)
		}
	}
	for _, e := range layer {
		p := path.Clean(e.hdr.Name)
		if strings.HasPrefix(path.Base(p), ".wh.") {
			continue
		}
		ret.mkparents(p)
		old, ok := ret[p]
		if ok && (old.typ != tar.TypeDir || e.hdr.Typeflag != tar.TypeDir) {
			ret.remove(p, true)
		}
		h := e.hdr
		ret[p] = vNode{typ: h.Typeflag, meta: vMeta(&h), data: e.data}
	}
	return ret
}

func vData(s string) string {
	if len(s) > 80 {
		return fmt.Sprintf("(%d bytes, sha256 %x)", len(s), sha256.Sum256([]byte(s)))
	}
	return fmt.Sprintf("%q", s)
}

func (f vFS) String() string {
	var ks []string
	for k := range f {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		n := f[k]
		fmt.Fprintf(&b, "%s:%c{%s}%s ", k, n.typ, n.meta, vData(n.data))
	}
	return b.String()
}

func vDiff(a, b vFS) string {
	var ks []string
	for k := range a {
		if b[k] != a[k] {
			ks = append(ks, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	ret := ""
	for _, k := range ks {
		x, xok := a[k]
		y, yok := b[k]
		ret += fmt.Sprintf("%q: squashed %v %c %s %s, one by one %v %c %s %s; ", k, yok, y.typ, y.meta, vData(y.data), xok, x.typ, x.meta, vData(x.data))
	}
	return ret
}

func vToLayer(es []vEnt) (ociv1.Layer, error) {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for i := range es {
		h := es[i].hdr
		h.Size = int64(len(es[i].data))
		if err := w.WriteHeader(&h); err != nil {
			return nil, err
		}
		if _, err := io.WriteString(w, es[i].data); err != nil {
			return nil, err
		}
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	return ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(buf.Bytes())), nil })
}

func vFromLayer(l ociv1.Layer) ([]vEnt, []byte, error) {
	rc, err := l.Uncompressed()
	if err != nil {
		return nil, nil, err
	}
	defer rc.Close()
	raw, err := io.ReadAll(rc)
	if err != nil {
		return nil, nil, err
	}
	var ret []vEnt
	tr := tar.NewReader(bytes.NewReader(raw))
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return ret, raw, nil
		}
		if err != nil {
			return nil, nil, err
		}
		data, err := io.ReadAll(tr)
		if err != nil {
			return nil, nil, err
		}
		ret = append(ret, vEnt{*h, string(data)})
	}
}

func vNames(es []vEnt) string {
	var ns []string
	for _, e := range es {
		s := e.hdr.Name
		switch e.hdr.Typeflag {
		case tar.TypeDir:
			s = strings.TrimSuffix(s, "/") + "/"
		case tar.TypeSymlink:
			s += "->" + e.hdr.Linkname
		}
		ns = append(ns, s)
	}
	return "[" + strings.Join(ns, " ") + "]"
}

func vShowLayers(ls [][]vEnt) string {
	var ss []string
	for _, l := range ls {
		ss = append(ss, vNames(l))
	}
	return strings.Join(ss, " + ")
}

var vSerial int

func vHeader(r *rand.Rand, name string) vEnt {
	vSerial++
	e := vEnt{hdr: tar.Header{Name: name, Typeflag: tar.TypeReg, Mode: int64([]int{0o644, 0o755, 0o4755, 0o600}[r.Intn(4)]), Uid: r.Intn(3), Gid: r.Intn(3), Uname: "u", ModTime: time.Unix(int64(vSerial), 0)}}
	switch r.Intn(7) {
	case 0, 1, 2:
		e.hdr.Typeflag = tar.TypeDir
	case 3:
		e.hdr.Typeflag, e.hdr.Linkname = tar.TypeSymlink, []string{"a", "b", "../x", "/a/b", "nowhere"}[r.Intn(5)]
	case 4:
		e.hdr.Typeflag, e.hdr.Devmajor, e.hdr.Devminor = tar.TypeChar, 1, int64(r.Intn(3))
	default:
		switch r.Intn(60) {
		case 0:
			e.data = strings.Repeat(fmt.Sprintf("%d\x00", vSerial), 1+r.Intn(40000))
		case 1, 2, 3, 4:
			e.data = "x"
		case 5, 6, 7, 8:
		default:
			e.data = strings.Repeat("d", r.Intn(3)) + fmt.Sprint(vSerial)
		}
	}
	return e
}

// vGenLayers makes layers in which nothing lies under a symbolic link.
func vGenLayers(r *rand.Rand, n int, symlinks bool) [][]vEnt {
	parts := [][]string{{"a", "b", "c", "a-b"}, {"a", "B", "c", "A"}, {"a", "a.b", "a b", "ab"}, {"a", "aa", "\u00e9", ".a"}}[r.Intn(8)/2]
	var ret [][]vEnt
	links := map[string]bool{}
	used := map[string]bool{} // paths with something under them
	for i := 0; i < n; i++ {
		var layer []vEnt
		for k := 1 + r.Intn(4); k > 0; k-- {
			p := parts[r.Intn(len(parts))]
			for d := r.Intn(3); d > 0; d-- {
				p += "/" + parts[r.Intn(len(parts))]
			}
			dir, base := path.Dir(p), path.Base(p)
			var e vEnt
			switch r.Intn(24) / 3 {
			case 7:
				e = vHeader(r, p)
				if r.Intn(3) == 0 {
					e = vEnt{hdr: tar.Header{Name: ".", Typeflag: tar.TypeDir, Mode: 0o711, ModTime: e.hdr.ModTime}}
				} else if e.hdr.Typeflag == tar.TypeSymlink {
					continue
				}
			case 0:
				e = vEnt{hdr: tar.Header{Name: path.Join(dir, ".wh."+base), Typeflag: tar.TypeReg, Mode: 0o644}}
			case 1:
				e = vEnt{hdr: tar.Header{Name: path.Join(dir, ".wh..wh..opq"), Typeflag: tar.TypeReg, Mode: 0o644}}
			default:
				e = vHeader(r, p)
				if e.hdr.Typeflag == tar.TypeSymlink {
					if !symlinks || used[p] {
						continue
					}
					links[p] = true
				}
			}
			under := false
			for d := path.Dir(path.Clean(e.hdr.Name)); d != "."; d = path.Dir(d) {
				if links[d] {
					under = true
				}
			}
			if under {
				continue
			}
			for d := path.Dir(path.Clean(e.hdr.Name)); d != "."; d = path.Dir(d) {
				used[d] = true
			}
			if r.Intn(6) == 0 && e.hdr.Name != "." {
				e.hdr.Name = "./" + e.hdr.Name
			}
			if e.hdr.Typeflag == tar.TypeDir && r.Intn(2) == 0 {
				e.hdr.Name += "/"
			}
			layer = append(layer, e)
		}
		ret = append(ret, layer)
	}
	return ret
}

func vBase(r *rand.Rand) vFS {
	f := vFS{}
	for _, l := range vGenLayers(r, 1+r.Intn(3), true) {
		f = f.apply(l)
	}
	for _, p := range []string{"a/x", "a/b/x", "a/c/x", "b/x", "c/x", "a-b/x", "a", "c"} {
		if r.Intn(3) == 0 {
			under := false
			for d := path.Dir(p); d != "."; d = path.Dir(d) {
				if f[d].typ == tar.TypeSymlink {
					under = true
				}
			}
			if !under {
				f = f.apply([]vEnt{{hdr: tar.Header{Name: p, Typeflag: tar.TypeReg}, data: "base"}})
			}
		}
	}
	return f
}

func vLayersOf(ls [][]vEnt) ([]ociv1.Layer, error) {
	var ret []ociv1.Layer
	for _, l := range ls {
		x, err := vToLayer(l)
		if err != nil {
			return nil, err
		}
		ret = append(ret, x)
	}
	return ret, nil
}

func TestVerif_C17_apply(t *testing.T) {
	h := newVH(t, "C17", "squash_apply", "random stacks of up to 4 layers with whiteouts, opaque whiteouts, replaced files and directories, on random bases", 6000)
	defer h.done()
	for h.more() {
		r := h.r
		ls := vGenLayers(r, 1+r.Intn(4), true)
		layers, err := vLayersOf(ls)
		if err != nil {
			continue
		}
		in := vShowLayers(ls)
		h.tick(in)
		h.try("squash", in, func() {
			out, err := Squash(layers)
			if err != nil {
				h.fail("layers are squashed", in, "error %v", err)
				return
			}
			got, _, err := vFromLayer(out)
			if err != nil {
				h.fail("the output is a readable archive", in, "error %v", err)
				return
			}
			for k := 0; k < 3; k++ {
				base := vFS{}
				if k > 0 {
					base = vBase(r)
				}
				want := base
				for _, l := range ls {
					want = want.apply(l)
				}
				have := base.apply(got)
				for k, n := range want {
					// the metadata of a directory no entry describes is anybody's guess
					if m := have[k]; n.typ == tar.TypeDir && n.meta == "" && m.typ == tar.TypeDir {
						have[k] = n
					}
				}
				if have.String() != want.String() {
					h.fail("applying the squashed layer equals applying the layers one by one", in+" on "+base.String(), "squashed %s: %s", vNames(got), vDiff(want, have))
					return
				}
			}
		})
	}
}

func vSibling(a, b string) bool { // a may come before b
	aw, bw := strings.HasPrefix(a, ".wh."), strings.HasPrefix(b, ".wh.")
	if aw != bw {
		return aw
	}
	if a == ".wh..wh..opq" || b == ".wh..wh..opq" {
		return a == ".wh..wh..opq"
	}
	return a < b
}

func TestVerif_C18_canonical(t *testing.T) {
	h := newVH(t, "C18", "squash_canonical", "random stacks of layers, also with names outside the root; output order, names, repeatability, squashing again", 3000)
	defer h.done()
	for h.more() {
		r := h.r
		ls := vGenLayers(r, 1+r.Intn(4), true)
		layers, err := vLayersOf(ls)
		if err != nil {
			continue
		}
		in := vShowLayers(ls)
		h.tick(in)
		h.try("squash", in, func() {
			out, err := Squash(layers)
			if err != nil {
				h.fail("layers are squashed", in, "error %v", err)
				return
			}
			es, raw, err := vFromLayer(out)
			if err != nil {
				h.fail("the output is a readable archive", in, "error %v", err)
				return
			}
			seen := map[string]bool{}
			var prev []string
			for _, e := range es {
				p := e.hdr.Name
				if e.hdr.Typeflag == tar.TypeDir {
					p = strings.TrimSuffix(p, "/")
				}
				if p != path.Clean(p) || strings.HasPrefix(p, "/") || p == ".." || strings.HasPrefix(p, "../") {
					h.fail("names are clean and relative", in, "%q", e.hdr.Name)
				}
				if seen[p] {
					h.fail("each path is listed once", in, "%q in %s", p, vNames(es))
				}
				seen[p] = true
				if p == "." {
					if prev != nil {
						h.fail("parents before children, whiteouts first, siblings in byte order", in, "%q after %q in %s", p, strings.Join(prev, "/"), vNames(es))
					}
					continue
				}
				cur := strings.Split(p, "/")
				if prev != nil {
					i := 0
					for i < len(prev) && i < len(cur) && prev[i] == cur[i] {
						i++
					}
					if i == len(cur) || i < len(prev) && !vSibling(prev[i], cur[i]) {
						h.fail("parents before children, whiteouts first, siblings in byte order", in, "%q after %q in %s", p, strings.Join(prev, "/"), vNames(es))
					}
				}
				prev = cur
			}
			again, err := Squash(layers)
			if err == nil {
				_, raw2, _ := vFromLayer(again)
				if !bytes.Equal(raw, raw2) {
					h.fail("equal inputs give identical output", in, "two runs differ")
				}
			}
			twice, err := Squash([]ociv1.Layer{out})
			if err != nil {
				h.fail("squashing again changes nothing", in, "error %v", err)
				return
			}
			es3, _, err := vFromLayer(twice)
			if err != nil || fmt.Sprint(vFull(es)) != fmt.Sprint(vFull(es3)) {
				h.fail("squashing again changes nothing", in, "%s then %s (%v)", vNames(es), vNames(es3), err)
			}
		})
		// names outside the root
		bad := []string{"..", "../x", "/x", "a/../../x", "/", "./../y", "a/../..", "../.wh.x", "/.wh.a"}[r.Intn(9)]
		ok := []string{"a/../x", "./x", "..x", "...", "a/..b", ".wh.x", "..wh.x"}[r.Intn(7)]
		for _, c := range []struct {
			name string
			bad  bool
		}{{bad, true}, {ok, false}} {
			l := []vEnt{{hdr: tar.Header{Name: "z", Typeflag: tar.TypeReg}}, {hdr: tar.Header{Name: c.name, Typeflag: []byte{tar.TypeReg, tar.TypeDir}[r.Intn(2)]}}}
			layer, err := vToLayer(l)
			if err != nil {
				continue
			}
			h.try("outside", c.name, func() {
				_, err := Squash([]ociv1.Layer{layer})
				if (err != nil) != c.bad {
					h.fail("a name outside the image root is rejected and others are not", fmt.Sprintf("%q", c.name), "error %v", err)
				}
				if _, err := Load([]ociv1.Layer{layer}, r.Intn(2) == 0); (err != nil) != c.bad {
					h.fail("a name outside the image root is rejected and others are not", fmt.Sprintf("%q", c.name), "load error %v", err)
				}
			})
		}
	}
}

func vFull(es []vEnt) []string {
	var ret []string
	for _, e := range es {
		h := e.hdr
		ret = append(ret, fmt.Sprintf("%q %c %s %s", h.Name, h.Typeflag, vMeta(&h), vData(e.data)))
	}
	return ret
}

// ---- C19 ----

// vLookup resolves a path as a POSIX system confined to the root would.
func (f vFS) lookup(name string, budget *int) (string, error) {
	cur := "."
	parts := strings.Split(name, "/")
	for len(parts) > 0 {
		c := parts[0]
		parts = parts[1:]
		switch c {
		case "", ".":
			continue
		case "..":
			if n := f[cur]; cur != "." && n.typ != tar.TypeDir {
				return "", syscall.ENOTDIR
			}
			cur = path.Dir(cur)
			if cur == "/" {
				cur = "."
			}
			continue
		}
		if n := f[cur]; cur != "." && n.typ != tar.TypeDir {
			return "", syscall.ENOTDIR
		}
		nx := path.Join(cur, c)
		n, ok := f[nx]
		if !ok {
			return "", fs.ErrNotExist
		}
		if n.typ == tar.TypeSymlink {
			*budget--
			if *budget < 0 {
				return "", syscall.ELOOP
			}
			if strings.HasPrefix(n.data, "/") {
				cur = "."
			}
			parts = append(strings.Split(n.data, "/"), parts...)
			continue
		}
		cur = nx
	}
	return cur, nil
}

func vGenLinkLayers(r *rand.Rand) [][]vEnt {
	ls := vGenLayers(r, 1+r.Intn(3), false)
	targets := []string{"a", "b", "../x", "/a/b", "nowhere", "../../..", ".", "..", "l1", "l2", "a/l1", "l1/b", "l2/../a", "a/../b", "/l1", "/..", "b/", "./a", "a//b", "l3/x", "l1/x", "/a/l2/c"}
	for i := r.Intn(5); i > 0; i-- {
		p := []string{"l1", "l2", "l3", "a/l1", "a/l2", "b/l1"}[r.Intn(6)]
		ls[len(ls)-1] = append(ls[len(ls)-1], vEnt{hdr: tar.Header{Name: p, Typeflag: tar.TypeSymlink, Linkname: targets[r.Intn(len(targets))], Mode: 0o777}})
	}
	return ls
}

func TestVerif_C19_view(t *testing.T) {
	h := newVH(t, "C19", "vfs_view", "random stacks of layers with symbolic links (also loops and links out of the root): lookups, reads and listings in random chunk sizes", 5000)
	defer h.done()
	for h.more() {
		r := h.r
		ls := vGenLinkLayers(r)
		layers, err := vLayersOf(ls)
		if err != nil {
			continue
		}
		omit := r.Intn(4) == 0
		in := fmt.Sprintf("%s omit=%v", vShowLayers(ls), omit)
		h.tick(in)
		want := vFS{}
		for _, l := range ls {
			want = want.apply(l)
		}
		links := map[string]string{}
		for k, n := range want {
			if n.typ == tar.TypeSymlink {
				n.data = n.meta[strings.Index(n.meta, "link=\"")+6:]
				n.data = n.data[:strings.Index(n.data, "\"")]
				links[k] = n.data
				want[k] = n
			}
		}
		h.try("load", in, func() {
			fsys, err := Load(layers, omit)
			if err != nil {
				h.fail("layers are loaded", in, "error %v", err)
				return
			}
			var paths []string
			for k := range want {
				paths = append(paths, k)
			}
			sort.Strings(paths)
			paths = append(paths, "a", "b", "l1", "l2", "l3", "a/l1", "l1/b", "l1/a/b", "l2/x", "nowhere", "a/nowhere", "l1/l1", "a/b/c", ".")
			for k := range links {
				paths = append(paths, k+"/b", k+"/l1")
			}
			for _, p := range paths {
				p := p
				inp := in + " open " + p
				budget := 40
				tgt, werr := want.lookup(p, &budget)
				if tgt == "." && len(want) >= 0 {
					if _, ok := want["."]; !ok {
						want["."] = vNode{typ: tar.TypeDir}
					}
				}
				f, err := fsys.Open(p)
				if werr != nil {
					if err == nil {
						h.fail("what does not exist is not opened", inp, "opened, want %v", werr)
					} else if errors.Is(werr, fs.ErrNotExist) && !errors.Is(err, fs.ErrNotExist) || werr == error(syscall.ELOOP) && !errors.Is(err, syscall.ELOOP) {
						h.fail("the error says what is wrong", inp, "got %v, want %v", err, werr)
					}
					continue
				}
				if err != nil {
					h.fail("what exists is opened", inp, "error %v", err)
					continue
				}
				n := want[tgt]
				fi, serr := f.Stat()
				if n.meta == "" {
					if serr == nil {
						h.fail("a directory that is only implied has no information", inp, "got %v", fi)
					}
				} else if serr != nil {
					h.fail("files have their information", inp, "error %v", serr)
				} else {
					hd, _ := fi.Sys().(*tar.Header)
					if hd == nil || hd.Typeflag != n.typ || vMeta(hd) != n.meta || fi.Name() != path.Base(p) || fi.IsDir() != (n.typ == tar.TypeDir) {
						h.fail("files have their information", inp, "got %q %+v want %c %s", fi.Name(), hd, n.typ, n.meta)
					}
				}
				if n.typ == tar.TypeDir {
					vCheckDir(h, r, fsys, f, want, tgt, inp)
				} else {
					vCheckRead(h, r, f, n, omit, inp)
				}
			}
		})
	}
}

func vCheckRead(h *vh, r *rand.Rand, f fs.File, n vNode, omit bool, in string) {
	if omit && n.data != "" {
		if k, err := f.Read(make([]byte, 4)); err == nil || k > 0 || err == io.EOF {
			h.fail("omitted content gives an error", in, "read %d, %v", k, err)
		}
		return
	}
	var got []byte
	for i := 0; ; i++ {
		buf := make([]byte, 1+r.Intn(4+len(n.data)/16))
		k, err := f.Read(buf)
		if k < 0 || k > len(buf) {
			h.fail("reads fit the buffer", in, "%d of %d", k, len(buf))
			return
		}
		got = append(got, buf[:k]...)
		if err == io.EOF {
			break
		}
		if err != nil || i > 1000 {
			h.fail("reading yields the content then end-of-file", in, "error %v", err)
			return
		}
	}
	if string(got) != n.data {
		h.fail("reading yields the content then end-of-file", in, "got %s want %s", vData(string(got)), vData(n.data))
	}
	if k, err := f.Read(make([]byte, 1)); k != 0 || err != io.EOF {
		h.fail("reading yields the content then end-of-file", in, "after the end: %d, %v", k, err)
	}
	if _, err := f.(fs.ReadDirFile).ReadDir(-1); err == nil {
		h.fail("a file is not listed", in, "no error")
	}
	vCheckClosed(h, f, in)
}

func vCheckClosed(h *vh, f fs.File, in string) {
	if err := f.Close(); err != nil {
		h.fail("handles close", in, "error %v", err)
	}
	if k, err := f.Read(make([]byte, 1)); err == nil || err == io.EOF || k != 0 {
		h.fail("a closed handle gives an error", in, "read %d, %v", k, err)
	}
	if _, err := f.(fs.ReadDirFile).ReadDir(1); err == nil || err == io.EOF {
		h.fail("a closed handle gives an error", in, "readdir %v", err)
	}
	if err := f.Close(); err == nil {
		h.fail("a closed handle gives an error", in, "close again")
	}
}

func vCheckDir(h *vh, r *rand.Rand, fsys fs.FS, f fs.File, want vFS, dir, in string) {
	var names []string
	for k := range want {
		if k != "." && path.Dir(k) == dir {
			names = append(names, path.Base(k))
		}
	}
	sort.Strings(names)
	if k, err := f.Read(make([]byte, 1)); err == nil || err == io.EOF || k != 0 {
		h.fail("a directory is not read", in, "%d, %v", k, err)
	}
	d := f.(fs.ReadDirFile)
	var got []string
	for i := 0; i < 50; i++ {
		n := 1 + r.Intn(3)
		if r.Intn(5) == 0 {
			n = -1
		}
		es, err := d.ReadDir(n)
		if n > 0 && len(es) > n {
			h.fail("no more entries than asked for", in, "%d of %d", len(es), n)
		}
		for _, e := range es {
			got = append(got, e.Name())
			w := want[path.Join(dir, e.Name())]
			if e.IsDir() != (w.typ == tar.TypeDir) || (e.Type()&fs.ModeSymlink != 0) != (w.typ == tar.TypeSymlink) {
				h.fail("entries have their type", in, "%q: %v", e.Name(), e.Type())
			}
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			h.fail("directories are listed", in, "error %v", err)
			return
		}
		if n < 0 && i > 10 {
			break
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(names) {
		h.fail("a listing is sorted and has each entry once, without whiteout markers", in, "got %q want %q", got, names)
	}
	vCheckClosed(h, f, in)
}

package bdist

import (
	"archive/tar"
	"archive/zip"
	"bytes"
	"context"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/csv"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
)

type vwMember struct {
	name  string
	data  []byte
	attrs uint32
	mtime time.Time
}

type vwWheel struct {
	base    string // distribution-version
	members []vwMember
	purelib string
	version string
	record  [][]string // nil: as computed
	algo    string
	noRec   bool
}

func vwDigest(algo string, data []byte) string {
	var sum []byte
	switch algo {
	case "md5":
		s := md5.Sum(data)
		sum = s[:]
	case "sha1":
		s := sha1.Sum(data)
		sum = s[:]
	case "sha224":
		s := sha256.Sum224(data)
		sum = s[:]
	case "sha384":
		s := sha512.Sum384(data)
		sum = s[:]
	case "sha512":
		s := sha512.Sum512(data)
		sum = s[:]
	default:
		s := sha256.Sum256(data)
		sum = s[:]
	}
	return algo + "=" + strings.TrimRight(base64.URLEncoding.EncodeToString(sum), "=")
}

func (w *vwWheel) info(s string) string { return w.base + ".dist-info/" + s }

// rows computes what RECORD should say.
func (w *vwWheel) rows(r *rand.Rand) [][]string {
	var rows [][]string
	for _, m := range w.members {
		if strings.HasSuffix(m.name, "/") || path.Clean(m.name) == w.info("RECORD.jws") || path.Clean(m.name) == w.info("RECORD.p7s") {
			continue
		}
		algo := w.algo
		if algo == "" {
			algo = []string{"sha256", "sha256", "sha384", "sha512"}[r.Intn(4)]
		}
		rows = append(rows, []string{m.name, vwDigest(algo, m.data), fmt.Sprint(len(m.data))})
	}
	rows = append(rows, []string{w.info("RECORD"), "", ""})
	r.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
	return rows
}

func (w *vwWheel) write(dir string, r *rand.Rand) (string, error) {
	name := filepath.Join(dir, w.base+"-py3-none-any.whl")
	f, err := os.Create(name)
	if err != nil {
		return "", err
	}
	defer f.Close()
	zw := zip.NewWriter(f)
	members := append([]vwMember{}, w.members...)
	if !w.noRec {
		rows := w.record
		if rows == nil {
			rows = w.rows(r)
		}
		var rec bytes.Buffer
		cw := csv.NewWriter(&rec)
		for _, row := range rows {
			_ = cw.Write(row)
		}
		cw.Flush()
		members = append(members, vwMember{name: w.info("RECORD"), data: rec.Bytes(), attrs: 0o100664 << 16, mtime: time.Unix(1000000000, 0)})
	}
	for _, m := range members {
		h := &zip.FileHeader{Name: m.name, Method: uint16(r.Intn(2)) * zip.Deflate, Modified: m.mtime, ExternalAttrs: m.attrs, CreatorVersion: 3 << 8}
		if strings.HasSuffix(m.name, "/") {
			h.Method = zip.Store
		}
		e, err := zw.CreateHeader(h)
		if err != nil {
			return "", err
		}
		if !strings.HasSuffix(m.name, "/") {
			if _, err := e.Write(m.data); err != nil {
				return "", err
			}
		}
	}
	return name, zw.Close()
}

func vwPick(r *rand.Rand, ss ...string) string { return ss[r.Intn(len(ss))] }

func vwScript(r *rand.Rand) []byte {
	head := vwPick(r, "#!python", "#!pythonw", "#!python3", "#!pythonww", "#!pytho", "#!/usr/bin/python", "#!Python", "", "#", "x#!python", "#! python", "#!pythonw\n#!python")
	tail := vwPick(r, "", "\n", "\r\nimport sys\n", " -u\nprint(1)\n", "w\n", "\x00\xff", strings.Repeat("x", r.Intn(3000)), "\n"+strings.Repeat("line\n", 700))
	return []byte(head + tail)
}

func vwAttrs(r *rand.Rand) uint32 {
	mode := []uint32{0o100644, 0o100755, 0o100664, 0o100600, 0o100111, 0o100000, 0o644, 0o755, 0, 0o120777, 0o100010, 0o102755, 0o100777, 0o40755}[r.Intn(14)]
	return mode<<16 | uint32(r.Intn(3))<<8 | uint32([]int{0, 0, 1, 0x10, 0x20}[r.Intn(5)])
}

func vwGen(r *rand.Rand) *vwWheel {
	w := &vwWheel{base: vwPick(r, "foo-1.0", "Foo_Bar-2.3.post1", "a.b-0", "foo-1.0-1", "x-1!2.0+l.1", "data-1.data-2", "n"), version: "1.0", purelib: vwPick(r, "true", "true", "false", "True", "")}
	mt := func() time.Time { return time.Unix(1000000000+int64(r.Intn(4000))*2, 0) }
	add := func(name string, data []byte) {
		for _, m := range w.members {
			if path.Clean(m.name) == path.Clean(name) {
				return
			}
		}
		attrs := vwAttrs(r)
		if strings.HasSuffix(name, "/") {
			attrs = 0o40755<<16 | 0x10
		}
		w.members = append(w.members, vwMember{name, data, attrs, mt()})
	}
	blob := func() []byte {
		bs := make([]byte, []int{0, 1, 7, 100, 5000}[r.Intn(5)])
		r.Read(bs)
		return bs
	}
	for i, n := 0, r.Intn(6); i < n; i++ {
		name := vwPick(r, "foo/__init__.py", "foo/bar.py", "top.py", "foo/data.bin", "foo/sub/deep/x.txt", "foo_data/x", "foo/bin/tool", "readme", "purelib/x.py", "foo/#!python", w.base+".dataX/scripts/q", w.base+".dist-info/licenses/L")
		add(name, []byte(vwPick(r, string(blob()), string(vwScript(r)))))
	}
	if r.Intn(3) == 0 {
		add(vwPick(r, "foo/", "emptydir/", w.base+".dist-info/", w.base+".data/", w.base+".data/scripts/"), nil)
	}
	for i, n := 0, r.Intn(7); i < n; i++ {
		key := vwPick(r, "scripts", "scripts", "scripts", "data", "headers", "purelib", "platlib")
		rest := vwPick(r, "tool", "tool2", "sub/tool3", "x.py", "share/doc/x", "foo.h", "lib/mod.py", "tool.py")
		add(w.base+".data/"+key+"/"+rest, []byte(vwPick(r, string(blob()), string(vwScript(r)), string(vwScript(r)))))
	}
	add(w.info("METADATA"), []byte("Metadata-Version: 2.1\nName: foo\n"))
	wheel := "Wheel-Version: " + vwPick(r, "1.0", "1.0", "1.9", "0.1") + "\nGenerator: x\n"
	if w.purelib != "" {
		wheel += "Root-Is-Purelib: " + w.purelib + "\n"
	}
	wheel += "Tag: py3-none-any\n" + vwPick(r, "", "\n", "\r\n")
	add(w.info("WHEEL"), []byte(wheel))
	if r.Intn(4) == 0 {
		add(w.info("RECORD.jws"), blob())
	}
	if r.Intn(4) == 0 {
		add(w.info("RECORD.p7s"), blob())
	}
	r.Shuffle(len(w.members), func(i, j int) { w.members[i], w.members[j] = w.members[j], w.members[i] })
	return w
}

func vwPlat(r *rand.Rand, compile bool) python.Platform {
	p := python.Platform{
		ConsoleShebang: vwPick(r, "/usr/bin/python3.9", "/p", "/usr/bin/env python3"), GraphicalShebang: vwPick(r, "/usr/bin/pythonw3.9", "/w"),
		Scheme: python.Scheme{
			PureLib: vwPick(r, "/usr/lib/python3.9/site-packages", "/site", "/opt/./x//site/"), PlatLib: vwPick(r, "/usr/lib64/python3.9/site-packages", "/plat", "/usr/lib/python3.9/site-packages"),
			Headers: "/usr/include/python3.9/foo", Scripts: vwPick(r, "/usr/bin", "/bin/", "//opt/bin"), Data: vwPick(r, "/usr", "/usr/share/data", "/"),
		},
		UID: r.Intn(3) * 500, GID: r.Intn(3) * 600, UName: vwPick(r, "", "root", "bob"), GName: vwPick(r, "", "wheel"),
	}
	switch r.Intn(6) {
	case 0:
		p.GraphicalShebang = p.ConsoleShebang
	case 1:
		p.GraphicalShebang = ""
	case 2:
		p.ConsoleShebang = ""
	}
	p.PyCompile = func(context.Context, time.Time, []string, []fsutil.FileReference) ([]fsutil.FileReference, error) {
		return nil, nil
	}
	return p
}

type vwEntry struct {
	hdr  *tar.Header
	data []byte
}

func vwInstall(w *vwWheel, plat python.Platform, minTime, maxTime time.Time, hook PostInstallHook, r *rand.Rand) (entries map[string]vwEntry, order []string, err error) {
	dir, err := os.MkdirTemp("", "vw")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name, err := w.write(dir, r)
	if err != nil {
		panic(err)
	}
	layer, err := InstallWheel(context.Background(), plat, minTime, maxTime, name, hook)
	if err != nil {
		return nil, nil, err
	}
	rc, err := layer.Uncompressed()
	if err != nil {
		return nil, nil, err
	}
	defer rc.Close()
	tr := tar.NewReader(rc)
	entries = map[string]vwEntry{}
	for {
		h, err := tr.Next()
		if err == io.EOF {
			return entries, order, nil
		}
		if err != nil {
			return nil, nil, err
		}
		bs, err := io.ReadAll(tr)
		if err != nil {
			return nil, nil, err
		}
		n := strings.TrimSuffix(h.Name, "/")
		if _, dup := entries[n]; dup {
			return nil, nil, fmt.Errorf("layer has %q twice", n)
		}
		entries[n] = vwEntry{h, bs}
		order = append(order, n)
	}
}

type vwWant struct {
	dir   bool
	mode  int64
	data  []byte
	mtime time.Time
	any   bool // any time
}

func vwStrip(p string) string { return strings.TrimPrefix(path.Clean(p), "/") }

// vwExpect says what the layer should have; ok is false when members collide.
func vwExpect(w *vwWheel, plat python.Platform, minTime time.Time) (want map[string]vwWant, ok bool) {
	want = map[string]vwWant{}
	if plat.GraphicalShebang == "" {
		plat.GraphicalShebang = plat.ConsoleShebang
	}
	if plat.ConsoleShebang == "" {
		plat.ConsoleShebang = plat.GraphicalShebang
	}
	root := plat.Scheme.PlatLib
	if w.purelib == "true" {
		root = plat.Scheme.PureLib
	}
	schemes := map[string]string{"purelib": plat.Scheme.PureLib, "platlib": plat.Scheme.PlatLib, "headers": plat.Scheme.Headers, "scripts": plat.Scheme.Scripts, "data": plat.Scheme.Data}
	for _, m := range w.members {
		n := path.Clean(m.name)
		if n == w.info("RECORD") || n == w.info("RECORD.jws") || n == w.info("RECORD.p7s") {
			continue
		}
		data := m.data
		dst := path.Join(root, n)
		script := false
		if parts := strings.SplitN(n, "/", 3); parts[0] == w.base+".data" {
			if len(parts) == 1 {
				continue
			}
			rest := ""
			if len(parts) == 3 {
				rest = parts[2]
			}
			dst = path.Join(schemes[parts[1]], rest)
			if parts[1] == "scripts" {
				switch {
				case bytes.HasPrefix(data, []byte("#!pythonw")):
					data, script = append([]byte("#!"+plat.GraphicalShebang), data[9:]...), true
				case bytes.HasPrefix(data, []byte("#!python")):
					data, script = append([]byte("#!"+plat.ConsoleShebang), data[8:]...), true
				}
			}
		}
		e := vwWant{dir: strings.HasSuffix(m.name, "/"), mode: 0o644, data: data, mtime: m.mtime}
		mode := m.attrs >> 16
		if e.dir || script || mode&0o170000 == 0o100000 && mode&0o111 != 0 {
			e.mode = 0o755
		}
		if !minTime.IsZero() {
			e.mtime = minTime
		}
		dst = vwStrip(dst)
		if _, dup := want[dst]; dup {
			return nil, false
		}
		want[dst] = e
	}
	for n := range want {
		for d := path.Dir(n); d != "." && d != "/"; d = path.Dir(d) {
			if x, have := want[d]; !have {
				want[d] = vwWant{dir: true, mode: 0o755, any: true}
			} else if !x.dir {
				return nil, false
			}
		}
	}
	return want, true
}

func vwDescribe(w *vwWheel) string {
	var s []string
	for _, m := range w.members {
		d := m.data
		if len(d) > 24 {
			d = d[:24]
		}
		s = append(s, fmt.Sprintf("%s(%o,%d,%q)", m.name, m.attrs>>16, len(m.data), d))
	}
	return fmt.Sprintf("%s purelib=%q members=%v record=%q", w.base, w.purelib, s, w.record)
}

func vwKeys(m map[string]vwWant) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func vwCheck(h *vh, w *vwWheel, want map[string]vwWant, got map[string]vwEntry, order []string, plat python.Platform, maxTime time.Time, ignore string) {
	input := vwDescribe(w)
	for _, n := range vwKeys(want) {
		x := want[n]
		g, ok := got[n]
		if !ok {
			h.fail("every member is installed at its place", input, "%s is missing: have %v", n, order)
			continue
		}
		if (g.hdr.Typeflag == tar.TypeDir) != x.dir || !x.dir && g.hdr.Typeflag != tar.TypeReg {
			h.fail("files are files and directories are directories", input, "%s has type %c", n, g.hdr.Typeflag)
		}
		if g.hdr.Mode != x.mode {
			h.fail("permissions are normalized", input, "%s has mode %o, want %o", n, g.hdr.Mode, x.mode)
		}
		if !x.dir && !bytes.Equal(g.data, x.data) {
			h.fail("content is kept, and script interpreters replaced", input, "%s has %q, want %q", n, vwHead(g.data), vwHead(x.data))
		}
		mt := x.mtime
		if !maxTime.IsZero() && mt.After(maxTime) {
			mt = maxTime
		}
		if !x.any && !g.hdr.ModTime.Equal(mt) {
			h.fail("modification times", input, "%s has %v, want %v", n, g.hdr.ModTime.UTC(), mt.UTC())
		}
	}
	for _, n := range order {
		g := got[n]
		if g.hdr.Uid != plat.UID || g.hdr.Gid != plat.GID || g.hdr.Uname != plat.UName || g.hdr.Gname != plat.GName {
			h.fail("every entry has the owner of the platform", input, "%s: %d:%d %s:%s", n, g.hdr.Uid, g.hdr.Gid, g.hdr.Uname, g.hdr.Gname)
		}
		if _, ok := want[n]; !ok && (ignore == "" || !strings.Contains(n, ignore)) {
			h.fail("nothing else is installed", input, "%s should not be there", n)
		}
		if d := path.Dir(n); d != "." {
			if x, ok := got[d]; !ok || x.hdr.Typeflag != tar.TypeDir {
				h.fail("every parent directory is there", input, "%s", n)
			}
		}
	}
}

func vwHead(bs []byte) string {
	if len(bs) > 60 {
		return string(bs[:60]) + "..."
	}
	return string(bs)
}

func vwTimes(r *rand.Rand) (min, max time.Time) {
	if r.Intn(2) == 0 {
		min = time.Unix(900000000+int64(r.Intn(2))*1000, 0)
	}
	if r.Intn(2) == 0 {
		max = time.Unix(1000000000+int64(r.Intn(8000)), 0)
	}
	return
}

func vwPositive(h *vh) {
	r := h.r
	w := vwGen(r)
	plat := vwPlat(r, true)
	min, max := vwTimes(r)
	want, ok := vwExpect(w, plat, min)
	if !ok {
		return
	}
	var srcs, pp []string
	plat.PyCompile = func(_ context.Context, _ time.Time, pythonPath []string, in []fsutil.FileReference) ([]fsutil.FileReference, error) {
		pp = pythonPath
		for _, f := range in {
			srcs = append(srcs, f.FullName())
		}
		hd := &tar.Header{Typeflag: tar.TypeReg, Name: "compiled/zz.pyc", Mode: 0o644, Size: 3, ModTime: time.Unix(1, 0)}
		return []fsutil.FileReference{&fsutil.InMemFileReference{FileInfo: hd.FileInfo(), MFullName: hd.Name, MContent: []byte("pyc")}}, nil
	}
	h.tick(vwDescribe(w))
	h.try("installing a good wheel does not panic", vwDescribe(w), func() {
		got, order, err := vwInstall(w, plat, min, max, nil, r)
		if err != nil {
			h.fail("a good wheel is installed", vwDescribe(w), "%v", err)
			return
		}
		vwCheck(h, w, want, got, order, plat, max, "compiled")
		if e, ok := got["compiled/zz.pyc"]; !ok || string(e.data) != "pyc" {
			h.fail("compiled files are installed", vwDescribe(w), "%v", order)
		}
		var wantSrcs []string
		for n, x := range want {
			if !x.dir && strings.HasSuffix(n, ".py") {
				wantSrcs = append(wantSrcs, n)
			}
		}
		sort.Strings(srcs)
		sort.Strings(wantSrcs)
		if strings.Join(srcs, "|") != strings.Join(wantSrcs, "|") {
			h.fail("installed sources are compiled", vwDescribe(w), "%q, want %q", srcs, wantSrcs)
		}
		if len(pp) != 2 || pp[0] != vwStrip(plat.Scheme.PureLib) || pp[1] != vwStrip(plat.Scheme.PlatLib) {
			h.fail("sources are compiled with the library directories as the path", vwDescribe(w), "%q", pp)
		}
	})
}

func TestVerif_C11_install(t *testing.T) {
	h := newVH(t, "C11", "install", "random wheels (all data keys, attribute bits, times, schemes); the layer against an independently computed listing", 700)
	defer h.done()
	for h.more() {
		vwPositive(h)
	}
}

func TestVerif_C13_install(t *testing.T) {
	h := newVH(t, "C13", "install", "random wheels (script heads, attribute bits); bytes and permissions of the layer against an independently computed listing", 700)
	defer h.done()
	for h.more() {
		vwPositive(h)
	}
}

func vwReject(h *vh, w *vwWheel, what string) {
	h.tick(what + ": " + vwDescribe(w))
	h.try("installing a bad wheel does not panic", what+": "+vwDescribe(w), func() {
		hooked := false
		_, order, err := vwInstall(w, vwPlat(h.r, false), time.Time{}, time.Time{}, func(context.Context, time.Time, map[string]fsutil.FileReference, string) error {
			hooked = true
			return nil
		}, h.r)
		if err == nil {
			h.fail("a bad wheel is not installed", what+": "+vwDescribe(w), "it was installed: %v", order)
		} else if hooked {
			h.fail("a bad wheel is refused before anything is done with it", what+": "+vwDescribe(w), "the hook ran")
		}
	})
}

func TestVerif_C11_reject(t *testing.T) {
	h := newVH(t, "C11", "reject", "wheels with an unknown data key, an incompatible version, no or ambiguous metadata, or members that would leave the directory", 300)
	defer h.done()
	for h.more() {
		r := h.r
		w := vwGen(r)
		m := vwMember{data: []byte("x"), attrs: 0o100644 << 16, mtime: time.Unix(1000000000, 0)}
		what := ""
		switch r.Intn(4) {
		case 0:
			m.name = w.base + ".data/" + vwPick(r, "lib", "Scripts", "script", "include", "root", "x/y")
			if r.Intn(2) == 0 {
				m.name += "/f"
			}
			what = "unknown data key"
		case 1:
			m.name = vwPick(r, "../x", "../../x", "foo/../../x", "/etc/x", "a/../../../b/c", w.base+".data/../../x", "..", w.base+".data/scripts/../../../x")
			what = "member outside"
		case 2:
			for i := range w.members {
				if w.members[i].name == w.info("WHEEL") {
					w.members[i].data = []byte("Wheel-Version: " + vwPick(r, "2.0", "2", "10.1", "1!0", "", "x") + "\nRoot-Is-Purelib: true\n")
					if bytes.Contains(w.members[i].data, []byte("1!0")) {
						w.members[i].data = []byte("Root-Is-Purelib: true\n")
					}
				}
			}
			what = "incompatible version"
		case 3:
			if r.Intn(2) == 0 {
				m.name = "other-1.dist-info/METADATA"
				what = "two metadata directories"
			} else {
				for i := range w.members {
					if w.members[i].name == w.info("WHEEL") {
						w.members = append(w.members[:i], w.members[i+1:]...)
						break
					}
				}
				what = "no WHEEL"
			}
		}
		if m.name != "" {
			w.members = append(w.members, m)
			r.Shuffle(len(w.members), func(i, j int) { w.members[i], w.members[j] = w.members[j], w.members[i] })
		}
		vwReject(h, w, what)
	}
}

func TestVerif_C10_record(t *testing.T) {
	h := newVH(t, "C10", "record", "random good wheels with one thing wrong: missing or malformed row, wrong digest or size, weak or unknown algorithm, absent or duplicate member", 900)
	defer h.done()
	for h.more() {
		r := h.r
		w := vwGen(r)
		if r.Intn(6) == 0 {
			want, ok := vwExpect(w, vwPlat(rand.New(rand.NewSource(1)), false), time.Time{})
			if _, _, err := vwInstall(w, vwPlat(rand.New(rand.NewSource(1)), false), time.Time{}, time.Time{}, nil, r); ok && err != nil {
				h.fail("a good wheel is installed", vwDescribe(w), "%v (%d)", err, len(want))
			}
			h.tick(vwDescribe(w))
			continue
		}
		rows := w.rows(r)
		var idx []int // rows of members
		for i, row := range rows {
			if row[0] != w.info("RECORD") {
				idx = append(idx, i)
			}
		}
		i := idx[r.Intn(len(idx))]
		row := rows[i]
		mi := 0
		for k, m := range w.members {
			if m.name == row[0] {
				mi = k
			}
		}
		what := ""
		switch r.Intn(14) {
		case 0:
			what = "member not listed: " + row[0]
			rows = append(rows[:i], rows[i+1:]...)
		case 1:
			what = "digest differs: " + row[0]
			row[1] = vwDigest(strings.SplitN(row[1], "=", 2)[0], append([]byte("y"), w.members[mi].data...))
		case 2:
			what = "size differs: " + row[0]
			row[2] = vwPick(r, fmt.Sprint(len(w.members[mi].data)+1), "-1", "x", "0"+row[2], fmt.Sprint(len(w.members[mi].data)-1))
		case 3:
			algo := vwPick(r, "md5", "sha1", "sha224")
			what = "weak algorithm " + algo + ": " + row[0]
			row[1] = vwDigest(algo, w.members[mi].data)
		case 4:
			what = "unknown algorithm: " + row[0]
			row[1] = vwPick(r, "sha257", "", "SHA256", "crc32", "sha256 ") + "=" + strings.SplitN(row[1], "=", 2)[1]
		case 5:
			what = "malformed row: " + row[0]
			for k := range rows {
				if r.Intn(2) == 0 {
					rows[k] = append(rows[k], "extra")
				} else {
					rows[k] = rows[k][:2]
				}
				if r.Intn(3) > 0 {
					for j := range rows {
						for len(rows[j]) < len(rows[k]) {
							rows[j] = append(rows[j], "")
						}
						rows[j] = rows[j][:len(rows[k])]
					}
					break
				}
			}
		case 6:
			what = "entry for an absent file"
			rows = append(rows, []string{"absent.py", vwDigest("sha256", nil), "0"})
		case 7:
			what = "no digest: " + row[0]
			row[1] = ""
		case 8:
			what = "no size: " + row[0]
			row[2] = ""
		case 9:
			what = "no digest and no size: " + row[0]
			row[1], row[2] = "", ""
		case 10:
			what = "duplicate member: " + row[0]
			m := w.members[mi]
			m.data = append([]byte("evil"), m.data...)
			if r.Intn(2) == 0 {
				m.name = "./" + m.name
			}
			if r.Intn(2) == 0 {
				w.members = append(w.members, m)
			} else {
				w.members = append([]vwMember{m}, w.members...)
			}
		case 11:
			what = "content changed: " + row[0]
			if len(w.members[mi].data) == 0 || strings.Contains(row[0], "dist-info/WHEEL") {
				continue
			}
			d := append([]byte{}, w.members[mi].data...)
			d[r.Intn(len(d))] ^= byte(1 + r.Intn(255))
			w.members[mi].data = d
		case 12:
			what = "member that says it is a directory is not listed"
			w.members = append(w.members, vwMember{"foo/evil", []byte("evil"), 0o40755<<16 | 0x10, time.Unix(1000000000, 0)})
		case 13:
			if r.Intn(3) == 0 {
				what = "no RECORD"
				w.noRec = true
			} else {
				what = "signature of another name not listed"
				w.members = append(w.members, vwMember{vwPick(r, "RECORD.jws", "foo/RECORD.p7s", w.base+".dist-info/RECORD.sig", w.base+".dist-info/sub/RECORD"), []byte("evil"), 0o100644 << 16, time.Unix(1000000000, 0)})
			}
		}
		w.record = rows
		vwReject(h, w, what)
	}
}

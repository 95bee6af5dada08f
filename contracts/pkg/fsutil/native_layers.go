package fsutil

import (
	"archive/tar"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"path"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
)

type vEntry struct {
	hdr  tar.Header
	data []byte
}

func vLayerBytes(entries []vEntry) ([]byte, error) {
	var buf bytes.Buffer
	w := tar.NewWriter(&buf)
	for i := range entries {
		h := entries[i].hdr
		h.Size = int64(len(entries[i].data))
		if err := w.WriteHeader(&h); err != nil {
			return nil, err
		}
		if _, err := w.Write(entries[i].data); err != nil {
			return nil, err
		}
	}
	if err := w.Close(); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func vLayer(bs []byte) ociv1.Layer {
	l, err := ociv1tarball.LayerFromOpener(func() (io.ReadCloser, error) { return io.NopCloser(bytes.NewReader(bs)), nil })
	if err != nil {
		panic(err)
	}
	return l
}

type vBrokenLayer struct {
	ociv1.Layer
	bs       []byte
	err      error
	closeErr error
}

type vBrokenRC struct {
	io.Reader
	closeErr error
}

func (r vBrokenRC) Close() error { return r.closeErr }

type vErrReader struct{ err error }

func (r vErrReader) Read([]byte) (int, error) { return 0, r.err }

func (l vBrokenLayer) Uncompressed() (io.ReadCloser, error) {
	var r io.Reader = bytes.NewReader(l.bs)
	if l.err != nil {
		r = io.MultiReader(r, vErrReader{l.err})
	}
	return vBrokenRC{r, l.closeErr}, nil
}

func vData(r *rand.Rand) []byte {
	sizes := []int{0, 0, 1, 5, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 5000}
	bs := make([]byte, sizes[r.Intn(len(sizes))])
	r.Read(bs)
	return bs
}

func vEntries(r *rand.Rand) []vEntry {
	names := []string{"a", "a/b", "a/b.txt", "c", "d", "link", "x/y/z", strings.Repeat("long/", 30) + "n"}
	n := r.Intn(5)
	var ret []vEntry
	for i := 0; i < n; i++ {
		h := tar.Header{Typeflag: tar.TypeReg, Name: names[r.Intn(len(names))], Mode: int64(r.Intn(0o10000)), Uid: r.Intn(3), Gid: r.Intn(3),
			Uname: []string{"", "root"}[r.Intn(2)], Gname: []string{"", "wheel"}[r.Intn(2)], ModTime: time.Unix(int64(r.Intn(1000)), 0)}
		var data []byte
		switch r.Intn(6) {
		case 0:
			h.Typeflag = tar.TypeDir
		case 1:
			h.Typeflag, h.Linkname = tar.TypeSymlink, names[r.Intn(len(names))]
		case 2:
			h.Typeflag, h.Devmajor, h.Devminor = tar.TypeChar, int64(r.Intn(3)), int64(r.Intn(3))
		case 3:
			h.Typeflag, h.Linkname = tar.TypeLink, names[r.Intn(len(names))]
		default:
			data = vData(r)
		}
		switch r.Intn(3) {
		case 0:
			h.Format = tar.FormatPAX
			h.AccessTime = time.Unix(int64(r.Intn(1000)), int64(r.Intn(2))*500)
			h.ChangeTime = time.Unix(int64(r.Intn(1000)), int64(r.Intn(2))*500)
			h.ModTime = h.ModTime.Add(time.Duration(r.Intn(2)) * 500)
			if r.Intn(2) == 0 {
				h.PAXRecords = map[string]string{"VENDOR.k": "v1", "SCHILY.xattr.user.a": "1"}
			}
		case 1:
			if len(h.Name) < 100 {
				h.Format = tar.FormatGNU
				h.AccessTime = time.Unix(int64(1+r.Intn(1000)), 0)
				h.ChangeTime = time.Unix(int64(1+r.Intn(1000)), 0)
			}
		}
		ret = append(ret, vEntry{h, data})
	}
	return ret
}

func vCopy(es []vEntry) []vEntry {
	ret := make([]vEntry, len(es))
	for i, e := range es {
		ret[i] = vEntry{e.hdr, append([]byte{}, e.data...)}
		if e.hdr.PAXRecords != nil {
			ret[i].hdr.PAXRecords = map[string]string{}
			for k, v := range e.hdr.PAXRecords {
				ret[i].hdr.PAXRecords[k] = v
			}
		}
	}
	return ret
}

func TestVerif_C16_mutations(t *testing.T) {
	h := newVH(t, "C16", "layer_equality", "random layers against a retimed copy and against a copy with one other change, truncated and failing readers", 400)
	defer h.done()
	for h.more() {
		r := h.r
		es := vEntries(r)
		a, err := vLayerBytes(es)
		if err != nil {
			continue
		}
		retimed := vCopy(es)
		for i := range retimed {
			hd := &retimed[i].hdr
			hd.ModTime = hd.ModTime.Add(time.Duration(r.Intn(3)) * time.Second)
			if !hd.AccessTime.IsZero() {
				hd.AccessTime = hd.AccessTime.Add(time.Duration(r.Intn(3)) * time.Second)
			}
			if !hd.ChangeTime.IsZero() {
				hd.ChangeTime = hd.ChangeTime.Add(time.Duration(r.Intn(3)) * time.Second)
			}
		}
		b, err := vLayerBytes(retimed)
		if err != nil {
			continue
		}
		in := fmt.Sprintf("%d entries %+v", len(es), headersOf(es))
		h.tick(in)
		h.try("equal except for times", in, func() {
			eq, err := LayersEqualExceptTimestamps(vLayer(a), vLayer(b))
			if err != nil || !eq {
				h.fail("layers that differ only in times are equal", in, "got %v, %v", eq, err)
			}
		})
		mut := vCopy(retimed)
		what := ""
		if len(mut) == 0 || r.Intn(8) == 0 {
			mut = append(mut, vEntry{tar.Header{Typeflag: tar.TypeDir, Name: "extra"}, nil})
			what = "extra entry"
		} else {
			i := r.Intn(len(mut))
			m := &mut[i]
			switch k := r.Intn(12); {
			case k == 0:
				m.hdr.Name += "x"
				what = "name"
			case k == 1:
				m.hdr.Mode ^= 1 << uint(r.Intn(12))
				what = "mode"
			case k == 2:
				m.hdr.Uid++
				what = "uid"
			case k == 3:
				m.hdr.Gid++
				what = "gid"
			case k == 4:
				m.hdr.Uname += "x"
				what = "uname"
			case k == 5:
				m.hdr.Gname += "x"
				what = "gname"
			case k == 6 && m.hdr.Linkname != "":
				m.hdr.Linkname += "x"
				what = "linkname"
			case k == 7 && m.hdr.Typeflag == tar.TypeChar:
				m.hdr.Devminor++
				what = "devminor"
			case k == 8 && m.hdr.PAXRecords != nil:
				m.hdr.PAXRecords["VENDOR.k"] = "v2"
				what = "pax record"
			case k == 9 && len(mut) > 1:
				mut = mut[:len(mut)-1]
				what = "missing last entry"
			case m.hdr.Typeflag == tar.TypeReg && len(m.data) > 0 && r.Intn(3) > 0:
				// one byte, biased to the ends and chunk borders
				spots := []int{0, len(m.data) - 1, r.Intn(len(m.data)), len(m.data) / 1024 * 1024}
				s := spots[r.Intn(len(spots))]
				if s >= len(m.data) {
					s = len(m.data) - 1
				}
				m.data[s] ^= 0x10
				what = fmt.Sprintf("data byte %d of %d", s, len(m.data))
			case m.hdr.Typeflag == tar.TypeReg:
				m.data = append(m.data, 'x')
				what = "one more byte"
			default:
				m.hdr.Uid += 2
				what = "uid"
			}
		}
		c, err := vLayerBytes(mut)
		if err != nil {
			continue
		}
		for k := 0; k < 2; k++ {
			x, y := a, c
			if k == 1 {
				x, y = c, a
			}
			h.try("different", in+" changed: "+what, func() {
				eq, err := LayersEqualExceptTimestamps(vLayer(x), vLayer(y))
				if err != nil || eq {
					h.fail("layers that differ in more than times are not equal", in+" changed: "+what, "got %v, %v", eq, err)
				}
			})
		}
		// failing readers
		boom := errors.New("boom")
		cut := r.Intn(len(a) + 1)
		broken := vBrokenLayer{bs: a[:cut], err: boom}
		if r.Intn(4) == 0 {
			broken = vBrokenLayer{bs: a, closeErr: boom}
		} else if cut > len(a)-1024 {
			broken.bs = a[:r.Intn(len(a)-1023)]
		}
		for k := 0; k < 2; k++ {
			var x, y ociv1.Layer = vLayer(a), broken
			if k == 1 {
				x, y = y, x
			}
			inb := fmt.Sprintf("%s broken after %d of %d bytes (close error %v)", in, len(broken.bs), len(a), broken.closeErr)
			h.try("errors", inb, func() {
				if eq, err := LayersEqualExceptTimestamps(x, y); eq || err == nil {
					h.fail("a read error is never reported as equality", inb, "got %v, %v", eq, err)
				}
			})
		}
	}
}

func headersOf(es []vEntry) []string {
	var ret []string
	for _, e := range es {
		ret = append(ret, fmt.Sprintf("%c %q mode=%o size=%d fmt=%v", e.hdr.Typeflag, e.hdr.Name, e.hdr.Mode, len(e.data), e.hdr.Format))
	}
	return ret
}

// ---- C14 ----

type vInfo struct {
	name string
	size int64
	mode fs.FileMode
	mod  time.Time
	sys  interface{}
}

func (i vInfo) Name() string       { return path.Base(i.name) }
func (i vInfo) Size() int64        { return i.size }
func (i vInfo) Mode() fs.FileMode  { return i.mode }
func (i vInfo) ModTime() time.Time { return i.mod }
func (i vInfo) IsDir() bool        { return i.mode.IsDir() }
func (i vInfo) Sys() interface{}   { return i.sys }

type vRef struct {
	vInfo
	data     []byte
	openErr  error
	readErr  error
	closeErr error
}

func (f *vRef) FullName() string { return f.name }
func (f *vRef) Open() (io.ReadCloser, error) {
	if f.openErr != nil {
		return nil, f.openErr
	}
	var rd io.Reader = bytes.NewReader(f.data)
	if f.readErr != nil {
		rd = io.MultiReader(bytes.NewReader(f.data[:len(f.data)/2]), vErrReader{f.readErr})
	}
	return vBrokenRC{rd, f.closeErr}, nil
}

// vPathLess: the order by path components, written from the property.
func vPathLess(a, b string) bool {
	as, bs := strings.Split(a, "/"), strings.Split(b, "/")
	for len(as) > 0 && len(bs) > 0 {
		if as[0] != bs[0] {
			return as[0] < bs[0]
		}
		as, bs = as[1:], bs[1:]
	}
	return len(as) < len(bs)
}

func TestVerif_C14_layers(t *testing.T) {
	h := newVH(t, "C14", "file_references", "random sets of file references (names with bytes below and above '/'), clamp times and failing readers", 400)
	defer h.done()
	parts := []string{"a", "b", "a-b", "a.b", "a b", "a+", "A", "a0", "z", "-", "é", "lib", "lib64", "0"}
	for h.more() {
		r := h.r
		clamp := time.Unix(int64(500+r.Intn(10)), 0)
		set := map[string]*vRef{}
		for i := r.Intn(12); i > 0; i-- {
			nm := parts[r.Intn(len(parts))]
			for d := r.Intn(4); d > 0; d-- {
				nm += "/" + parts[r.Intn(len(parts))]
			}
			f := &vRef{vInfo: vInfo{name: nm, mode: fs.FileMode(r.Intn(0o1000)), mod: time.Unix(int64(490+r.Intn(30)), 0)}}
			hdr := &tar.Header{Uid: r.Intn(3), Gid: r.Intn(3), Uname: "u", Gname: "g"}
			if r.Intn(2) == 0 {
				hdr.AccessTime = time.Unix(int64(490+r.Intn(30)), 0)
				hdr.ChangeTime = time.Unix(int64(490+r.Intn(30)), 0)
			}
			if r.Intn(3) == 0 {
				f.mode |= fs.ModeDir
			} else {
				f.data = vData(r)
				f.size = int64(len(f.data))
			}
			if r.Intn(3) > 0 {
				hdr.Typeflag = tar.TypeReg
				f.sys = hdr
			}
			set[nm] = f
		}
		var names []string
		for n := range set {
			names = append(names, n)
		}
		sort.Slice(names, func(i, j int) bool { return vPathLess(names[i], names[j]) })
		in := fmt.Sprintf("clamp=%d names=%q", clamp.Unix(), names)
		h.tick(in)
		var outs [][]byte
		for k := 0; k < 2; k++ {
			var refs []FileReference
			for _, i := range r.Perm(len(names)) {
				refs = append(refs, set[names[i]])
			}
			h.try("layer", in, func() {
				layer, err := LayerFromFileReferences(refs, clamp)
				if err != nil {
					h.fail("a layer is built", in, "error %v", err)
					return
				}
				rc, err := layer.Uncompressed()
				if err != nil {
					h.fail("a layer is built", in, "error %v", err)
					return
				}
				raw, err := io.ReadAll(rc)
				if err != nil {
					h.fail("a layer is built", in, "error %v", err)
					return
				}
				outs = append(outs, raw)
				tr := tar.NewReader(bytes.NewReader(raw))
				var got []string
				for {
					hd, err := tr.Next()
					if err == io.EOF {
						break
					}
					if err != nil {
						h.fail("the layer is a readable archive", in, "error %v", err)
						return
					}
					got = append(got, hd.Name)
					f := set[hd.Name]
					if f == nil {
						continue
					}
					data, err := io.ReadAll(tr)
					if err != nil || !bytes.Equal(data, f.data) {
						h.fail("entries have the full content", in, "%q: %d bytes, want %d (%v)", hd.Name, len(data), len(f.data), err)
					}
					want := f.mod
					if want.After(clamp) {
						want = clamp
					}
					if !hd.ModTime.Equal(want) {
						h.fail("timestamps are clamped and earlier ones kept", in, "%q: %v want %v", hd.Name, hd.ModTime.Unix(), want.Unix())
					}
					if hd.AccessTime.After(clamp) || hd.ChangeTime.After(clamp) {
						h.fail("no timestamp after the clamp time", in, "%q: atime %v ctime %v", hd.Name, hd.AccessTime, hd.ChangeTime)
					}
					if hd.FileInfo().Mode() != f.mode {
						h.fail("entries have their mode", in, "%q: %v want %v", hd.Name, hd.FileInfo().Mode(), f.mode)
					}
					if s, ok := f.sys.(*tar.Header); ok && (hd.Uid != s.Uid || hd.Gid != s.Gid || hd.Uname != s.Uname || hd.Gname != s.Gname) {
						h.fail("entries have their owner", in, "%q", hd.Name)
					}
				}
				if !reflect.DeepEqual(got, names) {
					h.fail("each reference once, ordered by path components", in, "got %q", got)
				}
			})
		}
		if len(outs) == 2 && !bytes.Equal(outs[0], outs[1]) {
			h.fail("the output does not depend on the input order", in, "two orders give different bytes")
		}
		// faults
		var regs []*vRef
		for _, n := range names {
			if f := set[n]; !f.mode.IsDir() {
				regs = append(regs, f)
			}
		}
		if len(regs) > 0 {
			f := regs[r.Intn(len(regs))]
			boom := errors.New("boom")
			k := r.Intn(4)
			switch k {
			case 0:
				f.openErr = boom
			case 1:
				f.readErr = boom
			case 2:
				f.closeErr = boom
			case 3:
				f.size++ // shorter than announced
			}
			var refs []FileReference
			for _, n := range names {
				refs = append(refs, set[n])
			}
			inf := fmt.Sprintf("%s fault %d in %q", in, k, f.name)
			h.try("faults", inf, func() {
				if layer, err := LayerFromFileReferences(refs, clamp); err == nil {
					h.fail("a file that cannot be read completely gives an error", inf, "got layer %v", layer != nil)
				}
			})
		}
	}
}

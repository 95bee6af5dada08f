package fsutil

import (
	"archive/tar"
	"bytes"
	"io"
	"io/fs"
	"strings"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
)

// ---- LayerFromFileReferences over any list of references ----

//gocv:pure specName
func specName(f FileReference) string { return f.FullName() }

//gocv:iface (github.com/datawire/ocibuild/pkg/fsutil.FileReference).FullName FILES
func model_FullName(f FileReference) string { return specName(f) }

// What a header made from the file information says, and the content of the file.
//
//gocv:pure specHdr
func specHdr(f fs.FileInfo) tar.Header {
	h, err := tar.FileInfoHeader(f, "")
	if err != nil {
		return tar.Header{}
	}
	return *h
}

//gocv:pure specHdrOK
func specHdrOK(f fs.FileInfo) bool {
	_, err := tar.FileInfoHeader(f, "")
	return err == nil
}

//gocv:pure specContent
func specContent(f FileReference) string {
	rc, err := f.Open()
	if err != nil {
		return ""
	}
	bs, _ := io.ReadAll(rc)
	return string(bs)
}

//gocv:extern archive/tar.FileInfoHeader FILES
func model_FileInfoHeader(fi fs.FileInfo, link string) (*tar.Header, error) {
	if !specHdrOK(fi) || link != "" {
		return nil, errGhost
	}
	h := specHdr(fi)
	return &h, nil
}

type ghostFileRC struct{ f FileReference }

func (r *ghostFileRC) Read(p []byte) (int, error) { return 0, errGhost }
func (r *ghostFileRC) Close() error {
	if nondetBool() {
		return errGhost
	}
	return nil
}

//gocv:iface (github.com/datawire/ocibuild/pkg/fsutil.FileReference).Open FILES
func model_Open(f FileReference) (io.ReadCloser, error) {
	if nondetBool() {
		return nil, errGhost
	}
	return &ghostFileRC{f}, nil
}

// The entries written to the archive.
type ghostOut struct {
	hdrs   []tar.Header
	datas  []string
	closed bool
}

var ghostTarOut *ghostOut

//gocv:extern archive/tar.NewWriter FILES
func model_tarNewWriter(w io.Writer) *tar.Writer {
	ghostTarOut = &ghostOut{}
	return new(tar.Writer)
}

//gocv:extern (*archive/tar.Writer).WriteHeader FILES
func model_WriteHeader(tw *tar.Writer, hdr *tar.Header) error {
	if nondetBool() {
		return errGhost
	}
	ghostTarOut.hdrs = append(ghostTarOut.hdrs, *hdr)
	ghostTarOut.datas = append(ghostTarOut.datas, "")
	return nil
}

//gocv:extern io.Copy FILES
func model_Copy(dst io.Writer, src io.Reader) (int64, error) {
	if nondetBool() {
		return 0, errGhost
	}
	s := specContent(src.(*ghostFileRC).f)
	ghostTarOut.datas[len(ghostTarOut.datas)-1] += s
	return int64(len(s)), nil
}

//gocv:extern (*archive/tar.Writer).Close FILES
func model_tarClose(tw *tar.Writer) error {
	if nondetBool() {
		return errGhost
	}
	ghostTarOut.closed = true
	return nil
}

//gocv:extern (*bytes.Buffer).Bytes FILES
func model_BufferBytes(b *bytes.Buffer) []byte { return nil }

//gocv:extern github.com/google/go-containerregistry/pkg/v1/tarball.LayerFromOpener FILES
func model_LayerFromOpener(o ociv1tarball.Opener, opts ...ociv1tarball.LayerOption) (ociv1.Layer, error) {
	check("the archive is closed before it is used", ghostTarOut.closed)
	return &ghostLayer{}, nil
}

func nondetBool() bool { return false }
func nondetInt() int   { return 0 }

// Sorting permutes the list so that less orders it: as the list is arbitrary, it stands for its
// sorted permutation, and the less function is judged at arbitrary positions.
//
//gocv:extern sort.Slice FILES
func model_sortSlice(x interface{}, less func(i, j int) bool) {
	vfs := x.([]FileReference)
	i, j := nondetInt(), nondetInt()
	if 0 <= i && i < len(vfs) && 0 <= j && j < len(vfs) {
		got := less(i, j)
		a, b := specName(vfs[i]), specName(vfs[j])
		check("an entry sorted before another precedes it by path components", implies(got, specLess(a, b)))
		check("an entry preceding another by path components is sorted before it", implies(specLess(a, b), got))
	}
}

//gocv:pure specN
func specN(s, sep string) int { return len(strings.Split(s, sep)) }

//gocv:pure specPart
func specPart(s, sep string, i int) string { return strings.Split(s, sep)[i] }

func nondetStrings() []string { return nil }

//gocv:extern strings.Split FILES
func model_Split(s, sep string) []string {
	m := nondetStrings()
	assume(len(m) == specN(s, sep) && specN(s, sep) >= 1)
	assume(forall(0, len(m), func(i int) bool { return m[i] == specPart(s, sep, i) }))
	return m
}

func specPartAt(s string, i int) string {
	if i < specN(s, "/") {
		return specPart(s, "/", i)
	}
	return ""
}

func specMaxN(a, b string) int {
	if specN(a, "/") < specN(b, "/") {
		return specN(b, "/")
	}
	return specN(a, "/")
}

// specLess: the first differing component is smaller (a missing component is smallest).
func specLess(a, b string) bool {
	return exists(0, specMaxN(a, b), func(k int) bool { return specLessAt(a, b, k) })
}

func specLessAt(a, b string, k int) bool {
	return specPartAt(a, k) < specPartAt(b, k) && forall(0, k, func(i int) bool { return specPartAt(a, i) == specPartAt(b, i) })
}

//gocv:invariant LayerFromFileReferences$1 use=FILES
func inv_less(vfs []FileReference, i, j int, idx int) bool {
	a, b := specName(vfs[i]), specName(vfs[j])
	return idx >= 0 && forall(0, idx, func(k int) bool { return specPartAt(a, k) == specPartAt(b, k) })
}

func specClamped(t, clamp, got time.Time) bool {
	if t.After(clamp) {
		return got == clamp
	}
	return got == t
}

func specWritten(got tar.Header, data string, f FileReference, clamp time.Time) bool {
	h := specHdr(f)
	return got.Name == specName(f) && specClamped(h.ModTime, clamp, got.ModTime) && specClamped(h.AccessTime, clamp, got.AccessTime) &&
		specClamped(h.ChangeTime, clamp, got.ChangeTime) &&
		got.Typeflag == h.Typeflag && got.Linkname == h.Linkname && got.Size == h.Size && got.Mode == h.Mode && got.Uid == h.Uid && got.Gid == h.Gid &&
		got.Uname == h.Uname && got.Gname == h.Gname && got.Devmajor == h.Devmajor && got.Devminor == h.Devminor &&
		(got.Typeflag != tar.TypeReg || data == specContent(f))
}

//gocv:contract C14 LayerFromFileReferences use=FILES noreplay
func contract_LayerFromFileReferences(vfs []FileReference, clamp time.Time) {
	requires(forall(0, len(vfs), func(i int) bool { return vfs[i] != nil }))
	layer, err := LayerFromFileReferences(vfs, clamp)
	out := ghostTarOut
	ensures("one entry per reference", implies(err == nil, len(out.hdrs) == len(vfs)))
	ensures("entries carry the reference's name, metadata, clamped times and content", implies(err == nil && len(out.hdrs) == len(vfs), forall(0, len(vfs), func(i int) bool {
		return i < len(out.datas) && specWritten(out.hdrs[i], out.datas[i], vfs[i], clamp)
	})))
	ensures("a layer or an error", (layer == nil) == (err != nil))
}

//gocv:invariant LayerFromFileReferences use=FILES
func inv_LayerFromFileReferences_n(vfs []FileReference, n int) bool {
	return ghostTarOut != nil && len(ghostTarOut.hdrs) == n && len(ghostTarOut.datas) == n
}

//gocv:invariant LayerFromFileReferences use=FILES
func inv_LayerFromFileReferences(vfs []FileReference, n int, clampTime time.Time) bool {
	return forall(0, n, func(i int) bool {
		return specWritten(ghostTarOut.hdrs[i], ghostTarOut.datas[i], vfs[i], clampTime)
	})
}

//gocv:lemma C14
func contract_order_irreflexive(a string) {
	ensures("no name precedes itself", !specLess(a, a))
}

//gocv:lemma C14
func contract_order_transitive(a, b, c string) {
	ensures("the order is transitive", implies(specLess(a, b) && specLess(b, c), specLess(a, c)))
}

//gocv:lemma C14
func contract_order_asymmetric(a, b string) {
	ensures("the order is asymmetric", implies(specLess(a, b), !specLess(b, a)))
}

//gocv:lemma C14
func contract_order_parent(dir, name string) {
	n := specN(dir, "/")
	requires(1 <= n && n < specN(name, "/"))
	requires(forall(0, n, func(i int) bool { return specPart(dir, "/", i) == specPart(name, "/", i) }))
	requires(specPart(name, "/", n) != "")
	// the witness of specLess(dir, name)
	ensures("a directory precedes what is under it", 0 <= n && n < specMaxN(dir, name) && specLessAt(dir, name, n))
}

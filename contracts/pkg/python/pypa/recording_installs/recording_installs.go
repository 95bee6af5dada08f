package recording_installs

import (
	"archive/tar"
	"bytes"
	"context"
	"encoding/base64"
	"encoding/csv"
	"hash"
	"io"
	"io/fs"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
)

type ghostError struct{}

func (*ghostError) Error() string { return "ghost" }

var errGhost error = &ghostError{}

func nondetBool() bool                   { return false }
func nondetInt() int                     { return 0 }
func identicalBytes(a, b []byte) bool    { return false }
func identicalRows(a, b [][]string) bool { return false }

func forallKeyVFS(m map[string]fsutil.FileReference, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func existsKeyVFS(m map[string]fsutil.FileReference, f func(k string) bool) bool {
	for k := range m {
		if f(k) {
			return true
		}
	}
	return false
}

func specHas(m map[string]fsutil.FileReference, k string) bool {
	_, ok := m[k]
	return ok
}

func visitedKey(k string) bool { return false }

// ---- recordFile: the row of a file ----

//gocv:pure specName
func specName(f fsutil.FileReference) string { return f.FullName() }

//gocv:iface (github.com/datawire/ocibuild/pkg/fsutil.FileReference).FullName ROW
func model_FullName(f fsutil.FileReference) string { return specName(f) }

//gocv:pure specSize
func specSize(f fs.FileInfo) int64 { return f.Size() }

//gocv:iface (io/fs.FileInfo).Size ROW
func model_Size(f fs.FileInfo) int64 { return specSize(f) }

//gocv:pure specRel
func specRel(base, name string) string { return name }

//gocv:pure specRelOK
func specRelOK(base, name string) bool { return true }

// On Linux, the separator is the slash.
//
//gocv:extern path/filepath.FromSlash ROW
func model_FromSlash(s string) string { return s }

//gocv:extern path/filepath.ToSlash ROW
func model_ToSlash(s string) string { return s }

//gocv:extern path/filepath.Rel ROW
func model_Rel(base, name string) (string, error) {
	if !specRelOK(base, name) {
		return "", errGhost
	}
	return specRel(base, name), nil
}

//gocv:pure specDecimal
func specDecimal(n int64) string { return "" }

//gocv:extern strconv.FormatInt ROW
func model_FormatInt(n int64, base int) string {
	check("in decimal", base == 10)
	return specDecimal(n)
}

//gocv:pure specOpens
func specOpens(f fsutil.FileReference) bool { return true }

//gocv:pure specReads
func specReads(f fsutil.FileReference) bool { return true }

//gocv:pure specDigest
func specDigest(f fsutil.FileReference) string { return "" }

type ghostRC struct{ f fsutil.FileReference }

func (*ghostRC) Read([]byte) (int, error) { return 0, io.EOF }
func (*ghostRC) Close() error             { return nil }

//gocv:iface (github.com/datawire/ocibuild/pkg/fsutil.FileReference).Open ROW
func model_Open(f fsutil.FileReference) (io.ReadCloser, error) {
	if !specOpens(f) {
		return nil, errGhost
	}
	return &ghostRC{f: f}, nil
}

type ghostHasher struct {
	n  int // how many files went in since it was reset
	of fsutil.FileReference
}

func (g *ghostHasher) Write(b []byte) (int, error) { return len(b), nil }
func (g *ghostHasher) Reset()                      { g.n = 0 }
func (g *ghostHasher) Size() int                   { return 0 }
func (g *ghostHasher) BlockSize() int              { return 0 }
func (g *ghostHasher) Sum(b []byte) []byte {
	check("the digest is of the content of one file", g.n == 1 && b == nil)
	ghostSum = specDigest(g.of)
	return nil
}

var ghostSum string

//gocv:extern io.Copy ROW
func model_Copy(dst io.Writer, src io.Reader) (int64, error) {
	h, r := dst.(*ghostHasher), src.(*ghostRC)
	h.n++
	h.of = r.f
	if !specReads(r.f) {
		return 0, errGhost
	}
	return nondetInt64(), nil
}

func nondetInt64() int64 { return 0 }

//gocv:extern (*encoding/base64.Encoding).EncodeToString ROW
func model_Encode(enc *base64.Encoding, b []byte) string {
	check("digests are in URL-safe base64 without padding", enc == base64.RawURLEncoding)
	return ghostSum
}

type ghostRecorded struct {
	fsutil.FileReference
	hash string
	size int64
}

func (g *ghostRecorded) Record() (string, int64) { return g.hash, g.size }

var _ bdist.Recordable = (*ghostRecorded)(nil)

// specRowName: the path of the file relative to the directory.
func specRowName(base string, f fsutil.FileReference) string {
	return specRel("/"+base, "/"+specName(f))
}

type ghostPlain struct{ fsutil.FileReference }

//gocv:contract C12 recordFile use=ROW noreplay
func contract_recordFile(p *ghostPlain, algo, base string, used int) {
	requires(p != nil && p.FileReference != nil)
	h := &ghostHasher{n: used}
	f := p.FileReference
	_, recorded := f.(bdist.Recordable)
	requires(!recorded)
	row, err := recordFile(f, algo, h, base)
	name := specRowName(base, f)
	pyc := strings.HasSuffix(name, ".pyc")
	ensures("an error exactly when there is no relative path or the file cannot be read", (err == nil) == (specRelOK("/"+base, "/"+specName(f)) && (pyc || specOpens(f) && specReads(f))))
	if err == nil {
		ensures("three columns, the first of which is the relative path", len(row) == 3 && row[0] == name)
		if pyc {
			ensures("compiled files have no digest and no size", row[1] == "" && row[2] == "")
		} else {
			ensures("the second is the digest of the content with the name of the algorithm", row[1] == algo+"="+specDigest(f))
			ensures("the third is the size of the file", row[2] == specDecimal(specSize(f)))
		}
	}
}

//gocv:contract C12 recordFile use=ROW noreplay
func contract_recordFile_recorded(f *ghostRecorded, algo, base string) {
	requires(f != nil && f.FileReference != nil)
	name := specRowName(base, f.FileReference)
	row, err := recordFile(f, algo, &ghostHasher{}, base)
	if err == nil {
		ensures("the row has what was recorded before", len(row) == 3 && row[0] == name && row[1] == f.hash && row[2] == specDecimal(f.size))
	}
}

// ---- Record: the files of the metadata directory ----

//gocv:pure specJoined
func specJoined(a, b string) string { return a + "/" + b }

//gocv:extern path.Join RECORDING
func model_Join(elem ...string) string {
	check("joins two parts", len(elem) == 2)
	return specJoined(elem[0], elem[1])
}

//gocv:pure specBase
func specBase(s string) string { return s }

//gocv:extern path.Base RECORDING
func model_Base(s string) string { return specBase(s) }

//gocv:pure specDir
func specDir(s string) string { return s }

//gocv:extern path.Dir RECORDING
func model_Dir(s string) string { return specDir(s) }

type ghostInfo struct{ hdr tar.Header }

func (g *ghostInfo) Name() string       { return g.hdr.Name }
func (g *ghostInfo) Size() int64        { return g.hdr.Size }
func (g *ghostInfo) Mode() fs.FileMode  { return fs.FileMode(g.hdr.Mode) }
func (g *ghostInfo) ModTime() time.Time { return g.hdr.ModTime }
func (g *ghostInfo) IsDir() bool        { return g.hdr.Typeflag == tar.TypeDir }
func (g *ghostInfo) Sys() interface{}   { return nil }

//gocv:extern (*archive/tar.Header).FileInfo RECORDING
func model_FileInfo(h *tar.Header) fs.FileInfo { return &ghostInfo{hdr: *h} }

type ghostRecording struct {
	vfs    map[string]fsutil.FileReference
	dist   string
	algo   string // the algorithm of the digests
	rows   [][]string
	sorted bool
	wrote  bool
	out    *bytes.Buffer
}

var ghostRec *ghostRecording

//gocv:pure specIsDir
func specIsDir(f fs.FileInfo) bool { return f.IsDir() }

//gocv:iface (io/fs.FileInfo).IsDir RECORDING
func model_IsDir(f fs.FileInfo) bool { return specIsDir(f) }

// specRow: the row of a file.
//
//gocv:pure specRow
func specRow(f fsutil.FileReference) []string { return nil }

func identicalStrings(a, b []string) bool { return false }

//gocv:extern github.com/datawire/ocibuild/pkg/python/pypa/recording_installs.recordFile RECORDING
func model_recordFile(f fsutil.FileReference, algo string, h hash.Hash, base string) ([]string, error) {
	g := ghostRec
	check("relative to the directory of the metadata directory", base == specDir(g.dist))
	check("with the requested algorithm, or sha256", algo == g.algo)
	hh, ok := h.(*ghostAlgo)
	check("the hasher is one of that algorithm", ok && hh.name == algo)
	if nondetBool() {
		return nil, errGhost
	}
	assume(len(specRow(f)) == 3)
	return specRow(f), nil
}

type ghostAlgo struct{ name string }

func (g *ghostAlgo) Write(b []byte) (int, error) { return len(b), nil }
func (g *ghostAlgo) Reset()                      {}
func (g *ghostAlgo) Size() int                   { return 0 }
func (g *ghostAlgo) BlockSize() int              { return 0 }
func (g *ghostAlgo) Sum(b []byte) []byte         { return nil }

//gocv:extern crypto/md5.New RECORDING
func model_md5() hash.Hash { return &ghostAlgo{"md5"} }

//gocv:extern crypto/sha1.New RECORDING
func model_sha1() hash.Hash { return &ghostAlgo{"sha1"} }

//gocv:extern crypto/sha256.New224 RECORDING
func model_sha224() hash.Hash { return &ghostAlgo{"sha224"} }

//gocv:extern crypto/sha256.New RECORDING
func model_sha256() hash.Hash { return &ghostAlgo{"sha256"} }

//gocv:extern crypto/sha512.New384 RECORDING
func model_sha384() hash.Hash { return &ghostAlgo{"sha384"} }

//gocv:extern crypto/sha512.New RECORDING
func model_sha512() hash.Hash { return &ghostAlgo{"sha512"} }

func specIsRow(row []string, f fsutil.FileReference) bool {
	return identicalStrings(row, specRow(f))
}

func specOwnRow(row []string, dist string) bool {
	return len(row) == 3 && row[0] == specJoined(specBase(dist), "RECORD") && row[1] == "" && row[2] == ""
}

func specListed(rows [][]string, n int, f fsutil.FileReference) bool {
	return exists(0, n, func(i int) bool { return specIsRow(rows[i], f) })
}

// Sorting permutes the rows so that less orders them: as maps are iterated in any order, the list stands
// for its sorted permutation, and the less function is judged at arbitrary positions.
//
//gocv:extern sort.Slice RECORDING
func model_sortSlice(x interface{}, less func(i, j int) bool) {
	g := ghostRec
	rows := x.([][]string)
	i, j := nondetInt(), nondetInt()
	if 0 <= i && i < len(rows) && 0 <= j && j < len(rows) {
		check("rows are sorted by their path", less(i, j) == (rows[i][0] < rows[j][0]))
	}
	g.sorted = true
}

//gocv:extern encoding/csv.NewWriter RECORDING
func model_csvNew(w io.Writer) *csv.Writer {
	ghostRec.out = w.(*bytes.Buffer)
	return &csv.Writer{}
}

//gocv:extern (*encoding/csv.Writer).WriteAll RECORDING
func model_WriteAll(w *csv.Writer, rows [][]string) error {
	g := ghostRec
	check("rows are sorted before they are written, and written once", g.sorted && !g.wrote)
	check("the first column is followed by a digest and a size", forall(0, len(rows), func(i int) bool { return len(rows[i]) == 3 }))
	if nondetBool() {
		return errGhost
	}
	g.wrote = true
	g.rows = rows
	return nil
}

//gocv:extern (*encoding/csv.Writer).Flush RECORDING
func model_Flush(w *csv.Writer) {}

//gocv:extern (*encoding/csv.Writer).Error RECORDING
func model_Error(w *csv.Writer) error {
	if nondetBool() {
		return errGhost
	}
	return nil
}

//gocv:pure specWritten
func specWritten() string { return "" }

//gocv:extern (*bytes.Buffer).Bytes RECORDING
func model_Bytes(b *bytes.Buffer) []byte {
	check("what is installed is what was written", ghostRec.wrote && b == ghostRec.out)
	return []byte(specWritten())
}

//gocv:extern (*bytes.Buffer).Len RECORDING
func model_Len(b *bytes.Buffer) int {
	check("the size is that of what was written", ghostRec.wrote && b == ghostRec.out)
	return len(specWritten())
}

func specAlgo(algo string) string {
	if algo == "" {
		return "sha256"
	}
	return algo
}

func specKnown(algo string) bool {
	return algo == "" || algo == "md5" || algo == "sha1" || algo == "sha224" || algo == "sha256" || algo == "sha384" || algo == "sha512"
}

//gocv:contract C12 Record use=RECORDING noreplay
func contract_Record(algo, installer string, clamp time.Time, vfs, old map[string]fsutil.FileReference, dist string) {
	requires(vfs != nil && old != nil)
	requires(forallKeyVFS(vfs, func(k string) bool { return specHas(old, k) && old[k] == vfs[k] && vfs[k] != nil }))
	requires(forallKeyVFS(old, func(k string) bool { return specHas(vfs, k) }))
	g := &ghostRecording{vfs: vfs, dist: dist, algo: specAlgo(algo)}
	ghostRec = g
	name, inst := specJoined(dist, "RECORD"), specJoined(dist, "INSTALLER")
	requires(name != inst && !specHas(vfs, name)) // the RECORD of the wheel is not installed
	err := Record(algo, installer, nil)(context.Background(), clamp, vfs, dist)
	ensures("no other file is touched", forallKeyVFS(vfs, func(k string) bool { return k == name || k == inst || specHas(old, k) && old[k] == vfs[k] }))
	ensures("no file is removed", forallKeyVFS(old, func(k string) bool { return specHas(vfs, k) }))
	ensures("unknown algorithms are rejected", implies(err == nil, specKnown(algo)))
	if err == nil {
		i, ok := vfs[inst].(*fsutil.InMemFileReference)
		ensures("INSTALLER is there", ok && i != nil && i.MFullName == inst && string(i.MContent) == installer+"\n")
		ii, ok := i.FileInfo.(*ghostInfo)
		ensures("as a regular file of its size", ok && ii != nil && ii.hdr.Typeflag == tar.TypeReg && ii.hdr.Size == int64(len(installer)+1) && ii.hdr.Mode == 0o644 && ii.hdr.Name == inst && ii.hdr.ModTime == clamp)
		r, ok := vfs[name].(*fsutil.InMemFileReference)
		ensures("RECORD is there", ok && r != nil && r.MFullName == name && string(r.MContent) == specWritten())
		ri, ok := r.FileInfo.(*ghostInfo)
		ensures("as a regular file of its size too", ok && ri != nil && ri.hdr.Typeflag == tar.TypeReg && ri.hdr.Size == int64(len(specWritten())) && ri.hdr.Mode == 0o644 && ri.hdr.Name == name && ri.hdr.ModTime == clamp)
	}
}

//gocv:contract C12 Record use=RECORDING noreplay
func contract_Record_only(algo, installer string, clamp time.Time, vfs map[string]fsutil.FileReference, dist string, i int) {
	requires(vfs != nil && forallKeyVFS(vfs, func(k string) bool { return vfs[k] != nil }))
	g := &ghostRecording{vfs: vfs, dist: dist, algo: specAlgo(algo)}
	ghostRec = g
	name, inst := specJoined(dist, "RECORD"), specJoined(dist, "INSTALLER")
	requires(name != inst && !specHas(vfs, name)) // the RECORD of the wheel is not installed
	err := Record(algo, installer, nil)(context.Background(), clamp, vfs, dist)
	if err == nil && 0 <= i && i < len(g.rows) && !specOwnRow(g.rows[i], dist) {
		ensures("every other row is of an installed file", existsKeyVFS(vfs, func(k string) bool { return k != name && !specIsDir(vfs[k]) && specIsRow(g.rows[i], vfs[k]) }))
	}
}

//gocv:contract C12 Record use=RECORDING noreplay
func contract_Record_all(algo, installer string, clamp time.Time, vfs map[string]fsutil.FileReference, dist, k string) {
	requires(vfs != nil && forallKeyVFS(vfs, func(k string) bool { return vfs[k] != nil }))
	g := &ghostRecording{vfs: vfs, dist: dist, algo: specAlgo(algo)}
	ghostRec = g
	name, inst := specJoined(dist, "RECORD"), specJoined(dist, "INSTALLER")
	requires(name != inst)
	err := Record(algo, installer, nil)(context.Background(), clamp, vfs, dist)
	if err == nil {
		ensures("rows are written", g.wrote && len(g.rows) > 0)
		ensures("RECORD has its own row", specOwnRow(g.rows[0], dist) || specOwnRow(g.rows[len(g.rows)-1], dist))
		ensures("every installed file has a row", implies(k != name && specHas(vfs, k) && !specIsDir(vfs[k]), specListed(g.rows, len(g.rows), vfs[k])))
	}
}

//gocv:invariant Record$1 use=RECORDING
func inv_rows_shape(vfs map[string]fsutil.FileReference, csvData [][]string) bool {
	return forall(0, len(csvData), func(i int) bool { return len(csvData[i]) == 3 })
}

//gocv:invariant Record$1 use=RECORDING
func inv_rows_own(vfs map[string]fsutil.FileReference, csvData [][]string) bool {
	return len(csvData) >= 1 && specOwnRow(csvData[0], ghostRec.dist)
}

//gocv:invariant Record$1 use=RECORDING
func inv_rows_all(vfs map[string]fsutil.FileReference, csvData [][]string) bool {
	return forallKeyVFS(vfs, func(k string) bool {
		return !visitedKey(k) || specIsDir(vfs[k]) || specListed(csvData, len(csvData), vfs[k])
	})
}

//gocv:invariant Record$1 use=RECORDING
func inv_rows_only(vfs map[string]fsutil.FileReference, csvData [][]string) bool {
	return forall(1, len(csvData), func(i int) bool {
		return existsKeyVFS(vfs, func(k string) bool { return visitedKey(k) && !specIsDir(vfs[k]) && specIsRow(csvData[i], vfs[k]) })
	})
}

var _ direct_url.DirectURL

package bdist

import (
	"archive/zip"
	"encoding/base64"
	"encoding/csv"
	"hash"
	"io"
	"strings"

	"github.com/datawire/dlib/derror"
)

// ---- integrityCheck: RECORD against the members of the archive ----
//
// The archive is arbitrary: specOpens says which members can be opened, specReads which can be read to
// the end, specSize how long they are, specDigest what their digests are.

//gocv:pure specClean
func specClean(s string) string { return s }

//gocv:pure specJoined
func specJoined(a, b string) string { return a + "/" + b }

//gocv:pure specOpens
func specOpens(name string) bool { return name != "" }

//gocv:pure specReads
func specReads(name string) bool { return name != "" }

//gocv:pure specSize
func specSize(name string) int64 { return 0 }

//gocv:pure specDigest
func specDigest(algo int, name string) string { return name }

//gocv:pure specDecimal
func specDecimal(n int64) string { return "" }

//gocv:extern path.Clean REC
func model_recClean(s string) string { return specClean(s) }

//gocv:extern path.Join REC
func model_recJoin(elem ...string) string { return specJoined(elem[0], elem[1]) }

type ghostRecord struct {
	dist string
	rows [][]string
	file *zip.File // an arbitrary member
	k    int       // which one
	k2   int       // another one
}

var ghostRec *ghostRecord

//gocv:extern (*github.com/datawire/ocibuild/pkg/python/pypa/bdist.wheel).distInfoDir REC
func model_distInfoDir(wh *wheel) (string, error) {
	if nondetBool() {
		return "", errGhost
	}
	return ghostRec.dist, nil
}

type ghostMember struct{ name string }

func (g *ghostMember) Read(b []byte) (int, error) { return 0, io.EOF }
func (g *ghostMember) Close() error               { return nil }

//gocv:extern (*github.com/datawire/ocibuild/pkg/python/pypa/bdist.wheel).Open REC
func model_recOpen(wh *wheel, name string) (io.ReadCloser, error) {
	if !specOpens(specClean(name)) {
		return nil, errGhost
	}
	return &ghostMember{name: specClean(name)}, nil
}

var ghostCSV string

//gocv:extern encoding/csv.NewReader REC
func model_csvNew(r io.Reader) *csv.Reader {
	ghostCSV = r.(*ghostMember).name
	return &csv.Reader{}
}

//gocv:extern (*encoding/csv.Reader).ReadAll REC
func model_csvAll(r *csv.Reader) ([][]string, error) {
	check("RECORD is what gets read", ghostCSV == specClean(specJoined(ghostRec.dist, "RECORD")))
	if nondetBool() {
		return nil, errGhost
	}
	return ghostRec.rows, nil
}

type ghostHash struct {
	algo int
	of   string
	read bool
}

func (g *ghostHash) Write(b []byte) (int, error) { return len(b), nil }
func (g *ghostHash) Sum(b []byte) []byte {
	check("a whole member is hashed", g.read)
	ghostSum = specDigest(g.algo, g.of)
	return nil
}
func (g *ghostHash) Reset()         {}
func (g *ghostHash) Size() int      { return 0 }
func (g *ghostHash) BlockSize() int { return 0 }

var ghostSum string

//gocv:extern crypto/sha256.New REC
func model_sha256() hash.Hash { return &ghostHash{algo: 256} }

//gocv:extern crypto/sha512.New384 REC
func model_sha384() hash.Hash { return &ghostHash{algo: 384} }

//gocv:extern crypto/sha512.New REC
func model_sha512() hash.Hash { return &ghostHash{algo: 512} }

//gocv:extern io.Copy REC
func model_recCopy(dst io.Writer, src io.Reader) (int64, error) {
	m := src.(*ghostMember)
	if !specReads(m.name) {
		return 0, errGhost
	}
	if h, ok := dst.(*ghostHash); ok {
		h.of, h.read = m.name, true
	}
	return specSize(m.name), nil
}

//gocv:extern (*encoding/base64.Encoding).EncodeToString REC
func model_encode(enc *base64.Encoding, b []byte) string {
	check("digests are in URL-safe base64 without padding", enc == base64.RawURLEncoding)
	return ghostSum
}

//gocv:extern strings.SplitN REC
func model_splitN(s, sep string, n int) []string {
	check("split at the first separator", n == 2)
	i := strings.Index(s, sep)
	if i < 0 {
		return []string{s}
	}
	return []string{s[:i], s[i+len(sep):]}
}

//gocv:extern strconv.FormatInt REC
func model_formatInt(n int64, base int) string {
	check("in decimal", base == 10)
	return specDecimal(n)
}

//gocv:extern sort.Strings REC
func model_recSort(s []string) {}

func specAlgo(algo string) int {
	switch algo {
	case "sha256":
		return 256
	case "sha384":
		return 384
	case "sha512":
		return 512
	}
	return 0
}

// specHashOK: the text names a strong algorithm and is the digest of the member by it.
func specHashOK(text, name string) bool {
	return text == "sha256="+specDigest(256, name) || text == "sha384="+specDigest(384, name) || text == "sha512="+specDigest(512, name)
}

func specRowHash(dist string, row []string) bool {
	if len(row) != 3 {
		return false
	}
	name := specClean(row[0])
	if row[1] == "" {
		return name == specJoined(dist, "RECORD")
	}
	return specHashOK(row[1], specClean(name))
}

func specRowSize(dist string, row []string) bool {
	if len(row) != 3 {
		return false
	}
	name := specClean(row[0])
	if row[2] == "" {
		return name == specJoined(dist, "RECORD")
	}
	return row[2] == specDecimal(specSize(specClean(name)))
}

func specRowReads(row []string) bool {
	if len(row) != 3 {
		return false
	}
	name := specClean(specClean(row[0]))
	return specOpens(name) && specReads(name)
}

// specListable: whether the member has to be in RECORD.
func specListable(dist, name string) bool {
	n := specClean(name)
	return !strings.HasSuffix(name, "/") && n != specJoined(dist, "RECORD.jws") && n != specJoined(dist, "RECORD.p7s")
}

//gocv:contract C10 *wheel.integrityCheck use=REC noreplay
func contract_integrityCheck(wh *wheel, rows [][]string, dist string, k, k2 int) {
	requires(wh != nil && wh.zip != nil && forall(0, len(wh.zip.File), func(i int) bool { return wh.zip.File[i] != nil }))
	requires(0 <= k && k < len(wh.zip.File) && 0 <= k2 && k2 < len(wh.zip.File) && k != k2)
	f, f2 := wh.zip.File[k], wh.zip.File[k2]
	ghostRec = &ghostRecord{dist: dist, rows: rows, file: f, k: k, k2: k2}
	_, isHash := io.Discard.(*ghostHash)
	assume(!isHash)
	err := wh.integrityCheck()
	if err == nil {
		ensures("every row has three columns and names a member that can be read", forall(0, len(rows), func(i int) bool { return specRowReads(rows[i]) }))
		ensures("every row has the digest of its member, by a strong algorithm", forall(0, len(rows), func(i int) bool { return specRowHash(dist, rows[i]) }))
		ensures("every row has the size of its member", forall(0, len(rows), func(i int) bool { return specRowSize(dist, rows[i]) }))
		ensures("every member is in RECORD", !specListable(dist, f.Name) || specRowFor(rows, f.Name, len(rows)))
		ensures("no two members have the same name, unless both are directories", specClean(f.Name) != specClean(f2.Name) || strings.HasSuffix(f.Name, "/") && strings.HasSuffix(f2.Name, "/"))
	}
}

// specRowFor: one of the first n rows is for the member.
func specRowFor(rows [][]string, name string, n int) bool {
	return exists(0, n, func(i int) bool { return len(rows[i]) == 3 && specClean(rows[i][0]) == specClean(name) })
}

func specIn(m map[string]struct{}, k string) bool {
	_, ok := m[k]
	return ok
}

//gocv:invariant *wheel.integrityCheck use=REC
func inv_dist(distInfoDir string) bool { return distInfoDir == ghostRec.dist }

//gocv:invariant *wheel.integrityCheck loop=1/3 use=REC
func inv_todo(wh *wheel, todo map[string]struct{}, distInfoDir string, n int) bool {
	return todo != nil && forall(0, n, func(i int) bool {
		return !specListable(ghostRec.dist, wh.zip.File[i].Name) || specIn(todo, specClean(wh.zip.File[i].Name))
	})
}

func specWas(m map[string]bool, k string, dir bool) bool {
	v, ok := m[k]
	return ok && v == dir
}

//gocv:invariant *wheel.integrityCheck loop=1/3 use=REC
func inv_dup(wh *wheel, isDir map[string]bool, n int) bool {
	return isDir != nil && forall(0, n, func(i int) bool {
		return specWas(isDir, specClean(wh.zip.File[i].Name), strings.HasSuffix(wh.zip.File[i].Name, "/"))
	})
}

//gocv:invariant *wheel.integrityCheck loop=1/3 use=REC
func inv_distinct(wh *wheel, n int) bool {
	g := ghostRec
	if g.k >= n || g.k2 >= n {
		return true
	}
	f, f2 := wh.zip.File[g.k].Name, wh.zip.File[g.k2].Name
	return specClean(f) != specClean(f2) || strings.HasSuffix(f, "/") && strings.HasSuffix(f2, "/")
}

//gocv:invariant *wheel.integrityCheck loop=2/3 use=REC
func inv_rows_todo(todo map[string]struct{}, n int) bool {
	g := ghostRec
	return todo != nil && (!specListable(g.dist, g.file.Name) || specIn(todo, specClean(g.file.Name)) || specRowFor(g.rows, g.file.Name, n))
}

//gocv:invariant *wheel.integrityCheck loop=2/3 use=REC
func inv_rows_reads(errs derror.MultiError, n int) bool {
	return len(errs) > 0 || forall(0, n, func(i int) bool { return specRowReads(ghostRec.rows[i]) })
}

//gocv:invariant *wheel.integrityCheck loop=2/3 use=REC
func inv_rows_hash(errs derror.MultiError, n int) bool {
	return len(errs) > 0 || forall(0, n, func(i int) bool { return specRowHash(ghostRec.dist, ghostRec.rows[i]) })
}

//gocv:invariant *wheel.integrityCheck loop=2/3 use=REC
func inv_rows_size(errs derror.MultiError, n int) bool {
	return len(errs) > 0 || forall(0, n, func(i int) bool { return specRowSize(ghostRec.dist, ghostRec.rows[i]) })
}

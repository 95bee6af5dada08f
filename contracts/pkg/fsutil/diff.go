package fsutil

import (
	"archive/tar"
	"errors"
	"io"
	"reflect"
)

// ---- readersEqual over readers with arbitrary content ----

// ghostReader stands for any reader: it yields data, then fails with fail (end of file if nil).
type ghostReader struct {
	data string
	fail error
}

func (g *ghostReader) Read(p []byte) (int, error) {
	n := copy(p, g.data)
	g.data = g.data[n:]
	if n == 0 && len(p) > 0 {
		if g.fail != nil {
			return 0, g.fail
		}
		return 0, io.EOF
	}
	return n, nil
}

//gocv:extern io.ReadFull READER
func model_ReadFull(r io.Reader, buf []byte) (int, error) {
	g := r.(*ghostReader)
	n := copy(buf, g.data)
	g.data = g.data[n:]
	if n == len(buf) {
		return n, nil
	}
	if g.fail != nil {
		return n, g.fail
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, io.ErrUnexpectedEOF
}

// The whole contents (arbitrary constants for the verifier).
var ghostX, ghostY string

//gocv:pure specX
func specX() string { return ghostX }

//gocv:pure specY
func specY() string { return ghostY }

//gocv:contract C16 readersEqual use=READER
func contract_readersEqual(x, y string) {
	if !verifying() {
		ghostX, ghostY = x, y
	}
	requires(x == specX() && y == specY())
	a, b := &ghostReader{data: x}, &ghostReader{data: y}
	eq, err := readersEqual(a, b)
	ensures("no error without a read error", err == nil)
	ensures("contents reported equal are equal", implies(eq, x == y))
	ensures("equal contents are reported equal", implies(x == y, eq))
}

//gocv:contract C16 readersEqual use=READER
func contract_readersEqual_error(x, y string, failA bool) {
	broken := errors.New("broken")
	a, b := &ghostReader{data: x}, &ghostReader{data: y}
	if failA {
		a.fail = broken
	} else {
		b.fail = broken
	}
	eq, err := readersEqual(a, b)
	ensures("a read error is never reported as equality", err != nil || !eq)
}

//gocv:invariant readersEqual use=READER
func inv_readersEqual(a, b io.Reader) bool {
	ga, gb := a.(*ghostReader), b.(*ghostReader)
	return (specX() == specY()) == (ga.data == gb.data)
}

//gocv:contract C16 headersEqualExceptTimestamps use=HDR
func contract_headersEqual(a, b tar.Header) {
	r := headersEqualExceptTimestamps(a, b)
	ensures("equal headers are equal", implies(specHeaders(a, b), r))
	ensures("headers that differ in more than the times are not", implies(r, specHeaders(a, b)))
}

func specHeaders(a, b tar.Header) bool {
	return a.Typeflag == b.Typeflag && a.Name == b.Name && a.Linkname == b.Linkname && a.Size == b.Size && a.Mode == b.Mode &&
		a.Uid == b.Uid && a.Gid == b.Gid && a.Uname == b.Uname && a.Gname == b.Gname &&
		a.Devmajor == b.Devmajor && a.Devminor == b.Devminor && a.Format == b.Format &&
		specMaps(a.Xattrs, b.Xattrs) && (a.Xattrs == nil) == (b.Xattrs == nil) && specPAX(a.PAXRecords, b.PAXRecords)
}

func specMaps(a, b map[string]string) bool {
	return forallKeySS(a, func(k string) bool { v, ok := b[k]; return ok && v == a[k] }) &&
		forallKeySS(b, func(k string) bool { _, ok := a[k]; return ok })
}

func specTimeKey(k string) bool { return k == "mtime" || k == "atime" || k == "ctime" }

func specPAX(a, b map[string]string) bool {
	return forallKeySS(a, func(k string) bool { v, ok := b[k]; return specTimeKey(k) || ok && v == a[k] }) &&
		forallKeySS(b, func(k string) bool { _, ok := a[k]; return specTimeKey(k) || ok })
}

func forallKeySS(m map[string]string, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

//gocv:invariant paxRecordsExceptTimestamps use=HDR
func inv_paxRecords_only(records, ret map[string]string) bool {
	return forallKeySS(ret, func(k string) bool { v, ok := records[k]; return !specTimeKey(k) && ok && v == ret[k] })
}

//gocv:invariant paxRecordsExceptTimestamps use=HDR
func inv_paxRecords_all(records, ret map[string]string) bool {
	return forallKeySS(records, func(k string) bool { _, ok := ret[k]; return !visitedKeyS(k) || specTimeKey(k) || ok })
}

func visitedKeyS(k string) bool { return true }

//gocv:extern reflect.DeepEqual HDR
func model_DeepEqual(x, y interface{}) bool {
	a, ok1 := x.(tar.Header)
	b, ok2 := y.(tar.Header)
	if !ok1 || !ok2 {
		panic("model: not headers")
	}
	return a.Typeflag == b.Typeflag && a.Name == b.Name && a.Linkname == b.Linkname && a.Size == b.Size && a.Mode == b.Mode &&
		a.Uid == b.Uid && a.Gid == b.Gid && a.Uname == b.Uname && a.Gname == b.Gname && a.ModTime == b.ModTime && a.AccessTime == b.AccessTime && a.ChangeTime == b.ChangeTime &&
		a.Devmajor == b.Devmajor && a.Devminor == b.Devminor && a.Format == b.Format &&
		specMaps(a.Xattrs, b.Xattrs) && (a.Xattrs == nil) == (b.Xattrs == nil) &&
		specMaps(a.PAXRecords, b.PAXRecords) && (a.PAXRecords == nil) == (b.PAXRecords == nil)
}

var _ = reflect.DeepEqual

package bdist

import (
	"archive/tar"
	"archive/zip"
	"io"
	"io/fs"
	"path"
	"strings"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python"
)

// ---- permissions of members ----

// specExec: a regular file that somebody may execute (upper half of the external attributes).
func specExec(attrs uint32) bool {
	return attrs>>16&0o170000 == 0o100000 && attrs>>16&0o111 != 0
}

//gocv:contract C13 isExecutable
func contract_isExecutable(h zip.FileHeader) {
	ensures("regular files with an execute bit are executable", isExecutable(h) == specExec(h.ExternalAttrs))
}

func identicalVFS(a, b map[string]fsutil.FileReference) bool { return false }

func forallKeyVFS(m map[string]fsutil.FileReference, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func specHas(m map[string]fsutil.FileReference, k string) bool {
	_, ok := m[k]
	return ok
}

// specSameBut: the map has the entries it had, but possibly for two.
func specSameBut(m, old map[string]fsutil.FileReference, a, b string) bool {
	return forallKeyVFS(m, func(k string) bool { return k == a || k == b || specHas(old, k) && old[k] == m[k] }) &&
		forallKeyVFS(old, func(k string) bool { return k == a || k == b || specHas(m, k) })
}

func specCopy(m, old map[string]fsutil.FileReference) bool {
	return m != nil && old != nil && !identicalVFS(m, old) &&
		forallKeyVFS(m, func(k string) bool { return specHas(old, k) && old[k] == m[k] }) &&
		forallKeyVFS(old, func(k string) bool { return specHas(m, k) })
}

//gocv:extern (time.Time).IsZero TIME
func model_IsZero(t time.Time) bool { return specZeroTime(t) }

//gocv:pure specZeroTime
func specZeroTime(t time.Time) bool { return t.IsZero() }

//gocv:contract C13,C11 create use=TIME noreplay
func contract_create(vfs, old map[string]fsutil.FileReference, mtime time.Time, name string, content *zipEntry) {
	requires(specCopy(vfs, old) && content != nil)
	was, attrs, modified := content.header.Name, content.header.ExternalAttrs, content.header.Modified
	size, size32 := content.header.UncompressedSize64, content.header.UncompressedSize
	isDir := strings.HasSuffix(was, "/")
	create(vfs, mtime, name, content)
	ensures("the member is at its name", specHas(vfs, name) && vfs[name] == fsutil.FileReference(content))
	ensures("nothing else is touched", specSameBut(vfs, old, name, name))
	mode := content.header.ExternalAttrs >> 16
	ensures("a directory has mode 755", implies(isDir, mode == 0o40755))
	ensures("an executable regular file has mode 755", implies(!isDir && specExec(attrs), mode == 0o100755))
	ensures("anything else has mode 644", implies(!isDir && !specExec(attrs), mode == 0o100644))
	ensures("the mode is read as a unix mode", content.header.CreatorVersion>>8 == 3)
	ensures("no other attributes", content.header.ExternalAttrs&0xffff == 0)
	ensures("the file knows its name", content.header.Name == name+specSlash(isDir))
	ensures("the size is kept", content.header.UncompressedSize64 == size && content.header.UncompressedSize == size32)
	ensures("the modification time is the one asked for, or kept", content.header.Modified == specTimeOr(mtime, modified))
}

func specSlash(isDir bool) string {
	if isDir {
		return "/"
	}
	return ""
}

func specTimeOr(t, or time.Time) time.Time {
	if specZeroTime(t) {
		return or
	}
	return t
}

var ghostIsDir bool // whether the file being renamed is a directory

//gocv:iface (io/fs.FileInfo).IsDir REN
func model_zipIsDir(f fs.FileInfo) bool { return ghostIsDir }

//gocv:contract C11 rename use=REN noreplay
func contract_rename(vfs, old map[string]fsutil.FileReference, oldpath, newpath string, f *zipEntry, isDir bool) {
	ghostIsDir = isDir
	requires(specCopy(vfs, old) && f != nil)
	requires(implies(specHas(vfs, oldpath), vfs[oldpath] == fsutil.FileReference(f)))
	attrs, size := f.header.ExternalAttrs, f.header.UncompressedSize64
	err := rename(vfs, oldpath, newpath)
	ensures("renamed exactly when it is there", (err == nil) == specHas(old, oldpath))
	if err == nil {
		ensures("the file is at the new name", specHas(vfs, newpath) && vfs[newpath] == old[oldpath])
		ensures("and no longer at the old one", implies(oldpath != newpath, !specHas(vfs, oldpath)))
		ensures("nothing else is touched", specSameBut(vfs, old, oldpath, newpath))
		if isDir {
			ensures("a directory knows its new name", f.header.Name == newpath+"/")
		} else {
			ensures("a file knows its new name", f.header.Name == newpath)
		}
		ensures("the file is otherwise the same", f.header.ExternalAttrs == attrs && f.header.UncompressedSize64 == size)
	} else {
		ensures("nothing is touched", specSameBut(vfs, old, oldpath, oldpath) && !specHas(vfs, oldpath))
	}
}

// ---- skipping the interpreter line ----

type ghostReader struct {
	data string
	fail error // at the end of data, instead of EOF
}

func (g *ghostReader) Read(buf []byte) (int, error) {
	k := nondetInt()
	assume(k >= 0 && k <= len(buf) && k <= len(g.data))
	n := copy(buf, g.data[:k])
	g.data = g.data[n:]
	if len(g.data) == 0 && nondetBool() {
		if g.fail != nil {
			return n, g.fail
		}
		return n, io.EOF
	}
	return n, nil
}

func nondetInt() int { return 0 }

//gocv:extern io.ReadFull SKIP
func model_ReadFull(r io.Reader, buf []byte) (int, error) {
	g := r.(*ghostReader)
	n := copy(buf, g.data)
	g.data = g.data[n:]
	if n == len(buf) {
		return n, nil
	}
	if g.fail != nil {
		return n, g.fail
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, io.ErrUnexpectedEOF
}

//gocv:contract C13 *skipReader.Read use=SKIP noreplay
func contract_skipReader(buf []byte, skip int, data string, fail error) {
	requires(skip >= 0 && len(buf) >= 0 && (fail == nil || fail != io.EOF))
	g := &ghostReader{data: data, fail: fail}
	r := &skipReader{skip: skip, inner: g}
	n, err := r.Read(buf)
	ensures("no more than the buffer", 0 <= n && n <= len(buf))
	if skip <= len(data) {
		ensures("what is read comes right after what is skipped", implies(n > 0, skip+n <= len(data)) && forall(0, n, func(i int) bool { return buf[i] == data[skip+i] }))
		ensures("nothing is lost", len(g.data) == len(data)-skip-n && r.skip == 0)
	} else {
		ensures("something shorter than the prefix is not taken for the end", n == 0 && err != nil && err != io.EOF)
	}
}

// ---- ownership ----

//gocv:pure specHdr
func specHdr(f fs.FileInfo) tar.Header {
	h, err := tar.FileInfoHeader(f, "")
	if err != nil {
		return tar.Header{}
	}
	return *h
}

//gocv:pure specHdrOK
func specHdrOK(f fs.FileInfo) bool {
	_, err := tar.FileInfoHeader(f, "")
	return err == nil
}

//gocv:extern archive/tar.FileInfoHeader TAR
func model_FileInfoHeader(fi fs.FileInfo, link string) (*tar.Header, error) {
	if !specHdrOK(fi) || link != "" {
		return nil, errGhost
	}
	h := specHdr(fi)
	return &h, nil
}

//gocv:pure specName
func specName(f fsutil.FileReference) string { return f.FullName() }

//gocv:iface (github.com/datawire/ocibuild/pkg/fsutil.FileReference).FullName TAR
func model_FullName(f fsutil.FileReference) string { return specName(f) }

//gocv:contract C11 newTarEntry use=TAR noreplay
func contract_newTarEntry(f fsutil.FileReference, uid int) {
	requires(f != nil)
	calls := 0
	r, err := newTarEntry(f, func(h *tar.Header) { h.Uid = uid; calls++ })
	ensures("an entry exactly for what can be in an archive", (err == nil) == specHdrOK(f))
	if err == nil {
		e, ok := r.(*tarEntry)
		ensures("an entry", ok && e != nil && e.header != nil)
		w := specHdr(f)
		ensures("the entry has the name of the file", e.header.Name == specName(f))
		ensures("the header is adjusted once", calls == 1 && e.header.Uid == uid)
		ensures("the rest of the metadata is that of the file", e.header.Typeflag == w.Typeflag && e.header.Mode == w.Mode && e.header.Size == w.Size && e.header.Gid == w.Gid && e.header.Linkname == w.Linkname)
	}
}

var _ = path.Clean
var _ python.Platform

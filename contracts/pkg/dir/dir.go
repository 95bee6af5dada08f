package dir

import (
	"archive/tar"
	"bytes"
	"errors"
	"io"
	"io/fs"
	"os"
	"path"
	"path/filepath"
	"time"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1tarball "github.com/google/go-containerregistry/pkg/v1/tarball"
)

// ---- LayerFromDir over any directory, prefix and ownership ----

var errGhost = errors.New("ghost")

func nondetBool() bool { return false }

//gocv:pure specHdr
func specHdr(fi fs.FileInfo) tar.Header {
	h, err := tar.FileInfoHeader(fi, "")
	if err != nil {
		return tar.Header{}
	}
	return *h
}

//gocv:pure specHdrOK
func specHdrOK(fi fs.FileInfo) bool { return specHdr(fi).Name != "" }

//gocv:extern archive/tar.FileInfoHeader DIR
func model_FileInfoHeader(fi fs.FileInfo, link string) (*tar.Header, error) {
	if !specHdrOK(fi) {
		return nil, errGhost
	}
	h := specHdr(fi)
	return &h, nil
}

//gocv:pure specRel
func specRel(base, name string) string {
	s, _ := filepath.Rel(base, name)
	return filepath.ToSlash(s)
}

//gocv:extern path/filepath.Rel DIR
func model_Rel(base, name string) (string, error) {
	if nondetBool() {
		return "", errGhost
	}
	return specRel(base, name), nil
}

//gocv:extern path/filepath.ToSlash DIR
func model_ToSlash(s string) string { return s }

//gocv:pure specJoin
func specJoin(a, b string) string { return path.Join(a, b) }

//gocv:extern path.Join DIR
func model_Join(elem ...string) string {
	if len(elem) != 2 {
		return nondetString()
	}
	return specJoin(elem[0], elem[1])
}

func nondetString() string { return "" }

//gocv:pure specReadlink
func specReadlink(name string) string { s, _ := os.Readlink(name); return s }

//gocv:extern os.Readlink DIR
func model_Readlink(name string) (string, error) {
	if nondetBool() {
		return "", errGhost
	}
	return specReadlink(name), nil
}

//gocv:pure specFile
func specFile(name string) string { return "" }

type ghostFiles struct{ names map[*os.File]string }

var ghostOpen *ghostFiles

//gocv:extern os.Open DIR
func model_Open(name string) (*os.File, error) {
	if nondetBool() {
		return nil, errGhost
	}
	f := new(os.File)
	ghostOpen.names[f] = name
	return f, nil
}

//gocv:extern (*os.File).Close DIR
func model_FileClose(f *os.File) error {
	if nondetBool() {
		return errGhost
	}
	return nil
}

//gocv:extern os.SameFile DIR
func model_SameFile(a, b fs.FileInfo) bool { return false }

//gocv:extern os.SameFile DIRLINK
func model_SameFile_any(a, b fs.FileInfo) bool { return nondetBool() }

type ghostOut struct {
	n       int                // entries
	hdrs    map[int]tar.Header // by position
	datas   map[int]string     // content by entry
	closed  bool
	nBefore int // entries written before the walk
	before  map[int]tar.Header
	walked  bool
	failed  bool
}

var ghostTarOut *ghostOut

//gocv:extern archive/tar.NewWriter DIR
func model_tarNewWriter(w io.Writer) *tar.Writer { return new(tar.Writer) }

//gocv:extern (*archive/tar.Writer).WriteHeader DIR
func model_WriteHeader(tw *tar.Writer, hdr *tar.Header) error {
	if nondetBool() {
		return errGhost
	}
	o := ghostTarOut
	o.hdrs[o.n] = *hdr
	o.datas[o.n] = ""
	o.n++
	return nil
}

//gocv:extern io.Copy DIR
func model_Copy(dst io.Writer, src io.Reader) (int64, error) {
	if nondetBool() {
		return 0, errGhost
	}
	s := specFile(ghostOpen.names[src.(*os.File)])
	ghostTarOut.datas[ghostTarOut.n-1] += s
	return int64(len(s)), nil
}

//gocv:extern (*archive/tar.Writer).Close DIR
func model_tarClose(tw *tar.Writer) error {
	if nondetBool() {
		return errGhost
	}
	ghostTarOut.closed = true
	return nil
}

//gocv:extern (*bytes.Buffer).Bytes DIR
func model_BufferBytes(b *bytes.Buffer) []byte { return nil }

//gocv:extern github.com/google/go-containerregistry/pkg/v1/tarball.LayerFromOpener DIR
func model_LayerFromOpener(o ociv1tarball.Opener, opts ...ociv1tarball.LayerOption) (ociv1.Layer, error) {
	check("the archive is closed before it is used", ghostTarOut.closed)
	return nil, nil
}

// The walk visits any number of entries.
type ghostVisit struct {
	name string
	info fs.FileInfo
}

type ghostWalk struct {
	dirname string
	prefix  *Prefix
	chown   *Ownership
	clamp   time.Time
	visits  []ghostVisit
}

var ghostWalked *ghostWalk

//gocv:extern path/filepath.Walk DIR
func model_Walk(root string, fn filepath.WalkFunc) error {
	o := ghostTarOut
	o.before, o.nBefore = o.hdrs, o.n
	o.hdrs, o.datas, o.n = map[int]tar.Header{}, map[int]string{}, 0
	o.walked = true
	for _, v := range ghostWalked.visits {
		if err := fn(v.name, v.info, nil); err != nil {
			return err
		}
	}
	return nil
}

//gocv:invariant model_Walk use=DIR
func inv_Walk_n(root string, fn filepath.WalkFunc, n int) bool {
	o := ghostTarOut
	return o != nil && o.n == n
}

func specEntry_name(got tar.Header, v ghostVisit) bool { return got.Name == specEntryName(v.name) }

//gocv:invariant model_Walk use=DIR
func inv_Walk_name(root string, fn filepath.WalkFunc, n int) bool {
	o := ghostTarOut
	return forall(0, n, func(i int) bool { return specEntry_name(o.hdrs[i], ghostWalked.visits[i]) })
}

func specEntry_meta(got tar.Header, v ghostVisit) bool { return specMeta(got, specHdr(v.info)) }

//gocv:invariant model_Walk use=DIR
func inv_Walk_meta(root string, fn filepath.WalkFunc, n int) bool {
	o := ghostTarOut
	return forall(0, n, func(i int) bool { return specEntry_meta(o.hdrs[i], ghostWalked.visits[i]) })
}

func specEntry_link(got tar.Header, v ghostVisit) bool {
	return specHdr(v.info).Typeflag != tar.TypeSymlink || got.Linkname == specReadlink(v.name)
}

//gocv:invariant model_Walk use=DIR
func inv_Walk_link(root string, fn filepath.WalkFunc, n int) bool {
	o := ghostTarOut
	return forall(0, n, func(i int) bool { return specEntry_link(o.hdrs[i], ghostWalked.visits[i]) })
}

func specEntry_owner(got tar.Header, v ghostVisit) bool {
	return specOwner(got, specHdr(v.info), ghostWalked.chown)
}

//gocv:invariant model_Walk use=DIR
func inv_Walk_owner(root string, fn filepath.WalkFunc, n int) bool {
	o := ghostTarOut
	return forall(0, n, func(i int) bool { return specEntry_owner(o.hdrs[i], ghostWalked.visits[i]) })
}

func specEntry_times(got tar.Header, v ghostVisit) bool {
	return specTimes(got, specHdr(v.info), ghostWalked.clamp)
}

//gocv:invariant model_Walk use=DIR
func inv_Walk_times(root string, fn filepath.WalkFunc, n int) bool {
	o := ghostTarOut
	return forall(0, n, func(i int) bool { return specEntry_times(o.hdrs[i], ghostWalked.visits[i]) })
}

func specEntry_data(data string, v ghostVisit) bool {
	return specHdr(v.info).Typeflag != tar.TypeReg || data == specFile(v.name)
}

//gocv:invariant model_Walk use=DIR
func inv_Walk_data(root string, fn filepath.WalkFunc, n int) bool {
	o := ghostTarOut
	return forall(0, n, func(i int) bool { return specEntry_data(o.datas[i], ghostWalked.visits[i]) })
}

func specEntryName(name string) string {
	w := ghostWalked
	if w.prefix == nil {
		return specRel(w.dirname, name)
	}
	return specJoin(w.prefix.DirName, specRel(w.dirname, name))
}

func specMeta(got, h tar.Header) bool {
	return got.Mode == h.Mode && got.Typeflag == h.Typeflag && got.Size == h.Size && got.Devmajor == h.Devmajor && got.Devminor == h.Devminor
}

func specTimes(got, h tar.Header, clamp time.Time) bool {
	return specClamped(h.ModTime, clamp, got.ModTime) && specClamped(h.AccessTime, clamp, got.AccessTime) && specClamped(h.ChangeTime, clamp, got.ChangeTime)
}

func specClamped(t, clamp, got time.Time) bool {
	if t.After(clamp) {
		return got == clamp
	}
	return got == t
}

func specOwner(got, h tar.Header, chown *Ownership) bool {
	if chown == nil {
		return got.Uid == h.Uid && got.Gid == h.Gid && got.Uname == h.Uname && got.Gname == h.Gname
	}
	return (chown.UID >= 0 && got.Uid == chown.UID || chown.UID < 0 && got.Uid == h.Uid) &&
		(chown.GID >= 0 && got.Gid == chown.GID || chown.GID < 0 && got.Gid == h.Gid) &&
		(chown.UName != "" && got.Uname == chown.UName || chown.UName == "" && got.Uname == h.Uname) &&
		(chown.GName != "" && got.Gname == chown.GName || chown.GName == "" && got.Gname == h.Gname)
}

//gocv:contract C15 LayerFromDir use=DIR noreplay
func contract_LayerFromDir_entries(dirname string, prefix *Prefix, chown *Ownership, clamp time.Time, visits []ghostVisit) {
	requires(forall(0, len(visits), func(i int) bool { return specRel(dirname, visits[i].name) != "." }))
	ghostTarOut = &ghostOut{hdrs: map[int]tar.Header{}, datas: map[int]string{}}
	ghostOpen = &ghostFiles{names: map[*os.File]string{}}
	ghostWalked = &ghostWalk{dirname, prefix, chown, clamp, visits}
	_, err := LayerFromDir(dirname, prefix, chown, clamp)
	out := ghostTarOut
	ensures("one entry per file", implies(err == nil, out.n == len(visits)))
	if err == nil && out.n == len(visits) {
		ensures("entries are named relative to the directory, under the prefix", forall(0, len(visits), func(i int) bool { return specEntry_name(out.hdrs[i], visits[i]) }))
		ensures("entries have the mode, type, size and device of their file", forall(0, len(visits), func(i int) bool { return specEntry_meta(out.hdrs[i], visits[i]) }))
		ensures("symlinks have their target", forall(0, len(visits), func(i int) bool { return specEntry_link(out.hdrs[i], visits[i]) }))
		ensures("ownership overrides apply to every entry", forall(0, len(visits), func(i int) bool { return specEntry_owner(out.hdrs[i], visits[i]) }))
		ensures("times are clamped and earlier ones kept", forall(0, len(visits), func(i int) bool { return specEntry_times(out.hdrs[i], visits[i]) }))
		ensures("regular files have their content", forall(0, len(visits), func(i int) bool { return specEntry_data(out.datas[i], visits[i]) }))
	}
}

//gocv:contract C15 LayerFromDir use=DIR noreplay
func contract_LayerFromDir_self(dirname string, prefix *Prefix, chown *Ownership, clamp time.Time, info fs.FileInfo) {
	requires(specRel(dirname, dirname) == ".")
	ghostTarOut = &ghostOut{hdrs: map[int]tar.Header{}, datas: map[int]string{}}
	ghostOpen = &ghostFiles{names: map[*os.File]string{}}
	ghostWalked = &ghostWalk{dirname, prefix, chown, clamp, []ghostVisit{{dirname, info}}}
	_, err := LayerFromDir(dirname, prefix, chown, clamp)
	ensures("the directory itself is not an entry", implies(err == nil, ghostTarOut.n == 0))
}

//gocv:pure specDir
func specDir(p string) string { return path.Dir(p) }

//gocv:extern path.Dir DIR
func model_Dir(p string) string { return specDir(p) }

//gocv:pure specClean
func specClean(p string) string { return path.Clean(p) }

//gocv:extern path.Clean DIR
func model_Clean(p string) string { return specClean(p) }

func specRoot(d string) bool { return d == "." || d == "/" }

func specPrefixEntry(h tar.Header, prefix *Prefix, mode int, clamp time.Time) bool {
	return h.Typeflag == tar.TypeDir && h.Mode == int64(mode) && h.Uid == prefix.UID && h.Gid == prefix.GID && h.Uname == prefix.UName && h.Gname == prefix.GName && !h.ModTime.After(clamp)
}

//gocv:contract C15 LayerFromDir use=DIR,DIRPREFIX noreplay
func contract_LayerFromDir_prefix(dirname string, prefix *Prefix, chown *Ownership, clamp time.Time) {
	requires(prefix != nil)
	mode := prefix.Mode
	if mode == 0 {
		mode = 0o755
	}
	ghostTarOut = &ghostOut{hdrs: map[int]tar.Header{}, datas: map[int]string{}}
	ghostOpen = &ghostFiles{names: map[*os.File]string{}}
	ghostWalked = &ghostWalk{dirname, prefix, chown, clamp, nil}
	ghostMode = mode
	_, err := LayerFromDir(dirname, prefix, chown, clamp)
	b, n := ghostTarOut.before, ghostTarOut.nBefore
	if err == nil {
		ensures("a prefix that names a directory has entries", implies(!specRoot(specClean(prefix.DirName)), n > 0))
		if n > 0 {
			ensures("the last entry is the prefix itself", b[n-1].Name == specClean(prefix.DirName))
			ensures("the first entry is outermost", specRoot(specDir(b[0].Name)))
			ensures("prefix directories have the requested mode and owner", forall(0, n, func(i int) bool { return specPrefixEntry(b[i], prefix, mode, clamp) }))
		}
	}
}

var ghostMode int

//gocv:invariant LayerFromDir use=DIRPREFIX
func inv_dirs_chain(prefix *Prefix, dirs []string, dir string) bool {
	if len(dirs) == 0 {
		return dir == specClean(prefix.DirName)
	}
	return dirs[0] == specClean(prefix.DirName) && specDir(dirs[len(dirs)-1]) == dir &&
		forall(1, len(dirs), func(i int) bool { return dirs[i] == specDir(dirs[i-1]) })
}

//gocv:invariant LayerFromDir use=DIRPREFIX
func inv_written_n(dirs []string, i int) bool {
	return !ghostTarOut.walked && i >= -1 && ghostTarOut.n == len(dirs)-1-i
}

//gocv:invariant LayerFromDir use=DIRPREFIX
func inv_written_names(dirs []string, i int) bool {
	return forall(0, ghostTarOut.n, func(k int) bool {
		return len(dirs)-1-k >= 0 && ghostTarOut.hdrs[k].Name == dirs[len(dirs)-1-k]
	})
}

//gocv:invariant LayerFromDir use=DIRPREFIX
func inv_prefix_mode(prefix *Prefix, i int) bool { return prefix.Mode == ghostMode }

//gocv:invariant LayerFromDir use=DIRPREFIX
func inv_written_mode(prefix *Prefix, i int) bool {
	return forall(0, ghostTarOut.n, func(k int) bool {
		return ghostTarOut.hdrs[k].Typeflag == tar.TypeDir && ghostTarOut.hdrs[k].Mode == int64(ghostMode)
	})
}

//gocv:invariant LayerFromDir use=DIRPREFIX
func inv_written_ids(prefix *Prefix, i int) bool {
	return forall(0, ghostTarOut.n, func(k int) bool {
		return ghostTarOut.hdrs[k].Uid == prefix.UID && ghostTarOut.hdrs[k].Gid == prefix.GID
	})
}

//gocv:invariant LayerFromDir use=DIRPREFIX
func inv_written_owners(prefix *Prefix, i int) bool {
	return forall(0, ghostTarOut.n, func(k int) bool {
		return ghostTarOut.hdrs[k].Uname == prefix.UName && ghostTarOut.hdrs[k].Gname == prefix.GName
	})
}

//gocv:invariant LayerFromDir use=DIRPREFIX
func inv_written_time(clampTime time.Time, i int) bool {
	return forall(0, ghostTarOut.n, func(k int) bool { return !ghostTarOut.hdrs[k].ModTime.After(clampTime) })
}

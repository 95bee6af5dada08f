package squash

import (
	"archive/tar"
	"errors"
	"io"
	"io/fs"
	"path"
	"strings"
)

// ---- a path is walked part by part ----

//gocv:pure specStep
func specStep(dir *fsfile, child string) *fsfile { return nil }

// ghostWalk follows a walk.
type ghostWalk struct {
	start  *fsfile
	cur    *fsfile // where the walk is
	path   string
	n      int // steps made
	follow bool
	create bool
}

var ghostWalking *ghostWalk

//gocv:pure specN
func specN(s, sep string) int { return len(strings.Split(s, sep)) }

//gocv:pure specPart
func specPart(s, sep string, i int) string { return strings.Split(s, sep)[i] }

// specNaming: how many of the first i parts name something, and the k-th part that does.
//
//gocv:pure specNaming
func specNaming(s string, i int) int { return 0 }

//gocv:pure specNamed
func specNamed(s string, k int) string { return "" }

func specNames(part string) bool { return part != "" && part != "." }

func nondetStrings() []string { return nil }

//gocv:extern strings.Split WALK
func model_Split(s, sep string) []string {
	m := nondetStrings()
	n := specN(s, sep)
	assume(len(m) == n && n >= 1 && sep == "/")
	assume(forall(0, n, func(i int) bool { return m[i] == specPart(s, sep, i) }))
	// the definitions of specNaming and specNamed
	assume(specNaming(s, 0) == 0)
	assume(forall(0, n, func(i int) bool {
		if specNames(m[i]) {
			return specNaming(s, i+1) == specNaming(s, i)+1 && specNamed(s, specNaming(s, i)) == m[i]
		}
		return specNaming(s, i+1) == specNaming(s, i)
	}))
	return m
}

//gocv:pure specIsAbs
func specIsAbs(p string) bool { return path.IsAbs(p) }

//gocv:extern path.IsAbs WALK
func model_IsAbs(p string) bool { return specIsAbs(p) }

//gocv:extern (*github.com/datawire/ocibuild/pkg/squash.fsfile).getLinks WALK
func model_getLinks(f *fsfile, child string, create, followLinks bool, nLinks *int) (*fsfile, error) {
	g := ghostWalking
	n := specNaming(g.path, specN(g.path, "/"))
	if g.n == 0 {
		check("a walk starts where it is told, or at the root", specIsAbs(g.path) && f.parent == f || !specIsAbs(g.path) && f == g.start)
	} else {
		check("each step starts where the one before ended", f == g.cur)
	}
	check("each part that names something is walked, in order", g.n < n && child == specNamed(g.path, g.n) || n == 0 && g.n == 0 && child == ".")
	check("parts are looked up as asked", create == g.create)
	check("only a link in the last part may be left alone", followLinks == (g.follow && (g.n == n-1 || n == 0)))
	if nondetBool() {
		return nil, errGhost
	}
	r := specStep(f, child)
	assume(r != nil)
	g.cur = r
	g.n++
	return r, nil
}

//gocv:contract C17,C19 fsGet use=WALK noreplay
func contract_fsGet(dir *fsfile, pathname string, create, followLinks bool, tree map[*fsfile]bool) {
	ghostTree = tree
	// every file of the tree has a parent in the tree
	requires(dir != nil && specHasFile(ghostTree, dir))
	requires(forallKeyFile(ghostTree, func(f *fsfile) bool { return f != nil && f.parent != nil && specHasFile(ghostTree, f.parent) }))
	g := &ghostWalk{start: dir, path: pathname, follow: followLinks, create: create}
	ghostWalking = g
	r, err := fsGet(dir, pathname, create, followLinks)
	n := specNaming(pathname, specN(pathname, "/"))
	ensures("a file or an error", (r == nil) == (err != nil))
	ensures("all of the path is walked", implies(err == nil, r == g.cur && (g.n == n || n == 0 && g.n == 1)))
}

//gocv:invariant fsGetLinks loop=2/3 use=WALK
func inv_parts_n(pathname string, parts []string, n int) bool {
	return len(parts) == specNaming(pathname, n) && len(parts) >= 0
}

//gocv:invariant fsGetLinks loop=2/3 use=WALK
func inv_parts(pathname string, parts []string) bool {
	return forall(0, len(parts), func(k int) bool { return parts[k] == specNamed(pathname, k) })
}

//gocv:invariant fsGetLinks loop=3/3 use=WALK
func inv_steps(pathname string, dir *fsfile, n int) bool {
	g := ghostWalking
	return g.n == n && (n == 0 || dir == g.cur) && dir != nil
}

//gocv:invariant fsGetLinks loop=1/3 use=WALK
func inv_dir(pathname string, dir *fsfile) bool { return dir != nil && specHasFile(ghostTree, dir) }

//gocv:invariant fsGetLinks loop=3/3 use=WALK
func inv_start(pathname string, dir *fsfile, n int) bool {
	g := ghostWalking
	return g.n > 0 || specIsAbs(pathname) && dir.parent == dir || !specIsAbs(pathname) && dir == g.start
}

// the files of a tree
var ghostTree map[*fsfile]bool

func specHasFile(m map[*fsfile]bool, k *fsfile) bool {
	_, ok := m[k]
	return ok
}

func forallKeyFile(m map[*fsfile]bool, f func(k *fsfile) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

// ---- reading an open file ----

//gocv:contract C19 *fsfileReader.Read noreplay
func contract_Read(f *fsfileReader, n int) {
	requires(f != nil && f.tgt != nil && 0 <= n && 0 <= f.pos && f.pos <= len(f.tgt.body))
	buf := make([]byte, n)
	pos, body, closed := f.pos, string(f.tgt.body), f.closed
	dir := f.tgt.header == nil || f.tgt.header.Typeflag == tar.TypeDir
	missing := !dir && int64(len(f.tgt.body)) < f.tgt.header.Size
	k, err := f.Read(buf)
	ensures("reads fit the buffer", 0 <= k && k <= n)
	ensures("directories, missing content and closed handles give an error", implies(dir || missing || closed, k == 0 && err != nil))
	ensures("the end of the file is told at the end only", implies(err == io.EOF, pos == len(body) && !dir && !missing && !closed))
	if !dir && !missing && !closed {
		ensures("at the end there is the end-of-file error", implies(pos == len(body), k == 0 && err == io.EOF))
		ensures("before the end there is no error", implies(pos < len(body), err == nil))
		ensures("reading goes on unless the buffer is empty", implies(pos < len(body) && n > 0, k > 0))
		ensures("the content is read in sequence", k <= len(body)-pos && string(buf[:k]) == body[pos:pos+k])
	}
	ensures("the position moves past what was read", f.pos == pos+k && f.closed == closed)
}

//gocv:contract C19 *fsfileReader.Close noreplay
func contract_Close(f *fsfileReader) {
	requires(f != nil)
	closed := f.closed
	err := f.Close()
	ensures("a handle is closed once", f.closed && (err != nil) == closed)
}

func identicalEnts(a, b fs.DirEntry) bool { return false }

//gocv:extern (*github.com/datawire/ocibuild/pkg/squash.fsfile).Get LIST
func model_listGet(f *fsfile, child string, create, followLinks bool) (*fsfile, error) {
	check("listing does not change the tree", !create)
	if nondetBool() {
		return nil, errGhost
	}
	return new(fsfile), nil
}

//gocv:contract C19 *fsfileReader.ReadDir use=LIST noreplay
func contract_ReadDir_next(f *fsfileReader, n int) {
	requires(f != nil && f.tgt != nil && f.dirents != nil && 0 <= f.pos && f.pos <= len(f.dirents))
	pos, all, closed := f.pos, f.dirents, f.closed
	dir := f.tgt.header == nil || f.tgt.header.Typeflag == tar.TypeDir
	es, err := f.ReadDir(n)
	ensures("files and closed handles give an error", implies(!dir || closed, len(es) == 0 && err != nil && f.pos == pos))
	if dir && !closed {
		ensures("the entries are handed out in sequence", f.pos == pos+len(es) && f.pos <= len(all) && forall(0, len(es), func(i int) bool { return identicalEnts(es[i], all[pos+i]) }))
		ensures("no more entries than asked for", implies(n > 0, len(es) <= n))
		ensures("all of them when asked", implies(n <= 0, f.pos == len(all) && err == nil))
		ensures("the end is told at the end only", implies(n > 0, (err == io.EOF) == (pos == len(all)) && (err == nil) == (pos < len(all)) && implies(err == nil, len(es) > 0)))
	}
}

var _ = errors.Is

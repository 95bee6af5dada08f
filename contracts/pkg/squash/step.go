package squash

import (
	"archive/tar"
	"errors"
	"io/fs"
)

// ---- one step of a walk ----

//gocv:pure specTarget
func specTarget(dir *fsfile, link string) *fsfile { return nil }

type ghostStep struct {
	at     *fsfile // what is found before links are followed, if it is known
	links  int     // how many links were followed
	create bool
	opq    *fsfile
	opqSet bool
}

var ghostStepping *ghostStep

// Following a link leads somewhere, or not.
//
//gocv:extern github.com/datawire/ocibuild/pkg/squash.fsGetLinks STEP
func model_fsGetLinks(dir *fsfile, pathname string, create, followLinks bool, nLinks *int) (*fsfile, error) {
	check("links are followed as the rest of the path", create == ghostStepping.create)
	ghostStepping.links++
	if nondetBool() {
		return nil, errGhost
	}
	r := specTarget(dir, pathname)
	assume(r != nil && r.parent != nil)
	assume(implies(followLinks, !specIsLink(r)))
	return r, nil
}

func specIsLink(f *fsfile) bool { return f.header != nil && f.header.Typeflag == tar.TypeSymlink }

//gocv:extern path.Join STEP
func model_stepJoin(elem ...string) string { return specJoin(elem[0], elem[1]) }

//gocv:extern (*github.com/datawire/ocibuild/pkg/squash.fsfile).Get STEP
func model_stepGet(f *fsfile, child string, create, followLinks bool) (*fsfile, error) {
	check("what a file hid is whited out", child == specOpq && create && specIsDir(f.header))
	if nondetBool() {
		return nil, errGhost
	}
	ghostStepping.opq = new(fsfile)
	return ghostStepping.opq, nil
}

//gocv:extern (*github.com/datawire/ocibuild/pkg/squash.fsfile).Set STEP
func model_stepSet(f *fsfile, hdr *tar.Header, body []byte) error {
	check("the marker is a file", f == ghostStepping.opq && hdr.Typeflag == tar.TypeReg)
	if nondetBool() {
		return errGhost
	}
	ghostStepping.opqSet = true
	return nil
}

func specPlain(child string) bool { return child != "." && child != ".." }

func specErr(err, is error) bool {
	pe, ok := err.(*fs.PathError)
	return ok && pe != nil && errors.Is(pe.Err, is)
}

//gocv:contract C19,C17 *fsfile.getLinks use=STEP noreplay
func contract_getLinks_look(f *fsfile, child string, links int, old map[string]*fsfile) {
	requires(f != nil && f.parent != nil && !specIsLink(f))
	requires(old != nil && !identicalMaps(old, f.children) && specUntouched(f.children, old, specNone))
	requires(forallKeyChildren(f.children, func(k string) bool { return f.children[k] != nil }))
	ghostStepping = &ghostStep{}
	hdr, dir := f.header, specIsDir(f.header)
	r, err := f.getLinks(child, false, false, &links)
	ensures("a file or an error", (r == nil) == (err != nil))
	ensures("the directory itself", implies(child == ".", r == f))
	ensures("its parent", implies(child == ".." && dir, r == f.parent))
	if specPlain(child) && dir {
		ensures("what is there is found", implies(specHas(old, child), r == old[child] && err == nil))
		ensures("what is not there does not exist", implies(!specHas(old, child), r == nil && specErr(err, fs.ErrNotExist)))
	}
	ensures("a file has nothing in it, and no parent to go to", implies(child != "." && !dir, r == nil && err != nil))
	ensures("looking changes nothing", f.header == hdr && specUntouched(f.children, old, specNone))
}

//gocv:contract C19 *fsfile.getLinks use=STEP noreplay
func contract_getLinks_through(f *fsfile, child string, links int) {
	requires(f != nil && f.parent != nil && specIsLink(f) && specPlain(child))
	to := specTarget(f.parent, f.header.Linkname)
	requires(to != nil && !specIsLink(to))
	requires(forallKeyChildren(to.children, func(k string) bool { return to.children[k] != nil }))
	want, has, dir := to.children[child], specHas(to.children, child), specIsDir(to.header)
	ghostStepping = &ghostStep{}
	r, err := f.getLinks(child, false, false, &links)
	ensures("what is under a link is what is under its target", implies(err == nil, dir && has && r == want))
	ensures("a file or an error", (r == nil) == (err != nil))
}

//gocv:invariant *fsfile.getLinks use=STEP
func inv_links(ret *fsfile) bool {
	n, at := ghostStepping.links, ghostStepping.at
	if at == nil {
		return true
	}
	if n == 0 {
		return ret == at
	}
	if !specIsLink(at) || at.parent == nil {
		return false
	}
	t := specTarget(at.parent, at.header.Linkname)
	return t == nil || specIsLink(t) || n == 1 && ret == t
}

//gocv:contract C19 *fsfile.getLinks use=STEP noreplay
func contract_getLinks_plain(f *fsfile, child string, links int) {
	requires(f != nil && f.parent != nil && !specIsLink(f) && specIsDir(f.header) && specPlain(child) && specHas(f.children, child))
	c := f.children[child]
	requires(c != nil && c.parent != nil && !specIsLink(c))
	ghostStepping = &ghostStep{at: c}
	r, err := f.getLinks(child, false, true, &links)
	ensures("what is not a link is itself", r == c && err == nil)
}

//gocv:contract C19 *fsfile.getLinks use=STEP noreplay
func contract_getLinks_follow(f *fsfile, child string, links int) {
	requires(f != nil && f.parent != nil && !specIsLink(f) && specIsDir(f.header) && specPlain(child) && specHas(f.children, child))
	c := f.children[child]
	requires(c != nil && c.parent != nil && specIsLink(c))
	t := specTarget(c.parent, c.header.Linkname)
	requires(t != nil && !specIsLink(t))
	ghostStepping = &ghostStep{at: c}
	r, err := f.getLinks(child, false, true, &links)
	ensures("a link leads where it points", implies(err == nil, r == t))
	ensures("a file or an error", (r == nil) == (err != nil))
}

//gocv:contract C17,C18 *fsfile.getLinks use=STEP noreplay
func contract_getLinks_make(f *fsfile, child string, links int, old map[string]*fsfile) {
	requires(f != nil && f.parent != nil && !specIsLink(f) && specPlain(child))
	requires(old != nil && !identicalMaps(old, f.children) && specUntouched(f.children, old, specNone))
	requires(forallKeyChildren(f.children, func(k string) bool { return f.children[k] != nil }))
	ghostStepping = &ghostStep{create: true}
	hdr, dir := f.header, specIsDir(f.header)
	r, err := f.getLinks(child, true, false, &links)
	if dir {
		ensures("a place for the entry is found or made", err == nil && r != nil && f.children[child] == r)
		ensures("what is there is kept", implies(specHas(old, child), r == old[child]))
		ensures("what is made knows its path", implies(!specHas(old, child), r.name == specJoin(f.name, child) && r.parent == f && r.header == nil))
		ensures("nothing else changes", f.header == hdr && specUntouched(f.children, old, func(k string) bool { return k == child }))
	} else {
		ensures("a file with something under it becomes a directory that hides what the file hid", implies(err == nil, f.header == nil && f.body == nil && ghostStepping.opqSet && r != nil && f.children[child] == r))
	}
}

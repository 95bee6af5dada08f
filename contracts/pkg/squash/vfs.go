package squash

import (
	"archive/tar"
	"path"
	"strings"
)

// ---- what putting an entry on a path does to the tree ----

//gocv:pure specBase
func specBase(p string) string { return path.Base(p) }

//gocv:extern path.Base SET
func model_Base(p string) string { return specBase(p) }

//gocv:pure specJoin
func specJoin(a, b string) string { return path.Join(a, b) }

//gocv:extern path.Join SET
func model_Join(elem ...string) string { return specJoin(elem[0], elem[1]) }

func identicalMaps(a, b map[string]*fsfile) bool { return false }

func identicalBytes(a, b []byte) bool { return false }

// specUntouched: the map has the entries it had, but possibly for those except tells.
func specUntouched(m, old map[string]*fsfile, except func(k string) bool) bool {
	return forallKeyChildren(m, func(k string) bool { return except(k) || specHas(old, k) && old[k] == m[k] }) &&
		forallKeyChildren(old, func(k string) bool { return except(k) || specHas(m, k) })
}

func forallKeyChildren(m map[string]*fsfile, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func specHas(m map[string]*fsfile, k string) bool {
	_, ok := m[k]
	return ok
}

const specOpq = ".wh..wh..opq"

func specWhiteout(k string) bool { return strings.HasPrefix(k, ".wh.") }

func specNone(k string) bool { return false }

// specPut: f is a file of a tree, old what its siblings (and itself) are.
func specPut(f *fsfile, old map[string]*fsfile) bool {
	return f != nil && f.parent != nil && f.parent != f && f.parent.children != nil && old != nil && !identicalMaps(old, f.parent.children) &&
		!identicalMaps(f.children, f.parent.children) && !identicalMaps(f.children, old) && f.parent.children[specBase(f.name)] == f &&
		specUntouched(f.parent.children, old, specNone)
}

func specIsDir(h *tar.Header) bool { return h == nil || h.Typeflag == tar.TypeDir }

//gocv:contract C17,C18,C19 *fsfile.Set use=SET noreplay
func contract_Set_file(f *fsfile, hdr *tar.Header, body []byte, old map[string]*fsfile) {
	requires(specPut(f, old) && hdr != nil && hdr != f.header && hdr.Typeflag != tar.TypeDir && !specWhiteout(specBase(f.name)))
	h := *hdr
	base, par := specBase(f.name), f.parent
	err := f.Set(hdr, body)
	ensures("no error", err == nil)
	ensures("the entry has the header and content", f.header != nil && identicalHeaders(*f.header, h) && identicalBytes(f.body, body))
	ensures("what was under a directory that became a file is gone", len(f.children) == 0)
	ensures("the siblings are as they were, but for a whiteout of the name", f.parent == par && specUntouched(par.children, old, func(k string) bool { return k == ".wh."+base }))
	ensures("a file replaces the whiteout of its name", !specHas(par.children, ".wh."+base))
}

func identicalHeaders(a, b tar.Header) bool { return false }

//gocv:contract C17 *fsfile.Set use=SET noreplay
func contract_Set_dir(f *fsfile, hdr *tar.Header, body []byte, old map[string]*fsfile) {
	requires(specPut(f, old) && hdr != nil && hdr != f.header && hdr.Typeflag == tar.TypeDir && specIsDir(f.header) && !specWhiteout(specBase(f.name)))
	h := *hdr
	n, children, par := len(f.children), f.children, f.parent
	err := f.Set(hdr, body)
	ensures("no error", err == nil)
	ensures("the entry has the header and content", f.header != nil && identicalHeaders(*f.header, h) && identicalBytes(f.body, body))
	ensures("a directory keeps what is under it", identicalMaps(f.children, children) && len(f.children) == n)
	ensures("the siblings are as they were, also a whiteout of the name", f.parent == par && specUntouched(par.children, old, specNone))
}

//gocv:contract C17 *fsfile.Set use=SET noreplay
func contract_Set_whiteout(f *fsfile, hdr *tar.Header, body []byte, old map[string]*fsfile) {
	requires(specPut(f, old))
	base, par := specBase(f.name), f.parent
	requires(hdr != nil && hdr != f.header && hdr.Typeflag != tar.TypeDir && specWhiteout(base) && base != specOpq)
	err := f.Set(hdr, body)
	ensures("no error", err == nil)
	ensures("a whiteout removes the file it names", !specHas(par.children, base[len(".wh."):]))
	ensures("and nothing else", specUntouched(par.children, old, func(k string) bool { return k == base[len(".wh."):] }))
}

//gocv:contract C17 *fsfile.Set use=SET noreplay
func contract_Set_opaque(f *fsfile, hdr *tar.Header, body []byte, old map[string]*fsfile) {
	requires(specPut(f, old))
	base, par := specBase(f.name), f.parent
	requires(hdr != nil && hdr != f.header && hdr.Typeflag != tar.TypeDir && base == specOpq)
	err := f.Set(hdr, body)
	ensures("no error", err == nil)
	ensures("an opaque whiteout removes everything else in its directory", forallKeyChildren(par.children, func(k string) bool { return k == base }))
	ensures("it stays itself", par.children[base] == f && f.parent == par)
}

//gocv:invariant *fsfile.Set use=SET
func inv_opaque(f *fsfile, basename string) bool {
	return f.parent.children[basename] == f && forallKeyChildren(f.parent.children, func(k string) bool { return k == basename || !visitedKeyStr(k) })
}

func visitedKeyStr(k string) bool { return false }

// Looking up a name directly under a directory, as contract_getLinks_* say.
//
//gocv:extern (*github.com/datawire/ocibuild/pkg/squash.fsfile).Get SET
func model_Get(f *fsfile, child string, create, followLinks bool) (*fsfile, error) {
	check("only names directly under a directory are looked up", specIsDir(f.header) && child == specOpq && create)
	if f.children == nil {
		f.children = make(map[string]*fsfile)
	}
	if _, ok := f.children[child]; !ok {
		f.children[child] = &fsfile{name: specJoin(f.name, child), parent: f}
	}
	return f.children[child], nil
}

//gocv:contract C17 *fsfile.Set use=SET noreplay
func contract_Set_replace(f *fsfile, hdr *tar.Header, body []byte, old map[string]*fsfile) {
	requires(specPut(f, old) && hdr != nil && hdr != f.header && hdr.Typeflag == tar.TypeDir && !specIsDir(f.header) && f.children == nil && !specWhiteout(specBase(f.name)))
	requires(specBase(specJoin(f.name, specOpq)) == specOpq) // how path.Join and path.Base are
	h := *hdr
	par := f.parent
	err := f.Set(hdr, body)
	ensures("no error", err == nil)
	ensures("the entry has the header and content", f.header != nil && identicalHeaders(*f.header, h) && identicalBytes(f.body, body))
	wh := f.children[specOpq]
	ensures("a directory in place of a file hides the directory the file hid", wh != nil && wh.header != nil && wh.header.Typeflag == tar.TypeReg && len(wh.body) == 0 && wh.name == specJoin(f.name, specOpq))
	ensures("and has nothing else", forallKeyChildren(f.children, func(k string) bool { return k == specOpq }))
	ensures("the siblings are as they were", f.parent == par && specUntouched(par.children, old, specNone))
}

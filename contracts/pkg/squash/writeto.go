package squash

import (
	"archive/tar"
	"strings"
)

// ---- WriteTo: what is written for a file or directory, and in which order ----

type ghostWrite struct {
	f      *fsfile
	hdr    tar.Header // the file's header before
	body   []byte     // its content before
	step   int        // 0: nothing; 1: its header; 2: its content; 3: children
	names  []string   // its children's names, in order
	sorted bool
	n      int // children written
}

var ghostWriting *ghostWrite

//gocv:extern (*archive/tar.Writer).WriteHeader WRITE
func model_WriteHeader(tw *tar.Writer, hdr *tar.Header) error {
	g := ghostWriting
	check("the entry comes first and once", g.step == 0 && g.f.header != nil)
	h := g.hdr
	h.Name = g.f.name
	if h.Typeflag == tar.TypeDir {
		h.Name = g.f.name + "/"
	}
	check("the entry has the file's metadata, under its path", identicalHeaders(*hdr, h))
	if nondetBool() {
		return errGhost
	}
	g.step = 1
	return nil
}

//gocv:extern (*archive/tar.Writer).Write WRITE
func model_Write(tw *tar.Writer, body []byte) (int, error) {
	g := ghostWriting
	check("the content follows the entry", g.step == 1 && identicalBytes(body, g.body))
	if nondetBool() {
		return 0, errGhost
	}
	g.step = 2
	return len(body), nil
}

// Sorting permutes the list so that less orders it: as maps are iterated in any order, the list stands
// for its sorted permutation, and the less function is judged at arbitrary positions.
//
//gocv:extern sort.Slice WRITE
func model_sortSlice(x interface{}, less func(i, j int) bool) {
	g := ghostWriting
	names := x.([]string)
	check("every child is listed", forallKeyChildren(g.f.children, func(k string) bool { return specIn(names, len(names), k) }))
	check("each once", forall(0, len(names), func(i int) bool {
		return specHas(g.f.children, names[i]) && forall(0, i, func(j int) bool { return names[i] != names[j] })
	}))
	i, j := nondetInt(), nondetInt()
	if 0 <= i && i < len(names) && 0 <= j && j < len(names) {
		check("whiteouts come first, the opaque one before all, siblings in byte order", less(i, j) == specSibling(names[i], names[j]))
	}
	g.names = names
	g.sorted = true
}

func specDone(g *ghostWrite) bool {
	return g.step == 2 || g.step == 1 && len(g.body) == 0
}

func specIn(names []string, n int, k string) bool {
	return exists(0, n, func(i int) bool { return names[i] == k })
}

func specSibling(a, b string) bool {
	if specWhiteout(a) != specWhiteout(b) {
		return specWhiteout(a)
	}
	if a == ".wh..wh..opq" || b == ".wh..wh..opq" {
		return a != b && a == ".wh..wh..opq"
	}
	return a < b
}

//gocv:lemma C18
func contract_sibling_total(a, b string) {
	ensures("one of two siblings comes first", a == b || specSibling(a, b) != specSibling(b, a))
}

//gocv:lemma C18
func contract_sibling_transitive(a, b, c string) {
	ensures("the sibling order is an order", implies(specSibling(a, b) && specSibling(b, c), specSibling(a, c)) && !specSibling(a, a))
}

//gocv:extern (*github.com/datawire/ocibuild/pkg/squash.fsfile).WriteTo WRITE
func model_WriteTo(f *fsfile, tarWriter *tar.Writer) error {
	g := ghostWriting
	check("a directory's entry comes before what is in it", g.f.header == nil || specDone(g))
	check("the children are written in order, each once", g.sorted && 0 <= g.n && g.n < len(g.names) && f == g.f.children[g.names[g.n]])
	if nondetBool() {
		return errGhost
	}
	g.n++
	return nil
}

//gocv:contract C17,C18 *fsfile.WriteTo use=WRITE noreplay
func contract_WriteTo(f *fsfile, tw *tar.Writer) {
	requires(f != nil)
	g := &ghostWrite{f: f, body: f.body}
	if f.header != nil {
		g.hdr = *f.header
	}
	requires(forallKeyChildren(f.children, func(k string) bool { return f.children[k] != nil }))
	ghostWriting = g
	err := f.WriteTo(tw)
	if err == nil {
		ensures("what is known of the file is written", f.header == nil || specDone(g))
		ensures("all of its children are written", g.sorted && g.n == len(g.names))
	}
	ensures("the tree is not changed", f.header == nil || identicalHeaders(*f.header, g.hdr))
}

//gocv:invariant *fsfile.WriteTo use=WRITE
func inv_names_listed(f *fsfile, childNames []string) bool {
	return forallKeyChildren(f.children, func(k string) bool { return !visitedKeyStr(k) || specIn(childNames, len(childNames), k) })
}

//gocv:invariant *fsfile.WriteTo use=WRITE
func inv_names_visited(f *fsfile, childNames []string) bool {
	return forall(0, len(childNames), func(i int) bool { return visitedKeyStr(childNames[i]) && specHas(f.children, childNames[i]) })
}

//gocv:invariant *fsfile.WriteTo use=WRITE
func inv_names_once(f *fsfile, childNames []string) bool {
	return forall(0, len(childNames), func(i int) bool { return forall(0, i, func(j int) bool { return childNames[i] != childNames[j] }) })
}

//gocv:invariant *fsfile.WriteTo use=WRITE
func inv_written(f *fsfile, n int) bool {
	g := ghostWriting
	return g.n == n
}

var _ = strings.HasPrefix

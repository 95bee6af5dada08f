package squash

import (
	"archive/tar"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
)

// ---- loadLayers: which entries are put in the tree, and in which order ----

// ghostLoad follows what is put in the tree and checks that it is what comes next: the layers from the
// lowest to the uppermost, of each layer first the whiteouts and then the files, in their order.
type ghostLoad struct {
	layers []ociv1.Layer
	parsed int      // layers parsed so far
	layer  *layerFS // the last of them
	put    int      // entries of it that were put in the tree
	root   *fsfile
	cur    *fsfile // where the next entry goes
	curN   string
	omit   bool
}

var ghostLoading *ghostLoad

func identicalLayers(a, b ociv1.Layer) bool { return false }

func nondetLayerFS() *layerFS { return nil }

func specComplete(g *ghostLoad) bool {
	return g.parsed == 0 || g.layer != nil && g.put == len(g.layer.WhiteoutMarkers)+len(g.layer.Files)
}

//gocv:extern github.com/datawire/ocibuild/pkg/squash.parseLayer LOAD
func model_parseLayer(layer ociv1.Layer, omitContent bool) (*layerFS, error) {
	g := ghostLoading
	check("all of a layer is applied before the next", specComplete(g))
	check("layers are applied from the lowest to the uppermost, each once", g.parsed < len(g.layers) && identicalLayers(g.layers[g.parsed], layer))
	check("content is omitted when asked", omitContent == g.omit)
	if nondetBool() {
		return nil, errGhost
	}
	l := nondetLayerFS()
	assume(l != nil)
	assume(forall(0, len(l.Files), func(i int) bool { return l.Files[i].Header != nil }))
	assume(forall(0, len(l.WhiteoutMarkers), func(i int) bool { return l.WhiteoutMarkers[i].Header != nil }))
	g.parsed++
	g.layer, g.put = l, 0
	return l, nil
}

//gocv:extern github.com/datawire/ocibuild/pkg/squash.fsGet LOAD
func model_fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, error) {
	g := ghostLoading
	check("entries are put below one root, as themselves", create && !followLinks && dir.parent == dir && dir.name == "." && (g.root == nil || g.root == dir))
	if nondetBool() {
		return nil, errGhost
	}
	g.root = dir
	g.cur = new(fsfile)
	g.curN = pathname
	return g.cur, nil
}

func specNext(g *ghostLoad) fileEntry {
	if g.put < len(g.layer.WhiteoutMarkers) {
		return g.layer.WhiteoutMarkers[g.put]
	}
	return g.layer.Files[g.put-len(g.layer.WhiteoutMarkers)]
}

//gocv:extern (*github.com/datawire/ocibuild/pkg/squash.fsfile).Set LOAD
func model_Set(f *fsfile, hdr *tar.Header, body []byte) error {
	g := ghostLoading
	check("only entries of the layer are put in the tree", g.layer != nil && 0 <= g.put && g.put < len(g.layer.WhiteoutMarkers)+len(g.layer.Files))
	e := specNext(g)
	check("the next entry is put in the tree: whiteouts before files, each in order", hdr == e.Header && identicalBytes(body, e.Body))
	check("an entry is put where its name says", f == g.cur && hdr.Name == g.curN)
	if nondetBool() {
		return errGhost
	}
	g.put++
	return nil
}

//gocv:contract C17,C18,C19 loadLayers use=LOAD noreplay
func contract_loadLayers(layers []ociv1.Layer, omit bool) {
	g := &ghostLoad{layers: layers, omit: omit}
	ghostLoading = g
	root, err := loadLayers(layers, omit)
	if err == nil {
		ensures("every layer is applied, completely", g.parsed == len(layers) && specComplete(g))
		ensures("the tree is the one the entries were put in", root != nil && root.name == "." && root.parent == root && (g.root == nil || g.root == root))
	}
}

//gocv:invariant loadLayers use=LOAD
func inv_load_root(layers []ociv1.Layer, root *fsfile) bool {
	g := ghostLoading
	return g.root == nil || g.root == root
}

//gocv:invariant loadLayers depth=1 use=LOAD
func inv_load_layers(layers []ociv1.Layer, n1 int) bool {
	g := ghostLoading
	return g.parsed == n1 && specComplete(g)
}

//gocv:invariant loadLayers depth=2 use=LOAD
func inv_load_parsed(layers []ociv1.Layer, n1 int, layerFS *layerFS) bool {
	g := ghostLoading
	return g.parsed == n1 && g.layer == layerFS
}

//gocv:invariant loadLayers depth=2 use=LOAD
func inv_load_whs(layers []ociv1.Layer, n2 int) bool { return ghostLoading.put == n2 }

//gocv:invariant loadLayers depth=2 use=LOAD
func inv_load_files(layers []ociv1.Layer, n2 int) bool {
	g := ghostLoading
	return g.put == len(g.layer.WhiteoutMarkers)+n2
}

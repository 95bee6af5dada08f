package fsutil

import (
	"archive/tar"
	"errors"
	"io"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1types "github.com/google/go-containerregistry/pkg/v1/types"
)

// ---- LayersEqualExceptTimestamps over layers with any number of entries ----

// ghostLayer stands for any layer: entries, after which reading ends or fails.
type ghostLayer struct {
	entries []ghostEntry
	broken  bool // reading fails after the last entry
	badOpen bool // Uncompressed fails
}

type ghostEntry struct {
	hdr  tar.Header
	data string
	bad  bool // reading the content fails
}

func (l *ghostLayer) Digest() (ociv1.Hash, error)              { return ociv1.Hash{}, errGhost }
func (l *ghostLayer) DiffID() (ociv1.Hash, error)              { return ociv1.Hash{}, errGhost }
func (l *ghostLayer) Compressed() (io.ReadCloser, error)       { return nil, errGhost }
func (l *ghostLayer) Size() (int64, error)                     { return 0, errGhost }
func (l *ghostLayer) MediaType() (ociv1types.MediaType, error) { return "", errGhost }
func (l *ghostLayer) Uncompressed() (io.ReadCloser, error) {
	if l.badOpen {
		return nil, errGhost
	}
	return &ghostRC{l, 0}, nil
}

var errGhost = errors.New("ghost")

type ghostRC struct {
	l   *ghostLayer
	pos int // entries handed out
}

func (r *ghostRC) Read(p []byte) (int, error) { return 0, errGhost }
func (r *ghostRC) Close() error               { return nil }

var ghostTars map[*tar.Reader]*ghostRC

//gocv:extern archive/tar.NewReader LAYER
func model_tarNewReader(r io.Reader) *tar.Reader {
	ret := new(tar.Reader)
	ghostTars[ret] = r.(*ghostRC)
	return ret
}

//gocv:extern (*archive/tar.Reader).Next LAYER
func model_tarNext(tr *tar.Reader) (*tar.Header, error) {
	g := ghostTars[tr]
	if g.pos == len(g.l.entries) {
		if g.l.broken {
			return nil, errGhost
		}
		return nil, io.EOF
	}
	h := g.l.entries[g.pos].hdr
	g.pos++
	return &h, nil
}

// Comparing contents and headers: as their own contracts say.
//
//gocv:extern github.com/datawire/ocibuild/pkg/fsutil.readersEqual LAYER
func model_readersEqual(a, b io.Reader) (bool, error) {
	ga, gb := ghostTars[a.(*tar.Reader)], ghostTars[b.(*tar.Reader)]
	ea, eb := ga.l.entries[ga.pos-1], gb.l.entries[gb.pos-1]
	if ea.bad || eb.bad {
		return false, errGhost
	}
	return ea.data == eb.data, nil
}

//gocv:pure specHeadersSame
func specHeadersSame(a, b tar.Header) bool { return specHeaders(a, b) }

//gocv:extern github.com/datawire/ocibuild/pkg/fsutil.headersEqualExceptTimestamps LAYER
func model_headersEqual(a, b tar.Header) bool { return specHeadersSame(a, b) }

func specEntriesEqual(a, b *ghostLayer, n int) bool {
	return forall(0, n, func(i int) bool {
		return i < len(a.entries) && i < len(b.entries) && specHeadersSame(a.entries[i].hdr, b.entries[i].hdr) && a.entries[i].data == b.entries[i].data && !a.entries[i].bad && !b.entries[i].bad
	})
}

//gocv:contract C16 LayersEqualExceptTimestamps use=LAYER noreplay
func contract_LayersEqual(a, b *ghostLayer) {
	requires(a != nil && b != nil)
	ghostTars = map[*tar.Reader]*ghostRC{}
	na, nb := len(a.entries), len(b.entries)
	eq, err := LayersEqualExceptTimestamps(a, b)
	ensures("reported equal: same number of entries", implies(eq, na == nb))
	ensures("reported equal: equal entries, read without error", implies(eq, specEntriesEqual(a, b, na)))
	ensures("no error is hidden", implies(eq, err == nil && !a.broken && !b.broken && !a.badOpen && !b.badOpen))
	ensures("equal layers are reported equal", implies(na == nb && specEntriesEqual(a, b, na) && !a.broken && !b.broken && !a.badOpen && !b.badOpen, eq && err == nil))
}

//gocv:invariant LayersEqualExceptTimestamps use=LAYER
func inv_LayersEqual(aTarReader, bTarReader *tar.Reader) bool {
	ga, gb := ghostTars[aTarReader], ghostTars[bTarReader]
	return 0 <= ga.pos && ga.pos == gb.pos && ga.pos <= len(ga.l.entries) && gb.pos <= len(gb.l.entries) && specEntriesEqual(ga.l, gb.l, ga.pos)
}

var _ ociv1.Layer = (*ghostLayer)(nil)

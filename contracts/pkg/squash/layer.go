package squash

import (
	"archive/tar"
	"errors"
	"io"
	"path"
	"strings"

	ociv1 "github.com/google/go-containerregistry/pkg/v1"
	ociv1types "github.com/google/go-containerregistry/pkg/v1/types"
)

// ---- parseLayer over any layer ----

var errGhost = errors.New("ghost")

func nondetBool() bool     { return false }
func nondetInt() int       { return 0 }
func nondetString() string { return "" }

// ghostLayer stands for any layer: entries, after which reading ends or fails.
type ghostLayer struct {
	entries []ghostEntry
	broken  bool // reading fails after the last entry
	badOpen bool // Uncompressed fails
	pos     int  // entries handed out
}

type ghostEntry struct {
	hdr  tar.Header
	data []byte
	bad  bool // reading the content fails
}

func (l *ghostLayer) Digest() (ociv1.Hash, error)              { return ociv1.Hash{}, errGhost }
func (l *ghostLayer) DiffID() (ociv1.Hash, error)              { return ociv1.Hash{}, errGhost }
func (l *ghostLayer) Compressed() (io.ReadCloser, error)       { return nil, errGhost }
func (l *ghostLayer) Size() (int64, error)                     { return 0, errGhost }
func (l *ghostLayer) MediaType() (ociv1types.MediaType, error) { return "", errGhost }
func (l *ghostLayer) Uncompressed() (io.ReadCloser, error) {
	if l.badOpen {
		return nil, errGhost
	}
	l.pos = 0
	return &ghostRC{l}, nil
}

type ghostRC struct{ l *ghostLayer }

func (r *ghostRC) Read(p []byte) (int, error) { return 0, errGhost }
func (r *ghostRC) Close() error               { return nil }

var ghostTar *ghostLayer

//gocv:extern archive/tar.NewReader PARSE
func model_tarNewReader(r io.Reader) *tar.Reader {
	ghostTar = r.(*ghostRC).l
	return new(tar.Reader)
}

// specFilesBefore: how many of the first n entries are not whiteouts; defined step by step in Next.
//
//gocv:pure specFilesBefore
func specFilesBefore(l *ghostLayer, n int) int { return 0 }

//gocv:pure specWhiteoutsBefore
func specWhiteoutsBefore(l *ghostLayer, n int) int { return 0 }

//gocv:extern (*archive/tar.Reader).Next PARSE
func model_tarNext(tr *tar.Reader) (*tar.Header, error) {
	l := ghostTar
	assume(specFilesBefore(l, 0) == 0 && specWhiteoutsBefore(l, 0) == 0)
	if l.pos == len(l.entries) {
		if l.broken {
			return nil, errGhost
		}
		return nil, io.EOF
	}
	h := l.entries[l.pos].hdr
	l.pos++
	if specIsWhiteout(h.Name) {
		assume(specFilesBefore(l, l.pos) == specFilesBefore(l, l.pos-1) && specWhiteoutsBefore(l, l.pos) == specWhiteoutsBefore(l, l.pos-1)+1)
	} else {
		assume(specFilesBefore(l, l.pos) == specFilesBefore(l, l.pos-1)+1 && specWhiteoutsBefore(l, l.pos) == specWhiteoutsBefore(l, l.pos-1))
	}
	return &h, nil
}

func specIsWhiteout(name string) bool {
	return strings.HasPrefix(specBase(specClean(name)), ".wh.")
}

//gocv:pure specClean
func specClean(p string) string { return path.Clean(p) }

//gocv:extern path.Clean PARSE
func model_Clean(p string) string { return specClean(p) }

//gocv:extern path.Base PARSE
func model_parseBase(p string) string { return specBase(p) }

//gocv:extern io.ReadAll PARSE
func model_ReadAll(r io.Reader) ([]byte, error) {
	e := ghostTar.entries[ghostTar.pos-1]
	if e.bad {
		return nil, errGhost
	}
	return e.data, nil
}

//gocv:extern io.Copy PARSE
func model_Copy(dst io.Writer, src io.Reader) (int64, error) {
	e := ghostTar.entries[ghostTar.pos-1]
	if e.bad {
		return 0, errGhost
	}
	return int64(len(e.data)), nil
}

func specOutside(name string) bool {
	n := specClean(name)
	return strings.HasPrefix(n, "/") || strings.HasPrefix(n, "../") || n == ".."
}

// specParsed: got is what the entry says, under its clean name.
func specParsed(got fileEntry, e ghostEntry, omit bool) bool {
	h := e.hdr
	h.Name = specClean(h.Name)
	return got.Header != nil && identicalHeaders(*got.Header, h) && (omit || identicalBytes(got.Body, e.data))
}

func specParsedFiles(l *ghostLayer, files []fileEntry, n int, omit bool) bool {
	return forall(0, n, func(i int) bool {
		return specIsWhiteout(l.entries[i].hdr.Name) || 0 <= specFilesBefore(l, i) && specFilesBefore(l, i) < len(files) && specParsed(files[specFilesBefore(l, i)], l.entries[i], omit)
	})
}

func specParsedWhiteouts(l *ghostLayer, whs []fileEntry, n int, omit bool) bool {
	return forall(0, n, func(i int) bool {
		return !specIsWhiteout(l.entries[i].hdr.Name) || 0 <= specWhiteoutsBefore(l, i) && specWhiteoutsBefore(l, i) < len(whs) && specParsed(whs[specWhiteoutsBefore(l, i)], l.entries[i], omit)
	})
}

//gocv:contract C17,C18,C19 parseLayer use=PARSE noreplay
func contract_parseLayer(l *ghostLayer, omit bool) {
	requires(l != nil)
	n := len(l.entries)
	lfs, err := parseLayer(l, omit)
	ensures("reading errors and names outside the root are errors", implies(err == nil, !l.badOpen && !l.broken && forall(0, n, func(i int) bool { return !specOutside(l.entries[i].hdr.Name) && !l.entries[i].bad })))
	ensures("other layers are parsed", implies(!l.badOpen && !l.broken && forall(0, n, func(i int) bool { return !specOutside(l.entries[i].hdr.Name) && !l.entries[i].bad }), err == nil))
	if err == nil {
		ensures("every entry is a whiteout or a file", len(lfs.Files) == specFilesBefore(l, n) && len(lfs.WhiteoutMarkers) == specWhiteoutsBefore(l, n))
		ensures("files keep their order, metadata and content", specParsedFiles(l, lfs.Files, n, omit))
		ensures("whiteouts keep their order, metadata and content", specParsedWhiteouts(l, lfs.WhiteoutMarkers, n, omit))
	}
}

//gocv:invariant parseLayer use=PARSE
func inv_parse_pos(lfs *layerFS) bool {
	l := ghostTar
	return l.pos >= 0 && l.pos <= len(l.entries) && implies(l.pos > 0, len(lfs.Files) == specFilesBefore(l, l.pos) && len(lfs.WhiteoutMarkers) == specWhiteoutsBefore(l, l.pos)) &&
		implies(l.pos == 0, len(lfs.Files) == 0 && len(lfs.WhiteoutMarkers) == 0)
}

//gocv:invariant parseLayer use=PARSE
func inv_parse_inside(lfs *layerFS) bool {
	return forall(0, ghostTar.pos, func(i int) bool {
		return !specOutside(ghostTar.entries[i].hdr.Name) && !ghostTar.entries[i].bad
	})
}

//gocv:invariant parseLayer use=PARSE
func inv_parse_files(lfs *layerFS, omitContent bool) bool {
	return specParsedFiles(ghostTar, lfs.Files, ghostTar.pos, omitContent)
}

//gocv:invariant parseLayer use=PARSE
func inv_parse_whiteouts(lfs *layerFS, omitContent bool) bool {
	return specParsedWhiteouts(ghostTar, lfs.WhiteoutMarkers, ghostTar.pos, omitContent)
}

var _ ociv1.Layer = (*ghostLayer)(nil)

package direct_url

import (
	"archive/tar"
	"context"
	"io/fs"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
)

type ghostError struct{}

func (*ghostError) Error() string { return "ghost" }

var errGhost error = &ghostError{}

func identicalBytes(a, b []byte) bool { return false }

func forallKeyVFS(m map[string]fsutil.FileReference, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func specHas(m map[string]fsutil.FileReference, k string) bool {
	_, ok := m[k]
	return ok
}

//gocv:pure specJoined
func specJoined(a, b string) string { return a + "/" + b }

//gocv:extern path.Join URL
func model_Join(elem ...string) string {
	check("joins two parts", len(elem) == 2)
	return specJoined(elem[0], elem[1])
}

type ghostDumped struct {
	data DirectURL
	text []byte
	fail bool
	hdr  tar.Header
}

var ghostDump *ghostDumped

//gocv:extern github.com/datawire/ocibuild/pkg/python/pypa/direct_url.jsonDumps URL
func model_jsonDumps(v interface{}) ([]byte, error) {
	d := v.(DirectURL)
	check("the given data is written", d == ghostDump.data)
	if ghostDump.fail {
		return nil, errGhost
	}
	return ghostDump.text, nil
}

type ghostInfo struct{ hdr tar.Header }

func (g *ghostInfo) Name() string       { return g.hdr.Name }
func (g *ghostInfo) Size() int64        { return g.hdr.Size }
func (g *ghostInfo) Mode() fs.FileMode  { return fs.FileMode(g.hdr.Mode) }
func (g *ghostInfo) ModTime() time.Time { return g.hdr.ModTime }
func (g *ghostInfo) IsDir() bool        { return g.hdr.Typeflag == tar.TypeDir }
func (g *ghostInfo) Sys() interface{}   { return nil }

//gocv:extern (*archive/tar.Header).FileInfo URL
func model_FileInfo(h *tar.Header) fs.FileInfo { return &ghostInfo{hdr: *h} }

//gocv:contract C12 Record use=URL noreplay
func contract_Record(d DirectURL, clamp time.Time, vfs, old map[string]fsutil.FileReference, dist string, text []byte, fail bool) {
	requires(vfs != nil && old != nil)
	requires(forallKeyVFS(vfs, func(k string) bool { return specHas(old, k) && old[k] == vfs[k] }))
	requires(forallKeyVFS(old, func(k string) bool { return specHas(vfs, k) }))
	ghostDump = &ghostDumped{data: d, text: text, fail: fail}
	err := Record(d)(context.Background(), clamp, vfs, dist)
	name := specJoined(dist, "direct_url.json")
	ensures("an error exactly when the data cannot be written", (err != nil) == fail)
	ensures("no other file is touched", forallKeyVFS(vfs, func(k string) bool { return k == name || specHas(old, k) && old[k] == vfs[k] }))
	ensures("no file is removed", forallKeyVFS(old, func(k string) bool { return specHas(vfs, k) }))
	if err == nil {
		f, ok := vfs[name].(*fsutil.InMemFileReference)
		ensures("direct_url.json is there", ok && f != nil && f.MFullName == name)
		ensures("with the text as its content", identicalBytes(f.MContent, text))
		i, ok := f.FileInfo.(*ghostInfo)
		ensures("it has metadata", ok && i != nil)
		ensures("it is a regular file of that size", i.hdr.Typeflag == tar.TypeReg && i.hdr.Size == int64(len(text)) && i.hdr.Mode == 0o644 && i.hdr.Name == name && i.hdr.ModTime == clamp)
	}
}

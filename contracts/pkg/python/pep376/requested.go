package pep376

import (
	"archive/tar"
	"context"
	"io/fs"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
)

func forallKeyVFS(m map[string]fsutil.FileReference, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func specHas(m map[string]fsutil.FileReference, k string) bool {
	_, ok := m[k]
	return ok
}

//gocv:pure specJoined
func specJoined(a, b string) string { return a + "/" + b }

//gocv:extern path.Join REQ
func model_Join(elem ...string) string {
	check("joins two parts", len(elem) == 2)
	return specJoined(elem[0], elem[1])
}

type ghostInfo struct{ hdr tar.Header }

func (g *ghostInfo) Name() string       { return g.hdr.Name }
func (g *ghostInfo) Size() int64        { return g.hdr.Size }
func (g *ghostInfo) Mode() fs.FileMode  { return fs.FileMode(g.hdr.Mode) }
func (g *ghostInfo) ModTime() time.Time { return g.hdr.ModTime }
func (g *ghostInfo) IsDir() bool        { return g.hdr.Typeflag == tar.TypeDir }
func (g *ghostInfo) Sys() interface{}   { return nil }

//gocv:extern (*archive/tar.Header).FileInfo REQ
func model_FileInfo(h *tar.Header) fs.FileInfo { return &ghostInfo{hdr: *h} }

//gocv:contract C12 RecordRequested use=REQ noreplay
func contract_RecordRequested(requested string, clamp time.Time, vfs, old map[string]fsutil.FileReference, dist string) {
	requires(vfs != nil && old != nil)
	requires(forallKeyVFS(vfs, func(k string) bool { return specHas(old, k) && old[k] == vfs[k] }))
	requires(forallKeyVFS(old, func(k string) bool { return specHas(vfs, k) }))
	err := RecordRequested(requested)(context.Background(), clamp, vfs, dist)
	name := specJoined(dist, "REQUESTED")
	ensures("no error", err == nil)
	ensures("no other file is touched", forallKeyVFS(vfs, func(k string) bool { return k == name || specHas(old, k) && old[k] == vfs[k] }))
	ensures("no file is removed", forallKeyVFS(old, func(k string) bool { return specHas(vfs, k) }))
	f, ok := vfs[name].(*fsutil.InMemFileReference)
	ensures("REQUESTED is there", ok && f != nil && f.MFullName == name)
	want := requested
	if requested != "" {
		want += "\n"
	}
	ensures("with the marker as its content", string(f.MContent) == want)
	i, ok := f.FileInfo.(*ghostInfo)
	ensures("it has metadata", ok && i != nil)
	ensures("it is a regular file of that size", i.hdr.Typeflag == tar.TypeReg && i.hdr.Size == int64(len(want)) && i.hdr.Mode == 0o644 && i.hdr.Name == name && i.hdr.ModTime == clamp)
}

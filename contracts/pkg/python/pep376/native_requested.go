package pep376

import (
	"archive/tar"
	"context"
	"fmt"
	"io"
	"path"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
)

func TestVerif_C12_requested(t *testing.T) {
	h := newVH(t, "C12", "requested", "the hook adds REQUESTED with the marker, and touches nothing else", 4000)
	defer h.done()
	for h.more() {
		r := h.r
		text := ""
		for i, n := 0, r.Intn(6); i < n; i++ {
			text += []string{"a", "x y", "\n", "\r", "\t", "é", "\x00", "\xff", "#", "\"", " "}[r.Intn(11)]
		}
		dist := []string{"usr/lib/x-1.dist-info", "x-1.dist-info", "a b/é-2.dist-info"}[r.Intn(3)]
		clamp := time.Unix(r.Int63n(4000000000), r.Int63n(2)*500)
		vfs := map[string]fsutil.FileReference{}
		var before []string
		for i, n := 0, r.Intn(4); i < n; i++ {
			name := path.Join(dist, []string{"METADATA", "REQUESTED2", "sub/REQUESTED", "../REQUESTED", "RECORD"}[r.Intn(5)])
			hd := &tar.Header{Typeflag: tar.TypeReg, Name: name, Size: 1}
			if vfs[name] == nil {
				before = append(before, name)
				vfs[name] = &fsutil.InMemFileReference{FileInfo: hd.FileInfo(), MFullName: name, MContent: []byte("x")}
			}
		}
		old := map[string]fsutil.FileReference{}
		for k, v := range vfs {
			old[k] = v
		}
		in := fmt.Sprintf("marker %q, directory %q, clamp %v, files %q", text, dist, clamp, before)
		h.tick(in)
		h.try("requested", in, func() {
			if err := RecordRequested(text)(context.Background(), clamp, vfs, dist); err != nil {
				h.fail("no error", in, "%v", err)
				return
			}
			name := path.Join(dist, "REQUESTED")
			for k, v := range vfs {
				if k != name && old[k] != v {
					h.fail("no other file is touched", in, "%q", k)
				}
			}
			for k := range old {
				if vfs[k] == nil {
					h.fail("no file is removed", in, "%q", k)
				}
			}
			f := vfs[name]
			if f == nil {
				h.fail("REQUESTED is there", in, "it is not")
				return
			}
			want := text
			if want != "" {
				want += "\n"
			}
			rc, err := f.Open()
			if err != nil {
				h.fail("REQUESTED can be read", in, "%v", err)
				return
			}
			defer rc.Close()
			got, err := io.ReadAll(rc)
			if err != nil || string(got) != want {
				h.fail("with the marker as its content", in, "got %q (%v), want %q", got, err, want)
			}
			if f.FullName() != name || f.Name() != "REQUESTED" || f.Size() != int64(len(want)) || !f.Mode().IsRegular() || f.Mode().Perm() != 0o644 || !f.ModTime().Equal(clamp) {
				h.fail("it is a regular file of that size", in, "%q %q %d %v %v", f.FullName(), f.Name(), f.Size(), f.Mode(), f.ModTime())
			}
		})
	}
}

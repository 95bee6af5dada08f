package direct_url

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
)

func vJSON(r *rand.Rand, depth int) interface{} {
	strs := []string{"", "a", "é", "\"q\"", "a\\b", "<&>", "x\ny", "\u2028", "{", "]", ": ", ", "}
	k := r.Intn(7)
	if depth <= 0 && k > 4 {
		k = r.Intn(5)
	}
	switch k {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return float64(r.Intn(1000)) / 8
	case 3, 4:
		return strs[r.Intn(len(strs))]
	case 5:
		l := []interface{}{}
		for n := r.Intn(4); n > 0; n-- {
			l = append(l, vJSON(r, depth-1))
		}
		return l
	}
	m := map[string]interface{}{}
	for n := r.Intn(4); n > 0; n-- {
		m[strs[r.Intn(len(strs))]] = vJSON(r, depth-1)
	}
	return m
}

func TestVerif_C12_json(t *testing.T) {
	h := newVH(t, "C12", "json_dumps", "random JSON values up to depth 4 (nested arrays and objects, empty ones, special characters); the text is read back by encoding/json", 6000)
	defer h.done()
	for h.more() {
		v := vJSON(h.r, 4)
		in := fmt.Sprintf("%#v", v)
		h.tick(in)
		h.try("jsonDumps", in, func() {
			bs, err := jsonDumps(v)
			if err != nil {
				h.fail("every value can be written", in, "%v", err)
				return
			}
			var back interface{}
			if err := json.Unmarshal(bs, &back); err != nil || !reflect.DeepEqual(back, v) {
				h.fail("the text is JSON for the value", in, "%q: %v %#v", bs, err, back)
			}
		})
	}
}

func TestVerif_C12_directURL(t *testing.T) {
	h := newVH(t, "C12", "direct_url", "all combinations of optional parts with a few strings each", 800)
	defer h.done()
	strs := []string{"", "x", "git+https://example.com/?a=b&c=<d>", "é\"\\"}
	for h.more() {
		r := h.r
		d := DirectURL{URL: strs[r.Intn(4)]}
		if r.Intn(2) == 0 {
			d.VCSInfo = &VCSInfo{VCS: strs[r.Intn(4)], RequestedRevision: strs[r.Intn(4)], CommitID: strs[r.Intn(4)]}
		}
		if r.Intn(2) == 0 {
			d.ArchiveInfo = &ArchiveInfo{Hash: strs[r.Intn(4)]}
		}
		if r.Intn(2) == 0 {
			d.DirInfo = &DirInfo{Editable: r.Intn(2) == 0}
		}
		in, _ := json.Marshal(d)
		h.tick(string(in))
		h.try("Record", string(in), func() {
			vfs := map[string]fsutil.FileReference{}
			clamp := time.Unix(4000, 0)
			if err := Record(d)(context.Background(), clamp, vfs, "lib/x.dist-info"); err != nil {
				h.fail("no error", string(in), "%v", err)
				return
			}
			f := vfs["lib/x.dist-info/direct_url.json"]
			if len(vfs) != 1 || f == nil {
				h.fail("direct_url.json is added", string(in), "%v", vfs)
				return
			}
			rc, err := f.Open()
			if err != nil {
				h.fail("direct_url.json can be read", string(in), "%v", err)
				return
			}
			bs, _ := io.ReadAll(rc)
			var m map[string]interface{}
			if err := json.Unmarshal(bs, &m); err != nil {
				h.fail("direct_url.json is JSON", string(in), "%q: %v", bs, err)
				return
			}
			want := map[string]interface{}{"url": d.URL}
			if d.VCSInfo != nil {
				v := map[string]interface{}{"vcs": d.VCSInfo.VCS, "commit_id": d.VCSInfo.CommitID}
				if d.VCSInfo.RequestedRevision != "" {
					v["requested_revision"] = d.VCSInfo.RequestedRevision
				}
				want["vcs_info"] = v
			}
			if d.ArchiveInfo != nil {
				v := map[string]interface{}{}
				if d.ArchiveInfo.Hash != "" {
					v["hash"] = d.ArchiveInfo.Hash
				}
				want["archive_info"] = v
			}
			if d.DirInfo != nil {
				v := map[string]interface{}{}
				if d.DirInfo.Editable {
					v["editable"] = true
				}
				want["dir_info"] = v
			}
			if !reflect.DeepEqual(m, want) {
				h.fail("direct_url.json holds the data", string(in), "%q", bs)
			}
			if f.Size() != int64(len(bs)) || f.Mode() != 0o644 || !f.ModTime().Equal(clamp) || f.FullName() != "lib/x.dist-info/direct_url.json" {
				h.fail("the file's metadata is right", string(in), "size %d mode %v time %v", f.Size(), f.Mode(), f.ModTime())
			}
		})
	}
}

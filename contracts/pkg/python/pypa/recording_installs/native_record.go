package recording_installs

import (
	"archive/tar"
	"context"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"path"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/datawire/ocibuild/pkg/fsutil"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
	"github.com/datawire/ocibuild/pkg/python/pypa/direct_url"
)

type vFile struct {
	fsutil.FileReference
	fail int // 1: cannot be opened, 2: cannot be read to the end
	end  *int
}

type vRC struct {
	io.Reader
	end *int
}

func (v vRC) Close() error { *v.end++; return nil }

type vFailReader struct{}

func (vFailReader) Read([]byte) (int, error) { return 0, errors.New("read fault") }

func (v *vFile) Open() (io.ReadCloser, error) {
	if v.fail == 1 {
		return nil, errors.New("open fault")
	}
	rc, err := v.FileReference.Open()
	if err != nil {
		return nil, err
	}
	if v.fail == 2 {
		return vRC{io.MultiReader(rc, vFailReader{}), v.end}, nil
	}
	return vRC{rc, v.end}, nil
}

type vRecorded struct {
	fsutil.FileReference
	hash string
	size int64
}

func (v *vRecorded) Record() (string, int64) { return v.hash, v.size }

var _ bdist.Recordable = (*vRecorded)(nil)

func vDigest(algo string, data []byte) string {
	var sum []byte
	switch algo {
	case "md5":
		s := md5.Sum(data)
		sum = s[:]
	case "sha1":
		s := sha1.Sum(data)
		sum = s[:]
	case "sha224":
		s := sha256.Sum224(data)
		sum = s[:]
	case "sha256":
		s := sha256.Sum256(data)
		sum = s[:]
	case "sha384":
		s := sha512.Sum384(data)
		sum = s[:]
	case "sha512":
		s := sha512.Sum512(data)
		sum = s[:]
	default:
		return ""
	}
	return algo + "=" + base64.RawURLEncoding.EncodeToString(sum)
}

// vCSV reads RFC 4180 text.
func vCSV(s string) ([][]string, error) {
	var rows [][]string
	for len(s) > 0 {
		var row []string
		for {
			var f string
			if strings.HasPrefix(s, `"`) {
				s = s[1:]
				for {
					i := strings.IndexByte(s, '"')
					if i < 0 {
						return nil, errors.New("unterminated quote")
					}
					f += s[:i]
					s = s[i+1:]
					if !strings.HasPrefix(s, `"`) {
						break
					}
					f += `"`
					s = s[1:]
				}
			} else {
				i := strings.IndexAny(s, ",\r\n\"")
				if i < 0 {
					return nil, errors.New("unterminated row")
				}
				f, s = s[:i], s[i:]
			}
			row = append(row, f)
			if strings.HasPrefix(s, ",") {
				s = s[1:]
				continue
			}
			if !strings.HasPrefix(s, "\r\n") {
				return nil, fmt.Errorf("bad end of field at %q", s)
			}
			s = s[2:]
			break
		}
		rows = append(rows, row)
	}
	return rows, nil
}

func vContent(f fsutil.FileReference) string {
	rc, err := f.Open()
	if err != nil {
		return "error: " + err.Error()
	}
	defer rc.Close()
	bs, err := io.ReadAll(rc)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(bs)
}

// vRel: the path of name relative to base, both below the root.
func vRel(base, name string) string {
	b, n := strings.Split(base, "/"), strings.Split(name, "/")
	i := 0
	for i < len(b) && i < len(n) && b[i] == n[i] {
		i++
	}
	var out []string
	for range b[i:] {
		out = append(out, "..")
	}
	return strings.Join(append(out, n[i:]...), "/")
}

func TestVerif_C12_record(t *testing.T) {
	h := newVH(t, "C12", "record_hook", "random sets of installed files (any content, size, compiled, pre-recorded, directories, faults), algorithms and direct URLs; RECORD is read back by an independent CSV reader", 1500)
	defer h.done()
	parts := []string{"a", "b", "pkg", "x.py", "x.pyc", "mod,1.py", `q"uote`, "é", "x y", "bin", "..data", "Z", "-", "x.pycx", "X.PYC", ".pyc", "RECORDS", "A b,c"}
	algos := []string{"", "md5", "sha1", "sha224", "sha256", "sha384", "sha512", "blake2b", "SHA256", "nope"}
	for h.more() {
		r := h.r
		base := []string{"usr/lib/python3.9/site-packages", "lib", "opt/p"}[r.Intn(3)]
		dist := base + "/x-1.0.dist-info"
		vfs := map[string]fsutil.FileReference{}
		mod := time.Unix(1000, 0)
		closed, opened := 0, 0
		fault := false
		type want struct{ hash, size string }
		wants := map[string]want{}
		algo := algos[r.Intn(len(algos))]
		if r.Intn(3) > 0 {
			algo = algos[r.Intn(7)]
		}
		real := algo
		if real == "" {
			real = "sha256"
		}
		orig := map[string]string{}
		var input []string
		for i := r.Intn(8); i > 0; i-- {
			var ps []string
			for j := 1 + r.Intn(3); j > 0; j-- {
				ps = append(ps, parts[r.Intn(len(parts))])
			}
			name := path.Join([]string{base, dist, "usr/bin", base + "x", ""}[r.Intn(5)], path.Join(ps...))
			if vfs[name] != nil {
				continue
			}
			data := make([]byte, []int{0, 1, 10, 5000, 0, 1, 10, 5000, 70000 + r.Intn(100000)}[r.Intn(9)])
			r.Read(data)
			hdr := &tar.Header{Typeflag: tar.TypeReg, Name: name, Mode: []int64{0o644, 0o644, 0o755, 0, 0o600, 0o4111}[r.Intn(6)], Size: int64(len(data)), ModTime: mod}
			kind := r.Intn(8)
			if kind == 0 {
				hdr.Typeflag, hdr.Mode, hdr.Size, hdr.Name = tar.TypeDir, 0o755, 0, name+"/"
			}
			ref := fsutil.FileReference(&fsutil.InMemFileReference{FileInfo: hdr.FileInfo(), MFullName: name, MContent: data})
			f := &vFile{FileReference: ref, end: &closed}
			if r.Intn(40) == 0 {
				f.fail = 1 + r.Intn(2)
			}
			vfs[name] = f
			rel := vRel(base, name)
			input = append(input, fmt.Sprintf("%s kind=%d fail=%d len=%d", name, kind, f.fail, len(data)))
			orig[name] = string(data)
			switch {
			case kind == 0:
			case kind == 1:
				vfs[name] = &vRecorded{FileReference: f, hash: "sha256=abc", size: 77}
				wants[rel] = want{"sha256=abc", "77"}
			case strings.HasSuffix(name, ".pyc"):
				wants[rel] = want{"", ""}
			default:
				wants[rel] = want{vDigest(real, data), fmt.Sprint(len(data))}
				if f.fail != 0 {
					fault = true
				}
				opened++
			}
		}
		installer := []string{"pip", "ocibuild depend", "", " pip\t", "a\nb\n", "\u00e9"}[r.Intn(6)]
		wants["x-1.0.dist-info/INSTALLER"] = want{vDigest(real, []byte(installer+"\n")), fmt.Sprint(len(installer) + 1)}
		wants["x-1.0.dist-info/RECORD"] = want{"", ""}
		var url *direct_url.DirectURL
		if r.Intn(2) == 0 {
			url = &direct_url.DirectURL{URL: []string{"https://example.com/x.whl", "file:///a?b=<c>&d", "git+ssh://é/\"q\""}[r.Intn(3)]}
			if r.Intn(2) == 0 {
				url.VCSInfo = &direct_url.VCSInfo{VCS: "git", CommitID: "abc", RequestedRevision: []string{"", "v1"}[r.Intn(2)]}
			}
			if r.Intn(2) == 0 {
				url.ArchiveInfo = &direct_url.ArchiveInfo{Hash: []string{"", "sha256=1"}[r.Intn(2)]}
			}
			if r.Intn(2) == 0 {
				url.DirInfo = &direct_url.DirInfo{Editable: r.Intn(2) == 0}
			}
		}
		before := len(vfs)
		keep := map[string]fsutil.FileReference{}
		for k, v := range vfs {
			keep[k] = v
		}
		if old := vfs[dist+"/INSTALLER"]; old != nil {
			continue
		}
		_ = before
		clamp := time.Unix(5000, 0)
		in := fmt.Sprintf("algorithm %q, installer %q, url %+v, files %v", algo, installer, url, input)
		h.tick(in)
		h.try("Record", in, func() {
			err := Record(algo, installer, url)(context.Background(), clamp, vfs, dist)
			bad := vDigest(real, nil) == "" || fault
			if (err != nil) != bad {
				h.fail("an error exactly for unknown algorithms and unreadable files", in, "err=%v, expected an error: %v", err, bad)
				return
			}
			if err != nil {
				return
			}
			for k, v := range keep {
				if vfs[k] != v {
					h.fail("installed files are left alone", in, "%q was replaced", k)
					return
				}
			}
			fixed := []string{"INSTALLER", "RECORD"}
			if url != nil {
				fixed = append(fixed, "direct_url.json")
			}
			if len(vfs) != len(keep)+len(fixed) {
				h.fail("only the metadata files are added", in, "%d files, expected %d", len(vfs), len(keep)+len(fixed))
				return
			}
			for _, n := range fixed {
				f := vfs[dist+"/"+n]
				if f == nil || f.FullName() != dist+"/"+n || f.IsDir() || f.Mode() != 0o644 || !f.ModTime().Equal(clamp) || f.Size() != int64(len(vContent(f))) {
					h.fail("metadata files are regular files with the right size and time", in, "%s: %+v", n, f)
					return
				}
			}
			if got := vContent(vfs[dist+"/INSTALLER"]); got != installer+"\n" {
				h.fail("INSTALLER names the installer", in, "%q", got)
			}
			if url != nil {
				got := vContent(vfs[dist+"/direct_url.json"])
				var back direct_url.DirectURL
				if err := json.Unmarshal([]byte(got), &back); err != nil || !reflect.DeepEqual(back, *url) {
					h.fail("direct_url.json holds the given data", in, "%q: %+v %v", got, back, err)
				}
				wants["x-1.0.dist-info/direct_url.json"] = want{vDigest(real, []byte(got)), fmt.Sprint(len(got))}
			}
			text := vContent(vfs[dist+"/RECORD"])
			rows, err := vCSV(text)
			if err != nil {
				h.fail("RECORD is CSV", in, "%v: %q", err, text)
				return
			}
			var names []string
			for _, row := range rows {
				if len(row) != 3 {
					h.fail("rows have three columns", in, "%q", row)
					return
				}
				w, ok := wants[row[0]]
				if !ok {
					h.fail("rows are for installed files", in, "%q", row)
					return
				}
				if row[1] != w.hash || row[2] != w.size {
					h.fail("rows have the digest and size", in, "%q, expected %v", row, w)
					return
				}
				names = append(names, row[0])
			}
			if !sort.StringsAreSorted(names) {
				h.fail("rows are sorted", in, "%q", names)
			}
			if len(names) != len(wants) {
				h.fail("each installed file has one row", in, "rows %q, expected %v", names, wants)
			}
		})
	}
}

package dir

import (
	"archive/tar"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"
)

type vNode struct {
	mode    os.FileMode // type and permission bits
	data    string
	link    string // symlink target
	same    string // hard link to
	mod     time.Time
	uid     int
	gid     int
	content bool
}

func TestVerif_C15_layers(t *testing.T) {
	h := newVH(t, "C15", "dir_layers", "random directory trees (symlinks, hard links, modes, owners) with random prefix, ownership and clamp time", 120)
	defer h.done()
	parts := []string{"a", "b", "a-b", "a.b", "lib", "lib64", "Z", "é", "x y"}
	for h.more() {
		r := h.r
		root, err := ioutil.TempDir("", "verif-dir-")
		if err != nil {
			t.Fatal(err)
		}
		func() {
			defer os.RemoveAll(root)
			tree := map[string]*vNode{}
			dirs := []string{"."}
			var files []string
			base := time.Unix(1000000000, 0)
			clamp := base.Add(time.Duration(r.Intn(20)) * time.Second)
			for i := r.Intn(10); i > 0; i-- {
				d := dirs[r.Intn(len(dirs))]
				n := path.Join(d, parts[r.Intn(len(parts))])
				if tree[n] != nil {
					continue
				}
				full := filepath.Join(root, n)
				nd := &vNode{}
				switch k := r.Intn(7); {
				case k < 2:
					nd.mode = os.ModeDir | 0o755
					if err := os.Mkdir(full, 0o755); err != nil {
						t.Fatal(err)
					}
					dirs = append(dirs, n)
				case k == 2:
					nd.mode, nd.link = os.ModeSymlink|0o777, []string{"a", "../x", "/abs/t", "dangling"}[r.Intn(4)]
					if err := os.Symlink(nd.link, full); err != nil {
						t.Fatal(err)
					}
					if r.Intn(2) == 0 {
						files = append(files, n)
					}
				case k == 3 && len(files) > 0:
					o := files[r.Intn(len(files))]
					if err := os.Link(filepath.Join(root, o), full); err != nil {
						t.Fatal(err)
					}
					nd = tree[o]
				default:
					nd.mode, nd.content = os.FileMode(r.Intn(0o1000))|0o400, true
					if r.Intn(4) == 0 {
						nd.mode |= []os.FileMode{os.ModeSetuid, os.ModeSetgid, os.ModeSticky}[r.Intn(3)]
					}
					nd.data = strings.Repeat("x", []int{0, 1, 512, 1000}[r.Intn(4)]) + n
					if err := ioutil.WriteFile(full, []byte(nd.data), 0o644); err != nil {
						t.Fatal(err)
					}
					if err := os.Chmod(full, nd.mode); err != nil {
						t.Fatal(err)
					}
					files = append(files, n)
				}
				tree[n] = nd
			}
			var names []string
			for n := range tree {
				names = append(names, n)
			}
			sort.Slice(names, func(i, j int) bool { return vLess(names[i], names[j]) })
			for i := len(names) - 1; i >= 0; i-- {
				nd := tree[names[i]]
				full := filepath.Join(root, names[i])
				if nd.mode&os.ModeSymlink == 0 {
					nd.mod = base.Add(time.Duration(r.Intn(20)) * time.Second)
					if err := os.Chtimes(full, nd.mod, nd.mod); err != nil {
						t.Fatal(err)
					}
				}
			}
			for _, n := range names {
				fi, err := os.Lstat(filepath.Join(root, n))
				if err != nil {
					t.Fatal(err)
				}
				st := fi.Sys().(*syscall.Stat_t)
				tree[n].uid, tree[n].gid = int(st.Uid), int(st.Gid)
				tree[n].mod = fi.ModTime()
			}
			var prefix *Prefix
			pick := func(s ...string) string { return s[r.Intn(len(s))] }
			if r.Intn(3) > 0 {
				prefix = &Prefix{DirName: pick("usr", "usr/local/bin", "a/b", "opt/x/y/z", "usr/local/", "./usr"),
					Mode: []int{0, 0o755, 0o700}[r.Intn(3)], Ownership: Ownership{UID: r.Intn(3), UName: pick("", "u1"), GID: r.Intn(3), GName: pick("", "g1")}}
			}
			var chown *Ownership
			if r.Intn(3) > 0 {
				chown = &Ownership{UID: []int{-1, 0, 7}[r.Intn(3)], UName: pick("", "u2"), GID: []int{-1, 0, 9}[r.Intn(3)], GName: pick("", "g2")}
			}
			in := fmt.Sprintf("tree=%q prefix=%+v chown=%+v clamp=%d", names, prefix, chown, clamp.Unix())
			h.tick(in)
			pfx := ""
			wantPrefixMode := 0
			if prefix != nil {
				pfx = path.Clean(prefix.DirName)
				wantPrefixMode = prefix.Mode
				if wantPrefixMode == 0 {
					wantPrefixMode = 0o755
				}
			}
			h.try("layer", in, func() {
				layer, err := LayerFromDir(root, prefix, chown, clamp)
				if err != nil {
					h.fail("a layer is built", in, "error %v", err)
					return
				}
				rc, err := layer.Uncompressed()
				if err != nil {
					h.fail("a layer is built", in, "error %v", err)
					return
				}
				tr := tar.NewReader(rc)
				var got []string
				firstOf := map[*vNode]string{}
				prefixDirs := map[string]bool{}
				if pfx != "" {
					for d := pfx; d != "."; d = path.Dir(d) {
						prefixDirs[d] = true
					}
				}
				nprefix := 0
				for {
					hd, err := tr.Next()
					if err == io.EOF {
						break
					}
					if err != nil {
						h.fail("the layer is a readable archive", in, "error %v", err)
						return
					}
					if hd.ModTime.After(clamp) || hd.AccessTime.After(clamp) || hd.ChangeTime.After(clamp) {
						h.fail("no timestamp exceeds the clamp time", in, "%q: %v", hd.Name, hd.ModTime)
					}
					name := strings.TrimSuffix(hd.Name, "/")
					if nprefix < len(prefixDirs) {
						nprefix++
						want := strings.Join(strings.Split(pfx, "/")[:nprefix], "/")
						if name != want || hd.Typeflag != tar.TypeDir || hd.Mode != int64(wantPrefixMode) || hd.Uid != prefix.UID || hd.Gid != prefix.GID || hd.Uname != prefix.UName || hd.Gname != prefix.GName {
							h.fail("prefix directories come first, outermost first, with mode and owner", in, "entry %d is %q %c %o %d/%d %q/%q", nprefix, name, hd.Typeflag, hd.Mode, hd.Uid, hd.Gid, hd.Uname, hd.Gname)
						}
						continue
					}
					rel := name
					if pfx != "" {
						if !strings.HasPrefix(name, pfx+"/") {
							h.fail("entries are named under the prefix", in, "%q", name)
							return
						}
						rel = name[len(pfx)+1:]
					}
					got = append(got, rel)
					nd := tree[rel]
					if nd == nil {
						h.fail("entries mirror files", in, "%q", name)
						return
					}
					wuid, wgid := nd.uid, nd.gid
					if chown != nil {
						if chown.UID >= 0 {
							wuid = chown.UID
						}
						if chown.GID >= 0 {
							wgid = chown.GID
						}
						if chown.UName != "" && hd.Uname != chown.UName || chown.GName != "" && hd.Gname != chown.GName {
							h.fail("ownership overrides apply", in, "%q: %q/%q", name, hd.Uname, hd.Gname)
						}
					}
					if hd.Uid != wuid || hd.Gid != wgid {
						h.fail("ownership overrides apply", in, "%q: %d/%d want %d/%d", name, hd.Uid, hd.Gid, wuid, wgid)
					}
					if first, ok := firstOf[nd]; ok {
						if hd.Typeflag != tar.TypeLink || hd.Linkname != first {
							h.fail("a file already written is a hard link to its first name", in, "%q: %c %q want %q", name, hd.Typeflag, hd.Linkname, first)
						}
						continue
					}
					firstOf[nd] = name
					want := nd.mod
					if want.After(clamp) {
						want = clamp
					}
					if !hd.ModTime.Equal(want.Round(time.Second)) {
						h.fail("earlier times are kept", in, "%q: %v want %v", name, hd.ModTime, want)
					}
					wantType := byte(tar.TypeReg)
					switch {
					case nd.mode.IsDir():
						wantType = tar.TypeDir
					case nd.mode&os.ModeSymlink != 0:
						wantType = tar.TypeSymlink
					}
					if hd.Typeflag != wantType || hd.FileInfo().Mode() != nd.mode && wantType != tar.TypeSymlink {
						h.fail("entries have the mode of the file", in, "%q: %c %v want %v", name, hd.Typeflag, hd.FileInfo().Mode(), nd.mode)
					}
					if wantType == tar.TypeSymlink && hd.Linkname != nd.link {
						h.fail("entries have the symlink target", in, "%q: %q want %q", name, hd.Linkname, nd.link)
					}
					bs, err := io.ReadAll(tr)
					if err != nil || string(bs) != nd.data && wantType == tar.TypeReg {
						h.fail("entries have the content", in, "%q: %d bytes (%v)", name, len(bs), err)
					}
				}
				sort.Slice(got, func(i, j int) bool { return vLess(got[i], got[j]) })
				if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", names) {
					h.fail("one entry per file", in, "got %q", got)
				}
			})
		}()
	}
}

func vLess(a, b string) bool {
	return strings.Replace(a, "/", "\x00", -1) < strings.Replace(b, "/", "\x00", -1)
}

func TestVerif_C15_missing(t *testing.T) {
	h := newVH(t, "C15", "dir_missing", "a directory that does not exist is an error", 1)
	defer h.done()
	for h.more() {
		h.tick("missing directory")
		if _, err := LayerFromDir("/nonexistent/verif", nil, nil, time.Unix(1, 0)); err == nil {
			h.fail("an unreadable directory gives an error", "/nonexistent/verif", "no error")
		}
	}
}

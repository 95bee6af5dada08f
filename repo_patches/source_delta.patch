From 0d128a924614d912d422113c9ad2bffee4fdf118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:40 +0000
Subject: [PATCH 01/37] fix: pep440: compare post-release numbers without
 overflowing

A post-release number of math.MaxInt compared against "no post-release" (-1)
overflowed, so that 1.0.post9223372036854775807 sorted before 1.0.
---
 pkg/python/pep440/01_version_scheme.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/01_version_scheme.go b/pkg/python/pep440/01_version_scheme.go
index 4a23f24..db2647b 100644
--- a/pkg/python/pep440/01_version_scheme.go
+++ b/pkg/python/pep440/01_version_scheme.go
@@ -516,7 +516,15 @@ func cmpPostRelease(a, b PublicVersion) int {
 	if b.Post != nil {
 		bPost = *b.Post
 	}
-	return aPost - bPost
+	// Don't subtract: the difference between a large post-release number and "absent" overflows.
+	switch {
+	case aPost < bPost:
+		return -1
+	case aPost > bPost:
+		return 1
+	default:
+		return 0
+	}
 }
 
 //
-- 
2.43.0


From d8ab0c53a19a0d92462367ed3b62db94a16d3df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:11 +0000
Subject: [PATCH 02/37] fix: pep440: do not drop the first character of the
 version after < and >

---
 pkg/python/pep440/02_version_specifiers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index a8da602..abc84ae 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -172,10 +172,10 @@ func parseSpecifierClause(str string) (SpecifierClause, error) {
 		str = str[2:]
 	case strings.HasPrefix(str, "<"):
 		ret.CmpOp = CmpOpLT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, ">"):
 		ret.CmpOp = CmpOpGT
-		str = str[2:]
+		str = str[1:]
 	case strings.HasPrefix(str, "==="):
 		return ret, fmt.Errorf("specifiers with === are not supported; versions must be PEP 440 compliant")
 	default:
-- 
2.43.0


From 085defc5cd3c55c750d95383aeb50c55192f6938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:11 +0000
Subject: [PATCH 03/37] fix: pep440: print the ".*" of prefix-matching clauses

---
 pkg/python/pep440/02_version_specifiers.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index abc84ae..aa2a491 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -214,7 +214,11 @@ func (spec SpecifierClause) String() string {
 	if !ok {
 		panic(fmt.Errorf("invalid CmpOp: %d", spec.CmpOp))
 	}
-	return opStr + spec.Version.String()
+	ret := opStr + spec.Version.String()
+	if spec.CmpOp == CmpOpPrefixMatch || spec.CmpOp == CmpOpPrefixExclude {
+		ret += ".*"
+	}
+	return ret
 }
 
 func (spec SpecifierClause) Match(ver Version) bool {
-- 
2.43.0


From ae904005eea0bc40f831f019ba8c40b13220724d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:11 +0000
Subject: [PATCH 04/37] fix: pep440: prefer the candidates that the exclusion
 behavior allows

---
 pkg/python/pep440/02_version_specifiers.go | 2 +-
 pkg/python/pep592/yank.go                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index aa2a491..b41aba0 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -630,7 +630,7 @@ func (spec Specifier) Select(choices []Version, exclusionBehavior ExclusionBehav
 	var bestExcluded *Version
 	for _, choice := range choices {
 		if spec.Match(choice) {
-			if exclusionBehavior == nil || !exclusionBehavior.Allow(choice) {
+			if exclusionBehavior == nil || exclusionBehavior.Allow(choice) {
 				if best == nil || best.Cmp(choice) < 0 {
 					val := choice
 					best = &val
diff --git a/pkg/python/pep592/yank.go b/pkg/python/pep592/yank.go
index 98e6eab..86784c1 100644
--- a/pkg/python/pep592/yank.go
+++ b/pkg/python/pep592/yank.go
@@ -36,5 +36,5 @@ func ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
 
 func (e excludeYanked) Allow(v pep440.Version) bool {
 	_, yanked := e.yankedVersions[v.String()]
-	return yanked
+	return !yanked
 }
-- 
2.43.0


From fb380f4253281cfbdb275ecb1cc75fc1e01b4338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:28 +0000
Subject: [PATCH 05/37] fix: pep440: ordered comparisons ignore local labels,
 >V excludes post-releases of V

---
 pkg/python/pep440/02_version_specifiers.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/pkg/python/pep440/02_version_specifiers.go b/pkg/python/pep440/02_version_specifiers.go
index b41aba0..d2439af 100644
--- a/pkg/python/pep440/02_version_specifiers.go
+++ b/pkg/python/pep440/02_version_specifiers.go
@@ -481,11 +481,11 @@ func matchPrefixExclude(spec, ver Version) bool {
 //
 // Local version identifiers are NOT permitted in this version specifier.
 func matchLE(spec, ver Version) bool {
-	return spec.Cmp(ver) >= 0
+	return spec.PublicVersion.Cmp(ver.PublicVersion) >= 0
 }
 
 func matchGE(spec, ver Version) bool {
-	return spec.Cmp(ver) <= 0
+	return spec.PublicVersion.Cmp(ver.PublicVersion) <= 0
 }
 
 //
@@ -519,11 +519,20 @@ func matchGE(spec, ver Version) bool {
 //
 // Local version identifiers are NOT permitted in this version specifier.
 func matchLT(spec, ver Version) bool {
-	return spec.Cmp(ver) > 0
+	return spec.PublicVersion.Cmp(ver.PublicVersion) > 0
 }
 
 func matchGT(spec, ver Version) bool {
-	return spec.Cmp(ver) < 0
+	if ver.Post != nil && spec.Post == nil {
+		// Is ver a post-release of spec?
+		base := ver.PublicVersion
+		base.Post = nil
+		base.Dev = nil
+		if spec.PublicVersion.Cmp(base) == 0 {
+			return false
+		}
+	}
+	return spec.PublicVersion.Cmp(ver.PublicVersion) < 0
 }
 
 //
-- 
2.43.0


From 6eaa5c55404ba1ecbeb258da6b631f40ee580279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:35 +0000
Subject: [PATCH 06/37] fix: pep440: report local version numbers that do not
 fit instead of wrapping

---
 pkg/python/pep440/03_tail.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/03_tail.go b/pkg/python/pep440/03_tail.go
index 7c2afd0..fffb0ab 100644
--- a/pkg/python/pep440/03_tail.go
+++ b/pkg/python/pep440/03_tail.go
@@ -715,7 +715,15 @@ func parseVersion(str string) (*Version, error) {
 		return strings.ContainsRune("-_.", r)
 	})
 	for _, part := range localParts {
-		ver.Local = append(ver.Local, intstr.Parse(strings.ToLower(part)))
+		if strings.Trim(part, "0123456789") != "" {
+			ver.Local = append(ver.Local, intstr.FromString(strings.ToLower(part)))
+			continue
+		}
+		num, err := strconv.ParseInt(part, 10, 32)
+		if err != nil {
+			return nil, fmt.Errorf("local: %w", err)
+		}
+		ver.Local = append(ver.Local, intstr.FromInt(int(num)))
 	}
 
 	return &ver, nil
-- 
2.43.0


From 29346ceb9f1c2edb49c9e3a6b8c0ef36d6e6ffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:35 +0000
Subject: [PATCH 07/37] fix: pep440: reject the non-ASCII letters that
 case-insensitive matching lets in

---
 pkg/python/pep440/03_tail.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep440/03_tail.go b/pkg/python/pep440/03_tail.go
index fffb0ab..f2a582a 100644
--- a/pkg/python/pep440/03_tail.go
+++ b/pkg/python/pep440/03_tail.go
@@ -5,6 +5,7 @@ import (
 	"regexp"
 	"strconv"
 	"strings"
+	"unicode"
 
 	"k8s.io/apimachinery/pkg/util/intstr"
 )
@@ -601,7 +602,8 @@ var reVersion = regexp.MustCompile(`(?i)^\s*` + regexp.MustCompile(`(?:\s+|#.*)`
 
 func parseVersion(str string) (*Version, error) {
 	match := reVersion.FindStringSubmatch(str)
-	if match == nil {
+	isNonASCII := func(r rune) bool { return r > unicode.MaxASCII } // case-folding matches some of these
+	if match == nil || strings.IndexFunc(str, isNonASCII) >= 0 {
 		return nil, fmt.Errorf("invalid version: %q", str)
 	}
 
-- 
2.43.0


From 6928c8e5d635daa808c925148005ff304f201185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:48 +0000
Subject: [PATCH 08/37] fix: give the Windows file attribute constants their
 documented values

FileAttributeTemporary and everything after it were shifted by 8 + iota although
iota is already 8 there, and FILE_ATTRIBUTE_RECALL_ON_DATA_ACCESS is 1<<22.
---
 pkg/python/stat.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/stat.go b/pkg/python/stat.go
index fa75b76..66a2841 100644
--- a/pkg/python/stat.go
+++ b/pkg/python/stat.go
@@ -197,7 +197,7 @@ const (
 	FileAttributeNormal    StatFileAttribute = StatFileAttribute(_DOSUnused7)
 
 	// 1<<8 through 1<<15
-	FileAttributeTemporary StatFileAttribute = 1 << (8 + iota)
+	FileAttributeTemporary StatFileAttribute = 1 << iota
 	FileAttributeSparseFile
 	FileAttributeReparsePoint
 	FileAttributeCompressed
@@ -211,6 +211,8 @@ const (
 	FileAttributeNoScrubData
 	FileAttributeRecallOnOpen // not in Python 3.9.1 stat.py
 	_FileattributeUnused19
+	_FileattributeUnused20
+	_FileattributeUnused21
 	FileAttributeRecallOnDataAccess // not in Python 3.9.1 stat.py
 )
 
-- 
2.43.0


From c7e85a355afb3bc46ff58dd5a091b12104901aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:51 +0000
Subject: [PATCH 09/37] fix: keep the serial number of a pre-release
 interpreter's version

sys.version_info of Python 3.11.0rc2 has serial=2; PEP440() reported 3.11.0rc0.
---
 pkg/python/platform.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/python/platform.go b/pkg/python/platform.go
index ffb6860..32f31d2 100644
--- a/pkg/python/platform.go
+++ b/pkg/python/platform.go
@@ -43,11 +43,11 @@ func (vi VersionInfo) PEP440() (*pep440.Version, error) {
 	}
 	switch vi.ReleaseLevel {
 	case "alpha":
-		ret.Pre = &pep440.PreRelease{L: "a", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "a", N: vi.Serial}
 	case "beta":
-		ret.Pre = &pep440.PreRelease{L: "b", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "b", N: vi.Serial}
 	case "candidate":
-		ret.Pre = &pep440.PreRelease{L: "rc", N: 0}
+		ret.Pre = &pep440.PreRelease{L: "rc", N: vi.Serial}
 	case "final":
 		ret.Pre = nil
 	default:
-- 
2.43.0


From 5b807acdd44270cfe04b69ea3c20a7359a830e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:45 +0000
Subject: [PATCH 10/37] fix: ignore change times and PAX time records when
 comparing layers

---
 pkg/fsutil/diff.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/pkg/fsutil/diff.go b/pkg/fsutil/diff.go
index a58e213..501791d 100644
--- a/pkg/fsutil/diff.go
+++ b/pkg/fsutil/diff.go
@@ -38,11 +38,28 @@ func readersEqual(a, b io.Reader) (equal bool, err error) {
 func headersEqualExceptTimestamps(a, b tar.Header) bool {
 	b.ModTime = a.ModTime
 	b.AccessTime = a.AccessTime
-	b.ModTime = a.ModTime
+	b.ChangeTime = a.ChangeTime
+
+	// In the PAX format the timestamps are also listed as extended records.
+	a.PAXRecords = paxRecordsExceptTimestamps(a.PAXRecords)
+	b.PAXRecords = paxRecordsExceptTimestamps(b.PAXRecords)
 
 	return reflect.DeepEqual(a, b)
 }
 
+func paxRecordsExceptTimestamps(records map[string]string) map[string]string {
+	ret := make(map[string]string, len(records))
+	for key, val := range records {
+		switch key {
+		case "mtime", "atime", "ctime":
+			// skip
+		default:
+			ret[key] = val
+		}
+	}
+	return ret
+}
+
 func LayersEqualExceptTimestamps(aLayer, bLayer ociv1.Layer) (equal bool, err error) {
 	maybeSetErr := func(_err error) {
 		if _err != nil && err == nil {
-- 
2.43.0


From f5ce37fa8684313576f50599c4797666fca942be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:58 +0000
Subject: [PATCH 11/37] fix: dir: apply the ownership override before writing
 the header

---
 pkg/dir/dir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index a482fee..01cc923 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -122,9 +122,6 @@ func LayerFromDir(
 		if header.ChangeTime.After(clampTime) {
 			header.ChangeTime = clampTime
 		}
-		if err := tarWriter.WriteHeader(header); err != nil {
-			return err
-		}
 		if chown != nil {
 			if chown.UID >= 0 {
 				header.Uid = chown.UID
@@ -139,6 +136,9 @@ func LayerFromDir(
 				header.Gname = chown.GName
 			}
 		}
+		if err := tarWriter.WriteHeader(header); err != nil {
+			return err
+		}
 		if header.Typeflag == tar.TypeReg {
 			reader, err := os.Open(filename)
 			if err != nil {
-- 
2.43.0


From 2b4e8d96b3e635895063c4d1ae3c851e6c800afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:02 +0000
Subject: [PATCH 12/37] fix: dir: do not loop forever or repeat directories for
 unclean prefixes

---
 pkg/dir/dir.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/dir/dir.go b/pkg/dir/dir.go
index 01cc923..d4bc33a 100644
--- a/pkg/dir/dir.go
+++ b/pkg/dir/dir.go
@@ -53,7 +53,7 @@ func LayerFromDir(
 			prefix.Mode = 0o755
 		}
 		var dirs []string
-		for dir := prefix.DirName; dir != "."; dir = path.Dir(dir) {
+		for dir := path.Clean(prefix.DirName); dir != "." && dir != "/"; dir = path.Dir(dir) {
 			dirs = append(dirs, dir)
 		}
 		for i := len(dirs) - 1; i >= 0; i-- {
-- 
2.43.0


From b3ba3cfb4920e8ad77ab9e77715203216e63df1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:19 +0000
Subject: [PATCH 13/37] fix: squash: keep the whiteout of a name that becomes a
 directory

---
 pkg/squash/vfs.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 2a0c1a5..d94c2ab 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -195,7 +195,9 @@ func (f *fsfile) Set(hdr *tar.Header, body []byte) error {
 			} else {
 				delete(f.parent.children, strings.TrimPrefix(basename, ".wh."))
 			}
-		} else {
+		} else if f.header.Typeflag != tar.TypeDir {
+			// A directory does not replace what a previous whiteout hides: the lower layers'
+			// directory would show through.
 			delete(f.parent.children, ".wh."+basename)
 		}
 	}
-- 
2.43.0


From 2961ef73a35a8bf71a8878909801596c5b47a52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:24 +0000
Subject: [PATCH 14/37] fix: squash: list directories that have broken symlinks
 in them

---
 pkg/squash/vfs_fs.go | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pkg/squash/vfs_fs.go b/pkg/squash/vfs_fs.go
index 7dd2b05..561b17b 100644
--- a/pkg/squash/vfs_fs.go
+++ b/pkg/squash/vfs_fs.go
@@ -185,15 +185,14 @@ func (f *fsfileReader) ReadDir(n int) ([]fs.DirEntry, error) { //nolint:varnamel
 				lnkDirEnt = missingDirEntry(childname)
 			}
 
-			tgt, err := lnk.Get(".", false, true) // follow symlinks
-			if err != nil {
-				return nil, err
-			}
-			var tgtDirEnt fs.DirEntry
-			if tgt.header != nil {
-				tgtDirEnt = fs.FileInfoToDirEntry(tgt.header.FileInfo())
-			} else {
-				tgtDirEnt = missingDirEntry(childname)
+			tgtDirEnt := lnkDirEnt
+			// follow symlinks; a broken symlink is still an entry
+			if tgt, err := lnk.Get(".", false, true); err == nil {
+				if tgt.header != nil {
+					tgtDirEnt = fs.FileInfoToDirEntry(tgt.header.FileInfo())
+				} else {
+					tgtDirEnt = missingDirEntry(childname)
+				}
 			}
 
 			f.dirents = append(f.dirents, &dirEntry{
-- 
2.43.0


From 32beb06bc480be42718a3f0bc5f46819631cbece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:34 +0000
Subject: [PATCH 15/37] fix: squash: bound how many symlinks a lookup follows

Symlinks that loop through each other's directories recursed without end.
---
 pkg/squash/vfs.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index d94c2ab..ba6f832 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -12,6 +12,9 @@ import (
 	"syscall"
 )
 
+// maxLinks is how many symbolic links to follow in a single lookup before deciding that they loop.
+const maxLinks = 255
+
 var (
 	ErrLoop   = syscall.ELOOP
 	ErrNotDir = syscall.ENOTDIR
@@ -28,6 +31,11 @@ type fsfile struct {
 }
 
 func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, error) {
+	return fsGetLinks(dir, pathname, create, followLinks, new(int))
+}
+
+// fsGetLinks is fsGet, counting in nLinks the symbolic links that the whole lookup has followed.
+func fsGetLinks(dir *fsfile, pathname string, create, followLinks bool, nLinks *int) (*fsfile, error) {
 	pathname = path.Clean(pathname)
 
 	done := 0 // index of the next byte in pathname to look at
@@ -47,13 +55,13 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 			break
 		}
 		var err error
-		dir, err = dir.Get(pathname[done:done+slash], create, false)
+		dir, err = dir.getLinks(pathname[done:done+slash], create, false, nLinks)
 		done += slash + 1
 		if err != nil {
 			return nil, err
 		}
 	}
-	ret, err := dir.Get(pathname[done:], create, followLinks)
+	ret, err := dir.getLinks(pathname[done:], create, followLinks, nLinks)
 	if err != nil {
 		return nil, err
 	}
@@ -61,6 +69,10 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 }
 
 func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
+	return f.getLinks(child, create, followLinks, new(int))
+}
+
+func (f *fsfile) getLinks(child string, create, followLinks bool, nLinks *int) (*fsfile, error) {
 	var ret *fsfile
 
 	switch child {
@@ -70,7 +82,15 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 		ret = f
 	default:
 		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			newF, err := fsGet(f.parent, f.header.Linkname, create, true)
+			*nLinks++
+			if *nLinks > maxLinks {
+				return nil, &fs.PathError{
+					Op:   "vfs.readlink(dir)",
+					Path: "/" + f.name,
+					Err:  ErrLoop,
+				}
+			}
+			newF, err := fsGetLinks(f.parent, f.header.Linkname, create, true, nLinks)
 			if err != nil {
 				return nil, &fs.PathError{
 					Op:   "vfs.readlink(dir)",
@@ -117,17 +137,16 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 	}
 
 	// Resolve symlinks
-	stack := make(map[*fsfile]struct{})
 	for followLinks && ret != nil && ret.header != nil && ret.header.Typeflag == tar.TypeSymlink {
-		if _, loop := stack[ret]; loop {
+		*nLinks++
+		if *nLinks > maxLinks {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
 				Path: "/" + ret.name,
 				Err:  ErrLoop,
 			}
 		}
-		stack[ret] = struct{}{}
-		target, err := fsGet(ret.parent, ret.header.Linkname, create, false)
+		target, err := fsGetLinks(ret.parent, ret.header.Linkname, create, false, nLinks)
 		if err != nil {
 			return nil, &fs.PathError{
 				Op:   "vfs.readlink",
-- 
2.43.0


From 7db8fe59c3246af00e3dc973f197236ab76594cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:25 +0000
Subject: [PATCH 16/37] fix: squash: resolve ".." and the root in symlink
 targets

A ".." after a symlink is the parent of the link's target, and a target may
be the root directory itself.
---
 pkg/squash/vfs.go | 78 +++++++++++++++++++++++++----------------------
 1 file changed, 42 insertions(+), 36 deletions(-)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index ba6f832..72750a0 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -36,36 +36,33 @@ func fsGet(dir *fsfile, pathname string, create, followLinks bool) (*fsfile, err
 
 // fsGetLinks is fsGet, counting in nLinks the symbolic links that the whole lookup has followed.
 func fsGetLinks(dir *fsfile, pathname string, create, followLinks bool, nLinks *int) (*fsfile, error) {
-	pathname = path.Clean(pathname)
-
-	done := 0 // index of the next byte in pathname to look at
-
 	// handle absolute paths
 	if path.IsAbs(pathname) {
 		for dir.parent != dir {
 			dir = dir.parent
 		}
-		done++
 	}
 
-	// crawl the tree
-	for {
-		slash := strings.Index(pathname[done:], "/")
-		if slash < 0 {
-			break
+	// Don't path.Clean() it: what ".." is depends on whether what is before it is a symlink.
+	var parts []string
+	for _, part := range strings.Split(pathname, "/") {
+		if part != "" && part != "." {
+			parts = append(parts, part)
 		}
+	}
+	if len(parts) == 0 {
+		parts = []string{"."}
+	}
+
+	// crawl the tree
+	for i, part := range parts {
 		var err error
-		dir, err = dir.getLinks(pathname[done:done+slash], create, false, nLinks)
-		done += slash + 1
+		dir, err = dir.getLinks(part, create, followLinks && i == len(parts)-1, nLinks)
 		if err != nil {
 			return nil, err
 		}
 	}
-	ret, err := dir.getLinks(pathname[done:], create, followLinks, nLinks)
-	if err != nil {
-		return nil, err
-	}
-	return ret, nil
+	return dir, nil
 }
 
 func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
@@ -75,31 +72,40 @@ func (f *fsfile) Get(child string, create, followLinks bool) (*fsfile, error) {
 func (f *fsfile) getLinks(child string, create, followLinks bool, nLinks *int) (*fsfile, error) {
 	var ret *fsfile
 
+	if child != "." && f.header != nil && f.header.Typeflag == tar.TypeSymlink {
+		*nLinks++
+		if *nLinks > maxLinks {
+			return nil, &fs.PathError{
+				Op:   "vfs.readlink(dir)",
+				Path: "/" + f.name,
+				Err:  ErrLoop,
+			}
+		}
+		newF, err := fsGetLinks(f.parent, f.header.Linkname, create, true, nLinks)
+		if err != nil {
+			return nil, &fs.PathError{
+				Op:   "vfs.readlink(dir)",
+				Path: "/" + f.name,
+				Err:  err,
+			}
+		}
+		f = newF
+	}
+	// Accessing the parent of "foo" implies that "foo" is a directory.
+	if child == ".." && !create && f.header != nil && f.header.Typeflag != tar.TypeDir {
+		return nil, &fs.PathError{
+			Op:   "vfs.readdir",
+			Path: "/" + f.name,
+			Err:  ErrNotDir,
+		}
+	}
+
 	switch child {
 	case "..":
 		ret = f.parent
 	case ".":
 		ret = f
 	default:
-		if f.header != nil && f.header.Typeflag == tar.TypeSymlink {
-			*nLinks++
-			if *nLinks > maxLinks {
-				return nil, &fs.PathError{
-					Op:   "vfs.readlink(dir)",
-					Path: "/" + f.name,
-					Err:  ErrLoop,
-				}
-			}
-			newF, err := fsGetLinks(f.parent, f.header.Linkname, create, true, nLinks)
-			if err != nil {
-				return nil, &fs.PathError{
-					Op:   "vfs.readlink(dir)",
-					Path: "/" + f.name,
-					Err:  err,
-				}
-			}
-			f = newF
-		}
 		// Accessing "foo/bar" implies that "foo" is a directory; if it isn't, then white it
 		// out.
 		if f.header != nil && f.header.Typeflag != tar.TypeDir {
-- 
2.43.0


From 548638eb99492bb9529210c865ef973f6e305cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 17/37] fix: bdist: check all members that get installed as
 files against RECORD

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 4df8590..4b655b4 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -818,7 +818,9 @@ func (wh *wheel) integrityCheck() error {
 
 	todo := make(map[string]struct{})
 	for _, file := range wh.zip.File {
-		if file.FileInfo().IsDir() {
+		// Don't trust the mode bits here: it is the trailing "/" that decides whether it gets
+		// installed as a directory.
+		if strings.HasSuffix(file.Name, "/") {
 			continue
 		}
 		name := path.Clean(file.Name)
-- 
2.43.0


From 157ab78f0d06107041fbf454797de77db6eaff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 18/37] fix: bdist: reject wheels that have several members
 with the same name

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 4b655b4..9295bbd 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -817,7 +817,15 @@ func (wh *wheel) integrityCheck() error {
 	}
 
 	todo := make(map[string]struct{})
+	isDir := make(map[string]bool)
 	for _, file := range wh.zip.File {
+		// If there are several members with the same name, then what gets checked isn't what
+		// gets installed.
+		if wasDir, dup := isDir[path.Clean(file.Name)]; dup && !(wasDir && strings.HasSuffix(file.Name, "/")) {
+			return fmt.Errorf("multiple members with the same name: %q", path.Clean(file.Name))
+		}
+		isDir[path.Clean(file.Name)] = strings.HasSuffix(file.Name, "/")
+
 		// Don't trust the mode bits here: it is the trailing "/" that decides whether it gets
 		// installed as a directory.
 		if strings.HasSuffix(file.Name, "/") {
-- 
2.43.0


From ce3bb1c7d94659bb6e76a135f2d4c313167223d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 19/37] fix: bdist: reject wheel members that are outside of
 the install directory

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 9295bbd..6da90bf 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -262,6 +262,9 @@ func (wh *wheel) installToVFS(
 	}
 	vfs := make(map[string]fsutil.FileReference)
 	for _, file := range wh.zip.File {
+		if name := path.Clean(file.Name); path.IsAbs(name) || name == ".." || strings.HasPrefix(name, "../") {
+			return nil, "", fmt.Errorf("wheel member is outside of the install directory: %q", file.Name)
+		}
 		create(vfs, minTime, path.Join(dstDir, file.FileHeader.Name), &zipEntry{
 			header: file.FileHeader,
 			open:   file.Open,
-- 
2.43.0


From 41b10b7bb3a083de6b2919c993fb5e3548353cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 20/37] fix: bdist: spread .data members in a fixed order

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index 6da90bf..ca2c10f 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -290,10 +290,16 @@ func (wh *wheel) installToVFS(
 	}
 	vfsTypes := make(map[string]string)
 	dataDir := path.Join(dstDir, strings.TrimSuffix(distInfoDir, ".dist-info")+".data")
+	// Use a fixed order, so that if several members land on the same path, then it's always the
+	// same one that wins.
+	dataNames := make([]string, 0, len(vfs))
 	for fullName := range vfs {
-		if !strings.HasPrefix(fullName, dataDir+"/") {
-			continue
+		if strings.HasPrefix(fullName, dataDir+"/") {
+			dataNames = append(dataNames, fullName)
 		}
+	}
+	sort.Strings(dataNames)
+	for _, fullName := range dataNames {
 		relName := strings.TrimPrefix(fullName, dataDir+"/")
 		parts := strings.SplitN(relName, "/", 2)
 		key := parts[0]
-- 
2.43.0


From e22beb515e6836429297bea70d1429ef6c696841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 21/37] fix: bdist: handle large build numbers

---
 pkg/python/pypa/bdist/binary_distribution_format.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/python/pypa/bdist/binary_distribution_format.go b/pkg/python/pypa/bdist/binary_distribution_format.go
index ca2c10f..8ccd596 100644
--- a/pkg/python/pypa/bdist/binary_distribution_format.go
+++ b/pkg/python/pypa/bdist/binary_distribution_format.go
@@ -543,7 +543,10 @@ func ParseFilename(filename string) (*FileNameData, error) {
 	ret.Version = *ver
 
 	if buildN := match[reFilename.SubexpIndex("build_n")]; buildN != "" {
-		n, _ := strconv.Atoi(buildN)
+		n, err := strconv.Atoi(buildN)
+		if err != nil {
+			return nil, fmt.Errorf("invalid wheel filename: %q: %w", filename, err)
+		}
 		ret.BuildTag = &BuildTag{
 			Int: n,
 			Str: match[reFilename.SubexpIndex("build_l")],
@@ -577,10 +580,11 @@ func (a *BuildTag) Cmp(b *BuildTag) int {
 	case a != nil && b == nil:
 		return 1
 	}
-	if d := a.Int - b.Int; d != 0 {
-		return d
-	}
 	switch {
+	case a.Int < b.Int:
+		return -1
+	case a.Int > b.Int:
+		return 1
 	case a.Str < b.Str:
 		return -1
 	case a.Str > b.Str:
-- 
2.43.0


From 4d311d1968fe4f679cde84145918801c13a5c188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 22/37] fix: bdist: clean the paths of the scheme

---
 pkg/python/pypa/bdist/misc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/bdist/misc.go b/pkg/python/pypa/bdist/misc.go
index c50a4d7..6d36594 100644
--- a/pkg/python/pypa/bdist/misc.go
+++ b/pkg/python/pypa/bdist/misc.go
@@ -27,7 +27,7 @@ func sanitizePlatformForLayer(plat python.Platform) (python.Platform, error) {
 		&plat.Scheme.Data,
 	}
 	for _, pathPtr := range paths {
-		clean := strings.TrimPrefix(filepath.ToSlash(*pathPtr), "/")
+		clean := strings.TrimPrefix(path.Clean(filepath.ToSlash(*pathPtr)), "/")
 		*pathPtr = clean
 	}
 
-- 
2.43.0


From 4f5bf0e77664c55ac59844a29414c3b8c86546a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 23/37] fix: entry_points: import the first attribute, not the
 dotted path

---
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index ee915cd..12740a2 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -27,7 +27,7 @@ var (
 # -*- coding: utf-8 -*-
 import re
 import sys
-from {{ .Module }} import {{ .Func }}
+from {{ .Module }} import {{ .ImportName }}
 if __name__ == '__main__':
     sys.argv[0] = re.sub(r'(-script\.pyw|\.exe)?$', '', sys.argv[0])
     sys.exit({{ .Func }}())
-- 
2.43.0


From b80a4cfb5bf4799c27e839529f69672a18c23827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 24/37] fix: entry_points: reject references that are not made
 of identifiers

---
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 12740a2..2eb4f3b 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -42,7 +42,7 @@ if __name__ == '__main__':
 
 	// This is lax on validation of the [extras] part, but that's OK; we don't care about that
 	// part.
-	reFuncRef = regexp.MustCompile(`^(?P<callable>\w+([:.]\w+)*)(?:\s*\[.*\])?$`)
+	reFuncRef = regexp.MustCompile(`^(?P<callable>[A-Za-z_]\w*([:.][A-Za-z_]\w*)*)(?:\s*\[.*\])?$`)
 )
 
 func CreateScripts(plat python.Platform) bdist.PostInstallHook {
-- 
2.43.0


From 71a57870ba509e044498441d12645c4a5d545c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 25/37] fix: entry_points: reject script names that are not in
 the scripts directory

---
 pkg/python/pypa/entry_points/entry_points.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index 2eb4f3b..c60ac1f 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -80,6 +80,9 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				continue
 			}
 			for key, val := range sectionData {
+				if key == "." || key == ".." || strings.Contains(key, "/") {
+					return fmt.Errorf("entry_points.txt: %q: %q: not a file name", sectionName, key)
+				}
 				m := reFuncRef.FindStringSubmatch(val)
 				if m == nil {
 					return fmt.Errorf("entry_points.txt: %q: %q: not a function reference: %q",
-- 
2.43.0


From e3dd7fda605b48bb3d904c7e7bccd198fb772886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 26/37] fix: entry_points: handle the sections in a fixed order

---
 pkg/python/pypa/entry_points/entry_points.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index c60ac1f..b3ad814 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -69,12 +69,14 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 			return err
 		}
 
-		interesting := map[string]string{
-			"console_scripts": plat.ConsoleShebang,
-			"gui_scripts":     plat.GraphicalShebang,
+		// If a name is in both sections, then it's always the later one that wins.
+		interesting := []struct{ sectionName, shebang string }{
+			{"console_scripts", plat.ConsoleShebang},
+			{"gui_scripts", plat.GraphicalShebang},
 		}
 
-		for sectionName, shebang := range interesting {
+		for _, item := range interesting {
+			sectionName, shebang := item.sectionName, item.shebang
 			sectionData, ok := configData[sectionName]
 			if !ok {
 				continue
-- 
2.43.0


From 55c117b166e123d49f1927f80a00fd9b52219c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 27/37] fix: entry_points: clean the path of the scripts
 directory

---
 pkg/python/pypa/entry_points/entry_points.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/python/pypa/entry_points/entry_points.go b/pkg/python/pypa/entry_points/entry_points.go
index b3ad814..0b94994 100644
--- a/pkg/python/pypa/entry_points/entry_points.go
+++ b/pkg/python/pypa/entry_points/entry_points.go
@@ -107,7 +107,7 @@ func CreateScripts(plat python.Platform) bdist.PostInstallHook {
 				}
 				header := &tar.Header{
 					Typeflag: tar.TypeReg,
-					Name:     path.Join(plat.Scheme.Scripts[1:], key),
+					Name:     path.Join("/", plat.Scheme.Scripts, key)[1:],
 					Mode:     0o755,
 					Size:     int64(buf.Len()),
 					ModTime:  clampTime,
-- 
2.43.0


From eb7c77ea0743b75d14ef6115e2feab29e6362761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 28/37] fix: pep503: get the signature, not the file

---
 pkg/python/pep503/simple_repo_api.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index fba7170..a81e1bc 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -288,14 +288,26 @@ func (l FileLink) Get(ctx context.Context) ([]byte, error) {
 var ErrNoSignature = errors.New("no signature")
 
 func (l FileLink) GetSignature(ctx context.Context) ([]byte, error) {
+	// "the signature file MUST have the same name as the file, with .asc appended"; the fragment
+	// is about the file, not about the signature.
+	sigURL, err := url.Parse(l.HRef)
+	if err != nil {
+		return nil, err
+	}
+	sigURL.Fragment, sigURL.RawFragment = "", ""
+	sigURL.Path += ".asc"
+	if sigURL.RawPath != "" {
+		sigURL.RawPath += ".asc"
+	}
+
 	switch l.DataAttrs["data-gpg-sig"] {
 	case "false":
 		return nil, ErrNoSignature
 	case "true":
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL.String())
 		return content, err
 	default:
-		_, content, err := l.client.get(ctx, l.HRef)
+		_, content, err := l.client.get(ctx, sigURL.String())
 		var httpErr *HTTPError
 		if err != nil && errors.As(err, &httpErr) && httpErr.StatusCode == http.StatusNotFound {
 			err = ErrNoSignature
-- 
2.43.0


From ee5cf398e21daf518a767e8786683da8771bf9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 29/37] fix: pep503: check checksums that are next to malformed
 fragment parts

---
 pkg/python/pep503/simple_repo_api.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pep503/simple_repo_api.go b/pkg/python/pep503/simple_repo_api.go
index a81e1bc..6c99347 100644
--- a/pkg/python/pep503/simple_repo_api.go
+++ b/pkg/python/pep503/simple_repo_api.go
@@ -89,7 +89,8 @@ func (c Client) get(ctx context.Context, requestURL string) (_ *url.URL, _ []byt
 		return nil, nil, &HTTPError{Status: resp.Status, StatusCode: resp.StatusCode}
 	}
 	if u, err := url.Parse(requestURL); err == nil && u.Fragment != "" {
-		if keyvals, err := url.ParseQuery(u.Fragment); err == nil {
+		// If there is an error, then keyvals still has everything that is well-formed.
+		if keyvals, _ := url.ParseQuery(u.Fragment); len(keyvals) > 0 {
 			for key, vals := range keyvals {
 				for _, val := range vals {
 					newHasher := python.HashlibAlgorithmsGuaranteed[key]
-- 
2.43.0


From af9ab0187cd0a191dda19196e0565fffe09c4d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:03 +0000
Subject: [PATCH 30/37] fix: direct_url: separate array elements that are not
 scalars

---
 pkg/python/pypa/direct_url/json.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/python/pypa/direct_url/json.go b/pkg/python/pypa/direct_url/json.go
index cfb50d3..4ee7127 100644
--- a/pkg/python/pypa/direct_url/json.go
+++ b/pkg/python/pypa/direct_url/json.go
@@ -40,6 +40,15 @@ func jsonDumps(typedObj interface{}) ([]byte, error) {
 			mapStack[depth]++
 		}
 	}
+	startObj := func() {
+		if depth := len(mapStack) - 1; mapStack[depth] < -1 {
+			// we're inside an array
+			_, _ = dst.WriteString(", ")
+		} else if mapStack[depth] > 1 && mapStack[depth]%2 == 1 {
+			// we're inside an map
+			_, _ = dst.WriteString(", ")
+		}
+	}
 	for {
 		tok, err := decoder.Token()
 		if err != nil {
@@ -53,8 +62,10 @@ func jsonDumps(typedObj interface{}) ([]byte, error) {
 		case json.Delim:
 			switch tok {
 			case '[':
+				startObj()
 				mapStack = append(mapStack, -1)
 			case '{':
+				startObj()
 				mapStack = append(mapStack, 1)
 			case '}', ']':
 				mapStack = mapStack[:len(mapStack)-1]
@@ -62,13 +73,7 @@ func jsonDumps(typedObj interface{}) ([]byte, error) {
 			}
 			dst.WriteRune(rune(tok))
 		default:
-			if depth := len(mapStack) - 1; mapStack[depth] < -1 {
-				// we're inside an array
-				_, _ = dst.WriteString(", ")
-			} else if mapStack[depth] > 1 && mapStack[depth]%2 == 1 {
-				// we're inside an map
-				_, _ = dst.WriteString(", ")
-			}
+			startObj()
 
 			bs, err := json.Marshal(tok)
 			if err != nil {
-- 
2.43.0


From 7c097b294f5a0e5af3e881e7e7b41cc93b1137e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:37 +0000
Subject: [PATCH 31/37] fix: ConfigParser: an option without a name is an error

---
 pkg/python/configparser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index deb6eb5..daacd82 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -143,6 +143,9 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 			if sepPos == len(value) {
 				return nil, fmt.Errorf("line %d: invalid line: %q", lineno, value)
 			}
+			if sepPos == 0 {
+				return nil, fmt.Errorf("line %d: no option name: %q", lineno, value)
+			}
 			curKey = p.OptionTransform(strings.TrimSpace(value[:sepPos]))
 			curVal = []string{
 				strings.TrimSpace(value[sepPos+sepLen:]),
-- 
2.43.0


From f77528cabb5eafb55ef46fac1b5136b7fb2b060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:37 +0000
Subject: [PATCH 32/37] fix: ConfigParser: recognize section headers like
 configparser.py does

---
 pkg/python/configparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index daacd82..16cc4ba 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -112,11 +112,11 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 		case curVal != nil && lineIndentLevel > 0 && lineIndentLevel > curIndentLevel:
 			// continuation line
 			curVal = append(curVal, value)
-		case strings.HasPrefix(value, "[") && strings.HasSuffix(value, "]"):
+		case strings.HasPrefix(value, "[") && strings.LastIndex(value, "]") > 1:
 			// section header
 			flushKV()
 			curIndentLevel = lineIndentLevel
-			sectName := strings.TrimSuffix(strings.TrimPrefix(value, "["), "]")
+			sectName := value[1:strings.LastIndex(value, "]")]
 			if _, exists := config[sectName]; !exists {
 				config[sectName] = make(ConfigSection)
 			} else if p.Strict {
-- 
2.43.0


From 14906ef5bd813a2fcbf6edc631b58a98a31fbd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:37 +0000
Subject: [PATCH 33/37] fix: ConfigParser: count indentation in characters, not
 in bytes

---
 pkg/python/configparser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index 16cc4ba..8b64a58 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -102,11 +102,11 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 		}
 
 		lineIndentLevel := 0
-		for i, r := range line {
+		for _, r := range line {
 			if !unicode.IsSpace(r) {
-				lineIndentLevel = i
 				break
 			}
+			lineIndentLevel++
 		}
 		switch {
 		case curVal != nil && lineIndentLevel > 0 && lineIndentLevel > curIndentLevel:
-- 
2.43.0


From 71409f76cac7bf98e33f84994d32430ac252a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:37 +0000
Subject: [PATCH 34/37] fix: ConfigParser: without EmptyLinesInValues an empty
 line ends the value

---
 pkg/python/configparser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index 8b64a58..fc1bcb0 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 	"strings"
 	"unicode"
 )
@@ -96,7 +97,8 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 					curVal = append(curVal, value)
 				}
 			} else {
-				curIndentLevel = 0
+				// an empty line marks the end of the value
+				curIndentLevel = math.MaxInt
 			}
 			continue
 		}
-- 
2.43.0


From 4adeceb589f47c21408c71c04f044809522870ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:54 +0000
Subject: [PATCH 35/37] fix: ConfigParser: inline comments start at a prefix
 that follows a space

---
 pkg/python/configparser.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pkg/python/configparser.go b/pkg/python/configparser.go
index fc1bcb0..8473d0e 100644
--- a/pkg/python/configparser.go
+++ b/pkg/python/configparser.go
@@ -9,6 +9,7 @@ import (
 	"math"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 type Config map[string]ConfigSection
@@ -75,10 +76,21 @@ func (p *ConfigParser) Parse(_file io.Reader) (Config, error) {
 		lineno++
 		// strip comments and whitespace
 		commentStart := len(line)
-		for _, commentPrefix := range p.InlineCommentPrefixes {
-			index := strings.Index(line, commentPrefix)
-			if index > 0 && index < commentStart {
-				commentStart = index
+		searchFrom := make([]int, len(p.InlineCommentPrefixes))
+		for more := true; more && commentStart == len(line); {
+			more = false
+			for i, commentPrefix := range p.InlineCommentPrefixes {
+				index := strings.Index(line[searchFrom[i]:], commentPrefix)
+				if index < 0 {
+					continue
+				}
+				more = true
+				index += searchFrom[i]
+				searchFrom[i] = index + 1
+				prevRune, _ := utf8.DecodeLastRuneInString(line[:index])
+				if (index == 0 || unicode.IsSpace(prevRune)) && index < commentStart {
+					commentStart = index
+				}
 			}
 		}
 		for _, commentPrefix := range p.CommentPrefixes {
-- 
2.43.0


From b3cb302a836d902ff98d02c7469fd7f72df28ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:12 +0000
Subject: [PATCH 36/37] fix: ImageFS: allow absolute names that are not clean

---
 pkg/python/pyinspect/fs_image.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/python/pyinspect/fs_image.go b/pkg/python/pyinspect/fs_image.go
index d22343c..7a2307f 100644
--- a/pkg/python/pyinspect/fs_image.go
+++ b/pkg/python/pyinspect/fs_image.go
@@ -100,7 +100,12 @@ func (sys *ImageFS) Stat(name string) (FileInfo, error) {
 	if err := sys.ensureInitialized(); err != nil {
 		return nil, err
 	}
-	fileinfo, err := fs.Stat(sys.imgFS, name[1:])
+	// io/fs requires names to be clean and relative.
+	fsName := strings.TrimPrefix(path.Clean(name), "/")
+	if fsName == "" {
+		fsName = "."
+	}
+	fileinfo, err := fs.Stat(sys.imgFS, fsName)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 680b27513d37ef5cef030d4f96ac8a734fa81b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:13 +0000
Subject: [PATCH 37/37] fix: squash: sort opaque whiteouts before other
 whiteouts

---
 pkg/squash/vfs.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/squash/vfs.go b/pkg/squash/vfs.go
index 72750a0..879ad4b 100644
--- a/pkg/squash/vfs.go
+++ b/pkg/squash/vfs.go
@@ -260,6 +260,9 @@ func (f *fsfile) WriteTo(tarWriter *tar.Writer) error {
 			return true
 		case !iWhiteout && jWhiteout:
 			return false
+		// An opaque whiteout hides the markers before it, so it goes before all of them.
+		case iStr == ".wh..wh..opq" || jStr == ".wh..wh..opq":
+			return iStr != jStr && iStr == ".wh..wh..opq"
 		}
 		return iStr < jStr
 	})
-- 
2.43.0


package bdist

import (
	"fmt"
	"math"
	"math/rand"
	"strings"
	"testing"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
)

func vnSign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func vnTag(r *rand.Rand) *BuildTag {
	if r.Intn(5) == 0 {
		return nil
	}
	return &BuildTag{
		Int: []int{0, 1, 2, 3, 10, 100, 1 << 31, 1 << 32, 1<<32 + 1, math.MaxInt64, math.MaxInt64 - 1, 1 << 62}[r.Intn(12)],
		Str: vwPick(r, "", "", "a", "b", "aa", "ab", "_", ".1", "a1", "Z", "z9", strings.TrimLeft(vnText(r), "0123456789")),
	}
}

// vnText is any text without a dash.
func vnText(r *rand.Rand) string {
	s := ""
	for n := 1 + r.Intn(5); n > 0; n-- {
		s += vwPick(r, "a", "B", "z", "0", "1", "9", ".", "_", "+", "!", "~", "\u00e9", " ", "\n", "whl")
	}
	return s
}

// vnRank compares as PEP 427 says.
func vnRank(a, b *BuildTag) int {
	if a == nil || b == nil {
		switch {
		case a == nil && b == nil:
			return 0
		case a == nil:
			return -1
		}
		return 1
	}
	if a.Int != b.Int {
		if a.Int < b.Int {
			return -1
		}
		return 1
	}
	return strings.Compare(a.Str, b.Str)
}

func vnShow(t *BuildTag) string {
	if t == nil {
		return "none"
	}
	return fmt.Sprintf("(%d,%q)", t.Int, t.Str)
}

func TestVerif_C08_order(t *testing.T) {
	h := newVH(t, "C08", "order", "random pairs of build tags, including huge numbers, against the order of PEP 427", 3000)
	defer h.done()
	for h.more() {
		a, b := vnTag(h.r), vnTag(h.r)
		in := vnShow(a) + " and " + vnShow(b)
		h.tick(in)
		h.try("comparing build tags does not panic", in, func() {
			if got, want := vnSign(a.Cmp(b)), vnRank(a, b); got != want {
				h.fail("build tags are ordered: absent first, then by number, then by text", in, "got %d, want %d", got, want)
			}
		})
	}
}

// vnSplit reads a wheel file name by hand.
func vnSplit(name string) (dist, ver, build string, tag [3]string, ok bool) {
	if !strings.HasSuffix(name, ".whl") {
		return
	}
	parts := strings.Split(strings.TrimSuffix(name, ".whl"), "-")
	for _, p := range parts {
		if p == "" {
			return
		}
	}
	switch len(parts) {
	case 5:
		return parts[0], parts[1], "", [3]string{parts[2], parts[3], parts[4]}, true
	case 6:
		if parts[2][0] < '0' || parts[2][0] > '9' {
			return
		}
		return parts[0], parts[1], parts[2], [3]string{parts[3], parts[4], parts[5]}, true
	}
	return
}

func TestVerif_C08_parse(t *testing.T) {
	h := newVH(t, "C08", "parse", "random texts put together from pieces of file names, against splitting them by hand", 15000)
	defer h.done()
	for h.more() {
		r := h.r
		var parts []string
		n := []int{5, 5, 5, 6, 6, 6, 4, 7, 3, 1}[r.Intn(10)]
		for i := 0; i < n; i++ {
			switch {
			case i == 1:
				parts = append(parts, vwPick(r, "1.0", "2!3.4", "1.0.post1", "1.0a1", "1.0+local.1", "0", "bad", "1.0.dev3", "v1", "1.0_rc1", ""))
			case i == 2 && n == 6:
				parts = append(parts, vwPick(r, "1", "0", "12abc", "1_x", "007", "3.1", "99999999999999999999", "9223372036854775807", "x1", "1a1", "9223372036854775808b", "", "1"+vnText(r), vnText(r)))
			default:
				parts = append(parts, vwPick(r, "foo", "Foo_bar", "a.b", "py3", "py2.py3", "cp39", "abi3", "none", "any", "manylinux1_x86_64.manylinux2010_x86_64", "", "1", "\n", "é", "x.whl", vnText(r), vnText(r)))
			}
		}
		name := strings.Join(parts, "-") + vwPick(r, ".whl", ".whl", ".whl", ".whl", "", ".WHL", ".whl\n", ".whl.asc", "whl", ".tar.gz")
		name = vwPick(r, "", "", "", "", "", "-", " ") + name
		h.tick(name)
		h.try("reading a file name does not panic", fmt.Sprintf("%q", name), func() {
			dist, ver, build, tag, ok := vnSplit(name)
			var wantVer *pep440.Version
			var wantTag *BuildTag
			if ok {
				v, err := pep440.ParseVersion(ver)
				ok = err == nil
				wantVer = v
			}
			if build != "" {
				i := 0
				for i < len(build) && build[i] >= '0' && build[i] <= '9' {
					i++
				}
				num := strings.TrimLeft(build[:i], "0")
				wantTag = &BuildTag{Str: build[i:]}
				if len(num) > 19 || len(num) == 19 && num > "9223372036854775807" {
					ok = false
				} else {
					for _, c := range num {
						wantTag.Int = wantTag.Int*10 + int(c-'0')
					}
				}
			}
			got, err := ParseFilename(name)
			if (err == nil) != ok {
				h.fail("exactly the well-formed names are accepted", fmt.Sprintf("%q", name), "got error %v, want accepted=%v", err, ok)
				return
			}
			if err != nil {
				return
			}
			if got.Distribution != dist || got.Version.Cmp(*wantVer) != 0 || got.Version.String() != wantVer.String() {
				h.fail("the distribution and version are those spelled", fmt.Sprintf("%q", name), "%q %v", got.Distribution, got.Version)
			}
			if vnShow(got.BuildTag) != vnShow(wantTag) {
				h.fail("the build tag is the one spelled", fmt.Sprintf("%q", name), "%s, want %s", vnShow(got.BuildTag), vnShow(wantTag))
			}
			if got.CompatibilityTag != (pep425.Tag{Python: tag[0], ABI: tag[1], Platform: tag[2]}) {
				h.fail("the compatibility tag is the one spelled", fmt.Sprintf("%q", name), "%v", got.CompatibilityTag)
			}
		})
	}
}

func TestVerif_C08_generate(t *testing.T) {
	h := newVH(t, "C08", "generate", "random file name data; the generated name is read by hand and by ParseFilename", 8000)
	defer h.done()
	for h.more() {
		r := h.r
		var dist strings.Builder
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			dist.WriteString(vwPick(r, "a", "B", "0", "-", "_", ".", "--", "._-", "foo", "Z", "\u00e9"))
		}
		v, err := pep440.ParseVersion(vwPick(r, "1.0", "1!2.0", "1.0.post1", "1.0-1", "1.0a1.dev2", "1.0+local-1", "1.0.0", "v2", "1.0RC1", "3.4_post5"))
		if err != nil {
			panic(err)
		}
		data := FileNameData{Distribution: dist.String(), Version: *v, BuildTag: vnTag(r), CompatibilityTag: pep425.Tag{Python: vwPick(r, "py3", "py2.py3", "cp39", vnText(r)), ABI: vwPick(r, "none", "cp39", "abi3.none"), Platform: vwPick(r, "any", "linux_x86_64", "manylinux1_x86_64.manylinux2010_x86_64")}}
		bad := false
		switch r.Intn(8) {
		case 0:
			data.CompatibilityTag.ABI, bad = "a-b", true
		case 1:
			data.BuildTag, bad = &BuildTag{1, "a-b"}, true
		}
		in := fmt.Sprintf("%q %v %s %v", data.Distribution, data.Version, vnShow(data.BuildTag), data.CompatibilityTag)
		h.tick(in)
		h.try("generating a file name does not panic", in, func() {
			name, err := GenerateFilename(data)
			if bad {
				if err == nil {
					h.fail("data that would not read back is refused", in, "%q", name)
				}
				return
			}
			if err != nil {
				h.fail("a file name is generated", in, "%v", err)
				return
			}
			want := ""
			run := false
			for _, c := range data.Distribution {
				if c == '-' || c == '_' || c == '.' {
					if !run {
						want += "_"
					}
					run = true
				} else {
					want += string(c)
					run = false
				}
			}
			gd, _, gb, gt, ok := vnSplit(name)
			wb := ""
			if data.BuildTag != nil {
				wb = fmt.Sprintf("%d%s", data.BuildTag.Int, data.BuildTag.Str)
			}
			if !ok || gd != want || gb != wb || gt != [3]string{data.CompatibilityTag.Python, data.CompatibilityTag.ABI, data.CompatibilityTag.Platform} {
				h.fail("the generated name spells the data", in, "%q", name)
				return
			}
			got, err := ParseFilename(name)
			if err != nil {
				h.fail("the generated name reads back", in, "%q: %v", name, err)
				return
			}
			if got.Distribution != want || got.Version.Cmp(data.Version) != 0 || vnShow(got.BuildTag) != vnShow(data.BuildTag) || got.CompatibilityTag != data.CompatibilityTag {
				h.fail("the generated name reads back to the same data", in, "%q: %v", name, got)
			}
		})
	}
}

package simple_repo_api

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
)

type verifIndex struct{ page string }

func (s *verifIndex) RoundTrip(req *http.Request) (*http.Response, error) {
	return &http.Response{Status: "200 OK", StatusCode: 200, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{},
		Body: io.NopCloser(bytes.NewReader([]byte(s.page))), ContentLength: -1, Request: req}, nil
}

type verifWheel struct {
	name    string
	wheel   bool
	version string
	tags    []string // of this file, as py-abi-plat without compression
	yanked  bool
	index   int
}

func TestVerif_C09_select(t *testing.T) {
	h := newVH(t, "C09", "select", "the selected link is a supported wheel of the best allowed version with the most preferred tag; otherwise there is an error", 5000)
	defer h.done()
	vers := []string{"1.0", "1.0.0", "1.1", "1.2", "1.10", "2.0", "2.0a1", "2.0.dev3", "2.1rc1", "1!0.5", "2.0.post1", "0.9", "3.0b2", "1.2+local.1"}
	pys, abis, plats := []string{"cp39", "cp310", "py3", "py2", "py2.py3"}, []string{"cp39", "abi3", "none"}, []string{"linux_x86_64", "manylinux1_x86_64", "any", "win32", "manylinux1_x86_64.linux_x86_64"}
	for h.more() {
		r := h.r
		var inst pep425.Installer
		var instTags []string
		for i, n := 0, r.Intn(7+2); i < n; i++ {
			tag := pep425.Tag{Python: pys[r.Intn(4)], ABI: abis[r.Intn(3)], Platform: plats[r.Intn(4)]}
			inst = append(inst, tag)
			instTags = append(instTags, tag.Python+"-"+tag.ABI+"-"+tag.Platform)
		}
		var ws []verifWheel
		var page strings.Builder
		page.WriteString("<html><body>")
		few := vers[:]
		if r.Intn(2) == 0 {
			a := r.Intn(len(vers) - 2)
			few = vers[a : a+3]
		}
		for i, n := 0, r.Intn(9+2); i < n; i++ {
			w := verifWheel{index: i, yanked: r.Intn(5) == 0, version: few[r.Intn(len(few))]}
			py, abi, plat := pys[r.Intn(5)], abis[r.Intn(3)], plats[r.Intn(5)]
			if len(inst) > 0 && r.Intn(2) == 0 {
				x := inst[r.Intn(len(inst))]
				py, abi, plat = x.Python, x.ABI, x.Platform
			}
			for _, a := range strings.Split(py, ".") {
				for _, c := range strings.Split(plat, ".") {
					w.tags = append(w.tags, a+"-"+abi+"-"+c)
				}
			}
			build := []string{"", "", "1-", "2b-", "10-"}[r.Intn(5)]
			w.wheel = true
			w.name = fmt.Sprintf("foo-%s-%s%s-%s-%s.whl", w.version, build, py, abi, plat)
			switch r.Intn(12) {
			case 0:
				w.name, w.wheel = "foo-"+w.version+".tar.gz", false
			case 1:
				w.name, w.wheel = "foo-9.9-"+py+"-"+abi+".whl", false
			case 2:
				w.name, w.wheel = "foo-not.a.version-"+py+"-"+abi+"-"+plat+".whl", false
			case 3:
				w.name, w.wheel = w.name+".asc", false
			}
			fmt.Fprintf(&page, `<a href="f%d"`, i)
			if w.yanked {
				page.WriteString(` data-yanked=""`)
			}
			fmt.Fprintf(&page, ">%s</a>\n", w.name)
			ws = append(ws, w)
		}
		page.WriteString("</body></html>")
		specStr := []string{"", ">=1.0", "<2", "==1.0", "==1.*", "~=1.0", ">=2.0a1", "!=1.2", ">3", "<=2.0", "==2.0a1", ">0.5,<1.10"}[r.Intn(12)]
		spec, err := pep440.ParseSpecifier(specStr)
		if err != nil {
			t.Fatal(err)
		}
		rank := func(w verifWheel) int {
			for i, x := range instTags {
				for _, y := range w.tags {
					if x == y {
						return i + 1
					}
				}
			}
			return 0
		}
		parse := func(s string) pep440.Version {
			v, err := pep440.ParseVersion(s)
			if err != nil {
				t.Fatal(err)
			}
			return *v
		}
		yanked := map[string]bool{}
		for _, w := range ws {
			if w.wheel && rank(w) != 0 && w.yanked {
				yanked[w.version] = true
			}
		}
		var best *verifWheel
		allowed := func(w verifWheel) bool { v := parse(w.version); return !v.IsPreRelease() && !yanked[w.version] }
		for i, w := range ws {
			if !w.wheel || rank(w) == 0 || !spec.Match(parse(w.version)) {
				continue
			}
			if best != nil {
				bv, wv := allowed(*best), allowed(w)
				if bv && !wv || bv == wv && parse(w.version).Cmp(parse(best.version)) <= 0 {
					continue
				}
			}
			best = &ws[i]
		}
		in := fmt.Sprintf("specifier %q, tags %q, index:\n%s", specStr, instTags, page.String())
		h.tick(in)
		h.try("selecting", in, func() {
			c := NewClient(nil, inst)
			c.BaseURL = "http://h/simple"
			c.HTTPClient = &http.Client{Transport: &verifIndex{page.String()}}
			got, err := c.SelectWheel(context.Background(), "foo", spec)
			if (best == nil) != (err != nil) || (err != nil) != (got == nil) {
				h.fail("an error exactly when no file qualifies", in, "got %v, %v; best %v", got, err, best)
				return
			}
			if err != nil {
				return
			}
			var sel *verifWheel
			for i, w := range ws {
				if strings.HasSuffix(got.HRef, fmt.Sprintf("/f%d", w.index)) {
					sel = &ws[i]
				}
			}
			switch {
			case sel == nil:
				h.fail("the link is one of the index", in, "%v", got.Link)
			case !sel.wheel || rank(*sel) == 0:
				h.fail("the link is a supported wheel", in, "%v", got.Link)
			case !spec.Match(parse(sel.version)):
				h.fail("the version satisfies the specifier", in, "%v", got.Link)
			case allowed(*sel) != allowed(*best) || parse(sel.version).Cmp(parse(best.version)) != 0:
				h.fail("the version is the best one", in, "%v; best %v", got.Link, best.name)
			default:
				for _, w := range ws {
					if w.wheel && rank(w) != 0 && w.version == sel.version && rank(w) < rank(*sel) {
						h.fail("the tag is the most preferred one", in, "%v; better %v", got.Link, w.name)
					}
				}
			}
		})
	}
}

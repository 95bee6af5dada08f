package pep503

import (
	"context"
	"net/url"

	"github.com/datawire/ocibuild/pkg/python/pep440"
)

// ---- ListPackageFiles ----

type ghostList struct {
	base      string
	failParse bool
	failGet   bool
	u         *url.URL
	path      string
	asked     int
	name      string
	str       string
	raw       []Link
	python    *pep440.Version
}

var ghostListing *ghostList

//gocv:pure specNormal
func specNormal(name string) string { return normalize(name) }

//gocv:extern github.com/datawire/ocibuild/pkg/python/pep503.normalize LIST
func model_normalize(name string) string { return specNormal(name) }

//gocv:pure specJoined
func specJoined(a, b string) string { return a + "/" + b }

//gocv:extern path.Join LIST
func model_Join(elem ...string) string {
	check("joins two parts", len(elem) == 2)
	return specJoined(elem[0], elem[1])
}

//gocv:extern net/url.Parse LIST
func model_listParse(u string) (*url.URL, error) {
	g := ghostListing
	want := g.base
	if want == "" {
		want = PyPIBaseURL
	}
	check("the page is below the base URL", u == want)
	if g.failParse {
		return nil, errGhost
	}
	return g.u, nil
}

//gocv:extern (*net/url.URL).String LIST
func model_listString(u *url.URL) string {
	g := ghostListing
	check("the page is that of the normalized name", u == g.u && u.Path == specJoined(g.path, specNormal(g.name)))
	return g.str
}

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pep503.Client).getHTML5Index LIST
func model_getIndex(c Client, ctx context.Context, u string) ([]Link, error) {
	g := ghostListing
	check("the page is requested once", u == g.str && g.asked == 0)
	check("names with other characters are refused without a request", forall(0, len(g.name), func(i int) bool { return specLegal(g.name[i]) }))
	g.asked++
	if g.failGet {
		return nil, errGhost
	}
	return g.raw, nil
}

//gocv:pure specPythonOK
func specPythonOK(req string) bool { return true }

//gocv:pure specPythonParses
func specPythonParses(req string) bool { return true }

//gocv:extern github.com/datawire/ocibuild/pkg/python/pep345.HaveRequiredPython LIST
func model_HaveRequired(v pep440.Version, req string) (bool, error) {
	if !specPythonParses(req) {
		return false, errGhost
	}
	return specPythonOK(req), nil
}

// specExcluded: the link says that it is not for this interpreter.
func specExcluded(l Link) bool {
	req := l.DataAttrs["data-requires-python"]
	return req != "" && specPythonParses(req) && !specPythonOK(req)
}

func identicalAttrs(a, b map[string]string) bool { return false }

func specSameLink(a, b Link) bool {
	return a.Text == b.Text && a.HRef == b.HRef && identicalAttrs(a.DataAttrs, b.DataAttrs)
}

// specCount: how many of the first n links are listed.
//
//gocv:pure specCount
func specCount(n int) int { return n }

func specKept(g *ghostList, i int) bool { return g.python == nil || !specExcluded(g.raw[i]) }

//gocv:contract C22 Client.ListPackageFiles use=LIST noreplay
func contract_ListPackageFiles(c Client, g *ghostList, u *url.URL, raw []Link) {
	requires(g != nil && u != nil && g.asked == 0)
	requires(forall(0, len(raw), func(i int) bool { return raw[i].DataAttrs != nil }))
	g.base, g.u, g.path, g.raw, g.python = c.BaseURL, u, u.Path, raw, c.Python
	// specCount is the number of kept links by definition
	requires(specCount(0) == 0 && forall(0, len(raw), func(i int) bool {
		return implies(specKept(g, i), specCount(i+1) == specCount(i)+1) && implies(!specKept(g, i), specCount(i+1) == specCount(i))
	}))
	scheme, host := u.Scheme, u.Host
	ghostListing = g
	links, err := c.ListPackageFiles(context.Background(), g.name)
	ensures("the page is at the same place", u.Scheme == scheme && u.Host == host)
	if err == nil {
		ensures("the page is requested", g.asked == 1)
		ensures("all links but the excluded ones are listed", len(links) == specCount(len(raw)))
		ensures("in the order of the page", forall(0, len(raw), func(i int) bool {
			return !specKept(g, i) || 0 <= specCount(i) && specCount(i) < len(links) && specSameLink(links[specCount(i)].Link, raw[i])
		}))
	}
}

func specLegal(b byte) bool {
	return 'a' <= b && b <= 'z' || 'A' <= b && b <= 'Z' || '0' <= b && b <= '9' || b == '.' || b == '-' || b == '_'
}

func visitedTo() int { return 0 }

//gocv:invariant Client.ListPackageFiles loop=1/2 use=LIST
func inv_list_legal(pkgname string) bool {
	return forall(0, visitedTo(), func(i int) bool { return specLegal(pkgname[i]) })
}

//gocv:invariant Client.ListPackageFiles loop=2/2 use=LIST
func inv_list_count(links []FileLink, n int) bool { return len(links) == specCount(n) }

//gocv:invariant Client.ListPackageFiles loop=2/2 use=LIST
func inv_list_links(links []FileLink, n int) bool {
	g := ghostListing
	return forall(0, n, func(i int) bool {
		return !specKept(g, i) || 0 <= specCount(i) && specCount(i) < len(links) && specSameLink(links[specCount(i)].Link, g.raw[i])
	})
}

package pep629

import (
	"context"

	"golang.org/x/net/html"

	"github.com/datawire/ocibuild/pkg/python/pep440"
)

type ghostError struct{}

func (*ghostError) Error() string { return "ghost" }

var errGhost error = &ghostError{}

type ghostPage struct {
	doc  *html.Node
	v    *pep440.Version
	fail bool
}

var ghostDoc *ghostPage

//gocv:extern github.com/datawire/ocibuild/pkg/python/pep629.GetVersion VER
func model_GetVersion(doc *html.Node) (*pep440.Version, error) {
	g := ghostDoc
	check("the version of the page", doc == g.doc)
	if g.fail {
		return nil, errGhost
	}
	return g.v, nil
}

func specMajor(v *pep440.Version) int {
	if len(v.Release) == 0 {
		return 0
	}
	return v.Release[0]
}

//gocv:extern github.com/datawire/dlib/dlog.Warnf VER
func model_Warnf(ctx context.Context, format string, args ...interface{}) {}

//gocv:contract C22 HTMLVersionCheck use=VER noreplay
func contract_HTMLVersionCheck(doc *html.Node, v *pep440.Version, fail bool) {
	requires(v != nil && SupportedVersion != nil && len(SupportedVersion.Release) == 2 && SupportedVersion.Release[0] == 1 && SupportedVersion.Release[1] == 0)
	ghostDoc = &ghostPage{doc: doc, v: v, fail: fail}
	err := HTMLVersionCheck(context.Background(), doc)
	ensures("an index declaring a newer major version, or no version, is refused and others are not", (err != nil) == (fail || specMajor(v) > 1))
}

// ---- GetVersion ----

type ghostMeta struct {
	doc, node *html.Node
	parsed    string
	name      string
	content   string
	hasName   bool
	hasVal    bool
}

var ghostMetas *ghostMeta

//gocv:extern github.com/datawire/ocibuild/pkg/htmlutil.VisitHTML META
func model_Visit(node *html.Node, before, after func(*html.Node) error) error {
	g := ghostMetas
	check("the whole page is looked at", node == g.doc && before == nil)
	return after(g.node)
}

//gocv:extern github.com/datawire/ocibuild/pkg/htmlutil.GetAttr META
func model_GetAttr(node *html.Node, namespace, name string) (string, bool) {
	g := ghostMetas
	check("attributes of the element", node == g.node && namespace == "")
	if name == "name" {
		return g.name, g.hasName
	}
	check("the content", name == "content")
	return g.content, g.hasVal
}

//gocv:extern github.com/datawire/ocibuild/pkg/python/pep440.ParseVersion META
func model_Parse(s string) (*pep440.Version, error) {
	if ghostMetas != nil { // it is also called to initialise the package
		ghostMetas.parsed = s
	}
	return nil, nil
}

//gocv:contract C22 GetVersion use=META noreplay
func contract_GetVersion(doc, node *html.Node, name, content string, hasName, hasVal bool) {
	requires(node != nil && (hasName || name == "") && (hasVal || content == ""))
	g := &ghostMeta{doc: doc, node: node, name: name, content: content, hasName: hasName, hasVal: hasVal}
	ghostMetas = g
	_, _ = GetVersion(doc)
	if node.Type == html.ElementNode && node.Data == "meta" && name == "pypi:repository-version" && content != "" {
		ensures("the declared version is used", g.parsed == content)
	} else {
		ensures("the default version is 1.0", g.parsed == "1.0")
	}
}

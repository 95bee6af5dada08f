package simple_repo_api

import (
	"context"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
)

// ---- SelectWheel: which of an index's links is selected ----
//
// A file is known by its name here: whether it names a wheel, of which version (known by its number), how that
// is spelled, and how the tag ranks for the target (0: not supported). Those are judged by the contracts of
// ParseFilename, Preference, Supports, Select and ExcludeYanked.

type ghostError struct{}

func (*ghostError) Error() string { return "ghost" }

var errGhost error = &ghostError{}

func nondetInt() int { return 0 }

//gocv:pure specIsWheel
func specIsWheel(text string) bool { return true }

//gocv:pure specVersionOf
func specVersionOf(text string) int { return 0 }

//gocv:pure specTagOf
func specTagOf(text string) string { return "" }

//gocv:pure specSpelled
func specSpelled(v int) string { return "" }

//gocv:pure specRankOf
func specRankOf(tag string) int { return 0 }

func specRank(text string) int { return specRankOf(specTagOf(text)) }

func specQualifies(text string) bool { return specIsWheel(text) && specRank(text) > 0 }

// specInIndex stands for any property that all links of the index have: what has every such property is in it.
//
//gocv:pure specInIndex
func specInIndex(href, text string) bool { return true }

func specFromIndex(l pep503.FileLink) bool { return specInIndex(l.HRef, l.Text) }

// specChoosable stands for any property that the versions of all supported wheels have.
//
//gocv:pure specChoosable
func specChoosable(v int) bool { return true }

func specSame(a, b pep503.FileLink) bool { return a.HRef == b.HRef && a.Text == b.Text }

type ghostIndex struct {
	client  Client
	listing []pep503.FileLink
	k       int // any link
	fail    bool
}

var ghostIdx *ghostIndex

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pep503.Client).ListPackageFiles SEL
func model_ListPackageFiles(c pep503.Client, ctx context.Context, pkg string) ([]pep503.FileLink, error) {
	if ghostIdx.fail {
		return nil, errGhost
	}
	return ghostIdx.listing, nil
}

//gocv:extern github.com/datawire/ocibuild/pkg/python/pypa/bdist.ParseFilename SEL
func model_ParseFilename(name string) (*bdist.FileNameData, error) {
	if !specIsWheel(name) {
		return nil, errGhost
	}
	ret := &bdist.FileNameData{}
	ret.Version.Epoch = specVersionOf(name)
	ret.CompatibilityTag.Python = specTagOf(name)
	return ret, nil
}

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pep440.LocalVersion).String SEL
func model_String(v pep440.LocalVersion) string { return specSpelled(v.Epoch) }

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pep425.Installer).Supports SEL
func model_Supports(i pep425.Installer, t pep425.Tag) bool { return specRankOf(t.Python) > 0 }

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pep425.Installer).Preference SEL
func model_Preference(i pep425.Installer, t pep425.Tag) int {
	if r := specRankOf(t.Python); r > 0 {
		return r
	}
	r := nondetInt() // more than the rank of any supported tag
	assume(r > 0)
	return r
}

type ghostYanks struct{}

func (ghostYanks) Allow(v pep440.Version) bool { return true }

//gocv:extern github.com/datawire/ocibuild/pkg/python/pep592.ExcludeYanked SEL
func model_ExcludeYanked(links []pep503.FileLink) pep440.ExclusionBehavior {
	g := ghostIdx
	one := g.listing[g.k]
	check("yanks of every supported wheel count", !specQualifies(one.Text) || specListed(links, len(links), one))
	check("yanks of other files do not count", forall(0, len(links), func(i int) bool { return specQualifies(links[i].Text) && specFromIndex(links[i]) }))
	return ghostYanks{}
}

func specListed(links []pep503.FileLink, n int, l pep503.FileLink) bool {
	return exists(0, n, func(i int) bool { return specSame(links[i], l) })
}

func specChoice(choices []pep440.Version, n int, v int) bool {
	return exists(0, n, func(i int) bool { return choices[i].Epoch == v })
}

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pep440.Specifier).Select SEL
func model_Select(spec pep440.Specifier, choices []pep440.Version, e pep440.ExclusionBehavior) *pep440.Version {
	g := ghostIdx
	one := g.listing[g.k]
	check("the version of every supported wheel is a choice", !specQualifies(one.Text) || specChoice(choices, len(choices), specVersionOf(one.Text)))
	check("no other version is a choice", forall(0, len(choices), func(i int) bool { return specChoosable(choices[i].Epoch) }))
	m, ok := e.(pep440.MultiExcluder)
	check("pre-releases and yanked versions are excluded", ok && len(m) == 2)
	p, ok := m[0].(pep440.ExcludePreReleases)
	check("pre-releases are excluded, without exception", ok && len(p.AllowList) == 0)
	_, ok = m[1].(ghostYanks)
	check("yanked versions are excluded", ok)
	return nil
}

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pep440.Specifier).String SEL
func model_SpecString(spec pep440.Specifier) string { return "" }

//gocv:contract C09 Client.SelectWheel use=SEL,CHOICES noreplay
func contract_SelectWheel_choices(c Client, pkg string, spec pep440.Specifier, listing []pep503.FileLink, fail bool, k int) {
	requires(0 <= k && k < len(listing))
	requires(forall(0, len(listing), func(j int) bool {
		return specFromIndex(listing[j]) && (!specQualifies(listing[j].Text) || specChoosable(specVersionOf(listing[j].Text)))
	}))
	ghostIdx = &ghostIndex{client: c, listing: listing, k: k, fail: fail}
	got, err := c.SelectWheel(context.Background(), pkg, spec)
	ensures("without an index or a choice there is an error", err != nil && got == nil)
}

//gocv:invariant Client.SelectWheel use=CHOICES loop=1/2
func inv_wheels(whlLinks []pep503.FileLink) bool {
	return forall(0, len(whlLinks), func(i int) bool { return specQualifies(whlLinks[i].Text) && specFromIndex(whlLinks[i]) })
}

//gocv:invariant Client.SelectWheel use=CHOICES loop=1/2
func inv_all_wheels(whlLinks []pep503.FileLink, n int) bool {
	one := ghostIdx.listing[ghostIdx.k]
	return n <= ghostIdx.k || !specQualifies(one.Text) || specListed(whlLinks, len(whlLinks), one)
}

//gocv:invariant Client.SelectWheel use=CHOICES loop=1/2
func inv_versions(versions []pep440.Version) bool {
	return forall(0, len(versions), func(i int) bool { return specChoosable(versions[i].Epoch) })
}

//gocv:invariant Client.SelectWheel use=CHOICES loop=1/2
func inv_parallel(versions []pep440.Version, whlLinks []pep503.FileLink) bool {
	return len(versions) == len(whlLinks) && forall(0, len(versions), func(i int) bool { return versions[i].Epoch == specVersionOf(whlLinks[i].Text) })
}

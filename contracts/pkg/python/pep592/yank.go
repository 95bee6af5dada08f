package pep592

import (
	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep503"
	"github.com/datawire/ocibuild/pkg/python/pypa/bdist"
)

type ghostError struct{}

func (*ghostError) Error() string { return "ghost" }

var errGhost error = &ghostError{}

// A version is known by its number here.

//gocv:pure specIsWheel
func specIsWheel(text string) bool { return true }

//gocv:pure specVersionOf
func specVersionOf(text string) int { return 0 }

//gocv:pure specSpelled
func specSpelled(v int) string { return "" }

//gocv:extern github.com/datawire/ocibuild/pkg/python/pypa/bdist.ParseFilename YANK
func model_ParseFilename(name string) (*bdist.FileNameData, error) {
	if !specIsWheel(name) {
		return nil, errGhost
	}
	ret := &bdist.FileNameData{}
	ret.Version.Epoch = specVersionOf(name)
	return ret, nil
}

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pep440.LocalVersion).String YANK
func model_String(v pep440.LocalVersion) string { return specSpelled(v.Epoch) }

func specYanked(l pep503.FileLink) bool {
	_, ok := l.DataAttrs["data-yanked"]
	return ok
}

//gocv:contract C09 ExcludeYanked use=YANK noreplay
func contract_ExcludeYanked(links []pep503.FileLink, v pep440.Version, k int) {
	requires(0 <= k && k < len(links))
	e := ExcludeYanked(links)
	got := e.Allow(v)
	yanks := func(i int) bool {
		return specYanked(links[i]) && specIsWheel(links[i].Text) && specSpelled(specVersionOf(links[i].Text)) == specSpelled(v.Epoch)
	}
	if got {
		ensures("a version with a yanked wheel is excluded", !yanks(k))
	} else {
		ensures("a version is excluded only if a wheel of it is yanked", exists(0, len(links), func(i int) bool { return yanks(i) }))
	}
}

func specHas(m map[string]struct{}, k string) bool {
	_, ok := m[k]
	return ok
}

func forallKeyYank(m map[string]struct{}, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

//gocv:invariant ExcludeYanked use=YANK
func inv_yanked_all(links []pep503.FileLink, ret excludeYanked, n int) bool {
	return ret.yankedVersions != nil && forall(0, n, func(i int) bool {
		return !specYanked(links[i]) || !specIsWheel(links[i].Text) || specHas(ret.yankedVersions, specSpelled(specVersionOf(links[i].Text)))
	})
}

//gocv:invariant ExcludeYanked use=YANK
func inv_yanked_only(links []pep503.FileLink, ret excludeYanked, n int) bool {
	return forallKeyYank(ret.yankedVersions, func(k string) bool {
		return exists(0, n, func(i int) bool {
			return specYanked(links[i]) && specIsWheel(links[i].Text) && specSpelled(specVersionOf(links[i].Text)) == k
		})
	})
}

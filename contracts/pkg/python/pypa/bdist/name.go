package bdist

import (
	"errors"
	"regexp"
	"strconv"
	"strings"

	"github.com/datawire/ocibuild/pkg/python/pep425"
	"github.com/datawire/ocibuild/pkg/python/pep440"
)

var errGhost = errors.New("an error")

func nondetBool() bool { return false }

// ---- build tags ----

func specSign(n int) int {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

// specTagRank: absent first, then by number, then by the remaining text.
func specTagRank(a, b *BuildTag) int {
	if a == nil && b == nil {
		return 0
	}
	if a == nil {
		return -1
	}
	if b == nil {
		return 1
	}
	if a.Int < b.Int || a.Int == b.Int && a.Str < b.Str {
		return -1
	}
	if a.Int == b.Int && a.Str == b.Str {
		return 0
	}
	return 1
}

//gocv:contract C08,C09 *BuildTag.Cmp
func contract_BuildTagCmp(a, b *BuildTag) {
	ensures("absent first, then by number, then by the remaining text", specSign(a.Cmp(b)) == specTagRank(a, b))
}

//gocv:lemma C08
func contract_BuildTag_order(a, b, c *BuildTag) {
	ensures("equal to itself", a.Cmp(a) == 0)
	ensures("swapping turns the order around", specSign(a.Cmp(b)) == -specSign(b.Cmp(a)))
	ensures("transitive", implies(a.Cmp(b) <= 0 && b.Cmp(c) <= 0, a.Cmp(c) <= 0))
	ensures("only equal tags tie", implies(a.Cmp(b) == 0, (a == nil) == (b == nil) && (a == nil || *a == *b)))
}

// ---- file names ----

// The groups of a match of the file name expression.
//
//gocv:pure specGroup
func specGroup(name string, i int) string { return reFilename.FindStringSubmatch(name)[i] }

//gocv:pure specMatches
func specMatches(name string) bool { return reFilename.MatchString(name) }

//gocv:pure specVerOK
func specVerOK(s string) bool { _, err := pep440.ParseVersion(s); return err == nil }

//gocv:pure specVer
func specVer(s string) pep440.Version {
	v, err := pep440.ParseVersion(s)
	if err != nil {
		return pep440.Version{}
	}
	return *v
}

//gocv:pure specInt
func specInt(s string) int { n, _ := strconv.Atoi(s); return n }

//gocv:pure specIntOK
func specIntOK(s string) bool { _, err := strconv.Atoi(s); return err == nil }

//gocv:extern (*regexp.Regexp).FindStringSubmatch NAME
func model_FindStringSubmatch(re *regexp.Regexp, s string) []string {
	if !specMatches(s) {
		return nil
	}
	return []string{s, specGroup(s, 1), specGroup(s, 2), specGroup(s, 3), specGroup(s, 4), specGroup(s, 5), specGroup(s, 6), specGroup(s, 7)}
}

//gocv:extern (*regexp.Regexp).SubexpIndex NAME
func model_SubexpIndex(re *regexp.Regexp, name string) int {
	switch name {
	case "distribution":
		return 1
	case "version":
		return 2
	case "build_n":
		return 3
	case "build_l":
		return 4
	case "python":
		return 5
	case "abi":
		return 6
	case "platform":
		return 7
	}
	return -1
}

//gocv:extern github.com/datawire/ocibuild/pkg/python/pep440.ParseVersion NAME
func model_ParseVersion(s string) (*pep440.Version, error) {
	if !specVerOK(s) {
		return nil, errGhost
	}
	v := specVer(s)
	return &v, nil
}

//gocv:extern strconv.Atoi NAME
func model_Atoi(s string) (int, error) {
	if !specIntOK(s) {
		return specInt(s), errGhost
	}
	return specInt(s), nil
}

func specSameVersion(a, b pep440.Version) bool {
	return a.Epoch == b.Epoch && a.Pre == b.Pre && a.Post == b.Post && a.Dev == b.Dev &&
		len(a.Release) == len(b.Release) && forall(0, len(a.Release), func(i int) bool { return a.Release[i] == b.Release[i] }) &&
		len(a.Local) == len(b.Local) && forall(0, len(a.Local), func(i int) bool { return a.Local[i] == b.Local[i] })
}

//gocv:contract C08 ParseFilename use=NAME noreplay
func contract_ParseFilename(name string) {
	d, err := ParseFilename(name)
	build := specMatches(name) && specGroup(name, 3) != ""
	good := specMatches(name) && specVerOK(specGroup(name, 2)) && implies(build, specIntOK(specGroup(name, 3)))
	ensures("exactly the names of the right form are accepted", (err == nil) == good)
	ensures("data or an error", (d == nil) == (err != nil))
	if err == nil {
		ensures("the distribution is the one spelled", d.Distribution == specGroup(name, 1))
		ensures("the version is the one spelled", specSameVersion(d.Version, specVer(specGroup(name, 2))))
		ensures("a build tag is there exactly when one is spelled", (d.BuildTag != nil) == build)
		if build {
			ensures("the build tag is the one spelled", d.BuildTag.Int == specInt(specGroup(name, 3)) && d.BuildTag.Str == specGroup(name, 4))
		}
		ensures("the compatibility tag is the one spelled", d.CompatibilityTag == pep425.Tag{Python: specGroup(name, 5), ABI: specGroup(name, 6), Platform: specGroup(name, 7)})
	}
}

// ---- generating ----

var ghostText string

//gocv:extern (*strings.Builder).WriteString NAME
func model_WriteString(b *strings.Builder, s string) (int, error) {
	ghostText += s
	return len(s), nil
}

//gocv:extern (*strings.Builder).String NAME
func model_String(b *strings.Builder) string { return ghostText }

//gocv:extern regexp.MustCompile NAME
func model_MustCompile(s string) *regexp.Regexp {
	check("runs of - _ . are replaced", s == "[-_.]+")
	return ghostRe
}

var ghostRe = new(regexp.Regexp)

//gocv:pure specEscaped
func specEscaped(s string) string {
	return regexp.MustCompile("[-_.]+").ReplaceAllString(s, "_")
}

//gocv:extern (*regexp.Regexp).ReplaceAllLiteralString NAME
func model_ReplaceAllLiteralString(re *regexp.Regexp, s, by string) string {
	check("they are replaced by _", by == "_")
	return specEscaped(s)
}

//gocv:pure specNormal
func specNormal(v pep440.Version) string {
	n, err := v.Normalize()
	if err != nil {
		return ""
	}
	return n.String()
}

//gocv:pure specNormalOK
func specNormalOK(v pep440.Version) bool { _, err := v.Normalize(); return err == nil }

var ghostVersion *pep440.Version
var ghostNormal string

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pep440.LocalVersion).Normalize NAME
func model_Normalize(v pep440.Version) (*pep440.Version, error) {
	if !specNormalOK(v) {
		return nil, errGhost
	}
	ghostNormal = specNormal(v)
	ghostVersion = new(pep440.Version)
	return ghostVersion, nil
}

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pep440.LocalVersion).String NAME
func model_VersionString(v pep440.Version) string { return ghostNormal }

//gocv:pure specBuildText
func specBuildText(t BuildTag) string { return t.String() }

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pypa/bdist.BuildTag).String NAME
func model_BuildString(t BuildTag) string { return specBuildText(t) }

//gocv:contract C08 GenerateFilename use=NAME noreplay
func contract_GenerateFilename(data FileNameData) {
	ghostText, ghostNormal = "", ""
	compat := data.CompatibilityTag.Python + "-" + data.CompatibilityTag.ABI + "-" + data.CompatibilityTag.Platform
	good := specNormalOK(data.Version) && strings.Count(compat, "-") == 2
	want := specEscaped(data.Distribution) + "-" + specNormal(data.Version)
	if data.BuildTag != nil {
		build := specBuildText(*data.BuildTag)
		good = good && !strings.Contains(build, "-")
		want += "-" + build
	}
	want += "-" + compat + ".whl"
	r, err := GenerateFilename(data)
	ensures("a name is generated exactly when its parts have no dashes", (err == nil) == good)
	ensures("the name spells the data", implies(err == nil, r == want))
}

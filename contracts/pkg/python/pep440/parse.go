package pep440

import (
	"errors"
	"regexp"
)

// Assumed of the libraries: a match of the version expression has one string per group; the numeric
// groups are digits (or empty); Atoi of digits is not negative; Split gives at least one part.

func nondetStrings() []string { return nil }
func nondetBool() bool        { return false }
func nondetInt() int          { return 0 }

//gocv:pure specDigits
func specDigits(s string) bool { return s != "" && regexp.MustCompile(`^[0-9]+$`).MatchString(s) }

//gocv:extern (*regexp.Regexp).FindStringSubmatch VER
func model_FindStringSubmatch(re *regexp.Regexp, s string) []string {
	m := nondetStrings()
	if nondetBool() {
		return nil
	}
	assume(len(m) == 15)
	for _, i := range []int{1, 6, 8, 10, 13} {
		assume(m[i] == "" || specDigits(m[i]))
	}
	return m
}

//gocv:extern (*regexp.Regexp).SubexpIndex VER
func model_SubexpIndex(re *regexp.Regexp, name string) int {
	switch name {
	case "epoch":
		return 1
	case "release":
		return 2
	case "pre":
		return 3
	case "pre_l":
		return 4
	case "pre_n":
		return 6
	case "post":
		return 7
	case "post_n1":
		return 8
	case "post_l":
		return 9
	case "post_n2":
		return 10
	case "dev":
		return 11
	case "dev_l":
		return 12
	case "dev_n":
		return 13
	case "local":
		return 14
	}
	return -1
}

//gocv:extern strings.Split VER
func model_Split(s, sep string) []string {
	m := nondetStrings()
	assume(len(m) >= 1)
	assume(forall(0, len(m), func(i int) bool { return specDigits(m[i]) }))
	return m
}

//gocv:extern strings.FieldsFunc VER
func model_FieldsFunc(s string, f func(rune) bool) []string { return nondetStrings() }

//gocv:extern strconv.Atoi VER
func model_Atoi(s string) (int, error) {
	n := nondetInt()
	if nondetBool() {
		return 0, errors.New("not a number")
	}
	assume(n >= 0)
	return n, nil
}

//gocv:extern strconv.ParseInt VER
func model_ParseInt(s string, base, bits int) (int64, error) {
	n := nondetInt()
	if nondetBool() {
		return 0, errors.New("not a number")
	}
	assume(n >= 0 && n <= 2147483647)
	return int64(n), nil
}

//gocv:contract C04,C01 parseVersion use=VER
func contract_parseVersion(str string) {
	v, err := parseVersion(str)
	ensures("a version is returned exactly when there is no error", (v == nil) == (err != nil))
	if err == nil {
		ensures("the parsed version has a release", len(v.Release) >= 1)
		ensures("the post-release number is not negative", v.Post == nil || *v.Post >= 0)
		ensures("the dev-release number is not negative", v.Dev == nil || *v.Dev >= 0)
	}
}

//gocv:invariant parseVersion
func inv_parseVersion_len(ver Version, n int) bool {
	return len(ver.Release) >= 1 || len(ver.Release) == n
}

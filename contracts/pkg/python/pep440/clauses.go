package pep440

import (
	"errors"
	"strings"
)

// specSplit: the operator of a clause and the text of its version.
func specSplit(t string) (CmpOp, string, bool) {
	two, one := "", ""
	if len(t) >= 2 {
		two = t[:2]
	}
	if len(t) >= 1 {
		one = t[:1]
	}
	switch {
	case two == "==" && len(t) >= 3 && t[2] == '=':
		return 0, "", false
	case two == "~=":
		return CmpOpCompatible, t[2:], true
	case two == "==" && strings.HasSuffix(t[2:], ".*"):
		return CmpOpPrefixMatch, t[2 : len(t)-2], true
	case two == "==":
		return CmpOpStrictMatch, t[2:], true
	case two == "!=" && strings.HasSuffix(t[2:], ".*"):
		return CmpOpPrefixExclude, t[2 : len(t)-2], true
	case two == "!=":
		return CmpOpStrictExclude, t[2:], true
	case two == "<=":
		return CmpOpLE, t[2:], true
	case two == ">=":
		return CmpOpGE, t[2:], true
	case one == "<":
		return CmpOpLT, t[1:], true
	case one == ">":
		return CmpOpGT, t[1:], true
	}
	return 0, "", false
}

// specForbidden: combinations PEP 440 does not allow.
func specForbidden(op CmpOp, v Version) bool {
	prefix := op == CmpOpPrefixMatch || op == CmpOpPrefixExclude
	strict := op == CmpOpStrictMatch || op == CmpOpStrictExclude
	return len(v.Local) > 0 && !strict || v.Dev != nil && prefix || op == CmpOpCompatible && len(v.Release) < 2
}

//gocv:extern ParseVersion PARSE
func model_ParseVersion(str string) (*Version, error) {
	v := freshObjVersion()
	*v = specParsed(str)
	if !specParses(str) {
		return nil, errors.New("invalid version")
	}
	assume(len(v.Release) >= 1) // contract_parseVersion
	return v, nil
}

//gocv:pure specParsed
func specParsed(str string) Version {
	v, err := ParseVersion(str)
	if err != nil {
		return Version{}
	}
	return *v
}

//gocv:pure specParses
func specParses(str string) bool {
	_, err := ParseVersion(str)
	return err == nil
}

func freshObjVersion() *Version { return new(Version) }

func specSameContent(a, b Version) bool {
	return a.Epoch == b.Epoch && (a.Pre == nil) == (b.Pre == nil) && (a.Pre == nil || *a.Pre == *b.Pre) &&
		(a.Post == nil) == (b.Post == nil) && (a.Post == nil || *a.Post == *b.Post) &&
		(a.Dev == nil) == (b.Dev == nil) && (a.Dev == nil || *a.Dev == *b.Dev) &&
		len(a.Release) == len(b.Release) && forall(0, len(a.Release), func(i int) bool { return a.Release[i] == b.Release[i] }) &&
		len(a.Local) == len(b.Local) && forall(0, len(a.Local), func(i int) bool { return a.Local[i] == b.Local[i] })
}

//gocv:contract C03 parseSpecifierClause use=PARSE
func contract_parseSpecifierClause(str string) {
	c, err := parseSpecifierClause(str)
	op, rest, ok := specSplit(strings.TrimSpace(str))
	good := ok && specParses(rest) && !specForbidden(op, specParsed(rest))
	ensures("accepted exactly when the operator and version are ones PEP 440 allows together", (err == nil) == good)
	if err == nil {
		ensures("the clause has the operator written in the text", c.CmpOp == op)
		ensures("the clause has the version written in the text", specSameContent(c.Version, specParsed(rest)))
	}
}

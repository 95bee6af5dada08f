package pep345

import (
	"math/rand"
	"strconv"
	"strings"
	"testing"

	"github.com/datawire/ocibuild/pkg/python/pep440"
)

func genVer(r *rand.Rand) string {
	pick := func(s ...string) string { return s[r.Intn(len(s))] }
	s := pick("2", "3") + pick("", ".0", ".1", ".10", ".6") + pick("", "", ".0", ".1") + pick("", "", ".0")
	s += pick("", "", "", "a1", "b2", "rc1", "c1") + pick("", "", "", ".post1", ".post2") + pick("", "", "", ".dev0", ".dev1")
	return s + pick("", "", "", "", "+l", "+l.1")
}

// oracle: works on the texts of canonical versions, without the repository's matchers.
func oEqual(s, v pep440.Version) bool {
	if s.Epoch != v.Epoch {
		return false
	}
	if len(s.Local) > 0 || s.Dev != nil {
		// equal versions, padded, local compared only if given
		if !oRel(s, v, true) || !oPre(s, v) || !oPtr(s.Post, v.Post) || !oPtr(s.Dev, v.Dev) {
			return false
		}
		if len(s.Local) > 0 {
			if len(s.Local) != len(v.Local) {
				return false
			}
			for i := range s.Local {
				if s.Local[i] != v.Local[i] {
					return false
				}
			}
		}
		return s.Dev != nil || true
	}
	if !oHasPrefix(s, v) {
		return false
	}
	switch {
	case s.Post != nil:
		return v.Dev == nil
	case s.Pre != nil:
		return v.Dev == nil && v.Post == nil
	}
	return v.Dev == nil && v.Post == nil && v.Pre == nil
}

func oPtr(a, b *int) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }

func oPre(s, v pep440.Version) bool {
	return (s.Pre == nil) == (v.Pre == nil) && (s.Pre == nil || s.Pre.L == v.Pre.L && s.Pre.N == v.Pre.N)
}

func oRel(s, v pep440.Version, all bool) bool {
	n := len(s.Release)
	if all && len(v.Release) > n {
		n = len(v.Release)
	}
	for i := 0; i < n; i++ {
		x, y := 0, 0
		if i < len(s.Release) {
			x = s.Release[i]
		}
		if i < len(v.Release) {
			y = v.Release[i]
		}
		if x != y {
			return false
		}
	}
	return true
}

func oHasPrefix(s, v pep440.Version) bool {
	if s.Epoch != v.Epoch {
		return false
	}
	if s.Pre == nil && s.Post == nil {
		return oRel(s, v, false)
	}
	return oRel(s, v, true) && oPre(s, v) && (s.Post == nil || oPtr(s.Post, v.Post))
}

func TestVerif_C06_requirements(t *testing.T) {
	h := newVH(t, "C06", "requirements", "requirement texts of up to 3 clauses over variations of Python versions with every suffix, and interpreter versions alike; compared with an independent reading of PEP 345 (order taken from pep440, property C01)", 60000)
	defer h.done()
	for h.more() {
		haveS := genVer(h.r)
		have, err := pep440.ParseVersion(haveS)
		if err != nil {
			t.Fatal(err)
		}
		var parts []string
		want, bad := true, false
		for i := h.r.Intn(4); i > 0; i-- {
			op := []string{"", "==", "!=", "<", "<=", ">", ">="}[h.r.Intn(7)]
			vs := genVer(h.r)
			if h.r.Intn(3) == 0 {
				vs = haveS
			}
			v, _ := pep440.ParseVersion(vs)
			if h.r.Intn(25) == 0 {
				bad = true
				vs = []string{"x", "", "3.*", "3.x", "==3", "3 4"}[h.r.Intn(6)]
			}
			parts = append(parts, []string{"", " "}[h.r.Intn(2)]+op+[]string{"", " "}[h.r.Intn(2)]+vs+[]string{"", " "}[h.r.Intn(2)])
			cmp := have.Cmp(*v)
			m := false
			switch op {
			case "", "==":
				m = oEqual(*v, *have)
			case "!=":
				m = !oEqual(*v, *have)
			case "<":
				m = cmp < 0
				if len(v.Local) == 0 && v.Dev == nil {
					m = m && !oHasPrefix(*v, *have)
				} else {
					// equality in place of the prefix
					pub := *v
					m = m && !(oRel(pub, *have, true) && oPre(pub, *have) && oPtr(pub.Post, have.Post) && oPtr(pub.Dev, have.Dev) && len(v.Local) == 0)
				}
			case "<=":
				m = cmp <= 0
			case ">":
				m = cmp > 0
			case ">=":
				m = cmp >= 0
			}
			want = want && m
		}
		text := strings.Join(parts, ",")
		if h.r.Intn(20) == 0 && len(parts) > 0 {
			text += ","
		}
		in := "have " + haveS + " requirement " + strconv.Quote(text)
		h.tick(in)
		h.try("never panics", in, func() {
			got, err := HaveRequiredPython(*have, text)
			if bad {
				// "=" before "==3" may still be readable; only unreadable text must be an error
				for _, p := range parts {
					_, rest := oSplit(p)
					if _, e := pep440.ParseVersion(rest); e != nil {
						if strings.TrimSpace(p) == "" && !strings.Contains(text, ",") && p == "" {
							return
						}
						if p == "" {
							return
						}
						if err == nil {
							h.fail("unreadable text is an error", in, "no error")
						}
						return
					}
				}
				return
			}
			if err != nil {
				h.fail("readable text is accepted", in, "%v", err)
			} else if got != want {
				h.fail("judged as PEP 345 defines", in, "got %v want %v", got, want)
			}
		})
	}
}

func oSplit(p string) (string, string) {
	p = strings.TrimSpace(p)
	for _, op := range []string{"<=", ">=", "==", "!=", "<", ">"} {
		if strings.HasPrefix(p, op) {
			return op, p[len(op):]
		}
	}
	return "", p
}

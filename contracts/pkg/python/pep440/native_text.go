package pep440

import (
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"testing"

	"k8s.io/apimachinery/pkg/util/intstr"
)

// ---- an independent reading of the PEP 440 grammar ----

type oracleScan struct{ s string }

func (o *oracleScan) word(ws ...string) string {
	for _, w := range ws {
		if len(o.s) >= len(w) && strings.EqualFold(o.s[:len(w)], w) && isASCIIText(o.s[:len(w)]) {
			o.s = o.s[len(w):]
			return w
		}
	}
	return ""
}

func isASCIIText(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

func (o *oracleScan) digits() string {
	i := 0
	for i < len(o.s) && o.s[i] >= '0' && o.s[i] <= '9' {
		i++
	}
	d := o.s[:i]
	o.s = o.s[i:]
	return d
}

func (o *oracleScan) sep() {
	if o.s != "" && strings.IndexByte("-_.", o.s[0]) >= 0 {
		o.s = o.s[1:]
	}
}

// oracleVersion returns the version that text denotes; big is set when a number does not fit its type.
func oracleVersion(text string) (v Version, ok, big bool) {
	o := &oracleScan{s: strings.TrimSpace(text)}
	num := func(s string) int {
		if s == "" {
			return 0
		}
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			big = true
		}
		return int(n)
	}
	o.word("v")
	d := o.digits()
	if d == "" {
		return v, false, false
	}
	if o.word("!") != "" {
		v.Epoch = num(d)
		if d = o.digits(); d == "" {
			return v, false, false
		}
	}
	v.Release = []int{num(d)}
	for len(o.s) >= 2 && o.s[0] == '.' && o.s[1] >= '0' && o.s[1] <= '9' {
		o.s = o.s[1:]
		v.Release = append(v.Release, num(o.digits()))
	}
	save := o.s
	o.sep()
	if w := o.word("alpha", "a", "beta", "b", "preview", "pre", "c", "rc"); w != "" {
		l := map[string]string{"alpha": "a", "a": "a", "beta": "b", "b": "b"}[w]
		if l == "" {
			l = "rc"
		}
		save2 := o.s
		o.sep()
		dd := o.digits()
		_ = save2
		v.Pre = &PreRelease{L: l, N: num(dd)}
	} else {
		o.s = save
	}
	save = o.s
	if len(o.s) >= 2 && o.s[0] == '-' && o.s[1] >= '0' && o.s[1] <= '9' {
		o.s = o.s[1:]
		n := num(o.digits())
		v.Post = &n
	} else {
		o.sep()
		if o.word("post", "rev", "r") != "" {
			o.sep()
			n := num(o.digits())
			v.Post = &n
		} else {
			o.s = save
		}
	}
	save = o.s
	o.sep()
	if o.word("dev") != "" {
		o.sep()
		n := num(o.digits())
		v.Dev = &n
	} else {
		o.s = save
	}
	if o.word("+") != "" {
		for {
			i := 0
			for i < len(o.s) && (o.s[i] >= '0' && o.s[i] <= '9' || o.s[i]|0x20 >= 'a' && o.s[i]|0x20 <= 'z') {
				i++
			}
			if i == 0 {
				return v, false, false
			}
			p := o.s[:i]
			o.s = o.s[i:]
			if strings.Trim(p, "0123456789") == "" {
				n, err := strconv.ParseInt(p, 10, 32)
				if err != nil {
					big = true
				}
				v.Local = append(v.Local, intstr.FromInt(int(n)))
			} else {
				v.Local = append(v.Local, intstr.FromString(strings.ToLower(p)))
			}
			if o.s == "" || strings.IndexByte("-_.", o.s[0]) < 0 {
				break
			}
			o.s = o.s[1:]
		}
	}
	return v, o.s == "", big
}

// sameMeaning: equal versions part by part (letters by what they abbreviate).
func sameMeaning(a, b Version) bool {
	if a.Pre != nil && b.Pre != nil {
		canon := func(l string) string {
			switch l {
			case "alpha":
				return "a"
			case "beta":
				return "b"
			case "c", "pre", "preview":
				return "rc"
			}
			return l
		}
		if canon(a.Pre.L) != canon(b.Pre.L) || a.Pre.N != b.Pre.N {
			return false
		}
	} else if (a.Pre == nil) != (b.Pre == nil) {
		return false
	}
	if !reflect.DeepEqual(a.Release, b.Release) || a.Epoch != b.Epoch || !reflect.DeepEqual(a.Post, b.Post) || !reflect.DeepEqual(a.Dev, b.Dev) || len(a.Local) != len(b.Local) {
		return false
	}
	for i := range a.Local {
		if a.Local[i] != b.Local[i] {
			return false
		}
	}
	return true
}

func TestVerif_C04_text(t *testing.T) {
	h := newVH(t, "C04", "text", "spellings built from the PEP 440 grammar (every separator, keyword, case, blank and number shape) and damaged ones; the parse is compared with a hand-written recursive-descent reading, then printed, reparsed and normalized", 60000)
	defer h.done()
	for h.more() {
		text := genVersionText(h.r)
		h.tick(text)
		h.try("parsing never panics", strconv.Quote(text), func() {
			got, err := ParseVersion(text)
			want, ok, big := oracleVersion(text)
			if ok && big {
				return
			}
			if ok != (err == nil) {
				h.fail("accepted exactly if in the grammar", strconv.Quote(text), "grammar accepts: %v, ParseVersion error: %v", ok, err)
				return
			}
			if err != nil {
				if got != nil {
					h.fail("no version with an error", strconv.Quote(text), "got %v", got)
				}
				return
			}
			if !sameMeaning(*got, want) {
				h.fail("parses to the version it denotes", strconv.Quote(text), "got %#v want %#v", got, want)
				return
			}
			oracleRoundTrip(h, strconv.Quote(text), *got)
		})
	}
}

func oracleRoundTrip(h *vh, in string, v Version) {
	s := v.String()
	back, err := ParseVersion(s)
	if err != nil || !sameMeaning(*back, v) || back.Cmp(v) != 0 || v.Cmp(*back) != 0 {
		h.fail("printing and reparsing gives an equal version", in, "printed %q, reparsed %v (%v)", s, back, err)
		return
	}
	n, err := v.Normalize()
	if err != nil || !sameMeaning(*n, v) {
		h.fail("normalizing keeps the version", in, "normalized %v (%v)", n, err)
		return
	}
	n2, err := n.Normalize()
	if err != nil || !reflect.DeepEqual(n, n2) || n2.String() != n.String() {
		h.fail("normalizing is idempotent", in, "%#v then %#v (%v)", n, n2, err)
		return
	}
	if n.Pre != nil && n.Pre.L != "a" && n.Pre.L != "b" && n.Pre.L != "rc" {
		h.fail("the canonical letters are a, b, rc", in, "%q", n.Pre.L)
	}
	// the canonical spelling of PEP 440
	if want := oracleCanonical(v); n.String() != want {
		h.fail("the canonical form is PEP 440's", in, "got %q want %q", n.String(), want)
	}
	pn, err := v.PublicVersion.Normalize()
	if err != nil || pn.Cmp(v.PublicVersion) != 0 || pn.String() != strings.SplitN(n.String(), "+", 2)[0] {
		h.fail("normalizing the public part agrees", in, "%v (%v)", pn, err)
	}
}

func oracleCanonical(v Version) string {
	s := ""
	if v.Epoch != 0 {
		s += strconv.Itoa(v.Epoch) + "!"
	}
	for i, n := range v.Release {
		if i > 0 {
			s += "."
		}
		s += strconv.Itoa(n)
	}
	if v.Pre != nil {
		l := map[string]string{"a": "a", "alpha": "a", "b": "b", "beta": "b"}[v.Pre.L]
		if l == "" {
			l = "rc"
		}
		s += l + strconv.Itoa(v.Pre.N)
	}
	if v.Post != nil {
		s += ".post" + strconv.Itoa(*v.Post)
	}
	if v.Dev != nil {
		s += ".dev" + strconv.Itoa(*v.Dev)
	}
	for i, l := range v.Local {
		if i == 0 {
			s += "+"
		} else {
			s += "."
		}
		if l.Type == intstr.Int {
			s += strconv.Itoa(int(l.IntVal))
		} else {
			s += l.StrVal
		}
	}
	return s
}

func TestVerif_C04_values(t *testing.T) {
	h := newVH(t, "C04", "values", "random version values (all parts, release and local segments up to 4 long, extreme numbers) printed, reparsed and normalized", 30000)
	defer h.done()
	for h.more() {
		v := genVersion(h.r)
		in := verifShowArgs([]reflect.Value{reflect.ValueOf(v)})
		h.tick(in)
		h.try("printing never panics", in, func() { oracleRoundTrip(h, in, v) })
	}
}

// ---- specifiers ----

type oracleClauseT struct {
	op string // with a trailing * for prefix matches
	v  Version
}

func oracleClause(text string) (c oracleClauseT, ok, big bool) {
	t := strings.TrimSpace(text)
	for _, op := range []string{"===", "~=", "==", "!=", "<=", ">=", "<", ">"} {
		if !strings.HasPrefix(t, op) {
			continue
		}
		if op == "===" {
			return c, false, false
		}
		rest := t[len(op):]
		c.op = op
		if (op == "==" || op == "!=") && strings.HasSuffix(rest, ".*") {
			c.op += "*"
			rest = rest[:len(rest)-2]
		}
		c.v, ok, big = oracleVersion(rest)
		if !ok {
			return c, false, false
		}
		if len(c.v.Local) > 0 && c.op != "==" && c.op != "!=" {
			return c, false, false
		}
		if c.v.Dev != nil && strings.HasSuffix(c.op, "*") {
			return c, false, false
		}
		if op == "~=" && len(c.v.Release) < 2 {
			return c, false, false
		}
		return c, true, big
	}
	return c, false, false
}

var oracleOps = map[CmpOp]string{
	CmpOpCompatible: "~=", CmpOpStrictMatch: "==", CmpOpPrefixMatch: "==*", CmpOpStrictExclude: "!=", CmpOpPrefixExclude: "!=*",
	CmpOpLE: "<=", CmpOpGE: ">=", CmpOpLT: "<", CmpOpGT: ">",
}

func TestVerif_C03_specifiers(t *testing.T) {
	h := newVH(t, "C03", "specifiers", "comma-separated lists of generated clauses (all operators, blanks, .*, forbidden combinations, damaged text); compared with an independent reading; then printed, reparsed and matched against nearby versions", 40000)
	defer h.done()
	for h.more() {
		var parts []string
		for i := h.r.Intn(4); i > 0; i-- {
			parts = append(parts, genClauseText(h.r))
			if h.r.Intn(2) == 0 { // favour valid ones
				v := genVersion(h.r)
				parts[len(parts)-1] = []string{"~=", "==", "!=", "<=", ">=", "<", ">"}[h.r.Intn(7)] + []string{"", " "}[h.r.Intn(2)] + v.PublicVersion.String() + []string{"", ".*"}[h.r.Intn(2)]
			}
		}
		text := strings.Join(parts, []string{",", " , ", ", "}[h.r.Intn(3)])
		in := strconv.Quote(text)
		h.tick(text)
		h.try("parsing never panics", in, func() {
			spec, err := ParseSpecifier(text)
			var want []oracleClauseT
			okAll := true
			for _, p := range strings.Split(text, ",") {
				if strings.TrimSpace(p) == "" {
					continue
				}
				c, ok, big := oracleClause(p)
				if big {
					return
				}
				okAll = okAll && ok
				want = append(want, c)
			}
			if okAll != (err == nil) {
				h.fail("accepted exactly if every clause is allowed", in, "should accept: %v, error: %v", okAll, err)
				return
			}
			if err != nil {
				return
			}
			if len(spec) != len(want) {
				h.fail("one clause per written clause", in, "got %d want %d", len(spec), len(want))
				return
			}
			for i := range spec {
				if oracleOps[spec[i].CmpOp] != want[i].op || !sameMeaning(spec[i].Version, want[i].v) {
					h.fail("operator and version as written", in, "clause %d: got %v", i, spec[i])
					return
				}
			}
			printed := spec.String()
			again, err := ParseSpecifier(printed)
			if err != nil || len(again) != len(spec) {
				h.fail("printing and reparsing works", in, "printed %q: %v", printed, err)
				return
			}
			for i := range spec {
				if spec[i].CmpOp != again[i].CmpOp || !sameMeaning(spec[i].Version, again[i].Version) {
					h.fail("printing keeps the meaning", in, "printed %q, clause %d", printed, i)
					return
				}
				one, err := ParseSpecifier(spec[i].String())
				if err != nil || len(one) != 1 || one[0].CmpOp != spec[i].CmpOp || !sameMeaning(spec[i].Version, one[0].Version) {
					h.fail("printing a clause keeps the meaning", in, "printed %q (%v)", spec[i].String(), err)
					return
				}
			}
			for k := 0; k < 3 && len(spec) > 0; k++ {
				v := genNear(h.r, spec[h.r.Intn(len(spec))].Version)
				if spec.Match(v) != again.Match(v) {
					h.fail("printing keeps the matches", in, "printed %q, version %v", printed, v)
					return
				}
			}
		})
	}
}

// ---- end-to-end matching and selection through the text forms ----

func oracleKey(v PublicVersion) [][]int {
	rel := append([]int(nil), v.Release...)
	for len(rel) > 0 && rel[len(rel)-1] == 0 {
		rel = rel[:len(rel)-1]
	}
	pre := []int{9, 0} // final
	switch {
	case v.Pre != nil:
		pre = []int{map[string]int{"a": 1, "alpha": 1, "b": 2, "beta": 2}[v.Pre.L], v.Pre.N}
		if pre[0] == 0 {
			pre[0] = 3
		}
	case v.Post == nil && v.Dev != nil:
		pre = []int{0, 0}
	}
	post := []int{0, 0}
	if v.Post != nil {
		post = []int{1, *v.Post}
	}
	dev := []int{1, 0}
	if v.Dev != nil {
		dev = []int{0, *v.Dev}
	}
	return [][]int{{v.Epoch}, rel, pre, post, dev}
}

func oracleCmp(a, b PublicVersion) int {
	ka, kb := oracleKey(a), oracleKey(b)
	for i := range ka {
		for j := 0; j < len(ka[i]) || j < len(kb[i]); j++ {
			x, y := 0, 0
			if j < len(ka[i]) {
				x = ka[i][j]
			}
			if j < len(kb[i]) {
				y = kb[i][j]
			}
			if x != y {
				if x < y {
					return -1
				}
				return 1
			}
		}
	}
	return 0
}

func oracleSameLocal(a, b Version) bool {
	if len(a.Local) != len(b.Local) {
		return false
	}
	for i := range a.Local {
		if a.Local[i] != b.Local[i] {
			return false
		}
	}
	return true
}

func oraclePrefix(s, v PublicVersion) bool {
	if s.Epoch != v.Epoch {
		return false
	}
	if s.Pre == nil && s.Post == nil {
		for i, n := range s.Release {
			if i < len(v.Release) && v.Release[i] != n || i >= len(v.Release) && n != 0 {
				return false
			}
		}
		return true
	}
	w := v
	w.Dev = nil
	if s.Post == nil {
		w.Post = nil
	}
	return oracleCmp(s, w) == 0
}

func oracleMatch(c oracleClauseT, v Version) bool {
	s := c.v.PublicVersion
	eq := oracleCmp(s, v.PublicVersion) == 0 && (len(c.v.Local) == 0 || oracleSameLocal(c.v, v))
	cmp := oracleCmp(v.PublicVersion, s)
	switch c.op {
	case "==":
		return eq
	case "!=":
		return !eq
	case "==*":
		return oraclePrefix(s, v.PublicVersion)
	case "!=*":
		return !oraclePrefix(s, v.PublicVersion)
	case "<=":
		return cmp <= 0
	case ">=":
		return cmp >= 0
	case "<":
		return cmp < 0
	case ">":
		b := v.PublicVersion
		b.Post, b.Dev = nil, nil
		if s.Post == nil && v.Post != nil && oracleCmp(b, s) == 0 {
			return false
		}
		return cmp > 0
	case "~=":
		p := PublicVersion{Epoch: s.Epoch, Release: s.Release[:len(s.Release)-1]}
		return cmp >= 0 && oraclePrefix(p, v.PublicVersion)
	}
	return false
}

func genSpec(r *rand.Rand, near Version) (string, []oracleClauseT) {
	var parts []string
	var cs []oracleClauseT
	for i := r.Intn(4); i > 0; i-- {
		v := genNear(r, near)
		if r.Intn(3) > 0 {
			v.Local = nil
		}
		text := []string{"~=", "==", "!=", "<=", ">=", "<", ">"}[r.Intn(7)] + v.String() + []string{"", "", ".*"}[r.Intn(3)]
		c, ok, big := oracleClause(text)
		if !ok || big {
			continue
		}
		parts = append(parts, text)
		cs = append(cs, c)
	}
	return strings.Join(parts, ", "), cs
}

func TestVerif_C02_matching(t *testing.T) {
	h := newVH(t, "C02", "matching", "specifier text with up to 3 clauses whose versions are variations of one version, matched against variations of it; compared with an independent key-based reading of PEP 440", 40000)
	defer h.done()
	for h.more() {
		v := genVersion(h.r)
		text, cs := genSpec(h.r, v)
		w := genNear(h.r, v)
		in := strconv.Quote(text) + " " + w.String()
		h.tick(in)
		h.try("matching never panics", in, func() {
			spec, err := ParseSpecifier(text)
			if err != nil {
				return
			}
			want := true
			for i, c := range cs {
				m := oracleMatch(c, w)
				want = want && m
				if spec[i].Match(w) != m {
					h.fail("each clause matches what PEP 440 says", in, "clause %v: got %v want %v", spec[i], !m, m)
				}
			}
			if spec.Match(w) != want {
				h.fail("a list matches when all clauses do", in, "got %v want %v", !want, want)
			}
		})
	}
}

func TestVerif_C05_selection(t *testing.T) {
	h := newVH(t, "C05", "selection", "lists of up to 6 variations of one version, a generated specifier and every policy (nil, allow all, no pre-releases with and without an allow list, combinations); compared with a brute-force choice", 30000)
	defer h.done()
	for h.more() {
		v := genVersion(h.r)
		text, cs := genSpec(h.r, v)
		var choices []Version
		for i := h.r.Intn(7); i > 0; i-- {
			choices = append(choices, genNear(h.r, v))
		}
		var allow []Version
		for _, c := range choices {
			if h.r.Intn(3) == 0 {
				allow = append(allow, c)
			}
		}
		var pol ExclusionBehavior
		allowed := func(v Version) bool { return true }
		noPre := func(v Version) bool {
			if v.Pre == nil && v.Dev == nil {
				return true
			}
			for _, a := range allow {
				if oracleCmp(a.PublicVersion, v.PublicVersion) == 0 && oracleSameLocal(a, v) {
					return true
				}
			}
			return false
		}
		k := h.r.Intn(5)
		switch k {
		case 1:
			pol = AllowAll{}
		case 2:
			pol, allowed = ExcludePreReleases{AllowList: allow}, noPre
		case 3:
			pol, allowed = MultiExcluder{AllowAll{}, ExcludePreReleases{AllowList: allow}}, noPre
		case 4:
			pol = MultiExcluder{}
		}
		var names []string
		for _, c := range choices {
			names = append(names, c.String())
		}
		in := strconv.Quote(text) + " policy " + strconv.Itoa(k) + " from [" + strings.Join(names, " ") + "]"
		h.tick(in)
		h.try("selecting never panics", in, func() {
			spec, err := ParseSpecifier(text)
			if err != nil {
				return
			}
			got := spec.Select(choices, pol)
			var best *Version
			bestOK := false
			for i := range choices {
				c := choices[i]
				m := true
				for _, cl := range cs {
					m = m && oracleMatch(cl, c)
				}
				if !m {
					continue
				}
				ok := allowed(c)
				if best == nil || ok && !bestOK || ok == bestOK && c.Cmp(*best) > 0 {
					best, bestOK = &choices[i], ok
				}
			}
			if (best == nil) != (got == nil) || got != nil && got.Cmp(*best) != 0 {
				h.fail("the best allowed match", in, "got %v want %v", got, best)
			}
		})
	}
}

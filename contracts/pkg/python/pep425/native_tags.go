package pep425

import (
	"math/rand"
	"strings"
	"testing"
)

func genTagPart(r *rand.Rand, words ...string) string {
	n := 1
	if r.Intn(3) == 0 {
		n = 1 + r.Intn(4)
	}
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, words[r.Intn(len(words))])
	}
	return strings.Join(ps, ".")
}

func genTag(r *rand.Rand) Tag {
	return Tag{
		genTagPart(r, "py2", "py3", "cp39", "cp310", "pp3", ""),
		genTagPart(r, "none", "cp39", "abi3", "cp39m", ""),
		genTagPart(r, "any", "linux_x86_64", "manylinux1_x86_64", "win32", ""),
	}
}

func oExpand(t Tag) map[string]bool {
	ret := map[string]bool{}
	for _, p := range strings.Split(t.Python, ".") {
		for _, a := range strings.Split(t.ABI, ".") {
			for _, f := range strings.Split(t.Platform, ".") {
				ret[p+"\x00"+a+"\x00"+f] = true
			}
		}
	}
	return ret
}

func oOverlap(a, b Tag) bool {
	bs := oExpand(b)
	for x := range oExpand(a) {
		if bs[x] {
			return true
		}
	}
	return false
}

func TestVerif_C07_tags(t *testing.T) {
	h := newVH(t, "C07", "tags", "a case counts when it is a random installer list (0..6 compressed tags) and tag checked against set overlap of the expansions", 20000)
	defer h.done()
	for h.more() {
		var inst Installer
		for i := h.r.Intn(7); i > 0; i-- {
			inst = append(inst, genTag(h.r))
		}
		tag := genTag(h.r)
		in := tag.String()
		for _, x := range inst {
			in += " " + x.String()
		}
		h.tick(in)
		h.try("no panic", in, func() {
			want := len(inst) + 1
			for i := len(inst) - 1; i >= 0; i-- {
				if oOverlap(inst[i], tag) {
					want = i + 1
				}
			}
			if g := inst.Preference(tag); g != want {
				h.fail("preference is the first overlapping tag", in, "got %d want %d", g, want)
			}
			if g := inst.Supports(tag); g != (want <= len(inst)) {
				h.fail("supported exactly when a tag overlaps", in, "got %v", g)
			}
			if g := Intersect(inst, []Tag{tag}); g != (want <= len(inst)) {
				h.fail("intersect exactly when a tag overlaps", in, "got %v", g)
			}
			got := map[string]bool{}
			for _, e := range tag.Decompress() {
				got[e.Python+"\x00"+e.ABI+"\x00"+e.Platform] = true
			}
			exp := oExpand(tag)
			if len(exp) != len(got) {
				h.fail("the expansion is the product of the parts", in, "got %d want %d", len(got), len(exp))
			}
			for k := range exp {
				if !got[k] {
					h.fail("the expansion is the product of the parts", in, "missing %q", k)
				}
			}
			back, err := ParseTag(tag.String())
			if err != nil || back != tag {
				h.fail("parsing inverts printing", in, "%v %v", back, err)
			}
			var u Tag
			txt, err := tag.MarshalText()
			if err != nil || string(txt) != tag.Python+"-"+tag.ABI+"-"+tag.Platform {
				h.fail("text form", in, "%q %v", txt, err)
			}
			if err := u.UnmarshalText(txt); err != nil || u != tag {
				h.fail("unmarshal inverts marshal", in, "%v %v", u, err)
			}
			for _, s := range []string{"", "a", "a-b", in, "a-b-c-d", "-", "--", "---"} {
				x, err := ParseTag(s)
				ps := strings.Split(s, "-")
				if (err == nil) != (len(ps) == 3) {
					h.fail("exactly three parts are accepted", s, "err %v", err)
				} else if err == nil && (x.Python != ps[0] || x.ABI != ps[1] || x.Platform != ps[2]) {
					h.fail("the parts in order", s, "%v", x)
				}
			}
		})
	}
}

func init() {
	one := func(r *rand.Rand) []interface{} { return []interface{}{genTag(r)} }
	verifGens["contract_Tag_Decompress_only"] = one
	verifGens["contract_Tag_String"] = one
	verifGens["contract_Tag_MarshalText"] = one
	list := func(r *rand.Rand) []Tag {
		var l []Tag
		for i := r.Intn(5); i > 0; i-- {
			l = append(l, genTag(r))
		}
		return l
	}
	verifGens["contract_Intersect"] = func(r *rand.Rand) []interface{} { return []interface{}{list(r), list(r)} }
	verifGens["contract_Installer_Supports"] = func(r *rand.Rand) []interface{} {
		return []interface{}{Installer(list(r)), genTag(r)}
	}
	verifGens["contract_Installer_Preference"] = verifGens["contract_Installer_Supports"]
	verifGens["contract_Tag_Decompress_all"] = func(r *rand.Rand) []interface{} {
		return []interface{}{genTag(r), r.Intn(4), r.Intn(4), r.Intn(4)}
	}
	verifGens["contract_Tag_UnmarshalText"] = func(r *rand.Rand) []interface{} {
		return []interface{}{genTag(r), []byte(genTag(r).String())}
	}
}

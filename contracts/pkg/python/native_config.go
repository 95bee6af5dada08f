package python

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os/exec"
	"reflect"
	"strings"
	"testing"
)

const verifConfigPy = `
import sys, json, configparser
out = []
for c in json.load(sys.stdin):
    p = configparser.RawConfigParser(delimiters=c["delims"], comment_prefixes=c["comments"], inline_comment_prefixes=c["inline"] or None,
        strict=c["strict"], empty_lines_in_values=c["empty"], default_section="\x00none", interpolation=None)
    if c["exact"]:
        p.optionxform = lambda s: s
    try:
        p.read_string(c["text"])
        out.append({"ok": True, "data": {s: dict(p.items(s)) for s in p.sections()}})
    except configparser.Error as e:
        out.append({"ok": False, "err": type(e).__name__})
json.dump(out, sys.stdout)
`

type verifConfigCase struct {
	Delims   []string `json:"delims"`
	Comments []string `json:"comments"`
	Inline   []string `json:"inline"`
	Strict   bool     `json:"strict"`
	Empty    bool     `json:"empty"`
	Exact    bool     `json:"exact"`
	Text     string   `json:"text"`
}

type verifConfigAns struct {
	OK   bool                         `json:"ok"`
	Err  string                       `json:"err"`
	Data map[string]map[string]string `json:"data"`
}

func TestVerif_C23_python(t *testing.T) {
	h := newVH(t, "C23", "python", "the sections, options and values are those that the installed Python's configparser finds, with no interpolation and no default section", 20000)
	defer h.done()
	if _, err := exec.LookPath("python3"); err != nil {
		return
	}
	words := []string{"k", "K", "key", "key two", "=", ":", " = ", "=", "v", "value", "[s]", "[t]", "[S]", "[", "]", "[]", "#", ";", " #c", " ;c", "#", "x:y", "a.b:c [e]", " ", "\t", "\u00a0", "é", "\r", "==", "=:", "DEFAULT", "[DEFAULT]", "%(k)s", "\\"}
	indents := []string{"", "", "", "", " ", "  ", "   ", "\t", "\t ", "\u00a0", "\u00a0 "}
	for h.more() {
		// one call of the interpreter for many texts
		var cases []verifConfigCase
		for len(cases) < 1000 {
			r := h.r
			c := verifConfigCase{Delims: []string{"=", ":"}, Comments: []string{"#", ";"}, Inline: []string{}, Strict: true, Empty: true}
			if r.Intn(2) == 0 {
				c.Delims, c.Exact = []string{"="}, true // how entry points are read
			}
			if r.Intn(4) == 0 {
				c.Strict = r.Intn(2) == 0
				c.Empty = r.Intn(2) == 0
				c.Delims = [][]string{{"="}, {":"}, {"==", "="}, {"=", "=="}, {":", "="}}[r.Intn(5)]
				c.Inline = [][]string{{}, {"#"}, {";"}, {"#", ";"}, {" #"}}[r.Intn(5)]
				c.Comments = [][]string{{"#", ";"}, {"#"}, {"//"}}[r.Intn(3)]
			}
			var b strings.Builder
			if r.Intn(8) != 0 {
				b.WriteString("[s]\n")
			}
			for i, n := 0, r.Intn(7+2); i < n; i++ {
				b.WriteString(indents[r.Intn(len(indents))])
				switch r.Intn(7) {
				case 0:
				case 1:
					fmt.Fprintf(&b, "[%s]", []string{"s", "t", "a b", "S", "x]y"}[r.Intn(5)])
				case 2, 3:
					fmt.Fprintf(&b, "%s%s%s", []string{"k", "K", "key", "k2", "a b", "#k"}[r.Intn(6)], []string{"=", " = ", ":", " :", "=="}[r.Intn(5)], []string{"", "v", "a:b", "m.n:o [x]", "v # c", "v ; c", "#v", "v#;"}[r.Intn(8)])
				default:
					for j := 0; j < 1+r.Intn(5); j++ {
						b.WriteString(words[r.Intn(len(words))])
					}
				}
				if i < 6 || r.Intn(2) == 0 {
					b.WriteString("\n")
				}
			}
			c.Text = b.String()
			cases = append(cases, c)
		}
		in, err := json.Marshal(cases)
		if err != nil {
			t.Fatal(err)
		}
		cmd := exec.Command("python3", "-c", verifConfigPy)
		cmd.Stdin = bytes.NewReader(in)
		out, err := cmd.Output()
		if err != nil {
			return
		}
		var ans []verifConfigAns
		if json.Unmarshal(out, &ans) != nil || len(ans) != len(cases) {
			return
		}
		for i, c := range cases {
			c, a := c, ans[i]
			if i > 0 && !h.more() {
				return
			}
			js, _ := json.Marshal(c)
			h.tick(string(js))
			h.try("reading", string(js), func() {
				p := NewConfigParser()
				p.Delimiters, p.CommentPrefixes, p.InlineCommentPrefixes, p.Strict, p.EmptyLinesInValues = c.Delims, c.Comments, c.Inline, c.Strict, c.Empty
				if c.Exact {
					p.OptionTransform = func(s string) string { return s }
				}
				got, err := p.Parse(strings.NewReader(c.Text))
				if a.OK != (err == nil) {
					h.fail("errors are those of Python", string(js), "Python: %v %s; here: %v", a.OK, a.Err, err)
					return
				}
				if err != nil {
					return
				}
				m := map[string]map[string]string{}
				for s, kv := range got {
					m[s] = map[string]string{}
					for k, v := range kv {
						m[s][k] = v
					}
				}
				if !reflect.DeepEqual(m, a.Data) {
					h.fail("sections, options and values are those of Python", string(js), "Python: %q; here: %q", a.Data, m)
				}
			})
		}
	}
}

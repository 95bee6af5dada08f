package pep503

import (
	"bytes"
	"context"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/url"
	"reflect"
	"strings"
	"testing"

	"github.com/datawire/ocibuild/pkg/python/pep440"
	"github.com/datawire/ocibuild/pkg/python/pep629"
)

// verifServer answers requests without a network.
type verifServer struct {
	seen []string
	resp map[string]*verifResp
}

type verifResp struct {
	status    int
	body      []byte
	location  string
	failDo    bool
	failRead  int // fail after so many bytes (-1: never)
	failClose bool
	closed    int
}

type verifBody struct {
	r *verifResp
	p int
}

var errVerif = errors.New("transport fault")

func (b *verifBody) Read(p []byte) (int, error) {
	end := len(b.r.body)
	if b.r.failRead >= 0 && b.r.failRead < end {
		end = b.r.failRead
	}
	if b.p >= end {
		if b.r.failRead >= 0 {
			return 0, errVerif
		}
		return 0, io.EOF
	}
	n := copy(p, b.r.body[b.p:end])
	if n > 7 {
		n = 7
	}
	b.p += n
	return n, nil
}

func (b *verifBody) Close() error {
	b.r.closed++
	if b.r.failClose {
		return errVerif
	}
	return nil
}

func (s *verifServer) RoundTrip(req *http.Request) (*http.Response, error) {
	u := *req.URL
	u.Fragment, u.RawFragment = "", ""
	s.seen = append(s.seen, u.String())
	r := s.resp[u.String()]
	if r == nil {
		r = &verifResp{status: 404, failRead: -1}
	}
	if r.failDo {
		return nil, errVerif
	}
	h := http.Header{}
	if r.location != "" {
		h.Set("Location", r.location)
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", r.status, http.StatusText(r.status)), StatusCode: r.status, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: h, Body: &verifBody{r: r}, ContentLength: -1, Request: req,
	}, nil
}

func verifSum(algo string, b []byte) string {
	switch algo {
	case "md5":
		x := md5.Sum(b)
		return hex.EncodeToString(x[:])
	case "sha1":
		x := sha1.Sum(b)
		return hex.EncodeToString(x[:])
	case "sha224":
		x := sha256.Sum224(b)
		return hex.EncodeToString(x[:])
	case "sha256":
		x := sha256.Sum256(b)
		return hex.EncodeToString(x[:])
	case "sha384":
		x := sha512.Sum384(b)
		return hex.EncodeToString(x[:])
	case "sha512":
		x := sha512.Sum512(b)
		return hex.EncodeToString(x[:])
	}
	return ""
}

var verifAlgos = []string{"md5", "sha1", "sha224", "sha256", "sha384", "sha512"}

func verifBytes(r *rand.Rand) []byte {
	b := make([]byte, r.Intn(60))
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}

func verifAnswer(r *rand.Rand) *verifResp {
	x := &verifResp{status: 200, body: verifBytes(r), failRead: -1}
	switch r.Intn(8) {
	case 0:
		x.status = []int{201, 203, 204, 206, 304, 400, 401, 403, 404, 410, 500, 503}[r.Intn(12)]
	case 1:
		x.failDo = true
	case 2:
		x.failRead = r.Intn(len(x.body) + 1)
	case 3:
		x.failClose = true
	}
	return x
}

func TestVerif_C21_get(t *testing.T) {
	h := newVH(t, "C21", "get", "a download is returned only for a complete 200 response whose digests are the advertised ones", 4000)
	defer h.done()
	for h.more() {
		r := h.r
		ans := verifAnswer(r)
		srv := &verifServer{resp: map[string]*verifResp{"http://h/d/f-1.whl": ans}}
		var parts []string
		good := true
		for i, n := 0, r.Intn(4+2); i < n; i++ {
			algo := verifAlgos[r.Intn(len(verifAlgos))]
			sum := verifSum(algo, ans.body)
			switch r.Intn(12) {
			case 0:
				sum = verifSum(algo, append([]byte{0}, ans.body...))
			case 1:
				sum = sum[:len(sum)-r.Intn(3)-1]
			case 2:
				b := []byte(sum)
				i := r.Intn(len(b))
				if b[i]++; b[i] == ':' || b[i] > 'f' {
					b[i] = '0'
				}
				sum = string(b)
			case 3:
				sum = ""
			case 4:
				sum += "00"
			case 5:
				algo = []string{"sha3", "crc", "egg", "SHA", "x-sha256"}[r.Intn(5)] // not an algorithm that is known
			}
			if want := verifSum(algo, ans.body); want != "" && want != sum {
				good = false
			}
			parts = append(parts, algo+"="+sum)
		}
		if r.Intn(6) == 0 {
			parts = append(parts, []string{"egg=foo", "bar", "%zz=1", "a;b=c"}[r.Intn(4)])
			r.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		}
		link := "http://h/d/f-1.whl"
		if len(parts) > 0 {
			link += "#" + strings.Join(parts, "&")
		}
		l := FileLink{client: Client{HTTPClient: &http.Client{Transport: srv}}, Link: Link{HRef: link, DataAttrs: map[string]string{}}}
		in := fmt.Sprintf("%v", []interface{}{"link", link, "status", ans.status, "body", hex.EncodeToString(ans.body), "failDo", ans.failDo, "failRead", ans.failRead, "failClose", ans.failClose})
		h.tick(in)
		h.try("download", in, func() {
			got, err := l.Get(context.Background())
			usable := ans.status == 200 && !ans.failDo && ans.failRead < 0 && !ans.failClose
			switch {
			case err == nil && !usable:
				h.fail("an unusable response is an error", in, "returned %d bytes", len(got))
			case err == nil && !good:
				h.fail("a wrong checksum is an error", in, "returned %d bytes", len(got))
			case err == nil && !bytes.Equal(got, ans.body):
				h.fail("the content is what the server sent", in, "%x", got)
			case err != nil && got != nil:
				h.fail("nothing is returned with an error", in, "%d bytes and %v", len(got), err)
			case err != nil && usable && good && !strings.Contains(link, "%zz"):
				h.fail("a good download is returned", in, "%v", err)
			}
			if !ans.failDo && !strings.Contains(link, "%zz") && ans.closed != 1 {
				h.fail("the response is closed", in, "closed %d times", ans.closed)
			}
		})
	}
}

func TestVerif_C21_signature(t *testing.T) {
	h := newVH(t, "C21", "signature", "the signature is the .asc companion of the file; a declared absence, or a 404 where nothing is declared, is no signature", 3000)
	defer h.done()
	for h.more() {
		r := h.r
		ans := verifAnswer(r)
		if r.Intn(4) == 0 {
			ans = &verifResp{status: 404, body: []byte("gone"), failRead: -1}
		}
		p := []string{"/d/f-1.whl", "/d/a%2Fb-1.whl", "/d/sp%20ace.tar.gz", "/f", "/d/x%C3%A9.whl"}[r.Intn(5)]
		q := []string{"", "?k=v", "?sig=a%23b"}[r.Intn(3)]
		frag := []string{"", "#sha256=" + strings.Repeat("0", 64), "#md5=00&egg=x", "#f"}[r.Intn(4)]
		want := "http://h" + p + ".asc" + q
		srv := &verifServer{resp: map[string]*verifResp{want: ans}}
		attrs := map[string]string{}
		decl := []string{"", "true", "false", "maybe"}[r.Intn(4)]
		if decl != "" {
			attrs["data-gpg-sig"] = decl
		}
		l := FileLink{client: Client{HTTPClient: &http.Client{Transport: srv}}, Link: Link{HRef: "http://h" + p + q + frag, DataAttrs: attrs}}
		in := fmt.Sprintf("%v", []interface{}{"link", l.HRef, "declared", decl, "status", ans.status, "failDo", ans.failDo, "failRead", ans.failRead, "failClose", ans.failClose})
		h.tick(in)
		h.try("signature", in, func() {
			got, err := l.GetSignature(context.Background())
			if decl == "false" {
				if err != ErrNoSignature || got != nil || len(srv.seen) != 0 {
					h.fail("a declared absence is believed", in, "%v, %d bytes, requests %v", err, len(got), srv.seen)
				}
				return
			}
			if !reflect.DeepEqual(srv.seen, []string{want}) {
				h.fail("the signature file is asked for", in, "requests %v, want %v", srv.seen, want)
			}
			usable := ans.status == 200 && !ans.failDo && ans.failRead < 0 && !ans.failClose
			missing := ans.status == 404 && !ans.failDo && ans.failRead < 0 && !ans.failClose
			if usable != (err == nil) || usable && !bytes.Equal(got, ans.body) || !usable && got != nil {
				h.fail("the signature is returned if it was downloaded", in, "%v %x", err, got)
			}
			if (err == ErrNoSignature) != (missing && decl != "true") {
				h.fail("a 404 is no signature unless one is declared", in, "%v", err)
			}
		})
	}
}

func verifNormal(s string) string {
	var b strings.Builder
	sep := false
	for _, c := range []byte(s) {
		if c == '-' || c == '_' || c == '.' {
			sep = true
			continue
		}
		if sep {
			b.WriteByte('-')
			sep = false
		}
		if 'A' <= c && c <= 'Z' {
			c += 'a' - 'A'
		}
		b.WriteByte(c)
	}
	if sep {
		b.WriteByte('-')
	}
	return b.String()
}

type verifReq struct {
	text   string
	parses bool
	lo, hi int // minor versions of Python 3 that are allowed
}

func verifRequires(r *rand.Rand) verifReq {
	a, b := r.Intn(12), r.Intn(12)
	switch r.Intn(8) {
	case 0:
		return verifReq{"", true, 0, 99}
	case 1:
		return verifReq{fmt.Sprintf(">=3.%d", a), true, a, 99}
	case 2:
		return verifReq{fmt.Sprintf("<3.%d", a), true, 0, a - 1}
	case 3:
		return verifReq{fmt.Sprintf(">=3.%d,<3.%d", a, b), true, a, b - 1}
	case 4:
		return verifReq{fmt.Sprintf(">= 3.%d, < 4", a), true, a, 99}
	case 5:
		return verifReq{"<3", true, 1, 0}
	case 6:
		return verifReq{[]string{"python3", ">=", "3.x", "~3.4", ">=3.5.*x", "&"}[r.Intn(6)], false, 0, 99}
	default:
		return verifReq{fmt.Sprintf([]string{"==3.%d", "3.%d"}[r.Intn(2)], a), true, a, a}
	}
}

func TestVerif_C22_list(t *testing.T) {
	h := newVH(t, "C22", "list", "listing a project asks for its normalized page only, resolves links against its final location, and omits only the files that exclude the interpreter", 3000)
	defer h.done()
	for h.more() {
		r := h.r
		alphabet := "aZ09bQ-_."
		if r.Intn(3) == 0 {
			alphabet += " /%é?#~+\x00:@\xff"
		}
		runes := []rune(alphabet)
		var nb strings.Builder
		for i := 0; i < 1+r.Intn(7); i++ {
			nb.WriteRune(runes[r.Intn(len(runes))])
		}
		name := nb.String()
		legal := true
		for _, c := range []byte(name) {
			if !strings.ContainsRune("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.", rune(c)) || c >= 128 {
				legal = false
			}
		}
		base := []string{"http://h/simple", "http://h/simple/", "http://h/a/b/", "http://h:81/"}[r.Intn(4)]
		page := strings.TrimRight(base, "/") + "/" + verifNormal(name)
		if !legal {
			page = strings.TrimRight(base, "/") + "/x"
		}
		final := page
		srv := &verifServer{resp: map[string]*verifResp{}}
		if r.Intn(3) == 0 {
			final = []string{page + "/", "http://mirror/x/y/z", "https://h/other/dir/"}[r.Intn(3)]
			srv.resp[page] = &verifResp{status: []int{301, 302, 307, 308}[r.Intn(4)], location: final, failRead: -1}
		}
		minor := r.Intn(12)
		var python *pep440.Version
		if r.Intn(4) != 0 {
			python, _ = pep440.ParseVersion(fmt.Sprintf("3.%d.%d", minor, r.Intn(4)))
		}
		var want []Link
		var doc strings.Builder
		major, declared := 1, r.Intn(3)
		doc.WriteString("<!DOCTYPE html><html><head>")
		if declared != 0 {
			major = r.Intn(3)
			fmt.Fprintf(&doc, `<meta name="pypi:repository-version" content="%d.%d">`, major, r.Intn(3))
		}
		doc.WriteString("</head><body>")
		ffinal, _ := url.Parse(final)
		for i, n := 0, r.Intn(5+2); i < n; i++ {
			req := verifRequires(r)
			href := fmt.Sprintf([]string{"f%d.whl", "../../p/f%d.whl#sha256=00", "/abs/f%d.whl", "https://files/f%d.whl", "?f=%d", "//o/f%d"}[r.Intn(6)], i)
			text := fmt.Sprintf("f%d.whl", i)
			link := Link{Text: text, DataAttrs: map[string]string{}}
			u, _ := ffinal.Parse(href)
			link.HRef = u.String()
			fmt.Fprintf(&doc, `<p><a href="%s"`, href)
			if req.text != "" || r.Intn(2) == 0 {
				link.DataAttrs["data-requires-python"] = req.text
				fmt.Fprintf(&doc, ` data-requires-python="%s"`, strings.NewReplacer("<", "&lt;", ">", "&gt;", "&", "&amp;").Replace(req.text))
			}
			if r.Intn(3) == 0 {
				v := []string{"", "why <not>"}[r.Intn(2)]
				link.DataAttrs["data-yanked"] = v
				fmt.Fprintf(&doc, ` data-yanked="%s"`, strings.NewReplacer("<", "&lt;", ">", "&gt;").Replace(v))
			}
			if r.Intn(3) == 0 {
				doc.WriteString(` class="x"`)
			}
			if r.Intn(3) == 0 {
				text = "<b>f</b>" + text[1:]
			}
			fmt.Fprintf(&doc, ">%s</a>", text)
			if python == nil || !req.parses || req.lo <= minor && minor <= req.hi {
				want = append(want, link)
			}
		}
		body := doc.String() + "</body></html>"
		srv.resp[final] = &verifResp{status: 200, body: []byte(body), failRead: -1}
		fail := r.Intn(10) == 0
		if fail {
			srv.resp[final] = verifAnswer(r)
			srv.resp[final].status = 500
		}
		c := Client{BaseURL: base, HTTPClient: &http.Client{Transport: srv}, Python: python, HTMLHook: pep629.HTMLVersionCheck}
		py := ""
		if python != nil {
			py = python.String()
		}
		in := fmt.Sprintf("%v", []interface{}{"base", base, "name", name, "python", py, "page", body, "final", final, "fails", fail})
		h.tick(in)
		h.try("listing", in, func() {
			links, err := c.ListPackageFiles(context.Background(), name)
			if !legal {
				if err == nil || len(srv.seen) != 0 {
					h.fail("other names are refused", in, "error %v, requests %v", err, srv.seen)
				}
				return
			}
			wantSeen := []string{page}
			if final != page {
				wantSeen = append(wantSeen, final)
			}
			if !reflect.DeepEqual(srv.seen, wantSeen) {
				h.fail("only the normalized page is requested", in, "requests %q, want %q", srv.seen, wantSeen)
			}
			if fail || declared != 0 && major > 1 {
				if err == nil {
					h.fail("unusable pages are refused", in, "%d links", len(links))
				}
				return
			}
			if err != nil {
				h.fail("usable pages are listed", in, "%v", err)
				return
			}
			var got []Link
			for _, l := range links {
				got = append(got, l.Link)
			}
			if !reflect.DeepEqual(got, want) {
				h.fail("the files that do not exclude the interpreter are listed, in page order", in, "got %q, want %q", got, want)
			}
		})
	}
}

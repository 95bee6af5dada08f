package pep503

import (
	"context"
	"errors"
	"hash"
	"io"
	"net/http"
	"net/url"

	"github.com/datawire/ocibuild/pkg/python/pep440"
)

type ghostError struct{}

func (*ghostError) Error() string { return "ghost" }

var errGhost error = &ghostError{}

func nondetBool() bool                { return false }
func nondetInt() int                  { return 0 }
func identicalBytes(a, b []byte) bool { return false }
func visitedKey(k string) bool        { return false }

// ---- Client.get: what is downloaded, and when it is returned ----

// ghostNet is one exchange: whether each step fails, and what the server answers.
type ghostNet struct {
	url                                      string
	failRequest, failDo, failRead, failClose bool
	failParse, failQuery                     bool
	status                                   int
	content                                  []byte
	final                                    *url.URL
	fragment                                 string
	sums                                     map[string][]string
	asked, read, closed                      int
}

var ghostHTTP *ghostNet

//gocv:extern net/http.NewRequestWithContext GET
func model_NewRequest(ctx context.Context, method, u string, body io.Reader) (*http.Request, error) {
	g := ghostHTTP
	check("the given URL is requested", method == "GET" && u == g.url && body == nil)
	if g.failRequest {
		return nil, errGhost
	}
	return &http.Request{Header: http.Header{}}, nil
}

//gocv:extern (net/http.Header).Set GET
func model_HeaderSet(h http.Header, k, v string) {}

//gocv:extern (*net/http.Client).Do GET
func model_Do(c *http.Client, req *http.Request) (*http.Response, error) {
	g := ghostHTTP
	g.asked++
	if g.failDo {
		return nil, errGhost
	}
	return &http.Response{StatusCode: g.status, Body: &ghostBody{}, Request: &http.Request{URL: g.final}}, nil
}

type ghostBody struct{}

func (*ghostBody) Read([]byte) (int, error) { return 0, io.EOF }
func (*ghostBody) Close() error {
	ghostHTTP.closed++
	if ghostHTTP.failClose {
		return errGhost
	}
	return nil
}

//gocv:extern io.ReadAll GET
func model_ReadAll(r io.Reader) ([]byte, error) {
	g := ghostHTTP
	_, ok := r.(*ghostBody)
	check("the body of the response is read", ok && g.closed == 0)
	g.read++
	if g.failRead {
		return nil, errGhost
	}
	return g.content, nil
}

//gocv:extern net/url.Parse GET
func model_urlParse(u string) (*url.URL, error) {
	g := ghostHTTP
	check("the fragment is that of the requested URL", u == g.url)
	if g.failParse {
		return nil, errGhost
	}
	return &url.URL{Fragment: g.fragment}, nil
}

//gocv:extern net/url.ParseQuery GET
func model_ParseQuery(q string) (url.Values, error) {
	g := ghostHTTP
	check("checksums are looked for in the fragment", q == g.fragment)
	if g.failQuery {
		return url.Values(g.sums), errGhost
	}
	return url.Values(g.sums), nil
}

type ghostHash struct {
	algo string
	n    int
	b    []byte
}

func (g *ghostHash) Write(b []byte) (int, error) {
	g.n++
	g.b = b
	return len(b), nil
}
func (g *ghostHash) Reset()         { g.n = 0 }
func (g *ghostHash) Size() int      { return 0 }
func (g *ghostHash) BlockSize() int { return 0 }
func (g *ghostHash) Sum(b []byte) []byte {
	check("the digest is of the downloaded content", g.n == 1 && b == nil && identicalBytes(g.b, ghostHTTP.content))
	ghostSum = specDigest(g.algo)
	return nil
}

var ghostSum string

// specDigest: the digest of the downloaded content, in hexadecimal.
//
//gocv:pure specDigest
func specDigest(algo string) string { return algo }

//gocv:extern encoding/hex.EncodeToString GET
func model_hex(b []byte) string { return ghostSum }

//gocv:extern crypto/md5.New GET
func model_md5() hash.Hash { return &ghostHash{algo: "md5"} }

//gocv:extern crypto/sha1.New GET
func model_sha1() hash.Hash { return &ghostHash{algo: "sha1"} }

//gocv:extern crypto/sha256.New224 GET
func model_sha224() hash.Hash { return &ghostHash{algo: "sha224"} }

//gocv:extern crypto/sha256.New GET
func model_sha256() hash.Hash { return &ghostHash{algo: "sha256"} }

//gocv:extern crypto/sha512.New384 GET
func model_sha384() hash.Hash { return &ghostHash{algo: "sha384"} }

//gocv:extern crypto/sha512.New GET
func model_sha512() hash.Hash { return &ghostHash{algo: "sha512"} }

func specKnown(algo string) bool {
	return algo == "md5" || algo == "sha1" || algo == "sha224" || algo == "sha256" || algo == "sha384" || algo == "sha512"
}

func specSums(algo string, vals []string, n int) bool {
	return !specKnown(algo) || vals == nil || forall(0, n, func(i int) bool { return vals[i] == specDigest(algo) })
}

func forallKeyVals(m url.Values, f func(k string) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func specUsable(g *ghostNet) bool {
	return !g.failRequest && !g.failDo && !g.failRead && !g.failClose && g.status == 200
}

//gocv:contract C21 Client.get use=GET noreplay
func contract_get(c Client, g *ghostNet, final *url.URL) {
	requires(g != nil && g.asked == 0 && g.read == 0 && g.closed == 0 && final != nil)
	g.final = final
	ghostHTTP = g
	u, content, err := c.get(context.Background(), g.url)
	checked := !g.failParse && g.fragment != ""
	if err == nil {
		ensures("only a complete response with status 200 is returned", specUsable(g) && g.asked == 1 && g.read == 1 && g.closed == 1)
		ensures("what is returned is its content and location", identicalBytes(content, g.content) && u == final)
		ensures("every advertised checksum matches", !checked || forallKeyVals(url.Values(g.sums), func(k string) bool { return specSums(k, g.sums[k], len(g.sums[k])) }))
	} else {
		ensures("nothing is returned with an error", u == nil && content == nil)
	}
	ensures("a response is always closed", g.asked == 0 || g.failDo || g.closed == 1)
}

//gocv:invariant Client.get depth=1 use=GET
func inv_get_sums(keyvals url.Values) bool {
	return forallKeyVals(keyvals, func(k string) bool { return !visitedKey(k) || specSums(k, keyvals[k], len(keyvals[k])) })
}

//gocv:invariant Client.get depth=2 use=GET
func inv_get_vals(key string, vals []string, n2 int) bool { return specSums(key, vals, n2) }

// ---- FileLink.GetSignature ----

type ghostSig struct {
	u         *url.URL // the parsed link
	path, raw string
	failParse bool
	asked     int
	content   []byte
	err       error
	str       string
	href      string
}

var ghostSigs *ghostSig

//gocv:extern net/url.Parse SIG
func model_sigParse(u string) (*url.URL, error) {
	g := ghostSigs
	check("the signature is that of the linked file", u == g.href)
	if g.failParse {
		return nil, errGhost
	}
	return g.u, nil
}

func specAsc(raw string) string {
	if raw == "" {
		return ""
	}
	return raw + ".asc"
}

//gocv:extern (*net/url.URL).String SIG
func model_sigString(u *url.URL) string {
	g := ghostSigs
	check("the name of the signature is that of the file with .asc appended, without the fragment", u == g.u && u.Path == g.path+".asc" && u.RawPath == specAsc(g.raw) && u.Fragment == "" && u.RawFragment == "")
	return g.str
}

//gocv:extern (github.com/datawire/ocibuild/pkg/python/pep503.Client).get SIG
func model_get(c Client, ctx context.Context, u string) (*url.URL, []byte, error) {
	g := ghostSigs
	check("the signature is what is downloaded", u == g.str && g.asked == 0)
	g.asked++
	if g.err != nil {
		return nil, nil, g.err
	}
	return &url.URL{}, g.content, nil
}

type ghostWrapped struct{ status *HTTPError }

func (*ghostWrapped) Error() string { return "wrapped" }

//gocv:extern errors.As SIG
func model_As(err error, target interface{}) bool {
	t := target.(**HTTPError)
	w, ok := err.(*ghostWrapped)
	if !ok || w.status == nil {
		return false
	}
	*t = w.status
	return true
}

//gocv:contract C21 FileLink.GetSignature use=SIG noreplay
func contract_GetSignature(l FileLink, u *url.URL, failParse bool, content []byte, w *ghostWrapped, str string) {
	requires(u != nil && l.DataAttrs != nil)
	g := &ghostSig{u: u, path: u.Path, raw: u.RawPath, failParse: failParse, content: content, str: str, href: l.HRef}
	missing := false
	if w != nil {
		g.err = w
		missing = w.status != nil && w.status.StatusCode == 404
	}
	scheme, host, query := u.Scheme, u.Host, u.RawQuery
	ghostSigs = g
	sig := l.DataAttrs["data-gpg-sig"]
	got, err := l.GetSignature(context.Background())
	if failParse {
		ensures("a malformed link is an error", err != nil && g.asked == 0)
		return
	}
	if sig == "false" {
		ensures("an index that says that there is no signature is believed", err == ErrNoSignature && got == nil && g.asked == 0)
		return
	}
	ensures("the signature is asked for once, from the same place", g.asked == 1 && u.Scheme == scheme && u.Host == host && u.RawQuery == query)
	if w == nil {
		ensures("the signature is returned", err == nil && identicalBytes(got, content))
	} else {
		ensures("nothing is returned without a signature", err != nil && got == nil)
		ensures("a missing signature is no signature, unless the index says that there is one", (err == ErrNoSignature) == (missing && sig != "true"))
		ensures("other errors are reported", err == ErrNoSignature || err == error(w))
	}
}

var _ = errors.As
var _ *pep440.Version

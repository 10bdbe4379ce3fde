// Command linked replays the behaviours of RelResource.tla, LinkCache.tla and Structure.tla: the documents a credential
// links to, and the rules its structure must follow.
package main

import (
	"bytes"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"sync"
	"time"

	"github.com/hashicorp/golang-lru/v2/expirable"
	"github.com/multiformats/go-multibase"

	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

type L = []interface{}

const alg = "EdDSA"

var (
	who = issue.As(alg, "own")
	chk *checker.ProofChecker
)

// web serves what the behaviour says, and remembers the bodies it handed out.
type web struct {
	mu    sync.Mutex
	pages map[string]func() (*http.Response, error)
}

var world = &web{pages: map[string]func() (*http.Response, error){}}

func (w *web) put(u string, p func() (*http.Response, error)) {
	w.mu.Lock()
	w.pages[u] = p
	w.mu.Unlock()
}

func (w *web) drop(us ...string) {
	w.mu.Lock()
	for _, u := range us {
		delete(w.pages, u)
	}
	w.mu.Unlock()
}

func (w *web) Do(r *http.Request) (*http.Response, error) { return w.RoundTrip(r) }

func (w *web) RoundTrip(r *http.Request) (*http.Response, error) {
	w.mu.Lock()
	f := w.pages[r.URL.String()]
	w.mu.Unlock()
	if f == nil {
		return &http.Response{StatusCode: 404, Body: io.NopCloser(strings.NewReader("no such page")), Header: http.Header{}, Request: r}, nil
	}
	p, err := f()
	if p != nil {
		p.Request, p.Header = r, http.Header{}
	}
	return p, err
}

func page(code int, body []byte) func() (*http.Response, error) {
	return func() (*http.Response, error) {
		return &http.Response{StatusCode: code, Body: io.NopCloser(bytes.NewReader(body))}, nil
	}
}

type cutReader struct{ b *bytes.Reader }

func (c cutReader) Read(p []byte) (int, error) {
	n, err := c.b.Read(p)
	if errors.Is(err, io.EOF) {
		return n, io.ErrUnexpectedEOF
	}
	return n, err
}

func served(kind string, body []byte) func() (*http.Response, error) {
	switch kind {
	case "ok":
		return page(200, body)
	case "notfound":
		return page(404, body)
	case "error":
		return page(500, body)
	case "nocontent":
		return page(204, body)
	case "partial":
		return page(206, body)
	case "moved":
		return page(301, body)
	case "empty":
		return page(200, nil)
	case "nobody":
		return func() (*http.Response, error) { return &http.Response{StatusCode: 200, Body: nil}, nil }
	case "unreachable":
		return func() (*http.Response, error) { return nil, errors.New("connection refused") }
	case "cut":
		return func() (*http.Response, error) {
			return &http.Response{StatusCode: 200, Body: io.NopCloser(cutReader{bytes.NewReader(body)})}, nil
		}
	}
	lib.Fatalf("served %q", kind)
	return nil
}

func sum(a string, b []byte) []byte {
	switch a {
	case "256":
		x := sha256.Sum256(b)
		return x[:]
	case "384":
		x := sha512.Sum384(b)
		return x[:]
	}
	x := sha512.Sum512(b)
	return x[:]
}

func mbase(e multibase.Encoding, b []byte) string {
	s, err := multibase.Encode(e, b)
	lib.Must(err, "multibase")
	return s
}

func std(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

// sri builds the digestSRI member of a resource with content b; other is another resource's content.
func sri(kind string, b, other []byte) interface{} {
	wrong := append([]byte{}, b...)
	wrong = append(wrong, 'x')
	switch kind {
	case "s256", "s384", "s512":
		return "sha" + kind[1:] + "-" + std(sum(kind[1:], b))
	case "m256", "m384":
		return "sha" + kind[1:] + "-" + mbase(multibase.Base64pad, sum(kind[1:], b))
	case "u512":
		return "sha512-" + mbase(multibase.Base64url, sum("512", b))
	case "m256wrong":
		return "sha256-" + mbase(multibase.Base64pad, sum("256", wrong))
	case "wrong256", "wrong384", "wrong512":
		return "sha" + kind[5:] + "-" + std(sum(kind[5:], wrong))
	case "mislabelled":
		return "sha256-" + std(sum("384", b))
	case "hash256as512":
		return "sha512-" + std(sum("256", b))
	case "longer":
		return "sha384-" + std(append(sum("384", b), 0))
	case "shorter":
		return "sha384-" + std(sum("384", b)[:45])
	case "emptyhash":
		return "sha384-"
	case "unknownalg":
		return "md5-" + std(sum("384", b))
	case "nodash":
		return std(sum("384", b))
	case "noalg":
		return "-" + std(sum("384", b))
	case "garbled":
		return "sha384-****"
	case "badbase":
		return "sha384-" + "%" + std(sum("384", b))
	case "hexwrong":
		return "sha384-f" + hex.EncodeToString(sum("384", wrong))
	case "foreign":
		return "sha384-" + std(sum("384", other))
	}
	return nil
}

func mb(kind string, b, other []byte) interface{} {
	wrong := append(append([]byte{}, b...), 'x')
	head := func(h []byte) []byte { return append([]byte{0x12, 0x20}, h...) }
	h := sum("256", b)
	switch kind {
	case "uheader":
		return mbase(multibase.Base64url, head(h))
	case "zheader":
		return mbase(multibase.Base58BTC, head(h))
	case "mheader":
		return mbase(multibase.Base64, head(h))
	case "fheader":
		return mbase(multibase.Base16, head(h))
	case "uraw":
		return mbase(multibase.Base64url, h)
	case "zraw":
		return mbase(multibase.Base58BTC, h)
	case "wrongheader":
		return mbase(multibase.Base64url, head(sum("256", wrong)))
	case "wrongraw":
		return mbase(multibase.Base64url, sum("256", wrong))
	case "zwrong":
		return mbase(multibase.Base58BTC, head(sum("256", wrong)))
	case "one":
		return "uEg"
	case "none":
		return "u"
	case "noprefix":
		return "?" + base64.RawURLEncoding.EncodeToString(head(h))
	case "cut":
		return mbase(multibase.Base64url, head(h)[:20])
	case "extra":
		return mbase(multibase.Base64url, append(head(h), 1))
	case "foreign":
		return mbase(multibase.Base64url, head(sum("256", other)))
	case "headeronly":
		return mbase(multibase.Base64url, []byte{0x12, 0x20})
	case "badlength":
		return mbase(multibase.Base64url, append([]byte{0x12, 0x1f}, h...))
	case "alg512wrong":
		return mbase(multibase.Base64url, append([]byte{0x13, 0x40}, sum("512", wrong)...))
	case "twice":
		return mbase(multibase.Base64url, head(head(h)))
	}
	return nil
}

type resourceRec struct {
	Expect, Base string
	Dev          []string
	C            struct{ Enc, Option, Sri, Mb, Fetch, Content, Name, Other, Place, Media string }
}

func random(t *lib.T, n int) []byte {
	b := make([]byte, n)
	t.R.Read(b)
	return b
}

// document is a plain credential of model 2.0 that lists resources.
func listing(rs L) lib.M {
	d := vcdoc.Base(issue.Alice, true)
	if rs != nil {
		d["relatedResource"] = rs
	}
	return lib.ParseJSON(lib.JSON(d)).(lib.M)
}

func resource(t *lib.T) {
	var r resourceRec
	t.Decode(&r)
	c := r.C
	w := world
	content, otherContent := []byte(fmt.Sprintf(`{"n":%d}`, t.R.Int63())), random(t, 40)
	switch c.Content {
	case "binary":
		content = random(t, 1+t.R.Intn(5000))
	case "page":
		content = bytes.Repeat([]byte("<p>line</p>\r\n"), 8000)
	}
	body := append([]byte{}, content...)
	switch c.Content {
	case "altered":
		body[t.R.Intn(len(body))] ^= 1 << uint(t.R.Intn(8))
	case "truncated":
		body = body[:len(body)-1]
	case "extended":
		body = append(body, '\n')
	}
	u := fmt.Sprintf("https://r.example/%d", t.R.Int63())
	switch c.Name {
	case "query":
		u += "?v=1&w=" + "%20x"
	case "notaurl":
		u = "http://[::1" // no URL at all
	}
	w.put(u, served(c.Fetch, body))
	res := lib.M{"id": u}
	if c.Name == "absent" {
		delete(res, "id")
	}
	if x := sri(c.Sri, content, otherContent); x != nil {
		res["digestSRI"] = x
	}
	if x := mb(c.Mb, content, otherContent); x != nil {
		res["digestMultibase"] = x
	}
	if c.Media == "json" {
		res["mediaType"] = "application/json"
	}
	u2, u3 := fmt.Sprintf("https://other.example/a%d", t.R.Int63()), fmt.Sprintf("https://other.example/b%d", t.R.Int63())
	w.put(u2, page(200, otherContent))
	w.put(u3, page(200, []byte("third")))
	defer w.drop(u, u2, u3)
	goodOther := lib.M{"id": u2, "digestSRI": "sha256-" + std(sum("256", otherContent))}
	others := map[string]L{
		"good": {goodOther}, "bad": {lib.M{"id": u2, "digestSRI": "sha256-" + std(sum("256", content))}},
		"unreachable": {lib.M{"id": "https://other.example/gone", "digestSRI": "sha256-" + std(sum("256", otherContent))}},
		"nodigest":    {lib.M{"id": u2}}, "samegood": {lib.M{"id": u, "digestSRI": "sha512-" + std(sum("512", content))}},
		"samebad": {lib.M{"id": u, "digestSRI": "sha512-" + std(sum("512", otherContent))}},
		"goodbad": {goodOther, lib.M{"id": u3, "digestSRI": "sha256-" + std(sum("256", otherContent))}},
	}[c.Other]
	all := append(L{res}, others...)
	if c.Place == "last" {
		all = append(append(L{}, others...), res)
	}
	doc := listing(all)
	var opts []verifiable.CredentialOpt
	opts = append(opts, verifiable.WithProofChecker(chk), verifiable.WithJSONLDDocumentLoader(issue.Loader))
	if c.Option == "off" {
		opts = append(opts, verifiable.WithDisabledRelatedResourceCheck())
	}
	key := r.Base + ":" + strings.Join(r.Dev, "+")
	t.Run()
	err := accept(c.Enc, doc, opts, c.Option == "vpcheck")
	judge(t, key, r.Expect, err, c)
}

func judge(t *lib.T, key, expect string, err error, c interface{}) {
	if expect == "open" || expect == "either" {
		t.Obs(expect)
		return
	}
	if err == nil {
		t.Obs("ok")
	} else {
		t.Obs("reject")
	}
	if (err == nil) != (expect == "ok") {
		t.Failf(key, "expected %s, got %v: %+v", expect, err, c)
	}
}

// accept presents doc to the library in some encoding.
func accept(enc string, doc lib.M, opts []verifiable.CredentialOpt, vpcheck bool) error {
	vp := func(creds interface{}) lib.M {
		return lib.M{"@context": L{"https://www.w3.org/ns/credentials/v2"}, "type": L{"VerifiablePresentation"}, "holder": issue.Hanna, "verifiableCredential": creds}
	}
	popts := []verifiable.PresentationOpt{verifiable.WithPresProofChecker(chk), verifiable.WithPresJSONLDDocumentLoader(issue.Loader)}
	if vpcheck {
		popts = append(popts, verifiable.WithPresRelatedResourceCheck(true))
	}
	parse := func(b []byte) error {
		v, err := verifiable.ParseCredential(b, opts...)
		if err == nil && v == nil {
			return errors.New("nothing")
		}
		return err
	}
	pres := func(v []byte) error {
		b := []byte(issue.JWT(lib.M{"iss": issue.Hanna, "vp": lib.ParseJSON(v)}, issue.As(alg, "hanna")))
		p, err := verifiable.ParsePresentation(b, popts...)
		if err == nil && len(p.Credentials()) == 0 {
			return errors.New("no credentials")
		}
		return err
	}
	switch enc {
	case "direct":
		vc, err := verifiable.ParseCredentialJSON(doc, verifiable.WithJSONLDDocumentLoader(issue.Loader), verifiable.WithCredDisableValidation())
		lib.Must(err, "parse")
		return verifiable.DefaultRelatedResourceValidator.Validate([]*verifiable.Credential{vc})
	case "json":
		return parse(lib.JSON(issue.LD(doc, who)))
	case "jwt":
		return parse([]byte(issue.JWT(lib.M{"iss": issue.Alice, "vc": doc}, who)))
	case "sd":
		d := vcdoc.Clone(doc)
		ds := issue.Conceal(d["credentialSubject"].(lib.M), "s", "claim")
		d["_sd_alg"] = "sha-256"
		return parse([]byte(issue.Combined(issue.JWT(lib.M{"iss": issue.Alice, "vc": d}, who), ds)))
	case "cwt":
		return parse([]byte(issue.Hex(issue.CWT(lib.M{"vc": doc}, who))))
	case "enveloped":
		env := lib.M{"@context": "https://www.w3.org/ns/credentials/v2", "type": "EnvelopedVerifiableCredential",
			"id": issue.DataURL("application/vc-ld+jwt", []byte(issue.JWT(lib.M{"iss": issue.Alice, "vc": doc}, who)))}
		env["id"] = "data:application/vc-ld+jwt;base64," + issue.JWT(lib.M{"iss": issue.Alice, "vc": doc}, who)
		return parse(lib.JSON(env))
	case "vpstring":
		return pres(lib.JSON(vp(issue.JWT(lib.M{"iss": issue.Alice, "vc": doc}, who))))
	case "vpcwt":
		return pres(lib.JSON(vp(L{issue.Hex(issue.CWT(lib.M{"vc": doc}, who))})))
	case "vpobject":
		return pres(lib.JSON(vp(issue.LD(doc, who))))
	case "vplist":
		return pres(lib.JSON(vp(L{issue.LD(listing(nil), who), issue.LD(doc, who)})))
	}
	lib.Fatalf("encoding %q", enc)
	return nil
}

type cacheRec struct {
	Kind  string
	Steps []struct {
		Change []string
		Want   [][]string
		Expect string
	}
}

func history(t *lib.T) {
	var r cacheRec
	t.Decode(&r)
	w := &web{pages: map[string]func() (*http.Response, error){}}
	salt := fmt.Sprint(t.R.Int63())
	// two addresses differ in one part only
	part := t.R.Intn(6)
	url := func(u string) string {
		switch second := u == "b"; part {
		case 0:
			return "https://" + u + ".example/" + salt
		case 1:
			return "https://a.example/" + salt + "?v=" + u
		case 2:
			return "https://a.example/" + salt + "/" + map[bool]string{false: "s", true: "S"}[second]
		case 3:
			return "https://a.example/" + salt + map[bool]string{false: "", true: "/"}[second]
		case 4:
			return map[bool]string{false: "https", true: "http"}[second] + "://a.example/" + salt
		default:
			return "https://a.example" + map[bool]string{false: "", true: ":8443"}[second] + "/" + salt
		}
	}
	schemas := r.Kind == "schema" || r.Kind == "fresh" || r.Kind == "expired"
	content := func(v string) []byte {
		if schemas {
			return lib.JSON(lib.M{"type": "object", "required": L{"fits" + v}})
		}
		return []byte(v + salt)
	}
	// documents of the two addresses are the same, version by version: an answer may not depend on the address
	serve := func(u, v string) {
		w.mu.Lock()
		defer w.mu.Unlock()
		if v == "down" {
			w.pages[url(u)] = page(503, content("v1"))
		} else {
			w.pages[url(u)] = page(200, content(v))
		}
	}
	serve("a", "v1")
	serve("b", "v1")
	lru := expirable.NewLRU[string, *verifiable.CachedResource](map[string]int{"res1": 1, "res2": 10}[r.Kind], nil, time.Hour)
	validator := verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(w), verifiable.WithCache(lru))
	b := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: w})
	switch r.Kind {
	case "schema":
		b.SetCache(verifiable.NewExpirableSchemaCache(1<<20, time.Hour))
	case "expired": // everything in it is out of date
		b.SetCache(verifiable.NewExpirableSchemaCache(1<<20, -2*time.Second))
	}
	loader := b.Build()
	shown := ""
	for i, s := range r.Steps {
		switch s.Change[0] {
		case "none":
		case "forget":
			lru.Purge()
		default:
			serve(s.Change[0], s.Change[1])
		}
		var err error
		t.Run()
		if schemas {
			// a credential fits one version per document: two documents, two credentials parsed one after the other
			for _, x := range s.Want {
				d := vcdoc.Base(issue.Alice, false)
				d["@context"] = append(d["@context"].(L), lib.M{"@vocab": "https://ex.org/v#"})
				d["fits"+x[1]] = "yes"
				d["credentialSchema"] = lib.M{"id": url(x[0]), "type": "JsonSchema"}
				_, e := verifiable.ParseCredential(lib.JSON(d), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(issue.Loader),
					verifiable.WithCredentialSchemaLoader(loader))
				err = errors.Join(err, e)
			}
		} else {
			var rs L
			for j, x := range s.Want {
				m := lib.M{"id": url(x[0]), "digestSRI": "sha384-" + std(sum("384", content(x[1])))}
				if (i+j)%2 == 1 {
					m = lib.M{"id": url(x[0]), "digestMultibase": mbase(multibase.Base64url, append([]byte{0x12, 0x20}, sum("256", content(x[1]))...))}
				}
				rs = append(rs, m)
			}
			vc, e := verifiable.ParseCredentialJSON(listing(rs), verifiable.WithCredDisableValidation())
			lib.Must(e, "parse")
			err = validator.Validate([]*verifiable.Credential{vc})
		}
		shown += fmt.Sprintf(" %v%v", s.Change, s.Want)
		if s.Expect != "either" && (err == nil) != (s.Expect == "ok") {
			t.Failf(fmt.Sprintf("%s:step%d:%s", r.Kind, i+1, s.Change[0]), "%s after%s: expected %s, got %v", r.Kind, shown, s.Expect, err)
			return
		}
		if i == len(r.Steps)-1 {
			if s.Expect == "either" {
				t.Obs("either")
			} else {
				t.Obs(s.Expect)
			}
		}
	}
}

func main() {
	// behaviours run side by side and use addresses of their own
	verifiable.DefaultRelatedResourceValidator = verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(world),
		verifiable.WithCache(expirable.NewLRU[string, *verifiable.CachedResource](1000, nil, time.Hour)))
	chk = issue.Checker(alg)
	_ = ident.B64
	lib.Main(map[string]func(*lib.T){"resource": resource, "history": history, "structure": structure}, nil)
}

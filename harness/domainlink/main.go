// Command domainlink replays the behaviours of DomainLink.tla.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"net/http"
	"strings"
	"sync"

	ldcontext "github.com/trustbloc/did-go/doc/ld/context"
	"github.com/trustbloc/did-go/doc/ld/documentloader"
	ldtestutil "github.com/trustbloc/did-go/doc/ld/testutil"

	"github.com/trustbloc/vc-go/didconfig/client"
	"github.com/trustbloc/vc-go/didconfig/verifier"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

type combo struct {
	Enc, Alg, Model, Issuer, Subject, Form, Origin, Type, ID, Issued, Expires, Signer, Tamper, Header, Payload, Others, Place, Config, DID, Domain, Via string
}

type rec struct {
	Expect, Base string
	Dev          []string
	C            combo
}

var loader = func() *documentloader.DocumentLoader {
	l, err := ldtestutil.DocumentLoader(ldcontext.Document{URL: verifier.ContextV1, Content: lib.JSON(lib.M{"@context": lib.M{
		"@version": 1.1, "@protected": true, "LinkedDomains": "https://identity.foundation/.well-known/resources/did-configuration/#LinkedDomains",
		"DomainLinkageCredential": "https://identity.foundation/.well-known/resources/did-configuration/#DomainLinkageCredential",
		"origin":                  "https://identity.foundation/.well-known/resources/did-configuration/#origin",
		"linked_dids":             "https://identity.foundation/.well-known/resources/did-configuration/#linked_dids"}})})
	lib.Must(err, "loader")
	return l
}()

func init() {
	issue.Loader = loader
	log.SetOutput(io.Discard)
}

const domain = "https://hanna.example"

var (
	mu   sync.Mutex
	memo = map[string]string{}
)

// entry of linked_dids as JSON.
func entry(c combo) string {
	c.Others, c.Place, c.Config, c.DID, c.Domain, c.Via = "", "", "", "", "", ""
	key := fmt.Sprint(c)
	mu.Lock()
	defer mu.Unlock()
	if s, ok := memo[key]; ok {
		return s
	}
	s := make1(c)
	memo[key] = s
	return s
}

func make1(c combo) string {
	who := issue.As(c.Alg, map[string]string{"hanna": "hanna", "mallory": "mallory", "forged": "forgedholder", "nobody": "hanna"}[c.Signer])
	did := map[string]string{"hanna": issue.Hanna, "object": issue.Hanna, "mallory": issue.Mallory, "web": "https://hanna.example", "notdid": "https://hanna.example", "empty": ""}
	sub := lib.M{"id": did[c.Subject], "origin": domain}
	if c.Subject == "absent" {
		delete(sub, "id")
	}
	switch c.Origin {
	case "path":
		sub["origin"] = domain + "/path"
	case "host":
		sub["origin"] = "https://mallory.example"
	case "scheme":
		sub["origin"] = "http://hanna.example"
	case "port":
		sub["origin"] = domain + ":8443"
	case "parent":
		sub["origin"] = "https://example"
	case "suffix":
		sub["origin"] = domain + ".mallory.example"
	case "absent":
		delete(sub, "origin")
	case "number":
		sub["origin"] = 5
	case "list":
		sub["origin"] = []interface{}{domain}
	case "empty":
		sub["origin"] = ""
	case "bare":
		sub["origin"] = "hanna.example"
	case "otherbare":
		sub["origin"] = "mallory.example"
	}
	doc := lib.M{"@context": []interface{}{"https://www.w3.org/2018/credentials/v1", verifier.ContextV1}, "type": []interface{}{"VerifiableCredential", "DomainLinkageCredential"},
		"issuer": did[c.Issuer], "issuanceDate": "2020-01-01T00:00:00Z", "expirationDate": "2090-01-01T00:00:00Z", "credentialSubject": sub}
	switch c.Issuer {
	case "absent":
		delete(doc, "issuer")
	case "object":
		doc["issuer"] = lib.M{"id": issue.Hanna}
	}
	switch c.Form {
	case "list":
		doc["credentialSubject"] = []interface{}{sub}
	case "two":
		doc["credentialSubject"] = []interface{}{sub, lib.M{"id": issue.Alice, "origin": domain}}
	case "emptylist":
		doc["credentialSubject"] = []interface{}{}
	case "absent":
		delete(doc, "credentialSubject")
	case "text":
		doc["credentialSubject"] = issue.Hanna
	}
	switch c.Type {
	case "extra":
		doc["type"] = []interface{}{"VerifiableCredential", "LinkedDomains", "DomainLinkageCredential"}
	case "missing":
		doc["type"] = []interface{}{"VerifiableCredential"}
	case "only":
		doc["type"] = "DomainLinkageCredential"
	}
	if c.ID == "present" {
		doc["id"] = "urn:uuid:1"
	}
	if c.Issued == "absent" {
		delete(doc, "issuanceDate")
	}
	if c.Expires == "absent" {
		delete(doc, "expirationDate")
	}
	change := func(d lib.M) {
		s := sub
		if x, ok := d["credentialSubject"].(lib.M); ok {
			s = x
		} else if l, ok := d["credentialSubject"].([]interface{}); ok && len(l) > 0 {
			s = l[0].(lib.M)
		}
		switch c.Tamper {
		case "origin": // the signed one was another
			s["origin"] = sub["origin"]
		case "subject":
			s["id"] = sub["id"]
		}
	}
	// for tampering sign a credential that differs in the member, then put the wanted value in
	orig := map[string]interface{}{"origin": sub["origin"], "id": sub["id"]}
	switch c.Tamper {
	case "origin":
		sub["origin"] = "https://elsewhere.example"
	case "subject":
		sub["id"] = "did:example:elsewhere"
	}
	restore := func() {
		for k, v := range orig {
			if v != nil {
				sub[k] = v
			} else {
				delete(sub, k)
			}
		}
	}
	if c.Enc == "ld" {
		d := doc
		if c.Alg == "ES256" {
			doc["@context"] = append(doc["@context"].([]interface{}), "https://w3id.org/security/suites/jws-2020/v1")
		}
		if c.Signer != "nobody" {
			d = issue.LD(doc, who)
			d["proof"] = d["proof"].([]interface{})[0]
		}
		restore()
		change(d)
		if c.Tamper == "signature" {
			p := d["proof"].(lib.M)
			j := p["jws"].(string)
			i := strings.LastIndex(j, ".")
			p["jws"] = j[:i+1] + ident.B64(make([]byte, 64))
		}
		return string(lib.JSON(d))
	}
	payload := lib.M{"vc": doc, "iss": did[c.Issuer], "sub": sub["id"], "nbf": 1577836800, "exp": 3786912000}
	if c.Issuer == "absent" {
		delete(payload, "iss")
	}
	if c.Issued == "absent" {
		delete(payload, "nbf")
	}
	if c.Expires == "absent" {
		delete(payload, "exp")
	}
	switch c.Payload {
	case "aud":
		payload["aud"] = "someone"
	case "jti":
		payload["jti"] = "urn:uuid:1"
	case "sub":
		payload["sub"] = issue.Mallory
	case "nosub":
		delete(payload, "sub")
	case "iss":
		payload["iss"] = issue.Mallory
	case "noiss":
		delete(payload, "iss")
	case "custom":
		payload["custom"] = true
	case "noclaims":
		payload = lib.M{"vc": doc}
	}
	h := lib.M{"alg": c.Alg, "kid": who.Kid, "typ": "JWT"}
	switch c.Header {
	case "notyp":
		delete(h, "typ")
	case "typ":
		h["typ"] = "vc+jwt"
	case "cty":
		h["cty"] = "vc"
	case "jwk":
		h["jwk"] = lib.M{"kty": "OKP"}
	case "nokid":
		delete(h, "kid")
	}
	x := strings.Split(ident.JWT(h, payload, who.K()), ".")
	restore()
	if c.Tamper == "subject" && c.Payload != "sub" && c.Payload != "nosub" && c.Payload != "noclaims" {
		payload["sub"] = sub["id"]
	}
	if c.Signer == "nobody" {
		x[2] = ""
	} else if c.Tamper == "signature" {
		x[2] = ident.B64(make([]byte, 64))
	}
	return string(lib.JSON(x[0] + "." + ident.B64(lib.JSON(payload)) + "." + x[2]))
}

type transport struct {
	via, want string
	body      []byte
}

type cut struct{}

func (cut) Read([]byte) (int, error) { return 0, errors.New("connection lost") }
func (cut) Close() error             { return nil }

func (s *transport) Do(r *http.Request) (*http.Response, error) {
	reply := func(code int, body []byte) *http.Response {
		return &http.Response{StatusCode: code, Body: io.NopCloser(bytes.NewReader(body)), Header: http.Header{}, Request: r}
	}
	if r.URL.String() != s.want || r.Method != http.MethodGet {
		return nil, errors.New("no such page " + r.URL.String())
	}
	switch s.via {
	case "notfound":
		return reply(404, s.body), nil
	case "fail":
		return nil, errors.New("connection refused")
	case "cut":
		x := reply(200, nil)
		x.Body = cut{}
		return x, nil
	}
	return reply(200, s.body), nil
}

func link(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	plain := combo{Enc: c.Enc, Alg: c.Alg, Issuer: "hanna", Subject: "hanna", Form: "object", Origin: "same", Type: "right", ID: "absent", Issued: "present", Expires: "present", Signer: "hanna", Tamper: "none", Header: "plain", Payload: "plain"}
	if t.R.Intn(2) == 0 {
		plain.Enc = "ld"
	}
	l := []string{entry(c)}
	other := ""
	switch c.Others {
	case "good":
		other = entry(plain)
	case "otherdid":
		plain.Issuer, plain.Subject, plain.Signer = "mallory", "mallory", "mallory"
		other = entry(plain)
	case "otherorigin":
		plain.Origin = "host"
		other = entry(plain)
	case "badproof":
		plain.Signer = "forged"
		other = entry(plain)
	case "bare":
		plain.Origin = "bare"
		other = entry(plain)
	case "garbage":
		other = []string{`"garbage"`, `""`, `"a.b.c"`, `{}`, `{"proof": 7}`, `"ff"`}[t.R.Intn(6)]
	case "number":
		other = "7"
	case "null":
		other = "null"
	}
	if other != "" {
		l = append(l, other)
		if c.Place == "last" {
			l[0], l[1] = l[1], l[0]
		}
	}
	list := "[" + strings.Join(l, ",") + "]"
	conf := `{"@context":"` + verifier.ContextV1 + `","linked_dids":` + list + `}`
	switch c.Config {
	case "extra":
		conf = conf[:len(conf)-1] + `,"more":1}`
	case "nocontext":
		conf = `{"linked_dids":` + list + `}`
	case "contextlist":
		conf = `{"@context":["` + verifier.ContextV1 + `"],"linked_dids":` + list + `}`
	case "nolinked":
		conf = `{"@context":"` + verifier.ContextV1 + `"}`
	case "linkednull":
		conf = `{"@context":"` + verifier.ContextV1 + `","linked_dids":null}`
	case "linkedobject":
		conf = `{"@context":"` + verifier.ContextV1 + `","linked_dids":{"0":` + l[0] + `}}`
	case "empty":
		conf = `{"@context":"` + verifier.ContextV1 + `","linked_dids":[]}`
	case "nothing":
		conf = []string{"", "null", "{", "7"}[t.R.Intn(4)]
	case "array":
		conf = "[" + conf + "]"
	}
	did := map[string]string{"hanna": issue.Hanna, "mallory": issue.Mallory, "longer": issue.Hanna + "h", "fragment": issue.Hanna + "#own", "empty": ""}[c.DID]
	dom := map[string]string{"same": domain, "slash": domain + "/", "host": "https://mallory.example", "scheme": "http://hanna.example", "port": domain + ":8443", "sub": "https://www.hanna.example",
		"bare": "hanna.example", "empty": ""}[c.Domain]
	w := issue.World(c.Alg)
	t.Run()
	var err error
	if c.Via == "direct" {
		err = verifier.VerifyDIDAndDomain([]byte(conf), did, dom, verifier.WithJSONLDDocumentLoader(loader), verifier.WithVDRegistry(w))
	} else {
		want := dom + "/.well-known/did-configuration.json"
		if c.Domain == "bare" || c.Domain == "empty" {
			want = ""
		}
		err = client.New(client.WithHTTPClient(&transport{via: c.Via, want: want, body: []byte(conf)}), client.WithJSONLDDocumentLoader(loader),
			client.WithVDRegistry(w)).VerifyDIDAndDomain(did, dom)
	}
	if (err == nil) != (r.Expect == "ok") {
		t.Failf(r.Expect+":"+r.Base+":"+strings.Join(r.Dev, "+"), "specification: %s; code: %v; combination %s configuration %s", r.Expect, err, tree.Show(c), conf)
		return
	}
	t.Obs(r.Expect)
}

var _ = vcdoc.Clone

func main() {
	lib.Main(map[string]func(*lib.T){"link": link}, nil)
}

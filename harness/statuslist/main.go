// Command statuslist replays the behaviours of StatusList.tla against the status client, with the real resolver over
// a transport that serves the lists from memory.
package main

import (
	"bytes"
	"compress/gzip"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"

	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/did/endpoint"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	vdrmock "github.com/trustbloc/did-go/vdr/mock"

	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

type rec struct {
	Expect, Base string
	Reports, Dev []string
	Bits         []int
	Length       int
	C            struct {
		Type, Idx, Purpose, URL, Size, Second, Order, Ids, ListPurpose, Issuer, ListIssuer, Bits, Length, Encoding, Subject, Format, Proof, Transport string
	}
}

const (
	urlA = "https://lists.example/a"
	urlB = "https://lists.example/b"
	hub  = "https://hub.example/"
)

type cut struct{}

func (cut) Read([]byte) (int, error) { return 0, errors.New("connection lost") }
func (cut) Close() error             { return nil }

// site serves two lists.
type site struct {
	a, b      []byte
	transport string
	pick      int
	object    string
}

func (s *site) RoundTrip(r *http.Request) (*http.Response, error) {
	reply := func(code int, body []byte) (*http.Response, error) {
		return &http.Response{StatusCode: code, Status: fmt.Sprint(code), Body: io.NopCloser(bytes.NewReader(body)), Header: http.Header{}, Request: r, ProtoMajor: 1, ProtoMinor: 1}, nil
	}
	u := r.URL.String()
	if u == urlB {
		return reply(200, s.b)
	}
	body, code := s.a, 200
	if u == hub {
		body = s.hub(200, 200, s.object, body)
	} else if u != urlA {
		return nil, errors.New("no such host " + u)
	}
	switch s.transport {
	case "status404":
		code = 404
		if u == hub {
			switch s.pick {
			case 0:
				return reply(200, s.hub(404, 200, s.object, s.a))
			case 1:
				return reply(200, s.hub(200, 404, s.object, s.a))
			case 2:
				return reply(200, s.hub(200, 200, "other", s.a))
			case 3:
				return reply(200, s.entries(lib.M{"objectId": "other"}, s.a))
			case 4:
				return reply(200, s.entries(lib.M{"schema": "x"}, s.a))
			}
		}
	case "status201":
		code = 201
	case "fail":
		return nil, errors.New("connection refused")
	case "cut":
		r, _ := reply(200, nil)
		r.Body = cut{}
		return r, nil
	case "junk":
		body = body[:len(body)/2]
	case "empty":
		body = nil
	}
	return reply(code, body)
}

func (s *site) hub(top, msg int, object string, body []byte) []byte {
	return lib.JSON(lib.M{"requestId": "1", "status": lib.M{"code": top}, "replies": []interface{}{lib.M{"messageId": "1", "status": lib.M{"code": msg},
		"entries": []interface{}{lib.M{"descriptor": lib.M{"objectId": "unrelated"}, "data": base64.StdEncoding.EncodeToString([]byte("{}"))},
			lib.M{"descriptor": lib.M{"objectId": object}, "data": base64.StdEncoding.EncodeToString(body)}}}}})
}

func (s *site) entries(descriptor lib.M, body []byte) []byte {
	return lib.JSON(lib.M{"requestId": "1", "replies": []interface{}{lib.M{"messageId": "1", "status": lib.M{"code": 200},
		"entries": []interface{}{lib.M{"descriptor": descriptor, "data": base64.StdEncoding.EncodeToString(body)}}}}})
}

func pack(b []byte) []byte {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	_, err := w.Write(b)
	lib.Must(err, "gzip")
	lib.Must(w.Close(), "gzip")
	return buf.Bytes()
}

func encode(kind string, bitstring bool, bits []byte) interface{} {
	raw := base64.RawURLEncoding
	z := pack(bits)
	right := func(x []byte) string {
		if bitstring {
			return "u" + raw.EncodeToString(x)
		}
		return raw.EncodeToString(x)
	}
	switch kind {
	case "right":
		return right(z)
	case "other":
		if bitstring {
			return raw.EncodeToString(z)
		}
		return "u" + raw.EncodeToString(z)
	case "members": // a gzip file of two members holds what both of them hold
		return right(append(pack(bits[:len(bits)/2]), pack(bits[len(bits)/2:])...))
	case "base58":
		s, err := multibase.Encode(multibase.Base58BTC, z)
		lib.Must(err, "multibase")
		return s
	case "padded":
		return base64.URLEncoding.EncodeToString(z)
	case "plain":
		return right(bits)
	case "truncated":
		return right(z[:len(z)-9])
	case "junk":
		return "!!! not encoded !!!"
	case "empty":
		return ""
	case "number":
		return 5
	}
	return nil
}

// listVC is a status list credential.
func listVC(format, proof, issuerKind string, subject interface{}) []byte {
	var issuer interface{} = issue.Alice
	signer := "own"
	switch issuerKind {
	case "object":
		issuer = lib.M{"id": issue.Alice, "name": "A"}
	case "mallory":
		issuer, signer = issue.Mallory, "mallory"
	case "absent":
		issuer = nil
	case "longer":
		issuer = issue.Alice + "x"
	case "path":
		issuer = issue.Alice + "#list"
	case "upper":
		issuer = strings.ToUpper(issue.Alice)
	case "prefix":
		issuer = issue.Alice[:len(issue.Alice)-1]
	}
	if proof == "forged" {
		signer = "forged"
	}
	doc := vcdoc.Base(issuer, false, "https://w3id.org/vc/status-list/2021/v1")
	doc["@context"] = []interface{}{"https://www.w3.org/2018/credentials/v1", lib.M{"@vocab": "https://ex.org/"}}
	doc["type"] = []interface{}{"VerifiableCredential", "BitstringStatusListCredential"}
	if issuer == nil {
		delete(doc, "issuer")
	}
	if subject == nil {
		delete(doc, "credentialSubject")
	} else {
		doc["credentialSubject"] = subject
	}
	who := issue.As("EdDSA", signer)
	switch format {
	case "ld":
		if proof != "none" {
			doc = issue.LD(doc, who)
		}
		return lib.JSON(doc)
	case "jwt":
		p := lib.M{"vc": doc, "jti": doc["id"], "nbf": 1577836800}
		if s, ok := issuer.(string); ok {
			p["iss"] = s
		}
		if proof == "none" {
			return []byte(issue.Unsecured(p))
		}
		return []byte(issue.JWT(p, who))
	}
	b := issue.CWT(lib.M{"vc": doc}, who)
	if proof == "none" {
		b = append(b[:len(b)-66:len(b)-66], 0x40)
	}
	return b
}

func bitsOf(n int, set []int) []byte {
	b := make([]byte, n/8)
	for _, i := range set {
		b[i/8] |= 1 << (i % 8)
	}
	return b
}

func check(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	object := "obj-1"
	queries := base64.StdEncoding.EncodeToString(lib.JSON([]interface{}{lib.M{"method": "Other", "objectId": "x"}, lib.M{"method": "CollectionsQuery", "objectId": object}}))
	hubURL := "did:example:hub?service=IdentityHub&queries=" + strings.ReplaceAll(strings.ReplaceAll(queries, "+", "%2B"), "=", "%3D")
	address := func(u string) interface{} {
		switch u {
		case "http":
			return urlA
		case "hub":
			return hubURL
		case "number":
			return 5
		}
		return nil
	}
	e1 := lib.M{"id": "https://lists.example/a#1", "type": c.Type, "statusListIndex": c.Idx, "statusPurpose": c.Purpose, "statusListCredential": address(c.URL)}
	switch c.Idx {
	case "empty":
		e1["statusListIndex"] = ""
	case "spaced":
		e1["statusListIndex"] = " 3"
	case "fraction":
		e1["statusListIndex"] = "3.0"
	case "number":
		e1["statusListIndex"] = 3
	case "huge":
		e1["statusListIndex"] = "9223372036854775807"
	case "wrap32":
		e1["statusListIndex"] = "4294967299"
	case "wrap64":
		e1["statusListIndex"] = "18446744073709551619"
	case "missing":
		delete(e1, "statusListIndex")
	}
	switch c.Purpose {
	case "number":
		e1["statusPurpose"] = 7
	case "missing":
		delete(e1, "statusPurpose")
	}
	if c.URL == "missing" {
		delete(e1, "statusListCredential")
	}
	if c.Type == "missing" {
		delete(e1, "type")
	}
	messages := []interface{}{lib.M{"status": "0x1", "message": "a"}, lib.M{"status": "0x2", "message": "b"}, lib.M{"status": "0x3", "message": "c"}}
	switch c.Size {
	case "one":
		e1["statusSize"] = 1
	case "two":
		e1["statusSize"], e1["statusMessage"] = 2, messages
	case "twobare":
		e1["statusSize"] = 2
	case "twoshort":
		e1["statusSize"], e1["statusMessage"] = 2, messages[:2]
	case "zero":
		e1["statusSize"] = 0
	case "negative":
		e1["statusSize"] = -1
	case "text":
		e1["statusSize"] = "2"
	}
	entries := []interface{}{e1}
	e2 := lib.M{"id": "https://lists.example/b#1", "type": "BitstringStatusListEntry", "statusListIndex": "5", "statusPurpose": "revocation", "statusListCredential": urlB}
	switch c.Second {
	case "clear":
		e2["statusListIndex"] = "4"
	case "suspended":
		e2["statusPurpose"] = "suspension"
	case "same":
		e2 = vcdoc.Clone(e1)
	case "unknown":
		e2["type"] = "SomethingElse"
	case "noindex":
		delete(e2, "statusListIndex")
	case "first":
		e2["type"], e2["statusListIndex"], e2["statusListCredential"] = c.Type, "0", address(c.URL)
		if c.URL == "missing" {
			delete(e2, "statusListCredential")
		}
	}
	switch c.Ids {
	case "none":
		delete(e1, "id")
		delete(e2, "id")
	case "same":
		e2["id"] = e1["id"]
	case "list":
		e1["id"], e2["id"] = urlA, urlB
	}
	if c.Second != "none" {
		entries = append(entries, e2)
		if c.Order == "reversed" {
			entries[0], entries[1] = entries[1], entries[0]
		}
	}
	var issuer interface{} = issue.Alice
	if c.Issuer == "object" {
		issuer = lib.M{"id": issue.Alice, "name": "A"}
	}
	doc := vcdoc.Base(issuer, true)
	if c.Issuer == "absent" {
		delete(doc, "issuer")
	}
	doc["credentialStatus"] = entries
	if len(entries) == 1 && t.R.Intn(2) == 0 {
		doc["credentialStatus"] = entries[0]
	}
	data := lib.JSON(doc)
	switch t.R.Intn(3) {
	case 0:
		data = []byte(issue.JWT(lib.M{"vc": doc, "jti": doc["id"]}, issue.As("EdDSA", "own")))
	case 1:
		data = issue.CWT(lib.M{"vc": doc}, issue.As("EdDSA", "own"))
	}
	vc, err := verifiable.ParseCredential(data, verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
	if err != nil { // not a credential at all
		if r.Expect != "clear" {
			t.Obs("rejected")
			return
		}
		t.Failf("parse:"+r.Base, "credential not accepted: %v", err)
		return
	}
	set := r.Bits
	if c.Bits == "all" || c.Bits == "allbut" {
		set = nil
		for i := 0; i < r.Length; i++ {
			if fmt.Sprint(i) != c.Idx || c.Bits == "all" {
				set = append(set, i)
			}
		}
	}
	sub := lib.M{"id": "https://lists.example/a#list", "type": "BitstringStatusList", "statusPurpose": c.Purpose, "encodedList": encode(c.Encoding, c.Type != "StatusList2021Entry", bitsOf(r.Length, set))}
	if c.Encoding == "missing" {
		delete(sub, "encodedList")
	}
	switch c.ListPurpose {
	case "absent":
		delete(sub, "statusPurpose")
	case "other":
		sub["statusPurpose"] = map[string]string{"revocation": "suspension"}[c.Purpose]
		if c.Purpose != "revocation" {
			sub["statusPurpose"] = "revocation"
		}
	}
	var subject interface{} = sub
	switch c.Subject {
	case "list":
		subject = []interface{}{sub}
	case "none":
		subject = nil
	case "emptylist":
		subject = []interface{}{}
	case "text":
		subject = "https://lists.example/a#list"
	}
	s := &site{transport: c.Transport, pick: t.R.Intn(6), object: object}
	s.a = listVC(c.Format, c.Proof, c.ListIssuer, subject)
	s.b = listVC("jwt", "good", "same", lib.M{"id": urlB, "type": "BitstringStatusList", "encodedList": encode("right", true, bitsOf(16, []int{5}))})
	res := resolver.NewResolver(&http.Client{Transport: s}, &vdrmock.VDRegistry{ResolveFunc: func(id string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
		if id != "did:example:hub" {
			return nil, errors.New("no such DID " + id)
		}
		return &did.DocResolution{DIDDocument: &did.Doc{ID: id, Service: []did.Service{{ID: "#other", Type: "Other", ServiceEndpoint: endpoint.NewDIDCommV1Endpoint(urlB)},
			{ID: "#hub", Type: "IdentityHub", ServiceEndpoint: endpoint.NewDIDCommV1Endpoint(hub)}}}}, nil
	}}, "token")
	client := &status.Client{ValidatorGetter: validator.GetValidator, Resolver: res}
	before, _ := json.Marshal(vc)
	t.Run()
	err = client.VerifyStatus(vc)
	got := "error"
	switch {
	case err == nil:
		got = "clear"
	case errors.Is(err, status.ErrRevoked):
		got = "revoked"
	case errors.Is(err, status.ErrSuspended):
		got = "suspended"
	}
	if after, _ := json.Marshal(vc); !bytes.Equal(before, after) {
		t.Failf("changed:"+r.Base, "checking changed the credential to %s", after)
	}
	key := r.Base + ":" + strings.Join(r.Dev, "+")
	switch r.Expect {
	case "unproven":
		if got != "error" {
			t.Failf("status-list-proof-unchecked", "a list whose proof is %s is used: %s", c.Proof, got)
			return
		}
	case "clear":
		if got != "clear" {
			t.Failf("clear:"+key, "specification: clear; code: %s (%v); combination %s list %s", got, err, tree.Show(c), s.a)
			return
		}
	default:
		ok := false
		for _, x := range r.Reports {
			ok = ok || x == got
		}
		if !ok {
			t.Failf("set:"+key, "specification: one of %v; code: %s (%v); combination %s list %s", r.Reports, got, err, tree.Show(c), s.a)
			return
		}
	}
	t.Obs(got)
}

func main() {
	lib.Main(map[string]func(*lib.T){"check": check}, nil)
}

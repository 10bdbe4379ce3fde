package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/btcsuite/btcutil/base58"
	"github.com/fxamacker/cbor/v2"
	"github.com/multiformats/go-multibase"
	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/cwt"
	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/didconfig/client"
	dcverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	utiltime "github.com/trustbloc/vc-go/util/time"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/verifiable/lddocument"
	"github.com/trustbloc/vc-go/vermethod"

	"github.com/trustbloc/vc-go/zzverif/desk"
	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

const (
	v1ctx = "https://www.w3.org/2018/credentials/v1"
	v2ctx = "https://www.w3.org/ns/credentials/v2"
)

var (
	docs   = map[string]interface{}{}
	docsMu sync.Mutex
)

func docOf(name string) interface{} {
	docsMu.Lock()
	defer docsMu.Unlock()
	if d, ok := docs[name]; ok {
		return d
	}
	desk.New()
	docs[name] = lib.ParseJSON(lib.JSON(targets[name].doc()))
	return docs[name]
}

var own = issue.As("EdDSA", "own")

// ---- entry points ----

func co(d *desk.Desk, o ...verifiable.CredentialOpt) []verifiable.CredentialOpt {
	return append(d.Parse[:len(d.Parse):len(d.Parse)], o...)
}

func po(d *desk.Desk, o ...verifiable.PresentationOpt) []verifiable.PresentationOpt {
	return append(d.Pres[:len(d.Pres):len(d.Pres)], o...)
}

func pc(d *desk.Desk, b []byte, o ...verifiable.CredentialOpt) func() (desk.Obj, error) {
	return func() (desk.Obj, error) {
		c, err := verifiable.ParseCredential(b, co(d, o...)...)
		if err != nil {
			return desk.Obj{}, err
		}
		return desk.Obj{C: c}, nil
	}
}

func pp(d *desk.Desk, b []byte, o ...verifiable.PresentationOpt) func() (desk.Obj, error) {
	return func() (desk.Obj, error) {
		p, err := verifiable.ParsePresentation(b, po(d, o...)...)
		if err != nil {
			return desk.Obj{}, err
		}
		return desk.Obj{P: p}, nil
	}
}

func only(f func() error) func() (desk.Obj, error) {
	return func() (desk.Obj, error) { return desk.Obj{}, f() }
}

func schemas() *verifiable.CredentialSchemaLoader {
	return verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: pages{"https://alice.example/schema1": []byte(`{"type":"object"}`)}}).
		SetCache(verifiable.NewExpirableSchemaCache(1<<20, time.Hour)).Build()
}

func credDoors(d *desk.Desk, b []byte) []door {
	return []door{
		{"parse", pc(d, b, verifiable.WithCredentialSchemaLoader(schemas()))},
		{"noschema", pc(d, b, verifiable.WithNoCustomSchemaCheck())},
		{"lax", pc(d, b, verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())},
		{"laxproof", pc(d, b, verifiable.WithCredDisableValidation())},
		{"strict", pc(d, b, verifiable.WithStrictValidation(), verifiable.WithNoCustomSchemaCheck())},
		{"ldonly", pc(d, b, verifiable.WithJSONLDValidation(), verifiable.WithDisabledProofCheck())},
		{"base", pc(d, b, verifiable.WithBaseContextValidation(v1ctx), verifiable.WithDisabledProofCheck())},
		{"extended", pc(d, b, verifiable.WithBaseContextExtendedValidation(v2ctx, []string{v2ctx, v1ctx}, []string{"ExtraType", "VerifiableCredential"}), verifiable.WithDisabledProofCheck())},
		{"types", pc(d, b, verifiable.WithEnabledJSONLDTypesCheck(), verifiable.WithDisabledProofCheck())},
		{"vp", pp(d, b)},
		{"json", func() (desk.Obj, error) {
			var m M
			if err := json.Unmarshal(b, &m); err != nil {
				return desk.Obj{}, err
			}
			c, err := verifiable.ParseCredentialJSON(m, co(d)...)
			if err != nil {
				return desk.Obj{}, err
			}
			return desk.Obj{C: c}, nil
		}},
		{"related", pc(d, b, verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())},
		{"resources", only(func() error {
			c, err := verifiable.ParseCredential(b, co(d, verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())...)
			if err != nil {
				return err
			}
			return verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(pages{"https://alice.example/r1": []byte("x")})).Validate([]*verifiable.Credential{c})
		})},
		{"schema", pc(d, b, verifiable.WithDisabledProofCheck(), verifiable.WithCredentialSchemaLoader(schemas()), verifiable.WithJSONLDValidation())},
		{"status", only(func() error {
			c, err := verifiable.ParseCredential(b, co(d, verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())...)
			if err != nil {
				return err
			}
			return (&status.Client{ValidatorGetter: validator.GetValidator, Resolver: resolver.NewResolver(&http.Client{Transport: pages{}}, vdr{issue.World("EdDSA")}, "")}).VerifyStatus(c)
		})},
	}
}

// plainDoors takes a credential without a proof.
func plainDoors(d *desk.Desk, b []byte) []door {
	l := credDoors(d, b)
	l[0].name = "proof"
	return append([]door{{"parse", pc(d, b, verifiable.WithCredentialSchemaLoader(schemas()), verifiable.WithDisabledProofCheck())}}, l...)
}

func vpDoors(d *desk.Desk, b []byte) []door {
	return []door{
		{"parse", pp(d, b, verifiable.WithPresDisabledProofCheck())},
		{"checked", pp(d, b)},
		{"strict", pp(d, b, verifiable.WithPresStrictValidation())},
		{"noLD", pp(d, b, verifiable.WithDisabledJSONLDChecks(), verifiable.WithPresDisabledProofCheck())},
		{"holder", pp(d, b, verifiable.WithPresHolderCheck(true))},
		{"related", pp(d, b, verifiable.WithPresRelatedResourceCheck(true), verifiable.WithPresDisabledProofCheck())},
		{"cred", pc(d, b)},
	}
}

// provedVPDoors takes a presentation with a proof.
func provedVPDoors(d *desk.Desk, b []byte) []door {
	l := vpDoors(d, b)
	l[0].name, l[1].name = "unproved", "parse"
	return l
}

func tokenDoors(d *desk.Desk, b []byte) []door {
	tok := string(b)
	return []door{
		{"jwt", only(func() error {
			var m M
			var l interface{}
			jwt.IsJWS(tok)
			jwt.IsJWTUnsecured(tok)
			j, _, err := jwt.Parse(tok, jwt.DecodeClaimsTo(&m))
			if err != nil {
				j, _, err = jwt.Parse(tok)
			}
			if err != nil {
				return err
			}
			_ = j.DecodeClaims(&l)
			j.LookupStringHeader("kid")
			_, _ = j.Serialize(false)
			_, _ = j.Serialize(true)
			return nil
		})},
		{"jwtcheck", only(func() error {
			_, _, err := jwt.ParseAndCheckProof(tok, d.Chk, true)
			_, _, e2 := jwt.ParseAndCheckProof(tok, d.Chk, false, jwt.WithJWTDetachedPayload([]byte("{}")))
			return errors.Join(err, e2)
		})},
		{"embedded", only(func() error {
			return jwt.CheckProof(tok, checker.NewEmbeddedJWKProofChecker(own.K().JWK()), nil, nil)
		})},
	}
}

func sdDoors(d *desk.Desk, b []byte) []door {
	tok := string(b)
	vo := []verifier.ParseOpt{verifier.WithSignatureVerifier(d.Chk), verifier.WithIssuerSigningAlgorithms([]string{"EdDSA"}), verifier.WithHolderSigningAlgorithms([]string{"EdDSA"})}
	ho := []holder.ParseOpt{holder.WithSignatureVerifier(d.Chk), holder.WithIssuerSigningAlgorithms([]string{"EdDSA"})}
	cf := func() *common.CombinedFormatForPresentation { return common.ParseCombinedFormatForPresentation(tok) }
	return []door{
		{"sdverify", only(func() error { _, err := verifier.Parse(tok, vo...); return err })},
		{"sdbound", only(func() error {
			_, err := verifier.Parse(tok, append(vo, verifier.WithHolderVerificationRequired(true), verifier.WithExpectedNonceForHolderVerification("n1"),
				verifier.WithExpectedAudienceForHolderVerification("https://verifier.example"), verifier.WithLeewayForClaimsValidation(time.Hour), verifier.WithExpectedTypHeader("JWT"))...)
			return err
		})},
		{"sdparse", only(func() error {
			c := cf()
			c.Serialize()
			ci := common.CombinedFormatForIssuance{SDJWT: c.SDJWT, Disclosures: c.Disclosures}
			_, err := holder.Parse(ci.Serialize(), ho...)
			_, e2 := holder.Parse(tok, ho...)
			return errors.Join(err, e2)
		})},
		{"sdpresent", only(func() error {
			c := common.ParseCombinedFormatForIssuance(tok)
			var ds []string
			if len(c.Disclosures) > 0 {
				ds = c.Disclosures[:1]
			}
			_, err := holder.CreatePresentation(tok, ds, holder.WithHolderVerification(d.Bind))
			return err
		})},
		{"sdclaims", only(func() error {
			c := cf()
			j, _, err := jwt.Parse(c.SDJWT)
			if err != nil {
				return err
			}
			var m M
			if err := j.DecodeClaims(&m); err != nil {
				return err
			}
			h, err := common.GetCryptoHashFromClaims(m)
			if err != nil {
				return err
			}
			_, e1 := common.GetDisclosureDigests(m)
			_, e2 := common.GetCNF(m)
			_, e3 := common.GetSDAlg(m)
			e4 := common.VerifyDisclosuresInSDJWT(c.Disclosures, j)
			dc, err := common.GetDisclosureClaims(c.Disclosures, h)
			if err == nil {
				_, err = common.GetDisclosedClaims(dc, m)
			}
			return errors.Join(err, e1, e2, e3, e4)
		})},
	}
}

func cwtDoors(d *desk.Desk, b []byte) []door {
	return []door{{"cwt", only(func() error {
		_, _, e1 := cwt.ParseAndCheckProof(b, d.Chk, true)
		_, _, e2 := cwt.ParseAndCheckProof(b, d.Chk, false)
		m, e3 := cwt.Parse(b)
		if e3 == nil {
			e3 = cwt.CheckProof(m, d.Chk, nil, []byte("x"), m.Signature)
		}
		return errors.Join(e1, e2, e3)
	})}}
}

func join(fs ...func(*desk.Desk, []byte) []door) func(*desk.Desk, []byte) []door {
	return func(d *desk.Desk, b []byte) []door {
		var l []door
		for _, f := range fs {
			l = append(l, f(d, b)...)
		}
		return l
	}
}

// pages served over HTTP.
type pages map[string][]byte

func (w pages) RoundTrip(r *http.Request) (*http.Response, error) {
	b, ok := w[r.URL.String()]
	if !ok {
		return nil, errors.New("no such page")
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Body: io.NopCloser(bytes.NewReader(b)), Header: http.Header{}, Request: r, ProtoMajor: 1, ProtoMinor: 1}, nil
}

func (w pages) Do(r *http.Request) (*http.Response, error) { return w.RoundTrip(r) }

// ---- tokens as documents ----

func jwtDoc(tok string) interface{} {
	h, p, err := ident.ParseJWT(tok)
	lib.Must(err, "token")
	return M{"header": h, "payload": p}
}

func part(doc interface{}, name string) interface{} {
	m, _ := doc.(M)
	return m[name]
}

func jwtBuild(doc interface{}) []byte {
	h, p := lib.JSON(part(doc, "header")), lib.JSON(part(doc, "payload"))
	if hm, ok := part(doc, "header").(M); ok && hm["alg"] == "none" {
		return []byte(ident.B64(h) + "." + ident.B64(p) + ".")
	}
	return []byte(ident.JWTRaw(h, p, own.K()))
}

func sdDoc(tok string) interface{} {
	cf := common.ParseCombinedFormatForIssuance(tok)
	doc := jwtDoc(cf.SDJWT).(M)
	l := L{}
	name := func(x string) string {
		b, _ := ident.UnB64(x)
		v, _ := lib.ParseJSON(b).(L)
		return fmt.Sprint(v[1:])
	}
	sort.Slice(cf.Disclosures, func(i, j int) bool { return name(cf.Disclosures[i]) < name(cf.Disclosures[j]) })
	for _, x := range cf.Disclosures {
		b, err := ident.UnB64(x)
		lib.Must(err, "disclosure")
		l = append(l, M{"digest": issue.Digest(x), "is": lib.ParseJSON(b)})
	}
	doc["disclosures"] = l
	return doc
}

// sdBuild makes the token; digests follow the disclosures where these were changed.
func sdBuild(doc interface{}) []byte {
	ds, _ := part(doc, "disclosures").(L)
	payload := string(lib.JSON(part(doc, "payload")))
	var out []string
	for i := len(ds) - 1; i >= 0; i-- {
		is := ds[i]
		m, _ := is.(M)
		old := ""
		if m != nil {
			is = m["is"]
			old, _ = m["digest"].(string)
		}
		b := string(lib.JSON(is))
		x := ident.B64([]byte(b))
		out = append([]string{x}, out...)
		if len(old) > 10 {
			payload = strings.ReplaceAll(payload, old, issue.Digest(x))
			for j := 0; j < i; j++ { // nested digests
				if mj, ok := ds[j].(M); ok {
					s := string(lib.JSON(mj["is"]))
					if strings.Contains(s, old) {
						ds = append(L{}, ds...)
						ds[j] = M{"digest": mj["digest"], "is": json.RawMessage(strings.ReplaceAll(s, old, issue.Digest(x)))}
					}
				}
			}
		}
	}
	tok := ident.JWTRaw(lib.JSON(part(doc, "header")), []byte(payload), own.K())
	s := tok
	for _, x := range out {
		s += "~" + x
	}
	if kb, ok := part(doc, "kb").(M); ok {
		s += "~" + ident.JWTRaw(lib.JSON(kb["header"]), lib.JSON(kb["payload"]), issue.As("EdDSA", "hanna").K())
	}
	return []byte(s)
}

func cborTree(v interface{}) interface{} {
	switch x := v.(type) {
	case map[interface{}]interface{}:
		m := M{}
		for k, e := range x {
			m[fmt.Sprint(k)] = cborTree(e)
		}
		return m
	case []interface{}:
		l := L{}
		for _, e := range x {
			l = append(l, cborTree(e))
		}
		return l
	case []byte:
		return "hex:" + hex.EncodeToString(x)
	case uint64, int64, float64, string, bool, nil:
		return x
	}
	return fmt.Sprint(v)
}

func treeCBOR(v interface{}) interface{} {
	switch x := v.(type) {
	case M:
		m := map[interface{}]interface{}{}
		for k, e := range x {
			if n, err := strconv.Atoi(k); err == nil {
				m[n] = treeCBOR(e)
			} else {
				m[k] = treeCBOR(e)
			}
		}
		return m
	case L:
		l := L{}
		for _, e := range x {
			l = append(l, treeCBOR(e))
		}
		return l
	case string:
		switch {
		case strings.HasPrefix(x, "hex:"):
			b, err := hex.DecodeString(x[4:])
			if err != nil {
				return []byte(x)
			}
			return b
		case x == "~~~":
			return cbor.RawMessage{0xf7} // undefined
		case x == "a.b.c":
			return cbor.RawMessage{0xc2, 0x49, 1, 0, 0, 0, 0, 0, 0, 0, 0} // a large number
		case x == "%zz":
			return cbor.RawMessage{0xf9, 0x7e, 0x00} // not a number
		case x == ":":
			return cbor.RawMessage{0xa1, 0x81, 0x01, 0x02} // a list as a key
		case x == "_:b0":
			return cbor.RawMessage{0xa1, 0xf6, 0x02} // null as a key
		case x == "@type":
			return cbor.RawMessage{0xa2, 0x01, 0x02, 0x61, 0x31, 0x03} // keys 1 and "1"
		case x == "#":
			return cbor.RawMessage{0xc0, 0x61, 0x78} // a date that is none
		case x == "data:":
			return cbor.RawMessage{0xf8, 0x20} // a simple value
		case x == "\u2028\ufffd\U0001F600":
			return cbor.RawMessage{0xd8, 0x63, 0x63, 0x61, 0x62, 0x63} // an unknown tag
		}
	case float64:
		if x == float64(int64(x)) {
			return int64(x)
		}
	case json.Number:
		if strings.Contains(x.String(), "e") {
			return cbor.RawMessage{0xfb, 0x7f, 0xf0, 0, 0, 0, 0, 0, 0} // infinity
		}
		return cbor.RawMessage{0x1b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}
	}
	return v
}

func cwtDoc(b []byte) interface{} {
	var t cbor.Tag
	lib.Must(cbor.Unmarshal(b, &t), "cwt")
	l := t.Content.([]interface{})
	open := func(v interface{}) interface{} {
		var x interface{}
		lib.Must(cbor.Unmarshal(v.([]byte), &x), "cwt part")
		return cborTree(x)
	}
	return M{"header": open(l[0]), "unprotected": cborTree(l[1]), "payload": open(l[2]), "tag": 18}
}

func cwtBuild(doc interface{}) []byte {
	enc := func(v interface{}) []byte {
		b, err := cbor.Marshal(treeCBOR(v))
		if err != nil {
			return []byte{0xa0}
		}
		return b
	}
	h, p := enc(part(doc, "header")), enc(part(doc, "payload"))
	sig, err := own.K().Sign(issue.CBOR(L{"Signature1", h, []byte{}, p}))
	lib.Must(err, "sign")
	content := L{h, cbor.RawMessage(enc(part(doc, "unprotected"))), p, sig}
	if n, ok := part(doc, "tag").(float64); ok {
		return issue.CBOR(cbor.Tag{Number: uint64(n), Content: content})
	}
	return issue.CBOR(content)
}

func wire(kind string) func() interface{} {
	return func() interface{} { return parsed(desk.Wire(kind)) }
}

// plainText of a token.
func plainText(kind string) string {
	b := desk.Wire(kind)
	var s string
	if json.Unmarshal(b, &s) == nil {
		return s
	}
	return string(b)
}

func vpWire(kind string) []byte {
	p := desk.New().Presentation(kind)
	if p.CWT != nil {
		return p.CWT.Raw
	}
	b, err := p.MarshalJSON()
	lib.Must(err, kind)
	if len(b) > 0 && b[0] == '"' {
		var s string
		lib.Must(json.Unmarshal(b, &s), kind)
		return []byte(s)
	}
	return b
}

// full credential, with every kind of member.
func full(v2 bool) interface{} {
	k := "plain"
	if v2 {
		k = "plain2"
	}
	doc := desk.Doc(v2, k)
	doc["credentialSchema"] = L{M{"id": "https://alice.example/schema1", "type": "JsonSchemaValidator2018"}}
	doc["termsOfUse"] = L{M{"id": "urn:uuid:tou", "type": "IssuerPolicy", "prohibition": L{M{"action": L{"Archival"}}}}}
	doc["refreshService"] = M{"id": "https://alice.example/refresh", "type": "ManualRefreshService2018"}
	if v2 {
		doc["relatedResource"] = L{M{"id": "https://alice.example/r1", "mediaType": "text/plain", "digestSRI": "sha256-LXEWQrcmsEQBYnyp+6wy9chTD7GQPMTbAiWHF5IaSIE="}}
	}
	return doc
}

// ---- presentation exchange ----

var pdText = `{"presentation_definition":{"id":"pd","name":"n","purpose":"p","format":{"jwt_vc":{"alg":["EdDSA"]},"ldp_vc":{"proof_type":["Ed25519Signature2018"]},"ldp":{"proof_type":["Ed25519Signature2018"]}},
"submission_requirements":[{"name":"s","rule":"all","from":"A"},{"rule":"pick","count":1,"from_nested":[{"rule":"pick","min":1,"max":2,"from":"B"},{"rule":"all","from":"B"}]}],
"input_descriptors":[{"id":"a","group":["A"],"name":"a","schema":[{"uri":"https://www.w3.org/2018/credentials#VerifiableCredential","required":true},{"uri":"https://ex.org/ExtraType"}],
"constraints":{"limit_disclosure":"required","subject_is_issuer":"preferred","is_holder":[{"field_id":["f"],"directive":"preferred"}],"fields":[{"id":"f","path":["$.credentialSubject.level","$.vc.credentialSubject.level"],"purpose":"x","filter":{"type":"string","const":"B","pattern":"^B$","minLength":1,"maxLength":5,"enum":["B"],"not":{"const":"C"}},"predicate":"required"},
{"path":["$.credentialSubject.langs[0]"],"purpose":"y","filter":{"type":"string"}}]}},
{"id":"b","group":["B"],"purpose":"z","schema":[{"uri":"https://ex.org/ExtraType","required":false}],"constraints":{"fields":[{"path":["$.motto.en"],"filter":{"type":"string","allOf":[{"const":"go"}]}},{"path":["$..age","$.credentialSubject.address['town']"],"filter":{"type":"string","minimum":1}}]}},
{"id":"c","group":["B"],"schema":[{"uri":"https://www.w3.org/2018/credentials#VerifiableCredential"}],"constraints":{"limit_disclosure":"required","fields":[{"path":["$.credentialSubject.name"]}]}}]}}`

// pdNew follows the second version of the specification.
var pdNew = `{"presentation_definition":{"id":"pd","name":"n","purpose":"p","format":{"jwt_vc":{"alg":["EdDSA"]},"ldp_vc":{"proof_type":["Ed25519Signature2018"]}},"frame":{"@context":["https://www.w3.org/2018/credentials/v1"]},
"submission_requirements":[{"name":"s","rule":"all","from":"A"},{"rule":"pick","count":1,"from_nested":[{"rule":"pick","min":1,"max":2,"from":"B"},{"rule":"all","from":"B"}]}],
"input_descriptors":[{"id":"a","group":["A"],"name":"a","purpose":"x","constraints":{"limit_disclosure":"required","subject_is_issuer":"preferred","is_holder":[{"field_id":["f"],"directive":"preferred"}],"fields":[{"id":"f","path":["$.credentialSubject.level","$.vc.credentialSubject.level"],"purpose":"x","filter":{"type":"string","const":"B","pattern":"^B$","minLength":1,"maxLength":5,"enum":["B"],"not":{"const":"C"}},"predicate":"required"},
{"path":["$.credentialSubject.langs[0]"],"filter":{"type":"string"}}]}},
{"id":"b","group":["B"],"format":{"ldp_vc":{"proof_type":["Ed25519Signature2018"]}},"constraints":{"fields":[{"path":["$.motto.en"],"filter":{"type":"string","format":"date"}},{"path":["$..age","$.credentialSubject.address['town']"],"filter":{"type":"string","minimum":1}}]}},
{"id":"c","group":["B"],"constraints":{"limit_disclosure":"required","fields":[{"path":["$.credentialSubject.name"]}]}}]}}`

// openPD is a definition without format demands, whose descriptors credentials of the cast satisfy.
var openPD = `{"id":"pd","input_descriptors":[{"id":"a","constraints":{"fields":[{"path":["$.credentialSubject.level","$.vc.credentialSubject.level"]}]}},
{"id":"b","constraints":{"limit_disclosure":"required","fields":[{"path":["$.credentialSubject.name","$.vc.credentialSubject.name","$.id"],"filter":{"type":"string"}},{"path":["$.credentialSubject.address"],"optional":true}]}},
{"id":"c","schema":[{"uri":"https://www.w3.org/2018/credentials#VerifiableCredential"}],"constraints":{"subject_is_issuer":"required","fields":[{"path":["$.issuer","$.vc.issuer"]}]}},
{"id":"d","constraints":{"limit_disclosure":"required","fields":[{"path":["$.credentialSubject.level"],"predicate":"required","filter":{"type":"string","const":"B"}}]}}]}`

func definition(text string) *presexch.PresentationDefinition {
	var pd *presexch.PresentationDefinition
	lib.Must(json.Unmarshal([]byte(text), &pd), "definition")
	return pd
}

// exchange offers a credential of another party in an exchange.
func exchange(d *desk.Desk, c *verifiable.Credential) {
	pd := definition(openPD)
	cs := []*verifiable.Credential{c, d.Credential("jwt")}
	opts := presexch.WithSDCredentialOptions(co(d)...)
	_, _ = pd.MatchSubmissionRequirement(cs, issue.Loader, opts, presexch.WithSelectiveDisclosureApply(), presexch.WithSDBBSProofCreator(d.Derive))
	for _, one := range pd.InputDescriptors {
		p := definition(openPD)
		p.InputDescriptors = []*presexch.InputDescriptor{one}
		vp, err := p.CreateVP(cs[:1], issue.Loader, opts, presexch.WithSDBBSProofCreator(d.Derive))
		if err == nil {
			match2(d, p, vp)
		}
	}
}

func match2(d *desk.Desk, pd *presexch.PresentationDefinition, p *verifiable.Presentation) {
	mo := []presexch.MatchOption{presexch.WithCredentialOptions(co(d, verifiable.WithDisabledProofCheck())...), presexch.WithDisableSchemaValidation()}
	_, _ = pd.Match([]*verifiable.Presentation{p}, issue.Loader, mo...)
	_, _ = pd.Match([]*verifiable.Presentation{p, p}, issue.Loader, append(mo, presexch.WithMergedSubmissionMap(M{"id": "s", "definition_id": pd.ID, "descriptor_map": L{
		M{"id": "a", "format": "ldp_vp", "path": "$[0]", "path_nested": M{"id": "a", "format": "ldp_vc", "path": "$.verifiableCredential[0]"}}}}))...)
}

func match(d *desk.Desk, p *verifiable.Presentation) {
	match2(d, definition(openPD), p)
	for _, c := range p.Credentials() {
		if c != nil {
			exchange(d, c)
		}
	}
}

func wallet(d *desk.Desk) []*verifiable.Credential {
	var cs []*verifiable.Credential
	for _, k := range []string{"plain", "ld", "jwt", "sd", "bbs", "cwt"} {
		cs = append(cs, d.Credential(k))
	}
	return cs
}

func pdDoors(d *desk.Desk, b []byte) []door {
	get := func() (*presexch.PresentationDefinition, error) {
		var w struct {
			PD *presexch.PresentationDefinition `json:"presentation_definition"`
		}
		if err := json.Unmarshal(b, &w); err != nil {
			return nil, err
		}
		if w.PD == nil {
			return nil, errors.New("no definition")
		}
		return w.PD, nil
	}
	with := func(f func(pd *presexch.PresentationDefinition) error) func() (desk.Obj, error) {
		return only(func() error {
			pd, err := get()
			if err != nil {
				return err
			}
			return f(pd)
		})
	}
	opts := []presexch.MatchRequirementsOpt{presexch.WithSDCredentialOptions(co(d)...), presexch.WithSDBBSProofCreator(d.Derive)}
	return []door{
		{"parse", with(func(pd *presexch.PresentationDefinition) error { return pd.ValidateSchema() })},
		{"createvp", with(func(pd *presexch.PresentationDefinition) error {
			vp, err := pd.CreateVP(wallet(d), issue.Loader, opts...)
			if err == nil {
				match2(d, pd, vp)
				_, err = pd.Match([]*verifiable.Presentation{vp}, issue.Loader, presexch.WithCredentialOptions(co(d, verifiable.WithDisabledProofCheck())...))
			}
			return err
		})},
		{"array", with(func(pd *presexch.PresentationDefinition) error {
			_, _, err := pd.CreateVPArray(wallet(d), issue.Loader, opts...)
			return err
		})},
		{"needs", with(func(pd *presexch.PresentationDefinition) error {
			_, err := pd.MatchSubmissionRequirement(wallet(d), issue.Loader, append(opts, presexch.WithSelectiveDisclosureApply())...)
			_, e2 := pd.MatchSubmissionRequirement(wallet(d), issue.Loader)
			return errors.Join(err, e2)
		})},
		{"match", with(func(pd *presexch.PresentationDefinition) error {
			if err := pd.ValidateSchema(); err != nil {
				return err // a verifier does not use such a definition
			}
			vp, err := definition(openPD).CreateVP(wallet(d), issue.Loader, opts...)
			if err != nil {
				vp = d.Presentation("vp")
			}
			match2(d, pd, vp)
			return err
		})},
	}
}

func subDoc() interface{} {
	return M{"submission": M{"id": "s", "definition_id": "pd", "locale": "en", "descriptor_map": L{
		M{"id": "a", "format": "ldp_vc", "path": "$.verifiableCredential[0]"},
		M{"id": "b", "format": "ldp_vp", "path": "$", "path_nested": M{"id": "b", "format": "jwt_vc", "path": "$.verifiableCredential[1]"}}}}}
}

func subDoors(d *desk.Desk, b []byte) []door {
	sub := part(parsedOr(b), "submission")
	pd := definition(`{"id":"pd","input_descriptors":[{"id":"a","constraints":{"fields":[{"path":["$.credentialSubject.level"]}]}},{"id":"b","constraints":{"fields":[{"path":["$.credentialSubject.name","$.vc.credentialSubject.name"]}]}}]}`)
	mo := []presexch.MatchOption{presexch.WithCredentialOptions(co(d, verifiable.WithDisabledProofCheck())...), presexch.WithDisableSchemaValidation()}
	vp := func() *verifiable.Presentation {
		p := d.Presentation("vp")
		p.Context = append(p.Context, presexch.PresentationSubmissionJSONLDContextIRI)
		p.Type = append(p.Type, presexch.PresentationSubmissionJSONLDType)
		return p
	}
	merged := func() presexch.MatchOption {
		m, _ := sub.(M)
		return presexch.WithMergedSubmissionMap(m)
	}
	return []door{
		{"validated", only(func() error {
			p := vp()
			p.CustomFields["presentation_submission"] = sub
			_, err := pd.Match([]*verifiable.Presentation{p}, issue.Loader, mo[:1]...)
			return err
		})},
		{"parse", only(func() error {
			p := vp()
			p.CustomFields["presentation_submission"] = sub
			_, err := pd.Match([]*verifiable.Presentation{p}, issue.Loader, mo...)
			return err
		})},
		{"wire", only(func() error {
			p := vp()
			p.CustomFields["presentation_submission"] = sub
			b, err := p.MarshalJSON()
			if err != nil {
				return err
			}
			p, err = verifiable.ParsePresentation(b, po(d, verifiable.WithPresDisabledProofCheck())...)
			if err != nil {
				return err
			}
			_, err = pd.Match([]*verifiable.Presentation{p}, issue.Loader, mo...)
			return err
		})},
		{"merged", only(func() error {
			_, err := pd.Match([]*verifiable.Presentation{vp(), d.Presentation("vpjwt")}, issue.Loader, append(mo, merged())...)
			return err
		})},
		{"mergedone", only(func() error {
			var s *presexch.PresentationSubmission
			if err := json.Unmarshal(lib.JSON(sub), &s); err != nil {
				return err
			}
			_, err := pd.Match([]*verifiable.Presentation{vp()}, issue.Loader, append(mo, presexch.WithMergedSubmission(s))...)
			_, e2 := pd.Match([]*verifiable.Presentation{vp(), vp()}, issue.Loader, append(mo, presexch.WithMergedSubmission(s))...)
			_, e3 := pd.Match(nil, issue.Loader, append(mo, presexch.WithMergedSubmission(s))...)
			return errors.Join(err, e2, e3)
		})},
	}
}

func parsedOr(b []byte) (v interface{}) {
	if json.Unmarshal(b, &v) != nil {
		return nil
	}
	return
}

// ---- status ----

func bits() []byte { b := make([]byte, 16); b[0] = 8; return b }

func listDoc(kind string) func() interface{} {
	return func() interface{} {
		doc := M{"@context": L{v2ctx}, "id": "https://alice.example/list", "type": L{"VerifiableCredential", kind + "Credential"}, "issuer": issue.Alice,
			"credentialSubject": M{"id": "https://alice.example/list#l", "type": kind, "statusPurpose": "revocation", "encodedList": issue.B64Gzip(bits())}}
		if kind == "BitstringStatusList" {
			doc["credentialSubject"].(M)["encodedList"] = "u" + issue.B64Gzip(bits())
		}
		return M{"header": issue.Header(own), "payload": M{"iss": issue.Alice, "vc": doc}}
	}
}

func entry(kind string) M {
	switch kind {
	case "BitstringStatusList":
		return M{"id": "urn:uuid:s", "type": "BitstringStatusListEntry", "statusPurpose": "revocation", "statusListIndex": "3", "statusListCredential": "https://alice.example/list", "statusSize": 1,
			"statusMessage": L{M{"status": "0x0", "message": "ok"}, M{"status": "0x1", "message": "bad"}}}
	case "StatusList2021":
		return M{"id": "urn:uuid:s", "type": "StatusList2021Entry", "statusPurpose": "revocation", "statusListIndex": "3", "statusListCredential": "https://alice.example/list"}
	}
	return M{"id": "urn:uuid:s", "type": kind + "Status", "revocationListIndex": "3", "statusListIndex": "3", "revocationListCredential": "https://alice.example/list", "statusListCredential": "https://alice.example/list"}
}

func statusOf(e interface{}, client *http.Client, reg vdrapi.Registry) error {
	doc := desk.Doc(true, "plain2")
	doc["credentialStatus"] = e
	text := lib.JSON(doc)
	if raw, ok := e.(spliced); ok {
		doc["credentialStatus"] = "@@here"
		text = bytes.ReplaceAll(lib.JSON(doc), []byte(`"@@here"`), raw)
	}
	c, err := verifiable.ParseCredential(text, verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
	if err != nil {
		return err
	}
	err = (&status.Client{ValidatorGetter: validator.GetValidator, Resolver: resolver.NewResolver(client, reg, "token")}).VerifyStatus(c)
	if errors.Is(err, status.ErrRevoked) {
		return nil
	}
	return err
}

// spliced into a document as it is.
type spliced []byte

// didOf stands for a registry, which parses DID documents itself; a crash there is not one of this library.
func didOf(b []byte) (doc *did.Doc, err error) {
	if _, _, bad := lib.Guard(func() { doc, err = did.ParseDocument(b) }); bad {
		return nil, errors.New("no DID document")
	}
	return
}

func registry(doc []byte) vdrapi.Registry { return &reg{doc} }

type reg struct{ doc []byte }

func (r *reg) Resolve(string, ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	d, err := didOf(r.doc)
	if err != nil {
		return nil, err
	}
	return &did.DocResolution{DIDDocument: d}, nil
}

func (r *reg) Create(string, *did.Doc, ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	return nil, errors.New("no")
}
func (r *reg) Update(*did.Doc, ...vdrapi.DIDMethodOption) error   { return errors.New("no") }
func (r *reg) Deactivate(string, ...vdrapi.DIDMethodOption) error { return errors.New("no") }
func (r *reg) Close() error                                       { return nil }

func listJWT(kind string) []byte { return jwtBuild(listDoc(kind)()) }

func listTarget(kind string) target {
	return target{listDoc(kind), jwtBuild, func(d *desk.Desk, b []byte) []door {
		return append([]door{{"parse", only(func() error {
			return statusOf(entry(kind), &http.Client{Transport: pages{"https://alice.example/list": b}}, noReg)
		})}}, credDoors(d, b)[1:3]...)
	}}
}

func entryTarget(kind string) target {
	return target{func() interface{} { return entry(kind) }, asJSON, func(d *desk.Desk, b []byte) []door {
		w := &http.Client{Transport: pages{"https://alice.example/list": listJWT(kind)}}
		return []door{{"parse", only(func() error { return statusOf(spliced(b), w, noReg) })},
			{"listed", only(func() error { return statusOf(spliced("["+string(b)+","+string(b)+"]"), w, noReg) })}}
	}}
}

var noReg = registry([]byte("{}"))

var hubDID = `{"@context":["https://www.w3.org/ns/did/v1"],"id":"did:example:hub","service":[{"id":"did:example:hub#hub","type":"IdentityHub","serviceEndpoint":"https://hub.example/"}]}`

func hubDoc() interface{} {
	return M{"url": "did:example:hub?service=IdentityHub&queries=", "queries": L{M{"method": "Other", "objectId": "x"}, M{"method": "CollectionsQuery", "objectId": "obj-1"}},
		"did": lib.ParseJSON([]byte(hubDID)),
		"reply": M{"requestId": "1", "status": M{"code": 200, "message": "ok"}, "replies": L{M{"messageId": "1", "status": M{"code": 200},
			"entries": L{M{"descriptor": M{"objectId": "unrelated"}, "data": "e30="}, M{"descriptor": M{"objectId": "obj-1"}, "data": base64.StdEncoding.EncodeToString(listJWT("StatusList2021"))}}}}}}
}

func hubDoors(d *desk.Desk, b []byte) []door {
	doc := parsedOr(b)
	q := base64.StdEncoding.EncodeToString(lib.JSON(part(doc, "queries")))
	u, _ := part(doc, "url").(string)
	if strings.HasSuffix(u, "=") {
		u += strings.ReplaceAll(strings.ReplaceAll(q, "+", "%2B"), "=", "%3D")
	}
	e := entry("StatusList2021")
	e["statusListCredential"] = u
	return []door{{"parse", only(func() error {
		return statusOf(e, &http.Client{Transport: pages{"https://hub.example/": lib.JSON(part(doc, "reply"))}}, registry(lib.JSON(part(doc, "did"))))
	})}}
}

// ---- domain linkage ----

func configDoc() interface{} {
	h := issue.As("EdDSA", "hanna")
	doc := M{"@context": L{v1ctx, dcverifier.ContextV1}, "type": L{"VerifiableCredential", "DomainLinkageCredential"},
		"issuer": issue.Hanna, "issuanceDate": "2020-01-01T00:00:00Z", "expirationDate": "2090-01-01T00:00:00Z", "credentialSubject": M{"id": issue.Hanna, "origin": "https://one.example"}}
	l := issue.LD(doc, h)
	l["proof"] = l["proof"].(L)[0]
	tok := ident.JWT(M{"alg": "EdDSA", "kid": h.Kid}, M{"iss": issue.Hanna, "sub": issue.Hanna, "nbf": 1577836800, "exp": 3786912000, "vc": doc}, h.K())
	return M{"@context": dcverifier.ContextV1, "linked_dids": L{l, tok}}
}

func configDoors(d *desk.Desk, b []byte) []door {
	opts := []dcverifier.DIDConfigurationOpt{dcverifier.WithJSONLDDocumentLoader(issue.Loader), dcverifier.WithVDRegistry(vdr{issue.World("EdDSA")})}
	return []door{
		{"parse", only(func() error { return dcverifier.VerifyDIDAndDomain(b, issue.Hanna, "https://one.example", opts...) })},
		{"client", only(func() error {
			return client.New(client.WithHTTPClient(pages{"https://one.example/.well-known/did-configuration.json": b}), client.WithJSONLDDocumentLoader(issue.Loader),
				client.WithVDRegistry(vdr{issue.World("EdDSA")})).VerifyDIDAndDomain(issue.Hanna, "https://one.example")
		})},
		{"other", only(func() error { return dcverifier.VerifyDIDAndDomain(b, issue.Alice, "https://two.example", opts...) })},
	}
}

type vdr struct{ *ident.World }

func (v vdr) Create(string, *did.Doc, ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	return nil, errors.New("no")
}
func (v vdr) Update(*did.Doc, ...vdrapi.DIDMethodOption) error   { return errors.New("no") }
func (v vdr) Deactivate(string, ...vdrapi.DIDMethodOption) error { return errors.New("no") }
func (v vdr) Close() error                                       { return nil }

// ---- keys of others ----

const keyDID = "did:example:keys"

type keyCase struct {
	id, alg, typ, rep string
}

var keyCases = []keyCase{
	{"ed-jwk", "EdDSA", "JsonWebKey2020", "jwk"}, {"ed-2018", "EdDSA", "Ed25519VerificationKey2018", "b58"}, {"ed-2020", "EdDSA", "Ed25519VerificationKey2020", "mb"},
	{"ed-multi", "EdDSA", "Multikey", "multikey"}, {"p256-jwk", "ES256", "JsonWebKey2020", "jwk"}, {"p384-jwk", "ES384", "JsonWebKey2020", "jwk"}, {"p521-jwk", "ES521", "JsonWebKey2020", "jwk"},
	{"p256-multi", "ES256", "Multikey", "multikey"}, {"k256-jwk", "ES256K", "JsonWebKey2020", "jwk"}, {"k256-2019", "ES256K", "EcdsaSecp256k1VerificationKey2019", "b58"},
	{"rsa-jwk", "RS256", "JsonWebKey2020", "jwk"}, {"rsa-2018", "RS256", "RsaVerificationKey2018", "b58"}, {"bbs", "BBS", "Bls12381G2Key2020", "b58"},
}

func keysDoc() interface{} {
	var vms, ids L
	for _, c := range keyCases {
		k := ident.K(c.alg, "keys")
		vm := M{"id": keyDID + "#" + c.id, "type": c.typ, "controller": keyDID}
		switch c.rep {
		case "jwk":
			vm["publicKeyJwk"] = k.JWKMap()
		case "b58":
			vm["publicKeyBase58"] = base58.Encode(k.Bytes())
		case "mb":
			s, err := multibase.Encode(multibase.Base58BTC, k.Bytes())
			lib.Must(err, "multibase")
			vm["publicKeyMultibase"] = s
		case "multikey":
			s, err := multibase.Encode(multibase.Base58BTC, k.Multikey())
			lib.Must(err, "multibase")
			vm["publicKeyMultibase"] = s
		}
		vms = append(vms, vm)
		ids = append(ids, vm["id"])
	}
	return M{"@context": L{"https://www.w3.org/ns/did/v1"}, "id": keyDID, "verificationMethod": vms, "assertionMethod": ids}
}

var (
	keyToks   = map[string][][]byte{}
	keyToksMu sync.Mutex
)

// signedBy is everything that a key of the document could have signed.
func signedBy(c keyCase) [][]byte {
	keyToksMu.Lock()
	defer keyToksMu.Unlock()
	if b, ok := keyToks[c.id]; ok {
		return b
	}
	k := ident.K(c.alg, "keys")
	kid := keyDID + "#" + c.id
	doc := desk.Doc(false, "plain")
	doc["issuer"] = keyDID
	var out [][]byte
	sign := func(b []byte) []byte {
		s, err := k.Sign(b)
		lib.Must(err, "sign "+c.id)
		return s
	}
	if c.alg != "BBS" {
		in := ident.B64(lib.JSON(M{"alg": c.alg, "kid": kid, "typ": "JWT"})) + "." + ident.B64(lib.JSON(M{"iss": keyDID, "vc": doc}))
		out = append(out, []byte(in+"."+ident.B64(sign([]byte(in)))))
		h, p := issue.CBOR(map[interface{}]interface{}{1: map[string]int{"EdDSA": -8, "ES256": -7, "ES384": -35, "ES521": -36, "ES256K": -47, "RS256": -257}[c.alg], 4: []byte(kid)}), issue.CBOR(M{"vc": doc})
		out = append(out, issue.CBOR(cbor.Tag{Number: 18, Content: L{h, M{}, p, sign(issue.CBOR(L{"Signature1", h, []byte{}, p}))}}))
	}
	for typ, value := range map[string]bool{"Ed25519Signature2018": false, "Ed25519Signature2020": true, "EcdsaSecp256k1Signature2019": false, "JsonWebSignature2020": false, "BbsBlsSignature2020": true} {
		x := lib.ParseJSON(lib.JSON(doc)).(M)
		p := M{"type": typ, "created": "2021-02-03T04:05:06Z", "proofPurpose": "assertionMethod", "verificationMethod": kid}
		if value {
			p["proofValue"] = "z" + base58.Encode(make([]byte, 64))
			if typ == "BbsBlsSignature2020" {
				p["proofValue"] = base64.StdEncoding.EncodeToString(bytes.Repeat([]byte{1}, 112))
			}
		} else {
			p["jws"] = ident.B64(lib.JSON(M{"alg": c.alg, "b64": false, "crit": L{"b64"}})) + ".." + ident.B64(make([]byte, 64))
		}
		x["proof"] = p
		out = append(out, lib.JSON(x))
	}
	for _, suite := range []string{"ecdsa-rdfc-2019", "eddsa-rdfc-2022"} {
		x := lib.ParseJSON(lib.JSON(doc)).(M)
		x["proof"] = M{"type": "DataIntegrityProof", "cryptosuite": suite, "created": "2021-02-03T04:05:06Z", "proofPurpose": "assertionMethod", "verificationMethod": kid, "proofValue": "z" + base58.Encode(bytes.Repeat([]byte{1}, 64))}
		out = append(out, lib.JSON(x))
	}
	keyToks[c.id] = out
	return out
}

func keysDoors(d *desk.Desk, b []byte) []door {
	r := registry(b)
	chk := defaults.NewDefaultProofChecker(vermethod.NewVDRResolver(r))
	div, err := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: r},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: issue.Loader}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: issue.Loader}))
	lib.Must(err, "verifier")
	doors := []door{{"parse", only(func() error { _, err := didOf(b); return err })}}
	for _, c := range keyCases {
		for i, w := range signedBy(c) {
			doors = append(doors, door{fmt.Sprint(c.id, i), only(func() error {
				_, err := verifiable.ParseCredential(w, verifiable.WithProofChecker(chk), verifiable.WithDataIntegrityVerifier(div), verifiable.WithJSONLDDocumentLoader(issue.Loader),
					verifiable.WithExpectedDataIntegrityFields("", "", ""), verifiable.WithDisabledRelatedResourceCheck(), verifiable.WithCredDisableValidation())
				return err
			})})
		}
	}
	return append(doors, door{"didproof", only(func() error {
		doc, err := didOf(b)
		if err != nil {
			return err
		}
		return verifiable.VerifyDIDProof(doc, verifiable.WithDIDProofChecker(chk), verifiable.WithDIDDataIntegrityVerifier(div), verifiable.WithDIDJSONLDDocumentLoader(issue.Loader))
	})})
}

// a DID document with a proof of its own
func didProofDoc() interface{} {
	pub := ed25519.PublicKey(own.K().Bytes())
	doc := M{"@context": L{"https://www.w3.org/ns/did/v1"}, "id": issue.Alice, "verificationMethod": L{M{"id": own.Kid, "type": "Ed25519VerificationKey2018", "controller": issue.Alice,
		"publicKeyBase58": base58.Encode(pub)}}, "assertionMethod": L{own.Kid}, "service": L{M{"id": issue.Alice + "#s", "type": "T", "serviceEndpoint": "https://s.example/"}}, "created": "2020-01-01T00:00:00Z"}
	return M{"@context": doc["@context"], "id": doc["id"], "verificationMethod": doc["verificationMethod"], "assertionMethod": doc["assertionMethod"], "service": doc["service"],
		"proof": L{M{"type": "Ed25519Signature2018", "created": "2021-02-03T04:05:06Z", "creator": own.Kid, "proofValue": ident.B64(make([]byte, 64)), "nonce": "AAAA", "proofPurpose": "assertionMethod", "domain": "x", "verificationMethod": own.Kid}}}
}

func didProofDoors(d *desk.Desk, b []byte) []door {
	return []door{{"verify", only(func() error {
		doc, err := didOf(b)
		if err != nil {
			return err
		}
		return verifiable.VerifyDIDProof(doc, verifiable.WithDIDProofChecker(d.Chk), verifiable.WithDIDDataIntegrityVerifier(d.DIV), verifiable.WithDIDJSONLDDocumentLoader(issue.Loader))
	})}, {"document", only(func() error { return lddocument.NewDocumentVerifier(d.Chk).Verify(b, nil, d.LDOpts...) })}}
}

// ---- documents with proofs, at the lower doors ----

func proofDoors(d *desk.Desk, b []byte) []door {
	iss := issue.Alice
	return []door{
		{"lddocument", only(func() error { return lddocument.NewDocumentVerifier(d.Chk).Verify(b, &iss, d.LDOpts...) })},
		{"integrity", only(func() error {
			return d.DIV.VerifyProof(b, &models.ProofOptions{Purpose: "assertionMethod", ProofType: models.DataIntegrityProof})
		})},
	}
}

func schemaDoors(d *desk.Desk, b []byte) []door {
	doc := desk.Doc(true, "plain2")
	delete(doc, "credentialStatus")
	doc["credentialSchema"] = L{M{"id": "https://alice.example/schema1", "type": "JsonSchemaValidator2018"}}
	return []door{{"parse", pc(d, lib.JSON(doc), verifiable.WithDisabledProofCheck(), verifiable.WithCredentialSchemaLoader(verifiable.NewCredentialSchemaLoaderBuilder().
		SetSchemaDownloadClient(&http.Client{Transport: pages{"https://alice.example/schema1": b}}).SetCache(verifiable.NewExpirableSchemaCache(1<<20, time.Hour)).Build()))}}
}

// a context document of another party
type ctxLoader struct {
	ld.DocumentLoader
	page []byte
}

func (c ctxLoader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	if u != "https://alice.example/ctx" {
		return c.DocumentLoader.LoadDocument(u)
	}
	doc, err := ld.DocumentFromReader(bytes.NewReader(c.page))
	if err != nil {
		return nil, err
	}
	return &ld.RemoteDocument{DocumentURL: u, Document: doc}, nil
}

func ctxDoc() interface{} {
	return M{"@context": M{"@version": 1.1, "ex": "https://ex.org/", "id": "@id", "level": M{"@id": "ex:level", "@type": "@id"}, "address": M{"@id": "ex:address", "@context": M{"town": "ex:town"}},
		"langs": M{"@id": "ex:langs", "@container": "@list"}, "ExtraType": M{"@id": "ex:ExtraType", "@context": M{"name": "ex:name"}}}}
}

func ctxDoors(d *desk.Desk, b []byte) []door {
	ldr := ctxLoader{issue.Loader, b}
	return []door{{"parse", only(func() error {
		doc := desk.Doc(false, "plain")
		doc["@context"] = L{v1ctx, "https://alice.example/ctx", M{"@vocab": "https://ex.org/"}}
		_, err := verifiable.ParseCredential(lib.JSON(doc), co(d, verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(ldr))...)
		return err
	})}, {"proof", only(func() error {
		doc := parsed(desk.Wire("ld")).(M)
		doc["@context"] = L{v1ctx, "https://alice.example/ctx", M{"@vocab": "https://ex.org/"}}
		_, err := verifiable.ParseCredential(lib.JSON(doc), co(d, verifiable.WithJSONLDDocumentLoader(ldr))...)
		return err
	})}, {"inline", only(func() error {
		doc := parsed(desk.Wire("ld")).(M)
		doc["@context"] = L{v1ctx, part(parsedOr(b), "@context")}
		_, err := verifiable.ParseCredential(lib.JSON(doc), co(d)...)
		return err
	})}}
}

func dateDoors(d *desk.Desk, b []byte) []door {
	return []door{{"parse", only(func() error {
		var t utiltime.TimeWrapper
		err := json.Unmarshal(b, &t)
		return err
	})}, {"text", only(func() error {
		_, e2 := utiltime.ParseTimeWrapper(string(b))
		_, e3 := utiltime.ParseTimeWithTrailingZeroMsec(string(b))
		_, e4 := utiltime.ParseTimeWrapper(strings.Trim(string(b), `"`))
		return errors.Join(e2, e3, e4)
	})}}
}

func envelope(typ, media string, b []byte) M {
	return M{"@context": L{v2ctx}, "type": L{typ}, "id": "data:" + media + "," + string(b)}
}

func sdKB() interface{} {
	doc := sdDoc(plainText("sd")).(M)
	doc["payload"] = M{"iss": issue.Alice, "iat": 1600000000, "exp": 3786912000, "nbf": 1600000000, "_sd_alg": "sha-256", "cnf": M{"jwk": issue.As("EdDSA", "hanna").K().JWKMap()}}
	p := doc["payload"].(M)
	inner := ident.B64(lib.JSON(L{"s-3", "zip", "3000"}))
	item := ident.B64(lib.JSON(L{"s-4", "fr"}))
	ds := []L{{"s-1", "name", "Hanna"}, {"s-2", "address", M{"_sd": L{issue.Digest(inner)}, "town": "Bern"}}, {"s-3", "zip", "3000"}, {"s-4", "fr"}}
	l := L{}
	for _, x := range ds {
		l = append(l, M{"digest": issue.Digest(ident.B64(lib.JSON(x))), "is": x})
	}
	p["_sd"] = L{l[0].(M)["digest"], l[1].(M)["digest"]}
	p["langs"] = L{"de", M{"...": issue.Digest(item)}}
	doc["disclosures"] = l
	doc["header"] = M{"alg": "EdDSA", "typ": "JWT", "kid": own.Kid}
	doc["kb"] = M{"header": M{"alg": "EdDSA", "typ": "kb+jwt"}, "payload": M{"nonce": "n1", "aud": "https://verifier.example", "iat": 1600000000}}
	return lib.ParseJSON(lib.JSON(doc))
}

func bbsDerived() interface{} {
	d := desk.New()
	c := d.Credential("bbs")
	v, err := c.GenerateBBSSelectiveDisclosure(d.Frame, []byte("nonce"), d.Derive, d.Parse...)
	lib.Must(err, "derive")
	b, err := v.MarshalJSON()
	lib.Must(err, "derive")
	return parsed(b)
}

var _ = cose.AlgorithmEd25519

var targets map[string]target

func init() {
	targets = map[string]target{
		"plain":  {func() interface{} { return full(false) }, asJSON, plainDoors},
		"plain2": {func() interface{} { return full(true) }, asJSON, plainDoors},
		"ld":     {wire("ld"), asJSON, join(credDoors, proofDoors)},
		"ldpair": {wire("ldpair"), asJSON, join(credDoors, proofDoors)},
		"di2":    {wire("di2"), asJSON, join(credDoors, proofDoors)},
		"bbs":    {wire("bbs"), asJSON, join(credDoors, proofDoors)},
		"bbsd":   {bbsDerived, asJSON, join(credDoors, proofDoors)},
		"jwt":    {func() interface{} { return jwtDoc(plainText("jwt")) }, jwtBuild, join(credDoors, tokenDoors)},
		"jwtld":  {func() interface{} { return jwtDoc(plainText("jwtld")) }, jwtBuild, join(credDoors, tokenDoors)},
		"unsec":  {func() interface{} { return jwtDoc(plainText("unsec")) }, jwtBuild, join(credDoors, tokenDoors)},
		"sd":     {func() interface{} { return sdDoc(plainText("sd")) }, sdBuild, join(credDoors, sdDoors)},
		"sdrec":  {func() interface{} { return sdDoc(plainText("sdrec")) }, sdBuild, join(credDoors, sdDoors)},
		"sdkb": {sdKB, sdBuild, join(func(d *desk.Desk, b []byte) []door {
			return append([]door{{"parse", sdDoors(d, b)[1].run}}, sdDoors(d, b)...)
		}, func(d *desk.Desk, b []byte) []door { return credDoors(d, b)[1:3] })},
		"cwt":  {func() interface{} { return cwtDoc(desk.New().Credential("cwt").CWTEnvelope.Sign1MessageRaw) }, cwtBuild, join(credDoors, cwtDoors)},
		"cwt2": {func() interface{} { return cwtDoc(desk.New().Credential("cwt2").CWTEnvelope.Sign1MessageRaw) }, cwtBuild, join(credDoors, cwtDoors)},
		"env":  {wire("jwt2"), asJSON, credDoors},
		"envsd": {func() interface{} {
			return envelope("EnvelopedVerifiableCredential", "application/vc-ld+sd-jwt", []byte(plainText("sd2")))
		}, asJSON, credDoors},
		"vp":    {func() interface{} { return parsed(vpWire("vp")) }, asJSON, vpDoors},
		"vp2":   {func() interface{} { return parsed(vpWire("vp2")) }, asJSON, vpDoors},
		"vpld":  {func() interface{} { return parsed(vpWire("vpld")) }, asJSON, join(provedVPDoors, proofDoors)},
		"vpdi2": {func() interface{} { return parsed(vpWire("vpdi2")) }, asJSON, join(provedVPDoors, proofDoors)},
		"vpjwt": {func() interface{} { return jwtDoc(string(vpWire("vpjwt"))) }, jwtBuild, join(provedVPDoors, tokenDoors)},
		"vpcwt": {func() interface{} { return cwtDoc(vpWire("vpcwt")) }, cwtBuild, join(provedVPDoors, cwtDoors)},
		"envvp": {func() interface{} {
			return envelope("EnvelopedVerifiablePresentation", "application/vp-ld+jwt", vpWire("vpjwt"))
		}, asJSON, vpDoors},
		"pdold":  {func() interface{} { return parsed([]byte(pdText)) }, asJSON, pdDoors},
		"pd":     {func() interface{} { return parsed([]byte(pdNew)) }, asJSON, pdDoors},
		"sub":    {subDoc, asJSON, subDoors},
		"hub":    {hubDoc, asJSON, hubDoors},
		"config": {configDoc, asJSON, configDoors},
		"keys":   {keysDoc, asJSON, keysDoors},
		"did":    {didProofDoc, asJSON, didProofDoors},
		"schema": {func() interface{} {
			return parsed([]byte(`{"$schema":"http://json-schema.org/draft-07/schema#","$id":"https://alice.example/schema1","type":"object","required":["issuer"],"properties":{"issuer":{"type":["string","object"]},"id":{"type":"string","format":"uri","pattern":"^urn","maxLength":90},"type":{"type":"array","items":{"type":"string"},"minItems":1}},"definitions":{"x":{"type":"string"}},"allOf":[{"required":["id"]}],"additionalProperties":true}`))
		}, asJSON, schemaDoors},
		"ctx":  {ctxDoc, asJSON, ctxDoors},
		"date": {func() interface{} { return "2020-05-06T07:08:09.120Z" }, asJSON, dateDoors},
	}
	for _, k := range []string{"BitstringStatusList", "StatusList2021"} {
		targets["list"+k] = listTarget(k)
		targets["entry"+k] = entryTarget(k)
	}
}

// Command vcshape replays the behaviours of VCShape.tla and TokenClaims.tla: what a credential states after it travelled
// in some encoding.
package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/trustbloc/kms-go/spi/kms"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/did-go/doc/ld/processor"

	timeutil "github.com/trustbloc/did-go/doc/util/time"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
)

type shape struct {
	Model, Maker, Enc, Wire, ID, Types, Context, Subject, Issuer, Issued, Expired, Status, Schemas, Evidence, Terms, Refresh, Related, Custom, Again string
}

type rec struct {
	Expect, Base string
	Dev          []string
	C            shape
}

const alg = "EdDSA"

var (
	who = issue.As(alg, "own")
	chk *checker.ProofChecker
	div *dataintegrity.Verifier
	dis *dataintegrity.Signer
	mk  *creator.ProofCreator
)

func setup() {
	chk, div, dis = issue.Checker(alg), issue.DIVerifier(alg), issue.DISigner(alg, who.K())
	mk = creator.New(creator.WithJWTAlg(eddsa.New(), who.K()), creator.WithLDProofType(ed25519signature2018.New(), who.K()))
}

type L = []interface{}

func times(kind string) string {
	return map[string]string{"z": "2020-05-06T07:08:09Z", "offset": "2021-05-06T07:08:09+05:30", "msec": "2022-05-06T07:08:09.500Z", "old": "1950-01-02T03:04:05Z",
		"epoch": "1970-01-01T00:00:00Z", "far": "9999-12-31T23:59:59Z"}[kind]
}

func subject(c shape) interface{} {
	s := lib.M{"id": "did:example:bob", "name": "Bob"}
	switch c.Subject {
	case "noid":
		delete(s, "id")
	case "idonly":
		return lib.M{"id": "did:example:bob"}
	case "pair":
		return L{s, lib.M{"id": "did:example:eve", "name": "Eve"}}
	case "list":
		return L{s}
	case "nested":
		s["address"] = lib.M{"street": "Main", "geo": lib.M{"lat": 1.25, "lon": -3}}
		s["degrees"] = L{"a", lib.M{"kind": "b", "years": L{1, 2}}, L{}}
		s["nothing"] = nil
	case "numbers":
		s["int"], s["neg"], s["float"], s["big"], s["yes"] = 7, -3, 1.5, 9007199254740991, true
	case "text":
		return "did:example:bob"
	case "absent":
		return nil
	}
	return s
}

func typed(id, typ string, more lib.M) lib.M {
	m := lib.M{"id": id, "type": typ}
	if id == "" {
		delete(m, "id")
	}
	for k, v := range more {
		m[k] = v
	}
	return m
}

// document is the credential the combination describes.
func document(c shape) lib.M {
	v2 := c.Model == "v2"
	base := "https://www.w3.org/2018/credentials/v1"
	from, until := "issuanceDate", "expirationDate"
	if v2 {
		base, from, until = "https://www.w3.org/ns/credentials/v2", "validFrom", "validUntil"
	}
	terms := lib.M{"@vocab": "https://ex.org/"}
	ctx := L{base}
	if c.Enc == "di" && !v2 {
		ctx = append(ctx, issue.DICtx)
	}
	switch c.Context {
	case "inline":
		ctx = append(ctx, terms)
	case "custom":
		ctx = append(ctx, "https://www.w3.org/2018/credentials/examples/v1")
	case "both":
		ctx = append(ctx, "https://www.w3.org/2018/credentials/examples/v1", terms, lib.M{"zed": "https://ex.org/zed"})
	}
	if v2 {
		for i, x := range ctx {
			if x == "https://www.w3.org/2018/credentials/examples/v1" {
				ctx[i] = "https://www.w3.org/ns/credentials/examples/v2"
			}
		}
	}
	d := lib.M{"@context": ctx}
	if c.Context == "string" {
		d["@context"] = base
	}
	put := func(n string, v interface{}) {
		if v != nil {
			d[n] = v
		}
	}
	put("id", map[string]interface{}{"urn": "urn:uuid:77", "url": "https://alice.example/credentials/7?x=a&y=b"}[c.ID])
	put("type", map[string]interface{}{"two": L{"VerifiableCredential", "ExtraType"}, "one": "VerifiableCredential", "onelist": L{"VerifiableCredential"},
		"three": L{"VerifiableCredential", "Zed", "Alpha"}}[c.Types])
	put("credentialSubject", subject(c))
	put("issuer", map[string]interface{}{"string": issue.Alice, "object": lib.M{"id": issue.Alice, "name": "Alice"}, "idobject": lib.M{"id": issue.Alice}, "emptyname": lib.M{"id": issue.Alice, "name": ""},
		"deepobject": lib.M{"id": issue.Alice, "image": lib.M{"id": "https://alice.example/i.png", "kinds": L{"x"}}}}[c.Issuer])
	if c.Issued != "absent" {
		d[from] = times(c.Issued)
	}
	if c.Expired != "absent" {
		d[until] = times(c.Expired)
	}
	st := func(i int) lib.M {
		return typed(fmt.Sprintf("https://alice.example/status#%d", i), "StatusList2021Entry", lib.M{"statusListIndex": fmt.Sprint(i), "statusPurpose": "revocation"})
	}
	put("credentialStatus", map[string]interface{}{"one": st(1), "two": L{st(1), st(2)}, "onelist": L{st(3)}, "twins": L{st(1), typed("https://alice.example/status#1", "StatusList2021Entry", lib.M{"statusListIndex": "1", "statusPurpose": "suspension"})}}[c.Status])
	sc := func(i int) lib.M {
		return typed(fmt.Sprintf("https://alice.example/schema/%d", i), "JsonSchemaValidator2018", nil)
	}
	put("credentialSchema", map[string]interface{}{"one": sc(1), "two": L{sc(1), sc(2)}, "twins": L{sc(1), typed("https://alice.example/schema/1", "Other", nil), sc(1)}}[c.Schemas])
	ev := typed("https://alice.example/evidence/1", "DocumentVerification", lib.M{"verifier": "https://alice.example/v"})
	put("evidence", map[string]interface{}{"object": ev, "list": L{ev, typed("https://alice.example/evidence/2", "Other", lib.M{"place": L{"x", "y"}})},
		"single": L{ev}, "twins": L{ev, ev, typed("https://alice.example/evidence/1", "Other", nil)},
		"typeless": lib.M{"id": "https://alice.example/evidence/3", "place": "x"}}[c.Evidence])
	te := typed("https://alice.example/terms/1", "IssuerPolicy", lib.M{"profile": "https://alice.example/p", "prohibition": L{lib.M{"action": L{"Archival"}}}})
	put("termsOfUse", map[string]interface{}{"one": te, "two": L{te, typed("https://alice.example/terms/2", "Other", nil)}, "noid": typed("", "IssuerPolicy", lib.M{"profile": "https://alice.example/p"}),
		"twins": L{te, te, typed("https://alice.example/terms/1", "Other", nil)}}[c.Terms])
	put("refreshService", map[string]interface{}{"one": typed("https://alice.example/refresh", "ManualRefreshService2018", lib.M{"how": "post"})}[c.Refresh])
	r1 := lib.M{"id": "https://alice.example/r1", "digestSRI": "sha384-aGVsbG8"}
	r2 := lib.M{"id": "https://alice.example/r2", "digestMultibase": "uEiAabc", "mediaType": "image/png"}
	put("relatedResource", map[string]interface{}{"one": L{r1}, "two": L{r2, r1}, "multibase": L{r2}, "both": L{lib.M{"id": "https://alice.example/r3", "digestSRI": "sha256-aGVsbG8", "digestMultibase": "uEiAabc"}},
		"three": L{r2, r1, lib.M{"id": "https://alice.example/r1", "digestMultibase": "uEiAabd", "mediaType": "text/html"}}}[c.Related])
	for k, v := range custom(c.Custom) {
		d[k] = v
	}
	return lib.ParseJSON(lib.JSON(d)).(lib.M)
}

func custom(kind string) lib.M {
	switch kind {
	case "text":
		return lib.M{"motto": "go on"}
	case "int":
		return lib.M{"motto": 42}
	case "float":
		return lib.M{"motto": -0.125}
	case "bool":
		return lib.M{"motto": false}
	case "null":
		return lib.M{"motto": nil}
	case "object":
		return lib.M{"motto": lib.M{"en": "go", "id": "https://ex.org/motto/1"}, "second": "x"}
	case "list":
		return lib.M{"motto": L{"b", "a"}}
	case "html":
		return lib.M{"motto": "<b>&amp; \"quoted\" \\ \u2028</b>"}
	case "unicode":
		return lib.M{"motto": "Grüße 世界 \U0001F600", "größe": 1}
	case "claimname":
		return lib.M{"iss": "did:example:eve", "sub": "did:example:eve", "exp": 5, "nbf": 6, "jti": "urn:other", "vc": lib.M{"a": 1}}
	case "empties":
		return lib.M{"e": lib.M{}, "l": L{}, "s": ""}
	}
	return nil
}

// made builds the credential from typed contents.
func made(d lib.M, c shape) (*verifiable.Credential, error) {
	var vcc verifiable.CredentialContents
	cp := func(x interface{}) interface{} {
		if x == nil {
			return nil
		}
		return lib.ParseJSON(lib.JSON(x))
	}
	list := func(x interface{}) L {
		switch v := cp(x).(type) {
		case nil:
			return nil
		case L:
			return v
		default:
			return L{v}
		}
	}
	for _, x := range list(d["@context"]) {
		if s, ok := x.(string); ok {
			vcc.Context = append(vcc.Context, s)
		} else {
			vcc.CustomContext = append(vcc.CustomContext, x)
		}
	}
	str := func(x interface{}) string { s, _ := x.(string); return s }
	rest := func(m lib.M, drop ...string) lib.M {
		r := lib.M{}
		for k, v := range m {
			r[k] = v
		}
		for _, k := range drop {
			delete(r, k)
		}
		return r
	}
	ty := func(x interface{}) verifiable.TypedID {
		m := x.(lib.M)
		return verifiable.TypedID{ID: str(m["id"]), Type: str(m["type"]), CustomFields: rest(m, "id", "type")}
	}
	vcc.ID = str(d["id"])
	for _, x := range list(d["type"]) {
		vcc.Types = append(vcc.Types, str(x))
	}
	for _, x := range list(d["credentialSubject"]) {
		m := x.(lib.M)
		vcc.Subject = append(vcc.Subject, verifiable.Subject{ID: str(m["id"]), CustomFields: rest(m, "id")})
	}
	switch x := cp(d["issuer"]).(type) {
	case string:
		vcc.Issuer = &verifiable.Issuer{ID: x}
	case lib.M:
		vcc.Issuer = &verifiable.Issuer{ID: str(x["id"]), CustomFields: rest(x, "id")}
	}
	tm := func(n string) *timeutil.TimeWrapper {
		s := str(d[n])
		if s == "" {
			return nil
		}
		x, err := time.Parse(time.RFC3339, s)
		lib.Must(err, "time")
		return timeutil.NewTime(x)
	}
	from, until := "issuanceDate", "expirationDate"
	if c.Model == "v2" {
		from, until = "validFrom", "validUntil"
	}
	vcc.Issued, vcc.Expired = tm(from), tm(until)
	for _, x := range list(d["credentialStatus"]) {
		y := ty(x)
		vcc.Status = append(vcc.Status, &y)
	}
	for _, x := range list(d["credentialSchema"]) {
		vcc.Schemas = append(vcc.Schemas, ty(x))
	}
	vcc.Evidence = cp(d["evidence"])
	for _, x := range list(d["termsOfUse"]) {
		vcc.TermsOfUse = append(vcc.TermsOfUse, ty(x))
	}
	for _, x := range list(d["refreshService"]) {
		y := ty(x)
		vcc.RefreshService = &y
	}
	for _, x := range list(d["relatedResource"]) {
		m := x.(lib.M)
		vcc.RelatedResources = append(vcc.RelatedResources, verifiable.RelatedResource{Id: str(m["id"]), DigestSRI: str(m["digestSRI"]), DigestMultiBase: str(m["digestMultibase"]), MediaType: str(m["mediaType"])})
	}
	cf := custom(c.Custom)
	switch c.Custom { // the same members as Go types that are not those of decoded JSON
	case "list":
		cf["motto"] = []string{"b", "a"}
	case "object":
		cf["motto"] = map[string]string{"en": "go", "id": "https://ex.org/motto/1"}
	case "int":
		cf["motto"] = int64(42)
	}
	return verifiable.CreateCredential(vcc, cf)
}

// facts is the normal form in which credentials are compared.
func instant(s string, seconds bool) string {
	if s == "" {
		return ""
	}
	x, err := time.Parse(time.RFC3339, s)
	if err != nil {
		return "unreadable " + s
	}
	x = x.UTC()
	if seconds {
		x = x.Truncate(time.Second)
	}
	return x.Format(time.RFC3339Nano)
}

func one(x interface{}) interface{} { // a list of one is the same as its element
	if l, ok := x.(L); ok && len(l) == 1 {
		return l[0]
	}
	return x
}

var dated = map[string]bool{"issuanceDate": true, "expirationDate": true, "validFrom": true, "validUntil": true}

func factsOfJSON(d lib.M, seconds bool) lib.M {
	o := lib.M{}
	for k, v := range lib.ParseJSON(lib.JSON(d)).(lib.M) {
		switch {
		case k == "proof" || k == "_sd_alg":
		case dated[k]:
			s, ok := v.(string)
			if !ok {
				s = "not text"
			}
			o[k] = instant(s, seconds)
		case k == "issuer":
			if m, ok := v.(lib.M); ok && len(m) == 1 && m["id"] != nil {
				v = m["id"]
			}
			o[k] = v
		case k == "credentialSubject":
			if s, ok := v.(string); ok {
				v = lib.M{"id": s}
			}
			o[k] = one(v)
		default:
			o[k] = one(v)
		}
	}
	return o
}

func factsOfContents(vcc verifiable.CredentialContents, v2, seconds bool) lib.M {
	o := lib.M{}
	with := func(id, typ string, cf map[string]interface{}) lib.M {
		m := lib.M{}
		for k, v := range cf {
			m[k] = v
		}
		if id != "" {
			m["id"] = id
		}
		if typ != "" {
			m["type"] = typ
		}
		return m
	}
	put := func(n string, l L) {
		if len(l) > 0 {
			o[n] = one(l)
		}
	}
	var l L
	for _, x := range vcc.Context {
		l = append(l, x)
	}
	put("@context", append(l, vcc.CustomContext...))
	if vcc.ID != "" {
		o["id"] = vcc.ID
	}
	l = nil
	for _, x := range vcc.Types {
		l = append(l, x)
	}
	put("type", l)
	l = nil
	for _, x := range vcc.Subject {
		l = append(l, with(x.ID, "", x.CustomFields))
	}
	put("credentialSubject", l)
	if vcc.Issuer != nil {
		o["issuer"] = vcc.Issuer.ID
		if len(vcc.Issuer.CustomFields) > 0 {
			o["issuer"] = with(vcc.Issuer.ID, "", vcc.Issuer.CustomFields)
		}
	}
	from, until := "issuanceDate", "expirationDate"
	if v2 {
		from, until = "validFrom", "validUntil"
	}
	if vcc.Issued != nil {
		o[from] = instant(vcc.Issued.Time.Format(time.RFC3339Nano), seconds)
	}
	if vcc.Expired != nil {
		o[until] = instant(vcc.Expired.Time.Format(time.RFC3339Nano), seconds)
	}
	l = nil
	for _, x := range vcc.Status {
		l = append(l, with(x.ID, x.Type, x.CustomFields))
	}
	put("credentialStatus", l)
	many := func(n string, ts []verifiable.TypedID) {
		var l L
		for _, x := range ts {
			l = append(l, with(x.ID, x.Type, x.CustomFields))
		}
		put(n, l)
	}
	many("credentialSchema", vcc.Schemas)
	many("termsOfUse", vcc.TermsOfUse)
	if vcc.Evidence != nil {
		o["evidence"] = one(vcc.Evidence)
	}
	if vcc.RefreshService != nil {
		many("refreshService", []verifiable.TypedID{*vcc.RefreshService})
	}
	l = nil
	for _, x := range vcc.RelatedResources {
		l = append(l, x)
	}
	put("relatedResource", l)
	return lib.ParseJSON(lib.JSON(o)).(lib.M)
}

var typedFields = []string{"@context", "id", "type", "credentialSubject", "issuer", "issuanceDate", "expirationDate", "validFrom", "validUntil",
	"credentialStatus", "credentialSchema", "termsOfUse", "evidence", "refreshService", "relatedResource"}

// differ names a member in which the two differ.
func differ(want, got lib.M, keys []string) string {
	if keys == nil {
		seen := map[string]bool{}
		for _, m := range []lib.M{want, got} {
			for k := range m {
				if !seen[k] {
					seen[k] = true
					keys = append(keys, k)
				}
			}
		}
	}
	for _, k := range keys {
		a, aok := want[k]
		b, bok := got[k]
		if aok != bok || !tree.Eq(a, b) {
			return fmt.Sprintf("%s: want %s got %s", k, lib.JSON(a), lib.JSON(b))
		}
	}
	return ""
}

func parseOpts() []verifiable.CredentialOpt {
	return []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(issue.Loader), verifiable.WithProofChecker(chk), verifiable.WithDataIntegrityVerifier(div),
		verifiable.WithNoCustomSchemaCheck(), verifiable.WithDisabledRelatedResourceCheck()}
}

func secure(vc *verifiable.Credential, enc string) (*verifiable.Credential, string, error) {
	switch enc {
	case "ld":
		err := vc.AddLinkedDataProof(&verifiable.LinkedDataProofContext{SignatureType: "Ed25519Signature2018", KeyType: kms.ED25519Type, ProofCreator: mk,
			SignatureRepresentation: verifiable.SignatureProofValue, Created: &issue.Created, VerificationMethod: who.Kid, Purpose: "assertionMethod"}, processor.WithDocumentLoader(issue.Loader))
		return vc, "", err
	case "di":
		err := vc.AddDataIntegrityProof(&verifiable.DataIntegrityProofContext{SigningKeyID: who.Kid, ProofPurpose: "assertionMethod", CryptoSuite: eddsa2022.SuiteType, Created: &issue.Created}, dis)
		return vc, "", err
	case "jwt", "jwtmin":
		o, err := vc.CreateSignedJWTVC(enc == "jwtmin", verifiable.EdDSA, mk, who.Kid)
		return o, "", err
	case "unsec", "unsecmin":
		o, err := vc.CreateUnsecuredJWTVC(enc == "unsecmin")
		return o, "", err
	case "cwt":
		o, err := vc.CreateSignedCOSEVC(cose.AlgorithmEdDSA, mk, who.Kid)
		return o, "", err
	case "sd":
		s, err := vc.MakeSDJWT(ident.Jose{K: who.K()}, who.Kid)
		return nil, s, err
	case "sd5":
		s, err := vc.MakeSDJWT(ident.Jose{K: who.K()}, who.Kid, verifiable.MakeSDJWTWithVersion(common.SDJWTVersionV5))
		return nil, s, err
	}
	return vc, "", nil
}

func shapeMode(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	t.Run()
	doc := document(c)
	v2 := c.Model == "v2"
	fail := func(what, f string, a ...interface{}) {
		t.Failf(what+":"+r.Base+":"+strings.Join(r.Dev, "+"), "specification: %s; code: %s; combination %s document %s", r.Expect, fmt.Sprintf(f, a...), tree.Show(c), lib.JSON(doc))
	}
	var vc *verifiable.Credential
	var err error
	if c.Maker == "contents" {
		vc, err = made(doc, c)
	} else {
		vc, err = verifiable.ParseCredential(lib.JSON(doc), append(parseOpts(), verifiable.WithDisabledProofCheck())...)
	}
	if err != nil {
		fail("make", "cannot make: %v", err)
		return
	}
	compare := func(stage string, vc *verifiable.Credential, seconds bool) bool {
		want := factsOfJSON(doc, seconds)
		if d := differ(want, factsOfJSON(vc.ToRawJSON(), seconds), nil); d != "" {
			fail(stage+"-json", "%s raw: %s", stage, d)
			return false
		}
		if d := differ(want, factsOfContents(vc.Contents(), v2, seconds), typedFields); d != "" {
			fail(stage+"-contents", "%s contents: %s", stage, d)
			return false
		}
		return true
	}
	if !compare("made", vc, false) {
		return
	}
	// the credential's own object is a document that can be parsed
	again, err := verifiable.ParseCredentialJSON(vc.ToRawJSON(), append(parseOpts(), verifiable.WithCredDisableValidation())...)
	if err != nil {
		fail("reparse", "its object cannot be parsed: %v", err)
		return
	}
	if !compare("reparsed", again, false) {
		return
	}
	encode := func(vc *verifiable.Credential, enc, wire string) ([]byte, error) {
		o, tok, err := secure(vc, enc)
		if err != nil {
			return nil, err
		}
		if o != nil && o.IsJWT() && (wire == "bare" || wire == "holder" || wire == "quoted") {
			if tok, err = o.ToJWTString(); err != nil {
				return nil, err
			}
		}
		if o != nil && o.IsCWT() && (wire == "bare" || wire == "hex") {
			if wire == "hex" {
				s, err := o.MarshalAsCWTLDHex()
				return []byte(s), err
			}
			return o.MarshalAsCWTLD()
		}
		switch {
		case wire == "holder":
			return lib.JSON(lib.M{"jwt": tok}), nil
		case wire == "quoted":
			return lib.JSON(tok), nil
		case tok != "":
			return []byte(tok), nil
		}
		return json.Marshal(o)
	}
	parse := func(stage string, data []byte, enc string, seconds bool) *verifiable.Credential {
		opts := parseOpts()
		if enc == "plain" || enc == "unsec" || enc == "unsecmin" {
			opts = append(opts, verifiable.WithDisabledProofCheck())
		}
		p, err := verifiable.ParseCredential(data, opts...)
		if err != nil {
			fail(stage+"-parse", "%s cannot be parsed: %v (%.300q)", stage, err, data)
			return nil
		}
		q := p
		if enc == "sd" || enc == "sd5" {
			q, err = p.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
			if err != nil {
				fail(stage+"-display", "%s display: %v", stage, err)
				return nil
			}
			if enc == "sd5" { // claims of the token are members there
				q = withoutClaims(q)
			}
		}
		if !compare(stage, q, seconds) {
			return nil
		}
		return p
	}
	data, err := encode(vc, c.Enc, c.Wire)
	if err != nil {
		if r.Expect == "refuse" || r.Expect == "unproven" {
			t.Obs(r.Expect)
			return
		}
		fail("encode", "cannot be encoded: %v", err)
		return
	}
	tokens := c.Enc != "plain" && c.Enc != "ld" && c.Enc != "di" && c.Enc != "cwt"
	if r.Expect == "refuse" && c.Enc != "plain" && c.Enc != "ld" && c.Enc != "di" {
		fail("encoded", "encoded: %.200q", data)
		return
	}
	if r.Expect == "unproven" { // nobody can have proven it
		if p, err := verifiable.ParseCredential(data, parseOpts()...); err == nil {
			fail("unproven", "accepted: %s", lib.JSON(p.ToRawJSON()))
			return
		}
		t.Obs(r.Expect)
		return
	}
	p := parse("parsed", data, c.Enc, tokens)
	if p == nil {
		return
	}
	switch c.Again {
	case "no":
	case "same":
		b, err := p.MarshalJSON()
		if err != nil {
			fail("again", "cannot be marshalled: %v", err)
			return
		}
		if parse("again", b, c.Enc, tokens) == nil {
			return
		}
	case "ld":
		b, err := p.MarshalAsJSONLD()
		if err != nil {
			fail("again", "cannot be marshalled: %v", err)
			return
		}
		if parse("asld", b, "plain", tokens) == nil {
			return
		}
	default:
		b, err := encode(p, c.Again, "marshal")
		if err != nil {
			if r.Expect != "refuse" {
				fail("again", "cannot be encoded as %s: %v", c.Again, err)
				return
			}
		} else if r.Expect == "refuse" {
			fail("encoded", "encoded: %.200q", b)
			return
		} else if parse("again", b, c.Again, tokens || c.Again == "jwt") == nil {
			return
		}
	}
	t.Obs(r.Expect)
}

func withoutClaims(vc *verifiable.Credential) *verifiable.Credential {
	return vc
}

func main() {
	setup()
	lib.Main(map[string]func(*lib.T){"shape": shapeMode, "claims": claimsMode}, nil)
}

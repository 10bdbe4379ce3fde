package main

import (
	"fmt"
	"net/http"
	"strings"
	"time"

	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type structRec struct {
	Expect, Base string
	Dev          []string
	C            struct {
		Model, Call, Option, ID, Context, Type, Issuer, Subject, From, Until, Status, Schema, Evidence, Terms, Refresh, Proof, Extra string
	}
}

// absent marks a member that is left out; nil is a null.
type absent struct{}

func pick(kind string, m map[string]interface{}) interface{} {
	if kind == "absent" {
		return absent{}
	}
	v, ok := m[kind]
	if !ok {
		lib.Fatalf("no value %q", kind)
	}
	return v
}

func structured(r structRec) lib.M {
	c := r.C
	v2 := c.Model == "v2"
	base, other, from, until := "https://www.w3.org/2018/credentials/v1", "https://w3id.org/security/suites/ed25519-2020/v1", "issuanceDate", "expirationDate"
	if v2 {
		base, from, until = "https://www.w3.org/ns/credentials/v2", "validFrom", "validUntil"
	}
	terms := lib.M{"@vocab": "https://ex.org/v#"}
	d := lib.M{}
	put := func(n string, v interface{}) {
		if _, no := v.(absent); !no {
			d[n] = v
		}
	}
	put("@context", pick(c.Context, map[string]interface{}{"list": L{base, terms}, "string": base, "empty": L{}, "otherfirst": L{other, base, terms}, "otheronly": L{other, terms},
		"twice": L{base, base, terms}}))
	put("id", pick(c.ID, map[string]interface{}{"urn": "urn:uuid:7", "number": 7, "relative": "credentials/7"}))
	put("type", pick(c.Type, map[string]interface{}{"two": L{"VerifiableCredential", "ExtraType"}, "one": "VerifiableCredential", "onelist": L{"VerifiableCredential"}, "empty": L{},
		"other": "ExtraType", "otherlist": L{"ExtraType"}, "number": 7}))
	put("issuer", pick(c.Issuer, map[string]interface{}{"text": issue.Alice, "object": lib.M{"id": issue.Alice, "name": "Alice"}, "nameless": lib.M{"name": "Alice"}, "number": 7,
		"plainword": "alice"}))
	s := lib.M{"id": "did:example:bob", "claim": "x"}
	put("credentialSubject", pick(c.Subject, map[string]interface{}{"one": s, "two": L{s, lib.M{"id": "did:example:eve"}}, "onelist": L{s}, "text": "did:example:bob",
		"emptyobject": lib.M{}, "emptylist": L{}, "number": 7, "listwithempty": L{s, lib.M{}}, "idnumber": lib.M{"id": 7, "claim": "x"}}))
	times := map[string]interface{}{"time": "2020-01-01T00:00:00Z", "dateonly": "2020-01-01", "word": "yesterday", "number": 1577836800, "offset": "2020-01-01T05:30:00+05:30", "null": nil}
	put(from, pick(c.From, times))
	put(until, pick(c.Until, times))
	st := typed("https://alice.example/status#1", "ExtraStatus")
	put("credentialStatus", pick(c.Status, map[string]interface{}{"one": st, "noid": typed("", "ExtraStatus"), "notype": typed("https://alice.example/status#1", ""),
		"list": L{st, typed("https://alice.example/status#2", "ExtraStatus")}, "text": "https://alice.example/status#1", "null": nil}))
	sc := func(name, typ string) lib.M { return typed("https://schemas.example/"+name, typ) }
	put("credentialSchema", pick(c.Schema, map[string]interface{}{
		"holds": sc("holds", "JsonSchema"), "fails": sc("fails", "JsonSchema"), "both": L{sc("holds", "JsonSchema"), sc("holdstoo", "JsonSchema")},
		"firstfails": L{sc("fails", "JsonSchema"), sc("holds", "JsonSchema")}, "secondfails": L{sc("holds", "JsonSchema"), sc("fails", "JsonSchema")},
		"unknown": sc("fails", "ZkpExampleSchema2018"), "unknownthenfails": L{sc("holds", "ZkpExampleSchema2018"), sc("fails", "JsonSchema")},
		"failsthenunknown": L{sc("fails", "JsonSchema"), sc("holds", "ZkpExampleSchema2018")}, "credentialtype": sc("fails", "JsonSchemaCredential"),
		"missing": sc("missing", "JsonSchema"), "missingsecond": L{sc("holds", "JsonSchema"), sc("missing", "JsonSchema")}, "notjson": sc("notjson", "JsonSchema"),
		"json18holds": sc("holds", "JsonSchemaValidator2018"), "json18fails": sc("fails", "JsonSchemaValidator2018"), "noid": typed("", "JsonSchema"),
		"notype": typed("https://schemas.example/holds", ""), "looserholds": sc("anything", "JsonSchema"), "loosefails": L{sc("anything", "JsonSchema"), sc("nothing", "JsonSchema")}}))
	ev := typed("https://alice.example/evidence/1", "ExtraEvidence")
	idonly := typed("https://alice.example/evidence/2", "")
	put("evidence", pick(c.Evidence, map[string]interface{}{"full": ev, "typeonly": typed("", "ExtraEvidence"), "idonly": idonly, "list": L{ev, typed("https://alice.example/evidence/3", "ExtraEvidence")},
		"text": "https://alice.example/evidence/1", "listidonly": L{ev, idonly}}))
	te := typed("https://alice.example/terms/1", "ExtraTerms")
	put("termsOfUse", pick(c.Terms, map[string]interface{}{"full": te, "noid": typed("", "ExtraTerms"), "notype": typed("https://alice.example/terms/1", ""),
		"list": L{te, typed("https://alice.example/terms/2", "ExtraTerms")}}))
	put("refreshService", pick(c.Refresh, map[string]interface{}{"full": typed("https://alice.example/refresh", "ExtraRefresh"), "noid": typed("", "ExtraRefresh"),
		"notype": typed("https://alice.example/refresh", "")}))
	pf := lib.M{"type": "Ed25519Signature2018", "proofPurpose": "assertionMethod", "verificationMethod": issue.Alice + "#own", "created": "2020-01-01T00:00:00Z", "jws": "a..b"}
	np := lib.M{"proofPurpose": "assertionMethod", "verificationMethod": issue.Alice + "#own", "created": "2020-01-01T00:00:00Z", "jws": "a..b"}
	put("proof", pick(c.Proof, map[string]interface{}{"good": pf, "notype": np, "list": L{pf, pf}, "text": "proof"}))
	if c.Extra == "text" {
		d["motto"] = "go"
	}
	return lib.ParseJSON(lib.JSON(d)).(lib.M)
}

func typed(id, typ string) lib.M {
	m := lib.M{"id": id, "type": typ, "more": "x"}
	if id == "" {
		delete(m, "id")
	}
	if typ == "" {
		delete(m, "type")
	}
	return m
}

// ownSchema is a schema of the caller: the motto is required.
const ownSchema = `{"type":"object","required":["motto"]}`

func structure(t *lib.T) {
	var r structRec
	t.Decode(&r)
	c := r.C
	d := structured(r)
	w := &web{pages: map[string]func() (*http.Response, error){}}
	put := func(n string, body string) { w.pages["https://schemas.example/"+n] = page(200, []byte(body)) }
	put("holds", `{"type":"object","required":["credentialSubject"]}`)
	put("holdstoo", `{"$schema":"http://json-schema.org/draft-07/schema#","type":"object","properties":{"type":{"minLength":1}}}`)
	put("fails", `{"type":"object","required":["nowhere"]}`)
	put("anything", `{}`)
	put("nothing", `{"not":{}}`)
	put("notjson", `<html>`)
	hc := &http.Client{Transport: w}
	opts := []verifiable.CredentialOpt{verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(issue.Loader)}
	b := verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(hc)
	if t.R.Intn(2) == 0 {
		b.SetCache(verifiable.NewExpirableSchemaCache(1<<20, time.Hour))
	}
	opts = append(opts, verifiable.WithCredentialSchemaLoader(b.Build()))
	base := "https://www.w3.org/2018/credentials/v1"
	if c.Model == "v2" {
		base = "https://www.w3.org/ns/credentials/v2"
	}
	switch c.Option {
	case "plain":
	case "noschemas":
		opts = append(opts, verifiable.WithNoCustomSchemaCheck())
	case "own":
		opts = append(opts, verifiable.WithSchema(ownSchema))
	case "ownloader":
		opts = append(opts, verifiable.WithDefaultSchemaLoader(func(*verifiable.CredentialContents) string { return ownSchema }))
	case "disabled":
		opts = append(opts, verifiable.WithCredDisableValidation())
	case "base":
		opts = append(opts, verifiable.WithBaseContextValidation(base))
	case "extended":
		opts = append(opts, verifiable.WithBaseContextExtendedValidation(base, []string{base, "https://w3id.org/security/suites/ed25519-2020/v1"}, []string{"VerifiableCredential", "ExtraType"}))
	case "extendedtight":
		opts = append(opts, verifiable.WithBaseContextExtendedValidation(base, []string{base, "https://w3id.org/security/suites/ed25519-2020/v1"}, []string{"VerifiableCredential"}))
	case "ldonly":
		opts = append(opts, verifiable.WithJSONLDValidation())
	default:
		lib.Fatalf("option %q", c.Option)
	}
	key := r.Base + ":" + strings.Join(r.Dev, "+")
	var err error
	later := func(data []byte) error { // parsed without checks, then validated
		vc, e := verifiable.ParseCredential(data, append(append([]verifiable.CredentialOpt{}, opts...), verifiable.WithCredDisableValidation())...)
		if e != nil {
			return fmt.Errorf("parse: %w", e)
		}
		return vc.ValidateCredential(opts...)
	}
	t.Run()
	switch c.Call {
	case "json":
		_, err = verifiable.ParseCredential(lib.JSON(d), opts...)
	case "object":
		_, err = verifiable.ParseCredentialJSON(d, opts...)
	case "unsecured":
		_, err = verifiable.ParseCredential([]byte(issue.Unsecured(lib.M{"vc": d})), opts...)
	case "cwt":
		_, err = verifiable.ParseCredential([]byte(issue.Hex(issue.CWT(lib.M{"vc": d}, who))), opts...)
	case "envelopedcwt":
		env := lib.M{"@context": "https://www.w3.org/ns/credentials/v2", "type": "EnvelopedVerifiableCredential",
			"id": "data:application/vc-ld+cose;base64," + issue.Hex(issue.CWT(lib.M{"vc": d}, who))}
		_, err = verifiable.ParseCredential(lib.JSON(env), opts...)
	case "jwt":
		_, err = verifiable.ParseCredential([]byte(issue.JWT(lib.M{"vc": d}, who)), opts...)
	case "validatejwt":
		err = later([]byte(issue.JWT(lib.M{"vc": d}, who)))
	case "validatecwt":
		err = later([]byte(issue.Hex(issue.CWT(lib.M{"vc": d}, who))))
	case "validatejson":
		err = later(lib.JSON(d))
	case "created":
		err = created(t, d, c.Model == "v2", opts)
	default:
		lib.Fatalf("call %q", c.Call)
	}
	judge(t, key, r.Expect, err, c)
}

// created makes the credential from contents with the library and validates it.
func created(t *lib.T, d lib.M, v2 bool, opts []verifiable.CredentialOpt) error {
	vc, err := verifiable.ParseCredentialJSON(d, verifiable.WithCredDisableValidation())
	if err != nil {
		return fmt.Errorf("parse: %w", err)
	}
	cf := verifiable.CustomFields{}
	if m := vc.CustomField("motto"); m != nil {
		cf["motto"] = m
	}
	vc2, err := verifiable.CreateCredential(vc.Contents(), cf)
	if err != nil {
		return fmt.Errorf("create: %w", err)
	}
	return vc2.ValidateCredential(opts...)
}

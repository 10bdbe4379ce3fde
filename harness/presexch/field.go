package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type fieldCombo struct {
	Kind, A, Path, Kw, Type, Optional, Second, Issub, Subject, Predicate string
}

type fieldRec struct {
	Expect, Base string
	Dev          []string
	C            fieldCombo
}

var fieldValues = map[string]string{"red": `"red"`, "blue": `"blue"`, "empty": `""`, "reddish": `"reddish"`, "2020-06-01T00:00:00Z": `"2020-06-01T00:00:00Z"`, "7text": `"7text"`,
	"7": "7", "7.5": "7.5", "-1": "-1", "0": "0", "8": "8", "list": `["red","blue"]`, "listone": `["red"]`, "listempty": "[]", "listnum": "[1,7]",
	"true": "true", "false": "false", "null": "null", "obj": `{"k":"v"}`}

var fieldPaths = map[string][]string{"dot": {"$.credentialSubject.a"}, "bracket": {"$.credentialSubject['a']"}, "nested": {"$.credentialSubject.n.a"}, "index": {"$.credentialSubject.l[0]"},
	"wrongfirst": {"$.credentialSubject.zz", "$.credentialSubject.a"}, "bfirst": {"$.credentialSubject.b", "$.credentialSubject.a"}, "blast": {"$.credentialSubject.a", "$.credentialSubject.b"},
	"absentfirst": {"$.zz", "$.yy[3]", "$.credentialSubject.a"}, "missing": {"$.credentialSubject.zz"}, "syntax": {"$.credentialSubject[?("}, "vc": {"$.vc.credentialSubject.a"},
	"deep": {"$.credentialSubject.o.p.a"}, "issuer": {"$.issuer"}, "issued": {"$.issuanceDate"}, "wrongcase": {"$.CredentialSubject.a"}, "hyphen": {"$.credentialSubject.hy-phen"},
	"many": {"$.zz", "$.credentialSubject.zz.a", "$.credentialSubject.b.a", "$.credentialSubject.o.p.a"}}

var fieldFilters = map[string]string{"bare": `{}`, "constred": `{"const":"red"}`, "const7": `{"const":7}`, "constempty": `{"const":""}`, "const0": `{"const":0}`, "enum": `{"enum":["red",7]}`,
	"pattern": `{"pattern":"^red$"}`, "patternpart": `{"pattern":"ed"}`, "minlen": `{"minLength":4}`, "maxlen": `{"maxLength":3}`, "min7": `{"minimum":7}`, "exmin7": `{"exclusiveMinimum":7}`,
	"max7": `{"maximum":7}`, "exmax7": `{"exclusiveMaximum":7}`, "range": `{"minimum":0,"maximum":7.5}`, "min0": `{"minimum":0}`, "max0": `{"maximum":0}`,
	"notred": `{"not":{"const":"red"}}`, "nottype": `{"not":{"type":"string"}}`, "contains": `{"contains":{"const":"red"}}`, "format": `{"format":"date-time"}`,
	"allof":     `{"allOf":[{"type":"number","minimum":0},{"type":"number","maximum":7.5}]}`,
	"allofbad":  `{"allOf":[{"type":"number"},{"type":"string"}]}`,
	"allofbare": `{"allOf":[{"minimum":0},{"maximum":7.5}]}`, "allofconst": `{"const":"red","allOf":[{"minLength":1}]}`,
	"allofmin": `{"minimum":7,"allOf":[{"minimum":0},{"maximum":7.5}]}`, "two": `{"minLength":4,"pattern":"red"}`,
	"required": `{"required":["zz"]}`, "items": `{"items":{"type":"string"}}`, "anyof": `{"anyOf":[{"const":"red"},{"const":7}]}`, "minitems": `{"minItems":2}`, "maxlen0": `{"maxLength":0}`}

func fieldDefinition(c fieldCombo) *presexch.PresentationDefinition {
	f := lib.M{"path": fieldPaths[c.Path]}
	if c.Kw != "none" {
		filter := lib.ParseJSON([]byte(fieldFilters[c.Kw])).(lib.M)
		if c.Type != "absent" {
			filter["type"] = c.Type
		}
		f["filter"] = filter
	}
	if c.Optional == "yes" {
		f["optional"] = true
	}
	if c.Predicate != "none" {
		f["predicate"] = c.Predicate
	}
	b := func(want string, path string, optional bool) lib.M {
		return lib.M{"path": []string{path}, "optional": optional, "filter": lib.M{"type": "string", "const": want}}
	}
	fields := []interface{}{f}
	switch c.Second {
	case "ok":
		fields = append(fields, b("blue", "$.credentialSubject.b", false))
	case "first":
		fields = append([]interface{}{b("blue", "$.credentialSubject.b", false)}, f)
	case "fails":
		fields = append(fields, b("red", "$.credentialSubject.b", false))
	case "missing":
		fields = append(fields, b("red", "$.credentialSubject.zz", false))
	case "optional":
		fields = append(fields, b("red", "$.credentialSubject.zz", true))
	}
	con := lib.M{"fields": fields}
	if c.Issub != "none" {
		con["subject_is_issuer"] = c.Issub
	}
	pd := &presexch.PresentationDefinition{}
	lib.Must(unmarshal(lib.JSON(lib.M{"id": "definition", "input_descriptors": []interface{}{lib.M{"id": "d1", "constraints": con}}}), pd), "definition")
	return pd
}

func fieldCredential(c fieldCombo) []byte {
	claims := lib.M{"b": "blue"}
	if c.A != "absent" {
		v := lib.ParseJSON([]byte(fieldValues[c.A]))
		claims["a"] = v
		if c.Kind != "ld" { // proofs would need a term for them
			claims["hy-phen"] = v
			claims["n"] = lib.M{"a": v}
		}
		claims["l"] = []interface{}{v, "more"}
		claims["o"] = lib.M{"p": lib.M{"a": v}}
	}
	switch c.Subject {
	case "issuer":
		claims["id"] = issue.Alice
	case "longer":
		claims["id"] = issue.Alice + ":child"
	case "shorter":
		claims["id"] = issue.Alice[:len(issue.Alice)-1]
	case "upper":
		claims["id"] = strings.ToUpper(issue.Alice)
	case "none":
		claims["id"] = nil
	}
	kind := c.Kind
	if kind == "sdhidden" {
		kind = "sdjwt"
	}
	b := text(kind, "c1", "urn:c1", "v1", true, claims, "a", "n", "l", "o", "hy-phen")
	if c.Kind == "sdhidden" {
		b = []byte(strings.Split(string(b), "~")[0] + "~")
	}
	return b
}

func fieldMode(t *lib.T) {
	var r fieldRec
	t.Decode(&r)
	t.Obs(r.Expect)
	c := r.C
	pd := fieldDefinition(c)
	data := fieldCredential(c)
	cred := read(c.Kind, data)
	ws := []*verifiable.Credential{cred}
	before := snapshot(ws)
	prefix := ""
	switch c.Kw {
	case "required", "items", "anyof", "minitems", "maxlen0":
		prefix = "unknown-keyword-" + c.Kw + "-"
	}
	check := func(who string, ok bool, err error) {
		if ok && r.Expect == "none" {
			t.Failf(prefix+who+"-accepts", "the credential does not answer the descriptor")
		}
		if !ok && r.Expect == "match" {
			t.Failf(prefix+who+"-refuses", "the credential answers the descriptor: %v", err)
		}
	}
	t.Run()
	reqs, err := pd.MatchSubmissionRequirement(ws, issue.Loader, presexch.WithSDCredentialOptions(credOpts...))
	n := 0
	if err == nil {
		for _, q := range reqs {
			for _, d := range q.Descriptors {
				n += len(d.MatchedVCs)
			}
		}
	}
	check("requirement", n == 1, err)
	vp, err := pd.CreateVP(ws, issue.Loader, presexch.WithSDCredentialOptions(credOpts...))
	check("create", err == nil, err)
	if err != nil && c.Path != "syntax" && !errors.Is(err, presexch.ErrNoCredentials) {
		t.Failf(prefix+"create-error", "%v", err)
	}
	if err == nil {
		list := vp.Credentials()
		if len(list) != 1 || marker(lib.ParseJSON(lib.JSON(list[0].ToRawJSON()))) != "c1" {
			t.Failf(prefix+"created", "%d credentials", len(list))
		}
	}
	if after := snapshot(ws); after != before {
		t.Failf(prefix+"wallet-changed", "before %s after %s", before, after)
	}
	if c.Predicate == "required" {
		return // what is presented is derived
	}
	var embed interface{} = string(data)
	if data[0] == '{' {
		embed = lib.ParseJSON(data)
	}
	name := map[string]string{"plain": "ldp_vc", "ld": "ldp_vc", "cwt": "cwt_vc"}[c.Kind]
	if name == "" {
		name = "jwt_vc"
	}
	doc := lib.M{"@context": []interface{}{"https://www.w3.org/2018/credentials/v1", "https://identity.foundation/presentation-exchange/submission/v1"},
		"type": []interface{}{"VerifiablePresentation", "PresentationSubmission"}, "id": "urn:vp", "holder": issue.Hanna, "verifiableCredential": []interface{}{embed},
		"presentation_submission": lib.M{"id": "s", "definition_id": "definition", "descriptor_map": []interface{}{lib.M{"id": "d1", "format": name, "path": "$.verifiableCredential[0]"}}}}
	parsed, err := verifiable.ParsePresentation(lib.JSON(doc), verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(issue.Loader))
	if err != nil {
		lib.Fatalf("presentation %s: %v", lib.JSON(doc), err)
	}
	co := credOpts
	if c.Kind == "plain" {
		co = append([]verifiable.CredentialOpt{verifiable.WithDisabledProofCheck()}, co...)
	}
	ms, err := pd.Match([]*verifiable.Presentation{parsed}, issue.Loader, presexch.WithCredentialOptions(co...), presexch.WithDisableSchemaValidation())
	check("match", err == nil, err)
	if err == nil && (len(ms) != 1 || ms[0].DescriptorID != "d1") {
		t.Failf(prefix+"matched", "%s", fmt.Sprint(ms))
	}
}

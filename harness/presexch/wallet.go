package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type walletCombo struct {
	K1, S1, K2, S2, K3, S3, IDs, Deff, Descf, Con, Schema, T1, Rule, Model, DIDs, API, VPF string
}

type walletRec struct {
	Expect, Base string
	Solutions    [][]string
	A1, A2       []int
	Dev          []string
	C            walletCombo
}

const (
	credIRI   = "https://www.w3.org/2018/credentials#VerifiableCredential"
	degreeIRI = "https://example.org/examples#UniversityDegreeCredential"
)

var (
	mu   sync.Mutex
	memo = map[string]interface{}{}
)

func once(key string, f func() interface{}) interface{} {
	mu.Lock()
	defer mu.Unlock()
	if v, ok := memo[key]; ok {
		return v
	}
	v := f()
	memo[key] = v
	return v
}

// text of a credential of a kind: a document or a token.
func text(kind, me, id, model string, degree bool, claims lib.M, conceal ...string) []byte {
	return once(fmt.Sprint(kind, "|", me, "|", id, "|", model, "|", degree, "|", claims, "|", conceal), func() interface{} {
		who := issue.As("EdDSA", "own")
		sub := lib.M{"id": issue.Hanna, "me": me}
		for k, v := range claims {
			sub[k] = v
		}
		if sub["id"] == nil {
			delete(sub, "id")
		}
		vocab := lib.M{"@vocab": "https://ex.org/"}
		types := []interface{}{"VerifiableCredential"}
		doc := lib.M{"issuer": issue.Alice, "credentialSubject": sub}
		if model == "v2" {
			doc["@context"] = []interface{}{"https://www.w3.org/ns/credentials/v2", vocab}
			if kind == "ld" {
				doc["@context"] = []interface{}{"https://www.w3.org/ns/credentials/v2", "https://w3id.org/security/suites/ed25519-2018/v1", vocab}
			}
			doc["validFrom"] = "2020-01-01T00:00:00Z"
		} else {
			doc["@context"] = []interface{}{"https://www.w3.org/2018/credentials/v1", "https://www.w3.org/2018/credentials/examples/v1", vocab}
			doc["issuanceDate"] = "2020-01-01T00:00:00Z"
			if degree {
				types = append(types, "UniversityDegreeCredential")
			}
		}
		doc["type"] = types
		if id != "" {
			doc["id"] = id
		}
		payload := lib.M{"iss": issue.Alice, "sub": issue.Hanna, "nbf": 1577836800, "vc": doc}
		if id != "" {
			payload["jti"] = id
		}
		switch kind {
		case "ld":
			doc = issue.LD(doc, who)
		case "jwt":
			return []byte(issue.JWT(payload, who))
		case "sdjwt":
			ds := issue.Conceal(sub, me, conceal...)
			doc["_sd_alg"] = "sha-256"
			return []byte(issue.Combined(issue.JWT(payload, who), ds))
		case "cwt":
			return []byte(issue.Hex(issue.CWT(lib.M{"vc": doc}, who)))
		}
		return lib.JSON(doc)
	}).([]byte)
}

var credOpts = []verifiable.CredentialOpt{verifiable.WithProofChecker(issue.Checker("EdDSA")), verifiable.WithJSONLDDocumentLoader(issue.Loader)}

// read a credential into the wallet; plain credentials are not signed.
func read(kind string, b []byte) *verifiable.Credential {
	opts := credOpts
	if kind == "plain" {
		opts = append([]verifiable.CredentialOpt{verifiable.WithDisabledProofCheck()}, opts...)
	}
	c, err := verifiable.ParseCredential(b, opts...)
	lib.Must(err, "credential "+string(b))
	return c
}

func format(name string) *presexch.Format {
	ldp := &presexch.LdpType{ProofType: []string{"Ed25519Signature2018"}}
	eddsa := &presexch.JwtType{Alg: []string{"EdDSA"}}
	switch name {
	case "ldp_vc":
		return &presexch.Format{LdpVC: ldp}
	case "jwt_vc":
		return &presexch.Format{JwtVC: eddsa}
	case "both":
		return &presexch.Format{LdpVC: ldp, JwtVC: eddsa}
	case "ldp":
		return &presexch.Format{Ldp: ldp}
	case "jwt":
		return &presexch.Format{Jwt: eddsa}
	case "ldp_vp":
		return &presexch.Format{LdpVP: ldp}
	case "jwt_vp":
		return &presexch.Format{JwtVP: eddsa}
	case "ldpjwt":
		return &presexch.Format{Ldp: ldp, Jwt: eddsa}
	case "manyalg":
		return &presexch.Format{JwtVC: &presexch.JwtType{Alg: []string{"ES256", "EdDSA"}}}
	case "otheralg":
		return &presexch.Format{JwtVC: &presexch.JwtType{Alg: otherAlgs}}
	case "otherproof":
		return &presexch.Format{LdpVC: &presexch.LdpType{ProofType: otherProofs}}
	case "cwt_vc":
		return &presexch.Format{CwtVC: &presexch.CwtType{Alg: []string{"EdDSA"}}}
	}
	return nil
}

func field(path string) *presexch.Field {
	return &presexch.Field{Path: []string{path}, Filter: &presexch.Filter{FilterItem: presexch.FilterItem{Type: str("string"), Const: "yes"}}}
}

func walletDefinition(c walletCombo) *presexch.PresentationDefinition {
	d1 := &presexch.InputDescriptor{ID: "d1", Format: format(c.Descf), Constraints: &presexch.Constraints{Fields: []*presexch.Field{field("$.credentialSubject.d1")}}}
	d2 := &presexch.InputDescriptor{ID: "d2", Constraints: &presexch.Constraints{Fields: []*presexch.Field{field("$.credentialSubject.d2")}}}
	preferred := presexch.Preferred
	switch c.Con {
	case "nil":
		d1.Constraints = nil
	case "nofields":
		d1.Constraints = &presexch.Constraints{SubjectIsIssuer: &preferred}
	}
	other := "https://ex.org/OtherCredential"
	s := func(ss ...*presexch.Schema) []*presexch.Schema { return ss }
	switch c.Schema {
	case "type":
		d1.Schema = s(&presexch.Schema{URI: degreeIRI})
	case "other":
		d1.Schema = s(&presexch.Schema{URI: other})
	case "two":
		d1.Schema = s(&presexch.Schema{URI: other}, &presexch.Schema{URI: credIRI})
	case "required":
		d1.Schema = s(&presexch.Schema{URI: credIRI}, &presexch.Schema{URI: degreeIRI, Required: true}, &presexch.Schema{URI: other})
	case "requiredother":
		d1.Schema = s(&presexch.Schema{URI: credIRI}, &presexch.Schema{URI: other, Required: true}, &presexch.Schema{URI: degreeIRI})
	}
	if c.Schema != "none" {
		d2.Schema = s(&presexch.Schema{URI: credIRI})
	}
	pd := &presexch.PresentationDefinition{ID: "definition", Format: format(c.Deff), InputDescriptors: []*presexch.InputDescriptor{d1, d2}}
	if c.Rule != "none" {
		d1.Group, d2.Group = []string{"A"}, []string{"A"}
		r := &presexch.SubmissionRequirement{Rule: presexch.All, From: "A"}
		if c.Rule == "pick" {
			r = &presexch.SubmissionRequirement{Rule: presexch.Pick, Count: 1, From: "A"}
		}
		pd.SubmissionRequirements = []*presexch.SubmissionRequirement{r}
	}
	if c.DIDs == "same" {
		d2.ID = "d1"
	}
	return pd
}

func walletOf(c walletCombo) []*verifiable.Credential {
	var ws []*verifiable.Credential
	for i, x := range []struct{ k, s string }{{c.K1, c.S1}, {c.K2, c.S2}, {c.K3, c.S3}} {
		if x.k == "none" {
			continue
		}
		me := fmt.Sprintf("c%d", i+1)
		claims := lib.M{"d1": "no", "d2": "no"}
		if x.s == "both" || x.s == "d1" {
			claims["d1"] = "yes"
		}
		if x.s == "both" || x.s == "d2" {
			claims["d2"] = "yes"
		}
		id := "urn:" + me
		if c.IDs == "absent" {
			id = ""
		} else if c.IDs == "same" && i == 1 {
			id = "urn:c1"
		}
		model := c.Model
		if model == "mixed" {
			model = map[bool]string{true: "v2", false: "v1"}[i == 0]
		}
		b := text(x.k, me, id, model, !(i == 0 && c.T1 == "bare"), claims, "d1")
		ws = append(ws, read(x.k, b))
		if c.IDs == "twice" && i == 0 {
			ws = append(ws, ws[0])
		}
	}
	return ws
}

// who tells which credential an embedded one is.
func who(v interface{}) string {
	if s, ok := v.(string); ok {
		b := []byte(s)
		if strings.Count(s, ".") == 2 {
			_, p, err := ident.ParseJWT(strings.Split(s, "~")[0])
			if err != nil {
				return "?" + s
			}
			return marker(p["vc"])
		}
		c, err := verifiable.ParseCredential(b, verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(issue.Loader))
		if err != nil {
			return "?" + err.Error()
		}
		return marker(lib.ParseJSON(lib.JSON(c.ToRawJSON())))
	}
	if m, ok := v.(lib.M); ok {
		if id, _ := m["id"].(string); strings.HasPrefix(id, "data:") { // enveloped
			_, data, _ := strings.Cut(strings.TrimPrefix(id, "data:"), ",")
			return who(data)
		}
	}
	return marker(v)
}

func token(v interface{}) string {
	if m, ok := v.(lib.M); ok {
		if id, _ := m["id"].(string); strings.HasPrefix(id, "data:") {
			_, v, _ = strings.Cut(id, ",")
		}
	}
	s, _ := v.(string)
	return s
}

func embeddedIn(doc lib.M) []interface{} {
	switch x := doc["verifiableCredential"].(type) {
	case []interface{}:
		return x
	case nil:
		return nil
	default:
		return []interface{}{x}
	}
}

func createOpts(c walletCombo) []presexch.MatchRequirementsOpt {
	opts := []presexch.MatchRequirementsOpt{presexch.WithSDCredentialOptions(credOpts...)}
	if c.VPF == "jwt_vp" {
		opts = append(opts, presexch.WithDefaultPresentationFormat(presexch.FormatJWTVP))
	}
	return opts
}

func (r *walletRec) answers(d, me string) bool {
	l := r.A1
	if d == "d2" {
		l = r.A2
	} else if d != "d1" {
		return false
	}
	for _, i := range l {
		if me == fmt.Sprintf("c%d", i) {
			return true
		}
	}
	return false
}

// prefix of failure keys: a class of inputs that is known to be mishandled keeps its own key.
func (r *walletRec) prefix() string {
	switch {
	case r.C.IDs == "same":
		return "same-id-"
	}
	return ""
}

func walletCreate(t *lib.T) {
	var r walletRec
	t.Decode(&r)
	t.Obs(r.Expect)
	t.Run()
	pd, ws := walletDefinition(r.C), walletOf(r.C)
	before := snapshot(ws)
	var root interface{}
	var docs []interface{}
	var sub *presexch.PresentationSubmission
	var err error
	if r.C.API == "vp" {
		var vp *verifiable.Presentation
		if vp, err = pd.CreateVP(ws, issue.Loader, createOpts(r.C)...); err == nil {
			root = raw(vp)
			docs = []interface{}{root}
			sub, _ = vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
		}
	} else {
		var vps []*verifiable.Presentation
		vps, sub, err = pd.CreateVPArray(ws, issue.Loader, createOpts(r.C)...)
		for _, vp := range vps {
			docs = append(docs, raw(vp))
		}
		root = docs
	}
	p := r.prefix()
	if after := snapshot(ws); after != before {
		t.Failf(p+"wallet-changed", "before %s after %s", before, after)
	}
	switch {
	case r.Expect == "ok" && err != nil:
		t.Failf(p+"refused", "the wallet can satisfy the definition: %v", err)
		return
	case r.Expect == "reject" && err == nil:
		t.Failf(p+"accepted", "the wallet cannot satisfy the definition, submission %s", lib.JSON(sub))
		return
	case err != nil:
		return
	}
	if sub == nil || sub.DefinitionID != "definition" || sub.ID == "" {
		t.Failf(p+"submission", "submission %s", lib.JSON(sub))
		return
	}
	answered, used := map[string]bool{}, map[string]bool{}
	for _, e := range sub.DescriptorMap {
		v, err := embedded(root, e)
		if err != nil { // paths of JWT presentations start at the claims
			v, err = embedded(claims(root), e)
		}
		if err != nil {
			t.Failf(p+"path", "entry %s: %v", lib.JSON(e), err)
			continue
		}
		me := who(v)
		if !r.answers(e.ID, me) {
			t.Failf(p+"wrong-credential", "%s answered by %q", e.ID, me)
		}
		answered[e.ID], used[me] = true, true
		last := e
		for last.PathNested != nil {
			last = last.PathNested
		}
		if s := token(v); (strings.Count(s, ".") == 2) != strings.HasPrefix(last.Format, "jwt") {
			t.Failf(p+"entry-format", "entry %s for %v", lib.JSON(e), v)
		}
	}
	solution(t, p, r.Solutions, answered)
	for _, d := range docs {
		for _, v := range embeddedIn(d.(lib.M)) {
			if !used[who(v)] {
				t.Failf(p+"unused-credential", "%q is embedded and answers nothing", who(v))
			}
		}
	}
}

// claims of JWT presentations.
func claims(root interface{}) interface{} {
	if l, ok := root.([]interface{}); ok {
		var out []interface{}
		for _, v := range l {
			out = append(out, lib.M{"vp": v})
		}
		return out
	}
	return lib.M{"vp": root}
}

func solution(t *lib.T, p string, solutions [][]string, answered map[string]bool) {
	got := []string{}
	for d := range answered {
		got = append(got, d)
	}
	sort.Strings(got)
	for _, s := range solutions {
		sort.Strings(s)
		if fmt.Sprint(s) == fmt.Sprint(got) {
			return
		}
	}
	t.Failf(p+"not-a-solution", "answered %v, solutions %v", got, solutions)
}

// snapshot of everything a wallet shows of its credentials.
func snapshot(ws []*verifiable.Credential) string {
	var out []string
	for _, c := range ws {
		b, err := c.MarshalJSON()
		out = append(out, string(b), fmt.Sprint(err), string(lib.JSON(c.ToRawJSON())), string(lib.JSON(c.SDJWTDisclosures())), fmt.Sprintf("%+v", c.Contents().Subject))
	}
	return strings.Join(out, "\n")
}

func unmarshal(b []byte, v interface{}) error { return json.Unmarshal(b, v) }

// transported presentation: written, signed if it is to be a JWT, and read again.
func transported(c walletCombo, vp *verifiable.Presentation, sub *presexch.PresentationSubmission) *verifiable.Presentation {
	jwt := c.VPF == "jwt_vp"
	for _, e := range sub.DescriptorMap {
		jwt = jwt || e.Format == presexch.FormatJWTVP
	}
	doc := raw(vp)
	data := lib.JSON(doc)
	if jwt {
		data = []byte(issue.JWT(lib.M{"iss": issue.Hanna, "vp": doc}, issue.As("EdDSA", "hanna")))
	}
	out, err := verifiable.ParsePresentation(data, verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(issue.Loader))
	if err != nil {
		lib.Fatalf("presentation %s: %v", data, err)
	}
	return out
}

func walletMatch(t *lib.T) {
	var r walletRec
	t.Decode(&r)
	if r.Expect != "ok" {
		t.Run()
		return
	}
	t.Obs(r.Expect)
	pd, ws := walletDefinition(r.C), walletOf(r.C)
	var vps []*verifiable.Presentation
	var opts []presexch.MatchOption
	if r.C.API == "vp" {
		vp, err := pd.CreateVP(ws, issue.Loader, createOpts(r.C)...)
		if err != nil {
			return // P11
		}
		sub, _ := vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
		vps = append(vps, transported(r.C, vp, sub))
	} else {
		made, sub, err := pd.CreateVPArray(ws, issue.Loader, createOpts(r.C)...)
		if err != nil {
			return
		}
		for _, vp := range made {
			vps = append(vps, transported(r.C, vp, sub))
		}
		opts = append(opts, presexch.WithMergedSubmission(sub))
		if t.R.Intn(2) == 0 {
			opts[0] = presexch.WithMergedSubmissionMap(lib.ParseJSON(lib.JSON(sub)).(lib.M))
		}
	}
	if r.C.Schema == "none" {
		opts = append(opts, presexch.WithDisableSchemaValidation())
	}
	co := append([]verifiable.CredentialOpt{}, credOpts...)
	if r.C.K1 == "plain" || r.C.K2 == "plain" || r.C.K3 == "plain" {
		co = append(co, verifiable.WithDisabledProofCheck())
	}
	t.Run()
	ms, err := pd.Match(vps, issue.Loader, append(opts, presexch.WithCredentialOptions(co...))...)
	if err != nil {
		t.Failf("own-presentation-rejected", "%v", err)
		return
	}
	answered := map[string]bool{}
	for _, m := range ms {
		me := marker(lib.ParseJSON(lib.JSON(m.Credential.ToRawJSON())))
		if !r.answers(m.DescriptorID, me) {
			t.Failf("own-presentation-credential", "%s answered by %q", m.DescriptorID, me)
		}
		answered[m.DescriptorID] = true
	}
	solution(t, "own-presentation-", r.Solutions, answered)
}

// Names that resemble the ones the wallet's credentials have.
var otherAlgs = []string{"ES256", "EdDSA2", "Ed", "dDSA", "", "none", "EdDSA ", "E*"}
var otherProofs = []string{"BbsBlsSignature2020", "Ed25519Signature20180", "Ed25519Signature201", "Ed25519Signature", "25519Signature2018", "", "*", "Ed25519Signature2018 "}

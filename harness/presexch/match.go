package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/piprate/json-gold/ld"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type matchCombo struct {
	Enc, Kind, Layout, Sub, Map, Id1, To1, Form1, Id2, To2, Extra, Rule, Defid, Ctx, State, Format, Schema, Loader, Names string
}

type entry struct {
	ID, To string
	VP     int
}

type matchRec struct {
	Expect, Base string
	Entries      []entry
	Dev          []string
	C            matchCombo
}

func claimsOf(n int) lib.M {
	c := lib.M{"d1": "no", "d2": "no", "x": "y"}
	if n < 3 {
		c[fmt.Sprintf("d%d", n)] = "yes"
	}
	return c
}

// item is credential n as it is embedded.
func item(c matchCombo, n int) interface{} {
	me := fmt.Sprintf("c%d", n)
	var b []byte
	state := c.State
	if n != 1 {
		state = "good"
	}
	switch state {
	case "good", "hidden":
		b = text(c.Kind, me, "urn:"+me, "v1", true, claimsOf(n), "d1")
		if state == "hidden" {
			b = []byte(strings.Split(string(b), "~")[0] + "~")
		}
	default:
		b = bad(c.Kind, state)
	}
	if b[0] == '{' {
		return lib.ParseJSON(b)
	}
	return string(b)
}

// bad variants of c1.
func bad(kind, state string) []byte {
	return once("bad "+kind+" "+state, func() interface{} {
		good := func() []byte { // once holds the lock
			mu.Unlock()
			defer mu.Lock()
			return text(kind, "c1", "urn:c1", "v1", true, claimsOf(1), "d1")
		}()
		forge := func(doc lib.M) []byte {
			delete(doc, "proof")
			return lib.JSON(issue.LD(doc, issue.As("EdDSA", "forged")))
		}
		switch kind {
		case "ld":
			doc := lib.ParseJSON(good).(lib.M)
			switch state {
			case "tampered":
				doc["credentialSubject"].(lib.M)["x"] = "z"
			case "unsigned":
				delete(doc, "proof")
			case "forged":
				return forge(doc)
			}
			return lib.JSON(doc)
		case "jwt", "sdjwt":
			jwt, rest, _ := strings.Cut(string(good), "~")
			x := strings.Split(jwt, ".")
			_, p, err := ident.ParseJWT(jwt)
			lib.Must(err, "token")
			switch state {
			case "tampered":
				p["vc"].(lib.M)["credentialSubject"].(lib.M)["x"] = "z"
				jwt = x[0] + "." + ident.B64(lib.JSON(p)) + "." + x[2]
			case "unsigned":
				jwt = issue.Unsecured(p)
			case "forged":
				jwt = issue.JWT(p, issue.As("EdDSA", "forged"))
			}
			if kind == "sdjwt" {
				jwt += "~" + rest
			}
			return []byte(jwt)
		case "cwt":
			switch state {
			case "tampered":
				return []byte(strings.Replace(string(good), issue.Hex([]byte("urn:c1")), issue.Hex([]byte("urn:cx")), 1))
			case "unsigned":
				return good[:len(good)-128]
			case "forged":
				doc := lib.ParseJSON(func() []byte {
					mu.Unlock()
					defer mu.Lock()
					return text("plain", "c1", "urn:c1", "v1", true, claimsOf(1))
				}()).(lib.M)
				return []byte(issue.Hex(issue.CWT(lib.M{"vc": doc}, issue.As("EdDSA", "forged"))))
			}
		}
		lib.Fatalf("bad %s %s", kind, state)
		return nil
	}).([]byte)
}

// place of a credential: presentation and index.
func place(layout, to string) (int, string) {
	switch to {
	case "out":
		return 0, "7"
	case "negative":
		return 0, "-1"
	case "all":
		return 0, "*"
	case "slice":
		return 0, "0:1"
	}
	if layout == "two" {
		return map[string]int{"c1": 0, "c2": 1, "c3": 0}[to], map[string]string{"c1": "0", "c2": "0", "c3": "1"}[to]
	}
	return 0, map[string]string{"c1": "0", "c2": "1", "c3": "2"}[to]
}

// mapping of an entry, as JSON.
func mapping(c matchCombo, e entry, form, to string) interface{} {
	if to == "null" {
		return nil
	}
	merged := strings.HasPrefix(c.Sub, "merged")
	p, idx := place(c.Layout, to)
	if c.Layout == "two" && !merged {
		if p != e.VP-1 && strings.HasPrefix(to, "c") {
			idx = "7"
		}
		p = e.VP - 1
	}
	root := "$"
	if merged && c.Layout == "two" {
		root = fmt.Sprintf("$[%d]", p)
		if to == "outvp" {
			root = "$[7]"
		}
	}
	vp := ""
	if c.Enc != "ld" && form != "legacy" {
		vp = ".vp"
	}
	tail := vp + ".verifiableCredential[" + idx + "]"
	if form == "bracket" {
		tail = strings.Replace(vp, ".vp", `["vp"]`, 1) + `["verifiableCredential"][` + idx + "]"
	}
	switch to {
	case "self":
		tail = vp
	case "type":
		tail = vp + ".type"
	case "context":
		tail = vp + `["@context"]`
	case "syntax":
		tail = vp + ".verifiableCredential["
	case "recursive":
		tail = "..verifiableCredential[0]"
	case "outvp":
		tail = vp + ".verifiableCredential[0]"
	}
	m := func(path string, nested lib.M) lib.M {
		x := lib.M{"id": named(c, e.ID), "format": "ldp_vc", "path": path}
		if e.ID == "missing" {
			delete(x, "id")
		}
		if nested != nil {
			x["path_nested"] = nested
		}
		if to == "none" {
			x["path"] = ""
		} else if to == "nopath" {
			delete(x, "path")
		}
		return x
	}
	switch form {
	case "flat", "bracket":
		return m(root+tail, nil)
	case "deep":
		return m("$", m(root, m("$", m("$"+tail, nil))))
	}
	return m(root, m("$"+tail, nil))
}

// named gives a descriptor its identifier.
func named(c matchCombo, id string) string {
	n := map[string]map[string]string{
		"case":   {"d1": "d", "d2": "D", "dx": "e", "D1": "d "},
		"prefix": {"d1": "d", "d2": "d1", "dx": "d11", "D1": "D"},
		"odd":    {"d1": "https://x.example/a b#1", "d2": `$["\u00e9"] é`, "dx": "https://x.example/a b", "D1": "HTTPS://x.example/a b#1"},
	}[c.Names][id]
	if n == "" {
		return id
	}
	return n
}

// descriptorMaps by presentation.
func descriptorMaps(c matchCombo, es []entry) [2][]interface{} {
	out := [2][]interface{}{{}, {}}
	for i, e := range es {
		form := "nested"
		if i == 0 && c.To1 != "absent" {
			form = c.Form1
		}
		n := 0
		if c.Layout == "two" && !strings.HasPrefix(c.Sub, "merged") {
			n = e.VP - 1
		}
		out[n] = append(out[n], mapping(c, e, form, e.To))
	}
	return out
}

func submissionJSON(c matchCombo, m []interface{}) lib.M {
	s := lib.M{"id": "submission", "definition_id": "definition", "descriptor_map": m}
	switch c.Defid {
	case "other":
		s["definition_id"] = "another definition"
	case "missing":
		delete(s, "definition_id")
	}
	switch c.Map {
	case "missing":
		delete(s, "descriptor_map")
	case "null":
		s["descriptor_map"] = nil
	case "text":
		s["descriptor_map"] = "d1"
	case "object":
		s["descriptor_map"] = lib.M{"d1": m}
	case "empty":
		s["descriptor_map"] = []interface{}{}
	}
	return s
}

func typed(s lib.M) *presexch.PresentationSubmission {
	out := &presexch.PresentationSubmission{}
	lib.Must(unmarshal(lib.JSON(s), out), "submission")
	return out
}

func matchDefinition(c matchCombo) *presexch.PresentationDefinition {
	pd := walletDefinition(walletCombo{Con: "fields", Deff: "none", Descf: "none", Schema: "none", Rule: "none"})
	for _, d := range pd.InputDescriptors {
		d.ID = named(c, d.ID)
	}
	switch c.Format {
	case "right":
		if c.Kind == "ld" {
			pd.Format = format("ldp_vc")
		} else {
			pd.InputDescriptors[0].Format, pd.InputDescriptors[1].Format = format("jwt_vc"), format("jwt_vc")
		}
	case "wrong":
		if c.Kind != "ld" {
			pd.Format = format("ldp_vc")
		} else {
			pd.InputDescriptors[0].Format, pd.InputDescriptors[1].Format = format("jwt_vc"), format("jwt_vc")
		}
	case "otheralg":
		pd.Format = &presexch.Format{JwtVC: &presexch.JwtType{Alg: otherAlgs}, LdpVC: &presexch.LdpType{ProofType: otherProofs}}
	}
	for _, d := range pd.InputDescriptors {
		switch c.Schema {
		case "right":
			d.Schema = []*presexch.Schema{{URI: degreeIRI}}
		case "wrong", "wrongoff":
			d.Schema = []*presexch.Schema{{URI: "https://ex.org/OtherCredential"}}
		}
	}
	all, pick := presexch.All, presexch.Pick
	g := func(a, b string) {
		pd.InputDescriptors[0].Group, pd.InputDescriptors[1].Group = []string{a}, []string{b}
	}
	sr := func(r ...*presexch.SubmissionRequirement) { pd.SubmissionRequirements = r }
	g("A", "A")
	switch c.Rule {
	case "all":
		sr(&presexch.SubmissionRequirement{Rule: all, From: "A"})
	case "pick1":
		sr(&presexch.SubmissionRequirement{Rule: pick, Count: 1, From: "A"})
	case "min1":
		sr(&presexch.SubmissionRequirement{Rule: pick, Min: 1, From: "A"})
	case "upto1":
		sr(&presexch.SubmissionRequirement{Rule: pick, Max: 1, From: "A"})
	case "nested":
		g("A", "B")
		sr(&presexch.SubmissionRequirement{Rule: pick, Count: 1, FromNested: []*presexch.SubmissionRequirement{{Rule: all, From: "A"}, {Rule: all, From: "B"}}})
	default:
		pd.InputDescriptors[0].Group, pd.InputDescriptors[1].Group = nil, nil
	}
	return pd
}

type nothing struct{}

func (nothing) LoadDocument(u string) (*ld.RemoteDocument, error) { return nil, fmt.Errorf("no %s", u) }

func match(t *lib.T) {
	var r matchRec
	t.Decode(&r)
	t.Obs(r.Expect)
	c := r.C
	maps := descriptorMaps(c, r.Entries)
	layout := [][]int{{1, 2, 3}}
	switch c.Layout {
	case "two":
		layout = [][]int{{1, 3}, {2}}
	case "zero":
		layout = nil
	}
	var vps []*verifiable.Presentation
	for i, creds := range layout {
		doc := lib.M{"@context": []interface{}{"https://www.w3.org/2018/credentials/v1", "https://identity.foundation/presentation-exchange/submission/v1"},
			"type": []interface{}{"VerifiablePresentation", "PresentationSubmission"}, "id": fmt.Sprintf("urn:vp%d", i), "holder": issue.Hanna}
		switch c.Ctx {
		case "nocontext":
			doc["@context"] = []interface{}{"https://www.w3.org/2018/credentials/v1", "https://www.w3.org/2018/credentials/examples/v1"}
		case "notype":
			doc["type"] = []interface{}{"VerifiablePresentation"}
		case "application":
			doc["@context"] = []interface{}{"https://www.w3.org/2018/credentials/v1", "https://identity.foundation/credential-manifest/application/v1"}
			doc["type"] = []interface{}{"VerifiablePresentation", "CredentialApplication"}
		}
		var items []interface{}
		for _, n := range creds {
			items = append(items, item(c, n))
		}
		doc["verifiableCredential"] = items
		switch c.Sub {
		case "parsed":
			doc["presentation_submission"] = submissionJSON(c, maps[i])
		case "text":
			doc["presentation_submission"] = "d1"
		case "list":
			doc["presentation_submission"] = []interface{}{submissionJSON(c, maps[i])}
		}
		var data []byte
		switch c.Enc {
		case "ld":
			data = lib.JSON(doc)
		case "jwt":
			data = []byte(issue.JWT(lib.M{"iss": issue.Hanna, "vp": doc}, issue.As("EdDSA", "hanna")))
		case "cwt":
			data = []byte(issue.Hex(issue.CWT(lib.M{"iss": issue.Hanna, "vp": doc}, issue.As("EdDSA", "hanna"))))
		}
		vp, err := verifiable.ParsePresentation(data, verifiable.WithPresDisabledProofCheck(), verifiable.WithPresJSONLDDocumentLoader(issue.Loader))
		if err != nil && c.State != "good" && r.Expect == "reject" {
			t.Run()
			return
		}
		if err != nil {
			lib.Fatalf("presentation %+v: %v", c, err)
		}
		switch c.Sub {
		case "typed":
			vp.CustomFields = verifiable.CustomFields{"presentation_submission": typed(submissionJSON(c, maps[i]))}
		case "value":
			vp.CustomFields = verifiable.CustomFields{"presentation_submission": *typed(submissionJSON(c, maps[i]))}
		case "nil":
			vp.CustomFields = verifiable.CustomFields{"presentation_submission": (*presexch.PresentationSubmission)(nil)}
		}
		vps = append(vps, vp)
	}
	opts := []presexch.MatchOption{presexch.WithCredentialOptions(append([]verifiable.CredentialOpt{}, credOpts...)...)}
	if c.Kind == "plain" {
		opts = []presexch.MatchOption{presexch.WithCredentialOptions(verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(issue.Loader))}
	}
	if strings.HasSuffix(c.Schema, "off") {
		opts = append(opts, presexch.WithDisableSchemaValidation())
	}
	switch c.Sub {
	case "merged":
		opts = append(opts, presexch.WithMergedSubmission(typed(submissionJSON(c, maps[0]))))
	case "mergedmap":
		opts = append(opts, presexch.WithMergedSubmissionMap(submissionJSON(c, maps[0])))
	}
	t.Run()
	var contexts ld.DocumentLoader = issue.Loader
	if c.Loader == "empty" {
		contexts = nothing{}
	}
	ms, err := matchDefinition(c).Match(vps, contexts, opts...)
	key := ""
	switch {
	case c.Defid == "other":
		key = "defid-"
	case c.Format != "none":
		key = "format-"
	}
	if r.Expect == "ok" && err != nil {
		t.Failf(key+"rejected", "%v", err)
		return
	}
	if r.Expect == "reject" {
		if err == nil {
			t.Failf(key+"accepted", "matched %d credentials", len(ms))
		}
		return
	}
	got, want := []string{}, []string{}
	for _, m := range ms {
		got = append(got, m.DescriptorID+" "+strings.TrimPrefix(m.Credential.Contents().ID, "urn:")+" "+m.PresentationID)
	}
	for _, e := range r.Entries {
		p, _ := place(c.Layout, e.To)
		want = append(want, fmt.Sprintf("%s %s urn:vp%d", named(c, e.ID), e.To, p))
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		t.Failf(key+"result", "matched %v, want %v", got, want)
	}
}

package main

import (
	"encoding/base64"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type limitCombo struct {
	Kind, Limit, Subject, F1, F2, Form, Opt, Limit2, D2, Hide, API, Model, Val, Name string
}

type limitRec struct {
	Expect, Base             string
	Must1, May1, Must2, May2 []string
	Dev                      []string
	C                        limitCombo
}

var limitNames = map[string]string{"a": "a", "dotted": "a.b", "dashed": "a-b", "star": "a*", "digit": "0"}
var limitValues = map[string]interface{}{"text": "va", "emptyobj": lib.M{}, "emptylist": []interface{}{}, "false": false, "zero": 0.0, "emptytext": ""}

// paths of a selection.
func (c limitCombo) paths(sel string) []string {
	an := limitNames[c.Name]
	root := "$"
	if c.Form == "vc" {
		root = "$.vc"
	}
	p := func(parts ...string) string {
		out := root + ".credentialSubject"
		if c.Form == "single" || c.Form == "double" {
			out = "$" + map[string]string{"single": "['credentialSubject']", "double": `["credentialSubject"]`}[c.Form]
		}
		if c.Subject == "pair" {
			out += "[1]"
		}
		for _, x := range parts {
			switch {
			case strings.HasPrefix(x, "["):
				out += x
			case c.Form == "double":
				out += `["` + x + `"]`
			case c.Form == "single" || (x == an && x != "a"):
				out += "['" + x + "']"
			default:
				out += "." + x
			}
		}
		return out
	}
	switch sel {
	case "a":
		return []string{p(an)}
	case "b", "me", "n", "l":
		return []string{p(sel)}
	case "nx", "ny":
		return []string{p("n", sel[1:])}
	case "l0", "l1":
		return []string{p("l", "["+sel[1:]+"]")}
	case "l10":
		return []string{p("l", "[1]"), p("l", "[0]")}
	case "lall":
		return []string{p("l", "[*]")}
	case "nall":
		return []string{p("n", "[*]")}
	case "sub":
		return []string{p()}
	case "absent":
		return []string{p("zz")}
	case "alta":
		return []string{p("zz"), p("a")}
	case "ba":
		return []string{p("b"), p("a")}
	case "type":
		return []string{root + ".type"}
	case "id":
		return []string{root + ".id"}
	case "rec":
		return []string{"$..a"}
	}
	lib.Fatalf("selection %s", sel)
	return nil
}

// limitCredential makes the credential as the wallet holds it.
func limitCredential(c limitCombo) []byte {
	key := fmt.Sprint("limit|", c.Kind, c.Subject, c.Hide, c.Model, c.Val, c.Name)
	return once(key, func() interface{} {
		who := issue.As("EdDSA", "own")
		an := limitNames[c.Name]
		n := lib.M{"x": "vx", "y": "vy"}
		l := []interface{}{"vp", "vq"}
		sub := lib.M{"id": issue.Hanna, "me": "vme", an: limitValues[c.Val], "b": "vb", "n": n, "l": l}
		switch c.Subject {
		case "issuer":
			sub["id"] = issue.Alice
		case "pair":
			sub["id"] = issue.Alice
		case "none":
			delete(sub, "id")
		}
		doc := lib.M{"id": "urn:c1", "issuer": issue.Alice, "credentialSubject": sub, "type": []interface{}{"VerifiableCredential"}}
		if c.Subject == "pair" {
			doc["credentialSubject"] = []interface{}{lib.M{"id": issue.Hanna}, sub}
		}
		vocab := lib.M{"@vocab": "https://ex.org/"}
		if c.Model == "v2" {
			doc["@context"] = []interface{}{"https://www.w3.org/ns/credentials/v2", "https://w3id.org/security/suites/ed25519-2018/v1", vocab}
			doc["validFrom"] = "2020-01-01T00:00:00Z"
		} else {
			doc["@context"] = []interface{}{"https://www.w3.org/2018/credentials/v1", vocab}
			doc["issuanceDate"] = "2020-01-01T00:00:00Z"
		}
		payload := lib.M{"iss": issue.Alice, "nbf": 1577836800, "jti": "urn:c1", "vc": doc}
		if sub["id"] != nil && c.Subject != "pair" {
			payload["sub"] = sub["id"]
		}
		switch c.Kind {
		case "plain":
			return lib.JSON(doc)
		case "ld":
			return lib.JSON(issue.LD(doc, who))
		case "jwt":
			return []byte(issue.JWT(payload, who))
		}
		doc["_sd_alg"] = "sha-256"
		var ds []string
		drop := map[string]bool{}
		add := func(leaf string, d string) {
			ds = append(ds, d)
			drop[d] = c.Hide == leaf
		}
		hide := func(m lib.M, names ...string) {
			all := issue.Conceal(m, "salt", names...)
			for i, x := range sortedNames(names) {
				if x == an {
					x = "a"
				}
				add(x, all[i])
			}
		}
		if c.Kind != "sdflat" {
			hide(n, "x", "y")
			for i := range l {
				d := ident.B64(lib.JSON([]interface{}{fmt.Sprint("element-salt-0123456789", i), l[i]}))
				add([]string{"p", "q"}[i], d)
				l[i] = lib.M{"...": issue.Digest(d)}
			}
		}
		if c.Kind == "sdstruct" {
			hide(sub, an)
		} else {
			hide(sub, an, "b", "n", "l")
		}
		var held []string
		for _, d := range ds {
			if drop[d] || (c.Hide == "n" && c.Kind == "sdrec" && isLeaf(d, "vx", "vy")) {
				continue
			}
			held = append(held, d)
		}
		return []byte(issue.Combined(issue.JWT(payload, who), held))
	}).([]byte)
}

func isLeaf(d string, values ...string) bool {
	b, _ := base64.RawURLEncoding.DecodeString(d)
	l := lib.ParseJSON(b).([]interface{})
	for _, v := range values {
		if l[len(l)-1] == v {
			return true
		}
	}
	return false
}

func sortedNames(names []string) []string {
	out := append([]string{}, names...)
	sort.Strings(out)
	return out
}

// leaves that a value shows.
func (c limitCombo) leaves(out map[string]bool, v interface{}) {
	switch x := v.(type) {
	case lib.M:
		for k, e := range x {
			switch {
			case k == limitNames[c.Name]:
				if reflect.DeepEqual(e, limitValues[c.Val]) {
					out["a"] = true
				} else {
					out[fmt.Sprint("a!", e)] = true
				}
			case k == "x" || k == "y" || k == "b" || k == "me":
				if e == "v"+k {
					out[k] = true
				} else {
					out[fmt.Sprint(k, "!", e)] = true
				}
			case k == "credentialSubject" && c.Subject == "pair":
				l, _ := e.([]interface{})
				for _, s := range l {
					if s.(lib.M)["id"] == issue.Alice {
						c.leaves(out, s)
						continue
					}
					other := map[string]bool{}
					c.leaves(other, s)
					for leaf := range other {
						out[leaf+" of another subject"] = true
					}
				}
			case k == "@context", k == "proof", k == "_sd", k == "...":
			default:
				c.leaves(out, e)
			}
		}
	case []interface{}:
		for _, e := range x {
			c.leaves(out, e)
		}
	case string:
		if x == "vp" || x == "vq" {
			out[x[1:]] = true
		}
	}
}

// disclosed leaves of an embedded credential: what its text gives away, and what a reader sees.
func (c limitCombo) disclosed(v interface{}) (given, seen map[string]bool) {
	given, seen = map[string]bool{}, map[string]bool{}
	b := lib.JSON(v)
	if s := token(v); s != "" {
		parts := strings.Split(s, "~")
		_, p, err := ident.ParseJWT(parts[0])
		lib.Must(err, "token "+s)
		c.leaves(given, p)
		for _, d := range parts[1:] {
			raw, err := base64.RawURLEncoding.DecodeString(d)
			if d == "" || err != nil {
				continue
			}
			l := lib.ParseJSON(raw).([]interface{})
			if len(l) == 3 {
				c.leaves(given, lib.M{l[1].(string): l[2]})
			} else {
				c.leaves(given, l[1:])
			}
		}
		b = []byte(s)
	} else {
		c.leaves(given, v)
	}
	opts := credOpts
	if !strings.HasPrefix(c.Kind, "sd") { // derived: unsigned
		opts = append([]verifiable.CredentialOpt{verifiable.WithDisabledProofCheck()}, opts...)
	}
	cred, err := verifiable.ParseCredential(b, opts...)
	if err != nil {
		lib.Fatalf("presented credential %s: %v", b, err)
	}
	c.leaves(seen, shown(cred))
	return given, seen
}

func shown(cred *verifiable.Credential) interface{} {
	d, err := cred.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures())
	lib.Must(err, "display")
	return lib.ParseJSON(lib.JSON(d))
}

func (c limitCombo) definition() *presexch.PresentationDefinition {
	d := func(id, limit, opt string, sels ...string) lib.M {
		var fs []interface{}
		for i, s := range sels {
			if s == "-" {
				continue
			}
			f := lib.M{"path": c.paths(s)}
			if i == 0 && opt == "yes" {
				f["optional"] = true
			}
			fs = append(fs, f)
		}
		con := lib.M{"fields": fs}
		if limit != "none" {
			con["limit_disclosure"] = limit
		}
		return lib.M{"id": id, "constraints": con}
	}
	ds := []interface{}{d("d1", c.Limit, c.Opt, c.F1, c.F2)}
	if c.D2 != "-" {
		ds = append(ds, d("d2", c.Limit2, "no", c.D2))
	}
	pd := &presexch.PresentationDefinition{}
	lib.Must(unmarshal(lib.JSON(lib.M{"id": "definition", "input_descriptors": ds}), pd), "definition")
	return pd
}

func keysOf(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func missing(must []string, in map[string]bool) []string {
	var out []string
	for _, x := range must {
		if !in[x] {
			out = append(out, x)
		}
	}
	return out
}

func extra(have map[string]bool, may ...[]string) []string {
	ok := map[string]bool{}
	for _, l := range may {
		for _, x := range l {
			ok[x] = true
		}
	}
	return missing(keysOf(have), ok)
}

func limitMode(t *lib.T) {
	var r limitRec
	t.Decode(&r)
	t.Obs(r.Expect)
	c := r.C
	pd := c.definition()
	cred := read(c.Kind, limitCredential(c))
	ws := []*verifiable.Credential{cred}
	before := snapshot(ws)
	opts := []presexch.MatchRequirementsOpt{presexch.WithSDCredentialOptions(credOpts...)}
	t.Run()
	var root interface{}
	var sub *presexch.PresentationSubmission
	var vps []*verifiable.Presentation
	var err error
	must, may := map[string][]string{"d1": r.Must1, "d2": r.Must2}, map[string][]string{"d1": r.May1, "d2": r.May2}
	judge := func(id string, given, seen map[string]bool) {
		if x := missing(must[id], seen); len(x) > 0 {
			t.Failf("withheld", "%s needs %v, sees %v", id, x, keysOf(seen))
		}
		if x := extra(given, r.May1, r.May2); len(x) > 0 {
			t.Failf("overdisclosed", "%s gets %v", id, x)
		}
		if x := extra(given, may[id]); len(x) > 0 {
			t.Failf("mixed", "%s gets %v of the other descriptor", id, x)
		}
	}
	switch c.API {
	case "vp":
		var vp *verifiable.Presentation
		if vp, err = pd.CreateVP(ws, issue.Loader, opts...); err == nil {
			root = raw(vp)
			sub, _ = vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
			vps = append(vps, vp)
		}
	case "array":
		var docs []interface{}
		vps, sub, err = pd.CreateVPArray(ws, issue.Loader, opts...)
		for _, vp := range vps {
			docs = append(docs, raw(vp))
		}
		root = docs
	case "apply":
		var reqs []*presexch.MatchedSubmissionRequirement
		reqs, err = pd.MatchSubmissionRequirement(ws, issue.Loader, append(opts, presexch.WithSelectiveDisclosureApply())...)
		if err == nil {
			for _, q := range reqs {
				for _, d := range q.Descriptors {
					if len(d.MatchedVCs) == 0 {
						err = errors.New("no credential for " + d.ID)
						if r.Expect == "none" {
							err = fmt.Errorf("%w: %w", presexch.ErrNoCredentials, err)
						}
					}
					for _, m := range d.MatchedVCs {
						if r.Expect != "ok" {
							continue
						}
						b, merr := m.MarshalJSON()
						lib.Must(merr, "credential")
						var v interface{}
						lib.Must(unmarshal(b, &v), "credential")
						given, seen := c.disclosed(v)
						judge(d.ID, given, seen)
					}
				}
			}
		}
	}
	if after := snapshot(ws); after != before {
		t.Failf("wallet-changed", "before %s after %s", before, after)
	}
	switch {
	case r.Expect == "ok" && err != nil:
		t.Failf("refused", "%v", err)
		return
	case r.Expect == "none" && err == nil:
		t.Failf("accepted", "the wallet cannot answer")
		return
	case err != nil && !errors.Is(err, presexch.ErrNoCredentials):
		t.Failf("error", "%v", err)
		return
	case err != nil || c.API == "apply":
		return
	}
	seenIDs := map[string]bool{}
	for _, e := range sub.DescriptorMap {
		v, err := embedded(root, e)
		if err != nil {
			v, err = embedded(claims(root), e)
		}
		if err != nil {
			t.Failf("path", "entry %s: %v", lib.JSON(e), err)
			continue
		}
		seenIDs[e.ID] = true
		given, seen := c.disclosed(v)
		judge(e.ID, given, seen)
	}
	if want := map[bool]int{true: 1, false: 2}[c.D2 == "-"]; len(seenIDs) != want {
		t.Failf("entries", "%v", seenIDs)
	}
	docs, ok := root.([]interface{})
	if !ok {
		docs = []interface{}{root}
	}
	for _, d := range docs {
		for _, v := range embeddedIn(d.(lib.M)) {
			given, _ := c.disclosed(v)
			if x := extra(given, r.May1, r.May2); len(x) > 0 {
				t.Failf("overdisclosed", "the presentation gives %v", x)
			}
		}
	}
	for _, s := range []string{c.F1, c.F2, c.D2} {
		if s == "l1" || s == "l10" {
			return // what is left of the list has other indices
		}
	}
	if c.Kind == "jwt" && c.Form == "vc" {
		return // the unsecured token that replaces a token is read as a document
	}
	// the verifier agrees
	co := credOpts
	if !strings.HasPrefix(c.Kind, "sd") {
		co = append([]verifiable.CredentialOpt{verifiable.WithDisabledProofCheck()}, co...)
	}
	for i, vp := range vps {
		vps[i] = transported(walletCombo{}, vp, sub)
	}
	mopts := []presexch.MatchOption{presexch.WithCredentialOptions(co...), presexch.WithDisableSchemaValidation()}
	if c.API == "array" {
		mopts = append(mopts, presexch.WithMergedSubmission(sub))
	}
	if _, err := pd.Match(vps, issue.Loader, mopts...); err != nil {
		t.Failf("own-presentation-rejected", "%v", err)
	}
}

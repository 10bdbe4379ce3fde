package main

import (
	"fmt"
	"strings"

	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
)

type claimsRec struct {
	Expect, Issuer, ID, From, FromAlt, Until, Base string
	Dev                                            []string
	C                                              struct{ Model, Enc, Issuer, Iss, ID, Jti, From, Nbf, Iat, Until, Exp, Names, Sub string }
}

var (
	numeric = map[string]interface{}{"t1": 1588748889, "t2": 1600000000, "zero": 0, "t1half": 1588748889.5, "negative": -86400, "t9": 3786912000, "t8": 3700000000, "t9half": 3786912000.75}
	written = map[string]string{"t1": "2020-05-06T07:08:09Z", "t1msec": "2020-05-06T07:08:09.25Z", "t1offset": "2020-05-06T09:08:09+02:00", "t9": "2090-01-01T00:00:00Z"}
	moment  = map[string]string{"absent": "", "t1": "2020-05-06T07:08:09Z", "t1msec": "2020-05-06T07:08:09Z", "t1offset": "2020-05-06T07:08:09Z", "t1half": "2020-05-06T07:08:09Z",
		"t2": "2020-09-13T12:26:40Z", "zero": "1970-01-01T00:00:00Z", "negative": "1969-12-31T00:00:00Z", "t9": "2090-01-01T00:00:00Z", "t9half": "2090-01-01T00:00:00Z", "t8": "2087-04-01T01:46:40Z"}
	dids = map[string]string{"absent": "", "alice": issue.Alice, "mallory": issue.Mallory, "web": "https://alice.example"}
	ids  = map[string]string{"absent": "", "x": "urn:uuid:x", "y": "urn:uuid:y"}
)

func claimsMode(t *lib.T) {
	var r claimsRec
	t.Decode(&r)
	c := r.C
	t.Run()
	v2 := c.Model == "v2"
	ctx, from, until, ofrom, ountil := "https://www.w3.org/2018/credentials/v1", "issuanceDate", "expirationDate", "validFrom", "validUntil"
	if v2 {
		ctx, from, until, ofrom, ountil = "https://www.w3.org/ns/credentials/v2", ofrom, ountil, from, until
	}
	doc := lib.M{"@context": L{ctx, lib.M{"@vocab": "https://ex.org/"}}, "type": L{"VerifiableCredential", "ExtraType"}, "credentialSubject": lib.M{"id": "did:example:bob", "name": "Bob"}}
	member := strings.TrimSuffix(c.Issuer, "object")
	switch {
	case c.Issuer == "nameless":
		doc["issuer"] = lib.M{"name": "Alice"}
	case c.Issuer == "absent":
	case member != c.Issuer:
		doc["issuer"] = lib.M{"id": dids[member], "name": "Alice"}
	default:
		doc["issuer"] = dids[member]
	}
	if c.ID != "absent" {
		doc["id"] = ids[c.ID]
	}
	date := func(own, other, v string) {
		if v == "absent" {
			return
		}
		switch c.Names {
		case "own":
			doc[own] = written[v]
		case "other":
			doc[other] = written[v]
		case "both":
			doc[own], doc[other] = written[v], "2001-01-01T00:00:00Z"
		}
	}
	date(from, ofrom, c.From)
	date(until, ountil, c.Until)
	payload := lib.M{}
	if c.Sub == "same" {
		payload["sub"] = "did:example:bob"
	} else if c.Sub == "other" {
		payload["sub"] = "did:example:eve"
	}
	text := func(n, v string, m map[string]string) {
		if v == "empty" {
			payload[n] = ""
		} else if v != "absent" {
			payload[n] = m[v]
		}
	}
	text("iss", c.Iss, dids)
	text("jti", c.Jti, ids)
	for n, v := range map[string]string{"nbf": c.Nbf, "iat": c.Iat, "exp": c.Exp} {
		if v != "absent" {
			payload[n] = numeric[v]
		}
	}
	signer := issue.As(alg, "own")
	if r.Issuer == "mallory" {
		signer = issue.As(alg, "mallory")
	}
	var ds []string
	if c.Enc == "sd" || c.Enc == "sd5" {
		ds = issue.Conceal(doc["credentialSubject"].(lib.M), "c", "name")
	}
	var data string
	switch c.Enc {
	case "jwt":
		payload["vc"] = doc
		data = issue.JWT(payload, signer)
	case "unsec":
		payload["vc"] = doc
		data = issue.Unsecured(payload)
	case "sd":
		doc["_sd_alg"] = "sha-256"
		payload["vc"] = doc
		data = issue.Combined(issue.JWT(payload, signer), ds)
	case "sd5":
		for k, v := range doc {
			payload[k] = v
		}
		payload["_sd_alg"] = "sha-256"
		data = issue.Combined(issue.JWT(payload, signer), ds)
	}
	opts := parseOpts()
	if c.Enc == "unsec" || r.Expect == "unchecked" {
		opts = append(opts, verifiable.WithDisabledProofCheck())
	}
	fail := func(what, f string, a ...interface{}) {
		t.Failf(what+":"+r.Base+":"+strings.Join(r.Dev, "+"), "specification: %s; code: %s; combination %s payload %s", r.Expect, fmt.Sprintf(f, a...), tree.Show(c), lib.JSON(payload))
	}
	p, err := verifiable.ParseCredential([]byte(data), opts...)
	if (err == nil) != (r.Expect != "reject") {
		fail(r.Expect, "%v", err)
		return
	}
	if err != nil {
		t.Obs(r.Expect)
		return
	}
	views := map[string]*verifiable.Credential{"parsed": p}
	if ds != nil {
		d, err := p.CreateDisplayCredential(verifiable.DisplayAllDisclosures())
		if err != nil {
			fail("display", "%v", err)
			return
		}
		views["displayed"] = d
	}
	for _, name := range []string{"parsed", "displayed"} {
		vc := views[name]
		if vc == nil {
			continue
		}
		x, raw := vc.Contents(), vc.ToRawJSON()
		got := ""
		if x.Issuer != nil {
			got = x.Issuer.ID
		}
		rawIssuer, _ := raw["issuer"].(string)
		if m, ok := raw["issuer"].(lib.M); ok {
			rawIssuer, _ = m["id"].(string)
			if m["name"] != "Alice" {
				fail("issuername", "%s issuer %v", name, m)
				return
			}
		}
		if got != dids[r.Issuer] || rawIssuer != dids[r.Issuer] {
			fail("issuer", "%s issuer %q, in JSON %q; expected %q", name, got, rawIssuer, dids[r.Issuer])
			return
		}
		rawID, _ := raw["id"].(string)
		if x.ID != ids[r.ID] || rawID != x.ID {
			fail("id", "%s id %q, in JSON %q; expected %q", name, x.ID, rawID, ids[r.ID])
			return
		}
		issued, expired := "", ""
		if x.Issued != nil {
			issued = instant(x.Issued.FormatToString(), true)
		}
		if x.Expired != nil {
			expired = instant(x.Expired.FormatToString(), true)
		}
		if issued != moment[r.From] && issued != moment[r.FromAlt] {
			fail("issued", "%s issued %s; expected %s", name, issued, moment[r.From])
			return
		}
		if expired != moment[r.Until] {
			fail("expired", "%s expired %s; expected %s", name, expired, moment[r.Until])
			return
		}
		said := func(n, want string) bool {
			s, _ := raw[n].(string)
			return instant(s, true) == want
		}
		if c.Names != "other" && (!said(from, issued) || !said(until, expired)) || c.Nbf != "absent" && !said(from, issued) || c.Exp != "absent" && !said(until, expired) {
			fail("dates", "%s states %v..%v but holds %s..%s", name, raw[from], raw[until], issued, expired)
			return
		}
		if len(x.Subject) != 1 || x.Subject[0].ID != "did:example:bob" {
			fail("subject", "%s subject %v", name, x.Subject)
			return
		}
	}
	t.Obs(r.Expect)
}

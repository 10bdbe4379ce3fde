// Command vcparse replays the behaviours of VCParse.tla: credentials in every encoding.
package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

type rec struct {
	Expect, Issuer, Base string
	Dev                  []string
	C                    struct{ Enc, Alg, Model, Wrap, Media, Signer, Issuer, Iss, Set, Inner, Tamper, Checks, Via string }
}

type world struct {
	chk *checker.ProofChecker
	di  *dataintegrity.Verifier
}

var worlds = map[string]*world{}

func init() {
	for _, a := range []string{"EdDSA", "ES256"} {
		worlds[a] = &world{issue.Checker(a), issue.DIVerifier(a)}
	}
}

var did = map[string]string{"alice": issue.Alice, "mallory": issue.Mallory, "web": "https://alice.example", "aliceurl": issue.Alice + "#own", "prefix": issue.Alice[:len(issue.Alice)-2]}

var (
	mu   sync.Mutex
	memo = map[string]lib.M{}
)

// secured adds embedded proofs (memoised, cloned).
func secured(id string, f func() lib.M) lib.M {
	mu.Lock()
	d, ok := memo[id]
	mu.Unlock()
	if !ok {
		d = f()
		mu.Lock()
		memo[id] = d
		mu.Unlock()
	}
	return vcdoc.Clone(d)
}

func one(p interface{}) interface{} {
	if l, ok := p.([]interface{}); ok {
		return l[0]
	}
	return p
}

func flip(t *lib.T, s string) string { // change one character of an encoded string
	if s == "" {
		return s
	}
	b := []byte(s)
	i := t.R.Intn(len(b)/2) + 1
	if b[i] == 'A' {
		b[i] = 'B'
	} else {
		b[i] = 'A'
	}
	return string(b)
}

func parse(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	v2 := c.Model == "v2"
	embedded := c.Enc == "ld" || c.Enc == "di" || c.Enc == "ldjwt" || c.Enc == "dijwt"
	di := c.Enc == "di" || c.Enc == "dijwt"
	var issuer interface{}
	switch c.Issuer {
	case "alice", "mallory", "web", "aliceurl", "prefix":
		issuer = did[c.Issuer]
	case "object":
		issuer = lib.M{"id": issue.Alice, "name": "Alice"}
	case "malloryobject":
		issuer = lib.M{"id": issue.Mallory, "name": "Alice"}
	}
	var extra []interface{}
	if di && !v2 {
		extra = append(extra, issue.DICtx)
	}
	doc := vcdoc.Base(issuer, v2, extra...)
	if c.Issuer == "absent" {
		delete(doc, "issuer")
	}
	who := func(n string) issue.Who { return issue.As(c.Alg, n) }
	sign := func(d lib.M, by string) lib.M {
		return secured(fmt.Sprintf("%v/%s/%s/%s/%v/%x", di, c.Alg, by, c.Issuer, v2, len(lib.JSON(d))), func() lib.M {
			if di {
				return issue.DI(d, who(by), "assertionMethod", "", "")
			}
			return issue.LD(d, who(by))
		})
	}
	if embedded {
		switch {
		case c.Signer == "nobody":
		case c.Set == "one" || c.Set == "two" || c.Set == "twobad" || c.Set == "badtwo":
			d := sign(doc, c.Signer)
			var second lib.M
			switch c.Set {
			case "two":
				o := "second"
				if c.Signer == "mallory" || c.Signer == "forged" {
					o = c.Signer
				}
				second = sign(doc, o)
			case "twobad", "badtwo":
				o := "mallory"
				if c.Signer == "mallory" {
					o = "own"
				}
				second = sign(doc, o)
			}
			if second != nil {
				l := []interface{}{one(d["proof"]), one(second["proof"])}
				if c.Set == "badtwo" {
					l[0], l[1] = l[1], l[0]
				}
				d["proof"] = l
			}
			doc = d
		}
		switch c.Set {
		case "empty":
			doc["proof"] = []interface{}{}
		case "null":
			doc["proof"] = nil
		case "emptyobject":
			doc["proof"] = lib.M{}
		case "text":
			doc["proof"] = "proof"
		}
		switch c.Tamper {
		case "content":
			doc["credentialSubject"].(lib.M)["claim"] = "other"
		case "signature":
			p, _ := doc["proof"].(lib.M)
			if l, ok := doc["proof"].([]interface{}); ok {
				p = l[t.R.Intn(len(l))].(lib.M)
			}
			for _, n := range []string{"jws", "proofValue"} {
				if s, ok := p[n].(string); ok {
					h, v := "", s
					if i := strings.LastIndex(s, "."); i >= 0 {
						h, v = s[:i+1], s[i+1:]
					}
					p[n] = h + flip(t, v)
				}
			}
		}
	}
	switch c.Inner {
	case "junk":
		doc["proof"] = lib.M{"type": "Ed25519Signature2018", "created": "2021-02-03T04:05:06Z", "verificationMethod": issue.Alice + "#own", "proofPurpose": "assertionMethod", "jws": "e30..AAAA"}
	case "good":
		doc = secured(fmt.Sprintf("inner/%s/%s/%v", c.Alg, c.Issuer, v2), func() lib.M { return issue.LD(doc, who("own")) })
	}
	// the token or document
	var ds []string
	var data []byte
	payload := lib.M{"sub": "did:example:bob", "jti": doc["id"], "nbf": 1577836800, "iat": 1577836800, "exp": 3786912000}
	iss := c.Iss
	if iss == "same" {
		iss = map[string]string{"object": "alice", "malloryobject": "mallory", "alice": "alice", "mallory": "mallory", "web": "web", "absent": "absent", "aliceurl": "aliceurl", "prefix": "prefix"}[c.Issuer]
	}
	switch iss {
	case "absent":
	case "empty":
		payload["iss"] = ""
	default:
		payload["iss"] = did[iss]
	}
	change := func(d lib.M) { d["credentialSubject"].(lib.M)["claim"] = "other" }
	token := func(p lib.M, tamper func()) string {
		tok := issue.JWT(p, who(map[bool]string{true: "own", false: c.Signer}[c.Signer == "nobody"]))
		x := strings.Split(tok, ".")
		if c.Signer == "nobody" {
			x[2] = ""
		}
		switch c.Tamper {
		case "content":
			tamper()
			x[1] = ident.B64(lib.JSON(p))
		case "signature":
			x[2] = flip(t, x[2])
		}
		return strings.Join(x, ".")
	}
	switch c.Enc {
	case "ld", "di":
		data = lib.JSON(doc)
	case "ldjwt", "dijwt":
		payload["vc"] = doc
		data = []byte(issue.Unsecured(payload))
	case "jwt":
		payload["vc"] = doc
		data = []byte(token(payload, func() { change(doc) }))
	case "min":
		for _, n := range []string{"id", "issuanceDate", "expirationDate", "validFrom", "validUntil"} {
			delete(doc, n)
		}
		if o, ok := doc["issuer"].(lib.M); ok {
			delete(o, "id")
		} else {
			delete(doc, "issuer")
		}
		payload["vc"] = doc
		data = []byte(token(payload, func() { change(doc) }))
	case "sd", "sd5":
		sub := doc["credentialSubject"].(lib.M)
		ds = issue.Conceal(sub, "s", "claim", "num", "inner")
		if c.Enc == "sd" {
			payload["vc"] = doc
			doc["_sd_alg"] = "sha-256"
		} else {
			for k, v := range doc {
				payload[k] = v
			}
			payload["_sd_alg"] = "sha-256"
		}
		tok := token(payload, func() { sub["motto"] = "stay" })
		switch c.Tamper {
		case "altered":
			ds[0] = issue.Disclosure("s-salt-0-0123456789", "claim", "other")
		case "foreign":
			ds = append(ds, issue.Disclosure("s-salt-9-0123456789", "more", "other"))
		case "added":
			ds = append(ds, ds[1])
		case "dropped":
			i := t.R.Intn(len(ds))
			ds = append(append([]string{}, ds[:i]...), ds[i+1:]...)
		}
		data = []byte(issue.Combined(tok, ds))
	case "cwt":
		p := lib.M{"vc": doc}
		n := c.Signer
		if n == "nobody" {
			n = "own"
		}
		data = issue.CWT(p, who(n))
		switch {
		case c.Signer == "nobody": // empty signature: 0x58 0x40 <64 bytes> at the end
			data = append(data[:len(data)-66], 0x40)
		case c.Tamper == "signature":
			data[len(data)-1-t.R.Intn(60)] ^= 1 << t.R.Intn(8)
		case c.Tamper == "content":
			data = []byte(strings.Replace(string(data), "value", "vAlue", 1))
		}
	}
	// its wrapping
	sd := c.Enc == "sd" || c.Enc == "sd5"
	switch c.Wrap {
	case "quoted":
		data = []byte("\"" + string(data) + "\"")
	case "member":
		m := lib.M{"jwt": string(data)}
		if t.R.Intn(2) == 0 {
			m["issuer"] = issue.Alice
		}
		data = lib.JSON(m)
	case "hex":
		data = []byte(issue.Hex(data))
	case "space":
		data = append([]byte(" "), data...)
	case "envelope", "envelopelist", "dressed":
		m := c.Media
		if m == "right" {
			m = "jwt"
			if sd {
				m = "sdjwt"
			} else if c.Enc == "cwt" {
				m = "cose"
			}
		}
		media := map[string]string{"jwt": "application/vc-ld+jwt", "sdjwt": "application/vc-ld+sd-jwt", "cose": "application/vc-ld+cose", "unknown": "application/vc+json", "none": ""}[m]
		if c.Enc == "cwt" {
			data = []byte(issue.Hex(data))
		}
		e := lib.M{"@context": []interface{}{"https://www.w3.org/ns/credentials/v2"}, "type": "EnvelopedVerifiableCredential", "id": "data:" + media + "," + string(data)}
		if c.Wrap != "envelope" {
			e["type"] = []interface{}{"VerifiableCredential", "EnvelopedVerifiableCredential"}
		}
		if c.Wrap == "dressed" {
			e["issuer"], e["credentialSubject"], e["proof"] = issue.Alice, lib.M{"id": "did:example:eve"}, []interface{}{}
		}
		data = lib.JSON(e)
	}
	w := worlds[c.Alg]
	base := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(issue.Loader)}
	opts := append([]verifiable.CredentialOpt{}, base...)
	has := func(n string) bool { return c.Checks == n || c.Checks == "all" }
	if c.Checks == "all" && t.R.Intn(2) == 0 {
		opts = append(opts, verifiable.WithProofChecker(w.chk), verifiable.WithDataIntegrityVerifier(w.di))
	} else {
		if has("ld") {
			opts = append(opts, verifiable.WithLDProofChecker(w.chk))
		}
		if has("jwt") {
			opts = append(opts, verifiable.WithJWTProofChecker(w.chk))
		}
		if has("cwt") {
			opts = append(opts, verifiable.WithCWTProofChecker(w.chk))
		}
		if has("di") {
			opts = append(opts, verifiable.WithDataIntegrityVerifier(w.di))
		}
	}
	if c.Checks == "off" {
		opts = append(opts, verifiable.WithDisabledProofCheck())
	}
	t.Run()
	var vc *verifiable.Credential
	var err error
	if c.Via == "parse" {
		vc, err = verifiable.ParseCredential(data, opts...)
	} else {
		vc, err = verifiable.ParseCredential(data, append(base, verifiable.WithDisabledProofCheck())...)
		if err == nil {
			err = vc.CheckProof(opts...)
		}
	}
	if (err == nil) != (r.Expect == "ok") {
		t.Failf(r.Expect+":"+r.Base+":"+strings.Join(r.Dev, "+"), "specification: %s; code: %v; combination %s credential %s", r.Expect, err, tree.Show(c), data)
		return
	}
	if err == nil {
		got := ""
		if vc.Contents().Issuer != nil {
			got = vc.Contents().Issuer.ID
		}
		sub := vc.Contents().Subject
		if got != did[r.Issuer] || len(sub) != 1 || sub[0].ID != "did:example:bob" {
			t.Failf("contents:"+r.Base+":"+strings.Join(r.Dev, "+"), "accepted as issued by %q about %s; expected %q about did:example:bob (credential %s)", got, tree.Show(sub), did[r.Issuer], data)
		}
		if raw, _ := vc.ToRawJSON()["credentialSubject"].(lib.M); !sd && c.Checks != "off" && raw["claim"] != "value" {
			t.Failf("claim:"+r.Base, "claim %v", raw["claim"])
		}
	}
	t.Obs(r.Expect)
}

func main() {
	lib.Main(map[string]func(*lib.T){"parse": parse}, nil)
}

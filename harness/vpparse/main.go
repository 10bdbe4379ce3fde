// Command vpparse replays the behaviours of VPParse.tla: presentations in every encoding and the credentials inside.
package main

import (
	"fmt"
	"strings"
	"sync"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

type item struct{ K, F string }

type rec struct {
	Expect, Holder, Base string
	Items                []item
	Dev                  []string
	C                    struct {
		Enc, Alg, Model, Wrap, Signer, Holder, Iss, Shape, Tamper, Want, Set, Checks string
		Extra                                                                        string
		Hcheck, Strict                                                               bool
	}
}

type world struct {
	chk *checker.ProofChecker
	di  *dataintegrity.Verifier
}

var worlds = map[string]*world{}

func init() {
	for _, a := range []string{"EdDSA", "ES256"} {
		worlds[a] = &world{issue.Checker(a), issue.DIVerifier(a)}
	}
}

var did = map[string]string{"alice": issue.Alice, "mallory": issue.Mallory, "hanna": issue.Hanna, "absent": "", "prefix": issue.Hanna[:len(issue.Hanna)-2]}

var (
	mu   sync.Mutex
	memo = map[string]interface{}{}
)

func once(id string, f func() interface{}) interface{} {
	mu.Lock()
	d, ok := memo[id]
	mu.Unlock()
	if !ok {
		d = f()
		mu.Lock()
		memo[id] = d
		mu.Unlock()
	}
	if m, ok := d.(lib.M); ok {
		return vcdoc.Clone(m)
	}
	return d
}

func flip(s string) string { // change one character in the middle of the signature that ends s
	b := []byte(s)
	i := len(b) - 30
	if b[i] == 'A' {
		b[i] = 'B'
	} else {
		b[i] = 'A'
	}
	return string(b)
}

func envelope(kind, media, data string) lib.M {
	return lib.M{"@context": []interface{}{"https://www.w3.org/ns/credentials/v2"}, "type": []interface{}{kind}, "id": "data:" + media + "," + data}
}

// credential number n of a presentation.
func credential(alg, model string, n int, it item) interface{} {
	return once(fmt.Sprintf("%s/%s/%d/%s/%s", alg, model, n, it.K, it.F), func() interface{} {
		v2 := model == "v2"
		signer, issuer := "own", issue.Alice
		switch it.F {
		case "foreign":
			signer, issuer = "mallory", issue.Mallory
		case "forged":
			signer = "forged"
		case "misissued":
			signer = "mallory"
		}
		who := issue.As(alg, signer)
		var extra []interface{}
		if it.K == "di" && !v2 {
			extra = append(extra, issue.DICtx)
		}
		if it.K == "ld" && alg == "ES256" {
			extra = append(extra, "https://w3id.org/security/suites/jws-2020/v1")
		} else if it.K == "ld" && v2 {
			extra = append(extra, "https://w3id.org/security/suites/ed25519-2018/v1")
		}
		doc := vcdoc.Base(issuer, v2, extra...)
		doc["id"] = fmt.Sprintf("urn:uuid:c%d", n)
		sub := doc["credentialSubject"].(lib.M)
		sub["claim"] = fmt.Sprintf("value %d", n)
		payload := lib.M{"iss": issuer, "sub": "did:example:bob", "jti": doc["id"], "nbf": 1577836800, "iat": 1577836800, "exp": 3786912000}
		tampered := it.F == "tampered"
		jwt := func() string {
			payload["vc"] = doc
			if it.F == "unsigned" {
				return issue.Unsecured(payload)
			}
			tok := issue.JWT(payload, who)
			if tampered {
				x := strings.Split(tok, ".")
				sub["claim"] = "other"
				return x[0] + "." + ident.B64(lib.JSON(payload)) + "." + x[2]
			}
			return tok
		}
		sd := func() string {
			ds := issue.Conceal(sub, "s", "claim", "num", "inner")
			payload["vc"] = doc
			doc["_sd_alg"] = "sha-256"
			if tampered {
				ds[0] = issue.Disclosure("s-salt-0-0123456789", "claim", "other")
			}
			return issue.Combined(issue.JWT(payload, who), ds)
		}
		cwt := func() string {
			b := issue.CWT(lib.M{"vc": doc}, who)
			if tampered {
				b = []byte(strings.Replace(string(b), "value", "vAlue", 1))
			}
			return issue.Hex(b)
		}
		ld := func() lib.M {
			if it.F != "unsigned" {
				doc = issue.LD(doc, who)
			}
			if tampered {
				doc["credentialSubject"].(lib.M)["claim"] = "other"
			}
			return doc
		}
		switch it.K {
		case "jwt":
			return jwt()
		case "sd":
			return sd()
		case "cwt":
			return cwt()
		case "ld":
			return ld()
		case "ldtext":
			return string(lib.JSON(ld()))
		case "di":
			if it.F != "unsigned" {
				doc = issue.DI(doc, who, "assertionMethod", "", "")
			}
			if tampered {
				doc["credentialSubject"].(lib.M)["claim"] = "other"
			}
			return doc
		case "env":
			return envelope("EnvelopedVerifiableCredential", "application/vc-ld+jwt", jwt())
		case "envsd":
			return envelope("EnvelopedVerifiableCredential", "application/vc-ld+sd-jwt", sd())
		case "envcwt":
			return envelope("EnvelopedVerifiableCredential", "application/vc-ld+cose", cwt())
		case "bare":
			return "not a credential"
		}
		return 7
	})
}

func parse(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	v2 := c.Model == "v2"
	embedded := c.Enc == "ld" || c.Enc == "di" || c.Enc == "ldjwt"
	ctx := []interface{}{"https://www.w3.org/2018/credentials/v1"}
	if v2 {
		ctx = []interface{}{"https://www.w3.org/ns/credentials/v2"}
	} else if c.Enc == "di" {
		ctx = append(ctx, issue.DICtx)
	}
	terms := lib.M{"remark": "https://ex.org/remark"}
	vp := lib.M{"@context": append(ctx, terms), "id": "urn:uuid:vp", "type": []interface{}{"VerifiablePresentation"}, "remark": "none"}
	var holder interface{}
	switch c.Holder {
	case "hanna", "mallory", "prefix":
		holder = did[c.Holder]
	case "object":
		holder = lib.M{"id": issue.Hanna, "remark": "me"}
	}
	switch c.Extra {
	case "member":
		vp["madeUpMember"] = []interface{}{"x", lib.M{"a": 1}, 7}[t.R.Intn(3)]
	case "inholder":
		holder.(lib.M)["madeUpMember"] = "x"
	}
	if holder != nil && c.Enc != "min" {
		vp["holder"] = holder
	}
	creds := []interface{}{}
	for i, it := range r.Items {
		creds = append(creds, credential(c.Alg, c.Model, i, it))
	}
	set := func(d lib.M, l []interface{}) {
		switch {
		case len(l) == 0:
			delete(d, "verifiableCredential")
			if t.R.Intn(2) == 0 {
				d["verifiableCredential"] = []interface{}{}
			}
		case c.Shape == "single" && len(l) == 1:
			d["verifiableCredential"] = l[0]
		default:
			d["verifiableCredential"] = l
		}
	}
	set(vp, creds)
	tamper := func(d lib.M) { // a change made after signing
		l := append([]interface{}{}, creds...)
		other := credential(c.Alg, c.Model, 8, item{map[bool]string{true: "env", false: "jwt"}[v2 || embedded], "good"})
		if embedded && !v2 && (t.R.Intn(2) == 0 || len(r.Items) == 0 || r.Items[0].K == "ld" || r.Items[0].K == "di") {
			other = credential(c.Alg, c.Model, 8, item{"ld", "good"})
		}
		switch c.Tamper {
		case "holder":
			if d["holder"] == issue.Mallory {
				d["holder"] = issue.Hanna
			} else {
				d["holder"] = issue.Mallory
			}
		case "swap":
			l[0], l[1] = l[1], l[0]
			set(d, l)
		case "drop":
			set(d, l[:len(l)-1])
		case "replace":
			l[0] = other
			set(d, l)
		case "more":
			if t.R.Intn(2) == 0 {
				set(d, append(l, other))
			} else {
				d["remark"] = "something else"
			}
		}
	}
	who := func(n string) issue.Who {
		switch n {
		case "forged":
			n = "forgedholder"
		case "nobody":
			n = "hanna"
		}
		return issue.As(c.Alg, n)
	}
	if embedded {
		key := fmt.Sprintf("vp/%s/%s/%s/%s/%s/%s/%s/%v/%v", c.Enc, c.Alg, c.Model, c.Want, c.Holder, c.Shape, c.Extra, vp["madeUpMember"], r.Items)
		sign := func(by string) lib.M {
			return once(key+"/"+by, func() interface{} {
				if c.Enc == "di" {
					purpose, domain, challenge := "assertionMethod", "", ""
					if c.Want != "default" {
						purpose, domain, challenge = "authentication", "verifier.example", "nonce-1"
					}
					return issue.DI(vp, who(by), purpose, domain, challenge)
				}
				return issue.LD(vp, who(by))
			}).(lib.M)
		}
		proof := func(d lib.M) interface{} {
			if l, ok := d["proof"].([]interface{}); ok {
				return l[0]
			}
			return d["proof"]
		}
		switch {
		case c.Signer == "nobody":
			if c.Set == "empty" {
				vp["proof"] = []interface{}{}
			}
		case c.Set == "empty":
			vp["proof"] = []interface{}{}
		case c.Set == "two" || c.Set == "twobad":
			other := c.Signer
			if c.Set == "twobad" {
				other = map[string]string{"hanna": "mallory", "mallory": "hanna", "forged": "mallory"}[c.Signer]
			}
			p := []interface{}{proof(sign(c.Signer)), proof(sign(other))}
			if c.Set == "twobad" && t.R.Intn(2) == 0 {
				p[0], p[1] = p[1], p[0]
			}
			vp["proof"] = p
		default:
			vp["proof"] = []interface{}{proof(sign(c.Signer))}
			if t.R.Intn(2) == 0 {
				vp["proof"] = proof(sign(c.Signer))
			}
		}
		tamper(vp)
		if c.Tamper == "signature" && c.Signer != "nobody" {
			p, _ := vp["proof"].(lib.M)
			if l, ok := vp["proof"].([]interface{}); ok {
				p = l[t.R.Intn(len(l))].(lib.M)
			}
			p = vcdoc.Clone(p)
			for _, n := range []string{"jws", "proofValue"} {
				if s, ok := p[n].(string); ok {
					p[n] = flip(s)
				}
			}
			vp["proof"] = p
		}
	}
	if c.Extra == "inproof" {
		ps, ok := vp["proof"].([]interface{})
		if !ok {
			ps = []interface{}{vp["proof"]}
		}
		for _, p := range ps {
			p.(lib.M)["madeUpMember"] = "x"
		}
	}
	payload := lib.M{"vp": vp, "jti": "urn:uuid:vp", "aud": "did:example:verifier"}
	if c.Enc == "min" {
		delete(vp, "id")
	}
	iss := c.Iss
	if iss == "same" {
		iss = c.Holder
		if iss == "object" {
			iss = "hanna"
		}
	}
	switch iss {
	case "absent":
	case "empty":
		payload["iss"] = ""
	default:
		payload["iss"] = did[iss]
	}
	if s, _ := payload["iss"].(string); c.Enc == "ldjwt" && c.Tamper == "holder" && s != "" {
		payload["iss"] = issue.Alice // replaces the member
	}
	var data []byte
	switch c.Enc {
	case "ld", "di":
		data = lib.JSON(vp)
	case "ldjwt":
		data = []byte(issue.Unsecured(payload))
	case "jwt", "min":
		x := strings.Split(issue.JWT(payload, who(c.Signer)), ".")
		switch {
		case c.Signer == "nobody" && t.R.Intn(2) == 0:
			x = strings.Split(issue.Unsecured(payload), ".")
		case c.Signer == "nobody":
			x[2] = ""
		case c.Tamper == "signature":
			x[2] = flip(x[2])
		}
		switch c.Tamper {
		case "none", "signature":
		case "holder":
			if t.R.Intn(2) == 0 || c.Enc == "min" {
				payload["iss"] = issue.Alice
			} else {
				tamper(vp)
			}
		default:
			tamper(vp)
		}
		data = []byte(x[0] + "." + ident.B64(lib.JSON(payload)) + "." + x[2])
	case "cwt":
		data = issue.CWT(payload, who(c.Signer))
		switch c.Tamper {
		case "none":
		case "signature":
			data[len(data)-1-t.R.Intn(60)] ^= 1 << t.R.Intn(8)
		default:
			tamper(vp)
			b := issue.CWT(payload, who(c.Signer))
			data = append(b[:len(b)-64:len(b)-64], data[len(data)-64:]...)
		}
	}
	switch c.Wrap {
	case "quoted":
		if c.Enc == "cwt" {
			data = []byte(issue.Hex(data))
		}
		data = []byte("\"" + string(data) + "\"")
	case "none":
		if c.Enc == "cwt" {
			data = []byte(issue.Hex(data))
		}
	case "envelope", "envelopelist":
		media := "application/vp-ld+jwt"
		if c.Enc == "cwt" {
			media, data = "application/vp-ld+cose", []byte(issue.Hex(data))
		}
		e := envelope("EnvelopedVerifiablePresentation", media, string(data))
		if c.Wrap == "envelopelist" {
			e["type"] = []interface{}{"VerifiablePresentation", "EnvelopedVerifiablePresentation"}
			e["holder"], e["verifiableCredential"] = issue.Alice, []interface{}{}
		}
		data = lib.JSON(e)
	}
	w := worlds[c.Alg]
	opts := []verifiable.PresentationOpt{verifiable.WithPresJSONLDDocumentLoader(issue.Loader)}
	if c.Checks == "all" || (c.Checks == "off" && t.R.Intn(2) == 0) {
		opts = append(opts, verifiable.WithPresProofChecker(w.chk), verifiable.WithPresDataIntegrityVerifier(w.di))
	}
	if c.Checks == "off" {
		opts = append(opts, verifiable.WithPresDisabledProofCheck())
	}
	if c.Hcheck || t.R.Intn(2) == 0 {
		opts = append(opts, verifiable.WithPresHolderCheck(c.Hcheck))
	}
	if c.Strict {
		opts = append(opts, verifiable.WithPresStrictValidation())
	}
	switch c.Want {
	case "default":
	case "match":
		opts = append(opts, verifiable.WithPresExpectedDataIntegrityFields("authentication", "verifier.example", "nonce-1"))
	case "domain":
		opts = append(opts, verifiable.WithPresExpectedDataIntegrityFields("authentication", "other.example", "nonce-1"))
	case "challenge":
		opts = append(opts, verifiable.WithPresExpectedDataIntegrityFields("authentication", "verifier.example", "nonce-2"))
	case "purpose":
		opts = append(opts, verifiable.WithPresExpectedDataIntegrityFields("assertionMethod", "verifier.example", "nonce-1"))
	}
	key := r.Base + ":" + strings.Join(r.Dev, "+")
	t.Run()
	p, err := verifiable.ParsePresentation(data, opts...)
	if (err == nil) != (r.Expect == "ok") {
		if r.Expect == "rejectplain" {
			t.Failf("embedded-plain-credential-unchecked", "accepted a presentation with a credential that does not verify: %s", data)
			return
		}
		t.Failf(r.Expect+":"+key, "specification: %s; code: %v; combination %s items %v presentation %s", r.Expect, err, tree.Show(c), r.Items, data)
		return
	}
	if err == nil {
		if p.Holder != did[r.Holder] {
			t.Failf("holder:"+key, "accepted as presented by %q; expected %q", p.Holder, did[r.Holder])
		}
		if c.Tamper == "none" && p.ID != "urn:uuid:vp" {
			t.Failf("id:"+key, "identifier %q", p.ID)
		}
		got := p.Credentials()
		if len(got) != len(r.Items) && c.Tamper == "none" {
			t.Failf("number:"+key, "%d credentials; expected %d", len(got), len(r.Items))
			return
		}
		for i, it := range r.Items {
			if c.Tamper != "none" {
				break
			}
			cc := got[i].Contents()
			want := issue.Alice
			if it.F == "foreign" {
				want = issue.Mallory
			}
			if cc.ID != fmt.Sprintf("urn:uuid:c%d", i) || cc.Issuer == nil || cc.Issuer.ID != want || len(cc.Subject) != 1 {
				t.Failf("credential:"+key, "credential %d is %s", i, tree.Show(got[i].ToRawJSON()))
				return
			}
			d, derr := got[i].CreateDisplayCredential(verifiable.DisplayAllDisclosures())
			lib.Must(derr, "display")
			if s, _ := d.ToRawJSON()["credentialSubject"].(lib.M); s["claim"] != fmt.Sprintf("value %d", i) && c.Checks != "off" {
				t.Failf("claim:"+key, "credential %d is %s", i, tree.Show(d.ToRawJSON()))
			}
		}
	}
	t.Obs(r.Expect)
}

func main() {
	lib.Main(map[string]func(*lib.T){"parse": parse}, nil)
}

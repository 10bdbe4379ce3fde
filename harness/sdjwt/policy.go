package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/trustbloc/did-go/doc/did"

	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
)

type policyRec struct {
	Expect string `json:"expect"`
	Holder string `json:"holder"`
	Base   string `json:"base"`
	C      struct {
		Algs, Leeway, Ptyp           string
		Req                          bool
		Pnonce, Paud, Halgs          string
		Alg, Sig, Exp, Nbf, Iat, Typ string
		Cnf                          string
		Kb                           bool
		Kkey, Kalg, Ktyp             string
		Knonce, Kaud                 string
		Kexp, Knbf, Kiat             string
		Where                        string
	} `json:"c"`
}

const issDID = "did:example:issuer"

var (
	polOnce sync.Once
	polChk  *checker.ProofChecker
)

func policyChecker() *checker.ProofChecker {
	polOnce.Do(func() {
		var vms []ident.VM
		for _, a := range ident.Algs {
			vms = append(vms, ident.VM{ID: issDID + "#" + a, Type: "JsonWebKey2020", Key: ident.K(a, "iss"), Rep: "jwk", Purpose: did.AssertionMethod})
		}
		polChk = defaults.NewDefaultProofChecker(ident.NewWorld().Add(issDID, vms...).Resolver())
	})
	return polChk
}

func setTime(p map[string]interface{}, name, v string, now int64) {
	switch v {
	case "absent":
	case "zero":
		p[name] = 0
	case "garbage":
		p[name] = "tomorrow"
	case "float3600":
		p[name] = float64(now+3600) + 0.5
	default:
		var n int64
		if strings.HasPrefix(v, "in") {
			fmt.Sscanf(v, "in%d", &n)
		} else {
			fmt.Sscanf(v, "ago%d", &n)
			n = -n
		}
		p[name] = now + n
	}
}

func without(all []string, x string) []string {
	var o []string
	for _, a := range all {
		if a != x {
			o = append(o, a)
		}
	}
	return o
}

func list(sel, alg string) ([]string, bool) {
	switch sel {
	case "default":
		return nil, false
	case "has":
		return []string{"ES384", alg}, true
	case "hasnot":
		return without(ident.Algs, alg), true
	case "none":
		return []string{"none"}, true
	}
	return []string{}, true
}

func tamper(tok, how string, h, p map[string]interface{}) string {
	x := strings.Split(tok, ".")
	switch how {
	case "payload":
		p["more"] = "added"
		return x[0] + "." + ident.B64(lib.JSON(p)) + "." + x[2]
	case "header":
		h["more"] = "added"
		return ident.B64(lib.JSON(h)) + "." + x[1] + "." + x[2]
	case "stripped":
		return x[0] + "." + x[1] + "."
	}
	return tok
}

func policy(t *lib.T) {
	var r policyRec
	t.Decode(&r)
	c := r.C
	now := time.Now().Unix()
	b := make([]byte, 16)
	t.R.Read(b)
	disc := ident.B64(lib.JSON([]interface{}{ident.B64(b), "given_name", "Zoë"}))
	body := map[string]interface{}{"_sd_alg": "sha-256"}
	switch c.Cnf {
	case "holder":
		body["cnf"] = map[string]interface{}{"jwk": ident.K(ifs(c.Kalg == "none", "EdDSA", c.Kalg), "holder").JWKMap()}
	case "other":
		body["cnf"] = map[string]interface{}{"jwk": ident.K(ifs(c.Kalg == "none", "EdDSA", c.Kalg), "someone").JWKMap()}
	case "nojwk":
		body["cnf"] = map[string]interface{}{"kid": "x"}
	case "badjwk":
		body["cnf"] = map[string]interface{}{"jwk": map[string]interface{}{"kty": "OKP"}}
	case "string":
		body["cnf"] = "abc"
	}
	p := map[string]interface{}{"iss": issDID}
	want := map[string]interface{}{}
	if c.Where == "vc" {
		body["_sd"] = []interface{}{tree.Digest("sha-256", disc)}
		p["vc"] = body
	} else {
		for k, v := range body {
			p[k] = v
		}
		p["_sd"] = []interface{}{tree.Digest("sha-256", disc)}
	}
	setTime(p, "exp", c.Exp, now)
	setTime(p, "nbf", c.Nbf, now)
	setTime(p, "iat", c.Iat, now)
	h := map[string]interface{}{"alg": c.Alg, "kid": issDID + "#" + c.Alg}
	if c.Typ != "absent" {
		h["typ"] = c.Typ
	}
	var k *ident.Key
	if c.Alg != "none" {
		k = ident.K(c.Alg, "iss")
		if c.Sig == "otherkey" {
			k = ident.K(c.Alg, "mallory")
		}
	} else {
		h["kid"] = issDID + "#EdDSA"
	}
	tok := tamper(ident.JWT(h, p, k), c.Sig, h, p)

	kb := ""
	if c.Kb {
		kp := map[string]interface{}{}
		for n, v := range map[string]string{"nonce": c.Knonce, "aud": c.Kaud} {
			switch v {
			case "absent":
			case "prefix":
				kp[n] = map[string]string{"nonce": "n1", "aud": "a1"}[n] + "x"
			case "shorter":
				kp[n] = n[:1]
			case "case":
				kp[n] = map[string]string{"nonce": "N1", "aud": "A1"}[n]
			case "space":
				kp[n] = map[string]string{"nonce": " n1", "aud": "a1 "}[n]
			default:
				kp[n] = v
			}
		}
		setTime(kp, "exp", c.Kexp, now)
		setTime(kp, "nbf", c.Knbf, now)
		setTime(kp, "iat", c.Kiat, now)
		kh := map[string]interface{}{"alg": c.Kalg}
		switch c.Ktyp {
		case "absent":
		case "other":
			kh["typ"] = "xyz"
		default:
			kh["typ"] = c.Ktyp
		}
		var kk *ident.Key
		if c.Kalg != "none" {
			kk = ident.K(c.Kalg, map[string]string{"holder": "holder", "other": "mallory", "issuer": "iss", "payload": "holder", "stripped": "holder"}[c.Kkey])
		}
		kb = tamper(ident.JWT(kh, kp, kk), c.Kkey, kh, kp)
	}
	pres := tok + "~" + disc + "~" + kb

	opts := []verifier.ParseOpt{verifier.WithSignatureVerifier(policyChecker()), verifier.WithHolderVerificationRequired(c.Req)}
	hopts := []holder.ParseOpt{holder.WithSignatureVerifier(policyChecker()), holder.WithSDJWTV5Validation(true)}
	if l, ok := list(c.Algs, c.Alg); ok {
		opts = append(opts, verifier.WithIssuerSigningAlgorithms(l))
		hopts = append(hopts, holder.WithIssuerSigningAlgorithms(l))
	}
	if l, ok := list(c.Halgs, c.Kalg); ok {
		opts = append(opts, verifier.WithHolderSigningAlgorithms(l))
	}
	if c.Leeway != "default" {
		d := map[string]time.Duration{"zero": 0, "hour": time.Hour}[c.Leeway]
		opts = append(opts, verifier.WithLeewayForClaimsValidation(d))
		hopts = append(hopts, holder.WithLeewayForClaimsValidation(d))
	}
	if c.Ptyp != "unset" {
		opts = append(opts, verifier.WithExpectedTypHeader(c.Ptyp))
		hopts = append(hopts, holder.WithExpectedTypHeader(c.Ptyp))
	}
	if c.Pnonce != "unset" {
		opts = append(opts, verifier.WithExpectedNonceForHolderVerification(c.Pnonce))
	}
	if c.Paud != "unset" {
		opts = append(opts, verifier.WithExpectedAudienceForHolderVerification(c.Paud))
	}
	t.R.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	out, err := verifier.Parse(pres, opts...)
	t.Run()
	if (err == nil) != (r.Expect == "ok") {
		t.Failf("verifier:"+r.Expect+":"+r.dims(), "specification: %s; verifier: %v; combination %s", r.Expect, err, tree.Show(c))
		return
	}
	if err == nil {
		for n, v := range p {
			want[n] = v
		}
		delete(want, "_sd")
		delete(want, "_sd_alg")
		if c.Where == "vc" {
			m := map[string]interface{}{}
			for n, v := range body {
				if n != "_sd" && n != "_sd_alg" {
					m[n] = v
				}
			}
			m["given_name"] = "Zoë"
			want["vc"] = m
		} else {
			want["given_name"] = "Zoë"
		}
		if !tree.Eq(out, want) {
			t.Failf("verifier:claims:"+r.dims(), "claims %s, expected %s", tree.Show(out), tree.Show(want))
		}
	}
	comb := tok + "~" + disc
	if kb != "" {
		comb += "~" + kb
	}
	_, err = holder.Parse(comb, hopts...)
	t.Run()
	if (err == nil) != (r.Holder == "ok") {
		t.Failf("holder:"+r.Holder+":"+r.dims(), "specification: %s; holder: %v; combination %s", r.Holder, err, tree.Show(c))
	}
	t.Obs(r.Expect)
}

// dims names the deviating dimensions.
func (r *policyRec) dims() string {
	return fmt.Sprintf("%s/%s", r.Base, tree.Show(r.C)[:0])
}

func ifs(c bool, a, b string) string {
	if c {
		return a
	}
	return b
}

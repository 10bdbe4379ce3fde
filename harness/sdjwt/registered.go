package main

import (
	"crypto"
	"crypto/ed25519"
	"sort"
	"strings"
	"time"

	"github.com/go-jose/go-jose/v3/jwt"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/doc/jose/jwk"

	"github.com/trustbloc/vc-go/proof/testsupport"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
)

type regRec struct {
	Expect, Base                   string
	Dev, Registered, Hidden, Shown []string
	C                              map[string]string
}

var regTexts = map[string]map[string]string{
	"sub": {"plain": "did:example:subject", "odd": "a \"quoted\" ü <&> subject"},
	"aud": {"plain": "https://verifier.example", "odd": "aud~with.dots~"},
	"jti": {"plain": "urn:uuid:1", "odd": "_sd"},
	"id":  {"plain": "did:example:holder", "odd": "..."},
}

func registered(t *lib.T) {
	var r regRec
	t.Decode(&r)
	c := r.C
	key := func(k string) string { return "registered-" + k + ":" + r.Base + ":" + strings.Join(r.Dev, "+") }
	now := time.Now().Unix()
	at := func(v string) *jwt.NumericDate {
		n := jwt.NumericDate(map[string]int64{"past": now - 86400, "future": now + 86400, "epoch": 0, "far": 253402300799}[v])
		return &n
	}
	holderKey := ident.K("EdDSA", "holder")
	hjwk := &jwk.JWK{}
	lib.Must(hjwk.UnmarshalJSON(lib.JSON(holderKey.JWK())), "key of the holder")

	want := map[string]interface{}{} // values of what is registered
	var opts []issuer.NewOpt
	for _, n := range r.Registered {
		v := regTexts[n][c[n]]
		switch n {
		case "sub":
			opts = append(opts, issuer.WithSubject(v))
		case "aud":
			opts = append(opts, issuer.WithAudience(v))
		case "jti":
			opts = append(opts, issuer.WithJTI(v))
		case "id":
			opts = append(opts, issuer.WithID(v))
		case "iat":
			opts = append(opts, issuer.WithIssuedAt(at(c[n])))
		case "exp":
			opts = append(opts, issuer.WithExpiry(at(c[n])))
		case "nbf":
			opts = append(opts, issuer.WithNotBefore(at(c[n])))
		case "cnf":
			opts = append(opts, issuer.WithHolderPublicKey(hjwk))
			want[n] = map[string]interface{}{"jwk": lib.ParseJSON(lib.JSON(hjwk))}
			continue
		case "iss":
			v = "did:example:issuer"
		}
		if n == "iat" || n == "exp" || n == "nbf" {
			want[n] = float64(*at(c[n]))
		} else {
			want[n] = v
		}
	}

	// the claims
	address := map[string]interface{}{"street": "Main Street"}
	if c["inner"] != "none" {
		address[c["inner"]] = "inner-" + c["inner"]
	}
	claims := map[string]interface{}{"given": "Hanna Muster", "address": address}
	if c["top"] != "none" {
		claims[c["top"]] = "claimed as " + c["top"]
	}
	switch c["layout"] {
	case "structured":
		opts = append(opts, issuer.WithStructuredClaims(true))
	case "recursive":
		opts = append(opts, issuer.WithRecursiveClaimsObjects([]string{"address"}))
	case "always":
		opts = append(opts, issuer.WithAlwaysIncludeObjects([]string{"address"}))
	case "nonsd":
		non := []string{"address"}
		if c["top"] != "none" {
			non = append(non, c["top"])
		}
		opts = append(opts, issuer.WithNonSelectivelyDisclosableClaims(non))
	}
	switch c["ver"] {
	case "two":
		opts = append(opts, issuer.WithSDJWTVersion(common.SDJWTVersionV2))
	case "five":
		opts = append(opts, issuer.WithSDJWTVersion(common.SDJWTVersionV5))
	}
	if c["decoy"] == "yes" {
		opts = append(opts, issuer.WithDecoyDigests(true))
	}
	alg := "sha-256"
	switch c["hash"] {
	case "sha384":
		alg = "sha-384"
		opts = append(opts, issuer.WithHashAlgorithm(crypto.SHA384))
	case "sha512":
		alg = "sha-512"
		opts = append(opts, issuer.WithHashAlgorithm(crypto.SHA512))
	}
	t.R.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
	var headers jose.Headers
	switch c["head"] {
	case "kid":
		headers = jose.Headers{"kid": "did:example:issuer#key"}
	case "typ":
		headers = jose.Headers{"typ": "vc+sd-jwt"}
	}
	k := ident.K("EdDSA", "iss")
	name := ""
	if c["iss"] == "plain" {
		name = "did:example:issuer"
	}
	before := lib.JSON(claims)
	tok, err := issuer.New(name, claims, headers, ident.Jose{K: k}, opts...)
	t.Run()
	if err != nil {
		t.Failf(key("issue"), "issuing failed: %v; %v", err, c)
		return
	}
	if string(lib.JSON(claims)) != string(before) {
		t.Failf(key("mutates"), "issuing changed the claims %s to %s", before, lib.JSON(claims))
	}
	combined, err := tok.Serialize(false)
	lib.Must(err, "serialize")
	parts := strings.Split(combined, "~")
	head, payload, err := ident.ParseJWT(parts[0])
	lib.Must(err, "issued token")
	for n, v := range headers {
		if head[n] != v {
			t.Failf(key("header"), "header %s is %v, not %v", n, head[n], v)
		}
	}
	raw := tree.Show(payload)
	var bad []string
	for n, v := range want {
		if !tree.Eq(payload[n], v) {
			bad = append(bad, n)
		}
		delete(payload, n)
	}
	if sort.Strings(bad); len(bad) > 0 {
		t.Failf(key("clear"), "%v not registered as asked (%v) in %s", bad, want, raw)
		return
	}
	if payload["_sd_alg"] != alg {
		t.Failf(key("alg"), "digests by %v, asked for %s", payload["_sd_alg"], alg)
	}
	delete(payload, "_sd_alg")
	w := tree.Open(payload, parts[1:], alg)
	if w.Problem != "" {
		t.Failf(key("structure"), "%s (payload %s)", w.Problem, raw)
		return
	}
	if rest := w.Restored(payload); !tree.Eq(rest, claims) {
		t.Failf(key("restore"), "payload with all disclosures is %s, the claims were %s", tree.Show(rest), before)
	}
	for _, n := range r.Hidden {
		v := map[string]string{"given": "Hanna Muster", "street": "Main Street"}[n]
		if v == "" {
			v = "claimed as " + n
		}
		if strings.Contains(raw, v) {
			t.Failf(key("leak"), "claim %s is in the payload %s", n, raw)
		}
	}

	// what a verifier gets
	ver := testsupport.NewEd25519Verifier(k.Ed.Public().(ed25519.PublicKey))
	sent := combined
	if len(parts) > 1 {
		var all []string
		if c["reveal"] == "all" {
			all = parts[1:]
		}
		if sent, err = holder.CreatePresentation(combined, all); err != nil {
			t.Failf(key("present"), "presenting: %v", err)
			return
		}
	}
	out, err := verifier.Parse(sent, verifier.WithSignatureVerifier(ver))
	t.Run()
	if (err == nil) != (r.Expect == "ok") {
		t.Failf(key(r.Expect), "specification: %s; verifier: %v; payload %s", r.Expect, err, raw)
		return
	}
	if err == nil {
		all := map[string]interface{}{}
		for n, v := range want {
			all[n] = v
		}
		if c["reveal"] == "all" {
			for n, v := range claims {
				all[n] = v
			}
		} else {
			for n, v := range w.Base(payload).(map[string]interface{}) {
				all[n] = v
			}
		}
		if !tree.Eq(out, all) {
			t.Failf(key("claims"), "verifier computes %s, specification %s", tree.Show(out), tree.Show(all))
		}
		for _, n := range r.Shown {
			if a, _ := out["address"].(map[string]interface{}); n != "street" && out[n] == nil || n == "street" && a["street"] == nil {
				t.Failf(key("shown"), "%s is missing in %s", n, tree.Show(out))
			}
		}
	}
	t.Obs(r.Expect)
}

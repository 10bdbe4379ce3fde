// Command jwtproof replays the behaviours of JwtProof.tla.
package main

import (
	"encoding/asn1"
	"math/big"
	"strings"
	"sync"

	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/kms-go/doc/jose"

	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/rsa"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es384"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es521"
	"github.com/trustbloc/vc-go/proof/jwtproofs/ps256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
)

type rec struct {
	Expect string   `json:"expect"`
	Base   string   `json:"base"`
	Dev    []string `json:"dev"`
	C      struct {
		Entry, Kt, Alg, Vm, Kid, Signer, Typ, Cty, Iss, Tamper string
	} `json:"c"`
}

const (
	alice   = "did:example:alice"
	mallory = "did:example:mallory"
)

var ktAlg = map[string]string{"Ed": "EdDSA", "P256": "ES256", "P384": "ES384", "P521": "ES521", "K256": "ES256K", "RSA": "RS256"}

// method builds a verification method of the requested form.
func method(id, form string, k *ident.Key, p did.VerificationRelationship) ident.VM {
	v := ident.VM{ID: id, Key: k, Purpose: p, Rep: "bytes", Type: ident.DefaultType(k)}
	switch form {
	case "jwk":
		v.Type, v.Rep = "JsonWebKey2020", "jwk"
	case "nativejwk":
		v.Rep = "jwk"
	case "jwkbytes":
		v.Type = "JsonWebKey2020"
	case "foreign":
		v.Type, v.Rep = "Bls12381G2Key2020", "jwk"
	}
	return v
}

type world struct {
	chk *checker.ProofChecker
	emb *checker.EmbeddedVMProofChecker
}

var (
	mu     sync.Mutex
	worlds = map[string]*world{}
)

func worldFor(kt, form string) *world {
	mu.Lock()
	defer mu.Unlock()
	id := kt + "/" + form
	if w, ok := worlds[id]; ok {
		return w
	}
	a := ktAlg[kt]
	own := method(alice+"#own", form, ident.K(a, "own"), did.AssertionMethod)
	w := ident.NewWorld().Add(alice, own,
		method(alice+"#second", form, ident.K(a, "second"), did.Authentication),
		method(alice+"#agreement", form, ident.K(a, "own"), did.KeyAgreement), embed(method(alice+"#embedded", form, ident.K(a, "own"), did.KeyAgreement)),
		embed(method(alice+"#inside", form, ident.K(a, "own"), did.AssertionMethod))).
		Add(mallory, method(mallory+"#own", form, ident.K(a, "mallory"), did.AssertionMethod))
	x := &world{
		chk: defaults.NewDefaultProofChecker(w.Resolver()),
		emb: checker.NewEmbeddedVMProofChecker(own.Vermethod(),
			checker.WithSignatureVerifiers(ed25519.New(), rsa.NewPS256(), rsa.NewRS256(), ecdsa.NewSecp256k1(), ecdsa.NewES256(),
				ecdsa.NewES384(), ecdsa.NewES521()),
			checker.WithJWTAlg(eddsa.New(), es256.New(), es256k.New(), es384.New(), es521.New(), rs256.New(), ps256.New())),
	}
	worlds[id] = x
	return x
}

func embed(v ident.VM) ident.VM { v.Embed = true; return v }

func str(m map[string]interface{}, name, v string) {
	switch v {
	case "absent":
	case "number":
		m[name] = 7
	default:
		m[name] = v
	}
}

func prove(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	w := worldFor(c.Kt, c.Vm)
	h := map[string]interface{}{}
	str(h, "alg", c.Alg)
	str(h, "typ", c.Typ)
	str(h, "cty", c.Cty)
	kid := map[string]string{"own": alice + "#own", "second": alice + "#second", "agreement": alice + "#agreement", "embedded": alice + "#embedded", "inside": alice + "#inside", "mallory": mallory + "#own",
		"unknown": alice + "#none", "upper": alice + "#OWN", "fragment": "#own", "longer": alice + "#own1", "bare": alice, "absent": "absent", "number": "number"}[c.Kid]
	str(h, "kid", kid)
	iss := map[string]string{"alice": alice, "mallory": mallory, "nobody": "did:example:nobody", "alicelast": alice, "alicefirst": mallory, "aliceurl": alice + "#own", "empty": "", "absent": "absent"}[c.Iss]
	p := map[string]interface{}{"nonce": t.R.Int63n(1 << 40), "vc": map[string]interface{}{"x": []interface{}{"y", nil}}}
	str(p, "iss", iss)
	if iss == "" {
		p["iss"] = ""
	}
	if iss == "absent" {
		iss = ""
	}
	sign := func(in string) []byte {
		if c.Signer == "nobody" {
			return nil
		}
		k := ident.K(ktAlg[c.Kt], c.Signer)
		sig, err := k.SignAs(c.Alg, []byte(in))
		if err != nil || (c.Kt != "RSA" && c.Alg != ktAlg[c.Kt]) {
			sig, err = k.Sign([]byte(in))
			lib.Must(err, "sign")
		}
		return sig
	}
	text := func() []byte { // of the claims
		first := map[string]string{"alicelast": mallory, "alicefirst": alice}[c.Iss]
		if first == "" {
			return lib.JSON(p)
		}
		rest := map[string]interface{}{}
		for k, v := range p {
			if k != "iss" {
				rest[k] = v
			}
		}
		b := string(lib.JSON(rest))
		return []byte(`{"iss":"` + first + `",` + b[1:len(b)-1] + `,"iss":"` + iss + `"}`)
	}
	signed := text()
	hp, pp := ident.B64(lib.JSON(h)), ident.B64(signed)
	sig := sign(hp + "." + pp)
	switch c.Tamper {
	case "payload":
		p["more"] = true
		pp = ident.B64(text())
	case "header":
		h["more"] = true
		hp = ident.B64(lib.JSON(h))
	case "bit":
		if len(sig) > 0 {
			sig[t.R.Intn(len(sig))] ^= 1 << t.R.Intn(8)
		}
	case "short":
		if len(sig) > 0 {
			sig = sig[:len(sig)-1]
		}
	case "long":
		sig = append(sig, 0)
	case "nosig":
		sig = nil
	case "der", "dertail":
		if n := len(sig) / 2; c.Kt[0] == 'P' || c.Kt[0] == 'K' {
			b, err := asn1.Marshal(struct{ R, S *big.Int }{new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:])})
			lib.Must(err, "der")
			sig = b
		}
		if c.Tamper == "dertail" {
			sig = append(sig, []byte("tail")[:1+t.R.Intn(4)]...)
		}
	case "swap":
		sig = sign(hp + "." + ident.B64(lib.JSON(map[string]interface{}{"iss": iss, "other": 1})))
	}
	tok := hp + "." + pp + "." + ident.B64(sig)
	switch c.Tamper {
	case "badb64":
		tok = hp + "." + pp + "." + ident.B64(sig) + "*"
	case "twoparts":
		tok = hp + "." + pp
	}
	var err error
	var out map[string]interface{}
	var raw []byte
	t.Run()
	switch c.Entry {
	case "issuer", "noissuer":
		var x *jwt.JSONWebToken
		x, raw, err = jwt.ParseAndCheckProof(tok, w.chk, c.Entry == "issuer")
		if err == nil {
			out = x.Payload
		}
	case "check":
		err = jwt.CheckProof(tok, w.chk, &iss, nil)
	case "checknil":
		err = jwt.CheckProof(tok, w.chk, nil, nil)
	default:
		var hd jose.Headers
		x := strings.Split(tok, ".")
		if len(x) != 3 {
			t.Obs("unsplit")
			return
		}
		hb, _ := ident.UnB64(x[0])
		hd = lib.ParseJSON(hb).(map[string]interface{})
		s, e2 := ident.UnB64(x[2])
		if e2 != nil {
			t.Obs("unsplit")
			return
		}
		if c.Entry == "proof" {
			err = w.chk.CheckJWTProof(hd, iss, []byte(x[0]+"."+x[1]), s)
		} else {
			err = w.emb.CheckJWTProof(hd, iss, []byte(x[0]+"."+x[1]), s)
		}
	}
	if r.Expect != "either" && (err == nil) != (r.Expect == "ok") {
		t.Failf(r.Expect+":"+r.Base+":"+strings.Join(r.Dev, "+"), "specification: %s; code: %v; combination %s token %s", r.Expect, err, tree.Show(c), tok)
		return
	}
	if err == nil && out != nil {
		if !tree.Eq(out, p) || string(raw) != string(signed) {
			t.Failf("payload:"+r.Base, "payload %s instead of %s", tree.Show(out), tree.Show(p))
		}
	}
	if c.Entry == "check" || c.Entry == "checknil" {
		// the same token with its payload detached
		x := strings.Split(tok, ".")
		if len(x) == 3 {
			exp := &iss
			if c.Entry == "checknil" {
				exp = nil
			}
			b, _ := ident.UnB64(x[1])
			t.Run()
			if e2 := jwt.CheckProof(x[0]+".."+x[2], w.chk, exp, b); (e2 == nil) != (err == nil) {
				t.Failf("detached:"+r.Base+":"+strings.Join(r.Dev, "+"), "attached: %v, detached: %v", err, e2)
			}
		}
	}
	t.Obs(r.Expect)
}

func main() {
	lib.Main(map[string]func(*lib.T){"prove": prove}, nil)
}

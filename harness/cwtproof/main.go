// Command cwtproof replays the behaviours of CwtProof.tla.
package main

import (
	"encoding/hex"
	"strings"
	"sync"

	"github.com/fxamacker/cbor/v2"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/documentloader"
	ldtestutil "github.com/trustbloc/did-go/doc/ld/testutil"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/cwt"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/verifiable"
	cwt2 "github.com/trustbloc/vc-go/verifiable/cwt"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

type rec struct {
	Expect string   `json:"expect"`
	Base   string   `json:"base"`
	Dev    []string `json:"dev"`
	C      struct {
		Entry, Kt, Alg, Algat, Vm, Kid, Kidat, Ck, Signer, Iss, Form, Tamper string
	} `json:"c"`
}

const (
	alice   = "did:example:alice"
	mallory = "did:example:mallory"
)

var (
	ktAlg  = map[string]string{"Ed": "EdDSA", "P256": "ES256", "P384": "ES384", "P521": "ES521", "K256": "ES256K", "RSA": "PS256"}
	algID  = map[string]interface{}{"EdDSA": -8, "ES256": -7, "ES384": -35, "ES512": -36, "ES256K": -47, "PS256": -37, "PS384": -38, "RS256": -257, "zero": 0, "unheard": -9999, "text": "EdDSA"}
	loader = func() *documentloader.DocumentLoader {
		l, err := ldtestutil.DocumentLoader()
		lib.Must(err, "loader")
		return l
	}()
)

func method(id, form string, k *ident.Key, p did.VerificationRelationship) ident.VM {
	v := ident.VM{ID: id, Key: k, Purpose: p, Rep: "bytes", Type: ident.DefaultType(k)}
	switch form {
	case "jwk":
		v.Type, v.Rep = "JsonWebKey2020", "jwk"
	case "nativejwk":
		v.Rep = "jwk"
	case "jwkbytes":
		v.Type = "JsonWebKey2020"
	case "foreign":
		v.Type, v.Rep = "Bls12381G2Key2020", "jwk"
	}
	return v
}

func embed(v ident.VM) ident.VM { v.Embed = true; return v }

var (
	mu     sync.Mutex
	worlds = map[string]*checker.ProofChecker{}
)

func worldFor(kt, form string) *checker.ProofChecker {
	mu.Lock()
	defer mu.Unlock()
	id := kt + "/" + form
	if w, ok := worlds[id]; ok {
		return w
	}
	a := ktAlg[kt]
	w := ident.NewWorld().Add(alice, method(alice+"#own", form, ident.K(a, "own"), did.AssertionMethod),
		method(alice+"#second", form, ident.K(a, "second"), did.Authentication),
		method(alice+"#agreement", form, ident.K(a, "own"), did.KeyAgreement), embed(method(alice+"#embedded", form, ident.K(a, "own"), did.KeyAgreement)),
		embed(method(alice+"#inside", form, ident.K(a, "own"), did.AssertionMethod))).
		Add(mallory, method(mallory+"#own", form, ident.K(a, "mallory"), did.AssertionMethod))
	worlds[id] = defaults.NewDefaultProofChecker(w.Resolver())
	return worlds[id]
}

func enc(v interface{}) []byte {
	b, err := cbor.Marshal(v)
	lib.Must(err, "cbor")
	return b
}

// coseKey is the public key as COSE_Key header text.
func coseKey(k *ident.Key) []byte {
	ck, err := cose.NewKeyFromPublic(k.Public())
	lib.Must(err, "cose key")
	b, err := ck.MarshalCBOR()
	lib.Must(err, "cose key")
	return b
}

// signAs signs as the COSE algorithm asks, or with the key's own algorithm.
func signAs(kt, alg string, k *ident.Key, in []byte) []byte {
	own := ktAlg[kt]
	if kt == "RSA" && alg == "RS256" {
		own = "RS256"
	}
	sig, err := k.SignAs(own, in)
	lib.Must(err, "sign")
	return sig
}

func prove(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	chk := worldFor(c.Kt, c.Vm)
	a := ktAlg[c.Kt]
	prot, unprot := map[interface{}]interface{}{}, map[interface{}]interface{}{}
	if v, ok := algID[c.Alg]; ok {
		if c.Algat != "unprotected" {
			prot[1] = v
		}
		if c.Algat != "protected" {
			unprot[1] = v
		}
	}
	kids := map[string]string{"own": alice + "#own", "second": alice + "#second", "agreement": alice + "#agreement", "embedded": alice + "#embedded", "inside": alice + "#inside",
		"mallory": mallory + "#own", "unknown": alice + "#none", "upper": alice + "#OWN", "fragment": "#own", "longer": alice + "#own1", "bare": alice, "empty": ""}
	kat := prot
	if c.Kidat == "unprotected" {
		kat = unprot
	}
	if v, ok := kids[c.Kid]; ok {
		kat[4] = []byte(v)
	} else if c.Kid == "text" {
		kat[4] = alice + "#own"
	}
	switch c.Ck {
	case "own", "mallory":
		prot["COSE_Key"] = hex.EncodeToString(coseKey(ident.K(a, c.Ck)))
	case "badhex":
		prot["COSE_Key"] = "xyz"
	case "badkey":
		prot["COSE_Key"] = "a10101"
	case "bytes":
		prot["COSE_Key"] = coseKey(ident.K("EdDSA", "own"))
	}
	if c.Form == "extra" {
		prot["more"] = "header"
	}
	issv := map[string]interface{}{"alice": alice, "mallory": mallory, "nobody": "did:example:nobody", "empty": "", "number": 7}[c.Iss]
	iss, _ := issv.(string)
	pl := map[interface{}]interface{}{"vc": map[string]interface{}(vcdoc.Base("x", t.R.Intn(2) == 0))}
	byParse := c.Entry == "parse" || c.Entry == "recheck"
	if byParse {
		vc := pl["vc"].(map[string]interface{})
		delete(vc, "issuer")
		if c.Iss != "absent" {
			vc["issuer"] = issv
			if iss != "" && t.R.Intn(2) == 0 {
				vc["issuer"] = map[string]interface{}{"id": iss, "name": "n"}
			}
		}
	} else {
		pl = map[interface{}]interface{}{7: []byte("cti")}
		if c.Iss != "absent" {
			pl[1] = issv
		}
	}
	pb, hb := enc(pl), enc(prot)
	sign := func(h, p []byte) []byte {
		if c.Signer == "nobody" {
			return []byte{}
		}
		in := []interface{}{"Signature1", h, []byte{}, p}
		switch c.Tamper {
		case "aad":
			in[2] = []byte("x")
		case "context":
			in[0] = "Signature"
		}
		return signAs(c.Kt, c.Alg, ident.K(a, c.Signer), enc(in))
	}
	var sig interface{}
	s := sign(hb, pb)
	switch c.Tamper {
	case "payload":
		if byParse {
			pl["vc"].(map[string]interface{})["credentialSubject"] = map[string]interface{}{"id": "did:example:eve"}
		} else {
			pl["more"] = 1
		}
		pb = enc(pl)
	case "header":
		prot["later"] = 1
		hb = enc(prot)
	case "unprotected":
		unprot["later"] = 1
	case "bit":
		if len(s) > 0 {
			s[t.R.Intn(len(s))] ^= 1 << t.R.Intn(8)
		}
	case "shortsig":
		if len(s) > 0 {
			s = s[:len(s)-1]
		}
	case "dertail":
		s = ident.DERTail(s)
	case "longsig":
		s = append(s, 0)
	case "nosig":
		s = []byte{}
	case "swap":
		s = sign(hb, enc(map[interface{}]interface{}{1: iss, "other": 1}))
	}
	sig = s
	if c.Tamper == "nullsig" {
		sig = nil
	}
	var pv interface{} = pb
	if c.Tamper == "detached" {
		pv = nil
	}
	hv := interface{}(hb)
	if c.Form == "longheader" { // the header's byte string with a longer length encoding
		l := len(hb)
		hv = cbor.RawMessage(append([]byte{0x5a, 0, 0, byte(l >> 8), byte(l)}, hb...))
	}
	parts := []interface{}{hv, unprot, pv, sig}
	tag := uint64(18)
	switch c.Form {
	case "short":
		parts = parts[:3]
	case "sign":
		tag = 98
	}
	msg := enc(cbor.Tag{Number: tag, Content: parts})
	switch c.Form {
	case "untagged":
		msg = enc(parts)
	case "trailing":
		msg = append(msg, 0)
	case "hex":
		msg = []byte(hex.EncodeToString(msg))
	case "quoted":
		msg = []byte("\"" + hex.EncodeToString(msg) + "\"")
	}
	var err error
	var out *cose.Sign1Message
	var raw []byte
	var vc *verifiable.Credential
	t.Run()
	switch c.Entry {
	case "parse":
		vc, err = verifiable.ParseCredential(msg, verifiable.WithCWTProofChecker(chk), verifiable.WithJSONLDDocumentLoader(loader))
	case "recheck":
		vc, err = verifiable.ParseCredential(msg, verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(loader))
		if err == nil {
			err = vc.CheckProof(verifiable.WithCWTProofChecker(chk), verifiable.WithJSONLDDocumentLoader(loader))
		}
	case "token", "tokennil":
		out, raw, err = cwt.ParseAndCheckProof(msg, chk, c.Entry == "token")
	default:
		out, err = cwt.Parse(msg)
		if err == nil {
			var exp *string
			if c.Entry == "proof" {
				exp = &iss
			}
			var v []byte
			if v, err = cwt2.GetProofValue(out); err == nil {
				err = cwt.CheckProof(out, chk, exp, v, out.Signature)
			}
		}
	}
	if (err == nil) != (r.Expect == "ok") {
		t.Failf(r.Expect+":"+r.Base+":"+strings.Join(r.Dev, "+"), "specification: %s; code: %v; combination %s token %x", r.Expect, err, tree.Show(c), msg)
		return
	}
	if err == nil {
		if out != nil && (string(out.Payload) != string(pb) || (raw != nil && string(raw) != string(pb))) {
			t.Failf("payload:"+r.Base, "payload %x instead of %x", out.Payload, pb)
		}
		if byParse && vc.Contents().Issuer.ID != iss {
			t.Failf("issuer:"+r.Base, "issuer %s instead of %s", vc.Contents().Issuer.ID, iss)
		}
	}
	t.Obs(r.Expect)
}

func main() {
	lib.Main(map[string]func(*lib.T){"prove": prove}, nil)
}

// Command ldproof replays the behaviours of LDProof.tla.
package main

import (
	"encoding/base64"
	"strings"
	"sync"
	"time"

	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/documentloader"
	"github.com/trustbloc/did-go/doc/ld/processor"
	ldp "github.com/trustbloc/did-go/doc/ld/proof"
	ldtestutil "github.com/trustbloc/did-go/doc/ld/testutil"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ecdsasecp256k1signature2019"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/verifiable/lddocument"
	"github.com/trustbloc/vc-go/vermethod"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

type rec struct {
	Expect string   `json:"expect"`
	Base   string   `json:"base"`
	Dev    []string `json:"dev"`
	C      struct {
		Entry, Vm, Kid, Signer, Iss, Set, Doc, Opt string
	} `json:"c"`
}

const (
	alice   = "did:example:alice"
	mallory = "did:example:mallory"
)

type suite struct {
	typ, alg string
	kt       kms.KeyType
	jws      bool
	ctx      string
	derived  bool
}

const bbsCtx = "https://w3id.org/security/bbs/v1"

var suites = map[string]suite{
	"ed18v":      {"Ed25519Signature2018", "EdDSA", kms.ED25519Type, false, "", false},
	"ed18j":      {"Ed25519Signature2018", "EdDSA", kms.ED25519Type, true, "", false},
	"ed20v":      {"Ed25519Signature2020", "EdDSA", kms.ED25519Type, false, "https://w3id.org/security/suites/ed25519-2020/v1", false},
	"jwsEd":      {"JsonWebSignature2020", "EdDSA", kms.ED25519Type, true, "", false},
	"jwsP256":    {"JsonWebSignature2020", "ES256", kms.ECDSAP256TypeIEEEP1363, true, "", false},
	"jwsP384":    {"JsonWebSignature2020", "ES384", kms.ECDSAP384TypeIEEEP1363, true, "", false},
	"jwsP521":    {"JsonWebSignature2020", "ES521", kms.ECDSAP521TypeIEEEP1363, true, "", false},
	"jwsK256":    {"JsonWebSignature2020", "ES256K", kms.ECDSASecp256k1TypeIEEEP1363, true, "", false},
	"jwsRSA":     {"JsonWebSignature2020", "PS256", kms.RSAPS256Type, true, "", false},
	"jwsEdv":     {"JsonWebSignature2020", "EdDSA", kms.ED25519Type, false, "https://w3id.org/security/jws/v1", false},
	"k256v":      {"EcdsaSecp256k1Signature2019", "ES256K", kms.ECDSASecp256k1TypeIEEEP1363, false, "", false},
	"k256j":      {"EcdsaSecp256k1Signature2019", "ES256K", kms.ECDSASecp256k1TypeIEEEP1363, true, "", false},
	"bbs":        {"BbsBlsSignature2020", "BBS", kms.BLS12381G2Type, false, bbsCtx, false},
	"bbsderived": {"BbsBlsSignature2020", "BBS", kms.BLS12381G2Type, false, bbsCtx, true},
}

func method(id, form string, k *ident.Key, p did.VerificationRelationship) ident.VM {
	v := ident.VM{ID: id, Key: k, Purpose: p, Rep: "bytes", Type: ident.DefaultType(k)}
	switch form {
	case "jwk":
		v.Type, v.Rep = "JsonWebKey2020", "jwk"
	case "nativejwk":
		v.Rep = "jwk"
	case "jwkbytes":
		v.Type = "JsonWebKey2020"
	case "foreign":
		v.Type = "X25519KeyAgreementKey2019"
	case "otherkey":
		a := "ES256"
		if k.Alg == a {
			a = "EdDSA"
		}
		v.Key, v.Type, v.Rep = ident.K(a, "other"), "JsonWebKey2020", "jwk"
	}
	if k.Alg == "BBS" && v.Rep == "jwk" && form != "otherkey" { // no JWK form of this key type here
		v.Rep = "bytes"
		v.Type = "JsonWebKey2020"
	}
	return v
}

var (
	mu     sync.Mutex
	worlds = map[string]*checker.ProofChecker{}
	loader = func() *documentloader.DocumentLoader {
		l, err := ldtestutil.DocumentLoader()
		lib.Must(err, "loader")
		return l
	}()
)

func worldFor(alg, form string) *checker.ProofChecker {
	mu.Lock()
	defer mu.Unlock()
	id := alg + "/" + form
	if w, ok := worlds[id]; ok {
		return w
	}
	w := ident.NewWorld().Add(alice, method(alice+"#own", form, ident.K(alg, "own"), did.AssertionMethod),
		method(alice+"#second", form, ident.K(alg, "second"), did.Authentication),
		method(alice+"#agreement", form, ident.K(alg, "own"), did.KeyAgreement), embed(method(alice+"#embedded", form, ident.K(alg, "own"), did.KeyAgreement)),
		embed(method(alice+"#inside", form, ident.K(alg, "own"), did.AssertionMethod))).
		Add(mallory, method(mallory+"#own", form, ident.K(alg, "mallory"), did.AssertionMethod))
	x := defaults.NewDefaultProofChecker(w.Resolver())
	worlds[id] = x
	return x
}

func embed(v ident.VM) ident.VM { v.Embed = true; return v }

func creatorFor(k *ident.Key) *creator.ProofCreator {
	return creator.New(creator.WithLDProofType(ed25519signature2018.New(), k), creator.WithLDProofType(ed25519signature2020.New(), k),
		creator.WithLDProofType(jsonwebsignature2020.New(), k), creator.WithLDProofType(ecdsasecp256k1signature2019.New(), k),
		creator.WithLDProofType(bbsblssignature2020.New(), k),
		creator.WithJWTAlg(eddsa.New(), k), creator.WithJWTAlg(es256.New(), k), creator.WithJWTAlg(es256k.New(), k))
}

// rawCreator signs whatever it is asked to, so that mismatching combinations can be made.
type rawCreator struct {
	*creator.ProofCreator
	k *ident.Key
}

func (r rawCreator) SignLinkedDocument(_ *ldp.Proof, _ kms.KeyType, doc []byte) ([]byte, error) {
	return r.k.Sign(doc)
}

func (r rawCreator) LDPJWTAlg(_ *ldp.Proof, _ kms.KeyType) (string, error) { return r.k.Alg, nil }

type fixed struct{ vm *vermethod.VerificationMethod }

func (f fixed) ResolveVerificationMethod(string, string) (*vermethod.VerificationMethod, error) {
	return f.vm, nil
}

func kidOf(k string) string {
	return map[string]string{"own": alice + "#own", "second": alice + "#second", "agreement": alice + "#agreement", "embedded": alice + "#embedded", "inside": alice + "#inside", "mallory": mallory + "#own",
		"unknown": alice + "#none", "upper": alice + "#OWN", "fragment": "#own", "bare": alice}[k]
}

// baseDoc is the unsigned credential.
func baseDoc(s suite, iss string) lib.M {
	var ctx []interface{}
	if s.ctx != "" {
		ctx = append(ctx, s.ctx)
	}
	doc := vcdoc.Base(nil, false, ctx...)
	if s.derived { // lists do not survive the derivation's round trip through RDF (it fails closed)
		delete(doc["credentialSubject"].(lib.M), "seq")
	}
	switch iss {
	case "aliceobject":
		doc["issuer"] = lib.M{"id": alice, "name": "Alice"}
	default:
		doc["issuer"] = "did:example:" + iss
	}
	return doc
}

// sign returns the proof that (signer) makes over doc.
func sign(s suite, doc lib.M, kid, signer string) lib.M {
	if s.derived && kid == "absent" {
		kid = "own" // removed from the derived proof
	}
	k := ident.K(s.alg, signer)
	d := vcdoc.Clone(doc)
	created := time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)
	sc := &lddocument.SigningContext{SignatureType: s.typ, KeyType: s.kt, Created: &created, Purpose: "assertionMethod",
		Domain: "domain.example", Challenge: "c-1"}
	if s.derived {
		sc.Domain, sc.Challenge = "", ""
	}
	if s.jws {
		sc.SignatureRepresentation = ldp.SignatureJWS
	}
	switch kid {
	case "creator":
		sc.Creator = alice + "#own"
	case "absent":
	default:
		sc.VerificationMethod = kidOf(kid)
	}
	err := lddocument.NewDocumentSigner(rawCreator{creatorFor(k), k}).Sign(sc, d, processor.WithDocumentLoader(loader))
	lib.Must(err, "sign "+s.typ)
	p := vcdoc.Clone(d)["proof"]
	if l, ok := p.([]interface{}); ok {
		return l[0].(lib.M)
	}
	return p.(lib.M)
}

type signed struct {
	once  sync.Once
	doc   lib.M // without proof
	proof lib.M
	err   error
}

var (
	smu  sync.Mutex
	memo = map[string]*signed{}
)

// signedDoc is memoised; callers must clone.
func signedDoc(base, iss, kid, signer, variant string) (lib.M, lib.M, error) {
	id := strings.Join([]string{base, iss, kid, signer, variant}, "/")
	smu.Lock()
	e, ok := memo[id]
	if !ok {
		e = &signed{}
		memo[id] = e
	}
	smu.Unlock()
	e.once.Do(func() {
		s := suites[base]
		d := baseDoc(s, iss)
		if variant == "other" {
			d["credentialSubject"].(lib.M)["claim"] = "another value"
		}
		e.proof = sign(s, d, kid, signer)
		e.doc = d
		if s.derived {
			d["proof"] = e.proof
			frame := lib.M{"@context": vcdoc.Clone(d)["@context"], "type": []interface{}{"VerifiableCredential", "ExtraType"},
				"@explicit": true, "issuer": lib.M{}, "issuanceDate": lib.M{},
				"credentialSubject": lib.M{"@explicit": true, "claim": lib.M{}, "num": lib.M{}, "tags": lib.M{}, "motto": lib.M{}}}
			pub := &vermethod.VerificationMethod{Type: "Bls12381G2Key2020", Value: ident.K("BBS", signer).Bytes()}
			out, err := verifiable.BBSSelectiveDisclosure(vcdoc.Clone(d), frame, []byte("nonce"), &verifiable.BBSProofCreator{
				ProofDerivation: bbs12381g2pub.New(), VerificationMethodResolver: fixed{pub}}, processor.WithDocumentLoader(loader))
			if err != nil {
				e.err = err
				return
			}
			o := vcdoc.Clone(out)
			switch p := o["proof"].(type) {
			case []interface{}:
				e.proof = p[0].(lib.M)
			default:
				e.proof = p.(lib.M)
			}
			delete(o, "proof")
			e.doc = o
			if kid == "absent" {
				delete(e.proof, "verificationMethod")
			}
		}
	})
	if e.err != nil {
		return nil, nil, e.err
	}
	return vcdoc.Clone(e.doc), vcdoc.Clone(e.proof), nil
}

func valueBytes(p lib.M) ([]byte, func([]byte)) {
	if j, ok := p["jws"].(string); ok {
		x := strings.Split(j, ".")
		b, err := base64.RawURLEncoding.DecodeString(x[2])
		lib.Must(err, "jws")
		return b, func(n []byte) { p["jws"] = x[0] + ".." + ident.B64(n) }
	}
	v := p["proofValue"].(string)
	if p["type"] == "Ed25519Signature2020" {
		enc, b, err := multibase.Decode(v)
		lib.Must(err, "multibase")
		return b, func(n []byte) { p["proofValue"], _ = multibase.Encode(enc, n) }
	}
	b, err := base64.RawURLEncoding.DecodeString(v)
	if err == nil {
		return b, func(n []byte) { p["proofValue"] = ident.B64(n) }
	}
	b, err = base64.StdEncoding.DecodeString(v)
	lib.Must(err, "proofValue "+v)
	return b, func(n []byte) { p["proofValue"] = base64.StdEncoding.EncodeToString(n) }
}

func changeProof(t *lib.T, s suite, p, other lib.M, op string) {
	b, set := valueBytes(p)
	switch op {
	case "undefined":
		p["madeUpMember"] = "x"
	case "created":
		p["created"] = "2021-02-03T04:05:07Z"
	case "purpose":
		p["proofPurpose"] = "authentication"
	case "nopurpose":
		delete(p, "proofPurpose")
	case "domain":
		p["domain"] = "other.example"
	case "nodomain":
		delete(p, "domain")
	case "challenge":
		p["challenge"] = "c-2"
	case "nochallenge":
		delete(p, "challenge")
	case "vm":
		if p["verificationMethod"] == alice+"#second" {
			p["verificationMethod"] = alice + "#own"
		} else {
			p["verificationMethod"] = alice + "#second"
		}
	case "type":
		for _, x := range []string{"JsonWebSignature2020", "Ed25519Signature2018"} {
			if x != p["type"] {
				p["type"] = x
				break
			}
		}
	case "bit":
		if s.derived {
			// bytes of a group element's encoding or of a scalar; the header bits are left alone
			b[5+t.R.Intn(len(b)-5)] ^= 1 << t.R.Intn(8)
		} else {
			b[t.R.Intn(len(b))] ^= 1 << t.R.Intn(8)
		}
		set(b)
	case "short":
		set(b[:len(b)-1])
	case "long":
		set(append(b, 0))
	case "dertail":
		set(ident.DERTail(b))
	case "other":
		o, _ := valueBytes(other)
		set(o)
	case "empty":
		set(nil)
	case "nosig":
		delete(p, "jws")
		delete(p, "proofValue")
	}
}

func ldproof(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	s := suites[r.Base]
	chk := worldFor(s.alg, c.Vm)
	doc, p, err := signedDoc(r.Base, c.Iss, c.Kid, c.Signer, "")
	lib.Must(err, "make document "+tree.Show(c))
	if c.Opt == "other" {
		_, o, err := signedDoc(r.Base, c.Iss, c.Kid, c.Signer, "other")
		lib.Must(err, "make other document")
		changeProof(t, s, p, o, c.Opt)
	} else {
		changeProof(t, s, p, nil, c.Opt)
	}
	proofOf := func(kid, signer, variant string) lib.M {
		_, o, err := signedDoc(r.Base, c.Iss, kid, signer, variant)
		lib.Must(err, "make proof")
		return o
	}
	bad := proofOf("own", "own", "other")
	dip := lib.M{"type": "DataIntegrityProof", "cryptosuite": "ecdsa-rdfc-2019", "created": "2021-02-03T04:05:07Z", "proofPurpose": "assertionMethod",
		"verificationMethod": alice + "#own", "proofValue": "z6Mk"}
	typ := vcdoc.Clone(bad)
	typ["type"] = "UnheardOfSignature2020"
	var pr interface{} = p
	switch c.Set {
	case "two":
		pr = []interface{}{p, proofOf("second", "second", "")}
	case "firstbad":
		pr = []interface{}{bad, p}
	case "secondbad":
		pr = []interface{}{p, bad}
	case "secondforeign":
		pr = []interface{}{p, proofOf("mallory", "mallory", "")}
	case "secondtype":
		pr = []interface{}{p, typ}
	case "firsttype":
		pr = []interface{}{typ, p}
	case "seconddi":
		pr = []interface{}{p, dip}
	case "firstdi":
		pr = []interface{}{dip, p}
	case "empty":
		pr = []interface{}{}
	case "null", "absent":
		pr = nil
	case "string":
		pr = "proof"
	case "number":
		pr = 1
	case "listofstring":
		pr = []interface{}{"proof"}
	}
	vcdoc.Change(doc, c.Doc)
	if c.Set != "absent" {
		doc["proof"] = pr
	}
	b := lib.JSON(doc)
	if c.Doc == "reorder" {
		b = vcdoc.Reorder(b)
	}
	opts := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(loader)}
	t.Run()
	switch c.Entry {
	case "parse":
		_, err = verifiable.ParseCredential(b, append(opts, verifiable.WithProofChecker(chk))...)
	case "strict":
		_, err = verifiable.ParseCredential(b, append(opts, verifiable.WithProofChecker(chk), verifiable.WithStrictValidation())...)
	case "recheck":
		var vc *verifiable.Credential
		vc, err = verifiable.ParseCredential(b, append(opts, verifiable.WithDisabledProofCheck())...)
		if err == nil {
			err = vc.CheckProof(append(opts, verifiable.WithProofChecker(chk))...)
		}
	case "document":
		iss := "did:example:" + strings.TrimSuffix(c.Iss, "object")
		err = lddocument.NewDocumentVerifier(chk).Verify(b, &iss, processor.WithDocumentLoader(loader))
	case "documentnil":
		err = lddocument.NewDocumentVerifier(chk).Verify(b, nil, processor.WithDocumentLoader(loader))
	}
	if (err == nil) != (r.Expect == "ok") {
		t.Failf(r.Expect+":"+r.Base+":"+strings.Join(r.Dev, "+"), "specification: %s; code: %v; combination %s document %s", r.Expect, err, tree.Show(c), b)
		return
	}
	t.Obs(r.Expect)
}

func main() {
	lib.Main(map[string]func(*lib.T){"ldproof": ldproof}, nil)
}

// Command diddoc replays the behaviours of DidProof.tla.
package main

import (
	"strings"
	"sync"
	"time"

	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/processor"
	ldp "github.com/trustbloc/did-go/doc/ld/proof"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/ldproofs/ecdsasecp256k1signature2019"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

type combo struct {
	Shape, Made, Times, First, Again, Third, Doc, Opt string
	At                                                int
	Set, Expect, Tools                                string
}

type rec struct {
	Expect, Base    string
	Dev             []string
	Carried, Signed int
	C               combo
}

type L = []interface{}

const (
	alice   = issue.Alice
	mallory = issue.Mallory
)

type suite struct {
	typ, alg string
	kt       kms.KeyType
	jws      bool
	ctx      string
}

var suites = map[string]suite{
	"ed18v":    {"Ed25519Signature2018", "EdDSA", kms.ED25519Type, false, "https://w3id.org/security/suites/ed25519-2018/v1"},
	"ed18j":    {"Ed25519Signature2018", "EdDSA", kms.ED25519Type, true, "https://w3id.org/security/suites/ed25519-2018/v1"},
	"ed20v":    {"Ed25519Signature2020", "EdDSA", kms.ED25519Type, false, "https://w3id.org/security/suites/ed25519-2020/v1"},
	"jwsEd":    {"JsonWebSignature2020", "EdDSA", kms.ED25519Type, true, "https://w3id.org/security/suites/jws-2020/v1"},
	"jwsP256":  {"JsonWebSignature2020", "ES256", kms.ECDSAP256TypeIEEEP1363, true, "https://w3id.org/security/suites/jws-2020/v1"},
	"k256v":    {"EcdsaSecp256k1Signature2019", "ES256K", kms.ECDSASecp256k1TypeIEEEP1363, false, "https://w3id.org/security/suites/secp256k1-2019/v1"},
	"k256j":    {"EcdsaSecp256k1Signature2019", "ES256K", kms.ECDSASecp256k1TypeIEEEP1363, true, "https://w3id.org/security/suites/secp256k1-2019/v1"},
	"ldset":    {"Ed25519Signature2018", "EdDSA", kms.ED25519Type, false, "https://w3id.org/security/suites/ed25519-2018/v1"},
	"eddsa":    {"eddsa-rdfc-2022", "EdDSA", "", false, issue.DICtx},
	"ecdsa":    {"ecdsa-rdfc-2019", "ES256", "", false, issue.DICtx},
	"ecdsa384": {"ecdsa-2019", "ES384", "", false, issue.DICtx},
	"diset":    {"ecdsa-rdfc-2019", "ES256", "", false, issue.DICtx},
}

func (s suite) di() bool { return s.kt == "" }

func kidOf(who string) string {
	switch who {
	case "mallory":
		return mallory + "#own"
	case "forged":
		return alice + "#own"
	case "unknown":
		return alice + "#none"
	}
	return alice + "#" + who
}

func keyOf(alg, who string) *ident.Key {
	switch who {
	case "forged":
		return ident.K(alg, "mallory")
	case "agreement", "unknown":
		return ident.K(alg, "own")
	}
	return ident.K(alg, who)
}

var (
	mu     sync.Mutex
	worlds = map[string]*ident.World{}
	chks   = map[string]*checker.ProofChecker{}
)

func world(alg string) (*ident.World, *checker.ProofChecker) {
	mu.Lock()
	defer mu.Unlock()
	if w, ok := worlds[alg]; ok {
		return w, chks[alg]
	}
	m := func(id, key string, p did.VerificationRelationship) ident.VM {
		return ident.VM{ID: id, Type: "JsonWebKey2020", Rep: "jwk", Key: ident.K(alg, key), Purpose: p}
	}
	w := ident.NewWorld()
	w.Add(alice, m(alice+"#own", "own", did.AssertionMethod), m(alice+"#own", "own", did.Authentication), m(alice+"#second", "second", did.AssertionMethod),
		m(alice+"#second", "second", did.Authentication), m(alice+"#agreement", "own", did.KeyAgreement))
	w.Add(mallory, m(mallory+"#own", "mallory", did.AssertionMethod), m(mallory+"#own", "mallory", did.Authentication))
	worlds[alg], chks[alg] = w, defaults.NewDefaultProofChecker(w.Resolver())
	return w, chks[alg]
}

// rawCreator signs whatever it is asked to.
type rawCreator struct {
	*creator.ProofCreator
	k *ident.Key
}

func (r rawCreator) SignLinkedDocument(_ *ldp.Proof, _ kms.KeyType, doc []byte) ([]byte, error) {
	return r.k.Sign(doc)
}
func (r rawCreator) LDPJWTAlg(_ *ldp.Proof, _ kms.KeyType) (string, error) { return r.k.Alg, nil }

func creatorFor(k *ident.Key, honest bool) interface {
	SignLinkedDocument(*ldp.Proof, kms.KeyType, []byte) ([]byte, error)
	GetLDPCanonicalDocument(*ldp.Proof, map[string]interface{}, ...processor.Opts) ([]byte, error)
	GetLDPDigest(*ldp.Proof, []byte) ([]byte, error)
	LDPJWTAlg(*ldp.Proof, kms.KeyType) (string, error)
} {
	c := creator.New(creator.WithLDProofType(ed25519signature2018.New(), k), creator.WithLDProofType(ed25519signature2020.New(), k),
		creator.WithLDProofType(jsonwebsignature2020.New(), k), creator.WithLDProofType(ecdsasecp256k1signature2019.New(), k),
		creator.WithJWTAlg(eddsa.New(), k), creator.WithJWTAlg(es256.New(), k), creator.WithJWTAlg(es256k.New(), k))
	if honest {
		return c
	}
	return rawCreator{c, k}
}

// document is the DID document before it is signed.
func document(s suite, c combo, id string) []byte {
	ctx := L{"https://www.w3.org/ns/did/v1"}
	if s.ctx != "" {
		ctx = append(ctx, s.ctx)
	}
	ctx = append(ctx, lib.M{"Place": "https://ex.org/Place", "Port": "https://ex.org/Port", "JsonWebKey": "https://w3id.org/security#JsonWebKey",
		"publicKeyJwk": lib.M{"@id": "https://w3id.org/security#publicKeyJwk", "@type": "@json"}})
	vm := func(name string) lib.M {
		i := id + "#" + name
		if c.Shape == "relative" || c.Shape == "based" {
			i = "#" + name
		}
		j, err := ident.K(s.alg, name).JWK().MarshalJSON()
		lib.Must(err, "jwk")
		return lib.M{"id": i, "type": "JsonWebKey", "controller": id, "publicKeyJwk": lib.ParseJSON(j)}
	}
	ref := func(name string) interface{} { return vm(name)["id"] }
	d := lib.M{"@context": ctx, "id": id, "verificationMethod": L{vm("own"), vm("second")}, "authentication": L{ref("own"), ref("second")}, "assertionMethod": L{ref("own")},
		"service": L{lib.M{"id": id + "#hub", "type": "Place", "serviceEndpoint": "https://hub.example/"}}}
	switch c.Shape {
	case "one":
		delete(d, "service")
		delete(d, "authentication")
		d["verificationMethod"], d["assertionMethod"] = L{vm("own")}, L{ref("own")}
	case "embedded":
		d["assertionMethod"] = L{vm("third"), ref("own")}
		d["keyAgreement"] = L{vm("fourth")}
	case "dates":
		d["created"], d["updated"] = "2020-01-01T00:00:00.25Z", "2020-06-01T12:00:00+02:30"
	case "services":
		d["service"] = append(d["service"].(L), lib.M{"id": id + "#port", "type": "Port", "serviceEndpoint": "https://port.example/?a=b&c=d%3Ce%3E"},
			lib.M{"id": id + "#third", "type": "Place", "serviceEndpoint": "https://third.example/"})
	case "extra":
		d["madeUp"], d["alsoKnownAs"] = "x", L{}
	case "elsewhere":
		d["alsoKnownAs"] = L{"https://elsewhere.example/"}
	case "alsoknown":
		d["alsoKnownAs"] = L{"https://alice.example/", "did:example:alias"}
	case "based":
		d["@context"] = append(L{}, append(ctx, lib.M{"@base": id})...)
	}
	return lib.JSON(d)
}

// change the document after it was signed.
func change(d lib.M, how string, alg string) {
	list := func(n string) L { x, _ := d[n].(L); return x }
	jw := func(name string) interface{} {
		j, err := ident.K(alg, name).JWK().MarshalJSON()
		lib.Must(err, "jwk")
		return lib.ParseJSON(j)
	}
	id := d["id"].(string)
	switch how {
	case "service":
		list("service")[0].(lib.M)["serviceEndpoint"] = "https://mallory.example/"
	case "addservice":
		d["service"] = append(list("service"), lib.M{"id": id + "#more", "type": "Place", "serviceEndpoint": "https://mallory.example/"})
	case "dropservice":
		d["service"] = list("service")[1:]
	case "key":
		list("verificationMethod")[0].(lib.M)["publicKeyJwk"] = jw("mallory")
	case "addkey":
		d["verificationMethod"] = append(list("verificationMethod"), lib.M{"id": id + "#more", "type": "JsonWebKey", "controller": id, "publicKeyJwk": jw("mallory")})
	case "dropkey":
		d["verificationMethod"] = list("verificationMethod")[:1]
		for _, n := range []string{"authentication", "assertionMethod"} {
			var keep L
			for _, x := range list(n) {
				if s, ok := x.(string); !ok || !strings.HasSuffix(s, "#second") {
					keep = append(keep, x)
				}
			}
			d[n] = keep
		}
	case "relation":
		d["capabilityInvocation"] = L{list("verificationMethod")[0].(lib.M)["id"]}
	case "droprelation":
		d["authentication"] = list("authentication")[:1]
	case "id":
		d["id"] = mallory
	case "alias":
		d["alsoKnownAs"] = append(list("alsoKnownAs"), "https://mallory.example/")
	case "controller":
		list("verificationMethod")[0].(lib.M)["controller"] = mallory
	case "type":
		list("verificationMethod")[0].(lib.M)["type"] = "Ed25519VerificationKey2018"
	}
}

func flip(p lib.M, n, a, b string) {
	if p[n] == a {
		p[n] = b
	} else {
		p[n] = a
	}
}

// edit one proof.
func edit(t *lib.T, p, other lib.M, how string) {
	switch how {
	case "created":
		p["created"] = "2021-02-03T04:05:07Z"
	case "purpose":
		flip(p, "proofPurpose", "assertionMethod", "authentication")
	case "domain":
		p["domain"] = "third.example"
	case "challenge":
		p["challenge"] = "c-3"
	case "vm":
		flip(p, "verificationMethod", alice+"#own", alice+"#second")
	case "nomethod":
		delete(p, "verificationMethod")
	case "unknown":
		p["verificationMethod"] = alice + "#none"
	case "type":
		if p["cryptosuite"] != nil {
			if strings.HasPrefix(p["cryptosuite"].(string), "ecdsa") {
				p["cryptosuite"] = "eddsa-rdfc-2022"
			} else {
				p["cryptosuite"] = "ecdsa-rdfc-2019"
			}
			return
		}
		flip(p, "type", "JsonWebSignature2020", "EcdsaSecp256k1Signature2019")
	case "nosig":
		delete(p, "proofValue")
		delete(p, "jws")
	case "other":
		for _, n := range []string{"proofValue", "jws"} {
			if p[n] != nil {
				p[n] = other[n]
			}
		}
	case "bit", "short":
		b, set := issue.ProofBytes(p)
		if how == "short" {
			set(b[:len(b)-1])
			return
		}
		b[t.R.Intn(len(b))] ^= 1 << t.R.Intn(8)
		set(b)
	}
}

func diSigner(alg string, w *ident.World, k *ident.Key) *dataintegrity.Signer {
	s, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: w},
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: issue.Loader, SignerGetter: ecdsa2019.WithStaticSigner(k)}),
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: issue.Loader,
			SignerGetter: func(*jwk.JWK) (eddsa2022.Signer, error) { return k, nil }}))
	lib.Must(err, "signer")
	return s
}

func diVerifier(w *ident.World) *dataintegrity.Verifier {
	v, err := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: w},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: issue.Loader}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: issue.Loader}))
	lib.Must(err, "verifier")
	return v
}

func sign(s suite, c combo, d *did.Doc, who string, n int) (*did.Doc, error) {
	w, _ := world(s.alg)
	k := keyOf(s.alg, who)
	created := issue.Created.Add(time.Duration(n) * time.Minute)
	var expires *time.Time
	at := &created
	switch c.Times {
	case "fraction":
		created = created.Add(250 * time.Millisecond)
	case "offset":
		created = created.In(time.FixedZone("x", 2*3600+1800))
	case "now":
		at = nil
	case "expires":
		x := time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC)
		expires = &x
	case "expired":
		x := created.Add(time.Hour)
		expires = &x
	}
	purpose, domain, challenge := "assertionMethod", "domain.example", "c-1"
	switch c.Made {
	case "bare":
		domain, challenge = "", ""
	case "auth":
		purpose = "authentication"
	}
	if s.di() {
		return verifiable.AddDIDDataIntegrityProof(d, &verifiable.DataIntegrityProofContext{SigningKeyID: kidOf(who), ProofPurpose: purpose, CryptoSuite: s.typ, Created: at, Expires: expires,
			Domain: domain, Challenge: challenge}, diSigner(s.alg, w, k))
	}
	honest := who == "own" || who == "second" || who == "mallory"
	ctx := &verifiable.LinkedDataProofContext{SignatureType: s.typ, KeyType: s.kt, ProofCreator: creatorFor(k, honest), VerificationMethod: kidOf(who), Purpose: purpose, Domain: domain,
		Challenge: challenge, Created: at, SignatureRepresentation: verifiable.SignatureProofValue}
	if s.jws {
		ctx.SignatureRepresentation = verifiable.SignatureJWS
	}
	return verifiable.AddDIDLinkedDataProof(d, ctx, processor.WithDocumentLoader(issue.Loader))
}

func text(d *did.Doc) lib.M {
	b, err := d.JSONBytes()
	lib.Must(err, "JSON of a DID document")
	return lib.ParseJSON(b).(lib.M)
}

func split(m lib.M) (string, L) {
	ps, _ := m["proof"].(L)
	r := vcdoc.Clone(m)
	delete(r, "proof")
	return string(lib.JSON(r)), ps
}

func didproof(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	s := suites[r.Base]
	key := func(k string) string { return k + ":" + r.Base + ":" + strings.Join(r.Dev, "+") }
	honest := map[string]bool{"own": true, "second": true, "mallory": true}
	makeWith := func(s suite, id string, c combo) (*did.Doc, error) {
		d, err := did.ParseDocument(document(s, c, id))
		lib.Must(err, "base document")
		for i, who := range []string{c.First, c.Again, c.Third} {
			if who == "none" {
				continue
			}
			before := text(d)
			t.Run()
			n, err := sign(s, c, d, who, i)
			if err != nil {
				if honest[who] {
					t.Failf(key("cannot-sign"), "%v; combination %s", err, tree.Show(c))
				}
				return nil, err
			}
			if x := text(d); string(lib.JSON(x)) != string(lib.JSON(before)) {
				t.Failf(key("argument-changed"), "signing changed the document it was given: %s became %s", lib.JSON(before), lib.JSON(x))
			}
			was, had := split(before)
			is, has := split(text(n))
			if was != is {
				t.Failf(key("contents-changed"), "signing changed what the document states: %s became %s", was, is)
			}
			if len(has) != len(had)+1 || string(lib.JSON(has[:len(had)])) != string(lib.JSON(had)) && len(had) > 0 {
				t.Failf(key("proofs-lost"), "%d proofs before, after: %s", len(had), lib.JSON(has))
			}
			d = n
		}
		return d, nil
	}
	make := func(id string, c combo) (*did.Doc, error) { return makeWith(s, id, c) }
	d, err := make(alice, c)
	if t.Failed() {
		return
	}
	if err == nil {
		m := text(d)
		ps, _ := m["proof"].(L)
		if c.Opt != "none" {
			o := combo{Shape: "plain", Made: c.Made, Times: "seconds", First: "own", Again: "none", Third: "none"}
			other, err := make(alice, func() combo { o.Shape = "elsewhere"; return o }())
			if err != nil { t.Failf("other", "%v", err); return }
			edit(t, ps[c.At-1].(lib.M), text(other)["proof"].(L)[0].(lib.M), c.Opt)
		}
		switch c.Set {
		case "stripped":
			delete(m, "proof")
		case "empty":
			m["proof"] = L{}
		case "swapped":
			for i, j := 0, len(ps)-1; i < j; i, j = i+1, j-1 {
				ps[i], ps[j] = ps[j], ps[i]
			}
		case "dropfirst":
			m["proof"] = ps[1:]
		case "foreign":
			other, err := make(alice, combo{Shape: "elsewhere", Made: c.Made, Times: "seconds", First: "own", Again: "none", Third: "none"})
			if err != nil { t.Failf("other", "%v", err); return }
			m["proof"] = append(ps, text(other)["proof"].(L)[0])
		}
		if c.Set == "otherfirst" || c.Set == "otherlast" {
			kind := suites["eddsa"]
			if s.di() {
				kind = suites["ed18v"]
			}
			other, err := makeWith(kind, alice, combo{Shape: "elsewhere", Made: c.Made, Times: "seconds", First: "own", Again: "none", Third: "none"})
			lib.Must(err, "other document")
			x := text(other)["proof"].(L)[0]
			if c.Set == "otherlast" {
				m["proof"] = append(ps, x)
			} else {
				m["proof"] = append(L{x}, ps...)
			}
		}
		change(m, c.Doc, s.alg)
		b := lib.JSON(m)
		if c.Doc == "order" {
			b = vcdoc.Reorder(b)
		}
		var sent *did.Doc
		sent, err = did.ParseDocument(b)
		if err == nil {
			var opts []verifiable.VerifyDIDOpt
			w, chk := world(s.alg)
			opts = append(opts, verifiable.WithDIDJSONLDDocumentLoader(issue.Loader))
			if c.Tools == "both" || c.Tools == "ld" {
				opts = append(opts, verifiable.WithDIDProofChecker(chk))
			}
			if c.Tools == "both" || c.Tools == "di" {
				opts = append(opts, verifiable.WithDIDDataIntegrityVerifier(diVerifier(w)))
			}
			purpose, domain, challenge := "assertionMethod", "domain.example", "c-1"
			if c.Made == "auth" {
				purpose = "authentication"
			}
			switch c.Expect {
			case "default":
				purpose = ""
			case "right":
				if c.Made == "bare" {
					domain, challenge = "", ""
				}
			case "full":
				purpose = "assertionMethod"
			case "purpose":
				purpose = map[string]string{"assertionMethod": "authentication", "authentication": "assertionMethod"}[purpose]
			case "domain":
				domain = "Domain.example"
			case "challenge":
				challenge = "c-11"
			}
			if c.Expect != "default" {
				opts = append(opts, verifiable.WithDIDExpectedDataIntegrityFields(purpose, domain, challenge))
			}
			before := string(lib.JSON(text(sent)))
			t.Run()
			err = verifiable.VerifyDIDProof(sent, opts...)
			if after := string(lib.JSON(text(sent))); after != before {
				t.Failf(key("checked-changed"), "checking changed the document: %s became %s", before, after)
				return
			}
			if c.Opt == "none" && c.Set == "kept" && c.Doc == "none" { // as it came from the signer, too
				t.Run()
				if e := verifiable.VerifyDIDProof(d, opts...); (e == nil) != (err == nil) {
					t.Failf(key("transport"), "verdict before it was sent: %v, after: %v; %s", e, err, b)
					return
				}
			}
		}
		if (err == nil) != (r.Expect == "ok") {
			k := key(r.Expect)
			if err == nil && c.Shape == "relative" && (c.Doc != "none" && c.Doc != "order") {
				k = "relative-identifiers:" + c.Doc // the rest of the combination is judged by the behaviours without the change
			}
			t.Failf(k, "specification: %s; code: %v; combination %s document %s", r.Expect, err, tree.Show(c), b)
			return
		}
	} else if r.Expect == "ok" {
		t.Failf(key("unsigned"), "%v", err)
		return
	}
	t.Obs(r.Expect)
}

func main() {
	lib.Main(map[string]func(*lib.T){"didproof": didproof}, nil)
}

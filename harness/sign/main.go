// Harness for spec/SignToken.tla, SignLD.tla and SignDI.tla: what the library signs, it verifies.
package main

import (
	"errors"
	"fmt"
	"strings"

	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/trustbloc/kms-go/spi/kms"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ecdsa"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/ed25519"
	"github.com/trustbloc/vc-go/crypto-ext/verifiers/rsa"
	"github.com/trustbloc/vc-go/jwt"
	"github.com/trustbloc/vc-go/proof"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es384"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es521"
	"github.com/trustbloc/vc-go/proof/jwtproofs/ps256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ecdsasecp256k1signature2019"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"
	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

type rec struct {
	Expect, Base string
	Note         string // recorded finding the combination may show
	Dev          []string
	C            choice
}

type choice struct {
	What, Format, Alg, By, Reg, Key, Sig, Vm, Vmkey, Entry, Min string
	Suite, Kt, Rep, Algs                                        string
	Init, Kind, Kid, Purpose, Published, Ask                    string
}

const kid = issue.Alice + "#own"

// signer is a key as the outside world offers it: signatures in either form, or none.
type signer struct {
	k    *ident.Key
	mode string
}

func (s signer) Sign(d []byte) ([]byte, error) {
	if s.mode == "fails" {
		return nil, errors.New("the key store is closed")
	}
	sig, err := s.k.Sign(d)
	if err == nil && s.mode == "der" && s.k.Ec != nil {
		sig = ident.ToDER(sig)
	}
	return sig, err
}

// cross names an algorithm of another kind of key, or of another scheme.
var cross = map[string]string{"EdDSA": "ES256", "ES256": "ES256K", "ES384": "ES521", "ES521": "ES384", "ES256K": "ES256", "RS256": "PS256", "PS256": "RS256", "BBS": "EdDSA"}

func keyOf(alg, which string) *ident.Key {
	switch which {
	case "same":
		return ident.K(alg, "mallory")
	case "other", "crossed":
		return ident.K(cross[alg], "own")
	}
	return ident.K(alg, "own")
}

func method(form, alg string, k *ident.Key) ident.VM {
	v := ident.VM{ID: kid, Key: k, Rep: "bytes", Type: ident.DefaultType(ident.K(alg, "own")), Purpose: did.AssertionMethod}
	switch form {
	case "jwk":
		v.Type, v.Rep = "JsonWebKey2020", "jwk"
	case "nativejwk":
		v.Rep = "jwk"
	case "jwkbytes":
		v.Type = "JsonWebKey2020"
	case "foreign":
		v.Type = "X25519KeyAgreementKey2019"
	case "ed2020":
		v.Type = "Ed25519VerificationKey2020"
	case "ed2020multi":
		v.Type = "Ed25519VerificationKey2020"
		if k.Ed != nil {
			v.Val = k.Multikey()
		}
	}
	if k.Alg == "BBS" {
		v.Rep = "bytes"
	}
	return v
}

var descriptors = []proof.JWTProofDescriptor{eddsa.New(), es256.New(), es384.New(), es521.New(), es256k.New(), rs256.New(), ps256.New()}

// tokenCreator has every algorithm with a key of its own kind, as far as the registration goes.
func tokenCreator(alg, reg, key, mode string) *creator.ProofCreator {
	var opts []creator.Opt
	for _, d := range descriptors {
		a := d.JWTAlgorithm()
		if reg == "none" || reg == "only" && a != alg || reg == "without" && a == alg {
			continue
		}
		which := "own"
		if a == alg {
			which = key
		}
		opts = append(opts, creator.WithJWTAlg(d, signer{keyOf(a, which), mode}))
	}
	return creator.New(opts...)
}

var jwsAlg = map[string]verifiable.JWSAlgorithm{"EdDSA": verifiable.EdDSA, "ES256": verifiable.ECDSASecp256r1, "ES384": verifiable.ECDSASecp384r1,
	"ES521": verifiable.ECDSASecp521r1, "ES256K": verifiable.ECDSASecp256k1, "RS256": verifiable.RS256, "PS256": verifiable.PS256, "bogus": 99, "zero": 0}
var coseAlg = map[string]cose.Algorithm{"EdDSA": cose.AlgorithmEdDSA, "ES256": cose.AlgorithmES256, "ES384": cose.AlgorithmES384, "ES521": cose.AlgorithmES512,
	"ES256K": -47, "RS256": cose.AlgorithmRS256, "PS256": cose.AlgorithmPS256, "bogus": -9999, "zero": 0}
var kmsType = map[string]kms.KeyType{"EdDSA": kms.ED25519Type, "ES256": kms.ECDSAP256TypeIEEEP1363, "ES384": kms.ECDSAP384TypeIEEEP1363, "ES521": kms.ECDSAP521TypeIEEEP1363,
	"ES256K": kms.ECDSASecp256k1TypeIEEEP1363, "RS256": kms.RSARS256Type, "PS256": kms.RSAPS256Type, "bogus": kms.X25519ECDHKWType}
var derType = map[string]kms.KeyType{"ES256": kms.ECDSAP256TypeDER, "ES384": kms.ECDSAP384TypeDER, "ES521": kms.ECDSAP521TypeDER, "ES256K": kms.ECDSASecp256k1TypeDER}

func unsigned(doc lib.M) *verifiable.Credential {
	vc, err := verifiable.ParseCredential(lib.JSON(doc), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(issue.Loader))
	lib.Must(err, "unsigned credential")
	return vc
}

func presentation(contexts ...string) *verifiable.Presentation {
	vp, err := verifiable.NewPresentation()
	lib.Must(err, "presentation")
	vp.ID, vp.Holder = "urn:uuid:9", issue.Alice
	vp.Context = append(vp.Context, contexts...)
	return vp
}

// resolver world with one method.
func world(v ident.VM) *ident.World { return ident.NewWorld().Add(issue.Alice, v) }

func verdict(t *lib.T, r rec, signErr, checkErr error) {
	got := "verifies"
	switch {
	case signErr != nil:
		got = "refuse"
	case checkErr != nil:
		got = "fails"
	}
	if got == "fails" && r.Note != "" {
		t.Failf(r.Note, "specification: %s; code: %s (checking: %v); combination %s", r.Expect, got, checkErr, tree.Show(r.C))
		return
	}
	if got != r.Expect {
		t.Failf(fmt.Sprintf("%s:%s:%s", r.Expect, r.Base, strings.Join(r.Dev, "+")), "specification: %s; code: %s (signing: %v, checking: %v); combination %s",
			r.Expect, got, signErr, checkErr, tree.Show(r.C))
		return
	}
	t.Obs(r.Expect)
}

func token(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	jalg, calg := jwsAlg[c.Alg], coseAlg[c.Alg]
	var err error
	if c.By != "name" {
		kt := kmsType[c.Alg]
		if c.By == "dertype" {
			kt = derType[c.Alg]
		}
		if c.Format == "cwt" {
			calg, err = verifiable.KeyTypeToCWSAlgo(kt)
		} else {
			jalg, err = verifiable.KeyTypeToJWSAlgo(kt)
		}
	}
	alg := c.Alg // of the keys
	switch alg {
	case "zero", "rs256":
		alg = "RS256"
	case "bogus", "eddsa":
		alg = "EdDSA"
	}
	reg := c.Reg
	pc := tokenCreator(c.Alg, reg, c.Key, c.Sig)
	vm := method(c.Vm, alg, keyOf(alg, c.Vmkey))
	chk := defaults.NewDefaultProofChecker(world(vm).Resolver())
	var combined verifiable.CombinedProofChecker = chk
	t.Run()
	var data []byte
	var signed *verifiable.Credential
	vc := unsigned(vcdoc.Base(issue.Alice, t.R.Intn(2) == 0))
	vp := presentation()
	if err == nil {
		switch c.What + c.Format {
		case "vcjwt":
			signed, err = vc.CreateSignedJWTVC(c.Min == "yes", jalg, pc, kid)
			if err == nil {
				var s string
				s, err = signed.ToJWTString()
				data = []byte(s)
			}
		case "vcsd":
			var js *jwt.JoseSigner
			js, err = jwt.NewJOSESigner(jwt.SignParameters{KeyID: kid, JWTAlg: c.Alg}, pc)
			if err == nil {
				var s string
				s, err = vc.MakeSDJWT(js, kid)
				data = []byte(s)
			}
		case "vccwt":
			signed, err = vc.CreateSignedCOSEVC(calg, pc, kid)
			if err == nil {
				data, err = signed.MarshalAsCWTLD()
			}
		case "vpjwt":
			var p *verifiable.Presentation
			p, err = vp.CreateJWTVP([]string{"did:example:verifier"}, jalg, pc, kid, c.Min == "yes")
			if err == nil {
				data = []byte(p.JWT)
			}
		case "vpcwt":
			var p *verifiable.Presentation
			p, err = vp.CreateCWTVP([]string{"did:example:verifier"}, calg, pc, kid, c.Min == "yes")
			if err == nil {
				data = []byte(issue.Hex(p.CWT.Raw))
			}
		}
	}
	if err != nil {
		verdict(t, r, err, nil)
		return
	}
	opts := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(issue.Loader), verifiable.WithProofChecker(combined)}
	var cerr error
	switch {
	case c.What == "vp":
		_, cerr = verifiable.ParsePresentation(data, verifiable.WithPresJSONLDDocumentLoader(issue.Loader), verifiable.WithPresProofChecker(chk))
	case c.Entry == "parse":
		_, cerr = verifiable.ParseCredential(data, opts...)
	case c.Entry == "embedded":
		v := vm.Vermethod()
		var e *checker.EmbeddedVMProofChecker
		switch {
		case c.Vm == "jwk":
			e = checker.NewEmbeddedJWKProofChecker(v.JWK, embeddedOpts()...)
		default:
			e = checker.NewEmbeddedVMProofChecker(v, embeddedOpts()...)
		}
		_, cerr = verifiable.ParseCredential(data, verifiable.WithJSONLDDocumentLoader(issue.Loader), verifiable.WithJWTProofChecker(e))
	default:
		if signed == nil {
			var perr error
			signed, perr = verifiable.ParseCredential(data, verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(issue.Loader))
			lib.Must(perr, "parse")
		}
		cerr = signed.CheckProof(opts...)
	}
	verdict(t, r, nil, cerr)
}

func embeddedOpts() []checker.Opt {
	return []checker.Opt{checker.WithSignatureVerifiers(ed25519.New(), rsa.NewPS256(), rsa.NewRS256(), ecdsa.NewSecp256k1(), ecdsa.NewES256(), ecdsa.NewES384(), ecdsa.NewES521()), checker.WithJWTAlg(descriptors...)}
}

// ---------------------------------------------------------------- linked data

var suites = map[string]struct {
	typ, ctx string
	desc     proof.LDProofDescriptor
}{
	"ed18": {"Ed25519Signature2018", "", ed25519signature2018.New()},
	"ed20": {"Ed25519Signature2020", "https://w3id.org/security/suites/ed25519-2020/v1", ed25519signature2020.New()},
	"k256": {"EcdsaSecp256k1Signature2019", "", ecdsasecp256k1signature2019.New()},
	"jws":  {"JsonWebSignature2020", "https://w3id.org/security/jws/v1", jsonwebsignature2020.New()},
	"bbs":  {"BbsBlsSignature2020", "https://w3id.org/security/bbs/v1", bbsblssignature2020.New()},
}

var ktKey = map[string]struct {
	alg string
	kt  kms.KeyType
}{
	"ed": {"EdDSA", kms.ED25519Type}, "k256": {"ES256K", kms.ECDSASecp256k1TypeIEEEP1363}, "k256der": {"ES256K", kms.ECDSASecp256k1TypeDER},
	"p256": {"ES256", kms.ECDSAP256TypeIEEEP1363}, "p256der": {"ES256", kms.ECDSAP256TypeDER}, "p384": {"ES384", kms.ECDSAP384TypeIEEEP1363},
	"p384der": {"ES384", kms.ECDSAP384TypeDER}, "p521": {"ES521", kms.ECDSAP521TypeIEEEP1363}, "p521der": {"ES521", kms.ECDSAP521TypeDER},
	"ps256": {"PS256", kms.RSAPS256Type}, "rs256": {"RS256", kms.RSARS256Type}, "bbs": {"BBS", kms.BLS12381G2Type}, "x25519": {"EdDSA", kms.X25519ECDHKWType}, "none": {"EdDSA", ""},
}

func linked(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	k := ktKey[c.Kt]
	s, known := suites[c.Suite]
	switch c.Suite {
	case "bogus":
		s.typ = "UnheardOfSignature2031"
	case "none":
		s.typ = ""
	}
	var opts []creator.Opt
	sg := signer{keyOf(k.alg, c.Key), c.Sig}
	for _, n := range []string{"ed18", "ed20", "k256", "jws", "bbs"} {
		if c.Reg == "only" && n != c.Suite || c.Reg == "without" && (n == c.Suite || !known) {
			continue
		}
		opts = append(opts, creator.WithLDProofType(suites[n].desc, sg))
	}
	for _, d := range descriptors {
		fits := d.JWTAlgorithm() == k.alg
		if c.Algs == "only" && !fits || c.Algs == "without" && fits {
			continue
		}
		opts = append(opts, creator.WithJWTAlg(d, sg))
	}
	pc := creator.New(opts...)
	w := world(method(c.Vm, k.alg, keyOf(k.alg, c.Vmkey)))
	chk := defaults.NewDefaultProofChecker(w.Resolver())
	created := issue.Created
	ctx := &verifiable.LinkedDataProofContext{SignatureType: s.typ, ProofCreator: pc, KeyType: k.kt, Created: &created, VerificationMethod: kid, Purpose: "assertionMethod"}
	if c.Rep == "jws" {
		ctx.SignatureRepresentation = verifiable.SignatureJWS
	}
	t.Run()
	loader := processor.WithDocumentLoader(issue.Loader)
	if c.What == "vp" {
		var cs []string
		if s.ctx != "" {
			cs = append(cs, s.ctx)
		}
		vp := presentation(cs...)
		if err := vp.AddLinkedDataProof(ctx, loader); err != nil {
			verdict(t, r, err, nil)
			return
		}
		b, err := vp.MarshalJSON()
		lib.Must(err, "marshal")
		_, err = verifiable.ParsePresentation(b, verifiable.WithPresJSONLDDocumentLoader(issue.Loader), verifiable.WithPresProofChecker(chk))
		verdict(t, r, nil, err)
		return
	}
	var contexts []interface{}
	if s.ctx != "" {
		contexts = append(contexts, s.ctx)
	}
	doc := vcdoc.Base(issue.Alice, false, contexts...)
	delete(doc["credentialSubject"].(lib.M), "seq") // lists cannot be derived from
	vc := unsigned(doc)
	if err := vc.AddLinkedDataProof(ctx, loader); err != nil {
		verdict(t, r, err, nil)
		return
	}
	vopts := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(issue.Loader), verifiable.WithProofChecker(chk)}
	var err error
	switch c.Entry {
	case "check":
		err = vc.CheckProof(vopts...)
	case "parse":
		var b []byte
		b, err = vc.MarshalJSON()
		lib.Must(err, "marshal")
		_, err = verifiable.ParseCredential(b, vopts...)
	case "derived":
		frame := lib.M{"@context": vcdoc.Clone(doc)["@context"], "type": []interface{}{"VerifiableCredential", "ExtraType"},
			"@explicit": true, "issuer": lib.M{}, "issuanceDate": lib.M{}, "credentialSubject": lib.M{"@explicit": true, "claim": lib.M{}, "num": lib.M{}}}
		var d *verifiable.Credential
		d, err = vc.GenerateBBSSelectiveDisclosure(frame, []byte("nonce"), &verifiable.BBSProofCreator{ProofDerivation: bbs12381g2pub.New(),
			VerificationMethodResolver: honest{w, vm(k.alg)}}, vopts...)
		if err == nil {
			var b []byte
			b, err = d.MarshalJSON()
			lib.Must(err, "marshal")
			_, err = verifiable.ParseCredential(b, vopts...)
		}
	}
	verdict(t, r, nil, err)
}

// honest resolves to the holder's own idea of the issuer's key, so that a derivation can be made at all.
type honest struct {
	w  *ident.World
	vm *vermethod.VerificationMethod
}

func (h honest) ResolveVerificationMethod(string, string) (*vermethod.VerificationMethod, error) {
	return h.vm, nil
}

func vm(alg string) *vermethod.VerificationMethod {
	return &vermethod.VerificationMethod{Type: "Bls12381G2Key2020", Value: ident.K(alg, "own").Bytes()}
}

func main() {
	lib.Main(map[string]func(*lib.T){"token": token, "linked": linked, "integrity": integrity}, nil)
}

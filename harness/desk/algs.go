package desk

import (
	"strings"
	"sync"

	"github.com/trustbloc/did-go/doc/did"
	cose "github.com/veraison/go-cose"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/proof"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256k"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es384"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es521"
	"github.com/trustbloc/vc-go/proof/jwtproofs/ps256"
	"github.com/trustbloc/vc-go/proof/jwtproofs/rs256"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type algorithm struct {
	name string
	jws  verifiable.JWSAlgorithm
	cose cose.Algorithm
	desc proof.JWTProofDescriptor
}

var algorithms = []algorithm{
	{"EdDSA", verifiable.EdDSA, cose.AlgorithmEd25519, eddsa.New()},
	{"ES256", verifiable.ECDSASecp256r1, cose.AlgorithmES256, es256.New()},
	{"ES384", verifiable.ECDSASecp384r1, cose.AlgorithmES384, es384.New()},
	{"ES521", verifiable.ECDSASecp521r1, 0, es521.New()},
	{"ES256K", verifiable.ECDSASecp256k1, 0, es256k.New()},
	{"RS256", verifiable.RS256, cose.AlgorithmRS256, rs256.New()},
	{"PS256", verifiable.PS256, cose.AlgorithmPS256, ps256.New()},
}

func didOf(alg string) string { return "did:example:" + strings.ToLower(alg) }

// publish a key of every algorithm, each under an identifier of its own.
func publish(w *ident.World) *ident.World {
	for _, a := range algorithms {
		id := didOf(a.name)
		w.Add(id, ident.VM{ID: id + "#own", Type: "JsonWebKey2020", Rep: "jwk", Key: ident.K(a.name, "own"), Purpose: did.AssertionMethod})
	}
	return w
}

// multi signs with every algorithm.
func (d *Desk) multi() *creator.ProofCreator {
	var opts []creator.Opt
	for _, a := range algorithms {
		opts = append(opts, creator.WithJWTAlg(a.desc, signer{d, ident.K(a.name, "own"), didOf(a.name) + "#own"}))
	}
	return creator.New(opts...)
}

var (
	algMu   sync.Mutex
	algWire map[string][]byte
)

func algDoc(alg string, v2 bool) M {
	m := Doc(v2, "")
	m["issuer"] = didOf(alg)
	return m
}

// algWires are credentials in every algorithm and encoding that knows it.
func (d *Desk) algWires() map[string][]byte {
	algMu.Lock()
	defer algMu.Unlock()
	if algWire != nil {
		return algWire
	}
	w := map[string][]byte{}
	for _, a := range algorithms {
		k, kid := ident.K(a.name, "own"), didOf(a.name)+"#own"
		doc := algDoc(a.name, false)
		n := strings.ToLower(a.name)
		w[n] = []byte(ident.JWT(M{"alg": a.name, "kid": kid, "typ": "JWT"}, M{"iss": didOf(a.name), "jti": doc["id"], "sub": issue.Hanna, "nbf": 1588748889, "vc": doc}, k))
		if a.cose != 0 {
			c, err := verifiable.ParseCredentialJSON(doc, verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())
			lib.Must(err, "doc")
			c, err = c.CreateSignedCOSEVC(a.cose, d.multi(), kid)
			lib.Must(err, "cose "+a.name)
			b, err := c.MarshalJSON()
			lib.Must(err, "cose "+a.name)
			w[n+"cwt"] = b
		}
		if a.name == "ES256" || a.name == "ES384" {
			s, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: d.world},
				ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: issue.Loader, SignerGetter: ecdsa2019.WithStaticSigner(k)}))
			lib.Must(err, "signer")
			b, err := s.AddProof(lib.JSON(algDoc(a.name, true)), &models.ProofOptions{Purpose: "assertionMethod", ProofType: models.DataIntegrityProof,
				SuiteType: ecdsa2019.SuiteType, VerificationMethodID: kid, Created: issue.Created})
			lib.Must(err, "di")
			w[n+"di"] = b
		}
	}
	algWire = w
	return w
}

func algOps() map[string]shopOp {
	m := map[string]shopOp{}
	for _, a := range algorithms {
		a := a
		n := strings.ToLower(a.name)
		kinds := []string{n}
		if a.cose != 0 {
			kinds = append(kinds, n+"cwt")
		}
		if a.name == "ES256" || a.name == "ES384" {
			kinds = append(kinds, n+"di")
		}
		for _, k := range kinds {
			m[k], m[k+"bad"] = parse(k, false), parse(k, true)
		}
		m[n+"sign"] = func(d *Desk, s *Shop) (string, Obj) {
			c, err := verifiable.ParseCredentialJSON(algDoc(a.name, false), verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())
			lib.Must(err, "doc")
			c, err = c.CreateSignedJWTVC(false, a.jws, s.multi, didOf(a.name)+"#own")
			if err != nil {
				return fail(err), Obj{}
			}
			b, err := c.MarshalJSON()
			if err != nil {
				return fail(err), Obj{}
			}
			_, err = verifiable.ParseCredential(b, append(d.Parse[:len(d.Parse):len(d.Parse)], verifiable.WithCredDisableValidation())...)
			return verdict(err), Obj{}
		}
	}
	return m
}

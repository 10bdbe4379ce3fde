// Package issue secures documents in every encoding the library reads. Tokens (JWT, SD-JWT, CWT) are made with the
// standard library; embedded proofs are made with the library's own document signers.
package issue

import (
	"bytes"
	"compress/gzip"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/documentloader"
	"github.com/trustbloc/did-go/doc/ld/processor"
	ldtestutil "github.com/trustbloc/did-go/doc/ld/testutil"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/spi/kms"

	ldp "github.com/trustbloc/did-go/doc/ld/proof"
	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/jwtproofs/es256"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/proof/ldproofs/jsonwebsignature2020"
	"github.com/trustbloc/vc-go/verifiable/lddocument"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

// DIDs of the cast.
const (
	Alice   = "did:example:alice"
	Mallory = "did:example:mallory"
	Hanna   = "did:example:hanna" // holder
)

// Loader serves JSON-LD contexts offline.
var Loader = func() *documentloader.DocumentLoader {
	l, err := ldtestutil.DocumentLoader()
	lib.Must(err, "loader")
	return l
}()

// DICtx is the context of Data Integrity proofs on version 1.1 credentials.
const DICtx = "https://w3id.org/security/data-integrity/v2"

// Who names a signing key and the key identifier put next to the signature.
type Who struct {
	Alg, Key, Kid string
}

// K is the key.
func (w Who) K() *ident.Key { return ident.K(w.Alg, w.Key) }

// As returns a Who for "own" (alice's first method), "second", "mallory", "hanna", or forged variants
// ("forged": mallory's key under alice's identifier; "forgedholder").
func As(alg, name string) Who {
	switch name {
	case "own":
		return Who{alg, "own", Alice + "#own"}
	case "second":
		return Who{alg, "second", Alice + "#second"}
	case "mallory":
		return Who{alg, "mallory", Mallory + "#own"}
	case "hanna":
		return Who{alg, "hanna", Hanna + "#own"}
	case "forged":
		return Who{alg, "mallory", Alice + "#own"}
	case "forgedholder":
		return Who{alg, "mallory", Hanna + "#own"}
	}
	lib.Fatalf("nobody called %q", name)
	return Who{}
}

// World publishes the cast's keys of one algorithm as JsonWebKey2020 methods.
func World(alg string) *ident.World {
	m := func(id, key string, p did.VerificationRelationship) ident.VM {
		return ident.VM{ID: id, Type: "JsonWebKey2020", Rep: "jwk", Key: ident.K(alg, key), Purpose: p}
	}
	return ident.NewWorld().
		Add(Alice, m(Alice+"#own", "own", did.AssertionMethod), m(Alice+"#second", "second", did.AssertionMethod)).
		Add(Mallory, m(Mallory+"#own", "mallory", did.AssertionMethod), m(Mallory+"#own", "mallory", did.Authentication)).
		Add(Hanna, m(Hanna+"#own", "hanna", did.AssertionMethod), m(Hanna+"#own", "hanna", did.Authentication))
}

// Checker over that world.
func Checker(alg string) *checker.ProofChecker {
	return defaults.NewDefaultProofChecker(World(alg).Resolver())
}

// DIVerifier over that world.
func DIVerifier(alg string) *dataintegrity.Verifier {
	v, err := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: World(alg)},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: Loader}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: Loader}))
	lib.Must(err, "verifier")
	return v
}

// DISigner signs with k whatever method is named.
func DISigner(alg string, k *ident.Key) *dataintegrity.Signer {
	s, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: World(alg)},
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: Loader, SignerGetter: ecdsa2019.WithStaticSigner(k)}),
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: Loader,
			SignerGetter: func(*jwk.JWK) (eddsa2022.Signer, error) { return k, nil }}))
	lib.Must(err, "signer")
	return s
}

// Suite of Data Integrity proofs for an algorithm.
func Suite(alg string) string {
	if alg == "EdDSA" {
		return eddsa2022.SuiteType
	}
	return ecdsa2019.SuiteType
}

// Created is the creation time of embedded proofs.
var Created = time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)

// LD returns doc with a linked-data proof next to those it has.
func LD(doc lib.M, w Who) lib.M {
	d := lib.ParseJSON(lib.JSON(doc)).(lib.M)
	c := Created
	sc := &lddocument.SigningContext{SignatureType: "JsonWebSignature2020", KeyType: kms.ECDSAP256TypeIEEEP1363, Created: &c, Purpose: "assertionMethod",
		VerificationMethod: w.Kid, SignatureRepresentation: ldp.SignatureJWS}
	pc := creator.New(creator.WithLDProofType(jsonwebsignature2020.New(), w.K()), creator.WithJWTAlg(es256.New(), w.K()))
	if w.Alg == "EdDSA" {
		sc.SignatureType, sc.KeyType = "Ed25519Signature2018", kms.ED25519Type
		pc = creator.New(creator.WithLDProofType(ed25519signature2018.New(), w.K()), creator.WithJWTAlg(eddsa.New(), w.K()))
	}
	lib.Must(lddocument.NewDocumentSigner(pc).Sign(sc, d, processor.WithDocumentLoader(Loader)), "sign "+string(lib.JSON(doc)))
	return lib.ParseJSON(lib.JSON(d)).(lib.M)
}

// DI returns doc with a Data Integrity proof next to those it has.
func DI(doc lib.M, w Who, purpose, domain, challenge string) lib.M {
	b, err := DISigner(w.Alg, w.K()).AddProof(lib.JSON(doc), &models.ProofOptions{Purpose: purpose, ProofType: models.DataIntegrityProof,
		SuiteType: Suite(w.Alg), VerificationMethodID: w.Kid, Domain: domain, Challenge: challenge, Created: Created})
	lib.Must(err, "add proof")
	return lib.ParseJSON(b).(lib.M)
}

// Header of a token by w.
func Header(w Who) lib.M { return lib.M{"alg": w.Alg, "kid": w.Kid, "typ": "JWT"} }

// JWT of a payload. With no key ("unsecured") the algorithm is none.
func JWT(payload lib.M, w Who) string { return ident.JWT(Header(w), payload, w.K()) }

// Unsecured token.
func Unsecured(payload lib.M) string {
	return ident.JWT(lib.M{"alg": "none"}, payload, nil)
}

// COSE algorithm identifiers.
var COSEAlg = map[string]int{"EdDSA": -8, "ES256": -7, "ES384": -35, "PS256": -37, "RS256": -257}

// CBOR encoding.
func CBOR(v interface{}) []byte {
	b, err := cbor.Marshal(v)
	lib.Must(err, "cbor")
	return b
}

// CWT is a COSE_Sign1 message over payload.
func CWT(payload interface{}, w Who) []byte {
	h, p := CBOR(map[interface{}]interface{}{1: COSEAlg[w.Alg], 4: []byte(w.Kid)}), CBOR(payload)
	sig, err := w.K().Sign(CBOR([]interface{}{"Signature1", h, []byte{}, p}))
	lib.Must(err, "sign")
	return CBOR(cbor.Tag{Number: 18, Content: []interface{}{h, lib.M{}, p, sig}})
}

// Disclosure of a claim.
func Disclosure(salt, name string, v interface{}) string {
	return ident.B64(lib.JSON([]interface{}{salt, name, v}))
}

// Digest of a disclosure.
func Digest(d string) string {
	x := sha256.Sum256([]byte(d))
	return ident.B64(x[:])
}

// Conceal replaces the named members of m by digests and returns their disclosures, sorted by name.
func Conceal(m lib.M, salt string, names ...string) []string {
	var ds []string
	sort.Strings(names)
	sd := []interface{}{}
	for i, n := range names {
		v, ok := m[n]
		if !ok {
			continue
		}
		d := Disclosure(fmt.Sprintf("%s-salt-%d-0123456789", salt, i), n, v)
		delete(m, n)
		ds = append(ds, d)
		sd = append(sd, Digest(d))
	}
	m["_sd"] = sd
	return ds
}

// Combined SD-JWT with its disclosures.
func Combined(jwt string, ds []string) string {
	return jwt + "~" + strings.Join(append(append([]string{}, ds...), ""), "~")
}

// DataURL of an enveloped object.
func DataURL(media string, data []byte) string {
	return "data:" + media + ";base64," + base64.StdEncoding.EncodeToString(data)
}

// Hex of bytes.
func Hex(b []byte) string { return hex.EncodeToString(b) }

// B64Gzip packs bytes the way status lists do.
func B64Gzip(b []byte) string {
	var buf bytes.Buffer
	w := gzip.NewWriter(&buf)
	_, err := w.Write(b)
	lib.Must(err, "gzip")
	lib.Must(w.Close(), "gzip")
	return base64.RawURLEncoding.EncodeToString(buf.Bytes())
}

// ProofBytes are the signature's bytes of an embedded proof, with a function that replaces them.
func ProofBytes(p lib.M) ([]byte, func([]byte)) {
	if j, ok := p["jws"].(string); ok {
		x := strings.Split(j, ".")
		b, err := base64.RawURLEncoding.DecodeString(x[2])
		lib.Must(err, "jws")
		return b, func(n []byte) { p["jws"] = x[0] + ".." + ident.B64(n) }
	}
	v, _ := p["proofValue"].(string)
	if p["type"] == "Ed25519Signature2020" || p["type"] == "DataIntegrityProof" {
		enc, b, err := multibase.Decode(v)
		lib.Must(err, "multibase")
		return b, func(n []byte) { p["proofValue"], _ = multibase.Encode(enc, n) }
	}
	b, err := base64.RawURLEncoding.DecodeString(v)
	if strings.HasPrefix(p["type"].(string), "Bbs") && err != nil {
		b, err = base64.StdEncoding.DecodeString(v)
		lib.Must(err, "proofValue "+v)
		return b, func(n []byte) { p["proofValue"] = base64.StdEncoding.EncodeToString(n) }
	}
	lib.Must(err, "proofValue "+v)
	return b, func(n []byte) { p["proofValue"] = ident.B64(n) }
}

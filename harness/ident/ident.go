// Package ident provides keys, DIDs and DID documents for the harnesses. Signatures are made here with the
// standard library, not with the code under test.
package ident

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"encoding/asn1"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"sync"

	"github.com/btcsuite/btcd/btcec/v2"
	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/doc/jose/jwk"
	"github.com/trustbloc/kms-go/doc/jose/jwk/jwksupport"

	"github.com/trustbloc/vc-go/vermethod"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

// Algs lists the JWT algorithm names the library offers (its own spelling).
var Algs = []string{"EdDSA", "ES256", "ES384", "ES521", "ES256K", "RS256", "PS256"}

// Key is a signing key with its public half in several representations.
type Key struct {
	Alg  string // algorithm it is made for
	Ed   ed25519.PrivateKey
	Ec   *ecdsa.PrivateKey
	Rsa  *rsa.PrivateKey
	Bbs  *bbs12381g2pub.PrivateKey
	bpub []byte
	jw   *jwk.JWK
}

var (
	mu    sync.Mutex
	cache = map[string]*Key{}
)

// K returns the key with the given name, creating it on first use.
func K(alg, name string) *Key {
	mu.Lock()
	defer mu.Unlock()
	id := alg + "/" + name
	if k, ok := cache[id]; ok {
		return k
	}
	k := New(alg)
	cache[id] = k
	return k
}

// New creates a key for a JWT algorithm ("BBS" for BBS+).
func New(alg string) *Key {
	k := &Key{Alg: alg}
	var err error
	switch alg {
	case "EdDSA":
		_, k.Ed, err = ed25519.GenerateKey(rand.Reader)
	case "ES256":
		k.Ec, err = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	case "ES384":
		k.Ec, err = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
	case "ES521":
		k.Ec, err = ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
	case "ES256K":
		k.Ec, err = ecdsa.GenerateKey(btcec.S256(), rand.Reader)
	case "RS256", "PS256":
		k.Rsa, err = rsa.GenerateKey(rand.Reader, 2048)
	case "BBS":
		var pub *bbs12381g2pub.PublicKey
		pub, k.Bbs, err = bbs12381g2pub.GenerateKeyPair(sha256.New, nil)
		if err == nil {
			k.bpub, err = pub.Marshal()
		}
	default:
		lib.Fatalf("no key type for %q", alg)
	}
	lib.Must(err, "key "+alg)
	if alg != "BBS" {
		k.jw, err = jwksupport.JWKFromKey(k.Public())
		lib.Must(err, "jwk "+alg)
	}
	return k
}

// Public key.
func (k *Key) Public() interface{} {
	switch {
	case k.Ed != nil:
		return k.Ed.Public().(ed25519.PublicKey)
	case k.Ec != nil:
		return &k.Ec.PublicKey
	case k.Rsa != nil:
		return &k.Rsa.PublicKey
	}
	return nil
}

// Bytes of the public key as put in byte-valued verification methods.
func (k *Key) Bytes() []byte {
	switch {
	case k.Ed != nil:
		return k.Ed.Public().(ed25519.PublicKey)
	case k.Ec != nil:
		return elliptic.Marshal(k.Ec.Curve, k.Ec.X, k.Ec.Y)
	case k.Rsa != nil:
		return x509.MarshalPKCS1PublicKey(&k.Rsa.PublicKey)
	}
	return k.bpub
}

// Multikey is the header and compressed key of a Multikey.
func (k *Key) Multikey() []byte {
	switch k.Alg {
	case "EdDSA":
		return append([]byte{0xed, 0x01}, k.Bytes()...)
	case "ES256":
		return append([]byte{0x80, 0x24}, elliptic.MarshalCompressed(k.Ec.Curve, k.Ec.X, k.Ec.Y)...)
	case "ES384":
		return append([]byte{0x81, 0x24}, elliptic.MarshalCompressed(k.Ec.Curve, k.Ec.X, k.Ec.Y)...)
	}
	return nil
}

// JWK of the public key (a fresh copy).
func (k *Key) JWK() *jwk.JWK {
	if k.Public() == nil {
		return nil
	}
	j, err := jwksupport.JWKFromKey(k.Public())
	lib.Must(err, "jwk")
	return j
}

// JWKMap is the JSON form of the public key.
func (k *Key) JWKMap() map[string]interface{} {
	b, err := json.Marshal(k.JWK())
	lib.Must(err, "jwk json")
	m := map[string]interface{}{}
	lib.Must(json.Unmarshal(b, &m), "jwk json")
	return m
}

// Sign with the key under its own algorithm.
func (k *Key) Sign(data []byte) ([]byte, error) { return k.SignAs(k.Alg, data) }

// SignAs signs under the named algorithm, if this key can.
func (k *Key) SignAs(alg string, data []byte) ([]byte, error) {
	switch {
	case k.Ed != nil && alg == "EdDSA":
		return ed25519.Sign(k.Ed, data), nil
	case k.Ec != nil && strings.HasPrefix(alg, "ES"):
		var h []byte
		switch alg {
		case "ES384":
			x := sha512.Sum384(data)
			h = x[:]
		case "ES521", "ES512":
			x := sha512.Sum512(data)
			h = x[:]
		default:
			x := sha256.Sum256(data)
			h = x[:]
		}
		r, s, err := ecdsa.Sign(rand.Reader, k.Ec, h)
		if err != nil {
			return nil, err
		}
		n := (k.Ec.Curve.Params().BitSize + 7) / 8
		out := make([]byte, 2*n)
		r.FillBytes(out[:n])
		s.FillBytes(out[n:])
		return out, nil
	case k.Rsa != nil && alg == "RS256":
		h := sha256.Sum256(data)
		return rsa.SignPKCS1v15(rand.Reader, k.Rsa, crypto.SHA256, h[:])
	case k.Rsa != nil && alg == "PS256":
		h := sha256.Sum256(data)
		return rsa.SignPSS(rand.Reader, k.Rsa, crypto.SHA256, h[:], &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
	case k.Bbs != nil:
		src, err := k.Bbs.Marshal()
		if err != nil {
			return nil, err
		}
		var lines [][]byte
		for _, l := range strings.Split(string(data), "\n") {
			if strings.TrimSpace(l) != "" {
				lines = append(lines, []byte(l))
			}
		}
		return bbs12381g2pub.New().Sign(lines, src)
	}
	return nil, fmt.Errorf("key %s cannot sign as %s", k.Alg, alg)
}

// ToDER converts a raw r||s signature into ASN.1 DER.
func ToDER(sig []byte) []byte {
	n := len(sig) / 2
	b := func(x []byte) []byte {
		v := new(big.Int).SetBytes(x).Bytes()
		if len(v) == 0 || v[0]&0x80 != 0 {
			v = append([]byte{0}, v...)
		}
		return append([]byte{2, byte(len(v))}, v...)
	}
	body := append(b(sig[:n]), b(sig[n:])...)
	if len(body) > 127 {
		return append([]byte{0x30, 0x81, byte(len(body))}, body...)
	}
	return append([]byte{0x30, byte(len(body))}, body...)
}

// Jose is the key as a signer for the library's token building functions.
type Jose struct {
	K *Key
	H jose.Headers
}

// Sign data.
func (j Jose) Sign(d []byte) ([]byte, error) { return j.K.Sign(d) }

// Headers of the token.
func (j Jose) Headers() jose.Headers {
	h := jose.Headers{"alg": j.K.Alg}
	for k, v := range j.H {
		h[k] = v
	}
	return h
}

// B64 is base64url without padding.
func B64(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) }

// UnB64 decodes base64url without padding.
func UnB64(s string) ([]byte, error) { return base64.RawURLEncoding.DecodeString(s) }

// JWT builds a compact token independently of the library. k nil: empty signature.
func JWT(headers, payload map[string]interface{}, k *Key) string {
	return JWTRaw(lib.JSON(headers), lib.JSON(payload), k)
}

// JWTRaw builds a compact token from raw header and payload bytes.
func JWTRaw(h, p []byte, k *Key) string {
	in := B64(h) + "." + B64(p)
	if k == nil {
		return in + "."
	}
	sig, err := k.Sign([]byte(in))
	lib.Must(err, "sign jwt")
	return in + "." + B64(sig)
}

// ParseJWT splits a token into header and payload.
func ParseJWT(tok string) (h, p map[string]interface{}, err error) {
	x := strings.Split(tok, ".")
	if len(x) != 3 {
		return nil, nil, errors.New("not a compact token")
	}
	for i, m := range []*map[string]interface{}{&h, &p} {
		b, err := UnB64(x[i])
		if err != nil {
			return nil, nil, err
		}
		if err = json.Unmarshal(b, m); err != nil {
			return nil, nil, err
		}
	}
	return h, p, nil
}

// VM is a verification method of an identity.
type VM struct {
	ID      string // full id
	Type    string // verification method type
	Key     *Key
	Rep     string // jwk | bytes
	Purpose did.VerificationRelationship
	Val     []byte // bytes to publish instead of Key.Bytes()
	Embed   bool   // published inside the relationship instead of being referenced
}

// Vermethod converts to the library's resolved form.
func (v VM) Vermethod() *vermethod.VerificationMethod {
	if v.Rep == "jwk" {
		return &vermethod.VerificationMethod{Type: v.Type, JWK: v.Key.JWK(), Value: v.Key.Bytes()}
	}
	return &vermethod.VerificationMethod{Type: v.Type, Value: v.Key.Bytes()}
}

// DefaultType of a byte-valued verification method for a key.
func DefaultType(k *Key) string {
	switch k.Alg {
	case "EdDSA":
		return "Ed25519VerificationKey2018"
	case "ES256K":
		return "EcdsaSecp256k1VerificationKey2019"
	case "RS256", "PS256":
		return "RsaVerificationKey2018"
	case "BBS":
		return "Bls12381G2Key2020"
	}
	return "JsonWebKey2020"
}

// World is a set of DID documents; it resolves DIDs like a VDR.
type World struct {
	mu   sync.RWMutex // readers are not ordered among each other, so it hides no race from the detector
	docs map[string]*did.Doc
	Log  []string
}

// NewWorld is empty.
func NewWorld() *World { return &World{docs: map[string]*did.Doc{}} }

// Add publishes a DID document with the given methods.
func (w *World) Add(d string, vms ...VM) *World {
	doc := &did.Doc{ID: d, Context: []string{"https://www.w3.org/ns/did/v1"}}
	for _, v := range vms {
		var m *did.VerificationMethod
		var err error
		if v.Rep == "jwk" {
			m, err = did.NewVerificationMethodFromJWK(v.ID, v.Type, d, v.Key.JWK())
			lib.Must(err, "vm")
		} else {
			val := v.Val
			if val == nil {
				val = v.Key.Bytes()
			}
			m = did.NewVerificationMethodFromBytes(v.ID, v.Type, d, val)
		}
		ver := *did.NewReferencedVerification(m, v.Purpose)
		if v.Embed {
			ver = *did.NewEmbeddedVerification(m, v.Purpose)
		}
		doc.VerificationMethod = append(doc.VerificationMethod, *m)
		switch v.Purpose {
		case did.Authentication:
			doc.Authentication = append(doc.Authentication, ver)
		case did.AssertionMethod:
			doc.AssertionMethod = append(doc.AssertionMethod, ver)
		case did.CapabilityInvocation:
			doc.CapabilityInvocation = append(doc.CapabilityInvocation, ver)
		case did.CapabilityDelegation:
			doc.CapabilityDelegation = append(doc.CapabilityDelegation, ver)
		case did.KeyAgreement:
			doc.KeyAgreement = append(doc.KeyAgreement, ver)
		}
		if v.Purpose == did.KeyAgreement || v.Embed {
			doc.VerificationMethod = doc.VerificationMethod[:len(doc.VerificationMethod)-1]
		}
	}
	w.mu.Lock()
	w.docs[d] = doc
	w.mu.Unlock()
	return w
}

// Resolve implements the VDR interface.
func (w *World) Resolve(d string, _ ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
	w.mu.RLock()
	defer w.mu.RUnlock()
	doc, ok := w.docs[d]
	if !ok {
		return nil, fmt.Errorf("%w: %s", vdrapi.ErrNotFound, d)
	}
	return &did.DocResolution{DIDDocument: doc}, nil
}

// Resolver is the repository's own verification method resolver over this world.
func (w *World) Resolver() *vermethod.VDRResolver { return vermethod.NewVDRResolver(w) }

// DERTail rewrites a signature of two integers of one size as ASN.1 DER and appends a byte to it.
func DERTail(sig []byte) []byte {
	n := len(sig) / 2
	b, err := asn1.Marshal(struct{ R, S *big.Int }{new(big.Int).SetBytes(sig[:n]), new(big.Int).SetBytes(sig[n:])})
	if err != nil {
		panic(err)
	}
	return append(b, 7)
}

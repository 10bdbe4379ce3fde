package main

import (
	"strings"

	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/kms-go/doc/jose/jwk"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/suite"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

var kindAlg = map[string]string{"ed": "EdDSA", "p256": "ES256", "p384": "ES384", "p521": "ES521", "k256": "ES256K", "rsa": "PS256"}

func integrity(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	alg := kindAlg[c.Kind]
	place := func(k *ident.Key) *ident.World {
		v := ident.VM{ID: kid, Key: k, Type: "JsonWebKey2020", Rep: "jwk", Embed: true}
		if c.Vm != "jwk" {
			v.Type, v.Rep = "Multikey", "bytes"
		}
		if c.Vm == "multikey" {
			v.Val = k.Multikey()
		}
		right := did.AssertionMethod
		if c.Purpose == "authentication" {
			right = did.Authentication
		}
		switch c.Published {
		case "general":
			v.Purpose, v.Embed = did.VerificationRelationshipGeneral, false
		case "else":
			v.Purpose = did.CapabilityInvocation
			if t.R.Intn(2) == 0 {
				v.Purpose = did.KeyAgreement
			}
		default:
			v.Purpose = right
		}
		return ident.NewWorld().Add(issue.Alice, v)
	}
	// A recorded finding: the suite does not look at what kind of key it signs with (nothing it makes so verifies).
	if r.Expect == "refuse" && strings.HasPrefix(c.Suite, "eddsa-") && c.Kind != "ed" {
		r.Note = "eddsa-signs-with-other-kinds-of-key"
	}
	sg := signer{keyOf(alg, c.Key), c.Sig}
	ec := ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: issue.Loader, SignerGetter: ecdsa2019.WithStaticSigner(sg)})
	ed := eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: issue.Loader,
		SignerGetter: func(*jwk.JWK) (eddsa2022.Signer, error) { return sg, nil }})
	isEd := c.Suite == eddsa2022.SuiteType || c.Suite == eddsa2022.SuiteType2
	var inits []suite.SignerInitializer
	switch {
	case c.Init == "both":
		inits = append(inits, ec, ed)
	case c.Init == "only" && isEd, c.Init == "other" && !isEd:
		inits = append(inits, ed)
	case c.Init != "empty":
		inits = append(inits, ec)
	}
	s, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: place(keyOf(alg, "own"))}, inits...)
	lib.Must(err, "signer")
	later := keyOf(alg, "own")
	if c.Published == "republished" {
		later = ident.K(alg, "later")
	}
	v, err := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: place(later)},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: issue.Loader}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: issue.Loader}))
	lib.Must(err, "verifier")
	created := issue.Created
	ctx := &verifiable.DataIntegrityProofContext{SigningKeyID: kid, ProofPurpose: c.Purpose, CryptoSuite: c.Suite, Created: &created}
	switch c.Kid {
	case "unknown":
		ctx.SigningKeyID = issue.Alice + "#none"
	case "nodid":
		ctx.SigningKeyID = "did:example:nobody#own"
	case "absent":
		ctx.SigningKeyID = ""
	}
	switch c.Suite {
	case "none":
		ctx.CryptoSuite = ""
	case "bogus":
		ctx.CryptoSuite = "unheard-2031"
	}
	switch c.Purpose {
	case "default":
		ctx.ProofPurpose = ""
	case "bogus":
		ctx.ProofPurpose = "decoration"
	}
	want := ctx.ProofPurpose
	if want == "" {
		want = "assertionMethod"
	}
	if c.Ask != "plain" {
		ctx.Domain = "verifier.example"
	}
	if c.Ask == "domchal" {
		ctx.Challenge = "nonce-1"
	}
	domain, challenge := ctx.Domain, ctx.Challenge
	t.Run()
	chk := issue.Checker("EdDSA")
	if c.What == "vp" {
		vp := presentation(issue.DICtx)
		if err = vp.AddDataIntegrityProof(ctx, s); err != nil {
			verdict(t, r, err, nil)
			return
		}
		b, err := vp.MarshalJSON()
		lib.Must(err, "marshal")
		_, err = verifiable.ParsePresentation(b, verifiable.WithPresJSONLDDocumentLoader(issue.Loader), verifiable.WithPresProofChecker(chk),
			verifiable.WithPresDataIntegrityVerifier(v), verifiable.WithPresExpectedDataIntegrityFields(want, domain, challenge))
		verdict(t, r, nil, err)
		return
	}
	doc := vcdoc.Base(issue.Alice, false, issue.DICtx)
	if t.R.Intn(2) == 0 {
		doc = vcdoc.Base(issue.Alice, true)
	}
	vc := unsigned(doc)
	if err = vc.AddDataIntegrityProof(ctx, s); err != nil {
		verdict(t, r, err, nil)
		return
	}
	opts := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(issue.Loader), verifiable.WithProofChecker(chk),
		verifiable.WithDataIntegrityVerifier(v), verifiable.WithExpectedDataIntegrityFields(want, domain, challenge)}
	if c.Entry == "check" {
		verdict(t, r, nil, vc.CheckProof(opts...))
		return
	}
	b, err := vc.MarshalJSON()
	lib.Must(err, "marshal")
	_, err = verifiable.ParseCredential(b, opts...)
	verdict(t, r, nil, err)
}

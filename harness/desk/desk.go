// Package desk has credentials and presentations in every encoding, the components that issuers, holders and verifiers
// share, and the operations people do with them. What an operation gives is told as text; two operations gave the
// same when the texts are equal.
package desk

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/fxamacker/cbor/v2"
	"github.com/piprate/json-gold/ld"
	"github.com/veraison/go-cose"

	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/did"
	ldcontext "github.com/trustbloc/did-go/doc/ld/context"
	"github.com/trustbloc/did-go/doc/ld/processor"
	ldtestutil "github.com/trustbloc/did-go/doc/ld/testutil"
	timeutil "github.com/trustbloc/did-go/doc/util/time"
	"github.com/trustbloc/did-go/vdr/api"
	"github.com/trustbloc/kms-go/doc/jose"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	dcverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/vermethod"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type (
	M = lib.M
	L = []interface{}
)

const bbsCtx = "https://w3id.org/security/bbs/v1"

// Desk holds shared components. Gate, if set, is called wherever a component calls back.
type Desk struct {
	Gate    func(where string)
	Chk     *checker.ProofChecker
	DIV     *dataintegrity.Verifier
	DIS     *dataintegrity.Signer
	MK      *creator.ProofCreator
	LD, BBS *verifiable.LinkedDataProofContext
	DI      *verifiable.DataIntegrityProofContext
	Parse   []verifiable.CredentialOpt // has room for more
	Pres    []verifiable.PresentationOpt
	LDOpts  []processor.Opts
	Plain   []string // names that stay plain; has room for more
	Given   []string
	Bind    *holder.BindingInfo
	Jose    signer
	Frame   M
	Derive  *verifiable.BBSProofCreator
	world   *ident.World
	Who     issue.Who
}

type (
	gatedVDR    struct{ d *Desk }
	gatedLoader struct{ d *Desk }
	signer      struct {
		d   *Desk
		k   *ident.Key
		kid string
	}
	fixed struct{ vm *vermethod.VerificationMethod }
)

func (d *Desk) gate(s string) {
	if d.Gate != nil {
		d.Gate(s)
	}
}

func (g gatedVDR) Resolve(id string, o ...api.DIDMethodOption) (*did.DocResolution, error) {
	g.d.gate("resolve")
	return g.d.world.Resolve(id, o...)
}

func (g gatedLoader) LoadDocument(u string) (*ld.RemoteDocument, error) {
	g.d.gate("load")
	return issue.Loader.LoadDocument(u)
}

func (s signer) Sign(b []byte) ([]byte, error) {
	s.d.gate("sign")
	return s.k.Sign(b)
}

// Headers makes it a jose.Signer.
func (s signer) Headers() jose.Headers { return jose.Headers{"alg": "EdDSA", "kid": s.kid} }

func (f fixed) ResolveVerificationMethod(string, string) (*vermethod.VerificationMethod, error) {
	return f.vm, nil
}

func (f fixed) PublicKeyFetcher() {}

var once sync.Once

// New desk with components of its own.
func New() *Desk {
	once.Do(func() { // key material exists before anything runs
		l, err := ldtestutil.DocumentLoader(ldcontext.Document{URL: dcverifier.ContextV1, Content: lib.JSON(M{"@context": M{
			"LinkedDomains":           "https://identity.foundation/.well-known/resources/did-configuration/#LinkedDomains",
			"DomainLinkageCredential": "https://identity.foundation/.well-known/resources/did-configuration/#DomainLinkageCredential",
			"origin":                  "https://identity.foundation/.well-known/resources/did-configuration/#origin"}})})
		lib.Must(err, "loader")
		issue.Loader = l
		issue.World("EdDSA")
		ident.K("BBS", "own")
		for _, a := range algorithms {
			ident.K(a.name, "own")
		}
	})
	d := &Desk{Who: issue.As("EdDSA", "own")}
	bk := ident.K("BBS", "own")
	d.world = publish(issue.World("EdDSA")).Add("did:example:bbs", ident.VM{ID: "did:example:bbs#own", Type: "Bls12381G2Key2020", Rep: "bytes", Key: bk, Purpose: did.AssertionMethod})
	res := vermethod.NewVDRResolver(gatedVDR{d})
	d.Chk = defaults.NewDefaultProofChecker(res)
	k := d.Who.K()
	d.Jose = signer{d, k, d.Who.Kid}
	d.MK = creator.New(creator.WithJWTAlg(eddsa.New(), d.Jose), creator.WithLDProofType(ed25519signature2018.New(), d.Jose),
		creator.WithLDProofType(bbsblssignature2020.New(), signer{d, bk, "did:example:bbs#own"}))
	var err error
	d.DIV, err = dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: gatedVDR{d}},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: gatedLoader{d}}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: gatedLoader{d}}))
	lib.Must(err, "verifier")
	d.DIS, err = dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: gatedVDR{d}},
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: gatedLoader{d},
			SignerGetter: eddsa2022.WithStaticSigner(d.Jose)}))
	lib.Must(err, "signer")
	t := issue.Created
	d.LD = &verifiable.LinkedDataProofContext{SignatureType: "Ed25519Signature2018", ProofCreator: d.MK, KeyType: kms.ED25519Type,
		SignatureRepresentation: verifiable.SignatureJWS, Created: &t, VerificationMethod: d.Who.Kid}
	d.BBS = &verifiable.LinkedDataProofContext{SignatureType: "BbsBlsSignature2020", ProofCreator: d.MK, KeyType: kms.BLS12381G2Type,
		SignatureRepresentation: verifiable.SignatureProofValue, Created: &t, VerificationMethod: "did:example:bbs#own"}
	d.DI = &verifiable.DataIntegrityProofContext{SigningKeyID: d.Who.Kid, CryptoSuite: eddsa2022.SuiteType, Created: &t}
	ldr := gatedLoader{d}
	d.Parse = append(make([]verifiable.CredentialOpt, 0, 16), verifiable.WithProofChecker(d.Chk), verifiable.WithDataIntegrityVerifier(d.DIV),
		verifiable.WithJSONLDDocumentLoader(ldr), verifiable.WithExpectedDataIntegrityFields("", "", ""), verifiable.WithDisabledRelatedResourceCheck())
	d.Pres = append(make([]verifiable.PresentationOpt, 0, 16), verifiable.WithPresProofChecker(d.Chk), verifiable.WithPresDataIntegrityVerifier(d.DIV),
		verifiable.WithPresJSONLDDocumentLoader(ldr), verifiable.WithPresExpectedDataIntegrityFields("", "", ""))
	d.LDOpts = append(make([]processor.Opts, 0, 8), processor.WithDocumentLoader(ldr))
	d.Plain = append(make([]string, 0, 8), "level")
	d.Given = append(make([]string, 0, 8), "name")
	d.Bind = &holder.BindingInfo{Payload: holder.BindingPayload{Nonce: "n1", Audience: "https://verifier.example"}, Signer: d.Jose, Headers: M{"alg": "EdDSA", "typ": "kb+jwt"}}
	d.Derive = &verifiable.BBSProofCreator{ProofDerivation: bbs12381g2pub.New(),
		VerificationMethodResolver: fixed{&vermethod.VerificationMethod{Type: "Bls12381G2Key2020", Value: bk.Bytes()}}}
	d.Frame = M{"@context": L{"https://www.w3.org/2018/credentials/v1", M{"@vocab": "https://ex.org/"}, bbsCtx}, "type": L{"VerifiableCredential", "ExtraType"},
		"@explicit": true, "issuer": M{}, "issuanceDate": M{}, "credentialSubject": M{"@explicit": true, "name": M{}}}
	return d
}

// Doc is the document behind a credential of the desk.
func Doc(v2 bool, kind string) M {
	ctx := L{"https://www.w3.org/2018/credentials/v1", M{"@vocab": "https://ex.org/"}}
	from, until := "issuanceDate", "expirationDate"
	if v2 {
		ctx[0], from, until = "https://www.w3.org/ns/credentials/v2", "validFrom", "validUntil"
	}
	d := M{"@context": ctx, "id": "urn:uuid:1", "type": L{"VerifiableCredential", "ExtraType"}, "issuer": M{"id": issue.Alice, "label": "Alice"},
		from: "2020-05-06T07:08:09Z", until: "2090-05-06T07:08:09Z", "motto": M{"en": "go", "words": L{"a", "b"}},
		"credentialSubject": M{"id": issue.Hanna, "name": "Hanna", "level": "B", "address": M{"street": "Main", "town": "Bern"}, "langs": L{"de", "fr"}},
		"credentialStatus": M{"id": "https://alice.example/status#1", "type": "StatusList2021Entry", "statusPurpose": "revocation", "statusListIndex": "1",
			"statusListCredential": "https://alice.example/status"},
		"evidence": L{M{"id": "urn:uuid:ev", "type": "DocumentVerification", "papers": L{"pass"}}},
	}
	if kind == "bbs" {
		d["@context"] = append(ctx, bbsCtx)
		d["issuer"] = "did:example:bbs"
		d["credentialSubject"].(M)["name"] = "Hanna B"
		delete(d["credentialSubject"].(M), "langs")
		delete(d["motto"].(M), "words")
		delete(d, "evidence")
		delete(d, "credentialStatus")
	}
	return lib.ParseJSON(lib.JSON(d)).(M)
}

// Obj is what operations work on.
type Obj struct {
	C    *verifiable.Credential
	P    *verifiable.Presentation
	S    *Shop
	Kind string
}

var (
	wires   = map[string][]byte{}
	wiresMu sync.Mutex
)

// Kinds of credential; "2" is the second data model.
var Kinds = []string{"plain", "plain2", "ld", "ldpair", "di2", "jwt", "jwt2", "jwtld", "unsec", "cwt", "cwt2", "sd", "sd2", "sdrec", "bbs"}

// Wire is a credential or presentation as it travels.
func Wire(kind string) []byte {
	wiresMu.Lock()
	defer wiresMu.Unlock()
	if b, ok := wires[kind]; ok {
		return b
	}
	b := New().wire(kind)
	wires[kind] = b
	return b
}

func (d *Desk) wire(kind string) []byte {
	v2 := strings.HasSuffix(kind, "2")
	doc := Doc(v2, kind)
	plain := func() *verifiable.Credential {
		c, err := verifiable.ParseCredentialJSON(doc, verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())
		lib.Must(err, "doc")
		return c
	}
	ldp := func(c *verifiable.Credential) *verifiable.Credential {
		lib.Must(c.AddLinkedDataProof(d.LD, d.LDOpts...), "ld")
		return c
	}
	bytes := func(c *verifiable.Credential, err error) []byte {
		lib.Must(err, kind)
		b, err := c.MarshalJSON()
		lib.Must(err, kind)
		return b
	}
	switch kind {
	case "plain", "plain2":
		return lib.JSON(doc)
	case "ld":
		return bytes(ldp(plain()), nil)
	case "ldpair":
		return bytes(ldp(ldp(plain())), nil)
	case "di2":
		c := plain()
		lib.Must(c.AddDataIntegrityProof(d.DI, d.DIS), "di")
		return bytes(c, nil)
	case "jwt", "jwt2":
		return bytes(plain().CreateSignedJWTVC(false, verifiable.EdDSA, d.MK, d.Who.Kid))
	case "jwtld":
		return bytes(ldp(plain()).CreateSignedJWTVC(false, verifiable.EdDSA, d.MK, d.Who.Kid))
	case "unsec":
		return bytes(ldp(plain()).CreateUnsecuredJWTVC(false))
	case "cwt", "cwt2":
		return bytes(plain().CreateSignedCOSEVC(cose.AlgorithmEd25519, d.MK, d.Who.Kid))
	case "sd", "sd2":
		s, err := plain().MakeSDJWT(d.Jose, d.Who.Kid)
		lib.Must(err, kind)
		return []byte(s)
	case "sdrec":
		s, err := plain().MakeSDJWT(d.Jose, d.Who.Kid, verifiable.MakeSDJWTWithVersion(common.SDJWTVersionV5),
			verifiable.MakeSDJWTWithRecursiveClaimsObjects([]string{"address"}))
		lib.Must(err, kind)
		return []byte(s)
	case "bbs":
		c := plain()
		lib.Must(c.AddLinkedDataProof(d.BBS, d.LDOpts...), "bbs")
		return bytes(c, nil)
	}
	lib.Fatalf("no kind %q", kind)
	return nil
}

// Credential parsed from the wire.
func (d *Desk) Credential(kind string) *verifiable.Credential {
	c, err := verifiable.ParseCredential(Wire(kind), append(d.Parse[:len(d.Parse):len(d.Parse)], verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())...)
	lib.Must(err, "parse "+kind)
	return c
}

// VPKinds of presentation.
var VPKinds = []string{"vp", "vpone", "vp2", "vpld", "vpdi2", "vpjwt", "vpjwt2", "vpcwt"}

// Presentation of a kind; most hold three credentials, so that there is room behind them.
func (d *Desk) Presentation(kind string) *verifiable.Presentation {
	v2 := strings.HasSuffix(kind, "2")
	names := []string{"ld", "jwt", "sd"}
	opts := []verifiable.CreatePresentationOpt{}
	if v2 {
		names = []string{"di2", "jwt2", "sd2"}
		opts = append(opts, verifiable.WithBaseContext("https://www.w3.org/ns/credentials/v2"))
	}
	switch kind {
	case "vpone", "vpld", "vpcwt":
		names = names[:1]
	}
	var cs []*verifiable.Credential
	for _, n := range names {
		cs = append(cs, d.Credential(n))
	}
	p, err := verifiable.NewPresentation(append(opts, verifiable.WithCredentials(cs...))...)
	lib.Must(err, "vp")
	p.ID, p.Holder = "urn:uuid:vp", issue.Alice
	p.CustomFields = verifiable.CustomFields{"extra": M{"a": L{"b"}}}
	if !v2 {
		p.Context = append(p.Context, "https://www.w3.org/2018/credentials/examples/v1")
	}
	switch kind {
	case "vpld":
		delete(p.CustomFields, "extra")
		lib.Must(p.AddLinkedDataProof(d.LD, d.LDOpts...), "vpld")
	case "vpdi2":
		delete(p.CustomFields, "extra")
		lib.Must(p.AddDataIntegrityProof(d.DI, d.DIS), "vpdi")
	case "vpjwt", "vpjwt2":
		p, err = p.CreateJWTVP([]string{"https://verifier.example"}, verifiable.EdDSA, d.MK, d.Who.Kid, false)
		lib.Must(err, "vpjwt")
	case "vpcwt":
		p, err = p.CreateCWTVP([]string{"https://verifier.example"}, cose.AlgorithmEd25519, d.MK, d.Who.Kid, false)
		lib.Must(err, "vpcwt")
	}
	return p
}

// Make an object of a kind.
func (d *Desk) Make(kind string) Obj {
	if ShopOps[kind] != nil {
		return Obj{S: d.Open(kind), Kind: kind}
	}
	if strings.HasPrefix(kind, "vp") {
		return Obj{P: d.Presentation(kind)}
	}
	return Obj{C: d.Credential(kind)}
}

func text(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil { // numbers that JSON has no notation for
		b = []byte(fmt.Sprintf("%v", v))
	}
	return withoutUUIDs(string(b))
}

// withoutUUIDs writes uuid for every UUID in s.
func withoutUUIDs(s string) string {
	var out strings.Builder
	from := 0
	for i := 8; i+28 <= len(s); {
		d := strings.IndexByte(s[i:], '-')
		if d < 0 {
			break
		}
		i += d
		if i-8 >= from && i+28 <= len(s) && s[i+5] == '-' && s[i+10] == '-' && s[i+15] == '-' && hexes(s[i-8:i]) && hexes(s[i+1:i+5]) &&
			hexes(s[i+6:i+10]) && hexes(s[i+11:i+15]) && hexes(s[i+16:i+28]) {
			out.WriteString(s[from:i-8] + "uuid")
			from = i + 28
			i = from + 8
			continue
		}
		i++
	}
	return out.String() + s[from:]
}

func hexes(s string) bool {
	for _, c := range s {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f') {
			return false
		}
	}
	return true
}

func fail(err error) string { return "error: " + err.Error() }

// Show is everything one can see of an object.
func Show(o Obj) string { return show(o, true) }

func show(o Obj, exact bool) string {
	if o.S != nil {
		return o.S.Print()
	}
	if o.C != nil {
		c := o.C
		m := M{"contents": showContents(c.Contents()), "raw": c.ToRawJSON(), "proofs": c.Proofs(), "hash": c.Contents().SDJWTHashAlg}
		if e := c.JWTEnvelope; e != nil {
			m["jwt"], m["headers"], m["binding"], m["version"] = e.JWT, e.JWTHeaders, e.SDHolderBinding, int(e.SDJWTVersion)
			ds := []string{}
			for _, x := range e.SDJWTDisclosures {
				ds = append(ds, text(x))
			}
			m["disclosures"] = ds
		}
		if e := c.CWTEnvelope; e != nil {
			m["cwtclaims"] = decoded(e.Sign1MessageParsed.Payload)
			if !exact {
				return text(m)
			}
			m["cwt"] = issue.Hex(e.Sign1MessageRaw)
			m["cwtp"] = issue.Hex(e.Sign1MessageParsed.Payload) + issue.Hex(e.Sign1MessageParsed.Signature) + fmt.Sprint(e.Sign1MessageParsed.Headers.Protected, e.Sign1MessageParsed.Headers.Unprotected)
		}
		return text(m)
	}
	p := o.P
	m := M{"context": p.Context, "custom": p.CustomContext, "id": p.ID, "type": p.Type, "holder": p.Holder, "proofs": p.Proofs, "jwt": p.JWT, "fields": p.CustomFields}
	if p.CWT != nil {
		m["vpmap"] = fmt.Sprint(p.CWT.VPMap)
		if exact {
			m["cwt"] = issue.Hex(p.CWT.Raw)
		}
	}
	cs := []string{}
	for _, c := range p.Credentials() {
		cs = append(cs, show(Obj{C: c}, exact))
	}
	m["credentials"] = cs
	return text(m)
}

func showContents(v verifiable.CredentialContents) interface{} {
	tm := func(t *timeutil.TimeWrapper) string {
		if t == nil {
			return "none"
		}
		return t.Time.UTC().Format(time.RFC3339Nano)
	}
	sub := L{}
	for _, s := range v.Subject {
		sub = append(sub, M{"id": s.ID, "cf": s.CustomFields})
	}
	ty := func(t *verifiable.TypedID) interface{} {
		if t == nil {
			return nil
		}
		return M{"id": t.ID, "type": t.Type, "cf": t.CustomFields}
	}
	st := L{}
	for _, s := range v.Status {
		st = append(st, ty(s))
	}
	var is interface{}
	if v.Issuer != nil {
		is = M{"id": v.Issuer.ID, "cf": v.Issuer.CustomFields}
	}
	return M{"ctx": v.Context, "cctx": v.CustomContext, "id": v.ID, "types": v.Types, "subject": sub, "issuer": is, "issued": tm(v.Issued), "expired": tm(v.Expired),
		"status": st, "schemas": fmt.Sprint(v.Schemas), "evidence": v.Evidence, "terms": fmt.Sprint(v.TermsOfUse), "refresh": ty(v.RefreshService), "related": fmt.Sprint(v.RelatedResources)}
}

// verdict on something marshalled.
func (d *Desk) Verdict(o Obj) string {
	if o.C != nil {
		if e := o.C.JWTEnvelope; e != nil && e.JWT != "" && o.C.Contents().SDJWTHashAlg != nil {
			return verdict(o.C.CheckProof(d.Parse...))
		}
		return verdict(o.C.CheckProof(d.Parse...))
	}
	b, err := o.P.MarshalJSON()
	if err != nil {
		return fail(err)
	}
	if o.P.CWT != nil {
		b = o.P.CWT.Raw
	}
	_, err = verifiable.ParsePresentation(b, d.Pres...)
	return verdict(err)
}

func verdict(err error) string {
	if err != nil {
		return fail(err)
	}
	return "ok"
}

// Verbose keeps error messages.
var Verbose bool

type op func(d *Desk, o Obj) (string, Obj)

func out(o Obj, err error) (string, Obj) {
	if err != nil {
		return fail(err), Obj{}
	}
	return show(o, false), o
}

func decoded(b []byte) string {
	var v interface{}
	if err := cbor.Unmarshal(b, &v); err != nil {
		return "unreadable"
	}
	return fmt.Sprint(v)
}

func cred(c *verifiable.Credential, err error) (string, Obj) { return out(Obj{C: c}, err) }

func js(v interface{}, err error) (string, Obj) {
	if err != nil {
		return fail(err), Obj{}
	}
	return text(v), Obj{}
}

// opened tells an SD-JWT (salts are random) by what it opens to.
func (d *Desk) opened(s string, err error) (string, Obj) {
	if err != nil {
		return fail(err), Obj{}
	}
	binding := ""
	if i := strings.LastIndex(s, "~"); strings.Contains(s[i+1:], ".") { // the holder's key is not confirmed in these credentials
		s, binding = s[:i+1], s[i+1:]
	} else if i < len(s)-1 {
		s += "~"
	}
	cf := common.ParseCombinedFormatForPresentation(s)
	v, err := verifier.Parse(s, verifier.WithSignatureVerifier(d.Chk), verifier.WithIssuerSigningAlgorithms([]string{"EdDSA"}))
	if err != nil {
		return fail(err), Obj{}
	}
	return fmt.Sprintf("%d %s %v", len(cf.Disclosures), text(v), binding), Obj{}
}

// CredOps are operations on a credential that leave it as it is.
var CredOps = map[string]op{
	"contents":  func(d *Desk, o Obj) (string, Obj) { return js(showContents(o.C.Contents()), nil) },
	"raw":       func(d *Desk, o Obj) (string, Obj) { return js(o.C.ToRawJSON(), nil) },
	"claims":    func(d *Desk, o Obj) (string, Obj) { return js(o.C.ToRawClaimsMap(), nil) },
	"marshal":   func(d *Desk, o Obj) (string, Obj) { b, err := o.C.MarshalJSON(); return js(string(b), err) },
	"marshalld": func(d *Desk, o Obj) (string, Obj) { b, err := o.C.MarshalAsJSONLD(); return js(string(b), err) },
	"universal": func(d *Desk, o Obj) (string, Obj) { return js(o.C.ToUniversalForm()) },
	"proofs":    func(d *Desk, o Obj) (string, Obj) { return js(o.C.Proofs(), nil) },
	"headers": func(d *Desk, o Obj) (string, Obj) {
		return js(M{"h": o.C.JWTHeaders(), "j": o.C.IsJWT(), "c": o.C.IsCWT()}, nil)
	},
	"opens":     func(d *Desk, o Obj) (string, Obj) { return js(o.C.SDJWTDisclosures(), nil) },
	"custom":    func(d *Desk, o Obj) (string, Obj) { return js(o.C.CustomField("motto"), nil) },
	"jwtstring": func(d *Desk, o Obj) (string, Obj) { return js(o.C.ToJWTString()) },
	"cwthex":    func(d *Desk, o Obj) (string, Obj) { return js(o.C.MarshalAsCWTLDHex()) },
	"jwtclaims": func(d *Desk, o Obj) (string, Obj) { return js(o.C.JWTClaims(false)) },
	"jwtmin":    func(d *Desk, o Obj) (string, Obj) { return js(o.C.JWTClaims(true)) },
	"cwtclaims": func(d *Desk, o Obj) (string, Obj) { return js(o.C.CWTClaims()) },
	"check":     func(d *Desk, o Obj) (string, Obj) { return verdict(o.C.CheckProof(d.Parse...)), Obj{} },
	"checkctx": func(d *Desk, o Obj) (string, Obj) {
		return verdict(o.C.CheckProof(append(d.Parse[:len(d.Parse):len(d.Parse)], verifiable.WithExternalJSONLDContext("https://www.w3.org/2018/credentials/examples/v1"))...)), Obj{}
	},
	"validate": func(d *Desk, o Obj) (string, Obj) { return verdict(o.C.ValidateCredential(d.Parse...)), Obj{} },
	"strict": func(d *Desk, o Obj) (string, Obj) {
		return verdict(o.C.ValidateCredential(append(d.Parse[:len(d.Parse):len(d.Parse)], verifiable.WithStrictValidation(),
			verifiable.WithExternalJSONLDContext("https://www.w3.org/2018/credentials/examples/v1"))...)), Obj{}
	},
	"again": func(d *Desk, o Obj) (string, Obj) {
		b, err := o.C.MarshalJSON()
		if err != nil {
			return fail(err), Obj{}
		}
		return cred(verifiable.ParseCredential(b, d.Parse...))
	},
	"reparse": func(d *Desk, o Obj) (string, Obj) {
		return cred(verifiable.ParseCredentialJSON(o.C.ToRawJSON(), append(d.Parse[:len(d.Parse):len(d.Parse)], verifiable.WithCredDisableValidation())...))
	},
	"rebuild": func(d *Desk, o Obj) (string, Obj) {
		return cred(verifiable.CreateCredential(o.C.Contents(), verifiable.CustomFields{"motto": o.C.CustomField("motto")}))
	},
	"signjwt": func(d *Desk, o Obj) (string, Obj) {
		return cred(o.C.CreateSignedJWTVC(false, verifiable.EdDSA, d.MK, d.Who.Kid))
	},
	"signmin": func(d *Desk, o Obj) (string, Obj) {
		return cred(o.C.CreateSignedJWTVC(true, verifiable.EdDSA, d.MK, d.Who.Kid))
	},
	"signcwt": func(d *Desk, o Obj) (string, Obj) {
		return cred(o.C.CreateSignedCOSEVC(cose.AlgorithmEd25519, d.MK, d.Who.Kid))
	},
	"unsecure": func(d *Desk, o Obj) (string, Obj) { return cred(o.C.CreateUnsecuredJWTVC(false)) },
	"makesd": func(d *Desk, o Obj) (string, Obj) {
		return d.opened(o.C.MakeSDJWT(d.Jose, d.Who.Kid, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(d.Plain)))
	},
	"makesd5": func(d *Desk, o Obj) (string, Obj) {
		return d.opened(o.C.MakeSDJWT(d.Jose, d.Who.Kid, verifiable.MakeSDJWTWithVersion(common.SDJWTVersionV5), verifiable.MakeSDJWTWithRecursiveClaimsObjects([]string{"address"})))
	},
	"disclose": func(d *Desk, o Obj) (string, Obj) {
		return d.opened(o.C.MarshalWithDisclosure(verifiable.DiscloseGivenIfAvailable(d.Given), verifiable.DisclosureSigner(d.Jose, d.Who.Kid)))
	},
	"discloseall": func(d *Desk, o Obj) (string, Obj) {
		return d.opened(o.C.MarshalWithDisclosure(verifiable.DiscloseAll(), verifiable.DisclosureHolderBinding(d.Bind), verifiable.DisclosureSigner(d.Jose, d.Who.Kid)))
	},
	"display": func(d *Desk, o Obj) (string, Obj) {
		return cred(o.C.CreateDisplayCredential(verifiable.DisplayAllDisclosures()))
	},
	"displaysome": func(d *Desk, o Obj) (string, Obj) {
		return cred(o.C.CreateDisplayCredential(verifiable.DisplayGivenDisclosures(d.Given)))
	},
	"displaymap": func(d *Desk, o Obj) (string, Obj) {
		return js(o.C.CreateDisplayCredentialMap(verifiable.DisplayAllDisclosures()))
	},
	"bbs": func(d *Desk, o Obj) (string, Obj) {
		_, err := o.C.GenerateBBSSelectiveDisclosure(d.Frame, []byte("nonce"), d.Derive, d.Parse...)
		return verdict(err), Obj{} // derived proofs are random
	},
	"withid":   func(d *Desk, o Obj) (string, Obj) { return cred(o.C.WithModifiedID("urn:uuid:2"), nil) },
	"withnoid": func(d *Desk, o Obj) (string, Obj) { return cred(o.C.WithModifiedID(""), nil) },
	"withissuer": func(d *Desk, o Obj) (string, Obj) {
		return cred(o.C.WithModifiedIssuer(&verifiable.Issuer{ID: issue.Hanna, CustomFields: M{"label": "Hanna"}}), nil)
	},
	"withsubject": func(d *Desk, o Obj) (string, Obj) {
		return cred(o.C.WithModifiedSubject([]verifiable.Subject{{ID: issue.Mallory, CustomFields: M{"name": "Mallory"}}}), nil)
	},
	"withstatus": func(d *Desk, o Obj) (string, Obj) {
		return cred(o.C.WithModifiedStatus(&verifiable.TypedID{ID: "urn:s:1", Type: "T"}), nil)
	},
	"withcontext": func(d *Desk, o Obj) (string, Obj) {
		return cred(o.C.WithModifiedContext([]string{first(o.C.Contents().Context), "https://www.w3.org/2018/credentials/examples/v1"}), nil)
	},
	"withrefresh": func(d *Desk, o Obj) (string, Obj) {
		return cred(o.C.WithModifiedRefreshService(&verifiable.TypedID{ID: "urn:r:1", Type: "R"}), nil)
	},
	"withissued":  func(d *Desk, o Obj) (string, Obj) { return cred(o.C.WithModifiedIssued(at(2021)), nil) },
	"withexpired": func(d *Desk, o Obj) (string, Obj) { return cred(o.C.WithModifiedExpired(at(2091)), nil) },
	"withfrom":    func(d *Desk, o Obj) (string, Obj) { return cred(o.C.WithModifiedValidFrom(at(2021)), nil) },
	"withuntil":   func(d *Desk, o Obj) (string, Obj) { return cred(o.C.WithModifiedValidUntil(at(2091)), nil) },
	"present": func(d *Desk, o Obj) (string, Obj) {
		p, err := d.holding(o.C)
		if err != nil {
			return fail(err), Obj{}
		}
		return out(Obj{P: p}, nil)
	},
	"presentjwt": func(d *Desk, o Obj) (string, Obj) {
		p, err := d.holding(o.C)
		if err == nil {
			p, err = p.CreateJWTVP([]string{"aud"}, verifiable.EdDSA, d.MK, d.Who.Kid, false)
		}
		return out(Obj{P: p}, err)
	},
	"presentcwt": func(d *Desk, o Obj) (string, Obj) {
		p, err := d.holding(o.C)
		if err == nil {
			p, err = p.CreateCWTVP([]string{"aud"}, cose.AlgorithmEd25519, d.MK, d.Who.Kid, false)
		}
		return out(Obj{P: p}, err)
	},
	"presentld": func(d *Desk, o Obj) (string, Obj) {
		p, err := d.holding(o.C)
		if err == nil {
			err = p.AddLinkedDataProof(d.LD, d.LDOpts...)
		}
		return out(Obj{P: p}, err)
	},
	"presentdi": func(d *Desk, o Obj) (string, Obj) {
		p, err := d.holding(o.C)
		if err == nil {
			err = p.AddDataIntegrityProof(d.DI, d.DIS)
		}
		return out(Obj{P: p}, err)
	},
}

func (d *Desk) holding(c *verifiable.Credential) (*verifiable.Presentation, error) {
	p, err := verifiable.NewPresentation(verifiable.WithBaseContext(first(c.Contents().Context)), verifiable.WithCredentials(c))
	if err == nil {
		p.Holder = issue.Alice
	}
	return p, err
}

func at(y int) *timeutil.TimeWrapper {
	return timeutil.NewTime(time.Date(y, 2, 3, 4, 5, 6, 0, time.UTC))
}

// VPOps are operations on a presentation that leave it as it is.
var VPOps = map[string]op{
	"marshal": func(d *Desk, o Obj) (string, Obj) { b, err := o.P.MarshalJSON(); return js(string(b), err) },
	"cbor":    func(d *Desk, o Obj) (string, Obj) { b, err := o.P.MarshalCBOR(); return js(len(b), err) },
	"creds": func(d *Desk, o Obj) (string, Obj) {
		s := []string{}
		for _, c := range o.P.Credentials() {
			s = append(s, Show(Obj{C: c}))
		}
		return js(s, nil)
	},
	"credbytes": func(d *Desk, o Obj) (string, Obj) {
		m, err := o.P.MarshalledCredentials()
		s := []string{}
		for _, x := range m {
			s = append(s, string(x))
		}
		return js(s, err)
	},
	"jwtclaims": func(d *Desk, o Obj) (string, Obj) { return js(o.P.JWTClaims([]string{"a"}, false)) },
	"jwtmin":    func(d *Desk, o Obj) (string, Obj) { return js(o.P.JWTClaims([]string{"a"}, true)) },
	"cwtclaims": func(d *Desk, o Obj) (string, Obj) { return js(o.P.CWTClaims([]string{"a"}, false)) },
	"clone":     func(d *Desk, o Obj) (string, Obj) { return out(Obj{P: o.P.Clone()}, nil) },
	"signjwt": func(d *Desk, o Obj) (string, Obj) {
		p, err := o.P.CreateJWTVP([]string{"aud"}, verifiable.EdDSA, d.MK, d.Who.Kid, false)
		return out(Obj{P: p}, err)
	},
	"signcwt": func(d *Desk, o Obj) (string, Obj) {
		p, err := o.P.CreateCWTVP([]string{"aud"}, cose.AlgorithmEd25519, d.MK, d.Who.Kid, false)
		return out(Obj{P: p}, err)
	},
	"check": func(d *Desk, o Obj) (string, Obj) { return d.Verdict(o), Obj{} },
	"again": func(d *Desk, o Obj) (string, Obj) {
		b, err := o.P.MarshalJSON()
		if err != nil {
			return fail(err), Obj{}
		}
		p, err := verifiable.ParsePresentation(b, append(d.Pres[:len(d.Pres):len(d.Pres)], verifiable.WithPresDisabledProofCheck())...)
		return out(Obj{P: p}, err)
	},
	"first": func(d *Desk, o Obj) (string, Obj) { return out(Obj{C: o.P.Credentials()[0]}, nil) },
}

// ops that a desk refuses for an object are told apart by kind of error only.

func clean(s string) string {
	if Verbose {
		return s
	}
	if strings.HasPrefix(s, "error: ") {
		return "error"
	}
	return s
}

// Do an operation. A panic is an outcome like any other.
func (d *Desk) Do(name string, o Obj) (t string, res Obj) {
	f := CredOps[name]
	if o.P != nil {
		f = VPOps[name]
	}
	if o.S != nil {
		f = func(d *Desk, o Obj) (string, Obj) { return ShopOps[o.Kind][name](d, o.S) }
	}
	if f == nil {
		lib.Fatalf("no operation %q", name)
	}
	site, msg, bad := lib.Guard(func() { t, res = f(d, o) })
	if bad {
		return "panic: " + msg + " in " + site, Obj{}
	}
	return clean(t), res
}

// Ops names the operations for a kind.
func Ops(kind string) []string {
	m := CredOps
	if x := ShopOps[kind]; x != nil {
		var n []string
		for k := range x {
			n = append(n, k)
		}
		sort.Strings(n)
		return n
	}
	if strings.HasPrefix(kind, "vp") {
		m = VPOps
	}
	var n []string
	for k := range m {
		n = append(n, k)
	}
	sort.Strings(n)
	return n
}

// Spare tells what lies behind the ends of the option lists that the caller shares.
func (d *Desk) Spare() string {
	n := func(v interface{}) int {
		r := reflect.ValueOf(v)
		l := r.Len()
		r = r.Slice(0, r.Cap())
		k := 0
		for i := l; i < r.Len(); i++ {
			if !r.Index(i).IsZero() {
				k++
			}
		}
		return k
	}
	return fmt.Sprint("Parse ", n(d.Parse), " Pres ", n(d.Pres), " LDOpts ", n(d.LDOpts), " Plain ", n(d.Plain), " Given ", n(d.Given))
}

// first context, which a credential taken without validation may lack.
func first(l []string) string {
	if len(l) == 0 {
		return "https://www.w3.org/2018/credentials/v1"
	}
	return l[0]
}

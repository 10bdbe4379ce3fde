// Harness for spec/DIProof.tla: documents with Data Integrity proofs.
package main

import (
	"encoding/json"
	"strings"
	"sync"
	"time"

	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/did-go/doc/did"
	ldtestutil "github.com/trustbloc/did-go/doc/ld/testutil"
	"github.com/trustbloc/kms-go/doc/jose/jwk"

	"github.com/trustbloc/vc-go/dataintegrity"
	"github.com/trustbloc/vc-go/dataintegrity/models"
	"github.com/trustbloc/vc-go/dataintegrity/suite/ecdsa2019"
	"github.com/trustbloc/vc-go/dataintegrity/suite/eddsa2022"
	"github.com/trustbloc/vc-go/verifiable"
	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

type rec struct {
	Expect string
	Base   string
	Dev    []string
	C      struct{ Entry, Ctx, Via, Vm, Kid, Signer, Purpose, Want, Dom, Chal, Times, State, Set, Doc, Opt string }
}

const (
	alice   = "did:example:alice"
	mallory = "did:example:mallory"
	carol   = "did:example:carol"
)

var (
	loader, _ = ldtestutil.DocumentLoader()
	created   = time.Date(2021, 2, 3, 4, 5, 6, 0, time.UTC)
	future    = time.Date(2090, 2, 3, 4, 5, 6, 0, time.UTC)
)

// keys: own, second, mallory of the suite's algorithm, cross of the other family.
func key(alg, name string) *ident.Key {
	if name == "cross" {
		if alg == "EdDSA" {
			return ident.K("ES256", name)
		}
		return ident.K("EdDSA", name)
	}
	return ident.K(alg, name)
}

func algOf(base string) (suite, alg string) {
	s, n, _ := strings.Cut(base, "/")
	switch n {
	case "256":
		return s, "ES256"
	case "384":
		return s, "ES384"
	}
	return s, "EdDSA"
}

func vm(id, form string, k *ident.Key, p did.VerificationRelationship) ident.VM {
	switch form {
	case "multikey":
		return ident.VM{ID: id, Type: "Multikey", Key: k, Rep: "bytes", Val: k.Multikey(), Purpose: p}
	case "raw":
		return ident.VM{ID: id, Type: "Multikey", Key: k, Rep: "bytes", Purpose: p}
	case "foreign":
		return ident.VM{ID: id, Type: "JsonWebKey2020", Key: ident.K(map[string]string{"EdDSA": "ES256", "ES256": "ES384", "ES384": "EdDSA"}[k.Alg], "foreign"), Rep: "jwk", Purpose: p}
	case "otherkey":
		return ident.VM{ID: id, Type: "JsonWebKey2020", Key: ident.K(k.Alg, "unpublished"), Rep: "jwk", Purpose: p}
	}
	return ident.VM{ID: id, Type: "JsonWebKey2020", Key: k, Rep: "jwk", Purpose: p}
}

func embed(v ident.VM) ident.VM { v.Embed = true; return v }

var (
	wmu    sync.Mutex
	worlds = map[string]*ident.World{}
)

// world where the methods of alice's first key are published in the given form.
func world(alg, form string) *ident.World {
	wmu.Lock()
	defer wmu.Unlock()
	if w, ok := worlds[alg+form]; ok {
		return w
	}
	own := key(alg, "own")
	w := ident.NewWorld()
	w.Add(alice, vm(alice+"#general", form, own, did.VerificationRelationshipGeneral),
		embed(vm(alice+"#agreement", form, own, did.KeyAgreement)), embed(vm(alice+"#auth", form, own, did.Authentication)),
		embed(vm(alice+"#inv", form, own, did.CapabilityInvocation)), embed(vm(alice+"#del", form, own, did.CapabilityDelegation)),
		vm(alice+"#second", form, key(alg, "second"), did.AssertionMethod), vm(alice+"#cross", "jwk", key(alg, "cross"), did.AssertionMethod),
		vm(carol+"#twin", form, key(alg, "second"), did.AssertionMethod), vm(carol+"#ghost", form, key(alg, "second"), did.AssertionMethod),
		vm(alice+"#twin", form, own, did.AssertionMethod), vm(alice+"#own", form, own, did.AssertionMethod))
	w.Add(mallory, vm(mallory+"#own", form, key(alg, "mallory"), did.AssertionMethod))
	worlds[alg+form] = w
	return w
}

func kidOf(k string) string {
	switch k {
	case "mallory":
		return mallory + "#own"
	case "unknown":
		return alice + "#none"
	case "bare":
		return alice
	case "upper":
		return alice + "#OWN"
	case "fragment":
		return "#own"
	}
	return alice + "#" + k
}

func signerFor(alg, form, name string) *dataintegrity.Signer {
	k := key(alg, name)
	s, err := dataintegrity.NewSigner(&dataintegrity.Options{DIDResolver: world(alg, form)},
		ecdsa2019.NewSignerInitializer(&ecdsa2019.SignerInitializerOptions{LDDocumentLoader: loader, SignerGetter: ecdsa2019.WithStaticSigner(k)}),
		eddsa2022.NewSignerInitializer(&eddsa2022.SignerInitializerOptions{LDDocumentLoader: loader,
			SignerGetter: func(*jwk.JWK) (eddsa2022.Signer, error) { return k, nil }}))
	lib.Must(err, "signer")
	return s
}

func verifierFor(alg, form string) *dataintegrity.Verifier {
	v, err := dataintegrity.NewVerifier(&dataintegrity.Options{DIDResolver: world(alg, form)},
		ecdsa2019.NewVerifierInitializer(&ecdsa2019.VerifierInitializerOptions{LDDocumentLoader: loader}),
		eddsa2022.NewVerifierInitializer(&eddsa2022.VerifierInitializerOptions{LDDocumentLoader: loader}))
	lib.Must(err, "verifier")
	return v
}

func didVM(id, form string, k *ident.Key) *did.VerificationMethod {
	w := ident.NewWorld()
	w.Add(alice, vm(id, form, k, did.VerificationRelationshipGeneral))
	r, err := w.Resolve(alice)
	lib.Must(err, "vm")
	return &r.DIDDocument.VerificationMethod[0]
}

type how struct{ suite, alg, form, kid, signer, via, purpose, domain, challenge, times string }

// add a proof with the library's signer.
func add(doc []byte, h how) ([]byte, error) {
	o := &models.ProofOptions{Purpose: h.purpose, ProofType: models.DataIntegrityProof, SuiteType: h.suite, Domain: h.domain, Challenge: h.challenge,
		Created: created}
	k := key(h.alg, h.signer)
	switch h.via {
	case "resolver":
		o.VerificationMethodID = kidOf(h.kid)
	case "given":
		o.VerificationMethodID = kidOf(h.kid)
		o.VerificationMethod = didVM(kidOf(h.kid), h.form, k)
	case "givenonly":
		o.VerificationMethod = didVM(kidOf(h.kid), h.form, k)
	}
	switch h.times {
	case "expires":
		o.Expires = future
	case "expired":
		o.Expires = created.Add(time.Hour)
	case "nocreated":
		o.Created = time.Time{}
	case "offset":
		o.Created = created.In(time.FixedZone("x", 2*3600+1800))
		o.Expires = future.In(time.FixedZone("y", -3600))
	}
	return signerFor(h.alg, h.form, h.signer).AddProof(doc, o)
}

func proofOf(doc []byte, i int) lib.M {
	m := lib.ParseJSON(doc).(lib.M)
	if l, ok := m["proof"].([]interface{}); ok {
		return l[i].(lib.M)
	}
	return m["proof"].(lib.M)
}

func changeProof(t *lib.T, p, other lib.M, suite, op string) {
	enc, b, err := multibase.Decode(p["proofValue"].(string))
	lib.Must(err, "proof value")
	set := func(x []byte) {
		p["proofValue"], err = multibase.Encode(enc, x)
		lib.Must(err, "encode")
	}
	flip := func(name, a, b string) {
		if p[name] == a {
			p[name] = b
		} else {
			p[name] = a
		}
	}
	switch op {
	case "undefined":
		p["madeUpMember"] = "x"
	case "created":
		p["created"] = "2021-02-03T04:05:07Z"
	case "nocreated":
		delete(p, "created")
	case "fraction":
		p["created"] = "2021-02-03T04:05:06.5Z"
	case "expires":
		p["expires"] = "2091-01-01T00:00:00Z"
	case "past":
		p["expires"] = "2022-01-01T00:00:00Z"
	case "noexpires":
		delete(p, "expires")
	case "purpose":
		flip("proofPurpose", "assertionMethod", "authentication")
	case "nopurpose":
		delete(p, "proofPurpose")
	case "domain":
		p["domain"] = "third.example"
	case "nodomain":
		delete(p, "domain")
	case "challenge":
		p["challenge"] = "c-3"
	case "nochallenge":
		delete(p, "challenge")
	case "vm":
		flip("verificationMethod", alice+"#own", alice+"#second")
	case "novm":
		delete(p, "verificationMethod")
	case "alias":
		p["cryptosuite"] = map[string]string{"ecdsa-2019": "ecdsa-rdfc-2019", "ecdsa-rdfc-2019": "ecdsa-2019", "eddsa-2022": "eddsa-rdfc-2022", "eddsa-rdfc-2022": "eddsa-2022"}[suite]
	case "suite":
		if strings.HasPrefix(suite, "ec") {
			p["cryptosuite"] = "eddsa-rdfc-2022"
		} else {
			p["cryptosuite"] = "ecdsa-rdfc-2019"
		}
	case "nosuite":
		delete(p, "cryptosuite")
	case "type":
		p["type"] = "Ed25519Signature2018"
	case "notype":
		delete(p, "type")
	case "id":
		p["id"] = "urn:uuid:77"
	case "previous":
		p["previousProof"] = "urn:uuid:78"
	case "bit":
		b[t.R.Intn(len(b))] ^= 1 << t.R.Intn(8)
		set(b)
	case "short":
		set(b[:len(b)-1])
	case "long":
		set(append(b, 0))
	case "dertail":
		set(ident.DERTail(b))
	case "other":
		p["proofValue"] = other["proofValue"]
	case "empty":
		p["proofValue"] = ""
	case "nosig":
		delete(p, "proofValue")
	}
}

func diproof(t *lib.T) {
	var r rec
	t.Decode(&r)
	c := r.C
	suite, alg := algOf(r.Base)
	form := c.Vm
	if !(form == "jwk" || form == "multikey" || (form == "raw" && alg == "EdDSA")) {
		form = "jwk"
	}
	doc := vcdoc.Base(alice, c.Ctx == "v2")
	if c.Ctx == "v1di" {
		doc = vcdoc.Base(alice, false, "https://w3id.org/security/data-integrity/v2")
	}
	fields := func(x, v string) (inProof, wanted string) {
		switch x {
		case "same":
			return v, v
		case "unstated":
			return v, ""
		case "missing":
			return "", v
		case "different":
			return "other-" + v, v
		}
		return "", ""
	}
	dom, wantDom := fields(c.Dom, "domain.example")
	chal, wantChal := fields(c.Chal, "c-1")
	h := how{suite, alg, form, c.Kid, c.Signer, c.Via, c.Purpose, dom, chal, c.Times}
	t.Run()
	one, err := add(lib.JSON(doc), h)
	if err != nil {
		if r.Expect == "ok" || c.Via != "resolver" {
			t.Failf("sign:"+r.Base+":"+strings.Join(r.Dev, "+"), "specification: %s; code: signing fails: %v; combination %s", r.Expect, err, tree.Show(c))
		}
		t.Obs(r.Expect)
		return
	}
	more := func(on []byte, f func(*how)) []byte {
		x := how{suite, alg, form, "second", "second", "given", "assertionMethod", dom, chal, "plain"}
		f(&x)
		t.Run()
		out, err := add(on, x)
		lib.Must(err, "further proof")
		return out
	}
	second := func(*how) {}
	cross := func(x *how) {
		x.kid, x.signer, x.suite, x.form = "cross", "cross", "eddsa-rdfc-2022", "jwk"
		if alg == "EdDSA" {
			x.suite = "ecdsa-rdfc-2019"
		}
	}
	otherDoc := vcdoc.Clone(doc)
	otherDoc["credentialSubject"].(lib.M)["claim"] = "another value"
	bad := proofOf(more(lib.JSON(otherDoc), second), 0)
	p := proofOf(one, 0)
	if c.Opt == "other" {
		o, err := add(lib.JSON(otherDoc), h)
		lib.Must(err, "other")
		changeProof(t, p, proofOf(o, 0), suite, "other")
	} else {
		changeProof(t, p, nil, suite, c.Opt)
	}
	typ := vcdoc.Clone(bad)
	typ["type"] = "Ed25519Signature2018"
	var list []interface{}
	var pr interface{}
	from := func(signed []byte) {
		for _, x := range lib.ParseJSON(signed).(lib.M)["proof"].([]interface{}) {
			list = append(list, x)
		}
		list[0] = p
	}
	bare := vcdoc.Clone(doc)
	switch c.Set {
	case "two":
		from(more(one, second))
	case "mixed":
		from(more(one, cross))
	case "three":
		from(more(more(one, cross), second))
	case "twomallory":
		from(more(one, func(x *how) { x.kid, x.signer = "mallory", "mallory" }))
	case "firstbad":
		list = []interface{}{bad, p}
	case "secondbad":
		list = []interface{}{p, bad}
	case "thirdbad":
		from(more(one, cross))
		list = append(list, bad)
	case "twosame":
		from(more(more(one, second), second))
	case "samebad":
		from(more(one, second))
		list = append(list, bad)
	case "repeated":
		list = []interface{}{p, p}
	case "borrowed":
		from(more(one, func(x *how) { x.signer = "own" }))
	case "expired2":
		from(more(one, func(x *how) { x.times = "expired" }))
	case "purpose2":
		from(more(one, func(x *how) {
			x.kid, x.signer, x.purpose = "auth", "own", "authentication"
			if c.Purpose == "authentication" {
				x.kid, x.purpose = "inv", "capabilityInvocation"
			}
		}))
	case "nodomain2":
		from(more(one, func(x *how) { x.domain = "" }))
	case "suite2":
		x := vcdoc.Clone(proofOf(more(one, second), 1))
		x["cryptosuite"] = "unheard-of-2030"
		list = []interface{}{p, x}
	case "type2":
		list = []interface{}{p, typ}
	case "type1":
		list = []interface{}{typ, p}
	case "empty":
		pr = []interface{}{}
	case "string":
		pr = "proof"
	case "listofstring":
		list = []interface{}{"proof"}
	case "nested":
		list = []interface{}{[]interface{}{p}}
	case "one":
		pr = p
	}
	if list != nil {
		pr = list
	}
	vcdoc.Change(bare, c.Doc)
	if c.Set != "absent" {
		bare["proof"] = pr
	}
	b := lib.JSON(bare)
	if c.Doc == "reorder" {
		b = vcdoc.Reorder(b)
	}
	want := c.Purpose
	switch c.Want {
	case "other":
		want = "assertionMethod"
		if c.Purpose == want {
			want = "authentication"
		}
	case "default":
		want = ""
	}
	ver := verifierFor(alg, c.Vm)
	opts := []verifiable.CredentialOpt{verifiable.WithJSONLDDocumentLoader(loader), verifiable.WithDataIntegrityVerifier(ver),
		verifiable.WithExpectedDataIntegrityFields(want, wantDom, wantChal)}
	t.Run()
	switch c.Entry {
	case "verify":
		o := &models.ProofOptions{Purpose: want, ProofType: models.DataIntegrityProof, Domain: wantDom, Challenge: wantChal}
		switch c.State {
		case "suite":
			o.SuiteType = suite
		case "othersuite":
			o.SuiteType = "eddsa-rdfc-2022"
			if alg == "EdDSA" {
				o.SuiteType = "ecdsa-rdfc-2019"
			}
		case "aliassuite":
			o.SuiteType = map[string]string{"ecdsa-2019": "ecdsa-rdfc-2019", "ecdsa-rdfc-2019": "ecdsa-2019", "eddsa-2022": "eddsa-rdfc-2022", "eddsa-rdfc-2022": "eddsa-2022"}[suite]
		case "vmid":
			o.VerificationMethodID = alice + "#own"
		case "othervmid":
			o.VerificationMethodID = alice + "#general" // the same key under another name
		case "vm":
			o.VerificationMethod = didVM(alice+"#own", "jwk", key(alg, "own"))
		case "othervm":
			o.VerificationMethod = didVM(alice+"#general", "jwk", key(alg, "own"))
		case "created":
			o.Created = created
		case "othercreated":
			o.Created = created.Add(time.Second)
		}
		before, _ := json.Marshal(o)
		err = ver.VerifyProof(b, o)
		if after, _ := json.Marshal(o); string(before) != string(after) {
			t.Failf("options changed", "verification changed the caller's options from %s to %s", before, after)
		}
	case "parse":
		_, err = verifiable.ParseCredential(b, opts...)
	case "recheck":
		var vc *verifiable.Credential
		vc, err = verifiable.ParseCredential(b, append(opts, verifiable.WithDisabledProofCheck())...)
		if err == nil {
			err = vc.CheckProof(opts...)
		}
	}
	if (err == nil) != (r.Expect == "ok") {
		t.Failf(r.Expect+":"+r.Base+":"+strings.Join(r.Dev, "+"), "specification: %s; code: %v; combination %s document %s", r.Expect, err, tree.Show(c), b)
		return
	}
	t.Obs(r.Expect)
}

func main() {
	lib.Main(map[string]func(*lib.T){"diproof": diproof}, nil)
}

// Selective disclosure of credentials with BBS+ signatures, replayed from the specification BBSDerive.
package main

import (
	"encoding/json"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/trustbloc/bbs-signature-go/bbs12381g2pub"
	"github.com/trustbloc/did-go/doc/did"
	"github.com/trustbloc/did-go/doc/ld/processor"
	"github.com/trustbloc/kms-go/spi/kms"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/proof/checker"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/defaults"
	"github.com/trustbloc/vc-go/proof/ldproofs/bbsblssignature2020"
	"github.com/trustbloc/vc-go/proof/ldproofs/ed25519signature2018"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
	"github.com/trustbloc/vc-go/zzverif/vcdoc"
)

type (
	L = []interface{}
	M = lib.M
)

type combo struct{ Sent, API, Subject, Reveal, Val, Made, By, Again, Nonce, Doc, Edit string }

type rec struct {
	Expect, Base string
	Shown, Dev   []string
	C            combo
}

const (
	alice   = issue.Alice
	mallory = issue.Mallory
	bbsCtx  = "https://w3id.org/security/bbs/v1"
)

var (
	once  sync.Once
	world *ident.World
	chk   *checker.ProofChecker
	named = map[string][2]string{ // who -> key, identifier
		"own": {"own", alice + "#own"}, "forged": {"mallory", alice + "#own"}, "mallory": {"mallory", mallory + "#own"}, "second": {"second", alice + "#second"},
	}
)

func setup() {
	once.Do(func() {
		issue.World("EdDSA")
		world = ident.NewWorld()
		bbs := func(id, key string) ident.VM {
			return ident.VM{ID: id, Type: "Bls12381G2Key2020", Rep: "bytes", Key: ident.K("BBS", key), Purpose: did.AssertionMethod}
		}
		world.Add(alice, bbs(alice+"#own", "own"), bbs(alice+"#second", "second"),
			ident.VM{ID: alice + "#ed", Type: "Ed25519VerificationKey2018", Rep: "bytes", Key: ident.K("EdDSA", "own"), Purpose: did.AssertionMethod})
		world.Add(mallory, bbs(mallory+"#own", "mallory"))
		chk = defaults.NewDefaultProofChecker(world.Resolver())
	})
}

// value of a claim.
func (c combo) value(leaf string) interface{} {
	t := "secret-" + leaf
	if leaf == "until" {
		return "2090-05-06T07:08:09Z"
	}
	plain := map[string]bool{"p": true, "q": true}[leaf]
	switch c.Val {
	case "quote":
		return `"` + t + `" \ '`
	case "newline":
		return t + "\nof\ttwo\r\n  lines .  "
	case "unicode":
		return t + " ü 語 \U0001F600 <&>"
	case "blank":
		return "_:c14n0 " + t + " <urn:bnid:_:c14n1> _:b0"
	case "long":
		return t + strings.Repeat("x", 3000)
	case "same":
		if !plain {
			return "same"
		}
	case "number":
		if leaf == "a" || leaf == "nx" {
			return 7
		}
	case "truth":
		if leaf == "a" || leaf == "nx" {
			return true
		}
	case "empty":
		if leaf == "a" || leaf == "nx" {
			return ""
		}
	case "iri":
		return "https://" + leaf + ".example/"
	}
	return t
}

func (c combo) document(id string) M {
	v := c.value
	s := M{"a": v("a"), "b": v("b"), "n": M{"x": v("nx"), "y": v("ny")}, "m": M{"x": v("mx"), "y": v("my")}, "l": L{v("p"), v("q")}}
	if c.Subject == "named" {
		s["id"] = issue.Hanna
	}
	d := M{"@context": L{"https://www.w3.org/2018/credentials/v1", M{"@vocab": "https://ex.org/"}, bbsCtx}, "id": id, "type": L{"VerifiableCredential", "ExtraType"},
		"issuer": alice, "issuanceDate": "2020-05-06T07:08:09Z", "expirationDate": v("until"), "credentialSubject": s}
	return lib.ParseJSON(lib.JSON(d)).(M)
}

// frame asks for a selection.
func (c combo) frame() M {
	s, n, m := M{"@explicit": true}, M{"@explicit": true}, M{"@explicit": true}
	f := M{"@context": L{"https://www.w3.org/2018/credentials/v1", M{"@vocab": "https://ex.org/"}, bbsCtx}, "type": L{"VerifiableCredential", "ExtraType"},
		"@explicit": true, "issuer": M{}, "issuanceDate": M{}, "credentialSubject": s}
	for _, p := range paths(c.Reveal) {
		switch p {
		case "expirationDate":
			f[p] = M{}
		case "credentialSubject.n":
			s["n"] = M{}
		case "credentialSubject.m":
			s["m"] = M{}
		case "credentialSubject.n.x", "credentialSubject.n.y":
			s["n"] = n
			n[p[len(p)-1:]] = M{}
		case "credentialSubject.m.x", "credentialSubject.m.y":
			s["m"] = m
			m[p[len(p)-1:]] = M{}
		case "credentialSubject.n.absent":
			s["n"] = n
			n["absent"] = M{}
		default:
			s[strings.TrimPrefix(p, "credentialSubject.")] = M{}
		}
	}
	return f
}

func paths(sel string) []string {
	s := func(ps ...string) []string {
		for i, p := range ps {
			ps[i] = "credentialSubject." + p
		}
		return ps
	}
	switch sel {
	case "none":
		return nil
	case "ab":
		return s("a", "b")
	case "nx":
		return s("n.x")
	case "ny":
		return s("n.y")
	case "nxmy":
		return s("n.x", "m.y")
	case "nxmx":
		return s("n.x", "m.x")
	case "n":
		return s("n")
	case "nm":
		return s("n", "m")
	case "aabsent":
		return s("a", "absent")
	case "nabsent":
		return s("n.x", "n.absent")
	case "until":
		return []string{"expirationDate"}
	case "auntil":
		return append(s("a"), "expirationDate")
	case "all":
		return append(s("a", "b", "n", "m", "l"), "expirationDate")
	}
	return s(sel)
}

// leaves a document shows, with their values.
func leaves(d M) map[string]interface{} {
	out := map[string]interface{}{}
	put := func(n string, v interface{}) {
		if x, ok := v.(M); ok && x["@value"] != nil { // framing writes numbers and truth values like this
			v = lib.ParseJSON([]byte(x["@value"].(string)))
		}
		if v != nil {
			out[n] = v
		}
	}
	put("until", d["expirationDate"])
	s, _ := d["credentialSubject"].(M)
	put("a", s["a"])
	put("b", s["b"])
	for _, o := range []string{"n", "m"} {
		x, _ := s[o].(M)
		put(o+"x", x["x"])
		put(o+"y", x["y"])
	}
	l, isList := s["l"].(L)
	if !isList && s["l"] != nil {
		l = L{s["l"]}
	}
	for _, v := range l {
		if t, _ := v.(string); strings.Contains(t, "secret-q") || strings.Contains(t, "//q.") {
			put("q", v)
		} else {
			put("p", v)
		}
	}
	return out
}

func (c combo) sign(vc *verifiable.Credential, who string, n int) error {
	created := issue.Created.Add(time.Duration(n) * time.Minute)
	ctx := &verifiable.LinkedDataProofContext{SignatureType: "BbsBlsSignature2020", KeyType: kms.BLS12381G2Type, SignatureRepresentation: verifiable.SignatureProofValue}
	switch c.Made {
	case "domain":
		ctx.Domain = "domain.example"
	case "challenge":
		ctx.Challenge = "c-1"
	case "auth":
		ctx.Purpose = "assertionMethod"
	case "fraction":
		created = created.Add(250 * time.Millisecond)
	case "offset":
		created = created.In(time.FixedZone("x", 2*3600+1800))
	}
	ctx.Created = &created
	if who == "other" {
		k := ident.K("EdDSA", "own")
		ctx.SignatureType, ctx.KeyType, ctx.VerificationMethod = "Ed25519Signature2018", kms.ED25519Type, alice+"#ed"
		ctx.ProofCreator = creator.New(creator.WithLDProofType(ed25519signature2018.New(), k))
		return vc.AddLinkedDataProof(ctx, processor.WithDocumentLoader(issue.Loader))
	}
	x := named[who]
	ctx.VerificationMethod = x[1]
	ctx.ProofCreator = creator.New(creator.WithLDProofType(bbsblssignature2020.New(), ident.K("BBS", x[0])))
	return vc.AddLinkedDataProof(ctx, processor.WithDocumentLoader(issue.Loader))
}

func parseOpts(more ...verifiable.CredentialOpt) []verifiable.CredentialOpt {
	return append([]verifiable.CredentialOpt{verifiable.WithProofChecker(chk), verifiable.WithJSONLDDocumentLoader(issue.Loader)}, more...)
}

func text(vc *verifiable.Credential) M {
	b, err := vc.MarshalJSON()
	lib.Must(err, "JSON of a credential")
	return lib.ParseJSON(b).(M)
}

func (c combo) issued(id string) (*verifiable.Credential, error) {
	vc, err := verifiable.ParseCredential(lib.JSON(c.document(id)), parseOpts(verifiable.WithDisabledProofCheck())...)
	lib.Must(err, "base credential")
	for i, who := range []string{c.By, c.Again} {
		if who == "none" || who == "nobody" || who == "twice" {
			continue
		}
		if err := c.sign(vc, who, i); err != nil {
			return nil, err
		}
	}
	return vc, nil
}

var derivation = bbs12381g2pub.New()

// derive shows a selection.
func (c combo) derive(t *lib.T, vc *verifiable.Credential, key func(string) string) (M, error) {
	cr := &verifiable.BBSProofCreator{ProofDerivation: derivation, VerificationMethodResolver: world.Resolver()}
	nonce := map[string][]byte{"short": []byte("nonce"), "empty": {}, "zeros": {0, 1, 255, 10, 0}, "long": []byte(strings.Repeat("0123456789", 20))}[c.Nonce]
	before := lib.JSON(text(vc))
	t.Run()
	defer func() {
		if after := lib.JSON(text(vc)); string(after) != string(before) {
			t.Failf(key("argument-changed"), "deriving changed the credential: %s became %s", before, after)
		}
	}()
	switch c.API {
	case "limit", "frame":
		def := M{"id": "d", "input_descriptors": L{M{"id": "i", "constraints": M{"fields": L{M{"path": L{"$.issuer"}}}}}}}
		if c.API == "frame" {
			def["frame"] = c.frame()
		} else {
			var fs L
			for _, p := range paths(c.Reveal) {
				fs = append(fs, M{"path": L{"$." + p}})
			}
			def["input_descriptors"] = L{M{"id": "i", "constraints": M{"limit_disclosure": "required", "fields": fs}}}
		}
		pd := &presexch.PresentationDefinition{}
		lib.Must(json.Unmarshal(lib.JSON(def), pd), "definition")
		vp, err := pd.CreateVP([]*verifiable.Credential{vc}, issue.Loader, presexch.WithSDBBSProofCreator(cr), presexch.WithSDCredentialOptions(parseOpts()...))
		if err != nil {
			return nil, err
		}
		b, err := vp.MarshalJSON()
		lib.Must(err, "JSON of a presentation")
		cs, _ := lib.ParseJSON(b).(M)["verifiableCredential"].(L)
		if len(cs) != 1 {
			t.Failf(key("credentials"), "one credential was to be presented, not %d: %s", len(cs), b)
			return M{}, nil
		}
		return cs[0].(M), nil
	case "document":
		doc, frame := text(vc), c.frame()
		d0, f0 := lib.JSON(doc), lib.JSON(frame)
		m, err := verifiable.BBSSelectiveDisclosure(doc, frame, nonce, cr, processor.WithDocumentLoader(issue.Loader), processor.WithValidateRDF())
		if string(lib.JSON(doc)) != string(d0) || string(lib.JSON(frame)) != string(f0) {
			t.Failf(key("argument-changed"), "deriving changed its arguments: %s %s became %s %s", d0, f0, lib.JSON(doc), lib.JSON(frame))
		}
		if err != nil {
			return nil, err
		}
		return lib.ParseJSON(lib.JSON(m)).(M), nil
	}
	frame := c.frame()
	f0 := lib.JSON(frame)
	n, err := vc.GenerateBBSSelectiveDisclosure(frame, nonce, cr, parseOpts()...)
	if string(lib.JSON(frame)) != string(f0) {
		t.Failf(key("argument-changed"), "deriving changed the frame: %s became %s", f0, lib.JSON(frame))
	}
	if err != nil {
		return nil, err
	}
	if c.Again == "twice" {
		if n, err = n.GenerateBBSSelectiveDisclosure(frame, nonce, cr, parseOpts()...); err != nil {
			return nil, err
		}
	}
	return text(n), nil
}

func change(m M, c combo, shown []string) {
	s, _ := m["credentialSubject"].(M)
	switch c.Doc {
	case "change", "drop":
		for _, leaf := range shown {
			if leaf == "until" && c.Doc == "change" {
				continue
			}
			at, n := s, leaf
			switch leaf {
			case "until":
				at, n = m, "expirationDate"
			case "nx", "ny", "mx", "my":
				at, n = s[leaf[:1]].(M), leaf[1:]
			case "p", "q":
				n = "l"
			}
			if c.Doc == "drop" {
				delete(at, n)
			} else {
				at[n] = "changed"
			}
			return
		}
	case "add":
		s["more"] = "more"
	case "append": // the last of the statements, as long as there are no blank nodes
		m["https://zzz.example/zzz"] = "more"
	case "reveal":
		s["b"] = c.value("b")
	case "issuer":
		m["issuer"] = mallory
	case "issued":
		m["issuanceDate"] = "2020-05-06T07:08:10Z"
	case "type":
		m["type"] = L{"VerifiableCredential", "OtherType"}
	case "swap":
		if _, ok := s["n"].(M); ok {
			s["n"], s["m"] = s["m"], s["n"]
		} else {
			s["a"], s["b"] = s["b"], s["a"]
		}
	case "subject":
		s["id"] = "did:example:harald"
	}
}

func edit(t *lib.T, m M, other M, how string) {
	var ps L
	switch x := m["proof"].(type) {
	case L:
		ps = x
	case M:
		ps = L{x}
	}
	first := func(m M) M {
		if l, ok := m["proof"].(L); ok {
			return l[0].(M)
		}
		return m["proof"].(M)
	}
	p := ps[0].(M)
	switch how {
	case "nonce":
		p["nonce"] = "b3RoZXI="
	case "created":
		p["created"] = "2021-02-03T04:05:07Z"
	case "vm":
		p["verificationMethod"] = alice + "#second"
	case "purpose":
		p["proofPurpose"] = "authentication"
	case "nosig":
		delete(p, "proofValue")
	case "other":
		p["proofValue"] = first(other)["proofValue"]
	case "type":
		if p["type"] == "BbsBlsSignature2020" {
			p["type"] = "BbsBlsSignatureProof2020"
		} else {
			p["type"] = "BbsBlsSignature2020"
		}
	case "strip":
		delete(m, "proof")
	case "empty":
		m["proof"] = L{}
	case "foreign":
		m["proof"] = append(append(L{}, ps...), first(other))
	case "bit", "short", "long", "flag":
		b, set := issue.ProofBytes(p)
		switch how {
		case "short":
			b = b[:len(b)-1]
		case "long":
			b = append(b, 0)
		case "flag": // reveals a statement more than there were
			n := int(b[0])<<8 | int(b[1])
			b[2] |= 1 << (n % 8)
		default:
			b[t.R.Intn(len(b))] ^= 1 << t.R.Intn(8)
		}
		set(b)
	}
}

func bbs(t *lib.T) {
	setup()
	var r rec
	t.Decode(&r)
	c := r.C
	key := func(k string) string { return k + ":" + r.Base + ":" + strings.Join(r.Dev, "+") }
	make := func(id string, c combo) (M, error) {
		vc, err := c.issued(id)
		if err != nil {
			return nil, err
		}
		if c.Sent == "signed" {
			return text(vc), nil
		}
		return c.derive(t, vc, key)
	}
	m, err := make("urn:uuid:1", c)
	// the curve library is not quite safe for concurrent use: what it refuses must be refused twice
	if err != nil && r.Expect == "ok" && strings.Contains(err.Error(), "invalid BLS12-381 signature") && !t.Failed() {
		m, err = make("urn:uuid:1", c)
	}
	if t.Failed() {
		return
	}
	if err == nil && c.By == "nobody" && c.Sent == "signed" && m["proof"] == nil && c.Edit != "none" {
		t.Obs("reject")
		return
	}
	var b []byte
	if err == nil {
		// what it shows
		have, want := leaves(m), leaves(c.document("urn:uuid:1"))
		var extra, miss, diff []string
		in := map[string]bool{}
		for _, l := range r.Shown {
			in[l] = true
			if have[l] == nil {
				miss = append(miss, l)
			} else if string(lib.JSON(have[l])) != string(lib.JSON(want[l])) {
				diff = append(diff, l)
			}
		}
		for l := range have {
			if !in[l] {
				extra = append(extra, l)
			}
		}
		all := string(lib.JSON(m))
		for l := range want {
			if !in[l] && (strings.Contains(all, "secret-"+l) || strings.Contains(all, "//"+l+".example")) {
				extra = append(extra, l+" (somewhere)")
			}
		}
		sort.Strings(extra)
		if len(extra)+len(miss)+len(diff) > 0 {
			t.Failf(key("shows"), "chosen: %v; shown besides: %v; missing: %v; with another value: %v; %s", r.Shown, extra, miss, diff, all)
			return
		}
		if c.Sent == "derived" && strings.Contains(all, `"BbsBlsSignature2020"`) {
			t.Failf(key("signature-kept"), "what was derived carries the issuer's signature: %s", all)
			return
		}
		if ps, _ := m["proof"].(L); c.Sent == "derived" && len(ps) > 1 != (c.Again == "own") {
			t.Failf(key("proofs"), "the derived credential has %d proofs: %s", len(ps), all)
			return
		}
		if c.Edit != "none" && m["proof"] != nil {
			o := c
			o.Doc, o.Val = "none", "text"
			if o.Val == c.Val {
				o.Val = "long"
			}
			var other M
			if c.Edit == "other" || c.Edit == "foreign" {
				if other, err = make("urn:uuid:2", o); err != nil {
					t.Failf(key("cannot-derive"), "the other credential: %v", err)
					return
				}
			}
			edit(t, m, other, c.Edit)
		}
		change(m, c, r.Shown)
		b = lib.JSON(m)
		if c.Doc == "order" {
			b = vcdoc.Reorder(b)
		}
		t.Run()
		var got *verifiable.Credential
		got, err = verifiable.ParseCredential(b, parseOpts()...)
		if err == nil && r.Expect == "ok" {
			if x := leaves(text(got)); string(lib.JSON(x)) != string(lib.JSON(leaves(lib.ParseJSON(b).(M)))) {
				t.Failf(key("parsed"), "%s was read as %s", b, lib.JSON(text(got)))
				return
			}
		}
	}
	if (err == nil) != (r.Expect == "ok") {
		t.Failf(key(r.Expect), "specification: %s; code: %v; combination %s credential %s", r.Expect, err, tree.Show(c), b)
		return
	}
	t.Obs(r.Expect)
}

func main() {
	lib.Main(map[string]func(*lib.T){"bbs": bbs}, nil)
}

// Command sdflow carries out the behaviours of SDFlow.tla: a credential is made selectively disclosable and goes from
// hand to hand; after every step what can be seen of it is compared with the original.
package main

import (
	"crypto"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"

	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/proof/jwtproofs/eddsa"
)

type (
	L = []interface{}
	M = lib.M
)

type choice struct {
	All       bool
	May, Must []string
}

type step struct {
	Op     string
	Arg    choice
	OK     bool
	At     string
	Have   []string
	Bound  int
	Closed bool
	Shown  tree.Node
}

type rec struct {
	Case struct {
		Shape  string
		Model  int
		Direct bool
		Opt    struct {
			V             int
			Ign, Alw, Rec []string
			Hash          string
		}
	}
	Subject tree.Node
	Names   []struct{ D, N string }
	Log     []step
	Expect  string
}

var (
	own   = issue.As("EdDSA", "own")
	hanna = issue.As("EdDSA", "hanna")
	chk   = issue.Checker("EdDSA")
)

// flow is the state of one behaviour.
type flow struct {
	t      *lib.T
	r      *rec
	c      *tree.Concrete
	doc    M // the original
	cred   *verifiable.Credential
	wire   string
	plain  string            // where the wire is not itself a combined token
	jwt    string            // signed part, once issued
	path   map[string]string // disclosure to the claim it is for
	before string
}

func (f *flow) subject(n tree.Node) M {
	m := f.c.JSON(n).(map[string]interface{})
	if _, ok := m["id"]; ok {
		m["id"] = "did:example:subject"
	}
	return m
}

func (f *flow) original() M {
	doc := M{"@context": L{"https://www.w3.org/2018/credentials/v1"}, "id": "urn:uuid:sdflow", "type": L{"VerifiableCredential", "FlowType"}, "issuer": issue.Alice,
		"issuanceDate": "2020-05-06T07:08:09Z", "expirationDate": "2090-01-02T03:04:05Z", "credentialSubject": f.subject(f.r.Subject),
		"cnf": M{"jwk": hanna.K().JWKMap()}, "motto": M{"en": "go", "name": "outside"}, "langs": L{"xx"}}
	if f.r.Case.Model == 2 {
		doc["@context"] = L{"https://www.w3.org/ns/credentials/v2"}
		doc["validFrom"], doc["validUntil"] = doc["issuanceDate"], doc["expirationDate"]
		delete(doc, "issuanceDate")
		delete(doc, "expirationDate")
	}
	return doc
}

func parseOpts() []verifiable.CredentialOpt {
	return []verifiable.CredentialOpt{verifiable.WithProofChecker(chk), verifiable.WithJSONLDDocumentLoader(issue.Loader), verifiable.WithDisabledRelatedResourceCheck()}
}

func (f *flow) nonce(n int) string { return fmt.Sprint("nonce-", n) }

func (f *flow) binding(n int) *holder.BindingInfo {
	return &holder.BindingInfo{Payload: holder.BindingPayload{Nonce: f.nonce(n), Audience: "https://verifier.example"},
		Signer: ident.Jose{K: hanna.K()}, Headers: M{"alg": "EdDSA", "typ": "kb+jwt"}}
}

func (f *flow) version() common.SDJWTVersion {
	return common.SDJWTVersion(f.r.Case.Opt.V)
}

// ---- steps; each returns the error of the library ----

func (f *flow) make() (err error) {
	o := f.r.Case.Opt
	var opts []verifiable.MakeSDJWTOption
	if o.V != 0 {
		opts = append(opts, verifiable.MakeSDJWTWithVersion(f.version()))
	}
	if len(o.Ign) > 0 {
		opts = append(opts, verifiable.MakeSDJWTWithNonSelectivelyDisclosableClaims(o.Ign))
	}
	if len(o.Alw) > 0 {
		opts = append(opts, verifiable.MakeSDJWTWithAlwaysIncludeObjects(o.Alw))
	}
	if len(o.Rec) > 0 {
		opts = append(opts, verifiable.MakeSDJWTWithRecursiveClaimsObjects(o.Rec))
	}
	switch o.Hash {
	case "384":
		opts = append(opts, verifiable.MakeSDJWTWithHash(crypto.SHA384))
	case "512":
		opts = append(opts, verifiable.MakeSDJWTWithHash(crypto.SHA512))
	}
	f.wire, err = f.cred.MakeSDJWT(ident.Jose{K: own.K()}, own.Kid, opts...)
	return err
}

func (f *flow) choose(c choice) []verifiable.MarshalDisclosureOption {
	if c.All {
		return []verifiable.MarshalDisclosureOption{verifiable.DiscloseAll()}
	}
	var o []verifiable.MarshalDisclosureOption
	if len(c.May) > 0 || f.t.R.Intn(2) == 0 {
		o = append(o, verifiable.DiscloseGivenIfAvailable(c.May))
	}
	if len(c.Must) > 0 {
		o = append(o, verifiable.DiscloseGivenRequired(c.Must))
	}
	return o
}

func (f *flow) marshal(c choice, bound int) error {
	o := f.choose(c)
	if bound > 0 {
		o = append(o, verifiable.DisclosureHolderBinding(f.binding(bound)))
	}
	if f.r.Case.Direct {
		o = append(o, verifiable.DisclosureSigner(ident.Jose{K: own.K()}, own.Kid))
		if f.r.Case.Opt.V != 0 {
			o = append(o, verifiable.MarshalWithSDJWTVersion(f.version()))
		}
	}
	w, err := f.cred.MarshalWithDisclosure(o...)
	if err == nil {
		f.wire = w
	}
	return err
}

func (f *flow) hold(c choice, bound int) error {
	_, err := holder.Parse(f.wire, holder.WithSignatureVerifier(chk), holder.WithIssuerSigningAlgorithms([]string{"EdDSA"}))
	if err != nil {
		return fmt.Errorf("holder: %w", err)
	}
	var ds []string
	want := set(c.May)
	for _, d := range common.ParseCombinedFormatForIssuance(f.wire).Disclosures {
		if want[f.path[d]] {
			ds = append(ds, d)
		}
	}
	var o []holder.Option
	if bound > 0 {
		o = append(o, holder.WithHolderVerification(f.binding(bound)))
	}
	w, err := holder.CreatePresentation(f.wire, ds, o...)
	if err == nil {
		f.wire = w
	}
	return err
}

func (f *flow) words(op string) error {
	var b []byte
	var err error
	switch op {
	case "string":
		f.wire, err = f.cred.ToJWTString()
		return err
	case "json":
		b, err = f.cred.MarshalJSON()
	case "universal":
		var v interface{}
		if v, err = f.cred.ToUniversalForm(); err == nil {
			b, err = json.Marshal(v)
		}
	}
	if err != nil {
		return err
	}
	f.plain = string(b)
	// the token inside
	var s string
	if json.Unmarshal(b, &s) == nil {
		f.wire = s
		return nil
	}
	var e struct{ ID, Type interface{} }
	if json.Unmarshal(b, &e) == nil {
		if id, ok := e.ID.(string); ok && strings.HasPrefix(id, "data:application/vc") {
			f.wire = id[strings.Index(id, ",")+1:]
			return nil
		}
	}
	return fmt.Errorf("no token in %.80s", b)
}

func (f *flow) parse() error {
	text := f.wire
	if f.plain != "" {
		text = f.plain
	}
	c, err := verifiable.ParseCredential([]byte(text), parseOpts()...)
	if err == nil {
		f.cred = c
	}
	return err
}

func (f *flow) restrict(c choice) error {
	want := set(c.May)
	var l []*common.DisclosureClaim
	for _, d := range f.cred.SDJWTDisclosures() {
		if want[f.path[d.Disclosure]] {
			l = append(l, d)
		}
	}
	return f.cred.SetSDJWTDisclosures(l)
}

func (f *flow) carry(op string) error {
	var o []verifiable.CreatePresentationOpt
	if f.r.Case.Model == 2 {
		o = append(o, verifiable.WithBaseContext("https://www.w3.org/ns/credentials/v2"))
	}
	p, err := verifiable.NewPresentation(append(o, verifiable.WithCredentials(f.cred))...)
	if err != nil {
		return err
	}
	p.Holder = issue.Alice
	po := []verifiable.PresentationOpt{verifiable.WithPresProofChecker(chk), verifiable.WithPresJSONLDDocumentLoader(issue.Loader), verifiable.WithPresDisabledProofCheck()}
	if op == "vpjwt" {
		if p, err = p.CreateJWTVP(nil, verifiable.EdDSA, creator.New(creator.WithJWTAlg(eddsa.New(), ident.Jose{K: own.K()})), own.Kid, f.t.R.Intn(2) == 0); err != nil {
			return err
		}
		po = po[:2]
	}
	b, err := p.MarshalJSON()
	if err != nil {
		return err
	}
	q, err := verifiable.ParsePresentation(b, po...)
	if err != nil {
		return err
	}
	if n := len(q.Credentials()); n != 1 {
		return fmt.Errorf("%d credentials in the presentation", n)
	}
	f.cred = q.Credentials()[0]
	return nil
}

// ---- looking at it ----

func digest(hash, d string) string {
	var h []byte
	switch hash {
	case "384":
		x := sha512.Sum384([]byte(d))
		h = x[:]
	case "512":
		x := sha512.Sum512([]byte(d))
		h = x[:]
	default:
		x := sha256.Sum256([]byte(d))
		h = x[:]
	}
	return ident.B64(h)
}

func set(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

// learn which claim a disclosure is for, by following digests from the signed part.
func (f *flow) learn(jwt string, ds []string) error {
	_, p, err := ident.ParseJWT(jwt)
	if err != nil {
		return err
	}
	alg := "sha-256"
	if f.r.Case.Opt.Hash != "" {
		alg = "sha-" + f.r.Case.Opt.Hash
	}
	vc := p
	if v, ok := p["vc"].(map[string]interface{}); ok && f.r.Case.Opt.V != 5 {
		vc = v
	}
	if vc["_sd_alg"] != alg {
		return fmt.Errorf("digest algorithm is %v", vc["_sd_alg"])
	}
	of := map[string]string{}
	for _, d := range ds {
		of[digest(f.r.Case.Opt.Hash, d)] = d
	}
	open := func(d string) L {
		b, _ := ident.UnB64(d)
		l, _ := lib.ParseJSON(b).(L)
		return l
	}
	var walk func(v interface{}, at string)
	walk = func(v interface{}, at string) {
		switch x := v.(type) {
		case map[string]interface{}:
			sd, _ := x["_sd"].([]interface{})
			for _, g := range sd {
				if d, ok := of[fmt.Sprint(g)]; ok {
					l := open(d)
					q := sub(at, fmt.Sprint(l[1]))
					f.path[d] = q
					walk(l[2], q)
				}
			}
			for k, e := range x {
				if k != "_sd" {
					walk(e, sub(at, k))
				}
			}
		case []interface{}:
			for i, e := range x {
				q := fmt.Sprintf("%s[%d]", at, i)
				if m, ok := e.(map[string]interface{}); ok {
					if g, ok := m["..."].(string); ok {
						if d, ok := of[g]; ok {
							f.path[d] = q
							walk(open(d)[1], q)
						}
						continue
					}
				}
				walk(e, q)
			}
		}
	}
	walk(vc["credentialSubject"], "")
	return nil
}

func sub(p, n string) string {
	if p == "" {
		return n
	}
	return p + "." + n
}

func (f *flow) paths(ds []string) []string {
	l := []string{}
	for _, d := range ds {
		if p, ok := f.path[d]; ok {
			l = append(l, p)
		} else {
			l = append(l, "?"+d)
		}
	}
	sort.Strings(l)
	return l
}

func same(a, b []string) bool {
	x, y := append([]string{}, a...), append([]string{}, b...)
	sort.Strings(x)
	sort.Strings(y)
	return strings.Join(x, "\n") == strings.Join(y, "\n")
}

// bare leaves out objects without members, which a display does not show.
func bare(v interface{}) interface{} {
	m, ok := v.(map[string]interface{})
	if !ok {
		return v
	}
	out := M{}
	for k, e := range m {
		e = bare(e)
		if x, ok := e.(map[string]interface{}); ok && len(x) == 0 {
			continue
		}
		out[k] = e
	}
	return out
}

func (f *flow) expected(shown tree.Node) M {
	doc := M{}
	for k, v := range f.doc {
		doc[k] = v
	}
	doc["credentialSubject"] = bare(f.subject(shown))
	return doc
}

// seen compares a displayed credential with what is to be seen.
func (f *flow) seen(what string, got interface{}, want M) bool {
	g, _ := tree.Norm(got).(map[string]interface{})
	if g != nil {
		// two ways to write one type or subject are as good as each other
		if l, ok := g["credentialSubject"].([]interface{}); ok && len(l) == 1 {
			g["credentialSubject"] = l[0]
		}
		if s, ok := g["@context"].(string); ok {
			g["@context"] = L{s}
		}
	}
	if !tree.Eq(g, want) {
		f.t.Failf(what, "%s: seen %s, should be %s", f.before, tree.Show(got), tree.Show(want))
		return false
	}
	return true
}

func (f *flow) display(c choice, op string) (interface{}, error) {
	var o []verifiable.DisplayCredentialOption
	switch {
	case c.All:
		o = append(o, verifiable.DisplayAllDisclosures())
	case len(c.May) > 0:
		o = append(o, verifiable.DisplayGivenDisclosures(c.May))
	}
	if op == "displaymap" {
		m, err := f.cred.CreateDisplayCredentialMap(o...)
		return m, err
	}
	v, err := f.cred.CreateDisplayCredential(o...)
	if err != nil {
		return nil, err
	}
	b, err := v.MarshalJSON()
	if err != nil {
		return nil, err
	}
	return lib.ParseJSON(b), nil
}

func (f *flow) look(i int, s step) {
	switch s.At {
	case "issued", "wire":
		var ds []string
		hv := ""
		jwt := ""
		if s.At == "issued" {
			cf := common.ParseCombinedFormatForIssuance(f.wire)
			ds, jwt = cf.Disclosures, cf.SDJWT
		} else {
			cf := common.ParseCombinedFormatForPresentation(f.wire)
			ds, jwt, hv = cf.Disclosures, cf.SDJWT, cf.HolderVerification
		}
		if f.jwt == "" {
			f.jwt = jwt
			if err := f.learn(jwt, ds); err != nil {
				f.t.Failf("token", "%s: %v", f.before, err)
				return
			}
		}
		if jwt != f.jwt {
			f.t.Failf("resigned", "%s: the signed part changed", f.before)
		}
		if f.r.Case.Direct && i == 0 && !s.Closed {
			// some disclosures can't be placed
			if len(ds) != len(s.Have) {
				f.t.Failf("kept", "%s: disclosures %v, should be %v", f.before, f.paths(ds), s.Have)
			}
		} else if !same(f.paths(ds), s.Have) {
			f.t.Failf("kept", "%s: disclosures %v, should be %v", f.before, f.paths(ds), s.Have)
			return
		}
		if (hv != "") != (s.Bound > 0) {
			f.t.Failf("bound", "%s: holder binding %q", f.before, hv)
		}
		f.verify(s, s.At == "issued")
	case "object":
		ds := []string{}
		for _, d := range f.cred.SDJWTDisclosures() {
			ds = append(ds, d.Disclosure)
		}
		if !same(f.paths(ds), s.Have) {
			f.t.Failf("held", "%s: disclosures %v, should be %v", f.before, f.paths(ds), s.Have)
			return
		}
		op, arg := "display", choice{All: true}
		if strings.HasPrefix(s.Op, "display") {
			op, arg = s.Op, s.Arg
		}
		got, err := f.display(arg, op)
		if err != nil {
			f.t.Failf("display:error", "%s: %v", f.before, err)
			return
		}
		f.seen(s.key(), got, f.expected(s.Shown))
	}
}

func (s step) key() string {
	if strings.HasPrefix(s.Op, "display") {
		return "displayed"
	}
	return "shown"
}

// verify at a verifier that knows nothing of credentials.
func (f *flow) verify(s step, issued bool) {
	w := f.wire
	if issued || !strings.HasSuffix(w, "~") && s.Bound == 0 {
		w += "~"
	}
	o := []verifier.ParseOpt{verifier.WithSignatureVerifier(chk), verifier.WithIssuerSigningAlgorithms([]string{"EdDSA"})}
	if s.Bound > 0 {
		o = append(o, verifier.WithHolderSigningAlgorithms([]string{"EdDSA"}), verifier.WithHolderVerificationRequired(true),
			verifier.WithExpectedNonceForHolderVerification(f.nonce(s.Bound)), verifier.WithExpectedAudienceForHolderVerification("https://verifier.example"))
	}
	claims, err := verifier.Parse(w, o...)
	if !s.Closed {
		if err == nil {
			f.t.Failf("orphan", "%s: verifier accepts a disclosure for something that is not seen", f.before)
		}
		return
	}
	if err != nil {
		f.t.Failf("verify", "%s: verifier: %v", f.before, err)
		return
	}
	vc := claims
	if f.r.Case.Opt.V != 5 {
		vc, _ = tree.Norm(claims["vc"]).(map[string]interface{})
	}
	want := f.subject(s.Shown)
	if !tree.Eq(vc["credentialSubject"], want) {
		f.t.Failf("claims", "%s: verifier sees %s, should be %s", f.before, tree.Show(vc["credentialSubject"]), tree.Show(want))
	}
}

func run(t *lib.T) {
	var r rec
	t.Decode(&r)
	f := &flow{t: t, r: &r, c: tree.NewConcrete(t.R, false), path: map[string]string{}}
	f.doc = f.original()
	before := tree.Norm(f.doc)
	c, err := verifiable.ParseCredentialJSON(lib.ParseJSON(lib.JSON(f.doc)).(M), verifiable.WithCredDisableValidation(), verifiable.WithDisabledProofCheck())
	lib.Must(err, "document")
	f.cred = c
	f.before = fmt.Sprintf("%s model %d opt %+v", r.Case.Shape, r.Case.Model, r.Case.Opt)
	obs := "done"
	for i, s := range r.Log {
		f.before += fmt.Sprintf(" > %s %s", s.Op, arg(s))
		var err error
		if s.Op != "parse" {
			f.plain = ""
		}
		site, msg, bad := lib.Guard(func() {
			switch s.Op {
			case "make":
				err = f.make()
			case "direct", "directbound", "marshal", "marshalbound":
				b := 0
				if strings.HasSuffix(s.Op, "bound") {
					b = i + 1
				}
				if i > 0 {
					f.r.Case.Direct = false
				}
				err = f.marshal(s.Arg, b)
			case "hold", "holdbound":
				b := 0
				if s.Op == "holdbound" {
					b = i + 1
				}
				err = f.hold(s.Arg, b)
			case "parse":
				err = f.parse()
			case "string", "json", "universal":
				err = f.words(s.Op)
			case "restrict":
				err = f.restrict(s.Arg)
			case "vp", "vpjwt":
				err = f.carry(s.Op)
			case "display", "displaymap":
			default:
				lib.Fatalf("no step %q", s.Op)
			}
		})
		t.Run()
		if bad {
			t.Failf("panic:"+site, "%s: %s", f.before, msg)
			return
		}
		if (err == nil) != s.OK {
			t.Failf("step:"+s.Op, "%s: %v, should be ok: %v", f.before, err, s.OK)
			return
		}
		if err != nil {
			obs = "refused"
			continue
		}
		f.look(i, s)
	}
	if !tree.Eq(before, f.doc) {
		lib.Fatalf("the document changed")
	}
	t.Obs(obs)
}

func arg(s step) string {
	switch {
	case s.Arg.All:
		return "all"
	case len(s.Arg.May)+len(s.Arg.Must) > 0:
		return fmt.Sprintf("%v required %v", s.Arg.May, s.Arg.Must)
	}
	return ""
}

func main() { lib.Main(map[string]func(*lib.T){"flow": run}, nil) }

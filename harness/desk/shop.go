package desk

import (
	"bytes"
	"crypto/sha256"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"time"

	"github.com/hashicorp/golang-lru/v2/expirable"
	"github.com/multiformats/go-multibase"
	"github.com/trustbloc/did-go/doc/did"
	vdrapi "github.com/trustbloc/did-go/vdr/api"
	vdrmock "github.com/trustbloc/did-go/vdr/mock"

	"github.com/trustbloc/vc-go/didconfig/client"
	dcverifier "github.com/trustbloc/vc-go/didconfig/verifier"
	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/proof/creator"
	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"
	"github.com/trustbloc/vc-go/status"
	"github.com/trustbloc/vc-go/status/resolver"
	"github.com/trustbloc/vc-go/status/validator"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

// Shop is what several parties share besides credentials.
type Shop struct {
	wires    map[string][]byte
	claims   M
	iopts    []issuer.NewOpt
	hopts    []holder.ParseOpt
	vopts    []verifier.ParseOpt
	combined string
	tokens   []string
	pd, pdl  *presexch.PresentationDefinition
	wallet   []*verifiable.Credential
	reqs     []presexch.MatchRequirementsOpt
	mopts    []presexch.MatchOption
	vp       *verifiable.Presentation
	status   *status.Client
	link     *client.Client
	loader   *verifiable.CredentialSchemaLoader
	res      *verifiable.RelatedResourceValidator
	web      *web
	multi    *creator.ProofCreator
}

type web struct {
	d     *Desk
	pages map[string][]byte
}

func (w *web) RoundTrip(r *http.Request) (*http.Response, error) {
	w.d.gate("fetch")
	b, ok := w.pages[r.URL.String()]
	if !ok {
		return nil, errors.New("no such page")
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Body: io.NopCloser(bytes.NewReader(b)), Header: http.Header{}, Request: r}, nil
}

func (w *web) Do(r *http.Request) (*http.Response, error) { return w.RoundTrip(r) }

func noDID() vdrapi.Registry {
	return &vdrmock.VDRegistry{ResolveFunc: func(string, ...vdrapi.DIDMethodOption) (*did.DocResolution, error) {
		return nil, errors.New("no such DID")
	}}
}

// ShopKinds names the shops.
var ShopKinds = []string{"tokens", "sdtools", "exchange", "network", "algorithms"}

// Open a shop.
func (d *Desk) Open(kind string) *Shop {
	s := &Shop{wires: map[string][]byte{}}
	for _, k := range Kinds {
		s.wires[k] = Wire(k)
	}
	switch kind {
	case "algorithms":
		s.multi = d.multi()
		for k, b := range d.algWires() {
			s.wires[k] = b
		}
	case "sdtools":
		s.claims = M{"name": "Hanna", "age": 30, "address": M{"street": "Main", "town": M{"name": "Bern", "zip": "3000"}}, "langs": L{"de", "fr"}, "level": "B"}
		s.iopts = append(make([]issuer.NewOpt, 0, 16), issuer.WithSDJWTVersion(common.SDJWTVersionV5), issuer.WithStructuredClaims(true),
			issuer.WithNonSelectivelyDisclosableClaims(d.Plain), issuer.WithRecursiveClaimsObjects([]string{"address"}), issuer.WithDecoyDigests(true))
		s.hopts = append(make([]holder.ParseOpt, 0, 8), holder.WithSignatureVerifier(d.Chk), holder.WithIssuerSigningAlgorithms([]string{"EdDSA"}))
		s.vopts = append(make([]verifier.ParseOpt, 0, 8), verifier.WithSignatureVerifier(d.Chk), verifier.WithIssuerSigningAlgorithms([]string{"EdDSA"}))
		t, err := issuer.New(issue.Alice, s.claims, nil, d.Jose, s.iopts...)
		lib.Must(err, "issue")
		s.combined, err = t.Serialize(false)
		lib.Must(err, "serialize")
		s.tokens = make([]string, 0, 16)
		for _, x := range t.Disclosures {
			if b, _ := base64.RawURLEncoding.DecodeString(x); strings.Contains(string(b), `"Hanna"`) || strings.Contains(string(b), `"age"`) {
				s.tokens = append(s.tokens, x)
			}
		}
	case "exchange":
		str := "string"
		lim, pred := presexch.Required, presexch.Required
		field := func(path string, val interface{}) *presexch.Field {
			return &presexch.Field{Path: []string{path}, Filter: &presexch.Filter{FilterItem: presexch.FilterItem{Type: &str, Const: val}}}
		}
		s.pd = &presexch.PresentationDefinition{ID: "pd", InputDescriptors: []*presexch.InputDescriptor{
			{ID: "a", Group: []string{"A"}, Constraints: &presexch.Constraints{Fields: []*presexch.Field{field("$.credentialSubject.level", "B"), field("$.motto.en", "go")}}},
			{ID: "b", Group: []string{"A"}, Constraints: &presexch.Constraints{Fields: []*presexch.Field{field("$.credentialSubject.address.town", "Bern")}}}},
			SubmissionRequirements: []*presexch.SubmissionRequirement{{Rule: presexch.All, From: "A"}}}
		f := field("$.credentialSubject.level", "B")
		f.Predicate = &pred
		s.pdl = &presexch.PresentationDefinition{ID: "pdl", InputDescriptors: []*presexch.InputDescriptor{
			{ID: "a", Constraints: &presexch.Constraints{LimitDisclosure: &lim, Fields: []*presexch.Field{field("$.credentialSubject.name", "Hanna"), f}}},
			{ID: "b", Constraints: &presexch.Constraints{LimitDisclosure: &lim, Fields: []*presexch.Field{field("$.credentialSubject.address.town", "Bern")}}}}}
		s.wallet = make([]*verifiable.Credential, 0, 8)
		for _, k := range []string{"plain", "ld", "jwt", "sd"} {
			s.wallet = append(s.wallet, d.Credential(k))
		}
		s.reqs = append(make([]presexch.MatchRequirementsOpt, 0, 8), presexch.WithSDCredentialOptions(d.Parse...))
		s.mopts = append(make([]presexch.MatchOption, 0, 8), presexch.WithCredentialOptions(append(d.Parse[:len(d.Parse):len(d.Parse)], verifiable.WithDisabledProofCheck())...), presexch.WithDisableSchemaValidation())
		var err error
		s.vp, err = s.pd.CreateVP(s.wallet, gatedLoader{d})
		lib.Must(err, "vp")
	case "network":
		w := &web{d, map[string][]byte{}}
		s.web = w
		listVC := func(url string, set int) []byte {
			b := make([]byte, 16)
			b[set/8] |= 1 << (set % 8)
			doc := M{"@context": L{"https://www.w3.org/ns/credentials/v2"}, "id": url, "type": L{"VerifiableCredential", "BitstringStatusListCredential"}, "issuer": issue.Alice,
				"credentialSubject": M{"id": url + "#l", "type": "BitstringStatusList", "statusPurpose": "revocation", "encodedList": "u" + packed(b)}}
			return []byte(issue.JWT(M{"iss": issue.Alice, "vc": doc}, d.Who))
		}
		w.pages["https://alice.example/list1"] = listVC("https://alice.example/list1", 3)
		w.pages["https://alice.example/list2"] = listVC("https://alice.example/list2", 5)
		w.pages["https://alice.example/schema1"] = []byte(`{"type":"object","required":["credentialSubject"]}`)
		w.pages["https://alice.example/schema2"] = []byte(`{"type":"object","required":["nobodyhasthis"]}`)
		w.pages["https://alice.example/r1"] = []byte("resource one")
		w.pages["https://alice.example/r2"] = []byte("resource two")
		s.status = &status.Client{ValidatorGetter: validator.GetValidator, Resolver: resolver.NewResolver(&http.Client{Transport: w}, noDID(), "")}
		h := issue.As("EdDSA", "hanna")
		dl := func(origin string) string {
			doc := M{"@context": L{"https://www.w3.org/2018/credentials/v1", dcverifier.ContextV1}, "type": L{"VerifiableCredential", "DomainLinkageCredential"},
				"issuer": issue.Hanna, "issuanceDate": "2020-01-01T00:00:00Z", "expirationDate": "2090-01-01T00:00:00Z", "credentialSubject": M{"id": issue.Hanna, "origin": origin}}
			l := issue.LD(doc, h)
			l["proof"] = l["proof"].(L)[0]
			return `{"@context":"` + dcverifier.ContextV1 + `","linked_dids":[` + string(lib.JSON(l)) + `]}`
		}
		w.pages["https://one.example/.well-known/did-configuration.json"] = []byte(dl("https://one.example"))
		w.pages["https://two.example/.well-known/did-configuration.json"] = []byte(dl("https://one.example"))
		s.link = client.New(client.WithHTTPClient(w), client.WithJSONLDDocumentLoader(gatedLoader{d}), client.WithVDRegistry(gatedVDR{d}))
		s.loader = verifiable.NewCredentialSchemaLoaderBuilder().SetSchemaDownloadClient(&http.Client{Transport: w}).SetCache(verifiable.NewExpirableSchemaCache(1<<20, time.Hour)).Build()
		s.res = verifiable.NewRelatedResourceValidator(verifiable.WithHTTPClient(w), verifiable.WithCache(expirable.NewLRU[string, *verifiable.CachedResource](100, nil, time.Hour)))
	}
	return s
}

func packed(b []byte) string { return issue.B64Gzip(b) }

// Print is all that is shared.
func (s *Shop) Print() string {
	m := M{"claims": s.claims, "combined": s.combined, "tokens": s.tokens[:cap(s.tokens)], "pd": s.pd, "pdl": s.pdl}
	if s.vp != nil {
		m["vp"] = Show(Obj{P: s.vp})
	}
	for i, c := range s.wallet[:cap(s.wallet)] {
		if c != nil {
			m[fmt.Sprint("w", i)] = Show(Obj{C: c})
		}
	}
	return text(m)
}

func (d *Desk) netVC(change func(M)) []byte {
	doc := Doc(true, "plain2")
	delete(doc, "credentialStatus")
	delete(doc, "evidence")
	change(doc)
	return lib.JSON(doc)
}

func (d *Desk) statusOf(s *Shop, list string, idx int) (string, Obj) {
	c, err := verifiable.ParseCredential(d.netVC(func(m M) {
		m["credentialStatus"] = M{"id": "urn:s", "type": "BitstringStatusListEntry", "statusPurpose": "revocation", "statusListIndex": fmt.Sprint(idx), "statusListCredential": "https://alice.example/" + list}
	}), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation())
	lib.Must(err, "status vc")
	err = s.status.VerifyStatus(c)
	if errors.Is(err, status.ErrRevoked) {
		return "revoked", Obj{}
	}
	return verdict(err), Obj{}
}

func (d *Desk) schemaOf(s *Shop, names ...string) (string, Obj) {
	_, err := verifiable.ParseCredential(d.netVC(func(m M) {
		l := L{}
		for _, n := range names {
			l = append(l, M{"id": "https://alice.example/" + n, "type": "JsonSchemaValidator2018"})
		}
		m["credentialSchema"] = l
	}), verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(gatedLoader{d}), verifiable.WithCredentialSchemaLoader(s.loader))
	return verdict(err), Obj{}
}

func (d *Desk) resourceOf(s *Shop, name, content string) (string, Obj) {
	h := sha256.Sum256([]byte(content))
	mb, _ := multibase.Encode(multibase.Base64url, append([]byte{0x12, 0x20}, h[:]...))
	c, err := verifiable.ParseCredential(d.netVC(func(m M) {
		m["relatedResource"] = L{M{"id": "https://alice.example/" + name, "digestMultibase": mb}}
	}), verifiable.WithDisabledProofCheck(), verifiable.WithCredDisableValidation(), verifiable.WithDisabledRelatedResourceCheck())
	lib.Must(err, "resource vc")
	return verdict(s.res.Validate([]*verifiable.Credential{c})), Obj{}
}

type shopOp func(d *Desk, s *Shop) (string, Obj)

func parse(kind string, bad bool) shopOp {
	return func(d *Desk, s *Shop) (string, Obj) {
		b := s.wires[kind]
		if bad {
			b = broken(b)
		}
		return cred(verifiable.ParseCredential(b, append(d.Parse[:len(d.Parse):len(d.Parse)], verifiable.WithCredDisableValidation())...))
	}
}

func opened(d *Desk, s *Shop, tok string, err error) (string, Obj) { return d.opened(tok, err) }

// ShopOps by shop.
var ShopOps = map[string]map[string]shopOp{
	"tokens": func() map[string]shopOp {
		m := map[string]shopOp{}
		for _, k := range Kinds {
			if !strings.HasPrefix(k, "plain") {
				m[k] = parse(k, false)
				m[k+"bad"] = parse(k, true)
			}
		}
		return m
	}(),
	"algorithms": algOps(),
	"sdtools": {
		"issue": func(d *Desk, s *Shop) (string, Obj) {
			t, err := issuer.New(issue.Alice, s.claims, nil, d.Jose, s.iopts...)
			if err != nil {
				return fail(err), Obj{}
			}
			c, err := t.Serialize(false)
			c = strings.Join(strings.Split(c, "~")[:len(t.Disclosures)+1], "~")
			v, _ := d.opened(c, err)
			return v[strings.Index(v, " "):], Obj{}
		},
		"issuevc": func(d *Desk, s *Shop) (string, Obj) {
			t, err := issuer.NewFromVC(M{"iss": issue.Alice, "vc": M{"credentialSubject": s.claims}}, nil, d.Jose, issuer.WithStructuredClaims(true), issuer.WithNonSelectivelyDisclosableClaims(d.Plain))
			if err != nil {
				return fail(err), Obj{}
			}
			c, err := t.Serialize(false)
			v, _ := d.opened(c, err)
			return v, Obj{}
		},
		"receive": func(d *Desk, s *Shop) (string, Obj) {
			cs, err := holder.Parse(s.combined, s.hopts...)
			var l []string
			for _, c := range cs {
				l = append(l, text(L{c.Name, c.Value}))
			}
			sort.Strings(l)
			return js(l, err)
		},
		"present": func(d *Desk, s *Shop) (string, Obj) { return d.opened(holder.CreatePresentation(s.combined, s.tokens)) },
		"bound": func(d *Desk, s *Shop) (string, Obj) {
			return d.opened(holder.CreatePresentation(s.combined, s.tokens, holder.WithHolderVerification(d.Bind)))
		},
		"verify": func(d *Desk, s *Shop) (string, Obj) { return js(verifier.Parse(s.combined+"~", s.vopts...)) },
		"unknown": func(d *Desk, s *Shop) (string, Obj) {
			return js(holder.CreatePresentation(s.combined, []string{"unknown"}))
		},
	},
	"exchange": {
		"createvp": func(d *Desk, s *Shop) (string, Obj) {
			p, err := s.pd.CreateVP(s.wallet, gatedLoader{d}, s.reqs...)
			return out(Obj{P: p}, err)
		},
		"limitvp": func(d *Desk, s *Shop) (string, Obj) {
			p, err := s.pdl.CreateVP(s.wallet, gatedLoader{d}, s.reqs...)
			if err != nil {
				return fail(err), Obj{}
			}
			return fmt.Sprint(len(p.Credentials()), text(p.CustomFields["presentation_submission"])), Obj{}
		},
		"array": func(d *Desk, s *Shop) (string, Obj) {
			ps, sub, err := s.pd.CreateVPArray(s.wallet, gatedLoader{d}, s.reqs...)
			return js(M{"n": len(ps), "sub": sub}, err)
		},
		"needs": func(d *Desk, s *Shop) (string, Obj) {
			r, err := s.pd.MatchSubmissionRequirement(s.wallet, gatedLoader{d}, s.reqs...)
			return js(needs(r), err)
		},
		"needslimit": func(d *Desk, s *Shop) (string, Obj) {
			r, err := s.pdl.MatchSubmissionRequirement(s.wallet, gatedLoader{d}, append(s.reqs[:len(s.reqs):len(s.reqs)], presexch.WithSelectiveDisclosureApply())...)
			return js(needs(r), err)
		},
		"match": func(d *Desk, s *Shop) (string, Obj) {
			m, err := s.pd.Match([]*verifiable.Presentation{s.vp}, gatedLoader{d}, s.mopts...)
			ids := []string{}
			for k, v := range m {
				ids = append(ids, fmt.Sprint(k)+show(Obj{C: v.Credential}, false))
			}
			sort.Strings(ids)
			return js(ids, err)
		},
		"valid": func(d *Desk, s *Shop) (string, Obj) {
			return verdict(s.pd.ValidateSchema()) + verdict(s.pdl.ValidateSchema()), Obj{}
		},
	},
	"network": {
		"revoked": func(d *Desk, s *Shop) (string, Obj) { return d.statusOf(s, "list1", 3) },
		"clear":   func(d *Desk, s *Shop) (string, Obj) { return d.statusOf(s, "list1", 4) },
		"other":   func(d *Desk, s *Shop) (string, Obj) { return d.statusOf(s, "list2", 5) },
		"nolist":  func(d *Desk, s *Shop) (string, Obj) { return d.statusOf(s, "list3", 5) },
		"linked": func(d *Desk, s *Shop) (string, Obj) {
			return verdict(s.link.VerifyDIDAndDomain(issue.Hanna, "https://one.example")), Obj{}
		},
		"unlinked": func(d *Desk, s *Shop) (string, Obj) {
			return verdict(s.link.VerifyDIDAndDomain(issue.Hanna, "https://two.example")), Obj{}
		},
		"nolink": func(d *Desk, s *Shop) (string, Obj) {
			return verdict(s.link.VerifyDIDAndDomain(issue.Hanna, "https://none.example")), Obj{}
		},
		"schema":    func(d *Desk, s *Shop) (string, Obj) { return d.schemaOf(s, "schema1") },
		"noschema":  func(d *Desk, s *Shop) (string, Obj) { return d.schemaOf(s, "schema1", "schema2") },
		"resource":  func(d *Desk, s *Shop) (string, Obj) { return d.resourceOf(s, "r1", "resource one") },
		"resource2": func(d *Desk, s *Shop) (string, Obj) { return d.resourceOf(s, "r2", "resource two") },
		"wrongres":  func(d *Desk, s *Shop) (string, Obj) { return d.resourceOf(s, "r1", "resource two") },
	},
}

func needs(rs []*presexch.MatchedSubmissionRequirement) L {
	l := L{}
	for _, r := range rs {
		ds := L{}
		for _, x := range r.Descriptors {
			cs := L{}
			for _, c := range x.MatchedVCs {
				cs = append(cs, lib.ParseJSON(lib.JSON(c.Contents().Subject[0].ID)))
			}
			ds = append(ds, M{"id": x.ID, "n": len(x.MatchedVCs), "cs": cs})
		}
		l = append(l, M{"rule": r.Rule, "ds": ds, "nested": needs(r.Nested)})
	}
	return l
}

// broken differs from b where it is signed.
func broken(b []byte) []byte {
	if x := []byte(strings.Replace(string(b), "Hanna", "Mallo", 1)); !bytes.Equal(x, b) {
		return x
	}
	b = append([]byte{}, b...)
	i := len(b) / 2
	if n := bytes.Count(b[:], []byte(".")); n >= 2 && b[0] != '{' { // a token: in its signature
		i = bytes.IndexByte(b, '.')
		i += 6 + bytes.IndexByte(b[i+1:], '.')
	}
	if i >= len(b) {
		i = len(b) / 2
	}
	if b[i] == 'A' {
		b[i] = 'B'
	} else {
		b[i] = 'A'
	}
	return b
}

// Conformance harness for SD-JWT issuance, presentation and verification.
package main

import (
	"crypto"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/trustbloc/vc-go/sdjwt/common"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/issuer"
	"github.com/trustbloc/vc-go/sdjwt/verifier"

	"github.com/trustbloc/vc-go/proof/testsupport"

	"crypto/ed25519"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
)

func main() {
	lib.Main(map[string]func(*lib.T){"issue": issue, "verify": verify, "policy": policy, "registered": registered}, nil)
}

type optRec struct {
	V      int      `json:"v"`
	Struct bool     `json:"struct"`
	Decoy  bool     `json:"decoy"`
	Ign    []string `json:"ign"`
	Alw    []string `json:"alw"`
	Rec    []string `json:"rec"`
}

type issueRec struct {
	Expect string    `json:"expect"`
	Cs     tree.Node `json:"cs"`
	Opt    optRec    `json:"opt"`
	Hidden []string  `json:"hidden"`
	Clear  []int     `json:"clear"`
	Base   tree.Node `json:"base"`
	Chosen []string  `json:"chosen"`
	Out    tree.Node `json:"out"`
}

func leaves(n tree.Node, m map[int]bool) {
	if n.K == "p" {
		m[n.ID] = true
	}
	for _, c := range n.Ch {
		leaves(c.V, m)
	}
	for _, e := range n.El {
		leaves(e, m)
	}
}

func mapPaths(c *tree.Concrete, ps []string) []string {
	o := make([]string, 0, len(ps))
	for _, p := range ps {
		o = append(o, c.Path(p))
	}
	sort.Strings(o)
	return o
}

func options(c *tree.Concrete, o optRec) []issuer.NewOpt {
	opts := []issuer.NewOpt{
		issuer.WithSDJWTVersion(common.SDJWTVersion(o.V)),
		issuer.WithStructuredClaims(o.Struct),
		issuer.WithDecoyDigests(o.Decoy),
	}
	if len(o.Ign) > 0 {
		opts = append(opts, issuer.WithNonSelectivelyDisclosableClaims(mapPaths(c, o.Ign)))
	}
	if len(o.Alw) > 0 {
		opts = append(opts, issuer.WithAlwaysIncludeObjects(mapPaths(c, o.Alw)))
	}
	if len(o.Rec) > 0 {
		opts = append(opts, issuer.WithRecursiveClaimsObjects(mapPaths(c, o.Rec)))
	}
	return opts
}

func issue(t *lib.T) {
	var s issueRec
	t.Decode(&s)
	c := tree.NewConcrete(t.R, t.R.Intn(2) == 0)
	claims := c.JSON(s.Cs).(map[string]interface{})
	before := tree.Norm(claims)
	k := ident.K("EdDSA", "iss")
	hashes := []crypto.Hash{crypto.SHA256, crypto.SHA384, crypto.SHA512}
	names := []string{"sha-256", "sha-384", "sha-512"}
	hi := t.R.Intn(3)
	opts := append(options(c, s.Opt), issuer.WithHashAlgorithm(hashes[hi]))
	tok, err := issuer.New("did:example:issuer", claims, nil, ident.Jose{K: k}, opts...)
	t.Run()
	if err != nil {
		t.Failf("issue:error", "issuing failed: %v (claims %s)", err, tree.Show(claims))
		return
	}
	if !tree.Eq(before, claims) {
		t.Failf("issue:mutates", "issuing changed the caller's claims: %s -> %s", tree.Show(before), tree.Show(claims))
	}
	combined, err := tok.Serialize(false)
	lib.Must(err, "serialize")
	parts := strings.Split(combined, "~")
	_, payload, err := ident.ParseJWT(parts[0])
	if err != nil {
		t.Failf("issue:token", "issued token is not a JWT: %v", err)
		return
	}
	if payload["iss"] != "did:example:issuer" || payload["_sd_alg"] != names[hi] {
		t.Failf("issue:registered", "iss/_sd_alg wrong: %s", tree.Show(payload))
	}
	raw := tree.Show(payload)
	delete(payload, "iss")
	delete(payload, "_sd_alg")
	w := tree.Open(payload, parts[1:], names[hi])
	if w.Problem != "" {
		t.Failf("issue:structure", "%s (payload %s)", w.Problem, raw)
		return
	}
	want := mapPaths(c, s.Hidden)
	if !tree.Eq(w.Paths(), want) && len(want)+len(w.Paths()) > 0 {
		t.Failf("issue:hidden", "hidden claims %v, specification %v (claims %s, options %+v)", w.Paths(), want, tree.Show(claims), s.Opt)
		return
	}
	if s.Opt.Decoy == (w.Decoys == 0) {
		t.Failf("issue:decoys", "decoy option %v but %d decoys", s.Opt.Decoy, w.Decoys)
	}
	if b := w.Base(payload); !tree.Eq(b, c.JSON(s.Base)) {
		t.Failf("issue:base", "clear part of the payload is %s, specification %s", tree.Show(b), tree.Show(c.JSON(s.Base)))
	}
	if r := w.Restored(payload); !tree.Eq(r, before) {
		t.Failf("issue:restore", "payload with all disclosures is %s, original %s", tree.Show(r), tree.Show(before))
	}
	all := map[int]bool{}
	leaves(s.Cs, all)
	clear := map[int]bool{}
	for _, id := range s.Clear {
		clear[id] = true
	}
	for id := range all {
		if !clear[id] && c.Unique(id) {
			enc, _ := json.Marshal(c.Val(id))
			if strings.Contains(raw, strings.Trim(string(enc), `"`)) {
				t.Failf("issue:leak", "hidden value %s is in the signed payload %s", enc, raw)
			}
		}
	}

	ver := testsupport.NewEd25519Verifier(k.Ed.Public().(ed25519.PublicKey))
	hopts := []holder.ParseOpt{holder.WithSignatureVerifier(ver)}
	if t.R.Intn(2) == 0 {
		hopts = append(hopts, holder.WithSDJWTV5Validation(true), holder.WithIssuerSigningAlgorithms([]string{"EdDSA"}))
	}
	got, err := holder.Parse(combined, hopts...)
	t.Run()
	if err != nil {
		t.Failf("holder:error", "holder rejects what the issuer made: %v (claims %s, options %+v)", err, tree.Show(claims), s.Opt)
		return
	}
	var gs, ws []string
	for _, g := range got {
		gs = append(gs, tree.Show([]interface{}{g.Disclosure, g.Name, g.Value}))
	}
	for p, d := range w.Disc {
		ws = append(ws, tree.Show([]interface{}{d, w.Names[p], w.Value[p]}))
	}
	for i, g := range got {
		if len(got)+1 == len(parts) && g.Disclosure != parts[i+1] {
			t.Failf("holder:order", "holder sees disclosures in another order than received")
		}
	}
	sort.Strings(gs)
	sort.Strings(ws)
	if !tree.Eq(gs, ws) && len(gs)+len(ws) > 0 {
		t.Failf("holder:claims", "holder sees %v, issued %v", gs, ws)
	}

	var chosen []string
	for _, p := range s.Chosen {
		chosen = append(chosen, w.Disc[c.Path(p)])
	}
	t.R.Shuffle(len(chosen), func(i, j int) { chosen[i], chosen[j] = chosen[j], chosen[i] })
	pres := parts[0]
	if len(parts) > 1 {
		pres, err = holder.CreatePresentation(combined, chosen)
		t.Run()
		if err != nil {
			t.Failf("present:error", "presenting %v failed: %v", s.Chosen, err)
			return
		}
		ps := strings.Split(pres, "~")
		var sent []string
		for _, x := range ps[1:] {
			if x != "" {
				sent = append(sent, x)
			}
		}
		a, b := append([]string{}, sent...), append([]string{}, chosen...)
		sort.Strings(a)
		sort.Strings(b)
		if ps[0] != parts[0] || !tree.Eq(a, b) {
			t.Failf("present:content", "presentation carries %d disclosures, chosen %d", len(sent), len(chosen))
		}
	} else if t.R.Intn(2) == 0 {
		pres += "~"
	}
	out, err := verifier.Parse(pres, verifier.WithSignatureVerifier(ver))
	t.Run()
	if (err == nil) != (s.Expect == "ok") {
		t.Failf("verify:"+s.Expect, "specification: %s; verifier: %v; chosen %v of %v, options %+v, claims %s",
			s.Expect, err, s.Chosen, s.Hidden, s.Opt, tree.Show(claims))
		return
	}
	if err != nil {
		t.Obs("rejected")
		return
	}
	wantOut := c.JSON(s.Out).(map[string]interface{})
	wantOut["iss"] = "did:example:issuer"
	if !tree.Eq(out, wantOut) {
		t.Failf("verify:claims", "verifier computes %s, specification %s (chosen %v, options %+v, claims %s)",
			tree.Show(out), tree.Show(wantOut), s.Chosen, s.Opt, tree.Show(claims))
	}
	// verifying twice gives the same
	if out2, err2 := verifier.Parse(pres, verifier.WithSignatureVerifier(ver)); err2 != nil || !tree.Eq(out, out2) {
		t.Failf("verify:again", "second verification differs: %v %s", err2, tree.Show(out2))
	}
	t.Obs(fmt.Sprintf("%d hidden, %d chosen", len(s.Hidden), len(s.Chosen)))
}

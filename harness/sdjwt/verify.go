package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"strings"

	"github.com/trustbloc/vc-go/proof/testsupport"
	"github.com/trustbloc/vc-go/sdjwt/holder"
	"github.com/trustbloc/vc-go/sdjwt/verifier"

	"github.com/trustbloc/vc-go/zzverif/ident"
	"github.com/trustbloc/vc-go/zzverif/lib"
	"github.com/trustbloc/vc-go/zzverif/tree"
)

type snode struct {
	K   string  `json:"k"`
	ID  int     `json:"id"`
	Ch  []smem  `json:"ch"`
	El  []snode `json:"el"`
	Sd  []string
	Sdk string
	D   string `json:"d"`
}

type smem struct {
	N string `json:"n"`
	V snode  `json:"v"`
}

type sdisc struct {
	D    string `json:"d"`
	Kind string `json:"kind"`
	Ar   int    `json:"ar"`
	N    string `json:"n"`
	V    snode  `json:"v"`
}

type verifyRec struct {
	Expect string   `json:"expect"`
	Holder string   `json:"holder"`
	Base   []sdisc  `json:"base"`
	Atk    []string `json:"atk"`
	Tok    struct {
		Alg  string  `json:"alg"`
		Root snode   `json:"root"`
		Ds   []sdisc `json:"ds"`
	} `json:"tok"`
	Out tree.Node `json:"out"`
}

// sealer turns a symbolic token into a concrete one.
type sealer struct {
	t     *lib.T
	c     *tree.Concrete
	alg   string
	discs map[string]sdisc
	made  map[string]string // digest name -> disclosure string
	dig   map[string]string // digest name -> digest
}

func (s *sealer) digest(name string) string {
	if d, ok := s.dig[name]; ok {
		return d
	}
	var d string
	if x, ok := s.discs[name]; ok {
		d = tree.Digest(s.alg, s.disclosure(x))
	} else {
		b := make([]byte, 32)
		s.t.R.Read(b)
		d = ident.B64(b)
	}
	s.dig[name] = d
	return d
}

func (s *sealer) salt() string {
	b := make([]byte, 16)
	s.t.R.Read(b)
	return ident.B64(b)
}

func (s *sealer) disclosure(x sdisc) string {
	if m, ok := s.made[x.D]; ok {
		return m
	}
	var out string
	enc := func(v ...interface{}) string {
		b := lib.JSON(v)
		if s.t.R.Intn(3) == 0 { // any JSON formatting is fine: the digest covers the encoded string
			var buf bytes.Buffer
			_ = json.Indent(&buf, b, " ", "\t")
			b = buf.Bytes()
		}
		return ident.B64(b)
	}
	switch x.Kind {
	case "wf":
		if x.Ar == 3 {
			out = enc(s.salt(), s.c.Name(x.N), s.value(x.V))
		} else {
			out = enc(s.salt(), s.value(x.V))
		}
	case "b64":
		out = "!!" + s.salt()
	case "std64":
		b := append(lib.JSON([]interface{}{s.salt(), s.c.Name(x.N), s.value(x.V)}), ' ')
		for len(b)%3 == 0 {
			b = append(b, ' ')
		}
		out = base64.StdEncoding.EncodeToString(b)
	case "json":
		out = ident.B64([]byte("not json " + s.salt()))
	case "object":
		out = ident.B64(lib.JSON(map[string]interface{}{s.salt(): s.value(x.V)}))
	case "empty":
		out = ""
	case "none":
		out = enc()
	case "ar1":
		out = enc(s.salt())
	case "ar4":
		out = enc(s.salt(), s.c.Name(x.N), s.value(x.V), "more")
	case "salt":
		out = enc(5, s.c.Name(x.N), s.value(x.V))
	case "name":
		out = enc(s.salt(), []interface{}{1, true, nil}[s.t.R.Intn(3)], s.value(x.V))
	default:
		lib.Fatalf("kind %q", x.Kind)
	}
	s.made[x.D] = out
	return out
}

func (s *sealer) value(n snode) interface{} {
	switch n.K {
	case "p":
		return s.c.Val(n.ID)
	case "o":
		m := map[string]interface{}{}
		for _, x := range n.Ch {
			m[s.c.Name(x.N)] = s.value(x.V)
		}
		var sd []interface{}
		for _, d := range n.Sd {
			sd = append(sd, s.digest(d))
		}
		s.t.R.Shuffle(len(sd), func(i, j int) { sd[i], sd[j] = sd[j], sd[i] })
		switch n.Sdk {
		case "notarray":
			m["_sd"] = []interface{}{"digest", 5, map[string]interface{}{"a": "b"}, true}[s.t.R.Intn(4)]
		case "nonstring":
			bad := []interface{}{5, map[string]interface{}{"a": "b"}, []interface{}{"x"}, nil, true}[s.t.R.Intn(5)]
			m["_sd"] = append(sd, bad)
		default:
			if len(sd) > 0 {
				m["_sd"] = sd
			} else if s.t.R.Intn(6) == 0 {
				m["_sd"] = []interface{}{}
			}
		}
		return m
	case "a":
		a := []interface{}{}
		for _, x := range n.El {
			a = append(a, s.value(x))
		}
		return a
	case "h":
		return map[string]interface{}{"...": s.digest(n.D)}
	}
	return nil
}

func verify(t *lib.T) {
	var r verifyRec
	t.Decode(&r)
	c := tree.NewConcrete(t.R, t.R.Intn(3) == 0)
	algs := []string{"sha-256", "sha-384", "sha-512"}
	s := &sealer{t: t, c: c, alg: algs[t.R.Intn(3)], discs: map[string]sdisc{}, made: map[string]string{}, dig: map[string]string{}}
	if r.Tok.Alg != "good" {
		s.alg = "sha-256"
	}
	for _, x := range r.Base {
		s.discs[x.D] = x
	}
	for _, x := range r.Tok.Ds {
		s.discs[x.D] = x
	}
	body := s.value(r.Tok.Root).(map[string]interface{})
	var algv interface{} = s.alg
	switch r.Tok.Alg {
	case "md5", "sha-1":
		algv = r.Tok.Alg
	case "number":
		algv = 256
	case "garbage":
		algv = "sha-256 "
	}
	inVC := t.R.Intn(3) == 0
	payload := map[string]interface{}{"iss": "did:example:issuer"}
	where := payload
	if inVC {
		payload["vc"] = body
		if t.R.Intn(2) == 0 {
			where = body
		}
	} else {
		for k, v := range body {
			payload[k] = v
		}
	}
	if r.Tok.Alg != "missing" {
		where["_sd_alg"] = algv
	}
	k := ident.K("EdDSA", "iss")
	jwt := ident.JWT(map[string]interface{}{"alg": "EdDSA"}, payload, k)
	var ds []string
	for _, x := range r.Tok.Ds {
		ds = append(ds, s.disclosure(x))
	}
	t.R.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	pres := jwt
	for _, d := range ds {
		pres += "~" + d
	}
	comb := pres
	if len(ds) > 0 || t.R.Intn(2) == 0 {
		pres += "~"
	}
	ver := testsupport.NewEd25519Verifier(k.Ed.Public().(ed25519.PublicKey))
	key := strings.Join(r.Atk, "+")
	out, err := verifier.Parse(pres, verifier.WithSignatureVerifier(ver))
	t.Run()
	if (err == nil) != (r.Expect == "ok") {
		t.Failf("verify:"+r.Expect+":"+key, "specification: %s; verifier: err=%v out=%s; attacks %v; payload %s disclosures %v",
			r.Expect, err, tree.Show(out), r.Atk, tree.Show(payload), decode(ds))
		return
	}
	if err == nil {
		want := map[string]interface{}{"iss": "did:example:issuer"}
		tr := c.JSON(r.Out).(map[string]interface{})
		if inVC {
			want["vc"] = tr
		} else {
			for k, v := range tr {
				want[k] = v
			}
		}
		if !tree.Eq(out, want) {
			t.Failf("verify:claims:"+key, "verifier computes %s, specification %s; attacks %v; payload %s disclosures %v",
				tree.Show(out), tree.Show(want), r.Atk, tree.Show(payload), decode(ds))
			return
		}
	}
	_, err = holder.Parse(comb, holder.WithSignatureVerifier(ver))
	t.Run()
	if (err == nil) != (r.Holder == "ok") {
		t.Failf("holder:"+r.Holder+":"+key, "specification: %s; holder: %v; attacks %v; payload %s disclosures %v",
			r.Holder, err, r.Atk, tree.Show(payload), decode(ds))
	}
	t.Obs(fmt.Sprintf("%v: %s", r.Atk, r.Expect))
}

func decode(ds []string) []string {
	var o []string
	for _, d := range ds {
		b, err := ident.UnB64(d)
		if err != nil {
			o = append(o, "raw:"+d)
			continue
		}
		o = append(o, string(b))
	}
	return o
}

package desk

import (
	"strings"

	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/lib"
)

func init() {
	CredOps["bbsproof"] = func(d *Desk, o Obj) (string, Obj) {
		c, err := o.C.GenerateBBSSelectiveDisclosure(d.Frame, []byte("nonce"), d.Derive, d.Parse...)
		return verdict(err), Obj{C: c}
	}
	// what callers do with what they were given
	CredOps["editraw"] = func(d *Desk, o Obj) (string, Obj) {
		m := o.C.ToRawJSON()
		m["edited"] = true
		delete(m, "credentialSubject")
		return "", Obj{}
	}
	CredOps["editclaims"] = func(d *Desk, o Obj) (string, Obj) {
		m := o.C.ToRawClaimsMap()
		m["edited"] = true
		delete(m, "issuer")
		return "", Obj{}
	}
	CredOps["editlist"] = func(d *Desk, o Obj) (string, Obj) {
		p := o.C.Proofs()
		_ = append(p, verifiable.Proof{"type": "edited"})
		c := o.C.Contents()
		_ = append(c.Types, "edited")
		_ = append(c.Context, "edited")
		_ = append(c.Subject, verifiable.Subject{ID: "edited"})
		return "", Obj{}
	}
	VPOps["editlist"] = func(d *Desk, o Obj) (string, Obj) {
		_ = append(o.P.Credentials(), d.Credential("plain"))
		c := o.P.Clone()
		c.Type = append(c.Type, "edited")
		c.Context = append(c.Context, "edited")
		c.AddCredentials(d.Credential("plain"))
		return "", Obj{}
	}
}

var credChanges = map[string]func(d *Desk, o Obj) error{
	"addld": func(d *Desk, o Obj) error { return o.C.AddLinkedDataProof(d.LD, d.LDOpts...) },
	"adddi": func(d *Desk, o Obj) error { return o.C.AddDataIntegrityProof(d.DI, d.DIS) },
	"reset": func(d *Desk, o Obj) error {
		o.C.ResetProofs(nil)
		return nil
	},
	"setfield": func(d *Desk, o Obj) error {
		o.C.SetCustomField("motto", M{"en": "other"})
		return nil
	},
	"setdisc": func(d *Desk, o Obj) error {
		ds := o.C.SDJWTDisclosures()
		return o.C.SetSDJWTDisclosures(ds[:0])
	},
}

var vpChanges = map[string]func(d *Desk, o Obj) error{
	"addld": func(d *Desk, o Obj) error { return o.P.AddLinkedDataProof(d.LD, d.LDOpts...) },
	"adddi": func(d *Desk, o Obj) error { return o.P.AddDataIntegrityProof(d.DI, d.DIS) },
	"addcred": func(d *Desk, o Obj) error {
		kind := "jwt"
		if strings.HasSuffix(o.P.Context[0], "/v2") {
			kind = "jwt2"
		}
		o.P.AddCredentials(d.Credential(kind))
		return nil
	},
	"vpfield": func(d *Desk, o Obj) error {
		if o.P.CustomFields == nil {
			o.P.CustomFields = verifiable.CustomFields{}
		}
		o.P.CustomFields["note"] = "other"
		return nil
	},
	"vpid": func(d *Desk, o Obj) error {
		o.P.ID = "urn:uuid:other"
		return nil
	},
	"vptype": func(d *Desk, o Obj) error {
		o.P.Type = append(o.P.Type, "VerifiableCredential")
		return nil
	},
	"vpcontext": func(d *Desk, o Obj) error {
		o.P.CustomContext = append(o.P.CustomContext, M{"@vocab": "https://other.example/"})
		return nil
	},
}

// Change an object.
func (d *Desk) Change(name string, o Obj) (err error, known bool) {
	m := credChanges
	if o.P != nil {
		m = vpChanges
	}
	f := m[name]
	if f == nil {
		return nil, false
	}
	return f(d, o), true
}

// Known operation.
func Known(name string, o Obj) bool {
	if o.P != nil {
		return VPOps[name] != nil
	}
	return CredOps[name] != nil
}

// Anew is the verdict of somebody who receives the object.
func (d *Desk) Anew(o Obj) string {
	b, err := o.C.MarshalJSON()
	lib.Must(err, "marshal")
	_, err = verifiable.ParseCredential(b, append(d.Parse[:len(d.Parse):len(d.Parse)], verifiable.WithCredDisableValidation())...)
	return verdict(err)
}

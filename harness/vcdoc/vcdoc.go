// Package vcdoc builds plain credential documents and changes them.
package vcdoc

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/trustbloc/vc-go/zzverif/lib"
)

// Terms is an inline context for the members that Base uses.
func Terms() lib.M {
	return lib.M{"claim": "https://ex.org/claim", "num": "https://ex.org/num", "more": "https://ex.org/more",
		"inner": "https://ex.org/inner", "deep": "https://ex.org/deep", "motto": lib.M{"@id": "https://ex.org/motto", "@language": "en"},
		"ExtraType": "https://ex.org/ExtraType", "XStatus": "https://ex.org/XStatus", "name": "https://ex.org/name",
		"seq": lib.M{"@id": "https://ex.org/seq", "@container": "@list"}, "tags": lib.M{"@id": "https://ex.org/tags", "@container": "@set"}}
}

// Base is an unsigned credential of data model 1.1, or 2.0 if v2.
func Base(issuer interface{}, v2 bool, contexts ...interface{}) lib.M {
	ctx := []interface{}{"https://www.w3.org/2018/credentials/v1"}
	from, until := "issuanceDate", "expirationDate"
	if v2 {
		ctx = []interface{}{"https://www.w3.org/ns/credentials/v2"}
		from, until = "validFrom", "validUntil"
	}
	terms := Terms()
	if v2 {
		delete(terms, "name") // defined and protected there
	}
	ctx = append(append(ctx, contexts...), terms)
	return lib.M{"@context": ctx, "id": "urn:uuid:1", "type": []interface{}{"VerifiableCredential", "ExtraType"},
		from: "2020-01-01T00:00:00Z", until: "2090-01-01T00:00:00Z", "issuer": issuer,
		"credentialSubject": lib.M{"id": "did:example:bob", "claim": "value", "num": 7, "seq": []interface{}{"a", "b", "c"},
			"tags": []interface{}{"x", "y", "z"}, "inner": lib.M{"deep": "sea"}, "motto": "go"}}
}

// Clone copies a document.
func Clone(m lib.M) lib.M { return lib.ParseJSON(lib.JSON(m)).(lib.M) }

func either(d lib.M, a, b string) string {
	if _, ok := d["validFrom"]; ok {
		return b
	}
	return a
}

// AppendTo adds to a member that may be a list.
func AppendTo(m lib.M, name string, v interface{}) {
	switch x := m[name].(type) {
	case nil:
		m[name] = v
	case []interface{}:
		m[name] = append(x, v)
	default:
		m[name] = []interface{}{x, v}
	}
}

// Change applies a named change to a document made by Base.
func Change(d lib.M, op string) {
	sub, _ := d["credentialSubject"].(lib.M)
	list := func(n string) []interface{} { l, _ := sub[n].([]interface{}); return l }
	switch op {
	case "setorder":
		l := list("tags")
		l[0], l[2] = l[2], l[0]
	case "undefined":
		d["madeUpMember"] = "x"
	case "subundefined":
		sub["madeUpMember"] = lib.M{"a": 1}
	case "id":
		d["id"] = "urn:uuid:2"
	case "noid":
		delete(d, "id")
	case "issued":
		d[either(d, "issuanceDate", "validFrom")] = "2020-01-01T00:00:01Z"
	case "expires":
		d[either(d, "expirationDate", "validUntil")] = "2095-01-01T00:00:00Z"
	case "noexpires":
		delete(d, either(d, "expirationDate", "validUntil"))
	case "subject":
		sub["id"] = "did:example:eve"
	case "nosubject":
		delete(sub, "id")
	case "claim":
		sub["claim"] = "Value"
	case "claimtype":
		sub["num"] = "7"
	case "noclaim":
		delete(sub, "claim")
	case "addclaim":
		sub["more"] = "x"
	case "nested":
		sub["inner"].(lib.M)["deep"] = "space"
	case "addnested":
		sub["inner"].(lib.M)["more"] = "x"
	case "listorder":
		l := list("seq")
		l[0], l[1] = l[1], l[0]
	case "listdrop":
		sub["seq"] = list("seq")[:2]
	case "setdrop":
		sub["tags"] = list("tags")[:2]
	case "types":
		AppendTo(d, "type", "XStatus")
	case "notype":
		d["type"] = "VerifiableCredential"
	case "status":
		d["credentialStatus"] = lib.M{"id": "urn:x", "type": "XStatus"}
	case "context":
		AppendTo(d, "@context", lib.M{"claim": "https://ex.org/other"})
	case "lang":
		sub["motto"] = lib.M{"@value": "go", "@language": "fr"}
	}
}

// Reorder writes the members of the outer object in reverse order.
func Reorder(b []byte) []byte {
	var m map[string]json.RawMessage
	lib.Must(json.Unmarshal(b, &m), "reorder")
	keys := []string{"proof", "type", "issuer", "id", "issuanceDate", "expirationDate", "credentialSubject", "@context"}
	var out []string
	for _, k := range keys {
		if v, ok := m[k]; ok {
			out = append(out, fmt.Sprintf("%q: %s", k, v))
			delete(m, k)
		}
	}
	for k, v := range m {
		out = append(out, fmt.Sprintf("%q: %s", k, v))
	}
	return []byte(" { " + strings.Join(out, " ,\n") + " } ")
}

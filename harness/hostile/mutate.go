package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/trustbloc/vc-go/zzverif/lib"
)

type (
	L = []interface{}
	M = lib.M
)

// walk lists every position of a document with the kind of value it holds.
func walk(v interface{}, p []string, f func(p []string, k string)) {
	f(p, kind(v))
	switch x := v.(type) {
	case M:
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			walk(x[k], append(p[:len(p):len(p)], k), f)
		}
	case L:
		for i, e := range x {
			walk(e, append(p[:len(p):len(p)], strconv.Itoa(i)), f)
		}
	}
}

func kind(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "null"
	case M:
		return "object"
	case L:
		return "list"
	case string:
		if x == "" {
			return "empty"
		}
		return "text"
	case bool:
		return "flag"
	}
	return "number"
}

type gone struct{}

// change is what a mutation makes of a value.
func change(m string, v interface{}) interface{} {
	s, _ := v.(string)
	n := len(s)
	switch m {
	case "gone":
		return gone{}
	case "null":
		return nil
	case "true":
		return true
	case "zero":
		return 0
	case "neg":
		return -1
	case "big":
		return json.Number("1e400")
	case "large":
		return json.Number("99999999999999999999")
	case "frac":
		return 1.5
	case "empty":
		return ""
	case "word":
		return "word"
	case "url":
		return "https://ex.org/x"
	case "date":
		return "2020-01-01T00:00:00Z"
	case "did":
		return "did:"
	case "hash":
		return "#"
	case "frag":
		return "#x"
	case "colon":
		return ":"
	case "pct":
		return "%zz"
	case "nul":
		return "a\x00b"
	case "z":
		return "z"
	case "u":
		return "u"
	case "dots":
		return "a.b.c"
	case "tildes":
		return "~~~"
	case "b64":
		return "AAAA"
	case "keyword":
		return "@type"
	case "blank":
		return "_:b0"
	case "unicode":
		return "\u2028\ufffd\U0001F600"
	case "data":
		return "data:"
	case "databad":
		return "data:application/vc+jwt,"
	case "long":
		return strings.Repeat("long ", 20000)
	case "obj":
		return M{}
	case "list":
		return L{}
	case "wrap":
		return L{v}
	case "wrapid":
		return M{"id": v}
	case "wraptype":
		return M{"type": v}
	case "value":
		return M{"@value": v}
	case "set":
		return M{"@set": v}
	case "ldlist":
		return M{"@list": L{v, L{v}}}
	case "graph":
		return M{"@graph": v}
	case "reverse":
		return M{"@reverse": M{"x": v}}
	case "context":
		return M{"@context": v}
	case "included":
		return M{"@included": v, "@id": 1}
	case "idnum":
		return M{"id": 1, "type": 2}
	case "nulls":
		return L{nil}
	case "nest":
		return L{L{v}}
	case "mixed":
		return L{v, 1, nil, "x", M{}, L{}}
	case "twice":
		return L{v, v}
	case "deep":
		var d interface{} = v
		for i := 0; i < 2000; i++ {
			d = L{d}
		}
		return d
	case "deepobj":
		d := v
		for i := 0; i < 60; i++ { // canonical form takes time that grows steeply with the depth of objects
			d = M{"a": d}
		}
		return d
	case "many":
		l := L{}
		for i := 0; i < 300; i++ {
			l = append(l, v)
		}
		return l
	case "half":
		return s[:n/2]
	case "cut1":
		if n > 0 {
			return s[:n-1]
		}
		return "x"
	case "longer":
		return s + "A"
	case "double":
		return s + s
	case "flip":
		if n > 0 && s[0] == 'A' {
			return "B" + s[1:]
		}
		if n > 0 {
			return "A" + s[1:]
		}
		return "A"
	case "dotless":
		return strings.ReplaceAll(s, ".", "")
	case "spaced":
		return " " + s + "\n"
	case "upper":
		return strings.ToUpper(s)
	case "nofrag":
		if i := strings.IndexAny(s, "#:"); i >= 0 {
			return s[:i]
		}
		return s + "#"
	}
	lib.Fatalf("no mutation %q", m)
	return nil
}

// edit returns a document with the value at p changed.
func edit(v interface{}, p []string, m string) interface{} {
	if len(p) == 0 {
		return change(m, v)
	}
	switch x := v.(type) {
	case M:
		e, ok := x[p[0]]
		if !ok {
			lib.Fatalf("no member %q", p[0])
		}
		out := M{}
		for k, y := range x {
			out[k] = y
		}
		out[p[0]] = edit(e, p[1:], m)
		if _, g := out[p[0]].(gone); g {
			delete(out, p[0])
		}
		return out
	case L:
		i, err := strconv.Atoi(p[0])
		if err != nil || i >= len(x) {
			lib.Fatalf("no item %q", p[0])
		}
		out := append(L{}, x...)
		out[i] = edit(x[i], p[1:], m)
		if _, g := out[i].(gone); g {
			out = append(out[:i:i], out[i+1:]...)
		}
		return out
	}
	lib.Fatalf("no position %v in %T", p, v)
	return nil
}

// spoil changes bytes at a place given in sixteenths.
func spoil(b []byte, op string, at int) []byte {
	n := len(b)
	i := n * at / 16
	ins := func(s string) []byte { return []byte(string(b[:i]) + s + string(b[i:])) }
	put := func(s string) []byte {
		if i+1 > n {
			return append(b[:n:n], s...)
		}
		return []byte(string(b[:i]) + s + string(b[i+1:]))
	}
	switch op {
	case "cut":
		return b[:i:i]
	case "head":
		return append([]byte{}, b[i:]...)
	case "drop":
		return put("")
	case "dup":
		return append(b[:n:n], b...)
	case "swap":
		return append(append([]byte{}, b[i:]...), b[:i]...)
	case "nul":
		return put("\x00")
	case "ff":
		return put("\xff")
	case "tilde":
		return ins("~")
	case "dot":
		return ins(".")
	case "quote":
		return put(`"`)
	case "open":
		return ins("{")
	case "close":
		return ins("]}")
	case "bom":
		return ins("\xef\xbb\xbf")
	case "hole": // the sixteenth is missing
		j := min(i+n/16+1, n)
		return []byte(string(b[:i]) + string(b[j:]))
	case "zeros":
		j := min(i+n/16+1, n)
		return []byte(string(b[:i]) + strings.Repeat("\x00", j-i) + string(b[j:]))
	case "length": // as a CBOR length
		return put("\x9b\xff\xff\xff\xff\xff\xff\xff\xff")
	case "bytes":
		return put("\x5b\x7f\xff\xff\xff\xff\xff\xff\xff")
	case "tag":
		return ins("\xc2\xd8\x20\xc0")
	case "members": // every member occurs twice
		return []byte(strings.ReplaceAll(string(b), "{\"", `{"id":{"x":[1]},"type":7,"`))
	case "deep":
		return ins(strings.Repeat("[", 20000))
	case "deepcbor":
		return ins(strings.Repeat("\x81", 20000))
	case "longer":
		return ins(strings.Repeat("A", 20000))
	case "quoted":
		return lib.JSON(string(b))
	case "none":
		return b
	}
	lib.Fatalf("no way %q to spoil bytes", op)
	return nil
}

func show(p []string) string { return fmt.Sprint("/", strings.Join(p, "/")) }

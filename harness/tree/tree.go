// Package tree turns the claim trees of the specifications into JSON values and back.
package tree

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	gojson "github.com/go-jose/go-jose/v3/json"

	"github.com/trustbloc/vc-go/zzverif/ident"
)

// Node of a claim tree.
type Node struct {
	K  string `json:"k"`
	ID int    `json:"id"`
	Ch []Mem  `json:"ch"`
	El []Node `json:"el"`
}

// Mem is an object member.
type Mem struct {
	N string `json:"n"`
	V Node   `json:"v"`
}

// Concrete maps leaf ids to unique values and claim names to concrete ones.
type Concrete struct {
	vals  map[int]interface{}
	names map[string]string
	r     *rand.Rand
	Fancy bool
}

var pool = []string{"given_name", "@x", "名前", "_x", "sub-type", "familyName", "A", "x y", "degree", "e-mail", "Q", "_SD", "..", "alg"}

// NewConcrete picks values.
func NewConcrete(r *rand.Rand, rename bool) *Concrete {
	c := &Concrete{vals: map[int]interface{}{}, names: map[string]string{}, r: r}
	p := r.Perm(len(pool))
	for i, n := range []string{"a", "b", "c", "x", "y", "z"} {
		if rename {
			c.names[n] = pool[p[i]]
		} else {
			c.names[n] = n
		}
	}
	return c
}

// Name of a claim.
func (c *Concrete) Name(n string) string {
	if m, ok := c.names[n]; ok {
		return m
	}
	return n
}

// Path in concrete names.
func (c *Concrete) Path(p string) string {
	parts := strings.Split(p, ".")
	for i, x := range parts {
		name, idx := x, ""
		if j := strings.Index(x, "["); j >= 0 {
			name, idx = x[:j], x[j:]
		}
		parts[i] = c.Name(name) + idx
	}
	return strings.Join(parts, ".")
}

// Val of a leaf.
func (c *Concrete) Val(id int) interface{} {
	if v, ok := c.vals[id]; ok {
		return v
	}
	var v interface{}
	switch c.r.Intn(7) {
	case 0:
		v = float64(1000000 + id*1000 + c.r.Intn(1000))
	case 1:
		v = float64(id) + 0.25 + float64(c.r.Intn(1000))*4
	case 2:
		v = fmt.Sprintf("v%d <&> ~é世%d", id, c.r.Int63())
	case 3:
		v = fmt.Sprintf("did:example:%d%d", id, c.r.Int63())
	case 4:
		v = fmt.Sprintf("%d\"\\\n%d", id, c.r.Int63())
	case 5:
		v = []interface{}{true, false, "", float64(0)}[c.r.Intn(4)]
	default:
		v = fmt.Sprintf("leaf-%d-%d", id, c.r.Int63())
	}
	c.vals[id] = v
	return v
}

// Unique reports whether the leaf's value identifies it.
func (c *Concrete) Unique(id int) bool {
	s, ok := c.Val(id).(string)
	return ok && s != ""
}

// JSON value of a node.
func (c *Concrete) JSON(n Node) interface{} {
	switch n.K {
	case "p":
		return c.Val(n.ID)
	case "o":
		m := map[string]interface{}{}
		for _, x := range n.Ch {
			m[c.Name(x.N)] = c.JSON(x.V)
		}
		return m
	case "a":
		a := []interface{}{}
		for _, x := range n.El {
			a = append(a, c.JSON(x))
		}
		return a
	}
	return nil
}

// Norm passes a value through JSON (tokens carry numbers as go-jose json.Number, which only its encoder knows).
func Norm(v interface{}) interface{} {
	b, err := gojson.Marshal(v)
	if err != nil {
		return err.Error()
	}
	var o interface{}
	_ = json.Unmarshal(b, &o)
	return o
}

// Eq compares JSON values.
func Eq(a, b interface{}) bool { return reflect.DeepEqual(Norm(a), Norm(b)) }

// Show a JSON value.
func Show(v interface{}) string {
	b, err := gojson.Marshal(v)
	if err != nil {
		return err.Error()
	}
	return string(b)
}

// Digest of a disclosure under an _sd_alg name.
func Digest(alg, disclosure string) string {
	switch strings.ToLower(alg) {
	case "sha-384":
		h := sha512.Sum384([]byte(disclosure))
		return ident.B64(h[:])
	case "sha-512":
		h := sha512.Sum512([]byte(disclosure))
		return ident.B64(h[:])
	}
	h := sha256.Sum256([]byte(disclosure))
	return ident.B64(h[:])
}

// Walk is an independent reading of a sealed payload with its disclosures.
type Walk struct {
	By      map[string]string // digest -> path of the hidden claim
	Disc    map[string]string // path -> disclosure
	Value   map[string]interface{}
	Names   map[string]string
	Decoys  int
	Clear   map[string]int // clear string leaves
	Problem string
	salts   map[string]bool
	digs    map[string][]interface{}
	raw     map[string]string
}

// Open decodes the disclosures and walks the payload.
func Open(payload interface{}, disclosures []string, alg string) *Walk {
	w := &Walk{By: map[string]string{}, Disc: map[string]string{}, Value: map[string]interface{}{}, Names: map[string]string{},
		salts: map[string]bool{}, digs: map[string][]interface{}{}, raw: map[string]string{}}
	for _, d := range disclosures {
		b, err := ident.UnB64(d)
		var arr []interface{}
		if err != nil || json.Unmarshal(b, &arr) != nil || len(arr) < 2 || len(arr) > 3 {
			w.Problem = "undecodable disclosure " + d
			return w
		}
		salt, ok := arr[0].(string)
		if !ok || w.salts[salt] {
			w.Problem = "salt missing or used twice"
			return w
		}
		if rb, e := ident.UnB64(salt); e != nil || len(rb) < 16 {
			w.Problem = "salt shorter than 128 bits: " + salt
			return w
		}
		w.salts[salt] = true
		dg := Digest(alg, d)
		w.digs[dg] = arr
		w.raw[dg] = d
	}
	w.walk(payload, "")
	if w.Problem == "" && len(w.By) != len(disclosures) {
		w.Problem = fmt.Sprintf("%d disclosures, %d of them referenced", len(disclosures), len(w.By))
	}
	return w
}

func (w *Walk) hit(d, path string, arr []interface{}) {
	if _, dup := w.By[d]; dup {
		w.Problem = "digest used twice"
	}
	w.By[d] = path
	w.Disc[path] = w.raw[d]
	w.Value[path] = w.full(arr[len(arr)-1])
	w.walk(arr[len(arr)-1], path)
}

func sub(p, n string) string {
	if p == "" {
		return n
	}
	return p + "." + n
}

func (w *Walk) walk(v interface{}, path string) {
	switch t := v.(type) {
	case map[string]interface{}:
		if sd, ok := t["_sd"].([]interface{}); ok {
			for _, x := range sd {
				d, _ := x.(string)
				arr, ok := w.digs[d]
				if !ok {
					w.Decoys++
					continue
				}
				if len(arr) != 3 {
					w.Problem = "array element disclosure in an object"
					return
				}
				n, _ := arr[1].(string)
				w.Names[sub(path, n)] = n
				w.hit(d, sub(path, n), arr)
			}
		}
		for k, x := range t {
			if k != "_sd" {
				w.walk(x, sub(path, k))
			}
		}
	case []interface{}:
		for i, x := range t {
			p := fmt.Sprintf("%s[%d]", path, i)
			if m, ok := x.(map[string]interface{}); ok && len(m) == 1 && m["..."] != nil {
				d, _ := m["..."].(string)
				arr, ok := w.digs[d]
				if !ok {
					w.Decoys++
					continue
				}
				if len(arr) != 2 {
					w.Problem = "object disclosure in an array"
					return
				}
				w.hit(d, p, arr)
				continue
			}
			w.walk(x, p)
		}
	}
}

// full restores a value with every disclosure.
func (w *Walk) full(v interface{}) interface{} { return w.restore(v, true) }

func (w *Walk) restore(v interface{}, open bool) interface{} {
	switch t := v.(type) {
	case map[string]interface{}:
		o := map[string]interface{}{}
		for k, x := range t {
			if k == "_sd" {
				continue
			}
			r := w.restore(x, open)
			if a, ok := r.([]interface{}); ok && len(a) == 0 {
				if b, _ := x.([]interface{}); len(b) > 0 {
					continue
				}
			}
			o[k] = r
		}
		if sd, ok := t["_sd"].([]interface{}); ok && open {
			for _, x := range sd {
				d, _ := x.(string)
				if arr, ok := w.digs[d]; ok && len(arr) == 3 {
					n, _ := arr[1].(string)
					o[n] = w.restore(arr[2], open)
				}
			}
		}
		return o
	case []interface{}:
		o := []interface{}{}
		for _, x := range t {
			if m, ok := x.(map[string]interface{}); ok && len(m) == 1 && m["..."] != nil {
				d, _ := m["..."].(string)
				if arr, ok := w.digs[d]; ok && open {
					o = append(o, w.restore(arr[len(arr)-1], open))
				}
				continue
			}
			o = append(o, w.restore(x, open))
		}
		return o
	}
	return v
}

// Restored payload (everything disclosed), and what is visible without any disclosure.
func (w *Walk) Restored(payload interface{}) interface{} { return w.restore(payload, true) }

// Base is the payload without hidden claims.
func (w *Walk) Base(payload interface{}) interface{} { return w.restore(payload, false) }

// Paths of hidden claims, sorted.
func (w *Walk) Paths() []string {
	var o []string
	for _, p := range w.By {
		o = append(o, p)
	}
	sort.Strings(o)
	return o
}

// Conformance harness for the in-memory store: replays histories printed by TLC (MemStoreMC), and records
// sequential traces (MemStoreTrace) and concurrent call/return histories (MemStoreLin) of the real provider.
package main

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	spi "github.com/trustbloc/kms-go/spi/storage"

	"github.com/trustbloc/vc-go/legacy/mem"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type tag struct {
	N string `json:"n"`
	V string `json:"v"`
}

type bop struct {
	K    string `json:"k"`
	V    string `json:"v"`
	Tags []tag  `json:"tags"`
}

type call struct {
	Op    string      `json:"op"`
	Name  string      `json:"name"`
	H     int         `json:"h"`
	K     string      `json:"k"`
	V     string      `json:"v"`
	Tags  interface{} `json:"tags"`
	Ks    []string    `json:"ks"`
	Bad   bool        `json:"bad"`
	Expr  string      `json:"expr,omitempty"`
	Cs    []tag       `json:"cs"`
	Ops   []bop       `json:"ops"`
	after []call
}

type res struct {
	OK bool        `json:"ok"`
	V  interface{} `json:"v"`
}

type world struct {
	mu      sync.Mutex
	p       *mem.Provider
	handles []spi.Store
	seq     bool // one caller
	kept    []kept
}

type kept struct {
	op, was string
	show    func() interface{}
}

func (w *world) id(s spi.Store) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i, h := range w.handles {
		if h == s {
			return i + 1
		}
	}
	w.handles = append(w.handles, s)
	return len(w.handles)
}

func (w *world) h(i int) spi.Store {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.handles[i-1]
}

func toTags(v interface{}) []tag {
	switch x := v.(type) {
	case []tag:
		return x
	case []interface{}:
		var r []tag
		for _, e := range x {
			m := e.(map[string]interface{})
			r = append(r, tag{m["n"].(string), m["v"].(string)})
		}
		return r
	}
	return nil
}

func spiTags(ts []tag) []spi.Tag {
	var r []spi.Tag
	for _, t := range ts {
		r = append(r, spi.Tag{Name: t.N, Value: t.V})
	}
	return r
}

func fromTags(ts []spi.Tag) []tag {
	r := []tag{}
	for _, t := range ts {
		r = append(r, tag{t.Name, t.Value})
	}
	return r
}

func val(s string) []byte {
	if s == "NIL" {
		return nil
	}
	return []byte(s)
}

func unval(b []byte) string {
	if b == nil {
		return "NIL"
	}
	return string(b)
}

func errRes(err error) res {
	switch {
	case errors.Is(err, spi.ErrDataNotFound):
		return res{false, "notfound"}
	case errors.Is(err, spi.ErrStoreNotFound):
		return res{false, "nostore"}
	}
	return res{false, "other"}
}

func done(err error) res {
	if err != nil {
		return errRes(err)
	}
	return res{true, 0}
}

func strTags(v interface{}) []string {
	r := []string{}
	switch x := v.(type) {
	case []string:
		return x
	case []interface{}:
		for _, e := range x {
			r = append(r, e.(string))
		}
	}
	return r
}

func expr(c call) string {
	if c.Bad {
		return c.Expr
	}
	var parts []string
	for _, x := range c.Cs {
		if x.V == "" {
			parts = append(parts, x.N)
		} else {
			parts = append(parts, x.N+":"+x.V)
		}
	}
	return strings.Join(parts, "&&")
}

type qrow struct {
	K    string `json:"k"`
	V    string `json:"v"`
	Tags []tag  `json:"tags"`
}

func drain(it spi.Iterator) res {
	rows := []qrow{}
	total, err := it.TotalItems()
	if err != nil {
		return errRes(err)
	}
	for {
		more, err := it.Next()
		if err != nil {
			return errRes(err)
		}
		if !more {
			break
		}
		k, err1 := it.Key()
		v, err2 := it.Value()
		t, err3 := it.Tags()
		if err1 != nil || err2 != nil || err3 != nil {
			return res{false, "iterator"}
		}
		rows = append(rows, qrow{k, unval(v), fromTags(t)})
	}
	if total != len(rows) {
		return res{false, fmt.Sprintf("TotalItems %d of %d", total, len(rows))}
	}
	if more, _ := it.Next(); more {
		return res{false, "iterator continues after its end"}
	}
	if _, err := it.Key(); err == nil && total > 0 {
		return res{false, "exhausted iterator still yields a key"}
	}
	if err := it.Close(); err != nil {
		return errRes(err)
	}
	sort.Slice(rows, func(i, j int) bool { return rows[i].K < rows[j].K })
	return res{true, rows}
}

// keep notes what a call returned; later calls do not change it.
func (w *world) keep(op string, show func() interface{}) {
	if w.seq {
		w.kept = append(w.kept, kept{op, string(lib.JSON(show())), show})
	}
}

func (w *world) changed() (string, bool) {
	for _, k := range w.kept {
		if now := string(lib.JSON(k.show())); now != k.was {
			return fmt.Sprintf("%s returned %s, which later calls changed to %s", k.op, k.was, now), true
		}
	}
	return "", false
}

// exec performs one call. For a query it returns the iterator drained after mid().
func (w *world) exec(c call, mid func()) res {
	switch c.Op {
	case "open":
		s, err := w.p.OpenStore(c.Name)
		if err != nil {
			return errRes(err)
		}
		return res{true, w.id(s)}
	case "setcfg":
		return done(w.p.SetStoreConfig(c.Name, spi.StoreConfiguration{TagNames: strTags(c.Tags)}))
	case "getcfg":
		cfg, err := w.p.GetStoreConfig(c.Name)
		if err != nil {
			return errRes(err)
		}
		w.keep("getcfg", func() interface{} { return cfg.TagNames })
		t := append([]string{}, cfg.TagNames...)
		if t == nil {
			t = []string{}
		}
		return res{true, t}
	case "stores":
		ids := []int{}
		for _, s := range w.p.GetOpenStores() {
			ids = append(ids, w.id(s))
		}
		sort.Ints(ids)
		return res{true, ids}
	case "pclose":
		return done(w.p.Close())
	case "ping":
		return done(w.p.Ping())
	}
	s := w.h(c.H)
	switch c.Op {
	case "close":
		return done(s.Close())
	case "put":
		v := val(c.V)
		return done(s.Put(c.K, v, spiTags(toTags(c.Tags))...))
	case "get":
		v, err := s.Get(c.K)
		if err != nil {
			return errRes(err)
		}
		w.keep("get", func() interface{} { return unval(v) })
		return res{true, unval(v)}
	case "gettags":
		v, err := s.GetTags(c.K)
		if err != nil {
			return errRes(err)
		}
		w.keep("gettags", func() interface{} { return fromTags(v) })
		return res{true, fromTags(v)}
	case "getbulk":
		v, err := s.GetBulk(c.Ks...)
		if err != nil {
			return errRes(err)
		}
		r := []string{}
		for _, b := range v {
			r = append(r, unval(b))
		}
		w.keep("getbulk", func() interface{} {
			r := []string{}
			for _, b := range v {
				r = append(r, unval(b))
			}
			return r
		})
		return res{true, r}
	case "query":
		it, err := s.Query(expr(c))
		if err != nil {
			return errRes(err)
		}
		if mid != nil {
			mid()
		}
		return drain(it)
	case "delete":
		return done(s.Delete(c.K))
	case "batch":
		var ops []spi.Operation
		for _, o := range c.Ops {
			ops = append(ops, spi.Operation{Key: o.K, Value: val(o.V), Tags: spiTags(o.Tags)})
		}
		return done(s.Batch(ops))
	case "flush":
		return done(s.Flush())
	}
	lib.Fatalf("unknown op %q", c.Op)
	return res{}
}

func norm(v interface{}) interface{} {
	b := lib.JSON(v)
	return lib.ParseJSON(b)
}

func sortedSet(v interface{}) []string {
	var r []string
	if a, ok := v.([]interface{}); ok {
		for _, e := range a {
			r = append(r, string(lib.JSON(e)))
		}
	}
	sort.Strings(r)
	return r
}

func agrees(op string, spec, got res) bool {
	if spec.OK != got.OK {
		return false
	}
	if !spec.OK {
		sent := func(v interface{}) bool { return v == "notfound" || v == "nostore" }
		if sent(spec.V) || sent(got.V) {
			return spec.V == got.V
		}
		return true
	}
	switch op {
	case "query", "stores":
		return reflect.DeepEqual(sortedSet(norm(spec.V)), sortedSet(norm(got.V)))
	case "open", "getcfg", "get", "gettags", "getbulk":
		return reflect.DeepEqual(norm(spec.V), norm(got.V))
	}
	return true
}

func replay(t *lib.T) {
	var s struct {
		Pre  string
		Hist []struct {
			Call call
			Res  res
		}
		Final struct {
			Open map[string]int
			Data [][]qrow
		}
	}
	t.Decode(&s)
	w := &world{p: mem.NewProvider(), seq: true}
	if s.Pre == "data" {
		w.exec(call{Op: "open", Name: "s1"}, nil)
	}
	for i, st := range s.Hist {
		got := w.exec(st.Call, nil)
		t.Run()
		if !agrees(st.Call.Op, st.Res, got) {
			t.Failf("memstore:"+st.Call.Op, "step %d: %s returned %s, specification says %s; history %s", i,
				lib.JSON(st.Call), lib.JSON(got), lib.JSON(st.Res), t.Raw)
			return
		}
	}
	if what, bad := w.changed(); bad {
		t.Failf("memstore:returned", "%s; history %s", what, t.Raw)
		return
	}
	wantOpen := []int{}
	for _, id := range s.Final.Open {
		if id != 0 {
			wantOpen = append(wantOpen, id)
		}
	}
	sort.Ints(wantOpen)
	if got := w.exec(call{Op: "stores"}, nil); !reflect.DeepEqual(norm(got.V), norm(wantOpen)) {
		t.Failf("memstore:openstores", "after history %s: open stores %v, specification says %v", t.Raw, got.V, wantOpen)
		return
	}
	for n, id := range s.Final.Open {
		if id == 0 {
			continue
		}
		st := w.h(id)
		var ks []string
		for _, r := range s.Final.Data[id-1] {
			ks = append(ks, r.K)
			v, err := st.Get(r.K)
			tg, err2 := st.GetTags(r.K)
			if err != nil || err2 != nil || unval(v) != r.V || !reflect.DeepEqual(norm(fromTags(tg)), norm(append([]tag{}, r.Tags...))) {
				t.Failf("memstore:final", "after history %s: store %s key %s holds %q %v, specification says %v", t.Raw, n, r.K, v, tg, r)
				return
			}
		}
		for _, k := range []string{"k1", "k2", "k3"} {
			has := false
			for _, x := range ks {
				has = has || x == k
			}
			if _, err := st.Get(k); !has && !errors.Is(err, spi.ErrDataNotFound) {
				t.Failf("memstore:final", "after history %s: key %s should be absent (err %v)", t.Raw, k, err)
				return
			}
		}
	}
}

// ---- random traces

var keys = []string{"k1", "k2", "k3", "k4"}
var tagSets = [][]tag{{}, {{"t1", "a"}}, {{"t1", "b"}, {"t2", "a"}}, {{"t2", ""}}, {{"t1", "a"}, {"t2", "b"}, {"t3", "a"}}}
var queries = [][]tag{{{"t1", ""}}, {{"t1", "a"}}, {{"t1", "b"}, {"t2", "a"}}, {{"t1", ""}, {"t2", ""}},
	{{"t1", "a"}, {"t2", "b"}, {"t3", "a"}}, {{"t1", "a"}, {"t1", "b"}}, {{"t2", "a"}}, {{"t3", ""}, {"t1", "a"}}}

func pick[X any](r *rand.Rand, xs []X) X { return xs[r.Intn(len(xs))] }

func randTags(r *rand.Rand) []tag {
	if r.Intn(25) == 0 {
		return []tag{{"b:d", "a"}}
	}
	if r.Intn(25) == 0 {
		return []tag{{"t1", "a"}, {"t2", "x:y"}}
	}
	if r.Intn(3) == 0 {
		ts := []tag{}
		for i := r.Intn(5); i > 0; i-- {
			ts = append(ts, tag{pick(r, []string{"t1", "t2", "t3"}), pick(r, []string{"", "a", "b"})})
		}
		return ts
	}
	return pick(r, tagSets)
}

var ctr int64

func freshVal(r *rand.Rand) string {
	if r.Intn(20) == 0 {
		return ""
	}
	return fmt.Sprintf("v%d", atomic.AddInt64(&ctr, 1))
}

func key(r *rand.Rand) string {
	if r.Intn(30) == 0 {
		return ""
	}
	return pick(r, keys)
}

func randData(r *rand.Rand, h int) call {
	switch r.Intn(14) {
	case 0, 1, 2, 3:
		v := freshVal(r)
		if r.Intn(30) == 0 {
			v = "NIL"
		}
		return call{Op: "put", H: h, K: key(r), V: v, Tags: randTags(r)}
	case 4, 5:
		return call{Op: "get", H: h, K: key(r)}
	case 6:
		return call{Op: "gettags", H: h, K: key(r)}
	case 7:
		n := r.Intn(4)
		c := call{Op: "getbulk", H: h, Ks: []string{}}
		for i := 0; i < n; i++ {
			c.Ks = append(c.Ks, key(r))
		}
		return c
	case 8, 9, 10:
		if r.Intn(15) == 0 {
			return call{Op: "query", H: h, Bad: true, Expr: pick(r, []string{"", "a:b:c", "t1&&a:b:c"}), Cs: []tag{}}
		}
		return call{Op: "query", H: h, Cs: pick(r, queries)}
	case 11:
		return call{Op: "delete", H: h, K: key(r)}
	case 12:
		c := call{Op: "batch", H: h, Ops: []bop{}}
		for i := r.Intn(5); i > 0; i-- {
			v := freshVal(r)
			if r.Intn(3) == 0 {
				v = "NIL"
			}
			c.Ops = append(c.Ops, bop{key(r), v, randTags(r)})
		}
		return c
	}
	return call{Op: "flush", H: h}
}

func fill(c call) call {
	if c.Tags == nil {
		c.Tags = []tag{}
	}
	if c.Ks == nil {
		c.Ks = []string{}
	}
	if c.Cs == nil {
		c.Cs = []tag{}
	}
	if c.Ops == nil {
		c.Ops = []bop{}
	}
	return c
}

func genSeq(emit func(string, interface{}), count int) {
	r := rand.New(rand.NewSource(*lib.Seed))
	for n := 0; n < count; n++ {
		w := &world{p: mem.NewProvider(), seq: true}
		id := fmt.Sprintf("s%d", n)
		open := map[string]int{}
		type ev struct {
			Call call   `json:"call"`
			Res  res    `json:"res"`
			Op   string `json:"op"`
		}
		var do func(c call, depth int)
		do = func(c call, depth int) {
			c = fill(c)
			// a query's iterator may be drained only after later operations: it is a snapshot
			var pendEv []func()
			mid := func() {
				if depth == 0 && r.Intn(2) == 0 {
					for i := r.Intn(3); i > 0; i-- {
						c2 := fill(randData(r, c.H))
						r2 := w.exec(c2, nil)
						pendEv = append(pendEv, func() { emit(id, ev{c2, r2, c2.Op}) })
					}
				}
			}
			got := w.exec(c, mid)
			emit(id, ev{c, got, c.Op})
			for _, f := range pendEv {
				f()
			}
			switch c.Op {
			case "open":
				if got.OK {
					open[strings.ToLower(c.Name)] = got.V.(int)
				}
			case "pclose":
				open = map[string]int{}
			case "close":
				for k, v := range open {
					if v == c.H {
						delete(open, k)
					}
				}
			}
		}
		steps := 60 + r.Intn(60)
		for i := 0; i < steps; i++ {
			x := r.Intn(20)
			var hs []int
			for _, v := range open {
				hs = append(hs, v)
			}
			sort.Ints(hs)
			switch {
			case x == 0 || len(hs) == 0:
				do(call{Op: "open", Name: pick(r, []string{"s1", "S1", "s2", "S2", "s1", ""})}, 0)
			case x == 1:
				do(call{Op: "setcfg", Name: pick(r, []string{"s1", "S2", "nope"}), Tags: pick(r, [][]string{{"t1"}, {"t2", "t1"}, {"b:d"}, {}})}, 0)
			case x == 2:
				do(call{Op: "getcfg", Name: pick(r, []string{"S1", "s2", "nope"})}, 0)
			case x == 3:
				do(call{Op: "stores"}, 0)
			case x == 4 && r.Intn(3) == 0:
				if r.Intn(2) == 0 {
					do(call{Op: "pclose"}, 0)
				} else {
					do(call{Op: "close", H: 1 + r.Intn(len(w.handles))}, 0)
				}
			default:
				do(randData(r, pick(r, hs)), 0)
			}
		}
		if what, bad := w.changed(); bad { // no call has this result
			emit(id, ev{fill(call{Op: "getcfg", Name: "nope"}), res{true, []string{what}}, "getcfg"})
		}
	}
}

func genConc(emit func(string, interface{}), count int) {
	seed := rand.New(rand.NewSource(*lib.Seed))
	for n := 0; n < count; n++ {
		w := &world{p: mem.NewProvider()}
		id := fmt.Sprintf("c%d", n)
		type ev struct {
			K    string `json:"k"`
			P    int    `json:"p"`
			Call *call  `json:"call,omitempty"`
			Res  *res   `json:"res,omitempty"`
			Op   string `json:"op"`
		}
		var mu sync.Mutex
		var evs []ev
		one := func(p int, c call) res {
			c = fill(c)
			mu.Lock()
			evs = append(evs, ev{K: "call", P: p, Call: &c, Op: c.Op})
			mu.Unlock()
			r := w.exec(c, nil)
			mu.Lock()
			evs = append(evs, ev{K: "ret", P: p, Res: &r, Op: c.Op})
			mu.Unlock()
			return r
		}
		lifecycle := n%4 == 3
		one(1, call{Op: "open", Name: "s1"})
		np := 2 + seed.Intn(3)
		steps := 4 + seed.Intn(4)
		if np == 4 {
			steps = 4
		}
		var wg sync.WaitGroup
		var gate int32
		seeds := make([]int64, np)
		for i := range seeds {
			seeds[i] = seed.Int63()
		}
		for p := 1; p <= np; p++ {
			wg.Add(1)
			go func(p int) {
				defer wg.Done()
				r := rand.New(rand.NewSource(seeds[p-1]))
				for atomic.LoadInt32(&gate) == 0 {
					runtime.Gosched()
				}
				for i := 0; i < steps; i++ {
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
					if lifecycle {
						switch r.Intn(6) {
						case 0:
							one(p, call{Op: "open", Name: pick(r, []string{"s1", "s2"})})
							continue
						case 1:
							one(p, call{Op: "setcfg", Name: "s1", Tags: pick(r, [][]string{{"t1"}, {"t2", "t1"}, {"b:d"}})})
							continue
						case 2:
							one(p, call{Op: "getcfg", Name: pick(r, []string{"s1", "s2"})})
							continue
						case 3:
							one(p, call{Op: "stores"})
							continue
						}
					}
					one(p, concData(r))
				}
			}(p)
		}
		atomic.StoreInt32(&gate, 1)
		wg.Wait()
		for _, e := range evs {
			emit(id, e)
		}
	}
}

// concData concentrates on two keys moving between tags, so that non-atomic reads show.
func concData(r *rand.Rand) call {
	switch r.Intn(10) {
	case 0, 1, 2:
		return call{Op: "put", H: 1, K: pick(r, keys[:2]), V: freshVal(r), Tags: pick(r, tagSets)}
	case 3, 4:
		return call{Op: "batch", H: 1, Ops: []bop{{"k1", freshVal(r), pick(r, tagSets)}, {"k2", freshVal(r), pick(r, tagSets)}}}
	case 5:
		return call{Op: "getbulk", H: 1, Ks: []string{"k1", "k2"}}
	case 6, 7:
		return call{Op: "query", H: 1, Cs: pick(r, queries)}
	case 8:
		return call{Op: "delete", H: 1, K: pick(r, keys[:2])}
	}
	return call{Op: "gettags", H: 1, K: pick(r, keys[:2])}
}

func main() {
	lib.Main(map[string]func(*lib.T){"replay": replay},
		map[string]func(func(string, interface{}), int){"seq": genSeq, "conc": genConc})
}

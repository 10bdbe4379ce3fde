// Command hostile carries out the behaviours of Hostile.tla: a document of another party, changed where the behaviour
// says, goes through every entry point that takes such documents, and what is accepted is used.
package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"sync/atomic"
	"time"

	"github.com/trustbloc/vc-go/zzverif/desk"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type rec struct {
	Target string
	N      int
	Edits  []struct {
		P []string
		M string
	}
	Raw []struct {
		Op string
		At int
	}
	Expect string
}

// door is an entry point. The first of a target is the one that answers for it.
type door struct {
	name string
	run  func() (desk.Obj, error)
}

type target struct {
	doc   func() interface{}
	build func(doc interface{}) []byte
	doors func(d *desk.Desk, b []byte) []door
}

type outcome struct {
	door, text, key string
}

func handle(t *lib.T) {
	var r rec
	t.Decode(&r)
	tg, ok := targets[r.Target]
	if !ok {
		lib.Fatalf("no target %q", r.Target)
	}
	orig := docOf(r.Target)
	if n := positions(orig); n != r.N {
		lib.Fatalf("%s has %d positions, the specification says %d: run tools/gen_hostile.py", r.Target, n, r.N)
	}
	doc := orig
	where := ""
	for _, e := range r.Edits {
		doc = edit(doc, e.P, e.M)
		where += " " + show(e.P) + ":" + e.M
	}
	if _, g := doc.(gone); g {
		doc = nil
	}
	if hung.Load() { // reported already
		t.Run()
		t.Obs("error")
		return
	}
	b := tg.build(doc)
	for _, x := range r.Raw {
		b = spoil(b, x.Op, x.At)
		where += fmt.Sprintf(" %s@%d", x.Op, x.At)
	}
	t.Run()
	outs := make(chan outcome, 1000)
	done := make(chan int)
	go func() {
		defer close(done)
		d := desk.New()
		for _, dr := range tg.doors(d, b) {
			var o desk.Obj
			var err error
			site, msg, bad := lib.Guard(func() { o, err = dr.run() })
			if bad {
				outs <- outcome{dr.name, msg, "panic:" + site}
				continue
			}
			outs <- outcome{dr.name, fmt.Sprint(err), ""}
			if err != nil {
				continue
			}
			for _, out := range use(t, d, o) {
				outs <- out
			}
		}
	}()
	last := "start"
	collect := func() {
		for {
			select {
			case o := <-outs:
				last = o.door
				if o.key != "" {
					t.Failf(o.key, "%s%s: %s: %s", r.Target, where, o.door, o.text)
				}
				if o.door == "parse" {
					cls := "error"
					if o.text == "<nil>" {
						cls = "result"
					}
					t.Obs(cls)
					if r.Expect == "error" && cls == "result" {
						t.Failf("accepted:"+r.Target, "%s%s: accepted", r.Target, where)
					}
					if len(r.Edits)+len(r.Raw) == 0 && cls == "error" {
						t.Failf("refused:"+r.Target, "%s unchanged: %s", r.Target, o.text)
					}
				}
			default:
				return
			}
		}
	}
	limit := time.After(150 * time.Second)
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-done:
			collect()
			return
		case <-tick.C:
			collect()
		case <-limit:
			collect()
			hung.Store(true)
			t.Failf("hang:"+r.Target, "%s%s: no answer within 150 s after %q", r.Target, where, last)
			return
		}
	}
}

var hung atomic.Bool

// use does with an accepted object what a program does with it.
func use(t *lib.T, d *desk.Desk, o desk.Obj) []outcome {
	var outs []outcome
	try := func(name string, f func() string) {
		var s string
		site, msg, bad := lib.Guard(func() { s = f() })
		switch {
		case bad:
			outs = append(outs, outcome{name, msg, "panic:" + site})
		case strings.HasPrefix(s, "panic: "):
			i := strings.LastIndex(s, " in ")
			outs = append(outs, outcome{name, s, "panic:" + s[i+4:]})
		}
	}
	ops := []string{}
	switch {
	case o.C != nil:
		ops = desk.Ops("plain")
		if *lib.Tier == "thorough" || t.R.Intn(4) == 0 {
			try("exchange", func() string { exchange(d, o.C); return "" })
		}
	case o.P != nil:
		ops = desk.Ops("vp")
		try("match", func() string { match(d, o.P); return "" })
	default:
		return nil
	}
	try("show", func() string { return desk.Show(o) })
	if *lib.Tier != "thorough" && len(ops) > 6 {
		t.R.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		ops = ops[:6]
	}
	for _, op := range ops {
		if op == "first" {
			continue
		}
		try("use "+op, func() string {
			s, res := d.Do(op, o)
			if res.C != nil || res.P != nil {
				desk.Show(res)
			}
			return s
		})
	}
	return outs
}

func positions(v interface{}) int {
	n := 0
	walk(v, nil, func([]string, string) { n++ })
	return n
}

func main() {
	lib.Main(map[string]func(*lib.T){"hostile": handle}, map[string]func(func(string, interface{}), int){
		"positions": func(emit func(string, interface{}), _ int) {
			for name := range targets {
				l := L{}
				walk(docOf(name), nil, func(p []string, k string) { l = append(l, L{append([]string{}, p...), k}) })
				emit(name, l)
			}
		}})
}

func parsed(b []byte) interface{} { return lib.ParseJSON(b) }

func asJSON(doc interface{}) []byte { return lib.JSON(doc) }

func decode(b []byte, v interface{}) error { return json.Unmarshal(b, v) }

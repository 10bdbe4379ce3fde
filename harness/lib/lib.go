// Package lib holds what the conformance harnesses share: reading the behaviours that TLC printed,
// running them in parallel on the real code, and reporting disagreements.
package lib

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync"
)

var (
	Mode    = flag.String("mode", "", "")
	inF     = flag.String("in", "", "")
	outF    = flag.String("out", "", "")
	Seed    = flag.Int64("seed", 1, "")
	Tier    = flag.String("tier", "quick", "")
	par     = flag.Int("par", 8, "")
	journal = flag.String("journal", "", "")
)

// M is a JSON object.
type M = map[string]interface{}

// Result of one behaviour. Runs counts real executions.
type Result struct {
	N    int         `json:"n"`
	OK   bool        `json:"ok"`
	Key  string      `json:"key,omitempty"`
	Msg  string      `json:"msg,omitempty"`
	Obs  interface{} `json:"obs,omitempty"`
	Runs int         `json:"runs,omitempty"`
	Race bool        `json:"race,omitempty"` // a data race was seen while it ran
}

// T is handed to a behaviour handler.
type T struct {
	R    *rand.Rand
	Raw  []byte
	res  Result
	runs int
}

// Failf records a disagreement (the first one counts). key identifies it stably.
func (t *T) Failf(key, f string, a ...interface{}) {
	if t.res.OK {
		t.res.OK = false
		t.res.Key = key
		t.res.Msg = fmt.Sprintf(f, a...)
		if len(t.res.Msg) > 2500 {
			t.res.Msg = t.res.Msg[:2500]
		}
	}
}

// Failed reports whether a disagreement was recorded.
func (t *T) Failed() bool { return !t.res.OK }

// Obs notes what was observed.
func (t *T) Obs(o interface{}) { t.res.Obs = o }

// Run counts one execution of the real code.
func (t *T) Run() { t.runs++ }

// Decode parses the behaviour.
func (t *T) Decode(v interface{}) {
	if err := json.Unmarshal(t.Raw, v); err != nil {
		Fatalf("decode behaviour: %v: %s", err, t.Raw)
	}
}

// Fatalf: the harness itself cannot work.
func Fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "HARNESS-ERROR "+f+"\n", a...)
	os.Exit(3)
}

// Must stops the harness on error.
func Must(err error, what string) {
	if err != nil {
		Fatalf("%s: %v\n%s", what, err, debug.Stack())
	}
}

// PanicSite finds the innermost repository frame of a panic.
func PanicSite(stack string) string {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "github.com/trustbloc/vc-go/") && !strings.Contains(l, "/zzverif/") {
			l = strings.TrimPrefix(l, "github.com/trustbloc/vc-go/")
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// Guard runs f; a panic is returned as (site, message).
func Guard(f func()) (site, msg string, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			site, msg, panicked = PanicSite(st), fmt.Sprint(r), true
		}
	}()
	f()
	return
}

type handler func(*T)

// Main dispatches on -mode.
func Main(modes map[string]func(*T), gens map[string]func(emit func(t string, e interface{}), count int)) {
	flag.Parse()
	var lines [][]byte
	if *inF != "" {
		f, err := os.Open(*inF)
		Must(err, "open input")
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			lines = append(lines, append([]byte(nil), sc.Bytes()...))
		}
		f.Close()
	}
	of, err := os.Create(*outF)
	Must(err, "create output")
	w := bufio.NewWriterSize(of, 1<<16)
	var mu sync.Mutex
	if g, ok := gens[*Mode]; ok {
		var hd struct{ Count int }
		if len(lines) > 0 {
			_ = json.Unmarshal(lines[0], &hd)
		}
		g(func(t string, e interface{}) {
			b, err := json.Marshal(M{"t": t, "e": e})
			Must(err, "marshal event")
			mu.Lock()
			w.Write(b)
			w.WriteByte('\n')
			mu.Unlock()
		}, hd.Count)
		w.Flush()
		of.Close()
		return
	}
	h, ok := modes[*Mode]
	if !ok {
		Fatalf("unknown mode %q", *Mode)
	}
	var jf *os.File
	if *journal != "" {
		jf, err = os.Create(*journal)
		Must(err, "journal")
	}
	var wg sync.WaitGroup
	ch := make(chan []byte)
	for i := 0; i < *par; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for raw := range ch {
				var id struct {
					N int `json:"_n"`
				}
				Must(json.Unmarshal(raw, &id), "behaviour")
				var clean M
				_ = json.Unmarshal(raw, &clean)
				delete(clean, "_n")
				cb, _ := json.Marshal(clean)
				hs := fnv.New64a()
				hs.Write(cb)
				t := &T{R: rand.New(rand.NewSource(*Seed ^ int64(hs.Sum64()>>1))), Raw: raw, res: Result{N: id.N, OK: true}}
				if jf != nil {
					fmt.Fprintf(jf, "b %d\n", id.N)
				}
				races := raceErrors()
				site, msg, p := Guard(func() { h(t) })
				t.res.Race = raceErrors() != races
				if p {
					t.Failf("panic:"+site, "panic in %s: %s", site, msg)
				}
				t.res.Runs = t.runs
				if t.runs == 0 {
					t.res.Runs = 1
				}
				b, err := json.Marshal(t.res)
				if err != nil {
					t.res.Obs = fmt.Sprint(t.res.Obs)
					b, err = json.Marshal(t.res)
				}
				Must(err, "marshal result")
				mu.Lock()
				w.Write(b)
				w.WriteByte('\n')
				if jf != nil {
					fmt.Fprintf(jf, "e %d\n", id.N)
					w.Flush()
				}
				mu.Unlock()
			}
		}()
	}
	for _, l := range lines {
		ch <- l
	}
	close(ch)
	wg.Wait()
	w.Flush()
	of.Close()
}

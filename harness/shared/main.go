// Command shared replays Shared.tla: several parties use one thing at the same time.
package main

import (
	"bytes"
	"io"
	"log"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/trustbloc/vc-go/zzverif/desk"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type behaviour struct {
	Arena string
	Prog  []string
	Word  []int
}

var (
	aloneMu sync.Mutex
	alones  = map[string]string{}
)

// alone is what the operation gives when nobody else is around.
func alone(arena, op string) string {
	k := arena + " " + op
	aloneMu.Lock()
	v, ok := alones[k]
	aloneMu.Unlock()
	if !ok {
		d := desk.New()
		v, _ = d.Do(op, d.Make(arena))
		aloneMu.Lock()
		alones[k] = v
		aloneMu.Unlock()
	}
	return v
}

type outcome struct {
	text string
	der  desk.Obj
	show string
}

func show(o desk.Obj) string {
	if o.C == nil && o.P == nil {
		return ""
	}
	return desk.Show(o)
}

func goid() string {
	b := make([]byte, 40)
	b = b[:runtime.Stack(b, false)]
	return string(bytes.Fields(b)[1])
}

// turns holds parties at their callbacks.
type turns struct {
	mu    sync.Mutex
	party map[string]int
	kind  []string
	where []chan bool // a party waits here to be let on
	here  []chan bool // tells that the party is held or done
	free  bool
}

func (s *turns) gate(where string) {
	id := goid()
	s.mu.Lock()
	i, ok := s.party[id]
	if !ok || s.free || s.kind[i] == where { // several callbacks of one kind in a row are one stop
		s.mu.Unlock()
		return
	}
	s.kind[i] = where
	s.mu.Unlock()
	s.here[i] <- true
	<-s.where[i]
}

func replay(t *lib.T, gated bool) {
	var b behaviour
	t.Decode(&b)
	d := desk.New()
	o := d.Make(b.Arena)
	before, spare := desk.Show(o), d.Spare()
	n := len(b.Prog)
	res := make([]outcome, n)
	work := func(i int) {
		res[i].text, res[i].der = d.Do(b.Prog[i], o)
		res[i].show = show(res[i].der)
		t.Run()
	}
	var wg sync.WaitGroup
	if gated {
		s := &turns{party: map[string]int{}, kind: make([]string, n)}
		done := make([]bool, n)
		for i := 0; i < n; i++ {
			s.where = append(s.where, make(chan bool, 1))
			s.here = append(s.here, make(chan bool, 1000))
		}
		d.Gate = s.gate
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				s.mu.Lock()
				s.party[goid()] = i
				s.mu.Unlock()
				<-s.where[i]
				work(i)
				s.here[i] <- false
			}(i)
		}
		stuck := make([]bool, n)
		for _, w := range b.Word {
			i := w - 1
			if done[i] || stuck[i] {
				continue
			}
			s.where[i] <- true
			select {
			case held := <-s.here[i]:
				done[i] = !held
			case <-time.After(3 * time.Second): // waits for another party: let it be
				stuck[i] = true
			}
		}
		s.mu.Lock()
		s.free = true
		s.mu.Unlock()
		for i := 0; i < n; i++ {
			close(s.where[i])
			if !done[i] && !stuck[i] {
				for held := range s.here[i] {
					if !held {
						break
					}
				}
			}
		}
	} else {
		start := make(chan bool)
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				work(i)
			}(i)
		}
		close(start)
	}
	wg.Wait()
	t.Obs("alone")
	want := make([]string, n)
	for i, op := range b.Prog {
		want[i] = alone(b.Arena, op)
	}
	for i, op := range b.Prog {
		if strings.HasPrefix(res[i].text, "panic: ") && !strings.HasPrefix(want[i], "panic: ") {
			t.Failf("panic:"+op, "%s on shared %s with %v: %s", op, b.Arena, b.Prog, res[i].text)
		}
		if res[i].text != want[i] {
			t.Failf("answer:"+op, "%s on shared %s with %v gives %s, alone it gives %s", op, b.Arena, b.Prog, differs(res[i].text, want[i]), differs(want[i], res[i].text))
		}
		if now := show(res[i].der); now != res[i].show {
			t.Failf("result:"+op, "what %s gave on shared %s with %v was %s and became %s", op, b.Arena, b.Prog, differs(res[i].show, now), differs(now, res[i].show))
		}
	}
	if now := desk.Show(o); now != before {
		t.Failf("thing:"+strings.Join(b.Prog, "+"), "shared %s was %s and is after %v %s", b.Arena, differs(before, now), b.Prog, differs(now, before))
	}
	if now := d.Spare(); now != spare {
		t.Failf("lists:"+strings.Join(written(now), "+"), "option lists of the caller were written by %v on %s: %s", b.Prog, b.Arena, now)
	}
}

// differs cuts a around the first difference to b.
func differs(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i > 80 {
		i -= 80
	} else {
		i = 0
	}
	if len(a) > i+300 {
		return "…" + a[i:i+300] + "…"
	}
	return "…" + a[i:]
}

func main() {
	log.SetOutput(io.Discard)
	lib.Main(map[string]func(*lib.T){
		"gated": func(t *lib.T) { replay(t, true) },
		"race":  func(t *lib.T) { replay(t, false) },
	}, nil)
}

// written names the lists of Spare that were.
func written(s string) (l []string) {
	f := strings.Fields(s)
	for i := 0; i+1 < len(f); i += 2 {
		if f[i+1] != "0" {
			l = append(l, f[i])
		}
	}
	return l
}

// Command history replays History.tla: what is done to one object does not show in another.
package main

import (
	"fmt"
	"io"
	"log"
	"strings"

	"github.com/trustbloc/vc-go/zzverif/desk"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type behaviour struct {
	Kind     string
	Verdicts []string
	Anew     []string
	Hist     []struct {
		Op string
		On int
	}
}

func main() {
	log.SetOutput(io.Discard)
	lib.Main(map[string]func(*lib.T){"history": replay}, nil)
}

var derives = map[string]bool{"rebuild": true, "reparse": true, "again": true, "signjwt": true, "signmin": true, "signcwt": true,
	"unsecure": true, "display": true, "displaysome": true, "bbsproof": true, "clone": true, "present": true, "presentjwt": true,
	"presentcwt": true, "presentld": true, "presentdi": true}

func derived(op string) bool { return derives[op] || strings.HasPrefix(op, "with") }

func replay(t *lib.T) {
	var b behaviour
	t.Decode(&b)
	d := desk.New()
	fam := []desk.Obj{d.Make(b.Kind)}
	shows := []string{desk.Show(fam[0])}
	holds := [][]int{nil}
	done := ""
	for _, h := range b.Hist {
		i := h.On - 1
		o := fam[i]
		done += fmt.Sprintf(" %s(%d)", h.Op, h.On)
		changed := -1
		if err, ok := d.Change(h.Op, o); ok {
			if err != nil {
				t.Failf("refused:"+h.Op, "%s:%s is refused: %v", b.Kind, done, err)
				return
			}
			changed = i
		} else if derived(h.Op) {
			text, n := d.Do(h.Op, o)
			if n.C == nil && n.P == nil {
				t.Failf("refused:"+h.Op, "%s:%s gives nothing: %s", b.Kind, done, text)
				return
			}
			fam = append(fam, n)
			shows = append(shows, "")
			var hs []int
			if strings.HasPrefix(h.Op, "present") {
				hs = []int{i}
			} else if n.P != nil && h.Op != "again" {
				hs = holds[i]
			}
			holds = append(holds, hs)
			changed = len(fam) - 1
		} else {
			if !desk.Known(h.Op, o) {
				lib.Fatalf("no operation %q", h.Op)
			}
			if text, _ := d.Do(h.Op, o); strings.HasPrefix(text, "panic: ") {
				t.Failf("panic:"+h.Op, "%s:%s: %s", b.Kind, done, text)
			}
		}
		t.Run()
		for j, x := range fam {
			now := desk.Show(x)
			follows := j == changed
			for _, k := range holds[j] {
				follows = follows || k == changed
			}
			if now != shows[j] && !follows {
				t.Failf("shows:"+h.Op, "%s:%s: object %d was %s and is %s", b.Kind, done, j+1, differs(shows[j], now), differs(now, shows[j]))
				return
			}
			shows[j] = now
		}
	}
	t.Obs(b.Verdicts)
	for i, o := range fam {
		check(t, b, done, i, b.Verdicts[i], d.Verdict(o), "verdict")
		if b.Anew[i] != "open" && o.C != nil {
			check(t, b, done, i, b.Anew[i], d.Anew(o), "anew")
		}
	}
}

func check(t *lib.T, b behaviour, done string, i int, want, got, what string) {
	if want == "open" || (want == "proven") == (got == "ok") {
		return
	}
	t.Failf(fmt.Sprintf("%s:%s-is-%s", what, want, strings.SplitN(got, ":", 2)[0]), "%s:%s: object %d should be %s but %s", b.Kind, done, i+1, want, got)
}

func differs(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	if i > 120 {
		i -= 120
	} else {
		i = 0
	}
	if len(a) > i+300 {
		return "…" + a[i:i+300] + "…"
	}
	return "…" + a[i:]
}

package main

import (
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/trustbloc/vc-go/presexch"
	"github.com/trustbloc/vc-go/verifiable"

	"github.com/trustbloc/vc-go/zzverif/issue"
	"github.com/trustbloc/vc-go/zzverif/lib"
)

type requirement struct {
	Rule            string
	Count, Min, Max int
	From            string
	Nested          []requirement
}

type reqRec struct {
	Expect, Form, Wallet string
	Groups               [][]string
	Top                  []requirement
	Sat                  []int
	Solutions            [][]int
}

func submissionRequirements(rs []requirement) []*presexch.SubmissionRequirement {
	var out []*presexch.SubmissionRequirement
	for _, r := range rs {
		rule := presexch.All
		if r.Rule == "pick" {
			rule = presexch.Pick
		}
		out = append(out, &presexch.SubmissionRequirement{Rule: rule, Count: r.Count, Min: r.Min, Max: r.Max, From: r.From,
			FromNested: submissionRequirements(r.Nested)})
	}
	return out
}

func str(s string) *string { return &s }

func definition(r reqRec) *presexch.PresentationDefinition {
	pd := &presexch.PresentationDefinition{ID: "definition", SubmissionRequirements: submissionRequirements(r.Top)}
	for i, g := range r.Groups {
		d := &presexch.InputDescriptor{ID: fmt.Sprintf("d%d", i+1), Constraints: &presexch.Constraints{Fields: []*presexch.Field{{
			Path: []string{fmt.Sprintf("$.credentialSubject.d%d", i+1)}, Filter: &presexch.Filter{FilterItem: presexch.FilterItem{Type: str("string"), Const: "yes"}}}}}}
		if len(r.Top) > 0 {
			d.Group = g
		}
		pd.InputDescriptors = append(pd.InputDescriptors, d)
	}
	return pd
}

// credential called id that answers the given descriptors.
func plain(id string, sat ...int) *verifiable.Credential {
	claims := lib.M{"me": id}
	for d := 1; d <= 4; d++ {
		claims[fmt.Sprintf("d%d", d)] = "no"
	}
	for _, d := range sat {
		claims[fmt.Sprintf("d%d", d)] = "yes"
	}
	c, err := verifiable.CreateCredential(verifiable.CredentialContents{
		Context: []string{"https://www.w3.org/2018/credentials/v1"}, CustomContext: []interface{}{lib.M{"@vocab": "https://ex.org/"}},
		ID: "urn:" + id, Types: []string{"VerifiableCredential"}, Issuer: &verifiable.Issuer{ID: issue.Alice},
		Issued:  nil,
		Subject: []verifiable.Subject{{ID: issue.Hanna, CustomFields: claims}}}, verifiable.CustomFields{"issuanceDate": "2020-01-01T00:00:00Z"})
	lib.Must(err, "credential")
	return c
}

// wallet and, by marker, what each credential answers.
func wallet(r reqRec) ([]*verifiable.Credential, map[string][]int) {
	sat := map[string][]int{"decoy": nil}
	ws := []*verifiable.Credential{plain("decoy")}
	add := func(id string, s ...int) {
		ws = append(ws, plain(id, s...))
		sat[id] = s
	}
	if r.Wallet == "shared" && len(r.Sat) > 0 {
		add("all", r.Sat...)
	}
	for _, d := range r.Sat {
		add(fmt.Sprintf("c%d", d), d)
	}
	return ws, sat
}

// at follows a JSON path made of members and indices only.
func at(v interface{}, path string) (interface{}, error) {
	if !strings.HasPrefix(path, "$") {
		return nil, fmt.Errorf("path %q", path)
	}
	p := path[1:]
	for p != "" {
		switch {
		case p[0] == '.':
			p = p[1:]
			n := strings.IndexAny(p, ".[")
			if n < 0 {
				n = len(p)
			}
			m, ok := v.(lib.M)
			if !ok {
				return nil, fmt.Errorf("%q: no object at %q", path, p)
			}
			if v, ok = m[p[:n]]; !ok {
				return nil, fmt.Errorf("%q: no member %q", path, p[:n])
			}
			p = p[n:]
		case p[0] == '[':
			n := strings.IndexByte(p, ']')
			if n < 0 {
				return nil, fmt.Errorf("path %q", path)
			}
			key := strings.Trim(p[1:n], `'"`)
			if i, err := strconv.Atoi(key); err == nil {
				l, ok := v.([]interface{})
				if !ok || i < 0 || i >= len(l) {
					return nil, fmt.Errorf("%q: no element %d", path, i)
				}
				v = l[i]
			} else {
				m, ok := v.(lib.M)
				if !ok {
					return nil, fmt.Errorf("%q: no object at %q", path, p)
				}
				if v, ok = m[key]; !ok {
					return nil, fmt.Errorf("%q: no member %q", path, key)
				}
			}
			p = p[n+1:]
		default:
			return nil, fmt.Errorf("path %q", path)
		}
	}
	return v, nil
}

func embedded(root interface{}, m *presexch.InputDescriptorMapping) (interface{}, error) {
	for ; m != nil; m = m.PathNested {
		v, err := at(root, m.Path)
		if err != nil {
			return nil, err
		}
		root = v
	}
	return root, nil
}

// markers of plain credentials.
func marker(v interface{}) string {
	m, _ := v.(lib.M)
	s, _ := m["credentialSubject"].(lib.M)
	x, _ := s["me"].(string)
	return x
}

func raw(vp *verifiable.Presentation) lib.M {
	b, err := vp.MarshalJSON()
	lib.Must(err, "marshal presentation")
	return lib.ParseJSON(b).(lib.M)
}

func ids(ds map[string]bool) []int {
	out := []int{}
	for d := range ds {
		n, err := strconv.Atoi(strings.TrimPrefix(d, "d"))
		if err != nil {
			n = -1
		}
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

func has(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// submission checks a descriptor map over root against what the credentials answer; all are the embedded credentials.
func submission(t *lib.T, how string, r reqRec, sub *presexch.PresentationSubmission, root interface{}, all []string, sat map[string][]int) {
	if sub == nil {
		t.Failf(how+"-no-submission", "no submission")
		return
	}
	if sub.DefinitionID != "definition" {
		t.Failf(how+"-definition-id", "definition id %q", sub.DefinitionID)
	}
	answered, used := map[string]bool{}, map[string]bool{}
	for _, e := range sub.DescriptorMap {
		v, err := embedded(root, e)
		if err != nil {
			t.Failf(how+"-path", "entry %s: %v", lib.JSON(e), err)
			continue
		}
		me := marker(v)
		d, err := strconv.Atoi(strings.TrimPrefix(e.ID, "d"))
		if err != nil || !has(sat[me], d) {
			t.Failf(how+"-wrong-credential", "%s answered by %q", e.ID, me)
		}
		answered[e.ID], used[me] = true, true
	}
	got := ids(answered)
	ok := false
	for _, s := range r.Solutions {
		sort.Ints(s)
		ok = ok || fmt.Sprint(s) == fmt.Sprint(got)
	}
	if !ok {
		t.Failf(how+"-not-a-solution", "answered %v, solutions %v", got, r.Solutions)
	}
	for _, me := range all {
		if !used[me] {
			t.Failf(how+"-unused-credential", "%q is embedded and answers nothing", me)
		}
	}
}

func req(t *lib.T) {
	var r reqRec
	t.Decode(&r)
	pd := definition(r)
	ws, sat := wallet(r)
	t.Obs(r.Expect)

	t.Run()
	vp, err := pd.CreateVP(ws, issue.Loader)
	outcome(t, "vp", r, err)
	if err == nil && r.Expect == "ok" {
		doc := raw(vp)
		var all []string
		l, _ := doc["verifiableCredential"].([]interface{})
		for _, v := range l {
			all = append(all, marker(v))
		}
		sub, _ := vp.CustomFields["presentation_submission"].(*presexch.PresentationSubmission)
		submission(t, "vp", r, sub, doc, all, sat)
	}

	t.Run()
	vps, sub, err := pd.CreateVPArray(ws, issue.Loader)
	outcome(t, "array", r, err)
	if err == nil && r.Expect == "ok" {
		var root []interface{}
		var all []string
		for _, vp := range vps {
			doc := raw(vp)
			root = append(root, doc)
			l, _ := doc["verifiableCredential"].([]interface{})
			for _, v := range l {
				all = append(all, marker(v))
			}
		}
		submission(t, "array", r, sub, root, all, sat)
	}

	t.Run()
	tops, err := pd.MatchSubmissionRequirement(ws, issue.Loader)
	if known := !(r.Expect == "reject" && unknownGroup(r)); (err == nil) != known {
		t.Failf("explain-outcome", "error %v", err)
	}
	if err == nil {
		want := r.Top
		if len(want) == 0 {
			want = []requirement{{Rule: "all"}}
		}
		explained(t, r, want, tops, sat)
	}
}

func members(r reqRec, g string) []int {
	var out []int
	for i, gs := range r.Groups {
		for _, x := range gs {
			if x == g || g == "" {
				out = append(out, i+1)
				break
			}
		}
		if g == "" && len(gs) == 0 {
			out = append(out, i+1)
		}
	}
	return out
}

func unknownGroup(r reqRec) bool {
	var look func(rs []requirement) bool
	look = func(rs []requirement) bool {
		for _, x := range rs {
			if len(x.Nested) == 0 && len(members(r, x.From)) == 0 || look(x.Nested) {
				return true
			}
		}
		return false
	}
	return look(r.Top)
}

func explained(t *lib.T, r reqRec, want []requirement, got []*presexch.MatchedSubmissionRequirement, sat map[string][]int) {
	if len(want) != len(got) {
		t.Failf("explain-shape", "%d requirements, want %d", len(got), len(want))
		return
	}
	for i, w := range want {
		if len(w.Nested) > 0 {
			explained(t, r, w.Nested, got[i].Nested, sat)
			continue
		}
		m := members(r, w.From)
		if len(m) != len(got[i].Descriptors) {
			t.Failf("explain-descriptors", "%d descriptors, want %v", len(got[i].Descriptors), m)
			continue
		}
		for j, d := range got[i].Descriptors {
			if d.ID != fmt.Sprintf("d%d", m[j]) {
				t.Failf("explain-descriptors", "descriptor %s, want d%d", d.ID, m[j])
				continue
			}
			have, should := []string{}, []string{}
			for _, c := range d.MatchedVCs {
				have = append(have, strings.TrimPrefix(c.Contents().ID, "urn:"))
			}
			for me, s := range sat {
				if has(s, m[j]) {
					should = append(should, me)
				}
			}
			sort.Strings(have)
			sort.Strings(should)
			if fmt.Sprint(have) != fmt.Sprint(should) {
				t.Failf("explain-matches", "%s matched by %v, want %v", d.ID, have, should)
			}
		}
	}
}

func outcome(t *lib.T, how string, r reqRec, err error) {
	switch {
	case r.Expect == "ok" && err != nil:
		t.Failf(how+"-refused", "the wallet can satisfy the definition: %v", err)
	case r.Expect == "reject" && err == nil:
		t.Failf(how+"-accepted", "the wallet cannot satisfy the definition")
	case r.Expect == "reject" && !unknownGroup(r) && !errors.Is(err, presexch.ErrNoCredentials):
		t.Failf(how+"-error", "error %v, want ErrNoCredentials", err)
	}
}

// reqMatch: what CreateVP makes for a definition is accepted by Match, which returns the credentials pointed at.
func reqMatch(t *lib.T) {
	var r reqRec
	t.Decode(&r)
	if r.Expect != "ok" {
		t.Run()
		return
	}
	t.Obs(r.Expect)
	pd := definition(r)
	ws, sat := wallet(r)
	opts := []presexch.MatchOption{presexch.WithDisableSchemaValidation(), presexch.WithCredentialOptions(
		verifiable.WithDisabledProofCheck(), verifiable.WithJSONLDDocumentLoader(issue.Loader))}

	t.Run()
	if vp, err := pd.CreateVP(ws, issue.Loader); err == nil {
		ms, err := pd.Match([]*verifiable.Presentation{vp}, issue.Loader, opts...)
		matched(t, "vp", r, ms, err, sat)
	}
	t.Run()
	if vps, sub, err := pd.CreateVPArray(ws, issue.Loader); err == nil {
		ms, err := pd.Match(vps, issue.Loader, append(opts, presexch.WithMergedSubmission(sub))...)
		matched(t, "array", r, ms, err, sat)
	}
}

func matched(t *lib.T, how string, r reqRec, ms []*presexch.MatchValue, err error, sat map[string][]int) {
	if err != nil {
		t.Failf(how+"-own-presentation-rejected", "%v", err)
		return
	}
	answered := map[string]bool{}
	for _, m := range ms {
		answered[m.DescriptorID] = true
		d, _ := strconv.Atoi(strings.TrimPrefix(m.DescriptorID, "d"))
		if me := strings.TrimPrefix(m.Credential.Contents().ID, "urn:"); !has(sat[me], d) {
			t.Failf(how+"-wrong-credential", "%s answered by %q", m.DescriptorID, me)
		}
	}
	got := ids(answered)
	for _, s := range r.Solutions {
		sort.Ints(s)
		if fmt.Sprint(s) == fmt.Sprint(got) {
			return
		}
	}
	t.Failf(how+"-not-a-solution", "answered %v, solutions %v", got, r.Solutions)
}

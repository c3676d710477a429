package main

// Helpers shared by the property checks.

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"unicode/utf8"

	quamina "quamina.net/go/quamina/v2"
)

func (t *T) newQ(opts ...quamina.Option) *quamina.Quamina {
	q, err := quamina.New(opts...)
	if err != nil {
		t.Fail(fmt.Sprintf("New: %v", err), nil)
	}
	return q
}

func (t *T) mustAdd(q *quamina.Quamina, x quamina.X, pat string) {
	if err := q.AddPattern(x, pat); err != nil {
		t.Fail(fmt.Sprintf("AddPattern rejected a valid pattern: %v", err), map[string]any{"pattern": pat})
	}
}

// mustMatch calls MatchesForEvent with a private copy of the event and insists that there is no error
func (t *T) mustMatch(q *quamina.Quamina, event []byte) []quamina.X {
	xs, err := q.MatchesForEvent(event)
	if err != nil {
		t.Fail(fmt.Sprintf("MatchesForEvent rejected a valid event: %v", err), map[string]any{"event": clip(event)})
	}
	return xs
}

func clip(b []byte) string {
	if len(b) > 3000 {
		return string(b[:3000]) + "…"
	}
	return string(b)
}

func (t *T) style() Style {
	r := t.R
	switch r.IntN(4) {
	case 0:
		return Style{}
	case 1:
		return Style{Space: 1 + r.IntN(2), Shuffle: true}
	case 2:
		return Style{Escape: []int{10, 50, 100}[r.IntN(3)], Numbers: true, Shuffle: true}
	default:
		return Style{Space: r.IntN(3), Escape: r.IntN(2) * r.IntN(60), Numbers: r.IntN(2) == 0, Shuffle: r.IntN(2) == 0}
	}
}

// intSet turns the result, whose X values have to be ints, into a set; duplicates are a violation
func (t *T) intSet(xs []quamina.X, event []byte) map[int]bool {
	got := make(map[int]bool, len(xs))
	for _, x := range xs {
		i, ok := x.(int)
		if !ok {
			t.Fail(fmt.Sprintf("reported an X that was never added: %#v", x), map[string]any{"event": clip(event)})
		}
		if got[i] {
			t.Fail(fmt.Sprintf("reported X %d more than once", i), map[string]any{"event": clip(event), "result": fmt.Sprint(xs)})
		}
		got[i] = true
	}
	return got
}

// World is a set of patterns, pats[i] having been added with X i to one instance
type World struct {
	t     *T
	pats  []*Pat
	texts []string
	q     *quamina.Quamina
	added int
}

func (w *World) patText(i int) string {
	if i < len(w.texts) {
		return w.texts[i]
	}
	return "?"
}

// addUpTo adds the patterns with an index below n
func (w *World) addUpTo(n int) {
	for w.added < n {
		i := w.added
		st := Style{}
		if w.t.R.IntN(3) == 0 {
			st = w.t.style()
			st.Numbers = false
		}
		for len(w.texts) <= i {
			w.texts = append(w.texts, w.pats[len(w.texts)].text(st, w.t.R))
		}
		w.t.mustAdd(w.q, i, w.texts[i])
		w.added++
	}
}

// judge compares what's reported for an event with what the reference model says
func (w *World) judge(e *Val, text []byte) {
	t := w.t
	xs := t.mustMatch(w.q, text)
	w.judgeResult(e, text, xs)
}

func (w *World) judgeResult(e *Val, text []byte, xs []quamina.X) {
	t := w.t
	got := t.intSet(xs, text)
	ls := leaves(e)
	paths := map[string]bool{}
	for _, l := range ls {
		paths[l.Path] = true
	}
	canon := e.String()
	for i := 0; i < w.added; i++ {
		want := patMatch(w.pats[i], ls)
		t.Eval(1)
		switch {
		case want == Unknown:
			t.Count("undocumented", 1)
			continue
		case (want == Yes) != got[i]:
			w.explain(i, want, text)
		case want == Yes:
			t.Count("matches", 1)
			t.Distinct(w.texts[i], canon)
		default:
			t.Count("non-matches", 1)
			for _, f := range w.pats[i].fields() {
				if paths[f.Path] {
					t.Count("near misses", 1)
					t.Distinct(w.texts[i], canon)
					break
				}
			}
		}
		delete(got, i)
	}
	for x := range got {
		if x < 0 || x >= w.added {
			t.Fail(fmt.Sprintf("reported X %d, which was never added", x), map[string]any{"event": clip(text)})
		}
	}
	t.Sample("patterns %s … event %s -> %v", w.patText(0), clip(text), xs)
}

func (w *World) explain(i int, want Tri, text []byte) {
	t := w.t
	verb := "reported a pattern that doesn't match"
	if want == Yes {
		verb = "didn't report a pattern that matches"
	}
	solo, _ := quamina.New()
	_ = solo.AddPattern(0, w.texts[i])
	sx, serr := solo.MatchesForEvent(bytes.Clone(text))
	t.Fail(verb, map[string]any{
		"pattern": w.texts[i], "event": clip(text), "X": i, "patterns": w.clipTexts(),
		"alone": fmt.Sprintf("alone in a new instance, the pattern's result is %v %v", sx, serr),
	})
}

func (w *World) clipTexts() []string {
	if w.added > 300 {
		return w.texts[:300]
	}
	return w.texts[:w.added]
}

func isNFA(k MKind) bool { return k == MWildcard || k == MShell || k == MRegexp }

func nfaCount(pats []*Pat) int {
	n := 0
	for _, p := range pats {
		for _, f := range p.fields() {
			for _, v := range f.Vals {
				if isNFA(v.K) {
					n++
				}
			}
		}
	}
	return n
}

// genPats makes patterns for events
func genPats(r *rand.Rand, p *Profile, events []*Val, n int) []*Pat {
	var out []*Pat
	for len(out) < n {
		e := pick(r, events)
		if chance(r, 15) {
			e = p.mutateEvent(r, e)
		}
		pat := p.pattern(r, e)
		if len(pat.fields()) == 0 {
			continue
		}
		out = append(out, pat)
		if chance(r, 5) && len(out) < n {
			out = append(out, pick(r, out)) // the same pattern again, with another X
		}
	}
	return out
}

func (t *T) randOpts() []quamina.Option {
	switch t.R.IntN(4) {
	case 0:
		return []quamina.Option{quamina.WithPatternDeletion(true)}
	case 1:
		return []quamina.Option{quamina.WithMediaType("application/json")}
	}
	return nil
}

func sortedStrings(xs []quamina.X) []string {
	out := make([]string, len(xs))
	for i, x := range xs {
		out[i] = fmt.Sprintf("%T:%v", x, x)
	}
	sort.Strings(out)
	return out
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func diffStrings(a, b []string) string {
	in := func(x string, s []string) bool {
		for _, y := range s {
			if x == y {
				return true
			}
		}
		return false
	}
	var l, r []string
	for _, x := range a {
		if !in(x, b) {
			l = append(l, x)
		}
	}
	for _, x := range b {
		if !in(x, a) {
			r = append(r, x)
		}
	}
	return "only first: " + strings.Join(l, " ") + "; only second: " + strings.Join(r, " ")
}

// obj1 is an event or part of one with a single member
func obj1(name string, v *Val) *Val { return vObj(Member{name, v}) }

func pat1(name string, ms ...*Matcher) *Pat { return &Pat{Root: []*PNode{{Name: name, Vals: ms}}} }

func patPath(path string, ms ...*Matcher) *Pat {
	p := &Pat{}
	p.setPath(strings.Split(path, "\n"), ms)
	return p
}

// speedSafe tells whether the conversion of the patterns to DFAs can't explode, which BuiltForSpeed is documented to do
func speedSafe(pats []*Pat) bool {
	size := 0
	for _, p := range pats {
		for _, f := range p.fields() {
			for _, v := range f.Vals {
				if isNFA(v.K) {
					size += len(v.S)
					if v.K == MRegexp && strings.ContainsAny(v.S, "{") {
						size += 10
						if v.Re != nil {
							size += 3 * (repeatSize(v.Re) - v.Re.pieces())
						}
					}
					for _, c := range v.S {
						if c > 0x7f {
							size += 2
						}
					}
				}
			}
		}
	}
	return size <= 45
}

func sortedInts(xs []quamina.X) []int {
	var out []int
	for _, x := range xs {
		if i, ok := x.(int); ok {
			out = append(out, i)
		}
	}
	sort.Ints(out)
	return out
}

func utf8Valid(b []byte) bool { return utf8.Valid(b) }

package main

// The same events again and again, on an instance and its copies, while patterns are added (and deleted) in between.
// Values and names may be long, and differ in a character. Nothing that's remembered of earlier events may be used
// where it no longer holds.

import (
	"math/rand/v2"
	"strings"

	quamina "quamina.net/go/quamina/v2"
)

// longProfile makes events and patterns with strings of up to hundreds of bytes
func longProfile(r *rand.Rand, p *Profile) *Profile {
	l := *p
	var seen []string
	short := p.Strings
	l.Strings = func(r *rand.Rand) string {
		if len(seen) > 0 && chance(r, 50) {
			s := []rune(pick(r, seen)) // never empty
			switch r.IntN(4) {
			case 0: // the same again
			case 1:
				s = s[:len(s)-r.IntN(2)]
			case 2:
				s = append(s, pick(r, s))
			default:
				s[r.IntN(len(s))] = pick(r, []rune("abé1 "))
			}
			return string(s)
		}
		if chance(r, 20) {
			return short(r)
		}
		unit := pick(r, []string{"a", "ab", "abc", "日本", "x y ", "1", "0123456789", "é"})
		s := strings.Repeat(unit, 1+(8<<r.IntN(6)+r.IntN(9)-4)/len(unit))
		seen = append(seen, s)
		return s
	}
	l.Kinds = []MKind{MString, MString, MString, MNumber, MTrue, MPrefix, MPrefix, MIgnoreCase, MAnythingBut, MShell, MWildcard}
	if chance(r, 30) {
		l.Kinds = l.Kinds[:9]
	}
	if chance(r, 20) {
		l.Names = nil
		for i := range p.Names {
			l.Names = append(l.Names, strings.Repeat("name", 10+i%3)+p.Names[i])
		}
	}
	l.MaxVals = min(l.MaxVals, 3)
	return &l
}

func runRepeated(c *Ctx, deletions bool, n int) {
	c.Run("repeat", n, func(t *T) {
		r := t.R
		p := t.profile()
		if chance(r, 80) {
			p = longProfile(r, p)
		}
		events := t.events(p, 2+r.IntN(3))
		pats := genPats(r, p, events, 3+r.IntN(8))
		texts := textsOf(pats)
		var evs [][]byte
		var ls [][]Leaf
		for _, e := range events {
			evs = append(evs, e.text(t.style(), r))
			ls = append(ls, leaves(e))
		}
		withDeletion := deletions || chance(r, 25)
		q := t.newQ(quamina.WithPatternDeletion(withDeletion))
		speed := speedSafe(pats) && chance(r, 30)
		if nfaCount(pats) > 0 && speed && chance(r, 80) { // DFAs of long values are large
			speed = false
		}
		setSpeed(q, speed)
		insts := []*quamina.Quamina{q}
		if chance(r, 70) {
			insts = append(insts, q.Copy())
		}
		live := map[int]bool{}
		last := r.IntN(len(evs))
		for i := range pats {
			at := pick(r, insts)
			if deletions && len(live) > 0 && chance(r, 40) {
				for x := range pats { // a random one of those in force
					if live[x] && chance(r, 50) {
						if err := pick(r, insts).DeletePatterns(x); err != nil {
							t.Fail("DeletePatterns: "+err.Error(), nil)
						}
						t.Note("delete %d", x)
						delete(live, x)
						if chance(r, 50) {
							t.mustAdd(at, x, texts[x])
							t.Note("add %d again", x)
							live[x] = true
						}
						break
					}
				}
			}
			t.mustAdd(at, i, texts[i])
			t.Note("add %d: %s", i, clip([]byte(texts[i])))
			live[i] = true
			for k := 1 + r.IntN(5); k > 0; k-- {
				got := t.intSet(t.mustMatch(pick(r, insts), append([]byte(nil), evs[last]...)), evs[last])
				t.Note("match event %d: %v", last, len(got))
				for x := range pats {
					want := patMatch(pats[x], ls[last])
					if !live[x] {
						want = No
					}
					t.Eval(1)
					if want != Unknown && (want == Yes) != got[x] {
						verb := "reported a pattern that doesn't match or isn't in force"
						if want == Yes {
							verb = "didn't report a pattern that matches"
						}
						t.Fail(verb+", for an event that was matched before", map[string]any{"pattern": texts[x], "event": clip(evs[last]), "X": x, "patterns": texts[:i+1]})
					}
					if want == Yes {
						t.Count("repeated while adding", 1)
						t.Distinct(texts[x], events[last].String(), texts[i])
					}
				}
				if k > 1 && chance(r, 60) {
					last = r.IntN(len(evs))
				}
			}
		}
	})
}

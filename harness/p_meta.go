package main

// C02, C13, C19, C22: relations between the results of several instances, or of several calls.

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"slices"
	"strings"

	quamina "quamina.net/go/quamina/v2"
)

func init() {
	register(&Check{
		ID:       "C02",
		Rule:     "distinct (set of patterns, event) pairs, with at least one match, for which the results of instances with other patterns, or the same ones in another order, were compared",
		Required: []string{"alone", "near", "subsets", "shared X", "matches", "large instances"},
		Run:      runIndependence,
	})
	register(&Check{
		ID:       "C13",
		Rule:     "distinct (set of patterns, event) pairs, with at least one match, for which the results of instances built in different modes were compared",
		Required: []string{"matches", "non-matches", "switched while building", "with deletion", "exhaustive values"},
		Run:      runBuildModes,
	})
	register(&Check{
		ID:       "C19",
		Rule:     "distinct (history, event) pairs with a non-empty result for which ownership and repeatability were monitored",
		Required: []string{"repeated", "results kept", "results overwritten", "events overwritten", "histories with errors", "X kinds", "repeated while adding", "marathon"},
		Run:      runPurity,
	})
	register(&Check{
		ID:       "C22",
		Rule:     "distinct sets of patterns whose statistics were compared between instances and over time",
		Required: []string{"stats compared", "matching between", "copies", "nondeterministic fields", "heaps compared", "behind other fields"},
		Run:      runStats,
	})
}

func (t *T) profile() *Profile {
	ps := profiles()
	return ps[t.Index%len(ps)]
}

func (t *T) events(p *Profile, n int) []*Val {
	var out []*Val
	for len(out) < n {
		e := p.event(t.R)
		out = append(out, e)
		for k := t.R.IntN(3); k > 0 && len(out) < n; k-- {
			out = append(out, p.mutateEvent(t.R, e))
		}
	}
	return out
}

func textsOf(pats []*Pat) []string {
	var out []string
	for _, p := range pats {
		out = append(out, p.String())
	}
	return out
}

// ---- C02

func runIndependence(c *Ctx) {
	c.Run("random", c.N(9000, 150000), func(t *T) {
		r := t.R
		p := t.profile()
		events := t.events(p, 2+r.IntN(4))
		texts := textsOf(genPats(r, p, events, 2+r.IntN(p.MaxPats)))
		n := len(texts)
		all := t.newQ(t.randOpts()...)
		other := t.newQ(t.randOpts()...)
		part := t.newQ()
		inPart := map[int]bool{}
		for i, s := range texts {
			t.mustAdd(all, i, s)
		}
		order := r.Perm(n)
		if chance(r, 30) {
			for i := range order {
				order[i] = n - 1 - i
			}
		}
		for _, i := range order {
			t.mustAdd(other, i, texts[i])
			if chance(r, 30) {
				inPart[i] = true
				t.mustAdd(part, i, texts[i])
				if chance(r, 20) { // adding it twice makes no difference
					t.mustAdd(part, i, texts[i])
				}
			}
		}
		ctx := strings.Join(texts, "\n")
		for _, e := range events {
			text := e.text(Style{}, nil)
			got := t.intSet(t.mustMatch(all, text), text)
			got2 := t.intSet(t.mustMatch(other, text), text)
			gotPart := t.intSet(t.mustMatch(part, text), text)
			for i := range texts {
				t.Eval(1)
				if got[i] != got2[i] {
					t.Fail("the order in which patterns are added changes the result", map[string]any{"pattern": texts[i], "X": i, "event": clip(text), "patterns": texts,
						"order 1": "as listed", "order 2": order, "reported 1": got[i], "reported 2": got2[i]})
				}
				if inPart[i] && got[i] != gotPart[i] {
					t.Fail("other patterns change the result for a pattern", map[string]any{"pattern": texts[i], "X": i, "event": clip(text), "patterns": texts,
						"reported": got[i], "subset": fmt.Sprint(inPart), "reported with the subset only": gotPart[i]})
				}
				if !inPart[i] && gotPart[i] {
					t.Fail("reported a pattern that wasn't added", map[string]any{"event": clip(text), "X": i})
				}
			}
			t.Count("subsets", 1)
			t.Count("matches", len(got))
			if len(got) > 0 {
				t.Distinct(ctx, string(text))
			}
		}
		// some of them alone
		for k := 0; k < 4; k++ {
			i := r.IntN(n)
			solo := t.newQ()
			t.mustAdd(solo, "x", texts[i])
			for _, e := range events {
				text := e.text(Style{}, nil)
				is := len(t.mustMatch(solo, text)) > 0
				was := t.intSet(t.mustMatch(all, text), text)[i]
				t.Eval(1)
				t.Count("alone", 1)
				if is != was {
					t.Fail("other patterns change the result for a pattern", map[string]any{"pattern": texts[i], "X": i, "event": clip(text), "patterns": texts,
						"reported": was, "reported alone": is})
				}
			}
		}
		t.Sample("%d patterns, e.g. %s; %d events, e.g. %s", n, texts[0], len(events), events[0])
	})
	// patterns that share X: reported, once, if any of them is
	c.Run("shared", c.N(5000, 80000), func(t *T) {
		r := t.R
		p := t.profile()
		events := t.events(p, 2+r.IntN(4))
		texts := textsOf(genPats(r, p, events, 2+r.IntN(p.MaxPats)))
		own := t.newQ(t.randOpts()...)
		shared := t.newQ(t.randOpts()...)
		keys := []quamina.X{"a", "b", 1, 1.5, true, struct{ A, B int }{1, 2}, [2]string{"x", "y"}, "", nil, int64(1)}[:1+r.IntN(10)]
		group := make([]int, len(texts))
		for i, s := range texts {
			group[i] = r.IntN(len(keys))
			t.mustAdd(own, i, s)
			t.mustAdd(shared, keys[group[i]], s)
		}
		for _, e := range events {
			text := e.text(t.style(), r)
			want := map[quamina.X]bool{}
			for i := range t.intSet(t.mustMatch(own, text), text) {
				want[keys[group[i]]] = true
			}
			xs := t.mustMatch(shared, text)
			seen := map[quamina.X]bool{}
			for _, x := range xs {
				if seen[x] {
					t.Fail(fmt.Sprintf("reported %#v twice", x), map[string]any{"event": clip(text), "patterns": texts, "groups": group})
				}
				seen[x] = true
				if !want[x] {
					t.Fail(fmt.Sprintf("reported %#v although no pattern with this X matches", x), map[string]any{"event": clip(text), "patterns": texts, "groups": group, "result": fmt.Sprintf("%#v", xs)})
				}
			}
			if len(seen) != len(want) {
				t.Fail("a pattern that shares its X with others isn't reported", map[string]any{"event": clip(text), "patterns": texts, "groups": group, "want": fmt.Sprintf("%#v", want), "result": fmt.Sprintf("%#v", xs)})
			}
			t.Eval(1)
			t.Count("shared X", 1)
			t.Count("matches", len(seen))
			if len(seen) > 0 {
				t.Distinct(strings.Join(texts, "\n"), string(text), fmt.Sprint(group))
			}
		}
	})
	// a handful of patterns among very many
	c.Run("large", c.N(20, 200), func(t *T) {
		r := t.R
		p := &Profile{Names: manyNames(6), Strings: stringsOver("abcdé", 9), Depth: 1, Width: 5, ArrayPct: 15, ObjPct: 10, NumPct: 20,
			LitPct: 5, EmptyPct: 2, Kinds: detKinds, MaxVals: 4, ExistPct: 6, Arr: 4}
		n := 3000
		if t.Index%2 == 1 {
			p.Kinds, n = allKinds, 150
			p.Strings = stringsOver("ab", 6)
		}
		events := t.events(p, 30)
		few := textsOf(genPats(r, p, events, 10))
		many := textsOf(genPats(r, p, events, n))
		q1, q2, q3 := t.newQ(), t.newQ(), t.newQ(quamina.WithPatternDeletion(true))
		for i, s := range few {
			t.mustAdd(q1, i, s)
			t.mustAdd(q2, i, s)
		}
		for _, s := range many {
			t.mustAdd(q2, "other", s)
			t.mustAdd(q3, "other", s)
		}
		for i, s := range few {
			t.mustAdd(q3, i, s)
		}
		t.Count("large instances", 1)
		for _, e := range events {
			text := e.text(t.style(), r)
			want := sortedInts(t.mustMatch(q1, text))
			for k, q := range []*quamina.Quamina{q2, q3} {
				got := sortedInts(t.mustMatch(q, text))
				t.Eval(1)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					t.Fail("thousands of other patterns change the result", map[string]any{"event": clip(text), "patterns": few, "others before or after": k, "want": want, "got": got})
				}
				if len(want) > 0 {
					t.Distinct(strings.Join(few, "\n"), string(text), fmt.Sprint(k))
				}
			}
		}
	})
	// names, values and structure that could be taken for each other
	c.Run("confusable", c.N(3000, 50000), func(t *T) {
		r := t.R
		frag := []string{"a", "b", "\"", "\\", ".", "/", ",", "\x00", "\x01", "\xc3\xa9", "[", "{", "*", "1", "true", " "}
		str := func() string {
			var sb strings.Builder
			for n := r.IntN(4); n > 0; n-- {
				sb.WriteString(pick(r, frag))
			}
			return sb.String()
		}
		var names []string
		for len(names) < 5 {
			names = append(names, str())
		}
		p := &Profile{Names: names, Strings: func(*rand.Rand) string { return str() }, Depth: 3, Width: 4, ArrayPct: 20, ObjPct: 30, NumPct: 15, LitPct: 20,
			EmptyPct: 5, Kinds: detKinds, MaxVals: 3, ExistPct: 10, Arr: 3}
		uniq := map[string]bool{}
		p.Names = nil
		for _, n := range names {
			if !uniq[n] {
				uniq[n] = true
				p.Names = append(p.Names, n)
			}
		}
		events := t.events(p, 4)
		texts := textsOf(genPats(r, p, events, 12))
		if r.IntN(2) == 0 {
			// patterns whose texts are nearly the same
			texts = texts[:4]
			for _, s := range texts[:4] {
				for range 3 {
					near := nearText(r, s)
					if near != s && t.newQ().AddPattern(0, near) == nil {
						texts = append(texts, near)
						t.Count("near", 1)
					}
				}
			}
			r.Shuffle(len(texts), func(i, j int) { texts[i], texts[j] = texts[j], texts[i] })
		}
		all := t.newQ(t.randOpts()...)
		for i, s := range texts {
			t.mustAdd(all, i, s)
		}
		for i, s := range texts {
			solo := t.newQ()
			t.mustAdd(solo, 0, s)
			for _, e := range events {
				text := e.text(t.style(), r)
				is := len(t.mustMatch(solo, text)) > 0
				was := t.intSet(t.mustMatch(all, text), text)[i]
				t.Eval(1)
				t.Count("alone", 1)
				if is != was {
					t.Fail("other patterns change the result for a pattern", map[string]any{"pattern": s, "X": i, "event": clip(text), "patterns": texts,
						"reported": was, "reported alone": is})
				}
				if is {
					t.Distinct(strings.Join(texts, "\n"), string(text))
				}
			}
		}
	})
}

// nearText returns a text that differs from a pattern's in one of its strings only, by a character or the case of one.
// It isn't necessarily a pattern.
func nearText(r *rand.Rand, s string) string {
	var at []int // positions in strings
	in := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '"':
			in = !in
		case in && s[i] == '\\':
			at = append(at, i)
			i++
		}
		if in {
			at = append(at, i+1)
		}
	}
	if len(at) == 0 {
		return s
	}
	i := pick(r, at)
	switch r.IntN(4) {
	case 0:
		return s[:i] + pick(r, []string{" ", "  ", "\t", "\\t", "\\n"}) + s[i:]
	case 1:
		return s[:i] + pick(r, []string{"a", "A", ".", "/", "\\\"", "\\\\", "{", "}", ":", ",", "\\u0000"}) + s[i:]
	case 2:
		for ; i < len(s) && s[i] != '"'; i++ {
			if s[i] >= 'a' && s[i] <= 'z' {
				return s[:i] + string(s[i]-32) + s[i+1:]
			}
		}
		return s
	default:
		if i < len(s) && s[i] != '"' && s[i] != '\\' && s[i] < 0x80 {
			return s[:i] + s[i+1:]
		}
		return s
	}
}

// ---- C13

func runBuildModes(c *Ctx) {
	modes := []quamina.MatcherBuildMode{quamina.BuiltForComfort, quamina.BuiltForSpeed}
	setMode := func(t *T, q *quamina.Quamina, m quamina.MatcherBuildMode) {
		if err := q.SetMatcherBuildMode(m); err != nil {
			t.Fail(fmt.Sprintf("SetMatcherBuildMode: %v", err), nil)
		}
		if g := q.GetMatcherBuildMode(); g != m {
			t.Fail(fmt.Sprintf("GetMatcherBuildMode reports %v after %v was set", g, m), nil)
		}
	}
	// instances: 0 comfort, 1 speed, 2 switched before each pattern, 3 speed with deletion, 4 comfort then speed, 5 speed then comfort
	build := func(t *T, texts []string, check func(qs []*quamina.Quamina, upTo int)) {
		r := t.R
		if g := t.newQ().GetMatcherBuildMode(); g != quamina.BuiltForComfort {
			t.Fail(fmt.Sprintf("the build mode of a new instance is %v", g), nil)
		}
		qs := []*quamina.Quamina{t.newQ(), t.newQ(), t.newQ(), t.newQ(quamina.WithPatternDeletion(true)), t.newQ(), t.newQ()}
		setMode(t, qs[1], quamina.BuiltForSpeed)
		setMode(t, qs[3], quamina.BuiltForSpeed)
		setMode(t, qs[5], quamina.BuiltForSpeed)
		at := r.IntN(len(texts) + 1)
		for i, s := range texts {
			setMode(t, qs[2], pick(r, modes))
			if i == at {
				setMode(t, qs[4], quamina.BuiltForSpeed)
				setMode(t, qs[5], quamina.BuiltForComfort)
			}
			for _, q := range qs {
				t.mustAdd(q, i, s)
			}
			if check != nil && (i == len(texts)-1 || chance(r, 15)) {
				check(qs, i)
			}
		}
		t.Count("switched while building", 1)
		t.Count("with deletion", 1)
	}
	compare := func(t *T, qs []*quamina.Quamina, texts []string, text []byte) {
		want := sortedInts(t.mustMatch(qs[0], text))
		for k, q := range qs[1:] {
			got := sortedInts(t.mustMatch(q, text))
			t.Eval(1)
			if fmt.Sprint(want) != fmt.Sprint(got) {
				t.Fail("the result depends on the build mode", map[string]any{"patterns": texts, "event": clip(text), "built for comfort": want,
					[]string{"built for speed", "switched", "built for speed, with deletion", "comfort then speed", "speed then comfort"}[k]: got})
			}
		}
		t.Count("matches", len(want))
		t.Count("non-matches", len(texts)-len(want))
		if len(want) > 0 {
			t.Distinct(strings.Join(texts, "\n"), string(text))
		}
	}
	c.Run("random", c.N(7000, 120000), func(t *T) {
		r := t.R
		p := t.profile()
		events := t.events(p, 2+r.IntN(5))
		var pats []*Pat
		for try := 0; ; try++ {
			pats = genPats(r, p, events, 1+r.IntN(p.MaxPats))
			if speedSafe(pats) {
				break
			}
			if try > 20 {
				pats = pats[:1]
				if !speedSafe(pats) {
					return
				}
				break
			}
		}
		texts := textsOf(pats)
		build(t, texts, func(qs []*quamina.Quamina, upTo int) {
			for _, e := range events {
				compare(t, qs, texts[:upTo+1], e.text(t.style(), r))
			}
		})
		t.Sample("%s on %s", texts[0], events[0])
	})
	// one field, several nondeterministic values; all short strings
	c.Run("values", c.N(2500, 40000), func(t *T) {
		r := t.R
		alpha := pick(r, []string{"ab", "a\"", "aé", "aA", "a\\*"})
		gen := stringsOver(alpha, 4)
		p := &Profile{Names: []string{"v"}, Strings: gen, Kinds: []MKind{MWildcard, MWildcard, MRegexp, MShell, MPrefix, MString, MIgnoreCase, MAnythingBut, MNumber}}
		var pats []*Pat
		for n := 2 + r.IntN(4); n > 0; n-- {
			pats = append(pats, pat1("v", p.matcherFor(r, pick(r, p.Kinds), vStr(gen(r)), true)))
		}
		if !speedSafe(pats) {
			pats = pats[:2]
			if !speedSafe(pats) {
				return
			}
		}
		texts := textsOf(pats)
		var qs []*quamina.Quamina
		build(t, texts, func(q []*quamina.Quamina, upTo int) { qs = q })
		rs := []rune(alpha)
		maxLen := 6
		if len(rs) == 3 {
			maxLen = 4
		}
		var rec func(s string, n int)
		rec = func(s string, n int) {
			compare(t, qs, texts, obj1("v", vStr(s)).text(Style{}, nil))
			if n == 0 {
				return
			}
			for _, c := range rs {
				rec(s+string(c), n-1)
			}
		}
		rec("", maxLen)
		t.Count("exhaustive values", 1)
	})
	// several fields: the state reached by a value of one has values of the next
	c.Run("fields", c.N(1500, 30000), func(t *T) {
		r := t.R
		gen := stringsOver("ab", 3)
		kinds := []MKind{MWildcard, MShell, MRegexp, MString, MPrefix, MIgnoreCase}
		p := &Profile{Strings: gen}
		var pats []*Pat
		for n := 2 + r.IntN(5); n > 0; n-- {
			pt := &Pat{}
			for _, f := range []string{"f", "g", "h"} {
				if chance(r, 75) {
					var ms []*Matcher
					for k := 1 + r.IntN(2); k > 0; k-- {
						ms = append(ms, p.matcherFor(r, pick(r, kinds), vStr(gen(r)), true))
					}
					pt.setPath([]string{f}, ms)
				}
			}
			if len(pt.fields()) == 0 {
				continue
			}
			if !speedSafe(append(pats[:len(pats):len(pats)], pt)) {
				break
			}
			pats = append(pats, pt)
		}
		if len(pats) == 0 {
			return
		}
		texts := textsOf(pats)
		build(t, texts, func(qs []*quamina.Quamina, upTo int) {
			for k := 0; k < 25; k++ {
				e := vObj()
				for _, f := range []string{"f", "g", "h"} {
					if chance(r, 85) {
						v := vStr(gen(r))
						if chance(r, 25) {
							v = vArr(v, vStr(gen(r)), vStr(gen(r)))
						}
						e.Mem = append(e.Mem, Member{f, v})
					}
				}
				compare(t, qs, texts[:upTo+1], e.text(Style{}, nil))
			}
		})
	})
}

// ---- C19

type xStruct struct {
	A int
	B string
}
type xInt int

func runPurity(c *Ctx) {
	runRepeated(c, false, c.N(3000, 50000))
	c.Run("random", c.N(5000, 100000), func(t *T) {
		r := t.R
		p := t.profile()
		events := t.events(p, 3+r.IntN(4))
		texts := textsOf(genPats(r, p, events, 1+r.IntN(p.MaxPats)))
		opts := t.randOpts()
		fresh := func() *quamina.Quamina {
			q := t.newQ(opts...)
			for i, s := range texts {
				t.mustAdd(q, i, s)
			}
			return q
		}
		q := fresh()
		// what each event yields, by an instance that has seen no other event
		var evs [][]byte
		var want []string
		for _, e := range events {
			text := e.text(t.style(), r)
			evs = append(evs, text)
			first := q.Copy() // q hasn't seen any event
			if chance(r, 15) {
				first = fresh()
			}
			want = append(want, fmt.Sprint(sortedInts(t.mustMatch(first, bytes.Clone(text)))))
		}
		type kept struct {
			xs   []quamina.X
			copy []quamina.X
			i    int
		}
		var results []kept
		buf := make([]byte, 0, 64)
		var history []string
		copies := []*quamina.Quamina{q}
		for step := 0; step < 30; step++ {
			switch r.IntN(12) {
			case 0: // something that isn't an event
				bad := corrupt(r, pick(r, evs))
				xs, err := q.MatchesForEvent(bytes.Clone(bad))
				history = append(history, fmt.Sprintf("malformed? %q", clip(bad)))
				if err != nil {
					t.Count("histories with errors", 1)
					if len(xs) != 0 {
						t.Fail("an error comes with matches", map[string]any{"event": clip(bad), "result": fmt.Sprint(xs)})
					}
				}
				continue
			case 1:
				if len(copies) < 4 {
					copies = append(copies, pick(r, copies).Copy())
				}
				continue
			case 2: // a pattern that's rejected
				if err := q.AddPattern("bad", pick(r, []string{"", "{", `{"a":1}`, `{"a":[{"wildcard":"**"}]}`, `{"x":["a",{"regexp":"("}]}`})); err == nil {
					t.Fail("an invalid pattern was accepted", nil)
				}
				continue
			}
			i := r.IntN(len(evs))
			// the event is in a buffer that's used again, with other bytes behind it
			tail := []byte(pick(r, []string{"", "}", "\"", ",\"a\":1}", "\x00\xff", "  "}))
			buf = append(append(buf[:0], evs[i]...), tail...)
			before := bytes.Clone(buf)
			inst := pick(r, copies)
			xs := t.mustMatch(inst, buf[:len(evs[i])])
			if !bytes.Equal(before, buf) {
				t.Fail("the event was modified", map[string]any{"event": clip(before), "now": clip(buf)})
			}
			if g := fmt.Sprint(sortedInts(xs)); g != want[i] {
				t.Fail("the result for an event depends on what the instance has seen before", map[string]any{"patterns": texts, "event": clip(evs[i]),
					"in a fresh instance": want[i], "now": g, "history": history})
			}
			if len(xs) > 0 {
				t.Distinct(strings.Join(texts, "\n"), strings.Join(history, "\n"), string(evs[i]))
			}
			t.intSet(xs, evs[i])
			t.Eval(1)
			t.Count("repeated", 1)
			history = append(history, string(evs[i]))
			if len(history) > 8 {
				history = history[1:]
			}
			// the caller may do what it wants with the buffer and the result
			if chance(r, 50) {
				for k := range buf {
					buf[k] = byte("x\"\\0}"[r.IntN(5)])
				}
				t.Count("events overwritten", 1)
			}
			if chance(r, 40) {
				for k := range xs {
					xs[k] = "overwritten"
				}
				xs = append(xs, "appended", "appended")
				_ = xs
				t.Count("results overwritten", 1)
			} else {
				results = append(results, kept{xs, append([]quamina.X(nil), xs...), i})
				t.Count("results kept", 1)
			}
			for _, k := range results {
				for j := range k.xs {
					if k.xs[j] != k.copy[j] {
						t.Fail("a result changed after it was returned", map[string]any{"event": clip(evs[k.i]), "was": fmt.Sprint(k.copy), "is": fmt.Sprint(k.xs), "history": history})
					}
				}
			}
		}
		t.Sample("%d patterns, %d events: %s", len(texts), len(evs), strings.Join(want, " "))
	})
	// events of very different sizes and shapes: internal buffers grow and are used again
	c.Run("sizes", c.N(120, 2500), func(t *T) {
		r := t.R
		q := t.newQ(t.randOpts()...)
		fresh := t.newQ()
		var texts []string
		add := func(p *Pat) {
			s := p.String()
			t.mustAdd(q, len(texts), s)
			t.mustAdd(fresh, len(texts), s)
			texts = append(texts, s)
		}
		p := &Profile{Names: []string{"a", "b", "c"}, Strings: stringsOver("abc", 6), Kinds: allKinds, Depth: 2, Width: 3, ArrayPct: 30, ObjPct: 20, Arr: 4, NumPct: 15, LitPct: 5, MaxVals: 3, ExistPct: 8}
		base := t.events(p, 6)
		for _, pt := range genPats(r, p, base, 25) {
			add(pt)
		}
		add(patPath("a\nb\nc", &Matcher{K: MWildcard, S: "*a*b*"}))
		crowds := 1 + t.Index%3
		for k := 0; k < crowds; k++ { // many that match at once
			for n := pick(r, []int{5, 20, 70, 140, 280, 600, 1100, 1300}); n > 0; n-- {
				add(patPath("m", &Matcher{K: pick(r, []MKind{MString, MString, MPrefix, MIgnoreCase}), S: fmt.Sprintf("crowd%d", k)}))
			}
		}
		type ev struct {
			text []byte
			want string
		}
		var evs []ev
		for k := 0; k < 14; k++ {
			var e *Val
			switch k % 4 {
			case 0:
				a := vArr()
				for n := r.IntN(1500); n > 0; n-- {
					a.El = append(a.El, vStr(p.Strings(r)))
				}
				e = vObj(Member{"a", a}, Member{"b", pick(r, base)}, Member{"c", vStr(strings.Repeat("ab", r.IntN(600)))})
			case 1:
				a := vArr()
				for n := r.IntN(60); n > 0; n-- {
					a.El = append(a.El, p.object(r, 2))
				}
				e = vObj(Member{"a", a}, Member{"b", vArr(vArr(vArr(vNum("1"), vStr("a"))))})
			case 2:
				v := vStr("abcab")
				for n := r.IntN(60); n > 0; n-- {
					v = vArr(v, vStr(p.Strings(r)))
				}
				e = vObj(Member{"a", v}, Member{"c", vNum(randNumber(r))})
			default:
				e = pick(r, base)
			}
			if chance(r, 35) {
				e = e.clone()
				e.Mem = append(e.Mem, Member{"m", vStr(fmt.Sprintf("crowd%d", r.IntN(crowds+1)))})
			}
			text := e.text(t.style(), r)
			evs = append(evs, ev{text, fmt.Sprint(sortedInts(t.mustMatch(fresh.Copy(), text)))})
		}
		for k := 0; k < 40; k++ {
			e := pick(r, evs)
			got := fmt.Sprint(sortedInts(t.mustMatch(q, e.text)))
			t.Eval(1)
			t.Count("repeated", 1)
			if got != e.want {
				t.Fail("the result for an event depends on what the instance has seen before", map[string]any{"patterns": texts, "event": clip(e.text), "in a fresh instance": e.want, "now": got})
			}
			t.Distinct(strings.Join(texts, "\n"), fmt.Sprint(k), string(e.text))
		}
	})
	// a long life: after some variety nothing but a few plain events, well over 65,536 times, so that whatever was counted
	// or marked during the first events and isn't cleared would come back if a counter wraps around
	c.Run("marathon", c.N(2, 12), func(t *T) {
		r := t.R
		q := t.newQ(quamina.WithPatternDeletion(t.Index%2 == 1))
		p := &Profile{Names: []string{"a", "b", "c"}, Strings: stringsOver("abc", 5), Kinds: allKinds, Depth: 2, Width: 3, ArrayPct: 30, ObjPct: 20, Arr: 3, NumPct: 15, LitPct: 5, MaxVals: 3, ExistPct: 8}
		events := t.events(p, 60)
		pats := genPats(r, p, events, 30)
		for i, pt := range pats {
			t.mustAdd(q, i, pt.String())
		}
		fresh := q.Copy()
		var evs [][]byte
		var want [][]quamina.X
		for _, e := range events {
			text := e.text(t.style(), r)
			evs = append(evs, text)
			want = append(want, t.mustMatch(fresh.Copy(), text))
		}
		run := func(i int, history string) {
			xs, err := q.MatchesForEvent(evs[i])
			same := err == nil && len(xs) == len(want[i])
			for _, w := range want[i] {
				same = same && slices.Contains(xs, w)
			}
			t.Eval(1)
			if !same {
				t.Fail("the result for an event depends on what the instance has seen before", map[string]any{"patterns": textsOf(pats), "event": clip(evs[i]),
					"in a fresh instance": fmt.Sprint(sortedInts(want[i])), "now": fmt.Sprint(xs, err), "history": history})
			}
			if len(want[i]) > 0 {
				t.Count("marathon", 1)
			}
		}
		// the plain ones: the one with the fewest matches, the one with the most, and any
		plain := []int{0, 0, r.IntN(len(evs))}
		for i := range evs {
			if len(want[i]) < len(want[plain[0]]) {
				plain[0] = i
			}
			if len(want[i]) > len(want[plain[1]]) {
				plain[1] = i
			}
		}
		for round := 0; round < 2; round++ {
			for k := 0; k < 300; k++ {
				if chance(r, 10) {
					_, _ = q.MatchesForEvent([]byte(pick(r, []string{`{"a":[[1,{"b":x`, `{"c":"\u12"}`, ``, `{"a":{"b":[1,2`})))
				}
				run(r.IntN(len(evs)), fmt.Sprintf("%d various events", k))
			}
			for k := 0; k < 66500; k++ {
				i := plain[0]
				if k%3 != 0 {
					i = plain[round*2] // plain[1], the one with many, would overwrite what remains of the others
				}
				if k > 66000 {
					i = plain[1]
				}
				run(i, fmt.Sprintf("various events, then %d times plain ones", k))
			}
		}
		t.Distinct(strings.Join(textsOf(pats), "\n"))
	})
	// X values of any comparable type come back unchanged
	c.Run("X", c.N(400, 4000), func(t *T) {
		r := t.R
		p1, p2 := &xStruct{1, "p"}, &xStruct{1, "p"}
		ch := make(chan int)
		xs := []quamina.X{0, 1, int8(1), int64(1), uint(1), 1.0, float32(1), "1", "", "one", true, false, nil, 'x', xInt(1), xStruct{1, "p"}, xStruct{1, "q"},
			p1, p2, [2]int{1, 2}, [2]int{2, 1}, [0]int{}, struct{}{}, ch, complex(1, 2), math.Inf(1), fmt.Errorf("e"), any(quamina.BuiltForSpeed), quamina.Field{}.IsNumber}
		opts := t.randOpts()
		q := t.newQ(opts...)
		r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
		same := chance(r, 50) // all of them with the same pattern
		for i, x := range xs {
			pat := `{"a":["v"]}`
			if !same {
				pat = fmt.Sprintf(`{"a":["v"], "b":[%d, "all"]}`, i)
			}
			t.mustAdd(q, x, pat)
		}
		distinct := map[quamina.X]bool{}
		for _, x := range xs {
			distinct[x] = true
		}
		check := func(got []quamina.X, want map[quamina.X]bool) {
			seen := map[quamina.X]bool{}
			for _, x := range got {
				if !want[x] || seen[x] {
					t.Fail(fmt.Sprintf("reported %T %v, which wasn't added, or more than once", x, x), map[string]any{"result": fmt.Sprint(got)})
				}
				seen[x] = true
			}
			if len(seen) != len(want) {
				t.Fail("an X is missing", map[string]any{"result": fmt.Sprint(got), "want": fmt.Sprint(want)})
			}
			t.Eval(len(want))
			t.Count("X kinds", len(want))
		}
		check(t.mustMatch(q, []byte(`{"a":"v","b":"all"}`)), distinct)
		if !same {
			i := r.IntN(len(xs))
			check(t.mustMatch(q, fmt.Appendf(nil, `{"a":"v","b":%d}`, i)), map[quamina.X]bool{xs[i]: true})
		}
		t.Distinct(fmt.Sprint(t.Index))
	})
}

// ---- C22

func statsText(m map[string]float64) string {
	return fmt.Sprintf("states=%v bytes=%v fanouts=%v maxFanout=%v (%d)", m["states"], m["bytes"], m["fanouts"], m["maxFanout"], len(m))
}

func runStats(c *Ctx) {
	c.Run("random", c.N(5000, 80000), func(t *T) {
		r := t.R
		p := t.profile()
		events := t.events(p, 3)
		pats := genPats(r, p, events, 1+r.IntN(p.MaxPats))
		speed := speedSafe(pats) && chance(r, 40)
		texts := textsOf(pats)
		if nfaCount(pats) > 0 {
			t.Count("nondeterministic fields", 1)
		}
		q1, q2 := t.newQ(), t.newQ()
		if speed {
			_ = q1.SetMatcherBuildMode(quamina.BuiltForSpeed)
			_ = q2.SetMatcherBuildMode(quamina.BuiltForSpeed)
		}
		plain := t.newQ()
		if speed {
			_ = plain.SetMatcherBuildMode(quamina.BuiltForSpeed)
		}
		adders := []*quamina.Quamina{q1, q1.Copy(), q1.Copy()} // all of them see what any of them adds
		for _, cp := range adders {
			if speed {
				_ = cp.SetMatcherBuildMode(quamina.BuiltForSpeed)
			}
		}
		for i, s := range texts {
			for _, cp := range adders {
				if chance(r, 15) {
					_ = cp.GetMatcherStats()
				}
			}
			t.mustAdd(pick(r, adders), i, s)
			t.mustAdd(q2, i, s)
			t.mustAdd(plain, i, s)
			m := q1.GetMatcherStats()
			for _, k := range []string{"states", "bytes", "fanouts", "maxFanout"} {
				v, ok := m[k]
				if !ok || v < 0 || math.IsNaN(v) || math.IsInf(v, 0) || v != math.Trunc(v) {
					t.Fail(fmt.Sprintf("%s is %v", k, v), map[string]any{"patterns": texts[:i+1], "stats": m})
				}
			}
			if m["maxFanout"] > m["fanouts"] || m["fanouts"] > m["states"]*m["maxFanout"] || m["states"] > m["bytes"] {
				t.Fail("the statistics contradict each other", map[string]any{"patterns": texts[:i+1], "stats": m})
			}
			if chance(r, 40) { // matching in between, in one of them only
				_ = t.mustMatch(q1, pick(r, events).text(t.style(), r))
				t.Count("matching between", 1)
			}
			if chance(r, 10) {
				_ = q1.AddPattern("bad", `{"x":["a",{"regexp":"(a"}]}`)
			}
			s1, s2 := statsText(q1.GetMatcherStats()), statsText(q2.GetMatcherStats())
			t.Eval(1)
			t.Count("stats compared", 1)
			if s1 != statsText(m) {
				t.Fail("the statistics change though no pattern was added", map[string]any{"patterns": texts[:i+1], "before": statsText(m), "after": s1})
			}
			for _, cp := range adders[1+r.IntN(2):] {
				if s3 := statsText(cp.GetMatcherStats()); s1 != s3 {
					t.Fail("a copy that was made before has different statistics", map[string]any{"patterns": texts[:i+1], "1": s1, "copy": s3})
				}
			}
			if s1 != s2 {
				t.Fail("instances with the same patterns have different statistics", map[string]any{"patterns": texts[:i+1], "1": s1, "2": s2, "speed": speed})
			}
		}
		if s1, s3 := statsText(q1.GetMatcherStats()), statsText(q1.Copy().GetMatcherStats()); s1 != s3 {
			t.Fail("a copy has different statistics", map[string]any{"patterns": texts, "1": s1, "copy": s3})
		}
		t.Count("copies", 1)
		// an instance that was never asked matches the same
		for _, e := range events {
			text := e.text(t.style(), r)
			a, b := fmt.Sprint(sortedInts(t.mustMatch(q1, text))), fmt.Sprint(sortedInts(t.mustMatch(plain, text)))
			t.Eval(1)
			if a != b {
				t.Fail("asking for statistics changes the matches", map[string]any{"patterns": texts, "event": clip(text), "asked": a, "never asked": b})
			}
		}
		if s1, s3 := statsText(q1.GetMatcherStats()), statsText(plain.GetMatcherStats()); s1 != s3 {
			t.Fail("asking for statistics changes them", map[string]any{"patterns": texts, "asked": s1, "never asked": s3})
		}
		t.Distinct(strings.Join(texts, "\n"))
		t.Sample("%s … %s", texts[0], statsText(q1.GetMatcherStats()))
	})
	// what follows a field with a single value or an exists is counted
	c.Run("behind", c.N(3000, 40000), func(t *T) {
		r := t.R
		p := t.profile()
		events := t.events(p, 3)
		texts := textsOf(genPats(r, p, events, 1+r.IntN(8)))
		stats := func(front string) map[string]float64 {
			q := t.newQ()
			for i, s := range texts {
				t.mustAdd(q, i, `{"M":`+s+front+"}")
			}
			return q.GetMatcherStats()
		}
		plain := stats("")
		for _, front := range []string{`,"A":["x"]`, `,"A":[{"exists":true}]`, `,"A":[{"exists":false}]`, `,"B":[true],"A":["x"]`, `,"B":["y"],"A":[{"exists":false}]`} {
			m := stats(front)
			t.Eval(1)
			t.Count("behind other fields", 1)
			for k, v := range plain {
				if m[k] < v {
					t.Fail(fmt.Sprintf("%s is less when there's another field in front of each pattern", k), map[string]any{"patterns": texts, "other fields": front, "without": plain, "with": m})
				}
			}
		}
		t.Distinct(append(texts, "behind")...)
	})
	// large automata: bytes is about what the heap grows by, and there are at least as many states as values
	fronts := []string{`{`, `{"A":["x"],`, `{"A":[{"exists":true}],`, `{"A":[{"exists":false}],`, `{"A":["x"],"B":[{"exists":true}],"C":[true],`}
	c.Run("heap", len(sizings)*c.N(2, 5), func(t *T) {
		g := sizings[t.Index%len(sizings)]
		n := g.n * g.k
		if !strings.Contains(g.name, "same") && !strings.Contains(g.name, "quantified") && !g.speed {
			n *= 4
		}
		if g.name == "wildcards" || g.name == "regexps" {
			n /= 8
		}
		text := g.f(t.R, n)
		front := fronts[t.Index/len(sizings)%len(fronts)]
		for i := range text {
			text[i] = front + text[i][1:]
		}
		heap := func() float64 {
			var m runtime.MemStats
			runtime.GC()
			runtime.GC()
			runtime.ReadMemStats(&m)
			return float64(m.HeapAlloc)
		}
		before := heap()
		qs := []*quamina.Quamina{}
		for range 4 {
			qs = append(qs, t.build(text, g.speed))
		}
		used := (heap() - before) / float64(len(qs))
		m := qs[0].GetMatcherStats()
		runtime.KeepAlive(qs)
		t.Eval(1)
		t.Distinct(g.name, statsText(m))
		if m["bytes"] > 200_000 {
			t.Count("heaps compared", 1)
			if f := m["bytes"] / used; f < 0.35 || f > 1.7 {
				t.Fail("the number of bytes is far from the memory used", map[string]any{"patterns": g.name, "number": n, "stats": m, "heap": used})
			}
			name := "max ratio " + g.name
			t.Count(name, 0)
			t.Res.Counts[name] = max(t.Res.Counts[name], int64(1000*m["bytes"]/used))
		}
		distinct := map[string]bool{}
		for _, s := range text {
			for _, x := range strings.Split(s, ",") {
				distinct[x] = true
			}
		}
		if len(distinct) > 6 && m["states"] < float64(len(distinct))*0.9 {
			t.Fail("there are fewer states than values", map[string]any{"patterns": g.name, "number": len(distinct), "stats": m})
		}
		if (g.name == "wildcards" || g.name == "regexps" || g.name == "shellstyles") && (m["maxFanout"] < 1 || m["fanouts"] < float64(n)/2) {
			t.Fail("epsilon closures aren't counted", map[string]any{"patterns": g.name, "number": n, "stats": m})
		}
	})
}

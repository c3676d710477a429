package main

// C03 … C10: each kind of value matching by itself and in the company of others.

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	quamina "quamina.net/go/quamina/v2"
)

func init() {
	register(&Check{
		ID:       "C03",
		Rule:     "distinct (pattern with exists, event) pairs judged by the reference model in which the pattern matches or the event has one of its fields",
		Required: []string{"matches", "near misses", "interleaved adds"},
		Run:      runExists,
	})
	register(&Check{
		ID:       "C04",
		Rule:     "distinct (pattern, event with arrays) pairs judged by the reference model in which the pattern matches or the event has one of its fields",
		Required: []string{"matches", "near misses", "values in different elements only", "far apart", "deep arrays"},
		Run:      runArrays,
	})
	register(&Check{
		ID:       "C05",
		Rule:     "distinct (set of globs, value) pairs for which at least one glob matched, or differed from another that did",
		Required: []string{"matches", "non-matches", "built for speed", "long values"},
		Run:      runGlobs,
	})
	register(&Check{
		ID:       "C08",
		Rule:     "distinct (equals-ignore-case value, event value) pairs that are equal apart from case, or differ in one character",
		Required: []string{"matches", "non-matches", "folding classes", "long strings"},
		Run:      runIgnoreCase,
	})
	register(&Check{
		ID:       "C09",
		Rule:     "distinct (list or prefix, event value) pairs",
		Required: []string{"matches", "non-matches", "long strings"},
		Run:      runAnythingBut,
	})
	register(&Check{
		ID:       "C10",
		Rule:     "distinct (number in a pattern, number in an event) pairs, as written, that are equal or neighbours as float64",
		Required: []string{"matches", "near misses", "neighbours", "long lists"},
		Run:      runNumbers,
	})
}

// judgeAll feeds events to an instance with patterns added bit by bit
func judgeAll(t *T, pats []*Pat, events []*Val, steps int, opts []quamina.Option) *World {
	w := &World{t: t, q: t.newQ(opts...), pats: pats}
	if speedSafe(pats) && chance(t.R, 40) {
		_ = w.q.SetMatcherBuildMode(quamina.BuiltForSpeed)
		t.Count("built for speed", 1)
	}
	for s := 1; s <= steps; s++ {
		w.addUpTo(len(pats) * s / steps)
		if s > 1 {
			t.Count("interleaved adds", 1)
		}
		for _, e := range events {
			w.judge(e, e.text(t.style(), t.R))
		}
	}
	return w
}

// ---- C03

func runExists(c *Ctx) {
	c.Run("random", c.N(90000, 500000), func(t *T) {
		r := t.R
		p := *profiles()[4]
		switch t.Index % 4 {
		case 1:
			p.Names = []string{"a", "b", "", "a\x01", "c", "é", "\U0010FFFF", "A", "ab", "a.b"}
			p.Depth = 3
		case 2:
			p.ArrayPct, p.Arr, p.Depth = 40, 4, 4
		case 3:
			p.Kinds = allKinds
			p.Strings = stringsOver("ab", 3)
			p.ExistPct = 35
		}
		var events []*Val
		for i := 0; i < 1+r.IntN(3); i++ {
			e := p.event(r)
			events = append(events, e)
			for k := r.IntN(4); k > 0; k-- {
				events = append(events, p.mutateEvent(r, e))
			}
		}
		if chance(r, 20) {
			events = append(events, vObj())
		}
		var pats []*Pat
		for n := 1 + r.IntN(12); n > 0; n-- {
			pats = append(pats, existsPattern(t, &p, events))
		}
		judgeAll(t, pats, events, 1+r.IntN(3), t.randOpts())
	})
	// every assignment of {value, other value, absent} to three fields, against every assignment of {value,
	// exists true, exists false, not mentioned}
	c.Run("exhaustive", c.N(64, 64), func(t *T) {
		names := []string{"a", "b", "c"}
		if t.Index%2 == 1 {
			names = []string{"b", "a", "c"}
		}
		var events []*Val
		for i := 0; i < 64; i++ {
			e := vObj()
			for k, n := range names {
				switch i >> (2 * k) & 3 {
				case 0:
					e.Mem = append(e.Mem, Member{n, vNum("1")})
				case 1:
					e.Mem = append(e.Mem, Member{n, vNum("2")})
				case 2:
					e.Mem = append(e.Mem, Member{n, vArr(vNum("1"), vNum("2"))})
				}
			}
			if i%3 == 0 {
				e.Mem = append(e.Mem, Member{"zz", vNum("1")})
			}
			events = append(events, e)
		}
		// a pattern for each assignment; those with an index that agrees in some bits with t.Index, in a random order
		var pats []*Pat
		for j := 1; j < 64; j++ {
			p := &Pat{}
			for k, n := range names {
				switch j >> (2 * k) & 3 {
				case 1:
					p.setPath([]string{n}, []*Matcher{{K: MNumber, S: "1"}})
				case 2:
					p.setPath([]string{n}, []*Matcher{{K: MExistsTrue}})
				case 3:
					p.setPath([]string{n}, []*Matcher{{K: MExistsFalse}})
				}
			}
			if t.Index < 32 || chance(t.R, 20) {
				pats = append(pats, p)
			}
		}
		if len(pats) == 0 {
			return
		}
		t.R.Shuffle(len(pats), func(i, j int) { pats[i], pats[j] = pats[j], pats[i] })
		judgeAll(t, pats, events, 2, t.randOpts())
	})
}

func existsPattern(t *T, p *Profile, events []*Val) *Pat {
	r := t.R
	for {
		e := pick(r, events)
		pat := p.pattern(r, e)
		for k := r.IntN(3); k > 0; k-- {
			var path []string
			src := pick(r, events)
			ls := leaves(src)
			if len(ls) > 0 && chance(r, 70) {
				path = strings.Split(pick(r, ls).Path, "\n")
			} else {
				path = []string{pick(r, p.Names)}
			}
			if chance(r, 25) {
				path = append(path[:len(path):len(path)], pick(r, p.Names))
			}
			if chance(r, 15) {
				path = path[:1+r.IntN(len(path))]
			}
			pat.add(path, []*Matcher{{K: pick(r, []MKind{MExistsFalse, MExistsFalse, MExistsTrue})}})
		}
		if len(pat.fields()) > 0 && len(pat.fields()) < 8 {
			return pat
		}
	}
}

// ---- C04

func runArrays(c *Ctx) {
	c.Run("deep", c.N(400, 5000), sizeArrays)
	c.Run("random", c.N(90000, 400000), func(t *T) {
		r := t.R
		p := *profiles()[3]
		p.Strings = stringsOver("ab", 1)
		switch t.Index % 4 {
		case 1:
			p.Names = []string{"a", "b"}
			p.Depth = 6
			p.ArrayPct = 50
		case 2:
			p.ExistPct = 5
			p.Arr = 6
		case 3:
			p.Names = []string{"x", "y", "z"}
			p.Depth, p.ArrayPct, p.ObjPct, p.EmptyPct = 3, 45, 45, 2
		}
		var events []*Val
		for i := 0; i < 1+r.IntN(2); i++ {
			e := p.event(r)
			events = append(events, e)
			for k := r.IntN(3); k > 0; k-- {
				events = append(events, p.mutateEvent(r, e))
			}
		}
		var pats []*Pat
		for len(pats) < 1+r.IntN(10) {
			if pat := crossPattern(t, &p, pick(r, events)); pat != nil {
				pats = append(pats, pat)
			} else if chance(r, 30) {
				pats = append(pats, p.pattern(r, pick(r, events)))
			}
		}
		var ok []*Pat
		for _, pt := range pats {
			if len(pt.fields()) > 0 {
				ok = append(ok, pt)
			}
		}
		if len(ok) == 0 {
			return
		}
		judgeAll(t, ok, events, 1+r.IntN(2), t.randOpts())
	})
	// big arrays, arrays of arrays and many arrays: positions and identities of arrays have to be told apart
	// whatever their magnitude
	c.Run("big", c.N(120, 1500), func(t *T) {
		r := t.R
		n := []int{10, 127, 128, 129, 255, 256, 257, 258, 300, 511, 512, 513, 1024, 4097, 33000, 66000}[r.IntN(16)]
		var list *Val
		elem := func(i int) *Val {
			return vObj(Member{"k", vNum(strconv.Itoa(i))}, Member{"v", vNum(strconv.Itoa(i))})
		}
		path := []string{"l"}
		switch t.Index % 3 {
		case 0: // one array
			list = vArr()
			for i := 0; i < n; i++ {
				list.El = append(list.El, elem(i))
			}
		case 1: // each element in an array of its own, in the same position
			list = vArr()
			for i := 0; i < n; i++ {
				list.El = append(list.El, vObj(Member{"m", vArr(elem(i))}))
			}
			path = append(path, "m")
		default: // n arrays first, then an array
			junk := vArr()
			for i := 0; i < n; i++ {
				junk.El = append(junk.El, vArr(vNum("0")))
			}
			list = vArr(elem(0), elem(1), elem(2), vArr(elem(3), elem(4)))
			list = vArr(junk, list, vArr(elem(5), elem(6)))
			n = 7
		}
		e := obj1("l", list)
		var pats []*Pat
		for len(pats) < 24 {
			i, j := r.IntN(n), r.IntN(n)
			switch len(pats) % 4 {
			case 0:
				j = i
			case 1:
				j = (i + 1<<r.IntN(17)) % n
			case 2:
				j = (i + 1) % n
			}
			pt := &Pat{}
			pt.setPath(append(path[:len(path):len(path)], "k"), []*Matcher{{K: MNumber, S: strconv.Itoa(i)}})
			pt.setPath(append(path[:len(path):len(path)], "v"), []*Matcher{{K: MNumber, S: strconv.Itoa(j)}})
			pats = append(pats, pt)
			if i != j {
				t.Count("values in different elements only", 1)
			}
		}
		judgeAll(t, pats, []*Val{e}, 1, nil)
	})
	c.Run("far", c.N(28*4, 28*40), farApart)
}

// farApart has fields in elements of one array whose positions differ by much, and in arrays between which there
// are many others
func farApart(t *T) {
	r := t.R
	d := 1<<(3+t.Index%14) + []int{0, 0, 0, -1, 1}[r.IntN(5)]
	two := func(names ...string) *Pat {
		pt := &Pat{}
		for i, n := range names {
			pt.setPath(strings.Split(n, "."), []*Matcher{{K: MNumber, S: strconv.Itoa(i + 1)}})
		}
		return pt
	}
	q := t.newQ(t.randOpts()...)
	judge := func(e *Val, want ...string) {
		text := e.text(Style{}, nil)
		got := sortedStrings(t.mustMatch(q, text))
		for i := range want {
			want[i] = "string:" + want[i]
		}
		slices.Sort(want)
		t.Eval(1)
		t.Distinct(fmt.Sprint(t.Index%28, len(text)), fmt.Sprint(want))
		t.Count("far apart", 1)
		if !sameStrings(want, got) {
			t.Fail("elements or arrays that are far apart are taken for the same", map[string]any{"distance": d, "want": want, "got": got, "event": clip(text)})
		}
	}
	filler := func(n int) []*Val {
		out := make([]*Val, n)
		kind := r.IntN(5)
		for i := range out {
			switch kind {
			case 0:
				out[i] = vNum("0")
			case 1:
				out[i] = vObj()
			case 2:
				out[i] = obj1("unused", vStr("]"))
			case 3:
				out[i] = vStr("][")
			default:
				out[i] = vArr()
			}
		}
		return out
	}
	if t.Index/14%2 == 0 { // positions
		t.mustAdd(q, "apart", string(two("l.x", "l.y").text(Style{}, nil)))
		t.mustAdd(q, "third", string(two("l.u", "l.y", "l.x").text(Style{}, nil))) // all three of which are never in one element
		t.mustAdd(q, "together", string(two("l.v", "l.w").text(Style{}, nil)))
		before := r.IntN(4)
		list := vArr(filler(before + d + 1 + r.IntN(3))...)
		list.El[before] = vObj(Member{"x", vNum("1")}, Member{"w", vNum("3")})
		list.El[before+d] = vObj(Member{"y", vNum("2")}, Member{"v", vNum("1")}, Member{"w", vNum("2")})
		if chance(r, 50) {
			list = vArr(filler(r.IntN(3))...)
			for i := range before + d + 1 {
				list.El = append(list.El, vArr()) // the positions that count are those in the outer array
				switch i {
				case before:
					list.El[len(list.El)-1].El = []*Val{obj1("x", vNum("1"))}
				case before + d:
					list.El[len(list.El)-1].El = []*Val{vObj(Member{"y", vNum("2")}, Member{"v", vNum("1")}, Member{"w", vNum("2")})}
				}
			}
		}
		judge(obj1("l", list), "together")
		return
	}
	t.mustAdd(q, "different", string(two("a.x", "c.y").text(Style{}, nil)))
	t.mustAdd(q, "filler", string(two("b").text(Style{}, nil)))
	t.mustAdd(q, "same", string(two("c.z", "c.y").text(Style{}, nil)))
	for m := max(d-3, 0); m <= d; m++ { // how many arrays there are in between
		b := vArr()
		for range m {
			b.El = append(b.El, vArr())
		}
		e := vObj(Member{"a", vArr(obj1("x", vNum("1")))}, Member{"b", b},
			Member{"c", vArr(obj1("z", vNum("1")), vObj(Member{"y", vNum("2")}))})
		judge(e, "different")
	}
}

// crossPattern makes a pattern out of leaves that are, deliberately, in different elements of the same array
func crossPattern(t *T, p *Profile, e *Val) *Pat {
	r := t.R
	ls := leaves(e)
	if len(ls) < 2 {
		return nil
	}
	for try := 0; try < 10; try++ {
		a, b := pick(r, ls), pick(r, ls)
		if a.Path == b.Path || len(a.Trail) == 0 {
			continue
		}
		cross := trailsConflict(a.Trail, b.Trail)
		if !cross && chance(r, 60) {
			continue
		}
		pat := &Pat{}
		ok := true
		for _, l := range []Leaf{a, b} {
			k := MString
			if l.V.K == KNum {
				k = MNumber
			}
			ok = ok && pat.add(strings.Split(l.Path, "\n"), []*Matcher{p.matcherFor(r, k, l.V, true)})
		}
		if !ok {
			continue
		}
		if chance(r, 40) {
			l := pick(r, ls)
			pat.add(strings.Split(l.Path, "\n"), []*Matcher{p.matcherFor(r, MString, l.V, true)})
		}
		if cross {
			t.Count("values in different elements only", 1)
		}
		return pat
	}
	return nil
}

// ---- C05

// judgeValues adds matchers, each as pattern i on field "v", and checks values, each in an event of its own and all
// together in arrays
func judgeValues(t *T, ms []*Matcher, vals []*Val, speed bool) {
	r := t.R
	q := t.newQ(t.randOpts()...)
	if speed {
		_ = q.SetMatcherBuildMode(quamina.BuiltForSpeed)
		t.Count("built for speed", 1)
	}
	var texts []string
	for i, m := range ms {
		txt := pat1("v", m).String()
		texts = append(texts, txt)
		t.mustAdd(q, i, txt)
	}
	all := strings.Join(texts, "\n")
	check := func(text []byte, vs []*Val) {
		got := t.intSet(t.mustMatch(q, text), text)
		for i, m := range ms {
			want := No
			for _, v := range vs {
				switch m.match(v) {
				case Yes:
					want = Yes
				case Unknown:
					if want == No {
						want = Unknown
					}
				}
			}
			t.Eval(1)
			if want == Unknown {
				t.Count("undocumented", 1)
				continue
			}
			if (want == Yes) != got[i] {
				verb := "reported a pattern that doesn't match"
				if want == Yes {
					verb = "didn't report a pattern that matches"
				}
				solo := t.newQ()
				_ = solo.AddPattern(0, texts[i])
				sx, serr := solo.MatchesForEvent(bytes.Clone(text))
				t.Fail(verb, map[string]any{"pattern": texts[i], "event": clip(text), "patterns": texts, "speed": speed,
					"alone": fmt.Sprintf("%v %v", sx, serr)})
			}
			if want == Yes {
				t.Count("matches", 1)
			} else {
				t.Count("non-matches", 1)
			}
		}
		if len(got) > 0 {
			t.Distinct(all, string(text))
		}
	}
	for _, v := range vals {
		check(obj1("v", v).text(t.style(), r), []*Val{v})
	}
	if chance(r, 30) && len(vals) > 0 {
		n := 1 + r.IntN(len(vals))
		sub := vals[len(vals)-n:]
		check(obj1("v", vArr(sub...)).text(t.style(), r), sub)
	}
	t.Sample("%s on %d values", texts[0], len(vals))
}

func runGlobs(c *Ctx) {
	c.Run("long", c.N(40, 600), sizeGlobs)
	c.Run("random", c.N(48000, 400000), func(t *T) {
		r := t.R
		alphabet := []string{"ab", "abc", "a*\\", "aé日", "ab\"", "\U00010400\U00010401é", "a", "a*\"", "*\\\"x"}[t.Index%9]
		gen := stringsOver(alphabet, 3+r.IntN(8))
		if chance(r, 10) {
			gen = unicodeString(4)
		}
		var ms []*Matcher
		var vals []*Val
		n := 1
		if chance(r, 70) {
			n = 1 + r.IntN(7)
		}
		for i := 0; i < n; i++ {
			s := gen(r)
			k := MWildcard
			if chance(r, 35) {
				k = MShell
			}
			if i > 0 && chance(r, 25) {
				k = pick(r, []MKind{MString, MPrefix, MIgnoreCase, MAnythingBut})
			}
			m := (&Profile{Strings: gen}).matcherFor(r, k, vStr(s), true)
			ms = append(ms, m)
			vals = append(vals, vStr(s), vStr(mutateString(r, s, gen)))
			if k == MWildcard || k == MShell {
				vals = append(vals, vStr(globSample(t, m, gen)), vStr(globSample(t, m, gen)), vStr(mutateString(r, globSample(t, m, gen), gen)))
			}
		}
		for i := 0; i < 4; i++ {
			vals = append(vals, vStr(gen(r)))
		}
		if chance(r, 10) {
			vals = append(vals, vNum("1"), &Val{K: KTrue}, &Val{K: KNull}, vStr(""))
		}
		judgeValues(t, ms, vals, speedSafe([]*Pat{{Root: []*PNode{{Name: "v", Vals: ms}}}}) && chance(r, 40))
	})
	// every string over a small alphabet against every glob over it
	c.Run("exhaustive", c.N(48, 400), func(t *T) {
		r := t.R
		var all []string
		var rec func(s string, n int)
		alpha := []string{"ab", "a\"", "a*", "a\\", "a*\""}[t.Index%5]
		rec = func(s string, n int) {
			all = append(all, s)
			if n > 0 {
				for _, c := range alpha {
					rec(s+string(c), n-1)
				}
			}
		}
		rec("", 8-len(alpha))
		var vals []*Val
		for _, s := range all {
			vals = append(vals, vStr(s))
		}
		var ms []*Matcher
		for i := 0; i < 1+t.Index%6; i++ {
			k := MWildcard
			if chance(r, 30) {
				k = MShell
			}
			ms = append(ms, &Matcher{K: k, S: globFrom(r, pick(r, all), k == MWildcard)})
		}
		judgeValues(t, ms, vals, t.Index%2 == 0 && len(ms) < 4)
	})
	// many globs and long values
	c.Run("many", c.N(40, 500), func(t *T) {
		r := t.R
		gen := stringsOver("abcdefgh", 14)
		var ms []*Matcher
		var vals []*Val
		n := 20 + r.IntN(80)
		for i := 0; i < n; i++ {
			k := pick(r, []MKind{MWildcard, MWildcard, MShell, MString, MPrefix})
			m := (&Profile{Strings: gen}).matcherFor(r, k, vStr(gen(r)), true)
			ms = append(ms, m)
			if k == MWildcard || k == MShell {
				vals = append(vals, vStr(globSample(t, m, gen)))
			}
		}
		long := strings.Repeat(gen(r)+"a", 20+r.IntN(200))
		vals = append(vals, vStr(long))
		rs := []rune(long)
		for i := 0; i < 3; i++ {
			a := r.IntN(len(rs))
			ms = append(ms, &Matcher{K: MWildcard, S: string(rs[:a/2]) + "*" + string(rs[a:])},
				&Matcher{K: MWildcard, S: "*" + string(rs[a:]) + "*"}, &Matcher{K: MWildcard, S: "*" + string(rs[a/2:a]) + "b"})
		}
		judgeValues(t, ms, vals, false)
	})
}

// globSample makes a string that the glob matches
func globSample(t *T, m *Matcher, gen func(r *rand.Rand) string) string {
	var b []byte
	for _, e := range parseGlob(m.S, m.K == MWildcard) {
		if e == -1 {
			if chance(t.R, 70) {
				b = append(b, gen(t.R)...)
			}
			continue
		}
		b = append(b, byte(e))
	}
	return strings.ToValidUTF8(string(b), "?")
}

// ---- C08

func runIgnoreCase(c *Ctx) {
	c.Run("long", c.N(100, 1500), func(t *T) {
		sizeStrings(t, []MKind{MIgnoreCase, MIgnoreCase, MString}, 5000, []string{"aB", "aBÉ", "k1"}[t.Index%3])
	})
	const chunk = 4096
	// each character that has case variants, with every variant and with characters that aren't
	c.Run("folding", (unicode.MaxRune+1+chunk-1)/chunk, func(t *T) {
		r := t.R
		var rs []rune
		for x := rune(t.Index * chunk); x < rune((t.Index+1)*chunk) && x <= unicode.MaxRune; x++ {
			if !utf8.ValidRune(x) {
				continue
			}
			if unicode.SimpleFold(x) != x || r.IntN(64) == 0 {
				rs = append(rs, x)
			}
		}
		for len(rs) > 0 {
			n := min(len(rs), 1+r.IntN(12))
			batch := rs[:n]
			rs = rs[n:]
			pre, post := stringsOver("aK\u212aß9", 2)(r), stringsOver("zS\u017fé", 2)(r)
			var ms []*Matcher
			var vals []*Val
			for _, x := range batch {
				ms = append(ms, &Matcher{K: MIgnoreCase, S: pre + string(x) + post})
				orbit := []rune{x}
				for f := unicode.SimpleFold(x); f != x; f = unicode.SimpleFold(f) {
					orbit = append(orbit, f)
				}
				for _, o := range orbit {
					vals = append(vals, vStr(pre+string(o)+post), vStr(swapCase(r, pre+string(o)+post)))
					for _, d := range []rune{-1, 1, 32, -32} {
						if utf8.ValidRune(o + d) {
							vals = append(vals, vStr(pre+string(o+d)+post))
						}
					}
				}
				if len(orbit) > 1 {
					t.Count("folding classes", 1)
				}
				vals = append(vals, vStr(pre+strings.ToUpper(string(x))+post), vStr(pre+strings.ToLower(string(x))+post), vStr(pre+post))
			}
			judgeValues(t, ms, vals, false)
		}
	})
	// what's near characters with case, but has none, or another partner: the distances at which the partners of its neighbours are
	c.Run("distances", (unicode.MaxRune+1+chunk-1)/chunk, func(t *T) {
		r := t.R
		var ms []*Matcher
		var vals []*Val
		flush := func() {
			if len(ms) > 0 {
				judgeValues(t, ms, vals, false)
			}
			ms, vals = nil, nil
		}
		for x := rune(t.Index * chunk); x < rune((t.Index+1)*chunk) && x <= unicode.MaxRune; x++ {
			if !utf8.ValidRune(x) {
				continue
			}
			distances := map[rune]bool{}
			for y := max(x-48, 0); y <= x+48; y++ {
				if f := unicode.SimpleFold(y); f != y {
					distances[f-y] = true
					distances[y-f] = true
				}
			}
			if len(distances) == 0 {
				if r.IntN(40) != 0 {
					continue
				}
				for _, d := range []rune{-1, 1, 32, -32, 80, -80, 48, -48} {
					distances[d] = true
				}
			}
			ds := make([]rune, 0, len(distances))
			for d := range distances {
				ds = append(ds, d)
			}
			sort.Slice(ds, func(i, j int) bool { return ds[i] < ds[j] })
			pre, post := stringsOver("aK9_", 2)(r), stringsOver("zS[é", 2)(r)
			ms = append(ms, &Matcher{K: MIgnoreCase, S: pre + string(x) + post})
			vals = append(vals, vStr(pre+string(x)+post))
			for _, d := range ds {
				if utf8.ValidRune(x + d) {
					vals = append(vals, vStr(pre+string(x+d)+post))
				}
			}
			t.Count("characters near ones with case", 1)
			if len(ms) >= 8 {
				flush()
			}
		}
		flush()
	})
	c.Run("random", c.N(60000, 200000), func(t *T) {
		r := t.R
		alphabet := []string{"aAbB", "kK\u212asS\u017f", "åÅ\u212bµμΜ", "σςΣẞßθϑΘϴ", "ǅǄǆiIİı", "𐐀𐐨aA", "ᎠꭰაᲐ", "-_9 "}[t.Index%8]
		gen := stringsOver(alphabet, 5)
		var ms []*Matcher
		var vals []*Val
		for i := 0; i < 1+r.IntN(6); i++ {
			s := gen(r)
			k := MIgnoreCase
			if i > 0 && chance(r, 40) {
				k = pick(r, []MKind{MString, MPrefix, MWildcard, MAnythingBut, MRegexp})
			}
			ms = append(ms, (&Profile{Strings: gen}).matcherFor(r, k, vStr(s), true))
			vals = append(vals, vStr(s), vStr(swapCase(r, s)), vStr(swapCase(r, s)), vStr(mutateString(r, s, gen)),
				vStr(strings.ToUpper(s)), vStr(strings.ToLower(s)))
		}
		judgeValues(t, ms, vals, speedSafe([]*Pat{{Root: []*PNode{{Name: "v", Vals: ms}}}}) && chance(r, 30))
	})
}

// ---- C09

func runAnythingBut(c *Ctx) {
	c.Run("long", c.N(200, 3000), func(t *T) {
		sizeStrings(t, []MKind{MAnythingBut, MAnythingBut, MPrefix}, 5000, []string{"ab", "aé", "a"}[t.Index%3])
	})
	c.Run("random", c.N(72000, 400000), func(t *T) {
		r := t.R
		alphabet := []string{"ab", "a", "abcdefgh", "aé日\U00010400", "ab\"\\", "\x00\x1f a"}[t.Index%6]
		gen := stringsOver(alphabet, 2+r.IntN(7))
		if chance(r, 10) {
			gen = mixedString
		}
		var ms []*Matcher
		var vals []*Val
		for i := 0; i < 1+r.IntN(6); i++ {
			s := gen(r)
			switch x := r.IntN(10); {
			case x < 5:
				m := &Matcher{K: MAnythingBut}
				n := 1 + r.IntN(4)
				if chance(r, 10) {
					n = 1 + r.IntN(40)
				}
				for k := 0; k < n; k++ {
					e := gen(r)
					if k > 0 && chance(r, 50) { // related to another: an extension, a prefix
						e = pick(r, m.List)
						if chance(r, 50) {
							e += gen(r)
						} else if rs := []rune(e); len(rs) > 0 {
							e = string(rs[:r.IntN(len(rs))])
						}
					}
					m.List = append(m.List, e)
					vals = append(vals, vStr(e), vStr(mutateString(r, e, gen)))
				}
				ms = append(ms, m)
			case x < 8:
				rs := []rune(s)
				ms = append(ms, &Matcher{K: MPrefix, S: string(rs[:r.IntN(len(rs)+1)])})
				vals = append(vals, vStr(s), vStr(string(rs[:r.IntN(len(rs)+1)])), vStr(s+gen(r)))
			default:
				ms = append(ms, (&Profile{Strings: gen}).matcherFor(r, pick(r, []MKind{MString, MIgnoreCase, MWildcard, MShell}), vStr(s), true))
				vals = append(vals, vStr(s))
			}
		}
		for i := 0; i < 4; i++ {
			vals = append(vals, vStr(gen(r)))
		}
		vals = append(vals, vStr(""))
		if chance(r, 20) { // prefixes are of strings only
			vals = append(vals, vNum("12"), vStr("12"), &Val{K: KTrue}, vStr("true"), vStr("t"))
			ms = append(ms, &Matcher{K: MPrefix, S: "1"}, &Matcher{K: MPrefix, S: "t"}, &Matcher{K: MPrefix, S: ""})
		}
		judgeValues(t, ms, vals, speedSafe([]*Pat{{Root: []*PNode{{Name: "v", Vals: ms}}}}) && chance(r, 30))
	})
	// lists that spell the same once their strings are put together, in
	// whatever way, and that exclude different strings
	c.Run("twins", c.N(12000, 60000), func(t *T) {
		r := t.R
		sep := pick(r, []string{"", ",", " ", "|", "\x00", "\"", "\"\"", "\",\"", ", ", "\n", "/", "\\"})
		gen := stringsOver("ab"+sep, 1+r.IntN(5))
		var base []string
		for i := 0; i < 1+r.IntN(5); i++ {
			base = append(base, gen(r))
		}
		whole := strings.Join(base, sep)
		lists := [][]string{base}
		for i := 0; i < 1+r.IntN(4); i++ {
			var l []string
			switch x := r.IntN(4); {
			case x == 0: // another order
				l = slices.Clone(base)
				r.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			case x == 1: // some strings joined
				l = []string{base[0]}
				for _, e := range base[1:] {
					if chance(r, 50) {
						l[len(l)-1] += sep + e
					} else {
						l = append(l, e)
					}
				}
			case x == 2 && sep != "": // split wherever the separator is found
				l = strings.Split(whole, sep)
			default: // cut anywhere
				rs := []rune(strings.Join(base, ""))
				for len(rs) > 0 {
					n := 1 + r.IntN(len(rs))
					l = append(l, string(rs[:n]))
					rs = rs[n:]
				}
				if l == nil {
					l = []string{""}
				}
			}
			lists = append(lists, l)
		}
		var ms []*Matcher
		var vals []*Val
		for _, l := range lists {
			ms = append(ms, &Matcher{K: MAnythingBut, List: l})
			for _, e := range l {
				vals = append(vals, vStr(e), vStr(mutateString(r, e, gen)))
			}
		}
		vals = append(vals, vStr(whole))
		judgeValues(t, ms, vals, chance(r, 30))
	})
	c.Run("large", c.N(60, 800), func(t *T) { // long lists, long strings
		r := t.R
		gen := stringsOver("abcdef0123", 30)
		var ms []*Matcher
		var vals []*Val
		for i := 0; i < 3; i++ {
			m := &Matcher{K: MAnythingBut}
			for k := 0; k < 50+r.IntN(400); k++ {
				e := gen(r)
				if k > 0 && chance(r, 30) {
					e = pick(r, m.List) + gen(r)
				}
				m.List = append(m.List, e)
			}
			ms = append(ms, m)
			for k := 0; k < 40; k++ {
				e := pick(r, m.List)
				vals = append(vals, vStr(e), vStr(mutateString(r, e, gen)))
			}
		}
		long := strings.Repeat(gen(r)+"x", 1+r.IntN(300))
		for k := 0; k < 6; k++ {
			cut := r.IntN(len(long) + 1)
			ms = append(ms, &Matcher{K: MPrefix, S: long[:cut]})
			vals = append(vals, vStr(long[:cut]), vStr(long[:cut/2]+"y"))
		}
		vals = append(vals, vStr(long))
		judgeValues(t, ms, vals, false)
	})
	// anything-but next to other fields, and in arrays
	c.Run("fields", c.N(18000, 60000), func(t *T) {
		r := t.R
		p := &Profile{Names: []string{"a", "b", "c"}, Strings: stringsOver("ab", 2), Depth: 2, Width: 3, ArrayPct: 30, ObjPct: 15, LitPct: 0,
			EmptyPct: 5, Kinds: []MKind{MAnythingBut, MPrefix, MString}, MaxVals: 3, ExistPct: 10, Arr: 3}
		var events []*Val
		for i := 0; i < 1+r.IntN(4); i++ {
			e := p.event(r)
			events = append(events, e, p.mutateEvent(r, e))
		}
		judgeAll(t, genPats(r, p, events, 1+r.IntN(15)), events, 1+r.IntN(2), t.randOpts())
	})
}

// ---- C10

func runNumbers(c *Ctx) {
	c.Run("lists", c.N(8, 200), func(t *T) {
		sizeLists(t, func(i int) (*Matcher, *Val) {
			s := strconv.Itoa(i*7919%100003 - 50000)
			return &Matcher{K: MNumber, S: s}, vNum(respell(s, t.R))
		})
	})
	c.Run("pairs", c.N(30000, 150000), func(t *T) {
		r := t.R
		var ms []*Matcher
		var vals []*Val
		for i := 0; i < 1+r.IntN(10); i++ {
			s := randNumber(r)
			f, ok := numVal(s)
			if !ok {
				continue
			}
			ms = append(ms, &Matcher{K: MNumber, S: pick(r, []string{s, respell(s, r)})})
			vals = append(vals, vNum(respell(s, r)), vNum(respell(s, r)), vStr(s))
			for _, g := range []float64{math.Nextafter(f, math.Inf(1)), math.Nextafter(f, math.Inf(-1)), -f, f * 10, f + 1} {
				if !math.IsInf(g, 0) {
					vals = append(vals, vNum(strconv.FormatFloat(g, 'g', -1, 64)))
					t.Count("neighbours", 1)
				}
			}
		}
		if len(ms) == 0 {
			return
		}
		if chance(r, 50) {
			gen := func(r *rand.Rand) string { return pick(r, specialNumbers) }
			ms = append(ms, (&Profile{Strings: gen}).matcherFor(r, pick(r, []MKind{MString, MPrefix, MWildcard, MAnythingBut, MRegexp}), vStr(gen(r)), true))
			r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		}
		judgeValues(t, ms, vals, speedSafe([]*Pat{{Root: []*PNode{{Name: "v", Vals: ms}}}}) && chance(r, 30))
	})
	c.Run("fields", c.N(9000, 50000), func(t *T) {
		r := t.R
		p := *profiles()[7]
		var events []*Val
		for i := 0; i < 1+r.IntN(4); i++ {
			e := p.event(r)
			events = append(events, e, p.mutateEvent(r, e), p.mutateEvent(r, e))
		}
		pats := genPats(r, &p, events, 1+r.IntN(20))
		judgeAll(t, pats, events, 1+r.IntN(3), t.randOpts())
	})
	// many numbers in one automaton
	c.Run("many", c.N(16, 200), func(t *T) {
		r := t.R
		q := t.newQ()
		by := map[float64][]int{}
		n := 1500
		var nums []string
		for i := 0; i < n; i++ {
			s := randNumber(r)
			if f, ok := numVal(s); ok {
				t.mustAdd(q, i, fmt.Sprintf(`{"v":[%s]}`, s))
				by[f+0] = append(by[f+0], i) // +0 turns -0 into 0
				nums = append(nums, s)
			}
		}
		for k := 0; k < 1500; k++ {
			s := randNumber(r)
			if chance(r, 60) {
				s = respell(pick(r, nums), r)
			}
			f, ok := numVal(s)
			if !ok {
				continue
			}
			text := []byte(fmt.Sprintf(`{"v":%s}`, s))
			got := t.intSet(t.mustMatch(q, text), text)
			want := by[f+0]
			t.Eval(1)
			t.Count("matches", len(want))
			for _, i := range want {
				if !got[i] {
					t.Fail("didn't report a number that's equal", map[string]any{"event": clip(text), "X": i})
				}
			}
			if len(got) != len(want) {
				t.Fail("reported a number that isn't equal", map[string]any{"event": clip(text), "got": fmt.Sprint(got), "want": want})
			}
		}
	})
}

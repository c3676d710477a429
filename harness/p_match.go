package main

// C01: what is reported is exactly what matches.

import (
	"fmt"
	"slices"
	"strings"

	quamina "quamina.net/go/quamina/v2"
)

func init() {
	register(&Check{
		ID:       "C01",
		Rule:     "distinct (pattern, event) pairs judged by the reference model that match, or that don't although the event has one of the pattern's fields",
		Required: []string{"matches", "near misses", "interleaved adds", "large instances", "large events", "wide patterns", "patterns of lists", "repeated while adding", "crowd", "long lists", "long names and paths"},
		Run: func(c *Ctx) {
			c.Run("mix", c.N(18000, 300000), exactMix)
			runRepeated(c, false, c.N(3000, 50000))
			c.Run("large", c.N(24, 160), exactLarge)
			c.Run("wide", c.N(2000, 20000), exactWide)
			c.Run("lists", c.N(4000, 60000), exactLists)
			c.Run("bigevent", c.N(40, 400), exactBigEvent)
			c.Run("crowd", c.N(1, 6), exactCrowd)
			c.Run("sizelists", c.N(24, 300), func(t *T) {
				sizeLists(t, func(i int) (*Matcher, *Val) {
					s := fmt.Sprintf("%d-%s", i*7919%3001, longString(t.R, 1+i%5, "ab"))
					if t.Index%3 == 0 && i%10 == 0 {
						return &Matcher{K: MPrefix, S: s}, vStr(s + "!")
					}
					return &Matcher{K: MString, S: s}, vStr(s)
				})
			})
			c.Run("sizenames", c.N(60, 800), sizeNames)
			c.Run("known", 1, knownNewline)
		},
	})
}

// exactMix: an instance with patterns of all flavours, which events and further patterns are fed to in turn
func exactMix(t *T) {
	r := t.R
	ps := profiles()
	p := ps[t.Index%len(ps)]
	var events []*Val
	for i := 0; i < 1+r.IntN(4); i++ {
		e := p.event(r)
		events = append(events, e)
		for k := r.IntN(3); k > 0; k-- {
			events = append(events, p.mutateEvent(r, e))
		}
	}
	w := &World{t: t, q: t.newQ(t.randOpts()...)}
	w.pats = genPats(r, p, events, 1+r.IntN(p.MaxPats))
	if speedSafe(w.pats) && chance(r, 50) {
		_ = w.q.SetMatcherBuildMode(quamina.BuiltForSpeed)
		t.Count("built for speed", 1)
	}
	steps := 1 + r.IntN(3)
	for s := 1; s <= steps; s++ {
		w.addUpTo(len(w.pats) * s / steps)
		if s > 1 {
			t.Count("interleaved adds", 1)
		}
		for _, e := range events {
			w.judge(e, e.text(t.style(), r))
		}
	}
	if chance(r, 20) { // a copy sees the same
		w.q = w.q.Copy()
		for _, e := range events {
			w.judge(e, e.text(t.style(), r))
		}
	}
}

// exactLarge: thousands of patterns in one instance
func exactLarge(t *T) {
	r := t.R
	p := &Profile{Names: manyNames(12), Strings: stringsOver("abcdefghij-é", 12), Depth: 2, Width: 8, ArrayPct: 15, ObjPct: 15, NumPct: 25,
		LitPct: 5, EmptyPct: 2, Kinds: detKinds, MaxVals: 6, ExistPct: 6, Arr: 5}
	n := 1500
	switch t.Index % 4 {
	case 1:
		p.Names = p.Names[:2]
		n = 3000
	case 2:
		p.Kinds = allKinds
		n = 250
	case 3:
		p.Strings = stringsOver("0123456789abcdef", 40)
		n = 2000
	}
	var events []*Val
	for i := 0; i < 60; i++ {
		events = append(events, p.event(r))
	}
	w := &World{t: t, q: t.newQ(t.randOpts()...)}
	w.pats = genPats(r, p, events, n)
	w.addUpTo(len(w.pats))
	t.Count("large instances", 1)
	t.Count("max patterns", 0)
	t.Res.Counts["max patterns"] = max(t.Res.Counts["max patterns"], int64(n))
	for _, e := range events {
		w.judge(e, e.text(t.style(), r))
	}
	for i := 0; i < 20; i++ {
		e := p.mutateEvent(r, pick(r, events))
		w.judge(e, e.text(t.style(), r))
	}
}

// exactCrowd: more patterns than fit in 16 bits, all of which are looked for
func exactCrowd(t *T) {
	const n = 70_000
	q := t.newQ(quamina.WithPatternDeletion(t.Index%2 == 1))
	order := t.R.Perm(n)
	if t.Index%3 == 0 {
		slices.Sort(order)
	}
	t.mustAdd(q, -1, `{"a":[{"prefix":"v12"}]}`)
	for _, i := range order {
		var s string
		switch i % 4 {
		case 0:
			s = fmt.Sprintf(`{"a":["v%d"]}`, i)
		case 1:
			s = fmt.Sprintf(`{"a":[%d]}`, i)
		case 2:
			s = fmt.Sprintf(`{"a":[{"equals-ignore-case":"w%d"}]}`, i)
		default: // the same value as another one, and a second field
			s = fmt.Sprintf(`{"a":["v%d"],"b":[true]}`, i-3)
		}
		t.mustAdd(q, i, s)
	}
	for i := 0; i < n; i++ {
		var s string
		want := []int{i}
		switch i % 4 {
		case 0:
			s = fmt.Sprintf(`{"a":"v%d","b":false}`, i)
		case 1:
			s = fmt.Sprintf(`{"b":true,"a":%d.0}`, i)
		case 2:
			s = fmt.Sprintf(`{"a":"W%d"}`, i)
		default:
			s = fmt.Sprintf(`{"a":"v%d","b":true}`, i-3)
			want = append(want, i-3)
		}
		if strings.HasPrefix(s, `{"a":"v12`) {
			want = append(want, -1)
		}
		slices.Sort(want)
		xs := t.mustMatch(q, []byte(s))
		t.Eval(1)
		if len(xs) != len(want) || fmt.Sprint(sortedInts(xs)) != fmt.Sprint(want) {
			t.Fail("with 70,000 patterns, an event is reported for others than those that match", map[string]any{"event": s, "reported": fmt.Sprint(sortedInts(xs)), "matching": want})
		}
	}
	t.Count("crowd", n)
	t.Distinct("crowd", fmt.Sprint(order[:20]))
}

// exactWide: patterns with many fields, which part from each other at any of them, so that several transitions are taken
// at many levels for a single event
func exactWide(t *T) {
	r := t.R
	n := 6 + r.IntN(30)
	name := func(i int) string { return fmt.Sprintf("k%02d", i) }
	e := vObj()
	arrays := 0
	for i := 0; i < n; i++ {
		switch v := pick(r, []*Val{vStr("vw"), vStr("vw"), vStr("vw"), vStr("vw"), vStr("vw"), vStr("v"), vNum("12"), {K: KTrue}}); {
		case arrays < 4 && chance(r, 15):
			arrays++
			e.Mem = append(e.Mem, Member{name(i), vArr(vStr("z"), v, vStr("vwv"))})
		case arrays < 4 && chance(r, 8):
			arrays++
			e.Mem = append(e.Mem, Member{name(i), vArr(vObj(Member{"a", v}), vObj(Member{"a", vStr("z")}, Member{"b", v}))})
		default:
			e.Mem = append(e.Mem, Member{name(i), v})
		}
	}
	choices := []*Matcher{{K: MString, S: "vw"}, {K: MString, S: "v"}, {K: MPrefix, S: "v"}, {K: MPrefix, S: "vw"}, {K: MWildcard, S: "*w"}, {K: MWildcard, S: "v*"},
		{K: MShell, S: "*v*"}, {K: MAnythingBut, List: []string{"q", "z"}}, {K: MIgnoreCase, S: "VW"}, {K: MNumber, S: "12.0"}, {K: MTrue}, {K: MExistsTrue}, {K: MString, S: "z"}}
	w := &World{t: t, q: t.newQ(t.randOpts()...)}
	few := chance(r, 50) // so that many have a beginning in common
	if few {
		r.Shuffle(len(choices), func(i, j int) { choices[i], choices[j] = choices[j], choices[i] })
		choices = choices[:3+r.IntN(3)]
	}
	speed := chance(r, 30)
	several := pick(r, []int{5, 30, 90})
	var all [][][]*Matcher
	for k := 4 + r.IntN(4+r.IntN(40)); k > 0; k-- {
		from := 0
		fields := make([][]*Matcher, n)
		if len(all) > 0 && chance(r, 70) {
			from = r.IntN(n)
			copy(fields, pick(r, all)[:from])
		}
		for i := from; i < n; i++ {
			val := e.Mem[i].Val
			var good []*Matcher
			for _, m := range choices {
				if m.K == MExistsTrue && val.K == KStr || m.K != MExistsTrue && (val.K == KArr || m.match(val) == Yes) {
					good = append(good, m)
				}
			}
			if len(good) == 0 || chance(r, 5) {
				continue
			}
			vals := 1
			if chance(r, several) {
				vals = 2 + r.IntN(3)
			}
			for ; vals > 0; vals-- {
				m := pick(r, good)
				if chance(r, 1) {
					m = pick(r, choices)
				}
				if m.K == MExistsTrue || m.K == MAnythingBut { // these stand alone
					fields[i] = []*Matcher{m}
					break
				}
				fields[i] = append(fields[i], m)
			}
		}
		all = append(all, fields)
		pt := &Pat{}
		for i, f := range fields {
			if f != nil {
				pt.setPath([]string{name(i)}, f)
			}
		}
		if len(pt.fields()) == 0 {
			pt.setPath([]string{name(0)}, []*Matcher{choices[0]})
		}
		w.pats = append(w.pats, pt)
	}
	if speed && speedSafe(w.pats) {
		_ = w.q.SetMatcherBuildMode(quamina.BuiltForSpeed)
	}
	t.Count("wide patterns", len(w.pats))
	w.addUpTo(len(w.pats))
	for i := 0; i < 2; i++ {
		w.judge(e, e.text(t.style(), r))
	}
	drop := &Val{K: KObj}
	for _, m := range e.Mem {
		if !chance(r, 4) {
			drop.Mem = append(drop.Mem, m)
		}
	}
	w.judge(drop, drop.text(t.style(), r))
}

// exactLists: patterns that have lists of the same few values in the same few fields, which begin alike or equal each other in
// some of the fields
func exactLists(t *T) {
	r := t.R
	n := 1 + r.IntN(5)
	names := []string{"a", "b", "c", "d", "e"}[:n]
	values := []*Val{vStr("x"), vStr("y"), vStr("xy"), vNum("1"), {K: KTrue}}
	values = values[:2+r.IntN(len(values)-1)]
	matcher := func() *Matcher {
		switch v := pick(r, values); {
		case v.K == KNum:
			return &Matcher{K: MNumber, S: pick(r, []string{"1", "1.0"})}
		case v.K == KTrue:
			return &Matcher{K: MTrue}
		case chance(r, 8):
			return &Matcher{K: MPrefix, S: v.S}
		case chance(r, 8):
			return &Matcher{K: MIgnoreCase, S: strings.ToUpper(v.S)}
		case chance(r, 4):
			return &Matcher{K: MWildcard, S: "*" + v.S}
		default:
			return &Matcher{K: MString, S: v.S}
		}
	}
	w := &World{t: t, q: t.newQ(t.randOpts()...)}
	var all [][][]*Matcher
	for k := 1 + r.IntN(12); k > 0; k-- {
		fields := make([][]*Matcher, n)
		if len(all) > 0 && chance(r, 60) { // like another but for a field, or a value of a field
			copy(fields, pick(r, all))
			i := r.IntN(n)
			switch f := fields[i]; {
			case chance(r, 20):
				fields[i] = nil
			case len(f) > 0 && len(f) < 4 && f[0].K != MExistsTrue && f[0].K != MExistsFalse && chance(r, 50):
				fields[i] = append(append([]*Matcher{}, f...), matcher())
			default:
				fields[i] = []*Matcher{matcher()}
			}
		} else {
			for i := range fields {
				switch {
				case chance(r, 15):
				case chance(r, 8):
					fields[i] = []*Matcher{{K: pick(r, []MKind{MExistsTrue, MExistsFalse})}}
				default:
					for v := 1 + r.IntN(1+r.IntN(4)); v > 0; v-- {
						fields[i] = append(fields[i], matcher())
					}
				}
			}
		}
		pt := &Pat{}
		for i, f := range fields {
			if f != nil {
				pt.setPath([]string{names[i]}, f)
			}
		}
		if len(pt.fields()) == 0 {
			continue
		}
		all = append(all, fields)
		w.pats = append(w.pats, pt)
	}
	t.Count("patterns of lists", len(w.pats))
	step := 1 + r.IntN(max(1, len(w.pats)))
	for at := step; ; at += step {
		w.addUpTo(min(at, len(w.pats)))
		for i := 0; i < 6; i++ {
			e := vObj()
			for _, name := range names {
				switch {
				case chance(r, 10):
				case chance(r, 15):
					e.Mem = append(e.Mem, Member{name, vArr(pick(r, values), vStr("q"), pick(r, values))})
				default:
					e.Mem = append(e.Mem, Member{name, pick(r, values)})
				}
			}
			w.judge(e, e.text(t.style(), r))
		}
		if at >= len(w.pats) {
			break
		}
	}
}

// exactBigEvent: long strings, wide arrays, deep nesting, many members
func exactBigEvent(t *T) {
	r := t.R
	w := &World{t: t, q: t.newQ(t.randOpts()...)}
	var e *Val
	switch t.Index % 5 {
	case 0: // long strings
		n := []int{255, 256, 257, 1023, 4095, 4096, 16000}[r.IntN(7)]
		s := strings.Repeat(pick(r, []string{"a", "ab", "é", "日本", "\U00010400"}), n/2) + stringsOver("xyz", 3)(r)
		e = obj1("long", vStr(s))
		if chance(r, 50) {
			e.Mem = append(e.Mem, Member{"z", vArr(vStr("q"), vStr(s+"!"))})
		}
		cut := len([]rune(s)) * r.IntN(100) / 100
		pre := string([]rune(s)[:cut])
		w.pats = []*Pat{
			pat1("long", &Matcher{K: MString, S: s}), pat1("long", &Matcher{K: MString, S: s + "y"}),
			pat1("long", &Matcher{K: MPrefix, S: pre}), pat1("long", &Matcher{K: MPrefix, S: pre + "\x01"}),
			pat1("long", &Matcher{K: MWildcard, S: pre[:min(len(pre), 20)/4*4] + "*"}), pat1("z", &Matcher{K: MAnythingBut, List: []string{s + "!", "q"}}),
			pat1("z", &Matcher{K: MString, S: s + "!"}),
		}
		for i := range w.pats { // the cut must not produce invalid UTF-8
			for _, f := range w.pats[i].fields() {
				for _, m := range f.Vals {
					m.S = strings.ToValidUTF8(m.S, "")
				}
			}
		}
	case 1: // wide array
		n := []int{200, 300, 1000, 5000, 40000}[r.IntN(5)]
		a := vArr()
		for i := 0; i < n; i++ {
			a.El = append(a.El, vObj(Member{"id", vNum(fmt.Sprint(i))}, Member{"k", vStr(fmt.Sprintf("v%d", i%7))}))
		}
		e = obj1("list", a)
		for k := 0; k < 8; k++ {
			i := r.IntN(n)
			j := i % 7
			if k%2 == 1 {
				j = r.IntN(7)
			}
			pt := &Pat{}
			pt.setPath([]string{"list", "id"}, []*Matcher{{K: MNumber, S: fmt.Sprint(i)}})
			pt.setPath([]string{"list", "k"}, []*Matcher{{K: MString, S: fmt.Sprintf("v%d", j)}})
			w.pats = append(w.pats, pt)
		}
		w.pats = append(w.pats, patPath("list\nid", &Matcher{K: MNumber, S: fmt.Sprint(n)}), patPath("list\nid", &Matcher{K: MNumber, S: fmt.Sprint(n - 1)}))
	case 2: // deep nesting
		n := []int{50, 150, 300, 600}[r.IntN(4)]
		v := vStr("bottom")
		var path []string
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("n%d", i%3)
			path = append([]string{name}, path...)
			v = vObj(Member{name, v}, Member{"x", vNum("1")})
			if chance(r, 30) {
				v = vArr(vStr("other"), v)
			}
		}
		for v.K == KArr {
			v = v.El[1]
		}
		e = v
		w.pats = append(w.pats, patPath(strings.Join(path, "\n"), &Matcher{K: MString, S: "bottom"}),
			patPath(strings.Join(path, "\n"), &Matcher{K: MString, S: "other"}),
			patPath(strings.Join(path[:n/2], "\n")+"\nx", &Matcher{K: MNumber, S: "1"}),
			patPath(strings.Join(path[:n/2], "\n")+"\ny", &Matcher{K: MExistsFalse}),
			patPath(strings.Join(path[:n-1], "\n")+"\nx\ny", &Matcher{K: MExistsFalse}))
	case 3: // many members
		n := []int{100, 1000, 8000}[r.IntN(3)]
		e = vObj()
		for i := 0; i < n; i++ {
			e.Mem = append(e.Mem, Member{fmt.Sprintf("m%d", i), pick(r, []*Val{vNum(fmt.Sprint(i)), vStr(fmt.Sprint(i)), {K: KTrue}, vObj(Member{"m1", vNum("2")})})})
		}
		for k := 0; k < 20; k++ {
			i, j := r.IntN(n+3), r.IntN(n+3)
			pt := &Pat{}
			pt.add([]string{fmt.Sprintf("m%d", i)}, []*Matcher{{K: MNumber, S: fmt.Sprint(i)}, {K: MString, S: fmt.Sprint(i)}, {K: MTrue}})
			pt.add([]string{fmt.Sprintf("m%d", j)}, []*Matcher{{K: pick(r, []MKind{MExistsTrue, MExistsFalse})}})
			w.pats = append(w.pats, pt)
		}
	default: // a pattern with many fields
		n := 3 + r.IntN(60)
		e = vObj()
		pt := &Pat{}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("k%d", i)
			e.Mem = append(e.Mem, Member{name, vStr("v")})
			pt.setPath([]string{name}, []*Matcher{{K: MString, S: "v"}})
		}
		pt2 := &Pat{}
		for i := 0; i < n; i++ {
			v := "v"
			if i == n-1-r.IntN(2) {
				v = "w"
			}
			pt2.setPath([]string{fmt.Sprintf("k%d", i)}, []*Matcher{{K: MString, S: v}})
		}
		pt3 := &Pat{}
		for i := 0; i < n; i++ {
			pt3.setPath([]string{fmt.Sprintf("k%d", i)}, []*Matcher{{K: MExistsTrue}})
		}
		pt3.setPath([]string{"kk"}, []*Matcher{{K: MExistsFalse}})
		w.pats = []*Pat{pt, pt2, pt3}
	}
	t.Count("large events", 1)
	w.addUpTo(len(w.pats))
	for i := 0; i < 2; i++ {
		w.judge(e, e.text(t.style(), r))
	}
}

// knownNewline: the path separator used internally is the newline character, which may also be part of a name
func knownNewline(t *T) {
	q := t.newQ()
	t.mustAdd(q, 1, `{"a\nb":[1]}`)
	if xs := t.mustMatch(q, []byte(`{"a":{"b":1}}`)); len(xs) != 0 {
		t.Known(`newline-in-name: the pattern {"a\nb":[1]} matches the event {"a":{"b":1}}`)
	}
	q = t.newQ()
	t.mustAdd(q, 1, `{"a\nb":[1]}`)
	if xs := t.mustMatch(q, []byte(`{"a\nb":1}`)); len(xs) != 1 {
		t.Known(`newline-in-name: the pattern {"a\nb":[1]} doesn't match the event {"a\nb":1}`)
	}
}

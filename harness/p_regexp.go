package main

// C06: the language a regexp stands for.

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode/utf8"

	quamina "quamina.net/go/quamina/v2"
)

func init() {
	register(&Check{
		ID:       "C06",
		Rule:     "distinct (set of regexps, value) pairs for which at least one regexp matched, plus each (class or property, character) pair at a boundary of the class",
		Required: []string{"matches", "non-matches", "built for speed", "scalar values tried", "boundaries", "inverted ranges", "variants"},
		Run:      runRegexps,
	})
}

func reMatcher(a *reAlt) *Matcher { return &Matcher{K: MRegexp, S: a.String(), Re: a} }

func (t *T) reGen() *reGen {
	g := &reGen{r: t.R, alphabet: []rune("ab"), maxCount: 4, negPct: 2}
	switch t.Index % 8 {
	case 1:
		g.alphabet = []rune("abcd-")
	case 2:
		g.alphabet = []rune("aéß日本")
	case 3:
		g.alphabet = []rune("a\"\\/~*.")
	case 4:
		g.alphabet, g.wide = []rune("aé\u2028\U00010400\U0010ffff"), true
	case 5:
		g.alphabet, g.props, g.maxCount = []rune("aB1 -$"), true, 2
	case 6:
		g.maxCount = 9
	case 7:
		g.alphabet = []rune("a")
	}
	return g
}

// rangeEdges are the characters next to the borders of a class
func rangeEdges(c *reClass) []rune {
	var out []rune
	add := func(x rune) {
		if x >= 0 && x <= 0x10ffff && (x < 0xd800 || x > 0xdfff) {
			out = append(out, x)
		}
	}
	for _, it := range c.Items {
		if it.Prop == "" {
			add(it.Lo)
			add(it.Lo - 1)
			add(it.Hi)
			add(it.Hi + 1)
			add((it.Lo + it.Hi) / 2)
		}
	}
	return out
}

func classesOf(a *reAlt) []*reClass {
	var out []*reClass
	for _, b := range a.Branches {
		for _, p := range b {
			if p.Class != nil {
				out = append(out, p.Class)
			}
			if p.Group != nil {
				out = append(out, classesOf(p.Group)...)
			}
		}
	}
	return out
}

func runRegexps(c *Ctx) {
	c.Run("random", c.N(8000, 300000), func(t *T) {
		r := t.R
		g := t.reGen()
		strs := func() string { return stringsOver(string(g.alphabet), 6)(r) }
		var ms []*Matcher
		var vals []*Val
		n := 1
		if chance(r, 65) {
			n = 1 + r.IntN(5)
		}
		for i := 0; i < n; i++ {
			var a *reAlt
			if chance(r, 25) {
				a = regexFrom(r, strs())
			} else {
				a = g.alt(1 + r.IntN(3))
			}
			ms = append(ms, reMatcher(a))
			for k := 0; k < 3; k++ {
				s := a.sample(r, g)
				vals = append(vals, vStr(s), vStr(mutateString(r, s, func(*rand.Rand) string { return strs() })))
			}
			for _, cl := range classesOf(a) {
				for _, x := range rangeEdges(cl) {
					if chance(r, 30) {
						vals = append(vals, vStr(string(x)))
					}
				}
			}
		}
		if chance(r, 30) {
			for k := 1 + r.IntN(3); k > 0; k-- {
				ms = append(ms, (&Profile{Strings: func(*rand.Rand) string { return strs() }}).matcherFor(r,
					pick(r, []MKind{MString, MPrefix, MIgnoreCase, MAnythingBut, MWildcard, MShell}), vStr(pick(r, vals).S), true))
			}
			r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		}
		for i := 0; i < 5; i++ {
			vals = append(vals, vStr(strs()))
		}
		vals = append(vals, vStr(""))
		judgeValues(t, ms, vals, speedSafe([]*Pat{{Root: []*PNode{{Name: "v", Vals: ms}}}}) && chance(r, 40))
	})
	// regexps that are made of random text and happen to be valid
	c.Run("texts", c.N(8000, 150000), func(t *T) {
		r := t.R
		for k := 0; k < 4; k++ {
			s := randRegexpText(t)
			a, verdict := parseRegexp(s)
			if verdict != reAccept || strings.Contains(s, "~P") || strings.Contains(s, "[^") && !chance(r, 3) || repeatSize(a) > 300 {
				continue
			}
			g := t.reGen()
			var vals []*Val
			for i := 0; i < 6; i++ {
				x := a.sample(r, g)
				vals = append(vals, vStr(x), vStr(mutateString(r, x, stringsOver("ab-~[](){}|.", 3))))
			}
			vals = append(vals, vStr(""), vStr("a"), vStr(s))
			ms := []*Matcher{{K: MRegexp, S: s, Re: a}}
			t.Count("random texts that are valid", 1)
			judgeValues(t, ms, vals, speedSafe([]*Pat{pat1("v", ms...)}) && chance(r, 30))
		}
	})
	// regexps, and alternatives of one, that differ in a single place anywhere within
	c.Run("variants", c.N(5000, 120000), func(t *T) {
		r := t.R
		g := t.reGen()
		g.negPct = 0
		strs := func() string { return stringsOver(string(g.alphabet), 6)(r) }
		base := g.alt(1 + r.IntN(3))
		for repeatSize(base) > 60 {
			base = g.alt(1 + r.IntN(2))
		}
		vs := []*reAlt{base}
		for n := 1 + r.IntN(3); n > 0; n-- {
			vs = append(vs, g.variant(pick(r, vs)))
		}
		r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		group := func(a *reAlt) *rePiece { return &rePiece{Lo: 1, Hi: 1, Group: a} }
		var all []*reAlt
		switch r.IntN(5) {
		case 0: // several regexps
			all = vs
		case 1: // alternatives, each as it is
			a := &reAlt{}
			for _, v := range vs {
				a.Branches = append(a.Branches, v.Branches...)
			}
			all = append(all, a)
		case 2: // alternatives, in parentheses
			a := &reAlt{}
			for _, v := range vs {
				a.Branches = append(a.Branches, []*rePiece{group(v)})
			}
			all = append(all, a)
		case 3: // within something else
			a := &reAlt{}
			for _, v := range vs {
				a.Branches = append(a.Branches, []*rePiece{g.piece(0), group(v)})
				if chance(r, 60) {
					a.Branches[len(a.Branches)-1][0] = a.Branches[0][0]
				}
			}
			q := group(a)
			g.quantify(q)
			all = append(all, &reAlt{Branches: [][]*rePiece{{q, g.piece(0)}}})
		default: // one after the other
			var b []*rePiece
			for _, v := range vs {
				q := group(v)
				if chance(r, 30) {
					g.quantify(q)
				}
				b = append(b, q)
			}
			all = append(all, &reAlt{Branches: [][]*rePiece{b}})
		}
		var ms []*Matcher
		var vals []*Val
		for _, a := range all {
			if repeatSize(a) > 400 {
				return
			}
			ms = append(ms, reMatcher(a))
			for k := 0; k < 10; k++ {
				s := a.sample(r, g)
				vals = append(vals, vStr(s))
				if k%3 == 0 {
					vals = append(vals, vStr(mutateString(r, s, func(*rand.Rand) string { return strs() })))
				}
			}
		}
		for _, v := range vs {
			vals = append(vals, vStr(v.sample(r, g)), vStr(v.sample(r, g)))
		}
		t.Count("variants", 1)
		judgeValues(t, ms, vals, speedSafe([]*Pat{pat1("v", ms...)}) && chance(r, 30))
	})
	// all counts
	c.Run("counts", c.N(240, 2400), func(t *T) {
		r := t.R
		lo := r.IntN(100)
		hi := lo + r.IntN(100-lo)
		p := &rePiece{Lo: lo, Hi: hi, Quant: fmt.Sprintf("{%d,%d}", lo, hi)}
		switch t.Index % 3 {
		case 1:
			p.Hi, p.Quant = -1, fmt.Sprintf("{%d,}", lo)
		case 2:
			hi = lo
			p.Lo, p.Hi, p.Quant = lo, lo, fmt.Sprintf("{%d}", lo)
		}
		unit := "a"
		switch r.IntN(4) {
		case 0:
			p.Char = 'a'
		case 1:
			p.Class = &reClass{Items: []reItem{{Lo: 'a', Hi: 'c'}, {Lo: 'é', Hi: 'é'}}, text: "[a-cé]"}
		case 2:
			p.Dot = true
			unit = "日"
		default:
			p.Group = &reAlt{Branches: [][]*rePiece{{{Lo: 1, Hi: 1, Char: 'a'}, {Lo: 1, Hi: 1, Char: 'b'}}}}
			if chance(r, 40) {
				p.Group.Branches = append(p.Group.Branches, []*rePiece{{Lo: 1, Hi: 1, Char: 'a'}})
			}
			unit = "ab"
		}
		tail := []*rePiece{p}
		if chance(r, 50) {
			tail = append(tail, &rePiece{Lo: 1, Hi: 1, Char: 'z'})
		}
		a := &reAlt{Branches: [][]*rePiece{tail}}
		var vals []*Val
		for _, k := range []int{0, 1, lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, (lo + hi) / 2, 99, 100, 101, 150, 199, 200, 201, 250} {
			if k < 0 {
				continue
			}
			vals = append(vals, vStr(strings.Repeat(unit, k)), vStr(strings.Repeat(unit, k)+"z"))
		}
		judgeValues(t, []*Matcher{reMatcher(a)}, vals, false)
	})
	// long values
	c.Run("long", c.N(60, 600), func(t *T) {
		r := t.R
		g := &reGen{r: r, alphabet: []rune("ab"), maxCount: 3}
		var ms []*Matcher
		for i := 0; i < 3; i++ {
			inner := g.alt(1)
			p := &rePiece{Lo: 0, Hi: -1, Quant: "*", Group: inner}
			if chance(r, 50) {
				p.Lo, p.Quant = 1, "+"
			}
			a := &reAlt{Branches: [][]*rePiece{{p, {Lo: 0, Hi: 1, Quant: "?", Char: 'c'}}}}
			ms = append(ms, reMatcher(a))
		}
		var vals []*Val
		for _, m := range ms {
			var sb strings.Builder
			for sb.Len() < 200+r.IntN(1200) {
				k := sb.Len()
				sb.WriteString(strings.TrimSuffix(m.Re.sample(r, g), "c"))
				if sb.Len() == k {
					sb.WriteString("ab")
				}
			}
			vals = append(vals, vStr(sb.String()), vStr(sb.String()+"c"), vStr(sb.String()+"d"))
		}
		judgeValues(t, ms, vals, false)
	})
	// each property, positive and negative, alone and in a class: every scalar value
	kinds := []string{"~p{%s}", "~P{%s}", "[~p{%s}]", "[^~p{%s}]", "[~P{%s}a]"}
	c.Run("scalars", c.N(2*len(reProps), len(kinds)*len(reProps)), func(t *T) {
		prop := reProps[t.Index%len(reProps)]
		text := fmt.Sprintf(kinds[t.Index/len(reProps)], prop)
		everyScalar(t, text)
	})
	c.Run("classes", c.N(40, 600), func(t *T) {
		g := t.reGen()
		g.wide, g.props, g.negPct = true, chance(t.R, 30), 40
		switch t.Index {
		case 0:
			everyScalar(t, ".")
		case 1:
			everyScalar(t, "[^a]")
		case 2:
			everyScalar(t, "[\u0000-\U0010ffff]")
		case 3:
			everyScalar(t, "[^\u0000-\U0010fffe]")
		case 4:
			everyScalar(t, "[^\u0000-\ud7ff]")
		case 5:
			everyScalar(t, "[!-éñ-日-]")
		case 6:
			everyScalar(t, "[-~P{Nd}-]")
		case 7:
			everyScalar(t, "[a~p{Pd}+-é-]")
		default:
			everyScalar(t, g.class().text)
		}
	})
	// two properties in one instance, around the borders of both; both build modes
	c.Run("pairs", c.N(400, 6000), func(t *T) {
		r := t.R
		a, b := pick(r, reProps), pick(r, reProps)
		forms := []string{"~p{%s}", "[~p{%s}]", "a~p{%s}?", "~p{%s}+", "(~p{%s}|a)b*"}
		if chance(r, 8) {
			forms = []string{"~P{%s}", "[^~p{%s}]"}
		}
		ta, tb := fmt.Sprintf(pick(r, forms), a), fmt.Sprintf(pick(r, forms), b)
		var ms []*Matcher
		for _, s := range []string{ta, tb, fmt.Sprintf("[~p{%s}~p{%s}]x?", a, b)} {
			re, v := parseRegexp(s)
			if v != reAccept {
				Harness("parseRegexp %s", s)
			}
			ms = append(ms, &Matcher{K: MRegexp, S: s, Re: re})
		}
		var vals []*Val
		for i := 0; i < 60; i++ {
			x := propSample(pick(r, []string{a, b}), r)
			if chance(r, 40) {
				x += rune(r.IntN(3)) - 1
			}
			if x < 0 || x > 0x10ffff || x >= 0xd800 && x < 0xe000 {
				continue
			}
			vals = append(vals, vStr(pick(r, []string{"", "", "", "a"})+string(x)+pick(r, []string{"", "", "", "x", "b", string(x)})))
			t.Count("boundaries", 1)
		}
		judgeValues(t, ms, vals, chance(r, 25))
	})
	c.Run("invert", c.N(4000, 60000), func(t *T) {
		r := t.R
		var rr quamina.RuneRange
		in := func(rs quamina.RuneRange, x rune) bool {
			for _, p := range rs {
				if x >= p.Lo && x <= p.Hi {
					return true
				}
			}
			return false
		}
		var edges []rune
		for n := r.IntN(6); n > 0; n-- {
			a, b := randRune(r), randRune(r)
			if chance(r, 60) {
				b = min(a+rune(r.IntN(40)), 0x10ffff)
			}
			if len(rr) > 0 && chance(r, 40) { // touching or overlapping
				a = min(rr[len(rr)-1].Hi+rune(r.IntN(3)), 0x10ffff)
				b = min(a+rune(r.IntN(9)), 0x10ffff)
			}
			if a > b {
				a, b = b, a
			}
			rr = append(rr, quamina.RunePair{Lo: a, Hi: b})
			edges = append(edges, a-1, a, b, b+1, (a+b)/2)
		}
		edges = append(edges, 0, 0x10ffff, randRune(r))
		orig := append(quamina.RuneRange{}, rr...)
		inv := quamina.InvertRuneRange(rr)
		for _, x := range edges {
			if x < 0 || x > 0x10ffff || x >= 0xd800 && x <= 0xdfff {
				continue
			}
			t.Eval(1)
			if in(inv, x) == in(orig, x) {
				t.Fail(fmt.Sprintf("InvertRuneRange: U+%04X is in both or in neither", x), map[string]any{"range": fmt.Sprint(orig), "inverted": fmt.Sprint(inv)})
			}
		}
		for i, p := range inv {
			if p.Lo > p.Hi || p.Lo < 0 || p.Hi > 0x10ffff || i > 0 && p.Lo <= inv[i-1].Hi {
				t.Fail("InvertRuneRange returned a malformed range", map[string]any{"range": fmt.Sprint(orig), "inverted": fmt.Sprint(inv)})
			}
		}
		t.Count("inverted ranges", 1)
		t.Distinct("invert", fmt.Sprint(orig))
	})
}

// variant is a copy with a change in one place
func (g *reGen) variant(a *reAlt) *reAlt {
	var pieces []*rePiece
	var alts []*reAlt
	var clone func(a *reAlt) *reAlt
	clone = func(a *reAlt) *reAlt {
		c := &reAlt{}
		alts = append(alts, c)
		for _, b := range a.Branches {
			var nb []*rePiece
			for _, p := range b {
				q := *p
				if q.Group != nil {
					q.Group = clone(q.Group)
				}
				nb = append(nb, &q)
				pieces = append(pieces, &q)
			}
			c.Branches = append(c.Branches, nb)
		}
		return c
	}
	out := clone(a)
	r := g.r
	if len(pieces) == 0 || chance(r, 20) { // a branch
		c := pick(r, alts)
		i := r.IntN(len(c.Branches))
		switch r.IntN(3) {
		case 0:
			c.Branches = append(c.Branches, []*rePiece{g.piece(0)})
		case 1:
			c.Branches[i] = append(c.Branches[i], g.piece(0))
		default:
			if len(c.Branches[i]) > 0 {
				c.Branches[i] = c.Branches[i][:len(c.Branches[i])-1]
			} else {
				c.Branches[i] = []*rePiece{g.piece(0)}
			}
		}
		return out
	}
	p := pick(r, pieces)
	if chance(r, 40) {
		p.Lo, p.Hi, p.Quant = 1, 1, ""
		g.quantify(p)
	} else {
		q := g.piece(0)
		q.Lo, q.Hi, q.Quant = p.Lo, p.Hi, p.Quant
		*p = *q
	}
	return out
}

// repeatSize estimates how much the repetitions in a regexp blow it up
func repeatSize(a *reAlt) int {
	n := 0
	for _, b := range a.Branches {
		for _, p := range b {
			k := max(1, p.Lo, p.Hi)
			if p.Group != nil {
				n += k * (1 + repeatSize(p.Group))
			} else {
				n += k
			}
		}
	}
	return n
}

// pieces is the number of pieces in the regexp
func (a *reAlt) pieces() int {
	n := 0
	for _, b := range a.Branches {
		for _, p := range b {
			n++
			if p.Group != nil {
				n += p.Group.pieces()
			}
		}
	}
	return n
}

func everyScalar(t *T, text string) {
	re, v := parseRegexp(text)
	if v != reAccept {
		Harness("parseRegexp %s", text)
	}
	q := t.newQ()
	t.mustAdd(q, 0, (&Pat{Root: []*PNode{{Name: "v", Vals: []*Matcher{{K: MRegexp, S: text, Re: re}}}}}).String())
	piece := re.Branches[0][0]
	buf := make([]byte, 0, 32)
	prev := false
	for x := rune(0); x <= 0x10ffff; x++ {
		if x == 0xd800 {
			x = 0xe000
		}
		buf = append(buf[:0], `{"v":"`...)
		switch {
		case x < 0x20:
			buf = fmt.Appendf(buf, `\u%04x`, x)
		case x == '"' || x == '\\':
			buf = append(buf, '\\', byte(x))
		default:
			buf = utf8.AppendRune(buf, x)
		}
		buf = append(buf, '"', '}')
		xs := t.mustMatch(q, buf)
		want := piece.takes(x)
		if (len(xs) == 1) != want {
			t.Fail(fmt.Sprintf("the regexp %s and the character U+%04X: reported %v, expected %v", text, x, len(xs) == 1, want), nil)
		}
		if want != prev {
			t.Count("boundaries", 1)
			t.Distinct(text, string(x))
			prev = want
		}
	}
	t.Count("scalar values tried", 0x110000-0x800)
	t.Eval(0x110000 - 0x800)
}

// randRegexpText makes texts that are often, but by no means always, valid regexps
func randRegexpText(t *T) string {
	r := t.R
	if chance(r, 40) { // a valid one with a few changes
		g := t.reGen()
		rs := []rune(g.alt(2).String())
		for k := r.IntN(3); k > 0 && len(rs) > 0; k-- {
			i := r.IntN(len(rs))
			switch r.IntN(4) {
			case 0:
				rs = append(rs[:i:i], rs[i+1:]...)
			case 1:
				rs = append(rs[:i:i], append([]rune{pick(r, reChars)}, rs[i:]...)...)
			case 2:
				rs[i] = pick(r, reChars)
			default:
				rs = rs[:i]
			}
		}
		return string(rs)
	}
	var sb strings.Builder
	for n := 1 + r.IntN(12); n > 0; n-- {
		if chance(r, 15) {
			sb.WriteString(pick(r, []string{"~p{Lu}", "~p{L}", "~n", "{2}", "{1,3}", "{2,}", "(a", "a)", "[a-c]", "[^b]", "||", "~p{", "~p{Xx}", "-]", "[-", "~P{Nd}"}))
			continue
		}
		sb.WriteRune(pick(r, reChars))
	}
	return sb.String()
}

var reChars = []rune("aab[]()-^~{},.|*+?0123npP\\é\U00010400]")

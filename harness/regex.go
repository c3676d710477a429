package main

// I-Regexps (RFC 9485, with ~ in place of \): abstract syntax, printing, a reference matcher that works on sets of
// positions, and generators for regexps and for strings that they match.

import (
	"fmt"
	"math/rand/v2"
	"strings"
	"unicode"
)

type reAlt struct {
	Branches [][]*rePiece
}

type rePiece struct {
	Lo, Hi int // Hi -1: unlimited
	Quant  string
	// exactly one of
	Char  rune // if none of the others
	Dot   bool
	Class *reClass
	Prop  string // "Lu", or "-Lu"
	Group *reAlt
}

type reClass struct {
	Neg   bool
	Items []reItem
	text  string
}
type reItem struct {
	Lo, Hi rune
	Prop   string
}

func (a *reAlt) matches(s string) bool {
	rs := []rune(s)
	start := make([]bool, len(rs)+1)
	start[0] = true
	return a.ends(rs, start)[len(rs)]
}

func (a *reAlt) ends(rs []rune, from []bool) []bool {
	out := make([]bool, len(rs)+1)
	for _, b := range a.Branches {
		cur := from
		for _, p := range b {
			cur = p.ends(rs, cur)
		}
		for i, x := range cur {
			out[i] = out[i] || x
		}
	}
	return out
}

func (p *rePiece) ends(rs []rune, from []bool) []bool {
	out := make([]bool, len(rs)+1)
	cur := from
	for k := 0; p.Hi < 0 || k <= p.Hi; k++ {
		if k > 0 {
			cur = p.one(rs, cur)
		}
		empty := true
		for i, x := range cur {
			if !x {
				continue
			}
			if k >= p.Lo {
				if out[i] {
					cur[i] = false // been there, with at least as many repetitions to go
					continue
				}
				out[i] = true
			}
			empty = false
		}
		if empty {
			break
		}
	}
	return out
}

func (p *rePiece) one(rs []rune, from []bool) []bool {
	if p.Group != nil {
		return p.Group.ends(rs, from)
	}
	out := make([]bool, len(rs)+1)
	for i, x := range from {
		if x && i < len(rs) && p.takes(rs[i]) {
			out[i+1] = true
		}
	}
	return out
}

func (p *rePiece) takes(r rune) bool {
	switch {
	case p.Dot:
		return true
	case p.Class != nil:
		in := false
		for _, it := range p.Class.Items {
			if it.Prop != "" {
				in = in || propHas(it.Prop, r)
			} else {
				in = in || r >= it.Lo && r <= it.Hi
			}
		}
		return in != p.Class.Neg
	case p.Prop != "":
		return propHas(p.Prop, r)
	}
	return p.Char == r
}

func propHas(prop string, r rune) bool {
	neg := prop[0] == '-'
	prop = strings.TrimPrefix(prop, "-")
	return unicode.Is(unicode.Categories[prop], r) != neg
}

var reProps = []string{"L", "Ll", "Lm", "Lo", "Lt", "Lu", "M", "Mc", "Me", "Mn", "N", "Nd", "Nl", "No", "P", "Pc", "Pd", "Pe",
	"Pf", "Pi", "Po", "Ps", "S", "Sc", "Sk", "Sm", "So", "Z", "Zl", "Zp", "Zs", "C", "Cc", "Cf", "Co", "Cn"}

func (a *reAlt) String() string {
	var bs []string
	for _, b := range a.Branches {
		var sb strings.Builder
		for _, p := range b {
			sb.WriteString(p.String())
		}
		bs = append(bs, sb.String())
	}
	return strings.Join(bs, "|")
}

func propText(p string) string {
	if p[0] == '-' {
		return "~P{" + p[1:] + "}"
	}
	return "~p{" + p + "}"
}

func (p *rePiece) String() string {
	var s string
	switch {
	case p.Group != nil:
		s = "(" + p.Group.String() + ")"
	case p.Dot:
		s = "."
	case p.Class != nil:
		s = p.Class.text
	case p.Prop != "":
		s = propText(p.Prop)
	default:
		s = reCharText(p.Char)
	}
	return s + p.Quant
}

func reCharText(r rune) string {
	switch r {
	case '\n':
		return "~n"
	case '\r':
		return "~r"
	case '\t':
		return "~t"
	}
	if strings.ContainsRune("()*+.?[]^{}|~", r) {
		return "~" + string(r)
	}
	return string(r)
}

func classCharText(r rune, plainOK bool) string {
	switch r {
	case '\n':
		return "~n"
	case '\r':
		return "~r"
	case '\t':
		return "~t"
	}
	if strings.ContainsRune("-[]^~\\", r) {
		return "~" + string(r)
	}
	return string(r)
}

type reGen struct {
	r        *rand.Rand
	alphabet []rune
	props    bool
	negPct   int // negated classes, which take Quamina 100 ms each, or twice that
	maxCount int
	wide     bool // characters from all over Unicode
}

func (g *reGen) char() rune {
	if g.wide && g.r.IntN(3) == 0 {
		return randRune(g.r)
	}
	return g.alphabet[g.r.IntN(len(g.alphabet))]
}

func (g *reGen) alt(depth int) *reAlt {
	a := &reAlt{}
	n := 1
	switch x := g.r.IntN(10); {
	case x < 5:
	case x < 8:
		n = 2
	default:
		n = 2 + g.r.IntN(3)
	}
	for i := 0; i < n; i++ {
		var b []*rePiece
		k := g.r.IntN(4)
		if k == 0 && g.r.IntN(3) > 0 {
			k = 1
		}
		for j := 0; j < k; j++ {
			b = append(b, g.piece(depth))
		}
		a.Branches = append(a.Branches, b)
	}
	return a
}

func (g *reGen) piece(depth int) *rePiece {
	p := &rePiece{Lo: 1, Hi: 1}
	switch x := g.r.IntN(100); {
	case x < 45:
		p.Char = g.char()
	case x < 58:
		p.Dot = true
	case x < 75:
		p.Class = g.class()
	case x < 80 && g.props:
		p.Prop = reProps[g.r.IntN(len(reProps))]
		if g.r.IntN(3) == 0 {
			p.Prop = "-" + p.Prop
		}
	default:
		if depth > 0 {
			p.Group = g.alt(depth - 1)
		} else {
			p.Char = g.char()
		}
	}
	g.quantify(p)
	return p
}

func (g *reGen) quantify(p *rePiece) {
	switch x := g.r.IntN(100); {
	case x < 60:
	case x < 70:
		p.Lo, p.Hi, p.Quant = 0, 1, "?"
	case x < 78:
		p.Lo, p.Hi, p.Quant = 0, -1, "*"
	case x < 86:
		p.Lo, p.Hi, p.Quant = 1, -1, "+"
	default:
		lo := g.r.IntN(g.maxCount + 1)
		switch g.r.IntN(3) {
		case 0:
			if lo == 0 && g.r.IntN(3) > 0 {
				lo = 1
			}
			p.Lo, p.Hi, p.Quant = lo, lo, fmt.Sprintf("{%d}", lo)
		case 1:
			p.Lo, p.Hi, p.Quant = lo, -1, fmt.Sprintf("{%d,}", lo)
		case 2:
			hi := lo + g.r.IntN(g.maxCount+1)
			if hi == 0 && g.r.IntN(3) > 0 {
				hi = 1
			}
			p.Lo, p.Hi, p.Quant = lo, hi, fmt.Sprintf("{%d,%d}", lo, hi)
		}
	}
}

func (g *reGen) class() *reClass {
	c := &reClass{Neg: g.r.IntN(100) < g.negPct}
	text := "["
	if c.Neg {
		text = "[^"
	}
	if g.r.IntN(12) == 0 {
		c.Items = append(c.Items, reItem{Lo: '-', Hi: '-'})
		text += "-"
	}
	n := 1 + g.r.IntN(4)
	for i := 0; i < n; i++ {
		switch x := g.r.IntN(10); {
		case x < 5:
			r := g.char()
			c.Items = append(c.Items, reItem{Lo: r, Hi: r})
			text += classCharText(r, true)
		case x < 9 || !g.props:
			a, b := g.char(), g.char()
			if a > b {
				a, b = b, a
			}
			if g.wide && g.r.IntN(3) == 0 {
				a, b = rune(g.r.IntN(0x60)), rune(0x60+g.r.IntN(0x500)) // contains "-", and characters of several bytes
			}
			if b-a > 0x3000 {
				b = a + rune(g.r.IntN(0x300))
				if a < 0xd800 && b >= 0xd800 {
					b = 0xd7ff
				}
				if b > 0x10ffff {
					b = 0x10ffff
				}
			}
			c.Items = append(c.Items, reItem{Lo: a, Hi: b})
			text += classCharText(a, true) + "-" + classCharText(b, true)
		default:
			p := reProps[g.r.IntN(len(reProps))]
			if g.r.IntN(4) == 0 {
				p = "-" + p
			}
			c.Items = append(c.Items, reItem{Prop: p})
			text += propText(p)
		}
	}
	if g.r.IntN(7) == 0 || g.wide && g.r.IntN(3) == 0 {
		c.Items = append(c.Items, reItem{Lo: '-', Hi: '-'})
		text += "-"
	}
	c.text = text + "]"
	return c
}

// sample generates a string that the regexp matches, as far as it can tell
func (a *reAlt) sample(r *rand.Rand, g *reGen) string {
	var sb strings.Builder
	b := a.Branches[r.IntN(len(a.Branches))]
	for _, p := range b {
		n := p.Lo
		if p.Hi < 0 {
			n += r.IntN(4)
		} else if p.Hi > p.Lo {
			n += r.IntN(p.Hi - p.Lo + 1)
		}
		if n > 40 {
			if p.Lo <= 40 {
				n = 40
			} else if r.IntN(2) == 0 {
				n = p.Lo
			}
		}
		for i := 0; i < n; i++ {
			switch {
			case p.Group != nil:
				sb.WriteString(p.Group.sample(r, g))
			case p.Dot:
				if g.wide && r.IntN(2) == 0 {
					sb.WriteRune(randRune(r))
				} else {
					sb.WriteRune(g.alphabet[r.IntN(len(g.alphabet))])
				}
			case p.Class != nil && !p.Class.Neg:
				it := p.Class.Items[r.IntN(len(p.Class.Items))]
				if it.Prop != "" {
					sb.WriteRune(propSample(it.Prop, r))
				} else {
					c := it.Lo + rune(r.IntN(int(it.Hi-it.Lo)+1))
					switch r.IntN(4) {
					case 0:
						c = it.Lo
					case 1:
						c = it.Hi
					}
					if c >= 0xd800 && c <= 0xdfff {
						c = it.Lo
					}
					sb.WriteRune(c)
				}
			case p.Class != nil:
				c := g.alphabet[r.IntN(len(g.alphabet))]
				for k := 0; k < 20 && !p.takes(c); k++ {
					c = randRune(r)
				}
				sb.WriteRune(c)
			case p.Prop != "":
				sb.WriteRune(propSample(p.Prop, r))
			default:
				sb.WriteRune(p.Char)
			}
		}
	}
	return sb.String()
}

func propSample(prop string, r *rand.Rand) rune {
	if prop[0] == '-' {
		for k := 0; k < 30; k++ {
			if c := randRune(r); propHas(prop, c) {
				return c
			}
		}
		return 'a'
	}
	t := unicode.Categories[prop]
	n := len(t.R16) + len(t.R32)
	i := r.IntN(n)
	var lo, hi, stride rune
	if i < len(t.R16) {
		lo, hi, stride = rune(t.R16[i].Lo), rune(t.R16[i].Hi), rune(t.R16[i].Stride)
	} else {
		x := t.R32[i-len(t.R16)]
		lo, hi, stride = rune(x.Lo), rune(x.Hi), rune(x.Stride)
	}
	c := lo + stride*rune(r.IntN(int((hi-lo)/stride)+1))
	switch r.IntN(3) {
	case 0:
		c = lo
	case 1:
		c = hi
	}
	if c >= 0xd800 && c <= 0xdfff {
		return 0xe000
	}
	return c
}

var interestingRunes = []rune{0, 1, 0x1f, 0x20, '"', '\\', '/', '*', '~', 0x7e, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000,
	0xfffd, 0xfffe, 0xffff, 0xfeff, 0x2028, 0x10000, 0x1ffff, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff, 0x212a, 0x17f, 0x130, 0x131}

func randRune(r *rand.Rand) rune {
	for {
		var c rune
		switch r.IntN(8) {
		case 0:
			c = interestingRunes[r.IntN(len(interestingRunes))]
		case 1, 2:
			c = rune(r.IntN(0x80))
		case 3:
			c = rune(r.IntN(0x800))
		case 4, 5:
			c = rune(r.IntN(0x10000))
		default:
			c = rune(r.IntN(0x110000))
		}
		if c >= 0xd800 && c <= 0xdfff {
			continue
		}
		return c
	}
}

package main

// Generators of Events and of Patterns that are likely to match, or to just miss, them.

import (
	"fmt"
	"math"
	"math/rand/v2"
	"strconv"
	"strings"
	"sync"
	"unicode"
)

// Profile shapes what is generated
type Profile struct {
	Names    []string
	Strings  func(r *rand.Rand) string
	Depth    int
	Width    int
	ArrayPct int // chance that a value is an array
	ObjPct   int
	NumPct   int
	LitPct   int
	EmptyPct int // chance that an array or object is empty
	Kinds    []MKind
	MaxPats  int
	MaxVals  int
	ExistPct int
	Arr      int // maximal number of array elements
}

var allKinds = []MKind{MString, MString, MString, MNumber, MNumber, MTrue, MFalse, MNull, MPrefix, MPrefix, MWildcard, MWildcard,
	MShell, MIgnoreCase, MIgnoreCase, MAnythingBut, MRegexp}
var detKinds = []MKind{MString, MString, MNumber, MTrue, MNull, MPrefix, MIgnoreCase, MAnythingBut}

func pick[E any](r *rand.Rand, s []E) E { return s[r.IntN(len(s))] }
func chance(r *rand.Rand, pct int) bool { return r.IntN(100) < pct }

func stringsOver(alphabet string, maxLen int) func(r *rand.Rand) string {
	rs := []rune(alphabet)
	return func(r *rand.Rand) string {
		n := r.IntN(maxLen + 1)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(rs[r.IntN(len(rs))])
		}
		return sb.String()
	}
}

func unicodeString(maxLen int) func(r *rand.Rand) string {
	return func(r *rand.Rand) string {
		n := r.IntN(maxLen + 1)
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteRune(randRune(r))
		}
		return sb.String()
	}
}

var trickyStrings = []string{"", "true", "false", "null", "1", "12", "-0", "1e3", "\"", "\\", "\\\\", "*", "a*", "*a", "\\*", "**", "{", "}", "[", "]",
	",", ":", "a\"b", "}]", "\x00", "\x1f", "\x7f", "é", "É", "ß", "ẞ", "ﬀ", "İ", "ı", "K", "k", "K", "ſ", "s", "S", "Å", "å", "Å", "𐐀", "𐐨",
	"\U0010FFFF", "\uFFFF", "\u2028", "日本", "日本語", "\t\n\r", " ", "  ", "/", "\\u0041", "\\n", "Σ", "σ", "ς", "~", "~n", "(", "x|y"}

func mixedString(r *rand.Rand) string {
	switch r.IntN(5) {
	case 0:
		return pick(r, trickyStrings)
	case 1:
		return unicodeString(4)(r)
	case 2:
		return stringsOver("ab", 5)(r)
	case 3:
		return pick(r, trickyStrings) + pick(r, trickyStrings)
	default:
		return stringsOver("abcé日", 3)(r)
	}
}

var specialNumbers = []string{"0", "-0", "1", "-1", "2", "10", "100", "0.1", "0.2", "0.3", "1.5", "-1.5", "1e3", "1e-7", "1e21", "1e22", "1e100",
	"-1e-100", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740993", "4503599627370497.5", "1.7976931348623157e308",
	"-1.7976931348623157e308", "5e-324", "2.2250738585072014e-308", "2.2250738585072011e-308", "4.9e-324", "1e-400", "18446744073709551615",
	"18446744073709551616", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "123456789.123456789", "0.30000000000000004",
	"3.141592653589793", "3.1415926535897932384626", "35", "35.0", "-35.0", "1e0", "255", "256", "65535", "65536", "4294967296", "0.5", "0.25", "-0.5"}

func randNumber(r *rand.Rand) string {
	switch r.IntN(7) {
	case 0, 1:
		return pick(r, specialNumbers)
	case 2:
		return strconv.Itoa(r.IntN(20) - 10)
	case 3:
		return strconv.FormatFloat(float64(r.IntN(2000)-1000)/float64([]int{1, 2, 4, 8, 10, 100}[r.IntN(6)]), 'f', -1, 64)
	case 4:
		f := math.Float64frombits(r.Uint64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return "7"
		}
		return strconv.FormatFloat(f, 'g', -1, 64)
	case 5:
		f, _ := numVal(pick(r, specialNumbers))
		g := math.Nextafter(f, []float64{math.Inf(1), math.Inf(-1)}[r.IntN(2)])
		if math.IsInf(g, 0) {
			return "8"
		}
		return strconv.FormatFloat(g, 'g', -1, 64)
	default:
		return strconv.FormatInt(r.Int64()-math.MaxInt64/2, 10)
	}
}

func fixNum(s string) string { // FormatFloat 'g' writes e+07, which is fine in JSON
	return s
}

func (p *Profile) leaf(r *rand.Rand) *Val {
	x := r.IntN(100)
	switch {
	case x < p.NumPct:
		return vNum(fixNum(randNumber(r)))
	case x < p.NumPct+p.LitPct:
		return &Val{K: []Kind{KTrue, KFalse, KNull}[r.IntN(3)]}
	}
	return vStr(p.Strings(r))
}

func (p *Profile) object(r *rand.Rand, depth int) *Val {
	o := vObj()
	n := 1 + r.IntN(p.Width)
	if chance(r, p.EmptyPct) {
		n = 0
	}
	perm := r.Perm(len(p.Names))
	for i := 0; i < n && i < len(perm); i++ {
		o.Mem = append(o.Mem, Member{p.Names[perm[i]], p.value(r, depth)})
	}
	return o
}

func (p *Profile) value(r *rand.Rand, depth int) *Val {
	if depth > 0 {
		x := r.IntN(100)
		if x < p.ArrayPct {
			a := vArr()
			n := 1 + r.IntN(p.Arr)
			if chance(r, p.EmptyPct) {
				n = 0
			}
			for i := 0; i < n; i++ {
				a.El = append(a.El, p.value(r, depth-1))
			}
			return a
		}
		if x < p.ArrayPct+p.ObjPct {
			return p.object(r, depth-1)
		}
	}
	return p.leaf(r)
}

func (p *Profile) event(r *rand.Rand) *Val {
	for i := 0; ; i++ {
		e := p.object(r, p.Depth)
		if len(e.Mem) > 0 || i > 3 {
			return e
		}
	}
}

// mutateEvent returns an event similar to e
func (p *Profile) mutateEvent(r *rand.Rand, e *Val) *Val {
	c := e.clone()
	n := 1 + r.IntN(2)
	for i := 0; i < n; i++ {
		p.mutate(r, c, p.Depth)
	}
	return c
}

func (p *Profile) mutate(r *rand.Rand, v *Val, depth int) {
	switch v.K {
	case KObj:
		if len(v.Mem) == 0 {
			return
		}
		i := r.IntN(len(v.Mem))
		switch r.IntN(6) {
		case 0:
			v.Mem = append(v.Mem[:i], v.Mem[i+1:]...)
		case 1:
			name := pick(r, p.Names)
			if v.get(name) == nil {
				v.Mem = append(v.Mem, Member{name, p.value(r, max(0, depth-1))})
			}
		case 2:
			v.Mem[i].Val = p.value(r, max(0, depth-1))
		default:
			p.mutate(r, v.Mem[i].Val, depth-1)
		}
	case KArr:
		if len(v.El) == 0 {
			return
		}
		i := r.IntN(len(v.El))
		switch r.IntN(6) {
		case 0:
			v.El = append(v.El[:i], v.El[i+1:]...)
		case 1:
			v.El = append(v.El, p.value(r, max(0, depth-1)))
		case 2:
			j := r.IntN(len(v.El))
			v.El[i], v.El[j] = v.El[j], v.El[i]
		default:
			p.mutate(r, v.El[i], depth-1)
		}
	case KStr:
		v.S = mutateString(r, v.S, p.Strings)
	case KNum:
		if chance(r, 50) {
			v.N = respell(v.N, r)
		} else {
			*v = *p.leaf(r)
		}
	default:
		*v = *p.leaf(r)
	}
}

func mutateString(r *rand.Rand, s string, gen func(*rand.Rand) string) string {
	rs := []rune(s)
	switch r.IntN(6) {
	case 0:
		if len(rs) > 0 {
			i := r.IntN(len(rs))
			return string(rs[:i]) + string(rs[i+1:])
		}
	case 1:
		i := r.IntN(len(rs) + 1)
		x := []rune(gen(r))
		if len(x) > 0 {
			return string(rs[:i]) + string(x[:1]) + string(rs[i:])
		}
	case 2:
		return swapCase(r, s)
	case 3:
		if r.IntN(4) == 0 { // as in the text of a value, its end is a quotation mark
			return s + `"` + pick(r, []string{"", gen(r), `"`, "}"})
		}
		return s + gen(r)
	case 4:
		if len(rs) > 0 {
			x := []rune(gen(r))
			if len(x) > 0 {
				rs[r.IntN(len(rs))] = x[0]
			}
			return string(rs)
		}
	}
	return gen(r)
}

func swapCase(r *rand.Rand, s string) string {
	var sb strings.Builder
	for _, c := range s {
		if r.IntN(2) == 0 {
			f := unicode.SimpleFold(c)
			if r.IntN(3) == 0 {
				f = unicode.SimpleFold(f)
			}
			c = f
		}
		sb.WriteRune(c)
	}
	return sb.String()
}

// matcherFor makes a matcher of the kind that likely matches the value, or nil if the kind doesn't suit the value
func (p *Profile) matcherFor(r *rand.Rand, k MKind, v *Val, near bool) *Matcher {
	s := p.Strings(r)
	if v != nil && v.K == KStr {
		s = v.S
		if !near && chance(r, 50) {
			s = mutateString(r, s, p.Strings)
		}
	}
	switch k {
	case MString:
		return &Matcher{K: k, S: s}
	case MNumber:
		n := randNumber(r)
		if v != nil && v.K == KNum && (near || chance(r, 30)) {
			n = v.N
			if chance(r, 60) {
				n = respell(n, r)
			}
		}
		return &Matcher{K: k, S: n}
	case MTrue, MFalse, MNull:
		if near && v != nil {
			switch v.K {
			case KTrue:
				k = MTrue
			case KFalse:
				k = MFalse
			case KNull:
				k = MNull
			}
		}
		return &Matcher{K: k}
	case MPrefix:
		rs := []rune(s)
		return &Matcher{K: k, S: string(rs[:r.IntN(len(rs)+1)])}
	case MWildcard, MShell:
		return &Matcher{K: k, S: globFrom(r, s, k == MWildcard)}
	case MIgnoreCase:
		return &Matcher{K: k, S: swapCase(r, s)}
	case MAnythingBut:
		m := &Matcher{K: k}
		n := 1 + r.IntN(3)
		for i := 0; i < n; i++ {
			m.List = append(m.List, mutateString(r, s, p.Strings))
		}
		return m
	case MRegexp:
		re := regexFrom(r, s)
		return &Matcher{K: k, S: re.String(), Re: re}
	}
	panic("kind")
}

// globFrom turns s into a glob that matches it
func globFrom(r *rand.Rand, s string, escapes bool) string {
	rs := []rune(s)
	var sb strings.Builder
	star := false
	for i := 0; i <= len(rs); i++ {
		if !star && chance(r, 30) {
			sb.WriteByte('*')
			star = true
			for i < len(rs) && chance(r, 40) {
				i++
			}
		}
		if i == len(rs) {
			break
		}
		if (rs[i] == '*' || rs[i] == '\\') && escapes {
			sb.WriteByte('\\')
			sb.WriteRune(rs[i])
			star = false
			continue
		}
		if rs[i] == '*' {
			if !star {
				sb.WriteByte('*')
			}
			star = true
			continue
		}
		sb.WriteRune(rs[i])
		star = false
	}
	return sb.String()
}

// regexFrom generalizes s into a regexp that matches it
func regexFrom(r *rand.Rand, s string) *reAlt {
	if chance(r, 25) {
		g := &reGen{r: r, alphabet: []rune("abé"), maxCount: 3, negPct: 1}
		return g.alt(2)
	}
	rs := []rune(s)
	g := &reGen{r: r, alphabet: append([]rune("ab"), rs...), maxCount: 3, negPct: 1}
	var seq func(rs []rune, depth int) []*rePiece
	seq = func(rs []rune, depth int) []*rePiece {
		var out []*rePiece
		for i := 0; i < len(rs); {
			p := &rePiece{Lo: 1, Hi: 1}
			n := 1
			switch x := r.IntN(10); {
			case x < 4:
				p.Char = rs[i]
			case x < 5:
				p.Dot = true
			case x < 7:
				lo, hi := rs[i], rs[i]
				if chance(r, 50) && (hi < 0xd000 || lo > 0xe010 && hi < 0x10fff0) {
					hi += rune(r.IntN(3))
					if lo > 2 {
						lo -= rune(r.IntN(3))
					}
				}
				c := &reClass{Items: []reItem{{Lo: lo, Hi: hi}}}
				c.text = "[" + classCharText(lo, true)
				if hi > lo {
					c.text += "-" + classCharText(hi, true)
				}
				c.text += "]"
				p.Class = c
			default:
				if depth == 0 {
					p.Char = rs[i]
					break
				}
				n = 1 + r.IntN(min(3, len(rs)-i))
				p.Group = &reAlt{Branches: [][]*rePiece{seq(rs[i:i+n], depth-1)}}
				for chance(r, 50) {
					p.Group.Branches = append(p.Group.Branches, g.alt(0).Branches...)
				}
				r.Shuffle(len(p.Group.Branches), func(a, b int) {
					p.Group.Branches[a], p.Group.Branches[b] = p.Group.Branches[b], p.Group.Branches[a]
				})
			}
			switch r.IntN(8) {
			case 0:
				p.Lo, p.Hi, p.Quant = 0, 1, "?"
			case 1:
				p.Lo, p.Hi, p.Quant = 1, -1, "+"
			case 2:
				p.Lo, p.Hi, p.Quant = 0, -1, "*"
			case 3:
				if chance(r, 30) {
					p.Lo, p.Hi, p.Quant = 1, 3, "{1,3}"
				}
			}
			out = append(out, p)
			i += n
		}
		return out
	}
	a := &reAlt{Branches: [][]*rePiece{seq(rs, 1)}}
	if chance(r, 20) {
		a.Branches = append(a.Branches, g.alt(1).Branches...)
	}
	return a
}

// setPath adds a field to a pattern; it fails if the path conflicts with one that's there
func (p *Pat) setPath(path []string, vals []*Matcher) bool {
	ns := &p.Root
	for i, name := range path {
		var found *PNode
		for _, n := range *ns {
			if n.Name == name {
				found = n
			}
		}
		last := i == len(path)-1
		if found != nil {
			if last || found.Sub == nil {
				return false
			}
			ns = &found.Sub
			continue
		}
		n := &PNode{Name: name}
		*ns = append(*ns, n)
		if last {
			n.Vals = vals
			return true
		}
		n.Sub = []*PNode{}
		ns = &n.Sub
	}
	return false
}

// canSet tells whether setPath would succeed
func (p *Pat) canSet(path []string) bool {
	ns := p.Root
	for i, name := range path {
		var found *PNode
		for _, n := range ns {
			if n.Name == name {
				found = n
			}
		}
		if found == nil {
			return true
		}
		if i == len(path)-1 || found.Sub == nil {
			return false
		}
		ns = found.Sub
	}
	return false
}

func (p *Pat) add(path []string, vals []*Matcher) bool {
	return p.canSet(path) && p.setPath(path, vals)
}

// pattern makes a pattern from an event
func (p *Profile) pattern(r *rand.Rand, e *Val) *Pat {
	ls := leaves(e)
	pat := &Pat{}
	n := 1 + r.IntN(4)
	// prefer leaves that are consistent with each other
	var chosen []Leaf
	for i := 0; i < n && len(ls) > 0; i++ {
		l := pick(r, ls)
		ok := true
		if chance(r, 75) {
			for _, c := range chosen {
				if trailsConflict(c.Trail, l.Trail) {
					ok = false
				}
			}
		}
		if ok {
			chosen = append(chosen, l)
		}
	}
	miss := chance(r, 35)
	for i, l := range chosen {
		near := !(miss && i == len(chosen)-1)
		pat.add(strings.Split(l.Path, "\n"), p.vals(r, l.V, near))
	}
	if chance(r, p.ExistPct) || len(pat.Root) == 0 {
		// a field that may or may not be in the event
		var path []string
		if len(ls) > 0 && chance(r, 50) {
			path = strings.Split(pick(r, ls).Path, "\n")
			path = append([]string{}, path[:r.IntN(len(path))]...)
		}
		path = append(path, pick(r, p.Names))
		k := MExistsFalse
		if chance(r, 30) {
			k = MExistsTrue
		}
		pat.add(path, []*Matcher{{K: k}})
	}
	if chance(r, 2) {
		pat.add([]string{pick(r, p.Names)}, []*Matcher{}) // matches nothing
	}
	r.Shuffle(len(pat.Root), func(i, j int) { pat.Root[i], pat.Root[j] = pat.Root[j], pat.Root[i] })
	return pat
}

func (p *Profile) vals(r *rand.Rand, v *Val, near bool) []*Matcher {
	if chance(r, p.ExistPct) {
		return []*Matcher{{K: MExistsTrue}}
	}
	n := 1
	if chance(r, 40) {
		n = 1 + r.IntN(p.MaxVals)
	}
	var out []*Matcher
	for i := 0; i < n; i++ {
		k := pick(r, p.Kinds)
		if near && i == 0 {
			for try := 0; try < 20; try++ {
				ok := false
				switch v.K {
				case KStr:
					ok = k != MNumber && k != MTrue && k != MFalse && k != MNull
				case KNum:
					ok = k == MNumber
				default:
					ok = k == MTrue || k == MFalse || k == MNull
				}
				if ok {
					break
				}
				k = pick(r, p.Kinds)
			}
		}
		if k == MAnythingBut {
			return []*Matcher{p.matcherFor(r, k, v, near)} // can't be combined
		}
		out = append(out, p.matcherFor(r, k, v, near && i == 0))
	}
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// profiles of different flavours
func profiles() []*Profile {
	ab := stringsOver("ab", 4)
	return []*Profile{
		// 0: everything
		{Names: []string{"a", "b", "c", "d"}, Strings: mixedString, Depth: 3, Width: 4, ArrayPct: 25, ObjPct: 25, NumPct: 25, LitPct: 10,
			EmptyPct: 5, Kinds: allKinds, MaxPats: 25, MaxVals: 4, ExistPct: 12, Arr: 4},
		// 1: one or two fields with short strings, so that the automata of many patterns are merged
		{Names: []string{"x", "y"}, Strings: ab, Depth: 1, Width: 2, ArrayPct: 20, ObjPct: 0, NumPct: 5, LitPct: 3,
			EmptyPct: 2, Kinds: allKinds, MaxPats: 40, MaxVals: 4, ExistPct: 5, Arr: 3},
		// 2: deterministic kinds only
		{Names: []string{"x", "y", "z"}, Strings: mixedString, Depth: 2, Width: 3, ArrayPct: 20, ObjPct: 10, NumPct: 30, LitPct: 10,
			EmptyPct: 5, Kinds: detKinds, MaxPats: 60, MaxVals: 5, ExistPct: 5, Arr: 4},
		// 3: structure: nested arrays of objects, few values
		{Names: []string{"a", "b", "c", "ab", "A", ""}, Strings: stringsOver("a", 1), Depth: 5, Width: 4, ArrayPct: 35, ObjPct: 40, NumPct: 10, LitPct: 5,
			EmptyPct: 8, Kinds: []MKind{MString, MString, MNumber, MTrue, MAnythingBut, MPrefix}, MaxPats: 25, MaxVals: 2, ExistPct: 25, Arr: 4},
		// 4: exists
		{Names: []string{"a", "b", "c", "d", "e"}, Strings: stringsOver("a", 1), Depth: 2, Width: 5, ArrayPct: 15, ObjPct: 25, NumPct: 10, LitPct: 5,
			EmptyPct: 15, Kinds: []MKind{MString}, MaxPats: 30, MaxVals: 2, ExistPct: 60, Arr: 3},
		// 5: strings with wildcards and regexps
		{Names: []string{"x"}, Strings: stringsOver("abc", 7), Depth: 1, Width: 1, ArrayPct: 30, ObjPct: 0, NumPct: 0, LitPct: 0,
			EmptyPct: 0, Kinds: []MKind{MWildcard, MShell, MRegexp, MRegexp, MPrefix, MString, MIgnoreCase}, MaxPats: 25, MaxVals: 3, ExistPct: 2, Arr: 6},
		// 6: odd names and Unicode
		{Names: []string{"", "é", "\u0000", "a\"b", "日本", "\\", "a.b", "a", "\U0010FFFF", "{", "x\ty", "\u2028", "ê"}, Strings: unicodeString(5), Depth: 3, Width: 6,
			ArrayPct: 20, ObjPct: 30, NumPct: 10, LitPct: 5, EmptyPct: 5, Kinds: allKinds, MaxPats: 25, MaxVals: 3, ExistPct: 10, Arr: 3},
		// 7: numbers
		{Names: []string{"n", "m"}, Strings: func(r *rand.Rand) string { return pick(r, specialNumbers) }, Depth: 2, Width: 2, ArrayPct: 30, ObjPct: 10,
			NumPct: 80, LitPct: 3, EmptyPct: 2, Kinds: []MKind{MNumber, MNumber, MNumber, MNumber, MString, MTrue, MPrefix, MWildcard, MRegexp}, MaxPats: 50, MaxVals: 6, ExistPct: 3, Arr: 8},
		// 8: wide events with many names
		{Names: manyNames(60), Strings: stringsOver("ab", 2), Depth: 2, Width: 45, ArrayPct: 5, ObjPct: 10, NumPct: 15, LitPct: 10, EmptyPct: 3,
			Kinds: allKinds, MaxPats: 40, MaxVals: 3, ExistPct: 12, Arr: 3},
		// 9: names that are nearly the same, or have long beginnings in common
		{Names: nearNames(), Strings: stringsOver("ab\u0000 ", 3), Depth: 2, Width: 12, ArrayPct: 8, ObjPct: 30, NumPct: 10, LitPct: 5, EmptyPct: 3,
			Kinds: detKinds, MaxPats: 30, MaxVals: 2, ExistPct: 15, Arr: 3},
	}
}

var nearNames = sync.OnceValue(func() []string {
	long := strings.Repeat("abcdefghijklmnopqrstuvwxyz0123456789-", 8)
	out := []string{"a", "b", "a\x00", "\x00a", "a ", " a", "a\t", "a\u00a0", "\ufeffa", "A", "\x00", "\x00\x00", " ", "a.", ".a", "a/", "a\\", "\\a", "a\"", "á", "a\u0301", "ａ"}
	for _, n := range []int{7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 255, 256} {
		out = append(out, long[:n], long[:n]+"y", long[:n]+"x"+long[:n/2])
	}
	return out
})

func manyNames(n int) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprintf("f%d", i))
	}
	return out
}

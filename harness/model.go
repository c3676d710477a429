package main

// The reference model of Patterns, written from PATTERNS.md: a Pattern matches an Event if leaves of the Event can
// be assigned to the Pattern's fields such that each leaf is matched by one of the field's values and no two leaves
// are in different elements of the same array.

import (
	"math/rand/v2"
	"strings"
	"unicode"
	"unicode/utf8"
)

type Tri int

const (
	No Tri = iota
	Yes
	Unknown // the documentation doesn't say
)

func tri(b bool) Tri {
	if b {
		return Yes
	}
	return No
}

type MKind int

const (
	MString MKind = iota
	MNumber
	MTrue
	MFalse
	MNull
	MPrefix
	MWildcard
	MShell
	MIgnoreCase
	MAnythingBut
	MExistsTrue
	MExistsFalse
	MRegexp
)

var mkindName = []string{"string", "number", "true", "false", "null", "prefix", "wildcard", "shellstyle",
	"equals-ignore-case", "anything-but", "exists:true", "exists:false", "regexp"}

type Matcher struct {
	K    MKind
	S    string // text: string, number, prefix, wildcard, …
	List []string
	Re   *reAlt
}

type PNode struct {
	Name string
	Sub  []*PNode // an object, if not nil
	Vals []*Matcher
}

type Pat struct {
	Root []*PNode
}

type PField struct {
	Path string
	Vals []*Matcher
}

func (p *Pat) fields() []PField {
	var out []PField
	var walk func(ns []*PNode, path []string)
	walk = func(ns []*PNode, path []string) {
		for _, n := range ns {
			pp := append(path[:len(path):len(path)], n.Name)
			if n.Sub != nil {
				walk(n.Sub, pp)
			} else {
				out = append(out, PField{strings.Join(pp, "\n"), n.Vals})
			}
		}
	}
	walk(p.Root, nil)
	return out
}

func (p *Pat) String() string { return p.text(Style{}, nil) }
func (p *Pat) text(st Style, r *rand.Rand) string {
	return string(p.val().text(st, r))
}

func (p *Pat) val() *Val {
	var conv func(ns []*PNode) *Val
	conv = func(ns []*PNode) *Val {
		o := vObj()
		for _, n := range ns {
			if n.Sub != nil {
				o.Mem = append(o.Mem, Member{n.Name, conv(n.Sub)})
				continue
			}
			a := vArr()
			for _, m := range n.Vals {
				a.El = append(a.El, m.val())
			}
			o.Mem = append(o.Mem, Member{n.Name, a})
		}
		return o
	}
	return conv(p.Root)
}

func (m *Matcher) val() *Val {
	one := func(name string, v *Val) *Val { return vObj(Member{name, v}) }
	switch m.K {
	case MString:
		return vStr(m.S)
	case MNumber:
		return vNum(m.S)
	case MTrue:
		return &Val{K: KTrue}
	case MFalse:
		return &Val{K: KFalse}
	case MNull:
		return &Val{K: KNull}
	case MPrefix, MWildcard, MShell, MIgnoreCase, MRegexp:
		return one(mkindName[m.K], vStr(m.S))
	case MAnythingBut:
		a := vArr()
		for _, s := range m.List {
			a.El = append(a.El, vStr(s))
		}
		return one("anything-but", a)
	case MExistsTrue:
		return one("exists", &Val{K: KTrue})
	case MExistsFalse:
		return one("exists", &Val{K: KFalse})
	}
	panic("matcher kind")
}

// match says whether the value of a leaf is matched; not used for exists
func (m *Matcher) match(v *Val) Tri {
	switch m.K {
	case MTrue:
		return tri(v.K == KTrue)
	case MFalse:
		return tri(v.K == KFalse)
	case MNull:
		return tri(v.K == KNull)
	case MNumber:
		if v.K != KNum {
			return No
		}
		a, aok := numVal(m.S)
		b, bok := numVal(v.N)
		if !aok && !bok {
			return Unknown // neither is a float64
		}
		return tri(aok && bok && a == b)
	case MAnythingBut:
		if v.K != KStr {
			return Unknown
		}
		for _, s := range m.List {
			if s == v.S {
				return No
			}
		}
		return Yes
	}
	if v.K != KStr {
		return No
	}
	switch m.K {
	case MString:
		return tri(m.S == v.S)
	case MPrefix:
		return tri(strings.HasPrefix(v.S, m.S))
	case MWildcard:
		return tri(globMatch(parseGlob(m.S, true), v.S))
	case MShell:
		return tri(globMatch(parseGlob(m.S, false), v.S))
	case MIgnoreCase:
		return foldEqual(m.S, v.S)
	case MRegexp:
		return tri(m.Re.matches(v.S))
	}
	panic("matcher kind")
}

func anyMatch(ms []*Matcher, v *Val) Tri {
	res := No
	for _, m := range ms {
		switch m.match(v) {
		case Yes:
			return Yes
		case Unknown:
			res = Unknown
		}
	}
	return res
}

// glob elements: -1 is a star, others are bytes
func parseGlob(s string, escapes bool) []int {
	var out []int
	for i := 0; i < len(s); i++ {
		switch {
		case escapes && s[i] == '\\' && i+1 < len(s):
			i++
			out = append(out, int(s[i]))
		case s[i] == '*':
			out = append(out, -1)
		default:
			out = append(out, int(s[i]))
		}
	}
	return out
}

func globMatch(g []int, s string) bool {
	// cur[j] says that the elements so far match s[:j]
	cur := make([]bool, len(s)+1)
	cur[0] = true
	for _, e := range g {
		next := make([]bool, len(s)+1)
		if e == -1 {
			seen := false
			for j := range cur {
				seen = seen || cur[j]
				next[j] = seen
			}
		} else {
			for j := 0; j < len(s); j++ {
				next[j+1] = cur[j] && int(s[j]) == e
			}
		}
		cur = next
	}
	return cur[len(s)]
}

// The simple case foldings which aren't common (status S rather than C in CaseFolding.txt). Quamina says it uses
// the file, and it doesn't say whether that includes these.
func isSFold(a, b rune) bool {
	s := func(up, low rune) bool { return a == up && b == low || a == low && b == up }
	if s(0x1e9e, 0xdf) || s(0x1fd3, 0x390) || s(0x1fe3, 0x3b0) || s(0xfb05, 0xfb06) ||
		s(0x1fbc, 0x1fb3) || s(0x1fcc, 0x1fc3) || s(0x1ffc, 0x1ff3) {
		return true
	}
	for _, base := range []rune{0x1f80, 0x1f90, 0x1fa0} {
		if a >= base && a < base+16 && b >= base && b < base+16 && (a == b+8 || b == a+8) {
			return true
		}
	}
	return false
}

func foldEqual(a, b string) Tri {
	res := Yes
	for len(a) > 0 && len(b) > 0 {
		ra, wa := utf8.DecodeRuneInString(a)
		rb, wb := utf8.DecodeRuneInString(b)
		a, b = a[wa:], b[wb:]
		if ra == rb {
			continue
		}
		same := false
		for f := unicode.SimpleFold(ra); f != ra; f = unicode.SimpleFold(f) {
			if f == rb {
				same = true
			}
		}
		if !same {
			return No
		}
		if isSFold(ra, rb) {
			res = Unknown
		}
	}
	if len(a) > 0 || len(b) > 0 {
		return No
	}
	return res
}

// patMatch decides whether the pattern matches an event with these leaves
func patMatch(p *Pat, ls []Leaf) Tri {
	fs := p.fields()
	if len(fs) == 0 {
		return Unknown
	}
	return fieldsMatch(fs, ls)
}

func fieldsMatch(fs []PField, ls []Leaf) Tri {
	type cand struct {
		leaf *Leaf
		t    Tri
	}
	var cands [][]cand
	for _, f := range fs {
		if len(f.Vals) == 0 {
			return No
		}
		k := f.Vals[0].K
		if k == MExistsFalse {
			for i := range ls {
				if ls[i].Path == f.Path {
					return No
				}
			}
			continue
		}
		var cs []cand
		for i := range ls {
			if ls[i].Path != f.Path {
				continue
			}
			t := Yes
			if k != MExistsTrue {
				t = anyMatch(f.Vals, ls[i].V)
			}
			if t != No {
				cs = append(cs, cand{&ls[i], t})
			}
		}
		if len(cs) == 0 {
			return No
		}
		cands = append(cands, cs)
	}
	try := func(unknownAs bool) bool {
		chosen := make([]*Leaf, 0, len(cands))
		var rec func(i int) bool
		rec = func(i int) bool {
			if i == len(cands) {
				return true
			}
		next:
			for _, c := range cands[i] {
				if c.t == Unknown && !unknownAs {
					continue
				}
				for _, o := range chosen {
					if trailsConflict(o.Trail, c.leaf.Trail) {
						continue next
					}
				}
				chosen = append(chosen, c.leaf)
				if rec(i + 1) {
					return true
				}
				chosen = chosen[:len(chosen)-1]
			}
			return false
		}
		return rec(0)
	}
	if try(false) {
		return Yes
	}
	if try(true) {
		return Unknown
	}
	return No
}

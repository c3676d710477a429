package main

// C07: which Patterns AddPattern accepts, and that those it rejects leave no trace.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"strconv"
	"strings"
	"unicode/utf8"

	quamina "quamina.net/go/quamina/v2"
)

func init() {
	register(&Check{
		ID:       "C07",
		Rule:     "distinct pattern texts for which the expected verdict was known and compared, plus distinct (instance, rejected pattern, event) triples",
		Required: []string{"valid patterns accepted", "invalid patterns rejected", "truncated patterns rejected", "regexps rejected", "instances unchanged by rejected patterns", "re-added after a rejection", "huge patterns", "short regexps", "places", "shapes accepted", "shapes rejected", "rebuilds after rejections"},
		Run:      runAcceptance,
	})
}

// badValues can't be elements of a field's array
var badValues = []string{
	`{"prefix":1}`, `{"prefix":null}`, `{"prefix":["a"]}`, `{"prefix":{}}`, `{"prefix":{"a":"b"}}`, `{"prefix":true}`,
	`{"wildcard":1}`, `{"wildcard":["a"]}`, `{"wildcard":null}`, `{"wildcard":{}}`, `{"shellstyle":1}`, `{"shellstyle":["a*"]}`, `{"shellstyle":null}`,
	`{"equals-ignore-case":1}`, `{"equals-ignore-case":["a"]}`, `{"equals-ignore-case":null}`, `{"regexp":1}`, `{"regexp":["a"]}`, `{"regexp":null}`, `{"regexp":{}}`,
	`{"anything-but":[]}`, `{"anything-but":[1]}`, `{"anything-but":["a",1]}`, `{"anything-but":[null]}`, `{"anything-but":[["a"]]}`, `{"anything-but":{"prefix":"a"}}`,
	`{"anything-but":1}`, `{"anything-but":null}`, `{"anything-but":["a",{"prefix":"b"}]}`, `{"anything-but":["a",["b"]]}`, `{"anything-but":["a",[]]}`, `{"anything-but":["a",{}]}`, `{"anything-but":["a",["b"],"c"]}`, `{"anything-but":["a",{"b":"c"}]}`, `{"anything-but":["a",true]}`, `{"anything-but":["a",false,"b"]}`, `{"anything-but":["a",null]}`, `{"anything-but":[{}]}`, `{"anything-but":[[]]}`, `{"anything-but":[{"b":["c"]}]}`,
	`{"exists":{"a":true}}`, `{"exists":[]}`, `{"exists":"false"}`, `{"exists":true,"a":[]}`, `{"exists":false,"a":{}}`, `{"prefix":[]}`, `{"prefix":false}`, `{"wildcard":[]}`, `{"wildcard":true}`, `{"shellstyle":{}}`, `{"shellstyle":[]}`, `{"shellstyle":false}`,
	`{"equals-ignore-case":{}}`, `{"equals-ignore-case":[]}`, `{"equals-ignore-case":true}`, `{"regexp":[]}`, `{"regexp":true}`, `{"prefix":"a","b":{}}`, `{"prefix":"a","b":[]}`, `{"wildcard":"a","b":{}}`, `{"wildcard":"a","b":[]}`, `{"shellstyle":"a","b":[]}`, `{"regexp":"a","b":[]}`,
	`{"equals-ignore-case":"a","b":{}}`, `{"equals-ignore-case":"a","b":[]}`, `{"anything-but":["a"],"b":[]}`, `{"anything-but":["a"],"b":{}}`,
	`{"exists":1}`, `{"exists":"true"}`, `{"exists":null}`, `{"exists":[true]}`, `{"exists":{}}`,
	`{"unknown":"a"}`, `{"":"a"}`, `{"Prefix":"a"}`, `{"suffix":"a"}`, `{"numeric":["=",1]}`, `{"cidr":"10.0.0.0/8"}`, `{"a":1}`, `{}`,
	`{"prefix":"a","suffix":"b"}`, `{"prefix":"a","prefix":"b"}`, `{"wildcard":"a","x":1}`, `{"regexp":"a","x":"y"}`, `{"equals-ignore-case":"a","x":1}`, `{"shellstyle":"a","x":1}`,
	`{"anything-but":["a"],"x":1}`, `{"exists":true,"x":1}`, `{"exists":true,"exists":true}`,
	`{"wildcard":"**"}`, `{"wildcard":"a**b"}`, `{"wildcard":"a***"}`, `{"wildcard":"\\"}`, `{"wildcard":"a\\"}`, `{"wildcard":"*\\"}`, `{"wildcard":"\\a"}`, `{"wildcard":"*\\a"}`,
	`{"wildcard":"\\\\\\"}`, `{"wildcard":"a\\**\\"}`, `{"wildcard":"é\\é"}`,
	`{"shellstyle":"**"}`, `{"shellstyle":"a**b"}`, `{"shellstyle":"*a***"}`,
	`["a"]`, `[]`, `[["a"]]`, `[{"prefix":"a"}]`,
	`tru`, `nul`, `+1`, `.5`, `1.`, `01`, `-`, `1e`, `0x10`, `NaN`, `'a'`, `a`, `"a`, `"\x"`, `"\u12"`, "\"\x01\"", "\"\n\"", `-a`, `1 2`, `"a" "b"`, `"a":1`, `,`, ``,
	`1,`, `,1`, `"a",,"b"`,
	"\"\xff\"", "\"\xc3\"", "\"\xed\xa0\x80\"", "\"\xc0\x80\"", "\"\xf5\x80\x80\x80\"", "{\"prefix\":\"a\x80\"}", "{\"wildcard\":\"\xe0\x80\"}",
}

// badCombos can't be the whole array of a field
var badCombos = []string{
	`{"anything-but":["a"]},"b"`, `"b",{"anything-but":["a"]}`, `{"anything-but":["a"]},{"anything-but":["b"]}`, `1,{"anything-but":["a"]},2`,
	`{"exists":true},{"exists":false}`, `{"exists":true},1`, `1,{"exists":true}`, `{"exists":false},"a"`, `"a",{"exists":false}`, `{"exists":true},{"exists":true}`,
	`{"exists":true},{"anything-but":["a"]}`, `{"prefix":"a"},{"exists":true}`, `{"anything-but":["a"]},{"prefix":"b"}`, `null,{"exists":false}`,
}

// badFields can't be the value of a member at all
var badFields = []string{`1`, `"a"`, `true`, `false`, `null`, `-0.5`, `tru`, `[1`, `[1}`, `{"a":1}`, `{"a":"b"}`, `{"a":null}`, `{"a":[1]`, `{"a":[1],}`, `{"a"}`, `{"a":}`, `{[1]}`,
	`{1:[1]}`, `{"a" [1]}`, `[1,]`, `[,1]`, `[1 2]`, `[1]]`, `{"a":[1]]`, `{"prefix":"a"}`, `{"exists":true}`, `{"a":{"b":{"c":7}}}`, `:`, ``}

var badWhole = []string{``, ` `, "\n", `[]`, `[1]`, `1`, `"a"`, `null`, `true`, `{`, `}`, `{"a"}`, `{"a":}`, `{"a":[1]`, `{,}`, `{"a":[1],}`, `{"a":[1] "b":[1]}`, `{a:[1]}`,
	`{'a':[1]}`, `{"a":[1]]`, `{"a":[1}}`, `{1:[1]}`, `{null:[1]}`, `{["a"]:[1]}`, `[{"a":[1]}]`, `"{\"a\":[1]}"`, "{\"a\xff\":[1]}", "{\"\xc3\":[1]}", "\xef\xbb\xbf{\"a\":[1]}", "{\"a\x01\":[1]}",
	`{"a":[1],"b":2}`, `{"b":"x","a":[1]}`, `{"a":{"b":[1]},"c":null}`, `{"a":{"b":[1],"c":[1,2}}`}

// invalidPattern makes a pattern that has to be rejected; the reason is for the report
func invalidPattern(r *rand.Rand, p *Profile, e *Val) (text, reason string) {
	base := p.pattern(r, e)
	for len(base.fields()) == 0 {
		base = p.pattern(r, p.event(r))
	}
	const mark = "@@MARK@@"
	plant := func(asField bool) string {
		// the marker takes the place of one of the values, or of the whole array of one of the fields
		c := clonePat(base)
		var nodes []*PNode
		var walk func(ns []*PNode)
		walk = func(ns []*PNode) {
			for _, n := range ns {
				if n.Sub != nil {
					walk(n.Sub)
				} else {
					nodes = append(nodes, n)
				}
			}
		}
		walk(c.Root)
		if chance(r, 40) && len(nodes) > 0 { // often the last one, after all else has been digested
			nodes = nodes[len(nodes)-1:]
		}
		n := pick(r, nodes)
		if asField {
			n.Vals = []*Matcher{{K: MString, S: mark}}
			return c.String()
		}
		keep := n.Vals[:0:0]
		for _, v := range n.Vals {
			if v.K != MAnythingBut && v.K != MExistsTrue && v.K != MExistsFalse {
				keep = append(keep, v)
			}
		}
		at := r.IntN(len(keep) + 1)
		n.Vals = append(append(append([]*Matcher{}, keep[:at]...), &Matcher{K: MString, S: mark}), keep[at:]...)
		return c.String()
	}
	switch r.IntN(10) {
	case 0:
		return pick(r, badWhole), "not a pattern"
	case 1:
		f := pick(r, badFields)
		return strings.Replace(plant(true), `["`+mark+`"]`, f, 1), "a field can't be " + f
	case 2:
		b := pick(r, badCombos)
		return strings.Replace(plant(true), `"`+mark+`"`, b, 1), "a field's array can't be [" + b + "]"
	case 3, 4, 5:
		b := pick(r, badValues)
		if b == "" || b == "," {
			b = ",,"
		}
		return strings.Replace(plant(false), `"`+mark+`"`, b, 1), "a value can't be " + b
	case 6, 7:
		s := ""
		for {
			if chance(r, 50) {
				s = pick(r, badRegexps)
			} else {
				s = randRegexpText(&T{R: r, Index: r.IntN(8)})
			}
			if _, v := parseRegexp(s); v == reReject {
				break
			}
		}
		return strings.Replace(plant(false), `"`+mark+`"`, `{"regexp":`+quote(s)+`}`, 1), "regexp " + s
	case 8:
		s := base.String()
		if chance(r, 50) {
			s = string(base.val().text(Style{Space: 2}, r))
		}
		return s[:r.IntN(len(s))], "truncated"
	}
	for { // corrupted
		b := []byte(base.String())
		for k := 1 + r.IntN(3); k > 0 && len(b) > 0; k-- {
			i := r.IntN(len(b))
			switch r.IntN(4) {
			case 0:
				b = append(b[:i:i], b[i+1:]...)
			case 1:
				b[i] = pick(r, []byte(`{}[]",:\0a1tfn -`))
			case 2:
				b = append(b[:i:i], append([]byte{pick(r, []byte(`{}[]",:\0a1tfn -`))}, b[i:]...)...)
			default:
				b[i] = byte(r.IntN(256))
			}
		}
		var raw json.RawMessage
		err := json.NewDecoder(bytes.NewReader(b)).Decode(&raw)
		if err == nil && utf8.Valid(b) {
			continue
		}
		if err == nil && utf8.Valid(raw) { // what follows the object isn't judged
			continue
		}
		return string(b), "corrupted"
	}
}

var badRegexps = []string{"(", ")", "a)", "(a", "(a|", "a(b", "((a)", "[", "]", "[]", "[^]", "[a", "[^a", "a]", "[a-", "[a-]b]", "[]a]", "[z-a]", "[a-b-c]", "[a--]", "[~n-~p{L}]", "[b-~p{L}]",
	"*", "+", "?", "{1}", "a**", "a+*", "a?+", "a{1}{2}", "a{1}*", "(*a)", "a|*", "|+", "(|?)", "a{", "a{1", "a{1,", "a{1,2", "a{}", "a{,}", "a{,2}", "a{a}", "a{1a}", "a{1,a}",
	"a{1;2}", "a{-1}", "a{2,1}", "a{ 1}", "a{1,2,3}", "a}", "}", "{", "~", "a~", "~a", "~q", "~d", "~D", "~s", "~S", "~w", "~W", "~i", "~c", "~1", "~\"", "~é", "~p", "~P", "~p{", "~p{L", "~p{}",
	"~p{l}", "~p{Lx}", "~p{Luu}", "~p{^L}", "~p{IsBasicLatin}", "~pL", "~p{Cs}", "~P{Cs}", "~p{X}", "~p{ L}", "[~", "[~q]", "[~d]", "[~p]", "[~p{L]", "[a[b]]", "[[a]", "(a]", "[a)", "(?:a)", "(?=a)", "a*?",
	"a+?", "a??", "a{1,2}?", "a|b)", "(a|b", "~p{Lu", "[a-~", "[a-~p{L}]", "((((((a)))))", "x{100000000000000000000,1}"}

func clonePat(p *Pat) *Pat {
	var walk func(ns []*PNode) []*PNode
	walk = func(ns []*PNode) []*PNode {
		if ns == nil {
			return nil
		}
		out := []*PNode{}
		for _, n := range ns {
			out = append(out, &PNode{Name: n.Name, Sub: walk(n.Sub), Vals: append([]*Matcher{}, n.Vals...)})
		}
		return out
	}
	return &Pat{Root: walk(p.Root)}
}

// shape makes a JSON object that looks more or less like a Pattern
func shape(r *rand.Rand) *Val {
	scalar := func() *Val {
		switch r.IntN(5) {
		case 0:
			return vNum(pick(r, []string{"0", "-1", "35", "1.5", "3e2", "-0.25"}))
		case 1:
			return &Val{K: pick(r, []Kind{KTrue, KFalse, KNull})}
		}
		return vStr(pick(r, []string{"", "a", "b*", "a*b*", "**", "\\", "\\*", "a\\b", "[ab]", "(", "a+", "a{2,1}", "é", "true", "1", "exists", "prefix"}))
	}
	slip := func(n int) bool { return r.IntN(n) == 0 }
	var any, member, special func(depth int) *Val
	any = func(depth int) *Val {
		switch k := r.IntN(8); {
		case k == 0 && depth < 4:
			v := vArr()
			for n := r.IntN(4); n > 0; n-- {
				v.El = append(v.El, any(depth+1))
			}
			return v
		case k == 1 && depth < 4:
			return special(depth + 1)
		case k == 2 && depth < 4:
			return member(depth + 1)
		}
		return scalar()
	}
	special = func(depth int) *Val {
		name := pick(r, []string{"prefix", "wildcard", "shellstyle", "equals-ignore-case", "regexp", "anything-but", "exists"})
		var v *Val
		switch name {
		case "anything-but":
			v = vArr()
			for n := 1 + r.IntN(4); n > 0; n-- {
				v.El = append(v.El, vStr(pick(r, []string{"", "a", "b", "exists"})))
				if slip(20) {
					v.El[len(v.El)-1] = any(depth)
				}
			}
			if slip(20) {
				v.El = v.El[:0]
			}
		case "exists":
			v = &Val{K: pick(r, []Kind{KTrue, KFalse})}
		default:
			v = vStr(pick(r, []string{"", "a", "b*", "*", "ab*c", "*a*", "é", "a"}))
			if slip(6) {
				v = scalar()
			}
		}
		if slip(12) {
			v = any(depth)
		}
		if slip(25) {
			name = pick(r, []string{"", "Prefix", "anything-But", "exist", "suffix", "a", "regexp ", "numeric"})
		}
		o := obj1(name, v)
		if slip(25) {
			o.Mem = append(o.Mem, Member{pick(r, []string{"a", "", "zz"}), any(depth)})
		}
		if slip(60) {
			o.Mem = nil
		}
		return o
	}
	member = func(depth int) *Val {
		if chance(r, 30) && depth < 5 {
			o := vObj()
			for k, n := 0, 1+r.IntN(3); k < n; k++ {
				o.Mem = append(o.Mem, Member{string(rune('a' + k)), member(depth + 1)})
			}
			return o
		}
		if slip(25) {
			return any(depth)
		}
		v := vArr()
		if chance(r, 25) {
			v.El = append(v.El, special(depth))
			if !slip(6) {
				return v
			}
		}
		for n := 1 + r.IntN(4); n > 0; n-- {
			switch {
			case slip(25):
				v.El = append(v.El, any(depth))
			case chance(r, 30):
				sp := special(depth)
				for tries := 0; tries < 9 && len(sp.Mem) > 0 && (sp.Mem[0].Name == "exists" || sp.Mem[0].Name == "anything-but"); tries++ {
					sp = special(depth)
				}
				v.El = append(v.El, sp)
			default:
				v.El = append(v.El, scalar())
			}
		}
		return v
	}
	o := vObj()
	for k, n := 0, 1+r.IntN(4); k < n; k++ {
		o.Mem = append(o.Mem, Member{string(rune('a' + k)), member(1)})
	}
	return o
}

// validShape says whether an object is a Pattern, and if not, why
func validShape(v *Val) (Tri, string) {
	verdict := Yes
	for _, m := range v.Mem {
		var ok Tri
		why := ""
		switch m.Val.K {
		case KObj:
			ok, why = validShape(m.Val)
			if len(m.Val.Mem) == 0 { // as a Pattern that has nothing in it: not judged
				ok = Unknown
			}
		case KArr:
			ok, why = validField(m.Val)
		default:
			ok, why = No, "the member "+quote(m.Name)+" is neither an array nor an object"
		}
		if ok == No {
			return No, why
		}
		if ok == Unknown {
			verdict = Unknown
		}
	}
	return verdict, ""
}

func validField(v *Val) (Tri, string) {
	verdict := Yes
	for _, el := range v.El {
		if el.K == KArr {
			return No, "an array in an array"
		}
		if el.K != KObj {
			continue
		}
		if len(el.Mem) != 1 {
			return No, fmt.Sprintf("a special value with %d members", len(el.Mem))
		}
		name, arg := el.Mem[0].Name, el.Mem[0].Val
		if name == "exists" || name == "anything-but" {
			if len(v.El) > 1 {
				return No, name + " with other values"
			}
		}
		switch name {
		case "exists":
			if arg.K != KTrue && arg.K != KFalse {
				return No, "exists takes true or false"
			}
		case "anything-but":
			if arg.K != KArr || len(arg.El) == 0 {
				return No, "anything-but takes an array that isn't empty"
			}
			for _, s := range arg.El {
				if s.K != KStr {
					return No, "anything-but takes strings"
				}
			}
		case "prefix", "equals-ignore-case", "wildcard", "shellstyle", "regexp":
			if arg.K != KStr {
				return No, name + " takes a string"
			}
			switch name {
			case "wildcard", "shellstyle":
				unescaped := arg.S
				if name == "wildcard" {
					b := []byte{}
					for i := 0; i < len(arg.S); i++ {
						if arg.S[i] == '\\' {
							if i++; i == len(arg.S) || arg.S[i] != '\\' && arg.S[i] != '*' {
								return No, "wildcard with a wrong escape"
							}
							b = append(b, 'x')
							continue
						}
						b = append(b, arg.S[i])
					}
					unescaped = string(b)
				}
				if strings.Contains(unescaped, "**") {
					return No, name + " with two adjacent *"
				}
			case "regexp":
				switch _, ok := parseRegexp(arg.S); ok {
				case reReject:
					return No, "regexp " + arg.S
				case reUnjudged:
					verdict = Unknown
				}
			}
		default:
			return No, "there is no " + name
		}
	}
	return verdict, ""
}

func (t *T) mustReject(q *quamina.Quamina, x quamina.X, text, reason string) {
	if err := q.AddPattern(x, text); err == nil {
		if os.Getenv("QV_ALL") != "" {
			fmt.Fprintf(os.Stderr, "ACC %q %s\n", text, reason)
			return
		}
		t.Fail("AddPattern accepted an invalid pattern", map[string]any{"pattern": text, "why it's invalid": reason, "quoted": fmt.Sprintf("%q", text)})
	}
	t.Eval(1)
	t.Count("invalid patterns rejected", 1)
	t.Distinct(text)
}

func runAcceptance(c *Ctx) {
	acc := *profiles()[0]
	c.Run("valid", c.N(16000, 100000), func(t *T) {
		r := t.R
		p := profiles()[t.Index%len(profiles())]
		q := t.newQ(t.randOpts()...)
		for k := 0; k < 6; k++ {
			pat := p.pattern(r, p.event(r))
			txt := pat.text(t.style(), r)
			if chance(r, 30) {
				txt = string(pat.val().text(Style{Space: 2, Escape: 30, Shuffle: true}, r))
			}
			t.mustAdd(q, k, txt)
			t.Eval(1)
			t.Count("valid patterns accepted", 1)
			t.Distinct(txt)
		}
	})
	// each item of the lists, by itself
	lists := [][]string{badWhole, badFields, badCombos, badValues, badRegexps}
	c.Run("lists", 16, func(t *T) {
		for which, list := range lists {
			for i, s := range list {
				txt := s
				switch which {
				case 1:
					txt = `{"f":` + s + `}`
				case 2:
					txt = `{"f":[` + s + `]}`
				case 3:
					if s == "" {
						continue // the empty array is fine
					}
					txt = `{"f":[` + s + `]}`
					if t.Index&1 != 0 {
						txt = `{"f":["x",` + s + `]}`
					}
				case 4:
					if _, v := parseRegexp(s); v != reReject {
						Harness("the model accepts the regexp %q", s)
					}
					txt = `{"f":[{"regexp":` + quote(s) + `}]}`
				}
				if t.Index&2 != 0 && which > 0 {
					txt = `{"a":[1],` + txt[1:]
				}
				if t.Index&4 != 0 && which > 0 {
					txt = `{"o":` + txt + `}`
				}
				q := t.newQ(quamina.WithPatternDeletion(t.Index&8 != 0))
				t.mustReject(q, i, txt, "listed")
			}
		}
	})
	judge := func(t *T, s string, all bool) {
		a, v := parseRegexp(s)
		if v == reUnjudged || v == reAccept && (repeatSize(a) > 400 || !all && (strings.Contains(s, "~P") || strings.Contains(s, "[^") && !chance(t.R, 5))) {
			t.Count("regexps not judged", 1)
			return
		}
		q := t.newQ()
		txt := `{"f":[{"regexp":` + quote(s) + `}]}`
		if v == reAccept {
			t.mustAdd(q, 0, txt)
			t.Count("regexps accepted", 1)
			t.Distinct(txt)
			t.Eval(1)
		} else {
			t.mustReject(q, 0, txt, "regexp "+s)
			t.Count("regexps rejected", 1)
		}
	}
	c.Run("regexps", c.N(50000, 400000), func(t *T) {
		for k := 0; k < 4; k++ {
			judge(t, randRegexpText(t), false)
		}
	})
	// every regexp of up to 3 of these characters, or up to 4 in the thorough tier, one case for each that comes first
	const few = `a9-^~[](){},|*+?.pPnL\é`
	alphabet := []rune(few)
	c.Run("short", len(alphabet)*len(alphabet), func(t *T) {
		s := string([]rune{alphabet[t.Index/len(alphabet)], alphabet[t.Index%len(alphabet)]})
		judge(t, s, true)
		judge(t, s[:len(string(alphabet[t.Index/len(alphabet)]))], true)
		for _, third := range alphabet {
			judge(t, s+string(third), true)
			for _, fourth := range alphabet {
				if chance(t.R, c.N(5, 100)) {
					judge(t, s+string(third)+string(fourth), c.Tier == "thorough")
				}
			}
		}
		t.Count("short regexps", 1)
	})
	// each of these with every character
	places := []string{"~%", "%a", "~%{Lu}", "~p{%}", "~P{L%}", "~p%Lu}", "~p{Lu%", "[~%]", "[~%{Lu}]", "[^~%{Lu}]", "[a-~%]", "[~%-z]", "(%", "[%]", "[%-z]", "[a-%]", "[a%b]", "[^%]", "(%)", "(a%b)", "a{%}", "a{1%}", "a{1,%}", "a{1,2%}", "a%{2}", "a%*", "a|%", "[a%", "(a%", "a{1%", "a%"}
	c.Run("places", len(places), func(t *T) {
		chars := []rune("é\u0080\u07ff\u0800\ud7ff\ue000\ufffd\uffff\U00010000\U0010ffff")
		for b := rune(1); b < 128; b++ {
			chars = append(chars, b)
		}
		for _, ch := range chars {
			// the automata of these are large
			if c.Tier != "thorough" && places[t.Index][:2] == "[^" && !chance(t.R, 10) {
				continue
			}
			judge(t, strings.ReplaceAll(places[t.Index], "%", string(ch)), true)
		}
		t.Count("places", 1)
	})
	c.Run("truncated", c.N(1600, 10000), func(t *T) {
		r := t.R
		p := profiles()[t.Index%len(profiles())]
		txt := string(p.pattern(r, p.event(r)).val().text(t.style(), r))
		q := t.newQ(t.randOpts()...)
		for i := 0; i < len(txt); i++ {
			t.mustReject(q, i, txt[:i], "truncated")
			t.Count("truncated patterns rejected", 1)
		}
	})
	c.Run("shapes", c.N(20000, 150000), func(t *T) {
		r := t.R
		q := t.newQ(t.randOpts()...)
		for k := 0; k < 8; k++ {
			v := shape(r)
			ok, why := validShape(v)
			txt := string(v.text(t.style(), r))
			switch ok {
			case Yes:
				t.mustAdd(q, k, txt)
				t.Eval(1)
				t.Count("shapes accepted", 1)
				t.Distinct(txt)
			case No:
				t.mustReject(q, k, txt, why)
				t.Count("shapes rejected", 1)
			default:
				t.Count("shapes not judged", 1)
			}
		}
	})
	// a great many of the same token
	c.Run("huge", c.N(60, 400), func(t *T) {
		r := t.R
		q := t.newQ(t.randOpts()...)
		t.mustAdd(q, 1, `{"a":["x"]}`)
		n := []int{1000, 9000, 20000, 300000, 3000000, 6000000}[r.IntN(6)]
		begin := pick(r, []string{"", `{`, `{"a":`, `{"a":[`, `{"a":["`, `{"`, `{"a":[{"regexp":"`, `{"a":[{"regexp":"`, `{"a":[{"regexp":"`, `{"a":[{"regexp":"a(`, `{"a":[{"wildcard":"`, `{"a":[{"anything-but":[`, `{"a":[{"exists":`})
		unit := pick(r, []string{"(", "(a|", "((", "[", "[^", "(b*", `{`, `{"a":`, `[{"b":`, `"`, `\\`, `\u`, "*", "?", ")", "]", "}", "~", ",", "-", "1", "~p{", "a{", "(()"})
		text := begin + strings.Repeat(unit, min(n, 12_000_000/len(unit)))
		if chance(r, 50) && strings.Contains(begin, "regexp") {
			text += `"}]}`
		}
		if strings.HasSuffix(text, "}]}") && (unit == "1" || unit == "-" || unit == "}" || unit == ",") {
			text = text[:len(text)-3] // it would be valid, and large
		}
		if err := q.AddPattern(2, text); err == nil {
			t.Fail("AddPattern accepted an invalid pattern", map[string]any{"pattern": clip([]byte(text))})
		}
		t.Eval(1)
		t.Count("huge patterns", 1)
		t.Distinct("huge", begin, unit, strconv.Itoa(n))
		if xs := t.mustMatch(q, []byte(`{"a":"x"}`)); len(xs) != 1 {
			t.Fail(fmt.Sprintf("after a huge pattern was refused, the result is %v", xs), nil)
		}
	})
	// patterns with very long values, several of which begin alike
	c.Run("long", 2*len(bigKinds), func(t *T) {
		t.big(t.Index%len(bigKinds), []int{1000, 50_000}[t.Index/len(bigKinds)])
	})
	c.Run("overflow", len(bigKinds), func(t *T) {
		if n := bigKinds[t.Index].overflow; n > 0 {
			t.big(t.Index, n)
		} else {
			t.big(t.Index, 1_000_000)
		}
	})
	c.Run("trace", c.N(12000, 80000), func(t *T) {
		r := t.R
		p := &acc
		if chance(r, 60) {
			p = profiles()[r.IntN(len(profiles()))]
		}
		var events []*Val
		for i := 0; i < 1+r.IntN(3); i++ {
			e := p.event(r)
			events = append(events, e, p.mutateEvent(r, e))
		}
		w := &World{t: t, q: t.newQ(t.randOpts()...), pats: genPats(r, p, events, 1+r.IntN(15))}
		if speedSafe(w.pats) && chance(r, 30) {
			_ = w.q.SetMatcherBuildMode(quamina.BuiltForSpeed)
		}
		for _, n := range []int{0, len(w.pats) / 2, len(w.pats)} {
			w.addUpTo(n)
			before := fmt.Sprint(w.q.GetMatcherStats())
			for k := 1 + r.IntN(4); k > 0; k-- {
				txt, why := invalidPattern(r, p, pick(r, events))
				x := any("rejected")
				if chance(r, 30) && w.added > 0 {
					x = r.IntN(w.added)
				}
				t.mustReject(w.q, x, txt, why)
				t.Note("rejected: %q (X %v)", txt, x)
			}
			if after := fmt.Sprint(w.q.GetMatcherStats()); after != before {
				t.Fail("rejected patterns changed the statistics", map[string]any{"before": before, "after": after})
			}
			for _, e := range events {
				w.judge(e, e.text(t.style(), r))
			}
			t.Count("instances unchanged by rejected patterns", 1)
		}
	})
	// the X of a rejected pattern can be used afterwards, and a rebuild doesn't bring the rejected one back
	c.Run("readd", c.N(4000, 20000), func(t *T) {
		r := t.R
		p := profiles()[r.IntN(3)]
		events := []*Val{p.event(r), p.event(r)}
		w := &World{t: t, q: t.newQ(quamina.WithPatternDeletion(chance(r, 70))), pats: genPats(r, p, events, 1+r.IntN(8))}
		for i := range w.pats {
			txt, why := invalidPattern(r, p, pick(r, events))
			t.mustReject(w.q, i, txt, why)
			w.addUpTo(i + 1)
			if chance(r, 40) {
				txt, why = invalidPattern(r, p, pick(r, events))
				t.mustReject(w.q, i, txt, why)
			}
			for _, e := range events {
				w.judge(e, e.text(t.style(), r))
			}
			t.Count("re-added after a rejection", 1)
		}
	})
	c.Run("rebuild", c.N(60, 1000), func(t *T) {
		r := t.R
		p := profiles()[r.IntN(3)]
		events := []*Val{p.event(r), p.event(r), obj1("gone", vStr("x"))}
		w := &World{t: t, q: t.newQ(quamina.WithPatternDeletion(true)), pats: genPats(r, p, events[:2], 1+r.IntN(8))}
		w.addUpTo(len(w.pats))
		// rejected ones that would match the third event but for their last field
		for i := 0; i < 5; i++ {
			t.mustReject(w.q, "rejected", `{"gone":["x"],"zz":[{"exists":0}]}`, "exists needs a boolean")
			txt, why := invalidPattern(r, p, pick(r, events))
			t.mustReject(w.q, pick(r, []any{"rejected", 0}), txt, why)
		}
		// deleted ones that do, so that the filter has enough to do for a rebuild
		for i := 0; i < 4; i++ {
			t.mustAdd(w.q, fmt.Sprint("doomed", i), `{"gone":["x"]}`)
			if err := w.q.DeletePatterns(fmt.Sprint("doomed", i)); err != nil {
				t.Fail("DeletePatterns: "+err.Error(), nil)
			}
		}
		last := events[2].text(Style{}, nil)
		for i := 0; i < 1200; i++ {
			if xs := t.mustMatch(w.q, last); len(xs) != 0 {
				if _, isStr := xs[0].(string); isStr {
					t.Fail(fmt.Sprintf("reported %v", xs), nil)
				}
			}
			if i%300 == 299 {
				for _, e := range events {
					w.judge(e, e.text(t.style(), r))
				}
			}
		}
		t.Count("rebuilds after rejections", 1)
	})
	// arbitrary bytes: whatever the verdict, no panic and no effect on the others
	c.Run("garbage", c.N(16000, 100000), func(t *T) {
		r := t.R
		q := t.newQ()
		t.mustAdd(q, "good", `{"good":["yes"]}`)
		p := profiles()[t.Index%len(profiles())]
		for k := 0; k < 5; k++ {
			b := []byte(p.pattern(r, p.event(r)).text(t.style(), r))
			for n := r.IntN(8); n > 0 && len(b) > 0; n-- {
				i := r.IntN(len(b))
				switch r.IntN(3) {
				case 0:
					b[i] = byte(r.IntN(256))
				case 1:
					b = append(b[:i:i], b[i+1:]...)
				default:
					j := r.IntN(len(b))
					b = append(b[:i:i], append(bytes.Clone(b[min(i, j):max(i, j)]), b[i:]...)...)
				}
			}
			if len(b) > 400 || bytes.Contains(b, []byte("{9")) || bytes.Contains(b, []byte("~P")) || bytes.Contains(b, []byte("[^")) {
				continue
			}
			_ = q.AddPattern("garbage", string(b))
			t.Eval(1)
		}
		if xs := t.mustMatch(q, []byte(`{"good":"yes","bad":[1,2]}`)); fmt.Sprint(xs) != "[good]" && !(len(xs) == 2) {
			t.Fail(fmt.Sprintf("after garbage: %v", xs), nil)
		}
	})
}

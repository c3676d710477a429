package main

// C11, C12: events as texts. The same event in different spellings; texts that aren't events.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"regexp"
	"strings"

	quamina "quamina.net/go/quamina/v2"
)

func init() {
	register(&Check{
		ID:       "C11",
		Rule:     "distinct (set of patterns, spelling of an event) pairs with a non-empty result, compared with the result for the plain spelling",
		Required: []string{"spellings", "spellings with unused members", "with matches", "reordered", "escaped", "respelled numbers", "big spellings"},
		Run:      runSpellings,
	})
	register(&Check{
		ID:       "C12",
		Rule:     "distinct texts that aren't JSON objects, for which an error was demanded",
		Required: []string{"rejected events", "truncated events", "corrupted events", "valid events after bad ones", "arbitrary bytes", "accepted valid events", "huge events"},
		Run:      runMalformed,
	})
}

// junk makes a value that no pattern is interested in, meant to confuse a reader that skips it
func junk(r *rand.Rand, names []string, depth int) *Val {
	switch x := r.IntN(12); {
	case x < 3:
		return vStr(pick(r, []string{"}", "{", "]", "[", "\"", "\\", "\\\\", "\\\"", "}]", ",", ":", "\"}", "\\\\\"", "{\"a\":1}", "[[[", "true", "\"\"", "a\\", "é\U00010400\"{"}))
	case x < 4:
		return vStr(mixedString(r))
	case x < 6:
		return vNum(randNumberText(r))
	case x < 7:
		return &Val{K: []Kind{KTrue, KFalse, KNull}[r.IntN(3)]}
	case x < 8 || depth == 0:
		return vStr("")
	case x < 10:
		a := vArr()
		for n := r.IntN(4); n > 0; n-- {
			a.El = append(a.El, junk(r, names, depth-1))
		}
		return a
	}
	o := vObj()
	for n := r.IntN(4); n > 0; n-- {
		name := pick(r, append([]string{"}", "\"", "\\", "{", "", "x"}, names...))
		if o.get(name) == nil {
			o.Mem = append(o.Mem, Member{name, junk(r, names, depth-1)})
		}
	}
	return o
}

func randNumberText(r *rand.Rand) string { return fixNum(randNumber(r)) }

// addJunk inserts members, at any depth, whose paths no pattern mentions
func addJunk(r *rand.Rand, v *Val, names []string, used func(path string) bool, path []string) {
	switch v.K {
	case KObj:
		for _, m := range v.Mem {
			addJunk(r, m.Val, names, used, append(path[:len(path):len(path)], m.Name))
		}
		for n := r.IntN(3); n > 0; n-- {
			name := pick(r, append([]string{"junk", "", "a", "b", "zz", "\x01", "\U0010FFFF", "}", "\"", "\\"}, names...))
			if chance(r, 30) && len(names) > 0 {
				name = pick(r, names) + pick(r, []string{"a", "\x01", " ", "é"})
			}
			p := strings.Join(append(path[:len(path):len(path)], name), "\n")
			if v.get(name) != nil || used(p) {
				continue
			}
			i := r.IntN(len(v.Mem) + 1)
			v.Mem = append(v.Mem[:i:i], append([]Member{{name, junk(r, names, 2)}}, v.Mem[i:]...)...)
		}
	case KArr:
		for _, e := range v.El {
			addJunk(r, e, names, used, path)
		}
	}
}

func runSpellings(c *Ctx) {
	c.Run("random", c.N(36000, 200000), func(t *T) {
		r := t.R
		p := profiles()[t.Index%len(profiles())]
		var events []*Val
		for i := 0; i < 1+r.IntN(3); i++ {
			events = append(events, p.event(r))
		}
		w := &World{t: t, q: t.newQ(t.randOpts()...), pats: genPats(r, p, events, 1+r.IntN(15))}
		w.addUpTo(len(w.pats))
		mentioned := map[string]bool{}
		for _, pt := range w.pats {
			for _, f := range pt.fields() {
				mentioned[f.Path] = true
				for i := range f.Path {
					if f.Path[i] == '\n' {
						mentioned[f.Path[:i]] = true
					}
				}
			}
		}
		used := func(path string) bool { return mentioned[path] }
		all := strings.Join(w.texts, "\n")
		for _, e := range events {
			plain := e.text(Style{}, nil)
			want := sortedStrings(t.mustMatch(w.q, plain))
			if len(want) > 0 {
				t.Count("with matches", 1)
			}
			check := func(kind string, text []byte) {
				got := sortedStrings(t.mustMatch(w.q, text))
				t.Eval(1)
				t.Count("spellings", 1)
				if !sameStrings(want, got) {
					t.Fail("the result depends on how the event is written ("+kind+")", map[string]any{"patterns": w.clipTexts(), "plain": clip(plain),
						"written": clip(text), "difference": diffStrings(want, got)})
				}
				if len(want) > 0 {
					t.Distinct(all, string(text))
				}
			}
			check("white space", e.text(Style{Space: 1 + r.IntN(2)}, r))
			check("white space around it", append(append([]byte(pick(r, spaces)), e.text(Style{Space: 2}, r)...), pick(r, spaces)...))
			check("escapes", e.text(Style{Escape: []int{5, 50, 100}[r.IntN(3)]}, r))
			check("order of members", e.text(Style{Shuffle: true}, r))
			check("numbers", e.text(Style{Numbers: true}, r))
			check("everything", e.text(Style{Space: 1, Escape: 20, Shuffle: true, Numbers: true}, r))
			t.Count("reordered", 1)
			t.Count("escaped", 1)
			t.Count("respelled numbers", 1)
			for k := 0; k < 3; k++ {
				j := e.clone()
				addJunk(r, j, p.Names, used, nil)
				check("unused members", j.text(t.style(), r))
				t.Count("spellings with unused members", 1)
			}
		}
	})
	c.Run("big", c.N(17*11*2, 17*11*20), bigSpelling)
}

// bigSpelling adds to an event, where no pattern looks or where nothing changes, something that's long, deep or
// numerous, by about a power of two
func bigSpelling(t *T) {
	r := t.R
	n := max(1<<(1+t.Index%17)+r.IntN(4)-2, 1)
	// numbers of different kinds of brackets, one in the other
	nest := func(kind int) string {
		var open, shut strings.Builder
		var stack []byte
		for range n {
			k := kind
			if kind == 2 {
				k = r.IntN(2)
			}
			if k == 0 {
				open.WriteString(pick(r, []string{`[`, `[`, `["]",`, `[[],`}))
				stack = append(stack, ']')
			} else {
				open.WriteString(pick(r, []string{`{"b":`, `{"}":{},"b":`, `{"a":"}","":`}))
				stack = append(stack, '}')
			}
		}
		for i := len(stack) - 1; i >= 0; i-- {
			shut.WriteByte(stack[i])
		}
		return open.String() + pick(r, []string{"0", `"]}"`, "[]", "{}"}) + shut.String()
	}
	repeat := func(s string) string { return strings.Repeat(s, n) }
	w := func() string { return "" }
	extra, name := "0", "b"
	kind := t.Index / 17 % 11
	switch kind {
	case 0, 1, 2:
		extra = nest(kind)
	case 3:
		extra = `"` + repeat(pick(r, []string{"}", "]", `\\`, `\"`, "{", "a", `\u005d`, "é", `\ud83d\ude00`})) + `"`
	case 4:
		extra = `[` + repeat(pick(r, []string{"0,", "[],", "{},", `"]",`, "[[]],"})) + `0]`
	case 5:
		extra = `{` + repeat(pick(r, []string{`"a":0,`, `"d":[],`, `"z":{"z":2},`, `"}":"{",`})) + `"c":0}`
	case 6:
		name = repeat(pick(r, []string{"b", `\\`, `\"`, "}", "é", `\u0061`})) + "b"
	case 7:
		space := repeat(pick(r, []string{" ", "\n", "\t", "\r", " \n"}))
		w = func() string { return pick(r, []string{"", space, " "}) }
	case 8:
		extra = pick(r, []string{"", "-"}) + "1" + repeat("0") + pick(r, []string{"", ".0", "e1", "E-3"})
	case 9:
		extra = "0." + repeat("1")
	case 10: // in front of the number that matters, an element that has nothing to do with it
		extra = "0"
	}
	elem := ""
	if kind == 10 {
		elem = strings.TrimSuffix(repeat(`{"x":0},`), ",") + ","
	}
	q := t.newQ(t.randOpts()...)
	t.mustAdd(q, 1, `{"a":[1],"d":{"c":["x"]},"z":[{"wildcard":"*2"}]}`)
	t.mustAdd(q, 2, `{"z":["x2"]}`)
	t.mustAdd(q, 3, `{"z":["y2"]}`)
	t.mustAdd(q, 4, `{"a":[{"exists":false}],"d":{"c":["x"]}}`)
	members := []string{
		w() + `"a"` + w() + `:` + w() + `[` + w() + elem + `1` + w() + `]` + w(),
		w() + `"d"` + w() + `:` + w() + `{` + w() + `"` + name + `"` + w() + `:` + w() + extra + w() + `,` + w() + `"c"` + w() + `:` + w() + `"x"` + w() + `}`,
		w() + `"z":` + w() + `"x2"` + w(),
		w() + `"` + name + `"` + w() + `:` + w() + extra + w(),
	}
	r.Shuffle(len(members), func(i, j int) { members[i], members[j] = members[j], members[i] })
	text := []byte(w() + `{` + strings.Join(members, ",") + `}` + w())
	got := t.intSet(t.mustMatch(q, text), text)
	t.Eval(1)
	t.Count("big spellings", 1)
	t.Distinct(string(text))
	if len(got) != 2 || !got[1] || !got[2] {
		t.Fail("the result depends on how the event is written (size)", map[string]any{"kind": kind, "size": n, "want": "1 and 2", "got": fmt.Sprint(got), "event": clip(text)})
	}
}

// ---- C12

var lenientNumber = regexp.MustCompile(`^-?[0-9]*(\.[0-9]*)?([eE][-+0-9][0-9]*)?`)

// lenientJSON recognises a superset of JSON objects: numbers and commas before a closing bracket aren't judged
type lenientJSON struct {
	b []byte
	i int
	// If known is set, it has the path of each member that the instance looks at, and lax tells whether there was
	// anything that it need not look at, or several members of the same name.
	known map[string]*Val
	lax   bool
}

func lenientObject(b []byte) bool {
	return (&lenientJSON{b: b}).whole()
}

func (l *lenientJSON) whole() bool {
	l.ws()
	return l.peek() == '{' && l.value(nil) && func() bool { l.ws(); return l.i == len(l.b) }()
}

// knownMembers returns the paths of all members, those of objects (also in arrays) being marked by a KObj
// pathKey tells the path of the event as a whole from that of a member with an empty name
func pathKey(path []string) string { return strings.Repeat("/", len(path)) + strings.Join(path, "\n") }

func knownMembers(e *Val) map[string]*Val {
	known := map[string]*Val{}
	var walk func(v *Val, path []string)
	walk = func(v *Val, path []string) {
		switch v.K {
		case KObj:
			known[pathKey(path)] = &Val{K: KObj}
			for _, m := range v.Mem {
				pp := append(path[:len(path):len(path)], m.Name)
				if known[pathKey(pp)] == nil {
					known[pathKey(pp)] = &Val{K: KNull}
				}
				walk(m.Val, pp)
			}
		case KArr:
			for _, x := range v.El {
				walk(x, path)
			}
		}
	}
	walk(e, nil)
	return known
}

func (l *lenientJSON) peek() int {
	if l.i < len(l.b) {
		return int(l.b[l.i])
	}
	return -1
}
func (l *lenientJSON) ws() {
	for l.i < len(l.b) && bytes.IndexByte([]byte(" \t\r\n"), l.b[l.i]) >= 0 {
		l.i++
	}
}
func (l *lenientJSON) lit(s string) bool {
	if bytes.HasPrefix(l.b[l.i:], []byte(s)) {
		l.i += len(s)
		return true
	}
	return false
}
func (l *lenientJSON) str() bool {
	if l.peek() != '"' {
		return false
	}
	for l.i++; l.i < len(l.b); l.i++ {
		switch c := l.b[l.i]; {
		case c == '"':
			l.i++
			return true
		case c < 0x20 || c >= 0xf5:
			return false
		case c == '\\':
			l.i++
			if l.i >= len(l.b) {
				return false
			}
			if l.b[l.i] == 'u' {
				for k := 0; k < 4; k++ {
					l.i++
					if l.i >= len(l.b) || bytes.IndexByte([]byte("0123456789abcdefABCDEF"), l.b[l.i]) < 0 {
						return false
					}
				}
			} else if bytes.IndexByte([]byte(`"\/bfnrt`), l.b[l.i]) < 0 {
				return false
			}
		}
	}
	return false
}
func (l *lenientJSON) value(path []string) bool {
	switch c := l.peek(); {
	case c == '{':
		if k := l.known[pathKey(path)]; k == nil || k.K != KObj {
			l.lax = true
		}
		names := map[string]bool{}
		l.i++
		for {
			l.ws()
			if l.lit("}") {
				return true
			}
			start := l.i
			if !l.str() {
				return false
			}
			var name string
			if json.Unmarshal(l.b[start:l.i], &name) != nil || names[name] || strings.Contains(name, "\n") {
				l.lax = true
			}
			names[name] = true
			sub := append(path[:len(path):len(path)], name)
			if l.known[pathKey(sub)] == nil {
				l.lax = true
			}
			l.ws()
			if !l.lit(":") {
				return false
			}
			l.ws()
			if !l.value(sub) {
				return false
			}
			l.ws()
			if l.lit("}") {
				return true
			}
			if !l.lit(",") {
				return false
			}
		}
	case c == '[':
		l.i++
		for {
			l.ws()
			if l.lit("]") {
				return true
			}
			if !l.value(path) {
				return false
			}
			l.ws()
			if l.lit("]") {
				return true
			}
			if !l.lit(",") {
				return false
			}
		}
	case c == '"':
		return l.str()
	case c == 't':
		return l.lit("true")
	case c == 'f':
		return l.lit("false")
	case c == 'n':
		return l.lit("null")
	case c == '-' || c >= '0' && c <= '9':
		m := lenientNumber.Find(l.b[l.i:])
		l.i += len(m)
		return true
	}
	return false
}

// fullPatterns makes patterns that mention every member of the event, and for every object a member that isn't there,
// so that nothing in the event can be skipped
func fullPatterns(e *Val) []string {
	paths := map[string]bool{}
	var walk func(v *Val, path []string)
	walk = func(v *Val, path []string) {
		switch v.K {
		case KObj:
			paths[strings.Join(append(path[:len(path):len(path)], "absent!"), "\n")] = true
			for _, m := range v.Mem {
				pp := append(path[:len(path):len(path)], m.Name)
				paths[strings.Join(pp, "\n")] = true
				walk(m.Val, pp)
			}
		case KArr:
			for _, x := range v.El {
				walk(x, path)
			}
		}
	}
	walk(e, nil)
	var out []string
	for p := range paths {
		out = append(out, patPath(p, &Matcher{K: MExistsTrue}).String())
	}
	return out
}

var jsonTokens = regexp.MustCompile(`"(?:[^"\\]|\\.)*"|[{}\[\],:]|[^{}\[\],:"\s]+|\s+`)

var badScalars = []string{"tru", "True", "truee", "falsy", "fals", "nul", "nulL", "NULL", "nil", "NaN", "Infinity", "undefined", "'a'", "+1", ".5", "1a", "--1", "0x1",
	"1..2", "1e", "1e5.5", "1-2", "a", "\"abc", "abc\"", "\"a\"b", "/", "#", "//x", "/**/", "\x00", "\x01", "\"\x00\"", "\"\x1f\"", "\"a\tb\"", "\"a\nb\"", "\"\xff\"", "\"a\xf8b\"",
	"\"\\x\"", "\"\\u12\"", "\"\\u12G4\"", "\"\\u\"", "\"\\\"", "\"\\u123\"", "\"\\U0041\"", "\"\\u 041\"", "\"\\a\"", "\"\\'\"", "\"\\u00e9\\u12\"", "\"\\ud83d\\u12\"", "\xef\xbb\xbf", "\u00a0", "\v", "\f", "()", "<a>", ";"}

// corrupt changes a text, token by token or byte by byte
func corrupt(r *rand.Rand, text []byte) []byte {
	if chance(r, 25) {
		b := bytes.Clone(text)
		for k := 1 + r.IntN(2); k > 0 && len(b) > 0; k-- {
			i := r.IntN(len(b))
			switch r.IntN(4) {
			case 0:
				b = append(b[:i:i], b[i+1:]...)
			case 1:
				b[i] = byte(r.IntN(256))
			case 2:
				b[i] = pick(r, []byte(`{}[]",:\01tfn`))
			default:
				b = append(b[:i:i], append([]byte{pick(r, []byte("{}[]\",:\\0tfn\x00\x1f\xff\xf5"))}, b[i:]...)...)
			}
		}
		return b
	}
	toks := jsonTokens.FindAll(text, -1)
	i := r.IntN(len(toks))
	isStr := toks[i][0] == '"'
	structural := bytes.IndexByte([]byte("{}[],:"), toks[i][0]) >= 0
	var repl []byte
	switch x := r.IntN(6); {
	case x == 0: // gone
	case x == 1:
		repl = append(bytes.Clone(toks[i]), toks[i]...)
	case x == 2 && structural:
		repl = []byte{pick(r, []byte("{}[],:;="))}
	case x <= 3 && isStr && len(toks[i]) > 2:
		k := 1 + r.IntN(len(toks[i])-1)
		repl = append(append(bytes.Clone(toks[i][:k]), pick(r, []string{"\x00", "\x1f", "\n", "\t", "\xff", "\xf5", "\\", "\\x", "\\u12", "\\uD8zz", "\""})...), toks[i][k:]...)
	case x <= 4:
		repl = []byte(pick(r, badScalars))
	default:
		repl = append(bytes.Clone(toks[i]), pick(r, append([]string{"{", "}", "[", "]", ",", ":", "1", "\"a\"", "null"}, badScalars...))...)
	}
	var b []byte
	for k := range toks {
		if k == i {
			b = append(b, repl...)
		} else {
			b = append(b, toks[k]...)
		}
	}
	return b
}

func (t *T) mustRefuse(q *quamina.Quamina, text []byte, why string) {
	before := bytes.Clone(text)
	xs, err := q.MatchesForEvent(text)
	t.Eval(1)
	if err == nil {
		t.Fail("MatchesForEvent accepted a text that isn't a JSON object", map[string]any{"event": clip(text), "quoted": fmt.Sprintf("%q", text), "why": why, "result": fmt.Sprint(xs)})
	}
	if len(xs) != 0 {
		t.Fail(fmt.Sprintf("an error together with the result %v", xs), map[string]any{"event": clip(text)})
	}
	if !bytes.Equal(before, text) {
		t.Fail("MatchesForEvent changed the event", map[string]any{"event": clip(before)})
	}
	t.Count("rejected events", 1)
	t.Distinct(string(text))
}

var notObjects = []string{"", " ", "\n", "\r\n\t ", "[]", "[{}]", "1", "\"a\"", "null", "true", "{", "}", "{}}", "{}{}", "{} x", "{},", "{}1", "{}\x00", "\xef\xbb\xbf{}", "\x00", "\x00{}", "{]", "[}", "{{}}",
	"{[]}", "{\"a\"}", "{\"a\":}", "{\"a\" 1}", "{:1}", "{1:1}", "{a:1}", "{'a':1}", "{,}", "{\"a\":1 \"b\":2}", "{\"a\":1;\"b\":2}", "{\"a\":1}]", "nul", "{\"a\":\"", "{\"a\":\"\\", "{\"a\":\"\\u", "{\"a\":\"\\u1",
	"{\"a\":\"\\u0041", "{\"\\", "{\"\\u", "{\"\\u0041", "{\"", "{\"a\":[", "{\"a\":[1", "{\"a\":[1,", "{\"a\":{", "{\"a\":t", "{\"a\":-", "{\"a\":1", "{\"a\":1e", "{\"a\": ", "{\"a\":[ ", "\t"}

func runMalformed(c *Ctx) {
	// instances that look at everything
	c.Run("full", c.N(24000, 150000), func(t *T) {
		r := t.R
		p := profiles()[t.Index%len(profiles())]
		if t.Index%len(profiles()) == 8 {
			p = profiles()[0]
		}
		e := p.event(r)
		q := t.newQ(t.randOpts()...)
		for i, s := range fullPatterns(e) {
			t.mustAdd(q, i, s)
		}
		text := e.text(t.style(), r)
		want := sortedStrings(t.mustMatch(q, text))
		known := knownMembers(e)
		good := func() {
			if got := sortedStrings(t.mustMatch(q, text)); !sameStrings(got, want) {
				t.Fail("a valid event is judged differently after bad ones", map[string]any{"event": clip(text), "difference": diffStrings(want, got)})
			}
			t.Count("valid events after bad ones", 1)
		}
		step := 1 + len(text)/40
		for i := r.IntN(step); i < len(text); i += step {
			t.mustRefuse(q, text[:i:len(text)], "truncated") // note the capacity: the rest of the event follows in memory
			t.Count("truncated events", 1)
			if chance(r, 20) {
				good()
			}
		}
		t.mustRefuse(q, append(bytes.Clone(text), pick(r, []string{"{", "}", "x", ",", "\x00", "[]", " {}", "\n1", "\"", "null"})...), "something after the object")
		for k := 0; k < 12; k++ {
			b := corrupt(r, text)
			l := &lenientJSON{b: b, known: known}
			if l.whole() {
				if json.Valid(b) {
					// as it happens, it's an object
					if _, err := q.MatchesForEvent(b); err != nil && utf8Valid(b) {
						t.Fail("MatchesForEvent rejected a valid event: "+err.Error(), map[string]any{"event": clip(b), "quoted": fmt.Sprintf("%q", b)})
					}
					t.Count("accepted valid events", 1)
				} else {
					_, _ = q.MatchesForEvent(b)
					t.Count("not judged", 1)
				}
			} else if l.lax {
				_, _ = q.MatchesForEvent(b)
				t.Count("not judged", 1)
			} else {
				t.mustRefuse(q, b, "corrupted")
				t.Count("corrupted events", 1)
			}
			if chance(r, 20) {
				good()
			}
		}
		good()
	})
	c.Run("lists", 8, func(t *T) {
		q := t.newQ(quamina.WithPatternDeletion(t.Index&1 != 0))
		pats := []string{`{"absent":[{"exists":true}]}`, `{"a":[1]}`, `{"a":{"b":[1],"absent":[1]}}`, `{"absent":[{"exists":false}]}`}
		for i := 0; i <= t.Index/2; i++ {
			t.mustAdd(q, i, pats[i])
		}
		for _, s := range notObjects {
			t.mustRefuse(q, []byte(s), "listed")
		}
		for _, s := range badScalars {
			for _, form := range []string{`{"a":%s}`, `{"a":[%s]}`, `{"a":{"b":%s}}`, `{"a":[{"b":%s}]}`, `{"a":[1,%s,2]}`} {
				if b := fmt.Appendf(nil, form, s); !lenientObject(b) && (t.Index/2 >= 2 || form == `{"a":%s}` && t.Index/2 >= 1) {
					t.mustRefuse(q, b, "listed")
				}
			}
			if b := fmt.Appendf(nil, `{%s:1}`, s); !lenientObject(b) {
				t.mustRefuse(q, b, "listed")
			}
		}
	})
	// a great many of the same token
	c.Run("huge", c.N(60, 400), func(t *T) {
		r := t.R
		q := t.newQ(t.randOpts()...)
		t.mustAdd(q, 1, `{"a":[1]}`)
		t.mustAdd(q, 2, `{"a":{"b":[1],"absent":[1]}}`)
		t.mustAdd(q, 3, `{"absent":[{"exists":true}]}`)
		n := []int{1000, 9000, 20000, 300000, 3000000, 6000000}[r.IntN(6)]
		begin := pick(r, []string{"", `{`, `{"a":`, `{"a":[`, `{"a":{"b":`, `{"a":[{"b":`, `{"unused":`, `{"a":"`, `{"unused":"`, `{"a":{`, `{"`, `{"a":[1,`})
		unit := pick(r, []string{"[", "[", "[[", "[ ", "[1,", "[[],", "{", `{"a":`, `{"b":`, `{"a":[`, `[{"b":`, `[{"a":`, `{"unused":`, `[{"unused":[`, `"`, `\`, `\\`, `\u`, `\u0041`, `\ud83d\ude00`, "1", "-", ".", "e", ",", ":",
			"]", "}", " ", "\n", "\t", "x", "é", "\x00", "\xff", `"a",`, `"a":`, `1,`, `true,`})
		text := []byte(begin + strings.Repeat(unit, min(n, 12_000_000/len(unit))))
		t.mustRefuse(q, text, "huge") // none of these is ever complete
		// what's nested less deeply than in any pattern is all right
		depth := 1 + r.IntN(9000)
		ev := `{"a":` + strings.Repeat("[", depth) + `1` + strings.Repeat("]", depth) + `}`
		if got := t.intSet(t.mustMatch(q, []byte(ev)), []byte(ev)); len(got) != 1 || !got[1] {
			t.Fail(fmt.Sprintf("after a huge event, an event of %d nested arrays gives %v", depth, got), nil)
		}
		t.Count("huge events", 1)
	})
	// instances that look at some of the event only: no verdict is demanded unless the top level has to be read to its
	// end, but there must be no panic, and valid events must be judged as ever afterwards
	c.Run("partial", c.N(20000, 150000), func(t *T) {
		r := t.R
		p := profiles()[t.Index%len(profiles())]
		events := []*Val{p.event(r), p.event(r)}
		w := &World{t: t, q: t.newQ(t.randOpts()...), pats: genPats(r, p, events, 1+r.IntN(8))}
		absent := chance(r, 50)
		if absent {
			w.pats = append(w.pats, pat1("absent!", &Matcher{K: pick(r, []MKind{MExistsTrue, MExistsFalse})}))
		}
		w.addUpTo(len(w.pats))
		for k := 0; k < 10; k++ {
			e := pick(r, events)
			text := e.text(t.style(), r)
			var b []byte
			switch r.IntN(3) {
			case 0:
				b = text[:r.IntN(len(text))]
				if absent {
					t.mustRefuse(w.q, b, "truncated")
					t.Count("truncated events", 1)
					continue
				}
			case 1:
				b = corrupt(r, text)
			default:
				b = corrupt(r, corrupt(r, text))
			}
			xs, err := w.q.MatchesForEvent(b)
			t.Eval(1)
			if err != nil && len(xs) > 0 {
				t.Fail(fmt.Sprintf("an error together with the result %v", xs), map[string]any{"event": clip(b)})
			}
			t.Count("arbitrary bytes", 1)
			w.judge(e, text)
			t.Count("valid events after bad ones", 1)
		}
	})
	c.Run("bytes", c.N(16000, 100000), func(t *T) {
		r := t.R
		q := t.newQ()
		for i, s := range []string{`{"a":["x"]}`, `{"a":{"b":[1]}}`, `{"":[{"exists":false}]}`, `{"absent":[{"exists":true}]}`, `{"a":[{"regexp":".*"}]}`} {
			t.mustAdd(q, i, s)
		}
		for k := 0; k < 20; k++ {
			var b []byte
			for n := r.IntN(30); n > 0; n-- {
				switch r.IntN(3) {
				case 0:
					b = append(b, byte(r.IntN(256)))
				case 1:
					b = append(b, pick(r, []byte(`{}[]",:\u0aeE+-.tfn `)))
				default:
					b = append(b, pick(r, []string{`{"a":`, `"a":`, `["`, `\u`, `\ud83d`, `"a"`, `true`, `null`, `[`, `{`, `"absent":1`})...)
				}
			}
			if !lenientObject(b) && !bytes.Contains(b, []byte("absent")) && !strings.Contains(string(b), `"a"`) && !bytes.Contains(b, []byte("\\")) && !bytes.Contains(b, []byte(`"`)) {
				t.mustRefuse(q, b, "random")
			} else {
				_, _ = q.MatchesForEvent(b)
				t.Eval(1)
			}
			t.Count("arbitrary bytes", 1)
		}
		want := "[0 2 4]"
		if got := fmt.Sprint(sortedInts(t.mustMatch(q, []byte(`{"a":"x"}`)))); got != want {
			t.Fail("after bad events: "+got+" instead of "+want, nil)
		}
	})
}

package main

// C21: flatteners other than the one for JSON, what they are told about the patterns, and the other choices a user can
// make when creating an instance. C23: Unicode.

import (
	"bytes"
	"errors"
	"fmt"
	"maps"
	"math/rand/v2"
	"slices"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	quamina "quamina.net/go/quamina/v2"
)

func init() {
	register(&Check{
		ID:       "C21",
		Rule:     "distinct (set of patterns, event) pairs, with at least one match, judged with an event source other than JSON text, plus distinct sets of options",
		Required: []string{"matches", "near misses", "tracker nodes", "flattener copies", "flattener errors", "options", "unfiltered"},
		Run:      runFlatteners,
	})
	register(&Check{
		ID:       "C23",
		Rule:     "distinct Unicode scalar values that were matched, as values and in names, in the spellings JSON allows",
		Required: []string{"as value", "as name", "near misses", "runs", "edges"},
		Run:      runUnicode,
	})
}

// treeFlattener's events are numbers of values that it holds
type treeFlattener struct {
	t        *T
	r        *rand.Rand
	events   []*Val
	trackers *func(quamina.SegmentsTreeTracker) // to look at what Quamina passes
	filter   bool
	err      error
	late     bool // an error comes along with the fields
	calls    int
	copies   []*treeFlattener
	shuffle  bool
	trails   bool // the order of the arrays in a trail is as random
	reuse    []quamina.Field
}

func (f *treeFlattener) Copy() quamina.Flattener {
	c := *f
	c.calls, c.copies, c.reuse = 0, nil, nil
	c.r = rand.New(rand.NewPCG(f.r.Uint64(), 1))
	f.copies = append(f.copies, &c)
	return &c
}

var errNoSuchEvent = errors.New("no such event")

func (f *treeFlattener) Flatten(event []byte, tracker quamina.SegmentsTreeTracker) ([]quamina.Field, error) {
	f.calls++
	if f.err != nil && !f.late {
		return nil, f.err
	}
	i, err := strconv.Atoi(string(event))
	if err != nil || i >= len(f.events) {
		return nil, errNoSuchEvent
	}
	if f.trackers != nil {
		(*f.trackers)(tracker)
	}
	out := f.reuse[:0]
	base := int32(f.r.IntN(5)) - 2
	if f.r.IntN(4) == 0 {
		base = int32(f.r.Uint32() >> 2)
	}
	ids := base
	var walk func(v *Val, tr quamina.SegmentsTreeTracker, path []string, used []byte, trail []quamina.ArrayPos)
	walk = func(v *Val, tr quamina.SegmentsTreeTracker, path []string, used []byte, trail []quamina.ArrayPos) {
		switch v.K {
		case KObj:
			if len(path) > 0 && f.filter {
				sub, ok := tr.Get([]byte(path[len(path)-1]))
				if !ok {
					return
				}
				tr = sub
			}
			for _, m := range v.Mem {
				if f.filter && !tr.IsSegmentUsed([]byte(m.Name)) {
					continue
				}
				var p []byte
				if f.filter {
					p = tr.PathForSegment([]byte(m.Name))
				}
				walk(m.Val, tr, append(path[:len(path):len(path)], m.Name), p, trail)
			}
		case KArr:
			id := ids
			ids += 1 + int32(f.r.IntN(3))
			pos := int32(f.r.IntN(2))
			for _, x := range v.El {
				walk(x, tr, path, used, append(trail[:len(trail):len(trail)], quamina.ArrayPos{Array: id, Pos: pos}))
				pos += 1 + int32(f.r.IntN(2))
			}
		default:
			fld := quamina.Field{Path: []byte(strings.Join(path, quamina.SegmentSeparator)), ArrayTrail: trail}
			if f.filter {
				if used == nil {
					return // only objects are looked for by this name
				}
				fld.Path = used
			}
			switch v.K {
			case KStr:
				fld.Val = []byte(`"` + v.S + `"`)
			case KNum:
				fld.Val, fld.IsNumber = []byte(v.N), true
			case KTrue:
				fld.Val = []byte("true")
			case KFalse:
				fld.Val = []byte("false")
			case KNull:
				fld.Val = []byte("null")
			}
			out = append(out, fld)
		}
	}
	walk(f.events[i], tracker, nil, nil, nil)
	if f.trails {
		for i := range out {
			tr := slices.Clone(out[i].ArrayTrail)
			f.r.Shuffle(len(tr), func(i, j int) { tr[i], tr[j] = tr[j], tr[i] })
			out[i].ArrayTrail = tr
		}
	}
	if f.shuffle {
		f.r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	}
	f.reuse = out
	return out, f.err
}

// pathTree is what a tracker should know
type pathTree struct {
	nodes map[string]*pathTree
	leafs map[string]string
}

func newPathTree() *pathTree {
	return &pathTree{nodes: map[string]*pathTree{}, leafs: map[string]string{}}
}
func (p *pathTree) add(path string) {
	segs := strings.Split(path, "\n")
	for _, s := range segs[:len(segs)-1] {
		if p.nodes[s] == nil {
			p.nodes[s] = newPathTree()
		}
		p = p.nodes[s]
	}
	p.leafs[segs[len(segs)-1]] = path
}

func (t *T) checkTracker(tr quamina.SegmentsTreeTracker, want *pathTree, root bool, names []string, texts []string) {
	bad := func(what string, a ...any) {
		t.Fail("the SegmentsTreeTracker is wrong: "+fmt.Sprintf(what, a...), map[string]any{"patterns": texts})
	}
	t.Count("tracker nodes", 1)
	if tr.IsRoot() != root {
		bad("IsRoot() = %v", tr.IsRoot())
	}
	if tr.NodesCount() != len(want.nodes) || tr.FieldsCount() != len(want.leafs) {
		bad("%d nodes and %d fields, want %d and %d", tr.NodesCount(), tr.FieldsCount(), len(want.nodes), len(want.leafs))
	}
	all := map[string]bool{"zzz": true, "\x00": true}
	for _, n := range names {
		all[n] = true
	}
	for n := range want.nodes {
		all[n] = true
	}
	for n := range want.leafs {
		all[n] = true
	}
	for n := range all {
		wantLeaf, isLeaf := want.leafs[n]
		sub := want.nodes[n]
		if got := tr.IsSegmentUsed([]byte(n)); got != (isLeaf || sub != nil) {
			bad("IsSegmentUsed(%q) = %v", n, got)
		}
		p := tr.PathForSegment([]byte(n))
		if isLeaf != (p != nil) || string(p) != wantLeaf {
			bad("PathForSegment(%q) = %q, want %q", n, p, wantLeaf)
		}
		st, ok := tr.Get([]byte(n))
		if ok != (sub != nil) {
			bad("Get(%q) reports %v", n, ok)
		}
		if sub != nil {
			t.checkTracker(st, sub, false, names, texts)
		}
	}
}

func runFlatteners(c *Ctx) {
	c.Run("tree", c.N(9000, 150000), func(t *T) {
		r := t.R
		p := t.profile()
		events := t.events(p, 2+r.IntN(4))
		f := &treeFlattener{t: t, r: rand.New(rand.NewPCG(r.Uint64(), 2)), events: events, filter: chance(r, 60), shuffle: chance(r, 70), trails: chance(r, 30)}
		if !f.filter {
			t.Count("unfiltered", 1)
		}
		opts := []quamina.Option{quamina.WithFlattener(f)}
		if chance(r, 30) {
			opts = append(opts, quamina.WithPatternDeletion(chance(r, 50)))
		}
		r.Shuffle(len(opts), func(i, j int) { opts[i], opts[j] = opts[j], opts[i] })
		w := &World{t: t, q: t.newQ(opts...), pats: genPats(r, p, events, 1+r.IntN(p.MaxPats))}
		want := newPathTree()
		exact := true // a pattern that can't match need not be in the tree
		look := func(tr quamina.SegmentsTreeTracker) {
			if exact {
				t.checkTracker(tr, want, true, p.Names, w.texts[:w.added])
			}
		}
		f.trackers = &look
		steps := 1 + r.IntN(3)
		cur := f
		for s := 1; s <= steps; s++ {
			from := w.added
			w.addUpTo(len(w.pats) * s / steps)
			for i := from; i < w.added; i++ {
				for _, fd := range w.pats[i].fields() {
					want.add(fd.Path)
					if len(fd.Vals) == 0 {
						exact = false
					}
				}
			}
			if chance(r, 30) {
				_ = w.q.AddPattern("bad", `{"never":{"mentioned":[1]},"bad":["a",{"regexp":"(a"}]}`)
			}
			for i, e := range events {
				w.judge(e, []byte(strconv.Itoa(i)))
			}
			if chance(r, 40) {
				calls := cur.calls
				cp := w.q.Copy()
				if len(cur.copies) == 0 {
					t.Fail("Copy doesn't copy the flattener", nil)
				}
				old := w.q
				next := cur.copies[len(cur.copies)-1]
				w.q = cp
				for i, e := range events {
					w.judge(e, []byte(strconv.Itoa(i)))
				}
				if cur.calls != calls || next.calls != len(events) {
					t.Fail(fmt.Sprintf("for %d events, a copy has called its flattener %d times and the original's %d times", len(events), next.calls, cur.calls-calls), nil)
				}
				t.Count("flattener copies", 1)
				if chance(r, 50) {
					w.q = old
				} else {
					cur = next
				}
			}
			if chance(r, 30) { // an error is passed on
				xs, err := w.q.MatchesForEvent([]byte("999999"))
				if !errors.Is(err, errNoSuchEvent) || len(xs) != 0 {
					t.Fail(fmt.Sprintf("the flattener's error became %v with %v", err, xs), nil)
				}
				for i := range events {
					cur.err = fmt.Errorf("broken %d", s)
					cur.late = i%2 == 0
					xs, err = w.q.MatchesForEvent([]byte(strconv.Itoa(i)))
					if !errors.Is(err, cur.err) || len(xs) != 0 {
						t.Fail(fmt.Sprintf("the flattener's error became %v with %v", err, xs), nil)
					}
				}
				cur.err, cur.late = nil, false
				w.judge(events[0], []byte("0"))
				t.Count("flattener errors", 1)
			}
		}
	})
	// the JSON flattener, for comparison, is told nothing about paths it doesn't need
	c.Run("options", 1+7+7*7+7*7*7+c.N(0, 7*7*7*7), func(t *T) { // all sequences of up to 3 (4) options
		r := t.R
		type opt struct {
			name string
			o    quamina.Option
		}
		f := &treeFlattener{t: t, r: r, events: []*Val{obj1("a", vNum("1"))}}
		all := []opt{
			{"json", quamina.WithMediaType("application/json")}, {"xml", quamina.WithMediaType("application/xml")},
			{"flattener", quamina.WithFlattener(f)}, {"nil flattener", quamina.WithFlattener(nil)},
			{"deletion", quamina.WithPatternDeletion(true)}, {"no deletion", quamina.WithPatternDeletion(false)},
			{"nil storage", quamina.WithPatternStorage(nil)},
		}
		var opts []quamina.Option
		var names []string
		index, length := t.Index, 0
		for size := 1; index >= size; size *= len(all) {
			index -= size
			length++
		}
		for ; length > 0; length-- {
			o := all[index%len(all)]
			index /= len(all)
			opts, names = append(opts, o.o), append(names, o.name)
		}
		media, deletion := 0, 0
		var has = map[string]bool{}
		valid := true
		for _, n := range names {
			has[n] = true
			switch n {
			case "json", "flattener":
				media++
			case "xml", "nil flattener", "nil storage":
				valid = false
			case "deletion", "no deletion":
				deletion++
			}
		}
		valid = valid && media <= 1 && deletion <= 1
		q, err := quamina.New(opts...)
		t.Eval(1)
		t.Count("options", 1)
		t.Distinct(strings.Join(names, " "))
		if valid != (err == nil) || (q != nil) != valid {
			t.Fail(fmt.Sprintf("New with %q returns %v, %v", names, q != nil, err), nil)
		}
		if !valid {
			return
		}
		t.mustAdd(q, "x", `{"a":[1]}`)
		ev := `{"a":1}`
		if has["flattener"] {
			ev = "0"
		}
		if xs := t.mustMatch(q, []byte(ev)); len(xs) != 1 || xs[0] != "x" {
			t.Fail(fmt.Sprintf("New with %q: wrong result %v", names, xs), nil)
		}
		derr := q.DeletePatterns("x")
		xs := t.mustMatch(q, []byte(ev))
		if has["deletion"] != (derr == nil) || has["deletion"] != (len(xs) == 0) {
			t.Fail(fmt.Sprintf("New with %q: DeletePatterns returns %v, and then there are %d matches", names, derr, len(xs)), nil)
		}
		if q.GetMatcherBuildMode() != quamina.BuiltForComfort {
			t.Fail("a new instance isn't built for comfort", nil)
		}
		if c := q.Copy(); c.DeletePatterns("y") == nil != has["deletion"] {
			t.Fail("a copy differs in whether patterns can be deleted", nil)
		}
		if _, err = q.SetMemoryBudget(1000); err == nil {
			t.Fail("SetMemoryBudget, which is deprecated, reports no error", nil)
		}
	})
}

// ---- C23

// spellScalar writes a rune the way JSON allows: as itself, or as one of the \u escapes
func spellScalar(c rune, how int) string {
	hex := "%04x"
	if how >= 2 {
		hex = "%04X"
	}
	switch {
	case how == 0 && c >= 0x20 && c != '"' && c != '\\':
		return string(c)
	case c > 0xffff:
		hi, lo := utf16.EncodeRune(c)
		return fmt.Sprintf(`\u`+hex+`\u`+hex, hi, lo)
	default:
		return fmt.Sprintf(`\u`+hex, c)
	}
}

func runUnicode(c *Ctx) {
	const block = 256
	total := 0x110000 / block
	step := 1
	// as values: every scalar in a block has a pattern of its own; each is looked for in all spellings, on its own and
	// inside of a string
	c.Run("values", total/step, func(t *T) {
		r := t.R
		b := t.Index * step
		if step > 1 {
			b += int(t.Seed+uint64(t.R.IntN(step))) % step
			if t.Index < 16 { // the first planes are where things happen
				b = t.Index
			}
		}
		q := t.newQ()
		var rs []rune
		for i := 0; i < block; i++ {
			c := rune(b*block + i)
			if c >= 0xd800 && c < 0xe000 {
				continue
			}
			rs = append(rs, c)
		}
		if len(rs) == 0 {
			return
		}
		pre, post := pick(r, []string{"", "a", "é", "\\\""}), pick(r, []string{"", "z", "日", "\\n"})
		for _, c := range rs {
			t.mustAdd(q, c, `{"v":["`+pre+spellScalar(c, r.IntN(4))+post+`"]}`)
		}
		for _, c := range rs {
			for how := 0; how < 4; how++ {
				ev := `{"v":"` + pre + spellScalar(c, how) + post + `"}`
				xs := t.mustMatch(q, []byte(ev))
				t.Eval(1)
				if len(xs) != 1 || xs[0] != any(c) {
					t.Fail(fmt.Sprintf("U+%04X as a value: matched %v", c, xs), map[string]any{"event": ev})
				}
			}
			t.Count("as value", 1)
			t.Distinct("value", string(c))
		}
		for k := 0; k < 100; k++ { // others don't match
			c := randRune(r)
			if int(c)/block == b {
				continue
			}
			ev := `{"v":"` + pre + spellScalar(c, r.IntN(4)) + post + `"}`
			if xs := t.mustMatch(q, []byte(ev)); len(xs) != 0 {
				t.Fail(fmt.Sprintf("U+%04X as a value: matched %U", c, xs), map[string]any{"event": ev})
			}
			t.Count("near misses", 1)
		}
		t.Sample("U+%04X … as values", rs[0])
	})
	// as names, all members of one event
	c.Run("names", total/step, func(t *T) {
		r := t.R
		b := t.Index * step
		if step > 1 {
			b += r.IntN(step)
			if t.Index < 16 {
				b = t.Index
			}
		}
		q := t.newQ()
		var rs []rune
		for i := 0; i < block; i++ {
			c := rune(b*block + i)
			if c >= 0xd800 && c < 0xe000 || c == '\n' {
				continue
			}
			rs = append(rs, c)
		}
		if len(rs) == 0 {
			return
		}
		pre := pick(r, []string{"", "n", "é"})
		depth := r.IntN(2) == 0
		for _, c := range rs {
			m := `"` + pre + spellScalar(c, r.IntN(4)) + `"`
			if depth {
				t.mustAdd(q, c, `{"o":{`+m+`:[1]}}`)
			} else {
				t.mustAdd(q, c, `{`+m+`:[1]}`)
			}
		}
		for rep := 0; rep < 3; rep++ {
			r.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
			n := r.IntN(len(rs) + 1)
			var sb bytes.Buffer
			for i, c := range rs[:n] {
				if i > 0 {
					sb.WriteByte(',')
				}
				sb.WriteString(`"` + pre + spellScalar(c, r.IntN(4)) + `":` + []string{"1", "1.0", "10e-1"}[r.IntN(3)])
			}
			ev := "{" + sb.String() + "}"
			if depth {
				ev = `{"o":` + ev + `}`
			}
			want := map[rune]bool{}
			for _, c := range rs[:n] {
				want[c] = true
			}
			xs := t.mustMatch(q, []byte(ev))
			for _, x := range xs {
				if !want[x.(rune)] {
					t.Fail(fmt.Sprintf("U+%04X as a name: matched although it's not in the event", x), map[string]any{"event": clip([]byte(ev))})
				}
				delete(want, x.(rune))
			}
			for c := range want {
				t.Fail(fmt.Sprintf("U+%04X as a name: not matched", c), map[string]any{"event": clip([]byte(ev))})
			}
			t.Eval(len(rs))
			t.Count("near misses", len(rs)-n)
			t.Count("as name", n)
			for _, c := range rs[:n] {
				t.Distinct("name", string(c))
			}
		}
	})
	// long runs of escapes, in which characters take one or two of them: as a name and as a value
	c.Run("runs", c.N(700, 12000), func(t *T) {
		r := t.R
		n := 4 + r.IntN(20)
		switch r.IntN(3) {
		case 0:
			n = pick(r, []int{15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257}) + r.IntN(3) - 1
		case 1:
			n = 20 + r.IntN(300)
		}
		var rs []rune
		for len(rs) < n {
			if chance(r, 35) {
				rs = append(rs, 0x10000+rune(r.IntN(0x100000)))
			} else if c := randRune(r); c != '\n' {
				rs = append(rs, c)
			}
		}
		raw := pick(r, []int{0, 0, 5, 40}) // the chance that one isn't escaped
		spell := func(rs []rune) string {
			var sb strings.Builder
			for _, c := range rs {
				how := 1 + r.IntN(3)
				if chance(r, raw) {
					how = 0
				}
				sb.WriteString(spellScalar(c, how))
			}
			return sb.String()
		}
		differ := func() []rune { // the same but for one character
			out := append([]rune(nil), rs...)
			i := r.IntN(n)
			switch r.IntN(3) {
			case 0:
				out = append(out[:i], out[i+1:]...)
			case 1:
				out = append(out[:i], append([]rune{'q'}, out[i:]...)...)
			default:
				for out[i] == rs[i] || out[i] == '\n' {
					out[i] = randRune(r)
				}
			}
			return out
		}
		escaped := func() string { return spell(rs) }
		q := t.newQ()
		t.mustAdd(q, 1, `{"`+escaped()+`":["v"]}`)
		t.mustAdd(q, 2, `{"v":["`+escaped()+`"]}`)
		t.mustAdd(q, 3, `{"o":{"`+escaped()+`":[{"exists":false}]}}`)
		t.mustAdd(q, 4, `{"v":["`+spell(differ())+`"]}`)
		t.mustAdd(q, 5, `{"`+spell(differ())+`":["v"]}`)
		for k := 0; k < 3; k++ {
			ev := `{"o":{"` + escaped() + `":{}, "x":1, "` + spell(differ()) + `":2}, "` + escaped() + `" : "v", "v":["x", "` + escaped() + `"]}`
			// an object isn't a leaf, so that pattern 3 sees nothing
			got := t.intSet(t.mustMatch(q, []byte(ev)), []byte(ev))
			if len(got) != 3 || !got[1] || !got[2] || !got[3] {
				t.Fail(fmt.Sprintf("matched %v, not 1, 2 and 3", got), map[string]any{"event": ev, "string": string(rs)})
			}
			ev = `{"o":{"` + escaped() + `":0}, "` + spell(differ()) + `-never":"v", "v":"never-` + spell(differ()) + `"}`
			got = t.intSet(t.mustMatch(q, []byte(ev)), []byte(ev))
			if len(got) != 0 {
				t.Fail(fmt.Sprintf("matched %v, not none", got), map[string]any{"event": ev, "string": string(rs)})
			}
			t.Eval(10)
		}
		t.Count("runs", 1)
		t.Count("as name", 1)
		t.Count("near misses", 2)
		t.Distinct("run", string(rs))
	})
	// a character at the beginning, at the end, or on its own, and names and values that are the same but for it
	c.Run("edges", c.N(900, 12000), func(t *T) {
		r := t.R
		special := []rune{0, 1, 8, 9, 13, 0x1b, 0x1f, ' ', '"', '\\', '/', '.', '*', '[', 0x7f, 0x80, 0x85, 0xa0, 0xad, 0x300, 0x301, 0x200b, 0x200d, 0x2028, 0x2029, 0x202e, 0x3000,
			0xd7ff, 0xe000, 0xfdd0, 0xfe0f, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0xe0001, 0x10ffff}
		var cs []string
		for k := 1 + r.IntN(3); k > 0; k-- {
			cs = append(cs, string(pick(r, special)))
		}
		cs = append(cs, string(randRune(r)))
		set := map[string]bool{}
		base := pick(r, []string{"a", "", "k", "é", "ab", "日"})
		for _, c := range cs {
			if c == "\n" {
				continue
			}
			for _, s := range []string{base, base + c, c + base, c, c + base + c, base + c + c, c + c + base, base + c + base, base + cs[0] + c} {
				if !strings.Contains(s, "\n") {
					set[s] = true
				}
			}
		}
		var all []string
		for s := range set {
			all = append(all, s)
		}
		sort.Strings(all)
		spell := func(s string) string {
			var sb strings.Builder
			for _, c := range s {
				sb.WriteString(spellScalar(c, r.IntN(4)))
			}
			return `"` + sb.String() + `"`
		}
		q := t.newQ(t.randOpts()...)
		deep := chance(r, 50)
		for i, s := range all {
			pat := `{` + spell(s) + `:[1]}`
			if deep {
				pat = `{` + spell(base) + `:` + pat + `}`
			}
			t.mustAdd(q, i, pat)
			t.mustAdd(q, 1000+i, `{"\u0001v\u0001":[`+spell(s)+`]}`)
		}
		for k := 0; k < 3; k++ {
			perm := r.Perm(len(all))
			perm = perm[:r.IntN(len(perm)+1)]
			var mem []string
			want := map[int]bool{}
			for _, i := range perm {
				mem = append(mem, spell(all[i])+`: 1`)
				want[i] = true
			}
			ev := `{` + strings.Join(mem, ",") + `}`
			if deep {
				ev = `{` + spell(base) + `:` + ev + `}`
			}
			v := r.IntN(len(all))
			want[1000+v] = true
			ev = ev[:len(ev)-1]
			if deep || len(mem) > 0 {
				ev += `,`
			}
			ev += `"\u0001v\u0001":` + spell(all[v]) + `}`
			got := t.intSet(t.mustMatch(q, []byte(ev)), []byte(ev))
			if !maps.Equal(got, want) {
				t.Fail(fmt.Sprintf("matched %v, not %v", got, want), map[string]any{"event": ev, "strings": all})
			}
			t.Eval(2 * len(all))
			t.Count("near misses", 2*len(all)-len(want))
			t.Count("as name", len(perm))
			t.Count("as value", 1)
		}
		t.Count("edges", 1)
		for _, s := range all {
			t.Distinct("edge", s)
		}
	})
	// whole strings of arbitrary characters, in patterns of the various kinds and in events, differently spelled
	c.Run("strings", c.N(6000, 100000), func(t *T) {
		r := t.R
		gen := unicodeString(12)
		s := gen(r)
		var vals []*Val
		for k := 0; k < 5; k++ {
			vals = append(vals, vStr(mutateString(r, s, gen)), vStr(s))
		}
		p := &Profile{Strings: gen}
		var ms []*Matcher
		for _, k := range []MKind{MString, MPrefix, MWildcard, MShell, MAnythingBut, MIgnoreCase, MString} {
			ms = append(ms, p.matcherFor(r, k, vStr(s), chance(r, 70)))
		}
		judgeValues(t, ms, vals, false)
		t.Count("as value", 1)
	})
}

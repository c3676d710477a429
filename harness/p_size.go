package main

// Groups of cases in which one dimension is made large, on a logarithmic scale: what
// holds for small things holds for big ones.

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

// logScale is a number in 1 … max, about as likely to have k as k+1 binary digits,
// and often next to a power of two
func logScale(r *rand.Rand, max int) int {
	bits := 1
	for 1<<bits <= max {
		bits++
	}
	k := r.IntN(bits)
	n := 1<<k + r.IntN(1<<k)
	if chance(r, 50) {
		n = 1<<k + r.IntN(3) - 1
	}
	return min(max, n+1)
}

// longString has n characters
func longString(r *rand.Rand, n int, alphabet string) string {
	as := []rune(alphabet)
	var b strings.Builder
	if chance(r, 40) { // monotonous
		c := as[r.IntN(len(as))]
		for i := 0; i < n; i++ {
			b.WriteRune(c)
		}
		return b.String()
	}
	for i := 0; i < n; i++ {
		b.WriteRune(as[r.IntN(len(as))])
	}
	return b.String()
}

// nearTwins are strings that differ from s little: at one end, somewhere, around a power of two
func nearTwins(r *rand.Rand, s string) []string {
	rs := []rune(s)
	n := len(rs)
	out := []string{s + "z", s + string(rs[:1]), "z" + s, string(rs[:n-1]), string(rs[1:])}
	for _, at := range []int{0, n - 1, r.IntN(n), r.IntN(n), 1<<r.IntN(16) - 1, 1 << r.IntN(16)} {
		if at < n {
			out = append(out, string(rs[:at])+"z"+string(rs[at+1:]))
		}
		if at > 0 && at < n {
			out = append(out, string(rs[:at]))
		}
	}
	return out
}

// sizeLists: lists of up to 3,000 values, every one of which is looked for
func sizeLists(t *T, kind func(i int) (*Matcher, *Val)) {
	r := t.R
	n := logScale(r, 3000)
	if t.Index%4 == 0 {
		n = 600 + r.IntN(2400)
	}
	var ms []*Matcher
	var vals []*Val
	for i := 0; i < n; i++ {
		m, v := kind(i)
		ms, vals = append(ms, m), append(vals, v)
	}
	q := t.newQ()
	p := pat1("v", ms...)
	t.mustAdd(q, 1, p.text(Style{}, r))
	for i, v := range vals {
		text := obj1("v", v).text(t.style(), r)
		t.Eval(1)
		if !t.intSet(t.mustMatch(q, text), text)[1] {
			t.Fail("a value of a long list wasn't matched", map[string]any{"event": clip(text), "values": n, "place": i})
		}
	}
	for i := 0; i < 20; i++ {
		text := []byte(fmt.Sprintf(`{"v":"none %d"}`, i))
		if t.intSet(t.mustMatch(q, text), text)[1] {
			t.Fail("a value that isn't in a long list was matched", map[string]any{"event": clip(text), "values": n})
		}
	}
	t.Count("long lists", 1)
	t.Distinct("list", fmt.Sprint(n, t.Index))
}

// sizeNames: names of up to 5,000 characters, and paths up to 400 deep
func sizeNames(t *T) {
	r := t.R
	leaf := func(path []string, v *Val) *Val {
		for i := len(path) - 1; i >= 0; i-- {
			v = vObj(Member{path[i], v})
		}
		return v
	}
	var paths [][]string
	if t.Index%2 == 0 {
		s := longString(r, logScale(r, 5000), "ab")
		paths = append(paths, []string{s})
		for _, tw := range nearTwins(r, s) {
			paths = append(paths, []string{tw})
		}
	} else {
		p := make([]string, logScale(r, 400))
		for i := range p {
			p[i] = pick(r, []string{"a", "b"})
		}
		twist := append([]string(nil), p...)
		twist[r.IntN(len(p))] = "z"
		last := append([]string(nil), p...)
		last[len(p)-1] = "z"
		paths = append(paths, p, twist, last, append(append([]string(nil), p...), "a"))
		if len(p) > 1 {
			paths = append(paths, p[1:], p[:len(p)-1])
		}
	}
	q := t.newQ()
	seen := map[string]int{}
	for i, p := range paths {
		key := strings.Join(p, "\n")
		if p[0] == "" {
			continue
		}
		if _, ok := seen[key]; !ok {
			seen[key] = i
			t.mustAdd(q, i, patPath(key, &Matcher{K: MString, S: "x"}).text(Style{}, r))
		}
	}
	for key, i := range seen {
		for _, v := range []string{"x", "y"} {
			text := leaf(paths[i], vStr(v)).text(t.style(), r)
			got := t.intSet(t.mustMatch(q, text), text)
			t.Eval(1)
			if (v == "x") != got[i] || len(got) > 1 || (v == "y" && len(got) != 0) {
				t.Fail("a long name or path was confused with another", map[string]any{"event": clip(text), "length": len(key), "wanted": i, "got": fmt.Sprint(got)})
			}
		}
	}
	t.Count("long names and paths", 1)
	t.Distinct("names", fmt.Sprint(len(paths[0]), t.Index))
}

// sizeArrays: values that lie deep in arrays, in the same element of every array or not
func sizeArrays(t *T) {
	r := t.R
	depth := logScale(r, 300)
	alternate := t.Index%2 == 1 // with an object between one array and the next
	wrap := func(v *Val, n int) *Val {
		for i := 0; i < n; i++ {
			if alternate {
				v = vObj(Member{"x", v})
			}
			el := []*Val{v}
			for k := r.IntN(3); k > 0; k-- { // others, before and after
				o := pick(r, []*Val{vNum("7"), vStr("o"), vArr(), vObj()})
				if chance(r, 50) {
					el = append(el, o)
				} else {
					el = append([]*Val{o}, el...)
				}
			}
			v = vArr(el...)
		}
		return v
	}
	a, b := Member{"a", vStr("1")}, Member{"b", vStr("2")}
	where := "v"
	if alternate {
		where += strings.Repeat("\nx", depth)
	}
	q := t.newQ()
	p := patPath(where+"\na", &Matcher{K: MString, S: "1"})
	p.setPath(strings.Split(where+"\nb", "\n"), []*Matcher{{K: MString, S: "2"}})
	t.mustAdd(q, 1, p.text(Style{}, r))
	levels := []int{depth - 1, 0, r.IntN(depth), logScale(r, depth) - 1, depth - logScale(r, depth)}
	judge := func(v *Val, want bool, level int) {
		text := obj1("v", v).text(t.style(), r)
		t.Eval(1)
		if got := t.intSet(t.mustMatch(q, text), text)[1]; got != want {
			t.Fail("values deep in arrays: reported wrongly", map[string]any{"event": clip(text), "depth": depth, "part at": level, "want": want, "got": got})
		}
		t.Count("deep arrays", 1)
	}
	judge(wrap(vObj(a, b), depth), true, -1)
	for _, l := range levels { // l arrays outside of the one in which they part
		l = max(0, min(depth-1, l))
		in := depth - l - 1
		x, y := wrap(vObj(a), in), wrap(vObj(b), in)
		if alternate {
			x, y = vObj(Member{"x", x}), vObj(Member{"x", y})
		}
		fork := vArr(x, y)
		if chance(r, 50) {
			fork = vArr(y, x)
		}
		judge(wrap(fork, l), false, l)
	}
	t.Distinct("deep", fmt.Sprint(depth, t.Index))
}

// sizeGlobs: values of up to 50,000 bytes
func sizeGlobs(t *T) {
	r := t.R
	s := longString(r, logScale(r, 50000), "abé"[:2+2*(t.Index%2)])
	rs := []rune(s)
	cut := func() (int, int) {
		i, j := r.IntN(len(rs)+1), r.IntN(len(rs)+1)
		return min(i, j), max(i, j)
	}
	var ms []*Matcher
	for k := 0; k < 3; k++ {
		i, j := cut()
		if chance(r, 50) {
			j = max(i, len(rs)-r.IntN(5))
		}
		if chance(r, 50) {
			i = min(j, r.IntN(5))
		}
		ms = append(ms, &Matcher{K: pick(r, []MKind{MWildcard, MShell}), S: string(rs[:i]) + "*" + string(rs[j:])})
	}
	ms = append(ms, &Matcher{K: MWildcard, S: "*" + string(rs[max(0, len(rs)-3):])})
	vals := []*Val{vStr(s)}
	for i, tw := range nearTwins(r, s) {
		if i < 6 {
			vals = append(vals, vStr(tw))
		}
	}
	t.Count("long values", 1)
	judgeValues(t, ms, vals, false)
}

// sizeStrings: patterns' strings of up to max characters, next to strings that differ little
func sizeStrings(t *T, kinds []MKind, max int, alphabet string) {
	r := t.R
	s := longString(r, logScale(r, max), alphabet)
	tw := nearTwins(r, s)
	var vals []*Val
	for _, x := range append([]string{s, strings.ToUpper(s), strings.ToLower(s)}, tw...) {
		if x != "" {
			vals = append(vals, vStr(x))
		}
	}
	var ms []*Matcher
	add := func(x string) {
		if x == "" {
			return
		}
		m := &Matcher{K: pick(r, kinds), S: x}
		if m.K == MAnythingBut {
			m.S, m.List = "", []string{x}
			if chance(r, 50) {
				m.List = append(m.List, pick(r, tw)+"q")
			}
		}
		ms = append(ms, m)
	}
	add(s)
	if chance(r, 60) {
		add(pick(r, tw))
	}
	if chance(r, 40) {
		add(pick(r, tw))
	}
	t.Count("long strings", 1)
	judgeValues(t, ms, vals, false)
}

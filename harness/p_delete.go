package main

// C16: deletion, in histories of calls one after the other. The monitor keeps the list of patterns in force; what a
// match must report follows from it and from a table of which pattern matches which event, observed on instances that
// contain nothing but that pattern.

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	quamina "quamina.net/go/quamina/v2"
)

func init() {
	register(&Check{
		ID:       "C16",
		Rule:     "distinct (patterns in force, those deleted, event, result) observations in histories of AddPattern and DeletePatterns, with a non-empty result or a deleted pattern that matches",
		Required: []string{"rebuilds", "deletions", "deleted matches suppressed", "re-added", "X of several patterns", "matches after a rebuild", "purged", "purged again", "churn", "unknown X", "copies", "modes kept", "survivors", "repeated while adding"},
		Run:      runDeletion,
	})
}

// structX is a kind of X
type structX struct {
	Name string
	N    int
}

// pointers are compared by identity
var ptrX = []*structX{{"p", 1}, {"p", 1}, {"q", 2}}

type liveEntry struct {
	x     quamina.X
	pat   int
	speed bool
}

// delWorld is an instance that supports deletion, its copies, and what they contain
type delWorld struct {
	t        *T
	inst     []*quamina.Quamina
	texts    []string
	evs      [][]byte
	hits     [][]bool
	live     []liveEntry
	dead     []liveEntry // deleted, and maybe not purged yet
	rebuilds int         // seen by the hook
	purgable int         // patterns deleted since the last rebuild
	needless bool        // there was a rebuild although nothing had been deleted
	seen     int
	after    int
}

func (t *T) newDelWorld(texts []string, events []*Val) *delWorld {
	h := t.newHist(texts, events)
	w := &delWorld{t: t, texts: texts, evs: h.evs, hits: h.hits}
	q := t.newQ(quamina.WithPatternDeletion(true))
	w.inst = []*quamina.Quamina{q}
	return w
}

func (w *delWorld) watch() func() {
	return w.t.setHook(func(point string) {
		if point == "prunerMatcher.rebuild.beforeStore" {
			w.rebuilds++
			w.t.Count("rebuilds", 1)
			if w.purgable == 0 {
				w.needless = true
			}
			w.purgable = 0
		}
	})
}

func (w *delWorld) any() *quamina.Quamina {
	i := w.t.R.IntN(len(w.inst))
	if i > 0 {
		w.t.Count("copies", 1)
	}
	return w.inst[i]
}

func xText(x quamina.X) string { return fmt.Sprintf("%T:%v", x, x) }

func (w *delWorld) add(q *quamina.Quamina, x quamina.X, pat int) {
	w.t.Note("add %s pattern %d", xText(x), pat)
	for _, d := range w.dead {
		if d.x == x {
			w.t.Count("re-added", 1)
			break
		}
	}
	for _, d := range w.live {
		if d.x == x {
			w.t.Count("X of several patterns", 1)
			break
		}
	}
	w.t.mustAdd(q, x, w.texts[pat])
	w.live = append(w.live, liveEntry{x, pat, q.GetMatcherBuildMode() == quamina.BuiltForSpeed})
}

func (w *delWorld) del(q *quamina.Quamina, x quamina.X) {
	w.t.Note("delete %s", xText(x))
	n := 0
	var rest []liveEntry
	for _, e := range w.live {
		if e.x == x {
			n++
			w.dead = append(w.dead, e)
		} else {
			rest = append(rest, e)
		}
	}
	w.purgable += n
	err := q.DeletePatterns(x)
	if err != nil {
		w.t.Fail(fmt.Sprintf("DeletePatterns: %v", err), nil)
	}
	if n > 0 {
		w.t.Count("deletions", 1)
	} else {
		w.t.Count("unknown X", 1)
	}
	w.live = rest
	if len(w.dead) > 2000 {
		w.dead = w.dead[1000:]
	}
}

func (w *delWorld) match(q *quamina.Quamina, ev int) {
	t := w.t
	want := map[quamina.X]bool{}
	for _, e := range w.live {
		if w.hits[e.pat][ev] {
			want[e.x] = true
		}
	}
	xs, err := q.MatchesForEvent(bytes.Clone(w.evs[ev]))
	if err != nil {
		t.Fail(fmt.Sprintf("MatchesForEvent rejected a valid event: %v", err), map[string]any{"event": clip(w.evs[ev])})
	}
	t.Eval(1)
	got := map[quamina.X]bool{}
	for _, x := range xs {
		what := ""
		switch {
		case got[x]:
			what = "reported an X more than once"
		case !want[x]:
			what = "reported an X without a matching pattern in force"
		}
		if what != "" {
			w.fail(what, x, ev)
		}
		got[x] = true
	}
	for x := range want {
		if !got[x] {
			w.fail("didn't report an X with a matching pattern in force", x, ev)
		}
	}
	suppressed := 0
	for _, d := range w.dead {
		if w.hits[d.pat][ev] && !want[d.x] {
			suppressed++
		}
	}
	t.Count("deleted matches suppressed", suppressed)
	if w.needless {
		w.t.Fail("patterns were purged although none had been deleted since the last time", map[string]any{"event": clip(w.evs[ev]), "rebuilds": w.rebuilds})
	}
	if w.rebuilds > 0 {
		t.Count("matches after a rebuild", 1)
	}
	if suppressed > 0 || len(want) > 0 {
		w.seen++
		if w.seen < 3000 {
			var b strings.Builder
			for _, e := range w.live {
				_, _ = fmt.Fprintf(&b, "%s %d,", xText(e.x), e.pat)
			}
			t.Distinct(w.texts[0], b.String(), fmt.Sprint(ev, suppressed))
		}
	}
}

func (w *delWorld) fail(what string, x quamina.X, ev int) {
	var live, dead []string
	for _, e := range w.live {
		if e.x == x {
			live = append(live, fmt.Sprintf("%s (matches: %v)", w.texts[e.pat], w.hits[e.pat][ev]))
		}
	}
	for _, e := range w.dead {
		if e.x == x {
			dead = append(dead, fmt.Sprintf("%s (matches: %v)", w.texts[e.pat], w.hits[e.pat][ev]))
		}
	}
	w.t.Fail(what, map[string]any{"X": xText(x), "event": clip(w.evs[ev]), "its patterns in force": live, "its deleted patterns": dead, "rebuilds": w.rebuilds})
}

// storm matches until, most likely, a rebuild happens. It tells whether there was reason for one: more than a few
// patterns that are gone were matched.
func (w *delWorld) storm(n int) {
	// an event that matches deleted patterns, and something that's in force, if there is one
	best, score := 0, -1
	for e := range w.evs {
		d, l := 0, 0
		for _, x := range w.dead {
			if w.hits[x.pat][e] {
				d++
			}
		}
		for _, x := range w.live {
			if w.hits[x.pat][e] {
				l = 1
			}
		}
		if s := d * (1 + 10*l); s > score {
			best, score = e, s
		}
	}
	w.t.Note("storm %d", best)
	q := w.any()
	before := w.rebuilds
	for i := 0; i < n && w.rebuilds == before; i++ {
		w.match(q, best)
	}
	for e := range w.evs {
		w.match(w.any(), e)
	}
}

// fresh is a new instance with only what's in force
func (w *delWorld) fresh() *quamina.Quamina {
	q := w.t.newQ()
	for _, e := range w.live {
		mode := quamina.BuiltForComfort
		if e.speed {
			mode = quamina.BuiltForSpeed
		}
		_ = q.SetMatcherBuildMode(mode)
		w.t.mustAdd(q, e.x, w.texts[e.pat])
	}
	return q
}

func (w *delWorld) allEvents() {
	f := w.fresh()
	for e := range w.evs {
		for _, q := range w.inst {
			w.match(q, e)
		}
		a, b := sortedStrings(w.t.mustMatch(f, bytes.Clone(w.evs[e]))), sortedStrings(w.t.mustMatch(w.inst[0], bytes.Clone(w.evs[e])))
		if !sameStrings(a, b) {
			w.t.Fail("after deletions the result isn't what it is without the deleted patterns", map[string]any{"diff": diffStrings(a, b), "event": clip(w.evs[e])})
		}
	}
}

func (t *T) someX(i int) quamina.X {
	kinds := []func() quamina.X{
		func() quamina.X { return i },
		func() quamina.X { return fmt.Sprintf("x%d", i) },
		func() quamina.X { return structX{"s", i} },
		func() quamina.X { return ptrX[i%len(ptrX)] },
		func() quamina.X { return [2]int{i, -i} },
		func() quamina.X { return float64(i) }, // equal to no int
		func() quamina.X { return int64(i) },
		func() quamina.X { return i%2 == 0 },
		func() quamina.X { return math.Inf(1) },
		func() quamina.X { return "" },
	}
	return pick(t.R, kinds)()
}

func runDeletion(c *Ctx) {
	runRepeated(c, true, c.N(3000, 50000))
	c.Run("history", c.N(2500, 30000), func(t *T) {
		p := t.profile()
		if t.R.IntN(2) == 0 {
			p = t.cheapProfile()
		}
		events := t.events(p, 3+t.R.IntN(8))
		pats := genPats(t.R, p, events, 3+t.R.IntN(25))
		w := t.newDelWorld(textsOf(pats), events)
		safe := speedSafe(pats)
		defer w.watch()()
		for i := t.R.IntN(3); i > 0; i-- {
			w.inst = append(w.inst, w.any().Copy())
		}
		// keys: many patterns each, or one
		var xs []quamina.X
		for n := 1 + t.R.IntN(8); len(xs) < n; {
			xs = append(xs, t.someX(len(xs)))
		}
		if t.R.IntN(3) == 0 {
			for i := range 30 {
				xs = append(xs, i)
			}
		}
		steps := 20 + t.R.IntN(120)
		delPct := []int{5, 20, 45}[t.R.IntN(3)]
		for s := 0; s < steps; s++ {
			switch k := t.R.IntN(100); {
			case k < delPct:
				x := pick(t.R, xs)
				if t.R.IntN(8) == 0 {
					x = t.someX(1000)
				}
				if t.R.IntN(4) > 0 && len(w.live) > 0 {
					x = pick(t.R, w.live).x
				}
				w.del(w.any(), x)
			case k < 50:
				q := w.any()
				speed := safe && t.R.IntN(6) == 0
				if speed {
					_ = q.SetMatcherBuildMode(quamina.BuiltForSpeed)
				}
				x := pick(t.R, xs)
				if t.R.IntN(5) == 0 && len(w.dead) > 0 {
					x = pick(t.R, w.dead).x
				}
				w.add(q, x, t.R.IntN(len(w.texts)))
				if speed {
					_ = q.SetMatcherBuildMode(quamina.BuiltForComfort)
				}
			case k < 53:
				bad := pick(t.R, []string{`{"a":"b"}`, `{"a":[{"shellstyle":"**"}]}`, `{`, `{"a":[{"wildcard":"a\\z"}]}`, `{"a":["x"],"b":[{"regexp":"a["}]}`})
				if w.any().AddPattern(pick(t.R, xs), bad) == nil {
					t.Fail("accepted an invalid pattern", map[string]any{"pattern": bad})
				}
			case k < 55:
				if len(w.inst) < 5 {
					w.inst = append(w.inst, w.any().Copy())
				} else {
					w.inst = append(w.inst[:1], w.inst[2:]...)
				}
			case k < 57:
				w.storm(1200)
			default:
				for n := 1 + t.R.IntN(6); n > 0; n-- {
					w.match(w.any(), t.R.IntN(len(w.evs)))
				}
			}
		}
		w.allEvents()
		for len(w.live) > 0 && t.R.IntN(4) > 0 {
			w.del(w.any(), pick(t.R, w.live).x)
		}
		w.storm(1200)
		w.allEvents()
		t.Sample("%d patterns in force, %d deleted, %d rebuilds, first pattern %s", len(w.live), len(w.dead), w.rebuilds, w.texts[0])
	})
	// the same X deleted and added over and over again, with patterns that match the same events
	c.Run("generations", c.N(200, 4000), func(t *T) {
		texts := []string{`{"a":["x"]}`, `{"a":["y"]}`, `{"a":[{"prefix":"x"}]}`, `{"a":["x","y"],"b":[1]}`, `{"b":[{"exists":true}]}`, `{"a":[{"wildcard":"*x*"}]}`, `{"c":[{"exists":false}]}`}
		events := []*Val{obj1("a", vStr("x")), obj1("a", vStr("y")), vObj(Member{"a", vStr("x")}, Member{"b", vNum("1")}), obj1("b", vNum("2")), obj1("c", vStr("xx")), obj1("a", vArr(vStr("x"), vStr("y")))}
		w := t.newDelWorld(texts, events)
		defer w.watch()()
		w.inst = append(w.inst, w.inst[0].Copy())
		xs := []quamina.X{1, "one", structX{"s", 1}}
		w.add(w.any(), "always", 2)
		for n := 60; n > 0; n-- {
			x := pick(t.R, xs)
			switch t.R.IntN(5) {
			case 0, 1:
				w.add(w.any(), x, t.R.IntN(len(texts)))
			case 2, 3:
				w.del(w.any(), x)
			case 4:
				if t.R.IntN(4) == 0 {
					w.storm(1500)
				}
			}
			for e := range w.evs {
				w.match(w.any(), e)
			}
		}
		w.allEvents()
	})
	// many patterns, most of which get deleted
	c.Run("purge", c.N(32, 300), func(t *T) {
		p := t.profile()
		events := t.events(p, 6)
		n := 60 + t.R.IntN(200)
		var texts []string
		for i := range n {
			f := pick(t.R, []string{"a", "b", "c"})
			switch t.R.IntN(4) {
			case 0:
				texts = append(texts, fmt.Sprintf(`{"%s":["%s"]}`, f, randText(t.R, "abc", 12)))
			case 1:
				texts = append(texts, fmt.Sprintf(`{"%s":[{"prefix":"%s"}]}`, f, randText(t.R, "abc", 12)))
			case 2:
				texts = append(texts, fmt.Sprintf(`{"%s":[{"shellstyle":"%s*%s"}]}`, f, randText(t.R, "abc", 6), randText(t.R, "abc", 4)))
			default:
				texts = append(texts, fmt.Sprintf(`{"%s":["hit","%s"],"%s":["%d"]}`, f, randText(t.R, "abc", 9), f+"z", i))
			}
		}
		texts = append(texts, `{"d":["hit"]}`, `{"d":[{"prefix":"h"}]}`)
		events = append(events, obj1("d", vStr("hit")), obj1("a", vStr("abcabcabcabc")))
		w := t.newDelWorld(texts, events)
		defer w.watch()()
		w.inst = append(w.inst, w.inst[0].Copy())
		for i := range texts {
			w.add(w.any(), i, i)
		}
		w.add(w.inst[0], "keep", n)
		order := t.R.Perm(n)
		for _, i := range order[:n*9/10] {
			w.del(w.any(), i)
		}
		w.del(w.inst[0], n+1)
		full := w.inst[0].GetMatcherStats()["states"]
		w.storm(20000)
		for range 3 {
			w.storm(3000)
		}
		if w.rebuilds == 0 {
			t.Fail("patterns are never purged although deleted ones are matched all the time", map[string]any{"states": full})
		}
		now, fresh := w.inst[0].GetMatcherStats()["states"], w.fresh().GetMatcherStats()["states"]
		if now > 1.5*fresh+20 {
			t.Fail("purging leaves deleted patterns behind", map[string]any{"states before": full, "states after": now, "states of an instance without the deleted patterns": fresh})
		}
		t.Count("purged", 1)
		w.allEvents()
	})
	// patterns keep the mode they were added in, which the number of epsilon closures shows
	c.Run("modes", c.N(60, 600), func(t *T) {
		texts := []string{`{"d":["hit"]}`, `{"d":[{"prefix":"h"}]}`}
		for i := range 6 {
			texts = append(texts, fmt.Sprintf(`{"%s":[{"wildcard":"%s*%s"}]}`, string(rune('e'+i)), randText(t.R, "abc", 3), randText(t.R, "abc", 2)))
		}
		events := []*Val{obj1("d", vStr("hit"))}
		for i := range 6 {
			events = append(events, obj1(string(rune('e'+i)), vStr(randText(t.R, "abc", 5))))
		}
		w := t.newDelWorld(texts, events)
		defer w.watch()()
		w.inst = append(w.inst, w.inst[0].Copy())
		q := w.inst[0]
		w.add(q, "keep", 0)
		w.add(q, "gone", 1)
		for i := 2; i < len(texts); i++ {
			first := t.R.IntN(2)
			_ = q.SetMatcherBuildMode(quamina.MatcherBuildMode(first))
			w.add(q, i, i)
			// the same once more, in the other mode
			if t.R.IntN(3) == 0 {
				_ = q.SetMatcherBuildMode(quamina.MatcherBuildMode(1 - first))
				w.add(q, i, i)
			}
		}
		if t.R.IntN(2) == 0 {
			_ = q.SetMatcherBuildMode(quamina.MatcherBuildMode(t.R.IntN(2)))
		}
		w.del(w.any(), "gone")
		w.del(w.any(), 2+t.R.IntN(6))
		w.storm(20000)
		if w.rebuilds == 0 {
			t.Fail("patterns are never purged although deleted ones are matched all the time", nil)
		}
		now, fresh := q.GetMatcherStats(), w.fresh().GetMatcherStats()
		if now["fanouts"] != fresh["fanouts"] || now["maxFanout"] != fresh["maxFanout"] {
			t.Fail("purging didn't keep the modes patterns had been added in", map[string]any{"after": statsText(now), "an instance without the deleted patterns": statsText(fresh)})
		}
		t.Count("modes kept", 1)
		t.Distinct(texts[2], "modes", statsText(now))
		w.allEvents()
	})
	// each of many patterns, in changing modes, is still there after a purge, as the event shows that matches it alone
	c.Run("survivors", c.N(40, 400), func(t *T) {
		n := 10 + t.R.IntN(300)
		if t.Index%8 == 0 {
			n += 300 + t.R.IntN(700)
		}
		texts := []string{`{"d":["hit"]}`, `{"d":[{"prefix":"h"}]}`}
		events := []*Val{obj1("d", vStr("hit"))}
		for i := range n {
			f, v := fmt.Sprintf("f%d", t.R.IntN(6)), fmt.Sprintf("v%d", i)
			texts = append(texts, fmt.Sprintf([]string{`{"%s":["%s"]}`, `{"%s":["%s"],"z":[{"exists":false}]}`, `{"%s":[{"equals-ignore-case":"%s"}]}`, `{"%s":[{"regexp":"%s"}]}`}[t.R.IntN(4)], f, v))
			events = append(events, obj1(f, vStr(v)))
		}
		w := t.newDelWorld(texts, events)
		defer w.watch()()
		w.inst = append(w.inst, w.inst[0].Copy())
		w.add(w.any(), "keep", 0)
		w.add(w.any(), "gone", 1)
		few := t.R.IntN(2) == 0
		for i := 2; i < len(texts); i++ {
			q := w.any()
			_ = q.SetMatcherBuildMode(quamina.MatcherBuildMode(t.R.IntN(2)))
			var x quamina.X = i
			if few {
				x = i % 17
			}
			w.add(q, x, i)
		}
		w.del(w.any(), "gone")
		for range t.R.IntN(10) {
			w.del(w.any(), pick(t.R, w.live).x)
		}
		if len(w.live) == 0 || w.live[0].x != "keep" {
			w.add(w.any(), "keep", 0)
		}
		w.storm(20000)
		if w.rebuilds == 0 {
			t.Fail("patterns are never purged although deleted ones are matched all the time", nil)
		}
		w.allEvents()
		t.Count("survivors", len(w.live))
	})
	// adding and deleting again and again, with some traffic: the size of the automata stays within bounds
	c.Run("churn", c.N(6, 40), func(t *T) {
		q := t.newQ(quamina.WithPatternDeletion(true))
		t.mustAdd(q, "keep", `{"a":["hit"]}`)
		rebuilds := 0
		defer t.setHook(func(point string) {
			if point == "prunerMatcher.rebuild.beforeStore" {
				rebuilds++
			}
		})()
		readd := t.Index%2 == 0
		var sizes []float64
		for cycle := range 600 {
			for i := range 10 {
				x := cycle*10 + i
				if readd {
					x = i
				}
				t.mustAdd(q, x, fmt.Sprintf(`{"a":["hit","%s"]}`, randText(t.R, "abcdef", 12)))
			}
			for i := range 20 {
				got := sortedStrings(t.mustMatch(q, []byte(`{"a":"hit"}`)))
				if len(got) != 11 {
					t.Fail("wrong result", map[string]any{"result": got, "cycle": cycle, "match": i})
				}
			}
			for i := range 10 {
				x := cycle*10 + i
				if readd {
					x = i
				}
				if err := q.DeletePatterns(x); err != nil {
					t.Fail(fmt.Sprintf("DeletePatterns: %v", err), nil)
				}
			}
			for range 30 {
				if got := sortedStrings(t.mustMatch(q, []byte(`{"a":"hit"}`))); len(got) != 1 {
					t.Fail("wrong result", map[string]any{"result": got, "cycle": cycle})
				}
			}
			sizes = append(sizes, q.GetMatcherStats()["states"])
		}
		t.Eval(600 * 50)
		t.Count("churn", 600)
		t.Count("rebuilds", rebuilds)
		t.Distinct("churn", fmt.Sprint(t.Index))
		sort.Float64s(sizes)
		if m := sizes[len(sizes)-1]; m > 10*100*12 {
			t.Fail("adding and deleting makes the automata grow without bound", map[string]any{"largest number of states": m, "rebuilds": rebuilds})
		}
		t.Sample("churn: %d rebuilds, at most %.0f states", rebuilds, sizes[len(sizes)-1])
	})
	// what has been matched before a purge doesn't put off the next one, nor does it take matches of patterns that
	// weren't deleted to bring it about
	c.Run("again", c.N(12, 80), func(t *T) {
		q := t.newQ(quamina.WithPatternDeletion(true))
		both := []*quamina.Quamina{q, q.Copy()}
		n := 0
		fill := func(k int) (first int) {
			first = n
			for range k {
				t.mustAdd(both[t.R.IntN(2)], n, fmt.Sprintf(`{"a":["hit","%s"]}`, randText(t.R, "abcdef", 12)))
				n++
			}
			return first
		}
		traffic := func(times, want int) {
			for range times {
				if got := t.mustMatch(both[t.R.IntN(2)], []byte(`{"a":"hit"}`)); len(got) != want {
					t.Fail("wrong number of matches", map[string]any{"matches": len(got), "want": want})
				}
			}
			t.Eval(times)
		}
		keep := []int{0, 3, 0, 1}[t.Index%4]
		fill(keep)
		size := q.GetMatcherStats()["states"]
		emitted := 0
		for round := range 2 + t.R.IntN(3) {
			k := 20 + t.R.IntN(60)
			first := fill(k)
			if t.Index%4 > 1 && round == 0 {
				emitted = 150_000 + t.R.IntN(100_000)
				traffic(emitted/(keep+k), keep+k)
			}
			for i := first; i < n; i++ {
				if err := both[t.R.IntN(2)].DeletePatterns(i); err != nil {
					t.Fail(fmt.Sprintf("DeletePatterns: %v", err), nil)
				}
			}
			// of what is matched from here on, nearly all has been deleted
			enough := 20_000
			if round == 0 {
				enough += 2 * emitted
			}
			traffic(enough/k, keep)
			if now := q.GetMatcherStats()["states"]; now > 1.5*size+20 {
				t.Fail("deleted patterns are matched all the time and not purged", map[string]any{"round": round, "patterns deleted": k, "patterns kept": keep, "matches of deleted patterns": enough,
					"matches before the first deletion": emitted, "states": now, "states without the deleted patterns": size})
			}
			t.Distinct("again", fmt.Sprint(round, k))
		}
		t.Count("purged again", 1)
	})
	// without the option, deletion is refused and has no effect
	c.Run("refused", 3, func(t *T) {
		opts := [][]quamina.Option{nil, {quamina.WithPatternDeletion(false)}, {quamina.WithMediaType("application/json")}}[t.Index]
		q := t.newQ(opts...)
		t.mustAdd(q, 1, `{"a":["x"]}`)
		for _, in := range []*quamina.Quamina{q, q.Copy()} {
			if err := in.DeletePatterns(1); err == nil {
				t.Fail("DeletePatterns succeeded although deletion isn't enabled", nil)
			}
			if got := t.intSet(t.mustMatch(in, []byte(`{"a":"x"}`)), nil); !got[1] {
				t.Fail("a refused DeletePatterns had an effect", nil)
			}
			t.Eval(1)
		}
	})
}

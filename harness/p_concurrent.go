package main

// C14, C15, C17, C18: several goroutines, each with an instance of its own, most of them copies of each other.
//
// What goroutines do is recorded with the times at which each call began and returned, and judged afterwards: a match
// must report an X if, all through the call, a matching pattern with that X was in force, and must not if at no time
// during the call one was. Nothing but the start is synchronized, so that the race detector, which these checks are
// built with, isn't hampered. The other half of the monitoring runs whole calls at the verification points inside of
// another call, on the goroutine that passes there, which makes the interleaving deterministic.

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	quamina "quamina.net/go/quamina/v2"
)

func init() {
	register(&Check{
		ID: "C14", Race: true,
		Rule:     "distinct (set of patterns, event, result, patterns in force) observations by a reader while an AddPattern call was in progress",
		Required: []string{"reads during AddPattern", "probes inside AddPattern", "AddPatterns inside a match", "reads of a pattern being added", "verification points", "repeated while adding"},
		Run:      runReaders,
	})
	register(&Check{
		ID: "C15", Race: true,
		Rule:     "distinct (set of patterns, order of completion) histories of concurrent AddPattern calls after which every pattern was looked for",
		Required: []string{"overlapping AddPatterns", "final checks", "with deletion", "rejected patterns", "repeated while adding"},
		Run:      runWriters,
	})
	register(&Check{
		ID: "C17", Race: true,
		Rule: "distinct (set of patterns, event, result, possible states) observations by a reader while an AddPattern or DeletePatterns call was in progress, or one that was paused while such calls were made",
		Required: []string{"reads during DeletePatterns", "rebuilds", "rebuilds during calls", "calls inside a match", "probes inside AddPattern", "probes inside DeletePatterns", "re-added",
			"final checks", "large sets", "checked survivors", "repeated while adding"},
		Run: runConcurrentDeletion,
	})
	register(&Check{
		ID: "C18", Race: true,
		Rule:     "distinct (patterns, event) pairs matched in parallel by independent instances or copies, with a non-empty result",
		Required: []string{"independent instances", "copies in parallel", "with regexps", "numbers in parallel"},
		Run:      runIsolation,
	})
}

// op is a call that was made
type op struct {
	s, e  int64 // when it began and returned
	kind  byte  // '+' adds pattern pat with key x, '-' deletes key x
	x     int
	pat   int
	read  int   // for a match: the event,
	got   []int // and the keys it reported
	calls bool
}

const maxTime = int64(1) << 62

// hist is a history of calls: mutations by owner of each key, so that those of a key are sequential
type hist struct {
	t     *T
	texts []string
	evs   [][]byte
	hits  [][]bool // [pattern][event], by an instance with only that pattern
	muts  map[int][]op
	keys  int
}

func (t *T) newHist(texts []string, events []*Val) *hist {
	h := &hist{t: t, texts: texts, muts: map[int][]op{}}
	for _, e := range events {
		h.evs = append(h.evs, e.text(t.style(), t.R))
	}
	for _, s := range texts {
		solo := t.newQ()
		t.mustAdd(solo, 0, s)
		var hit []bool
		for _, ev := range h.evs {
			hit = append(hit, len(t.mustMatch(solo, bytes.Clone(ev))) > 0)
		}
		h.hits = append(h.hits, hit)
	}
	return h
}

func (h *hist) add(o op) {
	h.muts[o.x] = append(h.muts[o.x], o)
	h.keys = max(h.keys, o.x+1)
}

// possible tells whether key x could be found matching, and not matching, the event at some time in [s, e]
func (h *hist) possible(x, ev int, s, e int64) (yes, no, during bool) {
	var live []int // patterns in force
	state := func() bool {
		for _, p := range live {
			if h.hits[p][ev] {
				return true
			}
		}
		return false
	}
	see := func() {
		if state() {
			yes = true
		} else {
			no = true
		}
	}
	// A call takes effect at some time between its beginning and its return. The state before it is possible until it
	// returns, that after it from when it begins.
	from := int64(-1)
	ms := h.muts[x]
	for i := 0; i <= len(ms); i++ {
		until := maxTime
		if i < len(ms) {
			until = ms[i].e
			if ms[i].s <= e && s <= ms[i].e {
				during = true
			}
		}
		if from <= e && s <= until {
			see()
		}
		if i < len(ms) {
			from = ms[i].s
			if ms[i].kind == '+' {
				live = append(live, ms[i].pat)
			} else {
				live = nil
			}
		}
	}
	return yes, no, during
}

func (h *hist) judge(o op, what string) {
	t := h.t
	got := map[int]bool{}
	for _, x := range o.got {
		if got[x] {
			t.Fail(fmt.Sprintf("X %d was reported twice", x), map[string]any{"event": string(h.evs[o.read]), "result": fmt.Sprint(o.got)})
		}
		got[x] = true
	}
	var sb strings.Builder
	anyDuring := false
	for x := 0; x < h.keys; x++ {
		yes, no, during := h.possible(x, o.read, o.s, o.e)
		anyDuring = anyDuring || during
		t.Eval(1)
		if got[x] && !yes || !got[x] && !no {
			verb := "reported an X with no matching pattern in force at any time during the call"
			if !got[x] {
				verb = "didn't report an X that had a matching pattern in force all through the call"
			}
			var history []string
			for _, m := range h.muts[x] {
				if m.kind == '+' {
					history = append(history, fmt.Sprintf("AddPattern(%d, %s) at %d..%d", x, h.texts[m.pat], m.s, m.e))
				} else {
					history = append(history, fmt.Sprintf("DeletePatterns(%d) at %d..%d", x, m.s, m.e))
				}
			}
			t.Fail(verb+" ("+what+")", map[string]any{"X": x, "event": string(h.evs[o.read]), "match": fmt.Sprintf("at %d..%d", o.s, o.e), "result": fmt.Sprint(o.got),
				"history of X": history, "patterns": h.texts})
		}
		delete(got, x)
		if yes && no {
			t.Count("reads of a pattern being added", 1)
			fmt.Fprintf(&sb, "%d=%v ", x, got[x])
		}
	}
	for x := range got {
		t.Fail(fmt.Sprintf("reported X %d, which was never added", x), map[string]any{"event": string(h.evs[o.read])})
	}
	if anyDuring {
		t.Distinct(strings.Join(h.texts, "\n"), fmt.Sprint(o.read), fmt.Sprint(o.got), sb.String())
	}
}

// setHook installs a hook for the duration of the case
func (t *T) setHook(f func(point string)) func() {
	quamina.VerifHook.Store(&f)
	return func() { quamina.VerifHook.Store(nil) }
}

// jitter delays goroutines at verification points, at random but without synchronizing them
func (t *T) jitter() func() {
	if t.R.IntN(4) == 0 {
		return func() {}
	}
	base := time.Now()
	strength := uint64(1 + t.R.IntN(12))
	return t.setHook(func(string) {
		x := uint64(time.Since(base)) * 0x9e3779b97f4a7c15 >> 32
		switch x % 32 {
		case 0:
			if x>>8%16 < strength {
				time.Sleep(time.Duration(x>>12%40) * time.Microsecond)
			}
		case 1, 2, 3, 4:
			runtime.Gosched()
		}
	})
}

const (
	asideShort = 120 * time.Millisecond // f is allowed to wait for the caller
	asideLong  = 20 * time.Second       // it isn't
)

// aside runs f on a goroutine of its own and waits for it, but not forever: it may have to wait for the caller. The
// function it returns waits for f's end.
func (t *T) aside(patience time.Duration, f func()) (finished bool, join func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	var wait func()
	wait = func() {
		if r := <-done; r != nil && r != errStopCase {
			panic(r)
		} else if r != nil {
			panic(errStopCase)
		}
	}
	select {
	case r := <-done:
		done <- r
		return true, wait
	case <-time.After(patience):
		return false, wait
	}
}

// cheapProfile makes patterns that share fields, and whose construction doesn't take long under the race detector
func (t *T) cheapProfile() *Profile {
	r := t.R
	p := &Profile{Names: []string{"a", "b", "c"}, Strings: stringsOver("ab", 4), Depth: 1, Width: 3, ArrayPct: 15, ObjPct: 5, NumPct: 15, LitPct: 5,
		EmptyPct: 2, Kinds: allKinds, MaxVals: 3, ExistPct: 10, Arr: 3}
	switch r.IntN(6) {
	case 0:
		p.Names = p.Names[:1]
	case 1:
		p.Kinds = detKinds
	case 2:
		p.Kinds = []MKind{MString, MNumber, MString, MNumber, MPrefix}
		p.Strings = stringsOver("a", 2)
	case 3:
		p.Kinds = []MKind{MWildcard, MShell, MString, MRegexp}
		p.Strings = stringsOver("abc", 6)
	case 4:
		p.ExistPct = 45
		p.Names = []string{"a", "b", "c", "d", "e"}
	}
	return p
}

func (t *T) cheapPats(p *Profile, events []*Val, n int) []string {
	var out []string
	for len(out) < n {
		for _, pt := range genPats(t.R, p, events, n) {
			s := pt.String()
			if len(s) < 300 && !strings.Contains(s, "[^") && !strings.Contains(s, "P{") && !strings.Contains(s, "p{") && len(out) < n {
				out = append(out, s)
			}
		}
	}
	return out
}

func keysOf(t *T, xs []quamina.X) []int {
	out := make([]int, 0, len(xs))
	for _, x := range xs {
		i, ok := x.(int)
		if !ok {
			out = append(out, -1)
			continue
		}
		out = append(out, i)
	}
	slices.Sort(out)
	return out
}

func setSpeed(q *quamina.Quamina, speed bool) {
	if speed {
		_ = q.SetMatcherBuildMode(quamina.BuiltForSpeed)
	}
}

// the monotonic clock is the same for all CPUs to within far less than this
const clockSlack = 1000

// crew runs goroutines that start together
type crew struct {
	t     *T
	start chan struct{}
	wg    sync.WaitGroup
	base  time.Time
	errs  []string
	mu    sync.Mutex
}

func (t *T) newCrew() *crew { return &crew{t: t, start: make(chan struct{}), base: time.Now()} }
func (c *crew) now() int64  { return int64(time.Since(c.base)) }
func (c *crew) fail(format string, a ...any) {
	c.mu.Lock()
	c.errs = append(c.errs, fmt.Sprintf(format, a...))
	c.mu.Unlock()
}
func (c *crew) hire(f func(r *rand.Rand)) {
	seed := c.t.R.Uint64()
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		defer func() {
			if r := recover(); r != nil {
				buf := make([]byte, 4000)
				c.fail("panic: %v\n%s", r, buf[:runtime.Stack(buf, false)])
			}
		}()
		<-c.start
		f(rand.New(rand.NewPCG(seed, 3)))
	}()
}
func (c *crew) work() {
	close(c.start)
	c.wg.Wait()
	if len(c.errs) > 0 {
		c.t.Fail(c.errs[0], nil)
	}
}

// reader matches events with its own instance until told to stop, and records what it gets
func (c *crew) reader(q *quamina.Quamina, evs [][]byte, stop func() bool, log *[]op) {
	c.hire(func(r *rand.Rand) {
		final := 0
		for n := 0; final < 2 && n < 4000; n++ {
			if stop() {
				final++
			}
			i := r.IntN(len(evs))
			ev := evs[i]
			s := c.now()
			xs, err := q.MatchesForEvent(ev)
			e := c.now()
			if err != nil {
				c.fail("MatchesForEvent: %v for %s", err, ev)
				return
			}
			*log = append(*log, op{s: s - clockSlack, e: e + clockSlack, read: i, got: keysOf(c.t, xs)})
			switch r.IntN(40) {
			case 0:
				q = q.Copy()
			case 1:
				m := q.GetMatcherStats()
				if m["states"] < 0 || m["maxFanout"] > m["fanouts"] {
					c.fail("statistics: %v", m)
				}
			case 2, 3, 4, 5, 6, 7, 8, 9:
				runtime.Gosched()
			}
		}
	})
}

// doneFlag is a stop signal; reading it synchronizes the reader with the writer, but only after the writer has finished
type doneFlag struct{ n atomic.Int32 }

func (h *hist) finalCheck(q *quamina.Quamina, what string) {
	t := h.t
	for i, ev := range h.evs {
		xs, err := q.MatchesForEvent(ev)
		if err != nil {
			t.Fail(fmt.Sprintf("MatchesForEvent: %v", err), nil)
		}
		h.judge(op{s: maxTime - 1, e: maxTime - 1, read: i, got: keysOf(t, xs)}, what)
		t.Count("final checks", 1)
	}
}

// ---- C14

func runReaders(c *Ctx) {
	runRepeated(c, false, c.N(400, 8000))
	c.Run("threads", c.N(900, 15000), func(t *T) {
		r := t.R
		p := t.cheapProfile()
		events := t.events(p, 3)
		n := 6 + r.IntN(18)
		h := t.newHist(t.cheapPats(p, events, n), events)
		var opts []quamina.Option
		if chance(r, 30) {
			opts = append(opts, quamina.WithPatternDeletion(true))
		}
		q := t.newQ(opts...)
		setSpeed(q, chance(r, 15) && speedSafeTexts(h.texts))
		already := r.IntN(n)
		for i := 0; i < already; i++ {
			t.mustAdd(q, i, h.texts[i])
			h.add(op{s: -2, e: -1, kind: '+', x: i, pat: i})
		}
		unhook := t.jitter()
		defer unhook()
		cr := t.newCrew()
		var done doneFlag
		adders := 1 + r.IntN(2)
		logs := make([][]op, adders)
		for k := 0; k < adders; k++ {
			cp := q.Copy()
			setSpeed(cp, q.GetMatcherBuildMode() == quamina.BuiltForSpeed)
			cr.hire(func(r *rand.Rand) {
				defer done.n.Add(1)
				for i := already + k; i < n; i += adders {
					s := cr.now()
					err := cp.AddPattern(i, h.texts[i])
					e := cr.now()
					if err != nil {
						cr.fail("AddPattern: %v for %s", err, h.texts[i])
					}
					logs[k] = append(logs[k], op{s: s - clockSlack, e: e + clockSlack, kind: '+', x: i, pat: i})
					if r.IntN(3) == 0 {
						time.Sleep(time.Duration(r.IntN(60)) * time.Microsecond)
					}
				}
			})
		}
		reads := make([][]op, 2+r.IntN(2))
		for k := range reads {
			cr.reader(q.Copy(), h.evs, func() bool { return done.n.Load() == int32(adders) }, &reads[k])
		}
		cr.work()
		var last int64
		for _, l := range logs {
			for _, o := range l {
				h.add(o)
				last = max(last, o.e)
			}
		}
		for _, l := range reads {
			for _, o := range l {
				if o.s < last {
					t.Count("reads during AddPattern", 1)
				}
				h.judge(o, "while patterns were being added")
			}
		}
		h.finalCheck(q.Copy(), "after all patterns were added")
		t.Sample("%d patterns, e.g. %s, %d reads", n, h.texts[0], len(reads[0]))
	})
	// whole matches at every verification point that an AddPattern call passes
	c.Run("probe", c.N(500, 8000), func(t *T) {
		r := t.R
		p := t.cheapProfile()
		events := t.events(p, 2+r.IntN(3))
		n := 4 + r.IntN(12)
		h := t.newHist(t.cheapPats(p, events, n), events)
		var opts []quamina.Option
		if chance(r, 25) {
			opts = append(opts, quamina.WithPatternDeletion(true))
		}
		q := t.newQ(opts...)
		setSpeed(q, chance(r, 30) && speedSafeTexts(h.texts))
		probe := q.Copy()
		var clock int64
		var reads []op
		var busy atomic.Bool
		passed := map[string]int{}
		defer t.setHook(func(point string) {
			if busy.Load() {
				return
			}
			busy.Store(true)
			passed[point]++
			clock++
			s := clock
			finished, join := t.aside(asideLong, func() {
				for i, ev := range h.evs {
					cp := probe
					if i == 0 && len(passed)%4 == 0 {
						cp = probe.Copy()
					}
					xs, err := cp.MatchesForEvent(bytes.Clone(ev))
					if err != nil {
						t.Fail(fmt.Sprintf("MatchesForEvent: %v at %s", err, point), nil)
					}
					reads = append(reads, op{s: s, e: s, read: i, got: keysOf(t, xs)})
				}
			})
			if !finished {
				t.Fail("a match waits for an AddPattern call by another goroutine that is paused at "+point, map[string]any{"patterns": h.texts})
			}
			join()
			busy.Store(false)
		})()
		for i := 0; i < n; i++ {
			clock++
			o := op{s: clock, kind: '+', x: i, pat: i}
			t.mustAdd(q, i, h.texts[i])
			clock++
			o.e = clock
			h.add(o)
		}
		busy.Store(true)
		for _, o := range reads {
			h.judge(o, "inside of an AddPattern call")
		}
		t.Count("probes inside AddPattern", len(reads))
		for _, k := range passed {
			t.Count("verification points", k)
		}
		h.finalCheck(probe, "after all patterns were added")
	})
	// AddPattern calls while a match is paused
	c.Run("inject", c.N(900, 15000), func(t *T) {
		r := t.R
		p := t.cheapProfile()
		events := t.events(p, 2+r.IntN(3))
		n := 4 + r.IntN(12)
		h := t.newHist(t.cheapPats(p, events, n), events)
		var opts []quamina.Option
		if chance(r, 25) {
			opts = append(opts, quamina.WithPatternDeletion(true))
		}
		q := t.newQ(opts...)
		adder := q.Copy()
		setSpeed(adder, chance(r, 30) && speedSafeTexts(h.texts))
		next := 0
		var clock int64
		add := func() {
			if next == n {
				return
			}
			clock++
			o := op{s: clock, kind: '+', x: next, pat: next}
			t.mustAdd(adder, next, h.texts[next])
			clock++
			o.e = clock
			h.add(o)
			next++
		}
		if chance(r, 50) {
			add()
		}
		var busy atomic.Bool
		var join func()
		point1 := "coreMatcher.matchesForFields"
		if len(opts) > 0 && chance(r, 50) {
			point1 = "prunerMatcher.matchesForFields.beforeFilter"
		}
		defer t.setHook(func(point string) {
			if busy.Load() || point != point1 || join != nil {
				return
			}
			busy.Store(true)
			k := 1 + r.IntN(2)
			_, join = t.aside(asideShort, func() {
				for ; k > 0; k-- {
					add()
					t.Count("AddPatterns inside a match", 1)
				}
				busy.Store(false)
			})
		})()
		for step := 0; step < 3*n && (next < n || step < n); step++ {
			i := r.IntN(len(h.evs))
			clock++
			o := op{s: clock, read: i}
			o.got = keysOf(t, t.mustMatch(q, bytes.Clone(h.evs[i])))
			if join != nil {
				join()
				join = nil
			}
			clock++
			o.e = clock
			h.judge(o, "with AddPattern calls while it was paused")
		}
		for next < n {
			add()
		}
		busy.Store(true)
		h.finalCheck(q, "after all patterns were added")
	})
}

func speedSafeTexts(texts []string) bool {
	size := 0
	for _, s := range texts {
		if strings.Contains(s, "wildcard") || strings.Contains(s, "shellstyle") || strings.Contains(s, "regexp") {
			size += len(s)
		}
		if strings.Contains(s, "{1,3}") {
			size += 20
		}
	}
	return size <= 110
}

// ---- C15

func runWriters(c *Ctx) {
	runRepeated(c, false, c.N(400, 8000))
	c.Run("threads", c.N(5000, 25000), func(t *T) {
		r := t.R
		p := t.cheapProfile()
		events := t.events(p, 4)
		n := 4 + r.IntN(28)
		h := t.newHist(t.cheapPats(p, events, n), events)
		var opts []quamina.Option
		if chance(r, 40) {
			opts = append(opts, quamina.WithPatternDeletion(true))
			t.Count("with deletion", 1)
		}
		q := t.newQ(opts...)
		speed := chance(r, 20) && speedSafeTexts(h.texts)
		unhook := t.jitter()
		defer unhook()
		cr := t.newCrew()
		adders := 2 + r.IntN(5)
		logs := make([][]op, adders)
		rejected := make([]int, adders)
		for k := 0; k < adders; k++ {
			cp := q.Copy()
			setSpeed(cp, speed && k%2 == 0)
			cr.hire(func(r *rand.Rand) {
				for i := k; i < n; i += adders {
					s := cr.now()
					err := cp.AddPattern(i, h.texts[i])
					e := cr.now()
					if err != nil {
						cr.fail("AddPattern: %v for %s", err, h.texts[i])
					}
					logs[k] = append(logs[k], op{s: s, e: e, kind: '+', x: i, pat: i})
					if r.IntN(6) == 0 {
						if err := cp.AddPattern(999, pick(r, []string{`{"a":["x",{"regexp":"("}]}`, `{"b":1}`, `{"zz":[1],"a":[`})); err == nil {
							cr.fail("an invalid pattern was accepted")
						}
						rejected[k]++
					}
					if r.IntN(4) == 0 && len(h.evs) > 0 { // its own pattern is there at once
						ev := r.IntN(len(h.evs))
						xs, err := cp.MatchesForEvent(h.evs[ev])
						if err != nil || slices.Contains(keysOf(t, xs), i) != h.hits[i][ev] {
							cr.fail("right after AddPattern(%d, %s) returned, the event %s yields %v, %v", i, h.texts[i], h.evs[ev], xs, err)
						}
					}
				}
			})
		}
		cr.work()
		var all []op
		for k, l := range logs {
			t.Count("rejected patterns", rejected[k])
			for _, o := range l {
				h.add(o)
				all = append(all, o)
			}
		}
		slices.SortFunc(all, func(a, b op) int { return int(a.e - b.e) })
		var order strings.Builder
		for i, o := range all {
			fmt.Fprintf(&order, "%d ", o.x)
			if i > 0 && o.s < all[i-1].e {
				t.Count("overlapping AddPatterns", 1)
			}
		}
		t.Distinct(strings.Join(h.texts, "\n"), order.String())
		for _, in := range []*quamina.Quamina{q, q.Copy()} {
			h.finalCheck(in, "after concurrent AddPattern calls")
		}
		// it's still possible to add
		t.mustAdd(q, n, `{"after":["all"]}`)
		if got := keysOf(t, t.mustMatch(q.Copy(), []byte(`{"after":"all"}`))); !slices.Contains(got, n) {
			t.Fail("a pattern added after concurrent AddPattern calls isn't found", nil)
		}
		t.Sample("%d goroutines, patterns completed in the order %s", adders, order.String())
	})
	// AddPattern calls from inside of AddPattern calls: started at each verification point, they have to wait or succeed
	c.Run("nested", c.N(150, 800), func(t *T) {
		r := t.R
		p := t.cheapProfile()
		events := t.events(p, 3)
		n := 5 + r.IntN(6)
		h := t.newHist(t.cheapPats(p, events, n), events)
		var opts []quamina.Option
		if chance(r, 50) {
			opts = append(opts, quamina.WithPatternDeletion(true))
		}
		q := t.newQ(opts...)
		var wg sync.WaitGroup
		var mu sync.Mutex
		next, outer, skip := 1, true, r.IntN(4)
		var bad error
		var hook func(point string)
		hook = func(point string) {
			mu.Lock()
			if !outer || next >= n || strings.HasSuffix(point, "matchesForFields") {
				mu.Unlock()
				return
			}
			if skip > 0 {
				skip--
				mu.Unlock()
				return
			}
			outer = false // the goroutine started here doesn't start others
			i := next
			next++
			mu.Unlock()
			wg.Add(1)
			cp := q.Copy()
			go func() {
				defer wg.Done()
				if err := cp.AddPattern(i, h.texts[i]); err != nil {
					mu.Lock()
					bad = err
					mu.Unlock()
				}
			}()
			time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
		}
		defer t.setHook(hook)()
		t.mustAdd(q, 0, h.texts[0])
		h.add(op{kind: '+', x: 0, pat: 0})
		for {
			wg.Wait()
			mu.Lock()
			if bad != nil {
				t.Fail(fmt.Sprintf("AddPattern: %v", bad), nil)
			}
			outer = true
			skip = r.IntN(4)
			i := next
			next++
			mu.Unlock()
			if i >= n {
				break
			}
			t.mustAdd(q, i, h.texts[i])
			t.Count("overlapping AddPatterns", 1)
		}
		wg.Wait()
		for i := 1; i < n; i++ {
			h.add(op{kind: '+', x: i, pat: i})
		}
		quamina.VerifHook.Store(nil)
		h.finalCheck(q, "after AddPattern calls that began during others")
	})
}

// ---- C17

func runConcurrentDeletion(c *Ctx) {
	runRepeated(c, true, c.N(400, 8000))
	c.Run("threads", c.N(900, 15000), func(t *T) {
		r := t.R
		p := t.cheapProfile()
		events := t.events(p, 3)
		n := 4 + r.IntN(12)
		h := t.newHist(t.cheapPats(p, events, n), events)
		q := t.newQ(quamina.WithPatternDeletion(true))
		keys := 3 + r.IntN(5)
		if chance(r, 50) { // many that match, so that enough is emitted and filtered for a rebuild
			for x := keys; x < keys+30; x++ {
				pt := r.IntN(n)
				t.mustAdd(q, x, h.texts[pt])
				h.add(op{s: -2, e: -1, kind: '+', x: x, pat: pt})
			}
			keys += 30
		}
		rebuilds := &atomic.Int64{}
		base := time.Now()
		defer t.setHook(func(point string) {
			if point == "prunerMatcher.rebuild.beforeStore" {
				rebuilds.Add(1) // the lock is held anyway
			}
			x := uint64(time.Since(base)) * 0x9e3779b97f4a7c15 >> 32
			switch x % 32 {
			case 0, 1:
				time.Sleep(time.Duration(x>>12%30) * time.Microsecond)
			case 2, 3, 4, 5:
				runtime.Gosched()
			}
		})()
		cr := t.newCrew()
		var done doneFlag
		mutators := 1 + r.IntN(3)
		logs := make([][]op, mutators)
		perMut := 10 + r.IntN(50)
		for k := 0; k < mutators; k++ {
			cp := q.Copy()
			cr.hire(func(r *rand.Rand) {
				defer done.n.Add(1)
				for j := 0; j < perMut; j++ {
					x := r.IntN(keys)
					if x%mutators != k {
						continue
					}
					o := op{x: x, kind: '+', pat: r.IntN(n)}
					if r.IntN(100) < 45 {
						o.kind = '-'
					}
					o.s = cr.now() - clockSlack
					var err error
					if o.kind == '+' {
						err = cp.AddPattern(x, h.texts[o.pat])
					} else {
						err = cp.DeletePatterns(x)
					}
					o.e = cr.now() + clockSlack
					if err != nil {
						cr.fail("%c: %v", o.kind, err)
					}
					logs[k] = append(logs[k], o)
					if r.IntN(4) == 0 {
						time.Sleep(time.Duration(r.IntN(80)) * time.Microsecond)
					}
				}
			})
		}
		reads := make([][]op, 2+r.IntN(2))
		for k := range reads {
			cr.reader(q.Copy(), h.evs, func() bool { return done.n.Load() == int32(mutators) }, &reads[k])
		}
		cr.work()
		var last int64
		for _, l := range logs {
			seen := map[int]bool{}
			for _, o := range l {
				h.add(o)
				last = max(last, o.e)
				if o.kind == '+' && seen[o.x] {
					t.Count("re-added", 1)
				}
				if o.kind == '-' {
					seen[o.x] = true
				}
			}
		}
		for _, l := range reads {
			for _, o := range l {
				if o.s < last {
					t.Count("reads during DeletePatterns", 1)
				}
				h.judge(o, "while patterns were being added and deleted")
			}
		}
		t.Count("rebuilds", int(rebuilds.Load()))
		if rebuilds.Load() > 0 {
			t.Count("rebuilds during calls", 1)
		}
		h.finalCheck(q.Copy(), "after all calls returned")
		// and it stays like that, with enough matches for further rebuilds
		cp := q.Copy()
		for k := 0; k < 60; k++ {
			_ = t.mustMatch(cp, h.evs[k%len(h.evs)])
		}
		h.finalCheck(q, "after all calls returned")
		t.Sample("%d keys, %d mutators, %d rebuilds, %d reads", keys, mutators, rebuilds.Load(), len(reads[0]))
	})
	// many patterns in force, each matched by an event of its own, while others are added, deleted, and purged
	c.Run("large", c.N(16, 250), func(t *T) {
		r := t.R
		n := []int{40, 100, 250, 600, 1100, 2500}[t.Index%6] + r.IntN(40)
		if t.Index%6 > 3 && c.Tier != "thorough" {
			n /= 2
		}
		more := n + n/4 + 50
		fields := []int{1, 7, 100}[r.IntN(3)]
		text := func(i int) string {
			return fmt.Sprintf([]string{`{"f%d":["v%d"]}`, `{"f%d":["v%d"],"z":[{"exists":false}]}`, `{"f%d":[{"equals-ignore-case":"v%d"}]}`, `{"f%d":["v%d"],"n":{"m":[{"exists":false}]}}`}[i%4], i%fields, i)
		}
		event := func(i int) []byte { return []byte(fmt.Sprintf(`{"b":[1],"f%d":"v%d"}`, i%fields, i)) }
		q := t.newQ(quamina.WithPatternDeletion(true))
		t.mustAdd(q, "keep", `{"h":["hit"]}`)
		for i := range n {
			t.mustAdd(q, i, text(i))
		}
		var rebuilds, ready, gone, checked atomic.Int64
		ready.Store(int64(n))
		defer t.setHook(func(point string) {
			if point == "prunerMatcher.rebuild.beforeStore" {
				rebuilds.Add(1) // the lock is held anyway
			}
		})()
		// one X in 8 is deleted sooner or later
		deletable := func(i int) bool { return i%8 == 5 }
		cr := t.newCrew()
		var done doneFlag
		expect := func(q *quamina.Quamina, i int, what string) {
			was := gone.Load()
			xs, err := q.MatchesForEvent(event(i))
			if err != nil {
				cr.fail("MatchesForEvent: %v", err)
				return
			}
			switch {
			case !deletable(i) && (len(xs) != 1 || xs[0] != i):
				cr.fail("%s, with %d patterns, the event %s yields %v instead of the X %d of the pattern %s, which is in force", what, n, event(i), xs, i, text(i))
			case deletable(i) && int64(i) < was && len(xs) != 0:
				cr.fail("%s, with %d patterns, the event %s yields %v although %d has been deleted", what, n, event(i), xs, i)
			}
			checked.Add(1)
		}
		adder, deleter := q.Copy(), q.Copy()
		cr.hire(func(r *rand.Rand) {
			defer done.n.Add(1)
			for i := n; i < more; i++ {
				if err := adder.AddPattern(i, text(i)); err != nil {
					cr.fail("AddPattern: %v", err)
				}
				ready.Store(int64(i + 1))
				if i%8 == 0 {
					expect(adder, i, "right after AddPattern")
				}
				if r.IntN(3) == 0 {
					time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
				}
			}
		})
		cr.hire(func(r *rand.Rand) {
			defer done.n.Add(1)
			for i := range n {
				if deletable(i) {
					if err := deleter.DeletePatterns(i); err != nil {
						cr.fail("DeletePatterns: %v", err)
					}
					gone.Store(int64(i + 1))
				}
			}
		})
		// this brings about rebuilds
		stormer := q.Copy()
		cr.hire(func(*rand.Rand) {
			defer done.n.Add(1)
			for k := range 3 {
				if err := stormer.AddPattern("gone", `{"h":[{"prefix":"h"}]}`); err != nil {
					cr.fail("AddPattern: %v", err)
				}
				if err := stormer.DeletePatterns("gone"); err != nil {
					cr.fail("DeletePatterns: %v", err)
				}
				before := rebuilds.Load()
				for j := 0; j < 5000 && rebuilds.Load() == before; j++ {
					xs, err := stormer.MatchesForEvent([]byte(`{"h":"hit"}`))
					if err != nil || len(xs) != 1 || xs[0] != "keep" {
						cr.fail("instead of keep, %v %v is reported", xs, err)
					}
				}
				for j := range 40 {
					expect(stormer, (j*131+k)%n, "after a rebuild")
				}
			}
		})
		for range 3 {
			cp := q.Copy()
			cr.hire(func(r *rand.Rand) {
				for k := 0; done.n.Load() < 3 && k < 20000; k++ {
					expect(cp, r.IntN(int(ready.Load())), "while patterns were being added and deleted")
				}
			})
		}
		cr.work()
		for i := range more {
			deleted := deletable(i) && i < n
			if xs := t.mustMatch(q, event(i)); deleted == (len(xs) != 0) || !deleted && (len(xs) != 1 || xs[0] != i) {
				t.Fail(fmt.Sprintf("after all calls returned, the event %s yields %v", event(i), xs), map[string]any{"pattern": text(i), "deleted": deleted, "patterns": n})
			}
			t.Eval(1)
		}
		t.Count("rebuilds", int(rebuilds.Load()))
		t.Count("large sets", 1)
		t.Count("final checks", more)
		t.Count("checked survivors", int(checked.Load()))
		t.Distinct("large", fmt.Sprint(n, fields, rebuilds.Load()))
	})
	// calls at verification points inside of other calls
	c.Run("paused", c.N(1500, 25000), func(t *T) {
		r := t.R
		p := t.cheapProfile()
		events := t.events(p, 2+r.IntN(2))
		n := 3 + r.IntN(8)
		h := t.newHist(t.cheapPats(p, events, n), events)
		q := t.newQ(quamina.WithPatternDeletion(true))
		side := q.Copy()
		keys := 2 + r.IntN(3)
		var mu sync.Mutex // the hook may run on several goroutines, one at a time unless something blocks
		var clock int64
		tick := func() int64 {
			mu.Lock()
			defer mu.Unlock()
			clock++
			return clock
		}
		var reads []op
		var rebuilds atomic.Int64
		read := func(in *quamina.Quamina, r *rand.Rand) {
			i := r.IntN(len(h.evs))
			o := op{s: tick(), read: i}
			o.got = keysOf(t, t.mustMatch(in, bytes.Clone(h.evs[i])))
			o.e = tick()
			mu.Lock()
			reads = append(reads, o)
			mu.Unlock()
		}
		mutate := func(in *quamina.Quamina, r *rand.Rand, kind byte, x int) {
			o := op{s: tick(), kind: kind, x: x, pat: r.IntN(n)}
			if kind == '+' {
				t.mustAdd(in, x, h.texts[o.pat])
			} else if err := in.DeletePatterns(x); err != nil {
				t.Fail(fmt.Sprintf("DeletePatterns: %v", err), nil)
			}
			o.e = tick()
			mu.Lock()
			h.add(o)
			mu.Unlock()
		}
		for k := 0; k < 4; k++ {
			mutate(q, r, '+', r.IntN(keys))
		}
		// a deleted pattern that is found again and again leads to a rebuild; it takes 1000 of those
		near := chance(r, 60)
		if near {
			t.mustAdd(q, 1000, `{"storm":["s"]}`)
			t.mustAdd(q, 1001, `{"storm":["s"]}`)
			_ = q.DeletePatterns(1001)
			for k := 0; k < 490+r.IntN(12); k++ {
				xs := keysOf(t, t.mustMatch(q, []byte(`{"storm":"s"}`)))
				if !slices.Contains(xs, 1000) || slices.Contains(xs, 1001) {
					t.Fail(fmt.Sprintf("deleted X reported, or other missing: %v", xs), nil)
				}
			}
		}
		var busy atomic.Bool
		blocked := 0
		var joins []func()
		defer t.setHook(func(point string) {
			if point == "prunerMatcher.rebuild.beforeStore" {
				rebuilds.Add(1)
				return
			}
			inMatch := point == "coreMatcher.matchesForFields" || point == "prunerMatcher.matchesForFields.beforeFilter"
			if !busy.CompareAndSwap(false, true) {
				return
			}
			// from here on, only one goroutine at a time
			if blocked > 1 || !inMatch && !strings.HasPrefix(point, "prunerMatcher") && r.IntN(3) > 0 || inMatch && r.IntN(3) == 0 {
				busy.Store(false)
				return
			}
			r := rand.New(rand.NewPCG(r.Uint64(), 5))
			ok, join := t.aside(asideShort, func() {
				if inMatch {
					for k := 1 + r.IntN(4); k > 0; k-- {
						x := r.IntN(keys)
						switch r.IntN(5) {
						case 0, 1:
							mutate(side, r, '-', x)
						case 2, 3:
							mutate(side, r, '+', x)
						default:
							read(side, r)
						}
						t.Count("calls inside a match", 1)
					}
					if near && r.IntN(3) == 0 {
						for k := 0; k < 30; k++ {
							_, _ = side.MatchesForEvent([]byte(`{"storm":"s"}`))
						}
					}
					return
				}
				if strings.HasPrefix(point, "prunerMatcher.delete") {
					t.Count("probes inside DeletePatterns", 1)
				} else {
					t.Count("probes inside AddPattern", 1)
				}
				read(side, r)
			})
			joins = append(joins, join)
			if ok {
				busy.Store(false)
			} else {
				blocked++
				t.Count("blocked", 1)
			}
		})()
		for step := 0; step < 25; step++ {
			switch r.IntN(6) {
			case 0:
				mutate(q, r, '-', r.IntN(keys))
			case 1, 2:
				mutate(q, r, '+', r.IntN(keys))
			default:
				read(q, r)
			}
			for _, j := range joins {
				j()
			}
			joins = nil
			busy.Store(false)
		}
		busy.Store(true)
		for _, o := range reads {
			if slices.ContainsFunc(o.got, func(x int) bool { return x >= 1000 }) {
				t.Fail("reported an X whose pattern doesn't match", nil)
			}
			// calls on a key from inside of another on the same key overlap it; sort by beginning for the judgement
			h.judgeOverlapping(o, "with calls while it was paused")
		}
		t.Count("rebuilds", int(rebuilds.Load()))
		if rebuilds.Load() > 0 {
			t.Count("rebuilds during calls", 1)
		}
	})
}

// judgeOverlapping judges a match where several mutations of one key may be nested in one another: only reads that
// don't overlap with any mutation of a key, or only with those that don't overlap each other, are judged for that key
func (h *hist) judgeOverlapping(o op, what string) {
	h2 := *h
	h2.muts = map[int][]op{}
	t := h.t
	for x := 0; x < h.keys; x++ {
		ms := slices.Clone(h.muts[x])
		slices.SortFunc(ms, func(a, b op) int { return int(a.s - b.s) })
		for i := 1; i < len(ms); i++ {
			if ms[i].s < ms[i-1].e {
				t.Count("overlapping mutations", 1)
				return
			}
		}
		h2.muts[x] = ms
	}
	h2.judge(o, what)
	for range o.got {
		t.Count("final checks", 1)
	}
}

// ---- C18

func runIsolation(c *Ctx) {
	c.Run("instances", c.N(250, 4000), func(t *T) {
		r := t.R
		type job struct {
			texts []string
			evs   [][]byte
			want  []string
			opts  []quamina.Option
			speed bool
		}
		re := func() string {
			g := t.reGen()
			for {
				if s := g.alt(2).String(); len(s) < 60 && !strings.Contains(s, "[^") && !strings.Contains(s, "P{") {
					return s
				}
			}
		}
		var jobs []job
		n := 3 + r.IntN(4)
		common := re()
		for k := 0; k < n; k++ {
			p := t.cheapProfile()
			events := t.events(p, 4)
			j := job{texts: t.cheapPats(p, events, 4+r.IntN(10))}
			// regexps, whose construction uses tables that all instances share
			for m := 0; m < 2; m++ {
				j.texts = append(j.texts, pat1("a", &Matcher{K: MRegexp, S: re()}).String())
			}
			j.texts = append(j.texts, pat1("a", &Matcher{K: MRegexp, S: common}).String())
			props := []string{"~p{Lu}", "~p{L}", "[~p{Nd}a-c]+", ".~p{P}*", "~p{Ll}~p{Lu}?", "[^a-z]", "~P{L}"}
			j.texts = append(j.texts, pat1("a", &Matcher{K: MRegexp, S: props[r.IntN(len(props)-2+2*r.IntN(2)*r.IntN(2))]}).String())
			t.Count("with regexps", 1)
			for _, e := range events {
				j.evs = append(j.evs, e.text(t.style(), r))
			}
			for m := 0; m < 6; m++ {
				j.evs = append(j.evs, obj1("a", vStr(mixedString(r))).text(t.style(), r))
				j.evs = append(j.evs, vObj(Member{"a", vNum(randNumber(r))}, Member{"b", vNum(randNumber(r))}).text(t.style(), r))
				t.Count("numbers in parallel", 1)
			}
			if chance(r, 30) {
				j.opts = append(j.opts, quamina.WithPatternDeletion(true))
			}
			jobs = append(jobs, j)
		}
		run := func(j *job, yield func()) (out []string, err error) {
			q, err := quamina.New(j.opts...)
			if err != nil {
				return nil, err
			}
			for i, s := range j.texts {
				if err = q.AddPattern(i, s); err != nil {
					return nil, fmt.Errorf("%s: %w", s, err)
				}
				yield()
			}
			for _, ev := range j.evs {
				xs, err := q.MatchesForEvent(ev)
				if err != nil {
					return nil, err
				}
				out = append(out, fmt.Sprint(keysOf(nil, xs)))
				yield()
			}
			out = append(out, statsText(q.GetMatcherStats()))
			return out, nil
		}
		// in parallel first: the shared tables are filled on first use
		got := make([][]string, n)
		cr := t.newCrew()
		for k := range jobs {
			cr.hire(func(r *rand.Rand) {
				var err error
				got[k], err = run(&jobs[k], func() {
					if r.IntN(4) == 0 {
						runtime.Gosched()
					}
				})
				if err != nil {
					cr.fail("%v", err)
				}
			})
		}
		cr.work()
		for k := range jobs {
			want, err := run(&jobs[k], func() {})
			if err != nil {
				t.Fail(fmt.Sprint(err), nil)
			}
			t.Eval(len(want))
			t.Count("independent instances", 1)
			for i := range want {
				if got[k][i] != want[i] {
					ev := "GetMatcherStats"
					if i < len(jobs[k].evs) {
						ev = string(jobs[k].evs[i])
					}
					t.Fail("instances that have nothing to do with each other influenced each other", map[string]any{"patterns": jobs[k].texts, "event": ev, "alone": want[i], "in parallel": got[k][i]})
				}
				if i < len(jobs[k].evs) && want[i] != "[]" {
					t.Distinct(strings.Join(jobs[k].texts, "\n"), string(jobs[k].evs[i]))
				}
			}
		}
		t.Sample("%d instances; e.g. %s", n, jobs[0].texts[0])
	})
	// copies that match different events at the same time
	c.Run("copies", c.N(500, 8000), func(t *T) {
		r := t.R
		p := t.cheapProfile()
		if chance(r, 30) {
			p.Strings = mixedString
		}
		events := t.events(p, 8)
		for k := 0; k < 3; k++ {
			a := vArr()
			for n := r.IntN(50); n > 0; n-- {
				a.El = append(a.El, p.leaf(r))
			}
			events = append(events, vObj(Member{"a", a}, Member{"b", vNum(randNumber(r))}))
		}
		texts := t.cheapPats(p, events, 8+r.IntN(20))
		q := t.newQ(t.randOpts()...)
		for i, s := range texts {
			t.mustAdd(q, i, s)
		}
		var evs [][]byte
		var want []string
		for _, e := range events {
			evs = append(evs, e.text(t.style(), r))
			want = append(want, fmt.Sprint(keysOf(t, t.mustMatch(q, bytes.Clone(evs[len(evs)-1])))))
		}
		cr := t.newCrew()
		for k := 0; k < 4; k++ {
			cp := q.Copy()
			if k%2 == 1 {
				cp = cp.Copy()
			}
			if k == 3 {
				cp = q // the original is as good
			}
			cr.hire(func(r *rand.Rand) {
				var kept [][]quamina.X
				var keptWant []string
				for m := 0; m < 40; m++ {
					i := r.IntN(len(evs))
					xs, err := cp.MatchesForEvent(evs[i]) // they share the events, too
					if err != nil || fmt.Sprint(keysOf(nil, xs)) != want[i] {
						cr.fail("in parallel, %s yields %v, %v instead of %s; patterns: %s", clip(evs[i]), xs, err, want[i], strings.Join(texts, " "))
						return
					}
					kept, keptWant = append(kept, xs), append(keptWant, want[i])
					if r.IntN(10) == 0 {
						cp = cp.Copy()
					}
				}
				for i := range kept {
					if fmt.Sprint(keysOf(nil, kept[i])) != keptWant[i] {
						cr.fail("a result changed after it was returned: %v instead of %s", kept[i], keptWant[i])
					}
				}
			})
		}
		cr.work()
		t.Eval(160)
		t.Count("copies in parallel", 4)
		for i := range evs {
			if want[i] != "[]" {
				t.Distinct(strings.Join(texts, "\n"), string(evs[i]))
			}
		}
	})
}

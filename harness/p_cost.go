package main

// C20: the cost of matching and of adding patterns. What is monitored is CPU time of the executing thread, heap size and
// the statistics; how they grow when the input does is compared with bounds that are several times what's normal.

import (
	"fmt"
	"math/rand/v2"
	"os"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	quamina "quamina.net/go/quamina/v2"
)

func init() {
	register(&Check{
		ID:       "C20",
		Rule:     "distinct (scenario, size) pairs for which CPU time, heap or number of states was measured and compared with that of a smaller size",
		Required: []string{"growth of matching", "growth of adding", "adversarial", "steady heap", "states", "refused patterns"},
		Procs:    4,
		Run:      runCost,
	})
}

// threadCPU is the CPU time of the calling thread, in nanoseconds' resolution
func threadCPU() time.Duration {
	var ts syscall.Timespec
	const clockThreadCPU = 3
	if _, _, errno := syscall.RawSyscall(syscall.SYS_CLOCK_GETTIME, clockThreadCPU, uintptr(unsafe.Pointer(&ts)), 0); errno != 0 {
		Harness("clock_gettime: %v", errno)
	}
	return time.Duration(ts.Nano())
}

// cpu measures f, which is repeated if it's quick: the least of several measurements
func cpu(runs int, f func()) time.Duration {
	best := time.Duration(1 << 62)
	reps := 1
	for i := 0; i < runs; i++ {
		b := threadCPU()
		for k := 0; k < reps; k++ {
			f()
		}
		d := threadCPU() - b
		best = min(best, d/time.Duration(reps))
		switch {
		case d > 2*time.Second:
			return best
		case d < 5*time.Millisecond && reps < 1000:
			reps = min(1000, reps*int(10*time.Millisecond/max(d, 10*time.Microsecond)))
			i = 0
		}
	}
	return best
}

// grown measures what a small and a large size cost, and how they compare. When the limit is exceeded, but not by a lot, it does
// so again: other processes that use the caches and the memory make some difference, for the larger size more so.
func grown(limit float64, least time.Duration, small, large func() time.Duration) (s, l time.Duration, ratio float64) {
	for i := 0; i < 5; i++ {
		s1 := small()
		l1 := large()
		r1 := float64(l1) / float64(max(s1, least))
		if i == 0 || r1 < ratio {
			s, l, ratio = s1, l1, r1
		}
		if ratio <= limit || ratio > 10*limit || l1 > 20*time.Second {
			break
		}
		time.Sleep(time.Duration(i+1) * 200 * time.Millisecond)
	}
	return s, l, ratio
}

// A growth is how the cost of something depends on n
type growth struct {
	name string
	kind string
	n    int // the smaller size
	k    int // the larger one is k times as large
	// the larger one may cost no more than this factor times the cost of the smaller one, which counts as at least 50 µs
	limit float64

	f func(t *T, n int) func()
}

func (t *T) build(texts []string, speed bool) *quamina.Quamina {
	q := t.newQ()
	setSpeed(q, speed)
	for i, s := range texts {
		t.mustAdd(q, i, s)
	}
	return q
}

func (t *T) matching(q *quamina.Quamina, reps int, evs ...string) func() {
	return func() {
		for k := 0; k < reps; k++ {
			for _, e := range evs {
				_ = t.mustMatch(q, []byte(e))
			}
		}
	}
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func texts(n int, f func(i int) string) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = f(i)
	}
	return out
}

var growths = []growth{
	// matching doesn't depend on the number of patterns
	{"match, n string patterns on a field", "match", 500, 20, 10, func(t *T, n int) func() {
		q := t.build(texts(n, func(i int) string { return fmt.Sprintf(`{"a":["value-%d"]}`, i*7919) }), false)
		return t.matching(q, 4000, `{"a":"value-7919","b":[1,2,3]}`, `{"a":"value-12","c":"x"}`)
	}},
	{"match, n numeric patterns on a field", "match", 300, 20, 10, func(t *T, n int) func() {
		q := t.build(texts(n, func(i int) string { return fmt.Sprintf(`{"a":[%d.25]}`, i*31) }), false)
		return t.matching(q, 4000, `{"a":31.25,"b":[1,2,3]}`, `{"a":12}`)
	}},
	{"match, n prefix patterns on a field", "match", 300, 20, 10, func(t *T, n int) func() {
		q := t.build(texts(n, func(i int) string { return fmt.Sprintf(`{"a":[{"prefix":"p%d"}]}`, i*7919) }), false)
		return t.matching(q, 4000, `{"a":"p79","b":1}`, `{"a":"q"}`)
	}},
	{"match, n patterns on n other fields", "match", 100, 15, 10, func(t *T, n int) func() {
		q := t.build(texts(n, func(i int) string { return fmt.Sprintf(`{"f%d":["x"],"g":{"h%d":[1]}}`, i, i) }), false)
		return t.matching(q, 4000, `{"f1":"x","g":{"h1":1,"z":2},"zz":3}`)
	}},
	{"match, n equals-ignore-case patterns on a field", "match", 100, 20, 10, func(t *T, n int) func() {
		q := t.build(texts(n, func(i int) string { return fmt.Sprintf(`{"a":[{"equals-ignore-case":"Val-%d"}]}`, i*7919) }), false)
		return t.matching(q, 4000, `{"a":"vAL-7919","b":1}`, `{"a":"q"}`)
	}},
	{"match, n patterns of two fields", "match", 200, 20, 10, func(t *T, n int) func() {
		q := t.build(texts(n, func(i int) string { return fmt.Sprintf(`{"a":["v%d"],"b":["w%d"]}`, i, i) }), false)
		return t.matching(q, 4000, `{"a":"v17","b":"w17"}`, `{"a":"v17","b":"w18"}`)
	}},
	// nor, but for the reading, on what the event contains besides the fields of interest
	{"match, n members nobody looks at", "match", 300, 40, 160, func(t *T, n int) func() {
		q := t.build([]string{`{"zz":["x"]}`, `{"q":{"y":[1]}}`}, false)
		return t.matching(q, 40, "{"+rep(`"other":{"y":[1,"x"]},`, n)+`"zz":"x","q":{"y":1}}`)
	}},
	{"match, array of n elements", "match", 300, 40, 160, func(t *T, n int) func() {
		q := t.build([]string{`{"a":["x"]}`, `{"a":[{"wildcard":"y*z"}]}`}, false)
		return t.matching(q, 20, `{"a":[`+rep(`"abc",`, n)+`"x"]}`)
	}},
	// a pattern of several fields with as many values each: not all combinations are tried
	{"match, four arrays of n elements", "match", 10, 6, 150, func(t *T, n int) func() {
		q := t.build([]string{`{"a":["x"],"b":["x"],"c":[{"prefix":"x"}],"d":["x"]}`, `{"a":["x"],"b":["x"],"c":["x"],"d":["y"]}`}, false)
		a := `:[` + rep(`"x",`, n) + `"x"]`
		return t.matching(q, 2, `{"a"`+a+`,"b"`+a+`,"c"`+a+`,"d"`+a+`}`)
	}},
	{"match, five arrays of n elements, exists", "match", 5, 6, 150, func(t *T, n int) func() {
		q := t.build([]string{`{"a":[{"exists":true}],"b":[{"exists":true}],"c":[{"exists":true}],"d":[{"exists":true}],"e":[{"exists":true}],"f":["x"]}`}, false)
		a := `:[` + rep(`"x",`, n) + `"x"]`
		return t.matching(q, 2, `{"a"`+a+`,"b"`+a+`,"c"`+a+`,"d"`+a+`,"e"`+a+`}`)
	}},
	{"match, n objects in each of three arrays", "match", 6, 6, 150, func(t *T, n int) func() {
		q := t.build([]string{`{"a":{"p":["x"],"q":[{"wildcard":"*x"}]},"b":{"p":["x"],"q":["x"]},"c":{"p":["x"],"q":["x"],"r":[{"exists":true}]}}`, `{"a":{"p":["x"],"q":["x"]},"c":{"q":["x"],"r":[1]}}`}, false)
		a := `:[` + rep(`{"q":"x","p":"x"},`, n) + `{"p":"x","q":"x"}]`
		return t.matching(q, 2, `{"a"`+a+`,"b"`+a+`,"c"`+a+`}`)
	}},
	{"match, n fields of a pattern, arrays", "match", 4, 4, 150, func(t *T, n int) func() {
		q := t.build([]string{"{" + strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"f%d":["x"]`, i) }), ",") + "}"}, false)
		ev := "{" + strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"f%d":["x","x","y","x"]`, i) }), ",") + "}"
		return t.matching(q, 10, ev)
	}},
	{"match, n fields", "match", 100, 60, 700, func(t *T, n int) func() {
		q := t.build(texts(n, func(i int) string { return fmt.Sprintf(`{"f%d":["x"]}`, i) }), false)
		ev := "{" + strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"f%d":"y"`, i) }), ",") + "}"
		return t.matching(q, 50, ev)
	}},
	{"match, n levels", "match", 40, 50, 200, func(t *T, n int) func() {
		q := t.build([]string{rep(`{"a":`, n) + `[1]` + rep("}", n)}, false)
		return t.matching(q, 60, rep(`{"a":`, n)+`1`+rep("}", n))
	}},
	{"match, string of n characters", "match", 1000, 20, 80, func(t *T, n int) func() {
		q := t.build([]string{`{"a":["x"]}`, `{"a":[{"wildcard":"*a*b*c"}]}`, `{"a":[{"regexp":"(a|b)*c"}]}`, `{"a":[{"equals-ignore-case":"` + rep("ab", 200) + `"}]}`}, false)
		return t.matching(q, 10, `{"a":"`+rep("ab", n/2)+`"}`)
	}},
	// (this automaton exceeds the caches)
	{"match, long values of n characters", "match", 1000, 10, 120, func(t *T, n int) func() {
		q := t.build([]string{`{"a":[{"wildcard":"*a*b*c"}]}`, `{"a":[{"equals-ignore-case":"` + rep("ab", n/2) + `"}]}`, `{"a":["` + rep("ba", n/2) + `"]}`}, false)
		return t.matching(q, 10, `{"a":"`+rep("ab", n/2)+`"}`, `{"a":"`+rep("ba", n/2)+`"}`)
	}},
	{"match, n patterns that match", "match", 100, 40, 240, func(t *T, n int) func() {
		q := t.build(texts(n, func(i int) string {
			return []string{`{"a":["x"]}`, `{"a":[{"prefix":"x"}]}`, `{"a":[{"exists":true}]}`, `{"b":[{"exists":false}]}`}[i%4]
		}), false)
		return t.matching(q, 40, `{"a":"x"}`)
	}},
	{"match, string of n escapes", "match", 1000, 40, 160, func(t *T, n int) func() {
		q := t.build([]string{`{"a":["x"]}`}, false)
		return t.matching(q, 20, `{"a":"`+rep(`\u00e9\n`, n)+`"}`)
	}},
	// adversarial values: the number of ways in which they match is exponential
	{"match, regexp (((a*)*)*)*b", "adversarial", 200, 10, 60, func(t *T, n int) func() {
		q := t.build([]string{`{"a":[{"regexp":"(((a*)*)*)*b"}]}`, `{"a":[{"regexp":"(a|a|a)*(a|a)*c"}]}`}, false)
		return t.matching(q, 10, `{"a":"`+rep("a", n)+`"}`)
	}},
	{"match, regexp (a?){n}a{n}", "adversarial", 5, 4, 250, func(t *T, n int) func() {
		q := t.build([]string{fmt.Sprintf(`{"a":[{"regexp":"(a?){%d}a{%d}"}]}`, n, n)}, false)
		return t.matching(q, 10, `{"a":"`+rep("a", n)+`"}`, `{"a":"`+rep("a", n-1)+`"}`)
	}},
	{"match, wildcard with n stars", "adversarial", 10, 10, 150, func(t *T, n int) func() {
		q := t.build([]string{`{"a":[{"wildcard":"` + rep("*a", n) + `*b"}]}`}, false)
		return t.matching(q, 10, `{"a":"`+rep("a", 2*n)+`"}`)
	}},
	{"match, n wildcards on a field", "adversarial", 5, 6, 60, func(t *T, n int) func() {
		q := t.build(texts(n, func(i int) string { return fmt.Sprintf(`{"a":[{"wildcard":"*%c*%c*"}]}`, 'a'+i%26, 'a'+i*7%26) }), false)
		return t.matching(q, 20, `{"a":"`+rep("abcdefghijklmnopqrstuvwxyz", 4)+`"}`)
	}},
	{"match, n shellstyles on a field", "adversarial", 20, 5, 40, func(t *T, n int) func() {
		q := t.build(texts(n, func(i int) string { return fmt.Sprintf(`{"a":[{"shellstyle":"*v%d*"}]}`, i*7919) }), false)
		return t.matching(q, 20, `{"a":"`+rep("abcv79", 20)+`"}`)
	}},
	{"match, n regexps on a field", "adversarial", 5, 6, 60, func(t *T, n int) func() {
		q := t.build(texts(n, func(i int) string {
			return fmt.Sprintf(`{"a":[{"regexp":"(a|b|c)*%c.(d|e)+%c*"}]}`, 'a'+i%26, 'a'+i*7%26)
		}), false)
		return t.matching(q, 20, `{"a":"`+rep("abcde", 20)+`"}`)
	}},
	// adding
	{"add, n strings to a field", "add", 500, 10, 60, func(t *T, n int) func() {
		ts := texts(n, func(i int) string { return fmt.Sprintf(`{"a":["value-%d"]}`, i*7919) })
		return func() { t.build(ts, false) }
	}},
	{"add, n values in a pattern", "add", 500, 10, 60, func(t *T, n int) func() {
		s := `{"a":[` + strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"value-%d"`, i*7919) }), ",") + `]}`
		return func() { t.build([]string{s}, false) }
	}},
	{"add, n numbers to a field", "add", 200, 15, 110, func(t *T, n int) func() {
		ts := texts(n, func(i int) string { return fmt.Sprintf(`{"a":[%d.25]}`, i*31) })
		return func() { t.build(ts, false) }
	}},
	{"add, n equals-ignore-case to a field", "add", 50, 10, 60, func(t *T, n int) func() {
		ts := texts(n, func(i int) string { return fmt.Sprintf(`{"a":[{"equals-ignore-case":"Val-%d"}]}`, i*7919) })
		return func() { t.build(ts, false) }
	}},
	{"add, values with n characters in common", "add", 6, 3, 100, func(t *T, n int) func() {
		ts := commonBeginnings(n)
		return func() { t.build(ts, false) }
	}},
	{"add for speed, values with n characters in common", "add", 6, 3, 100, func(t *T, n int) func() {
		ts := append(commonBeginnings(n), `{"f":[{"wildcard":"`+rep("ab", n/2)+`*c"}]}`, `{"f":[{"regexp":"(`+rep("(a|b)", n)+`)*c"}]}`)
		return func() { t.build(ts, true) }
	}},
	{"match, values with n characters in common", "match", 6, 3, 60, func(t *T, n int) func() {
		q := t.build(commonBeginnings(n), false)
		v := rep("ab", n/2)
		return t.matching(q, 500, `{"a":"`+v+`1","b":"`+v+`2","c":"`+v+`1","d":"`+v+`2","e":"`+v+`1"}`)
	}},
	{"add, n anything-but in one list", "add", 50, 10, 60, func(t *T, n int) func() {
		s := `{"a":[{"anything-but":[` + strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"value-%d"`, i*7919) }), ",") + `]}]}`
		return func() { t.build([]string{s}, false) }
	}},
	{"add, a string of n characters", "add", 1000, 10, 60, func(t *T, n int) func() {
		ts := []string{`{"a":["` + rep("ab", n/2) + `"]}`, `{"a":["` + rep("ab", n/2) + `c"]}`, `{"a":[{"prefix":"` + rep("ab", n/2) + `"}]}`}
		return func() { t.build(ts, false) }
	}},
	{"add, n wildcards to a field", "add", 5, 6, 120, func(t *T, n int) func() {
		ts := texts(n, func(i int) string { return fmt.Sprintf(`{"a":[{"wildcard":"*%c*%c*"}]}`, 'a'+i%26, 'a'+i*7%26) })
		return func() { t.build(ts, false) }
	}},
	{"add, n shellstyles to a field", "add", 20, 5, 110, func(t *T, n int) func() {
		ts := texts(n, func(i int) string { return fmt.Sprintf(`{"a":[{"shellstyle":"*v%d*"}]}`, i*7919) })
		return func() { t.build(ts, false) }
	}},
	{"add, n regexps to a field", "add", 5, 6, 120, func(t *T, n int) func() {
		ts := texts(n, func(i int) string {
			return fmt.Sprintf(`{"a":[{"regexp":"(a|b|c)*%c.(d|e)+%c*"}]}`, 'a'+i%26, 'a'+i*7%26)
		})
		return func() { t.build(ts, false) }
	}},
	{"add, regexp nested n deep", "add", 5, 4, 60, func(t *T, n int) func() {
		ts := []string{`{"a":[{"regexp":"` + rep("(a|", n) + "b" + rep(")*", n) + `"}]}`}
		return func() { t.build(ts, false) }
	}},
	{"add, regexp ((a|b)*c){n}", "add", 10, 4, 60, func(t *T, n int) func() {
		ts := []string{fmt.Sprintf(`{"a":[{"regexp":"((a|b)*c){%d}"}]}`, n), fmt.Sprintf(`{"b":[{"regexp":"(x?y?){1,%d}"}]}`, n)}
		return func() { t.build(ts, false) }
	}},
	// the deterministic automata, which weren't asked for, would have 2^n states, whatever has been there before
	{"add, a regexp that looks n characters back", "add", 4, 4, 60, func(t *T, n int) func() {
		re := `{"a":[{"regexp":"(a|b)*a(a|b){` + strconv.Itoa(n) + `}"}]}`
		return func() { t.build([]string{re}, false) }
	}},
	{"add, a string, and a regexp that looks n characters back", "add", 4, 4, 60, func(t *T, n int) func() {
		re := `{"a":[{"regexp":"(a|b)*a(a|b){` + strconv.Itoa(n) + `}"}]}`
		return func() { t.build([]string{`{"a":["ab"]}`, re}, false) }
	}},
	{"add, a prefix, and a regexp that looks n characters back", "add", 4, 4, 60, func(t *T, n int) func() {
		re := `{"a":[{"regexp":"(a|b)*a(a|b){` + strconv.Itoa(n) + `}"}]}`
		return func() { t.build([]string{`{"a":[{"prefix":"c"}]}`, re}, false) }
	}},
	{"add, n patterns of two fields", "add", 200, 10, 60, func(t *T, n int) func() {
		ts := texts(n, func(i int) string { return fmt.Sprintf(`{"a":["v%d"],"b":["w%d"]}`, i, i) })
		return func() { t.build(ts, false) }
	}},
	{"add, n fields in a pattern", "add", 100, 8, 60, func(t *T, n int) func() {
		s := "{" + strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"f%d":["x"]`, i) }), ",") + "}"
		return func() { t.build([]string{s}, false) }
	}},
	{"add, n fields of several values in a pattern", "add", 4, 5, 150, func(t *T, n int) func() {
		return func() { t.build(manyValued(n), false) }
	}},
	{"match, n fields of several values in a pattern", "match", 4, 5, 150, func(t *T, n int) func() {
		q := t.build(manyValued(n), false)
		return t.matching(q, 200, manyValuedEvent(n))
	}},
	{"match, n fields of which several values match", "match", 4, 6, 150, func(t *T, n int) func() {
		fields := texts(n, func(i int) string {
			return []string{`"f%02d":["ab",{"prefix":"a"},{"equals-ignore-case":"AB"}]`, `"f%02d":[{"shellstyle":"*b"},{"prefix":"ab"},"ab"]`, `"g%02d":[{"exists":false}]`, `"f%02d":[{"exists":true}]`}[(i+i/4)%4]
		})
		for i := range fields {
			fields[i] = fmt.Sprintf(fields[i], i)
		}
		q := t.build([]string{"{" + strings.Join(fields, ",") + "}"}, false)
		return t.matching(q, 200, "{"+strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"f%02d":"ab"`, i) }), ",")+"}")
	}},
	{"match, lists and exists in turn", "match", 4, 4, 150, func(t *T, n int) func() {
		fields := texts(n, func(i int) string {
			return fmt.Sprintf(`"f%02d":["ab",{"prefix":"a"},{"wildcard":"*b"}],"f%02dx":[{"exists":false}]`, i, i)
		})
		q := t.build([]string{"{" + strings.Join(fields, ",") + "}", strings.ReplaceAll("{"+strings.Join(fields, ",")+"}", `x":[{"exists":false}]`, `w":[{"exists":true}]`)}, false)
		return t.matching(q, 50, "{"+strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"f%02d":"ab"`, i) }), ",")+"}",
			"{"+strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"f%02d":"ab","f%02dw":1`, i, i) }), ",")+"}")
	}},
	{"add for speed, wildcards of n characters", "add", 20, 5, 110, func(t *T, n int) func() {
		ts := []string{`{"a":[{"wildcard":"` + rep("ab", n/2) + `*c"}]}`, `{"a":[{"wildcard":"` + rep("ab", n/2) + `d*e"}]}`}
		return func() { t.build(ts, true) }
	}},
}

// commonBeginnings has pairs of values that are matched by the same strings but for the last character: there are exponentially
// many ways through both automata
func commonBeginnings(n int) []string {
	var out []string
	add := func(format, unit string) {
		for i := 1; i <= 2; i++ {
			out = append(out, fmt.Sprintf(format, rep(unit, n/(strings.Count(unit, "a")+strings.Count(unit, "b"))), i))
		}
	}
	add(`{"a":[{"equals-ignore-case":"%s%d"}]}`, "ab")
	add(`{"b":[{"regexp":"%s%d"}]}`, "(a|A)")
	add(`{"b":[{"regexp":"%s%d"}]}`, "[ab]")
	add(`{"c":[{"regexp":"%s%d"}]}`, "a?")
	add(`{"c":[{"equals-ignore-case":"%s%d"}]}`, "ab")
	add(`{"d":[{"wildcard":"%s*%d"}]}`, "ab")
	add(`{"d":[{"equals-ignore-case":"%s%d"}]}`, "ab")
	add(`{"d":[{"shellstyle":"*%s%d"}]}`, "ab")
	add(`{"e":[{"regexp":"%s%d"}]}`, "[ac-e]?")
	add(`{"e":[{"anything-but":["%s%d","c"]}]}`, "ab")
	add(`{"e":[{"prefix":"%s%d"}]}`, "ab")
	add(`{"e":[{"regexp":"(%s)*%d"}]}`, "(a|b)")
	return out
}

// manyValued has patterns of n fields, each with several values: all combinations of them match
func manyValued(n int) []string {
	lists := []string{`["a","b"]`, `[1,2,3]`, `["a",{"prefix":"c"},{"prefix":"ab"}]`, `[true,null,"a"]`, `[{"equals-ignore-case":"a"},{"equals-ignore-case":"B"}]`}
	single := "{" + strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"f%02d":["a"]`, i) }), ",") + "}"
	several := "{" + strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"f%02d":%s`, i, lists[0]) }), ",") + "}"
	mixed := "{" + strings.Join(texts(n, func(i int) string {
		if i%4 == 3 {
			return fmt.Sprintf(`"f%02d":[{"exists":true}]`, i)
		}
		return fmt.Sprintf(`"f%02d":%s`, i, lists[i%len(lists)])
	}), ",") + "}"
	return []string{single, several, mixed, several}
}

func manyValuedEvent(n int) string {
	return "{" + strings.Join(texts(n, func(i int) string { return fmt.Sprintf(`"f%02d":["a",1,"b","c"]`, i) }), ",") + "}"
}

// A sizing is how the number of states depends on n
type sizing struct {
	name  string
	n     int
	k     int
	limit float64 // states for k*n / states for n
	each  float64 // states per character of the patterns' text, for the larger size; 0: not checked
	speed bool
	f     func(r *rand.Rand, n int) []string
}

func randText(r *rand.Rand, alphabet string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = alphabet[r.IntN(len(alphabet))]
	}
	return string(b)
}

var sizings = []sizing{
	{"strings", 200, 10, 15, 1, false, func(r *rand.Rand, n int) []string {
		return texts(n, func(i int) string { return fmt.Sprintf(`{"a":["%s"]}`, randText(r, "abcdef", 8)) })
	}},
	{"strings, in one pattern", 200, 10, 15, 1, false, func(r *rand.Rand, n int) []string {
		return []string{`{"a":[` + strings.Join(texts(n, func(i int) string { return `"` + randText(r, "abcdef", 8) + `"` }), ",") + `]}`}
	}},
	{"the same string again and again", 10, 20, 1.01, 0, false, func(r *rand.Rand, n int) []string {
		return texts(n, func(i int) string { return `{"a":["abcdef"],"b":["z"]}` })
	}},
	{"the same few values in different patterns", 40, 20, 1.01, 0, false, func(r *rand.Rand, n int) []string {
		return texts(n, func(i int) string {
			return []string{`{"a":["abc"]}`, `{"a":["abd"]}`, `{"a":[1]}`, `{"a":[{"prefix":"ab"}]}`, `{"a":[{"equals-ignore-case":"abc"}]}`, `{"a":[{"anything-but":["abc","q"]}]}`}[i%6]
		})
	}},
	{"prefixes", 100, 10, 15, 0.5, false, func(r *rand.Rand, n int) []string {
		return texts(n, func(i int) string { return fmt.Sprintf(`{"a":[{"prefix":"%s"}]}`, randText(r, "abcdef", 8)) })
	}},
	{"equals-ignore-case", 50, 10, 15, 0.5, false, func(r *rand.Rand, n int) []string {
		return texts(n, func(i int) string {
			return fmt.Sprintf(`{"a":[{"equals-ignore-case":"%s"}]}`, randText(r, "abcDEF", 8))
		})
	}},
	{"numbers", 50, 10, 20, 2, false, func(r *rand.Rand, n int) []string {
		return texts(n, func(i int) string { return fmt.Sprintf(`{"a":[%d]}`, r.IntN(1<<30)) })
	}},
	{"anything-but in one list", 50, 10, 15, 2, false, func(r *rand.Rand, n int) []string {
		return []string{`{"a":[{"anything-but":[` + strings.Join(texts(n, func(i int) string { return `"` + randText(r, "abcdef", 8) + `"` }), ",") + `]}]}`}
	}},
	{"patterns of two fields", 50, 10, 15, 0.6, false, func(r *rand.Rand, n int) []string {
		return texts(n, func(i int) string {
			return fmt.Sprintf(`{"a":["%s"],"b":["%s"]}`, randText(r, "abcdef", 8), randText(r, "abcdef", 8))
		})
	}},
	{"values with many characters in common", 8, 4, 12, 1.5, false, func(r *rand.Rand, n int) []string {
		return commonBeginnings(n)
	}},
	{"a pattern of fields of several values", 3, 5, 12, 1, false, func(r *rand.Rand, n int) []string {
		return manyValued(n)
	}},
	{"shellstyles", 10, 10, 40, 0.8, false, func(r *rand.Rand, n int) []string {
		return texts(n, func(i int) string {
			return fmt.Sprintf(`{"a":[{"shellstyle":"%s*%s"}]}`, randText(r, "abcdef", 6), randText(r, "abcdef", 4))
		})
	}},
	{"wildcards", 10, 10, 40, 0.8, false, func(r *rand.Rand, n int) []string {
		return texts(n, func(i int) string {
			return fmt.Sprintf(`{"a":[{"wildcard":"*%s*%s*"}]}`, randText(r, "abcdef", 3), randText(r, "abcdef", 3))
		})
	}},
	{"regexps", 5, 8, 40, 0.8, false, func(r *rand.Rand, n int) []string {
		return texts(n, func(i int) string {
			return fmt.Sprintf(`{"a":[{"regexp":"%s[a-c]+(%s|%s)*x?"}]}`, randText(r, "abcdef", 3), randText(r, "abcdef", 3), randText(r, "abcdef", 2))
		})
	}},
	{"wildcards of disjoint beginnings, for speed", 4, 5, 20, 1.5, true, func(r *rand.Rand, n int) []string {
		return texts(n, func(i int) string {
			return fmt.Sprintf(`{"a":[{"wildcard":"%c%s*%s"}]}`, 'a'+i, randText(r, "xyz", 4), randText(r, "xyz", 3))
		})
	}},
	{"regexp with a quantified class", 3, 10, 20, 5, false, func(r *rand.Rand, n int) []string {
		return []string{fmt.Sprintf(`{"a":[{"regexp":"([a-y]z?){%d}"}]}`, n)}
	}},
}

func runCost(c *Ctx) {
	runtime.LockOSThread()
	var show *os.File
	if p := os.Getenv("QV_COST"); p != "" {
		show, _ = os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o600)
	}
	c.Run("growth", len(growths), func(t *T) {
		g := growths[t.Index]
		small, large, ratio := grown(g.limit, 50*time.Microsecond, func() time.Duration {
			return cpu(3, g.f(t, g.n))
		}, func() time.Duration {
			return cpu(3, g.f(t, g.n*g.k))
		})
		if show != nil {
			_, _ = fmt.Fprintf(show, "%-50s n=%d: %v  n=%d: %v  ratio %.1f (limit %.0f)\n", g.name, g.n, small, g.n*g.k, large, ratio, g.limit)
		}
		t.Eval(1)
		switch g.kind {
		case "match":
			t.Count("growth of matching", 1)
		case "add":
			t.Count("growth of adding", 1)
		default:
			t.Count("adversarial", 1)
		}
		t.Distinct(g.name)
		t.Sample("%s: n=%d %v, n=%d %v", g.name, g.n, small, g.n*g.k, large)
		if ratio > g.limit {
			t.Fail(fmt.Sprintf("%s: with %d times the size the cost is more than %.0f times as high", g.name, g.k, g.limit), map[string]any{
				"n": g.n, "CPU time": small.String(), "larger n": g.n * g.k, "CPU time for the larger n": large.String()})
		}
	})
	c.Run("states", len(sizings)*c.N(2, 10), func(t *T) {
		g := sizings[t.Index%len(sizings)]
		count := func(n int) (states, each float64) {
			ts := g.f(t.R, n)
			st := t.build(ts, g.speed).GetMatcherStats()["states"]
			return st, st / float64(len(strings.Join(ts, "")))
		}
		small, _ := count(g.n)
		large, each := count(g.n * g.k)
		if show != nil {
			_, _ = fmt.Fprintf(show, "%-50s n=%d: %.0f states n=%d: %.0f ratio %.2f (limit %.1f) each %.2f (limit %.1f)\n", g.name, g.n, small, g.n*g.k, large, large/max(small, 1), g.limit, each, g.each)
		}
		t.Eval(1)
		t.Count("states", int(large))
		t.Distinct("states", g.name, fmt.Sprint(t.Index))
		if large > g.limit*max(small, 1) || (g.each > 0 && each > g.each) {
			t.Fail(fmt.Sprintf("%s: the automata are larger than they should be", g.name), map[string]any{
				"n": g.n, "states": small, "larger n": g.n * g.k, "states for the larger n": large, "per character": each})
		}
	})
	// the automaton of several patterns is about as large as those of each of them together
	c.Run("union", c.N(120, 1500), func(t *T) {
		p := t.profile()
		evs := t.events(p, 3)
		var text []string
		// anything-but along with nondeterministic ones is left out: there's a state for each byte value then
		kinds := []MKind{MString, MNumber, MPrefix, MIgnoreCase, MAnythingBut}
		if t.R.IntN(3) > 0 {
			kinds = []MKind{MString, MNumber, MPrefix, MIgnoreCase, MShell, MWildcard, MRegexp}
		}
		for n := 2 + t.R.IntN(40); len(text) < n; {
			e := pick(t.R, evs)
			ls := leaves(e)
			if len(ls) == 0 {
				ls = leaves(obj1("a", vStr("abc")))
			}
			l := pick(t.R, ls)
			k := pick(t.R, kinds)
			m := p.matcherFor(t.R, k, l.V, chance(t.R, 50))
			text = append(text, pat1("a", m).String())
		}
		sum := 0.0
		for _, s := range text {
			sum += t.build([]string{s}, false).GetMatcherStats()["states"]
		}
		st := t.build(text, false).GetMatcherStats()["states"]
		ratio := st / (sum + 200)
		if show != nil {
			_, _ = fmt.Fprintf(show, "union: %d patterns, %.0f states, %.0f of each: %.2f\n", len(text), st, sum, ratio)
		}
		t.Eval(1)
		t.Count("unions", 1)
		t.Distinct(append(text, "union")...)
		if ratio > 8 {
			t.Fail("the automaton of several patterns is much larger than those of each of them together", map[string]any{
				"patterns": text, "states": st, "sum of the states of each": sum})
		}
		// matching a string takes time in proportion to its length
		q := t.build(text, false)
		var unit string
		for unit == "" {
			if ls := leaves(pick(t.R, evs)); len(ls) > 0 && ls[0].V.K == KStr && t.R.IntN(3) > 0 {
				unit = ls[0].V.S
			} else {
				unit = randText(t.R, "abcdefxyz01", 1+t.R.IntN(6))
			}
		}
		ev := func(n int) string { return `{"a":` + quote(rep(unit, 1+n/len(unit))) + `}` }
		small, large, ratio := grown(60, 25*time.Microsecond, func() time.Duration {
			return cpu(3, t.matching(q, 1, ev(200)))
		}, func() time.Duration {
			return cpu(3, t.matching(q, 1, ev(2000)))
		})
		if show != nil {
			_, _ = fmt.Fprintf(show, "pump: %v %v %.1f\n", small, large, ratio)
		}
		t.Count("pumped", 1)
		if ratio > 60 {
			t.Fail("matching a string of ten times the length takes much more than ten times as long", map[string]any{
				"patterns": text, "unit": unit, "CPU time for 200 bytes": small.String(), "CPU time for 2000 bytes": large.String()})
		}
	})
	// nor do refused patterns
	c.Run("refused", c.N(4, 16), func(t *T) {
		p := t.profile()
		evs := t.events(p, 20)
		q := t.newQ(quamina.WithPatternDeletion(t.Index%2 == 1))
		setSpeed(q, t.Index%4 > 1)
		t.mustAdd(q, "good", `{"a":["x"]}`)
		refuse := func(n int) {
			for i := 0; i < n; i++ {
				text, _ := invalidPattern(t.R, p, pick(t.R, evs))
				if !strings.HasPrefix(strings.TrimSpace(text), "[") {
					text = fmt.Sprintf(`{"f%d":{"%s":%s}}`, t.R.Uint64(), randText(t.R, "pqr", 10), text)
				}
				if err := q.AddPattern(t.R.Uint64(), text); err == nil {
					t.mustReject(q, i, text, "")
				}
			}
		}
		heap := func() int64 {
			var m runtime.MemStats
			runtime.GC()
			runtime.GC()
			runtime.ReadMemStats(&m)
			return int64(m.HeapAlloc)
		}
		n := c.N(6000, 40_000)
		refuse(n / 4)
		before := heap()
		refuse(n)
		after := heap()
		t.Eval(n)
		t.Count("refused patterns", n)
		t.Distinct("refused", fmt.Sprint(t.Index), fmt.Sprint(before))
		if after-before > int64(n)*16 {
			t.Fail("refused patterns leave something behind that adds up", map[string]any{"heap before": before, "heap after": after, "patterns": n})
		}
		if xs := t.mustMatch(q, []byte(`{"a":"x"}`)); len(xs) != 1 {
			t.Fail(fmt.Sprintf("after refused patterns the result is %v", xs), nil)
		}
		runtime.KeepAlive(q)
	})
	// matching leaves nothing behind that adds up
	c.Run("steady", c.N(4, 16), func(t *T) {
		p := t.profile()
		evs := t.events(p, 20)
		pats := genPats(t.R, p, evs, 30)
		speed := t.Index%4 == 1 && speedSafe(pats)
		var opts []quamina.Option
		if t.Index%4 == 2 {
			opts = append(opts, quamina.WithPatternDeletion(true))
		}
		q := t.newQ(opts...)
		setSpeed(q, speed)
		for i, s := range textsOf(pats) {
			t.mustAdd(q, i, s)
		}
		t.mustAdd(q, "big", `{"a":[{"wildcard":"*x*y"},{"regexp":"(a|b)*[c-f]+"},{"equals-ignore-case":"abcd"}],"b":[{"exists":true}],"c":[{"anything-but":["zz"]}]}`)
		t.mustAdd(q, "numbers", `{"n":[1.5,{"prefix":"x"},{"regexp":"[a-z]+"}]}`)
		t.mustAdd(q, "more numbers", `{"b":[7,1e3,"x"]}`)
		inst := []*quamina.Quamina{q, q.Copy()}
		fresh := func(n int) {
			for i := 0; i < n; i++ {
				var text []byte
				switch i % 4 {
				case 0: // nothing like it has been seen before
					text = fmt.Appendf(nil, `{"a":["%s","x%dy"],"b":%d,"f%d":{"g":"%s"},"n":[%d.5,%de%d,"%s\\u%04x"]}`, randText(t.R, "abcdefxy", 1+t.R.IntN(40)), t.R.Uint64(), t.R.IntN(1000), t.R.Uint64(), randText(t.R, "pqr", 20),
						t.R.IntN(1<<50), t.R.IntN(1<<40), t.R.IntN(20), randText(t.R, "pqr", 10), 0xa0+t.R.IntN(0xd000))
				case 1:
					text = p.mutateEvent(t.R, pick(t.R, evs)).text(t.style(), t.R)
				case 2:
					text = p.event(t.R).text(t.style(), t.R)
				default:
					text = []byte(`{"a":"` + randText(t.R, "abcdef", 3) + `"`) // no end
				}
				if i%4 == 3 {
					if _, err := inst[i%2].MatchesForEvent(text); err == nil {
						t.Fail("accepted an event without an end", nil)
					}
					continue
				}
				t.mustMatch(inst[i/4%2], text)
			}
		}
		heap := func() (int64, int) {
			var m runtime.MemStats
			runtime.GC()
			runtime.GC()
			runtime.ReadMemStats(&m)
			return int64(m.HeapAlloc), runtime.NumGoroutine()
		}
		n := c.N(20_000, 100_000)
		fresh(n / 4)
		states := statsText(q.GetMatcherStats())
		before, gor := heap()
		fresh(n)
		after, gor2 := heap()
		if show != nil {
			_, _ = fmt.Fprintf(show, "steady: heap %d -> %d\n", before, after)
		}
		t.Eval(n)
		t.Count("steady heap", n)
		t.Distinct("steady", fmt.Sprint(t.Index), fmt.Sprint(before))
		if s := statsText(q.GetMatcherStats()); s != states {
			t.Fail("matching changed the statistics", map[string]any{"before": states, "after": s})
		}
		if after-before > int64(n)*12 || gor2 > gor {
			t.Fail("matching leaves something behind that adds up", map[string]any{
				"heap before": before, "heap after": after, "events": n, "goroutines before": gor, "goroutines after": gor2})
		}
		runtime.KeepAlive(inst)
	})
}

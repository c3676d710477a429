package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"slices"
	"strconv"
	"strings"
	"time"

	quamina "quamina.net/go/quamina/v2"
)

// Values of hundreds of kilobytes are tried in a process of their own, because exhausting the stack ends it.

type bigKind struct {
	name     string
	patterns func(s string) []string // the values listed in the patterns
	want     []int                   // those that match s+"x"
	speed    bool
	// the shortest length at which the stack is known to overflow, 0 if there isn't any
	overflow int
}

func special(kind string, texts ...string) func(string) []string {
	return func(s string) []string {
		var out []string
		for _, t := range texts {
			out = append(out, fmt.Sprintf(`{"%s":"%s"}`, kind, strings.ReplaceAll(t, "S", s)))
		}
		return out
	}
}

var bigKinds = []bigKind{
	{name: "strings", patterns: func(s string) []string { return []string{`"` + s + `x"`, `"` + s + `y"`} }, want: []int{0}, overflow: 400_000},
	{name: "string", patterns: func(s string) []string { return []string{`"` + s + `x"`} }, want: []int{0}},
	{name: "prefixes", patterns: special("prefix", "S", "Sx", "Sy"), want: []int{0, 1}, overflow: 400_000},
	{name: "shellstyles", patterns: special("shellstyle", "S*", "Sx*", "Sy*"), want: []int{0, 1}, overflow: 400_000},
	{name: "shellstyle", patterns: special("shellstyle", "*S*"), want: []int{0}},
	{name: "wildcards", patterns: special("wildcard", "S*", "Sx*", "Sy*"), want: []int{0, 1}, overflow: 400_000},
	{name: "folded", patterns: special("equals-ignore-case", "SX", "SY"), want: []int{0}, overflow: 400_000},
	{name: "regexps", patterns: special("regexp", "S.", "S[xy]", "S"), want: []int{0, 1}, overflow: 400_000},
	{name: "anything-but", patterns: func(s string) []string {
		return []string{`{"anything-but":["` + s + `"]}`, `{"anything-but":["` + s + `x"]}`}
	}, want: []int{0}, overflow: 400_000},
	{name: "fast", patterns: special("shellstyle", "S*"), want: []int{0}, speed: true, overflow: 200_000},
}

// bigMain is the process: qv big KIND LENGTH
func bigMain(args []string) {
	i, _ := strconv.Atoi(args[0])
	n, _ := strconv.Atoi(args[1])
	k := bigKinds[i]
	b := make([]byte, n)
	for i, r := 0, uint32(1); i < n; i++ {
		r = r*1664525 + 1013904223
		b[i] = 'a' + byte(r>>24)%20
	}
	s := string(b)
	q, err := quamina.New()
	if err != nil {
		Harness("New: %v", err)
	}
	if k.speed {
		_ = q.SetMatcherBuildMode(quamina.BuiltForSpeed)
	}
	res := "ok"
	for x, p := range k.patterns(s) {
		if err = q.AddPattern(x, `{"a":[`+p+`]}`); err != nil {
			res = "refused"
		}
	}
	got := []int{}
	if res == "ok" {
		xs, err := q.MatchesForEvent([]byte(`{"a":"` + s + `x"}`))
		if err != nil {
			res = err.Error()
		}
		for _, x := range xs {
			got = append(got, x.(int))
		}
		slices.Sort(got)
		if fmt.Sprint(got) != fmt.Sprint(k.want) {
			res = fmt.Sprintf("matches %v rather than %v", got, k.want)
		}
	}
	_ = json.NewEncoder(os.Stdout).Encode(res)
}

// big tries one kind with one length
func (t *T) big(i, n int) {
	exe, err := os.Executable()
	if err != nil {
		Harness("executable: %v", err)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 85*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "big", strconv.Itoa(i), strconv.Itoa(n))
	var errs strings.Builder
	cmd.Stderr = &errs
	out, err := cmd.Output()
	k := bigKinds[i]
	t.Eval(1)
	t.Distinct("big", k.name, strconv.Itoa(n))
	t.Count("values in a process of their own", 1)
	var res string
	switch {
	case err == nil && json.Unmarshal(out, &res) == nil:
		// values as long as that may be refused
		if res != "ok" && !(res == "refused" && k.overflow > 0 && n >= k.overflow) {
			t.Fail(fmt.Sprintf("patterns with long values (%s, %d bytes): %s", k.name, n, res), nil)
		}
	case strings.Contains(errs.String(), "goroutine stack exceeds"):
		t.Known(fmt.Sprintf("long-values: the stack overflows, which ends the process, on patterns with %s of %d bytes", k.name, n))
	case ctx.Err() != nil:
		if cpu := cmd.ProcessState.UserTime().Seconds(); cpu > 60 {
			t.Fail(fmt.Sprintf("patterns with long values (%s, %d bytes) take more than %.0f s of CPU time", k.name, n, cpu), nil)
		}
	case !cmd.ProcessState.Exited() || strings.Contains(errs.String(), "out of memory") || strings.Contains(errs.String(), "cannot allocate memory"):
		t.Count("processes that ran out of memory", 1)
	case strings.Contains(errs.String(), "panic:") || strings.Contains(errs.String(), "fatal error: "):
		msg := errs.String()
		t.Fail(fmt.Sprintf("patterns with long values (%s, %d bytes) end the process", k.name, n), map[string]any{"stderr": msg[:min(len(msg), 1500)]})
	default:
		Harness("long values: %v", err)
	}
}

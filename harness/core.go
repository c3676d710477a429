package main

// The monitor framework: property checks are lists of numbered cases, each determined by (seed, property, case
// group, index) alone. Worker processes execute disjoint shards of the cases; the parent process watches them
// (crash, hang, memory, race reports) and merges what their monitors observed.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type Violation struct {
	Property string `json:"property"`
	Group    string `json:"group"`
	Index    int    `json:"index"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Summary  string `json:"summary"`
	Detail   any    `json:"detail,omitempty"`
}

type Result struct {
	Evaluations int64            `json:"evaluations"`
	Counts      map[string]int64 `json:"counts"`
	Samples     []string         `json:"samples"`
	Violations  []Violation      `json:"violations"`
	Known       []string         `json:"known"`
	Cases       int64            `json:"cases"`
	Truncated   bool             `json:"truncated"`
	Done        bool             `json:"done"`
}

type Ctx struct {
	Prop     string
	Tier     string
	Seed     uint64
	Shard    int
	NShards  int
	OnlyGrp  string
	OnlyIdx  int
	Res      *Result
	distinct map[uint64]struct{}
	progress *os.File
	counters []int64
	groups   int
	dir      string
	verif    string
	deadline time.Time
	stop     bool
	slow     *os.File // a log of the time each case took, for tuning
}

// T is one case
type T struct {
	*Ctx
	R     *rand.Rand
	Group string
	Index int
	notes []string
}

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		_, _ = fmt.Fprintf(h, "%v\x00", p)
	}
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

func hashStr(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		_, _ = h.Write([]byte(p))
		_, _ = h.Write([]byte{0xff})
	}
	return h.Sum64()
}

// N picks the number of cases for the tier
func (c *Ctx) N(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

const maxDistinct = 400_000

// openCounters maps the counters from which the worker processes draw the next case of each group
func (c *Ctx) openCounters() {
	f, err := os.OpenFile(filepath.Join(c.dir, "counters"), os.O_CREATE|os.O_RDWR, 0o600)
	if err == nil {
		err = f.Truncate(4096)
	}
	var mem []byte
	if err == nil {
		mem, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	if err != nil {
		Harness("counters: %v", err)
	}
	c.counters = unsafe.Slice((*int64)(unsafe.Pointer(&mem[0])), 512)
}

// Run executes cases of a group until none is left
func (c *Ctx) Run(group string, n int, f func(t *T)) {
	if c.stop || (c.OnlyGrp != "" && c.OnlyGrp != group) {
		return
	}
	slot := c.groups
	c.groups++
	for {
		i := c.OnlyIdx
		if c.OnlyGrp == "" {
			i = int(atomic.AddInt64(&c.counters[slot], 1)) - 1
		}
		if i >= n {
			return
		}
		if c.stop {
			return
		}
		if !c.deadline.IsZero() && time.Now().After(c.deadline) {
			c.Res.Truncated = true
			return
		}
		s := mix(c.Seed, c.Prop, group, i)
		t := &T{Ctx: c, R: rand.New(rand.NewPCG(s, s^0x9e3779b97f4a7c15)), Group: group, Index: i}
		c.setProgress(group, i)
		begin := time.Now()
		func() {
			defer func() {
				if r := recover(); r != nil {
					if r == errStopCase {
						return
					}
					t.record(fmt.Sprintf("panic: %v", r), map[string]any{"stack": string(debug.Stack()), "notes": t.notes})
				}
			}()
			f(t)
		}()
		if c.slow != nil {
			_, _ = fmt.Fprintf(c.slow, "%s:%d %d\n", group, i, time.Since(begin).Microseconds())
		}
		c.Res.Cases++
		if c.OnlyGrp != "" {
			return
		}
	}
}

func (c *Ctx) setProgress(group string, i int) {
	if c.progress != nil {
		b := fmt.Appendf(nil, "%-40s %12d\n", group, i)
		_, _ = c.progress.WriteAt(b, 0)
	}
}

var errStopCase = fmt.Errorf("stop case")

// Note remembers context to be written out should the case fail
func (t *T) Note(format string, a ...any) {
	if len(t.notes) < 4000 {
		t.notes = append(t.notes, fmt.Sprintf(format, a...))
	}
}

func (t *T) record(summary string, detail any) {
	countLock.Lock()
	defer countLock.Unlock()
	t.Res.Violations = append(t.Res.Violations, Violation{
		Property: t.Prop, Group: t.Group, Index: t.Index, Seed: t.Seed, Tier: t.Tier, Summary: summary, Detail: detail,
	})
	if len(t.Res.Violations) >= 2 {
		t.stop = true
	}
}

// Fail reports a violation and ends the case
func (t *T) Fail(summary string, detail map[string]any) {
	if detail == nil {
		detail = map[string]any{}
	}
	if len(t.notes) > 0 {
		detail["notes"] = t.notes
	}
	t.record(summary, detail)
	panic(errStopCase)
}

// Harness stops the whole check because of a defect of the harness itself, which is neither "held" nor "violated"
func Harness(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: "+format+"\n", a...)
	os.Exit(3)
}

var countLock sync.Mutex

func (c *Ctx) Eval(n int) { c.Res.Evaluations += int64(n) }
func (c *Ctx) Count(key string, n int) {
	countLock.Lock()
	c.Res.Counts[key] += int64(n)
	countLock.Unlock()
}
func (c *Ctx) Distinct(parts ...string) {
	if len(c.distinct) < maxDistinct {
		c.distinct[hashStr(parts...)] = struct{}{}
	}
}
func (c *Ctx) Sample(format string, a ...any) {
	if len(c.Res.Samples) < 3 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "…"
		}
		c.Res.Samples = append(c.Res.Samples, s)
	}
}

// Known reports a violation that, if known_findings.txt lists exactly this one, is a known finding
func (t *T) Known(what string) {
	b, _ := os.ReadFile(filepath.Join(t.verif, "known_findings.txt"))
	for _, line := range strings.Split(string(b), "\n") {
		if line == "known: property="+t.Prop+" "+what {
			t.Res.Known = append(t.Res.Known, what)
			return
		}
	}
	t.Fail(what, nil)
}

func (c *Ctx) flush() {
	c.Res.Done = true
	b, err := json.Marshal(c.Res)
	if err != nil {
		Harness("marshal: %v", err)
	}
	if err = os.WriteFile(filepath.Join(c.dir, fmt.Sprintf("res-%d.json", c.Shard)), b, 0o600); err != nil {
		Harness("write: %v", err)
	}
	keys := make([]uint64, 0, len(c.distinct))
	for k := range c.distinct {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	buf := make([]byte, 8*len(keys))
	for i, k := range keys {
		binary.LittleEndian.PutUint64(buf[8*i:], k)
	}
	if err = os.WriteFile(filepath.Join(c.dir, fmt.Sprintf("dist-%d.bin", c.Shard)), buf, 0o600); err != nil {
		Harness("write: %v", err)
	}
}

type Check struct {
	ID    string
	Rule  string // what distinct_nontrivial counts
	Race  bool   // needs the race-detector build
	Procs int    // number of worker processes, default 8
	Run   func(c *Ctx)
	// Required lists counters that must be non-zero for the run to say anything
	Required []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: qv run|worker|list ...")
		os.Exit(2)
	}
	if os.Args[1] == "big" {
		bigMain(os.Args[2:])
		return
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "seed")
	shard := fs.Int("shard", 0, "")
	nshards := fs.Int("nshards", 1, "")
	dir := fs.String("dir", "", "scratch directory")
	verif := fs.String("verif", "/verif", "")
	only := fs.String("only", "", "group:index, to replay a single case")
	soft := fs.Int("soft", 0, "seconds after which no further case is started")
	_ = fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "list":
		ids := []string{}
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, checks[id].Race)
		}
	case "israce":
		if checks[*prop] != nil && checks[*prop].Race {
			fmt.Println("race")
		} else {
			fmt.Println("plain")
		}
	case "worker":
		worker(*prop, *tier, *seed, *shard, *nshards, *dir, *verif, *only, *soft)
	case "run":
		os.Exit(parent(*prop, *tier, *seed, *dir, *verif, *only, *soft))
	default:
		os.Exit(2)
	}
}

func worker(prop, tier string, seed uint64, shard, nshards int, dir, verif, only string, soft int) {
	ck := checks[prop]
	if ck == nil {
		Harness("no check %q", prop)
	}
	c := &Ctx{
		Prop: prop, Tier: tier, Seed: seed, Shard: shard, NShards: nshards, dir: dir, verif: verif,
		Res: &Result{Counts: map[string]int64{}}, distinct: map[uint64]struct{}{},
	}
	if soft > 0 {
		c.deadline = time.Now().Add(time.Duration(soft) * time.Second)
	}
	if only != "" {
		i := strings.LastIndexByte(only, ':')
		c.OnlyGrp = only[:i]
		c.OnlyIdx, _ = strconv.Atoi(only[i+1:])
		c.Shard, c.NShards = 0, 1
	}
	f, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("progress-%d", shard)), os.O_CREATE|os.O_RDWR, 0o600)
	if err != nil {
		Harness("progress: %v", err)
	}
	c.progress = f
	c.openCounters()
	if p := os.Getenv("QV_TIMES"); p != "" {
		c.slow, _ = os.OpenFile(p, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o600)
	}
	if p := os.Getenv("QV_PROFILE"); p != "" {
		pf, _ := os.Create(fmt.Sprintf("%s-%d", p, shard))
		_ = pprof.StartCPUProfile(pf)
	}
	ck.Run(c)
	pprof.StopCPUProfile()
	c.Shard = shard
	c.flush()
}

type procState struct {
	lastProgress string
	cpuAt        float64
	wallAt       time.Time
	lastCPU      float64
	killed       string
}

func cpuAndRSS(pid int) (cpu float64, rss int64) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0
	}
	s := string(b)
	i := strings.LastIndexByte(s, ')')
	f := strings.Fields(s[i+1:])
	if len(f) < 22 {
		return 0, 0
	}
	ut, _ := strconv.ParseFloat(f[11], 64)
	st, _ := strconv.ParseFloat(f[12], 64)
	pages, _ := strconv.ParseInt(f[21], 10, 64)
	return (ut + st) / 100, pages * int64(os.Getpagesize())
}

const (
	caseCPULimit  = 150.0             // CPU seconds a single case may use; normal ones take a few at most
	deadlockWall  = 100 * time.Second // with next to no CPU used during that time
	caseRSSLimit  = 6 << 30
	deadlockCPU   = 1.0
	statePollTime = 250 * time.Millisecond
)

func parent(prop, tier string, seed uint64, dir, verif, only string, soft int) int {
	ck := checks[prop]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "no check %q\n", prop)
		return 2
	}
	start := time.Now()
	if old, err := filepath.Glob(filepath.Join(verif, "evidence", "replay", prop+"-*.json")); err == nil {
		for _, f := range old {
			_ = os.Remove(f)
		}
	}
	procs := 8
	if ck.Procs > 0 {
		procs = ck.Procs
	}
	if only != "" {
		procs = 1
	}
	if soft == 0 {
		soft = 560
		if tier == "thorough" {
			soft = 3000
		}
	}
	self, _ := os.Executable()
	var wg sync.WaitGroup
	var mu sync.Mutex
	var violations []Violation
	harnessBroken := ""
	total := &Result{Counts: map[string]int64{}}
	distinct := map[uint64]struct{}{}

	for s := 0; s < procs; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			args := []string{"worker", "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-shard", fmt.Sprint(s),
				"-nshards", fmt.Sprint(procs), "-dir", dir, "-verif", verif, "-soft", fmt.Sprint(soft)}
			if only != "" {
				args = append(args, "-only", only)
			}
			cmd := exec.Command(self, args...)
			raceLog := filepath.Join(dir, fmt.Sprintf("race-%d", s))
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+raceLog, "GOTRACEBACK=all")
			errPath := filepath.Join(dir, fmt.Sprintf("stderr-%d", s))
			ef, _ := os.Create(errPath)
			cmd.Stderr = ef
			cmd.Stdout = ef
			if err := cmd.Start(); err != nil {
				mu.Lock()
				harnessBroken = err.Error()
				mu.Unlock()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			st := procState{wallAt: time.Now()}
			var err error
			tick := time.NewTicker(statePollTime)
			defer tick.Stop()
		loop:
			for {
				select {
				case err = <-done:
					break loop
				case <-tick.C:
					if st.killed != "" {
						continue
					}
					p, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("progress-%d", s)))
					cpu, rss := cpuAndRSS(cmd.Process.Pid)
					if string(p) != st.lastProgress {
						st.lastProgress = string(p)
						st.cpuAt, st.lastCPU, st.wallAt = cpu, cpu, time.Now()
					}
					if cpu-st.lastCPU > deadlockCPU {
						st.lastCPU, st.wallAt = cpu, time.Now()
					}
					switch {
					case cpu-st.cpuAt > caseCPULimit:
						st.killed = fmt.Sprintf("a call into Quamina did not return within %.0f CPU seconds", caseCPULimit)
					case time.Since(st.wallAt) > deadlockWall && len(st.lastProgress) > 0:
						st.killed = "deadlock: no call into Quamina returned and no CPU was used"
					case rss > caseRSSLimit:
						st.killed = fmt.Sprintf("memory use grew beyond %d MB", caseRSSLimit>>20)
					}
					if st.killed != "" {
						_ = cmd.Process.Signal(syscall.SIGQUIT)
						go func() {
							time.Sleep(10 * time.Second)
							_ = cmd.Process.Kill()
						}()
					}
				}
			}
			_ = ef.Close()
			mu.Lock()
			defer mu.Unlock()
			stderr, _ := os.ReadFile(errPath)
			if code := exitCode(err); code == 3 {
				harnessBroken = string(stderr)
				return
			}
			var res Result
			b, rerr := os.ReadFile(filepath.Join(dir, fmt.Sprintf("res-%d.json", s)))
			if rerr == nil {
				rerr = json.Unmarshal(b, &res)
			}
			p, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("progress-%d", s)))
			group, idx := parseProgress(string(p))
			if rerr != nil || !res.Done || st.killed != "" {
				what := st.killed
				if what == "" {
					what = "the process crashed: " + firstCrashLine(stderr)
				}
				if len(stderr) > 40000 {
					stderr = stderr[:40000]
				}
				violations = append(violations, Violation{Property: prop, Group: group, Index: idx, Seed: seed, Tier: tier,
					Summary: what, Detail: map[string]any{"stderr": string(stderr)}})
			} else {
				merge(total, &res)
				violations = append(violations, res.Violations...)
				db, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("dist-%d.bin", s)))
				for i := 0; i+8 <= len(db); i += 8 {
					distinct[binary.LittleEndian.Uint64(db[i:])] = struct{}{}
				}
			}
			for _, rep := range raceReports(raceLog) {
				violations = append(violations, Violation{Property: prop, Group: group, Index: idx, Seed: seed, Tier: tier,
					Summary: "data race: " + raceKey(rep), Detail: map[string]any{"report": rep}})
			}
		}(s)
	}
	wg.Wait()
	if harnessBroken != "" {
		fmt.Fprintln(os.Stderr, harnessBroken)
		return 3
	}
	wall := time.Since(start).Seconds()
	known := map[string]bool{}
	for _, k := range total.Known {
		if !known[k] {
			known[k] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
		}
	}
	// evidence
	evDir := filepath.Join(verif, "evidence")
	_ = os.MkdirAll(filepath.Join(evDir, "replay"), 0o755)
	counts, _ := json.Marshal(total.Counts)
	samples := total.Samples
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if samples == nil {
		samples = []string{}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         total.Evaluations,
			"distinct_nontrivial": len(distinct),
			"rule":                ck.Rule,
			"samples":             samples,
			"cases":               total.Cases,
			"observed":            json.RawMessage(counts),
			"truncated":           total.Truncated,
		},
		"wall_s":     wall,
		"violations": len(violations),
	}
	eb, _ := json.MarshalIndent(ev, "", "  ")
	if only == "" {
		if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(eb, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 3
		}
	}
	fmt.Printf("property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d wall=%.1fs observed=%s\n", prop, tier, seed,
		total.Cases, total.Evaluations, len(distinct), wall, counts)
	if len(violations) > 0 {
		// dedupe by summary
		seen := map[string]bool{}
		n := 0
		for _, v := range violations {
			if seen[v.Summary] || n >= 5 {
				continue
			}
			seen[v.Summary] = true
			path := filepath.Join(evDir, "replay", fmt.Sprintf("%s-%d.json", prop, n))
			n++
			vb, _ := json.MarshalIndent(v, "", "  ")
			_ = os.WriteFile(path, vb, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  %s:%d %s\n", v.Group, v.Index, v.Summary)
		}
		return 1
	}
	if only == "" {
		for _, k := range ck.Required {
			if total.Counts[k] == 0 {
				fmt.Fprintf(os.Stderr, "INCONCLUSIVE: the workload never observed %q\n", k)
				return 3
			}
		}
		if total.Evaluations == 0 || len(distinct) == 0 {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE: nothing was observed")
			return 3
		}
	}
	return 0
}

func merge(total, r *Result) {
	total.Evaluations += r.Evaluations
	total.Cases += r.Cases
	total.Truncated = total.Truncated || r.Truncated
	for k, v := range r.Counts {
		if strings.HasPrefix(k, "max ") {
			total.Counts[k] = max(total.Counts[k], v)
		} else {
			total.Counts[k] += v
		}
	}
	if len(total.Samples) < 6 {
		total.Samples = append(total.Samples, r.Samples...)
	}
	total.Known = append(total.Known, r.Known...)
}

func exitCode(err error) int {
	if err == nil {
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok {
		return ee.ExitCode()
	}
	return -1
}

func parseProgress(s string) (string, int) {
	f := strings.Fields(s)
	if len(f) < 2 {
		return "", 0
	}
	i, _ := strconv.Atoi(f[1])
	return f[0], i
}

func firstCrashLine(b []byte) string {
	for _, l := range bytes.Split(b, []byte("\n")) {
		if bytes.HasPrefix(l, []byte("fatal error")) || bytes.HasPrefix(l, []byte("panic")) || bytes.HasPrefix(l, []byte("runtime:")) || bytes.HasPrefix(l, []byte("SIG")) {
			return string(l)
		}
	}
	if len(b) > 200 {
		b = b[:200]
	}
	return string(b)
}

func raceReports(prefix string) []string {
	files, _ := filepath.Glob(prefix + ".*")
	var out []string
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, part := range strings.Split(string(b), "==================") {
			if strings.Contains(part, "WARNING: DATA RACE") {
				out = append(out, part)
			}
		}
	}
	return out
}

var raceFn = regexp.MustCompile(`(?m)^  (quamina\S+|main\.\S+)\(`)

// raceKey identifies a race by the innermost functions of the two accesses
func raceKey(rep string) string {
	var fns []string
	for _, sec := range regexp.MustCompile(`(?m)^(?:Read|Write|Previous read|Previous write) at`).Split(rep, -1)[1:] {
		if m := raceFn.FindStringSubmatch(sec); m != nil {
			fns = append(fns, m[1])
		}
	}
	sort.Strings(fns)
	return strings.Join(fns, " / ")
}

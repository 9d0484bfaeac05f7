package main

// Monitor core: case runner, event log, counters, verdicts, evidence and replay files.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is one run of one property's check.
type Ctx struct {
	ID       string
	Tier     string
	Seed     uint64
	VerifDir string
	BinDir   string // where the bbn and bbni binaries built from the tree under test lie

	scale       float64
	onlySection string // replay: run only this section
	onlyCase    int    // replay: run only this case

	mu        sync.Mutex
	cases     int64
	evals     int64 // situations judged: at least one per case
	distinct  map[uint64]struct{}
	counters  map[string]int64
	samples   []any
	sampleOf  map[string]int
	viol      []Violation
	known     map[string]string
	knownOK   map[string]bool
	knownOnce sync.Once
	sections  []map[string]any
	rules     []string
	stop      atomic.Bool
	running   sync.Map // *T -> time.Time
}

// Violation is one refuting observation.
type Violation struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Section  string   `json:"section"`
	Case     int      `json:"case"`
	Message  string   `json:"message"`
	Events   []string `json:"events"`
	Stack    string   `json:"stack,omitempty"`
}

// T is one case: a generated workload, its private PRNG and its event log.
type T struct {
	*rand.Rand
	c       *Ctx
	section string
	idx     int
	events  []string
	nEvents int64
	counts  map[string]int64
	hashes  []uint64
	sample  any
	skipped bool
}

type failure struct{ msg string }
type skip struct{}

// Event appends to the case's event log (kept for the witness).
func (t *T) Event(format string, args ...any) {
	t.nEvents++
	if len(t.events) < 4000 {
		t.events = append(t.events, fmt.Sprintf(format, args...))
	}
}

// Count adds to a named counter reported in the evidence.
func (t *T) Count(name string, n int) { t.counts[name] += int64(n) }

// Distinct registers a fingerprint of an observed non-trivial situation.
func (t *T) Distinct(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, t.section, "|")
	for _, p := range parts {
		fmt.Fprint(h, p, "|")
	}
	t.hashes = append(t.hashes, h.Sum64())
}

// Sample offers a written-out description of this case for the evidence.
func (t *T) Sample(v any) { t.sample = v }

// Failf refutes the property on this case.
func (t *T) Failf(format string, args ...any) { panic(failure{fmt.Sprintf(format, args...)}) }

// Skip drops the case (counted separately, never as held).
func (t *T) Skip() { panic(skip{}) }

// listed reports whether a finding is recorded in the committed list.
func (c *Ctx) listed(key string) bool {
	b, err := os.ReadFile(filepath.Join(c.VerifDir, "known_findings.txt"))
	return err == nil && strings.Contains(string(b), fmt.Sprintf("finding: property=%s key=%s ", c.ID, key))
}

// Known records an observation of a listed known finding.
func (t *T) Known(key, what string) {
	t.c.knownOnce.Do(func() { t.c.knownOK = map[string]bool{} })
	t.c.mu.Lock()
	ok, seen := t.c.knownOK[key]
	if !seen {
		ok = t.c.listed(key)
		t.c.knownOK[key] = ok
	}
	t.c.mu.Unlock()
	if !ok {
		t.Failf("%s", what)
	}
	t.c.mu.Lock()
	defer t.c.mu.Unlock()
	t.c.known[key] = what
}

func (t *T) Chance(p float64) bool { return t.Float64() < p }

// Range returns an int in [lo,hi].
func (t *T) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + t.IntN(hi-lo+1)
}

func pick[E any](t *T, xs []E) E { return xs[t.IntN(len(xs))] }

func mix(vals ...uint64) uint64 {
	x := uint64(0x9E3779B97F4A7C15)
	for _, v := range vals {
		x ^= v + 0x9E3779B97F4A7C15 + (x << 6) + (x >> 2)
		x ^= x >> 30
		x *= 0xBF58476D1CE4E5B9
		x ^= x >> 27
		x *= 0x94D049BB133111EB
		x ^= x >> 31
	}
	return x
}

func hashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

const caseDeadline = 300 * time.Second

var processStart = time.Now()

// quickBudget keeps the quick tier within its time limit on slow machines; what is left out shows in the evidence.
const quickBudget = 480 * time.Second

// Section runs n cases of a workload class in parallel.
func (c *Ctx) Section(name string, quick, thorough int, rule string, fn func(t *T)) {
	c.SectionPar(name, quick, thorough, runtime.NumCPU(), rule, fn)
}

// SectionPar is Section with an explicit degree of parallelism.
func (c *Ctx) SectionPar(name string, quick, thorough, workers int, rule string, fn func(t *T)) {
	if c.onlySection != "" && c.onlySection != name {
		return
	}
	if c.stop.Load() {
		return
	}
	n := quick
	if c.Tier == "thorough" {
		n = thorough
	}
	if c.scale != 1 {
		n = max(1, int(float64(n)*c.scale))
	}
	c.rules = append(c.rules, name+": "+rule)
	start := time.Now()
	var next atomic.Int64
	var done, skipped, left atomic.Int64
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n || c.stop.Load() {
					return
				}
				if c.Tier == "quick" && time.Since(processStart) > quickBudget {
					left.Add(1)
					continue
				}
				if c.onlySection != "" && c.onlyCase >= 0 && i != c.onlyCase {
					continue
				}
				if c.runCase(name, i, fn) {
					skipped.Add(1)
				} else {
					done.Add(1)
				}
			}
		}()
	}
	wg.Wait()
	c.mu.Lock()
	c.sections = append(c.sections, map[string]any{"section": name, "cases": done.Load(), "skipped": skipped.Load(), "wall_s": round3(time.Since(start).Seconds())})
	if k := left.Load(); k > 0 {
		c.counters["cases_left_out_for_time"] += k
	}
	c.mu.Unlock()
}

func round3(x float64) float64 { return float64(int64(x*1000+0.5)) / 1000 }

func (c *Ctx) caseRand(section string, i int) *rand.Rand {
	return rand.New(rand.NewPCG(mix(c.Seed, hashStr(c.ID)), mix(hashStr(section), uint64(i))))
}

func (c *Ctx) runCase(section string, i int, fn func(t *T)) (wasSkipped bool) {
	t := &T{c: c, section: section, idx: i, counts: map[string]int64{},
		Rand: c.caseRand(section, i)}
	c.running.Store(t, time.Now())
	defer c.running.Delete(t)
	var v *Violation
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case skip:
					t.skipped = true
				case failure:
					v = &Violation{Message: e.msg}
				default:
					v = &Violation{Message: fmt.Sprintf("panic: %v", r), Stack: string(debug.Stack())}
				}
			}
		}()
		fn(t)
	}()
	c.mu.Lock()
	defer c.mu.Unlock()
	if v != nil {
		v.Property, v.Seed, v.Tier, v.Section, v.Case = c.ID, c.Seed, c.Tier, section, i
		v.Events = t.events
		c.viol = append(c.viol, *v)
		c.stop.Store(true)
	}
	if t.skipped {
		c.counters["skipped_cases"]++
		return true
	}
	c.cases++
	c.evals += int64(max(1, len(t.hashes)))
	for k, n := range t.counts {
		c.counters[k] += n
	}
	c.counters["monitor_events"] += t.nEvents
	for _, h := range t.hashes {
		c.distinct[h] = struct{}{}
	}
	if t.sample != nil && c.sampleOf[section] < 2 {
		c.sampleOf[section]++
		c.samples = append(c.samples, map[string]any{"section": section, "case": i, "what": t.sample})
	}
	return false
}

// watchdog turns a case that makes no progress into a verdict.
func (c *Ctx) watchdog() {
	for {
		time.Sleep(2 * time.Second)
		c.running.Range(func(k, v any) bool {
			t, st := k.(*T), v.(time.Time)
			if time.Since(st) > caseDeadline {
				c.mu.Lock()
				c.viol = append(c.viol, Violation{Property: c.ID, Seed: c.Seed, Tier: c.Tier, Section: t.section, Case: t.idx,
					Message: fmt.Sprintf("no progress: the case did not finish within %s (cases of this class finish in well under a second)", caseDeadline)})
				c.mu.Unlock()
				c.finish(time.Now().Add(-caseDeadline))
				os.Exit(1)
			}
			return true
		})
	}
}

// finish writes evidence and replay, prints the verdict lines and returns the exit code.
func (c *Ctx) finish(start time.Time) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	replay := c.onlySection != ""
	sort.Slice(c.viol, func(i, j int) bool { return c.viol[i].Case < c.viol[j].Case })
	cov := map[string]any{
		"evaluations":         c.evals,
		"distinct_nontrivial": len(c.distinct),
		"rule":                strings.Join(c.rules, " || "),
		"samples":             c.samples,
		"cases":               c.cases,
		"observed":            c.counters,
		"sections":            c.sections,
		"exhaustive":          false,
	}
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
		"coverage": cov, "wall_s": round3(time.Since(start).Seconds()), "violations": len(c.viol),
		"assumptions": assumptions[c.ID],
	}
	if len(c.samples) == 0 {
		cov["samples"] = []any{"none: no case completed"}
	}
	if !replay {
		dir := filepath.Join(c.VerifDir, "evidence")
		os.MkdirAll(dir, 0o755)
		b, err := json.MarshalIndent(ev, "", " ")
		if err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 3
		}
		if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, "evidence:", err)
			return 3
		}
	}
	keys := []string{}
	for k := range c.known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	// those that did not show in this run
	listed, _ := os.ReadFile(filepath.Join(c.VerifDir, "known_findings.txt"))
	for _, l := range strings.Split(string(listed), "\n") {
		if k, ok := strings.CutPrefix(l, "finding: property="+c.ID+" key="); ok {
			k, what, _ := strings.Cut(k, " ")
			if _, ok := c.known[k]; !ok {
				fmt.Printf("KNOWN-FINDING: property=%s %s (not observed in this run)\n", c.ID, what)
			}
		}
	}
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, c.known[k])
	}
	fmt.Printf("%s tier=%s seed=%d: %d cases, %d distinct, %d monitor events, %d violations, %.1fs\n",
		c.ID, c.Tier, c.Seed, c.cases, len(c.distinct), c.counters["monitor_events"], len(c.viol), time.Since(start).Seconds())
	for _, s := range c.sections {
		fmt.Printf("  section %-28v cases=%v skipped=%v wall=%vs\n", s["section"], s["cases"], s["skipped"], s["wall_s"])
	}
	ck := []string{}
	for k := range c.counters {
		ck = append(ck, k)
	}
	sort.Strings(ck)
	for _, k := range ck {
		fmt.Printf("  observed %-28s %d\n", k, c.counters[k])
	}
	if len(c.viol) > 0 {
		v := c.viol[0]
		dir := filepath.Join(c.VerifDir, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, c.ID+".json")
		if replay {
			path = filepath.Join(dir, c.ID+".rerun.json")
		}
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		fmt.Printf("section=%s case=%d\n%s\n", v.Section, v.Case, v.Message)
		tail := v.Events
		if len(tail) > 25 {
			tail = tail[len(tail)-25:]
		}
		for _, e := range tail {
			if len(e) > 600 {
				e = e[:600] + "..."
			}
			fmt.Println("  event:", e)
		}
		if v.Stack != "" {
			fmt.Println(v.Stack)
		}
		for _, o := range c.viol[1:min(len(c.viol), 4)] {
			fmt.Printf("also: section=%s case=%d %s\n", o.Section, o.Case, o.Message)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		return 1
	}
	if c.evals == 0 {
		fmt.Println("INCONCLUSIVE: no case completed")
		return 3
	}
	return 0
}

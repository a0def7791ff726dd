package driver

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/simos"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

// Check decides a property.
type Check struct {
	ID       string
	Level    string
	Rule     string
	Quick    int // units
	Thorough int
	Unit     func(u *Unit)
	Real     []string
	Stub     []string
	Assume   []string
}

var rerunEvery = 41

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Unit is a piece of the search that belongs to one seed.
type Unit struct {
	run   *runner
	Index int
	R     *world.Rand
	Deep  bool
	Small bool // prefer small inputs
}

type failure struct {
	unit int
	seq  int
	h    *History
	v    *hx.Violation
}

type runner struct {
	check *Check
	tier  string
	seed  uint64

	mu         sync.Mutex
	runs       int
	histories  int
	units      int
	simNanos   int64
	steps      uint64
	switches   uint64
	choices    uint64
	stalls     uint64
	faults     map[string]int
	faultRuns  int
	events     map[string]int
	ops        map[string]int
	hashes     map[uint64]bool
	schedules  map[uint64]bool
	nontrivial int
	policies   map[string]int
	samples    []any
	failures   []failure
	harness    []string
	reruns     int
	mismatches int
	kinds      map[string]int
	dumb       bool
	known      map[string]int
	slowest    time.Duration
	slowText   string
}

// Failed reports if the search should stop.
func (u *Unit) Failed() bool { return stopped.Load() }

// Exec runs a history and records what it covered. It returns nil if the unit should end.
func (u *Unit) Exec(h *History) []*hx.Result {
	if stopped.Load() {
		return nil
	}
	r := u.run
	h.Check = r.check.ID
	began := time.Now()
	o := Exec(h)
	took := time.Since(began)
	r.mu.Lock()
	if took > r.slowest {
		r.slowest = took
		b, _ := json.Marshal(h)
		r.slowText = string(b)
	}
	defer r.mu.Unlock()
	r.histories++
	r.kinds[h.Kind]++
	for i, res := range o.Results {
		r.runs++
		if res == nil {
			continue
		}
		r.simNanos += res.Sim.SimNanos
		r.steps += res.Sim.Steps
		r.switches += res.Sim.Switches
		r.choices += res.Sim.Choices
		r.stalls += res.Sim.Stalls
		for _, f := range res.Fired {
			r.faults[f.Kind+" on "+f.Op]++
		}
		faulty := len(res.Fired) > 0
		for k, n := range res.Events {
			if f, ok := strings.CutPrefix(k, "fault: "); ok {
				r.faults[f] += n
				faulty = true
			} else {
				r.events[k] += n
			}
		}
		if faulty {
			r.faultRuns++
		}
		for k, n := range res.Counts {
			r.ops[k] += n
		}
		r.policies[policyName(h.Incs[i].Sched)]++
		key := res.Sim.Hash*31 + res.OSHash
		r.schedules[res.Sim.Hash] = true
		if !r.hashes[key] {
			r.hashes[key] = true
			if res.Sim.Choices > 0 || faulty {
				r.nontrivial++
			}
		}
		if len(r.samples) < 4 && (len(res.Fired) > 0 || r.runs%37 == 1) {
			r.samples = append(r.samples, map[string]any{"history": h.Kind, "process": h.Incs[i], "end": res.Sim, "fired": res.Fired, "events": res.Events})
		}
	}
	if o.Harness != "" {
		if len(r.harness) < 20 {
			b, _ := json.Marshal(h)
			r.harness = append(r.harness, fmt.Sprintf("unit %d %s: %s: %s", u.Index, h.Kind, o.Harness, b))
		}
		return nil
	}
	if o.Violation != nil {
		if k := knownFinding(r.check.ID, o.Violation); k != "" {
			r.known[k]++
			return nil
		}
		r.failures = append(r.failures, failure{u.Index, r.histories, h.Clone(), o.Violation})
		stopped.Store(true)
		return nil
	}
	// now and then: the same seed has to mean the same execution
	if r.histories%rerunEvery == 7%rerunEvery {
		r.reruns++
		r.mu.Unlock()
		p := Exec(h)
		r.mu.Lock()
		for i := range o.Results {
			if i >= len(p.Results) || p.Results[i] == nil || p.Results[i].Sim.Hash != o.Results[i].Sim.Hash || p.Results[i].OSHash != o.Results[i].OSHash {
				r.mismatches++
				if len(r.harness) < 20 {
					b, _ := json.Marshal(h)
					r.harness = append(r.harness, fmt.Sprintf("unit %d %s: process %d is not deterministic: %s", u.Index, h.Kind, i, b))
				}
				break
			}
		}
	}
	return o.Results
}

func policyName(s hx.Sched) string {
	n := []string{"fifo", "random", "priorities", "starvation"}[s.Policy&3]
	if s.StallP > 0 {
		n += "+stalls"
	}
	return n
}

// Sched picks a schedule. steps is about how many steps the execution takes.
func (u *Unit) Sched(steps uint64) hx.Sched {
	r := u.R
	s := hx.Sched{Seed: r.Uint64() >> 1}
	switch x := r.N(100); {
	case x < 5:
		s.Policy = 0
	case x < 55:
		s.Policy = 1
		s.YieldP = []uint32{100, 1000, 6000, 20000, 40000}[r.N(5)]
	case x < 85:
		s.Policy = 2
		s.Depth = 1 + r.N(8)
		s.PCTSteps = steps
		if steps == 0 {
			s.PCTSteps = 20000
		}
	default:
		s.Policy = 3
		s.YieldP = []uint32{500, 5000, 20000}[r.N(3)]
	}
	if r.P(25) {
		s.StallP = []uint32{5, 50, 400}[r.N(3)]
		s.StallMax = []int64{1e6, 1e8, 1e10}[r.N(3)]
	}
	s.StepCost = []int64{1, 40, 1000}[r.N(3)]
	return s
}

// World picks an input.
func (u *Unit) World(mod ...func(p *world.Params)) world.Params {
	r := u.R
	p := world.Params{Seed: r.Uint64() >> 12, Size: []int{0, 0, 1, 1, 1, 2}[r.N(6)]}
	if u.Deep && r.P(10) {
		p.Size = 3
	}
	p.Dense = r.P(30)
	p.Deep = r.P(40)
	p.Plain = r.P(15)
	for _, f := range mod {
		f(&p)
	}
	for !world.Fits(p, u.weight()) {
		p.Seed = r.Uint64() >> 12
	}
	return p
}

// weight limits the size of inputs.
func (u *Unit) weight() int {
	switch {
	case !u.Small:
		return 12000
	case u.R.P(5):
		return 2500
	}
	return 600
}

func quads(p world.Params) int { return len(world.New(p).Quads) }

func jobs() int {
	if n, err := strconv.Atoi(os.Getenv("SIM_JOBS")); err == nil && n > 0 {
		return n
	}
	return 8
}

type finding struct {
	property string
	re       *regexp.Regexp
	line     string
}

var findings []finding

// loadFindings reads the list of known findings: lines such as
//
//	known: property=<id> match=<regular expression> # what fails
//	fixed: property=<id> <commit> <what failed>
func loadFindings(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		return err
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property=")
		if !ok {
			continue
		}
		id, rest, _ := strings.Cut(rest, " match=")
		expr, what, _ := strings.Cut(rest, " # ")
		re, err := regexp.Compile(expr)
		if err != nil {
			return err
		}
		findings = append(findings, finding{id, re, what})
	}
	return nil
}

func knownFinding(id string, v *hx.Violation) string {
	for _, f := range findings {
		if f.property == id && f.re.MatchString(v.Kind+": "+v.Text) {
			return f.line
		}
	}
	return ""
}

// Replay is what a replay file holds.
type Replay struct {
	Property  string       `json:"property"`
	Seed      uint64       `json:"seed"`
	Violation hx.Violation `json:"violation"`
	Unit      int          `json:"unit"`
	Decisions int          `json:"decisions"`
	Notes     []string     `json:"notes,omitempty"`
	History   *History     `json:"history"`
	Original  *History     `json:"original,omitempty"`
	Trace     []string     `json:"trace,omitempty"`
}

// Main runs a check or a replay.
func Main(args []string) error {
	fs := flag.NewFlagSet("driver", flag.ContinueOnError)
	id := fs.String("check", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	seed := fs.Uint64("seed", 1, "seed")
	dir := fs.String("verif", "/verif", "where evidence and replay files go")
	units := fs.Int("units", 0, "number of units")
	from := fs.Int("from", 0, "first unit")
	replay := fs.String("replay", "", "replay file")
	spec := fs.String("spec", "", "run a single process from a spec, and print the result")
	limit := fs.Duration("limit", 0, "time limit of the search")
	fs.IntVar(&rerunEvery, "rerun", 41, "repeat one of so many histories, to see that it is the same")
	verbose := fs.Bool("v", false, "print more")
	if err := fs.Parse(args); err != nil {
		return err
	}
	var err error
	tmpDir, err = os.MkdirTemp("", "simrun")
	if err != nil {
		return err
	}
	defer os.RemoveAll(tmpDir)
	if err := loadFindings(filepath.Join(*dir, "known-findings.txt")); err != nil {
		return err
	}
	if *spec != "" {
		b, err := os.ReadFile(*spec)
		if err != nil {
			return err
		}
		var s hx.Spec
		if err := json.Unmarshal(b, &s); err != nil {
			return err
		}
		res, v, harness := runOne(s, 5*time.Minute)
		out, _ := json.MarshalIndent(res, "", " ")
		fmt.Printf("%s\nviolation: %+v\nharness: %s\n", out, v, harness)
		return nil
	}
	if *replay != "" {
		return doReplay(*replay)
	}
	c := checks[*id]
	if c == nil {
		return fmt.Errorf("no check %q", *id)
	}
	n := c.Quick
	cap := 120 * time.Second
	if *tier == "thorough" {
		n = c.Thorough
		cap = 40 * time.Minute
	}
	if *limit != 0 {
		cap = *limit
	}
	if *units != 0 {
		n = *units
	}
	r := &runner{check: c, tier: *tier, seed: *seed,
		faults: map[string]int{}, events: map[string]int{}, ops: map[string]int{}, kinds: map[string]int{},
		hashes: map[uint64]bool{}, schedules: map[uint64]bool{}, policies: map[string]int{}, known: map[string]int{}}
	start := time.Now()
	var wg sync.WaitGroup
	next := make(chan int)
	for j := 0; j < jobs(); j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				u := &Unit{run: r, Index: i, Deep: *tier == "thorough"}
				u.R = world.NewRand(*seed*1_000_003 + uint64(i)*7919 + hashString(c.ID))
				c.Unit(u)
				r.mu.Lock()
				r.units++
				r.mu.Unlock()
			}
		}()
	}
	for i := *from; i < *from+n && !stopped.Load() && time.Since(start) < cap; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
	searched := time.Since(start)

	code := 0
	if len(r.failures) > 0 {
		sort.Slice(r.failures, func(i, j int) bool { return r.failures[i].unit < r.failures[j].unit })
		if report(r, *dir) {
			code = 1
		}
	}
	if err := r.evidence(*dir, searched, time.Since(start), code); err != nil {
		return err
	}
	for _, k := range world.Keys(r.known) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
	}
	if *verbose || len(r.harness) > 0 {
		for i, h := range r.harness {
			if i < 5 {
				fmt.Fprintln(os.Stderr, "harness:", h)
			}
		}
	}
	fmt.Printf("%s: %d histories, %d simulated processes in %.1f s (%.0f per hour), %.0f s of simulated time, %d distinct executions, %d with faults, %d harness errors\n",
		c.ID, r.histories, r.runs, searched.Seconds(), float64(r.runs)/searched.Seconds()*3600, float64(r.simNanos)/1e9, len(r.hashes), r.faultRuns, len(r.harness))
	if *verbose {
		fmt.Println("events:", r.events)
		fmt.Println("faults:", r.faults)
		fmt.Println("kinds:", r.kinds)
		fmt.Println("slowest:", r.slowest, r.slowText)
		fmt.Println("reruns:", r.reruns, "mismatches:", r.mismatches)
	}
	if code == 0 && r.runs == 0 {
		return errors.New("nothing was run")
	}
	if code == 0 && len(r.harness) > r.histories/10+1 {
		return errors.New("too many harness errors")
	}
	if code != 0 {
		os.RemoveAll(tmpDir)
		os.Exit(code)
	}
	return nil
}

func hashString(s string) (h uint64) {
	h = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return
}

// report confirms, minimises and prints a failure.
func report(r *runner, dir string) bool {
	stopped.Store(false)
	for _, f := range r.failures {
		o := Exec(f.h)
		if o.Violation == nil {
			r.harness = append(r.harness, fmt.Sprintf("unit %d: failure not confirmed: %s", f.unit, f.v.Text))
			continue
		}
		fmt.Printf("unit %d failed: %s: %s\n", f.unit, o.Violation.Kind, o.Violation.Text)
		var notes []string
		budget := 60 * time.Second
		if o.Violation.Kind == "hang" || o.Violation.Kind == "livelock" {
			budget = 20 * time.Second
		}
		best, v := f.h, o.Violation
		if m, mv := minimise(f.h, o.Violation.Kind, budget, func(s string, a ...any) { notes = append(notes, fmt.Sprintf(s, a...)) }); m != nil {
			best, v = m, mv
		}
		rep := Replay{Property: r.check.ID, Seed: r.seed, Violation: *v, Unit: f.unit, Decisions: decisions(best), Notes: notes, History: best, Original: f.h}
		path := filepath.Join(dir, "replay", fmt.Sprintf("%s-%d-%d.json", r.check.ID, r.seed, f.unit))
		os.MkdirAll(filepath.Dir(path), 0o755)
		b, _ := json.MarshalIndent(rep, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Printf("minimised to %d scheduling decisions, %d faults: %s: %s\n", rep.Decisions, nfaults(best), v.Kind, v.Text)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.check.ID, path)
		return true
	}
	return false
}

func nfaults(h *History) (n int) {
	for _, i := range h.Incs {
		n += len(i.Faults)
	}
	return
}

func doReplay(path string) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		return err
	}
	o := Exec(rep.History)
	if o.Harness != "" {
		return errors.New(o.Harness)
	}
	if o.Violation == nil {
		fmt.Println("the property holds in this execution")
		return nil
	}
	fmt.Printf("%s: %s\n", o.Violation.Kind, o.Violation.Text)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, path)
	os.RemoveAll(tmpDir)
	os.Exit(1)
	return nil
}

func (r *runner) evidence(dir string, searched, total time.Duration, code int) error {
	if r.samples == nil {
		r.samples = []any{}
	}
	hours := searched.Hours()
	cov := map[string]any{
		"evaluations":          r.runs,
		"distinct_nontrivial":  r.nontrivial,
		"rule":                 r.check.Rule + " A run is one simulated process; it counts as distinct by the hash over all its scheduling decisions and file operations, and by what was observed where a scenario records that, and as non-trivial if the scheduler had a choice or a fault took place.",
		"samples":              r.samples,
		"histories":            r.histories,
		"units":                r.units,
		"runs_per_hour":        int(float64(r.runs) / hours),
		"seeds_per_hour":       int(float64(r.units) / hours),
		"simulated_seconds":    float64(r.simNanos) / 1e9,
		"scheduling_steps":     r.steps,
		"context_switches":     r.switches,
		"choices":              r.choices,
		"stalls":               r.stalls,
		"distinct_schedules":   len(r.schedules),
		"distinct_executions":  len(r.hashes),
		"runs_with_faults":     r.faultRuns,
		"faults_injected":      r.faults,
		"file_operations":      r.ops,
		"events":               r.events,
		"history_kinds":        r.kinds,
		"schedule_policies":    r.policies,
		"determinism_reruns":   r.reruns,
		"determinism_mismatch": r.mismatches,
		"harness_errors":       len(r.harness),
		"real_components":      r.check.Real,
		"stubbed_components":   r.check.Stub,
		"search_wall_s":        searched.Seconds(),
	}
	if len(r.known) > 0 {
		cov["known_findings"] = r.known
	}
	if len(r.harness) > 0 {
		n := len(r.harness)
		if n > 5 {
			n = 5
		}
		cov["harness_messages"] = r.harness[:n]
	}
	ev := map[string]any{
		"property": r.check.ID, "tier": r.tier, "seed": r.seed, "level": r.check.Level,
		"coverage": cov, "wall_s": total.Seconds(), "violations": code,
		"assumptions": r.check.Assume,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	if err := os.MkdirAll(filepath.Join(dir, "evidence"), 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "evidence", r.check.ID+".json"), b, 0o644)
}

var _ = simos.Fault{}

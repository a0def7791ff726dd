// Package hx runs one simulated process: it builds the simulated operating system, runs a
// scenario under the seeded scheduler, and judges how it ended.
package hx

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"github.com/FAU-CDI/hangover/internal/zverif/simos"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

// Sched selects the schedule.
type Sched struct {
	Seed     uint64   `json:"seed"`
	Policy   int      `json:"policy"`
	YieldP   uint32   `json:"yield,omitempty"`
	Depth    int      `json:"depth,omitempty"`
	PCTSteps uint64   `json:"pct_steps,omitempty"`
	StallP   uint32   `json:"stall,omitempty"`
	StallMax int64    `json:"stall_max,omitempty"`
	StepCost int64    `json:"step_cost,omitempty"`
	MaxSteps uint64   `json:"max_steps,omitempty"`
	Replay   bool     `json:"replay,omitempty"`
	Dev      []uint64 `json:"dev,omitempty"`
}

// Spec describes one simulated process.
type Spec struct {
	Scenario  string            `json:"scenario"`
	World     world.Params      `json:"world"`
	Sched     Sched             `json:"sched"`
	Faults    []simos.Fault     `json:"faults,omitempty"`
	Capacity  int64             `json:"capacity,omitempty"` // bytes that fit on the disk in addition to the inputs
	Args      map[string]int    `json:"args,omitempty"`
	Str       map[string]string `json:"str,omitempty"`
	Chain     bool              `json:"chain,omitempty"` // continue with the disk the previous process left
	Image     string            `json:"image,omitempty"`
	SaveImage string            `json:"save_image,omitempty"`
	Record    string            `json:"record,omitempty"`
	Trace     bool              `json:"trace,omitempty"`
	Debug     bool              `json:"debug,omitempty"`
}

// Violation of a property.
type Violation struct {
	Kind string `json:"kind"` // a short stable name
	Text string `json:"text"`
}

// Result of one simulated process.
type Result struct {
	Violations []Violation        `json:"violations,omitempty"`
	Harness    string             `json:"harness,omitempty"` // an error of the harness
	Digest     map[string]string  `json:"digest,omitempty"`  // compared between processes
	Counts     map[string]int     `json:"counts,omitempty"`  // file operations
	Events     map[string]int     `json:"events,omitempty"`  // what happened
	Fired      []simos.Fired      `json:"fired,omitempty"`
	Sim        runtime.SimResult  `json:"sim"`
	OSHash     uint64             `json:"os_hash"`
	Info       map[string]string  `json:"info,omitempty"`
	Trace      []string           `json:"trace,omitempty"`
	Nums       map[string]float64 `json:"nums,omitempty"`
}

// Ctx is handed to a scenario.
type Ctx struct {
	Spec Spec
	K    *simos.Kernel
	W    *world.World
	M    *world.Model
	R    *world.Rand // for choices of the scenario; independent of the schedule
	Res  *Result
	Sim  runtime.SimResult
	base int // goroutines before the simulation

	mixed uint64
}

// Scenario is code to simulate.
type Scenario struct {
	Setup func(c *Ctx) // before the simulation
	Body  func(c *Ctx) // simulated
	Check func(c *Ctx) // after the simulation
	Exits bool         // the body may end by os.Exit
	World bool         // prepares the world and the model
}

var scenarios = map[string]*Scenario{}

// Register adds a scenario.
func Register(name string, s *Scenario) { scenarios[name] = s }

// Fail records a violation.
func (c *Ctx) Fail(kind, format string, args ...any) {
	if len(c.Res.Violations) < 10 {
		text := fmt.Sprintf(format, args...)
		if len(text) > 4000 {
			text = text[:4000] + "..."
		}
		c.Res.Violations = append(c.Res.Violations, Violation{kind, text})
	}
}

// Event counts something that happened.
func (c *Ctx) Event(name string) { c.Res.Events[name]++ }

// EventN counts several.
func (c *Ctx) EventN(name string, n int) { c.Res.Events[name] += n }

// Mix adds something that was observed to what tells executions apart.
func (c *Ctx) Mix(values ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, c.mixed)
	fmt.Fprintln(h, values...)
	c.mixed = h.Sum64()
}

// Arg returns an argument.
func (c *Ctx) Arg(name string) int { return c.Spec.Args[name] }

// Cleanly reports whether the main function ended without a crash, exit or hang.
func (c *Ctx) Cleanly() bool {
	return c.Sim.MainDone && (c.Sim.Reason == runtime.SimEndQuiescent || c.Sim.Reason == runtime.SimEndHorizon)
}

// Crashed reports a simulated crash of the process.
func (c *Ctx) Crashed() bool { return c.Sim.Reason == runtime.SimEndCrash }

// Exited returns the status given to os.Exit, or 0 if main returned; ok is false otherwise.
func (c *Ctx) Exited() (code int, ok bool) {
	if c.Sim.Reason == runtime.SimEndExit {
		return c.Sim.ExitCode, true
	}
	if c.Cleanly() {
		return 0, true
	}
	return 0, false
}

func record(path string) []uint64 {
	const words = 1 << 21
	fd, err := syscall.Open(path, syscall.O_RDWR|syscall.O_CREAT, 0o600)
	if err != nil {
		return nil
	}
	if syscall.Ftruncate(fd, words*8) != nil {
		return nil
	}
	b, err := syscall.Mmap(fd, 0, words*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), words)
}

// Run executes a spec in this process, which must not have run one before.
func Run(spec Spec) *Result {
	debug.SetGCPercent(-1)
	runtime.MemProfileRate = 0 // sampling draws random numbers
	runtime.GOMAXPROCS(1)
	res := &Result{Digest: map[string]string{}, Events: map[string]int{}, Info: map[string]string{}, Nums: map[string]float64{}}
	sc := scenarios[spec.Scenario]
	if sc == nil {
		res.Harness = "unknown scenario " + spec.Scenario
		return res
	}
	k := simos.New()
	c := &Ctx{Spec: spec, K: k, Res: res, R: world.NewRand(spec.World.Seed ^ 0xabcdef)}
	if sc.World {
		c.W = world.New(spec.World)
		c.M = world.NewModel(c.W)
	}
	if spec.Image != "" {
		if err := k.LoadImage(spec.Image); err != nil {
			res.Harness = err.Error()
			return res
		}
	}
	k.Faults = append([]simos.Fault(nil), spec.Faults...)
	k.Keep = spec.Trace
	if sc.Setup != nil {
		sc.Setup(c)
	}
	if spec.Capacity > 0 {
		k.Capacity = k.Used + spec.Capacity
	}
	s := spec.Sched
	cfg := runtime.SimConfig{
		Seed: s.Seed, Policy: s.Policy, YieldP: s.YieldP, PCTDepth: s.Depth, PCTSteps: s.PCTSteps,
		StallP: s.StallP, StallMax: s.StallMax, StepCost: s.StepCost, MaxSteps: s.MaxSteps,
		Replay: s.Replay, Deviation: s.Dev, Drain: 600_000_000_000,
	}
	if cfg.StepCost == 0 {
		cfg.StepCost = 40
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 60_000_000
	}
	if spec.Record != "" {
		cfg.Record = record(spec.Record)
	}
	if f := os.Getenv("SIM_STEPS"); f != "" {
		cfg.Steps = record(f)
	}
	for i := 0; i < 100; i++ {
		runtime.Gosched() // goroutines made by initialisers come to rest
	}
	c.base = runtime.NumGoroutine()
	k.Install()
	c.Sim = runtime.SimRun(cfg, func() { sc.Body(c) })
	syscall.SimHook = nil
	res.Sim = c.Sim
	res.OSHash = k.Hash ^ c.mixed
	res.Counts = k.Counts
	res.Fired = k.Fired
	res.Trace = k.Trace
	for t, n := range k.Unknown {
		res.Events[fmt.Sprintf("unknown-syscall-%d", t)] += n
	}
	switch c.Sim.Reason {
	case runtime.SimEndSteps:
		c.Fail("livelock", "no end after %d steps: %s", c.Sim.Steps, Stacks())
	case runtime.SimEndQuiescent, runtime.SimEndHorizon:
		if !c.Sim.MainDone {
			c.Fail("deadlock", "nothing can continue: %s", Stacks())
		}
	case runtime.SimEndExit:
		if !sc.Exits {
			c.Fail("exit", "os.Exit(%d) was called", c.Sim.ExitCode)
		}
	}
	if sc.Check != nil && c.Sim.Reason != runtime.SimEndSteps {
		sc.Check(c)
	}
	if spec.SaveImage != "" {
		if err := k.SaveImage(spec.SaveImage); err != nil {
			res.Harness = err.Error()
		}
	}
	if spec.Debug {
		res.Info["stdout"] = string(k.Stdout)
		res.Info["stderr"] = string(k.Stderr)
	}
	return res
}

// Stacks returns the stacks of what is still there, in short form.
func Stacks() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 {
			continue // the harness itself
		}
		var fns []string
		for j, line := range strings.Split(g, "\n") {
			if j == 0 || strings.HasPrefix(line, "\t") || strings.HasPrefix(line, "created by") {
				continue
			}
			if k := strings.LastIndex(line, "("); k > 0 {
				line = line[:k]
			}
			line = strings.TrimPrefix(line, "github.com/FAU-CDI/hangover/")
			fns = append(fns, line)
			if len(fns) == 6 {
				break
			}
		}
		if len(fns) > 0 && !strings.HasPrefix(fns[0], "runtime.goparkunlock") {
			out = append(out, strings.Join(fns, " < "))
		}
	}
	sort.Strings(out)
	var uniq []string
	n := 0
	for i, s := range out {
		n++
		if i+1 == len(out) || out[i+1] != s {
			uniq = append(uniq, fmt.Sprintf("%dx %s", n, s))
			n = 0
		}
	}
	if len(uniq) > 12 {
		uniq = uniq[:12]
	}
	return strings.Join(uniq, " | ")
}

// CheckLeaks fails if goroutines or files are left over.
func (c *Ctx) CheckLeaks() {
	if c.Sim.Reason == runtime.SimEndHorizon {
		c.Fail("leak", "still active %d s after the end: %s", 600, Stacks())
		return
	}
	// the goroutine of the harness is not counted
	if extra := c.Sim.Alive - (c.base - 1); extra > 0 {
		c.Fail("leak", "%d goroutines are left: %s", extra, Stacks())
	}
	if open := c.K.OpenFiles(); len(open) > 0 {
		c.Fail("open", "files are left open: %v", open)
	}
}

// MemoryLimit of the address space of a simulated process.
const MemoryLimit = 5 << 29

// Worker reads a spec from standard input and writes the result to descriptor 3.
func Worker() {
	// one processor from the start, and no collections: the addresses of objects,
	// and with them the order of maps with pointers as keys, only depend on the spec
	if os.Getenv("GOMAXPROCS") != "1" || os.Getenv("GOGC") != "off" {
		err := syscall.Exec("/proc/self/exe", os.Args, append(os.Environ(), "GOMAXPROCS=1", "GOGC=off"))
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(97)
	}
	var spec Spec
	limit := syscall.Rlimit{Cur: MemoryLimit, Max: MemoryLimit}
	if len(os.Args) > 2 && os.Args[2] == "large" {
		limit = syscall.Rlimit{Cur: 6 * MemoryLimit, Max: 6 * MemoryLimit}
	}
	syscall.Setrlimit(syscall.RLIMIT_AS, &limit)
	if err := json.NewDecoder(os.Stdin).Decode(&spec); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(97)
	}
	res := Run(spec)
	out, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(97)
	}
	for len(out) > 0 {
		n, err := syscall.Write(3, out)
		if err != nil {
			if err == syscall.EINTR || err == syscall.EAGAIN {
				continue
			}
			os.Exit(97)
		}
		out = out[n:]
	}
	syscall.Exit(0)
}

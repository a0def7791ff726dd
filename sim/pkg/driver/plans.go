package driver

import (
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/simos"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

var (
	realLoad = []string{"pathbuilder and nquads parsing", "sparkl indexing and extraction", "igraph/imap (memory and leveldb engines)", "goleveldb", "Go standard library above the system call interface", "Go runtime scheduler data structures, channels, mutexes"}
	stubAll  = []string{"operating system: in-memory file system behind the system calls", "clock and timers: simulated", "choice of the next goroutine: seeded", "randomness: seeded", "garbage collector: off"}
	assume   = []string{"goroutines are preempted only at the statements of the repository's own code, at synchronisation and at system calls, not between machine instructions", "the simulated file system follows POSIX as far as the code under test uses it"}
)

func args(kv ...any) map[string]int {
	m := map[string]int{}
	for i := 0; i < len(kv); i += 2 {
		if n := kv[i+1].(int); n != 0 {
			m[kv[i].(string)] = n
		}
	}
	return m
}

// args2 adds to arguments.
func args2(a map[string]int, kv ...any) map[string]int {
	m := args(kv...)
	for k, v := range a {
		if _, ok := m[k]; !ok {
			m[k] = v
		}
	}
	return m
}

const (
	cachePath = "/sim/cache"
	inPath    = "/sim/in"
	outPath   = "/sim/out"
)

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func init() {
	register(&Check{
		ID: "C01", Level: "exploration", Quick: 1300, Thorough: 12000,
		Rule: "Each unit generates an input (nested bundles, fields, same-as, inverse-of, languages, blank nodes) and loads it in memory under several schedules; the result is compared with an independent model.",
		Real: realLoad, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			w := u.World()
			compact := []int{0, 0, 1, 3, 17}[u.R.N(5)]
			steps := uint64(0)
			for i := 0; i < 4; i++ {
				res := u.Exec(&History{Kind: "load", Incs: []hx.Spec{{Scenario: "load", World: w, Sched: u.Sched(steps),
					Args: args("compact", compact, "glass", b2i(u.R.P(25)))}}})
				if res == nil {
					return
				}
				steps = res[0].Sim.Steps
			}
		},
	})
	register(&Check{
		ID: "C02", Level: "exploration", Quick: 450, Thorough: 6000,
		Rule: "Each unit generates an input and loads it in memory and on disk in one simulated process, with small or tiny database buffers so that flushes and compactions fall anywhere; both results are compared with the model and the statistics with each other.",
		Real: realLoad, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			w := u.World(func(w *world.Params) {
				if w.Size == 2 && !u.R.P(40) {
					w.Size = 1
				}
				w.Names = b2i(u.R.P(20))
			})
			steps := uint64(0)
			for i := 0; i < 3; i++ {
				res := u.Exec(&History{Kind: "loadboth", Incs: []hx.Spec{{Scenario: "loadboth", World: w, Sched: u.Sched(steps),
					Args: args("compact", u.compact(w), "buf", u.R.N(3), "glass", b2i(u.R.P(15)))}}})
				if res == nil {
					return
				}
				steps = res[0].Sim.Steps
			}
		},
	})
	register(&Check{
		ID: "C03", Level: "exploration", Quick: 440, Thorough: 9000,
		Rule: "Each unit loads an input with an on-disk cache once without faults, then again with faults placed at operations on cache files seen in that run (errors, short writes, full disk, once or from then on), and with small disks; a success has to have the content of the model.",
		Real: realLoad, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			u.Small = true
			w := u.World(func(w *world.Params) {
				if w.Size > 1 && !u.R.P(20) {
					w.Size = 1
				}
			})
			a := args("disk", 1, "compact", u.compact(w), "buf", u.R.N(3), "glass", b2i(u.R.P(45)), "cacheat", u.R.N(3))
			base := hx.Spec{Scenario: "load", World: w, Sched: u.Sched(0), Args: a}
			res := u.Exec(&History{Kind: "no fault", Incs: []hx.Spec{base}})
			if res == nil {
				return
			}
			for i := 0; i < 12; i++ {
				s := base
				s.Sched = u.Sched(res[0].Sim.Steps)
				kind := "fault"
				switch {
				case i == 11:
					s.Faults = u.benign(cachePath)
					s.Args = args2(a, "exact", 1)
					kind = "harmless"
				case i == 10:
					s.Capacity = 1 + int64(u.R.N(int(res[0].Nums["disk"]*5/4)+10))
					kind = "small disk"
				default:
					n := 1 + b2i(u.R.P(30)) + b2i(u.R.P(10))
					for j := 0; j < n; j++ {
						var weights map[string]int
						if u.R.P(50) {
							weights = map[string]int{"read": 10, "write": 20, "sync": 10}
						}
						if f, ok := u.fault(res[0].Counts, cachePath, weights); ok {
							s.Faults = append(s.Faults, f)
						}
					}
				}
				if u.Exec(&History{Kind: kind, Incs: []hx.Spec{s}}) == nil {
					return
				}
			}
		},
	})
	register(&Check{
		ID: "C04", Level: "exploration", Quick: 900, Thorough: 12000,
		Rule: "Each unit loads an input once without faults, then with failing reads and seeks at places seen in that run, with short and interrupted reads, and with malformed or cut off inputs.",
		Real: realLoad, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			w := u.World()
			a := args("disk", b2i(u.R.P(20)), "buf", u.R.N(3), "glass", b2i(u.R.P(30)))
			base := hx.Spec{Scenario: "load", World: w, Sched: u.Sched(0), Args: a}
			// small reads, so that faults happen everywhere in a file
			var short []simos.Fault
			if u.R.P(80) {
				short = []simos.Fault{{Op: "read", Path: inPath, Nth: 1, Kind: "short", Sticky: true, Arg: int64(u.R.N(1 << 20))}}
			}
			base.Faults = short
			base.Args = args2(a, "exact", 1)
			res := u.Exec(&History{Kind: "short reads", Incs: []hx.Spec{base}})
			if res == nil {
				return
			}
			for i := 0; i < 12; i++ {
				s := base
				s.Sched = u.Sched(res[0].Sim.Steps)
				s.Args = a
				kind := "fault"
				switch {
				case i < 7:
					f, ok := u.fault(res[0].Counts, inPath, map[string]int{"read": 60, "seek": 15, "open": 8, "close": 3, "stat": 3})
					if !ok {
						continue
					}
					s.Faults = append([]simos.Fault{f}, short...)
				case i < 9:
					s.Faults = u.benign(inPath)
					s.Args = args2(a, "exact", 1)
					kind = "harmless"
				default:
					s.Args = args2(a, "damage", []int{1, 1, 1, 2, 2, 3, 3, 4, 5}[u.R.N(9)], "at", 1+u.R.N(1<<20))
					kind = "malformed"
				}
				if u.Exec(&History{Kind: kind, Incs: []hx.Spec{s}}) == nil {
					return
				}
			}
		},
	})
	register(&Check{
		ID: "C05", Level: "exploration", Quick: 150, Thorough: 7000,
		Rule: "Each unit is a series of loads with the same cache directory, each killed at a chosen change of the file system (unsynced changes are lost, kept, torn or reordered), the input or pathbuilder changing in between; the last load runs to its end and has to match the model of its own input. Changes outside of the cache directory count as violations.",
		Real: realLoad, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			u.Small = true
			w := u.World(func(w *world.Params) {
				if w.Size > 1 {
					w.Size = 1
				}
				w.Names = b2i(u.R.P(40))
			})
			a := args("disk", 1, "compact", u.compact(w), "buf", u.R.N(3), "glass", b2i(u.R.P(20)), "cacheat", u.R.N(3))
			base := hx.Spec{Scenario: "load", World: w, Sched: u.Sched(0), Args: a}
			res := u.Exec(&History{Kind: "no fault", Incs: []hx.Spec{base}})
			if res == nil {
				return
			}
			muts := 0
			for k, n := range res[0].Counts {
				for _, op := range []string{"write", "create", "unlink", "mkdir", "rename", "truncate", "rmdir", "sync"} {
					if k == op+" "+cachePath {
						muts += n
					}
				}
			}
			for i := 0; i < 7; i++ {
				h := &History{Kind: "crash and load"}
				if i == 0 {
					h.Kind = "load again"
				}
				for n := 1 + u.R.N(3); n > 0; n-- {
					s := base
					s.Chain = len(h.Incs) > 0
					s.Sched = u.Sched(res[0].Sim.Steps)
					s.Args = args2(a, "journal", 1+u.R.N(1<<20), "buf", u.R.N(3))
					if i > 0 {
						f := simos.Fault{Op: "mut", Path: cachePath, Nth: u.nth(muts), Kind: "crash"}
						if u.R.P(30) {
							f = simos.Fault{Op: "write", Path: cachePath, Nth: u.nth(res[0].Counts["write "+cachePath]), Kind: "torn", Arg: int64(u.R.N(1 << 20))}
						}
						s.Faults = []simos.Fault{f}
					}
					s.World = u.changed(w)
					h.Incs = append(h.Incs, s)
				}
				s := base
				s.Chain = true
				s.Sched = u.Sched(res[0].Sim.Steps)
				s.World = u.changed(w)
				h.Incs = append(h.Incs, s)
				if u.Exec(h) == nil {
					return
				}
			}
		},
	})
}

// changed returns the input or a variant of it.
func (u *Unit) changed(w world.Params) world.Params {
	if u.R.P(50) {
		return w
	}
	for i := 0; i < 20; i++ {
		x := w
		x.Change = 1 + u.R.N(3)
		x.SubSet = u.R.P(30)
		if world.Fits(x, 12000) {
			return x
		}
	}
	return w
}

package driver

import (
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/simos"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

var realWeb = []string{"everything of a load", "glass export and import (gob, gzip)", "cache", "viewer handlers, templates, router"}

func init() {
	register(&Check{
		ID: "C06", Level: "exploration", Quick: 440, Thorough: 9000,
		Rule: "Each unit loads an input, exports it and imports the export again: without faults (also in another process), and with faults at the operations on the export file seen before, with full disks, and with short writes. A success has to be importable and to answer every request like the original; every page and lookup is compared.",
		Real: realWeb, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			u.Small = true
			w := u.World(func(w *world.Params) {
				if w.Size > 1 {
					w.Size = 1
				}
				w.Names = b2i(u.R.P(15))
			})
			a := args("http", b2i(u.R.P(50)), "flags", u.R.N(60), "stats", u.R.N(3), "existing", u.R.N(3)*u.R.N(3000))
			base := hx.Spec{Scenario: "export", World: w, Sched: u.Sched(0), Args: args2(a, "exact", 1)}
			h := &History{Kind: "no fault", Incs: []hx.Spec{base}}
			if u.R.P(40) {
				h.Kind, h.Same = "other process", "answers"
				h.Incs = append(h.Incs, hx.Spec{Scenario: "import", World: w, Sched: u.Sched(0), Chain: true, Args: args2(a)})
			}
			res := u.Exec(h)
			if res == nil {
				return
			}
			for i := 0; i < 8; i++ {
				s := base
				s.Sched = u.Sched(res[0].Sim.Steps)
				s.Args = args2(a, "http", b2i(u.R.P(15)))
				kind := "fault"
				switch {
				case i == 7:
					s.Faults = u.benign(outPath)
					s.Args = args2(s.Args, "exact", 1)
					kind = "harmless"
				case i == 5 || i == 6:
					s.Capacity = 1 + int64(u.R.N(int(res[0].Nums["disk"])+10))
					if i == 6 {
						s.Capacity = int64(res[0].Nums["disk"]) - int64(u.R.N(40))
					}
					s.Args["existing"] = 0
					if s.Capacity < 1 {
						continue
					}
					kind = "small disk"
				default:
					if f, ok := u.fault(res[0].Counts, outPath, map[string]int{"write": 50, "close": 25, "create": 10, "*": 1, "sync": 10, "truncate": 5, "rename": 10}); ok {
						s.Faults = append(s.Faults, f)
					}
					if u.R.P(20) {
						s.Faults = append(s.Faults, simos.Fault{Op: "write", Path: outPath, Nth: 1, Kind: "short", Sticky: true, Arg: int64(u.R.N(1 << 20))})
					}
				}
				if u.Exec(&History{Kind: kind, Incs: []hx.Spec{s}}) == nil {
					return
				}
			}
		},
	})
	register(&Check{
		ID: "C07", Level: "exploration", Quick: 330, Thorough: 12000,
		Rule: "Each unit exports an index and imports many damaged copies: truncated anywhere, with bits flipped, bytes changed, zeroed, removed, repeated or appended, with a damaged payload under a fitting checksum, and with reads that fail. An import that succeeds has to have the original contents; memory is bounded.",
		Real: realWeb, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			u.Small = true
			w := u.World(func(w *world.Params) {
				if w.Size > 1 {
					w.Size = 1
				}
			})
			a := args("flags", u.R.N(60), "stats", u.R.N(3))
			for i := 0; i < 6; i++ {
				s := hx.Spec{Scenario: "damaged", World: w, Sched: u.Sched(0), Args: args2(a, "damage", 1+u.R.N(1<<30), "n", 25)}
				kind := "damaged"
				switch i {
				case 4:
					kind = "read fault"
					s.Args["n"] = 1
					s.Faults = []simos.Fault{{Op: []string{"read", "read", "read", "open"}[u.R.N(4)], Path: outPath, Nth: u.R.N(4), Kind: "eio", Sticky: u.R.P(50)}}
					if s.Faults[0].Op == "open" {
						s.Faults[0].Nth = 1
						s.Faults[0].Kind = []string{"eacces", "emfile", "eio"}[u.R.N(3)]
					}
					if s.Faults[0].Nth == 0 {
						s.Faults[0].Nth = 1
					}
					if u.R.P(50) {
						s.Faults = append(s.Faults, simos.Fault{Op: "read", Path: outPath, Nth: 1, Kind: "short", Sticky: true, Arg: int64(u.R.N(1 << 20))})
						if s.Faults[0].Op == "read" {
							s.Faults[0].Nth = 1 + u.R.N(30)
						}
					}
				case 5:
					kind = "harmless"
					s.Args["n"], s.Args["exact"] = 1, 1
					s.Faults = []simos.Fault{{Op: "read", Path: outPath, Nth: 1 + u.R.N(3), Kind: "short", Sticky: true, Arg: int64(u.R.N(1 << 20))}}
					if u.R.P(50) {
						s.Faults = append(s.Faults, simos.Fault{Op: "read", Path: outPath, Nth: 1 + u.R.N(6), Kind: "eintr"})
					}
				}
				if u.Exec(&History{Kind: kind, Incs: []hx.Spec{s}}) == nil {
					return
				}
			}
		},
	})
}

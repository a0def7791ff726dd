package driver

import (
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/simos"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

func init() {
	register(&Check{
		ID: "C14", Level: "exploration", Quick: 600, Thorough: 9000,
		Rule: "Each unit loads (in memory and cached, by the library and like the server), exports, imports intact and damaged exports, or exports to sqlite, once without faults and then with faults at operations seen in that run, malformed inputs, full disks and stalls. When the call has returned and simulated time has passed, no goroutine and no open file may be left; not returning is a violation.",
		Real: append([]string{"glass export and import", "exporter.SQL and sqlite"}, realLoad...), Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			u.Small = true
			w := u.World(func(w *world.Params) {
				if w.Size > 1 && !u.R.P(20) {
					w.Size = 1
				}
				w.Names = b2i(u.R.P(20))
			})
			switch x := u.R.N(100); {
			case x < 60:
				u.leakLoad(w)
			case x < 75:
				u.leakExport(w)
			case x < 85:
				u.leakImport(w)
			default:
				u.leakSQL()
			}
		},
	})
}

// leakLoad checks what loads leave behind.
func (u *Unit) leakLoad(w world.Params) {
	a := args("leak", 1, "disk", b2i(u.R.P(65)), "compact", u.compact(w), "buf", u.R.N(3), "glass", b2i(u.R.P(35)), "cacheat", u.R.N(3), "progress", b2i(u.R.P(30)))
	base := hx.Spec{Scenario: "load", World: w, Sched: u.Sched(0), Args: a}
	if u.R.P(50) {
		base.Faults = []simos.Fault{{Op: "read", Path: inPath, Nth: 1, Kind: "short", Sticky: true, Arg: int64(u.R.N(1 << 20))}}
	}
	res := u.Exec(&History{Kind: "load", Incs: []hx.Spec{base}})
	if res == nil {
		return
	}
	for i := 0; i < 9; i++ {
		s := base
		s.Sched = u.Sched(res[0].Sim.Steps)
		s.Faults = append([]simos.Fault(nil), base.Faults...)
		kind := "load with faults"
		switch {
		case i == 7:
			s.Args = args2(a, "damage", 1+u.R.N(5), "at", 1+u.R.N(1<<20))
			kind = "malformed input"
		case i == 8 && a["disk"] != 0:
			s.Capacity = 1 + int64(u.R.N(int(res[0].Nums["disk"])+10))
			kind = "small disk"
		default:
			for n := 1 + b2i(u.R.P(25)); n > 0; n-- {
				class := inPath
				if a["disk"] != 0 && u.R.P(75) {
					class = cachePath
				}
				var weights map[string]int
				if u.R.P(50) {
					weights = map[string]int{"open": 10, "create": 15, "close": 10, "seek": 10, "mkdir": 5, "flock": 5, "stat": 2, "unlink": 5, "rename": 5, "read": 5}
				}
				if f, ok := u.fault(res[0].Counts, class, weights); ok {
					s.Faults = append(s.Faults, f)
				}
			}
			if u.R.P(20) {
				s.Faults = append(s.Faults, simos.Fault{Op: "", Path: cachePath, Nth: 1 + u.R.N(20), Kind: "stall", Arg: int64(1e9 * (1 + u.R.N(30)))})
			}
		}
		if u.Exec(&History{Kind: kind, Incs: []hx.Spec{s}}) == nil {
			return
		}
	}
}

// leakExport checks what exports leave behind.
func (u *Unit) leakExport(w world.Params) {
	a := args("leak", 1, "flags", u.R.N(60), "stats", u.R.N(3), "existing", u.R.N(2)*u.R.N(3000))
	base := hx.Spec{Scenario: "export", World: w, Sched: u.Sched(0), Args: a}
	res := u.Exec(&History{Kind: "export", Incs: []hx.Spec{base}})
	if res == nil {
		return
	}
	for i := 0; i < 6; i++ {
		s := base
		s.Sched = u.Sched(res[0].Sim.Steps)
		if i == 5 {
			s.Capacity = 1 + int64(u.R.N(int(res[0].Nums["disk"])+10))
			s.Args = args2(args("leak", 1, "flags", a["flags"], "stats", a["stats"]))
		} else if f, ok := u.fault(res[0].Counts, outPath, map[string]int{"write": 30, "close": 20, "create": 10, "sync": 10, "*": 5}); ok {
			s.Faults = append(s.Faults, f)
		}
		if u.Exec(&History{Kind: "export with faults", Incs: []hx.Spec{s}}) == nil {
			return
		}
	}
}

// leakImport checks what imports leave behind.
func (u *Unit) leakImport(w world.Params) {
	a := args("leak", 1, "flags", u.R.N(60), "stats", u.R.N(3))
	for i := 0; i < 6; i++ {
		s := hx.Spec{Scenario: "damaged", World: w, Sched: u.Sched(0), Args: args2(a, "damage", 1+u.R.N(1<<30), "n", 8)}
		if i >= 3 {
			s.Faults = []simos.Fault{{Op: []string{"read", "read", "open", "close", "stat"}[u.R.N(5)], Path: outPath, Nth: 1, Kind: "eio", Sticky: u.R.P(50)}}
			if s.Faults[0].Op == "read" {
				s.Faults[0].Nth = 1 + u.R.N(5)
				s.Faults = append(s.Faults, simos.Fault{Op: "read", Path: outPath, Nth: 1, Kind: "short", Sticky: true, Arg: int64(u.R.N(1 << 20))})
			}
		}
		if u.Exec(&History{Kind: "import of damaged or unreadable exports", Incs: []hx.Spec{s}}) == nil {
			return
		}
	}
}

// leakSQL checks what exports to a database leave behind.
func (u *Unit) leakSQL() {
	w := u.sqlWorld()
	a := args2(u.sqlArgs(), "leak", 1)
	base := hx.Spec{Scenario: "sql", World: w, Sched: u.Sched(0), Args: a}
	res := u.Exec(&History{Kind: "sql export", Incs: []hx.Spec{base}})
	if res == nil {
		return
	}
	for i := 0; i < 5; i++ {
		s := base
		s.Sched = u.Sched(res[0].Sim.Steps)
		switch {
		case i < 3:
			s.Faults = []simos.Fault{{Op: []string{"sqlexec", "sqlexec", "sqlexec", "sqlopen", "sqlclose"}[u.R.N(5)], Path: "db", Nth: u.nth(res[0].Counts["sqlexec db"]), Kind: []string{"fail", "badconn"}[u.R.N(2)], Sticky: u.R.P(25)}}
			if s.Faults[0].Op != "sqlexec" {
				s.Faults[0].Nth = 1
			}
			if u.R.P(40) {
				s.Faults = append(s.Faults, u.slow())
			}
		case i == 3:
			if f, ok := u.fault(res[0].Counts, outPath, nil); ok {
				s.Faults = []simos.Fault{f}
			}
		default:
			s.Capacity = 1 + int64(u.R.N(int(res[0].Nums["disk"])+10))
		}
		if u.Exec(&History{Kind: "sql export with faults", Incs: []hx.Spec{s}}) == nil {
			return
		}
	}
}

func init() {
	register(&Check{
		ID: "C15", Level: "exploration", Quick: 1300, Thorough: 12000,
		Rule: "Each unit is a seeded history of additions, same-as statements, questions, compactions and unused identifiers on a mapping in memory and on disk (tiny database buffers), compared after every operation with a union-find model; then the same history with failing, short and stalled storage operations, where an error has to be reported, ends the changes, and everything that was answered has to be right.",
		Real: []string{"imap.IMap, memory and disk maps", "goleveldb"}, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			w := world.Params{Seed: u.R.Uint64() >> 12}
			ops := 5 + u.R.N([]int{20, 60, 150, 300}[u.R.N(4)])
			a := args("ops", ops, "labels", 1+u.R.N(20), "engine", 3, "buf", u.R.N(3), "again", b2i(u.R.P(15)))
			base := hx.Spec{Scenario: "imap", World: w, Sched: u.Sched(0), Args: a}
			res := u.Exec(&History{Kind: "history", Incs: []hx.Spec{base}})
			if res == nil {
				return
			}
			for i := 0; i < 7; i++ {
				s := base
				s.Sched = u.Sched(res[0].Sim.Steps)
				s.Args = args2(args("engine", 2, "buf", u.R.N(3)), "ops", ops, "labels", a["labels"], "again", a["again"])
				kind := "history with faults"
				switch {
				case i == 0:
					kind = "other schedule"
				case i == 1:
					kind = "harmless faults"
					s.Args["exact"] = 1
					s.Faults = u.benign(cachePath)
				case i == 2:
					kind = "small disk"
					s.Capacity = 1 + int64(u.R.N(60000))
				default:
					s.Args["buf"] = a["buf"]
					var weights map[string]int
					if u.R.P(60) {
						weights = map[string]int{"read": 10, "write": 20, "sync": 5, "open": 5, "create": 5}
					}
					for n := 1 + b2i(u.R.P(25)); n > 0; n-- {
						if f, ok := u.fault(res[0].Counts, cachePath, weights); ok {
							s.Faults = append(s.Faults, f)
						}
					}
				}
				if u.Exec(&History{Kind: kind, Incs: []hx.Spec{s}}) == nil {
					return
				}
			}
		},
	})
	register(&Check{
		ID: "C16", Level: "exploration", Quick: 600, Thorough: 12000,
		Rule: "Each unit builds a small graph with same-as and inverse statements, masks and compactions in memory or on disk, and runs several path queries alone and concurrently: complete, abandoned after some paths with and without closing, several times the same, with attempts to modify the index, and with reads that fail. Every path and its triples are compared with a model of path matching and with the query run alone; nothing may be left running after a query or after the index was closed.",
		Real: []string{"igraph.Index and its queries, memory and disk engines", "pkglib/traversal", "goleveldb"}, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			w := world.Params{Seed: u.R.Uint64() >> 12}
			ops := 5 + u.R.N([]int{20, 60, 150}[u.R.N(3)])
			engine := 1 + b2i(u.R.P(60))
			a := args("ops", ops, "labels", 1+u.R.N(12), "engine", engine, "buf", 2-b2i(u.R.P(25)), "queries", 1+u.R.N(8), "workers", u.R.N(7), "alone", b2i(u.R.P(50)), "modify", b2i(u.R.P(30)))
			base := hx.Spec{Scenario: "igraph", World: w, Sched: u.Sched(0), Args: a}
			res := u.Exec(&History{Kind: "queries", Incs: []hx.Spec{base}})
			if res == nil {
				return
			}
			for i := 0; i < 6; i++ {
				s := base
				s.Sched = u.Sched(res[0].Sim.Steps)
				kind := "other schedule"
				if i >= 2 && engine == 2 {
					kind = "queries with faults"
					if i == 2 {
						kind = "queries with harmless faults"
						s.Faults = u.benign(cachePath)
						s.Args = args2(a, "exact", 1)
					} else if f, ok := u.fault(res[0].Counts, cachePath, nil); ok {
						s.Faults = []simos.Fault{f}
					}
				}
				if u.Exec(&History{Kind: kind, Incs: []hx.Spec{s}}) == nil {
					return
				}
			}
		},
	})
}

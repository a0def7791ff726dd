package driver

import (
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/simos"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

var realSQL = []string{"everything of a load", "exporter.SQL", "database/sql, go-sqlbuilder", "sqlite (glebarez/go-sqlite, modernc.org/sqlite)"}

// sqlArgs picks how an export is made.
func (u *Unit) sqlArgs() map[string]int {
	batch := []int{1, 2, 3, 5, 17, 1000}[u.R.N(6)]
	maxvar := []int{12 + u.R.N(10), 12 + u.R.N(60), 32766, 32766}[u.R.N(4)]
	if u.R.P(5) {
		maxvar = 1 + u.R.N(6)
	}
	return args("batch", batch, "maxvar", maxvar, "fields", u.R.N(2), "skipclose", b2i(u.R.P(20)), "sep", u.R.N(4), "disk", b2i(u.R.P(15)), "buf", u.R.N(3))
}

func (u *Unit) sqlWorld() world.Params {
	u.Small = true
	return u.World(func(w *world.Params) {
		if w.Size > 1 && !u.R.P(15) {
			w.Size = 1
		}
		w.Names = 2
	})
}

// slow statements
func (u *Unit) slow() simos.Fault {
	return simos.Fault{Op: []string{"sqlexec", "sqlexec", "sqlopen"}[u.R.N(3)], Path: "db", Nth: 1 + u.R.N(5), Kind: "slow", Arg: int64(1 + u.R.N(1<<20)), Sticky: u.R.P(60)}
}

func init() {
	register(&Check{
		ID: "C11", Level: "exploration", Quick: 480, Thorough: 6000,
		Rule: "Each unit exports an input to an sqlite database on the simulated disk, with different batch sizes, variable limits, separators and schedules, slow statements, and again into a database that an earlier export of the same or other data left behind, complete or killed at any change of the file system. The database is read back and compared row by row with the model.",
		Real: realSQL, Stub: stubAll, Assume: append([]string{"the database driver under test in the exporter's place is sqlite; others are represented by it"}, assume...),
		Unit: func(u *Unit) {
			w := u.sqlWorld()
			a := u.sqlArgs()
			base := hx.Spec{Scenario: "sql", World: w, Sched: u.Sched(0), Args: a}
			res := u.Exec(&History{Kind: "export", Incs: []hx.Spec{base}})
			if res == nil {
				return
			}
			for i := 0; i < 2; i++ {
				s := base
				s.Sched = u.Sched(res[0].Sim.Steps)
				s.Args = u.sqlArgs()
				s.Faults = []simos.Fault{u.slow()}
				if u.Exec(&History{Kind: "export with slow statements", Incs: []hx.Spec{s}}) == nil {
					return
				}
			}
			muts := 0
			for k, n := range res[0].Counts {
				for _, op := range []string{"write", "create", "unlink", "truncate", "sync"} {
					if k == op+" "+outPath {
						muts += n
					}
				}
			}
			for i := 0; i < 3; i++ {
				h := &History{Kind: "export again"}
				for n := 1 + b2i(u.R.P(30)); n > 0; n-- {
					s := base
					s.Chain = len(h.Incs) > 0
					s.Sched = u.Sched(res[0].Sim.Steps)
					s.Args = args2(a, "journal", 1+u.R.N(1<<20))
					if u.R.P(30) {
						s.World = u.changedData(w)
					}
					if i > 0 {
						h.Kind = "crash and export again"
						f := simos.Fault{Op: "mut", Path: outPath, Nth: u.nth(muts), Kind: "crash"}
						if u.R.P(30) {
							f = simos.Fault{Op: "write", Path: outPath, Nth: u.nth(res[0].Counts["write "+outPath]), Kind: "torn", Arg: int64(u.R.N(1 << 20))}
						}
						s.Faults = []simos.Fault{f}
					}
					h.Incs = append(h.Incs, s)
				}
				s := base
				s.Chain = true
				s.Sched = u.Sched(res[0].Sim.Steps)
				h.Incs = append(h.Incs, s)
				if u.Exec(h) == nil {
					return
				}
			}
		},
	})
	register(&Check{
		ID: "C12", Level: "exploration", Quick: 360, Thorough: 6000,
		Rule: "Each unit exports an input once without faults, then with statements, opening or closing of the database that fail (before or from a place seen in that run on), with lost connections, with faults in the files of the database, and with small disks. A success has to have the contents of the model and no failed statement; an error has to be one that occurred; the database has to be closed.",
		Real: realSQL, Stub: append([]string{"a database/sql driver in front of sqlite that fails on request"}, stubAll...), Assume: assume,
		Unit: func(u *Unit) {
			w := u.sqlWorld()
			a := u.sqlArgs()
			base := hx.Spec{Scenario: "sql", World: w, Sched: u.Sched(0), Args: a}
			res := u.Exec(&History{Kind: "no fault", Incs: []hx.Spec{base}})
			if res == nil {
				return
			}
			stmts := res[0].Counts["sqlexec db"]
			for i := 0; i < 8; i++ {
				s := base
				s.Sched = u.Sched(res[0].Sim.Steps)
				s.Args = args2(a)
				kind := "failing statement"
				f := simos.Fault{Op: "sqlexec", Path: "db", Nth: u.nth(stmts), Kind: "fail", Sticky: u.R.P(25)}
				switch i {
				case 0, 1, 2:
				case 3:
					kind = "lost connection"
					f.Kind = "badconn"
				case 4:
					kind = "failing to open or close"
					f.Op = []string{"sqlopen", "sqlclose", "sqlclose", "sqlclose"}[u.R.N(4)]
					f.Nth = 1
					if f.Op == "sqlclose" {
						s.Args["skipclose"] = 0
					}
				case 5:
					kind = "full disk"
					s.Capacity = 1 + int64(u.R.N(int(res[0].Nums["disk"])+10))
				case 6:
					kind = "harmless"
					s.Args["exact"] = 1
					if a["maxvar"] < 12 {
						delete(s.Args, "exact")
					}
				default:
					kind = "failing files"
				}
				switch {
				case i < 5:
					s.Faults = []simos.Fault{f}
					if u.R.P(30) {
						s.Faults = append(s.Faults, u.slow())
					}
				case i == 6:
					s.Faults = append(u.benign(outPath), u.slow())
				case i == 7:
					if f, ok := u.fault(res[0].Counts, outPath, nil); ok {
						s.Faults = []simos.Fault{f}
					}
				}
				if u.Exec(&History{Kind: kind, Incs: []hx.Spec{s}}) == nil {
					return
				}
			}
		},
	})
}

// changedData returns an input with the same pathbuilder and other data.
func (u *Unit) changedData(w world.Params) world.Params {
	for i := 0; i < 20; i++ {
		x := w
		x.Change = 1
		if world.Fits(x, 12000) {
			return x
		}
	}
	return w
}

package driver

import (
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/simos"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

// modes of the programs, see scen/cli.go.
const (
	modeJSON     = 0
	modeSQLite   = 1
	modeCSV      = 2
	modeExport   = 10
	modeReexport = 11
	modeBench    = 12
	modeServe    = 13
	modeServeExp = 14
)

func init() {
	register(&Check{
		ID: "C13", Level: "exploration", Quick: 360, Thorough: 6000,
		Rule: "Each unit runs n2j (json, sqlite, csv) or hangover (export, export of an export, benchmark, server) with simulated arguments, files, terminal, network and exit: without faults, then with faults in the input, the cache, the output and the terminal placed at operations seen in that run, with small disks, damaged inputs and exports. Exit status 0 requires the complete output, which is read back by another process; otherwise there has to be a message.",
		Real: append([]string{"cmd/n2j and cmd/hangover"}, append(realSQL, realWeb...)...), Stub: append([]string{"command line, exit status and terminal: simulated", "network: simulated", "mysql: not covered"}, stubAll...), Assume: assume,
		Unit: func(u *Unit) {
			w := u.sqlWorld()
			mode := []int{modeJSON, modeSQLite, modeCSV, modeExport, modeExport, modeReexport, modeBench, modeServe, modeServeExp}[u.R.N(9)]
			a := args("mode", mode, "fields", u.R.N(2), "sep", u.R.N(4), "disk", b2i(u.R.P(25)), "buf", u.R.N(3), "flags", u.R.N(60), "seed", 1+u.R.N(1<<20), "dir", b2i(u.R.P(25)), "reqs", 1+u.R.N(12), "pace", []int{10, 1000, 100000}[u.R.N(3)])
			run := func(h *History, s hx.Spec) []*hx.Result {
				if mode == modeReexport || mode == modeServeExp {
					// the export it starts from
					first := hx.Spec{Scenario: "cli", World: w, Sched: u.Sched(20000), Args: args2(a, "mode", modeExport)}
					first.Args["mode"] = modeExport
					h.Incs = append(h.Incs, first)
					s.Chain = true
				}
				h.Incs = append(h.Incs, s)
				if mode == modeSQLite || mode == modeExport || mode == modeReexport {
					h.Incs = append(h.Incs, hx.Spec{Scenario: "cliresult", World: w, Sched: hx.Sched{Seed: s.Sched.Seed}, Args: args2(a, "fields", a["fields"]), Chain: true})
				}
				return u.Exec(h)
			}
			base := hx.Spec{Scenario: "cli", World: w, Sched: u.Sched(0), Args: a}
			names := map[int]string{modeJSON: "n2j json", modeSQLite: "n2j sqlite", modeCSV: "n2j csv", modeExport: "hangover export", modeReexport: "hangover export again", modeBench: "hangover bench", modeServe: "hangover serve", modeServeExp: "hangover serve an export"}
			rs := run(&History{Kind: names[mode]}, base)
			if rs == nil {
				return
			}
			var res *hx.Result
			for i, r := range rs {
				if r != nil && (i == 0 || mode == modeReexport && i == 1 || mode == modeServeExp && i == 1) {
					res = r
				}
			}
			for i := 0; i < 8; i++ {
				s := base
				s.Sched = u.Sched(res.Sim.Steps)
				s.Args = args2(a)
				kind := names[mode]
				switch {
				case i < 5:
					class := []string{inPath, outPath, outPath, "stdout", cachePath}[u.R.N(5)]
					if class == "stdout" && mode != modeJSON {
						class = outPath
					}
					var wts map[string]int
					if u.R.P(50) {
						wts = map[string]int{"write": 20, "read": 20, "close": 10, "sync": 5, "create": 5}
					}
					if f, ok := u.fault(res.Counts, class, wts); ok {
						if class == "stdout" && u.R.P(20) {
							f.Kind = "epipe"
						}
						s.Faults = append(s.Faults, f)
						kind += " with faults"
					}
				case i == 5:
					s.Capacity = 1 + int64(u.R.N(int(res.Nums["disk"])+20))
					kind += " with faults"
				case i == 6:
					s.Args["exact"] = 1
					for _, c := range []string{inPath, outPath, cachePath} {
						s.Faults = append(s.Faults, u.benign(c)...)
					}
					if mode == modeJSON {
						s.Faults = append(s.Faults, u.benign("stdout")...)
					}
					kind += " with harmless faults"
				default:
					switch x := u.R.N(4); {
					case x == 0 && (mode == modeServe || mode == modeServeExp):
						s.Args["nolisten"] = 1
					case x == 1:
						s.Faults = []simos.Fault{{Op: "write", Path: "stderr", Nth: 1 + u.R.N(6), Kind: []string{"eio", "enospc", "epipe"}[u.R.N(3)], Sticky: u.R.P(50)}}
					case mode != modeReexport && mode != modeServeExp:
						s.Args["damage"], s.Args["at"] = 1+u.R.N(5), 1+u.R.N(1<<20)
					}
					kind += " with bad surroundings"
				}
				if run(&History{Kind: kind}, s) == nil {
					return
				}
			}
		},
	})
}

var _ = world.Params{}

package driver

import (
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/simos"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

func init() {
	small := func(w *world.Params) {
		if w.Size > 1 {
			w.Size = 1
		}
	}
	register(&Check{
		ID: "C08", Level: "exploration", Quick: 500, Thorough: 9000,
		Rule: "Each unit runs a server that loads an input while clients send requests of all kinds at any moment, before, during and after it becomes ready, directly or over a simulated network; some loads fail or are slow. The history of requests is checked: a loading answer (complete, and nothing else) before, the data after, never back.",
		Real: realWeb, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			u.Small = true
			w := u.World(small)
			a := args("flags", u.R.N(60), "clients", 1+u.R.N(5), "reqs", 2+u.R.N(14), "seed", 1+u.R.N(1<<20), "disk", b2i(u.R.P(15)), "buf", u.R.N(3))
			base := hx.Spec{Scenario: "server", World: w, Sched: u.Sched(0), Args: a}
			res := u.Exec(&History{Kind: "load", Incs: []hx.Spec{base}})
			if res == nil {
				return
			}
			span := int(res[0].Nums["nanos"]/1000) + 1
			if span > 1<<24 {
				span = 1 << 24
			}
			for i := 0; i < 9; i++ {
				s := base
				s.Sched = u.Sched(res[0].Sim.Steps)
				sp := span
				if u.R.P(50) {
					sp = 1 + u.R.N(span)
				}
				s.Args = args2(a, "span", sp, "seed", 1+u.R.N(1<<20), "delay", u.R.N(2)*u.R.N(1000000), "about", b2i(u.R.P(2)))
				s.Args["reqs"] = 2 + u.R.N(14)
				kind := "load"
				switch i {
				case 6, 7, 8:
					kind = "crowd when becoming ready"
					s.Args["burst"] = 1 + u.R.N(6)
					s.Args["lead"] = u.R.N(1 << uint(u.R.N(13)))
					if s.Sched.Policy != 1 && u.R.P(60) {
						s.Sched.Policy = 1
						s.Sched.YieldP = []uint32{1000, 6000, 20000, 40000}[u.R.N(4)]
					}
					s.Args["clients"] = u.R.N(2)
					s.Args["net"] = b2i(u.R.P(10))
				case 3:
					kind = "slow or failing clients"
					s.Args["bad"] = 30
				case 4:
					kind = "network"
					s.Args["net"] = 1
					s.Args["bad"] = u.R.N(2) * 20
				case 5:
					kind = "failing or slow load"
					cls := inPath
					if a["disk"] != 0 && u.R.P(50) {
						cls = cachePath
					}
					if f, ok := u.fault(res[0].Counts, cls, nil); ok && u.R.P(70) {
						s.Faults = []simos.Fault{f}
					} else {
						s.Faults = []simos.Fault{{Op: "read", Path: inPath, Nth: 1 + u.R.N(4), Kind: "stall", Arg: int64(1e6 * (1 + u.R.N(3000))), Sticky: u.R.P(50)}}
					}
				}
				if u.Exec(&History{Kind: kind, Incs: []hx.Spec{s}}) == nil {
					return
				}
			}
		},
	})
	register(&Check{
		ID: "C09", Level: "exploration", Quick: 1200, Thorough: 9000,
		Rule: "Each unit sends requests of all kinds from concurrent clients to a server that is ready, directly or over a simulated network; clients are slow, get stuck or fail in the middle of an answer. Every answer to a working client is compared with the answer a fresh server gives to it alone, and those with the model.",
		Real: realWeb, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			u.Small = true
			w := u.World(small)
			a := args("ready", 1, "flags", u.R.N(60))
			steps := uint64(0)
			for i := 0; i < 5; i++ {
				s := hx.Spec{Scenario: "server", World: w, Sched: u.Sched(steps)}
				s.Args = args2(a, "span", 1+u.R.N(4000), "seed", 1+u.R.N(1<<20), "clients", 1+u.R.N(6), "reqs", 1+u.R.N(16), "about", b2i(u.R.P(3)))
				kind := "requests"
				switch i {
				case 1, 2:
					kind = "slow, stuck or failing clients"
					s.Args["bad"] = 30
					s.Args["stuck"] = u.R.N(4)
				case 3:
					kind = "network"
					s.Args["net"] = 1
				case 4:
					kind = "network with bad clients"
					s.Args["net"] = 1
					s.Args["bad"] = 30
					s.Args["stuck"] = u.R.N(4)
				}
				res := u.Exec(&History{Kind: kind, Incs: []hx.Spec{s}})
				if res == nil {
					return
				}
				steps = res[0].Sim.Steps
			}
		},
	})
}

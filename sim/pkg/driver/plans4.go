package driver

import (
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/simos"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

func init() {
	register(&Check{
		ID: "C17", Level: "exploration", Quick: 130, Thorough: 12000,
		Rule: "Each unit loads an input several times, in memory or on disk, each time in a process of its own with another schedule and other randomness for map iteration; contents in their order and the answers to all pages have to be identical.",
		Real: realWeb, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			disk := u.R.P(25)
			u.Small = disk
			w := u.World(func(w *world.Params) {
				if w.Size > 1 && !u.R.P(20) {
					w.Size = 1
				}
			})
			a := args("flags", u.R.N(60), "disk", b2i(disk))
			h := &History{Kind: "answers", Same: "contents,answers"}
			if disk {
				h.Kind = "answers on disk"
			}
			n := 3 + u.R.N(2)
			for i := 0; i < n; i++ {
				b := args2(a, "compact", 0)
				if disk {
					b["buf"] = u.R.N(3)
					b["cacheat"] = u.R.N(3)
				}
				h.Incs = append(h.Incs, hx.Spec{Scenario: "answers", World: w, Sched: u.Sched(20000), Args: b})
			}
			u.Exec(h)
		},
	})

	register(&Check{
		ID: "C10", Level: "exploration", Quick: 1000, Thorough: 20000,
		Rule: "Each unit drives the statistics with stages that succeed and fail, one or several updaters, observers, loggers, a slow or failing terminal and updates after closing, and observes real loads, in memory and on disk, some of which fail. Every observation is checked: counts belong together, never go backwards, stages come in order and once each and end at their total; whole lines are logged; nothing changes after closing.",
		Real: []string{"stats.Stats", "progress.Rewritable", "log/slog", "everything of a load (observed loads)"}, Stub: stubAll, Assume: assume,
		Unit: func(u *Unit) {
			steps := uint64(0)
			for i := 0; i < 4; i++ {
				a := args("seed", 1+u.R.N(1<<24), "slow", u.R.N(3)*u.R.N(100000), "badterm", b2i(u.R.P(15))*(1+u.R.N(4)), "output", []int{0, 0, 0, 0, 1, 2}[u.R.N(6)],
					"stages", 1+u.R.N(7), "updaters", []int{1, 1, 2, 4}[u.R.N(4)], "updates", 1+u.R.N(12), "observers", u.R.N(5), "loggers", u.R.N(3), "pace", []int{0, 10, 1000, 100000}[u.R.N(4)], "hook", u.R.N(2))
				kind := "statistics"
				if a["badterm"] != 0 {
					kind = "statistics on a failing terminal"
				}
				res := u.Exec(&History{Kind: kind, Incs: []hx.Spec{{Scenario: "stats", Sched: u.Sched(steps), Args: a}}})
				if res == nil {
					return
				}
				steps = res[0].Sim.Steps
			}
			w := u.World(func(w *world.Params) {
				if w.Size > 1 {
					w.Size = 1
				}
			})
			disk := u.R.P(20)
			base := hx.Spec{Scenario: "watch", World: w, Sched: u.Sched(0), Args: args("disk", b2i(disk), "observers", u.R.N(4), "pace", []int{100, 3000, 100000}[u.R.N(3)], "seed", 1+u.R.N(1<<20), "hook", 1, "buf", u.R.N(3))}
			res := u.Exec(&History{Kind: "observed load", Incs: []hx.Spec{base}})
			if res == nil {
				return
			}
			for i := 0; i < 3; i++ {
				s := base
				s.Sched = u.Sched(res[0].Sim.Steps)
				s.Args = args2(base.Args, "observers", 1+u.R.N(4), "hook", u.R.N(2), "slowhook", u.R.N(2)*u.R.N(5000))
				if u.Exec(&History{Kind: "observed load", Incs: []hx.Spec{s}}) == nil {
					return
				}
			}
			s := base
			s.Sched = u.Sched(res[0].Sim.Steps)
			cls := inPath
			if disk && u.R.P(60) {
				cls = cachePath
			}
			if f, ok := u.fault(res[0].Counts, cls, nil); ok {
				s.Faults = []simos.Fault{f}
				u.Exec(&History{Kind: "observed failing load", Incs: []hx.Spec{s}})
			}
		},
	})
	register(&Check{
		ID: "C18", Level: "exploration", Quick: 2000, Thorough: 60000,
		Rule: "Each unit drives the progress line, reader and writer by random histories of updates and of full, short and failing transfers, while the simulated clock advances by nothing, parts of the interval or more and the wall clock jumps, and the terminal works or fails. The terminal is emulated: every update has to cover what was there, come no sooner than allowed, and show the latest state; transfers have to be the same as without the counters.",
		Real: []string{"progress.Rewritable, Progress, Reader, Writer", "go-humanize"}, Stub: []string{"clock: simulated", "terminal: emulated", "source and sink: generated"}, Assume: assume,
		Unit: func(u *Unit) {
			for i := 0; i < 6; i++ {
				a := args("seed", 1+u.R.N(1<<24), "mode", i%3, "n", 1+u.R.N(60), "interval", u.R.N(6), "jumps", u.R.N(2), "badterm", b2i(u.R.P(15))*(1+u.R.N(4)))
				kind := []string{"line", "reader", "writer"}[i%3]
				if a["badterm"] != 0 {
					kind += " on a failing terminal"
				}
				if u.Exec(&History{Kind: kind, Incs: []hx.Spec{{Scenario: "meter", Sched: u.Sched(0), Args: a}}}) == nil {
					return
				}
			}
		},
	})
}

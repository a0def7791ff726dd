package scen

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

// terminal records what is written to it, one write at a time.
type terminal struct {
	writes []string
	at     []time.Duration
	began  time.Time
	slow   time.Duration
	fail   int // every so many writes fail
	n      int
	failed int
}

func (t *terminal) Write(b []byte) (int, error) {
	s := string(b)
	t.writes = append(t.writes, s)
	t.at = append(t.at, time.Since(t.began))
	t.n++
	if t.slow > 0 {
		time.Sleep(t.slow)
	}
	if string(b) != s {
		t.writes = append(t.writes, "changed while being written")
	}
	if t.fail > 0 && t.n%t.fail == 0 {
		t.failed++
		return 0, errors.New("terminal is gone")
	}
	return len(b), nil
}

// lines checks that every write is a whole log line or a whole update of the progress line.
func (t *terminal) whole() error {
	for _, w := range t.writes {
		switch {
		case strings.HasPrefix(w, "\r"):
			if strings.ContainsAny(w[1:], "\r\n") {
				return fmt.Errorf("progress %q", w)
			}
		case strings.HasPrefix(w, "time=") && strings.HasSuffix(w, "\n") && strings.Count(w, "\n") == 1 && strings.Contains(w, " level=") && strings.Contains(w, " msg="):
		default:
			return fmt.Errorf("%q is neither a line of the log nor the progress", w)
		}
	}
	return nil
}

// samples of the progress, as one observer sees them.
type watcher struct {
	c     *hx.Ctx
	who   string
	rank  map[stats.Stage]int
	last  stats.Progress
	begun bool
	pair  func(stage stats.Stage, current, total int) error
	mono  bool // counts only grow
	all   []stats.StageStats
	n     int
	seen  map[stats.Stage]int
}

func (w *watcher) progress(p stats.Progress) {
	c := w.c
	w.n++
	if w.begun && w.last.Done && !p.Done {
		c.Fail("done", "%s: the progress is %+v after it was done", w.who, p)
	}
	if p.Done {
		if p.Stage != "" || p.Current != 0 || p.Total != 0 {
			c.Fail("done", "%s: the progress is %+v", w.who, p)
		}
		w.last, w.begun = p, true
		return
	}
	if err := w.pair(p.Stage, p.Current, p.Total); err != nil {
		c.Fail("torn", "%s: observed %+v: %v", w.who, p, err)
	}
	if p.Stage == "" {
		return // between stages
	}
	if _, ok := w.rank[p.Stage]; !ok {
		c.Fail("stage", "%s: unknown stage %q", w.who, p.Stage)
	}
	if w.seen == nil {
		w.seen = map[stats.Stage]int{}
	}
	w.seen[p.Stage]++
	if w.begun {
		a, b := w.rank[w.last.Stage], w.rank[p.Stage]
		if b < a {
			c.Fail("order", "%s: stage %q after %q", w.who, p.Stage, w.last.Stage)
		}
		if a == b && w.mono && p.Current < w.last.Current {
			c.Fail("backwards", "%s: %+v after %+v", w.who, p, w.last)
		}
	}
	w.last, w.begun = p, true
}

// list checks the list of stages against the one seen before.
func (w *watcher) list(all []stats.StageStats) {
	c := w.c
	w.n++
	var done []stats.StageStats
	for i, s := range all {
		if s.Stage == "" {
			c.Fail("list", "%s: a stage without a name", w.who)
		}
		if s.Start.Time.IsZero() {
			c.Fail("list", "%s: stage %q has no start", w.who, s.Stage)
		}
		if s.End.Time.IsZero() {
			if i != len(all)-1 {
				c.Fail("list", "%s: stage %q has not ended, but %q follows", w.who, s.Stage, all[i+1].Stage)
			}
		} else {
			if s.End.Time.Before(s.Start.Time) {
				c.Fail("time", "%s: stage %q ends before its start", w.who, s.Stage)
			}
			done = append(done, s)
		}
		if i > 0 {
			if s.Start.Time.Before(all[i-1].End.Time) {
				c.Fail("time", "%s: stage %q starts before %q ended", w.who, s.Stage, all[i-1].Stage)
			}
			if w.rank[s.Stage] < w.rank[all[i-1].Stage] {
				c.Fail("order", "%s: stage %q is listed after %q", w.who, s.Stage, all[i-1].Stage)
			}
		}
		if err := w.pair(s.Stage, s.Current, s.Total); err != nil {
			c.Fail("torn", "%s: listed %q %d/%d: %v", w.who, s.Stage, s.Current, s.Total, err)
		}
	}
	if len(done) < len(w.all) {
		c.Fail("list", "%s: %d finished stages after %d", w.who, len(done), len(w.all))
	} else {
		for i := range w.all {
			if done[i] != w.all[i] {
				c.Fail("list", "%s: finished stage %+v turned into %+v", w.who, w.all[i], done[i])
			}
		}
	}
	w.all = done
}

func pairOf(stage, n int) (current, total int) { return n, (n+3)*7 + stage*100000 }

var errStage = errors.New("this stage fails")

func init() {
	var term *terminal
	// stats: a loader of many stages, updaters, loggers and observers at the same time
	hx.Register("stats", &hx.Scenario{
		Body: func(c *hx.Ctx) {
			r := world.NewRand(uint64(c.Arg("seed")) + 99)
			term = &terminal{began: time.Now()}
			if c.Arg("slow") != 0 {
				term.slow = time.Duration(c.Arg("slow"))
			}
			term.fail = c.Arg("badterm")
			var st *stats.Stats
			switch c.Arg("output") {
			case 0:
				st = stats.NewStats(term)
			case 1:
				st = stats.NewStats(nil)
			}
			nStages := c.Arg("stages")
			updaters := c.Arg("updaters")
			rank := map[stats.Stage]int{"": 0}
			name := func(i int) stats.Stage { return stats.Stage(fmt.Sprintf("stage/%03d", i)) }
			for i := 1; i <= nStages; i++ {
				rank[name(i)] = i
			}
			known := func(stage stats.Stage, current, total int) error {
				i := rank[stage]
				if i == 0 {
					if current != 0 || total != 0 {
						return fmt.Errorf("counts without a stage")
					}
					return nil
				}
				if current == 0 && total == 0 {
					return nil // the stage just began
				}
				if _, want := pairOf(i, current); want != total {
					return fmt.Errorf("%d does not belong to %d", total, current)
				}
				return nil
			}
			mono := updaters <= 1
			watch := func(who string) *watcher {
				return &watcher{c: c, who: who, rank: rank, pair: known, mono: mono}
			}

			// OnUpdate sees every update
			updates := 0
			var latest stats.Progress
			var latestAll int
			if st != nil && c.Arg("hook") != 0 {
				uw := watch("update")
				uw.mono = false
				var mu sync.Mutex
				st.OnUpdate = func(s *stats.Stats) {
					if s != st {
						c.Fail("update", "OnUpdate is called with something else")
					}
					mu.Lock()
					defer mu.Unlock()
					updates++
					latest = s.Progress()
					latestAll = len(s.All())
					uw.progress(latest)
				}
			}

			over := false
			var wg sync.WaitGroup
			for i := 0; i < c.Arg("observers"); i++ {
				wg.Add(1)
				rr := world.NewRand(r.Uint64())
				go func(i int) {
					defer wg.Done()
					w := watch(fmt.Sprintf("observer %d", i))
					for k := 0; !over || k < 3; k++ {
						switch rr.N(6) {
						case 0, 1, 2:
							w.progress(st.Progress())
						case 3:
							w.list(st.All())
						case 4:
							cur := st.Current()
							if !cur.End.Time.IsZero() {
								c.Fail("current", "the current stage has ended: %+v", cur)
							}
							if !st.Done() {
								w.progress(stats.Progress{Stage: cur.Stage, Current: cur.Current, Total: cur.Total})
							}
							line := cur.Progress()
							if cur.Total != 0 && !strings.HasPrefix(line, string(cur.Stage)+": ") {
								c.Fail("line", "the progress line is %q in %+v", line, cur)
							}
						case 5:
							if d := st.Diff(); d.Time < 0 && !st.Done() {
								// a stage that has not ended yet has no length
								for _, s := range st.All() {
									if s.End.Time.IsZero() {
										d.Time = 0
									}
								}
							}
							st.IndexStats()
						}
						if rr.P(60) {
							time.Sleep(time.Duration(rr.N(c.Arg("pace") + 1)))
						}
						if k > 4000 {
							break
						}
					}
					c.EventN("observations", w.n)
				}(i)
			}
			var lg sync.WaitGroup
			logged := 0
			for i := 0; i < c.Arg("loggers"); i++ {
				lg.Add(1)
				rr := world.NewRand(r.Uint64())
				go func(i int) {
					defer lg.Done()
					for k := 0; k < 6; k++ {
						switch rr.N(3) {
						case 0:
							st.Log("hello", "logger", i, "n", k)
							logged++
						case 1:
							st.LogError("something", errStage, "logger", i)
							logged++
						case 2:
							st.LogDebug("details", "logger", i)
						}
						time.Sleep(time.Duration(rr.N(c.Arg("pace")*4 + 1)))
					}
				}(i)
			}

			// the loader
			type outcome struct {
				current, total int
				any            bool
			}
			final := make([]outcome, nStages+1)
			work := func(i int, rr *world.Rand) {
				n := rr.N(c.Arg("updates") + 1)
				if updaters <= 1 {
					for k := 1; k <= n; k++ {
						cur, tot := pairOf(i, k)
						st.SetCT(cur, tot)
						final[i] = outcome{cur, tot, true}
						if rr.P(40) {
							time.Sleep(time.Duration(rr.N(c.Arg("pace") + 1)))
						}
						if st != nil {
							if got := st.Current(); got.Current != cur || got.Total != tot || got.Stage != name(i) {
								c.Fail("lost", "after updating to %d/%d the current stage is %+v", cur, tot, got)
							}
						}
					}
					return
				}
				var ug sync.WaitGroup
				for u := 0; u < updaters; u++ {
					ug.Add(1)
					ur := world.NewRand(rr.Uint64())
					go func(u int) {
						defer ug.Done()
						for k := 1; k <= n; k++ {
							cur, tot := pairOf(i, k*updaters+u)
							st.SetCT(cur, tot)
							if ur.P(30) {
								time.Sleep(time.Duration(ur.N(c.Arg("pace") + 1)))
							}
						}
					}(u)
				}
				ug.Wait()
			}
			for i := 1; i <= nStages; i++ {
				switch x := r.N(10); {
				case x < 6:
					fails := r.P(20)
					ran := 0
					err := st.DoStage(name(i), func() error {
						ran++
						work(i, r)
						if fails {
							return errStage
						}
						return nil
					})
					if ran != 1 {
						c.Fail("stage", "the function of a stage ran %d times", ran)
					}
					if (err == nil) == fails || (err != nil && err != errStage) {
						c.Fail("stage", "a stage returned %v", err)
					}
				case x < 8:
					st.Start(name(i))
					work(i, r)
					prev := st.End()
					if st != nil && prev.Stage != name(i) {
						c.Fail("end", "ending stage %d returned %+v", i, prev)
					}
				default:
					st.Start(name(i)) // the next one ends it
					work(i, r)
				}
				if r.P(20) {
					st.StoreIndexStats(igraph.Stats{DirectTriples: uint64(i)})
					if st != nil && st.IndexStats().DirectTriples != uint64(i) {
						c.Fail("index", "index statistics are %+v", st.IndexStats())
					}
				}
				if updaters <= 1 && st != nil && r.P(50) {
					all := st.All()
					if len(all) != i {
						c.Fail("list", "%d stages are listed after %d", len(all), i)
					} else if s := all[i-1]; s.Stage != name(i) || (final[i].any && (s.Current != final[i].current || s.Total != final[i].total)) {
						c.Fail("lost", "stage %q ended with %d/%d, but is listed as %+v", name(i), final[i].current, final[i].total, s)
					}
				}
			}
			st.End()
			lg.Wait()
			if st == nil {
				over = true
				wg.Wait()
				if !st.Done() || len(st.All()) != 0 {
					c.Fail("nil", "no statistics: done %v, stages %v", st.Done(), st.All())
				}
				return
			}
			all := st.All()
			if len(all) != nStages {
				c.Fail("list", "%d stages are listed, not %d", len(all), nStages)
			} else {
				for i := 1; i <= nStages; i++ {
					s := all[i-1]
					if s.Stage != name(i) {
						c.Fail("list", "stage %d is %q", i, s.Stage)
					}
					if s.End.Time.IsZero() {
						c.Fail("list", "stage %q never ended", s.Stage)
					}
					if final[i].any && (s.Current != final[i].current || s.Total != final[i].total) {
						c.Fail("lost", "stage %q ended with %d/%d, but is listed as %+v", s.Stage, final[i].current, final[i].total, s)
					}
				}
			}
			if c.Arg("hook") != 0 && nStages > 0 && updates == 0 {
				c.Fail("update", "OnUpdate was never called")
			}
			_ = latestAll
			// updates begun after closing have no effect
			st.Close()
			closed := st.All()
			before := len(term.writes)
			var late sync.WaitGroup
			for u := 0; u < 3; u++ {
				late.Add(1)
				rr := world.NewRand(r.Uint64())
				go func() {
					defer late.Done()
					for k := 0; k < 6; k++ {
						switch rr.N(5) {
						case 0:
							st.SetCT(77, 78)
						case 1:
							st.Start("late")
						case 2:
							st.End()
						case 3:
							if err := st.DoStage("late", func() error { return errStage }); err != errStage {
								c.Fail("late", "a late stage returned %v", err)
							}
						case 4:
							st.StoreIndexStats(igraph.Stats{DatumTriples: 12345})
						}
						if p := st.Progress(); p != (stats.Progress{Done: true}) {
							c.Fail("done", "after closing the progress is %+v", p)
						}
					}
				}()
			}
			late.Wait()
			over = true
			wg.Wait()
			if now := st.All(); len(now) != len(closed) {
				c.Fail("closed", "after closing there are %d stages instead of %d", len(now), len(closed))
			} else {
				for i := range now {
					if now[i] != closed[i] {
						c.Fail("closed", "after closing %+v turned into %+v", closed[i], now[i])
					}
				}
			}
			if st.Current() != (stats.StageStats{}) {
				c.Fail("closed", "after closing the current stage is %+v", st.Current())
			}
			if st.IndexStats().DatumTriples != 0 {
				c.Fail("closed", "after closing index statistics changed")
			}
			if len(term.writes) != before {
				c.Fail("closed", "after closing %q is written", term.writes[before:])
			}
			c.EventN("updates seen", updates)
			if c.Arg("output") == 0 {
				if err := term.whole(); err != nil {
					c.Fail("output", "%v", err)
				}
				n := 0
				for _, w := range term.writes {
					if strings.Contains(w, "logger=") {
						n++
					}
				}
				if n != logged {
					c.Fail("output", "%d of %d messages were logged", n, logged)
				}
				starts, ends := 0, 0
				for _, w := range term.writes {
					if strings.Contains(w, "msg=start ") {
						starts++
					}
					if strings.Contains(w, "msg=end ") {
						ends++
					}
				}
				if starts != nStages || ends != nStages {
					c.Fail("output", "%d starts and %d ends of %d stages were logged", starts, ends, nStages)
				}
			}
		},
		Check: func(c *hx.Ctx) {
			if term.failed > 0 {
				c.EventN("fault: terminal failure", term.failed)
			}
			if c.Cleanly() {
				c.CheckLeaks()
			}
		},
	})

	// watch: the progress of a load as others see it
	var l loaded
	var st *stats.Stats
	var order = []stats.Stage{"", stats.StageReadPathbuilder, stats.StageScanSameAs, stats.StageScanInverse, stats.StageScanTriples, stats.StageExtractBundles, stats.StageExtractSameAs, stats.StageExtractCache}
	var through watcher
	var loadOver bool
	hx.Register("watch", &hx.Scenario{
		World: true,
		Setup: func(c *hx.Ctx) {
			inputs(c)
			tune(c)
		},
		Body: func(c *hx.Ctx) {
			term = &terminal{began: time.Now()}
			st = stats.NewStats(term)
			rank := map[stats.Stage]int{}
			for i, s := range order {
				rank[s] = i
			}
			totals := map[stats.Stage]int{}
			pair := func(stage stats.Stage, current, total int) error {
				switch {
				case stage == "" && (current != 0 || total != 0):
					return fmt.Errorf("counts without a stage")
				case current < 0 || current > total:
					return fmt.Errorf("more than there is")
				case stage == stats.StageScanInverse || stage == stats.StageScanTriples || stage == stats.StageExtractBundles:
					if total == 0 {
						return nil
					}
					if t := totals[stage]; t != 0 && t != total {
						return fmt.Errorf("the total was %d", t)
					}
					totals[stage] = total
				case current != total:
					return fmt.Errorf("the total is not the count")
				}
				return nil
			}
			watch := func(who string) *watcher {
				return &watcher{c: c, who: who, rank: rank, pair: pair, mono: true}
			}
			through = *watch("update")
			through.mono = false // updates by several goroutines may overlap
			if c.Arg("hook") != 0 {
				st.OnUpdate = func(s *stats.Stats) {
					through.progress(s.Progress())
					if c.Arg("slowhook") != 0 {
						time.Sleep(time.Duration(c.Arg("slowhook")))
					}
				}
			}
			var wg sync.WaitGroup
			for i := 0; i < c.Arg("observers"); i++ {
				wg.Add(1)
				rr := world.NewRand(uint64(c.Arg("seed")*10 + i))
				go func(i int) {
					defer wg.Done()
					w := watch(fmt.Sprintf("observer %d", i))
					for k := 0; k < 3000 && !loadOver; k++ {
						if rr.P(80) {
							w.progress(st.Progress())
						} else {
							w.list(st.All())
						}
						time.Sleep(time.Duration(rr.N(c.Arg("pace") + 1)))
					}
					w.list(st.All())
					c.EventN("observations", w.n)
					c.EventN("stages observed", len(w.seen))
				}(i)
			}
			cache := ""
			if c.Arg("disk") != 0 {
				cache = cachePath
			}
			l = loadGlass(c, cache, st, flagsFor(c, 0))
			loadOver = true
			wg.Wait()
			c.K.Faults = nil
			all := st.All()
			if l.err != nil {
				for _, s := range all {
					if s.End.Time.IsZero() {
						c.Fail("list", "after a failed load stage %q has not ended", s.Stage)
					}
				}
				return
			}
			for i, s := range order[1:] {
				if i >= len(all) || all[i].Stage != s {
					c.Fail("list", "stages are %v", all)
					break
				}
				if all[i].End.Time.IsZero() {
					c.Fail("list", "stage %q has not ended", s)
				}
				if all[i].Current != all[i].Total {
					c.Fail("total", "stage %q ended with %d of %d", s, all[i].Current, all[i].Total)
				}
			}
			if len(all) != len(order)-1 {
				c.Fail("list", "stages are %v", all)
			}
			if len(all) == len(order)-1 {
				lines := len(c.W.Quads)
				for _, i := range []int{1, 3} {
					if n := all[i].Total; n < lines || n > lines+1 {
						c.Fail("total", "stage %q counts %d, but there are %d statements", all[i].Stage, n, lines)
					}
				}
				groups := 0
				for _, gr := range c.W.All() {
					_ = gr
					groups++
				}
				if all[4].Total > groups {
					c.Fail("total", "%d bundles were extracted, but there are %d", all[4].Total, groups)
				}
			}
			if got := st.IndexStats(); c.Arg("disk") == 0 && got.DirectTriples+got.DatumTriples == 0 && len(c.W.Quads) > 0 && got.MaskedPredTriples+got.MaskedDataTriples == 0 {
				c.Fail("index", "statistics of the index are missing: %+v", got)
			}
			if err := term.whole(); err != nil {
				c.Fail("output", "%v", err)
			}
		},
		Check: func(c *hx.Ctx) {
			describe(c)
			if !c.Cleanly() {
				return
			}
			if l.err != nil && len(c.K.Fired) == 0 {
				c.Fail("error", "loading failed: %v", l.err)
			}
		},
	})
}

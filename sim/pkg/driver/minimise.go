package driver

import (
	"os"
	"time"
	"unsafe"

	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/simos"
)

// readRecord returns the decisions recorded by a process.
func readRecord(path string) []uint64 {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 16 {
		return nil
	}
	w := unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), len(b)/8)
	n := w[0]
	if n < 1 || n > uint64(len(w)) {
		return nil
	}
	return append([]uint64(nil), w[1:n]...)
}

// minimise makes a failing history smaller, keeping the kind of the failure.
func minimise(h *History, kind string, budget time.Duration, logf func(string, ...any)) (best *History, v *hx.Violation) {
	deadline := time.Now().Add(budget)
	fails := func(c *History) bool {
		o := Exec(c)
		if o.Harness == "" && o.Violation != nil && o.Violation.Kind == kind {
			v = o.Violation
			return true
		}
		return false
	}
	late := func() bool { return time.Now().After(deadline) }
	best = h.Clone()

	// the schedule as a list of decisions
	rec := best.Clone()
	var files []string
	for i := range rec.Incs {
		if rec.Incs[i].Sched.Replay {
			continue
		}
		f := tmpName("record")
		files = append(files, f)
		rec.Incs[i].Record = f
	}
	o := Exec(rec)
	if o.Violation != nil && o.Violation.Kind == kind {
		c := best.Clone()
		for i := range c.Incs {
			if rec.Incs[i].Record == "" || i > o.Inc {
				continue
			}
			c.Incs[i].Sched.Replay = true
			c.Incs[i].Sched.Dev = readRecord(rec.Incs[i].Record)
		}
		if fails(c) {
			best = c
			logf("schedule recorded: %d decisions", decisions(best))
		} else {
			logf("the recorded schedule does not fail; keeping the seed")
		}
	}
	for _, f := range files {
		os.Remove(f)
	}

	// no special schedule at all?
	if decisions(best) > 0 {
		c := best.Clone()
		for i := range c.Incs {
			c.Incs[i].Sched.Replay = true
			c.Incs[i].Sched.Dev = nil
		}
		if fails(c) {
			best = c
		} else {
			for i := range best.Incs {
				c := best.Clone()
				c.Incs[i].Sched.Replay = true
				c.Incs[i].Sched.Dev = nil
				if !late() && fails(c) {
					best = c
				}
			}
		}
	}
	// fewer faults
	for i := range best.Incs {
		for j := 0; j < len(best.Incs[i].Faults) && !late(); {
			c := best.Clone()
			fs := c.Incs[i].Faults
			c.Incs[i].Faults = append(append([]simos.Fault(nil), fs[:j]...), fs[j+1:]...)
			if fails(c) {
				best = c
			} else {
				j++
			}
		}
	}
	// fewer decisions
	for i := range best.Incs {
		dev := best.Incs[i].Sched.Dev
		if len(dev) == 0 {
			continue
		}
		n := len(dev) / 2
		for chunk := (n + 1) / 2; chunk >= 1 && !late(); {
			shrunk := false
			for at := 0; at < len(best.Incs[i].Sched.Dev)/2 && !late(); {
				d := best.Incs[i].Sched.Dev
				hi := at + chunk
				if hi > len(d)/2 {
					hi = len(d) / 2
				}
				c := best.Clone()
				c.Incs[i].Sched.Dev = append(append([]uint64(nil), d[:2*at]...), d[2*hi:]...)
				if fails(c) {
					best = c
					shrunk = true
				} else {
					at = hi
				}
			}
			if chunk == 1 && !shrunk {
				break
			}
			if chunk > 1 {
				chunk = (chunk + 1) / 2
			}
		}
	}
	// fewer statements in the input
	if w := best.Incs[0].World; w.Seed != 0 && len(w.Drop) == 0 {
		const max = 4000
		var drop []int
		set := func(drop []int) *History {
			c := best.Clone()
			for i := range c.Incs {
				c.Incs[i].World.Drop = drop
			}
			return c
		}
		n := quads(w)
		if ops := best.Incs[0].Args["ops"]; ops > 0 {
			n = ops // histories of a library
		}
		for chunk := n / 2; chunk >= 1 && n <= max && !late(); chunk /= 2 {
			for at := 0; at < n && !late(); at += chunk {
				try := append([]int(nil), drop...)
				have := map[int]bool{}
				for _, d := range drop {
					have[d] = true
				}
				grown := false
				for i := at; i < at+chunk && i < n; i++ {
					if !have[i] {
						try = append(try, i)
						grown = true
					}
				}
				if grown && fails(set(try)) {
					drop = try
				}
			}
		}
		if len(drop) > 0 {
			best = set(drop)
		}
	}
	if !fails(best) {
		return nil, nil
	}
	return best, v
}

func decisions(h *History) (n int) {
	for _, i := range h.Incs {
		n += len(i.Sched.Dev) / 2
	}
	return
}

package driver

import (
	"strings"

	"github.com/FAU-CDI/hangover/internal/zverif/simos"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

// hard lists the ways an operation can fail.
var hard = map[string][]string{
	"read":     {"eio"},
	"write":    {"eio", "enospc", "enospc-short", "enospc-short"},
	"create":   {"eacces", "enospc", "emfile", "eio", "erofs"},
	"open":     {"eacces", "emfile", "eio"},
	"mkdir":    {"eacces", "enospc", "erofs"},
	"unlink":   {"eacces", "eio"},
	"rmdir":    {"eacces", "eio"},
	"rename":   {"eacces", "enospc", "eio"},
	"sync":     {"eio", "enospc"},
	"close":    {"eio", "enospc"},
	"stat":     {"eacces", "eio"},
	"seek":     {"eio"},
	"truncate": {"eio"},
	"getdents": {"eio"},
	"flock":    {"eio"},
}

// fault picks an operation that took place in a run without faults and lets it fail.
// Weights change how often a kind of operation is picked.
func (u *Unit) fault(counts map[string]int, class string, weights map[string]int) (f simos.Fault, ok bool) {
	// one directory as often as another, however rarely it is used
	if u.R.P(40) {
		subs := map[string]bool{}
		for k := range counts {
			if _, c, _ := strings.Cut(k, " "); strings.HasPrefix(c, class+"/") {
				subs[c] = true
			}
		}
		if len(subs) > 0 {
			class = world.Keys(subs)[u.R.N(len(subs))]
		}
	}
	type cand struct {
		op string
		n  int
		w  int
	}
	var cands []cand
	total := 0
	for _, k := range world.Keys(counts) {
		op, c, _ := strings.Cut(k, " ")
		if c != class || hard[op] == nil {
			continue
		}
		w := 10
		if x, ok := weights[op]; ok {
			w = x
		} else if len(weights) > 0 && weights["*"] == 0 {
			w = 0
		}
		if w == 0 {
			continue
		}
		cands = append(cands, cand{op, counts[k], w})
		total += w
	}
	if total == 0 {
		if parent, _, ok := strings.Cut(class, "/sim/cache/"); ok && parent == "" {
			return u.fault(counts, "/sim/cache", weights)
		}
		return f, false
	}
	x := u.R.N(total)
	for _, c := range cands {
		if x -= c.w; x >= 0 {
			continue
		}
		kinds := hard[c.op]
		f = simos.Fault{Op: c.op, Path: class, Nth: u.nth(c.n), Kind: kinds[u.R.N(len(kinds))], Sticky: u.R.P(35), Arg: int64(u.R.N(1 << 20))}
		return f, true
	}
	return f, false
}

// nth picks one of n operations, the first and last ones more often.
func (u *Unit) nth(n int) int {
	if n < 1 {
		return 1
	}
	switch x := u.R.N(100); {
	case x < 10:
		return 1 + u.R.N(min(n, 4))
	case x < 25:
		return n - u.R.N(min(n, 4))
	}
	return 1 + u.R.N(n)
}

// benign picks faults that a correct program does not notice.
func (u *Unit) benign(class string) (fs []simos.Fault) {
	if u.R.P(70) {
		fs = append(fs, simos.Fault{Op: "read", Path: class, Nth: 1 + u.R.N(3), Kind: "short", Sticky: true, Arg: int64(u.R.N(1 << 20))})
	}
	if u.R.P(50) {
		fs = append(fs, simos.Fault{Op: "read", Path: class, Nth: 1 + u.R.N(6), Kind: "eintr"})
	}
	if u.R.P(50) {
		fs = append(fs, simos.Fault{Op: "write", Path: class, Nth: 1 + u.R.N(3), Kind: "short", Sticky: true, Arg: int64(u.R.N(1 << 20))})
	}
	if u.R.P(30) {
		fs = append(fs, simos.Fault{Op: "write", Path: class, Nth: 1 + u.R.N(6), Kind: "eintr"})
	}
	if u.R.P(20) {
		fs = append(fs, simos.Fault{Op: "", Path: class, Nth: 1 + u.R.N(20), Kind: "stall", Arg: int64(1e9 * (1 + u.R.N(30))), Sticky: u.R.P(10)})
	}
	return
}

// compact picks how often an index is compacted while it is being read. Every compaction of
// every database costs memory that a simulated process never gives back.
func (u *Unit) compact(w world.Params) int {
	n := []int{0, 1, 3, 17}[u.R.N(4)]
	if least := quads(w) / 60; n != 0 && n < least {
		n = least
	}
	return n
}

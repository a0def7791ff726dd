// Package scen holds the scenarios.
package scen

import (
	"bytes"
	"fmt"
	"os"
	"slices"
	"sort"

	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/obs"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
	"github.com/syndtr/goleveldb/leveldb/opt"
)

const (
	pbPath    = "/sim/in/pathbuilder.xml"
	nqPath    = "/sim/in/triplestore.nq"
	cachePath = "/sim/cache"
	outPath   = "/sim/out"
)

// inputs places the input files.
func inputs(c *hx.Ctx) {
	c.K.WriteFile(pbPath, c.W.XML())
	c.K.WriteFile(nqPath, c.W.NQuads())
	c.K.MkdirAll(outPath)
	c.K.Classes = []string{cachePath, "/sim/in", outPath}
	if n := c.Arg("cacheat"); n != 0 {
		c.K.MkdirAll(cachePath)
		if n == 2 {
			c.K.WriteFile(cachePath+"/notes.txt", []byte("keep"))
		}
	}
	// other things that belong to the user
	for _, p := range []string{"/sim/cache.txt", "/sim/cache2/keep", "/sim/triples/keep", "/sim/keep", "/keep", "/sim/in/keep"} {
		c.K.WriteFile(p, []byte("keep"))
	}
	tune(c)
	if c.Arg("journal") != 0 {
		c.K.StartJournal()
	}
}

// damage makes one of the inputs unreadable.
func damage(c *hx.Ctx) {
	n := c.Arg("at")
	switch c.Arg("damage") {
	case 1: // a malformed line
		lines := bytes.SplitAfter(c.W.NQuads(), []byte("\n"))
		bad := []string{"<http://a> <http://b>\n", "this is no statement\n", "<http://a> <http://b> \"unfinished .\n", "<http://a> <http://b> <http://c .\n", "\"literal\" <http://b> <http://c> .\n", "<http://a> <http://b> <http://c> . <http://d> .\n"}
		at := n % (len(lines) + 1)
		var out []byte
		for i, l := range lines {
			if i == at {
				out = append(out, bad[n%len(bad)]...)
			}
			out = append(out, l...)
		}
		if at >= len(lines) {
			out = append(out, bad[n%len(bad)]...)
		}
		c.K.WriteFile(nqPath, out)
	case 2: // a pathbuilder that ends too early
		x := bytes.TrimSpace(c.W.XML())
		c.K.WriteFile(pbPath, x[:n%len(x)])
	case 3: // a last line that ends too early
		x := bytes.TrimRight(c.W.NQuads(), "\n")
		if len(x) == 0 {
			x = []byte("<http://a> <http://b> <http://c> .")
		}
		i := bytes.LastIndexByte(x, '\n') + 1
		// keep at least a character of the line, and leave out at least the final dot
		cut := i + 1 + n%(len(x)-i-1)
		c.K.WriteFile(nqPath, x[:cut])
	case 4:
		c.K.Remove(nqPath)
	case 5:
		c.K.Remove(pbPath)
	}
}

// tune selects the sizes of the buffers of the database.
func tune(c *hx.Ctx) {
	switch c.Arg("buf") {
	case 0:
		opt.DefaultWriteBuffer = 64 * opt.KiB
		opt.DefaultCompactionTableSize = 64 * opt.KiB
		opt.DefaultCompactionTotalSize = 256 * opt.KiB
	case 1:
		opt.DefaultWriteBuffer = 1 * opt.KiB
		opt.DefaultCompactionTableSize = 1 * opt.KiB
		opt.DefaultCompactionTotalSize = 4 * opt.KiB
		opt.DefaultBlockSize = 256
	case 2:
		opt.DefaultWriteBuffer = 300
		opt.DefaultCompactionTableSize = 400
		opt.DefaultCompactionTotalSize = 1000
		opt.DefaultBlockSize = 64
		opt.DefaultBlockCacheCapacity = 512
		opt.DefaultOpenFilesCacheCapacity = 4
	}
}

func labels(ls []string) (out []impl.Label) {
	for _, l := range ls {
		out = append(out, impl.Label(l))
	}
	return
}

func predicates(c *hx.Ctx) sparkl.Predicates {
	return sparkl.Predicates{SameAs: labels(c.W.SameAs), InverseOf: labels(c.W.InverseOf)}
}

// loaded is the outcome of a load.
type loaded struct {
	err     error
	bundles map[string][]wisski.Entity
	index   igraph.Stats
	count   uint64
	glass   *glass.Glass
}

// loadLib loads by way of the library functions.
func loadLib(c *hx.Ctx, cache string, st *stats.Stats) (l loaded) {
	pb, err := pbxml.Load(pbPath)
	if err != nil {
		l.err = err
		return
	}
	opts := sparkl.DefaultIndexOptions(&pb)
	if n := c.Arg("compact"); n != 0 {
		opts.CompactInterval = n
	}
	index, err := sparkl.LoadIndex(nqPath, predicates(c), sparkl.NewEngine(cache), opts, st)
	if err != nil {
		l.err = err
		return
	}
	defer func() {
		if err := index.Close(); err != nil && l.err == nil {
			l.err = err
		}
	}()
	l.bundles, l.err = sparkl.LoadPathbuilder(&pb, index, storages.NewBundleEngine(cache), st)
	l.index = index.Stats()
	if l.err == nil {
		l.count, l.err = index.TripleCount()
	}
	return
}

// loadGlass loads like the server.
func loadGlass(c *hx.Ctx, cache string, st *stats.Stats, flags viewer.RenderFlags) (l loaded) {
	flags.Predicates = predicates(c)
	g, err := glass.Create(pbPath, nqPath, cache, flags, st)
	l.err = err
	if err != nil {
		return
	}
	l.glass = &g
	l.bundles = map[string][]wisski.Entity{}
	for _, name := range g.Cache.BundleNames() {
		l.bundles[name] = g.Cache.Entities(name)
	}
	l.index = st.IndexStats()
	return
}

func load(c *hx.Ctx, cache string, st *stats.Stats) loaded {
	if c.Arg("glass") != 0 {
		return loadGlass(c, cache, st, viewer.RenderFlags{})
	}
	return loadLib(c, cache, st)
}

// leaks fails if something is left over when everything was to be closed.
func leaks(c *hx.Ctx) {
	if c.Arg("leak") != 0 && c.Sim.MainDone {
		c.CheckLeaks()
	}
}

func newStats(c *hx.Ctx) *stats.Stats {
	if c.Arg("progress") != 0 {
		return stats.NewStats(os.Stderr)
	}
	if c.Arg("nilstats") != 0 {
		return nil
	}
	return stats.NewStats(nil)
}

// describe notes how big the world was.
func describe(c *hx.Ctx) {
	b, e, v, ch := c.M.Sizes()
	c.EventN("bundles", b)
	c.EventN("entities", e)
	c.EventN("values", v)
	c.EventN("children", ch)
	c.EventN("quads", len(c.W.Quads))
}

// checkLoaded compares with the model.
func checkLoaded(c *hx.Ctx, what string, l *loaded) {
	if err := obs.Bundles(c.M, l.bundles); err != nil {
		c.Fail("content", "%s: %v", what, err)
	}
	if l.glass != nil && l.glass.Cache != nil {
		if err := lookups(c, l.glass.Cache); err != nil {
			c.Fail("lookup", "%s: %v", what, err)
		}
	}
}

// lookups compares what the cache knows of labels with the model.
func lookups(c *hx.Ctx, cache *sparkl.Cache) error {
	in := map[string]map[string]bool{} // canonical label -> bundles
	for b, es := range c.M.Bundles {
		for _, e := range es {
			r := c.M.Canon(e.URI)
			if in[r] == nil {
				in[r] = map[string]bool{}
			}
			in[r][b] = true
		}
	}
	for _, l := range allLabels(c) {
		class := c.M.Class(l)
		canon := string(cache.Canonical(impl.Label(l)))
		if len(class) > 1 {
			ok := false
			for _, m := range class {
				ok = ok || m == canon
			}
			if !ok {
				return fmt.Errorf("%q has the canonical label %q, not one of %q", l, canon, class)
			}
			var others []string
			for _, m := range class {
				if other := string(cache.Canonical(impl.Label(m))); other != canon {
					return fmt.Errorf("%q and %q have canonical labels %q and %q", l, m, canon, other)
				}
				if m != canon {
					others = append(others, m)
				}
			}
			sort.Strings(others)
			var got []string
			for _, a := range cache.Aliases(impl.Label(canon)) {
				got = append(got, string(a))
			}
			if !slices.Equal(got, others) {
				return fmt.Errorf("%q has the aliases %q, expected %q", canon, got, others)
			}
		} else if as := cache.Aliases(impl.Label(l)); len(as) != 0 {
			return fmt.Errorf("%q has the aliases %q, expected none", l, as)
		}
		bundles := in[c.M.Canon(l)]
		b, ok := cache.Bundle(impl.Label(l))
		if ok != (len(bundles) > 0) || ok && !bundles[b] {
			return fmt.Errorf("%q is in bundle %q %v, expected one of %v", l, b, ok, world.Keys(bundles))
		}
		for b := range c.M.Bundles {
			e, ok := cache.Entity(impl.Label(l), b)
			if ok != bundles[b] {
				return fmt.Errorf("looking up %q in bundle %q: %v, expected %v", l, b, ok, bundles[b])
			}
			if ok && c.M.Canon(string(e.URI)) != c.M.Canon(l) {
				return fmt.Errorf("looking up %q in bundle %q gives %q", l, b, e.URI)
			}
		}
	}
	return nil
}

func init() {
	var l, l2 loaded
	hx.Register("load", &hx.Scenario{
		World: true,
		Setup: func(c *hx.Ctx) {
			inputs(c)
			damage(c)
			c.Res.Nums["disk"] = -float64(c.K.Used)
		},
		Body: func(c *hx.Ctx) {
			cache := ""
			if c.Arg("disk") != 0 {
				cache = cachePath
			}
			l = load(c, cache, newStats(c))
		},
		Check: func(c *hx.Ctx) {
			describe(c)
			c.Res.Nums["disk"] += float64(c.K.Used)
			leaks(c)
			if c.Crashed() && c.Arg("journal") != 0 {
				r := world.NewRand(uint64(c.Arg("journal")))
				c.EventN("operations-that-could-be-lost", c.K.PendingOps())
				c.K.Crash(r.N)
			}
			for p, op := range c.K.Mutated {
				if p != cachePath && !within(p, cachePath) {
					c.Fail("escape", "%s of %q outside of the cache directory", op, p)
				}
			}
			if !c.Cleanly() {
				return
			}
			if l.err != nil {
				c.Event("load-error")
				c.Res.Info["error"] = l.err.Error()
				if c.Arg("exact") != 0 || len(c.K.Fired) == 0 && c.Spec.Capacity == 0 && c.Arg("damage") == 0 {
					c.Fail("error", "loading failed without a fault: %v", l.err)
				}
				return
			}
			c.Event("load-ok")
			if c.Arg("damage") != 0 {
				c.Fail("accepted", "damaged input was loaded without an error")
				return
			}
			if c.Arg("leak") == 0 {
				checkLoaded(c, "load", &l)
			}
			c.Res.Digest["stats"] = fmt.Sprintf("%+v", l.index)
		},
	})
	hx.Register("loadboth", &hx.Scenario{
		World: true,
		Setup: inputs,
		Body: func(c *hx.Ctx) {
			l = load(c, "", newStats(c))
			l2 = load(c, cachePath, newStats(c))
		},
		Check: func(c *hx.Ctx) {
			describe(c)
			if !c.Cleanly() {
				return
			}
			if l.err != nil || l2.err != nil {
				c.Fail("error", "loading failed without a fault: %v / %v", l.err, l2.err)
				return
			}
			checkLoaded(c, "memory", &l)
			checkLoaded(c, "disk", &l2)
			if a, b := obs.Canonical(l.bundles), obs.Canonical(l2.bundles); a != b && len(c.Res.Violations) == 0 {
				c.Res.Info["canonical-differs"] = firstDiff(a, b)
			}
			if a, b := obs.Shape(l.bundles), obs.Shape(l2.bundles); a != b {
				c.Fail("shape", "in memory and on disk entities look different: %s", firstDiff(a, b))
			}
			if l.index != l2.index || l.count != l2.count {
				c.Fail("stats", "statistics differ: %+v (%d triples) in memory, %+v (%d triples) on disk", l.index, l.count, l2.index, l2.count)
			}
		},
	})
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 60
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 100
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("%q vs %q", cut(a), cut(b))
}

func within(p, dir string) bool {
	return len(p) > len(dir) && p[:len(dir)+1] == dir+"/"
}

package scen

import (
	"bytes"
	"compress/gzip"
	"fmt"
	"hash/fnv"
	"io"
	"runtime"
	"strings"

	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/obs"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

const exportPath = outPath + "/export.gob"

// contents describes everything a glass answers.
func contents(c *hx.Ctx, g *glass.Glass) (lines []string) {
	say := func(format string, args ...any) { lines = append(lines, fmt.Sprintf(format, args...)) }
	if g.Cache == nil {
		say("no cache")
		return
	}
	say("flags %+v", g.Flags)
	xml, err := pbxml.Marshal(g.Pathbuilder)
	say("pathbuilder %s %v", xml, err)
	say("names %q", g.Cache.BundleNames())
	for _, name := range g.Cache.BundleNames() {
		es := g.Cache.Entities(name)
		for i := range es {
			say("entity %s/%d %s", name, i, ordered(&es[i]))
			e, ok := g.Cache.Entity(es[i].URI, name)
			if ok {
				say("lookup %s %s", name, ordered(e))
			} else {
				say("lookup %s %s: none", name, es[i].URI)
			}
		}
	}
	for _, l := range append(allLabels(c), "http://ex.org/no-such") {
		b, ok := g.Cache.Bundle(impl.Label(l))
		say("label %s canonical %q aliases %q bundle %q %v", l, g.Cache.Canonical(impl.Label(l)), g.Cache.Aliases(impl.Label(l)), b, ok)
	}
	return
}

// ordered renders an entity including the order of everything.
func ordered(e *wisski.Entity) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %q %v{", e.URI, e.Path, obs.Triples(e.Triples))
	for _, f := range world.Keys(e.Fields) {
		if len(e.Fields[f]) == 0 {
			continue
		}
		fmt.Fprintf(&b, "%q:", f)
		for _, v := range e.Fields[f] {
			fmt.Fprintf(&b, "%q@%q %q %v;", v.Value, v.Language, v.Path, obs.Triples(v.Triples))
		}
	}
	for _, k := range world.Keys(e.Children) {
		if len(e.Children[k]) == 0 {
			continue
		}
		fmt.Fprintf(&b, "%q:", k)
		for i := range e.Children[k] {
			b.WriteString(ordered(&e.Children[k][i]))
		}
	}
	b.WriteByte('}')
	return b.String()
}

// answers lists the answers of a server to all pages.
func answers(c *hx.Ctx, g *glass.Glass) (lines []string) {
	v := prepared(g, g.Flags)
	for _, p := range pages(c, g.Flags) {
		lines = append(lines, p.url+" -> "+ask(v, p).String())
	}
	return
}

// sameLines compares two descriptions.
func sameLines(a, b []string) error {
	for i := range a {
		if i >= len(b) {
			return fmt.Errorf("the second is shorter: %d instead of %d", len(b), len(a))
		}
		if a[i] != b[i] {
			return fmt.Errorf("%s", firstDiff(a[i], b[i]))
		}
	}
	if len(b) > len(a) {
		return fmt.Errorf("the second is longer: %d instead of %d", len(b), len(a))
	}
	return nil
}

func hashLines(lines []string) string {
	h := fnv.New64a()
	for _, l := range lines {
		io.WriteString(h, l)
		h.Write([]byte{0})
	}
	return fmt.Sprintf("%x", h.Sum64())
}

// exportStats picks how statistics are shown.
func exportStats(c *hx.Ctx) *stats.Stats {
	switch c.Arg("stats") {
	case 1:
		return nil
	case 2:
		return stats.NewStats(io.Discard)
	}
	return stats.NewStats(nil)
}

func init() {
	type outcome struct {
		createErr, exportErr, importErr error
		before, after                   []string
		exported                        bool
		fired                           int
	}
	var o outcome
	hx.Register("export", &hx.Scenario{
		World: true,
		Setup: inputs,
		Body: func(c *hx.Ctx) {
			// faults only concern the export
			faults, capacity := c.K.Faults, c.K.Capacity
			c.K.Faults, c.K.Capacity = nil, 0
			flags := flagsFor(c, c.Arg("flags"))
			l := loadGlass(c, "", newStats(c), flags)
			if o.createErr = l.err; l.err != nil {
				return
			}
			if c.Arg("http") != 0 {
				o.before = answers(c, l.glass)
			}
			o.before = append(o.before, contents(c, l.glass)...)
			c.K.Faults = faults
			if capacity > 0 {
				c.K.Capacity = c.K.Used + c.Spec.Capacity
			}
			if c.Arg("existing") != 0 {
				c.K.WriteFile(exportPath, bytes.Repeat([]byte("old export"), 1+c.Arg("existing")))
			}
			o.exportErr = glass.Export(exportPath, *l.glass, exportStats(c))
			o.fired = len(c.K.Fired)
			if o.exportErr != nil {
				return
			}
			c.K.Faults, c.K.Capacity = nil, 0
			o.exported = true
			g, err := glass.Import(exportPath, exportStats(c))
			if o.importErr = err; err != nil {
				return
			}
			if c.Arg("http") != 0 {
				o.after = answers(c, &g)
			}
			o.after = append(o.after, contents(c, &g)...)
			if err := g.Close(); err != nil {
				o.importErr = err
			}
		},
		Check: func(c *hx.Ctx) {
			describe(c)
			leaks(c)
			if b, ok := c.K.ReadFile(exportPath); ok {
				c.Res.Nums["disk"] = float64(len(b))
			}
			if !c.Cleanly() {
				return
			}
			if o.createErr != nil {
				c.Fail("error", "loading failed without a fault: %v", o.createErr)
				return
			}
			if o.exportErr != nil {
				c.Event("export-error")
				c.Res.Info["error"] = o.exportErr.Error()
				if c.Arg("exact") != 0 || o.fired == 0 && c.Spec.Capacity == 0 {
					c.Fail("error", "the export failed without a fault: %v", o.exportErr)
				}
				return
			}
			c.Event("export-ok")
			if o.importErr != nil {
				c.Fail("import", "a successful export cannot be imported: %v", o.importErr)
				return
			}
			if err := sameLines(o.before, o.after); err != nil {
				c.Fail("content", "the import differs from what was exported: %v", err)
			}
			c.Res.Digest["answers"] = hashLines(o.before)
		},
	})
	// import of an export made by another process
	hx.Register("import", &hx.Scenario{
		World: true,
		Setup: func(c *hx.Ctx) { c.K.Classes = []string{"/sim/in", outPath} },
		Body: func(c *hx.Ctx) {
			g, err := glass.Import(exportPath, exportStats(c))
			if o.importErr = err; err != nil {
				return
			}
			if c.Arg("http") != 0 {
				o.after = answers(c, &g)
			}
			o.after = append(o.after, contents(c, &g)...)
		},
		Check: func(c *hx.Ctx) {
			leaks(c)
			if !c.Cleanly() {
				return
			}
			if o.importErr != nil {
				c.Fail("import", "a successful export cannot be imported by another process: %v", o.importErr)
				return
			}
			c.Event("import-ok")
			c.Res.Digest["answers"] = hashLines(o.after)
		},
	})

	// damaged exports
	var failed []string
	var note string
	hx.Register("damaged", &hx.Scenario{
		World: true,
		Setup: inputs,
		Body: func(c *hx.Ctx) {
			faults := c.K.Faults
			c.K.Faults = nil
			flags := flagsFor(c, c.Arg("flags"))
			l := loadGlass(c, "", newStats(c), flags)
			if o.createErr = l.err; l.err != nil {
				return
			}
			if o.exportErr = glass.Export(exportPath, *l.glass, nil); o.exportErr != nil {
				return
			}
			good, _ := c.K.ReadFile(exportPath)
			good = append([]byte(nil), good...)
			want := contents(c, l.glass)
			r := world.NewRand(uint64(c.Arg("damage")))
			n := c.Arg("n")
			for i := 0; i < n; i++ {
				bad, what, valid := good, "read faults", false
				if len(faults) == 0 {
					bad, what, valid = spoil(r, good)
				} else {
					n = 1
				}
				note = what
				c.Event("damage: " + strings.Fields(what)[0])
				c.K.WriteFile(exportPath, bad)
				c.K.Faults = faults
				fired := len(c.K.Fired)
				heap := runtime.SimHeap()
				g, err := glass.Import(exportPath, exportStats(c))
				grown := runtime.SimHeap() - heap
				c.K.Faults = nil
				if fired == len(c.K.Fired) && len(faults) > 0 {
					c.Event("no-fault-took-place")
					valid = true
				}
				if limit := uint64(64<<20) + 500*uint64(len(bad)); grown > limit {
					failed = append(failed, fmt.Sprintf("memory: importing %d bytes (%s) allocated %d bytes", len(bad), what, grown))
				}
				if err != nil {
					c.Event("rejected")
					if c.Arg("exact") != 0 {
						failed = append(failed, fmt.Sprintf("error: an intact export was rejected (%s): %v", what, err))
					}
					continue
				}
				c.Event("imported")
				if valid {
					continue
				}
				if err := sameLines(want, contents(c, &g)); err != nil {
					failed = append(failed, fmt.Sprintf("content: a damaged export (%s) was imported with other contents: %v", what, err))
				} else if !bytes.Equal(bad, good) && strings.HasPrefix(what, "truncated") {
					failed = append(failed, fmt.Sprintf("accepted: an export %s was imported", what))
				}
			}
		},
		Check: func(c *hx.Ctx) {
			describe(c)
			leaks(c)
			c.Res.Info["last"] = note
			if o.createErr != nil || o.exportErr != nil {
				c.Fail("error", "loading or exporting failed without a fault: %v %v", o.createErr, o.exportErr)
				return
			}
			for _, f := range failed {
				kind, text, _ := strings.Cut(f, ": ")
				c.Fail(kind, "%s", text)
			}
			if !c.Cleanly() {
				for i := range c.Res.Violations {
					c.Res.Violations[i].Text = note + ": " + c.Res.Violations[i].Text
				}
			}
		},
	})
}

// spoil damages an export. valid says that the result has a valid checksum, so that it need
// not be rejected.
func spoil(r *world.Rand, good []byte) (bad []byte, what string, valid bool) {
	at := func(n int) int {
		switch {
		case n <= 1:
			return 0
		case r.P(20):
			return r.N(min(n, 24))
		case r.P(20):
			return n - 1 - r.N(min(n, 24))
		}
		return r.N(n)
	}
	bad = append([]byte(nil), good...)
	switch x := r.N(100); {
	case x < 25:
		n := at(len(bad))
		return bad[:n], fmt.Sprintf("truncated to %d of %d bytes", n, len(good)), false
	case x < 50:
		i := at(len(bad))
		bit := byte(1) << r.N(8)
		bad[i] ^= bit
		return bad, fmt.Sprintf("bit %#x of byte %d of %d flipped", bit, i, len(good)), false
	case x < 58:
		i := at(len(bad))
		n := 1 + r.N(64)
		for j := i; j < i+n && j < len(bad); j++ {
			bad[j] = byte(r.N(256))
		}
		return bad, fmt.Sprintf("random %d bytes at %d of %d", n, i, len(good)), false
	case x < 66:
		i := at(len(bad))
		n := 1 + r.N(512)
		for j := i; j < i+n && j < len(bad); j++ {
			bad[j] = 0
		}
		return bad, fmt.Sprintf("zeroed %d bytes at %d of %d", n, i, len(good)), false
	case x < 72:
		i := at(len(bad))
		n := min(1+r.N(64), len(bad)-i)
		bad = append(bad[:i], bad[i+n:]...)
		return bad, fmt.Sprintf("removed %d bytes at %d of %d", n, i, len(good)), false
	case x < 78:
		i := at(len(bad))
		n := min(1+r.N(64), len(good)-i)
		bad = append(append(append([]byte(nil), good[:i+n]...), good[i:i+n]...), good[i+n:]...)
		return bad, fmt.Sprintf("repeated %d bytes at %d of %d", n, i, len(good)), false
	case x < 80:
		bad = append(bad, []byte("some more bytes")...)
		return bad, "extended", false
	}
	// a checksum that fits, so that the damage reaches the decoder
	zr, err := gzip.NewReader(bytes.NewReader(good))
	if err != nil {
		return bad[:len(bad)/2], "truncated", false
	}
	plain, err := io.ReadAll(zr)
	if err != nil {
		return bad[:len(bad)/2], "truncated", false
	}
	i := at(len(plain))
	switch r.N(4) {
	case 0:
		plain[i] ^= 1 << r.N(8)
	case 1:
		plain[i] = []byte{0, 0x7f, 0x80, 0xff, 0xf8, 0xf9, 0xfc, 0xfd}[r.N(8)]
	case 2:
		plain = plain[:i]
	case 3:
		for j := i; j < i+8 && j < len(plain); j++ {
			plain[j] = 0xff
		}
	}
	var buf bytes.Buffer
	zw := gzip.NewWriter(&buf)
	zw.Write(plain)
	zw.Close()
	return buf.Bytes(), fmt.Sprintf("payload damaged at %d of %d", i, len(plain)), true
}

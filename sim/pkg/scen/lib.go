package scen

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

// someLabels makes labels that are easily mistaken for each other.
func someLabels(r *world.Rand, n int) (ls []impl.Label) {
	for i := 0; i < n; i++ {
		base := fmt.Sprintf("http://ex.org/%d", i)
		switch r.N(12) {
		case 0:
			base = fmt.Sprintf("_:b%d", i)
		case 1:
			base = strings.Repeat("http://ex.org/long/", 20+r.N(100)) + fmt.Sprint(i)
		case 2:
			base = fmt.Sprintf("http://ex.org/ä%c/%d", 0x4e00+i, i)
		case 3:
			base = fmt.Sprintf("x\x00y%d", i)
		case 4:
			if i > 0 {
				base = string(ls[r.N(i)]) + "/"
			}
		case 5:
			base = fmt.Sprintf("%d", i)
		case 6:
			base = strings.ToUpper(base)
		case 7:
			base = fmt.Sprintf("http://ex.org/\xff\xfe%d", i)
		}
		ls = append(ls, impl.Label(base))
	}
	if r.P(20) {
		ls[r.N(n)] = ""
	}
	seen := map[impl.Label]bool{}
	var out []impl.Label
	for _, l := range ls {
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	return out
}

// labelModel is what an IMap has to look like.
type labelModel struct {
	canon   map[impl.Label]impl.Label
	literal map[impl.Label]impl.ID
	owner   map[impl.ID]impl.Label
	spare   map[impl.ID]bool // from Next
}

func newLabelModel() *labelModel {
	return &labelModel{map[impl.Label]impl.Label{}, map[impl.Label]impl.ID{}, map[impl.ID]impl.Label{}, map[impl.ID]bool{}}
}

func (m *labelModel) known() (ls []impl.Label) {
	for l := range m.canon {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i] < ls[j] })
	return
}

func (m *labelModel) add(l impl.Label) (old bool) {
	if _, ok := m.canon[l]; ok {
		return true
	}
	m.canon[l] = l
	return false
}

func (m *labelModel) mark(keep, gone impl.Label) {
	m.add(keep)
	m.add(gone)
	k, g := m.canon[keep], m.canon[gone]
	if k == g {
		return
	}
	for l, c := range m.canon {
		if c == g {
			m.canon[l] = k
		}
	}
}

// ids checks the identifiers of a label.
func (m *labelModel) ids(l impl.Label, ids imap.TripleID) error {
	if want, ok := m.literal[l]; ok {
		if want != ids.Literal {
			return fmt.Errorf("the literal identifier of %q changed from %v to %v", l, want, ids.Literal)
		}
	} else {
		if !ids.Literal.Valid() {
			return fmt.Errorf("%q has no literal identifier", l)
		}
		if o, ok := m.owner[ids.Literal]; ok {
			return fmt.Errorf("%q and %q share the literal identifier %v", l, o, ids.Literal)
		}
		if m.spare[ids.Literal] {
			return fmt.Errorf("%q has the identifier %v that was given away before", l, ids.Literal)
		}
		m.literal[l], m.owner[ids.Literal] = ids.Literal, l
	}
	c := m.canon[l]
	if want, ok := m.literal[c]; ok && want != ids.Canonical {
		return fmt.Errorf("%q resolves to %v (%q) instead of %v (%q)", l, ids.Canonical, m.owner[ids.Canonical], want, c)
	}
	return nil
}

func init() {
	type kept struct {
		got  impl.Label
		want string
	}
	hx.Register("imap", &hx.Scenario{
		Setup: func(c *hx.Ctx) {
			c.K.MkdirAll(cachePath)
			c.K.Classes = []string{cachePath}
			tune(c)
		},
		Body: func(c *hx.Ctx) {
			bad := func(kind, format string, args ...any) { c.Fail(kind, format, args...) }
			drop := map[int]bool{}
			for _, d := range c.Spec.World.Drop {
				drop[d] = true
			}
			exact := c.Arg("exact") != 0
			// reported tells if an error may occur
			reported := func(what string, err error) {
				c.Event("error reported")
				if exact || len(c.K.Fired) == 0 && c.Spec.Capacity == 0 {
					bad("error", "%s failed without a fault: %v", what, err)
				}
			}
			run := func(name string, engine imap.Map) {
				r := world.NewRand(c.Spec.World.Seed)
				labels := someLabels(r, 2+r.N(2+c.Arg("labels")))
				m := newLabelModel()
				var mp imap.IMap
				if c.Arg("again") != 0 {
					// what was there before may not matter
					if err := mp.Reset(engine); err != nil {
						reported("Reset", err)
						if mp.Close() == nil {
							c.Event("closed")
						}
						return
					}
					for i := 0; i < 3; i++ {
						if _, err := mp.MarkIdentical(labels[i%len(labels)], labels[(i+1)%len(labels)]); err != nil {
							reported("MarkIdentical", err)
						}
					}
					c.Event("reset in use")
				}
				if err := mp.Reset(engine); err != nil {
					reported("Reset", err)
					mp.Close()
					return
				}
				defer func() {
					if err := mp.Close(); err != nil {
						reported("Close", err)
					}
					if err := mp.Close(); err != nil {
						bad("close", "closing again: %v", err)
					}
				}()
				var keep []kept
				retain := func(l impl.Label) impl.Label {
					keep = append(keep, kept{l, strings.Clone(string(l))})
					return l
				}
				check := func(what string, l impl.Label, ids imap.TripleID) bool {
					if err := m.ids(l, ids); err != nil {
						bad("identity", "%s, %s: %v", name, what, err)
						return false
					}
					return true
				}
				// look asks about a label; it does not change the model except for
				// identifiers seen for the first time.
				look := func(what string, l impl.Label) {
					_, known := m.canon[l]
					ids, ok, err := mp.Get(l)
					switch {
					case err != nil:
						reported("Get", err)
					case ok != known:
						bad("known", "%s, %s: Get(%q) reports %v", name, what, l, ok)
					case ok:
						check(what+", Get", l, ids)
						back, err := mp.Reverse(ids.Literal)
						if err != nil {
							reported("Reverse", err)
						} else if retain(back) != l {
							bad("reverse", "%s, %s: Reverse of the literal identifier of %q is %q", name, what, l, back)
						}
						back, err = mp.Reverse(ids.Canonical)
						if err != nil {
							reported("Reverse", err)
						} else if retain(back) != m.canon[l] {
							bad("canonical", "%s, %s: the canonical label of %q is %q instead of %q", name, what, l, back, m.canon[l])
						}
						if id, err := mp.Forward(l); err != nil {
							reported("Forward", err)
						} else if id != ids.Canonical {
							bad("forward", "%s, %s: Forward(%q) is %v, Get said %v", name, what, l, id, ids.Canonical)
						}
					default:
						if id, err := mp.Forward(l); err != nil {
							reported("Forward", err)
						} else if id.Valid() {
							bad("forward", "%s, %s: Forward of unknown %q is %v", name, what, l, id)
						}
					}
				}
				identity := func(what string) {
					got := imap.MakeMemory[impl.Label, impl.Label](0)
					if err := mp.IdentityMap(&got); err != nil {
						reported("IdentityMap", err)
						return
					}
					n := 0
					got.Iterate(func(l, canon impl.Label) error {
						retain(l)
						n++
						if want, ok := m.canon[l]; !ok || want != canon || want == l {
							bad("identity-map", "%s, %s: %q is mapped to %q instead of %q", name, what, l, canon, want)
						}
						return nil
					})
					want := 0
					for l, c := range m.canon {
						if l != c {
							want++
						}
					}
					if n != want {
						bad("identity-map", "%s, %s: %d labels are mapped instead of %d", name, what, n, want)
					}
				}
				verify := func(what string) {
					for _, l := range labels {
						look(what, l)
					}
					look(what, "http://ex.org/never-added")
					identity(what)
				}
				// history
				n := c.Arg("ops")
				for i := 0; i < n && len(c.Res.Violations) == 0; i++ {
					op, a, b := r.N(100), labels[r.N(len(labels))], labels[r.N(len(labels))]
					if drop[i] {
						continue
					}
					what := fmt.Sprintf("operation %d", i)
					switch {
					case op < 20:
						ids, err := mp.Add(a)
						if err != nil {
							reported("Add", err)
							return
						}
						c.Event("add")
						m.add(a)
						check(what+", Add", a, ids)
					case op < 32:
						ids, old, err := mp.AddNew(a)
						if err != nil {
							reported("AddNew", err)
							return
						}
						c.Event("add")
						if m.add(a) != old {
							bad("old", "%s, %s: AddNew(%q) reports old = %v", name, what, a, old)
						}
						check(what+", AddNew", a, ids)
					case op < 62:
						id, err := mp.MarkIdentical(a, b)
						if err != nil {
							reported("MarkIdentical", err)
							return
						}
						c.Event("identify")
						if m.canon[a] != m.canon[b] || m.canon[a] == "" && m.canon[b] == "" {
							c.Event("groups joined")
						}
						m.mark(a, b)
						if ids, ok, err := mp.Get(a); err != nil {
							reported("Get", err)
						} else if !ok || ids.Canonical != id {
							bad("marked", "%s, %s: MarkIdentical returned %v, %q has %v", name, what, id, a, ids)
						} else {
							check(what+", MarkIdentical", a, ids)
						}
					case op < 80:
						look(what, a)
					case op < 86:
						if err := mp.Compact(); err != nil {
							reported("Compact", err)
						}
						c.Event("compact")
					case op < 91:
						id := mp.Next()
						if m.spare[id] || m.owner[id] != "" || !id.Valid() {
							bad("next", "%s, %s: Next returned %v, which is in use", name, what, id)
						}
						m.spare[id] = true
					case op < 95:
						identity(what)
					case op < 98:
						// several readers at once
						var wg sync.WaitGroup
						for j := 0; j < 3; j++ {
							l := labels[(i+j)%len(labels)]
							if _, ok := m.literal[l]; !ok {
								continue
							}
							wg.Add(1)
							go func() {
								defer wg.Done()
								ids, ok, err := mp.Get(l)
								if err != nil {
									reported("Get", err)
								} else if !ok || ids.Literal != m.literal[l] {
									bad("reader", "%s, %s: a reader sees %v for %q", name, what, ids, l)
								}
							}()
						}
						wg.Wait()
					default:
						verify(what)
					}
				}
				verify("at the end")
				if err := mp.Finalize(); err != nil {
					reported("Finalize", err)
				}
				verify("finalized")
				if _, err := mp.Add("http://ex.org/more"); !errors.Is(err, imap.ErrFinalized) {
					bad("finalized", "%s: Add after Finalize: %v", name, err)
				}
				if _, _, err := mp.AddNew(labels[0]); !errors.Is(err, imap.ErrFinalized) {
					bad("finalized", "%s: AddNew after Finalize: %v", name, err)
				}
				if _, err := mp.MarkIdentical(labels[0], labels[len(labels)-1]); !errors.Is(err, imap.ErrFinalized) {
					bad("finalized", "%s: MarkIdentical after Finalize: %v", name, err)
				}
				if err := mp.Finalize(); !errors.Is(err, imap.ErrFinalized) {
					bad("finalized", "%s: Finalize after Finalize: %v", name, err)
				}
				var wg sync.WaitGroup
				for j := 0; j < 1+r.N(4); j++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for _, l := range labels {
							ids, ok, err := mp.Get(l)
							_, known := m.literal[l]
							if err != nil {
								reported("Get", err)
							} else if ok != known && ok {
								// never seen before, because earlier questions failed
							} else if ok && ids.Literal != m.literal[l] {
								bad("reader", "%s: a reader sees %v for %q", name, ids, l)
							}
						}
					}()
				}
				wg.Wait()
				verify("after reading")
				for _, k := range keep {
					if string(k.got) != k.want {
						bad("changed", "%s: a label that was returned as %q later reads %q", name, k.want, k.got)
						break
					}
				}
				c.EventN("labels", len(labels))
			}
			if c.Arg("engine")&1 != 0 {
				run("memory", &imap.MemoryMap{})
			}
			if c.Arg("engine")&2 != 0 {
				run("disk", imap.DiskMap{Path: cachePath})
			}
		},
		Check: func(c *hx.Ctx) {
			if c.Sim.MainDone {
				c.CheckLeaks()
			}
		},
	})
}

// a graph to query
type edge struct {
	s, p, o        impl.Label // canonical, or empty
	datum          impl.Datum
	lang           impl.Language
	data           bool
	ls, lp, lo     impl.Label // literal
	role           igraph.Role
	subject, objID int // of data
}

func (e *edge) key() string {
	if e.data {
		return fmt.Sprintf("%q %q data %q %q", e.s, e.p, e.datum, e.lang)
	}
	return fmt.Sprintf("%q %q %q", e.s, e.p, e.o)
}

type libQuery struct {
	start  [2]impl.Label
	steps  []impl.Label
	ending *[2]impl.Label
	take   int // 0: all
	size   bool
	drop   bool // not even closed
	reused bool
}

// modelPaths lists the canonical form of the paths of a query.
func modelPaths(g *graphModel, q *libQuery) (paths []string) {
	type partial struct {
		node  impl.Label
		datum *edge
		nodes []impl.Label
		used  []string
	}
	var ps []partial
	p, o := g.label(q.start[0]), g.label(q.start[1])
	seen := map[string]bool{}
	for _, e := range g.edges {
		if !e.data && e.p == p && e.o == o && p != nil2 && o != nil2 && !seen[e.key()] {
			seen[e.key()] = true
			ps = append(ps, partial{node: e.s, nodes: []impl.Label{e.s}, used: []string{e.key()}})
		}
	}
	var edges []impl.Label
	for _, step := range q.steps {
		p := g.label(step)
		if p == nil2 {
			edges = append(edges, "")
		} else {
			edges = append(edges, p)
		}
		var next []partial
		for _, x := range ps {
			if x.datum != nil {
				continue
			}
			seen := map[string]bool{}
			for i := range g.edges {
				e := &g.edges[i]
				if e.p != p || e.s != x.node || p == nil2 {
					continue
				}
				if !e.data && seen[e.key()] {
					continue
				}
				seen[e.key()] = true
				n := partial{used: append(append([]string(nil), x.used...), e.key()), nodes: append([]impl.Label(nil), x.nodes...)}
				if e.data {
					n.datum = e
				} else {
					n.node = e.o
					n.nodes = append(n.nodes, e.o)
				}
				next = append(next, n)
			}
		}
		ps = next
	}
	if q.ending != nil {
		p, o := g.label(q.ending[0]), g.label(q.ending[1])
		var next []partial
		for _, x := range ps {
			if x.datum != nil {
				continue
			}
			for _, e := range g.edges {
				if !e.data && e.s == x.node && e.p == p && e.o == o && p != nil2 && o != nil2 {
					x.used = append(x.used, e.key())
					next = append(next, x)
					break
				}
			}
		}
		ps = next
	}
	for _, x := range ps {
		sort.Strings(x.used)
		d := ""
		if x.datum != nil {
			d = fmt.Sprintf("%q@%q", x.datum.datum, x.datum.lang)
		}
		paths = append(paths, fmt.Sprintf("nodes %q edges %q data %s triples %q", x.nodes, edges, d, x.used))
	}
	sort.Strings(paths)
	return
}

const nil2 = impl.Label("\x01unknown")

type graphModel struct {
	*labelModel
	inv   map[impl.Label]impl.Label
	edges []edge
	best  map[string][]*edge // by key, those that may stand for it
}

// label is the canonical label.
func (g *graphModel) label(l impl.Label) impl.Label {
	if c, ok := g.canon[l]; ok {
		return c
	}
	return nil2
}

func (g *graphModel) index() {
	g.best = map[string][]*edge{}
	for i := range g.edges {
		e := &g.edges[i]
		k := e.key()
		if b := g.best[k]; len(b) > 0 && b[0].role < e.role {
			continue
		} else if len(b) > 0 && b[0].role > e.role {
			g.best[k] = nil
		}
		g.best[k] = append(g.best[k], e)
	}
}

// describePath gives the canonical form of a path and checks its triples.
func describePath(g *graphModel, p *igraph.Path) (string, error) {
	var used []string
	for _, t := range p.Triples {
		e := edge{s: t.SSubject, p: t.SPredicate, o: t.SObject, data: t.Role == igraph.Data, datum: t.Datum, lang: t.Language}
		k := e.key()
		ok := false
		for _, b := range g.best[k] {
			if b.ls == t.Subject && b.lp == t.Predicate && (b.data || b.lo == t.Object) && b.role == t.Role {
				ok = true
			}
		}
		if !ok {
			return "", fmt.Errorf("triple %+v does not stand for a statement of the data", t)
		}
		used = append(used, k)
	}
	sort.Strings(used)
	d := ""
	if p.HasDatum {
		d = fmt.Sprintf("%q@%q", p.Datum, p.Language)
	}
	return fmt.Sprintf("nodes %q edges %q data %s triples %q", p.Nodes, p.Edges, d, used), nil
}

// outcome of a query
type answered struct {
	exact []string // everything in order
	canon []string
	err   error
	bad   error
	all   bool
}

func runQuery(index *igraph.Index, g *graphModel, q *libQuery) (a answered) {
	ps, err := index.PathsStarting(q.start[0], q.start[1])
	if err != nil {
		a.err = err
		return
	}
	for _, s := range q.steps {
		if err := ps.Connected(s); err != nil {
			a.err = err
			ps.Paths().Close()
			return
		}
	}
	if q.ending != nil {
		if err := ps.Ending(q.ending[0], q.ending[1]); err != nil {
			a.err = err
			ps.Paths().Close()
			return
		}
	}
	size := -1
	if q.size {
		size, err = ps.Size()
		if err != nil {
			a.err = err
			ps.Paths().Close()
			return
		}
	}
	it := ps.Paths()
	if !q.drop {
		defer it.Close()
	}
	for n := 0; ; n++ {
		if q.take > 0 && n >= q.take {
			return
		}
		if !it.Next() {
			break
		}
		p := it.Datum()
		text, err := describePath(g, &p)
		if err != nil && a.bad == nil {
			a.bad = err
		}
		a.canon = append(a.canon, text)
		a.exact = append(a.exact, fmt.Sprintf("%+v", p))
	}
	a.err = it.Err()
	a.all = a.err == nil
	if a.all && size >= 0 && size != len(a.exact) {
		a.bad = fmt.Errorf("Size said %d, there are %d paths", size, len(a.exact))
	}
	return
}

func init() {
	var index igraph.Index
	hx.Register("igraph", &hx.Scenario{
		Setup: func(c *hx.Ctx) {
			c.K.MkdirAll(cachePath)
			c.K.Classes = []string{cachePath}
			tune(c)
		},
		Body: func(c *hx.Ctx) {
			faults := c.K.Faults
			c.K.Faults = nil
			drop := map[int]bool{}
			for _, d := range c.Spec.World.Drop {
				drop[d] = true
			}
			r := world.NewRand(c.Spec.World.Seed)
			var engine igraph.Engine = &igraph.MemoryEngine{}
			if c.Arg("engine") == 2 {
				engine = igraph.DiskEngine{DiskMap: imap.DiskMap{Path: cachePath}}
			}
			must := func(what string, err error) bool {
				if err != nil {
					c.Fail("error", "%s failed: %v", what, err)
				}
				return err == nil
			}
			if !must("Reset", index.Reset(engine)) {
				return
			}
			nodes := someLabels(r, 3+r.N(3+c.Arg("labels")))
			preds := someLabels(r, 2+r.N(5))
			for i := range preds {
				if preds[i] == "" || r.P(80) {
					preds[i] = impl.Label(fmt.Sprintf("http://ex.org/p%d", i))
				}
			}
			g := &graphModel{labelModel: newLabelModel(), inv: map[impl.Label]impl.Label{}}
			node := func() impl.Label { return nodes[r.N(len(nodes))] }
			pred := func() impl.Label { return preds[r.N(len(preds))] }
			// statements about labels
			for i := r.N(7); i > 0; i-- {
				a, b := node(), node()
				if r.P(30) {
					a, b = pred(), pred()
				}
				g.mark(a, b)
				if !must("MarkIdentical", index.MarkIdentical(a, b)) {
					return
				}
			}
			for i := r.N(4); i > 0; i-- {
				a, b := pred(), pred()
				g.add(a)
				g.add(b)
				ca, cb := g.canon[a], g.canon[b]
				if ca == cb || g.inv[ca] != "" || g.inv[cb] != "" || ca == "" || cb == "" {
					continue
				}
				g.inv[ca], g.inv[cb] = cb, ca
				if !must("MarkInverse", index.MarkInverse(a, b)) {
					return
				}
			}
			pmask, dmask := map[impl.Label]bool(nil), map[impl.Label]bool(nil)
			if r.P(30) {
				pmask = map[impl.Label]bool{}
				m := map[impl.Label]struct{}{}
				for i := r.N(4); i >= 0; i-- {
					p := pred()
					m[p] = struct{}{}
					g.add(p)
				}
				for p := range m {
					pmask[g.canon[p]] = true
					if q := g.inv[g.canon[p]]; q != "" {
						pmask[q] = true
					}
				}
				if !must("SetPredicateMask", index.SetPredicateMask(m)) {
					return
				}
			}
			if r.P(30) {
				dmask = map[impl.Label]bool{}
				m := map[impl.Label]struct{}{}
				for i := r.N(4); i >= 0; i-- {
					p := pred()
					m[p] = struct{}{}
					g.add(p)
				}
				for p := range m {
					dmask[g.canon[p]] = true
				}
				if !must("SetDataMask", index.SetDataMask(m)) {
					return
				}
			}
			// data
			compact := 0
			for i, n := 0, c.Arg("ops"); i < n; i++ {
				kind, s, p, o := r.N(100), node(), pred(), node()
				text, lang := impl.Datum(fmt.Sprintf("value %d", r.N(6))), impl.Language([]string{"", "", "de", "en"}[r.N(4)])
				if drop[i] {
					continue
				}
				// a masked predicate is not added
				include := func(mask map[impl.Label]bool) bool {
					if mask == nil {
						g.add(p)
						return true
					}
					c, ok := g.canon[p]
					return ok && mask[c]
				}
				switch {
				case kind < 65:
					if !must("AddTriple", index.AddTriple(s, p, o)) {
						return
					}
					if !include(pmask) {
						c.Event("masked")
						continue
					}
					g.add(s)
					g.add(o)
					cs, cp, co := g.canon[s], g.canon[p], g.canon[o]
					g.edges = append(g.edges, edge{s: cs, p: cp, o: co, ls: s, lp: p, lo: o, role: igraph.Regular})
					if q := g.inv[cp]; q != "" {
						g.edges = append(g.edges, edge{s: co, p: q, o: cs, ls: s, lp: p, lo: o, role: igraph.Inverse})
					}
				case kind < 93:
					if !must("AddLangData", index.AddLangData(s, p, text, lang)) {
						return
					}
					if !include(dmask) {
						c.Event("masked")
						continue
					}
					g.add(s)
					g.edges = append(g.edges, edge{s: g.canon[s], p: g.canon[p], ls: s, lp: p, datum: text, lang: lang, data: true, role: igraph.Data})
				case compact < 6:
					compact++
					if !must("Compact", index.Compact()) {
						return
					}
				}
			}
			g.index()
			if !must("Finalize", index.Finalize()) {
				return
			}
			c.EventN("edges", len(g.edges))
			// queries
			var qs []*libQuery
			for i := 0; i < c.Arg("queries"); i++ {
				q := &libQuery{start: [2]impl.Label{pred(), node()}}
				if len(g.edges) > 0 && r.P(80) {
					// something that exists
					e := &g.edges[r.N(len(g.edges))]
					if !e.data {
						q.start = [2]impl.Label{e.p, e.o}
					}
				}
				if r.P(3) {
					q.start[r.N(2)] = "http://ex.org/unknown"
				}
				for n := r.N(4); n > 0; n-- {
					if r.P(4) {
						q.steps = append(q.steps, "http://ex.org/unknown")
					} else {
						q.steps = append(q.steps, pred())
					}
				}
				if r.P(25) {
					q.ending = &[2]impl.Label{pred(), node()}
				}
				q.size = r.P(15)
				if r.P(35) {
					q.take = 1 + r.N(5)
					q.drop = r.P(30)
				}
				qs = append(qs, q)
			}
			for i := r.N(3); i > 0 && len(qs) > 0; i-- {
				qs = append(qs, qs[r.N(len(qs))]) // the same query several times
			}
			before := runtime.NumGoroutine()
			alone := make([]answered, len(qs))
			single := func() {
				for i, q := range qs {
					all := *q
					all.take, all.drop = 0, false
					a := runQuery(&index, g, &all)
					alone[i] = a
					if a.err != nil {
						c.Fail("error", "query %d failed: %v", i, a.err)
						continue
					}
					if a.bad != nil {
						c.Fail("triples", "query %d: %v", i, a.bad)
					}
					got := append([]string(nil), a.canon...)
					sort.Strings(got)
					c.EventN("paths", len(got))
					if err := sameLines(modelPaths(g, q), got); err != nil {
						c.Fail("paths", "query %d (start %q steps %q ending %q): model and result differ: %v", i, q.start, q.steps, q.ending, err)
					}
				}
			}
			if c.Arg("alone") == 0 {
				single()
			}
			// all at once
			c.K.Counts = map[string]int{}
			c.K.Faults = faults
			fired := len(c.K.Fired)
			together := make([]answered, len(qs))
			var wg sync.WaitGroup
			workers := 1 + c.Arg("workers")
			refused := make([]error, 0, 8)
			for w := 0; w < workers; w++ {
				w := w
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := w; i < len(qs); i += workers {
						together[i] = runQuery(&index, g, qs[i])
					}
				}()
			}
			if c.Arg("modify") != 0 {
				wg.Add(1)
				go func() {
					defer wg.Done()
					a, b := nodes[0], nodes[len(nodes)-1]
					refused = append(refused, index.AddTriple(a, preds[0], b), index.AddData(a, preds[0], "more"), index.MarkIdentical(a, b),
						index.MarkInverse(preds[0], preds[len(preds)-1]), index.Compact(), index.Finalize(), index.AddTriple("http://ex.org/new", "http://ex.org/newp", "http://ex.org/new"))
				}()
			}
			wg.Wait()
			failed := len(c.K.Fired) > fired
			c.K.Faults = nil
			for i, err := range refused {
				if !errors.Is(err, igraph.ErrFinalized) {
					c.Fail("finalized", "modification %d of a finished index: %v", i, err)
				}
			}
			if c.Arg("alone") != 0 {
				single()
			}
			for i, q := range qs {
				a, t := alone[i], together[i]
				if a.err != nil {
					continue
				}
				if t.bad != nil {
					c.Fail("triples", "query %d among others: %v", i, t.bad)
				}
				if t.err != nil {
					c.Event("query failed")
					if !failed || c.Arg("exact") != 0 {
						c.Fail("error", "query %d failed among others without a fault: %v", i, t.err)
					}
				}
				if t.all {
					c.Event("query complete")
				} else if t.err == nil {
					c.Event("query abandoned")
				}
				for j := range t.exact {
					if j >= len(a.exact) || a.exact[j] != t.exact[j] {
						c.Fail("differs", "query %d among others gives another path %d: %s", i, j, t.exact[j])
						break
					}
				}
				if want := len(a.exact); t.err == nil && (t.all && len(t.exact) != want || !t.all && len(t.exact) < min(want, q.take)) {
					c.Fail("differs", "query %d among others gives %d of %d paths without an error", i, len(t.exact), want)
				}
			}
			// what was closed or read to the end has to be gone
			closed := true
			for _, q := range qs {
				if q.drop {
					closed = false
				}
			}
			if closed && len(c.Res.Violations) == 0 {
				time.Sleep(time.Minute)
				if after := runtime.NumGoroutine(); after > before {
					c.Fail("running", "%d goroutines of queries are still running: %s", after-before, hx.Stacks())
				}
			}
			if err := index.Close(); err != nil {
				c.Fail("close", "Close: %v", err)
			}
		},
		Check: func(c *hx.Ctx) {
			if c.Sim.MainDone && len(c.Res.Violations) == 0 {
				c.CheckLeaks()
			}
		},
	})
}

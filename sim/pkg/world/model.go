package world

import (
	"fmt"
	"sort"
	"strings"
)

// Inst is a match of a path: its nodes, and the statements along it.
type Inst struct {
	Nodes   []string
	Value   string
	Lang    string
	HasLit  bool
	Support []string // canonical statements, sorted
}

// Value is a value of a field.
type Value struct {
	Value, Lang string
	Path        []string
	Support     []string
}

// Entity is what the model expects of an entity.
type Entity struct {
	URI      string
	Cands    []Inst // possible paths and supporting statements
	Fields   map[string][]Value
	Children map[string][]*Entity
}

// Triple is a statement as the code under test reports it.
type Triple struct {
	S, P, O, SS, SP, SO string
	Datum, Lang         string
	Role                string // "", "inverse", "data"
}

// Model is the expected outcome.
type Model struct {
	W       *World
	canon   map[string]string
	members map[string][]string
	inverse map[string]string
	out     map[string]map[string][]string // canonical predicate -> subject -> objects
	lits    map[string]map[string][]litv   // canonical predicate -> subject -> values
	sources map[string]map[string]bool     // canonical statement -> literal statements
	Bundles map[string][]*Entity           // top-level bundle -> one entry per match
	Order   []string                       // top-level bundles in their order
	byGroup map[*Group]map[string]*Entity
	insts   map[*Group][]Inst
	left    int  // how many more matches may be found
	TooBig  bool // the search for matches was given up
}

// Limit of the number of matches.
const Limit = 6000

// Weight counts everything in the bundles, with shared parts counted each time.
func (m *Model) Weight() int {
	memo := map[*Entity]int{}
	var weigh func(e *Entity) int
	weigh = func(e *Entity) int {
		if n, ok := memo[e]; ok {
			return n
		}
		n := 1
		for _, vs := range e.Fields {
			n += len(vs)
		}
		for _, cs := range e.Children {
			for _, c := range cs {
				n += weigh(c)
				if n > 1<<30 {
					return 1 << 30
				}
			}
		}
		memo[e] = n
		return n
	}
	total := 0
	for _, es := range m.Bundles {
		for _, e := range es {
			total += weigh(e)
		}
	}
	return total
}

// Fits reports whether the input has an outcome of reasonable size.
func Fits(p Params, weight int) bool {
	m := NewModel(New(p))
	return !m.TooBig && m.Weight() <= weight
}

type litv struct{ value, lang string }

// Canon returns the canonical label.
func (m *Model) Canon(l string) string {
	if c, ok := m.canon[l]; ok {
		return c
	}
	return l
}

// Class returns all labels identified with one.
func (m *Model) Class(l string) []string {
	c := m.Canon(l)
	if ms, ok := m.members[c]; ok {
		return ms
	}
	return []string{c}
}

// Identities returns the labels with another canonical label.
func (m *Model) Identities() map[string]string {
	out := map[string]string{}
	for l, c := range m.canon {
		if l != c {
			out[l] = c
		}
	}
	return out
}

func (m *Model) identify(new, old string) {
	for _, l := range []string{new, old} {
		if _, ok := m.canon[l]; !ok {
			m.canon[l] = l
			m.members[l] = []string{l}
		}
	}
	cn, co := m.canon[new], m.canon[old]
	if cn == co {
		return
	}
	for _, l := range m.members[co] {
		m.canon[l] = cn
	}
	m.members[cn] = append(m.members[cn], m.members[co]...)
	delete(m.members, co)
}

func inList(list []string, s string) bool {
	for _, l := range list {
		if l == s {
			return true
		}
	}
	return false
}

func stKey(parts ...string) string { return strings.Join(parts, "\x1f") }

// NewModel computes the expected outcome.
func NewModel(w *World) *Model {
	m := &Model{W: w,
		canon: map[string]string{}, members: map[string][]string{}, inverse: map[string]string{},
		out: map[string]map[string][]string{}, lits: map[string]map[string][]litv{},
		sources: map[string]map[string]bool{}, Bundles: map[string][]*Entity{},
		byGroup: map[*Group]map[string]*Entity{}, insts: map[*Group][]Inst{}, left: Limit,
	}
	for _, q := range w.Quads {
		if !q.Lit && inList(w.SameAs, q.P) {
			m.identify(q.S, q.O)
		}
	}
	for _, q := range w.Quads {
		if !q.Lit && inList(w.InverseOf, q.P) {
			a, b := m.Canon(q.S), m.Canon(q.O)
			m.inverse[a], m.inverse[b] = b, a
		}
	}
	source := func(key, lit string) {
		if m.sources[key] == nil {
			m.sources[key] = map[string]bool{}
		}
		m.sources[key][lit] = true
	}
	seen := map[string]bool{}
	edge := func(s, p, o, lit string) {
		key := stKey(s, p, o)
		source(key, lit)
		if seen[key] {
			return
		}
		seen[key] = true
		if m.out[p] == nil {
			m.out[p] = map[string][]string{}
		}
		m.out[p][s] = append(m.out[p][s], o)
	}
	for _, q := range w.Quads {
		s, p := m.Canon(q.S), m.Canon(q.P)
		if q.Lit {
			if m.lits[p] == nil {
				m.lits[p] = map[string][]litv{}
			}
			m.lits[p][s] = append(m.lits[p][s], litv{q.Value, q.Lang})
			source(stKey(s, p, "lit", q.Value, q.Lang), stKey(q.S, q.P, "data"))
			continue
		}
		o := m.Canon(q.O)
		lit := stKey(q.S, q.P, q.O)
		edge(s, p, o, stKey(lit, ""))
		if i, ok := m.inverse[p]; ok {
			edge(o, i, s, stKey(lit, "inverse"))
		}
	}
	var extract func(gr *Group)
	extract = func(gr *Group) {
		index := 0
		if gr.Parent != nil {
			index = len(gr.Path) / 2
		}
		insts := m.Match(gr.Path, "")
		m.insts[gr] = insts
		ents := map[string]*Entity{}
		m.byGroup[gr] = ents
		for _, in := range insts {
			uri := in.Nodes[index]
			e := ents[uri]
			if e == nil {
				e = &Entity{URI: uri, Fields: map[string][]Value{}, Children: map[string][]*Entity{}}
				ents[uri] = e
			}
			e.Cands = append(e.Cands, in)
		}
		for _, f := range gr.Fields {
			if !f.Enabled {
				continue
			}
			dt := f.Datatype
			if dt == "empty" {
				dt = ""
			}
			for _, in := range m.Match(f.Path, dt) {
				e := ents[in.Nodes[index]]
				if e == nil {
					continue
				}
				v := Value{Value: in.Value, Lang: in.Lang, Path: in.Nodes, Support: in.Support}
				if !in.HasLit {
					v.Value = in.Nodes[len(in.Nodes)-1]
				}
				e.Fields[f.ID] = append(e.Fields[f.ID], v)
			}
		}
		for _, c := range gr.Children {
			if !c.Enabled {
				continue
			}
			extract(c)
			for _, in := range m.insts[c] {
				e := ents[in.Nodes[index]]
				if e == nil {
					continue
				}
				e.Children[c.ID] = append(e.Children[c.ID], m.byGroup[c][in.Nodes[len(c.Path)/2]])
			}
		}
	}
	var tops []*Group
	for _, gr := range w.Groups {
		if !gr.Enabled {
			continue
		}
		extract(gr)
		tops = append(tops, gr)
		list := []*Entity{}
		for _, in := range m.insts[gr] {
			list = append(list, m.byGroup[gr][in.Nodes[0]])
		}
		m.Bundles[gr.ID] = list
	}
	sort.SliceStable(tops, func(i, j int) bool { return tops[i].Weight < tops[j].Weight })
	for _, gr := range tops {
		m.Order = append(m.Order, gr.ID)
	}
	return m
}

// Match lists the matches of a path, optionally ending in a datatype property.
func (m *Model) Match(path []string, datatype string) (out []Inst) {
	typ := m.Canon(RDFType)
	hasType := func(n, class string) bool { return inList(m.out[typ][n], class) }
	var starts []string
	c0 := m.Canon(path[0])
	for n := range m.out[typ] {
		if hasType(n, c0) {
			starts = append(starts, n)
		}
	}
	sort.Strings(starts)
	var rec func(i int, nodes, support []string)
	rec = func(i int, nodes, support []string) {
		if m.left--; m.left < 0 {
			m.TooBig = true
			return
		}
		last := nodes[len(nodes)-1]
		if i >= len(path) {
			if datatype == "" {
				out = append(out, Inst{Nodes: clone(nodes), Support: sorted(support)})
				return
			}
			d := m.Canon(datatype)
			for _, l := range m.lits[d][last] {
				out = append(out, Inst{Nodes: clone(nodes), Value: l.value, Lang: l.lang, HasLit: true, Support: sorted(append(clone(support), stKey(last, d, "lit", l.value, l.lang)))})
			}
			return
		}
		p := m.Canon(path[i])
		for _, o := range m.out[p][last] {
			s := append(clone(support), stKey(last, p, o))
			if i+1 < len(path) {
				c := m.Canon(path[i+1])
				if !hasType(o, c) {
					continue
				}
				s = append(s, stKey(o, typ, c))
			}
			rec(i+2, append(clone(nodes), o), s)
		}
	}
	for _, n := range starts {
		rec(1, []string{n}, []string{stKey(n, typ, c0)})
	}
	return out
}

func clone(s []string) []string { return append([]string(nil), s...) }

func sorted(s []string) []string {
	sort.Strings(s)
	return s
}

// Support turns reported statements into canonical ones, checking that each was really made.
func (m *Model) Support(ts []Triple) (out []string, err error) {
	for _, t := range ts {
		var key, lit string
		if t.Role == "data" {
			key = stKey(t.SS, t.SP, "lit", t.Datum, t.Lang)
			lit = stKey(t.S, t.P, "data")
		} else {
			key = stKey(t.SS, t.SP, t.SO)
			lit = stKey(t.S, t.P, t.O, t.Role)
		}
		if !m.sources[key][lit] {
			return nil, fmt.Errorf("statement %+v was never made", t)
		}
		out = append(out, key)
	}
	return sorted(out), nil
}

// Stats for the notes of a run.
func (m *Model) Sizes() (bundles, entities, values, children int) {
	bundles = len(m.byGroup)
	for _, ents := range m.byGroup {
		entities += len(ents)
		for _, e := range ents {
			for _, v := range e.Fields {
				values += len(v)
			}
			for _, c := range e.Children {
				children += len(c)
			}
		}
	}
	return
}

// Groups returns the expected entities of a group by URI.
func (m *Model) Entities(gr *Group) map[string]*Entity { return m.byGroup[gr] }

// Insts returns the matches of a group's path.
func (m *Model) Insts(gr *Group) []Inst { return m.insts[gr] }

// Keys is a helper for sorted iteration.
func Keys[V any](m map[string]V) []string { return sortedKeys(m) }

// Stated reports whether a canonical statement is in the data.
func (m *Model) Stated(t Triple) bool {
	if t.Role == "data" {
		return m.sources[stKey(t.SS, t.SP, "lit", t.Datum, t.Lang)] != nil
	}
	return m.sources[stKey(t.SS, t.SP, t.SO)] != nil
}

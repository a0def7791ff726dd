// Package world generates inputs (a pathbuilder and quads) and holds an independent model of
// what loading them has to give. It uses none of the code under test.
package world

import (
	"fmt"
	"sort"
	"strings"
)

// Rand is a small generator with a fixed algorithm, so that a seed means the same input forever.
type Rand struct{ s uint64 }

// NewRand makes a generator.
func NewRand(seed uint64) *Rand { return &Rand{seed*0x9e3779b97f4a7c15 + 0x1234567} }

// Uint64 returns the next number.
func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number below n.
func (r *Rand) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.Uint64()>>1) % n
}

// P is true with a probability of pct percent.
func (r *Rand) P(pct int) bool { return r.N(100) < pct }

// Perm returns a permutation.
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.N(i + 1)
		p[i], p[j] = p[j], i
	}
	return p
}

// Params selects a world.
type Params struct {
	Seed    uint64 `json:"seed"`
	Size    int    `json:"size"`              // 0 tiny, 1 small, 2 medium, 3 large
	Names   int    `json:"names,omitempty"`   // 0 plain identifiers, 1 unusual ones, 2 suitable for sql
	Drop    []int  `json:"drop,omitempty"`    // quads left out (by the minimiser)
	Change  int    `json:"change,omitempty"`  // 0 none; 1 other data; 2 other pathbuilder; 3 both
	Plain   bool   `json:"plain,omitempty"`   // no same-as and inverse-of statements
	Dense   bool   `json:"dense,omitempty"`   // more links and values
	Single  bool   `json:"single,omitempty"`  // top-level bundles have a path of length one
	NoTypes bool   `json:"notypes,omitempty"` // no typed literals
	SubSet  bool   `json:"subset,omitempty"`  // with Change: only leave something out
	Sparse  bool   `json:"sparse,omitempty"`  // few entities
	Deep    bool   `json:"deep,omitempty"`    // nested bundles guaranteed
}

// Field of a bundle.
type Field struct {
	ID       string
	Path     []string
	Datatype string
	Enabled  bool
	Card     int
	Weight   int
}

// Group is a bundle.
type Group struct {
	ID       string
	Path     []string
	Fields   []*Field
	Children []*Group
	Parent   *Group
	Enabled  bool
	Card     int
	Weight   int
}

// Quad is a statement.
type Quad struct {
	S, P, O  string
	Lit      bool
	Lang     string
	Type     string
	Graph    string
	SB, OB   bool // subject and object are blank nodes
	Value    string
	HasGraph bool
}

// World is an input.
type World struct {
	Params    Params
	Groups    []*Group // top-level
	Quads     []Quad
	SameAs    []string
	InverseOf []string
	Notes     map[string]int
}

const (
	ns      = "http://ex.org/"
	RDFType = "http://www.w3.org/1999/02/22-rdf-syntax-ns#type"
	owlSame = "http://www.w3.org/2002/07/owl#sameAs"
	owlEqC  = "http://www.w3.org/2002/07/owl#equivalentClass"
	owlEqP  = "http://www.w3.org/2002/07/owl#equivalentProperty"
	owlInv  = "http://www.w3.org/2002/07/owl#inverseOf"
)

type step struct{ from, pred, to string } // class, predicate, class
type dstep struct{ class, prop string }

type gen struct {
	r      *Rand
	w      *World
	classN int
	predN  int
	propN  int
	idN    int
	steps  []step
	dsteps []dstep
	names  map[string]bool
}

var odd = []string{
	"..", ".", "a/b", "../up", "a/../b", "/abs", "with space", "ä-ö", "A", "a", "x\\y", "nul-\u2400", "%2e%2e", "con.", "d_eadbeef", "d_7468697320697320686578",
	strings.Repeat("l", 300), "-", "~", "b.c", "LOCK", "0x", "00", "*?", "é", "e\u0301", "...", "labels", "data", "triples",
}

func (g *gen) id(prefix string) string {
	g.idN++
	id := fmt.Sprintf("%s%d", prefix, g.idN)
	if g.w.Params.Names == 1 && g.r.P(70) {
		o := odd[g.r.N(len(odd))]
		if g.r.P(20) {
			o = "../" + o
		}
		if !g.names[o] && o != "0" {
			id = o
		}
	}
	g.names[id] = true
	return id
}

func (g *gen) class() string { g.classN++; return fmt.Sprintf("%sC%d", ns, g.classN) }
func (g *gen) pred() string  { g.predN++; return fmt.Sprintf("%sp%d", ns, g.predN) }
func (g *gen) prop() string  { g.propN++; return fmt.Sprintf("%sd%d", ns, g.propN) }

// reuse picks one of the classes made so far, sometimes.
func (g *gen) someClass() string {
	if g.classN > 0 && g.r.P(25) {
		return fmt.Sprintf("%sC%d", ns, 1+g.r.N(g.classN))
	}
	return g.class()
}

func (g *gen) somePred(from, to string) string {
	p := ""
	if len(g.steps) > 0 && g.r.P(20) {
		p = g.steps[g.r.N(len(g.steps))].pred
	} else {
		p = g.pred()
	}
	g.steps = append(g.steps, step{from, p, to})
	return p
}

// extend returns the path with n steps more.
func (g *gen) extend(path []string, n int) []string {
	path = append([]string(nil), path...)
	for i := 0; i < n; i++ {
		from := path[len(path)-1]
		to := g.someClass()
		p := g.somePred(from, to)
		path = append(path, p, to)
	}
	return path
}

func (g *gen) group(parent *Group, depth int) *Group {
	gr := &Group{ID: g.id("b"), Parent: parent, Enabled: true, Card: -1, Weight: g.r.N(40) - 20}
	if g.r.P(30) {
		gr.Card = g.r.N(3)
	}
	if parent == nil {
		gr.Path = []string{g.someClass()}
		if !g.w.Params.Single && g.r.P(12) {
			gr.Path = g.extend(gr.Path, 1)
		}
	} else {
		n := 1
		if g.r.P(15) {
			n = 2
		}
		gr.Path = g.extend(parent.Path, n)
	}
	nf := g.r.N(4)
	if g.w.Params.Size == 0 {
		nf = g.r.N(3)
	}
	for i := 0; i < nf; i++ {
		f := &Field{ID: g.id("f"), Enabled: !g.r.P(6), Card: -1, Weight: g.r.N(40) - 20}
		if g.r.P(30) {
			f.Card = g.r.N(3)
		}
		n := []int{0, 0, 1, 1, 2}[g.r.N(5)]
		f.Path = g.extend(gr.Path, n)
		switch {
		case g.r.P(15):
			f.Datatype = "empty"
		case g.r.P(5):
			f.Datatype = ""
		default:
			if len(g.dsteps) > 0 && g.r.P(20) {
				f.Datatype = g.dsteps[g.r.N(len(g.dsteps))].prop
			} else {
				f.Datatype = g.prop()
			}
			g.dsteps = append(g.dsteps, dstep{f.Path[len(f.Path)-1], f.Datatype})
		}
		gr.Fields = append(gr.Fields, f)
	}
	if depth < 3 {
		nc := []int{0, 0, 1, 1, 2}[g.r.N(5)]
		if g.w.Params.Deep && depth < 2 && nc == 0 {
			nc = 1
		}
		if g.w.Params.Size == 0 && nc > 1 {
			nc = 1
		}
		if depth == 2 && nc > 1 {
			nc = 1
		}
		for i := 0; i < nc; i++ {
			gr.Children = append(gr.Children, g.group(gr, depth+1))
		}
	}
	return gr
}

func disable(gr *Group) {
	gr.Enabled = false
	for _, f := range gr.Fields {
		f.Enabled = false
	}
	for _, c := range gr.Children {
		disable(c)
	}
}

var texts = []string{
	"plain", "", "two words", "with \"quotes\"", "line\nbreak", "tab\there", "back\\slash", "ünïcödé ☃", "<html>&amp;", "a,b", "a|b", "0", "7", "NULL", "'; DROP TABLE x; --",
	" lead", "trail ", "\r\n", "𝔘𝔫𝔦", "long " + strings.Repeat("x", 120),
}

func (g *gen) text() string {
	if g.r.P(50) {
		return texts[g.r.N(len(texts))]
	}
	return fmt.Sprintf("value %d", g.r.N(1000))
}

var langs = []string{"", "", "de", "en", "en-GB"}

// New generates a world.
func New(p Params) *World {
	w := &World{Params: p, Notes: map[string]int{}}
	w.SameAs = []string{owlSame, owlEqC, owlEqP}
	w.InverseOf = []string{owlInv}
	g := &gen{r: NewRand(p.Seed*8 + 1), w: w, names: map[string]bool{}}
	r := g.r

	// the pathbuilder
	nb := []int{1 + r.N(2), 1 + r.N(3), 2 + r.N(3), 3 + r.N(4)}[p.Size&3]
	for i := 0; i < nb; i++ {
		w.Groups = append(w.Groups, g.group(nil, 0))
	}
	// no two top-level bundles of equal weight, as their order would be anyone's guess
	used := map[int]bool{}
	for _, gr := range w.Groups {
		for used[gr.Weight] {
			gr.Weight++
		}
		used[gr.Weight] = true
	}
	if nb > 1 && r.P(10) {
		disable(w.Groups[r.N(nb)])
	}
	for _, gr := range w.Groups {
		if len(gr.Children) > 1 && r.P(8) {
			disable(gr.Children[0])
		}
	}

	if p.Change&1 != 0 {
		g.r = NewRand(p.Seed*8 + 5 + uint64(p.Change))
		r = g.r
	}
	g.data()

	if p.Change&2 != 0 {
		g.r = NewRand(p.Seed*8 + 3)
		g.changePathbuilder()
	}
	if len(p.Drop) > 0 {
		drop := map[int]bool{}
		for _, i := range p.Drop {
			drop[i] = true
		}
		var keep []Quad
		for i, q := range w.Quads {
			if !drop[i] {
				keep = append(keep, q)
			}
		}
		w.Quads = keep
	}
	return w
}

// changePathbuilder leaves out or adds something.
func (g *gen) changePathbuilder() {
	r := g.r
	groups := g.w.All()
	switch r.N(4) {
	case 0:
		gr := groups[r.N(len(groups))]
		if len(gr.Fields) > 0 {
			gr.Fields[r.N(len(gr.Fields))].Enabled = false
			return
		}
	case 1:
		if len(g.w.Groups) > 1 {
			disable(g.w.Groups[r.N(len(g.w.Groups))])
			return
		}
	case 2:
		for _, gr := range groups {
			if len(gr.Children) > 0 {
				disable(gr.Children[r.N(len(gr.Children))])
				return
			}
		}
	}
	gr := groups[r.N(len(groups))]
	if len(gr.Fields) > 0 {
		gr.Fields[0].Datatype = ""
		if len(gr.Fields) > 1 {
			gr.Fields[1].ID, gr.Fields[0].ID = gr.Fields[0].ID, gr.Fields[1].ID
		}
	}
}

// All lists all groups.
func (w *World) All() (all []*Group) {
	var rec func(gr *Group)
	rec = func(gr *Group) {
		all = append(all, gr)
		for _, c := range gr.Children {
			rec(c)
		}
	}
	for _, gr := range w.Groups {
		rec(gr)
	}
	return all
}

func (g *gen) data() {
	r, w, p := g.r, g.w, g.w.Params

	// aliases of classes and predicates, and inverses
	aliases := map[string][]string{}
	inverse := map[string]string{}
	type link struct{ s, p, o string }
	var statements []link
	same := func(pred, a, b string) {
		if r.P(50) {
			a, b = b, a
		}
		statements = append(statements, link{a, pred, b})
	}
	if !p.Plain {
		for i := 1; i <= g.classN; i++ {
			if r.P(20) {
				c := fmt.Sprintf("%sC%d", ns, i)
				for j := 0; j <= r.N(2); j++ {
					a := fmt.Sprintf("%sC%dalias%d", ns, i, j)
					last := c
					if n := len(aliases[c]); n > 0 && r.P(50) {
						last = aliases[c][n-1]
					}
					aliases[c] = append(aliases[c], a)
					same(owlEqC, last, a)
				}
			}
		}
		for i := 1; i <= g.predN; i++ {
			c := fmt.Sprintf("%sp%d", ns, i)
			if r.P(20) {
				a := fmt.Sprintf("%sp%dalias", ns, i)
				aliases[c] = append(aliases[c], a)
				same(owlEqP, c, a)
			}
			if r.P(25) {
				inv := fmt.Sprintf("%sp%dinv", ns, i)
				inverse[c] = inv
				if r.P(50) {
					statements = append(statements, link{c, owlInv, inv})
				} else {
					statements = append(statements, link{inv, owlInv, c})
				}
				if r.P(20) {
					a := inv + "alias"
					aliases[inv] = append(aliases[inv], a)
					same(owlEqP, inv, a)
				}
			}
		}
		for i := 1; i <= g.propN; i++ {
			c := fmt.Sprintf("%sd%d", ns, i)
			if r.P(15) {
				a := c + "alias"
				aliases[c] = append(aliases[c], a)
				same(owlEqP, c, a)
			}
		}
	}
	name := func(c string) string {
		if n := len(aliases[c]); n > 0 && r.P(40) {
			return aliases[c][r.N(n)]
		}
		return c
	}

	// nodes by class
	members := map[string][]string{}
	var nodes []string
	blank := map[string]bool{}
	nodeN := 0
	newNode := func() string {
		nodeN++
		var n string
		switch {
		case r.P(15):
			n = fmt.Sprintf("_:bn%d", nodeN)
			blank[n] = true
		case r.P(20):
			n = fmt.Sprintf("%sänd/%d?x=%d&y#f", "https://other.example/", nodeN, nodeN)
		default:
			n = fmt.Sprintf("%sn%d", ns, nodeN)
		}
		nodes = append(nodes, n)
		return n
	}
	quad := func(s, pr, o string) {
		q := Quad{S: s, P: pr, O: o, SB: blank[s], OB: blank[o]}
		if r.P(60) {
			q.HasGraph = true
			q.Graph = fmt.Sprintf("%sg%d", ns, r.N(3))
		}
		w.Quads = append(w.Quads, q)
	}
	lit := func(s, pr, v, lang, typ string) {
		q := Quad{S: s, P: pr, Lit: true, Value: v, Lang: lang, Type: typ, SB: blank[s]}
		if r.P(60) {
			q.HasGraph = true
			q.Graph = fmt.Sprintf("%sg%d", ns, r.N(3))
		}
		w.Quads = append(w.Quads, q)
	}

	per := []int{1 + r.N(3), 1 + r.N(6), 2 + r.N(12), 10 + r.N(40)}[p.Size&3]
	if p.Sparse {
		per = 1 + r.N(2)
	}
	for i := 1; i <= g.classN; i++ {
		c := fmt.Sprintf("%sC%d", ns, i)
		n := per
		if r.P(10) {
			n = 0
		}
		for j := 0; j < n; j++ {
			var nd string
			if len(nodes) > 0 && r.P(15) {
				nd = nodes[r.N(len(nodes))]
			} else {
				nd = newNode()
			}
			members[c] = append(members[c], nd)
			quad(nd, RDFType, name(c))
			if r.P(5) {
				quad(nd, RDFType, name(c)) // said twice
			}
		}
	}
	// nodes that are the same
	if !p.Plain && len(nodes) > 1 {
		n := r.N(1 + len(nodes)/5)
		for i := 0; i < n; i++ {
			a, b := nodes[r.N(len(nodes))], nodes[r.N(len(nodes))]
			if r.P(60) {
				// an alias that has statements of its own
				b = newNode()
				if len(g.dsteps) > 0 {
					d := g.dsteps[r.N(len(g.dsteps))]
					if r.P(60) {
						lit(b, name(d.prop), g.text(), langs[r.N(len(langs))], "")
					}
				}
				if r.P(30) {
					quad(b, RDFType, name(fmt.Sprintf("%sC%d", ns, 1+r.N(g.classN))))
				}
			}
			if a != b {
				q := Quad{S: a, P: owlSame, O: b, SB: blank[a], OB: blank[b]}
				if r.P(50) {
					q.S, q.O, q.SB, q.OB = q.O, q.S, q.OB, q.SB
				}
				w.Quads = append(w.Quads, q)
				w.Notes["same"]++
			}
		}
	}
	// links
	pct := 40
	if p.Dense {
		pct = 80
	}
	seen := map[step]bool{}
	for _, s := range g.steps {
		if seen[s] {
			continue
		}
		seen[s] = true
		from, to := members[s.from], members[s.to]
		if len(to) == 0 {
			continue
		}
		for _, a := range from {
			n := 0
			if r.P(85) {
				n = 1
			}
			if r.P(pct / 2) {
				n += 1 + r.N(2)
			}
			for i := 0; i < n; i++ {
				b := to[r.N(len(to))]
				pr := s.pred
				if inv, ok := inverse[pr]; ok && r.P(50) {
					quad(b, name(inv), a)
					w.Notes["inverse"]++
					if r.P(20) {
						quad(a, name(pr), b)
					}
					continue
				}
				quad(a, name(pr), b)
				if r.P(5) {
					quad(a, name(pr), b)
				}
			}
		}
		// links from or to nodes of another class
		if len(nodes) > 0 && r.P(30) {
			quad(nodes[r.N(len(nodes))], name(s.pred), nodes[r.N(len(nodes))])
		}
	}
	// values
	dseen := map[dstep]bool{}
	for _, d := range g.dsteps {
		if dseen[d] {
			continue
		}
		dseen[d] = true
		for _, a := range members[d.class] {
			n := 0
			if r.P(75) {
				n = 1
			}
			if r.P(pct / 2) {
				n += 1 + r.N(3)
			}
			for i := 0; i < n; i++ {
				typ := ""
				lang := langs[r.N(len(langs))]
				if lang == "" && !p.NoTypes && r.P(10) {
					typ = "http://www.w3.org/2001/XMLSchema#string"
				}
				lit(a, name(d.prop), g.text(), lang, typ)
			}
		}
	}
	// statements nobody asked for
	for i := 0; i < r.N(4); i++ {
		if len(nodes) == 0 {
			break
		}
		a := nodes[r.N(len(nodes))]
		quad(a, ns+"noise", nodes[r.N(len(nodes))])
		lit(a, ns+"noise2", g.text(), "", "")
	}
	for _, s := range statements {
		w.Quads = append(w.Quads, Quad{S: s.s, P: s.p, O: s.o})
	}
	// in any order, without exact repetitions of literals
	perm := r.Perm(len(w.Quads))
	quads := make([]Quad, 0, len(w.Quads))
	lits := map[string]bool{}
	for _, i := range perm {
		q := w.Quads[i]
		if q.Lit {
			k := fmt.Sprintf("%q %q %q %q", q.S, q.P, q.Value, q.Lang)
			if lits[k] {
				continue
			}
			lits[k] = true
		}
		quads = append(quads, q)
	}
	w.Quads = quads
}

func xmlEscape(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '<':
			b.WriteString("&lt;")
		case '>':
			b.WriteString("&gt;")
		case '&':
			b.WriteString("&amp;")
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func flag(b bool) int {
	if b {
		return 1
	}
	return 0
}

func pathXML(path []string) string {
	var b strings.Builder
	for i, p := range path {
		t := "x"
		if i%2 == 1 {
			t = "y"
		}
		fmt.Fprintf(&b, "<%s>%s</%s>", t, xmlEscape(p), t)
	}
	return b.String()
}

// XML renders the pathbuilder.
func (w *World) XML() []byte {
	var b strings.Builder
	b.WriteString("<?xml version=\"1.0\"?>\n<pathbuilderinterface>\n")
	r := NewRand(w.Params.Seed*8 + 7)
	var rec func(gr *Group)
	rec = func(gr *Group) {
		parent := "0"
		if gr.Parent != nil {
			parent = gr.Parent.ID
		}
		fmt.Fprintf(&b, "<path><id>%s</id><weight>%d</weight><enabled>%d</enabled><group_id>%s</group_id><bundle>u%s</bundle><field>u%s</field><fieldtype></fieldtype><displaywidget></displaywidget><formatterwidget></formatterwidget><cardinality>%d</cardinality><field_type_informative></field_type_informative><path_array>%s</path_array><datatype_property></datatype_property><short_name></short_name><disam>0</disam><description></description><uuid>uuid-%x</uuid><is_group>1</is_group><name>Bundle %s</name></path>\n",
			xmlEscape(gr.ID), gr.Weight, flag(gr.Enabled), xmlEscape(parent), xmlEscape(gr.ID), xmlEscape(gr.ID), gr.Card, pathXML(gr.Path), gr.ID, xmlEscape(gr.ID))
		field := func(f *Field) {
			fmt.Fprintf(&b, "<path><id>%s</id><weight>%d</weight><enabled>%d</enabled><group_id>%s</group_id><bundle>u%s</bundle><field>u%s</field><fieldtype>string</fieldtype><displaywidget></displaywidget><formatterwidget></formatterwidget><cardinality>%d</cardinality><field_type_informative></field_type_informative><path_array>%s</path_array><datatype_property>%s</datatype_property><short_name></short_name><disam>0</disam><description></description><uuid>uuid-%x</uuid><is_group>0</is_group><name>Field %s</name></path>\n",
				xmlEscape(f.ID), f.Weight, flag(f.Enabled), xmlEscape(gr.ID), xmlEscape(gr.ID), xmlEscape(f.ID), f.Card, pathXML(f.Path), xmlEscape(f.Datatype), f.ID, xmlEscape(f.ID))
		}
		first := r.P(50)
		if first {
			for _, f := range gr.Fields {
				field(f)
			}
		}
		for _, c := range gr.Children {
			rec(c)
		}
		if !first {
			for _, f := range gr.Fields {
				field(f)
			}
		}
	}
	for _, gr := range w.Groups {
		rec(gr)
	}
	b.WriteString("</pathbuilderinterface>\n")
	return []byte(b.String())
}

func nqEscape(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch r {
		case '\\':
			b.WriteString(`\\`)
		case '"':
			b.WriteString(`\"`)
		case '\n':
			b.WriteString(`\n`)
		case '\r':
			b.WriteString(`\r`)
		case '\t':
			b.WriteString(`\t`)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func term(s string, blank bool) string {
	if blank {
		return s
	}
	return "<" + s + ">"
}

// Line renders a statement.
func (q Quad) Line() string {
	o := term(q.O, q.OB)
	if q.Lit {
		o = `"` + nqEscape(q.Value) + `"`
		if q.Lang != "" {
			o += "@" + q.Lang
		} else if q.Type != "" {
			o += "^^<" + q.Type + ">"
		}
	}
	g := ""
	if q.HasGraph {
		g = "<" + q.Graph + "> "
	}
	return term(q.S, q.SB) + " " + term(q.P, false) + " " + o + " " + g + "."
}

// NQuads renders the statements.
func (w *World) NQuads() []byte {
	var b strings.Builder
	for _, q := range w.Quads {
		b.WriteString(q.Line())
		b.WriteByte('\n')
	}
	return []byte(b.String())
}

func sortedKeys[V any](m map[string]V) []string {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	return keys
}

// Package obs compares what the code under test produced with the model.
package obs

import (
	"fmt"
	"sort"
	"strings"

	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

// Labels converts labels.
func Labels(ls []impl.Label) []string {
	out := make([]string, len(ls))
	for i, l := range ls {
		out[i] = string(l)
	}
	return out
}

// Triples converts triples.
func Triples(ts []igraph.Triple) []world.Triple {
	out := make([]world.Triple, len(ts))
	for i, t := range ts {
		out[i] = world.Triple{
			S: string(t.Subject), P: string(t.Predicate), O: string(t.Object),
			SS: string(t.SSubject), SP: string(t.SPredicate), SO: string(t.SObject),
			Datum: string(t.Datum), Lang: string(t.Language),
		}
		switch t.Role {
		case igraph.Inverse:
			out[i].Role = "inverse"
		case igraph.Data:
			out[i].Role = "data"
		}
	}
	return out
}

const sep = "\x1e"

func pathKey(nodes, support []string) string {
	return strings.Join(nodes, " ") + sep + strings.Join(support, sep)
}

// Bundles compares all top-level bundles with the model.
func Bundles(m *world.Model, got map[string][]wisski.Entity) error {
	for name := range got {
		if _, ok := m.Bundles[name]; !ok {
			return fmt.Errorf("bundle %q should not exist", name)
		}
	}
	for _, name := range world.Keys(m.Bundles) {
		es, ok := got[name]
		if !ok && len(m.Bundles[name]) > 0 {
			return fmt.Errorf("bundle %q with %d entities is missing", name, len(m.Bundles[name]))
		}
		if err := Entities(m, es, m.Bundles[name]); err != nil {
			return fmt.Errorf("bundle %q: %w", name, err)
		}
	}
	return nil
}

// Entities compares a list of entities, in any order.
func Entities(m *world.Model, got []wisski.Entity, want []*world.Entity) error {
	count := map[string]int{}
	byURI := map[string]*world.Entity{}
	for _, w := range want {
		count[w.URI]++
		byURI[w.URI] = w
	}
	for i := range got {
		uri := string(got[i].URI)
		count[uri]--
		if count[uri] < 0 {
			return fmt.Errorf("entity %q is there more often than the input says (%d times expected)", uri, len(filter(want, uri)))
		}
	}
	for _, uri := range world.Keys(count) {
		if count[uri] > 0 {
			return fmt.Errorf("entity %q is missing (%d of %d)", uri, count[uri], len(filter(want, uri)))
		}
	}
	for i := range got {
		if err := Entity(m, &got[i], byURI[string(got[i].URI)]); err != nil {
			return fmt.Errorf("entity %q: %w", got[i].URI, err)
		}
	}
	return nil
}

func filter(es []*world.Entity, uri string) (out []*world.Entity) {
	for _, e := range es {
		if e.URI == uri {
			out = append(out, e)
		}
	}
	return
}

// Entity compares one entity.
func Entity(m *world.Model, got *wisski.Entity, want *world.Entity) error {
	if string(got.URI) != want.URI {
		return fmt.Errorf("uri is %q", got.URI)
	}
	sup, err := m.Support(Triples(got.Triples))
	if err != nil {
		return err
	}
	key := pathKey(Labels(got.Path), sup)
	found := false
	for _, c := range want.Cands {
		if pathKey(c.Nodes, c.Support) == key {
			found = true
			break
		}
	}
	if !found {
		return fmt.Errorf("path %v with statements %q is no match", got.Path, sup)
	}
	for name, vals := range got.Fields {
		if len(vals) > 0 && len(want.Fields[name]) == 0 {
			return fmt.Errorf("field %q should have no values, has %q", name, vals[0].Value)
		}
	}
	for _, name := range world.Keys(want.Fields) {
		count := map[string]int{}
		for _, v := range want.Fields[name] {
			count[valueKey(v.Value, v.Lang, v.Path, v.Support)]++
		}
		for _, v := range got.Fields[name] {
			sup, err := m.Support(Triples(v.Triples))
			if err != nil {
				return fmt.Errorf("field %q: value %q: %w", name, v.Value, err)
			}
			k := valueKey(string(v.Value), string(v.Language), Labels(v.Path), sup)
			count[k]--
			if count[k] < 0 {
				return fmt.Errorf("field %q: unexpected value %q (language %q, path %v)", name, v.Value, v.Language, v.Path)
			}
		}
		for _, k := range world.Keys(count) {
			if count[k] > 0 {
				return fmt.Errorf("field %q: missing value %q", name, strings.SplitN(k, sep, 2)[0])
			}
		}
	}
	for name, es := range got.Children {
		if len(es) > 0 && len(want.Children[name]) == 0 {
			return fmt.Errorf("there should be no children %q, but there is %q", name, es[0].URI)
		}
	}
	for _, name := range world.Keys(want.Children) {
		if err := Entities(m, got.Children[name], want.Children[name]); err != nil {
			return fmt.Errorf("children %q: %w", name, err)
		}
	}
	return nil
}

func valueKey(v, lang string, path, support []string) string {
	return v + sep + lang + sep + pathKey(path, support)
}

// Canonical renders bundles in a form that only depends on their contents.
func Canonical(got map[string][]wisski.Entity) string {
	var b strings.Builder
	for _, name := range world.Keys(got) {
		fmt.Fprintf(&b, "%q %d\n", name, len(got[name]))
		var es []string
		for i := range got[name] {
			es = append(es, canonEntity(&got[name][i]))
		}
		sort.Strings(es)
		for _, e := range es {
			b.WriteString(e)
			b.WriteByte('\n')
		}
	}
	return b.String()
}

func canonEntity(e *wisski.Entity) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%q %v %v{", e.URI, e.Path, Triples(e.Triples))
	for _, f := range world.Keys(e.Fields) {
		if len(e.Fields[f]) == 0 {
			continue
		}
		var vs []string
		for _, v := range e.Fields[f] {
			vs = append(vs, fmt.Sprintf("%q %q %v %v", v.Value, v.Language, v.Path, Triples(v.Triples)))
		}
		sort.Strings(vs)
		fmt.Fprintf(&b, "%q: %v;", f, vs)
	}
	for _, c := range world.Keys(e.Children) {
		if len(e.Children[c]) == 0 {
			continue
		}
		var vs []string
		for i := range e.Children[c] {
			vs = append(vs, canonEntity(&e.Children[c][i]))
		}
		sort.Strings(vs)
		fmt.Fprintf(&b, "%q: %v;", c, vs)
	}
	b.WriteByte('}')
	return b.String()
}

// Shape describes which fields and children entities have, with or without values.
func Shape(got map[string][]wisski.Entity) string {
	var out []string
	var add func(prefix string, e *wisski.Entity)
	add = func(prefix string, e *wisski.Entity) {
		prefix += " " + string(e.URI)
		if e.Fields == nil || e.Children == nil {
			out = append(out, prefix+" nil")
		}
		for f, vs := range e.Fields {
			out = append(out, fmt.Sprintf("%s field %q %d %v", prefix, f, len(vs), vs == nil))
		}
		for k, cs := range e.Children {
			out = append(out, fmt.Sprintf("%s children %q %d %v", prefix, k, len(cs), cs == nil))
			for i := range cs {
				add(prefix, &cs[i])
			}
		}
	}
	for name, es := range got {
		for i := range es {
			add(name, &es[i])
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

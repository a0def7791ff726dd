package scen

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"net/url"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/triplestore/igraph"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/obs"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
	"github.com/anglo-korean/rdf"
)

// page is a request.
type page struct {
	url    string
	kind   string // what is asked for
	bundle string
	uri    string
}

// gated reports whether the page is only answered once the data is there.
func (p page) gated() bool {
	switch p.kind {
	case "about", "perf", "api-perf", "progress", "asset", "none":
		return false
	}
	return true
}

// json reports whether the page belongs to the JSON API.
func (p page) json() bool { return strings.HasPrefix(p.url, "/api/") }

// constant reports whether the answer only depends on the data.
func (p page) constant() bool {
	switch p.kind {
	case "perf", "api-perf", "progress":
		return false
	}
	return true
}

// flagsFor derives display flags from a number.
func flagsFor(c *hx.Ctx, n int) viewer.RenderFlags {
	r := world.NewRand(uint64(n) + 17)
	f := viewer.RenderFlags{Predicates: predicates(c)}
	if n == 0 {
		return f
	}
	f.PublicURL = []string{"", "http://ex.org/", "https://example.com,http://ex.org", "http://ex.org/sub\nhttp://other.org"}[r.N(4)]
	f.TipsyURL = []string{"", "https://tipsy.example/", "ftp://no"}[r.N(3)]
	f.StrictCSP = r.P(50)
	f.HTMLRender = r.P(50)
	f.ImageRender = r.P(50)
	return f
}

// pages lists requests that make sense for a world.
func pages(c *hx.Ctx, flags viewer.RenderFlags) (ps []page) {
	add := func(kind, bundle, uri, format string, args ...any) {
		ps = append(ps, page{url: fmt.Sprintf(format, args...), kind: kind, bundle: bundle, uri: uri})
	}
	add("index", "", "", "/")
	add("pathbuilder", "", "", "/pathbuilder")
	add("api-index", "", "", "/api/v1")
	if flags.Tipsy() != "" {
		add("tipsy", "", "", "/tipsy")
	}
	add("asset", "", "", "/favicon.ico")
	add("none", "", "", "/no/such/page")
	bundles := []string{"nosuchbundle"}
	for _, gr := range c.W.Groups {
		bundles = append(bundles, gr.ID)
	}
	for _, gr := range c.W.All() {
		if gr.Parent != nil {
			bundles = append(bundles, gr.ID)
			break
		}
	}
	labels := allLabels(c)
	for i, b := range bundles {
		e := url.PathEscape(b)
		add("bundle", b, "", "/bundle/%s", e)
		add("bundle", b, "", "/bundle/%s?limit=%d&skip=%d", e, 1+i%3, i%4)
		add("bundle", b, "", "/bundle/%s?limit=2&skip=2", e)
		add("api-bundle", b, "", "/api/v1/bundle/%s", e)
		es := c.M.Bundles[b]
		var uris []string
		for j := 0; j < len(es) && j < 4; j++ {
			uris = append(uris, es[(j*7+i)%len(es)].URI)
			class := c.M.Class(uris[len(uris)-1])
			if len(class) > 1 {
				uris = append(uris, class[(i+j)%len(class)])
			}
		}
		if len(labels) > 0 {
			uris = append(uris, labels[(i*13+5)%len(labels)])
		}
		uris = append(uris, "http://ex.org/no-such-entity")
		for _, u := range uris {
			q := url.QueryEscape(u)
			add("entity", b, u, "/entity/%s?uri=%s", e, q)
			add("api-entity", b, u, "/api/v1/entity/%s?uri=%s", e, q)
			add("api-ntriples", b, u, "/api/v1/ntriples/%s?uri=%s", e, q)
			add("api-turtle", b, u, "/api/v1/turtle/%s?uri=%s", e, q)
			add("resolve", "", u, "/wisski/get?uri=%s", q)
		}
	}
	for i := 0; i < 3; i++ {
		add("navigate", "", fmt.Sprint(i), "/wisski/navigate/%d/view", i)
	}
	return
}

// extraPages are answered differently over time.
func extraPages() []page {
	return []page{{url: "/api/v1/progress", kind: "progress"}, {url: "/api/v1/perf", kind: "api-perf"}, {url: "/perf", kind: "perf"}}
}

func allLabels(c *hx.Ctx) []string {
	m := map[string]bool{}
	for _, q := range c.W.Quads {
		m[q.S] = true
		m[q.P] = true
		if !q.Lit {
			m[q.O] = true
		}
	}
	return world.Keys(m)
}

// answer to a request.
type answer struct {
	Code     int
	Header   http.Header
	Body     []byte
	Panicked string
	Broken   bool // the client failed
	Writes   int
}

func (a *answer) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d\n", a.Code)
	for _, k := range world.Keys(a.Header) {
		if k == "Date" || k == "Content-Length" || k == "Connection" || k == "Transfer-Encoding" {
			continue
		}
		fmt.Fprintf(&b, "%s: %q\n", k, a.Header[k])
	}
	b.WriteByte('\n')
	b.Write(a.Body)
	if a.Panicked != "" {
		b.WriteString("\npanic: " + a.Panicked)
	}
	return b.String()
}

var errClient = errors.New("simulated client failure")

// client is a response writer that may be slow or fail.
type client struct {
	answer
	sent  http.Header
	fail  int           // bytes after which writing fails, or -1
	pause time.Duration // before each write
	yield bool
	block chan struct{} // if set, the first write waits for it
}

func (w *client) Header() http.Header {
	if w.answer.Header == nil {
		w.answer.Header = http.Header{}
	}
	return w.answer.Header
}

func (w *client) WriteHeader(code int) {
	if w.Code == 0 {
		w.Code = code
		w.sent = w.Header().Clone()
	}
}

func (w *client) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	w.Writes++
	if w.block != nil {
		<-w.block
		w.block = nil
	}
	if w.pause > 0 {
		time.Sleep(w.pause)
	}
	if w.yield {
		runtime.Gosched()
	}
	if w.fail >= 0 && len(w.Body)+len(b) > w.fail {
		n := w.fail - len(w.Body)
		if n < 0 {
			n = 0
		}
		w.Body = append(w.Body, b[:n]...)
		w.Broken = true
		return n, errClient
	}
	w.Body = append(w.Body, b...)
	return len(b), nil
}

// request sends a request to a handler the way a server does.
func request(h http.Handler, p page, w *client) *answer {
	req, err := http.NewRequest("GET", p.url, nil)
	if err != nil {
		return &answer{Panicked: err.Error()}
	}
	req.RequestURI = p.url
	req.RemoteAddr = "192.0.2.1:1234"
	req.Host = "localhost"
	func() {
		defer func() {
			if e := recover(); e != nil {
				w.Panicked = fmt.Sprint(e)
			}
		}()
		h.ServeHTTP(w, req)
		w.WriteHeader(200)
	}()
	if w.sent != nil {
		w.answer.Header = w.sent
	}
	return &w.answer
}

func ask(h http.Handler, p page) *answer { return request(h, p, &client{fail: -1}) }

// loading reports whether an answer says that the data is not there yet.
func (a *answer) loading() bool { return a.Header.Get("Retry-After") != "" }

// checkLoading checks the answer given while loading.
func checkLoading(p page, a *answer) error {
	if a.Panicked != "" {
		return fmt.Errorf("the handler panicked: %s", a.Panicked)
	}
	if a.Header.Get("Retry-After") != "60" {
		return fmt.Errorf("Retry-After is %q", a.Header.Get("Retry-After"))
	}
	if p.json() {
		if a.Code != 503 {
			return fmt.Errorf("status is %d", a.Code)
		}
		if t := a.Header.Get("Content-Type"); t != "application/json" {
			return fmt.Errorf("content type is %q", t)
		}
		dec := json.NewDecoder(bytes.NewReader(a.Body))
		dec.DisallowUnknownFields()
		var msg viewer.ProgressMessage
		if err := dec.Decode(&msg); err != nil {
			return fmt.Errorf("body is no progress message: %v: %q", err, a.Body)
		}
		if dec.More() {
			return fmt.Errorf("something follows the progress message: %q", a.Body)
		}
		if msg.Message == "" || msg.Progress.Done {
			return fmt.Errorf("the progress message is %+v", msg)
		}
		return nil
	}
	if a.Code != 200 && a.Code != 503 {
		return fmt.Errorf("status is %d", a.Code)
	}
	if !bytes.Contains(a.Body, []byte("loading")) || !bytes.Contains(a.Body, []byte("</body>")) {
		return fmt.Errorf("body is no complete loading page: %q", a.Body)
	}
	return nil
}

// prepared returns a fresh viewer for the data.
func prepared(g *glass.Glass, flags viewer.RenderFlags) *viewer.Viewer {
	v := viewer.NewViewer(nil)
	v.RenderFlags = flags
	v.Footer = "the <b>footer</b>"
	v.Prepare(g.Cache, &g.Pathbuilder)
	return v
}

// checkPage compares the answer of a server that is ready with the model.
func checkPage(c *hx.Ctx, p page, a *answer) error {
	if a.Panicked != "" {
		return fmt.Errorf("the handler panicked: %s", a.Panicked)
	}
	if p.gated() && a.loading() {
		return fmt.Errorf("still loading")
	}
	want := 200
	es, known := c.M.Bundles[p.bundle]
	var ent *world.Entity
	uri := c.M.Canon(p.uri)
	for _, e := range es {
		if e.URI == uri {
			ent = e
		}
	}
	inPB := false
	for _, gr := range c.W.Groups {
		if gr.ID == p.bundle {
			inPB = true
		}
	}
	switch p.kind {
	case "none":
		want = 404
	case "entity", "api-entity", "api-ntriples", "api-turtle":
		if ent == nil {
			want = 404
		}
	case "api-bundle":
		if !inPB {
			want = 404
		} else if !known {
			return nil // a disabled bundle: either is fine
		}
	case "bundle":
		if !inPB {
			want = 404
		} else if len(es) == 0 || strings.Contains(p.url, "skip") {
			return nil // an empty page: either is fine
		}
	case "resolve":
		target := ""
		for _, b := range world.Keys(c.M.Bundles) {
			for _, e := range c.M.Bundles[b] {
				if e.URI == uri {
					target = b
				}
			}
		}
		if target == "" {
			want = 404
			break
		}
		want = 307
		loc := a.Header.Get("Location")
		u, err := url.Parse(loc)
		if err != nil {
			return fmt.Errorf("redirects to %q", loc)
		}
		b, ok := strings.CutPrefix(u.Path, "/entity/")
		found := false
		for _, e := range c.M.Bundles[b] {
			found = found || e.URI == uri
		}
		if !ok || !found || u.Query().Get("uri") != uri && !strings.HasSuffix(loc, "?uri="+url.PathEscape(uri)) {
			return fmt.Errorf("redirects to %q, but %q is in %q", loc, uri, target)
		}
	case "navigate":
		return nil // decided by the comparison with a lone request
	}
	if a.Code != want {
		return fmt.Errorf("status is %d instead of %d", a.Code, want)
	}
	if want != 200 {
		return nil
	}
	switch p.kind {
	case "api-index":
		var names []string
		if err := json.Unmarshal(a.Body, &names); err != nil {
			return err
		}
		have := map[string]bool{}
		for _, n := range names {
			if _, ok := c.M.Bundles[n]; !ok || have[n] {
				return fmt.Errorf("unexpected bundle %q", n)
			}
			have[n] = true
		}
		for _, n := range world.Keys(c.M.Bundles) {
			if !have[n] && len(c.M.Bundles[n]) > 0 {
				return fmt.Errorf("bundle %q is missing", n)
			}
		}
		if !sort.StringsAreSorted(names) {
			return fmt.Errorf("the bundles are not sorted: %q", names)
		}
	case "api-bundle":
		var uris []string
		if err := json.Unmarshal(a.Body, &uris); err != nil {
			return err
		}
		var exp []string
		for _, e := range es {
			exp = append(exp, e.URI)
		}
		sort.Strings(exp)
		sort.Strings(uris)
		if strings.Join(exp, " ") != strings.Join(uris, " ") {
			return fmt.Errorf("entities are %q instead of %q", uris, exp)
		}
	case "api-entity":
		var e wisski.Entity
		dec := json.NewDecoder(bytes.NewReader(a.Body))
		if err := dec.Decode(&e); err != nil {
			return err
		}
		if dec.More() {
			return fmt.Errorf("something follows the entity")
		}
		return obs.Entity(c.M, &e, ent)
	case "api-ntriples", "api-turtle":
		f := rdf.NTriples
		if p.kind == "api-turtle" {
			f = rdf.Turtle
		}
		ts, err := rdf.NewTripleDecoder(bytes.NewReader(a.Body), f).DecodeAll()
		if err != nil {
			return fmt.Errorf("cannot be parsed: %v: %q", err, a.Body)
		}
		if len(ts) == 0 {
			return fmt.Errorf("there are no statements")
		}
		for _, t := range ts {
			key := world.Triple{SS: termName(t.Subj), SP: termName(t.Pred), SO: termName(t.Obj), Datum: termName(t.Obj)}
			if l, ok := t.Obj.(rdf.Literal); ok {
				key.Role = "data"
				key.Lang = l.Lang()
			}
			if !c.M.Stated(key) {
				return fmt.Errorf("statement %v is not in the data", t.Serialize(rdf.NTriples))
			}
		}
	case "entity", "bundle":
		if !bytes.Contains(a.Body, []byte("</body>")) {
			return fmt.Errorf("the page is not complete")
		}
	}
	return nil
}

// tripleKeys lists the distinct statements that belong to an entity.
func tripleKeys(e *wisski.Entity, out map[string]int) {
	add := func(ts []igraph.Triple) {
		for _, t := range ts {
			if t.Role == igraph.Data {
				out[fmt.Sprintf("%s %s %q %s", t.SSubject, t.SPredicate, t.Datum, t.Language)]++
			} else {
				out[fmt.Sprintf("%s %s %s", t.SSubject, t.SPredicate, t.SObject)]++
			}
		}
	}
	add(e.Triples)
	for _, vs := range e.Fields {
		for _, v := range vs {
			add(v.Triples)
		}
	}
	for _, cs := range e.Children {
		for i := range cs {
			tripleKeys(&cs[i], out)
		}
	}
}

// checkTriples compares the triples of an entity as served with those it consists of.
func checkTriples(g *glass.Glass, p page, a *answer) error {
	if a.Code != 200 {
		return nil
	}
	var list []wisski.Entity
	list = g.Cache.Entities(p.bundle)
	uri := string(g.Cache.Canonical(labels([]string{p.uri})[0]))
	best := -1
	f := rdf.NTriples
	if p.kind == "api-turtle" {
		f = rdf.Turtle
	}
	ts, err := rdf.NewTripleDecoder(bytes.NewReader(a.Body), f).DecodeAll()
	if err != nil {
		return err
	}
	n := map[string]bool{}
	for _, t := range ts {
		n[t.Serialize(rdf.NTriples)] = true
	}
	for i := range list {
		if string(list[i].URI) != uri {
			continue
		}
		keys := map[string]int{}
		tripleKeys(&list[i], keys)
		if len(keys) == len(n) {
			return nil
		}
		best = len(keys)
	}
	return fmt.Errorf("has %d distinct statements instead of %d", len(n), best)
}

// termName names a term the way the model does.
func termName(t rdf.Term) string {
	if t.Type() == rdf.TermBlank {
		return "_:" + t.String()
	}
	return t.String()
}

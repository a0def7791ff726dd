package scen

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"log"
	"net"
	"net/http"
	"runtime"
	"strings"
	"sync"
	"time"

	"encoding/json"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/viewer"
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/simnet"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

// observed is a request of the history.
type observed struct {
	page     page
	answer   *answer
	invoked  int // order of events
	returned int
	client   int
	faulty   bool
}

// logbook collects log output, and checks that lines are written whole.
type logbook struct {
	data []byte
	torn int
}

func (l *logbook) Write(b []byte) (int, error) {
	l.data = append(l.data, b...)
	return len(b), nil
}

// server is a viewer under test and the history of requests to it.
type server struct {
	c       *hx.Ctx
	v       *viewer.Viewer
	seq     int
	history []observed
	ready   int // when Prepare returned
	begun   int // when Prepare was called
	wg      sync.WaitGroup
	addr    string // if set, requests go over the network
	hs      *http.Server
	panics  logbook
}

func (s *server) tick() int { s.seq++; return s.seq }

func (s *server) listen() {
	s.addr = ":3000"
	l, err := simnet.Listen("tcp", s.addr)
	if err != nil {
		panic(err)
	}
	s.hs = &http.Server{Handler: s.v, ErrorLog: log.New(&s.panics, "", 0)}
	go s.hs.Serve(l)
}

// send performs a request and records it.
func (s *server) send(who int, p page, w *client, conn *connection) *answer {
	o := observed{page: p, invoked: s.tick(), client: who, faulty: w.fail >= 0}
	if s.addr != "" {
		o.answer = conn.get(s, p, w)
	} else {
		o.answer = request(s.v, p, w)
	}
	o.returned = s.tick()
	s.history = append(s.history, o)
	return o.answer
}

// connection is a client's connection to the server.
type connection struct {
	c net.Conn
	r *bufio.Reader
	R *world.Rand
}

// slow reads from a connection in small pieces.
type slow struct {
	c     net.Conn
	r     *world.Rand
	pause time.Duration
	max   int
	left  int // bytes until the client gives up, or -1
}

func (s *slow) Read(b []byte) (int, error) {
	if s.left == 0 {
		s.c.Close()
		return 0, errClient
	}
	if s.pause > 0 {
		time.Sleep(s.pause)
	}
	if s.max > 0 && len(b) > s.max {
		b = b[:1+s.r.N(s.max)]
	}
	if s.left > 0 && len(b) > s.left {
		b = b[:s.left]
	}
	n, err := s.c.Read(b)
	if s.left > 0 {
		s.left -= n
	}
	return n, err
}

func (k *connection) get(s *server, p page, w *client) *answer {
	if k.c == nil {
		c, err := simnet.Dial(s.addr)
		if err != nil {
			return &answer{Panicked: err.Error()}
		}
		k.c = c
	}
	sl := &slow{c: k.c, r: k.R, pause: w.pause, left: -1}
	if w.yield {
		sl.max = 1 + k.R.N(3000)
	}
	if w.fail >= 0 {
		sl.left = w.fail + 150
	}
	if k.r == nil || w.fail >= 0 || w.pause > 0 || w.yield {
		if k.r != nil && k.r.Buffered() > 0 {
			return &answer{Panicked: "the server sent more than it was asked for"}
		}
		k.r = bufio.NewReaderSize(sl, 512)
	}
	give := func(err error) *answer {
		k.c.Close()
		k.c, k.r = nil, nil
		if w.fail >= 0 {
			w.answer.Broken = true
			return &w.answer
		}
		return &answer{Panicked: "connection: " + err.Error()}
	}
	req, err := http.NewRequest("GET", "http://localhost"+p.url, nil)
	if err != nil {
		return &answer{Panicked: err.Error()}
	}
	done := make(chan error, 1)
	conn := k.c
	go func() { done <- req.Write(conn) }()
	resp, err := http.ReadResponse(k.r, req)
	if err != nil {
		return give(err)
	}
	<-done
	body, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		return give(err)
	}
	w.answer.Code = resp.StatusCode
	w.answer.Header = resp.Header
	w.answer.Body = body
	if w.fail >= 0 || resp.Close {
		k.c.Close()
		k.c, k.r = nil, nil
	}
	return &w.answer
}

// style picks how a client behaves.
func style(r *world.Rand, faults int, span int64) *client {
	w := &client{fail: -1}
	if r.P(30) {
		w.yield = true
	}
	if r.P(15) {
		w.pause = time.Duration(r.N(int(span/20) + 1))
	}
	if r.P(faults) {
		w.fail = []int{0, 1, 10, 100, 1000, 5000}[r.N(6)]
		w.fail += r.N(w.fail + 1)
	}
	return w
}

// judge checks the history of requests.
func (s *server) judge(expect func(p page) *answer) {
	c := s.c
	full := 0 // when the first complete answer was there
	for _, o := range s.history {
		if o.page.gated() && !o.faulty && o.answer.Panicked == "" && !o.answer.loading() && (full == 0 || o.returned < full) {
			full = o.returned
		}
	}
	for _, o := range s.history {
		p, a := o.page, o.answer
		if s.ready != 0 && o.invoked < s.ready && o.returned > s.begun {
			c.Event("requests while becoming ready")
		}
		if o.faulty {
			c.Event("fault: client failing while it is answered")
			continue // its own answer does not matter
		}
		if a.Panicked != "" {
			c.Fail("panic", "%s: %s", p.url, a.Panicked)
			return
		}
		if p.kind == "progress" {
			var pr stats.Progress
			dec := json.NewDecoder(bytes.NewReader(a.Body))
			if err := dec.Decode(&pr); err != nil || dec.More() || a.Code != 200 {
				c.Fail("progress", "progress is %d %q: %v", a.Code, a.Body, err)
			}
			if pr.Done && (s.begun == 0 || o.returned < s.begun) {
				c.Fail("early", "the progress says done before the data was there")
			}
			if !pr.Done && s.ready != 0 && o.invoked > s.ready {
				c.Fail("late", "the progress says %+v after the server became ready", pr)
			}
			c.Event("progress requests")
			continue
		}
		if !p.constant() {
			if a.Code != 200 {
				c.Fail("status", "%s is answered with %d", p.url, a.Code)
			}
			continue
		}
		if p.gated() && a.loading() {
			c.Event("answers while loading")
			if err := checkLoading(p, a); err != nil {
				c.Fail("loading", "%s while loading: %v", p.url, err)
			}
			if s.ready != 0 && o.invoked > s.ready {
				c.Fail("late", "%s is answered as loading after the server became ready", p.url)
			}
			if full != 0 && o.invoked > full {
				c.Fail("back", "%s is answered as loading although an earlier request saw the data", p.url)
			}
			continue
		}
		if p.gated() && (s.begun == 0 || o.returned < s.begun) {
			c.Fail("early", "%s is answered before the data was there: %d %.300q", p.url, a.Code, a.Body)
			continue
		}
		if p.kind == "about" {
			if a.Code != 200 || !bytes.Contains(a.Body, []byte("</body>")) {
				c.Fail("about", "%s is answered with %d and %d bytes", p.url, a.Code, len(a.Body))
			}
			if !(s.ready != 0 && o.invoked > s.ready) {
				continue
			}
		}
		c.Event("answers when ready")
		want := expect(p)
		if want == nil {
			continue
		}
		g, w := a.String(), want.String()
		if !p.gated() && !(s.ready != 0 && o.invoked > s.ready) {
			continue
		}
		if s.addr != "" {
			g, w = netForm(a), netForm(want)
		}
		if g != w {
			c.Fail("differs", "%s is not answered like a lone request: %s", p.url, firstDiff(g, w))
		}
	}
}

// netForm leaves out what a server adds.
func netForm(a *answer) string {
	b := *a
	b.Header = b.Header.Clone()
	for k := range b.Header {
		switch k {
		case "Content-Type", "Content-Security-Policy", "Location", "Content-Disposition", "Retry-After":
		default:
			delete(b.Header, k)
		}
	}
	for _, vs := range b.Header {
		for i := range vs {
			vs[i] = strings.TrimSpace(vs[i]) // as the transport does
		}
	}
	if len(b.Header["Content-Type"]) == 0 || b.Code != 200 {
		delete(b.Header, "Content-Type")
	}
	return b.String()
}

func init() {
	var s *server
	var loadErr error
	var g, ref *glass.Glass
	var flags viewer.RenderFlags
	hx.Register("server", &hx.Scenario{
		World: true,
		Setup: inputs,
		Body: func(c *hx.Ctx) {
			flags = flagsFor(c, c.Arg("flags"))
			s = &server{c: c, v: viewer.NewViewer(&logbook{})}
			s.v.RenderFlags = flags
			s.v.Footer = "the <b>footer</b>"
			if c.Arg("net") != 0 {
				s.listen()
			}
			ps := pages(c, flags)
			if c.Arg("about") != 0 {
				ps = append(ps, page{url: "/about", kind: "about"})
			}
			extra := extraPages()
			span := int64(c.Arg("span")) * 1000
			if span == 0 {
				span = 1000000
			}
			faults := c.K.Faults
			c.K.Faults = nil
			if c.Arg("ready") != 0 {
				l := loadGlass(c, "", s.v.Stats, flags)
				if loadErr = l.err; l.err != nil {
					return
				}
				g = l.glass
				s.begun = s.tick()
				s.v.Prepare(g.Cache, &g.Pathbuilder)
				s.ready = s.tick()
			}
			c.K.Faults = faults
			finished := false
			stuck := make(chan struct{})
			var stuckWG sync.WaitGroup
			if c.Arg("stuck") != 0 && s.addr == "" {
				for i := 0; i < c.Arg("stuck"); i++ {
					p := ps[c.R.N(len(ps))]
					stuckWG.Add(1)
					go func() {
						defer stuckWG.Done()
						s.send(100, p, &client{fail: -1, block: stuck}, nil)
					}()
				}
			}
			if c.Arg("stuck") != 0 && s.addr != "" {
				for i := 0; i < c.Arg("stuck"); i++ {
					p := ps[c.R.N(len(ps))]
					stuckWG.Add(1)
					go func() {
						defer stuckWG.Done()
						conn, err := simnet.Dial(s.addr)
						if err != nil {
							return
						}
						fmt.Fprintf(conn, "GET %s HTTP/1.1\r\nHost: localhost\r\n\r\n", p.url)
						<-stuck
						conn.Close()
					}()
				}
			}
			// a crowd of clients that ask at the moment the server becomes ready
			near := make(chan struct{})
			if c.Arg("ready") == 0 {
				for i := 0; i < c.Arg("burst"); i++ {
					r := world.NewRand(uint64(c.Arg("seed"))*3000 + uint64(i))
					s.wg.Add(1)
					go func(i int) {
						defer s.wg.Done()
						<-near
						conn := &connection{R: r}
						for n := 0; n < 40 && (n < 3 || (s.ready == 0 && !finished)); n++ {
							s.send(200+i, ps[r.N(len(ps))], &client{fail: -1}, conn)
						}
						if conn.c != nil {
							conn.c.Close()
						}
					}(i)
				}
			}
			for i := 0; i < c.Arg("clients"); i++ {
				r := world.NewRand(uint64(c.Arg("seed"))*1000 + uint64(i))
				s.wg.Add(1)
				go func(i int) {
					defer s.wg.Done()
					conn := &connection{R: r}
					for n := 0; n < c.Arg("reqs"); n++ {
						p := ps[r.N(len(ps))]
						if r.P(10) {
							p = extra[r.N(len(extra))]
						}
						s.send(i, p, style(r, c.Arg("bad"), span), conn)
						if r.P(70) {
							time.Sleep(time.Duration(r.N(int(span/4) + 1)))
						}
					}
					if c.Arg("ready") == 0 {
						for !finished {
							time.Sleep(time.Duration(span / 10))
						}
					}
					for n := 0; n < 3; n++ {
						s.send(i, ps[r.N(len(ps))], style(r, 0, span), conn)
					}
					if conn.c != nil {
						conn.c.Close()
					}
				}(i)
			}
			if c.Arg("ready") == 0 {
				if d := c.Arg("delay"); d != 0 {
					time.Sleep(time.Duration(d))
				}
				cache := ""
				if c.Arg("disk") != 0 {
					cache = cachePath
				}
				l := loadGlass(c, cache, s.v.Stats, flags)
				loadErr = l.err
				close(near)
				for i := c.Arg("lead"); i > 0; i-- {
					runtime.SimYield()
				}
				if l.err == nil {
					g = l.glass
					s.v.Stats.DoStage(stats.StageHandler, func() error {
						s.begun = s.tick()
						s.v.Prepare(g.Cache, &g.Pathbuilder)
						s.ready = s.tick()
						return nil
					})
				}
				finished = true
			}
			s.wg.Wait()
			close(stuck)
			stuckWG.Wait()
			if s.hs != nil {
				ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
				s.hs.Shutdown(ctx)
				cancel()
			}
			c.K.Faults = nil
			if g == nil {
				return
			}
			// the same requests alone, to a server of its own
			ref = g
			lone := map[string]*answer{}
			rv := prepared(ref, flags)
			for _, o := range s.history {
				if lone[o.page.url] == nil && o.page.constant() {
					lone[o.page.url] = ask(rv, o.page)
				}
			}
			s.judge(func(p page) *answer { return lone[p.url] })
			if s.panics.data != nil && c.Arg("bad") == 0 && c.Arg("stuck") == 0 {
				c.Fail("panic", "the server logs: %.500s", s.panics.data)
			}
			// and these are right
			for _, p := range ps {
				a := lone[p.url]
				if a == nil {
					continue
				}
				if err := checkPage(c, p, a); err != nil {
					c.Fail("answer", "%s: %v", p.url, err)
				}
				if strings.HasPrefix(p.kind, "api-n") || p.kind == "api-turtle" {
					if err := checkTriples(ref, p, a); err != nil {
						c.Fail("triples", "%s: %v", p.url, err)
					}
				}
			}
		},
		Check: func(c *hx.Ctx) {
			describe(c)
			if !c.Cleanly() {
				return
			}
			c.EventN("requests", len(s.history))
			c.Res.Nums["nanos"] = float64(c.Sim.SimNanos)
			if loadErr != nil {
				c.Event("load failed")
				if len(c.K.Fired) == 0 {
					c.Fail("error", "loading failed without a fault: %v", loadErr)
				}
				s.judge(func(page) *answer { return nil })
			}
		},
	})
}

//go:build simfull

package scen

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"regexp"
	"strings"
	"time"

	"github.com/FAU-CDI/hangover/internal/glass"
	"github.com/FAU-CDI/hangover/internal/stats"
	"github.com/FAU-CDI/hangover/internal/wisski"
	"github.com/FAU-CDI/hangover/internal/zverif/cmd_hangover"
	"github.com/FAU-CDI/hangover/internal/zverif/cmd_n2j"
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/obs"
	"github.com/FAU-CDI/hangover/internal/zverif/simnet"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
)

// What a program is asked to do.
const (
	modeJSON     = 0
	modeSQLite   = 1
	modeCSV      = 2
	modeExport   = 10
	modeReexport = 11
	modeBench    = 12
	modeServe    = 13
	modeServeExp = 14
)

const (
	exitPath   = "/sim/exit"
	exportNext = outPath + "/second.gob"
	endOfTest  = 77
)

func cmdline(c *hx.Ctx) (argv []string) {
	r := world.NewRand(uint64(c.Arg("seed")) + 99)
	add := func(name, value string) {
		switch r.N(3) {
		case 0:
			argv = append(argv, "-"+name, value)
		case 1:
			argv = append(argv, "-"+name+"="+value)
		default:
			argv = append(argv, "--"+name+"="+value)
		}
	}
	mode := c.Arg("mode")
	join := []string{",", "\n", " , "}[r.N(3)]
	if mode != modeReexport && mode != modeServeExp {
		add("sameas", strings.Join(c.W.SameAs, join))
		add("inverseof", strings.Join(c.W.InverseOf, join))
		if c.Arg("disk") != 0 {
			add("cache", cachePath)
		}
	}
	source := []string{pbPath, nqPath}
	if c.Arg("dir") != 0 {
		source = []string{"/sim/in"}
	}
	if mode < modeExport {
		argv = append([]string{"n2j"}, argv...)
		if c.Arg("fields") != 0 {
			argv = append(argv, "-sql-field-tables")
		}
		if mode != modeJSON {
			add("sql-seperator", separators[c.Arg("sep")])
		}
		switch mode {
		case modeSQLite:
			add("sqlite", dbPath)
		case modeCSV:
			add("csv", outPath)
		}
	} else {
		argv = append([]string{"hangover"}, argv...)
		f := flagsFor(c, c.Arg("flags"))
		add("public", f.PublicURL)
		if f.TipsyURL != "" {
			add("tipsy", f.TipsyURL)
		}
		if f.StrictCSP {
			argv = append(argv, "-strict-csp")
		}
		if f.HTMLRender {
			argv = append(argv, "-html")
		}
		if f.ImageRender {
			argv = append(argv, "-images")
		}
		switch mode {
		case modeExport:
			add("export", exportPath)
		case modeReexport:
			add("export", exportNext)
			source = []string{exportPath}
		case modeBench:
			argv = append(argv, "-bench")
		case modeServe, modeServeExp:
			add("footer", "the <b>footer</b>")
			add("addr", ":4000")
			if mode == modeServeExp {
				source = []string{exportPath}
			}
		}
	}
	return append(argv, source...)
}

// program runs a command line as a process does.
func program(argv []string) {
	os.Args = argv
	flag.CommandLine = flag.NewFlagSet(argv[0], flag.ExitOnError)
	if argv[0] == "n2j" {
		cmd_n2j.Init()
		cmd_n2j.Main()
	} else {
		cmd_hangover.Init()
		cmd_hangover.Main()
	}
	os.Exit(0)
}

var explains = regexp.MustCompile(`(?i)err|fatal|fail|unable|panic|usage`)

// parseCSV reads a file as RFC 4180 says.
func parseCSV(data []byte) (t *table, err error) {
	t = new(table)
	var recs [][]sql.NullString
	var rec []sql.NullString
	i := 0
	for i < len(data) {
		var field []byte
		if data[i] == '"' {
			i++
			for {
				j := bytes.IndexByte(data[i:], '"')
				if j < 0 {
					return nil, errors.New("a quoted field does not end")
				}
				field = append(field, data[i:i+j]...)
				i += j + 1
				if i < len(data) && data[i] == '"' {
					field = append(field, '"')
					i++
					continue
				}
				break
			}
			if i < len(data) && data[i] != ',' && data[i] != '\n' {
				return nil, errors.New("text after a quoted field")
			}
		} else {
			j := bytes.IndexAny(data[i:], ",\n")
			if j < 0 {
				return nil, errors.New("the last line does not end")
			}
			field = data[i : i+j]
			i += j
		}
		rec = append(rec, sql.NullString{String: string(field), Valid: true})
		if i >= len(data) {
			return nil, errors.New("the last line does not end")
		}
		sep := data[i]
		i++
		if sep == '\n' {
			recs = append(recs, rec)
			rec = nil
		} else if i == len(data) {
			return nil, errors.New("the last line does not end")
		}
	}
	if len(recs) == 0 {
		return nil, errors.New("there is no header")
	}
	for _, f := range recs[0] {
		t.cols = append(t.cols, f.String)
	}
	for n, r := range recs[1:] {
		if len(r) != len(t.cols) {
			return nil, fmt.Errorf("line %d has %d fields instead of %d", n+2, len(r), len(t.cols))
		}
		t.rows = append(t.rows, r)
	}
	return t, nil
}

func checkJSON(c *hx.Ctx, out []byte) error {
	dec := json.NewDecoder(bytes.NewReader(out))
	got := map[string][]wisski.Entity{}
	if err := dec.Decode(&got); err != nil {
		return fmt.Errorf("the output is no json: %w", err)
	}
	if _, err := dec.Token(); err != io.EOF {
		return errors.New("there is more after the json")
	}
	return obs.Bundles(c.M, got)
}

func checkCSV(c *hx.Ctx) error {
	tables := map[string]*table{}
	files := c.K.Tree(outPath)
	for _, name := range world.Keys(files) {
		short := strings.TrimPrefix(strings.TrimPrefix(name, outPath), "/")
		t, ok := strings.CutSuffix(short, ".csv")
		if !ok {
			continue
		}
		tab, err := parseCSV(files[name])
		if err != nil {
			return fmt.Errorf("%s: %w", short, err)
		}
		tables[t] = tab
	}
	return tablesOf(c.M, tables, c.Arg("fields") != 0, separators[c.Arg("sep")])
}

func init() {
	var (
		done    bool
		clients []string
	)
	hx.Register("cli", &hx.Scenario{
		World: true,
		Exits: true,
		Setup: func(c *hx.Ctx) {
			if c.Spec.Image == "" {
				inputs(c)
			} else {
				tune(c)
				c.K.Classes = []string{cachePath, "/sim/in", outPath}
			}
			c.K.Classes = append(c.K.Classes, "stdout", "stderr")
			damage(c)
			c.Res.Nums["disk"] = -float64(c.K.Used)
			if c.Arg("nolisten") != 0 {
				simnet.FailListen = errors.New("listen tcp :4000: bind: address already in use")
			}
		},
		Body: func(c *hx.Ctx) {
			argv := cmdline(c)
			if m := c.Arg("mode"); m != modeServe && m != modeServeExp {
				program(argv)
				return
			}
			go program(argv)
			// a browser
			r := world.NewRand(uint64(c.Arg("seed")))
			flags := flagsFor(c, c.Arg("flags"))
			ps := pages(c, flags)
			s := &server{c: c, addr: ":4000"}
			for i := 0; i < 1000000; i++ {
				conn, err := simnet.Dial(s.addr)
				if err == nil {
					conn.Close()
					break
				}
				time.Sleep(time.Millisecond)
			}
			conn := &connection{R: r}
			full := false
			left := c.Arg("reqs")
			for n := 0; left > 0 && n < 100000; n++ {
				p := ps[r.N(len(ps))]
				a := s.send(0, p, &client{fail: -1}, conn)
				switch {
				case a.Panicked != "":
					clients = append(clients, fmt.Sprintf("%s: %s", p.url, a.Panicked))
					left = 0
				case p.gated() && a.loading():
					if full {
						clients = append(clients, fmt.Sprintf("%s is answered as loading after another page was complete", p.url))
					}
					if err := checkLoading(p, a); err != nil {
						clients = append(clients, fmt.Sprintf("%s while loading: %v", p.url, err))
					}
				case p.gated():
					full = true
				}
				if full && p.constant() {
					left--
					if p.gated() {
						if err := checkPage(c, p, a); err != nil {
							clients = append(clients, fmt.Sprintf("%s: %v", p.url, err))
						}
					}
				}
				if !full {
					time.Sleep(time.Duration(1+r.N(c.Arg("pace")+1)) * time.Microsecond)
				}
			}
			if !full {
				clients = append(clients, "the server never becomes ready")
			}
			done = true
			os.Exit(endOfTest)
		},
		Check: func(c *hx.Ctx) {
			describe(c)
			c.Res.Nums["disk"] += float64(c.K.Used)
			code, ok := c.Exited()
			if !ok {
				return
			}
			if done && code == endOfTest {
				code = 0
			}
			c.K.WriteFile(exitPath, []byte{byte(code)})
			c.Res.Info["exit"] = fmt.Sprint(code)
			c.Mix(code, len(c.K.Stdout), string(c.K.Stdout))
			stderr := string(c.K.Stderr)
			for _, what := range []string{"panic: ", "fatal error: ", "goroutine 1 ["} {
				if strings.Contains(stderr, what) {
					c.Fail("crash", "the program crashed: %s", tailOf(stderr, 600))
					return
				}
			}
			noise := false // the terminal itself was failing
			for _, f := range c.K.Fired {
				noise = noise || f.Path == "stderr"
			}
			if code != 0 {
				c.Event("exit with an error")
				c.Event(fmt.Sprintf("exit status %d", code))
				if len(c.K.Fired) == 0 && c.Spec.Capacity == 0 && c.Arg("damage") == 0 && c.Arg("nolisten") == 0 && c.Arg("spoiled") == 0 || c.Arg("exact") != 0 {
					c.Fail("failed", "exit status %d without a fault: %s", code, tailOf(stderr, 600))
					return
				}
				if !noise && code != 141 && !explains.MatchString(stderr) {
					c.Fail("silent", "exit status %d without a message: %s", code, tailOf(stderr, 600))
				}
				return
			}
			c.Event("exit with success")
			if c.Arg("nolisten") != 0 {
				c.Fail("listen", "success although the address cannot be used")
				return
			}
			if c.Arg("damage") != 0 {
				c.Fail("accepted", "success although the input is damaged")
				return
			}
			switch c.Arg("mode") {
			case modeJSON:
				if err := checkJSON(c, c.K.Stdout); err != nil {
					c.Fail("output", "exit status 0, but %v", err)
				}
			case modeCSV:
				if err := checkCSV(c); err != nil {
					c.Fail("output", "exit status 0, but %v", err)
				}
			}
			if len(clients) > 0 {
				c.Fail("serve", "%s", clients[0])
			}
		},
	})

	// look at what a program left behind
	var tables map[string]*table
	var err error
	var g glass.Glass
	var wrong error
	exit := -1
	hx.Register("cliresult", &hx.Scenario{
		World: true,
		Setup: func(c *hx.Ctx) {
			c.K.Classes = []string{cachePath, "/sim/in", outPath}
			if b, ok := c.K.ReadFile(exitPath); ok && len(b) == 1 {
				exit = int(b[0])
			}
		},
		Body: func(c *hx.Ctx) {
			if exit != 0 {
				return
			}
			path := exportPath
			switch c.Arg("mode") {
			case modeSQLite:
				tables, err = readDB(dbPath)
				return
			case modeReexport:
				path = exportNext
			}
			if g, err = glass.Import(path, stats.NewStats(nil)); err != nil {
				return
			}
			v := prepared(&g, g.Flags)
			for _, p := range pages(c, g.Flags) {
				if !p.gated() || !p.constant() {
					continue
				}
				if e := checkPage(c, p, ask(v, p)); e != nil {
					wrong = fmt.Errorf("%s: %w", p.url, e)
					return
				}
			}
		},
		Check: func(c *hx.Ctx) {
			if exit != 0 || !c.Cleanly() {
				return
			}
			if err != nil {
				c.Fail("output", "exit status 0, but the result cannot be read: %v", err)
				return
			}
			c.Event("results read")
			if c.Arg("mode") == modeSQLite {
				if e := tablesOf(c.M, tables, c.Arg("fields") != 0, separators[c.Arg("sep")]); e != nil {
					c.Fail("output", "exit status 0, but %v", e)
				}
				return
			}
			if wrong != nil {
				c.Fail("output", "exit status 0, but %v", wrong)
				return
			}
			bundles := map[string][]wisski.Entity{}
			for _, name := range g.Cache.BundleNames() {
				bundles[name] = g.Cache.Entities(name)
			}
			if e := obs.Bundles(c.M, bundles); e != nil {
				c.Fail("output", "exit status 0, but %v", e)
				return
			}
			f := flagsFor(c, c.Arg("flags"))
			if len(f.Predicates.SameAs)+len(g.Flags.Predicates.SameAs) == 0 {
				f.Predicates.SameAs, g.Flags.Predicates.SameAs = nil, nil
			}
			if len(f.Predicates.InverseOf)+len(g.Flags.Predicates.InverseOf) == 0 {
				f.Predicates.InverseOf, g.Flags.Predicates.InverseOf = nil, nil
			}
			if a, b := fmt.Sprintf("%+v", f), fmt.Sprintf("%+v", g.Flags); a != b {
				c.Fail("output", "exit status 0, but the export has other display flags: %s", firstDiff(a, b))
			}
		},
	})
}

func tailOf(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

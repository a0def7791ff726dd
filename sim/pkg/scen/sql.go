//go:build simfull

package scen

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
	"github.com/FAU-CDI/hangover/internal/sparkl"
	"github.com/FAU-CDI/hangover/internal/sparkl/exporter"
	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
	sqlite "github.com/glebarez/go-sqlite"
)

// simDB is a database/sql driver in front of sqlite that fails or waits on request.
type simDB struct {
	c        *hx.Ctx
	limit    int // number of variables in a statement
	stmts    int
	opens    int
	closes   int
	failed   []string // errors handed out
	badConns int
	closeErr []string
	over     string
}

var theDB simDB

func (d *simDB) Open(name string) (driver.Conn, error) {
	if err := d.fault("sqlopen"); err != nil {
		return nil, err
	}
	conn, err := (&sqlite.Driver{}).Open(name)
	if err != nil {
		return nil, err
	}
	d.opens++
	return &simConn{d, conn}, nil
}

// fault applies a fault before an operation.
func (d *simDB) fault(op string) error {
	f := d.c.K.Service(op, "db")
	if f == nil {
		return nil
	}
	switch f.Kind {
	case "slow":
		time.Sleep(time.Duration(f.Arg))
		return nil
	case "badconn":
		d.badConns++
		return driver.ErrBadConn
	}
	err := fmt.Errorf("simulated failure %d of the database", len(d.failed)+1)
	d.failed = append(d.failed, err.Error())
	return err
}

type simConn struct {
	d *simDB
	driver.Conn
}

func (c *simConn) Close() error {
	c.d.closes++
	err := c.d.fault("sqlclose")
	if e := c.Conn.Close(); err == nil {
		err = e
	}
	if err != nil {
		c.d.closeErr = append(c.d.closeErr, err.Error())
	}
	return err
}

func (c *simConn) check(query string, n int) {
	c.d.stmts++
	if n > c.d.limit && c.d.over == "" {
		c.d.over = fmt.Sprintf("a statement with %d variables, %d are allowed: %.60q", n, c.d.limit, query)
	}
}

func (c *simConn) ExecContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Result, error) {
	c.check(query, len(args))
	if err := c.d.fault("sqlexec"); err != nil {
		return nil, err
	}
	runtime.Gosched()
	return c.Conn.(driver.ExecerContext).ExecContext(ctx, query, args)
}

func (c *simConn) QueryContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	c.check(query, len(args))
	if err := c.d.fault("sqlquery"); err != nil {
		return nil, err
	}
	return c.Conn.(driver.QueryerContext).QueryContext(ctx, query, args)
}

func (c *simConn) PrepareContext(ctx context.Context, query string) (driver.Stmt, error) {
	if err := c.d.fault("sqlprepare"); err != nil {
		return nil, err
	}
	var st driver.Stmt
	var err error
	if p, ok := c.Conn.(driver.ConnPrepareContext); ok {
		st, err = p.PrepareContext(ctx, query)
	} else {
		st, err = c.Conn.Prepare(query)
	}
	if err != nil {
		return nil, err
	}
	return &simStmt{c, query, st}, nil
}

func (c *simConn) Prepare(query string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), query)
}

func (c *simConn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	if err := c.d.fault("sqlbegin"); err != nil {
		return nil, err
	}
	var tx driver.Tx
	var err error
	if b, ok := c.Conn.(driver.ConnBeginTx); ok {
		tx, err = b.BeginTx(ctx, opts)
	} else {
		tx, err = c.Conn.Begin() //nolint:staticcheck
	}
	if err != nil {
		return nil, err
	}
	return &simTx{c, tx}, nil
}

type simTx struct {
	c *simConn
	driver.Tx
}

func (t *simTx) Commit() error {
	if err := t.c.d.fault("sqlcommit"); err != nil {
		t.Tx.Rollback()
		return err
	}
	return t.Tx.Commit()
}

type simStmt struct {
	c     *simConn
	query string
	driver.Stmt
}

func (s *simStmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	s.c.check(s.query, len(args))
	if err := s.c.d.fault("sqlexec"); err != nil {
		return nil, err
	}
	runtime.Gosched()
	if x, ok := s.Stmt.(driver.StmtExecContext); ok {
		return x.ExecContext(ctx, args)
	}
	vals := make([]driver.Value, len(args))
	for i := range args {
		vals[i] = args[i].Value
	}
	return s.Stmt.Exec(vals) //nolint:staticcheck
}

func (s *simStmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	s.c.check(s.query, len(args))
	if err := s.c.d.fault("sqlquery"); err != nil {
		return nil, err
	}
	if x, ok := s.Stmt.(driver.StmtQueryContext); ok {
		return x.QueryContext(ctx, args)
	}
	vals := make([]driver.Value, len(args))
	for i := range args {
		vals[i] = args[i].Value
	}
	return s.Stmt.Query(vals) //nolint:staticcheck
}

const dbPath = outPath + "/db.sqlite"

// table is what a table of the database holds.
type table struct {
	cols []string
	rows [][]sql.NullString
}

func readDB(path string) (map[string]*table, error) {
	db, err := sql.Open("sqlite", path)
	if err != nil {
		return nil, err
	}
	defer db.Close()
	db.SetMaxOpenConns(1)
	names, err := queryAll(db, "SELECT name FROM sqlite_master WHERE type='table'")
	if err != nil {
		return nil, err
	}
	var ok string
	if err := db.QueryRow("PRAGMA integrity_check").Scan(&ok); err != nil || ok != "ok" {
		return nil, fmt.Errorf("integrity: %q %v", ok, err)
	}
	out := map[string]*table{}
	for _, n := range names.rows {
		t, err := queryAll(db, "SELECT * FROM \""+strings.ReplaceAll(n[0].String, "\"", "\"\"")+"\"")
		if err != nil {
			return nil, err
		}
		out[n[0].String] = t
	}
	return out, nil
}

func queryAll(db *sql.DB, q string) (*table, error) {
	rows, err := db.Query(q)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	t := new(table)
	if t.cols, err = rows.Columns(); err != nil {
		return nil, err
	}
	for rows.Next() {
		r := make([]sql.NullString, len(t.cols))
		p := make([]any, len(r))
		for i := range r {
			p[i] = &r[i]
		}
		if err := rows.Scan(p...); err != nil {
			return nil, err
		}
		t.rows = append(t.rows, r)
	}
	return t, rows.Err()
}

// wantRow is an entity of the model to be found in a table.
type wantRow struct {
	e      *world.Entity
	parent string
}

func wantRows(m *world.Model) (map[string][]wantRow, map[string]*world.Group) {
	rows := map[string][]wantRow{}
	groups := map[string]*world.Group{}
	var walk func(gr *world.Group, es []*world.Entity, parent string)
	walk = func(gr *world.Group, es []*world.Entity, parent string) {
		groups[gr.ID] = gr
		for _, e := range es {
			rows[gr.ID] = append(rows[gr.ID], wantRow{e, parent})
		}
		for _, ch := range gr.Children {
			if !ch.Enabled {
				continue
			}
			groups[ch.ID] = ch
			for _, e := range es {
				walk(ch, e.Children[ch.ID], e.URI)
			}
			if len(es) == 0 {
				walk(ch, nil, "")
			}
		}
	}
	for _, gr := range m.W.Groups {
		if gr.Enabled {
			walk(gr, m.Bundles[gr.ID], "")
		}
	}
	return rows, groups
}

// joined reports whether a text consists of the values in any order.
func joined(text string, vals []string, sep string) bool {
	n := 0
	for _, v := range vals {
		n += len(v) + len(sep)
	}
	if n-len(sep) != len(text) {
		return false
	}
	left := map[string]int{}
	for _, v := range vals {
		left[v]++
	}
	keys := world.Keys(left)
	budget := 20000
	var try func(rest string, n int) bool
	try = func(rest string, n int) bool {
		if budget--; budget < 0 {
			return true // too many ways to tell
		}
		for _, k := range keys {
			if left[k] == 0 || !strings.HasPrefix(rest, k) {
				continue
			}
			r := rest[len(k):]
			if n == 1 {
				if r == "" {
					return true
				}
				continue
			}
			if !strings.HasPrefix(r, sep) {
				continue
			}
			left[k]--
			ok := try(r[len(sep):], n-1)
			left[k]++
			if ok {
				return true
			}
		}
		return false
	}
	return try(text, len(vals))
}

// tablesOf compares a database with the model.
func tablesOf(m *world.Model, tables map[string]*table, fieldTables bool, sep string) error {
	rows, groups := wantRows(m)
	known := map[string]bool{}
	for _, id := range world.Keys(groups) {
		gr := groups[id]
		name := "bundle__" + id
		known[name] = true
		t := tables[name]
		if t == nil {
			return fmt.Errorf("table %s is missing", name)
		}
		col := map[string]int{}
		for i, c := range t.cols {
			col[c] = i
		}
		if _, ok := col["uri"]; !ok {
			return fmt.Errorf("table %s has no column uri", name)
		}
		if _, ok := col["parent"]; !ok && gr.Parent != nil {
			return fmt.Errorf("table %s has no column parent", name)
		}
		// rows by uri and parent
		key := func(uri, parent string) string { return uri + "\x1f" + parent }
		got := map[string][][]sql.NullString{}
		for _, r := range t.rows {
			p := ""
			if i, ok := col["parent"]; ok {
				p = r[i].String
			}
			k := key(r[col["uri"]].String, p)
			got[k] = append(got[k], r)
		}
		want := map[string][]*world.Entity{}
		for _, w := range rows[id] {
			k := key(w.e.URI, w.parent)
			want[k] = append(want[k], w.e)
		}
		for _, k := range world.Keys(got) {
			if len(want[k]) == 0 {
				return fmt.Errorf("table %s has a row that should not exist: %q", name, strings.Split(k, "\x1f"))
			}
		}
		for _, k := range world.Keys(want) {
			if len(got[k]) != len(want[k]) {
				return fmt.Errorf("table %s has %d rows instead of %d for %q", name, len(got[k]), len(want[k]), strings.Split(k, "\x1f"))
			}
			if fieldTables {
				continue
			}
			for _, f := range gr.Fields {
				if !f.Enabled {
					continue
				}
				i, ok := col["field__"+f.ID]
				if !ok {
					return fmt.Errorf("table %s has no column for field %s", name, f.ID)
				}
				// all entities with the same uri have the same values
				var vals []string
				for _, v := range want[k][0].Fields[f.ID] {
					vals = append(vals, v.Value)
				}
				for _, r := range got[k] {
					switch {
					case len(vals) == 0:
						if r[i].Valid && r[i].String != "" {
							return fmt.Errorf("table %s: %q has the value %q for field %s, should have none", name, k, r[i].String, f.ID)
						}
					case !r[i].Valid || !joined(r[i].String, vals, sep):
						return fmt.Errorf("table %s: %q has the value %q for field %s, should have %q", name, k, r[i].String, f.ID, vals)
					}
				}
			}
		}
		if !fieldTables {
			continue
		}
		for _, f := range gr.Fields {
			if !f.Enabled {
				continue
			}
			fname := "field__" + id + "__" + f.ID
			known[fname] = true
			t := tables[fname]
			if t == nil {
				return fmt.Errorf("table %s is missing", fname)
			}
			col := map[string]int{"uri": -1, "value": -1, "lang": -1}
			for i, c := range t.cols {
				col[c] = i
			}
			if col["uri"] < 0 || col["value"] < 0 || col["lang"] < 0 {
				return fmt.Errorf("table %s has columns %v", fname, t.cols)
			}
			count := map[string]int{}
			for _, w := range rows[id] {
				for _, v := range w.e.Fields[f.ID] {
					count[strings.Join([]string{w.e.URI, v.Value, v.Lang}, "\x1f")]++
				}
			}
			for _, r := range t.rows {
				k := strings.Join([]string{r[col["uri"]].String, r[col["value"]].String, r[col["lang"]].String}, "\x1f")
				if count[k]--; count[k] < 0 {
					return fmt.Errorf("table %s: unexpected or repeated row %q", fname, strings.Split(k, "\x1f"))
				}
			}
			for _, k := range world.Keys(count) {
				if count[k] > 0 {
					return fmt.Errorf("table %s: %d rows %q are missing", fname, count[k], strings.Split(k, "\x1f"))
				}
			}
		}
	}
	for _, name := range world.Keys(tables) {
		if !known[name] && len(tables[name].rows) > 0 && !strings.HasPrefix(name, "sqlite_") {
			return fmt.Errorf("table %s with %d rows should not exist", name, len(tables[name].rows))
		}
	}
	return nil
}

// columns is the largest number of variables for one row.
func columns(m *world.Model, fieldTables bool) int {
	_, groups := wantRows(m)
	most := 3
	for _, gr := range groups {
		n := 2
		if !fieldTables {
			n += len(gr.Fields)
		}
		if n > most {
			most = n
		}
	}
	return most
}

var separators = []string{",", "; ", "|", "\n"}

func init() {
	sql.Register("simdb", &theDB)
	var (
		err     error
		stage   string
		tables  map[string]*table
		readErr error
		pingErr error
		open    int
	)
	hx.Register("sql", &hx.Scenario{
		World: true,
		Setup: func(c *hx.Ctx) {
			inputs(c)
			c.K.Classes = append(c.K.Classes, "db")
			theDB = simDB{c: c, limit: c.Arg("maxvar")}
			c.Res.Nums["disk"] = -float64(c.K.Used)
		},
		Body: func(c *hx.Ctx) {
			cache := ""
			if c.Arg("disk") != 0 {
				cache = cachePath
			}
			st := newStats(c)
			pb, e := pbxml.Load(pbPath)
			if err = e; err != nil {
				stage = "load"
				return
			}
			index, e := sparkl.LoadIndex(nqPath, predicates(c), sparkl.NewEngine(cache), sparkl.DefaultIndexOptions(&pb), st)
			if err = e; err != nil {
				stage = "load"
				return
			}
			db, e := sql.Open("simdb", dbPath)
			if err = e; err != nil {
				stage = "load"
				return
			}
			x := &exporter.SQL{SkipClose: c.Arg("skipclose") != 0, DB: db, BatchSize: c.Arg("batch"), MaxQueryVar: c.Arg("maxvar"), MakeFieldTables: c.Arg("fields") != 0, Separator: separators[c.Arg("sep")]}
			err = sparkl.Export(&pb, index, storages.NewBundleEngine(cache), x, st)
			fired := c.K.Faults
			c.K.Faults = nil
			c.K.Capacity = 0
			pingErr = db.Ping()
			open = theDB.opens - theDB.closes
			db.Close()
			if e := index.Close(); e != nil && err == nil {
				err, stage = e, "close index"
			}
			if err == nil {
				tables, readErr = readDB(dbPath)
			}
			c.K.Faults = fired
		},
		Check: func(c *hx.Ctx) {
			describe(c)
			c.Res.Nums["disk"] += float64(c.K.Used)
			c.Res.Nums["stmts"] = float64(theDB.stmts)
			c.EventN("statements", theDB.stmts)
			if c.Arg("leak") != 0 && c.Sim.MainDone {
				c.CheckLeaks()
				if open > 0 && c.Arg("skipclose") == 0 {
					c.Fail("open", "%d connections to the database are left open", open)
				}
			}
			if c.Crashed() && c.Arg("journal") != 0 {
				c.EventN("operations-that-could-be-lost", c.K.PendingOps())
				c.K.Crash(world.NewRand(uint64(c.Arg("journal"))).N)
			}
			if !c.Cleanly() {
				return
			}
			if theDB.over != "" {
				c.Fail("variables", "%s", theDB.over)
			}
			sort.Strings(theDB.failed)
			enough := c.Arg("maxvar") >= columns(c.M, c.Arg("fields") != 0)
			if err != nil {
				c.Event("export-error")
				c.Res.Info["error"] = err.Error()
				if len(c.K.Fired) == 0 && c.Spec.Capacity == 0 && enough || c.Arg("exact") != 0 {
					c.Fail("error", "the export failed without a fault: %s %v", stage, err)
					return
				}
			} else {
				c.Event("export-ok")
			}
			if stage == "" {
				if c.Arg("skipclose") == 0 && pingErr == nil {
					c.Fail("closed", "the database was not closed (export error: %v)", err)
				}
				if c.Arg("skipclose") != 0 && pingErr != nil {
					c.Fail("closed", "the database was closed although that was not asked for")
				}
			}
			for _, f := range theDB.failed {
				if err == nil {
					// failing to close a connection that is not needed any more harms no one
					if len(theDB.closeErr) > 0 && theDB.opens > 1 {
						continue
					}
					c.Fail("swallowed", "the export reported success although a statement failed: %s", f)
					return
				}
			}
			if err != nil && len(theDB.failed) > 0 && enough {
				found := false
				for _, f := range theDB.failed {
					found = found || strings.Contains(err.Error(), f)
				}
				if !found && len(c.K.Fired) == len(theDB.failed) {
					c.Fail("cause", "the export reported %q, but what failed was %q", err, theDB.failed)
				}
			}
			if err != nil {
				return
			}
			if readErr != nil {
				c.Fail("unreadable", "the export succeeded, but the database cannot be read: %v", readErr)
				return
			}
			if e := tablesOf(c.M, tables, c.Arg("fields") != 0, separators[c.Arg("sep")]); e != nil {
				c.Fail("content", "%v", e)
			}
		},
	})
}

package scen

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"time"

	"github.com/FAU-CDI/hangover/internal/zverif/hx"
	"github.com/FAU-CDI/hangover/internal/zverif/world"
	"github.com/FAU-CDI/hangover/pkg/progress"
	"github.com/dustin/go-humanize"
)

// screen is the line of a terminal.
type screen struct {
	cells []byte
	col   int
}

func (s *screen) put(text string) {
	for i := 0; i < len(text); i++ {
		switch b := text[i]; b {
		case '\r':
			s.col = 0
		case '\n':
			s.cells, s.col = nil, 0
		default:
			for len(s.cells) <= s.col {
				s.cells = append(s.cells, ' ')
			}
			s.cells[s.col] = b
			s.col++
		}
	}
}

func (s *screen) visible() string { return strings.TrimRight(string(s.cells), " ") }

// meterTerm judges every update of the line.
type meterTerm struct {
	c        *hx.Ctx
	s        screen
	interval time.Duration
	forced   bool
	last     int64 // monotonic time of the last update
	began    bool
	updates  int
	fail     int
	lost     bool // an update was not shown completely
}

func (t *meterTerm) Write(b []byte) (int, error) {
	now := runtime.SimNow()
	t.c.Mix(now, string(b))
	if !t.forced && t.began && now-t.last < int64(t.interval) {
		t.c.Fail("often", "updated %v after the last update, the interval is %v", time.Duration(now-t.last), t.interval)
	}
	t.last, t.began = now, true
	t.updates++
	t.c.Event("updates of the line")
	if t.fail > 0 && t.updates%t.fail == 0 {
		t.c.Event("fault: terminal failure")
		t.lost = true
		n := len(b) / 2
		t.s.put(string(b[:n]))
		return n, errors.New("terminal is gone")
	}
	t.s.put(string(b))
	return len(b), nil
}

// lossy is a source or sink that transfers less, or fails.
type lossy struct {
	c    *hx.Ctx
	r    *world.Rand
	data []byte
	off  int
	got  []byte
	n    []int
	err  []error
}

var errLossy = errors.New("transfer failed")

func (l *lossy) next(max int) (n int, err error) {
	n = max
	switch x := l.r.N(12); {
	case x < 4:
		n = l.r.N(max + 1)
	case x < 5:
		n = 0
	case x < 6:
		n, err = l.r.N(max+1), errLossy
	case x < 7:
		n, err = 0, errLossy
	case x < 8:
		n, err = max, errLossy
	}
	return
}

func (l *lossy) note(n, max int, err error) (int, error) {
	l.c.Mix(n, err)
	if err != nil && err != io.EOF && err != io.ErrShortWrite {
		l.c.Event("fault: failing transfer")
	} else if err != io.EOF && n < max {
		l.c.Event("fault: short transfer")
	}
	l.n = append(l.n, n)
	l.err = append(l.err, err)
	return n, err
}

func (l *lossy) Read(b []byte) (int, error) {
	max := len(l.data) - l.off
	if max > len(b) {
		max = len(b)
	}
	n, err := l.next(max)
	if l.off == len(l.data) {
		n, err = 0, io.EOF
	} else if l.off+n == len(l.data) && l.r.P(30) {
		err = io.EOF
	}
	copy(b, l.data[l.off:l.off+n])
	l.off += n
	return l.note(n, max, err)
}

func (l *lossy) Write(b []byte) (int, error) {
	n, err := l.next(len(b))
	if n < len(b) && err == nil {
		err = io.ErrShortWrite
	}
	l.got = append(l.got, b[:n]...)
	return l.note(n, len(b), err)
}

func init() {
	hx.Register("meter", &hx.Scenario{
		Body: func(c *hx.Ctx) {
			r := world.NewRand(uint64(c.Arg("seed")) + 7)
			interval := []time.Duration{0, 1, time.Millisecond, progress.DefaultFlushInterval, time.Second, time.Hour}[c.Arg("interval")]
			t := &meterTerm{c: c, interval: interval}
			if c.Arg("badterm") != 0 {
				t.fail = c.Arg("badterm")
			}
			wait := func() {
				switch r.N(8) {
				case 0, 1, 2:
				case 3:
					time.Sleep(time.Duration(r.N(int(interval) + 2)))
				case 4:
					time.Sleep(interval + 1)
				case 5:
					if interval > 1 {
						time.Sleep(interval - 1)
					}
				case 6:
					time.Sleep(time.Duration(r.N(1000000)))
				case 7:
					if c.Arg("jumps") != 0 {
						d := []int64{int64(time.Hour) * 48, -int64(time.Hour) * 48, 1e9, -1e9, -int64(interval), int64(interval)}[r.N(6)]
						runtime.SimWallJump(d)
						c.Event("fault: jump of the wall clock")
					}
				}
			}
			rw := progress.Rewritable{Writer: t, FlushInterval: interval}
			// shown checks what is visible after something happened
			latest, latestSet := "", false
			visible := ""
			after := func(what string, due, forced bool, updates int) {
				if t.lost {
					return
				}
				if t.updates == updates {
					if due && (forced || latestSet) {
						c.Fail("stale", "%s: nothing was shown although it was due", what)
					}
					if t.s.visible() != visible {
						c.Fail("line", "%s: the line changed without an update", what)
					}
					return
				}
				visible = strings.TrimRight(latest, " ")
				if t.s.visible() != visible {
					c.Fail("line", "%s: the line is %q instead of %q", what, t.s.visible(), latest)
				}
			}
			due := func() bool { return !t.began || runtime.SimNow()-t.last > int64(interval)+10000000 }
			switch c.Arg("mode") {
			case 0: // the line itself
				p := progress.Progress{Rewritable: rw}
				for i := 0; i < c.Arg("n"); i++ {
					wait()
					u := t.updates
					switch x := r.N(10); {
					case x < 4:
						n := r.N(30)
						if r.P(10) {
							n = r.N(300)
						}
						latest, latestSet = strings.Repeat(string(rune('a'+r.N(26))), n), true
						d := due()
						p.Write(latest)
						after("write", d, false, u)
					case x < 6:
						total := r.N(3)
						for k := r.N(6); k > 0; k-- {
							total = total*10 + r.N(10)
						}
						count := r.N(total + 1)
						prefix := []string{"", "x", "some stage"}[r.N(3)]
						d := due()
						p.Set(prefix, count, total)
						width := len(fmt.Sprint(total))
						if count < total {
							latest = fmt.Sprintf("%s: %*d/%d", prefix, width, count, total)
						} else {
							latest = fmt.Sprintf("%s: %d", prefix, count)
						}
						latestSet = true
						after("set", d, false, u)
					case x < 8:
						t.forced = true
						p.Flush(true)
						t.forced = false
						after("forced flush", true, true, u)
					case x < 9:
						d := due() && latestSet
						p.Flush(false)
						after("flush", d, false, u)
					default:
						t.forced = true
						p.Close()
						t.forced = false
						latest = ""
						if !t.lost {
							if t.updates == u {
								c.Fail("close", "closing does not reset the line")
							}
							if t.s.visible() != "" || t.s.col != 0 {
								c.Fail("close", "after closing the line is %q, and the cursor is in column %d", t.s.visible(), t.s.col)
							}
						}
						visible = ""
						if t.lost {
							t.s = screen{}
							t.lost = false
						}
					}
				}
			case 1: // reading
				src := &lossy{c: c, r: r, data: make([]byte, r.N(c.Arg("n")*60+1))}
				for i := range src.data {
					src.data[i] = byte(r.Uint64())
				}
				pr := &progress.Reader{Reader: src, Rewritable: rw}
				var got []byte
				for i := 0; i < c.Arg("n")*3; i++ {
					wait()
					buf := make([]byte, r.N(100))
					if r.P(5) {
						buf = nil
					}
					u := t.updates
					d := due()
					n, err := pr.Read(buf)
					k := len(src.n) - 1
					if k != i {
						c.Fail("calls", "%d reads became %d", i+1, k+1)
						return
					}
					if n != src.n[k] || err != src.err[k] {
						c.Fail("read", "read returned %d %v instead of %d %v", n, err, src.n[k], src.err[k])
					}
					got = append(got, buf[:n]...)
					if pr.Bytes != int64(src.off) {
						c.Fail("count", "%d bytes are counted of %d", pr.Bytes, src.off)
					}
					latest, latestSet = "Read "+humanize.Bytes(uint64(src.off)), true
					after("read", d, false, u)
					if err == io.EOF {
						break
					}
				}
				if !bytes.Equal(got, src.data[:src.off]) {
					c.Fail("data", "other data was read")
				}
				t.forced = true
				u := t.updates
				pr.Flush(true)
				after("forced flush", true, true, u)
			case 2: // writing
				dst := &lossy{c: c, r: r}
				pw := &progress.Writer{Writer: dst, Rewritable: rw}
				var want []byte
				for i := 0; i < c.Arg("n")*3; i++ {
					wait()
					buf := make([]byte, r.N(100))
					for j := range buf {
						buf[j] = byte(r.Uint64())
					}
					keep := append([]byte(nil), buf...)
					u := t.updates
					d := due()
					n, err := pw.Write(buf)
					k := len(dst.n) - 1
					if k != i {
						c.Fail("calls", "%d writes became %d", i+1, k+1)
						return
					}
					if n != dst.n[k] || err != dst.err[k] {
						c.Fail("write", "write returned %d %v instead of %d %v", n, err, dst.n[k], dst.err[k])
					}
					if !bytes.Equal(buf, keep) {
						c.Fail("data", "the data to be written was changed")
					}
					want = append(want, buf[:n]...)
					if pw.Bytes != int64(len(want)) {
						c.Fail("count", "%d bytes are counted of %d", pw.Bytes, len(want))
					}
					latest, latestSet = "Wrote "+humanize.Bytes(uint64(len(want))), true
					after("write", d, false, u)
				}
				if !bytes.Equal(dst.got, want) {
					c.Fail("data", "other data was written")
				}
				t.forced = true
				u := t.updates
				pw.Flush(true)
				after("forced flush", true, true, u)
			}
			c.EventN("updates", t.updates)
		},
		Check: func(c *hx.Ctx) {
			if c.Cleanly() {
				c.CheckLeaks()
			}
		},
	})
}

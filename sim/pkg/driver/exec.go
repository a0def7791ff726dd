// Package driver searches over seeds: it starts simulated processes, collects what they
// covered, and confirms, minimises and reports failures.
package driver

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/FAU-CDI/hangover/internal/zverif/hx"
)

// History is a sequence of simulated processes, and how their results are compared.
type History struct {
	Check string    `json:"check"`
	Kind  string    `json:"kind"`
	Same  string    `json:"same,omitempty"` // digest that has to be equal in all processes
	Incs  []hx.Spec `json:"processes"`
}

// Clone copies a history.
func (h *History) Clone() *History {
	c := *h
	c.Incs = append([]hx.Spec(nil), h.Incs...)
	return &c
}

// Outcome of a history.
type Outcome struct {
	Results   []*hx.Result
	Violation *hx.Violation
	Inc       int
	Harness   string
}

var (
	tmpDir  string
	tmpSeq  atomic.Int64
	stopped atomic.Bool
	large   sync.Mutex
)

func tmpName(prefix string) string {
	return filepath.Join(tmpDir, fmt.Sprintf("%s%d", prefix, tmpSeq.Add(1)))
}

// runOne runs a process.
func runOne(spec hx.Spec, timeout time.Duration, opts ...string) (res *hx.Result, v *hx.Violation, harness string) {
	in, err := json.Marshal(spec)
	if err != nil {
		return nil, nil, err.Error()
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], append([]string{"worker"}, opts...)...)
	cmd.Stdin = bytes.NewReader(in)
	var stderr limited
	stderr.max = 1 << 20
	cmd.Stderr = &stderr
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, nil, err.Error()
	}
	cmd.ExtraFiles = []*os.File{pw}
	cmd.Env = []string{"GODEBUG=", "GOMAXPROCS=1", "GOGC=off", "GOTRACEBACK=all", "HOME=/nonexistent", "PATH=/usr/bin:/bin", "TMPDIR=/tmp"}
	if err := cmd.Start(); err != nil {
		pr.Close()
		pw.Close()
		return nil, nil, "start: " + err.Error()
	}
	pw.Close()
	outc := make(chan []byte, 1)
	go func() {
		b, _ := io.ReadAll(pr)
		pr.Close()
		outc <- b
	}()
	werr := cmd.Wait()
	out := <-outc
	if ctx.Err() != nil {
		return nil, &hx.Violation{Kind: "hang", Text: fmt.Sprintf("no end within %v of real time", timeout)}, ""
	}
	if werr == nil {
		res = new(hx.Result)
		if err := json.Unmarshal(out, res); err != nil {
			return nil, nil, "bad result: " + err.Error() + ": " + tail(stderr.String(), 500)
		}
		if res.Harness != "" {
			return res, nil, res.Harness
		}
		if len(res.Violations) > 0 {
			v = &res.Violations[0]
		}
		return res, v, ""
	}
	code := cmd.ProcessState.ExitCode()
	text := stderr.String()
	if code == 2 || cmd.ProcessState.Sys().(syscall.WaitStatus).Signaled() {
		kind, msg, mine := classify(text)
		if mine {
			return nil, nil, msg
		}
		return nil, &hx.Violation{Kind: kind, Text: msg}, ""
	}
	return nil, nil, fmt.Sprintf("worker exited with %v: %s", werr, tail(text, 1500))
}

// classify explains why a process died.
func classify(text string) (kind, msg string, harness bool) {
	lines := strings.Split(text, "\n")
	start := -1
	for i, l := range lines {
		if strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: ") || strings.HasPrefix(l, "WARNING: DATA RACE") {
			start = i
			break
		}
	}
	if start < 0 {
		return "killed", "", true
	}
	head := lines[start]
	kind = "crash"
	if strings.Contains(head, "DATA RACE") {
		kind = "race"
	}
	if strings.Contains(text, "simulation") && strings.Contains(head, "fatal error: simulation") {
		return kind, head, true
	}
	if strings.Contains(text, "out of memory") || strings.Contains(text, "cannot allocate memory") {
		kind = "memory"
	}
	var where []string
	seen := false
	for _, l := range lines[start+1:] {
		if strings.HasPrefix(l, "goroutine ") && len(where) > 0 {
			break
		}
		if strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "created by") {
			continue
		}
		const mod = "github.com/FAU-CDI/hangover"
		if strings.HasPrefix(l, mod) {
			f := strings.TrimPrefix(l, mod)
			if !seen {
				seen = true
				if strings.HasPrefix(f, "/internal/zverif/") && !strings.HasPrefix(f, "/internal/zverif/cmd_") {
					harness = true
				}
			}
			if k := strings.LastIndex(f, "("); k > 0 {
				f = f[:k]
			}
			where = append(where, f)
			if len(where) >= 6 {
				break
			}
		}
	}
	return kind, head + " in " + strings.Join(where, " < "), harness
}

type limited struct {
	bytes.Buffer
	max int
}

func (l *limited) Write(b []byte) (int, error) {
	if room := l.max - l.Len(); room > 0 {
		if room > len(b) {
			room = len(b)
		}
		l.Buffer.Write(b[:room])
	}
	return len(b), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// Exec runs a history.
func Exec(h *History) (o Outcome) {
	image := ""
	defer func() {
		if image != "" {
			os.Remove(image)
		}
	}()
	for i := range h.Incs {
		spec := h.Incs[i]
		if spec.Chain {
			spec.Image = image
		}
		next := ""
		if i+1 < len(h.Incs) && h.Incs[i+1].Chain {
			next = tmpName("image")
			spec.SaveImage = next
		}
		res, v, harness := runOne(spec, 60*time.Second)
		if v != nil && v.Kind == "hang" {
			res, v, harness = runOne(spec, 240*time.Second)
		}
		if v != nil && v.Kind == "memory" && h.Kind != "damaged" || strings.Contains(harness, "out of memory") {
			// simulated processes do not collect garbage
			large.Lock()
			res, v, harness = runOne(spec, 240*time.Second, "large")
			large.Unlock()
		}
		if image != "" {
			os.Remove(image)
		}
		image = next
		o.Results = append(o.Results, res)
		o.Inc = i
		if harness != "" {
			o.Harness = harness
			return
		}
		if v != nil {
			o.Violation = v
			return
		}
		if h.Same != "" && i > 0 {
			a, b := o.Results[0].Digest, res.Digest
			for _, k := range strings.Split(h.Same, ",") {
				if x, ok := a[k]; ok {
					if y, ok := b[k]; ok && x != y {
						o.Violation = &hx.Violation{Kind: "differs", Text: fmt.Sprintf("%s differs between process 0 and process %d: %s", k, i, diff(x, y))}
						return
					}
				}
			}
		}
	}
	return
}

func diff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	lo := i - 200
	if lo < 0 {
		lo = 0
	}
	cut := func(s string) string {
		hi := i + 200
		if hi > len(s) {
			hi = len(s)
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("%q vs %q", cut(a), cut(b))
}

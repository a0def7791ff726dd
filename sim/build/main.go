// Command simbuild builds the simulator: the code of /repo's working tree together with the
// harness in /verif/sim, on top of a Go runtime whose scheduler, clock, random numbers and
// system calls are replaced by seeded stand-ins. Everything happens through a build overlay:
// neither /repo nor the Go installation is modified.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
)

var (
	repo    = flag.String("repo", "/repo", "repository")
	simDir  = flag.String("sim", "", "directory with the simulator")
	work    = flag.String("work", "", "directory for generated files")
	out     = flag.String("o", "", "binary to write")
	tags    = flag.String("tags", "", "extra build tags")
	race    = flag.Bool("race", false, "build with the race detector")
	noYield = flag.Bool("noyield", false, "do not add yield points")
)

var replace = map[string]string{}

func fail(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simbuild: "+format+"\n", args...)
	os.Exit(1)
}

func read(path string) string {
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	return string(b)
}

var seq int

// overlay makes the build see contents in place of path.
func overlay(path, contents string) {
	seq++
	name := filepath.Join(*work, fmt.Sprintf("%04d_%s", seq, filepath.Base(path)))
	if err := os.WriteFile(name, []byte(contents), 0o644); err != nil {
		fail("%v", err)
	}
	replace[path] = name
}

// patch replaces pieces of a file; every piece must be there exactly once.
func patch(path string, pairs ...string) {
	s := read(path)
	for i := 0; i < len(pairs); i += 2 {
		if n := strings.Count(s, pairs[i]); n != 1 {
			fail("%s: anchor occurs %d times: %q", path, n, pairs[i])
		}
		s = strings.Replace(s, pairs[i], pairs[i+1], 1)
	}
	overlay(path, s)
}

func patchRuntime(goroot string) {
	rt := filepath.Join(goroot, "src/runtime")
	patch(filepath.Join(rt, "proc.go"),
		"	// now and pollUntil are saved for work stealing later,\n",
		"	if simOn {\n		if gp := simFindRunnable(pp); gp != nil {\n			return gp, false, false\n		}\n	}\n\n	// now and pollUntil are saved for work stealing later,\n",
		"func runqput(pp *p, gp *g, next bool) {\n",
		"func runqput(pp *p, gp *g, next bool) {\n	if simOn && simPhase == 1 {\n		simPush(gp)\n		return\n	}\n",
		"		if delay > 10*1000 { // up to 10ms\n",
		"		if simOn { // it would wake up the scavenger\n			usleep(10 * 1000)\n			continue\n		}\n		if delay > 10*1000 { // up to 10ms\n",
		"func retake(now int64) uint32 {\n	n := 0\n",
		"func retake(now int64) uint32 {\n	if simOn {\n		return 0\n	}\n	n := 0\n",
		"func os_beforeExit(exitCode int) {\n",
		"func os_beforeExit(exitCode int) {\n	if SimActive() {\n		return\n	}\n",
	)
	patch(filepath.Join(rt, "rand.go"),
		"	seed := &globalRand.seed\n",
		"	startupRand = []byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}[:]\n	seed := &globalRand.seed\n",
		"func rand() uint64 {\n",
		"func rand() uint64 {\n	if simRandom() {\n		return simRand2()\n	}\n",
		"func cheaprand() uint32 {\n",
		"func cheaprand() uint32 {\n	if simRandom() {\n		return uint32(simRand2() >> 32)\n	}\n",
	)
	patch(filepath.Join(rt, "runtime.go"),
		"//go:linkname syscall_Exit syscall.Exit\n//go:nosplit\nfunc syscall_Exit(code int) {\n",
		"//go:linkname syscall_Exit syscall.Exit\nfunc syscall_Exit(code int) {\n	if SimActive() {\n		simExit(code)\n	}\n",
	)
	patch(filepath.Join(rt, "signal_unix.go"),
		"func os_sigpipe() {\n",
		"func os_sigpipe() {\n	if SimActive() {\n		simExit(141)\n	}\n",
	)
	patch(filepath.Join(rt, "mstats.go"),
		"func ReadMemStats(m *MemStats) {\n",
		"func ReadMemStats(m *MemStats) {\n	if SimActive() {\n		*m = MemStats{}\n		return\n	}\n",
	)
	patch(filepath.Join(rt, "mgc.go"),
		"func GC() {\n",
		"func GC() {\n	if SimActive() {\n		return\n	}\n",
	)
	patch(filepath.Join(rt, "mcentral.go"),
		"	sg := mheap_.sweepgen\n	if s = c.partialSwept(sg).pop(); s != nil {\n",
		"	sg := mheap_.sweepgen\n	if simOn && simPhase == 1 {\n		if s = c.grow(); s == nil {\n			return nil\n		}\n		goto havespan\n	}\n	if s = c.partialSwept(sg).pop(); s != nil {\n",
	)
	patch(filepath.Join(rt, "mpagealloc.go"),
		"func (p *pageAlloc) free(base, npages uintptr) {\n",
		"func (p *pageAlloc) free(base, npages uintptr) {\n	if base < simLow {\n		return\n	}\n",
	)
	patch(filepath.Join(rt, "stack.go"),
		"func stackfree(stk stack) {\n",
		"func stackfree(stk stack) {\n	if stk.lo < simLow {\n		return\n	}\n",
	)
	patch(filepath.Join(rt, "mheap.go"),
		"func runtime_debug_freeOSMemory() {\n",
		"func runtime_debug_freeOSMemory() {\n	if SimActive() {\n		return\n	}\n",
	)
	// The order of a map with pointers as keys must not depend on addresses.
	fast := filepath.Join(rt, "map_fast64.go")
	overlay(fast, strings.ReplaceAll(read(fast), "t.Hasher(", "simHasher(t)("))
	overlay(filepath.Join(rt, "time_fake.go"), read(filepath.Join(*simDir, "rt/time_fake.go")))
	overlay(filepath.Join(rt, "zsim.go"), read(filepath.Join(*simDir, "rt/zsim.go")))
	patch(filepath.Join(goroot, "src/time/time.go"),
		"var startNano int64 = runtimeNano() - 1\n",
		"var startNano int64 = 1\n",
	)

	sc := filepath.Join(goroot, "src/syscall")
	patch(filepath.Join(sc, "syscall_linux.go"),
		"//go:linkname Syscall\nfunc Syscall(", "func syscallReal(",
		"//go:linkname Syscall6\nfunc Syscall6(", "func syscallReal6(",
	)
	overlay(filepath.Join(sc, "time_fake.go"), read(filepath.Join(*simDir, "rt/syscall_time_fake.go")))
	overlay(filepath.Join(sc, "zsim.go"), read(filepath.Join(*simDir, "rt/syscall_zsim.go")))
}

type edit struct {
	start, end int
	text       string
}

// apply performs the edits; they may touch, but not overlap.
func apply(src string, edits []edit) string {
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].start < edits[j].start })
	var b strings.Builder
	last := 0
	for _, e := range edits {
		if e.start < last {
			fail("overlapping edits")
		}
		b.WriteString(src[last:e.start])
		b.WriteString(e.text)
		last = e.end
	}
	b.WriteString(src[last:])
	return b.String()
}

func contains(e ast.Node, call bool) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			found = true
		case *ast.CallExpr:
			if call {
				found = true
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

var opOf = map[token.Token]string{
	token.ADD_ASSIGN: "+", token.SUB_ASSIGN: "-", token.MUL_ASSIGN: "*", token.QUO_ASSIGN: "/",
	token.REM_ASSIGN: "%", token.AND_ASSIGN: "&", token.OR_ASSIGN: "|", token.XOR_ASSIGN: "^",
	token.SHL_ASSIGN: "<<", token.SHR_ASSIGN: ">>", token.AND_NOT_ASSIGN: "&^",
}

// rewrite adds a yield point before every statement, and splits updates such as x.n++
// into a read and a write with a yield point between them. Lines keep their numbers.
// If library is set, a command is turned into a package of the given name.
func rewrite(path, src string, library string) string {
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return src // let the compiler report it
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	text := func(n ast.Node) string { return src[off(n.Pos()):off(n.End())] }
	var edits []edit
	used := false

	const yield = "zsimrt.SimYield(); "
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s := s.(type) {
			case *ast.EmptyStmt, *ast.BranchStmt, *ast.CaseClause, *ast.CommClause:
				continue
			case *ast.IncDecStmt:
				if !contains(s.X, true) {
					op := "+"
					if s.Tok == token.DEC {
						op = "-"
					}
					x := text(s.X)
					edits = append(edits, edit{off(s.Pos()), off(s.End()), yield + "{ zsimtmp := " + x + "; " + yield + x + " = zsimtmp " + op + " 1 }"})
					used = true
					continue
				}
			case *ast.AssignStmt:
				if len(s.Lhs) == 1 && len(s.Rhs) == 1 && !contains(s.Lhs[0], true) && !contains(s.Rhs[0], false) {
					x, y := text(s.Lhs[0]), text(s.Rhs[0])
					if op, ok := opOf[s.Tok]; ok {
						edits = append(edits, edit{off(s.Pos()), off(s.End()), yield + "{ zsimtmp := " + x + "; " + yield + x + " = zsimtmp " + op + " (" + y + ") }"})
						used = true
						continue
					}
					if call, ok := s.Rhs[0].(*ast.CallExpr); ok && s.Tok == token.ASSIGN && x != "_" {
						if id, ok := call.Fun.(*ast.Ident); ok && id.Name == "append" {
							edits = append(edits, edit{off(s.Pos()), off(s.End()), yield + "{ zsimtmp := " + y + "; " + yield + x + " = zsimtmp }"})
							used = true
							continue
						}
					}
				}
			}
			edits = append(edits, edit{off(s.Pos()), off(s.Pos()), yield})
			used = true
		}
	}
	if !*noYield {
		ast.Inspect(file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(n.List)
			case *ast.CaseClause:
				list(n.Body)
			case *ast.CommClause:
				list(n.Body)
			}
			return true
		})
	}
	header := ""
	if used {
		header += "; import zsimrt \"runtime\""
	}
	trailer := ""
	if library != "" {
		for _, d := range file.Decls {
			fn, ok := d.(*ast.FuncDecl)
			if !ok || fn.Recv != nil {
				continue
			}
			switch fn.Name.Name {
			case "main":
				edits = append(edits, edit{off(fn.Name.Pos()), off(fn.Name.End()), "Main"})
			case "init":
				inits++
				name := fmt.Sprintf("zsimInit%d", inits)
				initNames = append(initNames, name)
				edits = append(edits, edit{off(fn.Name.Pos()), off(fn.Name.End()), name})
			}
		}
		netName := ""
		for _, im := range file.Imports {
			if im.Path.Value == `"net"` {
				netName = "net"
				if im.Name != nil {
					netName = im.Name.Name
				}
			}
		}
		if netName != "" {
			hit := false
			ast.Inspect(file, func(n ast.Node) bool {
				if sel, ok := n.(*ast.SelectorExpr); ok && sel.Sel.Name == "Listen" {
					if id, ok := sel.X.(*ast.Ident); ok && id.Name == netName {
						edits = append(edits, edit{off(id.Pos()), off(id.End()), "zsimnet"})
						hit = true
					}
				}
				return true
			})
			if hit {
				header += "; import zsimnet \"" + module + "/internal/zverif/simnet\""
				trailer += "\nvar _ = " + netName + ".Listen\n"
			}
		}
	}
	if library != "" {
		edits = append(edits, edit{off(file.Name.Pos()), off(file.Name.End()), library + header})
	} else {
		edits = append(edits, edit{off(file.Name.End()), off(file.Name.End()), header})
	}
	return apply(src, edits) + trailer
}

var (
	inits     int
	initNames []string
	module    string
)

// goFiles lists the non-test Go files of a directory.
func goFiles(dir string) (files []string) {
	entries, err := os.ReadDir(dir)
	if err != nil {
		fail("%v", err)
	}
	for _, e := range entries {
		name := e.Name()
		if !e.IsDir() && strings.HasSuffix(name, ".go") && !strings.HasSuffix(name, "_test.go") {
			files = append(files, name)
		}
	}
	return files
}

func instrumentRepo() {
	for _, line := range strings.Split(read(filepath.Join(*repo, "go.mod")), "\n") {
		if m, ok := strings.CutPrefix(line, "module "); ok {
			module = strings.TrimSpace(m)
		}
	}
	if module == "" {
		fail("no module name")
	}
	// all packages of the repository
	err := filepath.WalkDir(*repo, func(path string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(*repo, path)
		name := d.Name()
		if rel == "cmd" || rel == "node_modules" || (rel != "." && (strings.HasPrefix(name, ".") || name == "testdata" || name == "node_modules")) {
			return filepath.SkipDir
		}
		for _, f := range goFiles(path) {
			full := filepath.Join(path, f)
			src := read(full)
			if f == "legal_notices.go" {
				continue
			}
			overlay(full, rewrite(full, src, ""))
		}
		return nil
	})
	if err != nil {
		fail("%v", err)
	}
	// importable copies of the commands
	for _, cmd := range []string{"n2j", "hangover"} {
		inits, initNames = 0, nil
		dir := filepath.Join(*repo, "cmd", cmd)
		to := filepath.Join(*repo, "internal/zverif/cmd_"+cmd)
		for _, f := range goFiles(dir) {
			full := filepath.Join(dir, f)
			overlay(filepath.Join(to, f), rewrite(full, read(full), "cmd_"+cmd))
		}
		gen := "package cmd_" + cmd + "\n\n// Init runs the init functions of the command.\nfunc Init() {\n"
		for _, n := range initNames {
			gen += "\t" + n + "()\n"
		}
		gen += "}\n"
		overlay(filepath.Join(to, "zsim_init.go"), gen)
	}
	// the harness: its packages, and its main package
	src := filepath.Join(*simDir, "pkg")
	err = filepath.WalkDir(src, func(path string, d os.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		if !strings.HasSuffix(path, ".go") && !strings.HasSuffix(path, ".s") {
			return nil
		}
		rel, _ := filepath.Rel(src, path)
		replace[filepath.Join(*repo, "internal/zverif", rel)] = path
		return nil
	})
	if err != nil {
		fail("%v", err)
	}
}

func patchModules() {
	cache := os.Getenv("GOMODCACHE")
	// x/sys jumps into syscall.Syscall by assembly; its arguments have to survive stack growth now.
	patch(filepath.Join(cache, "golang.org/x/sys@v0.16.0/unix/syscall_unix_gc.go"),
		"func Syscall(trap", "//go:uintptrescapes\nfunc Syscall(trap",
		"func Syscall6(trap", "//go:uintptrescapes\nfunc Syscall6(trap",
	)
}

func main() {
	flag.Parse()
	if *simDir == "" || *work == "" || *out == "" {
		fail("usage")
	}
	goroot := os.Getenv("SIM_GOROOT")
	if goroot == "" {
		goroot = runtime.GOROOT()
	}
	patchRuntime(goroot)
	patchModules()
	instrumentRepo()
	buf, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	ov := filepath.Join(*work, "overlay.json")
	if err := os.WriteFile(ov, buf, 0o644); err != nil {
		fail("%v", err)
	}
	args := []string{"build", "-overlay", ov, "-trimpath=false", "-buildvcs=false", "-tags", strings.Trim("faketime,"+*tags, ",")}
	if *race {
		args = append(args, "-race")
	}
	args = append(args, "-o", *out, "./internal/zverif/main")
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stdout, cmd.Stderr = os.Stderr, os.Stderr
	if err := cmd.Run(); err != nil {
		fail("build: %v", err)
	}
}

// Package simos is the operating system of a simulated process: an in-memory file system
// behind the system call interface, with injected faults and a model of what survives a crash.
package simos

import (
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
)

// Errno values used often.
const (
	eNOENT = syscall.ENOENT
	eIO    = syscall.EIO
)

// Inode is a file or directory.
type Inode struct {
	Ino     uint64
	Dir     bool
	Special string // "urandom", "null"
	Data    []byte
	Names   map[string]*Inode // for directories
	parent  *Inode
	name    string
	nlink   int
	mtime   int64
	locks   map[*OpenFile]int // flock: 1 shared, 2 exclusive
}

// OpenFile is an open file description.
type OpenFile struct {
	fd     int
	node   *Inode
	off    int64
	flags  int
	path   string
	dir    []dirent
	dirPos int
	std    int // 1 or 2 for standard output and error
	id     int
}

type dirent struct {
	name string
	ino  uint64
	dir  bool
}

// Fault describes an injected fault.
type Fault struct {
	Op     string `json:"op"`               // class of operation, see opName; "" for any
	Path   string `json:"path"`             // prefix of the path concerned
	Suffix string `json:"suffix,omitempty"` // suffix of the path concerned
	Nth    int    `json:"nth"`              // which matching operation (from 1)
	Kind   string `json:"kind"`             // eio, enospc, emfile, eacces, eintr, short, epipe, crash, torn, stall
	Sticky bool   `json:"sticky,omitempty"` // all later matching operations fail too
	Arg    int64  `json:"arg,omitempty"`

	seen int
}

// Fired records a fault that took place.
type Fired struct {
	Op   string `json:"op"`
	Path string `json:"path"`
	Kind string `json:"kind"`
	N    int    `json:"n"`
	Step uint64 `json:"step"`
}

// journalOp is a change of the file system, and whether it was made durable.
type journalOp struct {
	kind    int // 1 write, 2 truncate, 3 link, 4 unlink
	node    *Inode
	off     int64 // offset, or the new size
	data    []byte
	dir     *Inode
	name    string
	durable bool
	group   int // changes of directories that happen together (rename)
}

// Kernel is the state of the simulated operating system.
type Kernel struct {
	root    *Inode
	cwd     string
	nextIno uint64
	nextFD  int
	nextID  int
	fds     map[int]*OpenFile

	Faults []Fault
	Fired  []Fired

	Counts   map[string]int // operations by "op path-class"
	Ops      uint64
	Hash     uint64
	Capacity int64 // bytes that fit on the disk; 0 for unlimited
	Used     int64

	Mutated map[string]string // path -> first mutating operation
	Trace   []string          // kept if KeepTrace
	Keep    bool

	// crash model
	Journal   bool
	journal   []journalOp
	undone    map[*Inode][]int // operations on data that are not durable
	undoneDir []int
	base      *Inode // state when the journal was started
	baseMap   map[*Inode]*Inode
	group     int

	Stdout, Stderr []byte
	StdoutClosed   bool
	Classes        []string // prefixes used to classify paths in Counts

	mmaps map[uintptr]int
	Stats struct {
		Opened, Closed, MaxOpen int
	}
	Unknown map[uintptr]int
}

// FirstFD is the smallest descriptor of a simulated file.
const FirstFD = 1 << 20

// New makes a kernel with an empty file system.
func New() *Kernel {
	k := &Kernel{
		cwd:     "/sim",
		nextFD:  FirstFD,
		fds:     map[int]*OpenFile{},
		Counts:  map[string]int{},
		Mutated: map[string]string{},
		mmaps:   map[uintptr]int{},
		Unknown: map[uintptr]int{},
		Hash:    14695981039346656037,
	}
	k.root = k.newNode(true)
	k.MkdirAll("/sim")
	k.MkdirAll("/tmp")
	k.MkdirAll("/dev")
	u := k.newNode(false)
	u.Special = "urandom"
	k.link(k.lookup("/dev"), "urandom", u)
	n := k.newNode(false)
	n.Special = "null"
	k.link(k.lookup("/dev"), "null", n)
	return k
}

func (k *Kernel) newNode(dir bool) *Inode {
	k.nextIno++
	n := &Inode{Ino: k.nextIno, Dir: dir, mtime: runtime.SimNow()}
	if dir {
		n.Names = map[string]*Inode{}
	}
	return n
}

func (k *Kernel) link(dir *Inode, name string, n *Inode) {
	dir.Names[name] = n
	n.parent, n.name = dir, name
	n.nlink++
}

func clean(p string) string { return path.Clean("/" + p) }

func split(p string) []string {
	p = clean(p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (k *Kernel) lookup(p string) *Inode {
	n := k.root
	for _, part := range split(p) {
		if n == nil || !n.Dir {
			return nil
		}
		n = n.Names[part]
	}
	return n
}

func (k *Kernel) walk(p string) (*Inode, syscall.Errno) {
	n := k.root
	parts := split(p)
	for _, part := range parts {
		if !n.Dir {
			return nil, syscall.ENOTDIR
		}
		if len(part) > 255 {
			return nil, syscall.ENAMETOOLONG
		}
		n = n.Names[part]
		if n == nil {
			return nil, eNOENT
		}
	}
	return n, 0
}

func (k *Kernel) walkParent(p string) (*Inode, string, syscall.Errno) {
	p = clean(p)
	if p == "/" {
		return nil, "", syscall.EBUSY
	}
	dir, err := k.walk(path.Dir(p))
	if err != 0 {
		return nil, "", err
	}
	if !dir.Dir {
		return nil, "", syscall.ENOTDIR
	}
	name := path.Base(p)
	if len(name) > 255 {
		return nil, "", syscall.ENAMETOOLONG
	}
	return dir, name, 0
}

// MkdirAll makes directories without going through the fault model.
func (k *Kernel) MkdirAll(p string) {
	n := k.root
	for _, part := range split(p) {
		c := n.Names[part]
		if c == nil {
			c = k.newNode(true)
			k.link(n, part, c)
		}
		n = c
	}
}

// WriteFile stores a file without going through the fault model.
func (k *Kernel) WriteFile(p string, data []byte) {
	k.MkdirAll(path.Dir(clean(p)))
	dir := k.lookup(path.Dir(clean(p)))
	n := k.newNode(false)
	n.Data = append([]byte(nil), data...)
	k.Used += int64(len(data))
	k.link(dir, path.Base(p), n)
}

// Remove deletes a file, while preparing a simulation.
func (k *Kernel) Remove(p string) {
	if dir, name, e := k.walkParent(p); e == 0 {
		delete(dir.Names, name)
	}
}

// ReadFile returns the contents of a file.
func (k *Kernel) ReadFile(p string) ([]byte, bool) {
	n := k.lookup(p)
	if n == nil || n.Dir {
		return nil, false
	}
	return n.Data, true
}

// Exists reports if there is something at the path.
func (k *Kernel) Exists(p string) bool { return k.lookup(p) != nil }

// Tree lists all files and directories (with a trailing slash) below a path.
func (k *Kernel) Tree(p string) map[string][]byte {
	out := map[string][]byte{}
	n := k.lookup(p)
	if n == nil {
		return out
	}
	var rec func(p string, n *Inode)
	rec = func(p string, n *Inode) {
		if !n.Dir {
			if n.Special == "" {
				out[p] = n.Data
			}
			return
		}
		out[strings.TrimSuffix(p, "/")+"/"] = nil
		for name, c := range n.Names {
			rec(strings.TrimSuffix(p, "/")+"/"+name, c)
		}
	}
	rec(clean(p), n)
	return out
}

// OpenFiles lists the paths of the files still open.
func (k *Kernel) OpenFiles() (paths []string) {
	for _, f := range k.fds {
		paths = append(paths, f.path)
	}
	sort.Strings(paths)
	return paths
}

// StartJournal makes the current state durable and tracks changes from here on.
func (k *Kernel) StartJournal() {
	k.Journal = true
	k.journal = nil
	k.undone = map[*Inode][]int{}
	k.undoneDir = nil
	k.baseMap = map[*Inode]*Inode{}
	k.base = k.clone(k.root, k.baseMap)
}

func (k *Kernel) clone(n *Inode, m map[*Inode]*Inode) *Inode {
	c := &Inode{Ino: n.Ino, Dir: n.Dir, Special: n.Special, Data: append([]byte(nil), n.Data...), name: n.name, nlink: n.nlink, mtime: n.mtime}
	m[n] = c
	if n.Dir {
		c.Names = map[string]*Inode{}
		for name, child := range n.Names {
			cc := k.clone(child, m)
			cc.parent = c
			c.Names[name] = cc
		}
	}
	return c
}

func (k *Kernel) log(op journalOp) {
	if k.Journal {
		if op.kind >= 3 {
			k.undoneDir = append(k.undoneDir, len(k.journal))
		} else {
			k.undone[op.node] = append(k.undone[op.node], len(k.journal))
		}
		k.journal = append(k.journal, op)
	}
}

// synced marks what an fsync of node makes durable: its data, and the changes of
// directories so far, which a journaling file system commits together.
func (k *Kernel) synced(node *Inode) {
	for _, i := range k.undone[node] {
		k.journal[i].durable = true
	}
	delete(k.undone, node)
	for _, i := range k.undoneDir {
		k.journal[i].durable = true
	}
	k.undoneDir = k.undoneDir[:0]
}

// PendingOps tells how many operations could be lost in a crash.
func (k *Kernel) PendingOps() (n int) {
	for _, op := range k.journal {
		if !op.durable {
			n++
		}
	}
	return n
}

// Crash returns to a state that a loss of power could leave behind: durable changes are
// kept, of the others a part that rnd decides.
func (k *Kernel) Crash(rnd func(n int) int) {
	if !k.Journal {
		return
	}
	m := k.baseMap
	node := func(n *Inode) *Inode {
		if n == nil {
			return nil
		}
		c := m[n]
		if c == nil {
			c = &Inode{Ino: n.Ino, Dir: n.Dir, Special: n.Special}
			if n.Dir {
				c.Names = map[string]*Inode{}
			}
			m[n] = c
		}
		return c
	}
	// changes of directories survive up to some point
	lastDurable, groups := -1, k.group
	for _, op := range k.journal {
		if op.kind >= 3 && op.durable {
			lastDurable = op.group
		}
	}
	cut := lastDurable
	if groups > lastDurable {
		cut = lastDurable + rnd(groups-lastDurable+1)
	}
	mode := rnd(4) // 0 nothing unsynced survives, 1 everything, 2 a prefix for each file, 3 any subset
	prefix := map[*Inode]int{}
	seen := map[*Inode]int{}
	count := map[*Inode]int{}
	var order []*Inode
	for _, op := range k.journal {
		if op.kind < 3 && !op.durable {
			if count[op.node] == 0 {
				order = append(order, op.node)
			}
			count[op.node]++
		}
	}
	for _, n := range order {
		prefix[n] = rnd(count[n] + 1)
	}
	for _, op := range k.journal {
		switch op.kind {
		case 1, 2:
			data := op.data
			if !op.durable {
				i := seen[op.node]
				seen[op.node]++
				switch {
				case mode == 0:
					continue
				case mode == 2 && i > prefix[op.node]:
					continue
				case mode == 2 && i == prefix[op.node]:
					if op.kind == 2 || len(data) == 0 {
						continue
					}
					data = data[:rnd(len(data))] // torn
				case mode == 3 && rnd(2) == 0:
					continue
				}
			}
			n := node(op.node)
			if op.kind == 2 {
				n.resize(op.off)
			} else {
				n.writeAt(data, op.off)
			}
		case 3:
			if op.durable || op.group <= cut {
				d, n := node(op.dir), node(op.node)
				if d.Names != nil {
					d.Names[op.name] = n
					n.parent, n.name = d, op.name
				}
			}
		case 4:
			if op.durable || op.group <= cut {
				delete(node(op.dir).Names, op.name)
			}
		}
	}
	k.root = k.base
	k.fds = map[int]*OpenFile{}
	k.Journal = false
	k.journal = nil
}

func (n *Inode) resize(size int64) {
	if size <= int64(len(n.Data)) {
		// keep no alias of the cut off part
		n.Data = append([]byte(nil), n.Data[:size]...)
		return
	}
	n.Data = append(n.Data, make([]byte, size-int64(len(n.Data)))...)
}

func (n *Inode) writeAt(data []byte, off int64) {
	if len(data) == 0 {
		return
	}
	if end := off + int64(len(data)); end > int64(len(n.Data)) {
		n.resize(end)
	}
	copy(n.Data[off:], data)
}

package simos

import (
	"path"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

// Install directs the system calls of simulated goroutines here.
func (k *Kernel) Install() { syscall.SimHook = k.hook }

const (
	atFDCWD    = -100
	sysStatx   = 332
	sysRandom  = 318
	sysRename2 = 316
	sysCopy    = 326
	sysFacc2   = 439
)

func cstring(p uintptr) string {
	var b []byte
	for {
		c := *(*byte)(unsafe.Pointer(p))
		if c == 0 {
			return string(b)
		}
		b = append(b, c)
		p++
	}
}

func buffer(p uintptr, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
}

func (k *Kernel) at(dirfd uintptr, p string) (string, syscall.Errno) {
	if strings.HasPrefix(p, "/") {
		return clean(p), 0
	}
	if p == "" {
		return "", eNOENT
	}
	if int32(dirfd) == atFDCWD {
		return clean(k.cwd + "/" + p), 0
	}
	f := k.fds[int(int32(dirfd))]
	if f == nil {
		return "", syscall.EBADF
	}
	return clean(k.pathOf(f) + "/" + p), 0
}

// pathOf is the current path of an open directory.
func (k *Kernel) pathOf(f *OpenFile) string {
	var parts []string
	for n := f.node; n != nil && n != k.root; n = n.parent {
		parts = append(parts, n.name)
	}
	for i, j := 0, len(parts)-1; i < j; i, j = i+1, j-1 {
		parts[i], parts[j] = parts[j], parts[i]
	}
	return "/" + strings.Join(parts, "/")
}

// Class names the group of files a path belongs to, for counting and in fault plans.
func (k *Kernel) Class(p string) string {
	for _, c := range k.Classes {
		if p == c || strings.HasPrefix(p, strings.TrimSuffix(c, "/")+"/") {
			return c
		}
	}
	return "other"
}

// fault decides if an operation fails.
func (k *Kernel) fault(op, p string) *Fault {
	k.Ops++
	cl := k.Class(p)
	k.Counts[op+" "+cl]++
	if cl != "other" && len(p) > len(cl) {
		// and by the entry of the directory it is in
		if rest, _, ok := strings.Cut(strings.TrimPrefix(p[len(cl):], "/"), "/"); ok {
			k.Counts[op+" "+strings.TrimSuffix(cl, "/")+"/"+rest]++
		}
	}
	k.Hash = (k.Hash ^ k.Ops) * 1099511628211
	for i := 0; i < len(op); i++ {
		k.Hash = (k.Hash ^ uint64(op[i])) * 1099511628211
	}
	for i := 0; i < len(p); i++ {
		k.Hash = (k.Hash ^ uint64(p[i])) * 1099511628211
	}
	if k.Keep && len(k.Trace) < 200000 {
		k.Trace = append(k.Trace, op+" "+p)
	}
	var hit *Fault
	for i := range k.Faults {
		f := &k.Faults[i]
		if f.Op != "" && f.Op != op && !(f.Op == "mut" && isMutation(op)) {
			continue
		}
		if f.Path != "" && !(p == f.Path || strings.HasPrefix(p, strings.TrimSuffix(f.Path, "/")+"/") || strings.HasPrefix(f.Path, "std") && p == f.Path) {
			continue
		}
		if f.Suffix != "" && !strings.HasSuffix(p, f.Suffix) {
			continue
		}
		f.seen++
		if f.seen == f.Nth || f.Sticky && f.seen > f.Nth {
			if hit == nil {
				hit = f
				if len(k.Fired) < 1000 {
					k.Fired = append(k.Fired, Fired{Op: op, Path: p, Kind: f.Kind, N: f.seen, Step: runtime.SimStep()})
				}
			}
		}
	}
	if hit != nil {
		switch hit.Kind {
		case "stall":
			runtime.SimAdvance(hit.Arg)
			return nil
		case "crash":
			runtime.SimCrash()
		}
	}
	return hit
}

func isMutation(op string) bool {
	switch op {
	case "write", "create", "unlink", "mkdir", "rename", "truncate", "rmdir", "sync":
		return true
	}
	return false
}

func errnoOf(kind string) syscall.Errno {
	switch kind {
	case "enospc", "enospc-short":
		return syscall.ENOSPC
	case "eacces":
		return syscall.EACCES
	case "emfile":
		return syscall.EMFILE
	case "eintr":
		return syscall.EINTR
	case "epipe":
		return syscall.EPIPE
	case "erofs":
		return syscall.EROFS
	}
	return syscall.EIO
}

func (k *Kernel) mutate(op, p string) {
	if _, ok := k.Mutated[p]; !ok {
		k.Mutated[p] = op
	}
}

func (k *Kernel) hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (r uintptr, err syscall.Errno, ok bool) {
	r, err, ok = k.call(trap, a1, a2, a3, a4, a5, a6)
	if ok {
		k.Hash = (k.Hash ^ uint64(trap)<<32 ^ uint64(err)) * 1099511628211
		// Time passes, and other goroutines may run.
		runtime.SimAdvance(int64(runtime.SimRand() % 20000))
		runtime.SimYield()
	}
	return r, err, ok
}

func (k *Kernel) call(trap, a1, a2, a3, a4, a5, a6 uintptr) (r uintptr, err syscall.Errno, ok bool) {
	switch trap {
	case syscall.SYS_OPENAT, syscall.SYS_OPEN:
		dirfd, pp, flags := a1, a2, int(a3)
		if trap == syscall.SYS_OPEN {
			var cwd int32 = atFDCWD
			dirfd, pp, flags = uintptr(cwd), a1, int(a2)
		}
		p, e := k.at(dirfd, cstring(pp))
		if e != 0 {
			return ^uintptr(0), e, true
		}
		fd, e := k.open(p, flags)
		if e != 0 {
			return ^uintptr(0), e, true
		}
		return uintptr(fd), 0, true
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		f, e, mine := k.file(a1)
		if !mine {
			return 0, 0, false
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		off := f.off
		if trap == syscall.SYS_PREAD64 {
			off = int64(a4)
		}
		n, e := k.read(f, buffer(a2, a3), off)
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if trap == syscall.SYS_READ {
			f.off += int64(n)
		}
		return uintptr(n), 0, true
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		if a1 == 1 || a1 == 2 {
			n, e := k.writeStd(int(a1), buffer(a2, a3))
			if e != 0 {
				return ^uintptr(0), e, true
			}
			return uintptr(n), 0, true
		}
		f, e, mine := k.file(a1)
		if !mine {
			return 0, 0, false
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		off := f.off
		if trap == syscall.SYS_PWRITE64 {
			off = int64(a4)
		} else if f.flags&syscall.O_APPEND != 0 {
			off = int64(len(f.node.Data))
		}
		n, e := k.write(f, buffer(a2, a3), off)
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if trap == syscall.SYS_WRITE {
			f.off = off + int64(n)
		}
		return uintptr(n), 0, true
	case syscall.SYS_CLOSE:
		if a1 == 1 || a1 == 2 {
			if ft := k.fault("close", std(int(a1))); ft != nil {
				return ^uintptr(0), errnoOf(ft.Kind), true
			}
			return 0, 0, true
		}
		f, e, mine := k.file(a1)
		if !mine {
			return 0, 0, false
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		// The descriptor is released, whatever close reports.
		delete(k.fds, f.fd)
		k.Stats.Closed++
		delete(f.node.locks, f)
		if ft := k.fault("close", f.path); ft != nil && ft.Kind != "short" && ft.Kind != "eintr" {
			return ^uintptr(0), errnoOf(ft.Kind), true
		}
		return 0, 0, true
	case syscall.SYS_FSTAT:
		if a1 <= 2 {
			k.stat(&Inode{Special: "null"}, a2)
			return 0, 0, true
		}
		f, e, mine := k.file(a1)
		if !mine {
			return 0, 0, false
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if ft := k.fault("stat", f.path); ft != nil && ft.Kind != "short" {
			return ^uintptr(0), errnoOf(ft.Kind), true
		}
		k.stat(f.node, a2)
		return 0, 0, true
	case syscall.SYS_NEWFSTATAT, syscall.SYS_STAT, syscall.SYS_LSTAT:
		dirfd, pp, out := a1, a2, a3
		if trap != syscall.SYS_NEWFSTATAT {
			var cwd int32 = atFDCWD
			dirfd, pp, out = uintptr(cwd), a1, a2
		}
		name := cstring(pp)
		if name == "" && trap == syscall.SYS_NEWFSTATAT {
			if f := k.fds[int(int32(dirfd))]; f != nil {
				k.stat(f.node, out)
				return 0, 0, true
			}
		}
		p, e := k.at(dirfd, name)
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if ft := k.fault("stat", p); ft != nil && ft.Kind != "short" {
			return ^uintptr(0), errnoOf(ft.Kind), true
		}
		n, e := k.walk(p)
		if e != 0 {
			return ^uintptr(0), e, true
		}
		k.stat(n, out)
		return 0, 0, true
	case syscall.SYS_LSEEK:
		f, e, mine := k.file(a1)
		if !mine {
			return 0, 0, false
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if ft := k.fault("seek", f.path); ft != nil && ft.Kind != "short" && ft.Kind != "eintr" {
			return ^uintptr(0), errnoOf(ft.Kind), true
		}
		off := int64(a2)
		switch a3 {
		case 1:
			off += f.off
		case 2:
			off += int64(len(f.node.Data))
		}
		if off < 0 {
			return ^uintptr(0), syscall.EINVAL, true
		}
		f.off = off
		if f.node.Dir {
			f.dir, f.dirPos = nil, 0
		}
		return uintptr(off), 0, true
	case syscall.SYS_FCNTL:
		if a1 <= 2 {
			return 0, 0, true
		}
		f, e, mine := k.file(a1)
		if !mine {
			return 0, 0, false
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		switch a2 {
		case syscall.F_GETFL:
			return uintptr(f.flags &^ (syscall.O_CREAT | syscall.O_EXCL | syscall.O_TRUNC | syscall.O_CLOEXEC)), 0, true
		case syscall.F_SETFL, syscall.F_SETFD, syscall.F_GETFD:
			return 0, 0, true
		case syscall.F_GETLK:
			(*syscall.Flock_t)(unsafe.Pointer(a3)).Type = syscall.F_UNLCK
			return 0, 0, true
		case syscall.F_SETLK, syscall.F_SETLKW:
			if ft := k.fault("lock", f.path); ft != nil && ft.Kind != "short" && ft.Kind != "eintr" {
				return ^uintptr(0), errnoOf(ft.Kind), true
			}
			return 0, 0, true
		}
		return ^uintptr(0), syscall.EINVAL, true
	case syscall.SYS_FLOCK:
		f, e, mine := k.file(a1)
		if !mine {
			return 0, 0, false
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if ft := k.fault("lock", f.path); ft != nil && ft.Kind != "short" {
			return ^uintptr(0), errnoOf(ft.Kind), true
		}
		return k.flock(f, int(a2))
	case syscall.SYS_FTRUNCATE:
		f, e, mine := k.file(a1)
		if !mine {
			return 0, 0, false
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if ft := k.fault("truncate", f.path); ft != nil && ft.Kind != "short" {
			return ^uintptr(0), errnoOf(ft.Kind), true
		}
		k.mutate("truncate", f.path)
		k.Used += int64(a2) - int64(len(f.node.Data))
		f.node.resize(int64(a2))
		f.node.mtime = runtime.SimNow()
		k.log(journalOp{kind: 2, node: f.node, off: int64(a2)})
		return 0, 0, true
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		f, e, mine := k.file(a1)
		if !mine {
			return 0, 0, false
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if ft := k.fault("sync", f.path); ft != nil && ft.Kind != "short" {
			return ^uintptr(0), errnoOf(ft.Kind), true
		}
		k.synced(f.node)
		return 0, 0, true
	case syscall.SYS_UNLINKAT, syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		var cwd int32 = atFDCWD
		dirfd, pp, rmdir := uintptr(cwd), a1, trap == syscall.SYS_RMDIR
		if trap == syscall.SYS_UNLINKAT {
			dirfd, pp, rmdir = a1, a2, a3&0x200 != 0
		}
		p, e := k.at(dirfd, cstring(pp))
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if e := k.unlink(p, rmdir); e != 0 {
			return ^uintptr(0), e, true
		}
		return 0, 0, true
	case syscall.SYS_MKDIRAT, syscall.SYS_MKDIR:
		var cwd int32 = atFDCWD
		dirfd, pp := uintptr(cwd), a1
		if trap == syscall.SYS_MKDIRAT {
			dirfd, pp = a1, a2
		}
		p, e := k.at(dirfd, cstring(pp))
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if ft := k.fault("mkdir", p); ft != nil && ft.Kind != "short" {
			return ^uintptr(0), errnoOf(ft.Kind), true
		}
		dir, name, e := k.walkParent(p)
		if e == syscall.EBUSY {
			e = syscall.EEXIST
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if dir.Names[name] != nil {
			return ^uintptr(0), syscall.EEXIST, true
		}
		n := k.newNode(true)
		k.link(dir, name, n)
		k.mutate("mkdir", p)
		k.group++
		k.log(journalOp{kind: 3, node: n, dir: dir, name: name, group: k.group})
		return 0, 0, true
	case syscall.SYS_RENAMEAT, sysRename2, syscall.SYS_RENAME:
		var cwd int32 = atFDCWD
		d1, p1, d2, p2 := uintptr(cwd), a1, uintptr(cwd), a2
		if trap != syscall.SYS_RENAME {
			d1, p1, d2, p2 = a1, a2, a3, a4
		}
		from, e := k.at(d1, cstring(p1))
		if e != 0 {
			return ^uintptr(0), e, true
		}
		to, e := k.at(d2, cstring(p2))
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if e := k.rename(from, to); e != 0 {
			return ^uintptr(0), e, true
		}
		return 0, 0, true
	case syscall.SYS_GETDENTS64:
		f, e, mine := k.file(a1)
		if !mine {
			return 0, 0, false
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		if ft := k.fault("readdir", f.path); ft != nil && ft.Kind != "short" {
			return ^uintptr(0), errnoOf(ft.Kind), true
		}
		return k.getdents(f, buffer(a2, a3))
	case syscall.SYS_FACCESSAT, sysFacc2, syscall.SYS_ACCESS:
		var cwd int32 = atFDCWD
		dirfd, pp := uintptr(cwd), a1
		if trap != syscall.SYS_ACCESS {
			dirfd, pp = a1, a2
		}
		p, e := k.at(dirfd, cstring(pp))
		if e == 0 {
			if ft := k.fault("stat", p); ft != nil && ft.Kind != "short" {
				return ^uintptr(0), errnoOf(ft.Kind), true
			}
			_, e = k.walk(p)
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		return 0, 0, true
	case syscall.SYS_READLINKAT, syscall.SYS_READLINK:
		var cwd int32 = atFDCWD
		dirfd, pp := uintptr(cwd), a1
		if trap == syscall.SYS_READLINKAT {
			dirfd, pp = a1, a2
		}
		p, e := k.at(dirfd, cstring(pp))
		if e == 0 {
			if _, e = k.walk(p); e == 0 {
				e = syscall.EINVAL
			}
		}
		return ^uintptr(0), e, true
	case syscall.SYS_FCHMODAT, syscall.SYS_FCHOWNAT, syscall.SYS_UTIMENSAT:
		p, e := k.at(a1, cstring(a2))
		if e == 0 {
			_, e = k.walk(p)
		}
		if e != 0 {
			return ^uintptr(0), e, true
		}
		k.mutate("chmod", p)
		return 0, 0, true
	case syscall.SYS_CHMOD, syscall.SYS_CHOWN, syscall.SYS_UTIME, syscall.SYS_UTIMES:
		p := clean(cstring(a1))
		k.mutate("chmod", p)
		return 0, 0, true
	case syscall.SYS_FCHMOD, syscall.SYS_FCHOWN:
		if _, _, mine := k.file(a1); mine {
			return 0, 0, true
		}
		return 0, 0, false
	case syscall.SYS_GETCWD:
		b := buffer(a1, a2)
		if len(b) < len(k.cwd)+1 {
			return ^uintptr(0), syscall.ERANGE, true
		}
		n := copy(b, k.cwd)
		b[n] = 0
		return uintptr(n + 1), 0, true
	case syscall.SYS_CHDIR:
		return ^uintptr(0), syscall.EACCES, true
	case syscall.SYS_IOCTL:
		return ^uintptr(0), syscall.ENOTTY, true
	case sysRandom:
		b := buffer(a1, a2)
		for i := range b {
			b[i] = byte(runtime.SimRand() >> 24)
		}
		return a2, 0, true
	case sysCopy, syscall.SYS_SENDFILE, syscall.SYS_SPLICE:
		return ^uintptr(0), syscall.ENOSYS, true
	case syscall.SYS_MMAP:
		if int32(a5) >= FirstFD {
			return ^uintptr(0), syscall.ENODEV, true
		}
		return 0, 0, false
	case syscall.SYS_LINK, syscall.SYS_LINKAT, syscall.SYS_SYMLINK, syscall.SYS_SYMLINKAT, syscall.SYS_MKNOD, syscall.SYS_MKNODAT:
		return ^uintptr(0), syscall.EPERM, true
	case syscall.SYS_TRUNCATE, sysStatx, syscall.SYS_STATFS, syscall.SYS_FSTATFS, syscall.SYS_FALLOCATE:
		return ^uintptr(0), syscall.ENOSYS, true
	case syscall.SYS_SOCKET, syscall.SYS_CONNECT, syscall.SYS_BIND, syscall.SYS_LISTEN:
		return ^uintptr(0), syscall.EACCES, true
	case syscall.SYS_KILL, syscall.SYS_EXECVE:
		return ^uintptr(0), syscall.EPERM, true
	}
	if trap == syscall.SYS_MUNMAP {
		return 0, 0, false // memory of sqlite
	}
	if trap == syscall.SYS_GETEUID {
		return 1000, 0, true
	}
	k.Unknown[trap]++
	return 0, 0, false
}

func (k *Kernel) file(fd uintptr) (f *OpenFile, err syscall.Errno, mine bool) {
	n := int(int32(fd))
	if n < FirstFD {
		return nil, 0, false
	}
	f = k.fds[n]
	if f == nil {
		return nil, syscall.EBADF, true
	}
	return f, 0, true
}

func (k *Kernel) open(p string, flags int) (int, syscall.Errno) {
	op := "open"
	n, e := k.walk(p)
	write := flags&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	if e == eNOENT && flags&syscall.O_CREAT != 0 {
		op = "create"
	} else if e == 0 && flags&syscall.O_TRUNC != 0 && write {
		op = "create"
	}
	if ft := k.fault(op, p); ft != nil && ft.Kind != "short" {
		return 0, errnoOf(ft.Kind)
	}
	if e != 0 && op != "create" {
		return 0, e
	}
	if e == 0 && flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
		return 0, syscall.EEXIST
	}
	if n != nil && n.Dir && write {
		return 0, syscall.EISDIR
	}
	if n != nil && !n.Dir && flags&syscall.O_DIRECTORY != 0 {
		return 0, syscall.ENOTDIR
	}
	if n == nil {
		dir, name, e := k.walkParent(p)
		if e != 0 {
			return 0, e
		}
		n = k.newNode(false)
		k.link(dir, name, n)
		k.mutate("create", p)
		k.group++
		k.log(journalOp{kind: 3, node: n, dir: dir, name: name, group: k.group})
	} else if op == "create" && len(n.Data) > 0 && n.Special == "" {
		k.mutate("truncate", p)
		k.Used -= int64(len(n.Data))
		n.Data = nil
		k.log(journalOp{kind: 2, node: n})
	}
	k.nextFD++
	k.nextID++
	f := &OpenFile{fd: k.nextFD, node: n, flags: flags, path: p, id: k.nextID}
	k.fds[f.fd] = f
	k.Stats.Opened++
	if len(k.fds) > k.Stats.MaxOpen {
		k.Stats.MaxOpen = len(k.fds)
	}
	return f.fd, 0
}

func (k *Kernel) read(f *OpenFile, b []byte, off int64) (int, syscall.Errno) {
	if f.node.Dir {
		return 0, syscall.EISDIR
	}
	switch f.node.Special {
	case "urandom":
		for i := range b {
			b[i] = byte(runtime.SimRand() >> 24)
		}
		return len(b), 0
	case "null":
		return 0, 0
	}
	ft := k.fault("read", f.path)
	n := 0
	if off < int64(len(f.node.Data)) {
		n = copy(b, f.node.Data[off:])
	}
	if ft != nil {
		switch ft.Kind {
		case "short":
			if n > 1 {
				n = 1 + int(uint64(ft.Arg)%uint64(n))
			}
			return n, 0
		default:
			return 0, errnoOf(ft.Kind)
		}
	}
	return n, 0
}

func std(fd int) string {
	if fd == 1 {
		return "stdout"
	}
	return "stderr"
}

func (k *Kernel) writeStd(fd int, b []byte) (int, syscall.Errno) {
	n := len(b)
	var e syscall.Errno
	if ft := k.fault("write", std(fd)); ft != nil {
		switch ft.Kind {
		case "short":
			if n > 1 {
				n = 1 + int(uint64(ft.Arg)%uint64(n))
			}
		case "enospc-short":
			if n > 1 && ft.seen == ft.Nth {
				n = 1 + int(uint64(ft.Arg)%uint64(n))
				ft.Sticky = true
			} else {
				return 0, syscall.ENOSPC
			}
		default:
			return 0, errnoOf(ft.Kind)
		}
	}
	if fd == 1 {
		k.Stdout = append(k.Stdout, b[:n]...)
	} else {
		k.Stderr = append(k.Stderr, b[:n]...)
	}
	return n, e
}

func (k *Kernel) write(f *OpenFile, b []byte, off int64) (int, syscall.Errno) {
	if f.flags&(syscall.O_WRONLY|syscall.O_RDWR) == 0 {
		return 0, syscall.EBADF
	}
	if f.node.Special != "" {
		return len(b), 0
	}
	n := len(b)
	ft := k.fault("write", f.path)
	crash := false
	if ft != nil {
		switch ft.Kind {
		case "short":
			if n > 1 {
				n = 1 + int(uint64(ft.Arg)%uint64(n))
			}
		case "torn":
			n = int(uint64(ft.Arg) % uint64(n+1))
			crash = true
		case "enospc-short":
			if n > 1 && ft.seen == ft.Nth {
				n = 1 + int(uint64(ft.Arg)%uint64(n))
				ft.Sticky = true
			} else {
				return 0, syscall.ENOSPC
			}
		default:
			return 0, errnoOf(ft.Kind)
		}
	}
	if k.Capacity > 0 {
		grow := off + int64(n) - int64(len(f.node.Data))
		if grow > 0 && k.Used+grow > k.Capacity {
			room := k.Capacity - k.Used
			if room <= 0 || int64(n) <= grow-room {
				return 0, syscall.ENOSPC
			}
			n -= int(grow - room)
		}
	}
	k.mutate("write", f.path)
	before := len(f.node.Data)
	f.node.writeAt(b[:n], off)
	k.Used += int64(len(f.node.Data) - before)
	f.node.mtime = runtime.SimNow()
	if k.Journal {
		k.log(journalOp{kind: 1, node: f.node, off: off, data: append([]byte(nil), b[:n]...)})
	}
	if crash {
		runtime.SimCrash()
	}
	return n, 0
}

func (k *Kernel) flock(f *OpenFile, how int) (uintptr, syscall.Errno, bool) {
	n := f.node
	if n.locks == nil {
		n.locks = map[*OpenFile]int{}
	}
	switch how &^ syscall.LOCK_NB {
	case syscall.LOCK_UN:
		delete(n.locks, f)
		return 0, 0, true
	case syscall.LOCK_SH:
		for o, m := range n.locks {
			if o != f && m == 2 {
				return ^uintptr(0), syscall.EWOULDBLOCK, true
			}
		}
		n.locks[f] = 1
	case syscall.LOCK_EX:
		for o := range n.locks {
			if o != f {
				return ^uintptr(0), syscall.EWOULDBLOCK, true
			}
		}
		n.locks[f] = 2
	}
	return 0, 0, true
}

func (k *Kernel) unlink(p string, rmdir bool) syscall.Errno {
	op := "unlink"
	if rmdir {
		op = "rmdir"
	}
	if ft := k.fault(op, p); ft != nil && ft.Kind != "short" {
		return errnoOf(ft.Kind)
	}
	dir, name, e := k.walkParent(p)
	if e != 0 {
		return e
	}
	n := dir.Names[name]
	if n == nil {
		return eNOENT
	}
	if rmdir {
		if !n.Dir {
			return syscall.ENOTDIR
		}
		if len(n.Names) > 0 {
			return syscall.ENOTEMPTY
		}
	} else if n.Dir {
		return syscall.EISDIR
	}
	delete(dir.Names, name)
	n.nlink--
	if !n.Dir {
		k.Used -= int64(len(n.Data))
	}
	k.mutate(op, p)
	k.group++
	k.log(journalOp{kind: 4, node: n, dir: dir, name: name, group: k.group})
	return 0
}

func (k *Kernel) rename(from, to string) syscall.Errno {
	if ft := k.fault("rename", to); ft != nil && ft.Kind != "short" {
		return errnoOf(ft.Kind)
	}
	d1, n1, e := k.walkParent(from)
	if e != 0 {
		return e
	}
	d2, n2, e := k.walkParent(to)
	if e != 0 {
		return e
	}
	n := d1.Names[n1]
	if n == nil {
		return eNOENT
	}
	if t := d2.Names[n2]; t != nil {
		if t == n {
			return 0
		}
		if t.Dir != n.Dir {
			if t.Dir {
				return syscall.EISDIR
			}
			return syscall.ENOTDIR
		}
		if t.Dir && len(t.Names) > 0 {
			return syscall.ENOTEMPTY
		}
		k.Used -= int64(len(t.Data))
	}
	delete(d1.Names, n1)
	d2.Names[n2] = n
	n.parent, n.name = d2, n2
	k.mutate("rename", from)
	k.mutate("rename", to)
	k.group++
	k.log(journalOp{kind: 4, node: n, dir: d1, name: n1, group: k.group})
	k.log(journalOp{kind: 3, node: n, dir: d2, name: n2, group: k.group})
	return 0
}

func (k *Kernel) getdents(f *OpenFile, b []byte) (uintptr, syscall.Errno, bool) {
	if !f.node.Dir {
		return ^uintptr(0), syscall.ENOTDIR, true
	}
	if f.dir == nil {
		for name, n := range f.node.Names {
			f.dir = append(f.dir, dirent{name, n.Ino, n.Dir})
		}
		sort.Slice(f.dir, func(i, j int) bool { return f.dir[i].name < f.dir[j].name })
		// A directory lists its entries in no particular order.
		for i := len(f.dir) - 1; i > 0; i-- {
			j := int(runtime.SimRand() % uint64(i+1))
			f.dir[i], f.dir[j] = f.dir[j], f.dir[i]
		}
		f.dirPos = 0
	}
	pos := 0
	for f.dirPos < len(f.dir) {
		d := f.dir[f.dirPos]
		size := (19 + len(d.name) + 1 + 7) &^ 7
		if pos+size > len(b) {
			break
		}
		e := b[pos : pos+size]
		for i := range e {
			e[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&e[0])) = d.ino
		*(*uint64)(unsafe.Pointer(&e[8])) = uint64(f.dirPos + 1)
		*(*uint16)(unsafe.Pointer(&e[16])) = uint16(size)
		e[18] = syscall.DT_REG
		if d.dir {
			e[18] = syscall.DT_DIR
		}
		copy(e[19:], d.name)
		pos += size
		f.dirPos++
	}
	return uintptr(pos), 0, true
}

func (k *Kernel) stat(n *Inode, out uintptr) {
	st := (*syscall.Stat_t)(unsafe.Pointer(out))
	*st = syscall.Stat_t{}
	st.Ino = n.Ino
	st.Dev = 77
	st.Nlink = 1
	st.Blksize = 4096
	switch {
	case n.Dir:
		st.Mode = syscall.S_IFDIR | 0o755
	case n.Special != "":
		st.Mode = syscall.S_IFCHR | 0o666
	default:
		st.Mode = syscall.S_IFREG | 0o644
		st.Size = int64(len(n.Data))
		st.Blocks = (st.Size + 511) / 512
	}
	st.Mtim.Sec = n.mtime / 1e9
	st.Mtim.Nsec = n.mtime % 1e9
	_ = path.Base
}

// Service lets a simulated service outside of the operating system ask whether an operation fails.
func (k *Kernel) Service(op, name string) *Fault { return k.fault(op, name) }

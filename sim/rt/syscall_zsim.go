package syscall

import (
	"runtime"
	_ "unsafe" // for linkname
)

// SimHook, when set, sees every system call of a simulated goroutine first.
var SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1 uintptr, err Errno, handled bool)

//go:uintptrescapes
//go:linkname Syscall
func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil && runtime.SimActive() {
		if r, e, ok := SimHook(trap, a1, a2, a3, 0, 0, 0); ok {
			return r, 0, e
		}
	}
	return syscallReal(trap, a1, a2, a3)
}

//go:uintptrescapes
//go:linkname Syscall6
func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	if SimHook != nil && runtime.SimActive() {
		if r, e, ok := SimHook(trap, a1, a2, a3, a4, a5, a6); ok {
			return r, 0, e
		}
	}
	return syscallReal6(trap, a1, a2, a3, a4, a5, a6)
}

//go:build faketime && !windows

package runtime

import "unsafe"

// faketime stays zero: the simulation has its own clock, see zsim.go.
var faketime int64

//go:linkname nanotime
//go:nosplit
func nanotime() int64 {
	if simOn {
		return simNow
	}
	return nanotime1()
}

//go:linkname time_now time.now
func time_now() (sec int64, nsec int32, mono int64) {
	if simOn {
		w := simNow + simWall
		return w / 1e9, int32(w % 1e9), simNow
	}
	sec, nsec = simWalltime()
	return sec, nsec, nanotime1()
}

//go:linkname overrideWrite
var overrideWrite func(fd uintptr, p unsafe.Pointer, n int32) int32

//go:nosplit
func write(fd uintptr, p unsafe.Pointer, n int32) int32 {
	if overrideWrite != nil {
		return overrideWrite(fd, noescape(p), n)
	}
	return write1(fd, p, n)
}

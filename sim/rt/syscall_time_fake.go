//go:build faketime

package syscall

const faketime = false

func faketimeWrite(fd int, p []byte) int { panic("not reached") }

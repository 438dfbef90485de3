//go:build !amd64

package vsync

import "runtime"

// goid returns the number of the calling goroutine.
func goid() uint64 {
	var buf [64]byte
	n := uint64(0)
	for _, c := range buf[len("goroutine "):runtime.Stack(buf[:], false)] {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + uint64(c-'0')
	}
	return n
}

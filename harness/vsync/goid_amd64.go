package vsync

// goid identifies the calling goroutine among the running ones.
func goid() uint64

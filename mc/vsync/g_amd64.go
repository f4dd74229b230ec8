package vsync

func getg() uintptr

// goid identifies the running goroutine among the living.
//
//go:norace
//go:noinline
func goid() uint64 { return uint64(getg()) }

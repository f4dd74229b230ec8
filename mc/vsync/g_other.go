//go:build !amd64

package vsync

import "runtime"

//go:norace
//go:noinline
func goid() uint64 {
	var b [40]byte
	k := runtime.Stack(b[:], false)
	var id uint64
	for i := 10; i < k && b[i] >= '0' && b[i] <= '9'; i++ {
		id = id*10 + uint64(b[i]-'0')
	}
	return id
}

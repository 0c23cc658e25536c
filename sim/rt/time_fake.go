//go:build faketime && !windows

// Replaces runtime/time_fake.go in simulator builds: the clock is a variable, and
// stdout and stderr carry no playback headers.

package runtime

import "unsafe"

const axEpoch int64 = 1700000000000000000

var faketime int64 = axEpoch

//go:linkname nanotime
//go:nosplit
func nanotime() int64 {
	return faketime
}

//go:linkname time_now time.now
func time_now() (sec int64, nsec int32, mono int64) {
	w := faketime + axwall()
	return w / 1e9, int32(w % 1e9), faketime
}

//go:nowritebarrierrec
func write(fd uintptr, p unsafe.Pointer, n int32) int32 {
	return write1(fd, p, n)
}

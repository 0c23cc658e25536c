FAULT_NAMES = ["goroutine stalled", "wall clock jump", "context cancelled", "callback error", "slow callback", "slow consumer", "disk error", "short read or write", "crash at a system call", "torn or lost write", "corrupted bytes", "network fragmentation", "connection closed", "network error", "operation timed out", "participant abandoned", "incoming channel closed", "callback panics"]

"""Textual patches applied to copies of Go's standard library files (via go build -overlay; GOROOT is not touched).
Each anchor must occur exactly once, else the build stops with an error."""

PATCHES = {
    # identity and priority of a simulated goroutine
    "runtime/runtime2.go": [
        ("	bubble  *synctestBubble\n\n	// xRegs",
         "	bubble  *synctestBubble\n\n	// simulator\n	axid    uint64\n	axprio  int64\n	axsite  uint32\n	axquiet bool\n\n	// xRegs"),
    ],
    "runtime/proc.go": [
        # no background monitor: it preempts and retakes by real time
        ('const haveSysmon = GOARCH != "wasm"', 'const haveSysmon = false && GOARCH != "wasm"'),
        # who runs next
        ("	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n\n	// global runq",
         "	if ax.on {\n		if gp := axpick(pp); gp != nil {\n			return gp, false, false\n		}\n		if gcBlackenEnabled == 0 && axidle(pp) {\n			goto top\n		}\n	}\n\n	// local runq\n	if gp, inheritTime := runqget(pp); gp != nil {\n		return gp, inheritTime, false\n	}\n\n	// global runq"),
        ("	if pp.schedtick%61 == 0 && !sched.runq.empty() {", "	if !ax.on && pp.schedtick%61 == 0 && !sched.runq.empty() {"),
        # the end: every goroutine waits, and no timer will fire
        ("	stopm()\n	goto top\n}\n\n// pollWork", "	if ax.on && gcBlackenEnabled == 0 {\n		axdead(pp)\n	}\n	stopm()\n	goto top\n}\n\n// pollWork"),
        # births and deaths
        ("	newg.runningCleanups.Store(false)\n	if isSystemGoroutine(newg, false) {\n",
         "	newg.runningCleanups.Store(false)\n	axborn(newg, isSystemGoroutine(newg, false))\n	if isSystemGoroutine(newg, false) {\n"),
        ("	casgstatus(gp, _Grunning, _Gdead)\n	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n",
         "	casgstatus(gp, _Grunning, _Gdead)\n	axdied(gp)\n	gcController.addScannableStack(pp, -int64(gp.stack.hi-gp.stack.lo))\n"),
    ],
    # the order in which select polls its cases
    "runtime/select.go": [
        ("		j := cheaprandn(uint32(norder + 1))\n", "		j := axSelectRand(uint32(norder + 1))\n"),
    ],
    "runtime/rand.go": [
        # a constant seed: hash keys and everything else drawn at start-up are the same in every process
        ("	if len(startupRand) >= 16 &&", "	for i := range seed {\n		seed[i] = byte(i*7 + 1)\n	}\n	startupRand = nil\n	if true {\n	} else if len(startupRand) >= 16 &&"),
        # inside a simulation: the simulation's own stream
        ("	// 3.7ns/call this way versus 4.3ns/call with acquirem (+16%).\n",
         "	// 3.7ns/call this way versus 4.3ns/call with acquirem (+16%).\n	if axRandOn() {\n		return axRand()\n	}\n"),
    ],
    # the race detector build of sync.Pool drops items at random
    "sync/pool.go": [
        ("		if runtime_randn(4) == 0 {", "		if false && runtime_randn(4) == 0 {"),
    ],
    # file system calls ask the simulator first
    "syscall/zsyscall_linux_amd64.go": [
        ("func read(fd int, p []byte) (n int, err error) {\n",
         "func read(fd int, p []byte) (n int, err error) {\n	if p, err = axio(AxRead, fd, p); err != nil {\n		return -1, err\n	}\n"),
        ("func write(fd int, p []byte) (n int, err error) {\n",
         "func write(fd int, p []byte) (n int, err error) {\n	if p, err = axio(AxWrite, fd, p); err != nil {\n		return -1, err\n	}\n"),
        ("func pread(fd int, p []byte, offset int64) (n int, err error) {\n",
         "func pread(fd int, p []byte, offset int64) (n int, err error) {\n	if p, err = axio(AxRead, fd, p); err != nil {\n		return -1, err\n	}\n"),
        ("func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n",
         "func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n	if p, err = axio(AxWrite, fd, p); err != nil {\n		return -1, err\n	}\n"),
        ("func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n",
         "func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n	if axerr, after := axcall(AxOpen, dirfd, path, flags); axerr != nil {\n		if after {\n			\n		}\n		return -1, axerr\n	}\n"),
        ("func Close(fd int) (err error) {\n",
         "func Close(fd int) (err error) {\n	if axerr, after := axcall(AxClose, fd, \"\", 0); axerr != nil {\n		if after {\n			Syscall(SYS_CLOSE, uintptr(fd), 0, 0)\n		}\n		return axerr\n	}\n"),
        ("func Fsync(fd int) (err error) {\n",
         "func Fsync(fd int) (err error) {\n	if axerr, after := axcall(AxSync, fd, \"\", 0); axerr != nil {\n		if after {\n			\n		}\n		return axerr\n	}\n"),
        ("func Ftruncate(fd int, length int64) (err error) {\n",
         "func Ftruncate(fd int, length int64) (err error) {\n	if axerr, after := axcall(AxTruncate, fd, \"\", int(length)); axerr != nil {\n		if after {\n			\n		}\n		return axerr\n	}\n"),
        ("func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n",
         "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n	if axerr, after := axcall(AxRename, -1, newpath, 0); axerr != nil {\n		if after {\n			\n		}\n		return axerr\n	}\n"),
        ("func unlinkat(dirfd int, path string, flags int) (err error) {\n",
         "func unlinkat(dirfd int, path string, flags int) (err error) {\n	if axerr, after := axcall(AxUnlink, dirfd, path, flags); axerr != nil {\n		if after {\n			\n		}\n		return axerr\n	}\n"),
        ("func Fstat(fd int, stat *Stat_t) (err error) {\n",
         "func Fstat(fd int, stat *Stat_t) (err error) {\n	if axerr, after := axcall(AxFstat, fd, \"\", 0); axerr != nil {\n		if after {\n			\n		}\n		return axerr\n	}\n"),
        ("func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n",
         "func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n	if axerr, after := axcall(AxStat, fd, path, flags); axerr != nil {\n		if after {\n			\n		}\n		return axerr\n	}\n"),
        ("func Getdents(fd int, buf []byte) (n int, err error) {\n",
         "func Getdents(fd int, buf []byte) (n int, err error) {\n	if axerr, after := axcall(AxDents, fd, \"\", 0); axerr != nil {\n		if after {\n			\n		}\n		return -1, axerr\n	}\n"),
    ],
}

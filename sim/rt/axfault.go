// Package syscall, simulator part. Added to GOROOT/src/syscall by a build overlay.

package syscall

// Operations AxFault is asked about.
const (
	AxOpen = 1 + iota
	AxRead
	AxWrite
	AxClose
	AxSync
	AxTruncate
	AxRename
	AxUnlink
	AxDents
	AxStat
	AxFstat
)

// AxFault, when set, decides the outcome of a file system call before it is made: n is the length
// of the buffer, limit (when not negative) shortens it, err makes the call fail, and with after the
// call is made before it fails.
var AxFault func(op, fd int, path string, flags, n int) (limit int, err Errno, after bool)

func axio(op, fd int, p []byte) ([]byte, error) {
	if AxFault == nil {
		return p, nil
	}
	limit, err, _ := AxFault(op, fd, "", 0, len(p))
	if err != 0 {
		return nil, err
	}
	if limit >= 0 && limit < len(p) {
		p = p[:limit]
	}
	return p, nil
}

func axcall(op, fd int, path string, flags int) (err error, after bool) {
	if AxFault == nil {
		return nil, false
	}
	_, e, a := AxFault(op, fd, path, flags, 0)
	if e == 0 {
		return nil, false
	}
	return e, a
}

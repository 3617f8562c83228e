package syscall

import (
	"internal/runtime/syscall/linux"
	"unsafe"
)

// Fault injection for the C23 check of /verif. It is compiled into the command line tool under test by an overlay of
// the standard library, all system calls of package os pass here. VERIF_FAULTS lists faults "number kind argument"
// separated by semicolons; the number counts the system calls of the process from zero:
//
//	K      the process is killed before the call
//	T n    the call is made with count n, then the process is killed
//	S n    the call is made with count n (a short read or write)
//	E n    the call is not made and fails with errno n
//	A n    the call is made and fails with errno n
//	L n    the data written to the file is lost (delayed write), then as A n
//	P n    this and all later calls with the same system call number and first argument fail with errno n
//
// With VERIF_TRACE=1, a record of eight words per call is written to file descriptor 3.

type verifFault struct {
	at   uintptr
	kind byte
	arg  uintptr
}

var (
	verifOn     uintptr
	verifN      uintptr
	verifTrace  bool
	verifFaults [8]verifFault
	verifLen    int
	verifRec    [8]uintptr
	verifTrap   uintptr = ^uintptr(0)
	verifFd     uintptr
	verifErr    uintptr
)

func init() {
	s, ok := Getenv("VERIF_FAULTS")
	t, _ := Getenv("VERIF_TRACE")
	verifTrace = t != ""
	for i := 0; i < len(s) && verifLen < len(verifFaults); {
		var f verifFault
		for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			f.at = f.at*10 + uintptr(s[i]-'0')
		}
		if i < len(s) {
			f.kind = s[i]
			i++
		}
		for ; i < len(s) && s[i] >= '0' && s[i] <= '9'; i++ {
			f.arg = f.arg*10 + uintptr(s[i]-'0')
		}
		i++
		verifFaults[verifLen] = f
		verifLen++
	}
	if ok || verifTrace {
		verifOn = 1
	}
}

//go:uintptrkeepalive
//go:nosplit
//go:norace
func verifSyscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {
	var e uintptr
	n := verifN
	verifN++
	kind, arg := byte(0), uintptr(0)
	for i := 0; i < verifLen; i++ {
		if verifFaults[i].at == n {
			kind, arg = verifFaults[i].kind, verifFaults[i].arg
		}
	}
	if kind == 'P' {
		verifTrap, verifFd, verifErr = trap, a1, arg
	}
	if kind == 0 && trap == verifTrap && a1 == verifFd {
		kind, arg = 'E', verifErr
	}
	switch kind {
	case 'K':
		verifKill()
	case 'T':
		linux.Syscall6(trap, a1, a2, arg, a4, a5, a6)
		verifKill()
	case 'S':
		a3 = arg
	case 'L':
		linux.Syscall6(SYS_FTRUNCATE, a1, 0, 0, 0, 0, 0)
	}
	if kind == 'E' || kind == 'P' {
		r1, e = ^uintptr(0), arg
	} else {
		r1, r2, e = linux.Syscall6(trap, a1, a2, a3, a4, a5, a6)
		if kind == 'A' || kind == 'L' {
			r1, e = ^uintptr(0), arg
		}
	}
	if verifTrace {
		verifRec[0], verifRec[1], verifRec[2], verifRec[3] = n, trap, a1, a3
		verifRec[4], verifRec[5], verifRec[6] = r1, e, a4
		linux.Syscall6(SYS_WRITE, 3, uintptr(unsafe.Pointer(&verifRec)), unsafe.Sizeof(verifRec), 0, 0, 0)
	}
	return r1, r2, Errno(e)
}

//go:nosplit
//go:norace
func verifKill() {
	for {
		pid, _, _ := linux.Syscall6(SYS_GETPID, 0, 0, 0, 0, 0, 0)
		linux.Syscall6(SYS_KILL, pid, uintptr(SIGKILL), 0, 0, 0, 0)
	}
}

package core

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	_ "unsafe"
)

// The outside world of a program that may not reach it. While a world
// is open, every call this process makes to the kernel (and every use of
// the environment, and the end of the process) is decided here: what is
// not harmless is recorded, and refused or made to seem to succeed.
//
// The other side is in bin/world_syscall.go.txt, which bin/prep.py puts
// into Go's syscall package.

func syscallWorld() (on *bool, pol *[1024]uint16, fds *[256]bool, errno *uintptr, ok, decoy *[64]byte, n *int)
func syscallEvent(i int) (trap, a1, a2, a3 uintptr, path string)
func syscallSetHost(f func(what, a, b string) (string, bool, int))

const (
	wPass  = 1
	wPath1 = 2
	wPath2 = 4
	wOpen  = 8
	wStat  = 16
	wZero  = 32
	wWrite = 64
	wRead  = 128
)

// World is the outside world during one evaluation.
type World struct {
	Err    syscall.Errno // what refused calls give; 0: they seem to succeed
	Stdin  bool          // the program may read standard input
	Writes []int         // descriptors it may write
	Script string        // a path it may open
	Decoy  string        // path of the file that is read in place of any other

	Events []string
	Exits  []int
}

// Exited is what a call to os.Exit panics with.
type Exited struct{ Code int }

var policy map[uintptr]uint16

func init() {
	policy = map[uintptr]uint16{
		syscall.SYS_OPENAT:     wPath2 | wOpen,
		syscall.SYS_OPEN:       wPath1,
		syscall.SYS_CREAT:      wPath1,
		syscall.SYS_NEWFSTATAT: wPath2 | wStat,
		syscall.SYS_STAT:       wPath1,
		syscall.SYS_LSTAT:      wPath1,
		syscall.SYS_ACCESS:     wPath1 | wZero,
		syscall.SYS_FACCESSAT:  wPath2 | wZero,
		439:                    wPath2 | wZero, // faccessat2
		syscall.SYS_UNLINK:     wPath1 | wZero,
		syscall.SYS_UNLINKAT:   wPath2 | wZero,
		syscall.SYS_RMDIR:      wPath1 | wZero,
		syscall.SYS_MKDIR:      wPath1 | wZero,
		syscall.SYS_MKDIRAT:    wPath2 | wZero,
		syscall.SYS_RENAME:     wPath1 | wZero,
		syscall.SYS_RENAMEAT:   wPath2 | wZero,
		316:                    wPath2 | wZero, // renameat2
		syscall.SYS_CHMOD:      wPath1 | wZero,
		syscall.SYS_FCHMODAT:   wPath2 | wZero,
		syscall.SYS_CHOWN:      wPath1 | wZero,
		syscall.SYS_FCHOWNAT:   wPath2 | wZero,
		syscall.SYS_CHDIR:      wPath1 | wZero,
		syscall.SYS_TRUNCATE:   wPath1 | wZero,
		syscall.SYS_SYMLINK:    wPath1 | wZero,
		syscall.SYS_LINK:       wPath1 | wZero,
		syscall.SYS_READLINKAT: wPath2,
		syscall.SYS_READLINK:   wPath1,
		syscall.SYS_UTIMENSAT:  wPath2 | wZero,
		syscall.SYS_KILL:       wZero,
		syscall.SYS_TKILL:      wZero,
		syscall.SYS_TGKILL:     wZero,
		syscall.SYS_WRITE:      wWrite,
		syscall.SYS_PWRITE64:   wWrite,
		syscall.SYS_WRITEV:     wWrite,
		syscall.SYS_FTRUNCATE:  wWrite,
		syscall.SYS_READ:       wRead,
		syscall.SYS_PREAD64:    wRead,
		syscall.SYS_READV:      wRead,
	}
	// nothing comes of these, or there is no file without one of the above
	for _, t := range []uintptr{
		syscall.SYS_CLOSE, syscall.SYS_LSEEK, syscall.SYS_FSTAT, syscall.SYS_FCNTL, syscall.SYS_FSYNC, syscall.SYS_FDATASYNC,
		syscall.SYS_GETPID, syscall.SYS_GETTID, syscall.SYS_SCHED_YIELD, syscall.SYS_NANOSLEEP, syscall.SYS_CLOCK_NANOSLEEP,
		syscall.SYS_CLOCK_GETTIME, syscall.SYS_GETTIMEOFDAY, syscall.SYS_FUTEX, syscall.SYS_MMAP, syscall.SYS_MUNMAP,
		syscall.SYS_MADVISE, syscall.SYS_EPOLL_CREATE1, syscall.SYS_EPOLL_CTL, syscall.SYS_EPOLL_WAIT, syscall.SYS_EPOLL_PWAIT,
		syscall.SYS_IOCTL, // terminal size and the like
		318,               // getrandom
	} {
		policy[t] = wPass
	}
	exitHook(nil)
}

var trapNames = map[uintptr]string{
	syscall.SYS_OPENAT: "openat", syscall.SYS_NEWFSTATAT: "newfstatat", syscall.SYS_UNLINKAT: "unlinkat", syscall.SYS_MKDIRAT: "mkdirat",
	syscall.SYS_RENAMEAT: "renameat", syscall.SYS_CHDIR: "chdir", syscall.SYS_READ: "read", syscall.SYS_WRITE: "write", syscall.SYS_SOCKET: "socket",
	syscall.SYS_GETCWD: "getcwd", syscall.SYS_FACCESSAT: "faccessat", 439: "faccessat2", syscall.SYS_PIPE2: "pipe2", syscall.SYS_GETDENTS64: "getdents64",
	syscall.SYS_CLONE: "clone", syscall.SYS_EXECVE: "execve", syscall.SYS_KILL: "kill", syscall.SYS_READLINKAT: "readlinkat", syscall.SYS_UNLINK: "unlink",
}

func exitHook(f func(int)) { os.VerifExit = f }

// Run runs f in the world.
func (w *World) Run(f func()) {
	on, pol, fds, errno, ok, decoy, n := syscallWorld()
	*pol = [1024]uint16{}
	for t, p := range policy {
		pol[t] = p
	}
	*fds = [256]bool{}
	for _, d := range w.Writes {
		fds[d] = true
	}
	fds[0] = w.Stdin
	*errno = uintptr(w.Err)
	*ok, *decoy = [64]byte{}, [64]byte{}
	copy(ok[:63], w.Script)
	copy(decoy[:63], w.Decoy)
	*n = 0
	syscallSetHost(func(what, a, b string) (string, bool, int) {
		if what == "getenv" && (a == "ZONEINFO" || a == "TZ") {
			return "", false, 0 // time zones
		}
		w.Events = append(w.Events, fmt.Sprintf("%s %q %q", what, a, b))
		return "canary-" + a, w.Err == 0, int(w.Err)
	})
	exitHook(func(code int) {
		w.Exits = append(w.Exits, code)
		panic(Exited{code})
	})
	defer func() {
		*on = false
		exitHook(nil)
		var ev []string
		for i := 0; i < *n; i++ {
			trap, a1, a2, a3, path := syscallEvent(i)
			name := trapNames[trap]
			if name == "" {
				name = fmt.Sprintf("call %d", trap)
			}
			switch p := policy[trap]; {
			case p&wPath1 != 0:
				ev = append(ev, fmt.Sprintf("%s %q", name, path))
			case p&wOpen != 0 && a3&3 == 0 && zoneFile(path):
				// time zones
			case p&wPath2 != 0:
				ev = append(ev, fmt.Sprintf("%s %q flags %#x", name, path, a3*b2u(p&wOpen != 0)))
			default:
				ev = append(ev, name)
			}
			_, _ = a1, a2
		}
		w.Events = append(w.Events, ev...)
	}()
	*on = true
	f()
}

func zoneFile(p string) bool {
	return p == "/etc/localtime" || strings.HasPrefix(p, "/usr/share/zoneinfo/") || strings.HasPrefix(p, "/usr/share/lib/zoneinfo/") || strings.HasPrefix(p, "/usr/lib/locale/TZ/") || strings.HasPrefix(p, "/etc/zoneinfo") || strings.HasSuffix(p, "/lib/time/zoneinfo.zip")
}

func b2u(b bool) uintptr {
	if b {
		return 1
	}
	return 0
}

// WorldEvents sorts and shortens a list of events.
func WorldEvents(ev []string) []string {
	m := map[string]bool{}
	var r []string
	for _, e := range ev {
		if !m[e] {
			m[e] = true
			r = append(r, e)
		}
	}
	sort.Strings(r)
	return r
}

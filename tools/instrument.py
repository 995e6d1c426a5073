"""Overlays of the Go toolchain's standard library, used to own nondeterminism and to inject faults.

Nothing is written outside the scratch directory: `go build -overlay` shows the changed files to the compiler."""
import os


def edit(path, subs):
    s = open(path).read()
    for old, new in subs:
        if s.count(old) != 1:
            raise SystemExit("instrument: %s: expected exactly one %r, found %d" % (path, old[:60], s.count(old)))
        s = s.replace(old, new)
    return s


# --- Order of iteration over hash maps -------------------------------------------------------------------------------
#
# mcBuf (if set) is a plan and a log, shared with the controller:
#   [0] iterations counted so far   [1] number of plan entries   [2] default order   [3] default start in big maps
#   [16+2i], [17+2i] plan: iteration number, order     [1024+i] log: number of entries of the map of iteration i
# Only maps of one group (at most eight entries) get arbitrary orders: 3 bits per place, bit 63 set.
MAPS = """
package maps

var mcBuf *[8192]uint64

func mcPick(used uint64, small bool) (entry, dir uint64) {
	b := mcBuf
	if b == nil {
		return rand() &^ (1 << 63), rand()
	}
	if used < 2 && small {
		return 0, 0
	}
	n := b[0]
	b[0]++
	if n < 7000 {
		l := used
		if !small {
			l |= 1 << 32
		}
		b[1024+n] = l
	}
	if !small {
		return b[3], b[3]
	}
	for i := uint64(0); i < b[1]; i++ {
		if b[16+2*i] == n {
			return b[17+2*i] | 1<<63, 0
		}
	}
	var p uint64
	for i := uint64(0); i < 8; i++ {
		k := i
		if i < used {
			switch {
			case b[2] == 1:
				k = used - 1 - i
			case b[2] >= 2:
				k = (i + b[2] - 1) % used
			}
		}
		p |= k << (3 * i)
	}
	return p | 1<<63, 0
}
"""

# Placed in each command: connects the runtime to the controller's shared file.
MAPS_MAIN = """
package main

import (
	"os"
	"syscall"
	"unsafe"
)

//go:linkname mcBuf internal/runtime/maps.mcBuf
var mcBuf *[8192]uint64

func init() {
	name := os.Getenv("MC_MAPS")
	if name == "" {
		return
	}
	f, err := os.OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		os.Exit(97)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, 65536, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		os.Exit(98)
	}
	f.Close()
	mcBuf = (*[8192]uint64)(unsafe.Pointer(&b[0]))
}
"""


def maporder(scratch, repo, goroot):
    d = os.path.join(scratch, "ov-maporder")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(goroot, "src/internal/runtime/maps")
    table = edit(os.path.join(src, "table.go"), [
        ("\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n",
         "\tit.entryOffset, it.dirOffset = mcPick(m.used, m.dirLen <= 0)\n"),
        ("\t\t\tk := uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots\n",
         "\t\t\tk := uintptr(it.entryIdx+it.entryOffset) % abi.MapGroupSlots\n"
         "\t\t\tif it.entryOffset>>63 != 0 {\n\t\t\t\tk = uintptr(it.entryOffset>>(3*it.entryIdx)) & 7\n\t\t\t}\n"),
    ])
    rep = {}

    def put(target, text):
        p = os.path.join(d, "%d.go" % len(rep))
        with open(p, "w") as fh:
            fh.write(text)
        rep[target] = p
    put(os.path.join(src, "table.go"), table)
    put(os.path.join(src, "zz_mc.go"), MAPS)
    for cmd in sorted(os.listdir(os.path.join(repo, "cmd"))):
        if os.path.isdir(os.path.join(repo, "cmd", cmd)):
            put(os.path.join(repo, "cmd", cmd, "zz_mc_maps.go"), MAPS_MAIN)
    return rep


# --- Faults in operations on files -----------------------------------------------------------------------------------
#
# mcBuf (if set) is a plan and a log, shared with the controller:
#   [0] operations counted so far   [1] number of plan entries   [2] operation (plus 1) from which all fail, [3] how
#   [5], [6] most bytes per reading and writing operation (0: no limit)   [7] faults that took place
#   [16+2i], [17+2i] plan: operation number, action (an error number; bit 32 set: at most the low bits' number of bytes)
#   [1024+16i ...] log of operation i: number of the system call, descriptor << 16, fault << 48; then 120 bytes of path
# Operations on descriptor 2 (diagnostics) are left alone.
FAULTS = """
package syscall

import "unsafe"

var mcBuf *[524288]uint64

//go:nosplit
func mcClass(trap uintptr) (class int) {
	switch trap {
	case SYS_READ, SYS_PREAD64, SYS_READV:
		return 1
	case SYS_WRITE, SYS_PWRITE64, SYS_WRITEV:
		return 2
	case SYS_OPENAT, SYS_OPEN, SYS_CREAT, SYS_CLOSE, SYS_MKDIRAT, SYS_MKDIR, SYS_UNLINKAT, SYS_UNLINK, SYS_RMDIR, SYS_RENAME,
		SYS_RENAMEAT, 316, SYS_LINK, SYS_LINKAT, SYS_SYMLINK, SYS_SYMLINKAT, SYS_FTRUNCATE, SYS_TRUNCATE, SYS_FSYNC, SYS_FDATASYNC,
		SYS_GETDENTS64, 326, SYS_SENDFILE, SYS_SPLICE:
		return 3
	}
	return 0
}

// mcSys gives the error that the operation shall end in, and how many bytes it may move (if limited).
//
//go:nosplit
func mcSys(class int, trap, a1, a2, n uintptr) (errno Errno, most uintptr) {
	b := mcBuf
	most = n
	if a1 == 2 && class < 3 {
		return
	}
	k := b[0]
	b[0]++
	act := uint64(0)
	if class < 3 && b[4+class] != 0 {
		act = 1<<32 | b[4+class]
	}
	if b[2] != 0 && k+1 >= b[2] {
		act = b[3]
	}
	for i := uint64(0); i < b[1] && i < 200; i++ {
		if b[16+2*i] == k {
			act = b[17+2*i]
		}
	}
	if k < 32000 {
		at := 1024 + 16*k
		f := uint64(0)
		if act != 0 {
			f = 1
		}
		b[at] = uint64(trap) | uint64(a1&0xffff)<<16 | f<<48
		p := uintptr(0)
		switch trap {
		case SYS_OPENAT, SYS_MKDIRAT, SYS_UNLINKAT, SYS_RENAMEAT, 316:
			p = a2
		case SYS_OPEN, SYS_CREAT, SYS_MKDIR, SYS_UNLINK, SYS_RMDIR, SYS_RENAME, SYS_TRUNCATE:
			p = a1
		}
		if p != 0 {
			d := (*[120]byte)(unsafe.Pointer(&b[at+1]))
			for i := 0; i < 119; i++ {
				c := *(*byte)(unsafe.Pointer(p + uintptr(i)))
				d[i] = c
				if c == 0 {
					break
				}
			}
		}
	}
	if act != 0 {
		b[7]++
	}
	if act>>32 != 0 {
		if l := uintptr(act & 0xffffffff); l < n {
			most = l
		}
		return
	}
	return Errno(act), most
}
"""

FAULTS_MAIN = MAPS_MAIN.replace("[8192]uint64", "[524288]uint64").replace("internal/runtime/maps.mcBuf", "syscall.mcBuf") \
    .replace("MC_MAPS", "MC_FAULTS").replace("65536", "4194304")

HOOK3 = """	if mcBuf != nil {
		if class := mcClass(trap); class != 0 {
			var errno Errno
			if errno, a3 = mcSys(class, trap, a1, a2, a3); errno != 0 {
				if trap == SYS_CLOSE {
					RawSyscall6(trap, a1, 0, 0, 0, 0, 0)
				}
				return ^uintptr(0), 0, errno
			}
		}
	}
"""
HOOK6 = """	if mcBuf != nil {
		if class := mcClass(trap); class != 0 {
			var errno Errno
			switch {
			case trap == SYS_SENDFILE:
				errno, a4 = mcSys(class, trap, a1, a2, a4)
			case trap == SYS_SPLICE || trap == 326:
				errno, a5 = mcSys(class, trap, a1, a2, a5)
			default:
				errno, a3 = mcSys(class, trap, a1, a2, a3)
			}
			if errno != 0 {
				return ^uintptr(0), 0, errno
			}
		}
	}
"""


def faults(scratch, repo, goroot):
    d = os.path.join(scratch, "ov-faults")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(goroot, "src/syscall")
    head3 = "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n"
    head6 = "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n"
    linux = edit(os.path.join(src, "syscall_linux.go"), [(head3, head3 + HOOK3), (head6, head6 + HOOK6)])
    rep = {}

    def put(target, text):
        p = os.path.join(d, "%d.go" % len(rep))
        with open(p, "w") as fh:
            fh.write(text)
        rep[target] = p
    put(os.path.join(src, "syscall_linux.go"), linux)
    put(os.path.join(src, "zz_mc.go"), FAULTS)
    for cmd in sorted(os.listdir(os.path.join(repo, "cmd"))):
        if os.path.isdir(os.path.join(repo, "cmd", cmd)):
            put(os.path.join(repo, "cmd", cmd, "zz_mc_faults.go"), FAULTS_MAIN)
    return rep


# --- What surrounds a process ----------------------------------------------------------------------------------------
#
# MC_CLOCK shifts the clock (seconds), MC_RAND fixes math/rand, MC_PID and MC_HOST are the process and the host.
WORLD_ENV = """
func mcNumber(key string) (n int64, ok bool) {
	text, ok := syscall.Getenv(key)
	if !ok {
		return 0, false
	}
	neg := false
	for i := 0; i < len(text); i++ {
		if text[i] == '-' {
			neg = true
		} else {
			n = n*10 + int64(text[i]-'0')
		}
	}
	if neg {
		n = -n
	}
	return n, true
}
"""
WORLD_TIME = """
package time

import "syscall"
""" + WORLD_ENV + """
var mcShift, mcShifted = mcNumber("MC_CLOCK")
"""
WORLD_RAND = """
package rand

import "syscall"
""" + WORLD_ENV + """
var mcSeed, mcSeeded = mcNumber("MC_RAND")

func mcRand() uint64 {
	if !mcSeeded {
		return runtime_rand()
	}
	mcSeed += -0x61c8864680b583eb
	z := uint64(mcSeed)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
"""
WORLD_OS = """
package os

import "syscall"
""" + WORLD_ENV + """
func mcPid(real int) int {
	if n, ok := mcNumber("MC_PID"); ok {
		return int(n)
	}
	return real
}
"""


def world(scratch, repo, goroot):
    d = os.path.join(scratch, "ov-world")
    os.makedirs(d, exist_ok=True)
    src = os.path.join(goroot, "src")
    rep = {}

    def put(target, text):
        p = os.path.join(d, "%d.go" % len(rep))
        with open(p, "w") as fh:
            fh.write(text)
        rep[os.path.join(src, target)] = p
    now = "\tsec, nsec, mono := runtimeNow()\n"
    head = "func Now() Time {\n" + now
    put("time/time.go", edit(os.path.join(src, "time/time.go"), [
        (head, head + "\tif mcShifted {\n\t\treturn Unix(sec+mcShift, int64(nsec))\n\t}\n")]))
    put("time/zz_mc.go", WORLD_TIME)
    for pkg in ("math/rand", "math/rand/v2"):
        text = open(os.path.join(src, pkg, "rand.go")).read()
        decl = "func runtime_rand() uint64\n"
        if text.count(decl) != 1 or text.count("runtime_rand()") < 2:
            raise SystemExit("instrument: %s: runtime_rand is not where it was" % pkg)
        a, b = text.split(decl)
        put(pkg + "/rand.go", a.replace("runtime_rand()", "mcRand()") + decl + b.replace("runtime_rand()", "mcRand()"))
        put(pkg + "/zz_mc.go", WORLD_RAND)
    put("os/exec.go", edit(os.path.join(src, "os/exec.go"), [
        ("func Getpid() int { return syscall.Getpid() }", "func Getpid() int { return mcPid(syscall.Getpid()) }"),
        ("func Getppid() int { return syscall.Getppid() }", "func Getppid() int { return mcPid(syscall.Getppid()) }")]))
    put("os/sys.go", edit(os.path.join(src, "os/sys.go"), [
        ("\treturn hostname()\n", "\tif s, ok := syscall.Getenv(\"MC_HOST\"); ok {\n\t\treturn s, nil\n\t}\n\treturn hostname()\n"),
        ("package os\n", "package os\n\nimport \"syscall\"\n")]))
    put("os/zz_mc.go", WORLD_OS)
    return rep


def prepare(kind, scratch, repo, run):
    """Returns the overlay's replacements and the extra flags of go build."""
    goroot = run(["go", "env", "GOROOT"], cwd=repo).stdout.strip()
    if kind == "maporder":
        return maporder(scratch, repo, goroot), ["-ldflags=-checklinkname=0"]
    if kind == "faults":
        return faults(scratch, repo, goroot), ["-ldflags=-checklinkname=0"]
    if kind == "world":
        return world(scratch, repo, goroot), []
    raise SystemExit("unknown kind " + kind)

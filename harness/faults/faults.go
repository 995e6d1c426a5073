// Package faults makes operations of the tools on files fail. The tools are built with tools/instrument.py's
// overlay of the system call wrappers: every operation on a file is a point where a fault may take place.
package faults

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"unsafe"
)

const size = 4194304

type buf [size / 8]uint64

// Fault is what happens to one operation: it ends in an error, or moves only so many bytes.
type Fault struct {
	At    int
	Errno syscall.Errno
	Most  int // if there is no error
}

func (f Fault) String() string {
	if f.Errno != 0 {
		return fmt.Sprintf("operation %d fails (%v)", f.At, f.Errno)
	}
	return fmt.Sprintf("operation %d moves at most %d bytes", f.At, f.Most)
}

// Plan is all that happens in a run.
type Plan struct {
	Faults    []Fault
	From      int // operations from this one on fail, if Sticky is an error
	Sticky    syscall.Errno
	MostRead  int // bytes per reading operation, if not 0
	MostWrite int
}

func (p Plan) String() string {
	var s []string
	for _, f := range p.Faults {
		s = append(s, f.String())
	}
	if p.Sticky != 0 {
		s = append(s, fmt.Sprintf("operations from %d on fail (%v)", p.From, p.Sticky))
	}
	if p.MostRead != 0 {
		s = append(s, fmt.Sprintf("at most %d bytes are read at once", p.MostRead))
	}
	if p.MostWrite != 0 {
		s = append(s, fmt.Sprintf("at most %d bytes are written at once", p.MostWrite))
	}
	if s == nil {
		return "nothing fails"
	}
	return strings.Join(s, ", ")
}

// Op is an operation that took place.
type Op struct {
	Call, FD int
	Failed   bool // or limited
	Path     string
}

var callNames = map[int]string{syscall.SYS_READ: "read", syscall.SYS_PREAD64: "pread", syscall.SYS_WRITE: "write", syscall.SYS_PWRITE64: "pwrite",
	syscall.SYS_OPENAT: "open", syscall.SYS_OPEN: "open", syscall.SYS_CREAT: "open", syscall.SYS_CLOSE: "close", syscall.SYS_MKDIRAT: "mkdir", syscall.SYS_MKDIR: "mkdir",
	syscall.SYS_UNLINKAT: "unlink", syscall.SYS_UNLINK: "unlink", syscall.SYS_RMDIR: "rmdir", syscall.SYS_GETDENTS64: "getdents", 326: "copy_file_range",
	syscall.SYS_SENDFILE: "sendfile", syscall.SYS_SPLICE: "splice", syscall.SYS_RENAME: "rename", syscall.SYS_RENAMEAT: "rename", 316: "rename",
	syscall.SYS_FTRUNCATE: "ftruncate", syscall.SYS_FSYNC: "fsync"}

// Name is what an operation does.
func (o Op) Name() string {
	if n := callNames[o.Call]; n != "" {
		return n
	}
	return fmt.Sprintf("call %d", o.Call)
}

func (o Op) String() string {
	if o.Path != "" {
		return o.Name() + " " + o.Path
	}
	return fmt.Sprintf("%s descriptor %d", o.Name(), o.FD)
}

// Mem is a plan and log shared with a process.
type Mem struct {
	path string
	b    *buf
	mem  []byte
}

// New makes shared memory in dir.
func New(dir, name string) (*Mem, error) {
	path := filepath.Join(dir, name)
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Chmod(0o666); err != nil {
		return nil, err
	}
	if err := f.Truncate(size); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Mem{path, (*buf)(unsafe.Pointer(&mem[0])), mem}, nil
}

// Close frees the memory.
func (m *Mem) Close() {
	_ = syscall.Munmap(m.mem)
	_ = os.Remove(m.path)
}

// Env is what the process needs.
func (m *Mem) Env() string { return "MC_FAULTS=" + m.path }

// Set prepares for a run.
func (m *Mem) Set(p Plan) {
	n := m.count()
	for i := 0; i < 1024+16*n; i++ {
		m.b[i] = 0
	}
	m.b[1] = uint64(len(p.Faults))
	if p.Sticky != 0 {
		m.b[2], m.b[3] = uint64(p.From)+1, uint64(p.Sticky)
	}
	m.b[5], m.b[6] = uint64(p.MostRead), uint64(p.MostWrite)
	for i, f := range p.Faults {
		m.b[16+2*i] = uint64(f.At)
		m.b[17+2*i] = uint64(f.Errno)
		if f.Errno == 0 {
			m.b[17+2*i] = 1<<32 | uint64(f.Most)
		}
	}
}

func (m *Mem) count() int {
	n := int(m.b[0])
	if n > 32000 {
		n = 32000
	}
	return n
}

// Ops lists what took place.
func (m *Mem) Ops() []Op {
	out := make([]Op, m.count())
	for i := range out {
		at := 1024 + 16*i
		w := m.b[at]
		o := Op{Call: int(w & 0xffff), FD: int(int16(w >> 16)), Failed: w>>48 != 0}
		p := m.mem[8*(at+1) : 8*(at+1)+120]
		if k := bytes.IndexByte(p, 0); k >= 0 {
			o.Path = string(p[:k])
		}
		out[i] = o
	}
	return out
}

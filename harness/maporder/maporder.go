// Package maporder explores the orders in which the Go runtime may iterate over hash maps. The runtime is built
// with tools/instrument.py's overlay: every iteration over a map of two entries or more is a choice point.
package maporder

import (
	"fmt"
	"os"
	"path/filepath"
	"sync/atomic"
	"syscall"
	"unsafe"

	"github.com/UoY-RoboStar/rtcg/internal/zzverif/mc"
)

// Buf is the plan and log shared with the runtime.
type Buf [8192]uint64

//go:linkname runtimeBuf internal/runtime/maps.mcBuf
var runtimeBuf *Buf

// Choice is one deviation: iteration number At goes in order Perm.
type Choice struct {
	At   int
	Perm []int
}

// Pack turns an order into the runtime's form.
func Pack(perm []int) uint64 {
	var p uint64
	for i := 0; i < 8; i++ {
		k := i
		if i < len(perm) {
			k = perm[i]
		}
		p |= uint64(k) << (3 * i)
	}
	return p
}

// Set writes a plan: mode is the default order (0 insertion order, 1 reverse, r+1 rotated by r).
func (b *Buf) Set(mode int, plan []Choice) {
	*b = Buf{}
	b[2] = uint64(mode)
	b[3] = uint64(mode) * 0x9e3779b9
	b[1] = uint64(len(plan))
	for i, c := range plan {
		b[16+2*i] = uint64(c.At)
		b[17+2*i] = Pack(c.Perm)
	}
}

// Log gives the sizes of the maps iterated over (0 for those too big to be permuted).
func (b *Buf) Log() []int {
	n := int(b[0])
	if n > 7000 {
		n = 7000
	}
	out := make([]int, n)
	for i := range out {
		if l := b[1024+i]; l>>32 == 0 {
			out[i] = int(l)
		}
	}
	return out
}

// InProcess runs f, on this goroutine and with no other active one, under a plan; it returns the log.
func InProcess(mode int, plan []Choice, f func()) []int {
	var b Buf
	b.Set(mode, plan)
	runtimeBuf = &b
	func() {
		defer func() { runtimeBuf = nil }()
		f()
	}()
	return b.Log()
}

// Works tells whether the order of maps is under control.
func Works() bool {
	m := map[int]bool{1: true, 2: true, 3: true}
	for _, perm := range [][]int{{0, 1, 2}, {2, 0, 1}, {1, 2, 0}} {
		var got []int
		log := InProcess(0, []Choice{{At: 0, Perm: perm}}, func() {
			for k := range m {
				got = append(got, k)
			}
		})
		if len(log) != 1 || len(got) != 3 {
			return false
		}
		for i := range got {
			if got[i] != perm[i]+1 {
				return false
			}
		}
	}
	return true
}

// Shared is a plan and log shared with a process.
type Shared struct {
	Path string
	Buf  *Buf
	mem  []byte
}

// NewShared makes a shared buffer in dir.
func NewShared(dir, name string) (*Shared, error) {
	path := filepath.Join(dir, name)
	if err := os.WriteFile(path, make([]byte, 65536), 0o600); err != nil {
		return nil, err
	}
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	mem, err := syscall.Mmap(int(f.Fd()), 0, 65536, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &Shared{Path: path, Buf: (*Buf)(unsafe.Pointer(&mem[0])), mem: mem}, nil
}

// Env is what the process needs.
func (s *Shared) Env() string { return "MC_MAPS=" + s.Path }

// Close frees the buffer.
func (s *Shared) Close() {
	_ = syscall.Munmap(s.mem)
	_ = os.Remove(s.Path)
}

// Perms lists the orders of n entries to try instead of the default one: all of them up to full entries, and
// otherwise the reverse, every rotation and every exchange of two entries.
func Perms(n, full int) [][]int {
	var out [][]int
	if n <= full {
		mc.Permutations(n, func(p []int) {
			for i, k := range p {
				if i != k {
					out = append(out, p)
					return
				}
			}
		})
		return out
	}
	rev := make([]int, n)
	for i := range rev {
		rev[i] = n - 1 - i
	}
	out = append(out, rev)
	for r := 1; r < n; r++ {
		p := make([]int, n)
		for i := range p {
			p[i] = (i + r) % n
		}
		out = append(out, p)
	}
	for a := 0; a < n; a++ {
		for b := a + 1; b < n; b++ {
			p := make([]int, n)
			for i := range p {
				p[i] = i
			}
			p[a], p[b] = b, a
			out = append(out, p)
		}
	}
	return out
}

// Explore runs run under every plan of at most deviations choices (the orders of Perms) beyond the default, depth
// first; run returns the log of its execution and whether to go on. It returns the number of executions.
func Explore(deviations, full int, run func(plan []Choice) (log []int, ok bool)) int {
	runs := 0
	var rec func(plan []Choice, from int) bool
	rec = func(plan []Choice, from int) bool {
		log, ok := run(plan)
		runs++
		if !ok || len(plan) == deviations {
			return ok
		}
		for at := from; at < len(log); at++ {
			if log[at] < 2 {
				continue
			}
			for _, p := range Perms(log[at], full) {
				if !rec(append(append([]Choice{}, plan...), Choice{at, p}), at+1) {
					return false
				}
			}
		}
		return true
	}
	rec(nil, 0)
	return runs
}

// Product runs run under every combination of all orders at every choice point (up to full entries each).
func Product(full int, run func(plan []Choice) (log []int, ok bool)) int {
	return Explore(1<<30, full, run)
}

// ExploreProc is Explore for processes: run is called on all cores, each with a buffer of its own that it has to hand
// to the process (the plan is already set).
func ExploreProc(r *mc.R, deviations, full int, modes []int, run func(sh *Shared, what string) bool) int64 {
	var runs atomic.Int64
	do := func(mode int, plan []Choice) ([]int, bool) {
		sh, err := NewShared(r.Work, fmt.Sprintf("maps-%d", serial.Add(1)))
		if err != nil {
			r.Broken("shared buffer: %v", err)
			return nil, false
		}
		defer sh.Close()
		sh.Buf.Set(mode, plan)
		runs.Add(1)
		ok := run(sh, fmt.Sprintf("default order %d, deviations %v", mode, plan))
		return sh.Buf.Log(), ok && !r.Expired() && !r.Full()
	}
	mc.Par(len(modes), func(i int) { do(modes[i], nil) })
	log, ok := do(0, nil)
	if !ok || deviations == 0 {
		return runs.Load()
	}
	var firsts []Choice
	for at, n := range log {
		if n >= 2 {
			for _, p := range Perms(n, full) {
				firsts = append(firsts, Choice{at, p})
			}
		}
	}
	mc.Par(len(firsts), func(i int) {
		var rec func(plan []Choice) bool
		rec = func(plan []Choice) bool {
			log, ok := do(0, plan)
			if !ok || len(plan) == deviations {
				return ok
			}
			for at := plan[len(plan)-1].At + 1; at < len(log); at++ {
				if log[at] >= 2 {
					for _, p := range Perms(log[at], full) {
						if !rec(append(append([]Choice{}, plan...), Choice{at, p})) {
							return false
						}
					}
				}
			}
			return true
		}
		if !r.Expired() && !r.Full() {
			rec([]Choice{firsts[i]})
		}
	})
	return runs.Load()
}

var serial atomic.Int64

// Package mc is the small explorer library shared by the checks: counters that become the evidence,
// a violation list, an internal deadline, and exhaustive enumeration helpers.
package mc

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Violation is one property violation: Sig identifies it (and nothing else) across runs.
type Violation struct {
	Sig    string `json:"sig"`
	Detail string `json:"detail"`
	Repro  any    `json:"repro,omitempty"`
}

// R is the report of one check run.
type R struct {
	PID      string
	Tier     string
	Bin      string // directory of the tools built from /repo
	Work     string // scratch directory
	Repo     string
	Opts     map[string]string
	deadline time.Time

	States, Transitions, Validated, Evaluations, Nontrivial atomic.Int64

	mu         sync.Mutex
	outcomes   map[string]int64
	samples    []string
	violations map[string]Violation
	notes      map[string]any
	distinct   map[uint64]struct{}
	cut        bool
	broken     string
}

const maxViolations = 25

// Thorough is true in the thorough tier.
func (r *R) Thorough() bool { return r.Tier == "thorough" }

// Pick returns quick or thorough according to the tier.
func Pick[T any](r *R, quick, thorough T) T {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Expired reports whether the internal deadline has passed; the run is then marked not exhaustive.
func (r *R) Expired() bool {
	if time.Now().After(r.deadline) {
		r.mu.Lock()
		r.cut = true
		r.mu.Unlock()
		return true
	}
	return false
}

// Violate records a violation.
func (r *R) Violate(sig, detail string, repro any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(sig) > 300 {
		h := fnv.New64a()
		h.Write([]byte(sig))
		sig = fmt.Sprintf("%s...#%016x", sig[:200], h.Sum64())
	}
	if _, ok := r.violations[sig]; ok || len(r.violations) >= maxViolations {
		return
	}
	if len(detail) > 4000 {
		detail = detail[:4000] + "..."
	}
	r.violations[sig] = Violation{Sig: sig, Detail: detail, Repro: repro}
}

// Full is true when so many violations were found that going on is pointless.
func (r *R) Full() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.violations) >= maxViolations
}

// Failed says whether the check is broken.
func (r *R) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.broken != ""
}

// Broken marks the run itself as failed (an error of the check, not a verdict).
func (r *R) Broken(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.broken == "" {
		r.broken = fmt.Sprintf(format, args...)
	}
}

// Outcome counts an observed outcome class, to show that the exploration is not vacuous.
func (r *R) Outcome(class string) {
	r.mu.Lock()
	r.outcomes[class]++
	r.mu.Unlock()
}

// OutcomeN counts n observations of an outcome class.
func (r *R) OutcomeN(class string, n int64) {
	r.mu.Lock()
	r.outcomes[class] += n
	r.mu.Unlock()
}

// Sample keeps a few of the cases actually run.
func (r *R) Sample(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.samples) < 24 {
		s := fmt.Sprintf(format, args...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		r.samples = append(r.samples, s)
	}
}

// Note records a named fact (a bound, a count) in the evidence.
func (r *R) Note(key string, v any) {
	r.mu.Lock()
	r.notes[key] = v
	r.mu.Unlock()
}

// Distinct counts key once as a distinct state; it returns whether it was new.
func (r *R) Distinct(key string) bool {
	h := fnv.New64a()
	h.Write([]byte(key))
	s := h.Sum64()
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.distinct[s]; ok {
		return false
	}
	r.distinct[s] = struct{}{}
	r.States.Add(1)
	return true
}

type result struct {
	PID         string           `json:"pid"`
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Validated   int64            `json:"validated"`
	Evaluations int64            `json:"evaluations"`
	Nontrivial  int64            `json:"nontrivial"`
	Outcomes    map[string]int64 `json:"outcomes"`
	Samples     []string         `json:"samples"`
	Notes       map[string]any   `json:"notes"`
	Exhaustive  bool             `json:"exhaustive"`
	Violations  []Violation      `json:"violations"`
	Broken      string           `json:"broken,omitempty"`
}

// Main runs the check f for property pid.
func Main(pid string, f func(r *R)) {
	r := &R{PID: pid, outcomes: map[string]int64{}, violations: map[string]Violation{}, notes: map[string]any{},
		distinct: map[uint64]struct{}{}, Opts: map[string]string{}}
	out := flag.String("out", "", "result file")
	flag.StringVar(&r.Tier, "tier", "quick", "")
	flag.StringVar(&r.Bin, "bin", "", "")
	flag.StringVar(&r.Work, "work", "", "")
	flag.StringVar(&r.Repo, "repo", "/repo", "")
	secs := flag.Float64("deadline", 300, "seconds")
	opts := flag.String("opts", "", "k=v,k=v")
	flag.Parse()
	for _, kv := range strings.Split(*opts, ",") {
		if k, v, ok := strings.Cut(kv, "="); ok {
			r.Opts[k] = v
		}
	}
	r.deadline = time.Now().Add(time.Duration(*secs * float64(time.Second)))
	debug.SetMemoryLimit(12 << 30)
	debug.SetTraceback("crash")
	go watchMemory()
	f(r)
	res := result{PID: pid, States: r.States.Load(), Transitions: r.Transitions.Load(), Validated: r.Validated.Load(),
		Evaluations: r.Evaluations.Load(), Nontrivial: r.Nontrivial.Load(),
		Outcomes: r.outcomes, Samples: r.samples, Notes: r.notes, Exhaustive: !r.cut, Broken: r.broken}
	for _, v := range r.violations {
		res.Violations = append(res.Violations, v)
	}
	sort.Slice(res.Violations, func(i, j int) bool {
		a, b := res.Violations[i], res.Violations[j]
		if len(a.Sig) != len(b.Sig) {
			return len(a.Sig) < len(b.Sig)
		}
		return a.Sig < b.Sig
	})
	bs, err := json.MarshalIndent(res, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if *out == "" {
		fmt.Println(string(bs))
	} else if err := os.WriteFile(*out, bs, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// watchMemory ends a run whose code under test allocates without bound, with the stacks of all goroutines:
// check.py reads from them whose code was running.
func watchMemory() {
	var m runtime.MemStats
	for {
		time.Sleep(500 * time.Millisecond)
		if runtime.ReadMemStats(&m); m.HeapAlloc > 18<<30 {
			panic("more than 18 GB of memory in use")
		}
	}
}

// Catch calls f and turns a panic of the code under test into a string.
func Catch(f func()) (panicked string) {
	defer func() {
		if p := recover(); p != nil {
			panicked = fmt.Sprint(p)
			if panicked == "" {
				panicked = "panic"
			}
		}
	}()
	f()
	return ""
}

// Par calls f(0..n-1) on all cores.
func Par(n int, f func(i int)) {
	workers := runtime.NumCPU()
	if workers > n {
		workers = n
	}
	var (
		next atomic.Int64
		wg   sync.WaitGroup
	)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

// Sequences calls f with every sequence over 0..k-1 of length exactly n (the slice is reused).
func Sequences(k, n int, f func(seq []int) bool) bool {
	seq := make([]int, n)
	for {
		if !f(seq) {
			return false
		}
		i := n - 1
		for i >= 0 {
			seq[i]++
			if seq[i] < k {
				break
			}
			seq[i] = 0
			i--
		}
		if i < 0 {
			return true
		}
	}
}

// Decode writes the n digits of x in base k into seq (most significant first).
func Decode(x, k int, seq []int) {
	for i := len(seq) - 1; i >= 0; i-- {
		seq[i] = x % k
		x /= k
	}
}

// Pow is integer power.
func Pow(k, n int) int {
	p := 1
	for i := 0; i < n; i++ {
		p *= k
	}
	return p
}

// Permutations calls f with every permutation of 0..n-1.
func Permutations(n int, f func(p []int)) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(append([]int{}, p...))
			return
		}
		for j := i; j < n; j++ {
			p[i], p[j] = p[j], p[i]
			rec(i + 1)
			p[i], p[j] = p[j], p[i]
		}
	}
	rec(0)
}

// Subsets calls f with every subset of 0..n-1, as a mask.
func Subsets(n int, f func(mask int)) {
	for m := 0; m < 1<<n; m++ {
		f(m)
	}
}

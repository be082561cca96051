// Package rt runs the cases of a check under observation.
//
// A check is a list of families of cases. A case is fully determined by
// (VERIF_SEED, check, family, index), so it can be replayed on its own. Cases run in a
// worker process; its parent turns a crash of the worker (fatal error, stack
// overflow), exhausted memory or a case that does not stop into a verdict.
package rt

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID   string
	Rule string // what makes a case non-trivial
	Run  func(r *Runner)
	// Assumptions are copied to the evidence.
	Assumptions []string
	// Serial checks run their cases on one goroutine (they start goroutines of their own).
	Serial bool
	// Unprivileged checks run as a user who owns nothing but the scratch directory: what they run
	// may be wrong about the files it writes, renames or removes.
	Unprivileged bool
}

// Violation of the property, found by a case.
type Violation struct {
	Family  string
	Index   int
	Message string
	Inputs  map[string]string
}

// Runner is the state of one run of a check in the worker.
type Runner struct {
	Check    *Check
	Tier     string
	Seed     int64
	Scratch  string // scratch directory of the run, removed by the parent
	BinDir   string // built commands of /repo
	RepoDir  string
	VerifDir string

	onlyFamily string
	onlyIndex  int

	mu         sync.Mutex
	evals      int64
	nontrivial map[uint64]struct{}
	counts     map[string]int64
	samples    []any
	sampleKind map[string]int
	violations []Violation
	vcount     int
	broken     []string
	known      []string
	slots      []*slot
	start      time.Time
}

// Thorough says if this is the thorough tier.
func (r *Runner) Thorough() bool { return r.Tier == "thorough" }

// N picks the number of cases by tier.
func (r *Runner) N(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Case is one case of a family.
type Case struct {
	R      *Runner
	Family string
	Index  int
	Rng    *rand.Rand
	inputs map[string]string
	slot   *slot
}

type stopCase struct{}

type slot struct {
	mem   []byte
	mu    sync.Mutex
	tid   int
	busy  bool
	cpu0  float64
	desc  string
	seq   int64
	noCPU bool
}

const slotSize = 1 << 12

func (s *slot) set(desc string) {
	s.mu.Lock()
	s.busy = desc != ""
	s.desc = desc
	s.seq++
	s.cpu0 = threadCPU(s.tid)
	s.mu.Unlock()
	if s.mem != nil {
		n := copy(s.mem[:slotSize-1], desc)
		s.mem[n] = 0
	}
}

func threadCPU(tid int) float64 {
	data, err := os.ReadFile(fmt.Sprintf("/proc/self/task/%d/stat", tid))
	if err != nil {
		return 0
	}
	return statCPU(string(data))
}

func statCPU(data string) float64 {
	i := strings.LastIndexByte(data, ')')
	if i < 0 {
		return 0
	}
	f := strings.Fields(data[i+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

func mix(parts ...any) int64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprint(h, p, "\x00")
	}
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return int64(x >> 1)
}

// Rng for a purpose, independent of order of execution.
func (r *Runner) RngFor(parts ...any) *rand.Rand {
	return rand.New(rand.NewSource(mix(append([]any{r.Seed}, parts...)...)))
}

// Parallel runs n cases of a family on all cores.
func (r *Runner) Parallel(family string, n int, fn func(c *Case)) {
	r.run(family, n, runtime.GOMAXPROCS(0), fn)
}

// Sequential runs n cases of a family one after another.
func (r *Runner) Sequential(family string, n int, fn func(c *Case)) {
	r.run(family, n, 1, fn)
}

func (r *Runner) run(family string, n, par int, fn func(c *Case)) {
	if r.onlyFamily != "" {
		if family == r.onlyFamily && r.onlyIndex < n {
			r.one(r.slotFor(0), family, r.onlyIndex, fn)
		}
		return
	}
	t0 := time.Now()
	defer func() { fmt.Fprintf(os.Stderr, "family %s: %d cases, %.1fs\n", family, n, time.Since(t0).Seconds()) }()
	var next int64 = -1
	var wg sync.WaitGroup
	if par > n {
		par = n
	}
	for w := 0; w < par; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			runtime.LockOSThread()
			s := r.slotFor(w)
			s.mu.Lock()
			s.tid = syscall.Gettid()
			s.mu.Unlock()
			for {
				i := int(atomic.AddInt64(&next, 1))
				if i >= n || r.tooMany() {
					return
				}
				r.one(s, family, i, fn)
			}
		}(w)
	}
	wg.Wait()
}

func (r *Runner) tooMany() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.vcount >= 20
}

func (r *Runner) slotFor(w int) *slot {
	r.mu.Lock()
	defer r.mu.Unlock()
	for len(r.slots) <= w {
		s := &slot{tid: syscall.Gettid()}
		name := filepath.Join(r.Scratch, fmt.Sprintf("slot%d", len(r.slots)))
		if f, err := os.OpenFile(name, os.O_RDWR|os.O_CREATE, 0600); err == nil {
			if f.Truncate(slotSize) == nil {
				s.mem, _ = syscall.Mmap(int(f.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			}
			f.Close()
		}
		r.slots = append(r.slots, s)
	}
	return r.slots[w]
}

func (r *Runner) one(s *slot, family string, index int, fn func(c *Case)) {
	c := &Case{R: r, Family: family, Index: index, slot: s,
		Rng:    rand.New(rand.NewSource(mix(r.Seed, r.Check.ID, family, index))),
		inputs: map[string]string{}}
	s.set(fmt.Sprintf("%s\t%d", family, index))
	defer s.set("")
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		if _, ok := p.(stopCase); ok {
			return
		}
		stack := string(debug.Stack())
		if panicInRepo(stack) {
			c.record(fmt.Sprintf("panic: %v\n%s", p, trim(stack, 4000)))
		} else {
			// Oracles handle everything that the code returns while the property holds, so what it returned here
			// has a shape that it can not have, like a missing type.
			c.record(fmt.Sprintf("result of the code can not be interpreted: %v\n%s", p, trim(stack, 4000)))
		}
	}()
	fn(c)
}

// panicInRepo says if there is a frame of the code under test above the harness on the panicking stack.
func panicInRepo(stack string) bool {
	i := strings.LastIndex(stack, "panic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "github.com/chemikadze/asn1go") {
			return true
		}
		if strings.HasPrefix(l, "verif/") {
			return false
		}
	}
	return false
}

func trim(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Input records an input of the case for the replay file.
func (c *Case) Input(name, text string) {
	c.inputs[name] = trim(text, 200000)
}

// Check the condition, report a violation if it does not hold.
func (c *Case) Check(ok bool, format string, args ...any) {
	if !ok {
		c.Violation(format, args...)
	}
}

// Violation records a violation and ends the case.
func (c *Case) Violation(format string, args ...any) {
	c.record(fmt.Sprintf(format, args...))
	panic(stopCase{})
}

func (c *Case) record(msg string) {
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	c.R.vcount++
	if len(c.R.violations) < 20 {
		c.R.violations = append(c.R.violations, Violation{c.Family, c.Index, trim(msg, 20000), c.inputs})
	}
}

// Broken records a failure of the machinery itself and ends the case.
func (c *Case) Broken(format string, args ...any) {
	c.R.mu.Lock()
	c.R.broken = append(c.R.broken, fmt.Sprintf("%s %d: ", c.Family, c.Index)+fmt.Sprintf(format, args...))
	c.R.mu.Unlock()
	panic(stopCase{})
}

// Eval counts evaluated executions.
func (c *Case) Eval(n int) { atomic.AddInt64(&c.R.evals, int64(n)) }

// Nontrivial counts the case if its fingerprint is new.
func (c *Case) Nontrivial(fingerprint string) {
	h := fnv.New64a()
	h.Write([]byte(fingerprint))
	k := h.Sum64()
	c.R.mu.Lock()
	c.R.nontrivial[k] = struct{}{}
	c.R.mu.Unlock()
}

// Count an observation.
func (c *Case) Count(name string, n int) {
	c.R.mu.Lock()
	c.R.counts[name] += int64(n)
	c.R.mu.Unlock()
}

// Sample keeps an example case for the evidence, up to two of every kind.
func (c *Case) Sample(kind, text string) {
	c.R.mu.Lock()
	defer c.R.mu.Unlock()
	if c.R.sampleKind[kind] >= 2 || len(c.R.samples) > 24 {
		return
	}
	c.R.sampleKind[kind]++
	c.R.samples = append(c.R.samples, map[string]any{"kind": kind, "family": c.Family, "index": c.Index, "text": trim(text, 600)})
}

// Known reports a listed finding that still fails.
func (r *Runner) Known(id string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.known = append(r.known, id)
}

// Result of a worker.
type Result struct {
	Evals      int64
	Distinct   int
	Counts     map[string]int64
	Samples    []any
	Violations []Violation
	Broken     []string
	Known      []string
	Done       bool
}

// Work runs the check in the worker process and writes the result.
func Work(chk *Check, tier string, seed int64, scratch, bin, repo, verif, only string) {
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(800)
	r := &Runner{Check: chk, Tier: tier, Seed: seed, Scratch: scratch, BinDir: bin, RepoDir: repo, VerifDir: verif,
		nontrivial: map[uint64]struct{}{}, counts: map[string]int64{}, sampleKind: map[string]int{}, start: time.Now()}
	if only != "" {
		i := strings.LastIndex(only, ":")
		r.onlyFamily = only[:i]
		r.onlyIndex, _ = strconv.Atoi(only[i+1:])
	}
	go r.watch()
	chk.Run(r)
	r.finish()
}

func (r *Runner) finish() {
	r.mu.Lock()
	defer r.mu.Unlock()
	sort.Slice(r.violations, func(i, j int) bool {
		a, b := r.violations[i], r.violations[j]
		if a.Family != b.Family {
			return a.Family < b.Family
		}
		return a.Index < b.Index
	})
	res := Result{r.evals, len(r.nontrivial), r.counts, r.samples, r.violations, r.broken, r.known, true}
	data, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	tmp := filepath.Join(r.Scratch, "result.tmp")
	if err := os.WriteFile(tmp, data, 0600); err == nil {
		err = os.Rename(tmp, filepath.Join(r.Scratch, "result.json"))
	}
	os.Exit(0)
}

// Limits for one case. Cases normally take milliseconds and a few megabytes; the limit on time is
// CPU time of the thread that runs the case, so that it does not depend on load.
const (
	caseCPULimit = 60.0
	rssLimit     = 6 << 30
	idleLimit    = 240 // seconds without any CPU time used by the process while a case runs
)

func (r *Runner) watch() {
	debug.SetMemoryLimit(2 << 30) // garbage is collected before it counts
	idle := 0
	var lastCPU float64
	for {
		time.Sleep(time.Second)
		r.mu.Lock()
		slots := append([]*slot{}, r.slots...)
		r.mu.Unlock()
		busy := []string{}
		seqs := int64(0)
		for _, s := range slots {
			s.mu.Lock()
			if s.busy {
				busy = append(busy, s.desc)
				if !s.noCPU && threadCPU(s.tid)-s.cpu0 > caseCPULimit {
					r.stuck(s.desc, fmt.Sprintf("case did not stop after %v seconds of CPU time", caseCPULimit))
				}
			}
			seqs += s.seq
			s.mu.Unlock()
		}
		if len(busy) > 0 && rss() > rssLimit {
			// the parent finds out which of the running cases it is
			os.WriteFile(filepath.Join(r.Scratch, "memory"), []byte(strings.Join(busy, "\n")), 0600)
			os.Exit(7)
		}
		data, _ := os.ReadFile("/proc/self/stat")
		cpu := statCPU(string(data)) + float64(childCPU()) + float64(seqs)
		if cpu-lastCPU < 0.2 && len(busy) > 0 {
			idle++
			if idle > idleLimit {
				r.stuck(busy[0], "case is blocked, process is idle")
			}
		} else {
			idle = 0
			lastCPU = cpu
		}
	}
}

func childCPU() float64 {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_CHILDREN, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

func rss() int64 {
	data, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(data))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func (r *Runner) stuck(desc, msg string) {
	i := strings.IndexByte(desc, '\t')
	idx, _ := strconv.Atoi(desc[i+1:])
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	r.mu.Lock()
	r.violations = append([]Violation{{desc[:i], idx, msg + "\n" + trim(string(buf), 20000), nil}}, r.violations...)
	r.mu.Unlock()
	r.finish()
}

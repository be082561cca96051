package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// yieldReader delivers few bytes at a time and lets others run in between.
type yieldReader struct {
	s string
	n int
}

func (r *yieldReader) Read(p []byte) (int, error) {
	runtime.Gosched()
	n := r.n
	if n > len(p) {
		n = len(p)
	}
	k, err := strings.NewReader(r.s).Read(p[:n])
	r.s = r.s[k:]
	return k, err
}

// yieldWriter lets others run in between.
type yieldWriter struct {
	bytes.Buffer
	n int
}

func (w *yieldWriter) Write(p []byte) (int, error) {
	w.n++
	if w.n%7 == 0 {
		time.Sleep(time.Microsecond)
	} else {
		runtime.Gosched()
	}
	return w.Buffer.Write(p)
}

func init() {
	register(&rt.Check{ID: "C18", Unprivileged: true, Serial: true,
		Rule: "goroutines that start together, parse shared texts and generate from shared modules with shared generators (readers and writers that yield to others), built with the race detector; every result is compared with the sequential one; orders in which operations start and end are recorded, non-trivial ones have overlapping operations and are distinct",
		Assumptions: []string{
			"the race detector observes the executed paths; schedules are those of the Go scheduler under injected yields"},
		Run: func(r *rt.Runner) {
			params := []a.GenParams{{}, {Package: "p", IntegerRepr: a.IntegerReprBigInt}, {Package: "q", IntegerRepr: "int32"}}
			r.Sequential("stress", r.N(900, 12000), func(c *rt.Case) {
				type text struct {
					src string
					mod *a.ModuleDefinition
					err string
				}
				var texts []text
				for i := 0; i < 3; i++ {
					var m *a.ModuleDefinition
					if c.Rng.Intn(3) == 0 {
						g := gen.NewFull(c.Rng)
						g.Types = []string{"A", "B", "C"}
						m = g.Module()
					} else {
						g := gen.NewCode(c.Rng)
						g.Budget = 60
						m = g.Module()
					}
					src := pretty(m)
					if c.Rng.Intn(5) == 0 {
						src = strings.Replace(src, "}", "", 1)
					}
					c.Input(fmt.Sprintf("text %d", i), src)
					t := text{src: src}
					var err error
					if t.mod, err = parse(c, src); err != nil {
						t.err = err.Error()
					}
					texts = append(texts, t)
				}
				var gens []a.CodeGenerator
				for _, p := range params {
					gens = append(gens, a.NewCodeGenerator(p))
				}
				type result struct{ out, err string }
				want := map[[2]int]result{}
				// first use of a generator or module may be concurrent, so expectations come from others
				for i, t := range texts {
					if t.mod == nil {
						continue
					}
					for k, p := range params {
						out, err := generate(c, gen.Clone(t.mod), p)
						w := result{out: out}
						if err != nil {
							w.err = errText(err)
						}
						want[[2]int{i, k}] = w
					}
				}
				workers := 4 + c.Rng.Intn(13)
				ops := 2 + c.Rng.Intn(4)
				var clock, running, overlaps int64
				events := make([][]int64, workers)
				problems := make([]string, workers)
				seeds := make([]int, workers*ops*3)
				for i := range seeds {
					seeds[i] = c.Rng.Intn(1 << 20)
				}
				start := make(chan struct{})
				var wg sync.WaitGroup
				for w := 0; w < workers; w++ {
					wg.Add(1)
					go func(w int) {
						defer wg.Done()
						defer func() {
							if p := recover(); p != nil {
								problems[w] = fmt.Sprintf("panic: %v", p)
							}
						}()
						<-start
						for o := 0; o < ops; o++ {
							s := seeds[(w*ops+o)*3:]
							i, k := s[0]%len(texts), s[1]%len(gens)
							t := texts[i]
							events[w] = append(events[w], atomic.AddInt64(&clock, 1))
							if atomic.AddInt64(&running, 1) > 1 {
								atomic.AddInt64(&overlaps, 1)
							}
							if t.mod == nil || s[2]%2 == 0 {
								m, err := a.ParseStream(&yieldReader{s: t.src, n: 1 + s[2]%200})
								e := ""
								if err != nil {
									e = err.Error()
								}
								if e != t.err || !reflect.DeepEqual(m, t.mod) {
									problems[w] = fmt.Sprintf("parsing text %d gives %q instead of %q, or another module", i, e, t.err)
								}
							} else {
								g := gens[k]
								if s[2]%5 == 0 {
									g = a.NewCodeGenerator(params[k])
								}
								var out yieldWriter
								err := g.Generate(*t.mod, &out)
								got := result{out: out.String()}
								if err != nil {
									got.err = errText(err)
								}
								if got != want[[2]int{i, k}] {
									problems[w] = fmt.Sprintf("generating module %d with %+v gives\n%s%s\ninstead of\n%s%s", i, params[k], got.out, got.err, want[[2]int{i, k}].out, want[[2]int{i, k}].err)
								}
							}
							atomic.AddInt64(&running, -1)
							events[w] = append(events[w], atomic.AddInt64(&clock, 1))
						}
					}(w)
				}
				close(start)
				wg.Wait()
				c.Eval(workers * ops)
				for _, p := range problems {
					if p != "" {
						c.Violation("concurrent use: %s", p)
					}
				}
				c.Count("operations", workers*ops)
				c.Count("operations started while others were running", int(overlaps))
				if overlaps > 0 {
					c.Nontrivial(fmt.Sprint(events))
				}
			})
			// calls that can only end if others make progress: inputs that come when all have started to read,
			// or from the result of another call, and outputs that are taken when all have started to write
			r.Sequential("dependent", r.N(60, 600), func(c *rt.Case) {
				n := []int{2, 3, 9, 17, 40, 70, 150}[c.Rng.Intn(7)]
				g := gen.NewCode(c.Rng)
				g.Budget = 40
				m := g.Module()
				src := pretty(m)
				c.Input("module", src)
				mod := mustParse(c, src)
				p := params[c.Rng.Intn(2)]
				whole := mustGenerate(c, mod, p)
				cg := a.NewCodeGenerator(p)
				kind := []string{"parsers that read together", "generators that write together", "a parser fed by another one", "parsers and generators together"}[c.Index%4]
				b := &barrier{n: n, open: make(chan struct{})}
				problems := make([]string, n)
				var wg sync.WaitGroup
				for i := 0; i < n; i++ {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						parses := kind == "parsers that read together" || kind == "parsers and generators together" && i%2 == 0
						switch {
						case kind == "a parser fed by another one":
							// generates and parses when it is asked for the text
							got, err := a.ParseStream(&lateReader{text: func() string {
								b.wait()
								var out bytes.Buffer
								if err := cg.Generate(*mod, &out); err != nil || out.String() != whole {
									problems[i] = fmt.Sprintf("generating while another call reads gives %v", err)
								}
								if x, err := a.ParseString(src); err != nil || !reflect.DeepEqual(x, mod) {
									problems[i] = fmt.Sprintf("parsing while another call reads gives %v", err)
								}
								return src
							}})
							if err != nil || !reflect.DeepEqual(got, mod) {
								problems[i] = fmt.Sprintf("parsing text that comes late gives %v", err)
							}
						case parses:
							got, err := a.ParseStream(&lateReader{text: func() string { b.wait(); return src }})
							if err != nil || !reflect.DeepEqual(got, mod) {
								problems[i] = fmt.Sprintf("parsing text that comes late gives %v", err)
							}
						default:
							w := &lateWriter{b: b}
							if err := cg.Generate(*mod, w); err != nil || w.String() != whole {
								problems[i] = fmt.Sprintf("generating to a writer that waits gives %v", err)
							}
						}
					}(i)
				}
				wg.Wait()
				c.Eval(n)
				if b.late {
					c.Violation("%s: %d calls can not run at the same time", kind, n)
				}
				for _, p := range problems {
					if p != "" {
						c.Violation("%s: %s", kind, p)
					}
				}
				c.Count(kind, n)
				c.Nontrivial(fmt.Sprint(kind, n, src))
			})
		}})
}

// barrier lets calls go on when n of them have arrived.
type barrier struct {
	sync.Mutex
	n, arrived int
	late       bool
	open       chan struct{}
}

func (b *barrier) wait() {
	b.Lock()
	if b.arrived++; b.arrived == b.n {
		close(b.open)
	}
	b.Unlock()
	select {
	case <-b.open:
	case <-time.After(60 * time.Second):
		b.Lock()
		b.late = b.late || b.arrived < b.n
		if b.late { // all others may go on
			select {
			case <-b.open:
			default:
				close(b.open)
				b.n = -1
			}
		}
		b.Unlock()
	}
}

// lateReader makes its text when it is asked for it.
type lateReader struct {
	text func() string
	r    *strings.Reader
}

func (r *lateReader) Read(p []byte) (int, error) {
	if r.r == nil {
		r.r = strings.NewReader(r.text())
	}
	return r.r.Read(p)
}

// lateWriter waits before its first write.
type lateWriter struct {
	bytes.Buffer
	b    *barrier
	once sync.Once
}

func (w *lateWriter) Write(p []byte) (int, error) {
	w.once.Do(w.b.wait)
	return w.Buffer.Write(p)
}

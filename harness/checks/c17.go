package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"reflect"
	"regexp"
	"strings"
	"time"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// request to generate code in another process.
type request struct {
	Text, Package, Repr string
}

type response struct {
	Out, Err string
}

// errText is the text of an error without the addresses that errors about unsupported types show.
func errText(err error) string { return addressRe.ReplaceAllString(err.Error(), "0x") }

var addressRe = regexp.MustCompile(`0x[0-9a-f]+`)

// Serve answers requests that are read from standard input, in the order given by the argument.
func Serve(order string) {
	var reqs []request
	if err := json.NewDecoder(os.Stdin).Decode(&reqs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := make([]response, len(reqs))
	var perm []int
	switch order {
	case "reverse":
		for i := range reqs {
			perm = append(perm, len(reqs)-1-i)
		}
	default:
		perm = rand.New(rand.NewSource(mixString(order))).Perm(len(reqs))
	}
	for _, i := range perm {
		q := reqs[i]
		m, err := a.ParseString(q.Text)
		if err != nil {
			out[i].Err = "parse: " + err.Error()
			continue
		}
		var b bytes.Buffer
		if err := a.NewCodeGenerator(a.GenParams{Package: q.Package, IntegerRepr: a.IntegerRepr(q.Repr)}).Generate(*m, &b); err != nil {
			out[i].Err = errText(err)
		}
		out[i].Out = b.String()
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

func mixString(s string) int64 {
	var h int64 = 1469598103934665603
	for i := 0; i < len(s); i++ {
		h = (h ^ int64(s[i])) * 1099511628211
	}
	return h
}

// failAfter accepts some bytes and fails.
type failAfter struct {
	n int
	b bytes.Buffer
}

func (w *failAfter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		k := w.n
		w.b.Write(p[:k])
		w.n = 0
		return k, io.ErrClosedPipe
	}
	w.n -= len(p)
	return w.b.Write(p)
}

// scramble overwrites everything that can be reached through slices and pointers.
func scramble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			scramble(v.Elem())
		}
	case reflect.Ptr:
		if !v.IsNil() {
			scramble(v.Elem())
			v.Elem().Set(reflect.Zero(v.Elem().Type()))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scramble(v.Index(i))
			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
		// room behind the slice may be in use by others as well
		w := v.Slice3(0, v.Cap(), v.Cap())
		for i := v.Len(); i < v.Cap(); i++ {
			w.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scramble(v.Field(i))
			}
		}
	}
}

// subject is a module under observation: what was written, and what it was when it was parsed.
type subject struct {
	src      string
	mod      *a.ModuleDefinition
	snapshot *a.ModuleDefinition
	results  map[string]response
}

func init() {
	paramSets := []a.GenParams{
		{}, {IntegerRepr: a.IntegerReprBigInt}, {Package: "p", IntegerRepr: a.IntegerReprInt64}, {Package: "q", IntegerRepr: a.IntegerReprBigInt}, {Package: "p", IntegerRepr: "int32"},
	}
	subjects := func(c *rt.Case, n int) []*subject {
		var out []*subject
		for i := 0; i < n; i++ {
			var m *a.ModuleDefinition
			switch c.Rng.Intn(4) {
			case 0: // most of these are errors
				g := gen.NewFull(c.Rng)
				g.Types = []string{"A", "B", "C"}
				m = g.Module()
			case 1:
				g := gen.NewCode(c.Rng)
				m = g.Module()
				m = breakRefs(c, m, append(typeNames(m), "Missing"))
			default:
				g := gen.NewCode(c.Rng)
				g.DoubleTags = true
				m = g.Module()
			}
			s := &subject{src: pretty(m), results: map[string]response{}}
			c.Input(fmt.Sprintf("module %d", i), s.src)
			s.mod = mustParse(c, s.src)
			s.snapshot = gen.Clone(s.mod)
			out = append(out, s)
		}
		return out
	}
	register(&rt.Check{ID: "C17", Unprivileged: true,
		Rule: "random histories of parse, lookup, successful, failing and interrupted generations over several modules and generators; every output is compared with the first one for that module and those parameters, modules with deep snapshots; the same requests in other processes in another order; non-trivial if a history repeats a generation after a different one",
		Run: func(r *rt.Runner) {
			r.Parallel("histories", r.N(6000, 120000), func(c *rt.Case) {
				subs := subjects(c, 2+c.Rng.Intn(3))
				var gens []a.CodeGenerator
				var of []int
				for i, p := range paramSets {
					for k := 0; k < 1+c.Rng.Intn(2); k++ {
						gens = append(gens, a.NewCodeGenerator(p))
						of = append(of, i)
					}
				}
				log := ""
				repeats := 0
				unchanged := func(what string) {
					for i, s := range subs {
						if d := gen.Diff(s.snapshot, s.mod); d != "" {
							c.Input("history", log)
							c.Violation("%s changes module %d: %s", what, i, d)
						}
					}
				}
				for step := 20 + c.Rng.Intn(40); step > 0; step-- {
					i := c.Rng.Intn(len(subs))
					s := subs[i]
					switch op := c.Rng.Intn(12); {
					case op == 0:
						log += fmt.Sprintf("parse %d\n", i)
						m := mustParse(c, s.src)
						if d := gen.Diff(s.snapshot, m); d != "" {
							c.Input("history", log)
							c.Violation("parsing again gives another module: %s", d)
						}
						if c.Rng.Intn(2) == 0 { // go on with the new one
							s.mod = m
						} else {
							scramble(reflect.ValueOf(m))
							log += "  and overwrite it\n"
							unchanged("overwriting a module parsed from the same text")
						}
						c.Count("parsed again", 1)
					case op == 1:
						log += "parse something else\n"
						a.ParseString("X DEFINITIONS ::= BEGIN A ::= SEQUENCE { a INTEGER DEFAULT 5, b [3] OBJECT IDENTIFIER } a OBJECT IDENTIFIER ::= { a b(1) 2 } END")
						a.ParseString("X DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= ")
					case op == 6 && len(s.mod.ModuleBody.AssignmentList) > 0:
						l := s.mod.ModuleBody.AssignmentList
						j := c.Rng.Intn(len(l))
						switch x := l[j].(type) {
						case a.TypeAssignment:
							if _, ok := x.Type.(a.RealType); ok {
								x.Type = a.SequenceType{Components: a.ComponentTypeList{a.NamedComponentType{NamedType: a.NamedType{Identifier: "edited", Type: a.OctetStringType{}}}}}
							} else {
								x.Type = a.RealType{}
							}
							l[j] = x
						case a.ValueAssignment:
							x.Type, x.Value = a.IntegerType{}, a.Number(c.Rng.Intn(1000000))
							l[j] = x
						}
						if c.Rng.Intn(2) == 0 {
							s.mod.ModuleIdentifier.Reference += "-x"
						}
						s.src = pretty(s.mod)
						s.snapshot = gen.Clone(s.mod)
						s.results = map[string]response{}
						fresh := mustParse(c, s.src)
						for i, p := range paramSets { // what a module that was never touched gives
							out, err := generate(c, fresh, p)
							res := response{Out: out}
							if err != nil {
								res.Err = errText(err)
							}
							s.results[fmt.Sprint(i)] = res
						}
						log += fmt.Sprintf("assignment %d of module %d edited\n", j, i)
						c.Count("edited modules", 1)
					case op == 2:
						for _, x := range s.mod.ModuleBody.AssignmentList {
							n := x.Reference().Name()
							s.mod.ModuleBody.AssignmentList.Get(n)
							if t := s.mod.ModuleBody.AssignmentList.GetType(n); t != nil {
								t.Type, t.TypeReference = nil, ""
							}
							if v := s.mod.ModuleBody.AssignmentList.GetValue(n); v != nil {
								v.Type, v.Value = nil, nil
							}
						}
						log += fmt.Sprintf("lookups in %d\n", i)
						c.Count("lookups", 1)
					default:
						k := c.Rng.Intn(len(gens))
						g := gens[k]
						if op == 3 {
							g = a.NewCodeGenerator(paramSets[of[k]])
						}
						arg := *s.mod
						if op == 4 {
							arg = gen.Clone(arg)
						}
						key := fmt.Sprint(of[k])
						if op == 5 {
							w := &failAfter{n: c.Rng.Intn(400)}
							_, err := guard(c, "Generate", func() (int, error) { return 0, g.Generate(arg, w) })
							log += fmt.Sprintf("generate %d with generator %d into failing writer: %v\n", i, k, err != nil)
							c.Count("interrupted generations", 1)
							break
						}
						out, err := generateWith(c, g, &arg)
						res := response{Out: out}
						if err != nil {
							res.Err = errText(err)
							c.Count("failed generations", 1)
						} else {
							c.Count("successful generations", 1)
						}
						log += fmt.Sprintf("generate %d with generator %d (%+v): %v\n", i, k, paramSets[of[k]], err != nil)
						if first, ok := s.results[key]; !ok {
							s.results[key] = res
						} else {
							repeats++
							if first != res {
								c.Input("history", log)
								c.Violation("generation of module %d with %+v differs from the first one:\n%s%s\n!=\n%s%s", i, paramSets[of[k]], res.Out, res.Err, first.Out, first.Err)
							}
						}
					}
					unchanged("last step")
				}
				c.Count("repeated generations", repeats)
				if repeats > 0 {
					c.Nontrivial(log + subs[0].src)
					c.Sample("history", log)
				}
			})
			// each case is one other process
			r.Parallel("processes", r.N(16, 160), func(c *rt.Case) {
				var reqs []request
				for _, s := range subjects(c, r.N(120, 400)) {
					for _, p := range paramSets {
						if c.Rng.Intn(2) == 0 {
							reqs = append(reqs, request{s.src, p.Package, string(p.IntegerRepr)})
						}
					}
				}
				in, _ := json.Marshal(reqs)
				self, _ := os.Executable()
				order := []string{"reverse", "a", "b", "c"}[c.Index%4]
				cmd := exec.Command(self, "serve", order, "-")
				// surroundings that have no say in what is generated
				switch c.Index % 4 {
				case 0:
					cmd.Env = []string{}
					cmd.Dir = "/"
				case 1:
					cmd.Env = append(os.Environ(), "TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent", "USER=somebody", "GOMAXPROCS=1")
					cmd.Dir = c.R.Scratch
				case 2:
					cmd.Env = append(os.Environ(), "TZ=America/New_York", "LANG=C", "LC_ALL=C", "USER=", "PWD=/tmp", "GOPATH=/nonexistent", "GOPACKAGE=other", "GOFILE=other.go", "GOLINE=7", "DEBUG=1", "VERBOSE=1", "NO_COLOR=1", "SOURCE_DATE_EPOCH=1")
				}
				cmd.Stdin = bytes.NewReader(in)
				cmd.Stderr = os.Stderr
				data, err := cmd.Output()
				if err != nil {
					c.Broken("process: %v", err)
				}
				var theirs []response
				if err := json.Unmarshal(data, &theirs); err != nil || len(theirs) != len(reqs) {
					c.Broken("process: %v", err)
				}
				for i, q := range reqs {
					m := mustParse(c, q.Text)
					out, err := generate(c, m, a.GenParams{Package: q.Package, IntegerRepr: a.IntegerRepr(q.Repr)})
					mine := response{Out: out}
					if err != nil {
						mine.Err = errText(err)
					}
					if mine != theirs[i] {
						c.Input("module", q.Text)
						c.Violation("another process generates:\n%s%s\n!=\n%s%s", theirs[i].Out, theirs[i].Err, mine.Out, mine.Err)
					}
					c.Count("compared with another process", 1)
				}
				notOfToday(c)
				c.Nontrivial(string(in))
			})
		}})
}

// notOfToday looks for the time and the machine in what is generated from a module that has nothing of them.
func notOfToday(c *rt.Case) {
	out := mustGenerate(c, mustParse(c, "Q DEFINITIONS ::= BEGIN Z ::= SEQUENCE { q BOOLEAN } END"), a.GenParams{Package: "q"})
	var marks []string
	for _, t := range []time.Time{time.Now(), time.Now().UTC()} {
		for _, f := range []string{"2006-01-02", "2006/01/02", "02.01.2006", "02 Jan 2006", "Jan 2, 2006", "January 2, 2006", "2 January 2006", "Jan _2", "20060102", "01/02/2006", "Jan 2006", "January 2006"} {
			marks = append(marks, t.Format(f))
		}
	}
	marks = append(marks, fmt.Sprint(time.Now().Unix())[:6])
	if h, err := os.Hostname(); err == nil && len(h) > 8 {
		marks = append(marks, h)
	}
	if d, err := os.Getwd(); err == nil && len(d) > 3 {
		marks = append(marks, d)
	}
	for _, m := range marks {
		if strings.Contains(out, m) {
			c.Violation("generated code has %q in it, which is of this day or machine:\n%s", m, out)
		}
	}
}

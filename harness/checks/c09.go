package checks

import (
	"bytes"
	"errors"
	"fmt"
	"go/parser"
	"go/token"
	"io"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// allOrNothing generates code and checks that there is either a complete file, or an error and nothing written.
func allOrNothing(c *rt.Case, m *a.ModuleDefinition, params a.GenParams) (string, error) {
	g := a.NewCodeGenerator(params)
	if g == nil {
		c.Violation("no generator for %+v", params)
	}
	w := &countingWriter{}
	_, err := guard(c, "Generate", func() (int, error) { return 0, g.Generate(*m, w) })
	c.Eval(1)
	if c.Rng.Intn(4) == 0 {
		fileOutput(c, g, m, w.buf.String(), err)
	}
	if err != nil {
		if w.calls > 0 && w.buf.Len() > 0 {
			c.Violation("Generate returns an error after it has written %d bytes: %v", w.buf.Len(), err)
		}
		if err.Error() == "" {
			c.Violation("error without text")
		}
		c.Count("errors", 1)
		return "", err
	}
	src := w.buf.String()
	f, perr := parser.ParseFile(token.NewFileSet(), "generated.go", src, parser.SkipObjectResolution)
	if perr != nil {
		c.Input("generated", src)
		c.Violation("Generate returns no error, but what it has written is no Go file: %v\n%s", perr, src)
	}
	want := params.Package
	if want == "" {
		want = gen.GoName(m.ModuleIdentifier.Reference)
	}
	if f.Name.Name != want {
		c.Violation("package is named %s instead of %s", f.Name.Name, want)
	}
	c.Count("files", 1)
	return src, nil
}

// fileOutput generates again into something that can do more than a writer has to, with content already there.
func fileOutput(c *rt.Case, g a.CodeGenerator, m *a.ModuleDefinition, want string, wantErr error) {
	f := &memFile{data: []byte("already here\n"), closed: -1}
	f.pos = int64(len(f.data))
	before := string(f.data)
	_, err := guard(c, "Generate", func() (int, error) { return 0, g.Generate(*m, f) })
	c.Eval(1)
	if (err == nil) != (wantErr == nil) {
		c.Violation("Generate into a file gives error %v, and %v into a buffer", err, wantErr)
	}
	if got := string(f.data); got != before+want {
		c.Violation("Generate into a file that holds %q (error %v) leaves %q\ninstead of %q after it", before, err, got, want)
	}
	if f.closed >= 0 {
		c.Violation("Generate closes its output")
	}
	if len(f.data) > len(before) {
		c.Count("files appended to", 1)
	} else {
		c.Count("files left alone", 1)
	}
}

// memFile has the methods of a file.
type memFile struct {
	data   []byte
	pos    int64
	closed int
}

func (f *memFile) Write(p []byte) (int, error) {
	n, err := f.WriteAt(p, f.pos)
	f.pos += int64(n)
	return n, err
}

func (f *memFile) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *memFile) WriteByte(b byte) error {
	_, err := f.Write([]byte{b})
	return err
}

func (f *memFile) WriteAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	for int64(len(f.data)) < off+int64(len(p)) {
		f.data = append(f.data, 0)
	}
	return copy(f.data[off:], p), nil
}

func (f *memFile) ReadFrom(r io.Reader) (int64, error) {
	data, err := io.ReadAll(r)
	n, _ := f.Write(data)
	return int64(n), err
}

func (f *memFile) Read(p []byte) (int, error) {
	if f.pos >= int64(len(f.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *memFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.data))
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	f.pos = off
	return off, nil
}

func (f *memFile) Truncate(n int64) error {
	for int64(len(f.data)) < n {
		f.data = append(f.data, 0)
	}
	f.data = f.data[:n]
	return nil
}

func (f *memFile) Sync() error  { return nil }
func (f *memFile) Flush() error { return nil }
func (f *memFile) Reset()       { f.data, f.pos = nil, 0 }

func (f *memFile) Close() error {
	f.closed = len(f.data)
	return nil
}

type countingWriter struct {
	buf   bytes.Buffer
	calls int
}

func (w *countingWriter) Write(p []byte) (int, error) {
	w.calls++
	return w.buf.Write(p)
}

func anyParams(c *rt.Case) a.GenParams {
	p := a.GenParams{IntegerRepr: []a.IntegerRepr{"", a.IntegerReprInt64, a.IntegerReprBigInt, a.IntegerReprBigInt, "int32"}[c.Rng.Intn(5)]}
	if c.Rng.Intn(3) == 0 {
		p.Package = packageName(c)
	}
	return p
}

// breakRefs replaces some references by others, that are missing or make a cycle.
func breakRefs(c *rt.Case, m *a.ModuleDefinition, names []string) *a.ModuleDefinition {
	x := gen.Clone(m)
	total := 0
	for _, as := range x.ModuleBody.AssignmentList {
		if t, ok := as.(a.TypeAssignment); ok {
			walk(t.Type, func(t a.Type) { total++ })
		}
	}
	if total == 0 {
		return x
	}
	targets := map[int]bool{}
	for k := 1 + c.Rng.Intn(3); k > 0; k-- {
		targets[c.Rng.Intn(total)] = true
	}
	n := 0
	for i, as := range x.ModuleBody.AssignmentList {
		if t, ok := as.(a.TypeAssignment); ok {
			t.Type = rewrite(t.Type, func(t a.Type) a.Type {
				n++
				if targets[n-1] {
					return a.TypeReference(names[c.Rng.Intn(len(names))])
				}
				return t
			})
			x.ModuleBody.AssignmentList[i] = t
		}
	}
	return x
}

func typeNames(m *a.ModuleDefinition) []string {
	var out []string
	for _, x := range m.ModuleBody.AssignmentList {
		if t, ok := x.(a.TypeAssignment); ok {
			out = append(out, string(t.TypeReference))
		}
	}
	return out
}

func init() {
	register(&rt.Check{ID: "C09", Unprivileged: true,
		Rule: "modules of the whole notation over small pools of names (so that references are circular, dangling or to the wrong kind), supported modules with broken references, and systematic cycles; non-trivial if distinct by module, files and errors are counted",
		Run: func(r *rt.Runner) {
			r.Parallel("any module", r.N(60000, 1500000), func(c *rt.Case) {
				g := gen.NewFull(c.Rng)
				if c.Rng.Intn(4) != 0 {
					g.Types = []string{"A", "B", "C", "D-E", "F"}[:1+c.Rng.Intn(5)]
					g.Values = []string{"a", "b", "c-d"}
				}
				g.MaxDepth = 1 + c.Rng.Intn(4)
				m := g.Module()
				src := plain(m)
				c.Input("module", src)
				m = mustParse(c, src)
				for k := 0; k < 2; k++ {
					allOrNothing(c, m, anyParams(c))
				}
				if m.TagDefault == a.TAGS_AUTOMATIC { // most of it would not be looked at
					m.TagDefault = a.TAGS_IMPLICIT
					c.Input("module", plain(m))
					allOrNothing(c, m, anyParams(c))
				}
				c.Nontrivial(src)
			})
			r.Parallel("broken references", r.N(40000, 800000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.DoubleTags = true
				g.MaxTypes = 1 + c.Rng.Intn(8)
				m := g.Module()
				names := append(typeNames(m), "Missing", "GeneralizedTime")
				x := breakRefs(c, m, names)
				src := pretty(x)
				c.Input("module", src)
				x2 := mustParse(c, src)
				for _, repr := range reprs {
					allOrNothing(c, x2, a.GenParams{IntegerRepr: repr})
				}
				c.Nontrivial(src)
				c.Sample("broken references", src)
			})
			// cycles of every length and form
			forms := []string{
				"%s", "[1] %s", "%s (SIZE(1..2))", "SEQUENCE OF %s", "SET OF %s", "CHOICE {a %s}", "CHOICE {a [0] %s}", "CHOICE {a BOOLEAN, b %s}", "CHOICE {a BOOLEAN, ..., b %s}",
				"SEQUENCE {a %s}", "SET {a %s OPTIONAL}", "SEQUENCE {a [1] %s DEFAULT 5}", "SEQUENCE {a SEQUENCE OF %s}", "SEQUENCE {a BOOLEAN, ..., b %s}", "SEQUENCE {COMPONENTS OF %s}",
				"CHOICE {a CHOICE {b %s}}", "SEQUENCE {a CHOICE {b %s}}", "[1] CHOICE {a %s (5)}", "SEQUENCE OF CHOICE {a %s}",
			}
			r.Parallel("cycles", r.N(6000, 100000), func(c *rt.Case) {
				n := 1 + c.Rng.Intn(4)
				if c.Index%20 == 0 {
					n = 1 + c.Rng.Intn(60)
				}
				if c.Index < len(forms) {
					n = 1
				}
				src := "M DEFINITIONS " + []string{"", "IMPLICIT TAGS ", "EXPLICIT TAGS "}[c.Rng.Intn(3)] + "::= BEGIN\n"
				for i := 0; i < n; i++ {
					f := forms[c.Rng.Intn(len(forms))]
					if c.Index < len(forms) {
						f = forms[c.Index]
					}
					to := fmt.Sprintf("T%d", (i+1)%n)
					if c.Rng.Intn(6) == 0 {
						to = fmt.Sprintf("T%d", c.Rng.Intn(n+1)) // Tn is missing
					}
					src += fmt.Sprintf("T%d ::= "+f+"\n", i, to)
				}
				for k := c.Rng.Intn(3); k > 0; k-- {
					src += fmt.Sprintf("v%d T%d ::= %s\n", k, c.Rng.Intn(n+1), []string{"5", "TRUE", "1.5", "{1 2}", "x", "MINUS-INFINITY"}[c.Rng.Intn(6)])
				}
				src += "END"
				c.Input("module", src)
				m := mustParse(c, src)
				for _, repr := range reprs {
					allOrNothing(c, m, a.GenParams{IntegerRepr: repr, Package: "p"})
				}
				c.Nontrivial(src)
				c.Sample("cycle", src)
			})
			// deep nesting, long chains and long lists
			type big struct {
				name string
				n    int
				make func(n int) string
			}
			rep2 := func(n int, f string) string {
				s := ""
				for i := 0; i < n; i++ {
					s += fmt.Sprintf(f, i, i+1)
				}
				return s
			}
			bigs := []big{
				{"nested SEQUENCE", 800, func(n int) string { return "T ::= " + rep("SEQUENCE {a ", n) + "BOOLEAN" + rep("}", n) }},
				{"nested OF", 5000, func(n int) string { return "T ::= " + rep("SEQUENCE OF ", n) + "BOOLEAN" }},
				{"nested SET OF", 5000, func(n int) string { return "T ::= SEQUENCE { a " + rep("SET OF ", n) + "BOOLEAN }" }},
				{"nested tags", 5000, func(n int) string { return "T ::= SEQUENCE { a " + rep("[1] ", n) + "BOOLEAN }" }},
				{"nested CHOICE", 2000, func(n int) string { return "T ::= " + rep("CHOICE {a ", n) + "BOOLEAN" + rep("}", n) }},
				{"nested constraints", 2000, func(n int) string { return "T ::= SEQUENCE { a INTEGER" + rep(" (1)", n) + "}" }},
				{"chain", 250, func(n int) string {
					return rep2(n, "T%d ::= T%d ") + fmt.Sprintf("T%d ::= SET {} S ::= SEQUENCE {a T0} C ::= CHOICE {a T0, b T1}", n)
				}},
				{"chain of tags", 250, func(n int) string {
					return rep2(n, "T%d ::= [1] T%d (1) ") + fmt.Sprintf("T%d ::= UTF8String S ::= SEQUENCE {a T0} C ::= CHOICE {a T0, b T1}", n)
				}},
				{"circular chain", 250, func(n int) string {
					return rep2(n, "T%d ::= T%d ") + fmt.Sprintf("T%d ::= T0 S ::= SEQUENCE {a T0}", n)
				}},
				{"circular choices", 250, func(n int) string {
					return rep2(n, "T%d ::= CHOICE {a T%d} ") + fmt.Sprintf("T%d ::= T0 S ::= SEQUENCE {a T0}", n)
				}},
				{"choices of each other", 12, func(n int) string {
					s := ""
					for i := 0; i < n; i++ {
						s += fmt.Sprintf("T%d ::= CHOICE {", i)
						for j := 0; j < n; j++ {
							s += fmt.Sprintf("a%d T%d, ", j, (i+j)%n)
						}
						s += "z NULL} "
					}
					return s + "S ::= SEQUENCE {a T0}"
				}},
				{"components", 3000, func(n int) string {
					return "S ::= SEQUENCE {" + rep2(n, "a%d [%d] INTEGER OPTIONAL, ") + "z NULL} T ::= SEQUENCE {" + rep2(n, "a%d [%d] INTEGER OPTIONAL, ") + "z REAL}"
				}},
				{"alternatives", 3000, func(n int) string { return "S ::= CHOICE {" + rep2(n, "a%d SEQUENCE {a%d BOOLEAN}, ") + "z NULL}" }},
				{"assignments", 3000, func(n int) string { return rep2(n, "T%d ::= INTEGER {a%d (5)} ") + rep2(n, "v%d INTEGER ::= %d ") }},
			}
			r.Parallel("big", len(bigs)*2, func(c *rt.Case) {
				b := bigs[c.Index/2]
				n := b.n
				if c.Index%2 == 1 {
					n /= 3
				}
				src := "M DEFINITIONS ::= BEGIN " + b.make(n) + " END"
				c.Input("form", fmt.Sprintf("%s %d", b.name, n))
				m := mustParse(c, src)
				for _, repr := range reprs {
					allOrNothing(c, m, a.GenParams{IntegerRepr: repr, Package: "p"})
				}
				c.Nontrivial(fmt.Sprint(b.name, n))
			})
		}})
}

package checks

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"testing/iotest"
	"time"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// total runs all entry points on the text and checks that every one returns exactly one result.
func total(c *rt.Case, src string) (*a.ModuleDefinition, error) {
	m, err := parse(c, src)
	m2, err2 := guard(c, "ParseStream", func() (*a.ModuleDefinition, error) { return a.ParseStream(iotest.HalfReader(strings.NewReader(src))) })
	if (m2 == nil) == (err2 == nil) {
		c.Violation("ParseStream returned module %v and error %v", m2 != nil, err2)
	}
	c.Eval(1)
	if c.Index%16 == 0 {
		name := filepath.Join(c.R.Scratch, fmt.Sprintf("%s-%d.asn1", strings.ReplaceAll(c.Family, " ", "-"), c.Index))
		if err := os.WriteFile(name, []byte(src), 0600); err != nil {
			c.Broken("%v", err)
		}
		defer os.Remove(name)
		m3, err3 := guard(c, "ParseFile", func() (*a.ModuleDefinition, error) { return a.ParseFile(name) })
		if (m3 == nil) == (err3 == nil) {
			c.Violation("ParseFile returned module %v and error %v", m3 != nil, err3)
		}
		c.Eval(1)
	}
	if err == nil {
		c.Count("accepted", 1)
	} else {
		c.Count("rejected", 1)
	}
	return m, err
}

// nests are recursive constructs: what opens them, what is in the middle and what closes them.
var nests = [][3]string{
	{"A DEFINITIONS ::= BEGIN A ::= ", "SEQUENCE { a |NULL| }", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= ", "SET { a |NULL| }", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= ", "CHOICE { a |NULL| }", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= ", "SEQUENCE OF |NULL|", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= ", "SET SIZE(1) OF a |NULL|", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= ", "[1] |NULL|", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= ", "[1] IMPLICIT |NULL|", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= INTEGER ", "(SIZE |(1)|)", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= INTEGER (", "(|1|)", ") END"},
	{"A DEFINITIONS ::= BEGIN A ::= INTEGER (", "INTEGER (|1|)", ") END"},
	{"A DEFINITIONS ::= BEGIN A ::= INTEGER ", "|(1)|(1)", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= SEQUENCE { ", "COMPONENTS OF SEQUENCE { |a NULL| }", " } END"},
	{"A DEFINITIONS ::= BEGIN ", "/* ||*/ ", " A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN ", "/* || ", " A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN A ::= ", "SEQUENCE { a || ", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= INTEGER ", "(|| ", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= ", "SEQUENCE { ||", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= SEQUENCE { a NULL, ..., ", "[[ a NULL || ", " } END"},
}

// lists are constructs of any length.
var lists = [][4]string{
	{"A DEFINITIONS ::= BEGIN ", "A ::= NULL", "\n", " END"},
	{"A DEFINITIONS ::= BEGIN ", "a INTEGER ::= 5", " ", " END"},
	{"A DEFINITIONS ::= BEGIN A ::= SEQUENCE { ", "a NULL", ",", " } END"},
	{"A DEFINITIONS ::= BEGIN A ::= SEQUENCE { ", "a INTEGER DEFAULT 5", ",", " } END"},
	{"A DEFINITIONS ::= BEGIN A ::= SEQUENCE { a NULL, ..., ", "a NULL", ",", " } END"},
	{"A DEFINITIONS ::= BEGIN A ::= SEQUENCE { a NULL, ..., ", "[[ a NULL, b NULL ]]", ",", " } END"},
	{"A DEFINITIONS ::= BEGIN A ::= SET { ", "a NULL OPTIONAL", ",", " } END"},
	{"A DEFINITIONS ::= BEGIN A ::= CHOICE { ", "a NULL", ",", " } END"},
	{"A DEFINITIONS ::= BEGIN A ::= CHOICE { a NULL, ..., ", "a NULL", ",", " } END"},
	{"A DEFINITIONS ::= BEGIN A ::= ENUMERATED { ", "a", ",", " } END"},
	{"A DEFINITIONS ::= BEGIN A ::= ENUMERATED { ", "a(5)", ",", " } END"},
	{"A DEFINITIONS ::= BEGIN A ::= INTEGER { ", "a(5)", ",", " } END"},
	{"A DEFINITIONS ::= BEGIN A ::= BIT STRING { ", "a(5)", ",", " } END"},
	{"A DEFINITIONS ::= BEGIN A ::= INTEGER ( ", "1", " | ", " ) END"},
	{"A DEFINITIONS ::= BEGIN A ::= INTEGER ( ", "1", " ^ ", " ) END"},
	{"A DEFINITIONS ::= BEGIN a OBJECT IDENTIFIER ::= { ", "1", " ", " } END"},
	{"A DEFINITIONS ::= BEGIN a OBJECT IDENTIFIER ::= { ", "a b(5) c", " ", " } END"},
	{"A { ", "iso 5 a(4)", " ", " } DEFINITIONS ::= BEGIN A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN EXPORTS ", "A", ",", "; A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN IMPORTS ", "A", ",", " FROM X; A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN IMPORTS ", "A FROM X", " ", "; A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN A ::= SEQUENCE (WITH COMPONENTS { ", "a PRESENT", ",", " }) OF NULL END"},
}

// longs are single items of any length.
var longs = [][3]string{
	{"", "A", " DEFINITIONS ::= BEGIN A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN A ::= SEQUENCE { ", "a", " NULL } END"},
	{"A DEFINITIONS ::= BEGIN A ::= SEQUENCE { ", "a-", " NULL } END"},
	{"A DEFINITIONS ::= BEGIN A ::= SEQUENCE { a", "é", " NULL } END"},
	{"A DEFINITIONS ::= BEGIN a INTEGER ::= ", "9", " END"},
	{"A DEFINITIONS ::= BEGIN a INTEGER ::= ", "0", "7 END"},
	{"A DEFINITIONS ::= BEGIN a REAL ::= 0.", "0", "7 END"},
	{"A DEFINITIONS ::= BEGIN a REAL ::= 0.", "3", " END"},
	{"A DEFINITIONS ::= BEGIN a REAL ::= 1.5E", "0", "7 END"},
	{"A DEFINITIONS ::= BEGIN -- ", "x", "\nA ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN -- ", "- ", "\nA ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN /* ", "*", "/A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN /* ", "/ ", "*/A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN /* ", "/*", "A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN ", " ", "A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN ", "\r", "A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN ", "--\n", "A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN ", "----", "A ::= NULL END"},
	{"A DEFINITIONS ::= BEGIN A ::= NULL END ", "\x00", ""},
	{"A DEFINITIONS ::= BEGIN A ::= NULL END ", "\n", ""},
	{"A DEFINITIONS ::= BEGIN A ::= NULL END", "D", ""},
	{"", "-", ""}, {"", ":", ""}, {"", ".", ""}, {"", "[", ""}, {"", "]", ""}, {"", "\xe4", ""}, {"", "\xf0\x9f", ""}, {"", "/", ""},
}

func nest(f [3]string, depth int) string {
	p := strings.SplitN(f[1], "|", 3)
	return f[0] + rep(p[0], depth) + p[1] + rep(p[2], depth) + f[2]
}

func init() {
	register(&rt.Check{ID: "C01", Unprivileged: true,
		Rule: "text is random bytes, random lexical items, a module of the whole notation changed in bytes or items, truncated at any offset, nested or repeated to a large size, or crosses buffer boundaries; non-trivial if it is not empty, distinct by text",
		Run: func(r *rt.Runner) {
			r.Parallel("any", r.N(300000, 6000000), func(c *rt.Case) {
				src, kind := anyText(c)
				c.Input("text", src)
				c.Count("text: "+kind, 1)
				total(c, src)
				c.Sample(kind, src)
				if src != "" {
					c.Nontrivial(src)
				}
			})
			r.Parallel("truncated", r.N(600, 12000), func(c *rt.Case) {
				src := text(c, small(c), c.Rng.Intn(5))
				if len(src) > 1500 {
					src = src[:1500]
				}
				for k := 0; k <= len(src); k++ {
					c.Input("text", src[:k])
					parse(c, src[:k])
				}
				c.Count("truncations", len(src)+1)
				c.Nontrivial(src)
			})
			r.Parallel("boundary", r.N(400, 4000), func(c *rt.Case) {
				src, _ := anyText(c)
				if len(src) > 400 {
					src = src[:400]
				}
				pad := []string{" ", "\n", "\r\n"}[c.Rng.Intn(3)]
				for k := 0; k <= len(src)+4; k++ {
					s := rep(pad, (4096-k)/len(pad)) + src
					c.Input("text", s)
					parse(c, s)
				}
				c.Count("boundary offsets", len(src)+5)
				c.Nontrivial(src)
			})
			depths := []int{3, 20, 200, 2000, 20000}
			if r.Thorough() {
				depths = append(depths, 60000)
			}
			r.Parallel("nested", len(nests)*len(depths), func(c *rt.Case) {
				f, d := nests[c.Index%len(nests)], depths[c.Index/len(nests)]
				src := nest(f, d)
				c.Input("text", src)
				m, err := total(c, src)
				c.Sample(fmt.Sprintf("nested %d", d), src)
				if m != nil && err == nil {
					c.Count("nested accepted", 1)
				}
				c.Nontrivial(fmt.Sprint(f, d))
			})
			counts := []int{100, 3000, 20000, 120000}
			r.Parallel("lists", len(lists)*len(counts), func(c *rt.Case) {
				f, n := lists[c.Index%len(lists)], counts[c.Index/len(lists)]
				src := f[0] + rep(f[1]+f[2], n-1) + f[1] + f[3]
				c.Input("text", src)
				total(c, src)
				c.Nontrivial(fmt.Sprint(f, n))
			})
			sizes := []int{10, 4096, 200000, 4000000}
			if r.Thorough() {
				sizes = append(sizes, 16000000)
			}
			depth := r.N(12000000, 24000000)
			r.Parallel("nested comments", 6, func(c *rt.Case) {
				n := depth >> uint(c.Index)
				src := "A DEFINITIONS ::= BEGIN " + rep("/*", n) + rep("*/", n) + " END"
				switch c.Index % 3 {
				case 1:
					src = "A DEFINITIONS ::= BEGIN " + rep("/*\n-- ", n) + rep(" */", n) + " END"
				case 2: // not closed
					src = src[:len(src)-8]
				}
				c.Input("form", fmt.Sprintf("%d nested comments, form %d", n, c.Index))
				m, err := total(c, src)
				if c.Index%3 != 2 && m != nil && err == nil {
					c.Count("nested comments accepted", 1)
				}
				c.Nontrivial(fmt.Sprint("nested comments", c.Index))
			})
			r.Parallel("long", len(longs)*len(sizes), func(c *rt.Case) {
				f, n := longs[c.Index%len(longs)], sizes[c.Index/len(longs)]
				src := f[0] + rep(f[1], n) + f[2]
				c.Input("text", src)
				total(c, src)
				c.Nontrivial(fmt.Sprint(f, n))
			})
			// what is skipped between items must not be kept on the stack
			seps := []string{" ", "\n", "\r\n", "\t \f", "/**/", "/* */\n", "--\n", "-- x --", "--x\r"}
			r.Parallel("long separators", 2*len(seps), func(c *rt.Case) {
				n := r.N(16000000, 40000000)
				s := seps[c.Index%len(seps)]
				sep := rep(s, n/((len(s)+1)/2))
				src := "A DEFINITIONS ::= BEGIN A ::= NULL " + sep + "END"
				if c.Index >= len(seps) {
					src = sep + "A DEFINITIONS ::= BEGIN A ::= NULL END"
				}
				c.Input("form", fmt.Sprintf("%d bytes of %q between items", len(sep), s))
				if m, err := total(c, src); m == nil || err != nil {
					c.Violation("module with a long separator is not parsed: %v", err)
				}
				c.Nontrivial(fmt.Sprint("separators", c.Index))
			})
			// results and whatever parsing needed must not stay in memory
			r.Sequential("kept memory", r.N(6, 20), func(c *rt.Case) {
				heap := func() int64 {
					debug.FreeOSMemory()
					runtime.GC()
					var s runtime.MemStats
					runtime.ReadMemStats(&s)
					return int64(s.HeapAlloc)
				}
				kind := []string{"modules", "rejected texts", "failing readers", "files", "comments", "names"}[c.Index%6]
				f := gen.NewFull(c.Rng)
				f.Types = []string{"A", "B", "C"}
				base := pretty(f.Module())
				n := r.N(1500, 6000)
				round := func(i int) {
					src := base[:strings.LastIndex(base, "END")]
					if kind == "comments" {
						src += rep(fmt.Sprintf("-- comment %d --", i), 4000)
					} else {
						src += rep(fmt.Sprintf("Zz%d-%d ::= SEQUENCE { field-%d INTEGER (0..%d) DEFAULT %d, other OCTET STRING }\n", c.Index, i, i, i, i), 300)
					}
					src += "END"
					switch kind {
					case "rejected texts":
						src += " )"
						a.ParseString(src)
					case "failing readers":
						a.ParseStream(io.MultiReader(strings.NewReader(src[:len(src)-10]), iotest.ErrReader(errors.New("failing"))))
					case "files":
						name := filepath.Join(c.R.Scratch, fmt.Sprintf("kept-%d", i))
						if err := os.WriteFile(name, []byte(src), 0600); err != nil {
							c.Broken("%v", err)
						}
						a.ParseFile(name)
						os.Remove(name)
					case "names":
						a.ParseStream(strings.NewReader(strings.ReplaceAll(src, "field", fmt.Sprintf("field%d", i))))
					default:
						a.ParseString(src)
					}
					c.Eval(1)
				}
				for i := 0; i < 20; i++ { // what is made once
					round(i)
				}
				before, goroutines := heap(), runtime.NumGoroutine()
				for i := 0; i < n; i++ {
					round(20 + i)
				}
				after := heap()
				c.Count("parses followed by a look at memory", n)
				c.Input("kind", kind)
				// each text has some 20 kB and its tree several times of that
				if kept := after - before; kept > int64(n)*8192 {
					c.Violation("%d bytes stay in use after %d parses of %s", kept, n, kind)
				}
				for t := 0; runtime.NumGoroutine() > goroutines+10; t++ {
					if t == 200 {
						c.Violation("%d goroutines are left after %d parses of %s", runtime.NumGoroutine()-goroutines, n, kind)
					}
					time.Sleep(10 * time.Millisecond)
				}
				c.Nontrivial(fmt.Sprint("kept", c.Index))
			})
			ex := exampleTexts(r)
			r.Parallel("examples", len(ex)*r.N(400, 8000), func(c *rt.Case) {
				src := ex[c.Index%len(ex)]
				for n := 1 + c.Rng.Intn(4); n > 0; n-- {
					src = gen.MutateText(c.Rng, src)
				}
				c.Input("text", src)
				total(c, src)
				c.Nontrivial(src)
			})
		}})
}

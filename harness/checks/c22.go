package checks

import (
	"math/big"
	"sort"
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

func init() {
	register(&rt.Check{ID: "C22", Unprivileged: true,
		Rule: "random supported modules with INTEGER at all positions, generated for both representations and by default; declarations, fields, tags, values and imports as seen by go/types are compared with each other and with the model; non-trivial if there is an INTEGER",
		Run: func(r *rt.Runner) {
			r.Parallel("pairs", r.N(40000, 600000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.DoubleTags = true
				g.IntTypes = c.Rng.Intn(3) != 0
				m := codeModule(c, g)
				src1 := mustGenerate(c, m, a.GenParams{Package: "p", IntegerRepr: a.IntegerReprInt64})
				src2 := mustGenerate(c, m, a.GenParams{Package: "p", IntegerRepr: a.IntegerReprBigInt})
				if def := mustGenerate(c, m, a.GenParams{Package: "p"}); def != src1 {
					c.Violation("int64 is not the default:\n%s\n!=\n%s", def, src1)
				}
				p1, p2 := compile(c, src1), compile(c, src2)
				if len(p1.Decls) != len(p2.Decls) {
					c.Violation("%d declarations for int64, %d for big.Int", len(p1.Decls), len(p2.Decls))
				}
				ints := 0
				for i, d1 := range p1.Decls {
					d2 := p2.Decls[i]
					n := strings.Count(d1.Type, tInt64)
					ints += n
					want := d1
					want.Type = strings.ReplaceAll(d1.Type, tInt64, tBigInt)
					if d1.Type == tInt64 && d1.Kind == "var" && !strings.HasPrefix(d1.Expr, "=") {
						x, ok := new(big.Int).SetString(d1.Expr, 10)
						if !ok {
							c.Violation("%s has no integer value: %s", d1.Name, d1.Expr)
						}
						want.Expr = "math/big.NewInt(" + x.String() + ")"
						c.Count("integer values", 1)
					}
					if want != d2 {
						c.Violation("representation changes more than INTEGER:\n%+v\n!=\n%+v", d1, d2)
					}
					if strings.Contains(d2.Type, tInt64) {
						c.Violation("INTEGER is int64 for big.Int: %+v", d2)
					}
				}
				// all of the module, so that an INTEGER is not represented by another type for both
				for i, p := range []*goPackage{p1, p2} {
					md := newModel(m, reprs[i])
					want := md.decls(m)
					for j := range want {
						switch {
						case want[j].Kind == "var" && want[j].Type == tBigInt && !strings.HasPrefix(want[j].Expr, "="):
							want[j].Expr = "math/big.NewInt(" + want[j].Expr + ")"
						}
					}
					if len(want) != len(p.Decls) {
						c.Violation("declarations are %s instead of %s", declNames(p.Decls), declNames(want))
					}
					for j, d := range p.Decls {
						w := want[j]
						if w.Name != d.Name || w.Kind != d.Kind || w.Type != d.Type || isInt(w.Type) && w.Expr != d.Expr {
							c.Violation("%s:\n%+v\n!=\n%+v", reprs[i], d, w)
						}
					}
				}
				// imports
				imports2 := append([]string{}, p1.Imports...)
				if ints > 0 {
					imports2 = append(imports2, "math/big")
				}
				for _, s := range p1.Imports {
					if s == "math/big" {
						c.Violation("math/big is imported for int64")
					}
				}
				sort.Strings(imports2)
				if x, y := strings.Join(imports2, " "), strings.Join(p2.Imports, " "); x != y {
					c.Violation("imports for big.Int are %s instead of %s", y, x)
				}
				c.Count("INTEGER types", ints)
				if ints > 0 {
					c.Nontrivial(plain(m))
					c.Sample("module", pretty(m))
				} else {
					c.Count("modules without INTEGER", 1)
				}
			})
			r.Parallel("other representations", r.N(6000, 80000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.IntTypes = c.Rng.Intn(2) == 0
				m := codeModule(c, g)
				repr := a.IntegerRepr([]string{"int32", "int", "uint64", "bigint", "INT64", "big.int", "int64 ", " int64", "big", "*big.Int", "Big.Int", "big.Int,int64", "0", "\x00"}[c.Rng.Intn(14)])
				src1 := mustGenerate(c, m, a.GenParams{Package: "p"})
				p1 := compile(c, src1)
				needed := false
				for _, d := range p1.Decls {
					needed = needed || strings.Contains(d.Type, tInt64)
				}
				out, err := allOrNothing(c, m, a.GenParams{Package: "p", IntegerRepr: repr})
				switch {
				case needed && err == nil:
					c.Violation("representation %q is accepted:\n%s", repr, out)
				case needed:
					c.Count("errors for unknown representation", 1)
				case err == nil && out != src1:
					c.Violation("representation %q changes code without INTEGER:\n%s\n!=\n%s", repr, out, src1)
				}
			})
		}})
}

func isInt(t string) bool { return t == tInt64 || t == tBigInt }

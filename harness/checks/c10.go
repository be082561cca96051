package checks

import (
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

var recursive = []struct{ id, src string }{
	{"recursive-sequence", "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a A OPTIONAL } END"},
	{"recursive-sequence-of", "M DEFINITIONS ::= BEGIN A ::= SEQUENCE OF A END"},
}

func init() {
	register(&rt.Check{ID: "C10", Unprivileged: true,
		Rule: "random supported modules, generated with both integer representations and type-checked as packages of their own; non-trivial if the module has at least 3 assignments",
		Run: func(r *rt.Runner) {
			// Recorded defects, that are known to fail. Any other way to fail is a violation.
			r.Sequential("recursive", len(recursive), func(c *rt.Case) {
				k := recursive[c.Index]
				for _, repr := range reprs {
					c.Input("module", k.src)
					src := mustGenerate(c, mustParse(c, k.src), a.GenParams{IntegerRepr: repr})
					if _, err := typeCheck(c, src); err != nil {
						if !strings.Contains(err.Error(), "invalid recursive type") {
							c.Violation("generated code does not compile: %v\n%s", err, src)
						}
						c.Count("known finding "+k.id, 1)
						if repr == a.IntegerReprInt64 {
							r.Known(k.id)
						}
					}
				}
			})
			r.Parallel("modules", r.N(60000, 1000000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.DoubleTags = true
				m := codeModule(c, g)
				kindsOf(c, m)
				for _, repr := range reprs {
					params := a.GenParams{IntegerRepr: repr}
					if c.Rng.Intn(2) == 0 {
						params.Package = packageName(c)
					}
					src := mustGenerate(c, m, params)
					p := compile(c, src)
					c.Count("declarations type-checked", len(p.Decls))
					if params.Package != "" && p.Name != params.Package {
						c.Violation("package is named %s instead of %s", p.Name, params.Package)
					}
				}
				if len(m.ModuleBody.AssignmentList) >= 3 {
					c.Nontrivial(plain(m))
					c.Sample("module", pretty(m))
				}
			})
		}})
}

var packageNames = []string{"p", "main", "asn1", "time", "big", "math", "x509", "my_package", "Type", "string", "int64"}

func packageName(c *rt.Case) string { return packageNames[c.Rng.Intn(len(packageNames))] }

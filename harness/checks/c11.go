package checks

import (
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// sameDecls compares generated declarations with the expected ones, in order.
func sameDecls(c *rt.Case, what string, want, got []decl) {
	for i := 0; i < len(want) || i < len(got); i++ {
		switch {
		case i >= len(got):
			c.Violation("%s: no declaration of %s %s\ndeclared: %s", what, want[i].Kind, want[i].Name, declNames(got))
		case i >= len(want):
			c.Violation("%s: unexpected declaration of %s %s", what, got[i].Kind, got[i].Name)
		case want[i].Name != got[i].Name || want[i].Kind != got[i].Kind:
			c.Violation("%s: declaration %d is %s %s instead of %s %s\ndeclared: %s\nexpected: %s", what, i, got[i].Kind, got[i].Name, want[i].Kind, want[i].Name,
				declNames(got), declNames(want))
		case want[i].Type != got[i].Type:
			c.Violation("%s: %s %s is\n%s\ninstead of\n%s", what, want[i].Kind, want[i].Name, got[i].Type, want[i].Type)
		}
	}
}

func onlyTypes(ds []decl) []decl {
	var out []decl
	for _, d := range ds {
		if d.Kind == "type" {
			out = append(out, d)
		}
	}
	return out
}

func noTags(ds []decl) []decl {
	out := append([]decl{}, ds...)
	for i := range out {
		// tags are the only text in back quotes
		parts := strings.Split(out[i].Type, " `")
		for k := 1; k < len(parts); k++ {
			parts[k] = parts[k][strings.IndexByte(parts[k], '`')+1:]
		}
		out[i].Type = strings.Join(parts, "")
	}
	return out
}

func init() {
	register(&rt.Check{ID: "C11", Unprivileged: true,
		Rule: "random supported modules; the generated declarations as seen by go/types are compared, in order, with an independent model of the documented mapping of types; non-trivial if the module has a structure with components",
		Run: func(r *rt.Runner) {
			one := func(c *rt.Case, m *a.ModuleDefinition) {
				kindsOf(c, m)
				repr := reprs[c.Rng.Intn(2)]
				src := mustGenerate(c, m, a.GenParams{Package: "p", IntegerRepr: repr})
				p := compile(c, src)
				want := newModel(m, repr).decls(m)
				sameDecls(c, string(repr), noTags(onlyTypes(want)), noTags(onlyTypes(p.Decls)))
				c.Count("types compared", len(onlyTypes(want)))
				fields := 0
				for _, x := range m.ModuleBody.AssignmentList {
					if t, ok := x.(a.TypeAssignment); ok {
						walk(t.Type, func(t a.Type) {
							switch t := t.(type) {
							case a.SequenceType:
								fields += len(t.Components) + len(t.ExtensionAdditions)
							case a.SetType:
								fields += len(t.Components) + len(t.ExtensionAdditions)
							}
						})
					}
				}
				c.Count("components compared", fields)
				if fields > 0 {
					c.Nontrivial(plain(m))
					c.Sample("module", pretty(m))
				}
			}
			r.Parallel("modules", r.N(60000, 1000000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.DoubleTags = true
				one(c, codeModule(c, g))
			})
			// large modules, long component lists
			r.Parallel("large", r.N(60, 1000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.MaxTypes = 150
				g.Budget = 4000
				one(c, codeModule(c, g))
			})
		}})
}

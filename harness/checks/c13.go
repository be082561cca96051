package checks

import (
	"strings"

	"verif/gen"
	"verif/rt"
	"verif/wire"
)

func genDiff(x, y any) string { return gen.Diff(x, y) }

func goName(s string) string { return gen.GoName(s) }

func init() {
	register(&rt.Check{ID: "C13",
		Rule:        "random modules within the limits of encoding/asn1, generated for both integer representations, compiled, and run on random values of their structured types: encodings are compared with those of an independent DER encoder, decoded values with what was encoded; non-trivial if distinct by module and representation, values and components are counted",
		Assumptions: []string{"encoding/asn1 is correct within its documented limits"},
		Run: func(r *rt.Runner) {
			// Recorded defect, that is known to fail. Any other way to fail is a violation.
			r.Sequential("SET OF within SEQUENCE OF", 1, func(c *rt.Case) {
				problems, mods := wireRun(c, []wire.Config{{Fixed: 1}}, 1)
				for _, p := range problems {
					if !strings.Contains(p.Text, "encoded as\n300a3008"+"3006020103020101 instead of\n300a3008"+"3106020101020103") {
						c.Violation("%s: value %s: %s\n%s", p.Type, p.Value, p.Text, mods[p.Pkg])
					}
					r.Known("nested-set-of")
				}
			})
			r.Parallel("values", r.N(32, 400), func(c *rt.Case) {
				wireBatch(c, wireConfigs(c, 40, false), r.N(60, 100))
			})
		}})
}

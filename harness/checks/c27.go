package checks

import (
	"fmt"
	"strings"

	"verif/gen"
	"verif/refg"
	"verif/rt"
)

func init() {
	register(&rt.Check{ID: "C27", Unprivileged: true,
		Rule: "modules derived at random from the reference grammar, for every rule modules that use it, and changed modules that the reference grammar still recognizes; all have to be accepted; non-trivial if distinct by text, rules of the grammar that were applied are counted",
		Run: func(r *rt.Runner) {
			must := func(c *rt.Case, src, what string) {
				c.Input("text", src)
				if _, err := parse(c, src); err != nil {
					c.Violation("well-formed module (%s) is rejected: %v\n%s", what, err, src)
				}
				c.Nontrivial(src)
			}
			rules := refg.Rules()
			derive := func(c *rt.Case, prefer int) string {
				d := refg.Derivation{R: c.Rng, Prefer: prefer}
				ts := d.Module(6 + c.Rng.Intn(20))
				if prefer >= 0 && !d.Used[prefer] {
					c.Count("derivations that missed their rule", 1)
				}
				for i := range d.Used {
					c.Count("rule: "+rules[i], 1)
				}
				l := gen.Layout{R: c.Rng, Style: c.Rng.Intn(5)}
				return l.Join(ts)
			}
			r.Parallel("rules", r.N(120, 3000)*len(rules), func(c *rt.Case) {
				i := c.Index % len(rules)
				src := derive(c, i)
				must(c, src, rules[i])
			})
			// lists and nested constructs of any size, if the reference accepts small ones
			sizes := []int{100, 300, 5000, 20000, 70000}
			r.Parallel("large", (len(lists)+len(nests))*len(sizes), func(c *rt.Case) {
				k, n := c.Index/len(sizes), sizes[c.Index%len(sizes)]
				large := func(n int) string { return nest(nests[k-len(lists)], n/10) }
				if k < len(lists) {
					f := lists[k]
					large = func(n int) string { return f[0] + rep(f[1]+f[2], n-1) + f[1] + f[3] }
				}
				rts, err := refg.Lex(large(30))
				if err != nil {
					return
				}
				if ok, _ := refg.Implemented(rts); !ok {
					return
				}
				src := large(n)
				c.Input("text", src)
				if _, err := parse(c, src); err != nil {
					c.Violation("well-formed module (%.80s... of size %d) is rejected: %v", src, n, err)
				}
				c.Count("large modules", 1)
				c.Nontrivial(src)
			})
			r.Parallel("derived", r.N(30000, 600000), func(c *rt.Case) {
				must(c, derive(c, -1), "derived")
			})
			r.Parallel("changed", r.N(5000, 100000), func(c *rt.Case) {
				var ts []gen.Tok
				if c.Rng.Intn(2) == 0 {
					ts = toks(c, small(c))
				} else {
					d := refg.Derivation{R: c.Rng, Prefer: c.Rng.Intn(len(rules))}
					ts = d.Module(6 + c.Rng.Intn(12))
				}
				for k := 0; k < 60 && len(ts) < 300; k++ {
					mt := ts
					for n := 1 + c.Rng.Intn(2); n > 0; n-- {
						mt = gen.MutateToks(c.Rng, mt)
					}
					if len(mt) == 0 {
						continue
					}
					l := gen.Layout{R: c.Rng, Style: 1}
					src := l.Join(mt)
					if _, err := parse(c, src); err == nil || strings.Contains(err.Error(), "range") {
						continue
					}
					rts, lerr := refg.Lex(src)
					if lerr != nil {
						continue
					}
					ok, _ := refg.Implemented(rts)
					if ok {
						must(c, src, fmt.Sprintf("changed, %d items", len(mt)))
					}
					c.Count("rejected texts that the reference rejects", 1)
				}
			})
		}})
}

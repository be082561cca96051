package checks

import (
	"bytes"
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

func init() {
	register(&rt.Check{ID: "C12", Unprivileged: true,
		Rule: "random supported modules; struct tags of the generated fields as seen by go/types are compared with an independent model; modules rewritten so that every tag states its tagging, or relies on the other default, have to generate equal code; non-trivial if a component is tagged, optional or of a kind that needs a parameter",
		Run: func(r *rt.Runner) {
			// Recorded defect: encoding/asn1 has no notation for an explicit tag on a type with a tag of its own.
			r.Sequential("explicit tag on a tagged type", 1, func(c *rt.Case) {
				src := "A DEFINITIONS ::= BEGIN S ::= SEQUENCE { a [1] EXPLICIT [2] EXPLICIT INTEGER } END"
				c.Input("module", src)
				p := compile(c, mustGenerate(c, mustParse(c, src), a.GenParams{}))
				c.Eval(1)
				for _, d := range p.Decls {
					if strings.Contains(d.Type, "explicit,tag:1,tag:2") {
						c.Count("known finding explicit-on-tagged", 1)
						r.Known("explicit-on-tagged")
					}
				}
			})
			r.Parallel("modules", r.N(50000, 800000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.WideTags = true
				m := tagsReplaced(c, g, codeModule(c, g))
				repr := reprs[c.Rng.Intn(2)]
				src := mustGenerate(c, m, a.GenParams{Package: "p", IntegerRepr: repr})
				p := compile(c, src)
				md := newModel(m, repr)
				want := md.decls(m)
				sameDecls(c, string(repr), onlyTypes(want), onlyTypes(p.Decls))
				n := 0
				for _, x := range m.ModuleBody.AssignmentList {
					if t, ok := x.(a.TypeAssignment); ok {
						walk(t.Type, func(t a.Type) {
							var cs []a.NamedComponentType
							switch t := t.(type) {
							case a.SequenceType:
								cs = components(t.Components, t.ExtensionAdditions)
							case a.SetType:
								cs = components(t.Components, t.ExtensionAdditions)
							}
							for _, x := range cs {
								parts := md.tagParts(x)
								for _, s := range parts {
									switch {
									case len(s) > 4 && s[:4] == "tag:":
										s = "tag"
									case len(s) > 8 && s[:8] == "default:":
										s = "default"
									}
									c.Count("parameter "+s, 1)
								}
								if len(parts) > 0 {
									n++
								}
							}
						})
					}
				}
				if n > 0 {
					c.Nontrivial(plain(m))
					c.Sample("module", pretty(m))
				}
			})
			// the same module with the tagging written on every tag, under either default
			r.Parallel("defaults", r.N(12000, 200000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.WideTags = true
				m := tagsReplaced(c, g, codeModule(c, g))
				repr := reprs[c.Rng.Intn(2)]
				params := a.GenParams{Package: "p", IntegerRepr: repr}
				want := mustGenerate(c, m, params)
				env := gen.NewEnv(m)
				for _, def := range []int{a.TAGS_EXPLICIT, a.TAGS_IMPLICIT} {
					x := gen.Clone(m)
					x.TagDefault = def
					for i, as := range x.ModuleBody.AssignmentList {
						if t, ok := as.(a.TypeAssignment); ok {
							t.Type = rewrite(t.Type, func(t a.Type) a.Type {
								tt, ok := t.(a.TaggedType)
								if !ok || tt.HasTagType {
									return t
								}
								eff := m.TagDefault
								switch env.Leaf(tt.Type).(type) {
								case a.ChoiceType, a.AnyType:
									if _, ok := tt.Type.(a.TaggedType); !ok {
										eff = a.TAGS_EXPLICIT
									}
								}
								tt.HasTagType, tt.TagType = true, eff
								return tt
							})
							x.ModuleBody.AssignmentList[i] = t
						}
					}
					text := pretty(x)
					c.Input("tagging written out", text)
					got := mustGenerate(c, mustParse(c, text), params)
					if got != want {
						c.Violation("code depends on how tagging is written: %s", firstDifference(want, got))
					}
				}
				c.Nontrivial(want)
				c.Count("pairs", 2)
			})
		}})
}

// tagsReplaced puts implicit tags in front of tags, which they replace.
func tagsReplaced(c *rt.Case, g *gen.Code, m *a.ModuleDefinition) *a.ModuleDefinition {
	if c.Rng.Intn(3) != 0 {
		return m
	}
	x := gen.Clone(m)
	more := 0
	for i, as := range x.ModuleBody.AssignmentList {
		if t, ok := as.(a.TypeAssignment); ok {
			t.Type = rewrite(t.Type, func(t a.Type) a.Type {
				if _, ok := t.(a.TaggedType); !ok {
					return t
				}
				for c.Rng.Intn(2) == 0 {
					tt := g.Tag(t)
					if tt.HasTagType = x.TagDefault != a.TAGS_IMPLICIT || c.Rng.Intn(2) == 0; tt.HasTagType {
						tt.TagType = a.TAGS_IMPLICIT
					} else {
						tt.TagType = 0
					}
					t = tt
					more++
				}
				return t
			})
			x.ModuleBody.AssignmentList[i] = t
		}
	}
	c.Count("tags that replace others", more)
	src := pretty(x)
	c.Input("module", src)
	return mustParse(c, src)
}

// rewrite maps types bottom up.
func rewrite(t a.Type, f func(a.Type) a.Type) a.Type {
	comps := func(cs a.ComponentTypeList) a.ComponentTypeList {
		var out a.ComponentTypeList
		for _, x := range cs {
			switch y := x.(type) {
			case a.NamedComponentType:
				y.NamedType.Type = rewrite(y.NamedType.Type, f)
				x = y
			case a.ComponentsOfComponentType:
				y.Type = rewrite(y.Type, f)
				x = y
			}
			out = append(out, x)
		}
		return out
	}
	exts := func(cs a.ExtensionAdditions) a.ExtensionAdditions {
		var out a.ExtensionAdditions
		for _, x := range cs {
			switch y := x.(type) {
			case a.NamedComponentType:
				y.NamedType.Type = rewrite(y.NamedType.Type, f)
				x = y
			case a.ComponentsOfComponentType:
				y.Type = rewrite(y.Type, f)
				x = y
			}
			out = append(out, x)
		}
		return out
	}
	switch tt := t.(type) {
	case a.SequenceType:
		tt.Components, tt.ExtensionAdditions = comps(tt.Components), exts(tt.ExtensionAdditions)
		t = tt
	case a.SetType:
		tt.Components, tt.ExtensionAdditions = comps(tt.Components), exts(tt.ExtensionAdditions)
		t = tt
	case a.SequenceOfType:
		tt.Type = rewrite(tt.Type, f)
		t = tt
	case a.SetOfType:
		tt.Type = rewrite(tt.Type, f)
		t = tt
	case a.TaggedType:
		tt.Type = rewrite(tt.Type, f)
		t = tt
	case a.ConstraintedType:
		tt.Type = rewrite(tt.Type, f)
		t = tt
	case a.NamedType:
		tt.Type = rewrite(tt.Type, f)
		t = tt
	case a.ChoiceType:
		var alts []a.NamedType
		for _, x := range tt.AlternativeTypeList {
			x.Type = rewrite(x.Type, f)
			alts = append(alts, x)
		}
		var ext []a.ChoiceExtension
		for _, x := range tt.ExtensionTypes {
			if n, ok := x.(a.NamedType); ok {
				n.Type = rewrite(n.Type, f)
				x = n
			}
			ext = append(ext, x)
		}
		tt.AlternativeTypeList, tt.ExtensionTypes = alts, ext
		t = tt
	}
	return f(t)
}

// firstDifference shows where two texts differ.
func firstDifference(x, y string) string {
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	cut := func(s string) string {
		from := bytes.LastIndexByte([]byte(s[:i]), '\n') + 1
		to := i + 120
		if to > len(s) {
			to = len(s)
		}
		return s[from:to]
	}
	return cut(x) + "\n!=\n" + cut(y)
}

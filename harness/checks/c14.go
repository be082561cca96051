package checks

import (
	"fmt"
	"go/types"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// choices compares the Go type at every place where a CHOICE stands.
type choices struct {
	c *rt.Case
	m *model
	p *goPackage
	n int
}

func (v *choices) visit(path string, t a.Type, g types.Type, top bool) {
	switch t := gen.Strip(t).(type) {
	case a.ChoiceType:
		want := v.m.goType(t)
		got := v.p.canon(g, false)
		if top { // structures and SET OF are declared by name
			if n, ok := types.Unalias(g).(*types.Named); ok && n.Obj().Pkg() == v.p.Pkg {
				if u := v.p.canon(g.Underlying(), false); u == want {
					got = want
				}
			}
		}
		v.c.Eval(1)
		v.n++
		if got != want {
			v.c.Violation("%s: CHOICE %+v is %s instead of %s", path, t, got, want)
		}
		alts, ext := alternatives(t)
		kind := "as its only alternative"
		switch want {
		case "encoding/asn1.RawValue":
			kind = "as RawValue"
		case "interface{}":
			kind = "as interface{}"
		}
		v.c.Count(fmt.Sprintf("CHOICE %s", kind), 1)
		if ext > 0 {
			v.c.Count("CHOICE with extension", 1)
		}
		if kind == "as its only alternative" {
			v.visit(path+"."+string(alts[0].Identifier), alts[0].Type, g, top)
		}
	case a.SequenceType:
		v.structure(path, components(t.Components, t.ExtensionAdditions), g)
	case a.SetType:
		v.structure(path, components(t.Components, t.ExtensionAdditions), g)
	case a.SequenceOfType:
		v.elem(path, t.Type, g)
	case a.SetOfType:
		v.elem(path, t.Type, g)
	case a.TypeReference:
		// a component or element by reference has the type of the CHOICE
		leaf, ok := v.m.env.Leaf(t).(a.ChoiceType)
		if !ok {
			return
		}
		v.c.Eval(1)
		v.n++
		if got, want := v.p.canon(g, false), v.m.goType(t); got != want {
			v.c.Violation("%s: reference to CHOICE %+v is %s instead of %s", path, leaf, got, want)
		}
		v.c.Count("CHOICE by reference", 1)
	}
}

func (v *choices) elem(path string, t a.Type, g types.Type) {
	if s, ok := g.Underlying().(*types.Slice); ok {
		v.visit(path+"[]", t, s.Elem(), false)
	}
}

func (v *choices) structure(path string, cs []a.NamedComponentType, g types.Type) {
	s, ok := g.Underlying().(*types.Struct)
	if !ok {
		return
	}
	fields := map[string]types.Type{}
	for i := 0; i < s.NumFields(); i++ {
		fields[s.Field(i).Name()] = s.Field(i).Type()
	}
	for _, c := range cs {
		name := string(c.NamedType.Identifier)
		if f, ok := fields[gen.GoName(name)]; ok {
			v.visit(path+"."+name, c.NamedType.Type, f, false)
		}
	}
}

func init() {
	register(&rt.Check{ID: "C14",
		Rule:        "random supported modules with many CHOICE types: wherever one stands (assigned, component, element, alternative, by reference) its Go type as seen by go/types is compared with the rule of the documentation; modules within the limits of encoding/asn1 are compiled and carry every alternative through decoding and encoding; non-trivial if there is a CHOICE",
		Assumptions: []string{"encoding/asn1 is correct within its documented limits"},
		Run: func(r *rt.Runner) {
			r.Parallel("types", r.N(40000, 600000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.ChoiceTypes = true
				g.UniversalTags = c.Rng.Intn(3) == 0
				m := codeModule(c, g)
				repr := reprs[c.Rng.Intn(2)]
				p := compile(c, mustGenerate(c, m, a.GenParams{IntegerRepr: repr}))
				mod := newModel(m, repr)
				mod.noTags = true
				v := &choices{c: c, m: mod, p: p}
				for _, x := range m.ModuleBody.AssignmentList {
					if t, ok := x.(a.TypeAssignment); ok {
						obj := p.Pkg.Scope().Lookup(gen.GoName(string(t.TypeReference)))
						if obj == nil {
							c.Violation("type %s is not generated", t.TypeReference)
						}
						v.visit(string(t.TypeReference), t.Type, obj.Type(), true)
					}
				}
				if v.n > 0 {
					c.Nontrivial(plain(m))
					c.Sample("module", pretty(m))
				}
			})
			r.Parallel("values", r.N(12, 200), func(c *rt.Case) {
				wireBatch(c, wireConfigs(c, 40, true), r.N(60, 100))
			})
		}})
}

package checks

import (
	"fmt"
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// represented replaces types that generated code has to represent: all but the alternatives of CHOICE types
// that become asn1.RawValue or interface{}.
func represented(env gen.Env, t a.Type, f func(t a.Type, component bool) a.Type) a.Type {
	var rec func(t a.Type, component bool) a.Type
	comps := func(cs a.ComponentTypeList) a.ComponentTypeList {
		out := append(a.ComponentTypeList{}, cs...)
		for i := range out {
			if n, ok := out[i].(a.NamedComponentType); ok {
				n.NamedType.Type = rec(n.NamedType.Type, true)
				out[i] = n
			}
		}
		return out
	}
	exts := func(cs a.ExtensionAdditions) a.ExtensionAdditions {
		out := append(a.ExtensionAdditions{}, cs...)
		for i := range out {
			if n, ok := out[i].(a.NamedComponentType); ok {
				n.NamedType.Type = rec(n.NamedType.Type, true)
				out[i] = n
			}
		}
		return out
	}
	rec = func(t a.Type, component bool) a.Type {
		switch tt := t.(type) {
		case a.SequenceType:
			tt.Components, tt.ExtensionAdditions = comps(tt.Components), exts(tt.ExtensionAdditions)
			t = tt
		case a.SetType:
			tt.Components, tt.ExtensionAdditions = comps(tt.Components), exts(tt.ExtensionAdditions)
			t = tt
		case a.SequenceOfType:
			tt.Type = rec(tt.Type, false)
			t = tt
		case a.SetOfType:
			tt.Type = rec(tt.Type, false)
			t = tt
		case a.TaggedType:
			tt.Type = rec(tt.Type, component)
			t = tt
		case a.ConstraintedType:
			tt.Type = rec(tt.Type, component)
			t = tt
		case a.ChoiceType:
			if len(tt.AlternativeTypeList) == 1 && len(tt.ExtensionTypes) == 0 && !env.Tagged(tt.AlternativeTypeList[0].Type) {
				x := tt.AlternativeTypeList[0]
				x.Type = rec(x.Type, false)
				tt.AlternativeTypeList = []a.NamedType{x}
				t = tt
			}
		}
		return f(t, component)
	}
	return rec(t, false)
}

// representedModule applies represented to all assignments that are generated.
func representedModule(m *a.ModuleDefinition, f func(t a.Type, component bool) a.Type) *a.ModuleDefinition {
	x := gen.Clone(m)
	env := gen.NewEnv(m)
	for i, as := range x.ModuleBody.AssignmentList {
		switch as := as.(type) {
		case a.TypeAssignment:
			as.Type = represented(env, as.Type, f)
			x.ModuleBody.AssignmentList[i] = as
		case a.ValueAssignment:
			switch as.Value.(type) {
			case a.Number, a.Boolean, a.Real:
				as.Type = represented(env, as.Type, f)
				x.ModuleBody.AssignmentList[i] = as
			}
		}
	}
	return x
}

type plant struct {
	name string
	// words, one of which the error has to contain (in lower case).
	words []string
	// fits says if the construct can stand here.
	fits func(t a.Type, component bool) bool
	make func(c *rt.Case, t a.Type) a.Type
	// extra assignments
	extra func(c *rt.Case) []a.Assignment
}

func anywhere(t a.Type, component bool) bool { return true }

func hasComponents(t a.Type, component bool) bool {
	switch t.(type) {
	case a.SequenceType, a.SetType:
		return true
	}
	return false
}

func typeAs(name string, t a.Type) a.Assignment {
	return a.TypeAssignment{TypeReference: a.TypeReference(name), Type: t}
}

var plants = []plant{
	{name: "NULL", words: []string{"null"}, fits: anywhere, make: func(c *rt.Case, t a.Type) a.Type { return a.NullType{} }},
	{name: "constrained NULL", words: []string{"null"}, fits: anywhere, make: func(c *rt.Case, t a.Type) a.Type {
		return a.ConstraintedType{Type: a.NullType{}, Constraint: gen.NewFull(c.Rng).Constraint(0)}
	}},
	{name: "NULL by reference", words: []string{"null"}, fits: anywhere, make: func(c *rt.Case, t a.Type) a.Type { return a.TypeReference("Zz-Null") },
		extra: func(c *rt.Case) []a.Assignment { return []a.Assignment{typeAs("Zz-Null", a.NullType{})} }},
	{name: "missing type", words: []string{"zz-missing"}, fits: anywhere, make: func(c *rt.Case, t a.Type) a.Type { return a.TypeReference("Zz-Missing") }},
	{name: "missing type by reference", words: []string{"zz-"}, fits: anywhere, make: func(c *rt.Case, t a.Type) a.Type { return a.TypeReference("Zz-Ref1") },
		extra: func(c *rt.Case) []a.Assignment {
			return []a.Assignment{typeAs("Zz-Ref1", a.TypeReference("Zz-Ref2")), typeAs("Zz-Ref2", a.TypeReference("Zz-Missing"))}
		}},
	{name: "reference to a value", words: []string{"zz-val"}, fits: anywhere, make: func(c *rt.Case, t a.Type) a.Type { return a.TypeReference("Zz-Val") },
		extra: func(c *rt.Case) []a.Assignment {
			return []a.Assignment{a.ValueAssignment{ValueReference: "zz-Val", Type: a.IntegerType{}, Value: a.Number(1)}}
		}},
	{name: "circular reference", words: []string{"zz-"}, fits: anywhere, make: func(c *rt.Case, t a.Type) a.Type { return a.TypeReference("Zz-C0") },
		extra: func(c *rt.Case) []a.Assignment {
			n := 1 + c.Rng.Intn(4)
			var out []a.Assignment
			for i := 0; i < n; i++ {
				var t a.Type = a.TypeReference(fmt.Sprintf("Zz-C%d", (i+1)%n))
				if c.Rng.Intn(2) == 0 {
					t = (&gen.Code{R: c.Rng}).Tag(t)
				}
				out = append(out, typeAs(fmt.Sprintf("Zz-C%d", i), t))
			}
			return out
		}},
	{name: "imported type", words: []string{"zz-imported"}, fits: anywhere, make: func(c *rt.Case, t a.Type) a.Type { return a.TypeReference("Zz-Imported") }},
	{name: "named type as element", words: []string{"named"}, fits: func(t a.Type, component bool) bool { return true }, make: func(c *rt.Case, t a.Type) a.Type {
		n := a.NamedType{Identifier: "zz", Type: a.BooleanType{}}
		if c.Rng.Intn(2) == 0 {
			return a.SequenceOfType{Type: n}
		}
		return a.SetOfType{Type: n}
	}},
	{name: "COMPONENTS OF", words: []string{"components of"}, fits: hasComponents, make: func(c *rt.Case, t a.Type) a.Type {
		x := a.ComponentsOfComponentType{Type: a.TypeReference("Zz-Comps")}
		insert := func(cs a.ComponentTypeList) a.ComponentTypeList {
			i := c.Rng.Intn(len(cs) + 1)
			return append(append(append(a.ComponentTypeList{}, cs[:i]...), x), cs[i:]...)
		}
		switch tt := t.(type) {
		case a.SequenceType:
			if len(tt.ExtensionAdditions) > 0 && c.Rng.Intn(2) == 0 {
				tt.ExtensionAdditions = append(append(a.ExtensionAdditions{}, tt.ExtensionAdditions...), x)
				return tt
			}
			tt.Components = insert(tt.Components)
			return tt
		case a.SetType:
			if len(tt.ExtensionAdditions) > 0 && c.Rng.Intn(2) == 0 {
				tt.ExtensionAdditions = append(append(a.ExtensionAdditions{}, tt.ExtensionAdditions...), x)
				return tt
			}
			tt.Components = insert(tt.Components)
			return tt
		}
		return t
	}, extra: func(c *rt.Case) []a.Assignment {
		return []a.Assignment{typeAs("Zz-Comps", a.SequenceType{Components: a.ComponentTypeList{a.NamedComponentType{NamedType: a.NamedType{Identifier: "zz", Type: a.BooleanType{}}}}})}
	}},
	{name: "tag number by reference", words: []string{"tag"}, fits: func(t a.Type, component bool) bool {
		_, tagged := t.(a.TaggedType)
		return component && !tagged
	}, make: func(c *rt.Case, t a.Type) a.Type {
		tt := (&gen.Code{R: c.Rng}).Tag(t)
		d := a.DefinedValue{ValueName: "zz-tag"}
		if c.Rng.Intn(3) == 0 {
			d.ModuleName = "Zz-Module"
		}
		tt.Tag.ClassNumber = d
		return tt
	}, extra: func(c *rt.Case) []a.Assignment {
		return []a.Assignment{a.ValueAssignment{ValueReference: "zz-tag", Type: a.IntegerType{}, Value: a.Number(7)}}
	}},
}

func init() {
	register(&rt.Check{ID: "C15", Unprivileged: true,
		Rule: "supported modules that generate, with one unsupported construct planted at a random place that has to be represented (or with AUTOMATIC TAGS, a module-qualified named number, an unknown integer representation); non-trivial if distinct by module, plants are counted by construct and place",
		Run: func(r *rt.Runner) {
			fails := func(c *rt.Case, what string, m *a.ModuleDefinition, params a.GenParams, words []string) {
				src := pretty(m)
				c.Input("with "+what, src)
				m = mustParse(c, src)
				out, err := allOrNothing(c, m, params)
				if err == nil {
					c.Violation("%s is not reported\n%s\n--- generates\n%s", what, src, out)
				}
				ok := false
				for _, w := range words {
					ok = ok || strings.Contains(strings.ToLower(err.Error()), w)
				}
				if !ok {
					c.Violation("error does not say that there is %s: %v\n%s", what, err, src)
				}
				if strings.Contains(err.Error(), "%!") { // traces of fmt, identifiers of modules have no percent sign
					c.Violation("error is badly formatted: %v\n%s", err, src)
				}
				c.Count("reported: "+what, 1)
				c.Nontrivial(src)
			}
			base := func(c *rt.Case) *a.ModuleDefinition {
				g := gen.NewCode(c.Rng)
				g.MaxTypes = 1 + c.Rng.Intn(8)
				g.DoubleTags = true
				return codeModule(c, g)
			}
			r.Parallel("planted", r.N(50000, 800000), func(c *rt.Case) {
				m := base(c)
				p := plants[c.Index%len(plants)]
				n := 0
				representedModule(m, func(t a.Type, component bool) a.Type {
					if p.fits(t, component) {
						n++
					}
					return t
				})
				if n == 0 {
					return
				}
				k := c.Rng.Intn(n)
				n = 0
				place := ""
				x := representedModule(m, func(t a.Type, component bool) a.Type {
					if p.fits(t, component) {
						n++
						if n-1 == k {
							place = "elsewhere"
							if component {
								place = "in a component"
							}
							return p.make(c, t)
						}
					}
					return t
				})
				if p.extra != nil {
					for _, e := range p.extra(c) {
						l := x.ModuleBody.AssignmentList
						i := c.Rng.Intn(len(l) + 1)
						x.ModuleBody.AssignmentList = append(append(append(a.AssignmentList{}, l[:i]...), e), l[i:]...)
					}
				}
				if p.name == "imported type" {
					s := a.SymbolsFromModule{SymbolList: []a.Symbol{a.TypeReference("Zz-Imported")}}
					s.Module.Reference = "Other"
					x.ModuleBody.Imports = append(x.ModuleBody.Imports, s)
				}
				repr := reprs[c.Rng.Intn(2)]
				mustGenerate(c, m, a.GenParams{IntegerRepr: repr})
				fails(c, p.name, x, a.GenParams{IntegerRepr: repr}, p.words)
				c.Count("planted "+place, 1)
				c.Sample(p.name, pretty(x))
			})
			r.Parallel("two planted", r.N(6000, 100000), func(c *rt.Case) {
				x := gen.Clone(base(c))
				n := 2 + c.Rng.Intn(2)
				first := c.Rng.Intn(len(plants))
				used := map[string]bool{}
				var chosen []plant
				for k := 0; len(chosen) < n && k < 50; k++ {
					p := plants[(first+c.Rng.Intn(len(plants)))%len(plants)]
					if used[p.words[0]] || p.name == "missing type by reference" || p.name == "circular reference" {
						continue // all the names have to be different
					}
					used[p.words[0]] = true
					chosen = append(chosen, p)
				}
				for i, p := range chosen {
					var t a.Type = a.SequenceType{Components: a.ComponentTypeList{a.NamedComponentType{NamedType: a.NamedType{Identifier: "zz", Type: a.BooleanType{}}}}}
					component := c.Rng.Intn(2) == 0 || !p.fits(t, false)
					t = p.make(c, t)
					if component {
						s := a.SequenceType{Components: a.ComponentTypeList{a.NamedComponentType{NamedType: a.NamedType{Identifier: "zz", Type: t}}}}
						if c.Rng.Intn(2) == 0 {
							t = a.SetType{Components: s.Components}
						} else {
							t = s
						}
					}
					add := []a.Assignment{typeAs(fmt.Sprintf("Zz-P%d", i), t)}
					if p.extra != nil {
						add = append(add, p.extra(c)...)
					}
					for _, e := range add {
						l := x.ModuleBody.AssignmentList
						j := c.Rng.Intn(len(l) + 1)
						x.ModuleBody.AssignmentList = append(append(append(a.AssignmentList{}, l[:j]...), e), l[j:]...)
					}
				}
				src := pretty(x)
				c.Input("several", src)
				m := mustParse(c, src)
				out, err := allOrNothing(c, m, a.GenParams{IntegerRepr: reprs[c.Rng.Intn(2)]})
				if err == nil {
					c.Violation("nothing is reported\n%s\n--- generates\n%s", src, out)
				}
				for _, p := range chosen {
					ok := false
					for _, w := range p.words {
						ok = ok || strings.Contains(strings.ToLower(err.Error()), w)
					}
					if !ok {
						c.Violation("error does not say that there is %s besides others: %v\n%s", p.name, err, src)
					}
				}
				c.Count("several reported together", 1)
				c.Nontrivial(src)
			})
			r.Parallel("many planted", r.N(1500, 20000), func(c *rt.Case) {
				x := gen.Clone(base(c))
				n := 2 + c.Rng.Intn(40)
				switch c.Rng.Intn(8) {
				case 0:
					n = 60 + c.Rng.Intn(100)
				case 1:
					n = 250 + c.Rng.Intn(60)
				}
				var names []string
				each := 1 + c.Rng.Intn(12) // types that are missing per assignment
				for len(names) < n {
					var cs a.ComponentTypeList
					for k := 0; k < each; k++ {
						name := fmt.Sprintf("Zz-Missing-%dX", len(names))
						names = append(names, name)
						var t a.Type = a.TypeReference(name)
						switch c.Rng.Intn(5) {
						case 0:
							t = a.SequenceOfType{Type: t}
						case 1:
							t = (&gen.Code{R: c.Rng}).Tag(t)
						case 2:
							t = a.SetType{Components: a.ComponentTypeList{a.NamedComponentType{NamedType: a.NamedType{Identifier: "zz", Type: t}}}}
						}
						cs = append(cs, a.NamedComponentType{NamedType: a.NamedType{Identifier: a.Identifier(fmt.Sprintf("zz%d", k)), Type: t}})
					}
					var t a.Type = a.SequenceType{Components: cs}
					if each == 1 && c.Rng.Intn(2) == 0 {
						t = cs[0].(a.NamedComponentType).NamedType.Type
					}
					e := typeAs(fmt.Sprintf("Zz-P%d", len(names)), t)
					l := x.ModuleBody.AssignmentList
					j := c.Rng.Intn(len(l) + 1)
					x.ModuleBody.AssignmentList = append(append(append(a.AssignmentList{}, l[:j]...), e), l[j:]...)
				}
				src := pretty(x)
				c.Input("many", src)
				m := mustParse(c, src)
				out, err := allOrNothing(c, m, a.GenParams{IntegerRepr: reprs[c.Rng.Intn(2)]})
				if err == nil {
					c.Violation("nothing is reported\n%s\n--- generates\n%s", src, out)
				}
				for _, name := range names {
					if !strings.Contains(err.Error(), name) {
						c.Violation("error does not name %s besides %d others: %v\n%s", name, len(names)-1, err, src)
					}
				}
				c.Count("missing types reported together", len(names))
				c.Nontrivial(src)
			})
			r.Parallel("AUTOMATIC TAGS", r.N(3000, 40000), func(c *rt.Case) {
				m := gen.Clone(base(c))
				m.TagDefault = a.TAGS_AUTOMATIC
				if c.Index == 0 {
					m.ModuleBody = a.ModuleBody{}
				}
				fails(c, "AUTOMATIC TAGS", m, anyParams(c), []string{"automatic"})
			})
			r.Parallel("module-qualified named number", r.N(5000, 80000), func(c *rt.Case) {
				m := gen.Clone(base(c))
				t := a.IntegerType{}
				for k := c.Rng.Intn(3); k > 0; k-- {
					t.NamedNumberList = append(t.NamedNumberList, a.NamedNumber{Name: a.Identifier(fmt.Sprintf("zz%d", k)), Value: a.Number(k)})
				}
				i := c.Rng.Intn(len(t.NamedNumberList) + 1)
				t.NamedNumberList = append(t.NamedNumberList, a.NamedNumber{})
				copy(t.NamedNumberList[i+1:], t.NamedNumberList[i:])
				t.NamedNumberList[i] = a.NamedNumber{Name: "zz", Value: a.DefinedValue{ModuleName: "Other", ValueName: "zz-value"}}
				var ty a.Type = t
				switch c.Rng.Intn(3) {
				case 0:
					ty = (&gen.Code{R: c.Rng}).Tag(ty)
				case 1:
					ty = a.ConstraintedType{Type: ty, Constraint: gen.NewFull(c.Rng).Constraint(0)}
				}
				l := m.ModuleBody.AssignmentList
				j := c.Rng.Intn(len(l) + 1)
				m.ModuleBody.AssignmentList = append(append(append(a.AssignmentList{}, l[:j]...), typeAs("Zz-Int", ty)), l[j:]...)
				if c.Rng.Intn(2) == 0 { // the name alone would not be missing
					m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList, a.ValueAssignment{ValueReference: "zz-value", Type: a.IntegerType{}, Value: a.Number(1)})
				}
				fails(c, "module-qualified named number", m, a.GenParams{IntegerRepr: reprs[c.Rng.Intn(2)]}, []string{"other", "zz-value", "module"})
			})
			r.Parallel("unknown representation", r.N(15000, 200000), func(c *rt.Case) {
				m := base(c)
				ints := 0
				representedModule(m, func(t a.Type, component bool) a.Type {
					if _, ok := t.(a.IntegerType); ok {
						ints++
					}
					return t
				})
				repr := a.IntegerRepr([]string{"int32", "int", "uint64", "bigint", "INT64", "big.int", "int64 ", "big", "string", "*big.Int"}[c.Rng.Intn(10)])
				if ints == 0 {
					allOrNothing(c, m, a.GenParams{IntegerRepr: repr}) // may be an error or not
					return
				}
				fails(c, "unknown integer representation", m, a.GenParams{IntegerRepr: repr}, []string{strings.ToLower(string(repr))})
			})
		}})
}

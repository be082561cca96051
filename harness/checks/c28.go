package checks

import (
	"math"
	"reflect"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// kindOfValue is the type that a value was written as, nil if only its context tells.
func kindOfValue(v a.Value) (t a.Type, known bool) {
	switch v.(type) {
	case a.Number:
		return a.IntegerType{}, true
	case a.Real:
		return a.RealType{}, true
	case a.Boolean:
		return a.BooleanType{}, true
	case a.ObjectIdentifierValue:
		return a.ObjectIdentifierType{}, true
	case a.DefinedValue, a.IdentifiedIntegerValue:
		return nil, true
	}
	return nil, false
}

// nodes calls f for all values of struct, slice and basic types of the tree.
func nodes(v reflect.Value, f func(x interface{})) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			nodes(v.Elem(), f)
		}
		return
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				nodes(v.Field(i), f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			nodes(v.Index(i), f)
		}
	}
	if v.CanInterface() {
		f(v.Interface())
	}
}

func init() {
	register(&rt.Check{ID: "C28", Unprivileged: true,
		Rule: "every node of the trees of random modules, parsed and made by hand; random numbers; hand-made modules against the parser's trees of the same modules, generated for both representations; non-trivial if distinct by text",
		Run: func(r *rt.Runner) {
			describe := func(c *rt.Case, x interface{}) {
				if n, ok := x.(interface{ Name() string }); ok {
					if v := reflect.ValueOf(x); v.Kind() == reflect.String {
						if n.Name() != v.String() {
							c.Violation("%T %q has Name %q", x, v.String(), n.Name())
						}
						c.Count("names", 1)
					}
				}
				switch n := x.(type) {
				case a.TypeAssignment:
					if ref := n.Reference(); ref != a.Reference(n.TypeReference) {
						c.Violation("Reference of the assignment of %v is %v", n.TypeReference, ref)
					}
				case a.ValueAssignment:
					if ref := n.Reference(); ref != a.Reference(n.ValueReference) {
						c.Violation("Reference of the assignment of %v is %v", n.ValueReference, ref)
					}
				case a.RangeEndpoint:
					if n.IsUnspecified() != (n.Value == nil) {
						c.Violation("IsUnspecified of the end point %v is %v", n.Value, n.IsUnspecified())
					}
					c.Count("end points", 1)
				case a.SingleValue:
					x = n.Value
				}
				if v, ok := x.(a.Value); ok {
					if t, known := kindOfValue(v); known {
						if got := v.Type(); !reflect.DeepEqual(got, t) {
							c.Violation("value %#v has the type %#v, expected %#v", v, got, t)
						}
						c.Count("values", 1)
					}
				}
				c.Eval(1)
			}
			r.Parallel("nodes", r.N(4000, 80000), func(c *rt.Case) {
				m := gen.NewFull(c.Rng).Module()
				src := text(c, m, c.Rng.Intn(4))
				c.Input("text", src)
				p := mustParse(c, src)
				guard(c, "accessors", func() (int, error) {
					nodes(reflect.ValueOf(*p), func(x interface{}) { describe(c, x) })
					nodes(reflect.ValueOf(*m), func(x interface{}) { describe(c, x) })
					return 0, nil
				})
				c.Nontrivial(src)
			})
			r.Parallel("numbers", r.N(4000, 50000), func(c *rt.Case) {
				i := int(c.Rng.Uint64()) >> uint(c.Rng.Intn(64))
				if i == math.MinInt {
					i++
				}
				guard(c, "Number", func() (int, error) {
					n := a.Number(i)
					if n.IntValue() != i || n.UnaryMinus() != a.Number(-i) || n.UnaryMinus().UnaryMinus() != n {
						c.Violation("Number %d has the value %v, negated %v", i, n.IntValue(), n.UnaryMinus())
					}
					f := math.Float64frombits(c.Rng.Uint64())
					switch c.Rng.Intn(8) {
					case 0:
						f = math.Inf(1 - 2*c.Rng.Intn(2))
					case 1:
						f = math.Copysign(0, float64(1-2*c.Rng.Intn(2)))
					case 2:
						f = float64(c.Rng.Intn(100)-50) / 4
					}
					if !math.IsNaN(f) {
						if got := float64(a.Real(f).UnaryMinus()); math.Float64bits(got) != math.Float64bits(-f) {
							c.Violation("Real %v is negated to %v", f, got)
						}
					}
					for _, b := range []a.Boolean{true, false} {
						describe(c, b)
					}
					return 0, nil
				})
				c.Eval(6)
			})
			r.Parallel("single element constraints", r.N(4000, 60000), func(c *rt.Case) {
				g := gen.NewFull(c.Rng)
				m := &a.ModuleDefinition{ModuleIdentifier: a.ModuleIdentifier{Reference: "M"}}
				for k := 0; k < 40; k++ {
					s, ok := g.Constraint(1).ConstraintSpec.(a.SubtypeConstraint)
					if !ok || len(s) == 0 {
						continue
					}
					u, ok := s[0].(a.Unions)
					if !ok || len(u) == 0 || len(u[0]) == 0 {
						continue
					}
					made, _ := guard(c, "SingleElementConstraint", func() (a.Constraint, error) {
						return a.SingleElementConstraint(u[0][0].Elements), nil
					})
					m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList,
						a.TypeAssignment{TypeReference: "T", Type: a.ConstraintedType{Type: a.IntegerType{}, Constraint: made}})
					c.Count("constraints", 1)
				}
				if len(m.ModuleBody.AssignmentList) == 0 {
					return
				}
				src := text(c, m, 1)
				c.Input("text", src)
				p := mustParse(c, src)
				if d := gen.Diff(m, p); d != "" {
					c.Violation("SingleElementConstraint is not the constraint of the element: %s\n%s", d, src)
				}
				c.Nontrivial(src)
			})
			r.Parallel("made by hand", r.N(2500, 50000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.MaxTypes = 1 + c.Rng.Intn(10)
				g.DoubleTags = true
				m := g.Module()
				src := pretty(m)
				c.Input("text", src)
				p := mustParse(c, src)
				for _, repr := range reprs {
					params := a.GenParams{Package: "p", IntegerRepr: repr}
					want, err := generate(c, p, params)
					got, err2 := generate(c, m, params)
					if (err == nil) != (err2 == nil) || want != got {
						c.Violation("tree made by hand generates something else than that of the parser: errors %v, %v\n%s\n--- parsed\n%s\n--- by hand\n%s", err, err2, src, want, got)
					}
					if err == nil {
						c.Count("generated alike", 1)
					}
				}
				c.Nontrivial(src)
			})
			r.Sequential("useful types", 1, func(c *rt.Case) {
				// after everything above
				for name, n := range map[string]int{"GeneralizedTime": 24, "UTCTime": 23} {
					want := a.Type(a.TaggedType{Tag: a.Tag{Class: a.CLASS_UNIVERSAL, ClassNumber: a.Number(n)}, Type: a.RestrictedStringType{LexType: a.VisibleString}})
					if got := a.USEFUL_TYPES[name]; got == nil || gen.Diff(stripTagType(want), stripTagType(got)) != "" {
						c.Violation("useful type %s is %#v", name, got)
					}
					c.Eval(1)
				}
			})
		}})
}

// stripTagType leaves out if the tag is said to be implicit.
func stripTagType(t a.Type) a.Type {
	if tt, ok := t.(a.TaggedType); ok {
		tt.HasTagType, tt.TagType = false, 0
		return tt
	}
	return t
}

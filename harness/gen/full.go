package gen

import (
	"math"
	"math/rand"
	"strconv"

	a "github.com/chemikadze/asn1go"
)

// Full generates ASTs over the whole notation that the parser implements.
// They need not make semantic sense.
type Full struct {
	R *rand.Rand
	// Pool, if not empty, limits type references and value references to few names.
	Types  []string
	Values []string
	// MaxDepth of nesting of types.
	MaxDepth int
	// Short keeps lists short and types flat, where the work grows faster than the text.
	Short  bool
	budget int
	deep   bool
}

// NewFull makes a generator.
func NewFull(r *rand.Rand) *Full {
	return &Full{R: r, MaxDepth: 1 + r.Intn(5)}
}

func (g *Full) typeName() string {
	if len(g.Types) > 0 && g.R.Intn(5) != 0 {
		return g.Types[g.R.Intn(len(g.Types))]
	}
	return UpperName(g.R)
}

func (g *Full) valueName() string {
	if len(g.Values) > 0 && g.R.Intn(5) != 0 {
		return g.Values[g.R.Intn(len(g.Values))]
	}
	return LowerName(g.R)
}

// Len picks a length, usually small.
func (g *Full) len(min int) int {
	if g.deep && g.R.Intn(4) != 0 {
		return min + g.R.Intn(2)
	}
	switch g.R.Intn(12) {
	case 0:
		if !g.Short && g.R.Intn(60) == 0 {
			return min + 16 + g.R.Intn(200)
		}
		return min + 4 + g.R.Intn(12)
	case 1, 2, 3:
		return min
	default:
		return min + g.R.Intn(4)
	}
}

// Module generates a module.
func (g *Full) Module() *a.ModuleDefinition {
	g.budget = 400
	if !g.Short && g.R.Intn(50) == 0 {
		g.deep = true
		g.MaxDepth = 6 + g.R.Intn(40)
	}
	m := &a.ModuleDefinition{}
	m.ModuleIdentifier.Reference = UpperName(g.R)
	if g.R.Intn(2) == 0 {
		n := g.len(1)
		for i := 0; i < n; i++ {
			c := a.DefinitiveObjIdComponent{}
			switch g.R.Intn(3) {
			case 0:
				c.Name = LowerName(g.R)
			case 1:
				c.Id = g.Nat()
			default:
				c.Name = LowerName(g.R)
				c.Id = g.Nat()
			}
			m.ModuleIdentifier.DefinitiveIdentifier = append(m.ModuleIdentifier.DefinitiveIdentifier, c)
		}
	}
	m.TagDefault = []int{a.TAGS_EXPLICIT, a.TAGS_IMPLICIT, a.TAGS_AUTOMATIC}[g.R.Intn(3)]
	m.ExtensibilityImplied = g.R.Intn(4) == 0
	if g.R.Intn(30) == 0 {
		return m // empty body
	}
	if g.R.Intn(3) == 0 {
		n := g.len(1)
		for i := 0; i < n; i++ {
			m.ModuleBody.Imports = append(m.ModuleBody.Imports, g.importFrom())
		}
	}
	n := g.len(1)
	for i := 0; i < n; i++ {
		m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList, g.Assignment())
	}
	return m
}

func (g *Full) importFrom() a.SymbolsFromModule {
	var s a.SymbolsFromModule
	n := g.len(1)
	for i := 0; i < n; i++ {
		if g.R.Intn(2) == 0 {
			s.SymbolList = append(s.SymbolList, a.TypeReference(g.typeName()))
		} else {
			s.SymbolList = append(s.SymbolList, a.ValueReference(g.valueName()))
		}
	}
	s.Module.Reference = UpperName(g.R)
	switch g.R.Intn(4) {
	case 0:
		s.Module.AssignedIdentifier = g.OID()
	case 1:
		s.Module.AssignedIdentifier = g.DefinedValue()
	}
	return s
}

// Assignment generates an assignment.
func (g *Full) Assignment() a.Assignment {
	if g.R.Intn(4) == 0 {
		return a.ValueAssignment{ValueReference: a.ValueReference(g.valueName()), Type: g.Type(g.MaxDepth / 2), Value: g.Value()}
	}
	return a.TypeAssignment{TypeReference: a.TypeReference(g.typeName()), Type: g.Type(g.MaxDepth)}
}

// Nat generates a number literal.
func (g *Full) Nat() int {
	switch g.R.Intn(8) {
	case 0:
		return 0
	case 1:
		return math.MaxInt64
	case 2:
		return int(g.R.Int63())
	case 3:
		return int(g.R.Int31())
	case 4: // around powers of two and of ten
		n := 1 << g.R.Intn(62)
		if g.R.Intn(4) == 0 {
			n = 1
			for k := g.R.Intn(18); k > 0; k-- {
				n *= 10
			}
		}
		return n + g.R.Intn(3) - 1
	default:
		return g.R.Intn(300)
	}
}

func (g *Full) number() a.Number {
	n := g.Nat()
	if g.R.Intn(3) == 0 {
		n = -n
	}
	return a.Number(n)
}

// Real generates a value that is printed with a dot or an exponent.
func (g *Full) Real() a.Real {
	var f float64
	switch g.R.Intn(9) {
	case 8:
		edges := []float64{math.MaxFloat64, math.SmallestNonzeroFloat64, 1.7e308, 1e308, 8.98846567431158e307, 2.2250738585072014e-308, 2.225073858507201e-308, 5e-324, 1e21, 1e20, 999999999999999900000, 1e-4, 1e-5, 0.00001234,
			1 << 53, 1<<53 + 2, 1<<53 - 1, 1 << 62, 1 << 63, 1 << 64, 1e15, 1e16, 1e17, 123456789012345680, math.MaxFloat32, 4e38, 1e-45, 1e22, 1e23, 0.1, 1.0 / 3, 100, 1e6, 1e7, 16777217, 65504}
		f = edges[g.R.Intn(len(edges))]
	case 0:
		f = math.Inf(1 - 2*g.R.Intn(2))
		return a.Real(f)
	case 1:
		f = float64(g.R.Intn(100)) / 8
	case 2:
		f = g.R.Float64()
	case 3:
		f = math.Float64frombits(g.R.Uint64())
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 0.001
		}
	case 4:
		f = 0
	default:
		f, _ = strconv.ParseFloat(strconv.FormatFloat(g.R.NormFloat64()*1000, 'f', g.R.Intn(6), 64), 64)
	}
	if g.R.Intn(3) == 0 {
		f = -f
	}
	return a.Real(f)
}

// DefinedValue generates a value reference.
func (g *Full) DefinedValue() a.DefinedValue {
	d := a.DefinedValue{ValueName: a.ValueReference(g.valueName())}
	if g.R.Intn(3) == 0 {
		d.ModuleName = a.ModuleReference(UpperName(g.R))
	}
	return d
}

// OID generates an object identifier value.
func (g *Full) OID() a.ObjectIdentifierValue {
	n := g.len(1)
	var o a.ObjectIdentifierValue
	for i := 0; i < n; i++ {
		var e a.ObjectIdElement
		switch g.R.Intn(5) {
		case 0:
			d := g.DefinedValue()
			e.Reference = &d
		case 1, 2:
			e.ID = g.Nat()
		case 3:
			e.Name = LowerName(g.R)
			e.ID = g.Nat()
		default:
			e.Name = LowerName(g.R)
			d := g.DefinedValue()
			e.Reference = &d
		}
		o = append(o, e)
	}
	return o
}

// Value generates any implemented value.
func (g *Full) Value() a.Value {
	switch g.R.Intn(8) {
	case 0:
		return a.Boolean(g.R.Intn(2) == 0)
	case 1:
		return g.OID()
	case 2, 3:
		return g.Real()
	case 4:
		return a.IdentifiedIntegerValue{Name: g.valueName()}
	default:
		return g.number()
	}
}

func (g *Full) namedNumber() a.NamedNumber {
	n := a.NamedNumber{Name: a.Identifier(LowerName(g.R))}
	if g.R.Intn(4) == 0 {
		n.Value = g.DefinedValue()
	} else {
		n.Value = g.number()
	}
	return n
}

func (g *Full) namedType(depth int) a.NamedType {
	return a.NamedType{Identifier: a.Identifier(LowerName(g.R)), Type: g.Type(depth)}
}

// Leaf generates a type that contains no other types.
func (g *Full) leaf() a.Type {
	switch g.R.Intn(14) {
	case 0:
		return a.BooleanType{}
	case 1:
		t := a.IntegerType{}
		if g.R.Intn(2) == 0 {
			n := g.len(1)
			for i := 0; i < n; i++ {
				t.NamedNumberList = append(t.NamedNumberList, g.namedNumber())
			}
		}
		return t
	case 2:
		return a.RealType{}
	case 3:
		return a.NullType{}
	case 4:
		return a.ObjectIdentifierType{}
	case 5:
		return a.OctetStringType{}
	case 6:
		t := a.BitStringType{}
		if g.R.Intn(2) == 0 {
			n := g.len(1)
			for i := 0; i < n; i++ {
				b := a.NamedBit{Name: a.Identifier(LowerName(g.R))}
				if g.R.Intn(3) == 0 {
					b.Index = g.DefinedValue()
				} else {
					b.Index = a.Number(g.Nat())
				}
				t.NamedBits = append(t.NamedBits, b)
			}
		}
		return t
	case 7:
		return a.CharacterStringType{}
	case 8, 9:
		return a.RestrictedStringType{LexType: StringKinds[g.R.Intn(len(StringKinds))].Lex}
	case 10:
		t := a.AnyType{}
		if g.R.Intn(2) == 0 {
			t.Identifier = a.Identifier(LowerName(g.R))
		}
		return t
	case 11:
		t := a.EnumeratedType{}
		n := g.len(1)
		for i := 0; i < n; i++ {
			if g.R.Intn(2) == 0 {
				t.RootEnumeration = append(t.RootEnumeration, a.Identifier(LowerName(g.R)))
			} else {
				t.RootEnumeration = append(t.RootEnumeration, g.namedNumber())
			}
		}
		return t
	case 12:
		return a.TypeReference([]string{"GeneralizedTime", "UTCTime"}[g.R.Intn(2)])
	default:
		return a.TypeReference(g.typeName())
	}
}

// Type generates a type.
func (g *Full) Type(depth int) a.Type {
	g.budget--
	if depth <= 0 || g.budget <= 0 {
		return g.leaf()
	}
	k := g.R.Intn(14)
	if g.deep && k >= 10 && g.R.Intn(4) != 0 {
		k = g.R.Intn(10)
	}
	switch k {
	case 0:
		c, e := g.components(depth - 1)
		return a.SetType{Components: c, ExtensionAdditions: e}
	case 1, 2:
		c, e := g.components(depth - 1)
		return a.SequenceType{Components: c, ExtensionAdditions: e}
	case 3:
		return a.SequenceOfType{Type: g.elem(depth - 1)}
	case 4:
		return a.SetOfType{Type: g.elem(depth - 1)}
	case 5:
		var t a.ChoiceType
		n := g.len(1)
		for i := 0; i < n; i++ {
			t.AlternativeTypeList = append(t.AlternativeTypeList, g.namedType(depth-1))
		}
		if g.R.Intn(3) == 0 {
			n := g.R.Intn(4)
			for i := 0; i < n; i++ {
				t.ExtensionTypes = append(t.ExtensionTypes, g.namedType(depth-1))
			}
			if n > 0 && g.R.Intn(6) == 0 {
				t.AlternativeTypeList = nil
			}
		}
		return t
	case 6, 7:
		t := a.TaggedType{Type: g.Type(depth - 1)}
		t.Tag.Class = []int{a.CLASS_CONTEXT_SPECIFIC, a.CLASS_CONTEXT_SPECIFIC, a.CLASS_UNIVERSAL, a.CLASS_APPLICATION, a.CLASS_PRIVATE}[g.R.Intn(5)]
		if g.R.Intn(5) == 0 {
			t.Tag.ClassNumber = g.DefinedValue()
		} else {
			t.Tag.ClassNumber = a.Number(g.Nat())
		}
		switch g.R.Intn(3) {
		case 0:
			t.HasTagType, t.TagType = true, a.TAGS_IMPLICIT
		case 1:
			t.HasTagType, t.TagType = true, a.TAGS_EXPLICIT
		}
		return t
	case 8, 9:
		return g.constrained(depth)
	default:
		return g.leaf()
	}
}

func (g *Full) elem(depth int) a.Type {
	if g.R.Intn(5) == 0 {
		return g.namedType(depth)
	}
	return g.Type(depth)
}

// constrained generates constrained types in the only way that text can express them:
// constraint after X OF Y and [tag] Y belongs to Y.
func (g *Full) constrained(depth int) a.Type {
	c := g.Constraint(depth - 1)
	if g.R.Intn(3) == 0 {
		if g.R.Intn(2) == 0 {
			c = a.SingleElementConstraint(a.SizeConstraint{Constraint: c})
		}
		if g.R.Intn(2) == 0 {
			return a.ConstraintedType{Type: a.SequenceOfType{Type: g.elem(depth - 1)}, Constraint: c}
		}
		return a.ConstraintedType{Type: a.SetOfType{Type: g.elem(depth - 1)}, Constraint: c}
	}
	for {
		t := g.Type(depth - 1)
		if endsOpen(t) {
			t = g.leaf()
		}
		return a.ConstraintedType{Type: t, Constraint: c}
	}
}

// endsOpen says if a constraint written after the type would belong to a nested type.
func endsOpen(t a.Type) bool {
	switch t := t.(type) {
	case a.TaggedType, a.SequenceOfType, a.SetOfType:
		return true
	case a.ConstraintedType:
		switch t.Type.(type) {
		case a.SequenceOfType, a.SetOfType:
			return true
		}
	}
	return false
}

func (g *Full) components(depth int) (a.ComponentTypeList, a.ExtensionAdditions) {
	n := g.len(0)
	var cs a.ComponentTypeList
	var es a.ExtensionAdditions
	for i := 0; i < n; i++ {
		cs = append(cs, g.component(depth))
	}
	if n > 0 && g.R.Intn(4) == 0 {
		k := g.len(1)
		for i := 0; i < k; i++ {
			es = append(es, g.component(depth))
		}
	}
	return cs, es
}

func (g *Full) component(depth int) a.ComponentType {
	if g.R.Intn(12) == 0 {
		return a.ComponentsOfComponentType{Type: g.Type(depth)}
	}
	c := a.NamedComponentType{NamedType: g.namedType(depth)}
	switch g.R.Intn(4) {
	case 0:
		c.IsOptional = true
	case 1:
		v := g.Value()
		c.Default = &v
	}
	return c
}

// Constraint generates a constraint.
func (g *Full) Constraint(depth int) a.Constraint {
	s := a.SubtypeConstraint{g.elementSetSpec(depth)}
	if g.R.Intn(8) == 0 {
		s = append(s, g.elementSetSpec(depth))
	}
	return a.Constraint{ConstraintSpec: s}
}

func (g *Full) elementSetSpec(depth int) a.ElementSetSpec {
	g.budget--
	if g.R.Intn(10) == 0 {
		return a.Exclusions{Elements: g.elements(depth)}
	}
	var u a.Unions
	n := 1
	if g.R.Intn(3) == 0 {
		n += g.R.Intn(4)
	}
	for i := 0; i < n; i++ {
		var x a.Intersections
		k := 1
		if g.R.Intn(4) == 0 {
			k += g.R.Intn(3)
		}
		for j := 0; j < k; j++ {
			e := a.IntersectionElements{Elements: g.elements(depth)}
			if g.R.Intn(8) == 0 {
				e.Exclusions.Elements = g.elements(depth)
			}
			x = append(x, e)
		}
		u = append(u, x)
	}
	return u
}

func (g *Full) elements(depth int) a.Elements {
	k := g.R.Intn(12)
	if depth <= 0 || g.budget <= 0 {
		k = g.R.Intn(7)
	}
	switch {
	case k < 3:
		return a.SingleValue{Value: g.Value()}
	case k < 6:
		var e a.ValueRange
		if g.R.Intn(4) != 0 {
			e.LowerEndpoint.Value = g.Value()
		}
		if g.R.Intn(4) != 0 {
			e.UpperEndpoint.Value = g.Value()
		}
		e.LowerEndpoint.IsOpen = g.R.Intn(4) == 0
		e.UpperEndpoint.IsOpen = g.R.Intn(4) == 0
		return e
	case k < 7:
		return a.InnerTypeConstraint{}
	case k < 9:
		return a.SizeConstraint{Constraint: g.Constraint(depth - 1)}
	case k < 10:
		return a.TypeConstraint{Type: g.Type(depth - 1)}
	default:
		return g.elementSetSpec(depth - 1).(a.Elements)
	}
}

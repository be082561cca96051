package gen

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"
	"unicode/utf8"

	a "github.com/chemikadze/asn1go"
)

// GoName is the documented mapping of names: exported, and with underscores for hyphens.
func GoName(s string) string {
	s = strings.ReplaceAll(s, "-", "_")
	first, n := utf8.DecodeRuneInString(s)
	if n == 0 {
		return s
	}
	return string(unicode.ToUpper(first)) + s[n:]
}

// Env looks up type assignments of a module.
type Env map[string]a.Type

// NewEnv of a module.
func NewEnv(m *a.ModuleDefinition) Env {
	e := Env{}
	for _, x := range m.ModuleBody.AssignmentList {
		if t, ok := x.(a.TypeAssignment); ok {
			if _, dup := e[string(t.TypeReference)]; !dup {
				e[string(t.TypeReference)] = t.Type
			}
		}
	}
	return e
}

// Strip removes tags and constraints.
func Strip(t a.Type) a.Type {
	for {
		switch tt := t.(type) {
		case a.TaggedType:
			t = tt.Type
		case a.ConstraintedType:
			t = tt.Type
		default:
			return t
		}
	}
}

// Leaf removes tags, constraints and references. The result is a TypeReference for the useful types and
// types that are not declared.
func (e Env) Leaf(t a.Type) a.Type {
	seen := map[string]bool{}
	for {
		t = Strip(t)
		r, ok := t.(a.TypeReference)
		if !ok || seen[string(r)] {
			return t
		}
		seen[string(r)] = true
		next, ok := e[string(r)]
		if !ok {
			return t
		}
		t = next
	}
}

// Tagged says if the type starts with a tag, written on it or on what it refers to.
func (e Env) Tagged(t a.Type) bool {
	for n := 0; n < 10000; n++ {
		switch tt := t.(type) {
		case a.TaggedType:
			return true
		case a.ConstraintedType:
			t = tt.Type
		case a.TypeReference:
			next, ok := e[string(tt)]
			if !ok {
				return false
			}
			t = next
		default:
			return false
		}
	}
	return false
}

// IsTime says if the (resolved) type is one of the useful time types.
func IsTime(t a.Type) bool {
	r, ok := t.(a.TypeReference)
	return ok && (r == "GeneralizedTime" || r == "UTCTime")
}

type codeKind int

const (
	kLeaf codeKind = iota
	kStruct
	kSet
	kSeqOf
	kSetOf
	kRef
	kRawChoice
	kAnyChoice
	kSingleChoice
)

// Code generates modules that make sense and that the code generator documents to support. The Go
// names that follow from them are distinct, and types are only recursive through elements of OF types
// (or CHOICE types that are represented as a whole).
type Code struct {
	R *rand.Rand
	// Simple leaves out values, named numbers and imports.
	Simple bool
	// DoubleTags allows tags on tags.
	DoubleTags bool
	// Null allows NULL as alternatives of a CHOICE that is represented as a whole.
	Null bool
	// MaxTypes limits type assignments.
	MaxTypes int
	// TagDefault, if not negative, sets tagging of the module.
	TagDefault int
	// IntTypes makes INTEGER types and values more frequent.
	IntTypes bool
	// ChoiceTypes makes CHOICE types more frequent.
	ChoiceTypes bool
	// WideTags allows for tag numbers of any size, encoding/asn1 has a limit.
	WideTags bool
	// UniversalTags uses the UNIVERSAL class as well, for which encoding/asn1 has no notation.
	UniversalTags bool
	// Values adds value assignments.
	Values int
	// Flat leaves out nesting and references over many levels, which take time to generate.
	Flat bool
	// Budget of types within one module.
	Budget int

	f        *Full
	used     map[string]bool
	names    []string
	kinds    []codeKind
	types    Env
	intVals  []string
	rank     int
	budget   int
	maxDepth int
	deep     bool
}

// NewCode makes a generator.
func NewCode(r *rand.Rand) *Code {
	return &Code{R: r, MaxTypes: 10, TagDefault: -1, Null: true, Budget: 150}
}

var trickyTypes = []string{"Type", "String", "Time", "Int64", "Big-Int", "Asn1", "RawValue", "Error", "Range", "Func", "Map", "Interface", "Val", "SET1", "Setof", "Bool", "Any", "T", "T1", "A-B", "A-B-C", "Init", "Main", "Nil", "Iota", "Byte", "Float64", "ValA", "ASET", "Struct", "Package"}
var trickyFields = []string{"type", "range", "func", "map", "interface", "string", "int64", "nil", "iota", "true", "package", "import", "time", "asn1", "big", "a-b", "a-b-c", "aB", "x1", "set", "tag", "optional", "len", "init", "main", "val", "go", "var", "struct"}

func (g *Code) claim(ids ...string) bool {
	for _, id := range ids {
		if g.used[id] {
			return false
		}
	}
	for _, id := range ids {
		g.used[id] = true
	}
	return true
}

func (g *Code) newTypeName() string {
	for {
		s := UpperName(g.R)
		if g.R.Intn(4) == 0 {
			s = trickyTypes[g.R.Intn(len(trickyTypes))]
		}
		n := GoName(s)
		if !IsReserved(s) && g.claim(n, n+"SET") {
			return s
		}
	}
}

func (g *Code) newValueName() string {
	for {
		s := g.lower()
		if g.claim("Val" + GoName(s)) {
			return s
		}
	}
}

func (g *Code) lower() string {
	if g.R.Intn(4) == 0 {
		return trickyFields[g.R.Intn(len(trickyFields))]
	}
	return LowerName(g.R)
}

// Module generates a module.
func (g *Code) Module() *a.ModuleDefinition {
	r := g.R
	g.f = NewFull(r)
	g.used = map[string]bool{}
	g.types = Env{}
	g.intVals = nil
	g.names, g.kinds = nil, nil
	g.budget = g.Budget
	g.maxDepth = 1 + r.Intn(4)
	g.deep = !g.Simple && r.Intn(50) == 0
	if g.deep {
		g.maxDepth = 6 + r.Intn(20)
	}
	m := &a.ModuleDefinition{}
	m.ModuleIdentifier.Reference = UpperName(r)
	m.TagDefault = []int{a.TAGS_EXPLICIT, a.TAGS_IMPLICIT}[r.Intn(2)]
	if g.TagDefault >= 0 {
		m.TagDefault = g.TagDefault
	}
	m.ExtensibilityImplied = r.Intn(5) == 0
	if !g.Simple && r.Intn(4) == 0 {
		m.ModuleBody.Imports = append(m.ModuleBody.Imports, g.f.importFrom())
	}
	n := 1 + r.Intn(g.MaxTypes)
	if !g.Simple && r.Intn(100) == 0 {
		n = 10 + r.Intn(90)
	}
	for i := 0; i < n; i++ {
		g.names = append(g.names, g.newTypeName())
		k := kStruct
		switch r.Intn(16) {
		case 0, 1, 2, 3:
			k = kLeaf
		case 4, 5:
			k = kSet
		case 6:
			k = kSeqOf
		case 7:
			k = kSetOf
		case 8, 9:
			k = kRef
		case 10:
			k = kRawChoice
		case 11:
			k = kAnyChoice
		case 12:
			k = kSingleChoice
		}
		if g.ChoiceTypes && r.Intn(3) == 0 {
			k = []codeKind{kRawChoice, kAnyChoice, kSingleChoice}[r.Intn(3)]
		}
		g.kinds = append(g.kinds, k)
	}
	var list []a.Assignment
	if !g.Simple {
		for k := r.Intn(3); k > 0; k-- {
			name := g.newValueName()
			list = append(list, a.ValueAssignment{ValueReference: a.ValueReference(name), Type: a.IntegerType{}, Value: g.f.number()})
			g.intVals = append(g.intVals, name)
		}
	}
	for i := 0; i < n; i++ {
		g.rank = i
		t := g.assigned(g.kinds[i])
		g.types[g.names[i]] = t
		if it, ok := Strip(t).(a.IntegerType); ok {
			for _, nn := range it.NamedNumberList {
				_ = nn // names were claimed when they were made
			}
		}
		list = append(list, a.TypeAssignment{TypeReference: a.TypeReference(g.names[i]), Type: t})
	}
	g.rank = n
	if !g.Simple {
		for k := r.Intn(4) + g.Values; k > 0; k-- {
			list = append(list, g.value())
		}
	}
	r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	m.ModuleBody.AssignmentList = list
	return m
}

// value makes a value assignment: a literal of a matching type, or one of those that are not generated.
func (g *Code) value() a.ValueAssignment {
	v := a.ValueAssignment{ValueReference: a.ValueReference(g.newValueName())}
	switch g.R.Intn(8) {
	case 0:
		v.Type, v.Value = a.ObjectIdentifierType{}, g.f.OID()
		return v
	case 1:
		v.Type, v.Value = a.BooleanType{}, a.Boolean(g.R.Intn(2) == 0)
	case 2, 3:
		v.Type, v.Value = a.RealType{}, g.f.Real()
		if g.R.Intn(3) == 0 {
			v.Value = g.f.number()
		}
	default:
		v.Type, v.Value = a.IntegerType{}, g.f.number()
	}
	// type by reference, if there is one
	if g.R.Intn(3) != 0 {
		var fit []string
		for _, n := range g.names {
			if fmt.Sprintf("%T", g.types.Leaf(g.types[n])) == fmt.Sprintf("%T", v.Type) {
				fit = append(fit, n)
			}
		}
		if len(fit) > 0 {
			v.Type = a.TypeReference(fit[g.R.Intn(len(fit))])
		}
	}
	v.Type = g.wrap(v.Type, 0)
	return v
}

// wrap adds tags and constraints now and then.
func (g *Code) wrap(t a.Type, depth int) a.Type {
	if g.R.Intn(6) == 0 && !endsOpen(t) {
		t = a.ConstraintedType{Type: t, Constraint: g.f.Constraint(1)}
		for g.R.Intn(3) == 0 { // constraints in a row
			t = a.ConstraintedType{Type: t, Constraint: g.f.Constraint(1)}
		}
	} else if g.R.Intn(3) == 0 {
		switch t.(type) {
		case a.SequenceOfType, a.SetOfType:
			c := g.f.Constraint(1)
			if g.R.Intn(2) == 0 {
				c = a.SingleElementConstraint(a.SizeConstraint{Constraint: c})
			}
			t = a.ConstraintedType{Type: t, Constraint: c}
		}
	}
	if g.R.Intn(4) == 0 {
		if _, ok := t.(a.TaggedType); !ok || g.DoubleTags {
			t = g.Tag(t)
		}
	}
	return t
}

// Tag puts a tag on a type.
func (g *Code) Tag(t a.Type) a.TaggedType {
	tt := a.TaggedType{Type: t}
	tt.Tag.Class = []int{a.CLASS_CONTEXT_SPECIFIC, a.CLASS_CONTEXT_SPECIFIC, a.CLASS_CONTEXT_SPECIFIC, a.CLASS_APPLICATION, a.CLASS_PRIVATE}[g.R.Intn(5)]
	if g.UniversalTags && g.R.Intn(6) == 0 {
		tt.Tag.Class = a.CLASS_UNIVERSAL
	}
	n := g.R.Intn(40)
	if g.R.Intn(10) == 0 {
		n = int(g.R.Int31())
	}
	if g.WideTags && g.R.Intn(12) == 0 {
		n = []int{127, 128, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<53 + 1, 1<<63 - 1}[g.R.Intn(13)]
	}
	tt.Tag.ClassNumber = a.Number(n)
	switch g.R.Intn(3) {
	case 0:
		tt.HasTagType, tt.TagType = true, a.TAGS_IMPLICIT
	case 1:
		tt.HasTagType, tt.TagType = true, a.TAGS_EXPLICIT
	}
	return tt
}

func (g *Code) assigned(k codeKind) a.Type {
	d := g.maxDepth
	var t a.Type
	switch k {
	case kStruct:
		c, e := g.components(d)
		t = a.SequenceType{Components: c, ExtensionAdditions: e}
	case kSet:
		c, e := g.components(d)
		t = a.SetType{Components: c, ExtensionAdditions: e}
	case kSeqOf:
		t = a.SequenceOfType{Type: g.elem(d - 1)}
	case kSetOf:
		t = a.SetOfType{Type: g.elem(d - 1)}
	case kRef:
		t = g.ref()
	case kRawChoice, kAnyChoice, kSingleChoice:
		t = g.choice(k, d)
	default:
		t = g.leaf()
		if g.IntTypes && g.R.Intn(2) == 0 {
			t = a.IntegerType{}
		}
		if it, ok := t.(a.IntegerType); ok && !g.Simple && g.R.Intn(2) == 0 {
			for n := g.some(5); n > 0; n-- {
				nn := a.NamedNumber{Name: a.Identifier(g.lower())}
				if !g.claim(GoName(g.names[g.rank]) + "Val" + GoName(string(nn.Name))) {
					continue
				}
				nn.Value = g.f.number()
				if len(g.intVals) > 0 && g.R.Intn(3) == 0 {
					nn.Value = a.DefinedValue{ValueName: a.ValueReference(g.intVals[g.R.Intn(len(g.intVals))])}
				}
				it.NamedNumberList = append(it.NamedNumberList, nn)
			}
			t = it
		}
	}
	return g.wrap(t, d)
}

// some is a number of things from 1 to n, rarely many more.
func (g *Code) some(n int) int {
	if !g.Simple && !g.deep && g.R.Intn(60) == 0 {
		return n + g.R.Intn(40)
	}
	return 1 + g.R.Intn(n)
}

// leaf is a type without other types in it.
func (g *Code) leaf() a.Type {
	if g.IntTypes && g.R.Intn(3) == 0 {
		return a.IntegerType{}
	}
	switch g.R.Intn(13) {
	case 0:
		return a.BooleanType{}
	case 1, 2:
		return a.IntegerType{}
	case 3:
		return a.RealType{}
	case 4:
		return a.ObjectIdentifierType{}
	case 5:
		return a.OctetStringType{}
	case 6:
		t := a.BitStringType{}
		for n := g.R.Intn(3); n > 0; n-- {
			t.NamedBits = append(t.NamedBits, a.NamedBit{Name: a.Identifier(g.lower()), Index: a.Number(g.R.Intn(30))})
		}
		return t
	case 7:
		return a.CharacterStringType{}
	case 8, 9:
		return a.RestrictedStringType{LexType: StringKinds[g.R.Intn(len(StringKinds))].Lex}
	case 10:
		t := a.AnyType{}
		if g.R.Intn(2) == 0 {
			t.Identifier = a.Identifier(g.lower())
		}
		return t
	case 11:
		t := a.EnumeratedType{}
		for n := g.some(3); n > 0; n-- {
			if g.R.Intn(2) == 0 {
				t.RootEnumeration = append(t.RootEnumeration, a.Identifier(LowerName(g.R)))
			} else {
				t.RootEnumeration = append(t.RootEnumeration, a.NamedNumber{Name: a.Identifier(LowerName(g.R)), Value: g.f.number()})
			}
		}
		return t
	default:
		return a.TypeReference([]string{"GeneralizedTime", "UTCTime"}[g.R.Intn(2)])
	}
}

// ref refers to a type of lower rank.
func (g *Code) ref() a.Type {
	if g.rank == 0 {
		return g.leaf()
	}
	return a.TypeReference(g.names[g.R.Intn(g.rank)])
}

// elem is a type of elements, that may be any declared structure.
func (g *Code) elem(depth int) a.Type {
	if g.R.Intn(3) == 0 {
		var fit []string
		for i, k := range g.kinds {
			if k == kStruct || k == kSet {
				fit = append(fit, g.names[i])
			}
		}
		if len(fit) > 0 {
			return g.wrap(a.TypeReference(fit[g.R.Intn(len(fit))]), depth)
		}
	}
	return g.typ(depth)
}

func (g *Code) typ(depth int) a.Type {
	g.budget--
	if depth <= 0 || g.budget <= 0 {
		if g.R.Intn(3) == 0 {
			return g.wrap(g.ref(), depth)
		}
		return g.wrap(g.leaf(), depth)
	}
	var t a.Type
	kind := g.R.Intn(14)
	if g.deep && kind > 5 && g.R.Intn(4) != 0 {
		kind = g.R.Intn(6)
	}
	if g.ChoiceTypes && g.R.Intn(3) == 0 {
		kind = 5
	}
	switch kind {
	case 0, 1:
		c, e := g.components(depth - 1)
		t = a.SequenceType{Components: c, ExtensionAdditions: e}
	case 2:
		c, e := g.components(depth - 1)
		t = a.SetType{Components: c, ExtensionAdditions: e}
	case 3:
		t = a.SequenceOfType{Type: g.elem(depth - 1)}
	case 4:
		t = a.SetOfType{Type: g.elem(depth - 1)}
	case 5:
		t = g.choice([]codeKind{kRawChoice, kAnyChoice, kSingleChoice}[g.R.Intn(3)], depth)
	case 6, 7, 8:
		t = g.ref()
	default:
		t = g.leaf()
	}
	return g.wrap(t, depth)
}

// choice of a kind: with a tagged alternative, of a single untagged alternative, or of several untagged ones.
func (g *Code) choice(k codeKind, depth int) a.Type {
	var t a.ChoiceType
	names := map[string]bool{}
	alt := func(x a.Type) a.NamedType {
		for {
			n := g.lower()
			if !names[n] {
				names[n] = true
				return a.NamedType{Identifier: a.Identifier(n), Type: x}
			}
		}
	}
	add := func(n a.NamedType) {
		if len(t.AlternativeTypeList) > 0 && g.R.Intn(5) == 0 || len(t.ExtensionTypes) > 0 {
			t.ExtensionTypes = append(t.ExtensionTypes, n)
		} else {
			t.AlternativeTypeList = append(t.AlternativeTypeList, n)
		}
	}
	untagged := func(single bool) a.Type {
		for tries := 0; ; tries++ {
			x := g.typ(depth - 1)
			if tries > 20 {
				x = a.BooleanType{}
			}
			if g.Null && !single && g.R.Intn(6) == 0 {
				x = a.NullType{}
			}
			_, nested := g.types.Leaf(x).(a.ChoiceType)
			if !g.types.Tagged(x) && (single || !nested) {
				return x
			}
		}
	}
	switch k {
	case kSingleChoice:
		t.AlternativeTypeList = []a.NamedType{alt(untagged(true))}
	case kAnyChoice:
		for n := 1 + g.some(3); n > 0; n-- {
			add(alt(untagged(false)))
		}
	default:
		n := g.some(4)
		must := g.R.Intn(n)
		for i := 0; i < n; i++ {
			var x a.Type
			switch {
			case i == must || g.R.Intn(2) == 0:
				x = g.taggedAlternative(depth)
			default:
				x = untagged(false)
			}
			add(alt(x))
		}
	}
	return t
}

// taggedAlternative is a type with a tag on it, under constraints, or on what it refers to.
func (g *Code) taggedAlternative(depth int) a.Type {
	if g.R.Intn(3) == 0 {
		var fit []string
		for i := 0; i < g.rank; i++ {
			if g.types.Tagged(g.types[g.names[i]]) {
				fit = append(fit, g.names[i])
			}
		}
		if len(fit) > 0 {
			var t a.Type = a.TypeReference(fit[g.R.Intn(len(fit))])
			if g.R.Intn(3) == 0 {
				t = a.ConstraintedType{Type: t, Constraint: g.f.Constraint(1)}
			}
			return t
		}
	}
	var t a.Type
	switch {
	case g.R.Intn(4) == 0: // whatever is declared, also what is declared by means of this type
		t = a.TypeReference(g.names[g.R.Intn(len(g.names))])
	case g.Null && g.R.Intn(6) == 0:
		t = a.NullType{}
	default:
		t = g.typ(depth - 1)
	}
	if tt, ok := t.(a.TaggedType); ok && !g.DoubleTags {
		return tt
	}
	return g.Tag(t)
}

func (g *Code) components(depth int) (a.ComponentTypeList, a.ExtensionAdditions) {
	var cs a.ComponentTypeList
	var es a.ExtensionAdditions
	names := map[string]bool{}
	n := g.f.len(0)
	for i := 0; i < n; i++ {
		c, ok := g.component(depth, names)
		if ok {
			cs = append(cs, c)
		}
	}
	if len(cs) > 0 && g.R.Intn(4) == 0 {
		for k := g.R.Intn(4); k >= 0; k-- {
			if c, ok := g.component(depth, names); ok {
				es = append(es, c)
			}
		}
	}
	return cs, es
}

func (g *Code) component(depth int, names map[string]bool) (a.NamedComponentType, bool) {
	name := g.lower()
	c := a.NamedComponentType{NamedType: a.NamedType{Identifier: a.Identifier(name)}}
	if names[name] {
		return c, false
	}
	names[name] = true
	c.NamedType.Type = g.typ(depth - 1)
	switch g.R.Intn(4) {
	case 0:
		c.IsOptional = true
	case 1:
		v := g.defaultFor(c.NamedType.Type)
		c.Default = &v
	}
	return c, true
}

// defaultFor makes a default value, that belongs to the type where there are literals of the type.
func (g *Code) defaultFor(t a.Type) a.Value {
	switch g.types.Leaf(t).(type) {
	case a.IntegerType:
		if g.R.Intn(4) == 0 {
			return a.IdentifiedIntegerValue{Name: LowerName(g.R)}
		}
		return g.f.number()
	case a.BooleanType:
		return a.Boolean(g.R.Intn(2) == 0)
	case a.RealType:
		return g.f.Real()
	case a.ObjectIdentifierType:
		return g.f.OID()
	default:
		return a.IdentifiedIntegerValue{Name: LowerName(g.R)}
	}
}

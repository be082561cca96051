// Package wire makes modules within the limits of encoding/asn1, values of their types, and the DER encodings
// of those values from the ASN.1 text alone. It also is the driver of programs that generated packages are compiled into.
package wire

import (
	"fmt"
	"math"
	"math/rand"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
)

// Config of generated modules.
type Config struct {
	Seed int64
	// Choices makes CHOICE types frequent.
	Choices bool
	// Fixed stands for a module and a value that are not random: 1 is SET OF within SEQUENCE OF.
	Fixed int
}

// Gen generates modules.
type Gen struct {
	R      *rand.Rand
	Cfg    Config
	Module *a.ModuleDefinition
	Env    gen.Env

	names  []string
	kinds  []int
	rank   int
	budget int
	used   map[string]bool
}

const (
	dLeaf = iota
	dSeq
	dSet
	dSeqOf
	dSetOf
	dRef
	dChoice
	dSingle
	dAny
	dTagged // only used by alternatives
)

// New generates a module.
func New(cfg Config) *Gen {
	g := &Gen{R: rand.New(rand.NewSource(cfg.Seed)), Cfg: cfg, Env: gen.Env{}, used: map[string]bool{}}
	r := g.R
	m := &a.ModuleDefinition{}
	if cfg.Fixed == 1 {
		m.ModuleIdentifier.Reference = "M"
		t := a.SequenceType{Components: a.ComponentTypeList{a.NamedComponentType{NamedType: a.NamedType{Identifier: "x", Type: a.SequenceOfType{Type: a.SetOfType{Type: a.IntegerType{}}}}}}}
		g.names, g.kinds, g.Env["A"] = []string{"A"}, []int{dSeq}, t
		m.ModuleBody.AssignmentList = a.AssignmentList{a.TypeAssignment{TypeReference: "A", Type: t}}
		g.Module = m
		return g
	}
	m.ModuleIdentifier.Reference = gen.UpperName(r)
	m.TagDefault = []int{a.TAGS_EXPLICIT, a.TAGS_IMPLICIT}[r.Intn(2)]
	m.ExtensibilityImplied = r.Intn(8) == 0
	g.Module = m
	n := 2 + r.Intn(8)
	g.budget = 40 + r.Intn(60)
	for i := 0; i < n; i++ {
		k := []int{dSeq, dSeq, dSeq, dSeq, dSet, dSeqOf, dSetOf, dLeaf, dLeaf, dRef, dChoice, dSingle, dAny, dTagged}[r.Intn(14)]
		if cfg.Choices && r.Intn(2) == 0 {
			k = []int{dChoice, dChoice, dChoice, dTagged, dSingle, dAny, dSeq, dSeqOf}[r.Intn(8)]
		}
		if i == n-1 {
			k = dSeq
		}
		g.names = append(g.names, g.typeName())
		g.kinds = append(g.kinds, k)
	}
	var list []a.Assignment
	for i := range g.names {
		g.rank = i
		t := g.declared(g.kinds[i])
		g.Env[g.names[i]] = t
		list = append(list, a.TypeAssignment{TypeReference: a.TypeReference(g.names[i]), Type: t})
	}
	r.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	m.ModuleBody.AssignmentList = list
	return g
}

func (g *Gen) typeName() string {
	for {
		s := gen.UpperName(g.R)
		n := gen.GoName(s)
		if !gen.IsReserved(s) && !g.used[n] && !g.used[n+"SET"] {
			g.used[n], g.used[n+"SET"] = true, true
			return s
		}
	}
}

func (g *Gen) p(n int) bool { return g.R.Intn(n) == 0 }

// places that types stand at
const (
	atDecl = iota
	atComponent
	atElement
	atAlternative
)

func (g *Gen) declared(k int) a.Type {
	switch k {
	case dSeq:
		return g.structure(false, 3)
	case dSet:
		return g.structure(true, 3)
	case dSeqOf:
		return g.constrain(a.SequenceOfType{Type: g.typ(atElement, 2)})
	case dSetOf:
		return g.constrain(a.SetOfType{Type: g.typ(atElement, 2)})
	case dRef:
		if t := g.ref(func(i int) bool { return g.kinds[i] != dTagged }); t != nil {
			return t
		}
	case dChoice:
		return g.choice(2)
	case dSingle:
		return g.single(atDecl, 2)
	case dAny:
		return g.anyChoice()
	case dTagged:
		return g.tag(g.free(1), a.CLASS_APPLICATION, g.number())
	}
	return g.constrain(g.leaf(atDecl))
}

// ref is a reference to a type of lower rank.
func (g *Gen) ref(ok func(i int) bool) a.Type {
	var fit []string
	for i := 0; i < g.rank; i++ {
		if ok(i) {
			fit = append(fit, g.names[i])
		}
	}
	if len(fit) == 0 {
		return nil
	}
	return a.TypeReference(fit[g.R.Intn(len(fit))])
}

// constrain adds a constraint that allows every value.
func (g *Gen) constrain(t a.Type) a.Type {
	if !g.p(5) {
		return t
	}
	all := a.SingleElementConstraint(a.ValueRange{})
	switch gen.Strip(t).(type) {
	case a.IntegerType:
		t = a.ConstraintedType{Type: t, Constraint: all}
		for g.p(3) {
			t = a.ConstraintedType{Type: t, Constraint: all}
		}
		return t
	case a.OctetStringType, a.RestrictedStringType, a.SequenceOfType, a.SetOfType:
		size := a.SingleElementConstraint(a.ValueRange{LowerEndpoint: a.RangeEndpoint{Value: a.Number(0)}})
		list := false
		switch gen.Strip(t).(type) {
		case a.SequenceOfType, a.SetOfType:
			list = true
		}
		t = a.ConstraintedType{Type: t, Constraint: a.SingleElementConstraint(a.SizeConstraint{Constraint: size})}
		for !list && g.p(3) { // a second constraint of a list would belong to its elements
			t = a.ConstraintedType{Type: t, Constraint: a.SingleElementConstraint(a.SizeConstraint{Constraint: size})}
		}
		return t
	}
	return t
}

var commonStrings = []int{a.PrintableString, a.IA5String, a.UTF8String, a.NumericString}
var otherStrings = []int{a.VisibleString, a.GeneralString, a.T61String, a.TeletexString, a.GraphicString, a.ISO646String, a.VideotexString}

func common(lex int) bool {
	for _, x := range commonStrings {
		if x == lex {
			return true
		}
	}
	return false
}

func (g *Gen) enumerated() a.Type {
	t := a.EnumeratedType{}
	names := map[string]bool{}
	numbered := g.p(2)
	for n := 1 + g.R.Intn(4); n > 0; n-- {
		id := gen.LowerName(g.R)
		if names[id] {
			continue
		}
		names[id] = true
		if !numbered {
			t.RootEnumeration = append(t.RootEnumeration, a.Identifier(id))
			continue
		}
		v := g.R.Intn(300) - 100
		if g.p(6) {
			v = math.MaxInt32 - g.R.Intn(3)
		}
		for _, x := range t.RootEnumeration {
			if x.(a.NamedNumber).Value == a.Number(v) {
				v = 1000 + n
			}
		}
		t.RootEnumeration = append(t.RootEnumeration, a.NamedNumber{Name: a.Identifier(id), Value: a.Number(v)})
	}
	return t
}

func (g *Gen) leaf(at int) a.Type {
	switch g.R.Intn(12) {
	case 0:
		return a.BooleanType{}
	case 1, 2:
		return a.IntegerType{}
	case 3:
		return a.ObjectIdentifierType{}
	case 4, 5:
		return a.OctetStringType{}
	case 6:
		t := a.BitStringType{}
		seen := map[string]bool{}
		for n := g.R.Intn(4); n > 0; n-- {
			id := gen.LowerName(g.R)
			if !seen[id] {
				seen[id] = true
				t.NamedBits = append(t.NamedBits, a.NamedBit{Name: a.Identifier(id), Index: a.Number(len(t.NamedBits) * 3)})
			}
		}
		return t
	case 7:
		return g.enumerated()
	case 8:
		if at == atElement {
			return a.TypeReference("UTCTime")
		}
		return a.TypeReference([]string{"GeneralizedTime", "UTCTime"}[g.R.Intn(2)])
	default:
		if at == atElement {
			return a.RestrictedStringType{LexType: []int{a.PrintableString, a.UTF8String}[g.R.Intn(2)]}
		}
		if at != atDecl && g.p(5) || at == atDecl && g.p(8) {
			return a.RestrictedStringType{LexType: otherStrings[g.R.Intn(len(otherStrings))]}
		}
		return a.RestrictedStringType{LexType: commonStrings[g.R.Intn(len(commonStrings))]}
	}
}

// Rep is what a type is represented by.
type Rep int

const (
	RepLeaf Rep = iota
	RepStruct
	RepList
	RepRaw
	RepAny
)

// Alternatives of the root and of the extension.
func Alternatives(t a.ChoiceType) (alts []a.NamedType, extended bool) {
	alts = append(alts, t.AlternativeTypeList...)
	for _, x := range t.ExtensionTypes {
		if nt, ok := x.(a.NamedType); ok {
			alts = append(alts, nt)
			extended = true
		}
	}
	return
}

// Resolve removes tags, constraints, references and CHOICE of a single untagged alternative.
// byName is false if there was no reference.
func Resolve(env gen.Env, t a.Type) (leaf a.Type, rep Rep, byName bool) {
	for n := 0; n < 1000; n++ {
		t = gen.Strip(t)
		switch tt := t.(type) {
		case a.TypeReference:
			next, ok := env[string(tt)]
			if !ok {
				return t, RepLeaf, byName
			}
			byName = true
			t = next
		case a.ChoiceType:
			alts, ext := Alternatives(tt)
			tagged := false
			for _, x := range alts {
				tagged = tagged || env.Tagged(x.Type)
			}
			switch {
			case tagged:
				return t, RepRaw, byName
			case len(alts) == 1 && !ext:
				t = alts[0].Type
			default:
				return t, RepAny, byName
			}
		case a.AnyType:
			return t, RepAny, byName
		case a.SequenceType, a.SetType:
			return t, RepStruct, byName
		case a.SequenceOfType, a.SetOfType:
			return t, RepList, byName
		default:
			return t, RepLeaf, byName
		}
	}
	panic("endless reference")
}

// fits says if a type may stand at a place with no tag of its own. For components, other string kinds fit if
// the component is going to have an implicit tag.
func (g *Gen) fits(t a.Type, at int) bool {
	leaf, rep, byName := Resolve(g.Env, t)
	switch at {
	case atElement:
		switch leaf := leaf.(type) {
		case a.SetType:
			return false
		case a.SetOfType:
			return byName
		case a.RestrictedStringType:
			return leaf.LexType == a.PrintableString || leaf.LexType == a.UTF8String
		case a.TypeReference:
			return leaf == "UTCTime"
		}
		return rep != RepAny
	}
	return true
}

// typ is an untagged type for a place.
func (g *Gen) typ(at, depth int) a.Type {
	g.budget--
	for tries := 0; tries < 50; tries++ {
		t := g.typ1(at, depth)
		if t != nil && g.fits(t, at) {
			return t
		}
	}
	return a.IntegerType{}
}

func (g *Gen) typ1(at, depth int) a.Type {
	k := g.R.Intn(18)
	if g.Cfg.Choices && g.p(3) {
		k = 3 + g.R.Intn(2)
	}
	if depth <= 0 || g.budget <= 0 {
		if k < 4 {
			k = 9
		}
		k = 6 + k%12
	}
	switch k {
	case 0:
		return g.structure(false, depth-1)
	case 1:
		return g.structure(true, depth-1)
	case 2:
		return g.constrain(a.SequenceOfType{Type: g.typ(atElement, depth-1)})
	case 3:
		return g.choice(depth - 1)
	case 4:
		if g.p(2) {
			return g.single(at, depth-1)
		}
		return g.anyChoice()
	case 5:
		return g.constrain(a.SetOfType{Type: g.typ(atElement, depth-1)})
	case 6, 7, 8, 9:
		return g.ref(func(i int) bool { return g.kinds[i] != dTagged })
	case 10:
		if at == atElement { // any structure, also those that are declared later
			var fit []string
			for i, k := range g.kinds {
				if k == dSeq {
					fit = append(fit, g.names[i])
				}
			}
			if len(fit) > 0 {
				return a.TypeReference(fit[g.R.Intn(len(fit))])
			}
		}
		if at == atComponent && g.p(3) {
			return a.AnyType{}
		}
	}
	return g.constrain(g.leaf(at))
}

// number of a tag.
func (g *Gen) number() int {
	switch g.R.Intn(10) {
	case 0:
		return 31 + g.R.Intn(200)
	case 1:
		return []int{30, 31, 127, 128, 16383, 16384, math.MaxInt32}[g.R.Intn(7)]
	}
	return g.R.Intn(31)
}

// explicit says if a tag is explicit, by X.680 31.2.7.
func explicit(env gen.Env, tagDefault int, t a.TaggedType) bool {
	if t.HasTagType {
		return t.TagType == a.TAGS_EXPLICIT
	}
	if tagDefault == a.TAGS_EXPLICIT {
		return true
	}
	// the tag stands before an untagged CHOICE or open type
	var x a.Type = t.Type
	for n := 0; n < 1000; n++ {
		switch tt := x.(type) {
		case a.ConstraintedType:
			x = tt.Type
		case a.TypeReference:
			next, ok := env[string(tt)]
			if !ok {
				return false
			}
			x = next
		case a.ChoiceType, a.AnyType:
			return true
		default:
			return false
		}
	}
	return false
}

// explicitAfterAll says if a tag is explicit, or replaces the tag of one that is.
func explicitAfterAll(env gen.Env, tagDefault int, t a.TaggedType) bool {
	for {
		if explicit(env, tagDefault, t) {
			return true
		}
		inner, ok := t.Type.(a.TaggedType)
		if !ok {
			return false
		}
		t = inner
	}
}

func isOpen(env gen.Env, t a.Type) bool {
	switch env.Leaf(t).(type) {
	case a.ChoiceType, a.AnyType:
		return !env.Tagged(t)
	}
	return false
}

// tag puts a tag on a type, implicit or explicit in any way.
func (g *Gen) tag(t a.Type, class, n int) a.TaggedType {
	tt := a.TaggedType{Type: t, Tag: a.Tag{Class: class, ClassNumber: a.Number(n)}}
	switch g.R.Intn(3) {
	case 0:
		tt.HasTagType, tt.TagType = true, a.TAGS_EXPLICIT
	case 1:
		if !isOpen(g.Env, t) {
			tt.HasTagType, tt.TagType = true, a.TAGS_IMPLICIT
		}
	}
	return tt
}

// tagAs puts a tag on a type that is implicit or explicit as asked for.
func (g *Gen) tagAs(t a.Type, class, n int, want bool) a.TaggedType {
	tt := a.TaggedType{Type: t, Tag: a.Tag{Class: class, ClassNumber: a.Number(n)}}
	if explicit(g.Env, g.Module.TagDefault, tt) != want || g.p(3) {
		tt.HasTagType, tt.TagType = true, a.TAGS_IMPLICIT
		if want {
			tt.TagType = a.TAGS_EXPLICIT
		}
	}
	return tt
}

// choice with at least one tagged alternative, its alternatives may be anything.
func (g *Gen) choice(depth int) a.Type {
	var t a.ChoiceType
	names := map[string]bool{}
	n := 1 + g.R.Intn(4)
	must := g.R.Intn(n)
	num := g.R.Intn(3)
	for i := 0; i < n; i++ {
		id := gen.LowerName(g.R)
		for names[id] {
			id += "x"
		}
		names[id] = true
		x := g.free(depth - 1)
		if g.p(8) {
			x = a.NullType{}
		}
		if i == must || !g.p(3) {
			if r := g.ref(func(i int) bool { return g.kinds[i] == dTagged }); r != nil && g.p(3) {
				x = r
			} else {
				x = g.tag(x, []int{a.CLASS_CONTEXT_SPECIFIC, a.CLASS_CONTEXT_SPECIFIC, a.CLASS_PRIVATE}[g.R.Intn(3)], num)
				num += 1 + g.R.Intn(3)
			}
		}
		nt := a.NamedType{Identifier: a.Identifier(id), Type: x}
		if i > 0 && g.p(5) || len(t.ExtensionTypes) > 0 {
			t.ExtensionTypes = append(t.ExtensionTypes, nt)
		} else {
			t.AlternativeTypeList = append(t.AlternativeTypeList, nt)
		}
	}
	return t
}

// free is any type, as it may stand in a CHOICE that is represented by its encoding.
func (g *Gen) free(depth int) a.Type {
	if g.p(4) {
		// nested choices keep their own alternatives
		if r := g.ref(func(i int) bool { return g.kinds[i] != dTagged && g.kinds[i] != dChoice }); r != nil {
			return r
		}
	}
	return g.typ(atComponent, depth)
}

// single is a CHOICE of one untagged alternative.
func (g *Gen) single(at, depth int) a.Type {
	for {
		x := g.typ(at, depth-1)
		if !g.Env.Tagged(x) {
			return a.ChoiceType{AlternativeTypeList: []a.NamedType{{Identifier: a.Identifier(gen.LowerName(g.R)), Type: x}}}
		}
	}
}

// anyChoice is a CHOICE of several primitive types.
func (g *Gen) anyChoice() a.Type {
	var t a.ChoiceType
	pool := []a.Type{a.BooleanType{}, a.IntegerType{}, a.OctetStringType{}, a.BitStringType{}, a.ObjectIdentifierType{},
		a.RestrictedStringType{LexType: a.PrintableString}, a.RestrictedStringType{LexType: a.UTF8String}, a.TypeReference("UTCTime"), a.TypeReference("GeneralizedTime")}
	g.R.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	for i, x := range pool[:2+g.R.Intn(4)] {
		nt := a.NamedType{Identifier: a.Identifier(fmt.Sprintf("alt%d", i)), Type: x}
		if i > 0 && g.p(4) || len(t.ExtensionTypes) > 0 {
			t.ExtensionTypes = append(t.ExtensionTypes, nt)
		} else {
			t.AlternativeTypeList = append(t.AlternativeTypeList, nt)
		}
	}
	return t
}

// key that tells a component from others.
type key struct {
	class int
	num   int
}

// family of an untagged type, those that encoding/asn1 does not tell apart are one.
func (g *Gen) family(t a.Type) key {
	leaf, _, _ := Resolve(g.Env, t)
	n := 0
	switch leaf := leaf.(type) {
	case a.BooleanType:
		n = 1
	case a.IntegerType:
		n = 2
	case a.BitStringType:
		n = 3
	case a.OctetStringType:
		n = 4
	case a.ObjectIdentifierType:
		n = 6
	case a.EnumeratedType:
		n = 10
	case a.RestrictedStringType:
		n = 19
	case a.TypeReference:
		n = 23
	case a.SequenceType, a.SequenceOfType:
		n = 16
	case a.SetType, a.SetOfType:
		n = 17
	default:
		panic(fmt.Sprintf("family of %T", leaf))
	}
	return key{a.CLASS_UNIVERSAL, n}
}

// structure makes a SEQUENCE or SET.
func (g *Gen) structure(set bool, depth int) a.Type {
	n := g.R.Intn(6)
	if g.p(15) {
		n = g.R.Intn(20)
	}
	names := map[string]bool{}
	open := map[key]bool{} // optional components before, since the last that has to be there
	used := map[key]bool{} // tags
	num := g.R.Intn(3)
	last := false
	component := func() a.NamedComponentType {
		c := a.NamedComponentType{}
		id := gen.LowerName(g.R)
		for names[gen.GoName(id)] {
			id += "x"
		}
		names[gen.GoName(id)] = true
		c.NamedType.Identifier = a.Identifier(id)
		t := g.typ(atComponent, depth-1)
		leaf, rep, _ := Resolve(g.Env, t)
		opt := g.p(3)
		if rep == RepAny && (set || len(open) > 0) {
			t = a.OctetStringType{}
			leaf, rep, _ = Resolve(g.Env, t)
		}
		if rep == RepAny {
			c.NamedType.Type = t
			open = map[key]bool{}
			return c
		}
		s, isString := leaf.(a.RestrictedStringType)
		mustImplicit := isString && !common(s.LexType)
		if mustImplicit && isOpen(g.Env, t) { // a CHOICE of a string can not be tagged implicitly
			s.LexType = a.UTF8String
			t, mustImplicit = s, false
			leaf = t
		}
		mustExplicit := isOpen(g.Env, t)
		mustTag := set || mustImplicit
		if rep == RepRaw && (opt || len(open) > 0) {
			mustTag = true
		}
		if rep != RepRaw && !mustTag && open[g.family(t)] {
			mustTag = true
		}
		if rep == RepRaw && opt && !set && len(open) == 0 && g.p(5) {
			// untagged and optional, nothing may follow
			mustTag, last = false, true
			c.NamedType.Type, c.IsOptional = t, true
			return c
		}
		var k key
		if mustTag || g.p(2) {
			class := a.CLASS_CONTEXT_SPECIFIC
			if !set {
				class = []int{a.CLASS_CONTEXT_SPECIFIC, a.CLASS_CONTEXT_SPECIFIC, a.CLASS_APPLICATION, a.CLASS_PRIVATE}[g.R.Intn(4)]
			}
			ex := mustExplicit || !mustImplicit && g.p(2)
			if ex && class == a.CLASS_PRIVATE {
				class = a.CLASS_CONTEXT_SPECIFIC
			}
			nn := g.number()
			if set {
				num += g.R.Intn(20)
				nn = num
				num++
			} else {
				for used[key{class, nn}] {
					nn++
					if nn >= math.MaxInt32 {
						nn = 0
					}
				}
			}
			k = key{class, nn}
			used[k] = true
			if g.p(6) { // tags that are replaced by an implicit one in front of them
				t = g.tagAs(t, g.R.Intn(4), g.R.Intn(50), ex)
				for g.p(4) {
					t = g.tagAs(t, g.R.Intn(4), g.R.Intn(50), false)
				}
				ex = false
			}
			t = g.tagAs(t, class, nn, ex)
		} else if rep != RepRaw {
			k = g.family(t)
		}
		c.NamedType.Type = t
		if opt {
			c.IsOptional = true
		} else if g.p(3) {
			if v := g.defaultOf(t); v != nil {
				c.Default = &v
			}
		}
		if c.IsOptional || c.Default != nil {
			open[k] = true
		} else {
			open = map[key]bool{}
		}
		return c
	}
	var cs a.ComponentTypeList
	var es a.ExtensionAdditions
	for i := 0; i < n && !last; i++ {
		cs = append(cs, component())
	}
	if len(cs) > 0 && g.p(4) {
		for i := 1 + g.R.Intn(3); i > 0 && !last; i-- {
			es = append(es, component())
		}
	}
	if set {
		return a.SetType{Components: cs, ExtensionAdditions: es}
	}
	return a.SequenceType{Components: cs, ExtensionAdditions: es}
}

// defaultOf is a default that encoding/asn1 can represent, or nil.
func (g *Gen) defaultOf(t a.Type) a.Value {
	switch leaf := g.Env.Leaf(t).(type) {
	case a.IntegerType:
		switch g.R.Intn(5) {
		case 0:
			return a.Number(0)
		case 1:
			return a.Number([]int64{math.MaxInt64, math.MinInt64 + 1, -1, 128, -129}[g.R.Intn(5)])
		}
		return a.Number(g.R.Intn(1000) - 300)
	case a.BooleanType:
		return a.Boolean(false)
	case a.EnumeratedType:
		if id, ok := leaf.RootEnumeration[0].(a.Identifier); ok {
			return a.IdentifiedIntegerValue{Name: string(id)}
		}
	}
	return nil
}

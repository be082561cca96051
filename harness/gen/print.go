package gen

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	a "github.com/chemikadze/asn1go"
)

// Tok is a lexical item as text. Items of several pieces that can not be separated
// (real numbers) are one Tok.
type Tok string

// Printer prints ASTs as lexical items. Where notation has several spellings of the same, R chooses;
// without R the first one is used.
type Printer struct {
	R    *rand.Rand
	Toks []Tok
	// Marks are indices of Toks where an assignment starts.
	Marks []int
	// PlainExt prints extension additions without version brackets.
	PlainExt bool
}

func (p *Printer) w(s string) {
	for _, f := range strings.Fields(s) {
		p.Toks = append(p.Toks, Tok(f))
	}
}

func (p *Printer) n(k int) int {
	if p.R == nil {
		return 0
	}
	return p.R.Intn(k)
}

// junk generates parts that are not represented in AST.
func (p *Printer) junk() *Full {
	g := NewFull(p.R)
	g.budget = 6
	return g
}

// Module prints a module.
func (p *Printer) Module(m *a.ModuleDefinition) []Tok {
	p.w(m.ModuleIdentifier.Reference)
	if len(m.ModuleIdentifier.DefinitiveIdentifier) > 0 {
		p.w("{")
		for _, c := range m.ModuleIdentifier.DefinitiveIdentifier {
			switch {
			case c.Name == "":
				p.w(strconv.Itoa(c.Id))
			case c.Id == 0 && p.n(2) == 0:
				p.w(c.Name)
			default:
				p.w(c.Name + " ( " + strconv.Itoa(c.Id) + " )")
			}
		}
		p.w("}")
	}
	p.w("DEFINITIONS")
	switch m.TagDefault {
	case a.TAGS_EXPLICIT:
		if p.n(2) == 0 {
			p.w("EXPLICIT TAGS")
		}
	case a.TAGS_IMPLICIT:
		p.w("IMPLICIT TAGS")
	case a.TAGS_AUTOMATIC:
		p.w("AUTOMATIC TAGS")
	}
	if m.ExtensibilityImplied {
		p.w("EXTENSIBILITY IMPLIED")
	}
	p.w("::= BEGIN")
	if len(m.ModuleBody.AssignmentList) > 0 {
		switch p.n(5) {
		case 1:
			p.w("EXPORTS ALL ;")
		case 2:
			p.w("EXPORTS ;")
		case 3:
			p.w("EXPORTS")
			p.w(UpperName(p.R))
			for p.n(2) == 0 {
				p.w(", " + LowerName(p.R))
			}
			p.w(";")
		}
		if len(m.ModuleBody.Imports) > 0 || p.n(10) == 1 {
			p.w("IMPORTS")
			for _, i := range m.ModuleBody.Imports {
				for k, s := range i.SymbolList {
					if k > 0 {
						p.w(",")
					}
					p.w(fmt.Sprint(s))
				}
				p.w("FROM " + i.Module.Reference)
				switch v := i.Module.AssignedIdentifier.(type) {
				case a.ObjectIdentifierValue:
					p.Value(v)
				case a.DefinedValue:
					p.definedValue(v)
				}
			}
			p.w(";")
		}
		for _, x := range m.ModuleBody.AssignmentList {
			p.Marks = append(p.Marks, len(p.Toks))
			p.Assignment(x)
		}
	}
	p.w("END")
	return p.Toks
}

// Assignment prints an assignment.
func (p *Printer) Assignment(x a.Assignment) {
	switch x := x.(type) {
	case a.TypeAssignment:
		p.w(x.TypeReference.Name() + " ::=")
		p.Type(x.Type)
	case a.ValueAssignment:
		p.w(x.ValueReference.Name())
		p.Type(x.Type)
		p.w("::=")
		p.Value(x.Value)
	}
}

func (p *Printer) definedValue(v a.DefinedValue) {
	if v.ModuleName != "" {
		p.w(string(v.ModuleName) + " .")
	}
	p.w(string(v.ValueName))
}

func (p *Printer) num(n a.Number) {
	if n < 0 {
		p.w("-")
		p.w(strings.TrimPrefix(strconv.Itoa(int(n)), "-"))
		return
	}
	s := strconv.Itoa(int(n))
	p.w(s)
}

// FormatReal writes down a non-negative finite number as a realnumber.
func FormatReal(f float64, style int) string {
	var s string
	switch style {
	case 0:
		s = strconv.FormatFloat(f, 'f', -1, 64)
		if !strings.Contains(s, ".") {
			s += ".0"
		}
	case 1:
		s = strings.Replace(strconv.FormatFloat(f, 'E', -1, 64), "+", "", 1)
	default:
		s = strings.Replace(strconv.FormatFloat(f, 'e', -1, 64), "+", "", 1)
	}
	if i := strings.IndexByte(s, '.'); i > 18 { // integer part has to be a number of the lexer
		return FormatReal(f, 1)
	} else if i > 0 && style == 0 && len(s)-i-1 > 18 {
		return FormatReal(f, 1)
	}
	return s
}

// Value prints a value.
func (p *Printer) Value(v a.Value) {
	switch v := v.(type) {
	case a.Boolean:
		if v {
			p.w("TRUE")
		} else {
			p.w("FALSE")
		}
	case a.Number:
		p.num(v)
	case a.Real:
		f := float64(v)
		switch {
		case math.IsInf(f, 1):
			p.w("PLUS-INFINITY")
		case math.IsInf(f, -1):
			p.w("MINUS-INFINITY")
		default:
			if math.Signbit(f) {
				p.w("-")
			}
			p.w(FormatReal(math.Abs(f), p.n(3)))
		}
	case a.ObjectIdentifierValue:
		p.w("{")
		for _, e := range v {
			switch {
			case e.Name != "":
				p.w(e.Name + " (")
				if e.Reference != nil {
					p.definedValue(*e.Reference)
				} else {
					p.w(strconv.Itoa(e.ID))
				}
				p.w(")")
			case e.Reference != nil:
				p.definedValue(*e.Reference)
			default:
				p.w(strconv.Itoa(e.ID))
			}
		}
		p.w("}")
	case a.IdentifiedIntegerValue:
		p.w(v.Name)
	case a.DefinedValue:
		p.definedValue(v)
	default:
		panic(fmt.Sprintf("value %T", v))
	}
}

func (p *Printer) namedNumber(n a.NamedNumber) {
	p.w(string(n.Name) + " (")
	switch v := n.Value.(type) {
	case a.Number:
		p.num(v)
	case a.DefinedValue:
		p.definedValue(v)
	}
	p.w(")")
}

func (p *Printer) namedType(t a.NamedType) {
	p.w(t.Identifier.Name())
	p.Type(t.Type)
}

func (p *Printer) exception() {
	if p.n(5) == 1 {
		g := p.junk()
		p.w("!")
		switch p.n(3) {
		case 0:
			p.num(g.number())
		case 1:
			p.definedValue(g.DefinedValue())
		default:
			p.Type(a.IntegerType{})
			p.w(":")
			p.num(g.number())
		}
	}
}

// endMarker closes extension additions, which the tree does not keep.
func (p *Printer) endMarker() {
	if p.n(4) == 1 {
		p.w(", ...")
	}
}

func (p *Printer) structure(cs a.ComponentTypeList, es a.ExtensionAdditions) {
	p.w("{")
	for i, c := range cs {
		if i > 0 {
			p.w(",")
		}
		p.component(c)
	}
	if len(es) > 0 {
		p.w(", ...")
		p.exception()
		for i := 0; i < len(es); {
			p.w(",")
			if !p.PlainExt && p.n(4) == 1 {
				k := 1 + p.n(len(es)-i)
				p.w("[[")
				if p.n(2) == 1 {
					p.w(strconv.Itoa(2+p.n(8)) + " :")
				}
				for j := 0; j < k; j++ {
					if j > 0 {
						p.w(",")
					}
					p.component(es[i+j].(a.ComponentType))
				}
				p.w("]]")
				i += k
			} else {
				p.component(es[i].(a.ComponentType))
				i++
			}
		}
		p.endMarker()
	} else if len(cs) == 0 {
		if p.n(4) == 1 {
			p.w("...")
			p.exception()
			p.endMarker()
		}
	} else if p.n(6) == 1 {
		p.w(", ...")
		p.exception()
		p.endMarker()
	}
	p.w("}")
}

func (p *Printer) component(c a.ComponentType) {
	switch c := c.(type) {
	case a.ComponentsOfComponentType:
		p.w("COMPONENTS OF")
		p.Type(c.Type)
	case a.NamedComponentType:
		p.namedType(c.NamedType)
		if c.IsOptional {
			p.w("OPTIONAL")
		}
		if c.Default != nil {
			p.w("DEFAULT")
			p.Value(*c.Default)
		}
	}
}

func (p *Printer) elem(t a.Type) {
	if nt, ok := t.(a.NamedType); ok {
		p.namedType(nt)
	} else {
		p.Type(t)
	}
}

// Type prints a type.
func (p *Printer) Type(t a.Type) {
	switch t := t.(type) {
	case a.BooleanType:
		p.w("BOOLEAN")
	case a.IntegerType:
		p.w("INTEGER")
		for i, n := range t.NamedNumberList {
			p.w([]string{"{", ","}[min(i, 1)])
			p.namedNumber(n)
		}
		if len(t.NamedNumberList) > 0 {
			p.w("}")
		}
	case a.RealType:
		p.w("REAL")
	case a.NullType:
		p.w("NULL")
	case a.ObjectIdentifierType:
		p.w("OBJECT IDENTIFIER")
	case a.OctetStringType:
		p.w("OCTET STRING")
	case a.BitStringType:
		p.w("BIT STRING")
		for i, n := range t.NamedBits {
			p.w([]string{"{", ","}[min(i, 1)])
			p.w(string(n.Name) + " (")
			p.Value(n.Index)
			p.w(")")
		}
		if len(t.NamedBits) > 0 {
			p.w("}")
		}
	case a.CharacterStringType:
		p.w("CHARACTER STRING")
	case a.RestrictedStringType:
		p.w(StringWord(t.LexType))
	case a.AnyType:
		p.w("ANY")
		if t.Identifier != "" {
			p.w("DEFINED BY " + string(t.Identifier))
		}
	case a.EnumeratedType:
		p.w("ENUMERATED {")
		for i, e := range t.RootEnumeration {
			if i > 0 {
				p.w(",")
			}
			switch e := e.(type) {
			case a.Identifier:
				p.w(string(e))
			case a.NamedNumber:
				p.namedNumber(e)
			}
		}
		p.w("}")
	case a.TypeReference:
		p.w(t.Name())
	case a.SequenceType:
		p.w("SEQUENCE")
		p.structure(t.Components, t.ExtensionAdditions)
	case a.SetType:
		p.w("SET")
		p.structure(t.Components, t.ExtensionAdditions)
	case a.SequenceOfType:
		p.w("SEQUENCE OF")
		p.elem(t.Type)
	case a.SetOfType:
		p.w("SET OF")
		p.elem(t.Type)
	case a.ChoiceType:
		p.w("CHOICE {")
		for i, x := range t.AlternativeTypeList {
			if i > 0 {
				p.w(",")
			}
			p.namedType(x)
		}
		if len(t.ExtensionTypes) > 0 || len(t.AlternativeTypeList) == 0 || p.n(5) == 1 {
			if len(t.AlternativeTypeList) > 0 {
				p.w(",")
			}
			p.w("...")
			p.exception()
			for _, x := range t.ExtensionTypes {
				p.w(",")
				p.namedType(x.(a.NamedType))
			}
			p.endMarker()
		}
		p.w("}")
	case a.TaggedType:
		p.w("[")
		switch t.Tag.Class {
		case a.CLASS_UNIVERSAL:
			p.w("UNIVERSAL")
		case a.CLASS_APPLICATION:
			p.w("APPLICATION")
		case a.CLASS_PRIVATE:
			p.w("PRIVATE")
		}
		p.Value(t.Tag.ClassNumber)
		p.w("]")
		if t.HasTagType {
			switch t.TagType {
			case a.TAGS_IMPLICIT:
				p.w("IMPLICIT")
			case a.TAGS_EXPLICIT:
				p.w("EXPLICIT")
			}
		}
		p.Type(t.Type)
	case a.ConstraintedType:
		var word string
		var el a.Type
		switch x := t.Type.(type) {
		case a.SequenceOfType:
			word, el = "SEQUENCE", x.Type
		case a.SetOfType:
			word, el = "SET", x.Type
		default:
			p.Type(t.Type)
			p.constraint(t.Constraint)
			return
		}
		p.w(word)
		if s := onlySize(t.Constraint); s != nil && p.n(2) == 0 {
			p.w("SIZE")
			p.constraint(s.Constraint)
		} else {
			p.constraint(t.Constraint)
		}
		p.w("OF")
		p.elem(el)
	default:
		panic(fmt.Sprintf("type %T", t))
	}
}

// onlySize returns the size constraint if it is all there is.
func onlySize(c a.Constraint) *a.SizeConstraint {
	s, ok := c.ConstraintSpec.(a.SubtypeConstraint)
	if !ok || len(s) != 1 {
		return nil
	}
	u, ok := s[0].(a.Unions)
	if !ok || len(u) != 1 || len(u[0]) != 1 || u[0][0].Exclusions.Elements != nil {
		return nil
	}
	if z, ok := u[0][0].Elements.(a.SizeConstraint); ok {
		return &z
	}
	return nil
}

func (p *Printer) constraint(c a.Constraint) {
	s := c.ConstraintSpec.(a.SubtypeConstraint)
	p.w("(")
	p.elementSet(s[0])
	if len(s) > 1 {
		p.w(", ... ,")
		p.elementSet(s[1])
	} else if p.n(8) == 1 {
		p.w(", ...")
	}
	p.exception()
	p.w(")")
}

func (p *Printer) elementSet(s a.ElementSetSpec) {
	switch s := s.(type) {
	case a.Exclusions:
		p.w("ALL EXCEPT")
		p.elements(s.Elements)
	case a.Unions:
		for i, x := range s {
			if i > 0 {
				p.w([]string{"|", "UNION"}[p.n(2)])
			}
			for j, e := range x {
				if j > 0 {
					p.w([]string{"^", "INTERSECTION"}[p.n(2)])
				}
				p.elements(e.Elements)
				if e.Exclusions.Elements != nil {
					p.w("EXCEPT")
					p.elements(e.Exclusions.Elements)
				}
			}
		}
	}
}

func (p *Printer) elements(e a.Elements) {
	switch e := e.(type) {
	case a.SingleValue:
		p.Value(e.Value)
	case a.ValueRange:
		if e.LowerEndpoint.Value == nil {
			p.w("MIN")
		} else {
			p.Value(e.LowerEndpoint.Value)
		}
		if e.LowerEndpoint.IsOpen {
			p.w("<")
		}
		p.w("..")
		if e.UpperEndpoint.IsOpen {
			p.w("<")
		}
		if e.UpperEndpoint.Value == nil {
			p.w("MAX")
		} else {
			p.Value(e.UpperEndpoint.Value)
		}
	case a.SizeConstraint:
		p.w("SIZE")
		p.constraint(e.Constraint)
	case a.TypeConstraint:
		p.Type(e.Type)
	case a.InnerTypeConstraint:
		p.w("WITH")
		g := Full{R: p.R}
		if p.R == nil {
			g.R = rand.New(rand.NewSource(1))
		}
		simple := func() {
			p.constraint(a.SingleElementConstraint(a.SizeConstraint{Constraint: a.SingleElementConstraint(a.SingleValue{Value: a.Number(g.R.Intn(99))})}))
		}
		if p.n(2) == 0 {
			p.w("COMPONENT")
			simple()
			return
		}
		p.w("COMPONENTS {")
		if p.n(2) == 0 {
			p.w("... ,")
		}
		for i := 0; i == 0 || p.n(3) == 1; i++ {
			if i > 0 {
				p.w(",")
			}
			p.w(LowerName(g.R))
			if p.n(2) == 0 {
				simple()
			}
			p.w([]string{"", "PRESENT", "ABSENT", "OPTIONAL"}[p.n(4)])
		}
		p.w("}")
	case a.Unions:
		p.w("(")
		p.elementSet(e)
		p.w(")")
	case a.Exclusions:
		p.w("(")
		p.elementSet(e)
		p.w(")")
	default:
		panic(fmt.Sprintf("elements %T", e))
	}
}

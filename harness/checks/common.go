// Package checks holds the monitors, one per property.
package checks

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// All checks by id.
var All = map[string]*rt.Check{}

func register(c *rt.Check) { All[c.ID] = c }

// parse calls ParseString and reports panics and results that are neither or both.
func parse(c *rt.Case, text string) (*a.ModuleDefinition, error) {
	m, err := guard(c, "ParseString", func() (*a.ModuleDefinition, error) { return a.ParseString(text) })
	if (m == nil) == (err == nil) {
		c.Violation("ParseString returned module %v and error %v", m, err)
	}
	c.Eval(1)
	return m, err
}

func guard[T any](c *rt.Case, what string, f func() (T, error)) (v T, err error) {
	var p any
	var stack string
	func() {
		defer func() {
			if p = recover(); p != nil {
				stack = string(debug.Stack())
			}
		}()
		v, err = f()
	}()
	if p != nil {
		c.Violation("%s panics: %v\n%s", what, p, stack)
	}
	return
}

// mustParse is for text that is known to be valid.
func mustParse(c *rt.Case, text string) *a.ModuleDefinition {
	m, err := parse(c, text)
	if err != nil {
		c.Violation("valid module is rejected: %v\n%s", err, text)
	}
	return m
}

// generate calls Generate on a new generator.
func generate(c *rt.Case, m *a.ModuleDefinition, params a.GenParams) (string, error) {
	g := a.NewCodeGenerator(params)
	if g == nil {
		c.Violation("no generator for %+v", params)
	}
	return generateWith(c, g, m)
}

func generateWith(c *rt.Case, g a.CodeGenerator, m *a.ModuleDefinition) (string, error) {
	var buf bytes.Buffer
	_, err := guard(c, "Generate", func() (int, error) { return 0, g.Generate(*m, &buf) })
	c.Eval(1)
	return buf.String(), err
}

// mustGenerate is for modules that are known to be supported.
func mustGenerate(c *rt.Case, m *a.ModuleDefinition, params a.GenParams) string {
	out, err := generate(c, m, params)
	if err != nil {
		c.Violation("supported module is not generated: %v", err)
	}
	return out
}

// text prints a module in a random layout.
func text(c *rt.Case, m *a.ModuleDefinition, style int) string {
	p := gen.Printer{R: c.Rng}
	l := gen.Layout{R: c.Rng, Style: style}
	return l.Join(p.Module(m))
}

// plain prints a module in one spelling, an item after another.
func plain(m *a.ModuleDefinition) string {
	p := gen.Printer{PlainExt: true}
	l := gen.Layout{}
	return l.Join(p.Module(m))
}

// pretty prints a module with a line for every assignment.
func pretty(m *a.ModuleDefinition) string {
	p := gen.Printer{PlainExt: true}
	toks := p.Module(m)
	var b strings.Builder
	k := 0
	for i, t := range toks {
		if k < len(p.Marks) && p.Marks[k] == i || i == len(toks)-1 {
			b.WriteString("\n")
			k++
		} else if i > 0 {
			b.WriteString(" ")
		}
		b.WriteString(string(t))
	}
	return b.String()
}

func kindsOf(c *rt.Case, m *a.ModuleDefinition) {
	for _, x := range m.ModuleBody.AssignmentList {
		switch x := x.(type) {
		case a.TypeAssignment:
			walk(x.Type, func(t a.Type) { c.Count(fmt.Sprintf("type %T", t)[len("type asn1go."):], 1) })
		case a.ValueAssignment:
			c.Count(fmt.Sprintf("value %T", x.Value), 1)
		}
	}
}

// walk visits a type and the types within it.
func walk(t a.Type, f func(a.Type)) {
	f(t)
	comps := func(cs a.ComponentTypeList, es a.ExtensionAdditions) {
		for _, x := range cs {
			switch x := x.(type) {
			case a.NamedComponentType:
				walk(x.NamedType.Type, f)
			case a.ComponentsOfComponentType:
				walk(x.Type, f)
			}
		}
		for _, x := range es {
			switch x := x.(type) {
			case a.NamedComponentType:
				walk(x.NamedType.Type, f)
			case a.ComponentsOfComponentType:
				walk(x.Type, f)
			}
		}
	}
	switch t := t.(type) {
	case a.SequenceType:
		comps(t.Components, t.ExtensionAdditions)
	case a.SetType:
		comps(t.Components, t.ExtensionAdditions)
	case a.SequenceOfType:
		walk(t.Type, f)
	case a.SetOfType:
		walk(t.Type, f)
	case a.NamedType:
		walk(t.Type, f)
	case a.TaggedType:
		walk(t.Type, f)
	case a.ConstraintedType:
		walk(t.Type, f)
	case a.ChoiceType:
		for _, x := range t.AlternativeTypeList {
			walk(x.Type, f)
		}
		for _, x := range t.ExtensionTypes {
			if n, ok := x.(a.NamedType); ok {
				walk(n.Type, f)
			}
		}
	}
}

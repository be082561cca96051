package checks

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// An intSite is a place of a module where an integer literal is written.
type intSite struct {
	name     string
	text     string // %s is the literal
	negative bool
	get      func(m *a.ModuleDefinition) any
}

func typ(m *a.ModuleDefinition, i int) a.Type {
	return m.ModuleBody.AssignmentList[i].(a.TypeAssignment).Type
}

func val(m *a.ModuleDefinition, i int) a.Value {
	return m.ModuleBody.AssignmentList[i].(a.ValueAssignment).Value
}

func single(t a.Type) a.Elements {
	return t.(a.ConstraintedType).Constraint.ConstraintSpec.(a.SubtypeConstraint)[0].(a.Unions)[0][0].Elements
}

const head = "M DEFINITIONS ::= BEGIN "

var intSites = []intSite{
	{"value", head + "a INTEGER ::= %s b INTEGER ::= 77 END", true, func(m *a.ModuleDefinition) any { return val(m, 0) }},
	{"last value", head + "a INTEGER ::= 77 b INTEGER ::= %s END", true, func(m *a.ModuleDefinition) any { return val(m, 1) }},
	{"REAL value", head + "a REAL ::= %s B ::= NULL END", true, func(m *a.ModuleDefinition) any { return val(m, 0) }},
	{"named number", head + "A ::= INTEGER { x(3), y(%s), z(4) } END", true, func(m *a.ModuleDefinition) any { return typ(m, 0).(a.IntegerType).NamedNumberList[1].Value }},
	{"enumeration item", head + "A ::= ENUMERATED { x, y(%s), z(4) } END", true, func(m *a.ModuleDefinition) any {
		return typ(m, 0).(a.EnumeratedType).RootEnumeration[1].(a.NamedNumber).Value
	}},
	{"named bit", head + "A ::= BIT STRING { x(3), y(%s), z(4) } END", false, func(m *a.ModuleDefinition) any { return typ(m, 0).(a.BitStringType).NamedBits[1].Index }},
	{"tag", head + "A ::= [%s] INTEGER B ::= [3] NULL END", false, func(m *a.ModuleDefinition) any { return typ(m, 0).(a.TaggedType).Tag.ClassNumber }},
	{"application tag", head + "A ::= SEQUENCE { a [APPLICATION %s] IMPLICIT INTEGER, b [5] NULL } END", false, func(m *a.ModuleDefinition) any {
		return typ(m, 0).(a.SequenceType).Components[0].(a.NamedComponentType).NamedType.Type.(a.TaggedType).Tag.ClassNumber
	}},
	{"OID number", head + "a OBJECT IDENTIFIER ::= { 1 %s 3 } END", false, func(m *a.ModuleDefinition) any { return val(m, 0).(a.ObjectIdentifierValue)[1].ID }},
	{"OID first number", head + "a OBJECT IDENTIFIER ::= { %s 3 } b OBJECT IDENTIFIER ::= { 5 6 } END", false, func(m *a.ModuleDefinition) any { return val(m, 0).(a.ObjectIdentifierValue)[0].ID }},
	{"OID named number", head + "a OBJECT IDENTIFIER ::= { iso(1) x(%s) y(3) } END", false, func(m *a.ModuleDefinition) any { return val(m, 0).(a.ObjectIdentifierValue)[1].ID }},
	{"module identifier number", "M { iso %s 7 } DEFINITIONS ::= BEGIN A ::= NULL END", false, func(m *a.ModuleDefinition) any { return m.ModuleIdentifier.DefinitiveIdentifier[1].Id }},
	{"module identifier named number", "M { iso a(%s) 7 } DEFINITIONS ::= BEGIN A ::= NULL END", false, func(m *a.ModuleDefinition) any { return m.ModuleIdentifier.DefinitiveIdentifier[1].Id }},
	{"import identifier", "M DEFINITIONS ::= BEGIN IMPORTS A FROM B { 1 %s } C FROM D { 1 2 }; A ::= NULL END", false, func(m *a.ModuleDefinition) any {
		return m.ModuleBody.Imports[0].Module.AssignedIdentifier.(a.ObjectIdentifierValue)[1].ID
	}},
	{"single value constraint", head + "A ::= INTEGER (%s) END", true, func(m *a.ModuleDefinition) any { return single(typ(m, 0)).(a.SingleValue).Value }},
	{"lower endpoint", head + "A ::= INTEGER (%s..9) END", true, func(m *a.ModuleDefinition) any { return single(typ(m, 0)).(a.ValueRange).LowerEndpoint.Value }},
	{"upper endpoint", head + "A ::= INTEGER (-9..%s) END", true, func(m *a.ModuleDefinition) any { return single(typ(m, 0)).(a.ValueRange).UpperEndpoint.Value }},
	{"open upper endpoint", head + "A ::= INTEGER (1<..<%s) END", true, func(m *a.ModuleDefinition) any { return single(typ(m, 0)).(a.ValueRange).UpperEndpoint.Value }},
	{"union", head + "A ::= INTEGER (1 | %s | 3) END", true, func(m *a.ModuleDefinition) any {
		return typ(m, 0).(a.ConstraintedType).Constraint.ConstraintSpec.(a.SubtypeConstraint)[0].(a.Unions)[1][0].Elements.(a.SingleValue).Value
	}},
	{"size", head + "A ::= SEQUENCE SIZE(1..%s) OF NULL END", false, func(m *a.ModuleDefinition) any {
		return single(a.ConstraintedType{Constraint: single(typ(m, 0)).(a.SizeConstraint).Constraint}).(a.ValueRange).UpperEndpoint.Value
	}},
	{"DEFAULT", head + "A ::= SEQUENCE { a INTEGER DEFAULT %s, b INTEGER DEFAULT 77 } END", true, func(m *a.ModuleDefinition) any {
		return *typ(m, 0).(a.SequenceType).Components[0].(a.NamedComponentType).Default
	}},
	{"DEFAULT in SET", head + "A ::= SET { a INTEGER DEFAULT 77, b INTEGER DEFAULT %s } b INTEGER ::= 99 END", true, func(m *a.ModuleDefinition) any {
		return *typ(m, 0).(a.SetType).Components[1].(a.NamedComponentType).Default
	}},
	{"DEFAULT in extension", head + "A ::= SEQUENCE { a INTEGER DEFAULT 77, ..., [[ b INTEGER DEFAULT %s, c NULL ]], d INTEGER DEFAULT 3 } END", true, func(m *a.ModuleDefinition) any {
		return *typ(m, 0).(a.SequenceType).ExtensionAdditions[0].(a.NamedComponentType).Default
	}},
}

// at gets the value from the module, or the reason why it is not there.
func at(get func(m *a.ModuleDefinition) any, m *a.ModuleDefinition) (v any) {
	defer func() {
		if p := recover(); p != nil {
			v = fmt.Sprintf("module of other shape: %v", p)
		}
	}()
	return get(m)
}

func asInt(v any) (int64, bool) {
	switch v := v.(type) {
	case a.Number:
		return int64(v), true
	case int:
		return int64(v), true
	}
	return 0, false
}

func natLiteral(r *rand.Rand) string {
	edge := []string{"0", "1", "9223372036854775807", "9223372036854775808", "9223372036854775806", "9223372036854775809", "18446744073709551615", "18446744073709551616", "18446744073709551617",
		"4294967295", "4294967296", "2147483647", "2147483648", "9007199254740993", "10000000000000000000", "99999999999999999999", "340282366920938463463374607431768211456", "340282366920938463463374607431768211457"}
	var s string
	switch r.Intn(5) {
	case 0:
		s = edge[r.Intn(len(edge))]
	case 1:
		s = new(big.Int).Rand(r, new(big.Int).Lsh(big.NewInt(1), uint(1+r.Intn(140)))).String()
	case 2:
		s = fmt.Sprint(r.Int63())
	default:
		s = fmt.Sprint(r.Intn(100000))
	}
	switch r.Intn(60) {
	case 0: // far out of range
		n := 1 << r.Intn(14)
		b := make([]byte, n+r.Intn(n))
		for i := range b {
			b[i] = byte('0' + r.Intn(10))
		}
		s = "1" + string(b)
	case 1:
		s = rep("0", 1<<r.Intn(14)+r.Intn(50)) + s
	case 2, 3, 4, 5, 6, 7, 8, 9, 10:
		s = rep("0", 1+r.Intn(25)) + s
	}
	return s
}

// realLiteral makes a realnumber without sign.
func realLiteral(r *rand.Rand) string {
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + r.Intn(10))
		}
		return string(b)
	}
	num := func() string {
		s := digits(1 + r.Intn(18))
		if r.Intn(3) == 0 {
			s = fmt.Sprint(r.Intn(100))
		}
		return s
	}
	frac := func() string {
		s := num()
		if r.Intn(3) == 0 {
			n := 30
			if r.Intn(20) == 0 {
				n = 500
			}
			s = rep("0", r.Intn(n)) + s
		}
		if r.Intn(8) == 0 {
			s = strings.TrimLeft(s, "0")
			if len(s) > 10 {
				s = s[:10]
			}
			s += rep("0", 1+r.Intn(8))
		}
		return s
	}
	exp := func() string {
		var e int
		switch r.Intn(4) {
		case 0:
			e = r.Intn(5)
		case 1:
			e = r.Intn(40)
		case 2:
			e = 290 + r.Intn(50)
		default:
			e = r.Intn(330)
		}
		s := fmt.Sprint(e)
		if r.Intn(8) == 0 {
			s = rep("0", 1+r.Intn(3)*r.Intn(100)) + s
		}
		if r.Intn(2) == 0 {
			s = "-" + []string{"", " "}[r.Intn(2)] + s
		}
		return []string{"e", "E"}[r.Intn(2)] + s
	}
	switch r.Intn(6) {
	case 0:
		return num() + "." + frac()
	case 1:
		return num() + exp()
	case 2, 3:
		return num() + "." + frac() + exp()
	case 4: // halfway between two floats and around it
		f := math.Float64frombits(r.Uint64()&^(0xfff<<52) | uint64(1023+r.Intn(50))<<52)
		x := new(big.Float).SetFloat64(f)
		y := new(big.Float).SetFloat64(math.Nextafter(f, math.Inf(1)))
		mid := new(big.Float).SetPrec(300).Add(x, y)
		mid.Quo(mid, big.NewFloat(2))
		s := mid.Text('f', 80)
		i := strings.IndexByte(s, '.')
		fr := s[i+1:]
		if len(fr) > 18 {
			fr = fr[:18]
		}
		return s[:i] + "." + fr
	default:
		// shortest representation of any float
		for {
			f := math.Abs(math.Float64frombits(r.Uint64()))
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return gen.FormatReal(f, r.Intn(3))
			}
		}
	}
}

// nearest is the float64 nearest to the literal.
func nearest(lit string) float64 {
	lit = strings.ReplaceAll(lit, " ", "")
	x, ok := new(big.Rat).SetString(lit)
	if !ok {
		panic("literal " + lit)
	}
	f, _ := x.Float64()
	return f
}

var realSites = []struct {
	name, text string
	get        func(m *a.ModuleDefinition) any
}{
	{"value", head + "a REAL ::= %s END", func(m *a.ModuleDefinition) any { return val(m, 0) }},
	{"value before value", head + "a REAL ::= %s b REAL ::= 7.25 e REAL ::= 8.5E3 END", func(m *a.ModuleDefinition) any { return val(m, 0) }},
	{"value after value", head + "b REAL ::= 7.25E-1 e REAL ::= %s END", func(m *a.ModuleDefinition) any { return val(m, 1) }},
	{"DEFAULT", head + "A ::= SEQUENCE { a REAL DEFAULT %s, b REAL DEFAULT 7.5 } END", func(m *a.ModuleDefinition) any {
		return *typ(m, 0).(a.SequenceType).Components[0].(a.NamedComponentType).Default
	}},
	{"single value", head + "A ::= REAL (%s) END", func(m *a.ModuleDefinition) any { return single(typ(m, 0)).(a.SingleValue).Value }},
	{"lower endpoint", head + "A ::= REAL (%s..MAX) END", func(m *a.ModuleDefinition) any { return single(typ(m, 0)).(a.ValueRange).LowerEndpoint.Value }},
	{"upper endpoint", head + "A ::= REAL (MIN..<%s) END", func(m *a.ModuleDefinition) any { return single(typ(m, 0)).(a.ValueRange).UpperEndpoint.Value }},
}

func init() {
	register(&rt.Check{ID: "C06", Unprivileged: true,
		Rule: "integer literals of up to 140 bits at every place of the notation, real literals of all shapes compared with exact rational arithmetic, lists of DEFAULT and assigned values; distinct by literal and place",
		Run: func(r *rt.Runner) {
			r.Parallel("integers", r.N(150000, 3000000), func(c *rt.Case) {
				s := intSites[c.Index%len(intSites)]
				lit := natLiteral(c.Rng)
				x, _ := new(big.Int).SetString(lit, 10)
				shown := lit
				if s.negative && c.Rng.Intn(3) == 0 {
					shown = "-" + []string{"", " "}[c.Rng.Intn(2)] + lit
					x.Neg(x)
				}
				src := fmt.Sprintf(s.text, shown)
				c.Input("text", src)
				m, err := parse(c, src)
				if new(big.Int).Abs(x).IsInt64() {
					if err != nil {
						c.Violation("%s: literal %s is rejected: %v", s.name, shown, err)
					}
					v := at(s.get, m)
					got, ok := asInt(v)
					if !ok || got != x.Int64() {
						c.Violation("%s: literal %s is parsed as %#v", s.name, shown, v)
					}
					c.Count("accepted at: "+s.name, 1)
				} else {
					if err == nil {
						c.Violation("%s: literal %s that is out of range is parsed as %#v", s.name, shown, at(s.get, m))
					}
					c.Count("out of range", 1)
				}
				c.Sample(s.name, src)
				c.Nontrivial(s.name + shown)
			})
			r.Parallel("reals", r.N(150000, 3000000), func(c *rt.Case) {
				s := realSites[c.Index%len(realSites)]
				lit := realLiteral(c.Rng)
				want := nearest(lit)
				shown := lit
				if c.Rng.Intn(3) == 0 {
					shown = "-" + lit
					want = -want
				}
				if c.Rng.Intn(30) == 0 {
					want = math.Inf(1 - 2*(c.Index/len(realSites)%2))
					shown = []string{"PLUS-INFINITY", "MINUS-INFINITY"}[c.Index/len(realSites)%2]
				}
				src := fmt.Sprintf(s.text, shown)
				c.Input("text", src)
				m, err := parse(c, src)
				if err != nil {
					if math.IsInf(want, 0) && !strings.HasSuffix(shown, "INFINITY") {
						return // literal beyond the range of float64 can be rejected
					}
					c.Violation("%s: literal %s is rejected: %v", s.name, shown, err)
				}
				v := at(s.get, m)
				got, ok := v.(a.Real)
				if !ok || math.Float64bits(float64(got)) != math.Float64bits(want) {
					c.Violation("%s: literal %s is parsed as %#v instead of %v", s.name, shown, v, want)
				}
				c.Count("reals at: "+s.name, 1)
				c.Sample("real", src)
				c.Nontrivial(s.name + shown)
			})
			// values do not influence each other
			r.Parallel("lists", r.N(30000, 500000), func(c *rt.Case) {
				g := gen.NewFull(c.Rng)
				n := 2 + c.Rng.Intn(12)
				var vs []a.Value
				m := &a.ModuleDefinition{}
				m.ModuleIdentifier.Reference = "M"
				var comps, exts []a.NamedComponentType
				for i := 0; i < n; i++ {
					v := g.Value()
					vs = append(vs, v)
					nc := a.NamedComponentType{NamedType: a.NamedType{Identifier: a.Identifier(fmt.Sprintf("f%d", i)), Type: a.IntegerType{}}}
					if c.Rng.Intn(4) != 0 {
						w := v
						nc.Default = &w
					}
					if len(comps) == 0 || c.Rng.Intn(3) != 0 {
						comps = append(comps, nc)
					} else {
						exts = append(exts, nc)
					}
					m.ModuleBody.AssignmentList = append(m.ModuleBody.AssignmentList, a.ValueAssignment{ValueReference: a.ValueReference(fmt.Sprintf("v%d", i)), Type: a.RealType{}, Value: v})
				}
				var st a.SequenceType
				for _, x := range comps {
					st.Components = append(st.Components, x)
				}
				for _, x := range exts {
					st.ExtensionAdditions = append(st.ExtensionAdditions, x)
				}
				k := c.Rng.Intn(n + 1)
				l := m.ModuleBody.AssignmentList
				l = append(l[:k:k], append(a.AssignmentList{a.TypeAssignment{TypeReference: "T", Type: st}}, l[k:]...)...)
				m.ModuleBody.AssignmentList = l
				src := text(c, m, c.Rng.Intn(3))
				c.Input("text", src)
				got := mustParse(c, src)
				if d := gen.Diff(m, got); d != "" {
					c.Violation("values differ from what was written (expected != parsed) %s\n%s", d, src)
				}
				c.Count("values in lists", 2*n)
				c.Nontrivial(src)
			})
		}})
}

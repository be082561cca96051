package wire

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"time"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
)

// Val is a value:
// bool, *big.Int (INTEGER and ENUMERATED), []byte, Bits, []int (OBJECT IDENTIFIER), string, time.Time, Null,
// List (of any length), Struct (nil for what is absent), Choice.
type Val any

// Null is the value of NULL.
type Null struct{}

// Bits is a value of BIT STRING.
type Bits struct {
	Bytes []byte
	Len   int
}

// List is a value of an OF type.
type List []Val

// Struct has a value for each component, or nil.
type Struct []Val

// Choice is an alternative with its value. For ANY it is the type.
type Choice struct {
	Type a.Type
	V    Val
}

// Components of the root and the additions.
func Components(t a.Type) []a.NamedComponentType {
	var out []a.NamedComponentType
	add := func(cs a.ComponentTypeList, es a.ExtensionAdditions) {
		for _, c := range cs {
			out = append(out, c.(a.NamedComponentType))
		}
		for _, c := range es {
			out = append(out, c.(a.NamedComponentType))
		}
	}
	switch t := t.(type) {
	case a.SequenceType:
		add(t.Components, t.ExtensionAdditions)
	case a.SetType:
		add(t.Components, t.ExtensionAdditions)
	}
	return out
}

// Values makes values of types.
type Values struct {
	R          *rand.Rand
	Env        gen.Env
	TagDefault int
	BigInt     bool
	// Keep decides about a component, if set: -1 absent, 1 present, 0 by chance.
	Keep func(c a.NamedComponentType) int
	n    int
	bad  bool
}

// ctx of a value: what encoding/asn1 is able to represent there.
type ctx int

const (
	plain ctx = iota // a component
	elem             // an element: no parameters
	free             // within a RawValue, anything
)

func (g *Values) p(n int) bool { return g.R.Intn(n) == 0 }

// Value of a type that is assigned. It is false if none was found that encoding/asn1 can represent.
func (g *Values) Value(t a.Type) (Val, bool) {
	for tries := 0; ; tries++ {
		g.n, g.bad = 0, false
		v := g.value(t, plain, 0)
		if !g.bad {
			return v, true
		}
		if tries > 50 {
			return nil, false
		}
	}
}

func (g *Values) value(t a.Type, c ctx, depth int) Val {
	g.n++
	leaf := gen.Strip(t)
	if r, ok := leaf.(a.TypeReference); ok {
		if next, ok := g.Env[string(r)]; ok {
			return g.value(next, c, depth)
		}
	}
	switch leaf := leaf.(type) {
	case a.BooleanType:
		return g.p(2)
	case a.IntegerType:
		return g.integer(c == free)
	case a.EnumeratedType:
		k := g.R.Intn(len(leaf.RootEnumeration))
		return big.NewInt(int64(EnumNumber(leaf, k)))
	case a.ObjectIdentifierType:
		return g.oid()
	case a.OctetStringType:
		return g.octets()
	case a.BitStringType:
		b := Bits{Bytes: g.octets()}
		b.Len = len(b.Bytes) * 8
		if b.Len > 0 {
			cut := g.R.Intn(8)
			b.Len -= cut
			b.Bytes[len(b.Bytes)-1] &= byte(0xff << cut)
			if len(leaf.NamedBits) > 0 { // X.690 11.2.2: no trailing zero bits
				b.Bytes[len(b.Bytes)-1] |= 1 << cut
			}
		}
		return b
	case a.CharacterStringType:
		return g.text(a.PrintableString, c)
	case a.RestrictedStringType:
		return g.text(leaf.LexType, c)
	case a.TypeReference:
		return g.time(leaf == "GeneralizedTime")
	case a.NullType:
		return Null{}
	case a.RealType:
		return float64(g.R.Intn(1000)) / 8
	case a.SequenceOfType:
		return g.list(leaf.Type, c, depth)
	case a.SetOfType:
		return g.list(leaf.Type, c, depth)
	case a.AnyType:
		pool := []a.Type{a.BooleanType{}, a.IntegerType{}, a.OctetStringType{}, a.BitStringType{}, a.ObjectIdentifierType{},
			a.RestrictedStringType{LexType: a.PrintableString}, a.RestrictedStringType{LexType: a.UTF8String}, a.TypeReference("UTCTime"), a.TypeReference("GeneralizedTime")}
		x := pool[g.R.Intn(len(pool))]
		return Choice{x, g.inAny(x)}
	case a.ChoiceType:
		alts, _ := Alternatives(leaf)
		_, rep, _ := Resolve(g.Env, leaf)
		k := g.R.Intn(len(alts))
		x := alts[k].Type
		switch rep {
		case RepRaw:
			if depth > 12 {
				for _, y := range alts { // the simplest one
					switch g.Env.Leaf(y.Type).(type) {
					case a.SequenceType, a.SetType, a.ChoiceType, a.SequenceOfType, a.SetOfType:
					default:
						x = y.Type
					}
				}
			}
			return Choice{x, g.value(x, free, depth+1)}
		case RepAny:
			if c == free {
				return Choice{x, g.value(x, free, depth+1)}
			}
			return Choice{x, g.inAny(x)}
		}
		return Choice{x, g.value(x, c, depth)}
	case a.SequenceType:
		return g.structure(leaf, c, depth)
	case a.SetType:
		return g.structure(leaf, c, depth)
	}
	panic(fmt.Sprintf("value of %T", leaf))
}

// inAny makes a value that is still the same after it went through interface{}.
func (g *Values) inAny(t a.Type) Val {
	switch t := gen.Strip(t).(type) {
	case a.IntegerType:
		return g.integer64()
	case a.RestrictedStringType:
		return g.text(t.LexType, elem)
	case a.TypeReference:
		if t == "GeneralizedTime" { // within 1950 to 2049 it turns into UTCTime
			return time.Date(2050+g.R.Intn(7000), time.Month(1+g.R.Intn(12)), 1+g.R.Intn(28), g.R.Intn(24), g.R.Intn(60), g.R.Intn(60), 0, time.UTC)
		}
	}
	return g.value(t, plain, 0)
}

// EnumNumber is the number of an item of an enumeration: X.680 19.3, identifiers get the smallest numbers not taken.
func EnumNumber(t a.EnumeratedType, k int) int {
	taken := map[int]bool{}
	for _, x := range t.RootEnumeration {
		if n, ok := x.(a.NamedNumber); ok {
			if v, ok := n.Value.(a.Number); ok {
				taken[int(v)] = true
			}
		}
	}
	next := 0
	for i, x := range t.RootEnumeration {
		switch x := x.(type) {
		case a.NamedNumber:
			if i == k {
				return int(x.Value.(a.Number))
			}
		default:
			for taken[next] {
				next++
			}
			if i == k {
				return next
			}
			next++
		}
	}
	return 0
}

func (g *Values) integer64() *big.Int {
	switch g.R.Intn(6) {
	case 0:
		return big.NewInt([]int64{0, 1, -1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64}[g.R.Intn(17)])
	case 1:
		return big.NewInt(int64(g.R.Intn(2000) - 1000))
	}
	x := g.R.Int63() >> uint(g.R.Intn(63))
	if g.p(2) {
		x = -x
	}
	return big.NewInt(x)
}

func (g *Values) integer(anySize bool) *big.Int {
	if !(g.BigInt || anySize) || g.p(2) {
		return g.integer64()
	}
	b := make([]byte, 1+g.R.Intn(40))
	g.R.Read(b)
	x := new(big.Int).SetBytes(b)
	if g.p(3) { // powers of two are where the sign needs one more byte
		x = new(big.Int).Lsh(big.NewInt(1), uint(g.R.Intn(200)))
		x.Add(x, big.NewInt(int64(g.R.Intn(3)-1)))
	}
	if g.p(2) {
		x.Neg(x)
	}
	return x
}

func (g *Values) oid() []int {
	o := []int{g.R.Intn(3), 0}
	if o[0] < 2 {
		o[1] = g.R.Intn(40)
	} else {
		o[1] = []int{0, 39, 40, 47, 48, 100, 175, 176, 16303, 16304, math.MaxInt32 - 80}[g.R.Intn(11)]
	}
	for n := g.R.Intn(6); n > 0; n-- {
		switch g.R.Intn(3) {
		case 0:
			o = append(o, g.R.Intn(200))
		case 1:
			o = append(o, []int{0, 127, 128, 16383, 16384, math.MaxInt32}[g.R.Intn(6)])
		default:
			o = append(o, int(g.R.Int31()))
		}
	}
	return o
}

func (g *Values) octets() []byte {
	n := g.R.Intn(12)
	switch g.R.Intn(40) {
	case 0:
		n = []int{127, 128, 129, 255, 256, 257}[g.R.Intn(6)]
	case 1:
		n = g.R.Intn(2000)
	case 2:
		if g.p(20) {
			n = 65530 + g.R.Intn(20)
		}
	}
	b := make([]byte, n)
	g.R.Read(b)
	return b
}

const printable = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 '()+,-./:=?"

func (g *Values) text(lex int, c ctx) string {
	n := g.R.Intn(10)
	if g.p(40) {
		n = 100 + g.R.Intn(100)
	}
	b := make([]rune, n)
	for i := range b {
		switch lex {
		case a.NumericString:
			b[i] = rune("0123456789 "[g.R.Intn(11)])
		case a.IA5String:
			b[i] = rune(g.R.Intn(128))
		case a.UTF8String:
			b[i] = []rune{rune(g.R.Intn(128)), rune(0x80 + g.R.Intn(0x700)), rune(0x800 + g.R.Intn(0xd000-0x800)), rune(0x10000 + g.R.Intn(0x100000))}[g.R.Intn(4)]
		default:
			b[i] = rune(printable[g.R.Intn(len(printable))])
		}
	}
	if lex == a.UTF8String && c == elem { // without a parameter, printable text would become a PrintableString
		k := g.R.Intn(n + 1)
		b = append(b[:k:k], append([]rune{'é'}, b[k:]...)...)
	}
	return string(b)
}

func (g *Values) time(generalized bool) time.Time {
	year := 1950 + g.R.Intn(100)
	if generalized {
		year = []int{year, g.R.Intn(10000), 0, 9999}[g.R.Intn(4)]
	}
	return time.Date(year, time.Month(1+g.R.Intn(12)), 1+g.R.Intn(28), g.R.Intn(24), g.R.Intn(60), g.R.Intn(60), 0, time.UTC)
}

func (g *Values) list(t a.Type, c ctx, depth int) Val {
	n := g.R.Intn(4)
	if g.p(15) {
		n = g.R.Intn(30)
	}
	if depth > 4 || g.n > 400 {
		n = 0
	}
	l := List{}
	if c != free {
		c = elem
	}
	for i := 0; i < n; i++ {
		l = append(l, g.value(t, c, depth+1))
	}
	return l
}

func (g *Values) structure(t a.Type, c ctx, depth int) Val {
	s := Struct{}
	if c != free {
		c = plain
	}
	for _, x := range Components(t) {
		keep := 0
		if g.Keep != nil {
			keep = g.Keep(x)
		}
		opt := x.IsOptional || x.Default != nil
		d := g.Default(x)
		leaf, rep, _ := Resolve(g.Env, x.NamedType.Type)
		_, integer := leaf.(a.IntegerType)
		mustStay := d != nil && g.BigInt && integer && c != free // its default can not be represented
		if keep < 0 || opt && keep == 0 && !mustStay && (g.p(2) || g.n > 400) {
			s = append(s, d)
			continue
		}
		var v Val
		for tries := 0; ; tries++ {
			v = g.value(x.NamedType.Type, c, depth+1)
			if mustStay && Equal(v, d) {
				continue
			}
			if opt && d == nil && c != free && rep != RepRaw && g.zero(v, integer) {
				// optional zero values count as absent
				if tries < 5 {
					continue
				}
				v = nil
			}
			break
		}
		s = append(s, v)
	}
	if c != free {
		g.lastEmpty(t, s)
	}
	return s
}

// lastEmpty finds values that encoding/asn1 does not decode: it takes an optional component with an explicit tag, that is
// absent, for one without content, if what stands in its place is the last component and has no content.
func (g *Values) lastEmpty(t a.Type, s Struct) {
	enc := Encoder{Env: g.Env, TagDefault: g.TagDefault}
	cs := Components(t)
	for i := len(cs) - 1; i >= 0; i-- {
		x := enc.component(cs[i], s[i])
		if x == nil {
			continue
		}
		_, _, n := tagOf(x)
		if len(x) != n+1 {
			return
		}
		for i--; i >= 0 && enc.component(cs[i], s[i]) == nil; i-- {
			if tt, ok := cs[i].NamedType.Type.(a.TaggedType); ok && explicitAfterAll(g.Env, g.TagDefault, tt) {
				g.bad = true
			}
		}
		return
	}
}

// Default value of a component, or nil.
func (g *Values) Default(c a.NamedComponentType) Val {
	if c.Default == nil {
		return nil
	}
	switch v := (*c.Default).(type) {
	case a.Number:
		return big.NewInt(int64(v))
	case a.Boolean:
		return bool(v)
	case a.IdentifiedIntegerValue:
		if t, ok := g.Env.Leaf(c.NamedType.Type).(a.IntegerType); ok {
			for _, n := range t.NamedNumberList {
				if string(n.Name) == v.Name {
					return big.NewInt(int64(n.Value.(a.Number)))
				}
			}
		}
		if t, ok := g.Env.Leaf(c.NamedType.Type).(a.EnumeratedType); ok {
			for i, x := range t.RootEnumeration {
				if x == a.Identifier(v.Name) {
					return big.NewInt(int64(EnumNumber(t, i)))
				}
			}
		}
	}
	panic(fmt.Sprintf("default %T", *c.Default))
}

// zero says if the Go value for it is a zero value.
func (g *Values) zero(v Val, integer bool) bool {
	switch v := v.(type) {
	case bool:
		return !v
	case *big.Int:
		return v.Sign() == 0 && !(integer && g.BigInt)
	case string:
		return v == ""
	case Struct:
		for _, x := range v {
			if x != nil {
				switch x := x.(type) {
				case bool, *big.Int, string, Struct, Choice:
					if !g.zero(x, false) {
						return false
					}
				default:
					return false
				}
			}
		}
		return true
	case Choice:
		return g.zero(v.V, integer)
	}
	return false
}

// Equal compares values.
func Equal(x, y Val) bool {
	switch x := x.(type) {
	case nil:
		return y == nil
	case *big.Int:
		y, ok := y.(*big.Int)
		return ok && x.Cmp(y) == 0
	case bool:
		return x == y
	}
	panic(fmt.Sprintf("comparing %T", x))
}

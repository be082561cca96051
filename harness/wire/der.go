package wire

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"time"
	"unicode/utf16"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
)

// Encoder makes DER, from X.690 and the module alone.
type Encoder struct {
	Env        gen.Env
	TagDefault int
	// StringTag replaces tags of untagged strings, if set.
	StringTag func(lex int, s string) int
}

func head(class, num int, constructed bool, n int) []byte {
	var b []byte
	first := byte(class << 6)
	if constructed {
		first |= 0x20
	}
	if num < 31 {
		b = append(b, first|byte(num))
	} else {
		b = append(b, first|31)
		b = append(b, base128(num)...)
	}
	if n < 128 {
		return append(b, byte(n))
	}
	var l []byte
	for x := n; x > 0; x >>= 8 {
		l = append([]byte{byte(x)}, l...)
	}
	b = append(b, 0x80|byte(len(l)))
	return append(b, l...)
}

func base128(n int) []byte {
	b := []byte{byte(n & 0x7f)}
	for n >>= 7; n > 0; n >>= 7 {
		b = append([]byte{byte(n&0x7f) | 0x80}, b...)
	}
	return b
}

func tlv(class, num int, constructed bool, content []byte) []byte {
	return append(head(class, num, constructed, len(content)), content...)
}

func classBits(c int) int {
	switch c {
	case a.CLASS_UNIVERSAL:
		return 0
	case a.CLASS_APPLICATION:
		return 1
	case a.CLASS_CONTEXT_SPECIFIC:
		return 2
	}
	return 3
}

// integerBytes is the shortest two's complement.
func integerBytes(x *big.Int) []byte {
	for n := 1; ; n++ {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*n-1))
		if x.Cmp(lim) < 0 && x.Cmp(new(big.Int).Neg(lim)) >= 0 {
			y := new(big.Int).Set(x)
			if y.Sign() < 0 {
				y.Add(y, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
			}
			return y.FillBytes(make([]byte, n))
		}
	}
}

var stringTags = map[int]int{a.UTF8String: 12, a.NumericString: 18, a.PrintableString: 19, a.TeletexString: 20, a.T61String: 20,
	a.VideotexString: 21, a.IA5String: 22, a.GraphicString: 25, a.VisibleString: 26, a.ISO646String: 26, a.GeneralString: 27,
	a.UniversalString: 28, a.BMPString: 30}

// Encode a value.
func (e *Encoder) Encode(t a.Type, v Val) []byte {
	switch t := t.(type) {
	case a.TaggedType:
		inner := e.Encode(t.Type, v)
		num := int(t.Tag.ClassNumber.(a.Number))
		if explicit(e.Env, e.TagDefault, t) {
			return tlv(classBits(t.Tag.Class), num, true, inner)
		}
		return retag(inner, classBits(t.Tag.Class), num)
	case a.ConstraintedType:
		return e.Encode(t.Type, v)
	case a.TypeReference:
		if next, ok := e.Env[string(t)]; ok {
			return e.Encode(next, v)
		}
		tm := v.(time.Time)
		if t == "UTCTime" {
			return tlv(0, 23, false, []byte(tm.Format("060102150405Z")))
		}
		return tlv(0, 24, false, []byte(tm.Format("20060102150405Z")))
	case a.BooleanType:
		if v.(bool) {
			return tlv(0, 1, false, []byte{0xff})
		}
		return tlv(0, 1, false, []byte{0})
	case a.IntegerType:
		return tlv(0, 2, false, integerBytes(v.(*big.Int)))
	case a.EnumeratedType:
		return tlv(0, 10, false, integerBytes(v.(*big.Int)))
	case a.NullType:
		return tlv(0, 5, false, nil)
	case a.BitStringType:
		b := v.(Bits)
		return tlv(0, 3, false, append([]byte{byte(len(b.Bytes)*8 - b.Len)}, b.Bytes...))
	case a.OctetStringType:
		return tlv(0, 4, false, v.([]byte))
	case a.ObjectIdentifierType:
		o := v.([]int)
		b := base128(o[0]*40 + o[1])
		for _, x := range o[2:] {
			b = append(b, base128(x)...)
		}
		return tlv(0, 6, false, b)
	case a.RestrictedStringType:
		s := v.(string)
		tag := stringTags[t.LexType]
		if e.StringTag != nil {
			tag = e.StringTag(t.LexType, s)
		}
		var content []byte
		switch t.LexType {
		case a.UniversalString:
			for _, r := range s {
				content = append(content, byte(r>>24), byte(r>>16), byte(r>>8), byte(r))
			}
		case a.BMPString:
			for _, u := range utf16.Encode([]rune(s)) {
				content = append(content, byte(u>>8), byte(u))
			}
		default:
			content = []byte(s)
		}
		return tlv(0, tag, false, content)
	case a.SequenceOfType:
		return tlv(0, 16, true, bytes.Join(e.elements(t.Type, v.(List)), nil))
	case a.SetOfType:
		parts := e.elements(t.Type, v.(List))
		sort.Slice(parts, func(i, j int) bool { return less(parts[i], parts[j]) })
		return tlv(0, 17, true, bytes.Join(parts, nil))
	case a.SequenceType:
		return tlv(0, 16, true, bytes.Join(e.components(t, v.(Struct)), nil))
	case a.SetType:
		parts := e.components(t, v.(Struct))
		sort.SliceStable(parts, func(i, j int) bool { return tagLess(parts[i], parts[j]) })
		return tlv(0, 17, true, bytes.Join(parts, nil))
	case a.ChoiceType:
		c := v.(Choice)
		return e.Encode(c.Type, c.V)
	case a.AnyType:
		if b, ok := v.([]byte); ok {
			return b
		}
		c := v.(Choice)
		return e.Encode(c.Type, c.V)
	}
	panic(fmt.Sprintf("encoding of %T", t))
}

func (e *Encoder) elements(t a.Type, l List) [][]byte {
	var out [][]byte
	for _, v := range l {
		out = append(out, e.Encode(t, v))
	}
	return out
}

func (e *Encoder) components(t a.Type, s Struct) [][]byte {
	var out [][]byte
	for i, c := range Components(t) {
		if b := e.component(c, s[i]); b != nil {
			out = append(out, b)
		}
	}
	return out
}

// component is nil if it is absent, or has its default value (X.690 11.5).
func (e *Encoder) component(c a.NamedComponentType, v Val) []byte {
	if v == nil {
		return nil
	}
	if c.Default != nil {
		g := Values{Env: e.Env}
		if Equal(v, g.Default(c)) {
			return nil
		}
	}
	return e.Encode(c.NamedType.Type, v)
}

// less compares encodings, the shorter one padded with zeros (X.690 11.6).
func less(x, y []byte) bool {
	for i := 0; i < len(x) || i < len(y); i++ {
		var p, q byte
		if i < len(x) {
			p = x[i]
		}
		if i < len(y) {
			q = y[i]
		}
		if p != q {
			return p < q
		}
	}
	return false
}

// parts of a tag: class, number, length of identifier octets.
func tagOf(b []byte) (class, num, n int) {
	class = int(b[0] >> 6)
	if b[0]&31 != 31 {
		return class, int(b[0] & 31), 1
	}
	n = 1
	for {
		num = num<<7 | int(b[n]&0x7f)
		n++
		if b[n-1]&0x80 == 0 {
			return
		}
	}
}

func tagLess(x, y []byte) bool {
	cx, nx, _ := tagOf(x)
	cy, ny, _ := tagOf(y)
	if cx != cy {
		return cx < cy
	}
	return nx < ny
}

// retag replaces the tag, the length stays as it is.
func retag(b []byte, class, num int) []byte {
	_, _, n := tagOf(b)
	h := head(class, num, b[0]&0x20 != 0, 0)
	return append(append([]byte{}, h[:len(h)-1]...), b[n:]...)
}

package wire

import (
	"bytes"
	"encoding/asn1"
	"fmt"
	"math/big"
	"reflect"
	"time"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
)

// Go moves values into and out of Go variables of generated types.
type Go struct {
	Enc *Encoder
	// Written is what encoding/asn1 is going to write, if that is not the encoding by the module (the kind of a
	// string that has no parameter).
	Written *Encoder
	// Params for the outermost type.
	Params string
}

func (g *Go) env() gen.Env { return g.Enc.Env }

// Fill sets a variable. t is the type as written, with its tags, for the sake of RawValue.
func (g *Go) Fill(rv reflect.Value, t a.Type, v Val) error {
	leaf, rep, _ := Resolve(g.env(), t)
	bad := func() error { return fmt.Errorf("Go type %v is used for %T", rv.Type(), leaf) }
	if c, ok := v.(Choice); ok && rep != RepRaw && rep != RepAny {
		v = c.V
		for {
			c, ok := v.(Choice)
			if !ok {
				break
			}
			v = c.V
		}
	}
	switch rep {
	case RepRaw:
		if rv.Type() != reflect.TypeOf(asn1.RawValue{}) {
			return bad()
		}
		rv.Set(reflect.ValueOf(asn1.RawValue{FullBytes: g.Enc.Encode(t, v)}))
		return nil
	case RepAny:
		if rv.Kind() != reflect.Interface {
			return bad()
		}
		x, err := anyValue(v.(Choice))
		if err != nil {
			return err
		}
		rv.Set(reflect.ValueOf(x))
		return nil
	case RepList:
		if rv.Kind() != reflect.Slice {
			return bad()
		}
		l := v.(List)
		s := reflect.MakeSlice(rv.Type(), len(l), len(l))
		for i, x := range l {
			if err := g.Fill(s.Index(i), elemOf(leaf), x); err != nil {
				return err
			}
		}
		rv.Set(s)
		return nil
	case RepStruct:
		if rv.Kind() != reflect.Struct {
			return bad()
		}
		cs := Components(leaf)
		if rv.NumField() != len(cs) {
			return fmt.Errorf("%v has %d fields for %d components", rv.Type(), rv.NumField(), len(cs))
		}
		for i, c := range cs {
			x := v.(Struct)[i]
			if x == nil {
				continue
			}
			f := rv.FieldByName(gen.GoName(string(c.NamedType.Identifier)))
			if !f.IsValid() {
				return fmt.Errorf("no field for %s", c.NamedType.Identifier)
			}
			if err := g.Fill(f, c.NamedType.Type, x); err != nil {
				return fmt.Errorf("%s: %w", c.NamedType.Identifier, err)
			}
		}
		return nil
	}
	switch v := v.(type) {
	case bool:
		if rv.Kind() != reflect.Bool {
			return bad()
		}
		rv.SetBool(v)
	case *big.Int:
		switch {
		case rv.Kind() == reflect.Int64 || rv.Kind() == reflect.Int:
			if !v.IsInt64() {
				return bad()
			}
			rv.SetInt(v.Int64())
		case rv.Type() == reflect.TypeOf(v):
			rv.Set(reflect.ValueOf(new(big.Int).Set(v)))
		default:
			return bad()
		}
	case []byte:
		if rv.Kind() != reflect.Slice || rv.Type().Elem().Kind() != reflect.Uint8 {
			return bad()
		}
		rv.SetBytes(append([]byte{}, v...))
	case Bits:
		x := asn1.BitString{Bytes: append([]byte{}, v.Bytes...), BitLength: v.Len}
		if rv.Type() != reflect.TypeOf(x) {
			return bad()
		}
		rv.Set(reflect.ValueOf(x))
	case []int:
		x := append(asn1.ObjectIdentifier{}, v...)
		if rv.Type() != reflect.TypeOf(x) {
			return bad()
		}
		rv.Set(reflect.ValueOf(x))
	case string:
		if rv.Kind() != reflect.String {
			return bad()
		}
		rv.SetString(v)
	case time.Time:
		if rv.Type() != reflect.TypeOf(v) {
			return bad()
		}
		rv.Set(reflect.ValueOf(v))
	default:
		return bad()
	}
	return nil
}

func elemOf(t a.Type) a.Type {
	if s, ok := t.(a.SetOfType); ok {
		return s.Type
	}
	return t.(a.SequenceOfType).Type
}

func anyValue(c Choice) (any, error) {
	switch v := c.V.(type) {
	case *big.Int:
		return v.Int64(), nil
	case Bits:
		return asn1.BitString{Bytes: append([]byte{}, v.Bytes...), BitLength: v.Len}, nil
	case []int:
		return append(asn1.ObjectIdentifier{}, v...), nil
	case []byte:
		return append([]byte{}, v...), nil
	case bool, string, time.Time:
		return v, nil
	case Choice:
		return anyValue(v)
	}
	return nil, fmt.Errorf("no Go value for %T", c.V)
}

// Check compares a decoded variable with the value. SET OF is compared as a multiset by way of the encoding.
func (g *Go) Check(rv reflect.Value, t a.Type, v Val) error {
	leaf, rep, _ := Resolve(g.env(), t)
	differs := func() error {
		return fmt.Errorf("%T: decoded %s instead of %s", leaf, trim(fmt.Sprintf("%+v", rv.Interface())), trim(fmt.Sprintf("%+v", v)))
	}
	if v == nil {
		if !rv.IsZero() {
			return fmt.Errorf("%T: decoded %s for what is absent", leaf, trim(fmt.Sprintf("%+v", rv.Interface())))
		}
		return nil
	}
	if c, ok := v.(Choice); ok && rep != RepRaw && rep != RepAny {
		v = c.V
		for {
			c, ok := v.(Choice)
			if !ok {
				break
			}
			v = c.V
		}
	}
	switch rep {
	case RepRaw:
		want := g.Enc.Encode(t, v)
		raw := rv.Interface().(asn1.RawValue)
		if !bytes.Equal(raw.FullBytes, want) {
			return fmt.Errorf("CHOICE: decoded %x instead of %x", raw.FullBytes, want)
		}
		class, num, n := tagOf(want)
		if raw.Class != class || raw.Tag != num || raw.IsCompound != (want[0]&0x20 != 0) || !bytes.HasSuffix(want[n:], raw.Bytes) {
			return fmt.Errorf("CHOICE: decoded %+v for %x", raw, want)
		}
		return nil
	case RepAny:
		want, err := anyValue(v.(Choice))
		if err != nil {
			return err
		}
		got := rv.Interface()
		if w, ok := want.(time.Time); ok {
			x, ok := got.(time.Time)
			if !ok || !x.Equal(w) {
				return differs()
			}
			return nil
		}
		if !reflect.DeepEqual(got, want) {
			return differs()
		}
		return nil
	case RepList:
		l := v.(List)
		if rv.Kind() != reflect.Slice || rv.Len() != len(l) {
			return differs()
		}
		_, set := leaf.(a.SetOfType)
		if set {
			l = g.sorted(elemOf(leaf), l)
		}
		for i, x := range l {
			if err := g.Check(rv.Index(i), elemOf(leaf), x); err != nil {
				return fmt.Errorf("element %d: %w", i, err)
			}
		}
		return nil
	case RepStruct:
		for i, c := range Components(leaf) {
			f := rv.FieldByName(gen.GoName(string(c.NamedType.Identifier)))
			if !f.IsValid() {
				return fmt.Errorf("no field for %s", c.NamedType.Identifier)
			}
			if err := g.Check(f, c.NamedType.Type, v.(Struct)[i]); err != nil {
				return fmt.Errorf("%s: %w", c.NamedType.Identifier, err)
			}
		}
		return nil
	}
	ok := false
	switch v := v.(type) {
	case bool:
		ok = rv.Kind() == reflect.Bool && rv.Bool() == v
	case *big.Int:
		if b, is := rv.Interface().(*big.Int); is {
			ok = b != nil && b.Cmp(v) == 0
		} else {
			ok = rv.CanInt() && v.IsInt64() && rv.Int() == v.Int64()
		}
	case []byte:
		ok = rv.Kind() == reflect.Slice && bytes.Equal(rv.Bytes(), v)
	case Bits:
		b, is := rv.Interface().(asn1.BitString)
		ok = is && b.BitLength == v.Len && bytes.Equal(b.Bytes, v.Bytes)
	case []int:
		o, is := rv.Interface().(asn1.ObjectIdentifier)
		ok = is && o.Equal(asn1.ObjectIdentifier(v))
	case string:
		ok = rv.Kind() == reflect.String && rv.String() == v
	case time.Time:
		x, is := rv.Interface().(time.Time)
		ok = is && x.Equal(v)
	}
	if !ok {
		return differs()
	}
	return nil
}

// sorted gives elements of a SET OF in the order of the encoding.
func (g *Go) sorted(t a.Type, l List) List {
	type item struct {
		v   Val
		enc []byte
	}
	var items []item
	for _, v := range l {
		items = append(items, item{v, g.Enc.Encode(t, v)})
	}
	for i := 1; i < len(items); i++ {
		for j := i; j > 0 && less(items[j].enc, items[j-1].enc); j-- {
			items[j], items[j-1] = items[j-1], items[j]
		}
	}
	out := List{}
	for _, x := range items {
		out = append(out, x.v)
	}
	return out
}

func trim(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

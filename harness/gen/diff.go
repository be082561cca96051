package gen

import (
	"fmt"
	"math"
	"reflect"

	a "github.com/chemikadze/asn1go"
)

// Diff describes the first difference of two values, or returns an empty string.
// Nil and empty slices are equal, TagType has no meaning unless HasTagType is set.
func Diff(x, y any) string {
	return diff("", reflect.ValueOf(x), reflect.ValueOf(y))
}

func diff(path string, x, y reflect.Value) string {
	if !x.IsValid() || !y.IsValid() {
		if x.IsValid() != y.IsValid() {
			return fmt.Sprintf("%s: %s != %s", path, show(x), show(y))
		}
		return ""
	}
	if x.Type() != y.Type() {
		return fmt.Sprintf("%s: %s != %s", path, show(x), show(y))
	}
	switch x.Kind() {
	case reflect.Interface, reflect.Ptr:
		if x.IsNil() || y.IsNil() {
			if x.IsNil() != y.IsNil() {
				return fmt.Sprintf("%s: %s != %s", path, show(x), show(y))
			}
			return ""
		}
		return diff(path, x.Elem(), y.Elem())
	case reflect.Slice:
		n := x.Len()
		if y.Len() < n {
			n = y.Len()
		}
		for i := 0; i < n; i++ {
			if d := diff(fmt.Sprintf("%s[%d]", path, i), x.Index(i), y.Index(i)); d != "" {
				return d
			}
		}
		if x.Len() != y.Len() {
			return fmt.Sprintf("%s: length %d != %d", path, x.Len(), y.Len())
		}
		return ""
	case reflect.Struct:
		skip := x.Type() == reflect.TypeOf(a.TaggedType{}) && !x.FieldByName("HasTagType").Bool() && !y.FieldByName("HasTagType").Bool()
		for i := 0; i < x.NumField(); i++ {
			f := x.Type().Field(i).Name
			if skip && f == "TagType" {
				continue
			}
			if d := diff(path+"."+f, x.Field(i), y.Field(i)); d != "" {
				return d
			}
		}
		return ""
	case reflect.Float64:
		if math.Float64bits(x.Float()) != math.Float64bits(y.Float()) {
			return fmt.Sprintf("%s: %v != %v", path, x.Float(), y.Float())
		}
		return ""
	case reflect.Int, reflect.Int64:
		if x.Int() != y.Int() {
			return fmt.Sprintf("%s: %v != %v", path, x.Int(), y.Int())
		}
		return ""
	case reflect.String:
		if x.String() != y.String() {
			return fmt.Sprintf("%s: %q != %q", path, x.String(), y.String())
		}
		return ""
	case reflect.Bool:
		if x.Bool() != y.Bool() {
			return fmt.Sprintf("%s: %v != %v", path, x.Bool(), y.Bool())
		}
		return ""
	}
	return fmt.Sprintf("%s: can not compare %s", path, x.Kind())
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nothing"
	}
	if v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return "nil"
		}
		return show(v.Elem())
	}
	s := fmt.Sprintf("%s(%+v)", v.Type(), v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// Clone makes a deep copy of a value of exported fields.
func Clone[T any](x T) T {
	return clone(reflect.ValueOf(&x).Elem()).Interface().(T)
}

func clone(x reflect.Value) reflect.Value {
	switch x.Kind() {
	case reflect.Interface:
		if x.IsNil() {
			return x
		}
		out := reflect.New(x.Type()).Elem()
		out.Set(clone(x.Elem()))
		return out
	case reflect.Ptr:
		if x.IsNil() {
			return x
		}
		out := reflect.New(x.Type().Elem())
		out.Elem().Set(clone(x.Elem()))
		return out
	case reflect.Slice:
		if x.IsNil() {
			return x
		}
		out := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
		for i := 0; i < x.Len(); i++ {
			out.Index(i).Set(clone(x.Index(i)))
		}
		return out
	case reflect.Struct:
		out := reflect.New(x.Type()).Elem()
		out.Set(x)
		for i := 0; i < x.NumField(); i++ {
			if x.Type().Field(i).IsExported() {
				out.Field(i).Set(clone(x.Field(i)))
			}
		}
		return out
	}
	return x
}

package wire

import (
	"bytes"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
)

// Pkg is a compiled generated package.
type Pkg struct {
	Cfg    Config
	BigInt bool
	Values int // per type
	Types  map[string]reflect.Type
	// Vars are pointers to variables, by Go name.
	Vars map[string]any
}

// Report of a driver.
type Report struct {
	Done     bool
	Values   int
	Counts   map[string]int
	Problems []Problem
	Samples  []string
}

// Problem that was observed.
type Problem struct {
	Pkg   int
	Type  string
	Value string
	Text  string
}

// Structured names the assigned types whose values are encoded on their own.
func (g *Gen) Structured() []string {
	var out []string
	for i, n := range g.names {
		switch g.kinds[i] {
		case dSeq, dSeqOf, dSetOf:
			out = append(out, n)
		}
	}
	return out
}

// Main runs all packages and prints the report.
func Main(pkgs []Pkg) {
	rep := Report{Counts: map[string]int{}}
	for i, p := range pkgs {
		rep.run(i, p)
		if len(rep.Problems) > 30 {
			break
		}
	}
	rep.Done = true
	json.NewEncoder(os.Stdout).Encode(rep)
}

func (rep *Report) run(index int, p Pkg) {
	g := New(p.Cfg)
	r := rand.New(rand.NewSource(p.Cfg.Seed ^ 0x5eed))
	vs := &Values{R: r, Env: g.Env, TagDefault: g.Module.TagDefault, BigInt: p.BigInt}
	enc := &Encoder{Env: g.Env, TagDefault: g.Module.TagDefault}
	for _, n := range g.Structured() {
		t := g.Env[n]
		rt, ok := p.Types[n]
		if !ok {
			rep.Problems = append(rep.Problems, Problem{Pkg: index, Type: n, Text: "type is not generated"})
			continue
		}
		for k := 0; k < p.Values; k++ {
			v, ok := vs.Value(t)
			if p.Cfg.Fixed == 1 {
				v, ok = Struct{List{List{big.NewInt(3), big.NewInt(1)}}}, true
			}
			if !ok {
				rep.Counts["no value found"]++
				continue
			}
			rep.Values++
			if text := RoundTrip(&Go{Enc: enc}, rt, t, v); text != "" {
				rep.Problems = append(rep.Problems, Problem{index, n, trim(fmt.Sprintf("%+v", v)), text})
				break
			}
			rep.count(g.Env, t, v)
			if k == 0 && len(rep.Samples) < 5 {
				rep.Samples = append(rep.Samples, fmt.Sprintf("%s %x", n, trim(string(enc.Encode(t, v)))))
			}
		}
	}
}

// count what was there.
func (rep *Report) count(env gen.Env, t a.Type, v Val) {
	if v == nil {
		rep.Counts["absent"]++
		return
	}
	leaf, r, _ := Resolve(env, t)
	if c, ok := v.(Choice); ok && r != RepRaw && r != RepAny {
		v = c.V
		rep.Counts["CHOICE as its only alternative"]++
	}
	switch r {
	case RepRaw:
		rep.Counts["CHOICE as RawValue"]++
	case RepAny:
		rep.Counts["CHOICE or ANY as interface"]++
	case RepList:
		if l, ok := v.(List); ok {
			rep.Counts[fmt.Sprintf("%T", leaf)[7:]]++
			for _, x := range l {
				rep.count(env, elemOf(leaf), x)
			}
		}
	case RepStruct:
		rep.Counts[fmt.Sprintf("%T", leaf)[7:]]++
		if s, ok := v.(Struct); ok {
			for i, c := range Components(leaf) {
				rep.count(env, c.NamedType.Type, s[i])
				if tt, ok := c.NamedType.Type.(a.TaggedType); ok {
					rep.Counts[fmt.Sprintf("tag of class %d", tt.Tag.Class)]++
					if _, ok := tt.Type.(a.TaggedType); ok {
						rep.Counts["tag that replaces another"]++
					}
				}
				if c.Default != nil {
					rep.Counts["DEFAULT"]++
				}
			}
		}
	default:
		rep.Counts[fmt.Sprintf("%T", leaf)[7:]]++
	}
}

// RoundTrip encodes and decodes a value by means of the generated type. It returns what is wrong.
func RoundTrip(g *Go, rt reflect.Type, t a.Type, v Val) (problem string) {
	want := g.Enc.Encode(t, v)
	written := want
	if g.Written != nil {
		written = g.Written.Encode(t, v)
	}
	defer func() {
		if p := recover(); p != nil {
			problem = fmt.Sprintf("panic: %v\n%s", p, debug.Stack())
		}
	}()
	x := reflect.New(rt)
	if err := g.Fill(x.Elem(), t, v); err != nil {
		return err.Error()
	}
	got, err := asn1.MarshalWithParams(x.Elem().Interface(), g.Params)
	if err != nil {
		return fmt.Sprintf("value is not encoded: %v, expected %x", err, written)
	}
	if !bytes.Equal(got, written) {
		return fmt.Sprintf("encoded as\n%x instead of\n%x", got, written)
	}
	y := reflect.New(rt)
	rest, err := asn1.UnmarshalWithParams(want, y.Interface(), g.Params)
	if err != nil {
		return fmt.Sprintf("encoding %x is not decoded: %v", want, err)
	}
	if len(rest) != 0 {
		return fmt.Sprintf("encoding %x leaves %x", want, rest)
	}
	if err := g.Check(y.Elem(), t, v); err != nil {
		return fmt.Sprintf("%v\nencoding %x", err, want)
	}
	again, err := asn1.MarshalWithParams(y.Elem().Interface(), g.Params)
	if err != nil || !bytes.Equal(again, written) {
		return fmt.Sprintf("decoded value is encoded as\n%x instead of\n%x (%v)", again, written, err)
	}
	return ""
}

// Var is what a variable holds.
type Var struct {
	Pkg, Name, Type, Value string
}

// PrintVars prints variables of packages, that are given by pointers.
func PrintVars(pkgs map[string]map[string]any) {
	out := []Var{}
	for p, vars := range pkgs {
		for n, ptr := range vars {
			v := reflect.ValueOf(ptr).Elem()
			x := Var{Pkg: p, Name: n, Type: v.Type().String()}
			switch {
			case v.Type() == reflect.TypeOf((*big.Int)(nil)):
				x.Value = v.Interface().(*big.Int).String()
			case v.Kind() == reflect.Int64:
				x.Value = fmt.Sprint(v.Int())
			case v.Kind() == reflect.Bool:
				x.Value = fmt.Sprint(v.Bool())
			case v.Kind() == reflect.Float64:
				x.Value = fmt.Sprintf("%016x", math.Float64bits(v.Float()))
			default:
				x.Value = fmt.Sprintf("%#v", v.Interface())
			}
			out = append(out, x)
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

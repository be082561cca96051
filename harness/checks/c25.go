package checks

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
	"verif/wire"
)

// wantVar is a variable to expect.
type wantVar struct {
	name, typ string
	value     a.Value // literal
	ref       string  // or name of the variable it is equal to
}

// vars that a module has to have, in order.
func wantVars(m *model, mod *a.ModuleDefinition) []wantVar {
	var out []wantVar
	for _, x := range mod.ModuleBody.AssignmentList {
		switch x := x.(type) {
		case a.TypeAssignment:
			it, ok := gen.Strip(x.Type).(a.IntegerType)
			if !ok {
				continue
			}
			for _, n := range it.NamedNumberList {
				v := wantVar{name: gen.GoName(string(x.TypeReference)) + "Val" + gen.GoName(string(n.Name)), typ: m.goType(it)}
				switch val := n.Value.(type) {
				case a.Number:
					v.value = val
				case a.DefinedValue:
					v.ref = "Val" + gen.GoName(string(val.ValueName))
				}
				out = append(out, v)
			}
		case a.ValueAssignment:
			switch x.Value.(type) {
			case a.Number, a.Boolean, a.Real:
				out = append(out, wantVar{name: "Val" + gen.GoName(string(x.ValueReference)), typ: m.goType(x.Type), value: x.Value})
			}
		}
	}
	return out
}

// shown is how wire.PrintVars shows the value of a type.
func shown(typ string, v a.Value) string {
	switch v := v.(type) {
	case a.Number:
		if typ == "#float64" {
			return fmt.Sprintf("%016x", math.Float64bits(float64(v)))
		}
		return strconv.Itoa(int(v))
	case a.Boolean:
		return strconv.FormatBool(bool(v))
	case a.Real:
		return fmt.Sprintf("%016x", math.Float64bits(float64(v)))
	}
	return "?"
}

var runtimeType = map[string]string{"#int64": "int64", tBigInt: "*big.Int", "#bool": "bool", "#float64": "float64"}

func varsBatch(c *rt.Case, n int) {
	p := program{pkgs: map[string]string{}}
	var imports, list strings.Builder
	want := map[string]string{}
	types := map[string]string{}
	texts := map[string]string{}
	for i := 0; i < n; i++ {
		g := gen.NewCode(c.Rng)
		g.IntTypes = true
		g.Values = 1 + c.Rng.Intn(12)
		m := codeModule(c, g)
		src := pretty(m)
		repr := reprs[i%2]
		name := fmt.Sprintf("p%d", i)
		code := mustGenerate(c, m, a.GenParams{Package: name, IntegerRepr: repr})
		pkg := compile(c, code)
		mod := newModel(m, repr)
		var got []decl
		for _, d := range pkg.Decls {
			if d.Kind != "type" {
				got = append(got, d)
			}
		}
		vars := wantVars(mod, m)
		for k := 0; k < len(vars) || k < len(got); k++ {
			switch {
			case k >= len(got):
				c.Violation("variable %s is missing\n%s\n%s", vars[k].name, src, code)
			case k >= len(vars):
				c.Violation("variable %s is not in the module\n%s\n%s", got[k].Name, src, code)
			case got[k].Name != vars[k].name || got[k].Kind != "var":
				c.Violation("%s %s instead of variable %s\n%s\n%s", got[k].Kind, got[k].Name, vars[k].name, src, code)
			case got[k].Type != vars[k].typ:
				c.Violation("variable %s is %s instead of %s\n%s\n%s", got[k].Name, got[k].Type, vars[k].typ, src, code)
			}
		}
		c.Eval(len(vars))
		if len(vars) == 0 {
			continue
		}
		p.pkgs[name] = code
		texts[name] = src + "\n" + code
		fmt.Fprintf(&imports, "\t%s \"batch/%s\"\n", name, name)
		fmt.Fprintf(&list, "\t\t%q: {\n", name)
		for _, v := range vars {
			fmt.Fprintf(&list, "\t\t\t%q: &%s.%s,\n", v.name, name, v.name)
			types[name+"."+v.name] = runtimeType[v.typ]
			if v.ref == "" {
				want[name+"."+v.name] = shown(v.typ, v.value)
				c.Count(fmt.Sprintf("%T of type %s", v.value, v.typ), 1)
			}
		}
		for _, v := range vars {
			if v.ref != "" {
				want[name+"."+v.name] = want[name+"."+v.ref]
				c.Count("named number by reference", 1)
			}
		}
		list.WriteString("\t\t},\n")
	}
	p.main = fmt.Sprintf("package main\n\nimport (\n%s\n\t\"verif/wire\"\n)\n\nfunc main() {\n\twire.PrintVars(map[string]map[string]any{\n%s\t})\n}\n", imports.String(), list.String())
	var out []wire.Var
	p.run(c, &out)
	seen := 0
	for _, v := range out {
		k := v.Pkg + "." + v.Name
		w, ok := want[k]
		if !ok {
			c.Broken("unknown variable %s", k)
		}
		seen++
		if v.Type != types[k] {
			c.Violation("variable %s is %s at run time, not %s\n%s", v.Name, v.Type, types[k], texts[v.Pkg])
		}
		if v.Value != w {
			c.Violation("variable %s holds %s instead of %s\n%s", v.Name, v.Value, w, texts[v.Pkg])
		}
		c.Nontrivial(k + texts[v.Pkg])
	}
	if seen != len(want) {
		c.Broken("%d of %d variables are reported", seen, len(want))
	}
	c.Count("variables read at run time", seen)
	c.Eval(seen)
	for _, t := range texts {
		c.Sample("module", t)
		break
	}
}

func init() {
	register(&rt.Check{ID: "C25",
		Rule: "random modules with literal values and named numbers of all types, tags and references, for both representations; the variables declared are compared with the module in name, type and order, then the packages are compiled and what the variables hold at run time is compared with the literals, floats bit by bit; non-trivial if distinct by variable and module",
		Run: func(r *rt.Runner) {
			r.Parallel("variables", r.N(48, 800), func(c *rt.Case) { varsBatch(c, 40) })
		}})
}

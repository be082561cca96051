package checks

import (
	"fmt"
	"go/types"
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// sameView says where encoding/asn1 would see a difference between types of two packages, or nothing.
// Declared types are compared by what they stand for, names only matter as far as they make a SET. Anonymous
// elements can not say that they are a SET, so this is ignored for elements if one of them is anonymous.
type sameView struct {
	p, q *goPackage
	seen map[string]bool
}

func (v sameView) diff(t, u types.Type, tp, up []string, elem bool) string {
	unwrap := func(p *goPackage, t types.Type, params []string) (types.Type, string, bool, string) {
		set := false
		var keep []string
		for _, s := range params {
			if s == "set" {
				set = true
			} else {
				keep = append(keep, s)
			}
		}
		name := ""
		t = types.Unalias(t)
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() == p.Pkg {
			name = n.Obj().Name()
			t = n.Underlying()
			if _, ok := t.(*types.Slice); ok && strings.HasSuffix(name, "SET") {
				set = true
			}
		}
		return t, name, set, strings.Join(keep, ",")
	}
	t, tn, ts, tk := unwrap(v.p, t, tp)
	u, un, us, uk := unwrap(v.q, u, up)
	if tk != uk {
		return fmt.Sprintf("tag %s != %s", tk, uk)
	}
	if ts != us && !(elem && (tn == "" || un == "")) {
		return fmt.Sprintf("set %v != %v", ts, us)
	}
	if tn != "" && un != "" {
		if v.seen[tn+" "+un] {
			return ""
		}
		v.seen[tn+" "+un] = true
	}
	switch t := t.(type) {
	case *types.Slice:
		u, ok := u.(*types.Slice)
		if !ok {
			break
		}
		if d := v.diff(t.Elem(), u.Elem(), nil, nil, true); d != "" {
			return "[]" + d
		}
		return ""
	case *types.Struct:
		u, ok := u.(*types.Struct)
		if !ok {
			break
		}
		if t.NumFields() != u.NumFields() {
			return fmt.Sprintf("%d != %d fields", t.NumFields(), u.NumFields())
		}
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() != u.Field(i).Name() {
				return fmt.Sprintf("field %s != %s", t.Field(i).Name(), u.Field(i).Name())
			}
			if d := v.diff(t.Field(i).Type(), u.Field(i).Type(), tagSet(t.Tag(i)), tagSet(u.Tag(i)), false); d != "" {
				return "." + t.Field(i).Name() + " " + d
			}
		}
		return ""
	}
	if x, y := v.p.canon(t, true), v.q.canon(u, true); x != y {
		return x + " != " + y
	}
	return ""
}

func init() {
	register(&rt.Check{ID: "C16", Unprivileged: true,
		Rule: "supported modules with their assignments permuted, and with chains of references put in for components, alternatives, elements and values; declarations and struct tags as seen by go/types are compared; non-trivial if there is a reference, or a chain was put in",
		Run: func(r *rt.Runner) {
			r.Parallel("permutations", r.N(20000, 300000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.DoubleTags = true
				m := codeModule(c, g)
				repr := reprs[c.Rng.Intn(2)]
				params := a.GenParams{Package: "p", IntegerRepr: repr}
				before := compile(c, mustGenerate(c, m, params))
				want := map[string]decl{}
				for _, d := range before.Decls {
					want[d.Name] = d
				}
				refs := 0
				for _, x := range m.ModuleBody.AssignmentList {
					if t, ok := x.(a.TypeAssignment); ok {
						walk(t.Type, func(t a.Type) {
							if _, ok := t.(a.TypeReference); ok {
								refs++
							}
						})
					}
				}
				for k := 0; k < 2; k++ {
					x := gen.Clone(m)
					l := x.ModuleBody.AssignmentList
					if k == 0 {
						for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
							l[i], l[j] = l[j], l[i]
						}
					} else {
						c.Rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
					}
					src := pretty(x)
					c.Input("permuted", src)
					after := compile(c, mustGenerate(c, mustParse(c, src), params))
					if len(after.Decls) != len(before.Decls) {
						c.Violation("permuted module has %d declarations instead of %d", len(after.Decls), len(before.Decls))
					}
					for _, d := range after.Decls {
						if want[d.Name] != d {
							c.Violation("order of assignments changes %s:\n%+v\n!=\n%+v", d.Name, want[d.Name], d)
						}
					}
					if d := strings.Join(after.Imports, ","); d != strings.Join(before.Imports, ",") {
						c.Violation("order of assignments changes imports: %s", d)
					}
					c.Count("permutations", 1)
				}
				if refs > 0 {
					c.Nontrivial(plain(m))
				}
			})
			// very long chains, in either order
			r.Parallel("long chains", r.N(16, 160), func(c *rt.Case) {
				n := []int{128, 256, 300, 400, 500, 257, 260, 514}[c.Index%8] + c.Rng.Intn(3)
				if r.Thorough() && c.Index%20 == 0 {
					n = 1500
				}
				kinds := []string{"BOOLEAN", "INTEGER", "UTF8String", "IA5String", "NumericString", "GeneralizedTime", "UTCTime", "BIT STRING", "OCTET STRING", "SET { x BOOLEAN }", "SEQUENCE { x BOOLEAN }",
					"CHOICE { x [0] BOOLEAN, y REAL }", "CHOICE { x IA5String }", "ANY", "ENUMERATED { x }", "SEQUENCE OF REAL"}
				kind := kinds[c.Rng.Intn(len(kinds))]
				at := c.Rng.Intn(n) // a constraint somewhere
				head := "M DEFINITIONS " + []string{"", "IMPLICIT TAGS "}[c.Rng.Intn(2)] + "::= BEGIN\n"
				users := "U1 ::= SEQUENCE { a %[1]s, b [1] %[1]s OPTIONAL, c SEQUENCE OF %[1]s }\nU2 ::= CHOICE { a %[1]s, b BOOLEAN }\nU3 ::= CHOICE { a %[1]s }\nU4 ::= SEQUENCE { a U3 }\n"
				if kind == "INTEGER" {
					users += "v %[1]s ::= 5\n"
				}
				users = strings.ReplaceAll(users, "%[1]s", "%s")
				short := head + strings.ReplaceAll(users, "%s", "T0") + "T0 ::= Leaf\nLeaf ::= " + kind + "\nEND\n"
				lines := []string{}
				for i := 0; i < n; i++ {
					con := ""
					if i == at {
						con = " (1 | 2)"
					}
					lines = append(lines, fmt.Sprintf("T%d ::= T%d%s\n", i, i+1, con))
				}
				lines = append(lines, fmt.Sprintf("T%d ::= Leaf\nLeaf ::= %s\n", n, kind), strings.ReplaceAll(users, "%s", "T0"))
				switch c.Rng.Intn(3) {
				case 0:
					for i, j := 0, len(lines)-1; i < j; i, j = i+1, j-1 {
						lines[i], lines[j] = lines[j], lines[i]
					}
				case 1:
					c.Rng.Shuffle(len(lines), func(i, j int) { lines[i], lines[j] = lines[j], lines[i] })
				}
				long := head + strings.Join(lines, "") + "END\n"
				c.Input("short", short)
				c.Input("long", long)
				repr := reprs[c.Rng.Intn(2)]
				params := a.GenParams{Package: "p", IntegerRepr: repr}
				before, after := compile(c, mustGenerate(c, mustParse(c, short), params)), compile(c, mustGenerate(c, mustParse(c, long), params))
				got := map[string]decl{}
				for _, d := range after.Decls {
					got[d.Name] = d
				}
				for _, d := range before.Decls {
					if strings.HasPrefix(d.Name, "U") || strings.HasPrefix(d.Name, "Val") {
						if d != got[d.Name] {
							c.Violation("chain of %d references to %s changes %s:\n%+v\n!=\n%+v", n, kind, d.Name, d, got[d.Name])
						}
					}
				}
				c.Count("long chains", 1)
				c.Nontrivial(long)
			})
			r.Parallel("chains", r.N(25000, 400000), func(c *rt.Case) {
				g := gen.NewCode(c.Rng)
				g.DoubleTags = true
				m := codeModule(c, g)
				repr := reprs[c.Rng.Intn(2)]
				params := a.GenParams{Package: "p", IntegerRepr: repr}
				before := compile(c, mustGenerate(c, m, params))
				env := gen.NewEnv(m)
				// chains replace types that are not tagged and no structures of their own, which would become
				// declared types that a module could otherwise not refer to
				var extra []a.Assignment
				chains := 0
				chain := func(t a.Type) a.Type {
					n := 1 + c.Rng.Intn(4)
					switch c.Rng.Intn(20) {
					case 0, 1:
						n = 20
					case 2:
						n = 20 + c.Rng.Intn(150)
					}
					fold := c.Rng.Intn(3) == 0 // names that differ in the case of letters only
					for i := 0; i < n; i++ {
						name := fmt.Sprintf("Zz-Chain%d", len(extra))
						if fold {
							b := []byte("Zz-Chainabcdefghijkl")
							for k := 0; k < 12; k++ {
								if len(extra)>>k&1 != 0 {
									b[8+k] -= 'a' - 'A'
								}
							}
							name = string(b)
						}
						extra = append(extra, typeAs(name, t))
						t = a.TypeReference(name)
						for c.Rng.Intn(6) == 0 || i == 0 && c.Rng.Intn(4) == 0 {
							t = a.ConstraintedType{Type: t, Constraint: gen.NewFull(c.Rng).Constraint(0)}
						}
					}
					chains++
					return t
				}
				replace := func(t a.Type) a.Type {
					if chains > 5 || c.Rng.Intn(3) != 0 {
						return t
					}
					if env.Tagged(t) { // the tag would move away from the component
						return t
					}
					switch tt := gen.Strip(t).(type) {
					case a.NullType, a.NamedType:
						return t
					case a.ChoiceType:
						if len(tt.AlternativeTypeList) > 0 && c.Rng.Intn(2) == 0 {
							return t
						}
					case a.SetOfType: // elements do not state that they are a set, but a declared type does
						return t
					}
					return chain(t)
				}
				x := representedModule(m, func(t a.Type, component bool) a.Type {
					switch tt := t.(type) {
					case a.SequenceType:
						for i, f := range tt.Components {
							if n, ok := f.(a.NamedComponentType); ok {
								n.NamedType.Type = replaceField(c, n.NamedType.Type, replace, chain)
								tt.Components[i] = n
							}
						}
						for i, f := range tt.ExtensionAdditions {
							if n, ok := f.(a.NamedComponentType); ok {
								n.NamedType.Type = replaceField(c, n.NamedType.Type, replace, chain)
								tt.ExtensionAdditions[i] = n
							}
						}
						return tt
					case a.SetType:
						for i, f := range tt.Components {
							if n, ok := f.(a.NamedComponentType); ok {
								n.NamedType.Type = replaceField(c, n.NamedType.Type, replace, chain)
								tt.Components[i] = n
							}
						}
						for i, f := range tt.ExtensionAdditions {
							if n, ok := f.(a.NamedComponentType); ok {
								n.NamedType.Type = replaceField(c, n.NamedType.Type, replace, chain)
								tt.ExtensionAdditions[i] = n
							}
						}
						return tt
					case a.SequenceOfType:
						tt.Type = replace(tt.Type)
						return tt
					case a.SetOfType:
						tt.Type = replace(tt.Type)
						return tt
					case a.ChoiceType:
						for i := range tt.AlternativeTypeList {
							tt.AlternativeTypeList[i].Type = replace(tt.AlternativeTypeList[i].Type)
						}
						for i, e := range tt.ExtensionTypes {
							if n, ok := e.(a.NamedType); ok {
								n.Type = replace(n.Type)
								tt.ExtensionTypes[i] = n
							}
						}
						return tt
					}
					return t
				})
				for i, as := range x.ModuleBody.AssignmentList {
					if v, ok := as.(a.ValueAssignment); ok {
						switch v.Value.(type) {
						case a.Number, a.Boolean, a.Real:
							v.Type = replace(v.Type)
							x.ModuleBody.AssignmentList[i] = v
						}
					}
				}
				if chains == 0 {
					return
				}
				for _, e := range extra {
					l := x.ModuleBody.AssignmentList
					i := c.Rng.Intn(len(l) + 1)
					x.ModuleBody.AssignmentList = append(append(append(a.AssignmentList{}, l[:i]...), e), l[i:]...)
				}
				src := pretty(x)
				c.Input("with chains", src)
				after := compile(c, mustGenerate(c, mustParse(c, src), params))
				got := map[string]decl{}
				for _, d := range after.Decls {
					got[d.Name] = d
				}
				assigned := map[string]bool{}
				for _, as := range m.ModuleBody.AssignmentList {
					if t, ok := as.(a.TypeAssignment); ok {
						assigned[gen.GoName(string(t.TypeReference))] = true
					}
				}
				for _, d := range before.Decls {
					if base := strings.TrimSuffix(d.Name, "SET"); d.Kind == "type" && !assigned[d.Name] && assigned[base] {
						continue // names a SET that is declared elsewhere now, what it names is compared with the assignment
					}
					n, ok := got[d.Name]
					if !ok || n.Kind != d.Kind || n.Expr != d.Expr {
						c.Violation("chains of references change %s %s = %s to %s %s = %s", d.Kind, d.Name, d.Expr, n.Kind, n.Name, n.Expr)
					}
					v := sameView{before, after, map[string]bool{}}
					if x := v.diff(before.Pkg.Scope().Lookup(d.Name).Type(), after.Pkg.Scope().Lookup(d.Name).Type(), nil, nil, false); x != "" {
						c.Violation("chains of references change %s: %s", d.Name, x)
					}
				}
				c.Count("chains", chains)
				c.Count("declarations compared", len(before.Decls))
				c.Nontrivial(src)
				c.Sample("chains", src)
			})
		}})
}

// replaceField keeps tags on the component and replaces the type under them.
func replaceField(c *rt.Case, t a.Type, replace, chain func(a.Type) a.Type) a.Type {
	switch tt := t.(type) {
	case a.TaggedType:
		tt.Type = replaceField(c, tt.Type, replace, chain)
		return tt
	case a.SetOfType:
		if c.Rng.Intn(3) == 0 {
			return chain(t)
		}
		return t
	}
	return replace(t)
}

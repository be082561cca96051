package checks

import (
	"fmt"
	"sort"
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

func init() {
	register(&rt.Check{ID: "C23", Unprivileged: true,
		Rule: "random assignment lists (parsed and made by hand, with names repeated, shared by types and values, or differing in case or by a hyphen; up to 20000 names, in several orders) and names; lookups are compared with a reference search, and the list with a snapshot after the results were overwritten; non-trivial if found or of the other kind",
		Run: func(r *rt.Runner) {
			lookup := func(c *rt.Case, l a.AssignmentList, name string) {
				snapshot := gen.Clone(l)
				first := -1
				for i, x := range l {
					switch x := x.(type) {
					case a.TypeAssignment:
						if string(x.TypeReference) == name && first < 0 {
							first = i
						}
					case a.ValueAssignment:
						if string(x.ValueReference) == name && first < 0 {
							first = i
						}
					}
				}
				got, _ := guard(c, "Get", func() (a.Assignment, error) { return l.Get(name), nil })
				t, _ := guard(c, "GetType", func() (*a.TypeAssignment, error) { return l.GetType(name), nil })
				v, _ := guard(c, "GetValue", func() (*a.ValueAssignment, error) { return l.GetValue(name), nil })
				c.Eval(3)
				if first < 0 {
					if got != nil || t != nil || v != nil {
						c.Violation("%q is not assigned, but there is %v %v %v", name, got, t, v)
					}
					c.Count("not assigned", 1)
					return
				}
				if got == nil {
					c.Violation("%q is not found", name)
				}
				if d := gen.Diff(snapshot[first], got); d != "" {
					c.Violation("Get(%q) is not the first assignment: %s", name, d)
				}
				switch want := snapshot[first].(type) {
				case a.TypeAssignment:
					if t == nil || v != nil {
						c.Violation("%q is a type, but GetType is %v and GetValue is %v", name, t, v)
					}
					if d := gen.Diff(want, *t); d != "" {
						c.Violation("GetType(%q) is not the first assignment: %s", name, d)
					}
					t.Type, t.TypeReference = a.NullType{}, "Overwritten"
					c.Count("types", 1)
				case a.ValueAssignment:
					if v == nil || t != nil {
						c.Violation("%q is a value, but GetType is %v and GetValue is %v", name, t, v)
					}
					if d := gen.Diff(want, *v); d != "" {
						c.Violation("GetValue(%q) is not the first assignment: %s", name, d)
					}
					v.Type, v.Value, v.ValueReference = a.NullType{}, nil, "overwritten"
					c.Count("values", 1)
				}
				if d := gen.Diff(snapshot, l); d != "" {
					c.Violation("changing the result of a lookup of %q changes the list: %s", name, d)
				}
				if x := l.Get(name); x == nil || gen.Diff(snapshot[first], x) != "" {
					c.Violation("second lookup of %q finds something else", name)
				}
				c.Nontrivial(fmt.Sprint(c.Family, c.Index, name))
			}
			variants := func(c *rt.Case, s string) string {
				if s == "" {
					return "x"
				}
				switch c.Rng.Intn(12) {
				case 0:
					return s + "x"
				case 1:
					return s[:len(s)-1]
				case 2:
					return " " + s
				case 3:
					return gen.GoName(s)
				case 4:
					return s + "-" + s
				case 5:
					return ""
				case 6:
					return flipCase(s, c.Rng.Intn(len(s)))
				case 7:
					return s + "\x00"
				}
				return s
			}
			r.Parallel("by hand", r.N(60000, 800000), func(c *rt.Case) {
				pool := []string{"A", "a", "B", "b", "A-B", "a-b", "AB", "GeneralizedTime", "INTEGER", "é", "aB", "Ab"}[:2+c.Rng.Intn(11)]
				f := gen.NewFull(c.Rng)
				var l a.AssignmentList
				desc := ""
				for n := c.Rng.Intn(12); n > 0; n-- {
					name := pool[c.Rng.Intn(len(pool))]
					if c.Rng.Intn(2) == 0 {
						l = append(l, a.TypeAssignment{TypeReference: a.TypeReference(name), Type: a.BitStringType{NamedBits: []a.NamedBit{{Name: "n", Index: a.Number(f.Nat())}}}})
						desc += "type " + name + "\n"
					} else {
						l = append(l, a.ValueAssignment{ValueReference: a.ValueReference(name), Type: a.IntegerType{}, Value: a.Number(f.Nat())})
						desc += "value " + name + "\n"
					}
				}
				c.Input("list", desc)
				for _, name := range pool {
					lookup(c, l, name)
					lookup(c, l, variants(c, name))
				}
			})
			// large lists in some order, which invites to search instead of walk
			r.Parallel("ordered", r.N(1500, 20000), func(c *rt.Case) {
				n := []int{1, 2, 3, 8, 15, 16, 17, 31, 32, 33, 64, 65, 100, 200, 300, 1000}[c.Rng.Intn(16)]
				if c.Index%100 == 0 {
					n = []int{4000, 5000, 10000, 20000}[c.Rng.Intn(4)]
				}
				var names []string
				for len(names) < n {
					name := gen.LowerName(c.Rng)
					if c.Rng.Intn(2) == 0 {
						name = gen.UpperName(c.Rng)
					}
					names = append(names, name)
					for c.Rng.Intn(3) == 0 { // similar ones
						names = append(names, variants(c, names[c.Rng.Intn(len(names))]))
					}
				}
				var less func(x, y string) bool
				switch c.Rng.Intn(6) {
				case 0:
					less = func(x, y string) bool { return x < y }
				case 1:
					less = func(x, y string) bool { return x > y }
				case 2:
					less = func(x, y string) bool { return strings.ToLower(x) < strings.ToLower(y) }
				case 3:
					less = func(x, y string) bool { return len(x) < len(y) }
				case 4:
					less = func(x, y string) bool { return len(x) < len(y) || len(x) == len(y) && x < y }
				}
				if less != nil {
					sort.SliceStable(names, func(i, j int) bool { return less(names[i], names[j]) })
					if c.Rng.Intn(2) == 0 { // strictly
						k := 1
						for _, x := range names[1:] {
							if less(names[k-1], x) {
								names[k] = x
								k++
							}
						}
						names = names[:k]
					}
				}
				kind := c.Rng.Intn(3)
				f := gen.NewFull(c.Rng)
				var l a.AssignmentList
				for _, name := range names {
					if kind == 0 || kind == 1 && c.Rng.Intn(2) == 0 || kind == 2 && name == gen.GoName(name) {
						l = append(l, a.TypeAssignment{TypeReference: a.TypeReference(name), Type: a.AnyType{Identifier: a.Identifier(fmt.Sprint("n", f.Nat()))}})
					} else {
						l = append(l, a.ValueAssignment{ValueReference: a.ValueReference(name), Type: a.IntegerType{}, Value: a.Number(f.Nat())})
					}
				}
				c.Input("names", strings.Join(names, "\n"))
				tries := append([]string{names[0], names[len(names)-1]}, names...)
				if n > 1000 {
					tries = append([]string{names[0], names[len(names)-1], names[len(names)/2]}, names...)[:3]
				} else if len(tries) > 40 {
					c.Rng.Shuffle(len(names), func(i, j int) { tries[i+2], tries[j+2] = tries[j+2], tries[i+2] })
					tries = tries[:40]
				}
				for _, name := range tries {
					lookup(c, l, name)
					if name != "" {
						lookup(c, l, variants(c, name))
					}
				}
			})
			// lists that are changed, cut or grown between lookups
			r.Parallel("changed", r.N(4000, 60000), func(c *rt.Case) {
				f := gen.NewFull(c.Rng)
				n := 1 + c.Rng.Intn(12)
				if c.Rng.Intn(3) == 0 {
					n = 12 + c.Rng.Intn(150)
				}
				name := func() string { return fmt.Sprintf("%c%d", "Tv"[c.Rng.Intn(2)], c.Rng.Intn(n+n/4+2)) }
				item := func(name string) a.Assignment {
					if name[0] == 'T' || c.Rng.Intn(8) == 0 {
						return a.TypeAssignment{TypeReference: a.TypeReference(name), Type: a.AnyType{Identifier: a.Identifier(fmt.Sprint("n", f.Nat()))}}
					}
					return a.ValueAssignment{ValueReference: a.ValueReference(name), Type: a.IntegerType{}, Value: a.Number(f.Nat())}
				}
				var l a.AssignmentList
				for i := 0; i < n; i++ {
					l = append(l, item(name()))
				}
				log := ""
				for k := 0; k < 12; k++ {
					for t := 0; t < 6; t++ {
						lookup(c, l, name())
					}
					i := c.Rng.Intn(len(l))
					switch c.Rng.Intn(6) {
					case 0, 1:
						l[i] = item(name())
						log += fmt.Sprintf("item %d is now %s\n", i, l[i].Reference().Name())
					case 2:
						j := c.Rng.Intn(len(l))
						l[i], l[j] = l[j], l[i]
						log += fmt.Sprintf("items %d and %d swapped\n", i, j)
					case 3:
						l = append(l, item(name()))
						log += "item appended\n"
					case 4:
						if len(l) > 1 {
							l = l[:len(l)-1]
							log += "last item cut off\n"
						}
					case 5: // same item, other content
						switch x := l[i].(type) {
						case a.TypeAssignment:
							x.Type = a.RealType{}
							l[i] = x
						case a.ValueAssignment:
							x.Value = a.Boolean(true)
							l[i] = x
						}
						log += fmt.Sprintf("content of item %d changed\n", i)
					}
					c.Input("history", log)
					c.Count("changes between lookups", 1)
				}
			})
			r.Parallel("parsed", r.N(15000, 200000), func(c *rt.Case) {
				g := gen.NewFull(c.Rng)
				m := g.Module()
				src := pretty(m)
				c.Input("module", src)
				got := mustParse(c, src)
				l := got.ModuleBody.AssignmentList
				if len(l) > 0 && c.Rng.Intn(3) == 0 { // a name assigned again
					l = append(append(a.AssignmentList{}, l...), l[c.Rng.Intn(len(l))])
				}
				c.Rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
				for _, x := range m.ModuleBody.AssignmentList {
					var name string
					switch x := x.(type) {
					case a.TypeAssignment:
						name = string(x.TypeReference)
					case a.ValueAssignment:
						name = string(x.ValueReference)
					}
					lookup(c, l, name)
					lookup(c, l, variants(c, name))
				}
			})
		}})
}

func flipCase(s string, i int) string {
	b := []byte(s)
	if b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z' {
		b[i] ^= 0x20
	}
	return string(b)
}

package checks

import (
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"unicode"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/refg"
	"verif/rt"
)

func init() {
	register(&rt.Check{ID: "C05", Unprivileged: true,
		Rule: "random AST over the whole notation, printed in a random spelling and layout, parsed and compared node by node; non-trivial if it has at least two type nodes, distinct by canonical text",
		Run: func(r *rt.Runner) {
			r.Parallel("roundtrip", r.N(80000, 2000000), func(c *rt.Case) {
				g := gen.NewFull(c.Rng)
				m := g.Module()
				src := text(c, m, c.Rng.Intn(3))
				c.Input("module", src)
				got := mustParse(c, src)
				if d := gen.Diff(m, got); d != "" {
					c.Violation("AST differs from what was written (expected != parsed) %s\n%s", d, src)
				}
				kindsOf(c, m)
				c.Sample("module", plain(m))
				c.Nontrivial(plain(m))
			})
			// names in any script: what is no upper case letter begins an identifier or value
			r.Parallel("scripts", r.N(6000, 100000), func(c *rt.Case) {
				letter := func(first string) string {
					tables := map[string][]*unicode.RangeTable{"upper": {unicode.Lu}, "lower": {unicode.Ll, unicode.Lo, unicode.Lm, unicode.Lo}}[first]
					if first == "" {
						tables = []*unicode.RangeTable{unicode.Lu, unicode.Ll, unicode.Lo, unicode.Lm, unicode.Nd}
					}
					x := tables[c.Rng.Intn(len(tables))]
					n16 := len(x.R16)
					if k := c.Rng.Intn(n16 + len(x.R32)); k < n16 {
						y := x.R16[k]
						return string(rune(y.Lo) + rune(y.Stride)*rune(c.Rng.Intn(int((y.Hi-y.Lo)/y.Stride)+1)))
					} else {
						y := x.R32[k-n16]
						return string(rune(y.Lo) + rune(y.Stride)*rune(c.Rng.Intn(int((y.Hi-y.Lo)/y.Stride)+1)))
					}
				}
				used := map[string]bool{}
				name := func(first string) string {
					for {
						s := letter(first)
						for k := c.Rng.Intn(5); k > 0; k-- {
							s += letter("")
							if c.Rng.Intn(4) == 0 {
								s += "-" + letter("")
							}
						}
						if !used[s] && !gen.IsReserved(s) {
							used[s] = true
							return s
						}
					}
				}
				plain := []string{"Module", "Ztype", "Zother", "zcomp", "zvalue", "zalt", "zitem", "zname"}
				src := "Module DEFINITIONS ::= BEGIN Ztype ::= SEQUENCE { zcomp Zother DEFAULT zvalue, zname INTEGER { zitem(1) } DEFAULT zitem }\n" +
					"Zother ::= CHOICE { zalt [0] ENUMERATED { zitem, zname }, zcomp SEQUENCE OF Ztype }\nzvalue Zother ::= 5 END"
				var pairs []string
				for _, p := range plain {
					pairs = append(pairs, p, name(map[bool]string{true: "upper", false: "lower"}[p[0] < 'a']))
				}
				text := strings.NewReplacer(pairs...).Replace(src)
				c.Input("module", text)
				want := gen.Clone(mustParse(c, src))
				rename(reflect.ValueOf(want).Elem(), strings.NewReplacer(pairs...))
				if d := gen.Diff(want, mustParse(c, text)); d != "" {
					c.Violation("AST differs from what was written (expected != parsed) %s\n%s", d, text)
				}
				c.Count("modules with names of other scripts", 1)
				c.Nontrivial(text)
			})
			// lists of any length
			r.Parallel("long lists", r.N(240, 3000), func(c *rt.Case) {
				g := gen.NewFull(c.Rng)
				g.MaxDepth = 1 + c.Rng.Intn(3)
				m := gen.Clone(g.Module())
				if c.Index%12 == 0 && len(m.ModuleBody.AssignmentList) > 0 {
					m.ModuleBody.Imports = []a.SymbolsFromModule{{SymbolList: []a.Symbol{a.TypeReference("A"), a.ValueReference("b")}, Module: a.GlobalModuleReference{Reference: "X"}}}
				}
				count := map[string]int{}
				growLists(reflect.ValueOf(m).Elem(), func(v reflect.Value) { count[v.Type().Elem().Name()]++ })
				var kinds []string
				for k := range count {
					kinds = append(kinds, k)
				}
				if len(kinds) == 0 {
					return
				}
				sort.Strings(kinds)
				kind := kinds[c.Rng.Intn(len(kinds))]
				at := c.Rng.Intn(count[kind])
				n := []int{127, 128, 255, 256, 257, 300, 1000, 4096, 32768, 65536}[c.Rng.Intn(10)] + c.Rng.Intn(3)
				growLists(reflect.ValueOf(m).Elem(), func(v reflect.Value) {
					if v.Type().Elem().Name() != kind {
						return
					}
					if at--; at != -1 {
						return
					}
					last := v.Index(v.Len() - 1)
					if s := fmt.Sprint(last.Interface()); len(s) > 100 && n > 5000 {
						n = 1000 + n%1000
					}
					out := reflect.MakeSlice(v.Type(), 0, n)
					for out.Len() < n {
						x := last
						if k := n - out.Len(); k < v.Len() {
							x = v.Index(v.Len() - k)
						} else if out.Len() < v.Len() && k >= 2*v.Len() {
							x = v.Index(out.Len())
						}
						if kind == "ObjectIdElement" || kind == "DefinitiveObjIdComponent" {
							x = last
							if out.Len() < v.Len() {
								x = v.Index(out.Len())
							}
						}
						out = reflect.Append(out, x)
					}
					v.Set(out)
				})
				m = gen.Clone(m)
				src := text(c, m, 0)
				c.Input("form", fmt.Sprintf("list of %d items of kind %s", n, kind))
				got := mustParse(c, src)
				if d := gen.Diff(m, got); d != "" {
					c.Violation("AST differs from what was written (expected != parsed) %s", d)
				}
				c.Count("long lists of "+kind, 1)
				c.Nontrivial(fmt.Sprint(kind, n, c.Index))
			})
			// modules derived from the grammar instead of the tree
			rules := refg.Rules()
			r.Parallel("derived", r.N(60, 1500)*len(rules), func(c *rt.Case) {
				d := refg.Derivation{R: c.Rng, Prefer: c.Index % len(rules)}
				ts := d.Module(6 + c.Rng.Intn(16))
				l := gen.Layout{R: c.Rng, Style: c.Rng.Intn(3)}
				src := l.Join(ts)
				c.Input("module", src)
				got := mustParse(c, src)
				again := text(c, got, c.Rng.Intn(3))
				c.Input("printed module", again)
				if d := gen.Diff(got, mustParse(c, again)); d != "" {
					c.Violation("printed module is parsed to another AST (first != second) %s\n%s\nprinted as\n%s", d, src, again)
				}
				// nothing but what the tree does not keep by design may be missing in what it prints
				if lost := lostItems(ts, (&gen.Printer{}).Module(got)); lost != "" {
					c.Violation("%s\n%s\nprinted as\n%s", lost, src, plain(got))
				}
				c.Nontrivial(src)
			})
		}})
}

// growLists calls f for every list of a tree whose length is not limited and that is not empty.
func growLists(v reflect.Value, f func(reflect.Value)) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() {
			x := reflect.New(v.Elem().Type()).Elem()
			x.Set(v.Elem())
			growLists(x, f)
			if v.Kind() == reflect.Ptr {
				v.Elem().Set(x)
			} else {
				v.Set(x)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			growLists(v.Field(i), f)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			growLists(v.Index(i), f)
		}
		switch v.Type().Elem().Name() {
		case "Assignment", "NamedNumber", "NamedBit", "EnumerationItem", "ComponentType", "ExtensionAddition", "NamedType", "ChoiceExtension", "Symbol", "Intersections", "IntersectionElements", "DefinitiveObjIdComponent", "ObjectIdElement":
			if v.Len() > 0 {
				f(v)
			}
		case "SymbolsFromModule":
			if v.Len() == 1 && fmt.Sprint(v.Index(0).Interface()) == "{[A b] {X <nil>}}" {
				f(v)
			}
		}
	}
}

// keptItems are words and integers of a module in their order, without what the syntax tree does not keep by design:
// exports, exceptions, inner type constraints, version numbers, an explicit default of tagging and the spelling of
// set operators. Numbers of the module identifier are left out, as the tree has zero for none.
func keptItems(ts []gen.Tok) []string {
	var out []string
	header := true
	closing := func(i int) int { // index of the bracket that closes the one at i
		depth := 0
		for ; i < len(ts); i++ {
			switch ts[i] {
			case "(", "{", "[", "[[":
				depth++
			case ")", "}", "]", "]]":
				if depth--; depth == 0 {
					return i
				}
			}
		}
		return len(ts)
	}
	for i := 0; i < len(ts); i++ {
		s := string(ts[i])
		switch {
		case s == "DEFINITIONS":
			header = false
		case s == "EXPORTS":
			for ts[i] != ";" {
				i++
			}
		case s == "IMPORTS" && i+1 < len(ts) && ts[i+1] == ";": // of nothing
		case s == "!":
			depth := 0
		exception:
			for ; i < len(ts); i++ {
				switch ts[i] {
				case "(", "{", "[", "[[":
					depth++
				case ")", "}", "]", "]]":
					if depth == 0 {
						break exception
					}
					depth--
				case ",":
					if depth == 0 {
						break exception
					}
				}
			}
			i--
		case s == "WITH":
			i = closing(i)
			out = append(out, "WITH")
		case s == "[[" && i+2 < len(ts) && ts[i+2] == ":":
			i += 2
		case s == "EXPLICIT" && i+1 < len(ts) && ts[i+1] == "TAGS":
			i++
		case s == "UNION" || s == "INTERSECTION" || strings.HasSuffix(s, "-INFINITY"): // which out of range literals become
		case s[0] >= '0' && s[0] <= '9':
			if n, ok := new(big.Int).SetString(s, 10); ok && !header {
				out = append(out, n.String())
			}
		case s[0] >= 'a' && s[0] <= 'z' || s[0] >= 'A' && s[0] <= 'Z' || s[0] >= 0x80:
			out = append(out, s)
		}
	}
	return out
}

// lostItems describes the first difference between what was written and what the tree prints.
func lostItems(written, printed []gen.Tok) string {
	w, p := keptItems(written), keptItems(printed)
	for i := 0; i < len(w) || i < len(p); i++ {
		if i >= len(w) || i >= len(p) || w[i] != p[i] {
			around := func(l []string) string {
				return strings.Join(l[min(len(l), max(0, i-8)):min(len(l), i+8)], " ")
			}
			return fmt.Sprintf("item is lost, changed or added: tree says\n%s\nand the text\n%s", around(p), around(w))
		}
	}
	return ""
}

// rename replaces names in a tree.
func rename(v reflect.Value, r *strings.Replacer) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(r.Replace(v.String()))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			rename(v.Field(i), r)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			rename(v.Index(i), r)
		}
	case reflect.Ptr:
		if !v.IsNil() {
			rename(v.Elem(), r)
		}
	case reflect.Interface:
		if !v.IsNil() {
			x := reflect.New(v.Elem().Type()).Elem()
			x.Set(v.Elem())
			rename(x, r)
			v.Set(x)
		}
	}
}

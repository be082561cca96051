package checks

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/refg"
	"verif/rt"
	"verif/wire"
)

// example modules, and if they are known to generate.
var exampleFiles = []struct {
	name, module string
	generates    bool
}{
	{"rfc1155", "RFC1155-SMI", true},
	{"rfc1157", "RFC1157-SNMP", false}, // names types of another module
	{"rfc4120", "KerberosV5Spec2", true},
	{"rfc4511", "Lightweight-Directory-Access-Protocol-V3", false}, // has COMPONENTS OF and NULL
	{"rfc5280", "PKIX1Explicit88", true},
}

var assigned = regexp.MustCompile(`(?m)^[ \t]*([A-Z][A-Za-z0-9-]*|[a-z][A-Za-z0-9-]*\s+[A-Z][A-Za-z0-9-]*(?:\s+[A-Z]+)?)\s*::=`)

// uncommented text of a module.
func uncommented(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); {
		switch {
		case strings.HasPrefix(s[i:], "/*"):
			i += strings.Index(s[i:], "*/") + 2
		case strings.HasPrefix(s[i:], "--"):
			i += 2
			for i < len(s) && s[i] != '\n' {
				if strings.HasPrefix(s[i:], "--") {
					i += 2
					break
				}
				i++
			}
			b.WriteByte(' ')
		default:
			b.WriteByte(s[i])
			i++
		}
	}
	return b.String()
}

// items of a module, without what the syntax tree does not keep: exports, the default of tagging if it is explicit,
// zeros in the identifier of the module, extension markers that nothing follows, and inner type constraints.
func items(toks []string) []string {
	var out []string
	has := func(i int, ws ...string) bool {
		for k, w := range ws {
			if i+k >= len(toks) || toks[i+k] != w {
				return false
			}
		}
		return true
	}
	for i := 0; i < len(toks); i++ {
		switch {
		case has(i, "EXPLICIT", "TAGS"):
			i++
		case has(i, "EXPORTS"):
			for toks[i] != ";" {
				i++
			}
		case has(i, "(", "0", ")"):
			i += 2
		case has(i, ",", "...", "}"):
			i++
		case has(i, "WITH", "COMPONENT"), has(i, "WITH", "COMPONENTS"):
			out = append(out, "WITH COMPONENTS")
			i++
			depth := 0
			for {
				i++
				switch toks[i] {
				case "(", "{":
					depth++
				case ")", "}":
					depth--
				}
				if depth == 0 {
					break
				}
			}
		default:
			out = append(out, toks[i])
		}
	}
	return out
}

func init() {
	register(&rt.Check{ID: "C24",
		Rule:        "the shipped modules are parsed, the assignments are compared with those of the text, the text with what the tree prints; declarations are compared with the model; the generated packages are compiled for both integer representations and run on random values of their structured types, and on certificates and revocation lists made by crypto/x509 and decoded by both; non-trivial if distinct by module and representation, types and values are counted",
		Assumptions: []string{"encoding/asn1 and crypto/x509 are correct"},
		Run: func(r *rt.Runner) {
			r.Sequential("modules", len(exampleFiles), func(c *rt.Case) {
				x := exampleFiles[c.Index]
				path := filepath.Join(r.RepoDir, "examples", x.name+".asn1")
				data, err := os.ReadFile(path)
				if err != nil {
					c.Broken("%v", err)
				}
				src := string(data)
				c.Input("module", path)
				m := mustParse(c, src)
				if m.ModuleIdentifier.Reference != x.module {
					c.Violation("%s: module is named %s instead of %s", x.name, m.ModuleIdentifier.Reference, x.module)
				}
				// assignments
				body := uncommented(src)
				body = body[strings.Index(body, "BEGIN")+5:]
				var want, got []string
				for _, s := range assigned.FindAllStringSubmatch(body, -1) {
					want = append(want, strings.Fields(s[1])[0])
				}
				if n := strings.Count(body, "::="); n != len(want) {
					c.Broken("%s: %d assignments are recognized of %d", x.name, len(want), n)
				}
				for _, y := range m.ModuleBody.AssignmentList {
					switch y := y.(type) {
					case a.TypeAssignment:
						got = append(got, string(y.TypeReference))
					case a.ValueAssignment:
						got = append(got, string(y.ValueReference))
					}
				}
				c.Eval(len(want))
				c.Count(x.name+" assignments", len(want))
				if strings.Join(want, " ") != strings.Join(got, " ") {
					c.Violation("%s: assignments\n%s\ninstead of\n%s", x.name, strings.Join(got, " "), strings.Join(want, " "))
				}
				// items
				lexed, err := refg.Lex(src)
				if err != nil {
					c.Broken("%s: %v", x.name, err)
				}
				var texts, printed []string
				for _, t := range lexed {
					texts = append(texts, t.Text)
				}
				for _, t := range (&gen.Printer{}).Module(m) {
					printed = append(printed, string(t))
				}
				texts, printed = items(texts), items(printed)
				c.Eval(len(texts))
				c.Count(x.name+" items", len(texts))
				for i := 0; i < len(texts) || i < len(printed); i++ {
					if i >= len(texts) || i >= len(printed) || texts[i] != printed[i] {
						around := func(l []string) string {
							return strings.Join(l[min(len(l), max(0, i-10)):min(len(l), i+10)], " ")
						}
						c.Violation("%s: item %d is lost or changed: tree says\n%s\nand the text\n%s", x.name, i, around(printed), around(texts))
					}
				}
				// code
				for _, repr := range reprs {
					code, err := generate(c, m, a.GenParams{Package: "p", IntegerRepr: repr})
					if !x.generates {
						if err == nil { // more than what is claimed
							compile(c, code)
						}
						continue
					}
					if err != nil {
						c.Violation("%s: %v", x.name, err)
					}
					p := compile(c, code)
					sameDecls(c, x.name, newModel(m, repr).decls(m), p.Decls)
					c.Eval(len(p.Decls))
					c.Nontrivial(x.name + string(repr))
				}
			})
			r.Parallel("values", r.N(8, 200), func(c *rt.Case) {
				var main, imports, list strings.Builder
				p := program{pkgs: map[string]string{}}
				var mods []string
				for _, x := range exampleFiles {
					if !x.generates {
						continue
					}
					data, err := os.ReadFile(filepath.Join(r.RepoDir, "examples", x.name+".asn1"))
					if err != nil {
						c.Broken("%v", err)
					}
					m := mustParse(c, string(data))
					for k, repr := range reprs {
						name := fmt.Sprintf("%s_%d", x.name, k)
						code := mustGenerate(c, m, a.GenParams{Package: name, IntegerRepr: repr})
						declared := map[string]bool{}
						for _, d := range compile(c, code).Decls {
							declared[d.Name] = d.Kind == "type"
						}
						names := wire.Subjects(m)
						if len(names) == 0 { // nothing to import it for
							continue
						}
						p.pkgs[name] = code
						fmt.Fprintf(&imports, "\t%s \"batch/%s\"\n", name, name)
						fmt.Fprintf(&list, "\t\t{Name: %q, Text: %q, BigInt: %v, Types: map[string]reflect.Type{\n", x.name, data, repr == a.IntegerReprBigInt)
						sort.Strings(names)
						for _, n := range names {
							if !declared[goName(n)] {
								c.Violation("%s: type %s is not generated", x.name, n)
							}
							fmt.Fprintf(&list, "\t\t\t%q: reflect.TypeOf((*%s.%s)(nil)).Elem(),\n", n, name, goName(n))
						}
						list.WriteString("\t\t}},\n")
						mods = append(mods, x.name+" with "+string(repr))
						c.Nontrivial(name)
					}
				}
				fmt.Fprintf(&main, "package main\n\nimport (\n\t\"reflect\"\n\n%s\n\t\"verif/wire\"\n)\n\nfunc main() {\n\twire.ExamplesMain(%d, %d, %d, %q, []wire.Example{\n%s\t})\n}\n",
					imports.String(), c.Rng.Int63(), r.N(150, 400), r.N(400, 1500), filepath.Join(r.RepoDir, "examples", "testdata", "_.google.crt"), list.String())
				p.main = main.String()
				var rep wire.Report
				p.run(c, &rep)
				if !rep.Done {
					c.Broken("no report of the program")
				}
				c.Eval(rep.Values)
				for k, n := range rep.Counts {
					c.Count(k, n)
				}
				for _, s := range rep.Samples {
					c.Sample("value", s)
				}
				if len(rep.Problems) > 0 {
					x := rep.Problems[0]
					c.Violation("%s: %s: value %s: %s", mods[x.Pkg], x.Type, x.Value, x.Text)
				}
			})
		}})
}

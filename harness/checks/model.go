package checks

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	a "github.com/chemikadze/asn1go"

	"verif/gen"
	"verif/rt"
)

// ---------------------------------------------------------------------------------------------
// What Go code is expected for a module: an independent model of the documented mapping.

// model of the mapping for one module.
type model struct {
	env        gen.Env
	tagDefault int
	bigInt     bool
	// noTags leaves struct tags out.
	noTags bool
}

func newModel(m *a.ModuleDefinition, repr a.IntegerRepr) *model {
	return &model{env: gen.NewEnv(m), tagDefault: m.TagDefault, bigInt: repr == a.IntegerReprBigInt}
}

const (
	tInt64  = "#int64"
	tBigInt = "*math/big.Int"
)

// goType is the canonical Go type for an ASN.1 type: aliases expanded, declared types by name.
func (m *model) goType(t a.Type) string {
	switch t := t.(type) {
	case a.BooleanType:
		return "#bool"
	case a.IntegerType:
		if m.bigInt {
			return tBigInt
		}
		return tInt64
	case a.CharacterStringType, a.RestrictedStringType:
		return "#string"
	case a.RealType:
		return "#float64"
	case a.OctetStringType:
		return "[]#uint8"
	case a.BitStringType:
		return "encoding/asn1.BitString"
	case a.EnumeratedType:
		return "encoding/asn1.Enumerated"
	case a.ObjectIdentifierType:
		return "encoding/asn1.ObjectIdentifier"
	case a.AnyType:
		return "interface{}"
	case a.TaggedType:
		return m.goType(t.Type)
	case a.ConstraintedType:
		return m.goType(t.Type)
	case a.SequenceOfType:
		return "[]" + m.goType(t.Type)
	case a.SetOfType:
		return "[]" + m.goType(t.Type)
	case a.SequenceType:
		return m.structType(t.Components, t.ExtensionAdditions)
	case a.SetType:
		return m.structType(t.Components, t.ExtensionAdditions)
	case a.ChoiceType:
		alts, ext := alternatives(t)
		for _, x := range alts {
			if m.env.Tagged(x.Type) {
				return "encoding/asn1.RawValue"
			}
		}
		if len(alts) == 1 && ext == 0 {
			return m.goType(alts[0].Type)
		}
		return "interface{}"
	case a.TypeReference:
		if gen.IsTime(t) {
			return "time.Time"
		}
		def, ok := m.env[string(t)]
		if !ok {
			return "?" + string(t)
		}
		if name := m.defined(string(t), def); name != "" {
			return name
		}
		return m.goType(def)
	}
	return fmt.Sprintf("?%T", t)
}

// alternatives of the root and the extension, and the number of those of the extension.
func alternatives(t a.ChoiceType) ([]a.NamedType, int) {
	alts := append([]a.NamedType{}, t.AlternativeTypeList...)
	n := 0
	for _, x := range t.ExtensionTypes {
		if nt, ok := x.(a.NamedType); ok {
			alts = append(alts, nt)
			n++
		}
	}
	return alts, n
}

// body of an assigned type: without tags, constraints and a CHOICE around a single untagged alternative.
func (m *model) body(t a.Type) a.Type {
	for {
		t = gen.Strip(t)
		ch, ok := t.(a.ChoiceType)
		if !ok {
			return t
		}
		alts, ext := alternatives(ch)
		if len(alts) != 1 || ext != 0 || m.env.Tagged(alts[0].Type) {
			return t
		}
		t = alts[0].Type
	}
}

// resolve removes tags, constraints, references and CHOICE around a single untagged alternative, and says
// if there were references.
func (m *model) resolve(t a.Type) (leaf a.Type, byName bool) {
	for n := 0; n < 1000; n++ {
		t = m.body(t)
		r, ok := t.(a.TypeReference)
		if !ok {
			return t, byName
		}
		byName = true
		next, ok := m.env[string(r)]
		if !ok {
			return t, byName
		}
		t = next
	}
	return t, byName
}

// defined is the name of the defined Go type that an assignment makes, or nothing if it makes an alias.
func (m *model) defined(name string, t a.Type) string {
	switch m.body(t).(type) {
	case a.SequenceType:
		return gen.GoName(name)
	case a.SetType, a.SetOfType:
		return gen.GoName(name) + "SET"
	}
	return ""
}

func (m *model) structType(cs a.ComponentTypeList, es a.ExtensionAdditions) string {
	var b strings.Builder
	b.WriteString("struct{")
	for _, c := range components(cs, es) {
		fmt.Fprintf(&b, "%s %s", gen.GoName(string(c.NamedType.Identifier)), m.goType(c.NamedType.Type))
		if !m.noTags {
			fmt.Fprintf(&b, " `%s`", strings.Join(m.tagParts(c), ","))
		}
		b.WriteString("; ")
	}
	b.WriteString("}")
	return b.String()
}

func components(cs a.ComponentTypeList, es a.ExtensionAdditions) []a.NamedComponentType {
	var out []a.NamedComponentType
	for _, c := range cs {
		if n, ok := c.(a.NamedComponentType); ok {
			out = append(out, n)
		}
	}
	for _, c := range es {
		if n, ok := c.(a.NamedComponentType); ok {
			out = append(out, n)
		}
	}
	return out
}

// tagParts is the sorted set of parameters that the asn1 tag of a component has to state.
func (m *model) tagParts(c a.NamedComponentType) []string {
	parts := map[string]bool{}
	if c.IsOptional || c.Default != nil {
		parts["optional"] = true
	}
	if c.Default != nil {
		if n, ok := (*c.Default).(a.Number); ok {
			parts["default:"+strconv.Itoa(int(n))] = true
		}
	}
	t := c.NamedType.Type
	replaced := false // by an implicit tag before
	for done := false; !done; {
		switch tt := t.(type) {
		case a.TaggedType:
			if !replaced {
				switch tt.Tag.Class {
				case a.CLASS_APPLICATION:
					parts["application"] = true
				case a.CLASS_PRIVATE:
					parts["private"] = true
				}
				if n, ok := tt.Tag.ClassNumber.(a.Number); ok {
					parts["tag:"+strconv.Itoa(int(n))] = true
				}
			}
			explicit := m.tagDefault == a.TAGS_EXPLICIT
			if tt.HasTagType {
				explicit = tt.TagType == a.TAGS_EXPLICIT
			} else {
				switch m.env.Leaf(tt.Type).(type) {
				case a.ChoiceType, a.AnyType: // X.680 30.6: no tag that could be replaced
					if _, ok := tt.Type.(a.TaggedType); !ok {
						explicit = true
					}
				}
			}
			if explicit {
				parts["explicit"] = true
			}
			replaced = !explicit
			t = tt.Type
		case a.ConstraintedType:
			t = tt.Type
		default:
			done = true
		}
	}
	leaf, byName := m.resolve(t)
	switch leaf := leaf.(type) {
	case a.TypeReference:
		switch leaf {
		case "GeneralizedTime":
			parts["generalized"] = true
		case "UTCTime":
			parts["utc"] = true
		}
	case a.RestrictedStringType:
		switch leaf.LexType {
		case a.IA5String:
			parts["ia5"] = true
		case a.UTF8String:
			parts["utf8"] = true
		case a.NumericString:
			parts["numeric"] = true
		}
	case a.SetType:
		parts["set"] = true
	case a.SetOfType:
		if !byName {
			parts["set"] = true
		}
	}
	return sortedSet(parts)
}

func sortedSet(s map[string]bool) []string {
	out := make([]string, 0, len(s))
	for p := range s {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// expectation of one declared Go name.
type decl struct {
	Name string
	Kind string // type or var
	Type string // canonical type; for defined types the underlying one
	Expr string // initial value of variables
	File int    // order
}

// decls expected for a module, in order.
func (m *model) decls(mod *a.ModuleDefinition) []decl {
	var out []decl
	for _, x := range mod.ModuleBody.AssignmentList {
		switch x := x.(type) {
		case a.TypeAssignment:
			name := string(x.TypeReference)
			g := gen.GoName(name)
			def := m.defined(name, x.Type)
			switch def {
			case "":
				out = append(out, decl{Name: g, Kind: "type", Type: m.goType(x.Type)})
			case g:
				out = append(out, decl{Name: g, Kind: "type", Type: m.goType(x.Type)})
			default:
				out = append(out, decl{Name: def, Kind: "type", Type: m.goType(x.Type)}, decl{Name: g, Kind: "type", Type: def})
			}
			if it, ok := gen.Strip(x.Type).(a.IntegerType); ok {
				for _, n := range it.NamedNumberList {
					d := decl{Name: g + "Val" + gen.GoName(string(n.Name)), Kind: "var", Type: m.goType(a.IntegerType{})}
					switch v := n.Value.(type) {
					case a.Number:
						d.Expr = strconv.Itoa(int(v))
					case a.DefinedValue:
						d.Expr = "=Val" + gen.GoName(string(v.ValueName))
					}
					out = append(out, d)
				}
			}
		case a.ValueAssignment:
			d := decl{Name: "Val" + gen.GoName(string(x.ValueReference)), Kind: "var", Type: m.goType(x.Type)}
			switch v := x.Value.(type) {
			case a.Number:
				d.Expr = strconv.Itoa(int(v))
			case a.Boolean:
				d.Expr = strconv.FormatBool(bool(v))
			case a.Real:
				d.Expr = strconv.FormatFloat(float64(v), 'x', -1, 64)
			default:
				continue
			}
			out = append(out, d)
		}
	}
	return out
}

// ---------------------------------------------------------------------------------------------
// What Go code was generated, as the type checker sees it.

// goPackage is a type-checked generated file.
type goPackage struct {
	Name    string
	Imports []string
	File    *ast.File
	Pkg     *types.Package
	Info    *types.Info
	// Decls in order of declaration.
	Decls []decl
}

var (
	stdOnce sync.Once
	stdFset = token.NewFileSet()
	stdPkgs = map[string]*types.Package{}
	stdErr  error
)

type stdImporter struct{}

func (stdImporter) Import(path string) (*types.Package, error) {
	if p, ok := stdPkgs[path]; ok {
		return p, nil
	}
	return nil, fmt.Errorf("unexpected import of %q", path)
}

// std loads packages that generated code may import, from source.
func std(c *rt.Case) {
	stdOnce.Do(func() {
		imp := importer.ForCompiler(stdFset, "source", nil)
		for _, p := range []string{"encoding/asn1", "math/big", "math", "time"} {
			pkg, err := imp.Import(p)
			if err != nil {
				stdErr = err
				return
			}
			stdPkgs[p] = pkg
		}
	})
	if stdErr != nil {
		c.Broken("standard library can not be loaded: %v", stdErr)
	}
}

// typeCheck returns an error if the source is not a package of its own that compiles.
func typeCheck(c *rt.Case, src string) (*goPackage, error) {
	std(c)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "generated.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	p := &goPackage{Name: f.Name.Name, File: f, Info: &types.Info{
		Defs: map[*ast.Ident]types.Object{}, Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}}
	conf := types.Config{Importer: stdImporter{}}
	pkg, err := conf.Check(f.Name.Name, fset, []*ast.File{f}, p.Info)
	if err != nil {
		return nil, err
	}
	p.Pkg = pkg
	for _, im := range f.Imports {
		s, _ := strconv.Unquote(im.Path.Value)
		p.Imports = append(p.Imports, s)
	}
	sort.Strings(p.Imports)
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			p.Decls = append(p.Decls, decl{Name: fmt.Sprintf("%T", d), Kind: "other"})
			continue
		}
		for _, s := range gd.Specs {
			switch s := s.(type) {
			case *ast.TypeSpec:
				obj := p.Info.Defs[s.Name]
				t := obj.Type()
				out := decl{Name: s.Name.Name, Kind: "type"}
				if n, ok := t.(*types.Named); ok && n.Obj() == obj {
					out.Type = p.canon(n.Underlying(), true)
				} else {
					out.Type = p.canon(t, true)
				}
				p.Decls = append(p.Decls, out)
			case *ast.ValueSpec:
				for i, n := range s.Names {
					obj := p.Info.Defs[n]
					out := decl{Name: n.Name, Kind: gd.Tok.String(), Type: p.canon(obj.Type(), true)}
					if i < len(s.Values) {
						out.Expr = p.expr(s.Values[i])
					}
					p.Decls = append(p.Decls, out)
				}
			}
		}
	}
	return p, nil
}

// canon prints a type in the way of model.goType.
func (p *goPackage) canon(t types.Type, tags bool) string {
	switch t := types.Unalias(t).(type) {
	case *types.Basic:
		return "#" + types.Typ[t.Kind()].String() // byte and uint8 are the same
	case *types.Pointer:
		return "*" + p.canon(t.Elem(), tags)
	case *types.Slice:
		return "[]" + p.canon(t.Elem(), tags)
	case *types.Interface:
		if t.NumMethods() == 0 && t.NumEmbeddeds() == 0 {
			return "interface{}"
		}
		return t.String()
	case *types.Named:
		if t.Obj().Pkg() == p.Pkg {
			return t.Obj().Name()
		}
		return t.Obj().Pkg().Path() + "." + t.Obj().Name()
	case *types.Struct:
		var b strings.Builder
		b.WriteString("struct{")
		for i := 0; i < t.NumFields(); i++ {
			fmt.Fprintf(&b, "%s %s", t.Field(i).Name(), p.canon(t.Field(i).Type(), tags))
			if tags {
				fmt.Fprintf(&b, " `%s`", strings.Join(tagSet(t.Tag(i)), ","))
			}
			b.WriteString("; ")
		}
		b.WriteString("}")
		return b.String()
	}
	return t.String()
}

// tagSet is the sorted set of parameters in an asn1 struct tag.
func tagSet(tag string) []string {
	v, ok := reflect.StructTag(tag).Lookup("asn1")
	if !ok {
		if tag != "" {
			return []string{"malformed tag " + tag}
		}
		return nil
	}
	parts := map[string]bool{}
	if v != "" {
		for _, s := range strings.Split(v, ",") {
			parts[s] = true
		}
	}
	return sortedSet(parts)
}

// expr prints an initial value: a constant, the constant that a big integer is made from, or a reference.
func (p *goPackage) expr(e ast.Expr) string {
	if tv, ok := p.Info.Types[e]; ok && tv.Value != nil {
		return tv.Value.ExactString()
	}
	switch e := e.(type) {
	case *ast.Ident:
		return "=" + e.Name
	case *ast.CallExpr:
		var args []string
		for _, x := range e.Args {
			args = append(args, p.expr(x))
		}
		name := "?"
		if sel, ok := e.Fun.(*ast.SelectorExpr); ok {
			if obj := p.Info.Uses[sel.Sel]; obj != nil && obj.Pkg() != nil {
				name = obj.Pkg().Path() + "." + obj.Name()
			}
		}
		return name + "(" + strings.Join(args, ",") + ")"
	case *ast.ParenExpr:
		return p.expr(e.X)
	}
	return fmt.Sprintf("?%T", e)
}

// compile type-checks generated code, failure to compile is a violation.
func compile(c *rt.Case, src string) *goPackage {
	p, err := typeCheck(c, src)
	if err != nil {
		c.Input("generated", src)
		c.Violation("generated code does not compile: %v\n%s", err, src)
	}
	return p
}

func declNames(ds []decl) string {
	var s []string
	for _, d := range ds {
		s = append(s, d.Kind+" "+d.Name)
	}
	return strings.Join(s, ", ")
}

// codeModule makes a module for the code generator and parses it from text, so that generation starts
// from the AST of the real parser.
func codeModule(c *rt.Case, g *gen.Code) *a.ModuleDefinition {
	m := g.Module()
	if c.Rng.Intn(300) == 0 {
		wide(c, m)
		c.Count("wide modules", 1)
	}
	if c.Rng.Intn(60) == 0 && !g.Flat {
		deep(c, m)
		c.Count("deep modules", 1)
	}
	src := pretty(m)
	c.Input("module", src)
	got := mustParse(c, src)
	if d := gen.Diff(m, got); d != "" {
		c.Violation("module is not parsed as written: %s\n%s", d, src)
	}
	return got
}

var reprs = []a.IntegerRepr{a.IntegerReprInt64, a.IntegerReprBigInt}

// wide adds one long list to a module.
func wide(c *rt.Case, m *a.ModuleDefinition) {
	n := []int{100, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 400, 511, 512, 513, 1000}[c.Rng.Intn(16)]
	var l a.AssignmentList
	types := []a.Type{a.BooleanType{}, a.IntegerType{}, a.RestrictedStringType{LexType: a.UTF8String}, a.OctetStringType{}, a.TypeReference("GeneralizedTime"), a.RestrictedStringType{LexType: a.IA5String},
		a.BitStringType{}, a.TypeReference("Zwide"), a.SequenceOfType{Type: a.IntegerType{}}, a.ObjectIdentifierType{}, a.EnumeratedType{RootEnumeration: []a.EnumerationItem{a.Identifier("x")}}}
	pick := func() a.Type { return types[c.Rng.Intn(len(types))] }
	component := func(i int) a.NamedComponentType {
		x := a.NamedComponentType{NamedType: a.NamedType{Identifier: a.Identifier(fmt.Sprintf("zc%d", i)), Type: pick()}}
		if c.Rng.Intn(2) == 0 {
			t := a.TaggedType{Type: x.NamedType.Type, TagType: m.TagDefault, HasTagType: c.Rng.Intn(2) == 0}
			if !t.HasTagType {
				t.TagType = 0
			}
			t.Tag.ClassNumber = a.Number(i)
			x.NamedType.Type = t
		}
		x.IsOptional = c.Rng.Intn(3) == 0
		return x
	}
	switch c.Rng.Intn(8) {
	case 0:
		t := a.SequenceType{}
		for i := 0; i < n; i++ {
			t.Components = append(t.Components, component(i))
		}
		l = append(l, a.TypeAssignment{TypeReference: "Zwide-Sequence", Type: t})
	case 1:
		t := a.SetType{}
		for i := 0; i < n; i++ {
			t.Components = append(t.Components, component(i))
		}
		l = append(l, a.TypeAssignment{TypeReference: "Zwide-Set", Type: t})
	case 2:
		t := a.SequenceType{Components: a.ComponentTypeList{component(0)}}
		for i := 1; i < n; i++ {
			t.ExtensionAdditions = append(t.ExtensionAdditions, component(i))
		}
		l = append(l, a.TypeAssignment{TypeReference: "Zwide-Additions", Type: t})
	case 3:
		t := a.IntegerType{}
		for i := 0; i < n; i++ {
			k := i
			if c.Rng.Intn(2) == 0 {
				k = -1 - c.Rng.Intn(1<<40)
			}
			t.NamedNumberList = append(t.NamedNumberList, a.NamedNumber{Name: a.Identifier(fmt.Sprintf("zn%d", i)), Value: a.Number(k)})
		}
		l = append(l, a.TypeAssignment{TypeReference: "Zwide-Numbers", Type: t})
	case 4:
		for i := 0; i < n; i++ {
			t := pick()
			if c.Rng.Intn(2) == 0 && i > 0 {
				t = a.TypeReference(fmt.Sprintf("Zwide-%d", c.Rng.Intn(i)))
				if c.Rng.Intn(2) == 0 {
					t = a.SequenceOfType{Type: t}
				}
			}
			l = append(l, a.TypeAssignment{TypeReference: a.TypeReference(fmt.Sprintf("Zwide-%d", i)), Type: t})
		}
	case 5:
		for i := 0; i < n; i++ {
			v := a.ValueAssignment{ValueReference: a.ValueReference(fmt.Sprintf("zwide-%d", i))}
			switch c.Rng.Intn(3) {
			case 0:
				v.Type, v.Value = a.BooleanType{}, a.Boolean(c.Rng.Intn(2) == 0)
			case 1:
				v.Type, v.Value = a.IntegerType{}, a.Number(c.Rng.Intn(1<<50)-1<<49)
			default:
				v.Type, v.Value = a.TypeReference("Zwide"), a.Boolean(true)
			}
			l = append(l, v)
		}
	default:
		t := a.ChoiceType{}
		tagged := c.Rng.Intn(2 * n)
		for i := 0; i < n; i++ {
			x := a.NamedType{Identifier: a.Identifier(fmt.Sprintf("za%d", i)), Type: a.SequenceOfType{Type: a.BooleanType{}}}
			if i == tagged {
				x.Type = a.TaggedType{Type: x.Type, Tag: a.Tag{ClassNumber: a.Number(i)}}
			}
			t.AlternativeTypeList = append(t.AlternativeTypeList, x)
		}
		if c.Rng.Intn(2) == 0 {
			k := 1 + c.Rng.Intn(n-1)
			for _, x := range t.AlternativeTypeList[k:] {
				t.ExtensionTypes = append(t.ExtensionTypes, x)
			}
			t.AlternativeTypeList = t.AlternativeTypeList[:k]
		}
		l = append(l, a.TypeAssignment{TypeReference: "Zwide-Choice", Type: t})
	}
	l = append(l, a.TypeAssignment{TypeReference: "Zwide", Type: a.BooleanType{}})
	at := c.Rng.Intn(len(m.ModuleBody.AssignmentList) + 1)
	m.ModuleBody.AssignmentList = append(append(append(a.AssignmentList{}, m.ModuleBody.AssignmentList[:at]...), l...), m.ModuleBody.AssignmentList[at:]...)
}

// deep adds types that are nested or referred to over many levels.
func deep(c *rt.Case, m *a.ModuleDefinition) {
	n := []int{6, 9, 12, 17, 20, 33, 34, 50, 65, 66, 80, 101, 129, 130, 200, 257}[c.Rng.Intn(16)] + c.Rng.Intn(2)
	leaves := []a.Type{a.BooleanType{}, a.IntegerType{}, a.RealType{}, a.RestrictedStringType{LexType: a.UTF8String}, a.RestrictedStringType{LexType: a.IA5String}, a.OctetStringType{}, a.BitStringType{},
		a.TypeReference("GeneralizedTime"), a.TypeReference("UTCTime"), a.ObjectIdentifierType{}, a.AnyType{}, a.SequenceOfType{Type: a.IntegerType{}}, a.SetOfType{Type: a.BooleanType{}},
		a.SequenceType{Components: a.ComponentTypeList{a.NamedComponentType{NamedType: a.NamedType{Identifier: "x", Type: a.BooleanType{}}}}},
		a.SetType{Components: a.ComponentTypeList{a.NamedComponentType{NamedType: a.NamedType{Identifier: "x", Type: a.BooleanType{}}}}},
		a.ChoiceType{AlternativeTypeList: []a.NamedType{{Identifier: "x", Type: a.BooleanType{}}, {Identifier: "y", Type: a.RealType{}}}},
		a.ChoiceType{AlternativeTypeList: []a.NamedType{{Identifier: "x", Type: a.TaggedType{Type: a.BooleanType{}, Tag: a.Tag{ClassNumber: a.Number(7)}}}, {Identifier: "y", Type: a.RealType{}}}}}
	leaf := leaves[c.Rng.Intn(len(leaves))]
	component := func(name string, t a.Type, optional bool) a.NamedComponentType {
		return a.NamedComponentType{NamedType: a.NamedType{Identifier: a.Identifier(name), Type: t}, IsOptional: optional}
	}
	tagged := func(t a.Type) a.Type {
		x := a.TaggedType{Type: t, Tag: a.Tag{ClassNumber: a.Number(c.Rng.Intn(40))}}
		if c.Rng.Intn(2) == 0 {
			x.HasTagType, x.TagType = true, a.TAGS_EXPLICIT
		}
		return x
	}
	var l a.AssignmentList
	assign := func(name string, t a.Type) {
		l = append(l, a.TypeAssignment{TypeReference: a.TypeReference(name), Type: t})
	}
	top := a.TypeReference("Zdeep-0")
	switch kind := c.Rng.Intn(6); kind {
	case 0, 1: // structures and lists in each other
		t := leaf
		for i := 0; i < n; i++ {
			switch c.Rng.Intn(8) {
			case 0:
				if _, set := t.(a.SetOfType); !set {
					t = a.SequenceOfType{Type: t}
				}
				continue
			case 1, 2:
				t = a.SetType{Components: a.ComponentTypeList{component("zd", t, c.Rng.Intn(3) == 0)}}
				continue
			case 3:
				t = a.SequenceType{Components: a.ComponentTypeList{component("za", a.BooleanType{}, false)}, ExtensionAdditions: a.ExtensionAdditions{component("zd", t, c.Rng.Intn(2) == 0)}}
				continue
			case 4:
				t = tagged(t)
			}
			t = a.SequenceType{Components: a.ComponentTypeList{component("zd", t, c.Rng.Intn(3) == 0)}}
			if c.Rng.Intn(4) == 0 {
				s := t.(a.SequenceType)
				s.Components = append(s.Components, component("ze", leaves[c.Rng.Intn(10)], false))
				t = s
			}
		}
		assign(string(top), t)
	case 2: // CHOICE types of one alternative in each other
		t := leaf
		for i := 0; i < n; i++ {
			t = a.ChoiceType{AlternativeTypeList: []a.NamedType{{Identifier: "x", Type: t}}}
		}
		assign(string(top), t)
	default: // references, and CHOICE types of one alternative among them
		atTag := c.Rng.Intn(3 * n)
		for i := 0; i < n; i++ {
			var t a.Type = a.TypeReference(fmt.Sprintf("Zdeep-%d", i+1))
			switch {
			case i == atTag:
				t = tagged(t)
			case kind == 3 || kind == 4 && c.Rng.Intn(3) == 0:
				t = a.ChoiceType{AlternativeTypeList: []a.NamedType{{Identifier: "x", Type: t}}}
			}
			assign(fmt.Sprintf("Zdeep-%d", i), t)
		}
		assign(fmt.Sprintf("Zdeep-%d", n), leaf)
	}
	assign("Zuser-1", a.SequenceType{Components: a.ComponentTypeList{component("a", top, false),
		component("b", a.TaggedType{Type: top, Tag: a.Tag{ClassNumber: a.Number(1)}, HasTagType: true, TagType: a.TAGS_EXPLICIT}, true), component("c", a.SequenceOfType{Type: top}, false)}})
	assign("Zuser-2", a.ChoiceType{AlternativeTypeList: []a.NamedType{{Identifier: "a", Type: top}, {Identifier: "b", Type: a.RealType{}}}})
	assign("Zuser-3", a.ChoiceType{AlternativeTypeList: []a.NamedType{{Identifier: "a", Type: top}}})
	assign("Zuser-4", a.SetType{Components: a.ComponentTypeList{component("a", a.TypeReference("Zuser-2"), false), component("b", a.TypeReference("Zuser-3"), true)}})
	switch c.Rng.Intn(3) {
	case 0:
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	case 1:
		c.Rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	}
	at := c.Rng.Intn(len(m.ModuleBody.AssignmentList) + 1)
	m.ModuleBody.AssignmentList = append(append(append(a.AssignmentList{}, m.ModuleBody.AssignmentList[:at]...), l...), m.ModuleBody.AssignmentList[at:]...)
}

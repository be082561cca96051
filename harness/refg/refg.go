// Package refg is an independent recognizer of the implemented notation: a lexer written
// from the lexical rules of X.680 and an Earley recognizer of a grammar transcribed from
// X.680 with the restrictions that the parser documents.
package refg

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"verif/gen"
)

// Token of the reference lexer.
type Token struct {
	Kind string // keyword or symbol itself, or one of Type, value, number, EXP
	Line int
	Text string
}

// Lex splits text to lexical items.
func Lex(s string) ([]Token, error) {
	var out []Token
	line := 1
	i := 0
	afterNumber := false
	cr := false
	adv := func(n int) {
		for k := 0; k < n; k++ {
			c := s[i+k]
			if c >= 10 && c <= 13 && !(c == '\n' && cr) {
				line++
			}
			cr = c == '\r'
		}
		i += n
	}
	for i < len(s) {
		r, n := utf8.DecodeRuneInString(s[i:])
		an := afterNumber
		afterNumber = false
		switch {
		case r >= 9 && r <= 13 || r == ' ':
			adv(n)
		case strings.HasPrefix(s[i:], "--"):
			adv(2)
			for i < len(s) {
				if s[i] >= 10 && s[i] <= 13 {
					adv(1)
					break
				}
				if strings.HasPrefix(s[i:], "--") {
					adv(2)
					break
				}
				adv(1)
			}
		case strings.HasPrefix(s[i:], "/*"):
			depth := 1
			adv(2)
			for depth > 0 {
				if i >= len(s) {
					return out, fmt.Errorf("line %d: unclosed comment", line)
				}
				switch {
				case strings.HasPrefix(s[i:], "/*"):
					depth++
					adv(2)
				case strings.HasPrefix(s[i:], "*/"):
					depth--
					adv(2)
				default:
					adv(1)
				}
			}
		case an && (r == 'e' || r == 'E'):
			out = append(out, Token{"EXP", line, s[i : i+1]})
			adv(1)
		case unicode.IsLetter(r):
			k := i
			for k < len(s) {
				q, m := utf8.DecodeRuneInString(s[k:])
				if !unicode.IsLetter(q) && !unicode.IsDigit(q) && q != '-' {
					break
				}
				k += m
			}
			w := s[i:k]
			if strings.HasSuffix(w, "-") || strings.Contains(w, "--") {
				return out, fmt.Errorf("line %d: hyphens in %q", line, w)
			}
			kind := "value"
			if unicode.IsUpper(r) {
				kind = "Type"
				if gen.IsReserved(w) {
					kind = w
				}
			}
			out = append(out, Token{kind, line, w})
			adv(len(w))
		case r >= '0' && r <= '9':
			k := i
			for k < len(s) && s[k] >= '0' && s[k] <= '9' {
				k++
			}
			w := strings.TrimLeft(s[i:k], "0")
			if len(w) > 19 || len(w) == 19 && w > "9223372036854775807" {
				return out, fmt.Errorf("line %d: number out of range %q", line, w)
			}
			out = append(out, Token{"number", line, s[i:k]})
			adv(k - i)
			afterNumber = true
		default:
			found := false
			for _, sym := range []string{"::=", "...", "..", "[[", "]]", "{", "}", "<", ">", ",", ".", "(", ")", "[", "]", "-", ":", "=", "\"", "'", ";", "@", "|", "!", "^"} {
				if strings.HasPrefix(s[i:], sym) {
					out = append(out, Token{sym, line, sym})
					adv(len(sym))
					found = true
					break
				}
			}
			if !found {
				return out, fmt.Errorf("line %d: unexpected character %q", line, r)
			}
		}
	}
	return out, nil
}

// Tokens in the syntax of the grammar are either keywords and symbols, or kinds of Token.
const grammarText = `
Module = Type DefId DEFINITIONS TagDefault ExtDefault ::= BEGIN Body END
DefId = | { DefComps }
DefComps = DefComp | DefComp DefComps
DefComp = value | number | value ( number )
TagDefault = | EXPLICIT TAGS | IMPLICIT TAGS | AUTOMATIC TAGS
ExtDefault = | EXTENSIBILITY IMPLIED
Body = | Exports Imports Assignments
Exports = | EXPORTS ; | EXPORTS ALL ; | EXPORTS Symbols ;
Imports = | IMPORTS ; | IMPORTS FromList ;
FromList = From | FromList From
From = Symbols FROM Type AssignedId
AssignedId = | OIDValue | DefinedValue
Symbols = Symbol | Symbols , Symbol
Symbol = Type | value
Assignments = Assignment | Assignments Assignment
Assignment = Type ::= T | value T ::= V

DefinedValue = Type . value | value

T = BOOLEAN | INTEGER | INTEGER { NamedNumbers } | REAL | NULL | OBJECT IDENTIFIER | OCTET STRING
T = BIT STRING | BIT STRING { NamedBits }
T = CHARACTER STRING | BMPString | GeneralString | GraphicString | IA5String | ISO646String | NumericString | PrintableString
T = TeletexString | T61String | UniversalString | UTF8String | VideotexString | VisibleString
T = GeneralizedTime | UTCTime | Type | ANY | ANY DEFINED BY value
T = ENUMERATED { Enumerations }
T = SEQUENCE Struct | SET Struct | SEQUENCE OF Elem | SET OF Elem | CHOICE { Alternatives }
T = Tag T | Tag IMPLICIT T | Tag EXPLICIT T
T = T Constraint
T = SET Constraint OF Elem | SET SizeConstraint OF Elem | SEQUENCE Constraint OF Elem | SEQUENCE SizeConstraint OF Elem

Elem = T | NamedType
NamedType = value T

NamedNumbers = NamedNumber | NamedNumbers , NamedNumber
NamedNumber = value ( SignedNumber ) | value ( DefinedValue )
SignedNumber = number | - number
NamedBits = NamedBit | NamedBits , NamedBit
NamedBit = value ( number ) | value ( DefinedValue )
Enumerations = EnumItems | EnumItems , ... Exception | EnumItems , ... Exception , EnumItems
EnumItems = EnumItem | EnumItems , EnumItem
EnumItem = value | NamedNumber

Struct = { } | { ExtAndExc OptMarker } | { Lists }
ExtAndExc = ... Exception
OptMarker = | , ...
Lists = Components | Components , ExtAndExc ExtAdditions OptMarker | Components , ExtAndExc ExtAdditions , ... , Components
ExtAdditions = | , ExtAdditionList
ExtAdditionList = ExtAddition | ExtAdditionList , ExtAddition
ExtAddition = Component | [[ Version Components ]]
Version = | number :
Components = Component | Components , Component
Component = NamedType | NamedType OPTIONAL | NamedType DEFAULT V | COMPONENTS OF T

Alternatives = AltList | AltList , ExtAndExc AltExt OptMarker | ExtAndExc AltExt OptMarker
AltList = NamedType | AltList , NamedType
AltExt = | , AltExtList
AltExtList = NamedType | AltExtList , NamedType

Tag = [ Class number ] | [ Class DefinedValue ]
Class = | UNIVERSAL | APPLICATION | PRIVATE

V = TRUE | FALSE | SignedNumber | value | OIDValue | RealValue | - RealNumber | PLUS-INFINITY | MINUS-INFINITY
RealValue = RealNumber
RealNumber = number . number | number . number EXP SignedNumber | number EXP SignedNumber
OIDValue = { OIDComps }
OIDComps = OIDComp | OIDComp OIDComps
OIDComp = value | number | DefinedValue | value ( number ) | value ( DefinedValue )

Constraint = ( ElementSetSpecs Exception )
ElementSetSpecs = ElementSet | ElementSet , ... | ElementSet , ... , ElementSet
ElementSet = Unions | ALL EXCEPT Elements
Unions = Intersections | Unions UnionMark Intersections
UnionMark = ¦ | UNION
Intersections = IElements | Intersections IMark IElements
IMark = ^ | INTERSECTION
IElements = Elements | Elements EXCEPT Elements
Elements = V | Lower .. Upper | SizeConstraint | T | WITH COMPONENT Constraint | WITH COMPONENTS { TCs } | WITH COMPONENTS { ... , TCs } | ( ElementSet )
Lower = LowerV | LowerV <
Upper = UpperV | < UpperV
LowerV = V | MIN
UpperV = V | MAX
SizeConstraint = SIZE Constraint
TCs = TC | TC , TCs
TC = value OptConstraint Presence
OptConstraint = | Constraint
Presence = | PRESENT | ABSENT | OPTIONAL
Exception = | ! SignedNumber | ! DefinedValue | ! T : V
`

type rule struct {
	lhs int
	rhs []int // >=0 nonterminal, <0 terminal ^index
}

type grammar struct {
	rules    []rule
	byLHS    [][]int
	nullable []bool
	term     map[string]int
	nts      map[string]int
}

// limits are documented restrictions of the parser within what the notation has.
var limits = strings.NewReplacer(
	"Enumerations = EnumItems | EnumItems , ... Exception | EnumItems , ... Exception , EnumItems\n", "Enumerations = EnumItems\n",
	" | Components , ExtAndExc ExtAdditions , ... , Components\n", "\n",
)

var g = build(grammarText)
var implemented = build(limits.Replace(grammarText))

func build(text string) *grammar {
	gr := &grammar{term: map[string]int{}}
	nts := map[string]int{}
	lines := strings.Split(strings.TrimSpace(text), "\n")
	for _, l := range lines {
		if l == "" {
			continue
		}
		name := strings.Fields(l)[0]
		if _, ok := nts[name]; !ok {
			nts[name] = len(nts)
		}
	}
	for _, l := range lines {
		if l == "" {
			continue
		}
		f := strings.Fields(l)
		cur := []int{}
		flush := func() {
			gr.rules = append(gr.rules, rule{nts[f[0]], cur})
			cur = []int{}
		}
		for _, w := range f[2:] {
			if w == "|" {
				flush()
				continue
			}
			if w == "¦" {
				w = "|"
			}
			if n, ok := nts[w]; ok {
				cur = append(cur, n)
				continue
			}
			t, ok := gr.term[w]
			if !ok {
				t = len(gr.term)
				gr.term[w] = t
			}
			cur = append(cur, ^t)
		}
		flush()
	}
	gr.nts = nts
	gr.byLHS = make([][]int, len(nts))
	gr.nullable = make([]bool, len(nts))
	for i, r := range gr.rules {
		gr.byLHS[r.lhs] = append(gr.byLHS[r.lhs], i)
	}
	for ch := true; ch; {
		ch = false
		for _, r := range gr.rules {
			all := true
			for _, s := range r.rhs {
				if s < 0 || !gr.nullable[s] {
					all = false
				}
			}
			if all && !gr.nullable[r.lhs] {
				gr.nullable[r.lhs] = true
				ch = true
			}
		}
	}
	return gr
}

type item struct{ rule, dot, origin int }

// Accepts says if the tokens derive from the grammar.
// If they do not, the index of the first token that no module continues with is returned.
func Accepts(toks []Token) (bool, int) { return g.accepts(toks) }

// Implemented is Accepts for the notation without what the parser documents not to support.
func Implemented(toks []Token) (bool, int) { return implemented.accepts(toks) }

func (g *grammar) accepts(toks []Token) (bool, int) {
	type set struct {
		items []item
		have  map[item]bool
		wait  map[int][]item // nonterminal -> items waiting for it
	}
	sets := make([]*set, len(toks)+1)
	mk := func() *set { return &set{have: map[item]bool{}, wait: map[int][]item{}} }
	for i := range sets {
		sets[i] = mk()
	}
	add := func(k int, it item) {
		s := sets[k]
		if !s.have[it] {
			s.have[it] = true
			s.items = append(s.items, it)
		}
	}
	for _, r := range g.byLHS[0] {
		add(0, item{r, 0, 0})
	}
	for k := 0; k <= len(toks); k++ {
		s := sets[k]
		if len(s.items) == 0 {
			return false, k - 1
		}
		t := -1
		if k < len(toks) {
			if x, ok := g.term[toks[k].Kind]; ok {
				t = x
			}
		}
		predicted := map[int]bool{}
		for i := 0; i < len(s.items); i++ {
			it := s.items[i]
			r := g.rules[it.rule]
			if it.dot == len(r.rhs) {
				for _, w := range sets[it.origin].wait[r.lhs] {
					add(k, item{w.rule, w.dot + 1, w.origin})
				}
				continue
			}
			sym := r.rhs[it.dot]
			if sym < 0 {
				if t >= 0 && ^sym == t {
					add(k+1, item{it.rule, it.dot + 1, it.origin})
				}
				continue
			}
			s.wait[sym] = append(s.wait[sym], it)
			if !predicted[sym] {
				predicted[sym] = true
				for _, p := range g.byLHS[sym] {
					add(k, item{p, 0, k})
				}
			}
			if g.nullable[sym] {
				add(k, item{it.rule, it.dot + 1, it.origin})
			}
		}
	}
	for _, it := range sets[len(toks)].items {
		r := g.rules[it.rule]
		if r.lhs == 0 && it.dot == len(r.rhs) && it.origin == 0 {
			return true, 0
		}
	}
	return false, len(toks)
}

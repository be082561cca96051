// Package gen generates ASN.1 modules as ASTs and prints them as text.
package gen

import (
	"math/rand"
	"strings"

	"github.com/chemikadze/asn1go"
)

// Reserved words of the notation, written down from X.680 11.27 and X.208 independently of the lexer.
var Reserved = strings.Fields(`ABSENT ENCODED INTEGER RELATIVE-OID ABSTRACT-SYNTAX END INTERSECTION SEQUENCE ALL ENUMERATED
ISO646String SET APPLICATION EXCEPT MAX SIZE AUTOMATIC EXPLICIT MIN STRING BEGIN EXPORTS MINUS-INFINITY SYNTAX BIT
EXTENSIBILITY NULL T61String BMPString EXTERNAL NumericString TAGS BOOLEAN FALSE OBJECT TeletexString BY FROM
ObjectDescriptor TRUE CHARACTER GeneralizedTime OCTET TYPE-IDENTIFIER CHOICE GeneralString OF UNION CLASS GraphicString
OPTIONAL UNIQUE COMPONENT IA5String PATTERN UNIVERSAL COMPONENTS IDENTIFIER PDV UniversalString CONSTRAINED IMPLICIT
PLUS-INFINITY UTCTime CONTAINING IMPLIED PRESENT UTF8String DEFAULT IMPORTS PrintableString VideotexString DEFINITIONS
INCLUDES PRIVATE VisibleString EMBEDDED INSTANCE REAL WITH ANY DEFINED`)

var isReserved = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range Reserved {
		m[w] = true
	}
	return m
}()

// StringKinds are restricted string types by keyword.
var StringKinds = []struct {
	Word string
	Lex  int
}{
	{"BMPString", asn1go.BMPString}, {"GeneralString", asn1go.GeneralString}, {"GraphicString", asn1go.GraphicString},
	{"IA5String", asn1go.IA5String}, {"ISO646String", asn1go.ISO646String}, {"NumericString", asn1go.NumericString},
	{"PrintableString", asn1go.PrintableString}, {"TeletexString", asn1go.TeletexString}, {"T61String", asn1go.T61String},
	{"UniversalString", asn1go.UniversalString}, {"UTF8String", asn1go.UTF8String}, {"VideotexString", asn1go.VideotexString},
	{"VisibleString", asn1go.VisibleString},
}

// StringWord is the keyword of a restricted string type.
func StringWord(lex int) string {
	for _, k := range StringKinds {
		if k.Lex == lex {
			return k.Word
		}
	}
	return ""
}

const (
	lowers = "abcdefghijklmnopqrstuvwxyz"
	uppers = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
	digits = "0123456789"
)

func wordTail(r *rand.Rand) string {
	n := r.Intn(7)
	if r.Intn(20) == 0 {
		n = r.Intn(60)
		switch r.Intn(80) {
		case 0, 1, 2:
			n = 60 + r.Intn(460)
		case 3:
			n = r.Intn(5000)
		}
	}
	var b strings.Builder
	hy := false
	for i := 0; i < n; i++ {
		switch k := r.Intn(12); {
		case k == 0 && !hy && i > 0:
			b.WriteByte('-')
			hy = true
			continue
		case k == 6 && r.Intn(40) == 0:
			b.WriteString(foreign[r.Intn(len(foreign))])
		case k < 3:
			b.WriteByte(digits[r.Intn(10)])
		case k < 6:
			b.WriteByte(uppers[r.Intn(26)])
		default:
			b.WriteByte(lowers[r.Intn(26)])
		}
		hy = false
	}
	if hy {
		b.WriteByte('x')
	}
	return b.String()
}

var trickyUpper = []string{"E", "E1", "ENDx", "END-OF", "BEGIN1", "INTEGERS", "SET-OF", "Of", "SEQUENCEOF", "TRUEish", "NULLs", "A", "X-Y-Z", "TAGS2", "Any", "GeneralizedTimes", "UTCTim",
	// reserved in other editions, or by what a keyword is made of
	"DATE", "TIME", "TIME-OF-DAY", "DATE-TIME", "DURATION", "OID-IRI", "RELATIVE-OID-IRI", "NOT-A-NUMBER", "SETTINGS", "MACRO", "TYPE",
	"VALUE", "NOTATION", "ERROR", "OPERATION", "RELATIVE", "OID", "MINUS", "PLUS", "INFINITY", "ABSTRACT", "String", "T61", "UTF8", "DER",
	"Sequence", "Integer", "MODULE", "EXPORT", "EXTENSION"}
var trickyLower = []string{"e", "e1", "end", "begin", "integer", "of", "true", "null", "size", "a-b-c", "i", "optional", "default", "sET", "x509",
	"iNTEGER", "tRUE", "inf", "nan", "infinity", "minus", "min", "max", "value", "type", "date", "any", "from", "with", "is", "nil", "é", "ж1"}

// letters outside of ASCII that have a case, in UTF-8 of two and three bytes
var foreign = []string{"é", "Ä", "ж", "Ω", "ł", "ñ", "Ḃ", "ẁ"}

// UpperName makes a typereference or modulereference.
func UpperName(r *rand.Rand) string {
	for {
		var s string
		if r.Intn(8) == 0 {
			s = trickyUpper[r.Intn(len(trickyUpper))]
		} else if r.Intn(200) == 0 {
			s = []string{"É", "Ж", "Ω", "Ẁ"}[r.Intn(4)] + wordTail(r)
		} else {
			s = string(uppers[r.Intn(26)]) + wordTail(r)
		}
		if !isReserved[s] {
			return s
		}
	}
}

// LowerName makes an identifier or valuereference.
func LowerName(r *rand.Rand) string {
	if r.Intn(8) == 0 {
		return trickyLower[r.Intn(len(trickyLower))]
	}
	if r.Intn(200) == 0 {
		return []string{"é", "ж", "ω", "ẁ"}[r.Intn(4)] + wordTail(r)
	}
	if r.Intn(8) == 0 { // like the mark of an exponent
		return "e" + wordTail(r)
	}
	return string(lowers[r.Intn(26)]) + wordTail(r)
}

// IsReserved says if word is a keyword.
func IsReserved(w string) bool { return isReserved[w] }

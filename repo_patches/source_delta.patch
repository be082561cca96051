From 6929965dd961b10aabed32f2ef4306883192db14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:16 +0000
Subject: [PATCH 01/29] fix: keep parsed DEFAULT values and leading OID
 references out of parser stack slots

The AST kept a pointer into the goyacc value stack, so later reductions
overwrote the DEFAULT value (and the leading OID reference).
---
 asn1.y | 4 ++--
 y.go   | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1.y b/asn1.y
index e3ebfb9..c32c9c4 100644
--- a/asn1.y
+++ b/asn1.y
@@ -735,7 +735,7 @@ ComponentTypeList : ComponentType  { $$ = append(make(ComponentTypeList, 0), $1)
 
 ComponentType : NamedType  { $$ = NamedComponentType{NamedType: $1} }
               | NamedType OPTIONAL  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }
-              | NamedType DEFAULT Value  { $$ = NamedComponentType{NamedType: $1, Default: &$3} }
+              | NamedType DEFAULT Value  { cpy := $3; $$ = NamedComponentType{NamedType: $1, Default: &cpy} }
               | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }
 ;
 
@@ -825,7 +825,7 @@ ObjectIdentifierType : OBJECT IDENTIFIER  { $$ = ObjectIdentifierType{} }
 // 31.3
 
 ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2 }
-                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &$2}}, $3...) }
+                      | OPEN_CURLY DefinedValue ObjIdComponentsList CLOSE_CURLY  { cpy := $2; $$ = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, $3...) }
 ;
 
 ObjIdComponentsList :  ObjIdComponents  { $$ = ObjectIdentifierValue{$1}  }
diff --git a/y.go b/y.go
index 89762b0..7a09dd6 100644
--- a/y.go
+++ b/y.go
@@ -1670,7 +1670,8 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:738
 		{
-			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &yyDollar[3].Value}
+			cpy := yyDollar[3].Value
+			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
@@ -1874,7 +1875,8 @@ yydefault:
 		yyDollar = yyS[yypt-4 : yypt+1]
 //line asn1.y:828
 		{
-			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &yyDollar[2].DefinedValue}}, yyDollar[3].ObjectIdentifierValue...)
+			cpy := yyDollar[2].DefinedValue
+			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-- 
2.43.0


From 19e6b687b0d014c3201b5d4448541724bb0dead5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 02/29] fix: preserve exact value of REAL literals

Leading zeros of the fraction were dropped (1.05 became 1.5) and fractions
that are powers of ten were scaled wrongly (1.1 and 1.10 became 2).
---
 asn1.y    |  6 +++---
 parser.go | 20 +++++++++++---------
 y.go      |  6 +++---
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/asn1.y b/asn1.y
index c32c9c4..9bb026c 100644
--- a/asn1.y
+++ b/asn1.y
@@ -648,9 +648,9 @@ SpecialRealValue : PLUS_INFINITY  { $$ = Real(math.Inf(1)) }
 
 // TODO this seem to be not strict enough (spaces can sneak in into composite value)
 realnumber : NUMBER  { $$ = parseRealNumber($1, 0, 0) }
-           | NUMBER DOT NUMBER  { $$ = parseRealNumber($1, $3, 0) }
-           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, $3, $5) }
-           | NUMBER EXPONENT SignedExponent  { $$ = parseRealNumber($1, 0, $3) }
+           | NUMBER DOT NUMBER  { $$ = parseRealLiteral($<numberRepr>1, $<numberRepr>3, 0) }
+           | NUMBER DOT NUMBER EXPONENT SignedExponent  { $$ = parseRealLiteral($<numberRepr>1, $<numberRepr>3, $5) }
+           | NUMBER EXPONENT SignedExponent  { $$ = parseRealLiteral($<numberRepr>1, "0", $3) }
 ;
 
 SignedExponent : NUMBER
diff --git a/parser.go b/parser.go
index 47b1bc6..d2aa53f 100644
--- a/parser.go
+++ b/parser.go
@@ -2,9 +2,10 @@ package asn1go
 
 import (
 	"bufio"
+	"fmt"
 	"io"
-	"math"
 	"os"
+	"strconv"
 	"strings"
 )
 
@@ -39,13 +40,14 @@ func ParseFile(name string) (*ModuleDefinition, error) {
 }
 
 func parseRealNumber(integer Number, fraction Number, exponent Number) Real {
-	value := float64(integer)
-	if fraction != 0 {
-		shift := float64(math.Pow10(int(math.Ceil(math.Log10(float64(fraction))))))
-		value += float64(fraction) / shift
-	}
-	if exponent != 0 {
-		value *= math.Pow10(int(exponent))
-	}
+	return parseRealLiteral(strconv.Itoa(integer.IntValue()), strconv.Itoa(fraction.IntValue()), exponent)
+}
+
+// parseRealLiteral converts digits of realnumber to its closest value.
+// It works on digits and not on numbers, as leading zeros of the fraction are significant.
+func parseRealLiteral(integer string, fraction string, exponent Number) Real {
+	// Digits are already validated by lexer, so only possible error is value being out of range,
+	// in which case closest value (zero or infinity) is returned.
+	value, _ := strconv.ParseFloat(fmt.Sprintf("%s.%se%d", integer, fraction, exponent), 64)
 	return Real(value)
 }
diff --git a/y.go b/y.go
index 7a09dd6..b16f2f2 100644
--- a/y.go
+++ b/y.go
@@ -1502,19 +1502,19 @@ yydefault:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:651
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, 0)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
 //line asn1.y:652
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, yyDollar[3].Number, yyDollar[5].Number)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:653
 		{
-			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, yyDollar[3].Number)
+			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-- 
2.43.0


From ea4cdeb3b7e497b24a47e3f4f3ff31d9afdda381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:20 +0000
Subject: [PATCH 03/29] fix: generate valid Go for infinite REALs and for
 integer literals of REAL type

Infinities were printed as +Inf, and with big.Int representation integer
literals of non-INTEGER types became big.NewInt calls.
---
 codegen.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 005441d..95d5155 100644
--- a/codegen.go
+++ b/codegen.go
@@ -7,6 +7,7 @@ import (
 	goprint "go/printer"
 	gotoken "go/token"
 	"io"
+	"math"
 	"strings"
 )
 
@@ -194,7 +195,11 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 	var valExpr goast.Expr
 	switch val := val.(type) {
 	case Number:
-		valExpr = numberToExpr(val, ctx.params.IntegerRepr)
+		repr := ctx.params.IntegerRepr
+		if _, ok := ctx.resolveLeafType(t).(IntegerType); !ok {
+			repr = IntegerReprInt64 // IntegerRepr is only applicable to INTEGER, literal can be e.g. REAL as well
+		}
+		valExpr = numberToExpr(val, repr)
 	case Boolean:
 		if val {
 			valExpr = &goast.BasicLit{Value: "true"}
@@ -202,7 +207,12 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 			valExpr = &goast.BasicLit{Value: "false"}
 		}
 	case Real:
-		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		if sign := infSign(val); sign != 0 {
+			ctx.requireModule("math")
+			valExpr = &goast.BasicLit{Value: fmt.Sprintf("math.Inf(%d)", sign)}
+		} else {
+			valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
+		}
 	default:
 		// TODO: produce a warning?
 		return nil
@@ -334,6 +344,16 @@ func numberToExpr(val Number, repr IntegerRepr) goast.Expr {
 	return valueExpr
 }
 
+// infSign returns sign of infinite value, or zero if value is finite.
+func infSign(val Real) int {
+	if math.IsInf(float64(val), 1) {
+		return 1
+	} else if math.IsInf(float64(val), -1) {
+		return -1
+	}
+	return 0
+}
+
 func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Expr {
 	if ctx.hasTaggedAlternatives(t) {
 		return goast.NewIdent("asn1.RawValue")
@@ -555,3 +575,12 @@ func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignme
 	}
 	return TypeAssignment{reference, nil}
 }
+
+// resolveLeafType removes tags, constraints and type references, and returns nil if reference is not resolved
+func (ctx *moduleContext) resolveLeafType(t Type) Type {
+	t = ctx.removeWrapperTypes(t)
+	if reference, ok := t.(TypeReference); ok {
+		return ctx.removeWrapperTypes(ctx.unwrapToLeafType(reference).Type)
+	}
+	return t
+}
-- 
2.43.0


From 76ab663eb00a52e10b7e520d52efb8aa6b4cf76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:35 +0000
Subject: [PATCH 04/29] fix: report circular type references instead of
 overflowing the stack

---
 codegen.go | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/codegen.go b/codegen.go
index 95d5155..436c3ed 100644
--- a/codegen.go
+++ b/codegen.go
@@ -564,14 +564,20 @@ func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
 }
 
 // unwrapToLeafType walks over transitive type references, tags and constraints and yields "root" type reference
+// type of the result is nil if reference is not declared, or if references form a cycle
 func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
-	if assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name()); assignment != nil {
-		t := assignment.Type
-		if tt, ok := ctx.removeWrapperTypes(t).(TypeReference); ok {
-			return ctx.unwrapToLeafType(tt)
-		} else {
+	visited := map[string]bool{}
+	for !visited[reference.Name()] {
+		visited[reference.Name()] = true
+		assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name())
+		if assignment == nil {
+			break
+		}
+		next, ok := ctx.removeWrapperTypes(assignment.Type).(TypeReference)
+		if !ok {
 			return *assignment
 		}
+		reference = next
 	}
 	return TypeAssignment{reference, nil}
 }
-- 
2.43.0


From 12a045d5ca1ca10561f629b2c2e02371b2241041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:38 +0000
Subject: [PATCH 05/29] fix: import encoding/asn1 when CHOICE is generated as
 asn1.RawValue

---
 codegen.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/codegen.go b/codegen.go
index 436c3ed..ec3dc53 100644
--- a/codegen.go
+++ b/codegen.go
@@ -356,6 +356,7 @@ func infSign(val Real) int {
 
 func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Expr {
 	if ctx.hasTaggedAlternatives(t) {
+		ctx.requireModule("encoding/asn1")
 		return goast.NewIdent("asn1.RawValue")
 	}
 	if len(t.AlternativeTypeList) == 1 {
-- 
2.43.0


From c2550baa0a99449878f6a336b21a795f84300ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:40 +0000
Subject: [PATCH 06/29] fix: resolve UTCTime, so that it can be used outside of
 CHOICE

---
 ast.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ast.go b/ast.go
index 075e99d..5ac5cb1 100644
--- a/ast.go
+++ b/ast.go
@@ -729,10 +729,12 @@ const (
 var (
 	// USEFUL_TYPES are defined in X.680, section 41.
 	// These are built-in types that behave like type assignments that are always in scope.
-	// TODO: clarify why UTCTimeName is missing here.
 	USEFUL_TYPES map[string]Type = map[string]Type{
 		GeneralizedTimeName: TaggedType{ // [UNIVERSAL 24] IMPLICIT VisibleString
 			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(24)},
 			Type: RestrictedStringType{VisibleString}},
+		UTCTimeName: TaggedType{ // [UNIVERSAL 23] IMPLICIT VisibleString
+			Tag:  Tag{Class: CLASS_UNIVERSAL, ClassNumber: Number(23)},
+			Type: RestrictedStringType{VisibleString}},
 	}
 )
-- 
2.43.0


From a53dd23f5b0219a7c1115983757f196bfca34abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:53 +0000
Subject: [PATCH 07/29] fix: do not declare SEQUENCE OF SET as a SET type

---
 codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index ec3dc53..b4c6959 100644
--- a/codegen.go
+++ b/codegen.go
@@ -257,7 +257,8 @@ func (ctx *moduleContext) generateTypeBody(typeDescr Type, isSet *bool) goast.Ex
 		*isSet = true
 		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)
 	case SequenceOfType:
-		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
+		var elemIsSet bool // only outermost type affects the declaration
+		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &elemIsSet)}
 	case SetOfType:
 		*isSet = true
 		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}
-- 
2.43.0


From 50be46408d4515bbcd23ce9778024c14adda8289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:17 +0000
Subject: [PATCH 08/29] fix: recognize CHOICE alternatives tagged by an
 intermediate type reference

---
 codegen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index b4c6959..ba7d30b 100644
--- a/codegen.go
+++ b/codegen.go
@@ -387,7 +387,8 @@ func (ctx *moduleContext) taggedChoiceTypeAlternative(name Identifier, t Type) b
 		if realType == nil {
 			return false
 		}
-		return ctx.taggedChoiceTypeAlternative(name, realType.Type)
+		// tag can be assigned by any of the references on the way to realType
+		return ctx.taggedChoiceTypeAlternative(name, ctx.lookupContext.AssignmentList.GetType(t.Name()).Type)
 	case ConstraintedType:
 		return ctx.taggedChoiceTypeAlternative(name, t.Type)
 	default:
-- 
2.43.0


From 580b77a3cab102e72b6d6015b98833484ace179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:57 +0000
Subject: [PATCH 09/29] fix: apply string kind and SET of referenced types to
 fields

Fields referencing a declared string or SET type lost ia5, utf8, numeric
and set parameters, and were encoded with a wrong tag.
---
 codegen.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/codegen.go b/codegen.go
index ba7d30b..9758d72 100644
--- a/codegen.go
+++ b/codegen.go
@@ -478,7 +478,19 @@ unwrap:
 		}
 	}
 	// add type-specific tags
-	switch tt := t.(type) {
+	leafType := t
+	reference, isReference := t.(TypeReference)
+	if isReference {
+		leaf := ctx.unwrapToLeafType(reference)
+		switch leaf.TypeReference.Name() {
+		case GeneralizedTimeName:
+			components = append(components, "generalized")
+		case UTCTimeName:
+			components = append(components, "utc")
+		}
+		leafType = ctx.removeWrapperTypes(leaf.Type)
+	}
+	switch tt := leafType.(type) {
 	case RestrictedStringType:
 		switch tt.LexType {
 		case IA5String:
@@ -493,13 +505,8 @@ unwrap:
 	case SetType:
 		components = append(components, "set")
 	case SetOfType:
-		components = append(components, "set")
-	case TypeReference:
-		switch ctx.unwrapToLeafType(tt).TypeReference.Name() {
-		case GeneralizedTimeName:
-			components = append(components, "generalized")
-		case UTCTimeName:
-			components = append(components, "utc")
+		if !isReference { // otherwise declared type is recognized by its name
+			components = append(components, "set")
 		}
 		// TODO omitempty    causes empty slices to be skipped\
 	}
-- 
2.43.0


From 57ae975ebbb8555bfaa7cb0b19d1550ce5bd1382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:39 +0000
Subject: [PATCH 10/29] fix: report reader errors inside of comments and
 lookahead

Errors other than EOF made comments loop forever, made lookahead loop or
slice out of range, or were lost when reader only returned them once.
---
 lexer.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lexer.go b/lexer.go
index 235197c..40c5059 100644
--- a/lexer.go
+++ b/lexer.go
@@ -105,6 +105,8 @@ type MyLexer struct {
 	// result is where parsing result will be written by the parser.
 	result        *ModuleDefinition
 	lastWasNumber bool
+	// readErr is an error (possibly EOF) which ended the input, underlying reader is not used after it.
+	readErr error
 
 	// lineNo is 0-indexed line number used for error reporting.
 	lineNo int
@@ -251,7 +253,11 @@ func (lex *MyLexer) unreadRune() error {
 }
 
 func (lex *MyLexer) readRune() (rune, int, error) {
+	if lex.readErr != nil {
+		return 0, 0, lex.readErr
+	}
 	r, n, err := lex.bufReader.ReadRune()
+	lex.readErr = err
 	if isNewline(r) {
 		lex.lineNo += 1
 	}
@@ -273,27 +279,34 @@ func (lex *MyLexer) peekRunes(n int) string {
 	for n > 0 {
 		for l := 1; l <= utf8.UTFMax; l++ {
 			buf, err := lex.bufReader.Peek(pos + l)
+			if err != nil {
+				if err != io.EOF { // EOF will be returned again after what is left in the buffer
+					lex.readErr = err
+				}
+				return acc.String()
+			}
 			slice := buf[pos : pos+l]
-			if pos+l <= len(buf) && utf8.FullRune(slice) {
+			if utf8.FullRune(slice) {
 				r, size := utf8.DecodeRune(slice)
 				acc.WriteRune(r)
 				pos += size
 				n -= 1
 				break
 			}
-			if err == io.EOF { // TODO if it is not a full rune, will swallow the error
-				return acc.String()
-			}
 		}
 	}
 	return acc.String()
 }
 
 func (lex *MyLexer) peekRuneE() (rune, error) {
+	if lex.readErr != nil {
+		return 0, lex.readErr
+	}
 	r, _, err := lex.bufReader.ReadRune()
 	if err == nil {
 		lex.bufReader.UnreadRune()
 	}
+	lex.readErr = err
 	return r, err
 }
 
@@ -301,7 +314,7 @@ func (lex *MyLexer) skipLineComment() {
 	lastIsHyphen := false
 	for {
 		r, _, err := lex.readRune()
-		if isNewline(r) || err == io.EOF {
+		if isNewline(r) || err != nil {
 			return
 		} else if r == '-' {
 			if lastIsHyphen {
@@ -319,7 +332,7 @@ func (lex *MyLexer) skipBlockComment() {
 	lastIsClosingStar := false
 	for {
 		r, _, err := lex.readRune()
-		if err == io.EOF {
+		if err != nil {
 			return
 		}
 		if r == '/' {
-- 
2.43.0


From ea6bc73cb726805e1c501eba57ee280e6e514023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:42 +0000
Subject: [PATCH 11/29] fix: report first error instead of unexpected end
 following it

---
 lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lexer.go b/lexer.go
index 40c5059..97525ae 100644
--- a/lexer.go
+++ b/lexer.go
@@ -421,6 +421,9 @@ func (lex *MyLexer) consumeNumber(lval *yySymType) int {
 
 // Error implements yyLexer, and is used by the parser to communicate errors.
 func (lex *MyLexer) Error(e string) {
+	if lex.err != nil {
+		return // original cause, parser might complain about unexpected end of input after it
+	}
 	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)
 }
 
-- 
2.43.0


From 0a8ed0130d681ac7995872adb88c0b54d9b2e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 12/29] fix: count CRLF as a single line end in error messages

---
 lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lexer.go b/lexer.go
index 97525ae..1688439 100644
--- a/lexer.go
+++ b/lexer.go
@@ -110,6 +110,8 @@ type MyLexer struct {
 
 	// lineNo is 0-indexed line number used for error reporting.
 	lineNo int
+	// lastWasCR is set if last read rune is CARRIAGE RETURN, LINE FEED after it belongs to the same line end.
+	lastWasCR bool
 }
 
 // Lex implements yyLexer.
@@ -249,6 +251,7 @@ func (lex *MyLexer) unreadRune() error {
 	if isNewline(lex.peekRune()) {
 		lex.lineNo -= 1
 	}
+	lex.lastWasCR = false
 	return r
 }
 
@@ -258,9 +261,10 @@ func (lex *MyLexer) readRune() (rune, int, error) {
 	}
 	r, n, err := lex.bufReader.ReadRune()
 	lex.readErr = err
-	if isNewline(r) {
+	if isNewline(r) && !(r == '\n' && lex.lastWasCR) {
 		lex.lineNo += 1
 	}
+	lex.lastWasCR = r == '\r'
 	return r, n, err
 }
 
-- 
2.43.0


From c75fa1005ede99587e91bce5af4a89437509ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:59 +0000
Subject: [PATCH 13/29] fix: do not use hyphen opening the comment to close it

Comments like '--- text' ended after third hyphen.
---
 lexer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lexer.go b/lexer.go
index 1688439..fea329c 100644
--- a/lexer.go
+++ b/lexer.go
@@ -135,6 +135,7 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 			lastWasNumber = false
 			continue
 		} else if r == '-' && lex.peekRune() == '-' {
+			lex.discard(1) // hyphens opening the comment can not close it
 			lex.skipLineComment()
 			lastWasNumber = false
 			continue
-- 
2.43.0


From c8527451f796fe6b62a7ac316373c8165a4d203c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:11 +0000
Subject: [PATCH 14/29] fix: match block comments delimiters, reject comments
 which are not closed

'/*/' was a complete comment, comments that are not closed were accepted,
and depth of nesting was limited by size of the stack.
---
 lexer.go | 46 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/lexer.go b/lexer.go
index fea329c..f6d2827 100644
--- a/lexer.go
+++ b/lexer.go
@@ -3,6 +3,7 @@ package asn1go
 import (
 	"bufio"
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 	"strconv"
@@ -140,7 +141,11 @@ func (lex *MyLexer) Lex(lval *yySymType) int {
 			lastWasNumber = false
 			continue
 		} else if r == '/' && lex.peekRune() == '*' {
-			lex.skipBlockComment()
+			lex.discard(1)
+			if err := lex.skipBlockComment(); err != nil {
+				lex.Error(err.Error())
+				return -1
+			}
 			lastWasNumber = false
 			continue
 		}
@@ -332,32 +337,27 @@ func (lex *MyLexer) skipLineComment() {
 	}
 }
 
-func (lex *MyLexer) skipBlockComment() {
-	lastIsOpeningSlash := false
-	lastIsClosingStar := false
-	for {
+func (lex *MyLexer) skipBlockComment() error {
+	depth := 1
+	var lastR rune
+	for depth > 0 {
 		r, _, err := lex.readRune()
-		if err != nil {
-			return
+		if err == io.EOF {
+			return errors.New("comment is not closed")
+		} else if err != nil {
+			return fmt.Errorf("failed to read: %v", err.Error())
 		}
-		if r == '/' {
-			if lastIsClosingStar {
-				return
-			} else {
-				lastIsOpeningSlash = true
-				continue
-			}
-		} else if r == '*' {
-			if lastIsOpeningSlash {
-				lex.skipBlockComment()
-			} else {
-				lastIsClosingStar = true
-				continue
-			}
+		if lastR == '*' && r == '/' {
+			depth -= 1
+			lastR = 0 // same characters can't open another comment
+		} else if lastR == '/' && r == '*' {
+			depth += 1
+			lastR = 0 // same characters can't close opened comment
+		} else {
+			lastR = r
 		}
-		lastIsClosingStar = false
-		lastIsOpeningSlash = false
 	}
+	return nil
 }
 
 func (lex *MyLexer) consumeWord() (string, error) {
-- 
2.43.0


From b123d7a856d71ca1a6b204cbbc3112ceb8da9eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 15/29] fix: parse IMPORTS from several modules

Reference following the module was always taken as its AssignedIdentifier.
---
 asn1.y |  20 +-
 y.go   | 933 +++++++++++++++++++++++++++++----------------------------
 2 files changed, 477 insertions(+), 476 deletions(-)

diff --git a/asn1.y b/asn1.y
index 9bb026c..45a02c7 100644
--- a/asn1.y
+++ b/asn1.y
@@ -54,10 +54,8 @@ import (
     NamedBitList []NamedBit
     NamedBit NamedBit
     Imports []SymbolsFromModule
-    SymbolsFromModule SymbolsFromModule
     SymbolList []Symbol
     Symbol Symbol
-    GlobalModuleReference GlobalModuleReference
     AlternativeTypeList []NamedType
     ChoiceType ChoiceType
     ExtensionAdditionAlternative ChoiceExtension
@@ -296,12 +294,11 @@ import (
 %type <Imports> Imports
 %type <Imports> SymbolsImported
 %type <Imports> SymbolsFromModuleList
-%type <SymbolsFromModule> SymbolsFromModule
 %type <SymbolList> SymbolList
 %type <Symbol> Symbol
 %type <Symbol> Reference  // quite questionable
 %type <Value> AssignedIdentifier
-%type <GlobalModuleReference> GlobalModuleReference
+%type <Imports> GlobalModuleReferenceAndRest
 %type <Type> ChoiceType
 %type <ChoiceType> AlternativeTypeLists
 %type <AlternativeTypeList> AlternativeTypeList RootAlternativeTypeList
@@ -414,19 +411,20 @@ SymbolsImported : SymbolsFromModuleList  { $$ = $1 }
                 | /*empty*/  { $$ = make([]SymbolsFromModule, 0) }
 ;
 
-SymbolsFromModuleList : SymbolsFromModule  { $$ = append(make([]SymbolsFromModule, 0), $1) }
-                      | SymbolsFromModuleList SymbolsFromModule  { $$ = append($1, $2) }
+// Spec defines it as list of SymbolsFromModule, with AssignedIdentifier being optional part of GlobalModuleReference.
+// It is written as right recursion in order to not require parser to decide if reference that follows the module is
+// AssignedIdentifier or the first of the next symbols before looking behind that reference.
+SymbolsFromModuleList : SymbolList FROM GlobalModuleReferenceAndRest  { $$ = $3; $$[0].SymbolList = $1 }
 ;
 
-SymbolsFromModule : SymbolList FROM GlobalModuleReference  { $$ = SymbolsFromModule{$1, $3} }
-;
-
-GlobalModuleReference : modulereference AssignedIdentifier  { $$ = GlobalModuleReference{$1, $2} }
+GlobalModuleReferenceAndRest : modulereference  { $$ = []SymbolsFromModule{{Module: GlobalModuleReference{$1, nil}}} }
+                             | modulereference AssignedIdentifier  { $$ = []SymbolsFromModule{{Module: GlobalModuleReference{$1, $2}}} }
+                             | modulereference SymbolsFromModuleList  { $$ = append([]SymbolsFromModule{{Module: GlobalModuleReference{$1, nil}}}, $2...) }
+                             | modulereference AssignedIdentifier SymbolsFromModuleList  { $$ = append([]SymbolsFromModule{{Module: GlobalModuleReference{$1, $2}}}, $3...) }
 ;
 
 AssignedIdentifier : ObjectIdentifierValue  { $$ = $1 }
                    | DefinedValue  { $$ = $1 }
-                   | /*empty*/  { $$ = nil }
 ;
 
 SymbolList : Symbol  { $$ = append(make([]Symbol, 0), $1) }
diff --git a/y.go b/y.go
index b16f2f2..2808a93 100644
--- a/y.go
+++ b/y.go
@@ -56,10 +56,8 @@ type yySymType struct {
 	NamedBitList                      []NamedBit
 	NamedBit                          NamedBit
 	Imports                           []SymbolsFromModule
-	SymbolsFromModule                 SymbolsFromModule
 	SymbolList                        []Symbol
 	Symbol                            Symbol
-	GlobalModuleReference             GlobalModuleReference
 	AlternativeTypeList               []NamedType
 	ChoiceType                        ChoiceType
 	ExtensionAdditionAlternative      ChoiceExtension
@@ -335,7 +333,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1071
+//line asn1.y:1069
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -348,236 +346,240 @@ var yyExca = [...]int16{
 	-1, 47,
 	31, 3,
 	-2, 2,
-	-1, 178,
+	-1, 176,
 	44, 239,
 	94, 239,
 	-2, 235,
-	-1, 180,
+	-1, 178,
 	46, 242,
 	53, 242,
 	-2, 237,
-	-1, 184,
+	-1, 182,
 	60, 245,
 	-2, 243,
-	-1, 193,
+	-1, 191,
 	16, 264,
 	28, 264,
 	-2, 258,
-	-1, 252,
+	-1, 246,
+	30, 46,
+	84, 46,
+	-2, 53,
+	-1, 253,
 	32, 6,
 	-2, 4,
-	-1, 329,
+	-1, 331,
 	46, 242,
 	53, 242,
 	-2, 238,
-	-1, 421,
+	-1, 423,
 	30, 138,
 	-2, 132,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 912
+const yyLast = 914
 
 var yyAct = [...]int16{
-	219, 205, 408, 218, 374, 208, 350, 220, 127, 17,
-	193, 177, 259, 317, 313, 17, 281, 277, 238, 291,
-	333, 242, 250, 210, 202, 262, 163, 184, 182, 180,
-	246, 159, 170, 217, 241, 3, 144, 151, 5, 19,
-	168, 38, 29, 295, 19, 416, 11, 9, 19, 168,
-	265, 19, 133, 19, 168, 19, 19, 46, 165, 54,
-	46, 296, 411, 297, 233, 204, 204, 165, 169, 334,
-	45, 54, 165, 45, 273, 227, 215, 169, 274, 46,
-	150, 232, 169, 190, 46, 225, 19, 224, 62, 24,
-	234, 10, 45, 336, 23, 417, 204, 45, 22, 152,
-	266, 172, 336, 21, 35, 31, 148, 42, 137, 142,
-	172, 415, 162, 134, 263, 172, 195, 129, 161, 58,
-	36, 162, 50, 140, 121, 135, 162, 161, 164, 128,
-	164, 128, 161, 211, 214, 61, 268, 155, 203, 260,
-	221, 171, 123, 269, 223, 47, 48, 221, 226, 231,
-	171, 221, 221, 60, 429, 171, 213, 103, 154, 139,
-	216, 139, 59, 128, 239, 228, 400, 253, 370, 245,
-	124, 65, 63, 309, 229, 318, 399, 122, 388, 385,
-	247, 125, 221, 138, 143, 384, 244, 331, 320, 164,
-	141, 126, 136, 44, 40, 53, 44, 32, 41, 271,
-	128, 278, 258, 319, 4, 48, 325, 53, 128, 345,
-	256, 270, 315, 288, 27, 44, 255, 283, 431, 145,
-	44, 343, 310, 289, 344, 430, 290, 422, 342, 430,
-	420, 406, 299, 301, 326, 403, 308, 292, 395, 394,
-	305, 307, 387, 382, 282, 372, 294, 287, 302, 253,
-	253, 286, 280, 222, 261, 62, 275, 15, 230, 425,
-	4, 48, 393, 235, 236, 164, 164, 365, 363, 164,
-	357, 311, 303, 293, 164, 323, 285, 279, 312, 314,
-	165, 199, 338, 335, 25, 30, 132, 322, 347, 211,
-	351, 328, 214, 353, 329, 360, 330, 131, 164, 130,
-	7, 348, 368, 355, 421, 346, 19, 361, 19, 358,
-	352, 327, 272, 64, 356, 354, 375, 28, 204, 359,
-	249, 12, 284, 4, 48, 240, 19, 18, 14, 424,
-	367, 371, 364, 369, 14, 26, 164, 316, 366, 257,
-	18, 298, 300, 19, 377, 335, 278, 47, 48, 304,
-	306, 4, 48, 254, 48, 373, 4, 252, 254, 4,
-	380, 321, 378, 381, 379, 383, 55, 48, 414, 397,
-	396, 376, 164, 341, 164, 340, 339, 324, 337, 267,
-	264, 390, 389, 423, 392, 410, 398, 405, 409, 402,
-	351, 55, 19, 168, 39, 34, 377, 377, 1, 412,
-	413, 401, 209, 418, 207, 211, 404, 206, 212, 419,
-	407, 165, 386, 349, 362, 201, 200, 187, 72, 120,
-	153, 169, 243, 409, 426, 427, 43, 428, 57, 56,
-	37, 360, 276, 69, 94, 77, 86, 149, 237, 99,
-	179, 93, 110, 100, 102, 84, 82, 139, 81, 80,
-	198, 79, 67, 85, 172, 91, 88, 90, 95, 114,
-	106, 71, 111, 197, 89, 162, 96, 113, 332, 194,
-	192, 161, 119, 104, 97, 191, 92, 107, 55, 19,
-	168, 108, 186, 189, 188, 109, 185, 183, 181, 178,
-	391, 115, 176, 175, 171, 105, 174, 173, 165, 116,
-	87, 68, 112, 117, 187, 33, 120, 118, 169, 49,
-	98, 196, 101, 51, 52, 167, 166, 157, 160, 78,
-	158, 94, 156, 248, 251, 83, 99, 73, 93, 110,
-	100, 75, 66, 70, 139, 74, 76, 198, 6, 16,
-	13, 172, 2, 88, 8, 95, 114, 106, 20, 111,
-	0, 89, 162, 96, 113, 0, 0, 0, 161, 119,
-	104, 97, 0, 92, 107, 47, 48, 325, 108, 0,
-	0, 0, 109, 0, 0, 0, 0, 0, 115, 0,
-	0, 171, 105, 0, 0, 0, 116, 0, 0, 112,
-	117, 0, 0, 120, 118, 326, 0, 98, 196, 101,
-	0, 0, 0, 0, 0, 0, 0, 0, 94, 0,
-	0, 0, 0, 99, 0, 93, 110, 100, 0, 0,
+	217, 203, 410, 216, 376, 206, 352, 218, 125, 17,
+	191, 175, 260, 319, 315, 17, 282, 278, 236, 292,
+	335, 240, 251, 208, 200, 263, 161, 182, 180, 178,
+	247, 157, 168, 215, 142, 57, 102, 149, 5, 19,
+	166, 38, 29, 11, 9, 296, 131, 19, 19, 166,
+	193, 298, 231, 19, 230, 19, 418, 46, 163, 54,
+	46, 239, 3, 297, 413, 202, 274, 163, 167, 336,
+	275, 54, 44, 138, 53, 44, 188, 167, 223, 126,
+	148, 222, 232, 46, 19, 61, 53, 266, 10, 133,
+	24, 23, 22, 338, 202, 126, 21, 45, 44, 150,
+	45, 170, 338, 35, 225, 64, 419, 135, 140, 137,
+	170, 31, 160, 264, 123, 146, 132, 127, 159, 19,
+	166, 160, 417, 45, 19, 137, 162, 159, 162, 42,
+	36, 209, 212, 261, 202, 153, 201, 267, 163, 121,
+	139, 169, 221, 219, 213, 120, 224, 229, 167, 219,
+	169, 219, 143, 50, 211, 60, 134, 269, 214, 47,
+	48, 59, 237, 226, 270, 254, 126, 244, 431, 402,
+	310, 372, 227, 320, 246, 136, 141, 58, 248, 401,
+	219, 170, 390, 152, 243, 220, 126, 162, 242, 44,
+	228, 122, 160, 387, 386, 233, 234, 272, 159, 279,
+	259, 321, 333, 62, 322, 4, 48, 327, 40, 271,
+	124, 32, 347, 41, 245, 284, 257, 317, 289, 27,
+	219, 169, 256, 345, 311, 433, 346, 126, 432, 290,
+	300, 302, 291, 424, 309, 328, 432, 422, 306, 308,
+	408, 405, 293, 397, 396, 389, 303, 384, 283, 374,
+	254, 254, 295, 288, 285, 287, 281, 262, 61, 276,
+	427, 395, 367, 46, 365, 359, 162, 162, 313, 304,
+	162, 294, 15, 299, 301, 162, 325, 312, 44, 314,
+	316, 305, 307, 340, 337, 47, 48, 286, 324, 349,
+	209, 353, 330, 212, 355, 331, 362, 332, 280, 162,
+	30, 25, 350, 45, 357, 163, 348, 344, 363, 197,
+	130, 129, 326, 128, 7, 358, 356, 370, 19, 19,
+	361, 423, 360, 354, 329, 273, 426, 250, 377, 202,
+	63, 28, 369, 366, 373, 14, 12, 371, 162, 318,
+	368, 14, 4, 48, 238, 258, 379, 337, 279, 364,
+	26, 4, 48, 255, 4, 253, 255, 375, 19, 18,
+	47, 48, 382, 18, 380, 383, 381, 385, 55, 48,
+	19, 48, 4, 323, 162, 416, 162, 399, 398, 378,
+	343, 342, 341, 392, 391, 339, 394, 268, 400, 265,
+	411, 404, 353, 55, 19, 166, 425, 412, 379, 379,
+	407, 414, 415, 403, 39, 34, 1, 209, 406, 207,
+	420, 421, 205, 163, 204, 210, 409, 388, 351, 185,
+	199, 119, 198, 167, 71, 411, 428, 429, 151, 430,
+	241, 43, 56, 362, 37, 277, 93, 68, 76, 85,
+	147, 98, 177, 92, 109, 99, 235, 101, 83, 137,
+	81, 80, 196, 79, 78, 66, 170, 84, 87, 90,
+	94, 113, 105, 89, 110, 70, 88, 160, 95, 112,
+	195, 334, 192, 159, 118, 103, 96, 190, 91, 106,
+	55, 19, 166, 107, 189, 184, 187, 108, 186, 183,
+	181, 179, 176, 114, 393, 174, 169, 104, 173, 172,
+	163, 115, 171, 86, 111, 116, 185, 67, 119, 117,
+	167, 33, 97, 194, 100, 49, 51, 52, 165, 164,
+	155, 158, 77, 93, 156, 154, 249, 252, 98, 82,
+	92, 109, 99, 72, 74, 65, 137, 69, 73, 196,
+	75, 6, 16, 170, 13, 87, 2, 94, 113, 105,
+	8, 110, 20, 88, 160, 95, 112, 0, 0, 0,
+	159, 118, 103, 96, 0, 91, 106, 47, 48, 327,
+	107, 0, 0, 0, 108, 0, 0, 0, 0, 0,
+	114, 0, 0, 169, 104, 0, 0, 0, 115, 0,
+	0, 111, 116, 0, 0, 119, 117, 328, 0, 97,
+	194, 100, 0, 0, 0, 0, 0, 0, 0, 0,
+	93, 0, 0, 0, 0, 98, 0, 92, 109, 99,
 	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	88, 0, 95, 114, 106, 0, 111, 0, 89, 55,
-	96, 113, 0, 0, 0, 0, 119, 104, 97, 0,
-	92, 107, 0, 0, 0, 108, 0, 0, 0, 109,
-	0, 0, 0, 0, 0, 115, 0, 120, 0, 105,
-	0, 0, 0, 116, 0, 0, 112, 117, 0, 0,
-	0, 118, 94, 0, 98, 0, 101, 99, 0, 93,
-	110, 100, 0, 0, 0, 0, 0, 147, 0, 0,
-	0, 0, 0, 0, 88, 0, 95, 114, 106, 0,
-	111, 0, 89, 0, 96, 113, 55, 19, 0, 0,
-	119, 104, 97, 0, 92, 107, 0, 0, 0, 108,
-	0, 0, 0, 109, 0, 0, 0, 0, 0, 115,
-	0, 146, 0, 105, 120, 0, 0, 116, 0, 0,
-	112, 117, 0, 0, 0, 118, 0, 0, 98, 94,
-	101, 0, 0, 0, 99, 0, 93, 110, 100, 0,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 88, 0, 95, 114, 106, 0, 111, 0, 89,
-	55, 96, 113, 0, 0, 0, 0, 119, 104, 97,
-	0, 92, 107, 0, 0, 0, 108, 0, 0, 0,
-	109, 0, 0, 0, 0, 0, 115, 0, 120, 0,
-	105, 0, 0, 0, 116, 0, 0, 112, 117, 0,
-	0, 0, 118, 94, 0, 98, 0, 101, 99, 0,
-	93, 110, 100, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 88, 0, 95, 114, 106,
-	0, 111, 0, 89, 0, 96, 113, 0, 0, 0,
-	0, 119, 104, 97, 0, 92, 107, 0, 0, 0,
-	108, 0, 0, 0, 109, 0, 0, 0, 0, 0,
-	115, 0, 0, 0, 105, 0, 0, 0, 116, 0,
-	0, 112, 117, 0, 0, 0, 118, 0, 0, 98,
-	0, 101,
+	0, 0, 87, 0, 94, 113, 105, 0, 110, 0,
+	88, 55, 95, 112, 0, 0, 0, 0, 118, 103,
+	96, 0, 91, 106, 0, 0, 0, 107, 0, 0,
+	0, 108, 0, 0, 0, 0, 0, 114, 0, 119,
+	0, 104, 0, 0, 0, 115, 0, 0, 111, 116,
+	0, 0, 0, 117, 93, 0, 97, 0, 100, 98,
+	0, 92, 109, 99, 0, 0, 0, 0, 0, 145,
+	0, 0, 0, 0, 0, 0, 87, 0, 94, 113,
+	105, 0, 110, 0, 88, 0, 95, 112, 55, 19,
+	0, 0, 118, 103, 96, 0, 91, 106, 0, 0,
+	0, 107, 0, 0, 0, 108, 0, 0, 0, 0,
+	0, 114, 0, 144, 0, 104, 119, 0, 0, 115,
+	0, 0, 111, 116, 0, 0, 0, 117, 0, 0,
+	97, 93, 100, 0, 0, 0, 98, 0, 92, 109,
+	99, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 87, 0, 94, 113, 105, 0, 110,
+	0, 88, 55, 95, 112, 0, 0, 0, 0, 118,
+	103, 96, 0, 91, 106, 0, 0, 0, 107, 0,
+	0, 0, 108, 0, 0, 0, 0, 0, 114, 0,
+	119, 0, 104, 0, 0, 0, 115, 0, 0, 111,
+	116, 0, 0, 0, 117, 93, 0, 97, 0, 100,
+	98, 0, 92, 109, 99, 0, 0, 0, 0, 0,
+	0, 0, 0, 0, 0, 0, 0, 87, 0, 94,
+	113, 105, 0, 110, 0, 88, 0, 95, 112, 0,
+	0, 0, 0, 118, 103, 96, 0, 91, 106, 0,
+	0, 0, 107, 0, 0, 0, 108, 0, 0, 0,
+	0, 0, 114, 0, 0, 0, 104, 0, 0, 0,
+	115, 0, 0, 111, 116, 0, 0, 0, 117, 0,
+	0, 97, 0, 100,
 }
 
 var yyPact = [...]int16{
-	353, -1000, -81, 274, -1000, -17, -1000, 319, 31, 20,
-	16, 11, 257, 319, -1000, -1000, -1000, 182, -1000, -1000,
-	302, -70, -1000, -1000, -1000, -1000, -1000, 332, 38, -1000,
-	164, 36, -1000, 68, -75, 139, -1000, 360, 341, 111,
-	93, 225, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 360,
-	-1000, -1000, -1000, 298, 784, -1000, 82, 341, -1000, 58,
-	-1000, -1000, 341, -1000, 784, 176, -1000, -1000, -1000, -1000,
+	366, -1000, -81, 288, -1000, -20, -1000, 351, 24, 14,
+	13, 12, 274, 351, -1000, -1000, -1000, 187, -1000, -1000,
+	316, -70, -1000, -1000, -1000, -1000, -1000, 355, 44, -1000,
+	178, 35, -1000, 78, -75, 153, -1000, 362, 354, 119,
+	113, 228, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 362,
+	-1000, -1000, -1000, 315, 786, -1000, 103, -1000, 55, -1000,
+	-1000, 354, -1000, 786, 195, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 51, -1000,
-	-1000, -1000, 273, 271, 260, -1000, -52, 47, -1000, 99,
-	97, -92, 633, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 40,
-	-22, -1000, -1000, 353, -1000, 168, 46, -1000, 385, 255,
-	301, 336, 336, -1000, -1000, 49, 710, -6, -8, 168,
-	48, 710, -12, -29, 7, 168, 784, 784, -1000, 317,
-	-1000, -1000, -1000, -1000, 254, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, 350, -1000, -1000, 185, 331,
-	-1000, -1000, -1000, 94, -1000, -1000, 224, -1000, -1000, 54,
-	-1000, 6, -1000, 90, -1000, 54, -1000, 385, -1000, -1000,
-	-1000, -1000, -1000, -1000, 296, 168, -25, 228, -1000, 336,
-	250, 222, 214, -1000, 94, 784, 249, 221, -1000, 217,
-	-1000, 181, 196, -1000, 181, -1000, 207, 246, 216, -1000,
-	-54, -30, 168, -1000, 710, 710, -1000, -1000, 207, 245,
-	168, -1000, 710, 710, 336, 168, 168, 138, -1000, -1000,
-	-1000, 191, -1000, -1000, -1000, -1000, 244, 350, 350, -1000,
-	-1000, -1000, -1000, 180, -1000, 329, 167, 185, -1000, 155,
-	559, 294, -1000, 472, 472, -1000, -1000, 472, -1000, -1000,
-	-1000, 154, 41, 168, 202, -1000, 194, -1000, 177, -1000,
-	301, 207, 336, -1000, 168, -1000, 293, 336, 198, -1000,
-	336, 243, 292, -1000, 79, -1000, 46, 784, 168, -1000,
-	168, -1000, 241, -1000, 168, -1000, 168, -1000, -1000, -1000,
-	347, -1000, 240, -1000, -1000, 345, 277, -1000, -1000, 325,
-	-1000, -1000, -1000, -1000, 131, -1000, 323, 215, -1000, -1000,
-	-1000, -1000, -1000, -1000, 32, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 299, -1000, 336, 317, 214, -1000, -1000, 213,
-	-1000, -1000, 94, -1000, 152, 146, -1000, -1000, -1000, 212,
-	-1000, -1000, 168, -1000, -1000, -1000, 145, -1000, 167, -1000,
-	46, -1000, 385, -1000, 235, 209, 208, 168, -1000, 143,
-	133, 207, 336, 205, -1000, -1000, 201, 44, -1000, -1000,
-	-1000, -1000, -1000, -1000, 336, 336, -1000, -2, -1000, -1000,
-	-1000, -1000, -1000, 336, -1000, 200, 287, 197, -1000, -1000,
-	-1000, 321, 232, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	37, -1000, 44, 37, 117, -1000, 195, -1000, 199, -1000,
-	37, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 51, -1000, -1000,
+	-1000, 287, 285, 284, -1000, -58, 50, -1000, 63, 47,
+	-94, 635, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 49, -22,
+	-1000, 366, -1000, 154, 112, -1000, 387, 283, 312, 363,
+	363, -1000, -1000, 117, 712, -12, -15, 154, 77, 712,
+	-39, -41, -1, 154, 786, 786, -1000, 336, -1000, -1000,
+	-1000, -1000, 279, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 348, -1000, -1000, 191, 337, -1000, -1000,
+	-1000, 88, -1000, -1000, 227, -1000, -1000, 53, -1000, 43,
+	-1000, 111, -1000, 53, -1000, 387, -1000, -1000, -1000, -1000,
+	-1000, -1000, 309, 154, -33, 231, -1000, 363, 271, 226,
+	218, -1000, 88, 786, 260, 225, -1000, 223, -1000, 186,
+	202, -1000, 186, -1000, 212, 244, 222, -1000, -52, -42,
+	154, -1000, 712, 712, -1000, -1000, 212, 242, 154, -1000,
+	712, 712, 363, 154, 154, 135, -1000, -1000, -1000, 193,
+	-1000, 354, -1000, -1000, -1000, 193, -1000, 241, 348, 348,
+	-1000, -1000, -1000, -1000, 185, -1000, 331, 165, 191, -1000,
+	171, 561, 307, -1000, 474, 474, -1000, -1000, 474, -1000,
+	-1000, -1000, 169, 41, 154, 281, -1000, 196, -1000, 180,
+	-1000, 312, 212, 363, -1000, 154, -1000, 306, 363, 199,
+	-1000, 363, 238, 305, -1000, 48, -1000, 112, 786, 154,
+	-1000, 154, -1000, 237, -1000, 154, -1000, 154, -1000, -1000,
+	-1000, 364, -1000, -1000, 235, -1000, -1000, 345, 292, -1000,
+	-1000, 329, -1000, -1000, -1000, -1000, 134, -1000, 326, 219,
+	-1000, -1000, -1000, -1000, -1000, -1000, 32, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 311, -1000, 363, 336, 218, -1000,
+	-1000, 217, -1000, -1000, 88, -1000, 161, 160, -1000, -1000,
+	-1000, 215, -1000, -1000, 154, -1000, -1000, -1000, 149, -1000,
+	165, -1000, 112, -1000, 387, -1000, 234, 214, 213, 154,
+	-1000, 146, 136, 212, 363, 211, -1000, -1000, 210, 46,
+	-1000, -1000, -1000, -1000, -1000, -1000, 363, 363, -1000, 9,
+	-1000, -1000, -1000, -1000, -1000, 363, -1000, 207, 304, 203,
+	-1000, -1000, -1000, 318, 233, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, 40, -1000, 46, 40, 131, -1000, 198, -1000,
+	206, -1000, 40, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 32, 13, 34, 157, 1, 548, 544, 542, 540,
-	257, 321, 539, 538, 320, 14, 536, 535, 533, 532,
-	116, 531, 527, 525, 7, 22, 524, 523, 30, 31,
-	522, 10, 520, 519, 518, 517, 516, 515, 26, 18,
-	122, 514, 513, 509, 505, 21, 501, 500, 8, 497,
-	496, 493, 492, 490, 11, 489, 488, 29, 487, 28,
-	25, 27, 486, 484, 483, 482, 475, 470, 83, 469,
-	468, 463, 20, 461, 457, 455, 453, 452, 451, 449,
-	448, 446, 0, 3, 446, 33, 445, 444, 438, 437,
-	436, 435, 433, 432, 17, 430, 429, 428, 119, 162,
-	107, 426, 422, 420, 418, 416, 415, 415, 6, 16,
-	413, 412, 410, 2, 23, 408, 407, 5, 404, 403,
-	402, 398, 395, 394, 12, 24, 19, 387, 385, 383,
-	383, 380, 379, 378, 376, 375, 373, 4, 371, 370,
-	369, 368, 361,
+	0, 32, 13, 61, 36, 1, 552, 550, 546, 544,
+	272, 336, 542, 541, 327, 14, 540, 538, 537, 535,
+	50, 534, 533, 529, 7, 22, 527, 526, 30, 31,
+	525, 10, 524, 522, 521, 520, 519, 518, 26, 18,
+	153, 517, 516, 515, 511, 21, 507, 503, 8, 502,
+	499, 498, 495, 494, 11, 492, 491, 29, 490, 28,
+	25, 27, 489, 488, 486, 485, 484, 477, 76, 472,
+	471, 470, 20, 465, 463, 459, 457, 455, 454, 453,
+	451, 450, 0, 3, 450, 33, 448, 447, 446, 440,
+	439, 438, 437, 435, 17, 434, 432, 35, 177, 129,
+	431, 430, 428, 424, 422, 420, 420, 6, 16, 418,
+	417, 416, 2, 23, 415, 414, 5, 412, 410, 409,
+	406, 405, 404, 12, 24, 19, 400, 397, 396, 396,
+	389, 387, 385, 382, 381, 380, 4, 379, 378, 377,
+	375, 373,
 }
 
 var yyR1 = [...]uint8{
-	0, 121, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 120, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 122, 122, 122, 123, 123,
-	95, 95, 96, 96, 97, 97, 98, 103, 102, 102,
-	102, 99, 99, 100, 101, 101, 101, 43, 43, 40,
+	7, 6, 6, 44, 44, 121, 121, 121, 122, 122,
+	95, 95, 96, 96, 97, 102, 102, 102, 102, 101,
+	101, 98, 98, 99, 100, 100, 100, 43, 43, 40,
 	40, 76, 15, 15, 42, 41, 20, 20, 20, 19,
 	19, 19, 19, 19, 19, 19, 19, 19, 19, 19,
 	19, 19, 19, 19, 19, 77, 77, 24, 31, 30,
-	30, 30, 30, 18, 35, 35, 17, 17, 115, 115,
-	114, 114, 38, 38, 32, 32, 22, 116, 116, 116,
-	118, 119, 117, 117, 120, 120, 33, 34, 34, 36,
+	30, 30, 30, 18, 35, 35, 17, 17, 114, 114,
+	113, 113, 38, 38, 32, 32, 22, 115, 115, 115,
+	117, 118, 116, 116, 119, 119, 33, 34, 34, 36,
 	36, 37, 37, 1, 1, 1, 1, 2, 2, 92,
 	92, 93, 93, 94, 94, 91, 21, 78, 78, 78,
-	125, 125, 126, 126, 85, 85, 85, 84, 127, 111,
-	111, 112, 112, 113, 113, 128, 129, 129, 83, 83,
+	124, 124, 125, 125, 85, 85, 85, 84, 126, 110,
+	110, 111, 111, 112, 112, 127, 128, 128, 83, 83,
 	82, 82, 82, 82, 80, 80, 80, 81, 81, 23,
-	23, 104, 105, 105, 105, 107, 109, 109, 110, 110,
-	108, 130, 106, 106, 86, 86, 86, 87, 88, 88,
+	23, 103, 104, 104, 104, 106, 108, 108, 109, 109,
+	107, 129, 105, 105, 86, 86, 86, 87, 88, 88,
 	89, 89, 89, 89, 79, 79, 16, 29, 29, 28,
 	28, 27, 27, 27, 27, 25, 25, 26, 14, 73,
 	73, 74, 74, 74, 74, 74, 74, 74, 74, 74,
 	74, 74, 74, 74, 75, 90, 90, 46, 46, 47,
 	47, 47, 47, 47, 47, 47, 47, 48, 49, 50,
 	51, 51, 51, 52, 53, 54, 54, 55, 55, 56,
-	57, 57, 58, 59, 59, 62, 60, 131, 131, 132,
-	132, 61, 61, 65, 65, 65, 65, 65, 63, 64,
+	57, 57, 58, 59, 59, 62, 60, 130, 130, 131,
+	131, 61, 61, 65, 65, 65, 65, 65, 63, 64,
 	69, 69, 70, 70, 71, 71, 72, 72, 68, 66,
-	67, 67, 133, 134, 134, 135, 136, 137, 137, 138,
-	139, 140, 140, 141, 141, 141, 141, 124, 124, 142,
-	142, 142,
+	67, 67, 132, 133, 133, 134, 135, 136, 136, 137,
+	138, 139, 139, 140, 140, 140, 140, 123, 123, 141,
+	141, 141,
 }
 
 var yyR2 = [...]int8{
 	0, 8, 1, 1, 1, 1, 1, 2, 3, 0,
 	1, 2, 1, 1, 1, 1, 4, 2, 2, 2,
 	0, 2, 0, 3, 0, 3, 3, 0, 1, 0,
-	3, 0, 1, 0, 1, 2, 3, 2, 1, 1,
-	0, 1, 3, 1, 1, 1, 1, 1, 2, 1,
+	3, 0, 1, 0, 3, 1, 2, 2, 3, 1,
+	1, 1, 3, 1, 1, 1, 1, 1, 2, 1,
 	1, 1, 3, 1, 3, 4, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
 	1, 1, 1, 1, 1, 1, 1, 2, 1, 1,
@@ -606,50 +608,50 @@ var yyR2 = [...]int8{
 }
 
 var yyChk = [...]int16{
-	-1000, -121, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -120, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
-	-10, 67, 33, -44, -122, 68, 52, -95, 116, -123,
-	55, -99, -100, -101, -4, -3, -45, 6, 7, -43,
-	-40, -42, -41, -4, -45, 6, -96, -97, -98, -99,
-	42, 42, 30, -40, 15, -20, -19, -77, -46, -92,
-	-18, -73, -104, -22, -17, -21, -16, -91, -33, -78,
-	-79, -80, -81, -23, -86, -76, -90, -47, 71, 79,
-	-74, -75, 91, 56, 49, 73, 81, 89, 125, 54,
-	58, 127, -87, -4, 88, 110, 75, 92, 96, 100,
-	57, 77, 117, 82, 74, 106, 114, 118, 122, 87,
-	34, 42, -98, 84, -100, -20, 15, -48, 32, 66,
-	26, 26, 26, 104, 66, 26, 93, -48, -68, 62,
-	26, 93, -48, -68, 128, -20, 108, 64, 66, -89,
-	102, 59, 121, -103, -3, -31, -30, -35, -32, -29,
-	-34, 86, 80, -38, -5, 26, -36, -37, 8, 36,
-	-1, 109, 69, -49, -50, -51, -52, -54, -55, 55,
-	-57, -56, -59, -58, -61, -62, -65, 32, -63, -64,
-	-68, -66, -67, -31, -69, -20, 126, -71, 65, 26,
-	-105, -106, -125, -24, 17, -5, -116, -118, -117, -120,
-	-114, -5, -115, -114, -5, 27, -125, -85, -83, -82,
-	-24, 103, -20, -24, 93, 93, -48, 27, -125, -85,
-	-20, -24, 93, 93, 83, -20, -20, -88, -39, -15,
-	8, -3, -45, -102, -29, -15, -28, -15, -27, -14,
-	-25, -26, 7, -5, 8, 31, 25, 8, -1, -124,
-	45, 30, -60, 60, -131, 44, 94, -132, 46, 53,
-	-60, -54, 16, 99, 103, 28, -93, -94, -5, 27,
-	30, -109, 30, -124, -20, 27, 30, 30, 32, 27,
-	30, -126, 30, 27, 30, 97, 115, 93, -20, -24,
-	-20, -24, -126, 27, -20, -24, -20, -24, -5, 35,
-	31, 27, -28, -15, -28, 32, 8, -2, 8, 36,
-	33, -142, -38, -15, -20, 8, 36, 17, -61, -57,
-	-59, 33, -70, -72, 28, -31, 61, -133, -48, -134,
-	-135, -136, 26, 27, 30, 32, -125, -24, -126, -110,
-	-108, -24, 17, -117, -38, -15, -114, 27, 17, -125,
-	-82, -31, -20, 27, -45, 27, -25, -15, 25, 8,
-	37, 8, 30, -72, -137, 17, -138, -5, -94, -39,
-	-15, -109, 30, -124, 33, 33, -111, 30, 33, -2,
-	-31, -53, -54, 27, 30, 30, -139, -140, -48, 33,
-	33, -126, -108, 30, -126, -127, 30, -112, -113, -82,
-	-128, 18, -137, -137, -141, 113, 47, 97, -119, -117,
-	30, 17, 30, -129, 8, 27, -83, -113, -83, 37,
-	30, 19,
+	-10, 67, 33, -44, -121, 68, 52, -95, 116, -122,
+	55, -98, -99, -100, -4, -3, -45, 6, 7, -43,
+	-40, -42, -41, -4, -45, 6, -96, -97, -98, 42,
+	42, 30, -40, 15, -20, -19, -77, -46, -92, -18,
+	-73, -103, -22, -17, -21, -16, -91, -33, -78, -79,
+	-80, -81, -23, -86, -76, -90, -47, 71, 79, -74,
+	-75, 91, 56, 49, 73, 81, 89, 125, 54, 58,
+	127, -87, -4, 88, 110, 75, 92, 96, 100, 57,
+	77, 117, 82, 74, 106, 114, 118, 122, 87, 34,
+	42, 84, -99, -20, 15, -48, 32, 66, 26, 26,
+	26, 104, 66, 26, 93, -48, -68, 62, 26, 93,
+	-48, -68, 128, -20, 108, 64, 66, -89, 102, 59,
+	121, -102, -3, -31, -30, -35, -32, -29, -34, 86,
+	80, -38, -5, 26, -36, -37, 8, 36, -1, 109,
+	69, -49, -50, -51, -52, -54, -55, 55, -57, -56,
+	-59, -58, -61, -62, -65, 32, -63, -64, -68, -66,
+	-67, -31, -69, -20, 126, -71, 65, 26, -104, -105,
+	-124, -24, 17, -5, -115, -117, -116, -119, -113, -5,
+	-114, -113, -5, 27, -124, -85, -83, -82, -24, 103,
+	-20, -24, 93, 93, -48, 27, -124, -85, -20, -24,
+	93, 93, 83, -20, -20, -88, -39, -15, 8, -3,
+	-45, -101, -97, -29, -15, -3, -45, -28, -15, -27,
+	-14, -25, -26, 7, -5, 8, 31, 25, 8, -1,
+	-123, 45, 30, -60, 60, -130, 44, 94, -131, 46,
+	53, -60, -54, 16, 99, 103, 28, -93, -94, -5,
+	27, 30, -108, 30, -123, -20, 27, 30, 30, 32,
+	27, 30, -125, 30, 27, 30, 97, 115, 93, -20,
+	-24, -20, -24, -125, 27, -20, -24, -20, -24, -5,
+	35, 31, -97, 27, -28, -15, -28, 32, 8, -2,
+	8, 36, 33, -141, -38, -15, -20, 8, 36, 17,
+	-61, -57, -59, 33, -70, -72, 28, -31, 61, -132,
+	-48, -133, -134, -135, 26, 27, 30, 32, -124, -24,
+	-125, -109, -107, -24, 17, -116, -38, -15, -113, 27,
+	17, -124, -82, -31, -20, 27, -45, 27, -25, -15,
+	25, 8, 37, 8, 30, -72, -136, 17, -137, -5,
+	-94, -39, -15, -108, 30, -123, 33, 33, -110, 30,
+	33, -2, -31, -53, -54, 27, 30, 30, -138, -139,
+	-48, 33, 33, -125, -107, 30, -125, -126, 30, -111,
+	-112, -82, -127, 18, -136, -136, -140, 113, 47, 97,
+	-118, -116, 30, 17, 30, -128, 8, 27, -83, -112,
+	-83, 37, 30, 19,
 }
 
 var yyDef = [...]int16{
@@ -658,45 +660,45 @@ var yyDef = [...]int16{
 	0, 0, 17, 18, 19, 8, 11, 0, 0, 21,
 	0, -2, 16, 0, 31, 29, 1, 0, 33, 0,
 	0, 28, 41, 43, 44, 45, 46, -2, 4, 23,
-	47, 49, 50, 0, 0, 2, 0, 32, 34, 0,
-	25, 26, 0, 48, 0, 0, 56, 57, 58, 59,
-	60, 61, 62, 63, 64, 65, 66, 67, 68, 69,
-	70, 71, 72, 73, 74, 75, 76, 218, 0, 83,
-	199, 200, 0, 0, 86, 126, 0, 0, 106, 0,
-	0, 159, 0, 51, 215, 216, 201, 202, 203, 204,
-	205, 206, 207, 208, 209, 210, 211, 212, 213, 0,
-	183, 30, 35, 0, 42, 54, 0, 217, 0, 119,
-	0, 0, 0, 186, 125, 0, 0, 0, 0, 0,
-	0, 0, 0, 0, 0, 174, 0, 0, 214, 0,
-	180, 181, 182, 36, 40, 55, 78, 79, 80, 81,
-	82, 84, 85, 94, 95, 0, 107, 108, 92, 0,
-	109, 111, 112, 288, 228, 229, 230, 233, -2, 0,
-	-2, 0, 240, 0, -2, 0, 251, 0, 253, 254,
-	255, 256, 257, -2, 0, 269, 0, 260, 265, 0,
-	0, 163, 167, 172, 130, 0, 0, 97, 100, 102,
-	104, 105, 0, 88, 0, 127, 133, 0, 134, 148,
-	150, 0, 184, 185, 0, 0, 268, 154, 133, 0,
-	157, 158, 0, 0, 0, 175, 176, 0, 178, 179,
-	5, 0, 53, 37, 38, 39, 0, 194, 189, 191,
-	192, 193, -2, 198, 195, 0, 0, 93, 110, 0,
-	0, 0, 236, 0, 0, 247, 248, 0, 249, 250,
-	244, 0, 0, 0, 0, 261, 0, 121, 0, 161,
-	0, 133, 0, 131, 77, 96, 0, 0, 0, 87,
-	0, 0, 0, 129, 0, 151, 0, 0, 221, 225,
-	222, 226, 0, 156, 219, 223, 220, 224, 160, 177,
-	0, 187, 0, 194, 190, 0, 114, 116, 117, 0,
-	227, 287, 289, 290, 0, 92, 0, 231, 246, -2,
-	241, 252, 259, 262, 0, 266, 267, 270, 272, 271,
-	273, 274, 0, 120, 0, 0, 167, 173, 164, 166,
-	168, 170, 288, 103, 0, 0, 89, 128, 132, 140,
-	149, 152, 153, 155, 52, 188, 0, 196, 0, 118,
-	0, 93, 0, 263, 0, 0, 277, 282, 122, 0,
-	0, 133, 0, 98, 90, 91, 133, 0, 197, 115,
-	291, 232, 234, 275, 0, 0, 279, 286, 281, 123,
-	124, 162, 169, 0, 135, 0, 0, 139, 141, 143,
-	144, 146, 0, 278, 280, 283, 284, 285, 99, 101,
-	0, -2, 0, 0, 0, 276, 136, 142, 0, 147,
-	0, 145,
+	47, 49, 50, 0, 0, 2, 0, 32, 0, 25,
+	26, 0, 48, 0, 0, 56, 57, 58, 59, 60,
+	61, 62, 63, 64, 65, 66, 67, 68, 69, 70,
+	71, 72, 73, 74, 75, 76, 218, 0, 83, 199,
+	200, 0, 0, 86, 126, 0, 0, 106, 0, 0,
+	159, 0, 51, 215, 216, 201, 202, 203, 204, 205,
+	206, 207, 208, 209, 210, 211, 212, 213, 0, 183,
+	30, 0, 42, 54, 0, 217, 0, 119, 0, 0,
+	0, 186, 125, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 174, 0, 0, 214, 0, 180, 181,
+	182, 34, 35, 55, 78, 79, 80, 81, 82, 84,
+	85, 94, 95, 0, 107, 108, 92, 0, 109, 111,
+	112, 288, 228, 229, 230, 233, -2, 0, -2, 0,
+	240, 0, -2, 0, 251, 0, 253, 254, 255, 256,
+	257, -2, 0, 269, 0, 260, 265, 0, 0, 163,
+	167, 172, 130, 0, 0, 97, 100, 102, 104, 105,
+	0, 88, 0, 127, 133, 0, 134, 148, 150, 0,
+	184, 185, 0, 0, 268, 154, 133, 0, 157, 158,
+	0, 0, 0, 175, 176, 0, 178, 179, 5, 0,
+	53, 36, 37, 39, 40, 45, -2, 0, 194, 189,
+	191, 192, 193, -2, 198, 195, 0, 0, 93, 110,
+	0, 0, 0, 236, 0, 0, 247, 248, 0, 249,
+	250, 244, 0, 0, 0, 0, 261, 0, 121, 0,
+	161, 0, 133, 0, 131, 77, 96, 0, 0, 0,
+	87, 0, 0, 0, 129, 0, 151, 0, 0, 221,
+	225, 222, 226, 0, 156, 219, 223, 220, 224, 160,
+	177, 0, 38, 187, 0, 194, 190, 0, 114, 116,
+	117, 0, 227, 287, 289, 290, 0, 92, 0, 231,
+	246, -2, 241, 252, 259, 262, 0, 266, 267, 270,
+	272, 271, 273, 274, 0, 120, 0, 0, 167, 173,
+	164, 166, 168, 170, 288, 103, 0, 0, 89, 128,
+	132, 140, 149, 152, 153, 155, 52, 188, 0, 196,
+	0, 118, 0, 93, 0, 263, 0, 0, 277, 282,
+	122, 0, 0, 133, 0, 98, 90, 91, 133, 0,
+	197, 115, 291, 232, 234, 275, 0, 0, 279, 286,
+	281, 123, 124, 162, 169, 0, 135, 0, 0, 139,
+	141, 143, 144, 146, 0, 278, 280, 283, 284, 285,
+	99, 101, 0, -2, 0, 0, 0, 276, 136, 142,
+	0, 147, 0, 145,
 }
 
 var yyTok1 = [...]int8{
@@ -1062,1181 +1064,1182 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line asn1.y:343
+//line asn1.y:340
 		{
 			yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: yyDollar[1].ModuleIdentifier, TagDefault: yyDollar[3].TagDefault, ExtensibilityImplied: yyDollar[4].ExtensionDefault, ModuleBody: yyDollar[7].ModuleBody}
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:346
+//line asn1.y:343
 		{
 			yyVAL.TypeReference = TypeReference(yyDollar[1].name)
 		}
 	case 4:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:351
+//line asn1.y:348
 		{
 			yyVAL.ValueReference = ValueReference(yyDollar[1].name)
 		}
 	case 7:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:362
+//line asn1.y:359
 		{
 			yyVAL.ModuleIdentifier = ModuleIdentifier{Reference: yyDollar[1].name, DefinitiveIdentifier: yyDollar[2].DefinitiveIdentifier}
 		}
 	case 8:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:365
+//line asn1.y:362
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(yyDollar[2].DefinitiveObjIdComponentList)
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:366
+//line asn1.y:363
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(make([]DefinitiveObjIdComponent, 0))
 		}
 	case 10:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:369
+//line asn1.y:366
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent)
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:370
+//line asn1.y:367
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent), yyDollar[2].DefinitiveObjIdComponentList...)
 		}
 	case 12:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:373
+//line asn1.y:370
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name}
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:374
+//line asn1.y:371
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Id: yyDollar[1].Number.IntValue()}
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:375
+//line asn1.y:372
 		{
 			yyVAL.DefinitiveObjIdComponent = yyDollar[1].DefinitiveObjIdComponent
 		}
 	case 15:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:378
+//line asn1.y:375
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 16:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:382
+//line asn1.y:379
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name, Id: yyDollar[3].Number.IntValue()}
 		}
 	case 17:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:385
+//line asn1.y:382
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 18:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:386
+//line asn1.y:383
 		{
 			yyVAL.TagDefault = TAGS_IMPLICIT
 		}
 	case 19:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:387
+//line asn1.y:384
 		{
 			yyVAL.TagDefault = TAGS_AUTOMATIC
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:388
+//line asn1.y:385
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 21:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:391
+//line asn1.y:388
 		{
 			yyVAL.ExtensionDefault = true
 		}
 	case 22:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:392
+//line asn1.y:389
 		{
 			yyVAL.ExtensionDefault = false
 		}
 	case 23:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:395
+//line asn1.y:392
 		{
 			yyVAL.ModuleBody = ModuleBody{Imports: yyDollar[2].Imports, AssignmentList: yyDollar[3].AssignmentList}
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:396
+//line asn1.y:393
 		{
 			yyVAL.ModuleBody = ModuleBody{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:409
+//line asn1.y:406
 		{
 			yyVAL.Imports = yyDollar[2].Imports
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:410
+//line asn1.y:407
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:413
+//line asn1.y:410
 		{
 			yyVAL.Imports = yyDollar[1].Imports
 		}
 	case 33:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:414
+//line asn1.y:411
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 34:
-		yyDollar = yyS[yypt-1 : yypt+1]
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:417
 		{
-			yyVAL.Imports = append(make([]SymbolsFromModule, 0), yyDollar[1].SymbolsFromModule)
+			yyVAL.Imports = yyDollar[3].Imports
+			yyVAL.Imports[0].SymbolList = yyDollar[1].SymbolList
 		}
 	case 35:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:418
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line asn1.y:420
 		{
-			yyVAL.Imports = append(yyDollar[1].Imports, yyDollar[2].SymbolsFromModule)
+			yyVAL.Imports = []SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, nil}}}
 		}
 	case 36:
-		yyDollar = yyS[yypt-3 : yypt+1]
+		yyDollar = yyS[yypt-2 : yypt+1]
 //line asn1.y:421
 		{
-			yyVAL.SymbolsFromModule = SymbolsFromModule{yyDollar[1].SymbolList, yyDollar[3].GlobalModuleReference}
+			yyVAL.Imports = []SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}}}
 		}
 	case 37:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:424
+//line asn1.y:422
 		{
-			yyVAL.GlobalModuleReference = GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}
+			yyVAL.Imports = append([]SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, nil}}}, yyDollar[2].Imports...)
 		}
 	case 38:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:427
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line asn1.y:423
 		{
-			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
+			yyVAL.Imports = append([]SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}}}, yyDollar[3].Imports...)
 		}
 	case 39:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:428
+//line asn1.y:426
 		{
-			yyVAL.Value = yyDollar[1].DefinedValue
+			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 40:
-		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:429
+		yyDollar = yyS[yypt-1 : yypt+1]
+//line asn1.y:427
 		{
-			yyVAL.Value = nil
+			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:432
+//line asn1.y:430
 		{
 			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:433
+//line asn1.y:431
 		{
 			yyVAL.SymbolList = append(yyDollar[1].SymbolList, yyDollar[3].Symbol)
 		}
 	case 44:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:440
+//line asn1.y:438
 		{
 			yyVAL.Symbol = TypeReference(yyDollar[1].TypeReference)
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:441
+//line asn1.y:439
 		{
 			yyVAL.Symbol = ModuleReference(yyDollar[1].name)
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:442
+//line asn1.y:440
 		{
 			yyVAL.Symbol = ValueReference(yyDollar[1].ValueReference)
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:448
+//line asn1.y:446
 		{
 			yyVAL.AssignmentList = AssignmentList{yyDollar[1].Assignment}
 		}
 	case 48:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:449
+//line asn1.y:447
 		{
 			yyVAL.AssignmentList = append(yyDollar[1].AssignmentList, yyDollar[2].Assignment)
 		}
 	case 51:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:465
+//line asn1.y:463
 		{
 			yyVAL.Type = yyDollar[1].TypeReference
 		}
 	case 52:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:473
+//line asn1.y:471
 		{
 			yyVAL.DefinedValue = DefinedValue{ModuleReference(yyDollar[1].name), yyDollar[3].ValueReference}
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:474
+//line asn1.y:472
 		{
 			yyVAL.DefinedValue = DefinedValue{ValueName: yyDollar[1].ValueReference}
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:489
+//line asn1.y:487
 		{
 			yyVAL.Assignment = TypeAssignment{yyDollar[1].TypeReference, yyDollar[3].Type}
 		}
 	case 55:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:492
+//line asn1.y:490
 		{
 			yyVAL.Assignment = ValueAssignment{yyDollar[1].ValueReference, yyDollar[2].Type, yyDollar[4].Value}
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:539
+//line asn1.y:537
 		{
 			yyVAL.NamedType = NamedType{Identifier: Identifier(yyDollar[1].name), Type: yyDollar[2].Type}
 		}
 	case 81:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:562
+//line asn1.y:560
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:575
+//line asn1.y:573
 		{
 			yyVAL.Type = BooleanType{}
 		}
 	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:578
+//line asn1.y:576
 		{
 			yyVAL.Value = Boolean(true)
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:579
+//line asn1.y:577
 		{
 			yyVAL.Value = Boolean(false)
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:584
+//line asn1.y:582
 		{
 			yyVAL.Type = IntegerType{}
 		}
 	case 87:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:585
+//line asn1.y:583
 		{
 			yyVAL.Type = IntegerType{yyDollar[3].NamedNumberList}
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:588
+//line asn1.y:586
 		{
 			yyVAL.NamedNumberList = []NamedNumber{yyDollar[1].NamedNumber}
 		}
 	case 89:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:589
+//line asn1.y:587
 		{
 			yyVAL.NamedNumberList = append(yyDollar[1].NamedNumberList, yyDollar[3].NamedNumber)
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:592
+//line asn1.y:590
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].Number}
 		}
 	case 91:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:593
+//line asn1.y:591
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].DefinedValue}
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:596
+//line asn1.y:594
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 93:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:597
+//line asn1.y:595
 		{
 			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:602
+//line asn1.y:600
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:603
+//line asn1.y:601
 		{
 			yyVAL.Value = IdentifiedIntegerValue{Name: yyDollar[1].name}
 		}
 	case 96:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:608
+//line asn1.y:606
 		{
 			yyVAL.Type = yyDollar[3].EnumeratedType
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:611
+//line asn1.y:609
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 98:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:612
+//line asn1.y:610
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 99:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:613
+//line asn1.y:611
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
 	case 102:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:621
+//line asn1.y:619
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:622
+//line asn1.y:620
 		{
 			yyVAL.Enumeration = append([]EnumerationItem{yyDollar[1].EnumerationItem}, yyDollar[3].Enumeration...)
 		}
 	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:625
+//line asn1.y:623
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
 	case 105:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:626
+//line asn1.y:624
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:631
+//line asn1.y:629
 		{
 			yyVAL.Type = RealType{}
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:640
+//line asn1.y:638
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
 	case 110:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:641
+//line asn1.y:639
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:645
+//line asn1.y:643
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
 	case 112:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:646
+//line asn1.y:644
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
 	case 113:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:650
+//line asn1.y:648
 		{
 			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, 0)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:651
+//line asn1.y:649
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:652
+//line asn1.y:650
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:653
+//line asn1.y:651
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:657
+//line asn1.y:655
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
 	case 119:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:662
+//line asn1.y:660
 		{
 			yyVAL.Type = BitStringType{}
 		}
 	case 120:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:663
+//line asn1.y:661
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
 	case 121:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:666
+//line asn1.y:664
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
 	case 122:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:667
+//line asn1.y:665
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
 	case 123:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:670
+//line asn1.y:668
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
 	case 124:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:671
+//line asn1.y:669
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
 	case 125:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:676
+//line asn1.y:674
 		{
 			yyVAL.Type = OctetStringType{}
 		}
 	case 126:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:681
+//line asn1.y:679
 		{
 			yyVAL.Type = NullType{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:686
+//line asn1.y:684
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 128:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:687
+//line asn1.y:685
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 129:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:688
+//line asn1.y:686
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
 	case 134:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:700
+//line asn1.y:698
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
 	case 135:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:701
+//line asn1.y:699
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions}
 		}
 	case 136:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line asn1.y:702
+//line asn1.y:700
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions, TrailingComponents: yyDollar[7].ComponentTypeList}
 		}
 	case 139:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:714
+//line asn1.y:712
 		{
 			yyVAL.ExtensionAdditions = yyDollar[2].ExtensionAdditions
 		}
 	case 140:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:715
+//line asn1.y:713
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
 	case 141:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:718
+//line asn1.y:716
 		{
 			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
 		}
 	case 142:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:719
+//line asn1.y:717
 		{
 			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
 		}
 	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:722
+//line asn1.y:720
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
 	case 144:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:723
+//line asn1.y:721
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
 	case 148:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:732
+//line asn1.y:730
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
 	case 149:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:733
+//line asn1.y:731
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
 	case 150:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:736
+//line asn1.y:734
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
 	case 151:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:737
+//line asn1.y:735
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
 	case 152:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:738
+//line asn1.y:736
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:739
+//line asn1.y:737
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
 	case 154:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:744
+//line asn1.y:742
 		{
 			yyVAL.Type = SetType{}
 		}
 	case 155:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:745
+//line asn1.y:743
 		{
 			yyVAL.Type = SetType{}
 		}
 	case 156:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:746
+//line asn1.y:744
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
 	case 157:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:751
+//line asn1.y:749
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
 	case 158:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:752
+//line asn1.y:750
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
 	case 159:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:756
+//line asn1.y:754
 		{
 			yyVAL.Type = AnyType{}
 		}
 	case 160:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:757
+//line asn1.y:755
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
 	case 161:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:762
+//line asn1.y:760
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
 	case 162:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:765
+//line asn1.y:763
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[4].ExtensionAdditionAlternativesList}
 		}
 	case 163:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:766
+//line asn1.y:764
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
 	case 164:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:767
+//line asn1.y:765
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
 		}
 	case 166:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:774
+//line asn1.y:772
 		{
 			yyVAL.ExtensionAdditionAlternativesList = yyDollar[2].ExtensionAdditionAlternativesList
 		}
 	case 167:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:775
+//line asn1.y:773
 		{
 			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
 		}
 	case 168:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:778
+//line asn1.y:776
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
 		}
 	case 169:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:779
+//line asn1.y:777
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
 	case 170:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:783
+//line asn1.y:781
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
 	case 172:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:790
+//line asn1.y:788
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
 	case 173:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:791
+//line asn1.y:789
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
 	case 174:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:796
+//line asn1.y:794
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
 	case 175:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:797
+//line asn1.y:795
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
 	case 176:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:798
+//line asn1.y:796
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
 	case 177:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:801
+//line asn1.y:799
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
 	case 178:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:804
+//line asn1.y:802
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
 	case 179:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:805
+//line asn1.y:803
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 180:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:808
+//line asn1.y:806
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
 	case 181:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:809
+//line asn1.y:807
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
 	case 182:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:810
+//line asn1.y:808
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
 	case 183:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:811
+//line asn1.y:809
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
 	case 184:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:816
+//line asn1.y:814
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
 	case 185:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:817
+//line asn1.y:815
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
 	case 186:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:822
+//line asn1.y:820
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
 	case 187:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:827
+//line asn1.y:825
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
 	case 188:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:828
+//line asn1.y:826
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:831
+//line asn1.y:829
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
 	case 190:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:832
+//line asn1.y:830
 		{
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
 		}
 	case 191:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:835
+//line asn1.y:833
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
 	case 194:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:838
+//line asn1.y:836
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
 	case 195:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:841
+//line asn1.y:839
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
 	case 196:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:842
+//line asn1.y:840
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
 	case 197:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:846
+//line asn1.y:844
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
 	case 201:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:858
+//line asn1.y:856
 		{
 			yyVAL.Type = RestrictedStringType{LexType: BMPString}
 		}
 	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:859
+//line asn1.y:857
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
 	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:860
+//line asn1.y:858
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
 	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:861
+//line asn1.y:859
 		{
 			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
 	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:862
+//line asn1.y:860
 		{
 			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
 	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:863
+//line asn1.y:861
 		{
 			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
 	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:864
+//line asn1.y:862
 		{
 			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
 	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:865
+//line asn1.y:863
 		{
 			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
 	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:866
+//line asn1.y:864
 		{
 			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
 	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:867
+//line asn1.y:865
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
 	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:868
+//line asn1.y:866
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
 	case 212:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:869
+//line asn1.y:867
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
 	case 213:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:870
+//line asn1.y:868
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
 	case 214:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:875
+//line asn1.y:873
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
 	case 215:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:880
+//line asn1.y:878
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
 	case 216:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:881
+//line asn1.y:879
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
 	case 217:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:886
+//line asn1.y:884
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
 	case 219:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:892
+//line asn1.y:890
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
 	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:893
+//line asn1.y:891
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:894
+//line asn1.y:892
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
 	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:895
+//line asn1.y:893
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:896
+//line asn1.y:894
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 224:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:897
+//line asn1.y:895
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 225:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:898
+//line asn1.y:896
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 226:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:899
+//line asn1.y:897
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 227:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:904
+//line asn1.y:902
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
 	case 228:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:907
+//line asn1.y:905
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
 	case 231:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:917
+//line asn1.y:915
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
 	case 232:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:918
+//line asn1.y:916
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
 	case 233:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:921
+//line asn1.y:919
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
 	case 235:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:927
+//line asn1.y:925
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
 	case 236:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:928
+//line asn1.y:926
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
 	case 237:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:931
+//line asn1.y:929
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
 	case 238:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:932
+//line asn1.y:930
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
 	case 240:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:938
+//line asn1.y:936
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
 	case 241:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:939
+//line asn1.y:937
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
 	case 243:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:945
+//line asn1.y:943
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
 	case 244:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:946
+//line asn1.y:944
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
 	case 246:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:952
+//line asn1.y:950
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
 	case 251:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:961
+//line asn1.y:959
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
 	case 252:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:963
+//line asn1.y:961
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
 	case 258:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:978
+//line asn1.y:976
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
 	case 259:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:983
+//line asn1.y:981
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
 	case 260:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:986
+//line asn1.y:984
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
 	case 261:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:987
+//line asn1.y:985
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
 	case 262:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:990
+//line asn1.y:988
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
 	case 263:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:991
+//line asn1.y:989
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
 	case 265:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:995
+//line asn1.y:993
 		{
 			yyVAL.Value = nil
 		}
 	case 267:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:999
+//line asn1.y:997
 		{
 			yyVAL.Value = nil
 		}
 	case 268:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1004
+//line asn1.y:1002
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
 	case 269:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1009
+//line asn1.y:1007
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
 	case 270:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1014
+//line asn1.y:1012
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
 	case 271:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1015
+//line asn1.y:1013
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From d98fb8f7e36a503055f1c2c49ba2ad323fe16bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:03 +0000
Subject: [PATCH 16/29] fix: do not use error messages as format strings, name
 the file which can not be written

---
 cmd/asn1go/main.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/asn1go/main.go b/cmd/asn1go/main.go
index b86b2da..eeefa6a 100644
--- a/cmd/asn1go/main.go
+++ b/cmd/asn1go/main.go
@@ -62,7 +62,7 @@ func openChannels(inputName, outputName string) (input, output *os.File) {
 	if len(outputName) != 0 {
 		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
 		if err != nil {
-			failWithError("File %v can not be written: %v", inputName, err.Error())
+			failWithError("File %v can not be written: %v", outputName, err.Error())
 		}
 		if err := output.Truncate(0); err != nil {
 			failWithError("Failed to truncate file: %v", err.Error())
@@ -77,7 +77,7 @@ func main() {
 
 	module, err := asn1go.ParseStream(input)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
 	params := asn1go.GenParams{
 		Package:     flags.packageName,
@@ -86,7 +86,7 @@ func main() {
 	gen := asn1go.NewCodeGenerator(params)
 	err = gen.Generate(*module, output)
 	if err != nil {
-		failWithError(err.Error())
+		failWithError("%v", err.Error())
 	}
 
 	output.Close()
-- 
2.43.0


From bd71b82dd182499fc737a935aa68897bc440a965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 17/29] fix: fail if output of ws2bin can not be written

---
 cmd/ws2bin/main.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmd/ws2bin/main.go b/cmd/ws2bin/main.go
index 87664b3..eaae87d 100644
--- a/cmd/ws2bin/main.go
+++ b/cmd/ws2bin/main.go
@@ -14,7 +14,10 @@ func main() {
 		os.Exit(1)
 	}
 	outputBytes := utils.ParseWiresharkHex(string(inputBytes))
-	os.Stdout.Write(outputBytes)
+	if _, err := os.Stdout.Write(outputBytes); err != nil {
+		fmt.Fprintf(os.Stderr, "Failed to write: %v", err.Error())
+		os.Exit(1)
+	}
 	os.Stdout.Sync()
 	os.Stdout.Close()
 }
-- 
2.43.0


From b319557ff2af5bae1c411b1b8405133b51ad1c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:07 +0000
Subject: [PATCH 18/29] fix: do not accept negative numbers as bytes of hex
 dump

---
 internal/utils/dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/utils/dump.go b/internal/utils/dump.go
index aaaab7e..959f6ef 100644
--- a/internal/utils/dump.go
+++ b/internal/utils/dump.go
@@ -18,7 +18,7 @@ func ParseWiresharkHex(str string) []byte {
 			if len(byteRepr) == 0 {
 				continue
 			}
-			x, err := strconv.ParseInt(byteRepr, 16, 9)
+			x, err := strconv.ParseUint(byteRepr, 16, 8)
 			if err != nil {
 				panic(err)
 			}
-- 
2.43.0


From c8bf34fe877a4c1a35c712598d7a1f1a78382083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 19/29] fix: keep components of extension addition groups

Components of the group were parsed, but silently dropped.
---
 asn1.y |   5 +-
 y.go   | 461 +++++++++++++++++++++++++++++----------------------------
 2 files changed, 236 insertions(+), 230 deletions(-)

diff --git a/asn1.y b/asn1.y
index 45a02c7..7d9cc01 100644
--- a/asn1.y
+++ b/asn1.y
@@ -309,6 +309,7 @@ import (
 %type <ExtensionAdditions> ExtensionAdditions
 %type <ExtensionAdditions> ExtensionAdditionList
 %type <ExtensionAdditions> ExtensionAddition
+%type <ExtensionAdditions> ExtensionAdditionGroup
 %type <NamedNumber> NamedNumber
 %type <NamedNumberList> NamedNumberList
 %type <EnumeratedType> Enumerations
@@ -718,9 +719,11 @@ ExtensionAdditionList : ExtensionAddition  { $$ = append([]ExtensionAddition{},
 ;
 
 ExtensionAddition : ComponentType  { $$ = []ExtensionAddition{$1} }
-                  | ExtensionAdditionGroup  { $$ = nil }
+                  | ExtensionAdditionGroup
 
+// Grouping is not represented in AST, components of the group are part of the addition list.
 ExtensionAdditionGroup : LEFT_VERSION_BRACKETS VersionNumber ComponentTypeList RIGHT_VERSION_BRACKETS
+    { $$ = make([]ExtensionAddition, 0); for _, component := range $3 { $$ = append($$, component) } }
 ;
 
 VersionNumber : /*empty*/
diff --git a/y.go b/y.go
index 2808a93..a884724 100644
--- a/y.go
+++ b/y.go
@@ -333,7 +333,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1069
+//line asn1.y:1072
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -421,9 +421,9 @@ var yyAct = [...]int16{
 	47, 48, 382, 18, 380, 383, 381, 385, 55, 48,
 	19, 48, 4, 323, 162, 416, 162, 399, 398, 378,
 	343, 342, 341, 392, 391, 339, 394, 268, 400, 265,
-	411, 404, 353, 55, 19, 166, 425, 412, 379, 379,
-	407, 414, 415, 403, 39, 34, 1, 209, 406, 207,
-	420, 421, 205, 163, 204, 210, 409, 388, 351, 185,
+	411, 404, 353, 55, 19, 166, 425, 407, 379, 379,
+	39, 414, 415, 403, 34, 1, 207, 209, 406, 420,
+	205, 421, 204, 163, 210, 412, 409, 388, 351, 185,
 	199, 119, 198, 167, 71, 411, 428, 429, 151, 430,
 	241, 43, 56, 362, 37, 277, 93, 68, 76, 85,
 	147, 98, 177, 92, 109, 99, 235, 101, 83, 137,
@@ -535,28 +535,28 @@ var yyPgo = [...]int16{
 	451, 450, 0, 3, 450, 33, 448, 447, 446, 440,
 	439, 438, 437, 435, 17, 434, 432, 35, 177, 129,
 	431, 430, 428, 424, 422, 420, 420, 6, 16, 418,
-	417, 416, 2, 23, 415, 414, 5, 412, 410, 409,
-	406, 405, 404, 12, 24, 19, 400, 397, 396, 396,
+	417, 416, 2, 415, 23, 414, 412, 5, 410, 409,
+	406, 405, 404, 400, 12, 24, 19, 397, 396, 396,
 	389, 387, 385, 382, 381, 380, 4, 379, 378, 377,
 	375, 373,
 }
 
 var yyR1 = [...]uint8{
-	0, 120, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 121, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 121, 121, 121, 122, 122,
+	7, 6, 6, 44, 44, 122, 122, 122, 123, 123,
 	95, 95, 96, 96, 97, 102, 102, 102, 102, 101,
 	101, 98, 98, 99, 100, 100, 100, 43, 43, 40,
 	40, 76, 15, 15, 42, 41, 20, 20, 20, 19,
 	19, 19, 19, 19, 19, 19, 19, 19, 19, 19,
 	19, 19, 19, 19, 19, 77, 77, 24, 31, 30,
-	30, 30, 30, 18, 35, 35, 17, 17, 114, 114,
-	113, 113, 38, 38, 32, 32, 22, 115, 115, 115,
-	117, 118, 116, 116, 119, 119, 33, 34, 34, 36,
+	30, 30, 30, 18, 35, 35, 17, 17, 115, 115,
+	114, 114, 38, 38, 32, 32, 22, 116, 116, 116,
+	118, 119, 117, 117, 120, 120, 33, 34, 34, 36,
 	36, 37, 37, 1, 1, 1, 1, 2, 2, 92,
 	92, 93, 93, 94, 94, 91, 21, 78, 78, 78,
-	124, 124, 125, 125, 85, 85, 85, 84, 126, 110,
-	110, 111, 111, 112, 112, 127, 128, 128, 83, 83,
+	125, 125, 126, 126, 85, 85, 85, 84, 127, 110,
+	110, 111, 111, 112, 112, 113, 128, 128, 83, 83,
 	82, 82, 82, 82, 80, 80, 80, 81, 81, 23,
 	23, 103, 104, 104, 104, 106, 108, 108, 109, 109,
 	107, 129, 105, 105, 86, 86, 86, 87, 88, 88,
@@ -570,7 +570,7 @@ var yyR1 = [...]uint8{
 	131, 61, 61, 65, 65, 65, 65, 65, 63, 64,
 	69, 69, 70, 70, 71, 71, 72, 72, 68, 66,
 	67, 67, 132, 133, 133, 134, 135, 136, 136, 137,
-	138, 139, 139, 140, 140, 140, 140, 123, 123, 141,
+	138, 139, 139, 140, 140, 140, 140, 124, 124, 141,
 	141, 141,
 }
 
@@ -608,10 +608,10 @@ var yyR2 = [...]int8{
 }
 
 var yyChk = [...]int16{
-	-1000, -120, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -121, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
-	-10, 67, 33, -44, -121, 68, 52, -95, 116, -122,
+	-10, 67, 33, -44, -122, 68, 52, -95, 116, -123,
 	55, -98, -99, -100, -4, -3, -45, 6, 7, -43,
 	-40, -42, -41, -4, -45, 6, -96, -97, -98, 42,
 	42, 30, -40, 15, -20, -19, -77, -46, -92, -18,
@@ -628,29 +628,29 @@ var yyChk = [...]int16{
 	69, -49, -50, -51, -52, -54, -55, 55, -57, -56,
 	-59, -58, -61, -62, -65, 32, -63, -64, -68, -66,
 	-67, -31, -69, -20, 126, -71, 65, 26, -104, -105,
-	-124, -24, 17, -5, -115, -117, -116, -119, -113, -5,
-	-114, -113, -5, 27, -124, -85, -83, -82, -24, 103,
-	-20, -24, 93, 93, -48, 27, -124, -85, -20, -24,
+	-125, -24, 17, -5, -116, -118, -117, -120, -114, -5,
+	-115, -114, -5, 27, -125, -85, -83, -82, -24, 103,
+	-20, -24, 93, 93, -48, 27, -125, -85, -20, -24,
 	93, 93, 83, -20, -20, -88, -39, -15, 8, -3,
 	-45, -101, -97, -29, -15, -3, -45, -28, -15, -27,
 	-14, -25, -26, 7, -5, 8, 31, 25, 8, -1,
-	-123, 45, 30, -60, 60, -130, 44, 94, -131, 46,
+	-124, 45, 30, -60, 60, -130, 44, 94, -131, 46,
 	53, -60, -54, 16, 99, 103, 28, -93, -94, -5,
-	27, 30, -108, 30, -123, -20, 27, 30, 30, 32,
-	27, 30, -125, 30, 27, 30, 97, 115, 93, -20,
-	-24, -20, -24, -125, 27, -20, -24, -20, -24, -5,
+	27, 30, -108, 30, -124, -20, 27, 30, 30, 32,
+	27, 30, -126, 30, 27, 30, 97, 115, 93, -20,
+	-24, -20, -24, -126, 27, -20, -24, -20, -24, -5,
 	35, 31, -97, 27, -28, -15, -28, 32, 8, -2,
 	8, 36, 33, -141, -38, -15, -20, 8, 36, 17,
 	-61, -57, -59, 33, -70, -72, 28, -31, 61, -132,
-	-48, -133, -134, -135, 26, 27, 30, 32, -124, -24,
-	-125, -109, -107, -24, 17, -116, -38, -15, -113, 27,
-	17, -124, -82, -31, -20, 27, -45, 27, -25, -15,
+	-48, -133, -134, -135, 26, 27, 30, 32, -125, -24,
+	-126, -109, -107, -24, 17, -117, -38, -15, -114, 27,
+	17, -125, -82, -31, -20, 27, -45, 27, -25, -15,
 	25, 8, 37, 8, 30, -72, -136, 17, -137, -5,
-	-94, -39, -15, -108, 30, -123, 33, 33, -110, 30,
+	-94, -39, -15, -108, 30, -124, 33, 33, -110, 30,
 	33, -2, -31, -53, -54, 27, 30, 30, -138, -139,
-	-48, 33, 33, -125, -107, 30, -125, -126, 30, -111,
-	-112, -82, -127, 18, -136, -136, -140, 113, 47, 97,
-	-118, -116, 30, 17, 30, -128, 8, 27, -83, -112,
+	-48, 33, 33, -126, -107, 30, -126, -127, 30, -111,
+	-112, -82, -113, 18, -136, -136, -140, 113, 47, 97,
+	-119, -117, 30, 17, 30, -128, 8, 27, -83, -112,
 	-83, 37, 30, 19,
 }
 
@@ -1064,1182 +1064,1185 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line asn1.y:340
+//line asn1.y:341
 		{
 			yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: yyDollar[1].ModuleIdentifier, TagDefault: yyDollar[3].TagDefault, ExtensibilityImplied: yyDollar[4].ExtensionDefault, ModuleBody: yyDollar[7].ModuleBody}
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:343
+//line asn1.y:344
 		{
 			yyVAL.TypeReference = TypeReference(yyDollar[1].name)
 		}
 	case 4:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:348
+//line asn1.y:349
 		{
 			yyVAL.ValueReference = ValueReference(yyDollar[1].name)
 		}
 	case 7:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:359
+//line asn1.y:360
 		{
 			yyVAL.ModuleIdentifier = ModuleIdentifier{Reference: yyDollar[1].name, DefinitiveIdentifier: yyDollar[2].DefinitiveIdentifier}
 		}
 	case 8:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:362
+//line asn1.y:363
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(yyDollar[2].DefinitiveObjIdComponentList)
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:363
+//line asn1.y:364
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(make([]DefinitiveObjIdComponent, 0))
 		}
 	case 10:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:366
+//line asn1.y:367
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent)
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:367
+//line asn1.y:368
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent), yyDollar[2].DefinitiveObjIdComponentList...)
 		}
 	case 12:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:370
+//line asn1.y:371
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name}
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:371
+//line asn1.y:372
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Id: yyDollar[1].Number.IntValue()}
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:372
+//line asn1.y:373
 		{
 			yyVAL.DefinitiveObjIdComponent = yyDollar[1].DefinitiveObjIdComponent
 		}
 	case 15:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:375
+//line asn1.y:376
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 16:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:379
+//line asn1.y:380
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name, Id: yyDollar[3].Number.IntValue()}
 		}
 	case 17:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:382
+//line asn1.y:383
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 18:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:383
+//line asn1.y:384
 		{
 			yyVAL.TagDefault = TAGS_IMPLICIT
 		}
 	case 19:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:384
+//line asn1.y:385
 		{
 			yyVAL.TagDefault = TAGS_AUTOMATIC
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:385
+//line asn1.y:386
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 21:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:388
+//line asn1.y:389
 		{
 			yyVAL.ExtensionDefault = true
 		}
 	case 22:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:389
+//line asn1.y:390
 		{
 			yyVAL.ExtensionDefault = false
 		}
 	case 23:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:392
+//line asn1.y:393
 		{
 			yyVAL.ModuleBody = ModuleBody{Imports: yyDollar[2].Imports, AssignmentList: yyDollar[3].AssignmentList}
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:393
+//line asn1.y:394
 		{
 			yyVAL.ModuleBody = ModuleBody{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:406
+//line asn1.y:407
 		{
 			yyVAL.Imports = yyDollar[2].Imports
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:407
+//line asn1.y:408
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:410
+//line asn1.y:411
 		{
 			yyVAL.Imports = yyDollar[1].Imports
 		}
 	case 33:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:411
+//line asn1.y:412
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 34:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:417
+//line asn1.y:418
 		{
 			yyVAL.Imports = yyDollar[3].Imports
 			yyVAL.Imports[0].SymbolList = yyDollar[1].SymbolList
 		}
 	case 35:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:420
+//line asn1.y:421
 		{
 			yyVAL.Imports = []SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, nil}}}
 		}
 	case 36:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:421
+//line asn1.y:422
 		{
 			yyVAL.Imports = []SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}}}
 		}
 	case 37:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:422
+//line asn1.y:423
 		{
 			yyVAL.Imports = append([]SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, nil}}}, yyDollar[2].Imports...)
 		}
 	case 38:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:423
+//line asn1.y:424
 		{
 			yyVAL.Imports = append([]SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}}}, yyDollar[3].Imports...)
 		}
 	case 39:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:426
+//line asn1.y:427
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:427
+//line asn1.y:428
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:430
+//line asn1.y:431
 		{
 			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:431
+//line asn1.y:432
 		{
 			yyVAL.SymbolList = append(yyDollar[1].SymbolList, yyDollar[3].Symbol)
 		}
 	case 44:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:438
+//line asn1.y:439
 		{
 			yyVAL.Symbol = TypeReference(yyDollar[1].TypeReference)
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:439
+//line asn1.y:440
 		{
 			yyVAL.Symbol = ModuleReference(yyDollar[1].name)
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:440
+//line asn1.y:441
 		{
 			yyVAL.Symbol = ValueReference(yyDollar[1].ValueReference)
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:446
+//line asn1.y:447
 		{
 			yyVAL.AssignmentList = AssignmentList{yyDollar[1].Assignment}
 		}
 	case 48:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:447
+//line asn1.y:448
 		{
 			yyVAL.AssignmentList = append(yyDollar[1].AssignmentList, yyDollar[2].Assignment)
 		}
 	case 51:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:463
+//line asn1.y:464
 		{
 			yyVAL.Type = yyDollar[1].TypeReference
 		}
 	case 52:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:471
+//line asn1.y:472
 		{
 			yyVAL.DefinedValue = DefinedValue{ModuleReference(yyDollar[1].name), yyDollar[3].ValueReference}
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:472
+//line asn1.y:473
 		{
 			yyVAL.DefinedValue = DefinedValue{ValueName: yyDollar[1].ValueReference}
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:487
+//line asn1.y:488
 		{
 			yyVAL.Assignment = TypeAssignment{yyDollar[1].TypeReference, yyDollar[3].Type}
 		}
 	case 55:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:490
+//line asn1.y:491
 		{
 			yyVAL.Assignment = ValueAssignment{yyDollar[1].ValueReference, yyDollar[2].Type, yyDollar[4].Value}
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:537
+//line asn1.y:538
 		{
 			yyVAL.NamedType = NamedType{Identifier: Identifier(yyDollar[1].name), Type: yyDollar[2].Type}
 		}
 	case 81:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:560
+//line asn1.y:561
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:573
+//line asn1.y:574
 		{
 			yyVAL.Type = BooleanType{}
 		}
 	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:576
+//line asn1.y:577
 		{
 			yyVAL.Value = Boolean(true)
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:577
+//line asn1.y:578
 		{
 			yyVAL.Value = Boolean(false)
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:582
+//line asn1.y:583
 		{
 			yyVAL.Type = IntegerType{}
 		}
 	case 87:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:583
+//line asn1.y:584
 		{
 			yyVAL.Type = IntegerType{yyDollar[3].NamedNumberList}
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:586
+//line asn1.y:587
 		{
 			yyVAL.NamedNumberList = []NamedNumber{yyDollar[1].NamedNumber}
 		}
 	case 89:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:587
+//line asn1.y:588
 		{
 			yyVAL.NamedNumberList = append(yyDollar[1].NamedNumberList, yyDollar[3].NamedNumber)
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:590
+//line asn1.y:591
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].Number}
 		}
 	case 91:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:591
+//line asn1.y:592
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].DefinedValue}
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:594
+//line asn1.y:595
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 93:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:595
+//line asn1.y:596
 		{
 			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:600
+//line asn1.y:601
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:601
+//line asn1.y:602
 		{
 			yyVAL.Value = IdentifiedIntegerValue{Name: yyDollar[1].name}
 		}
 	case 96:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:606
+//line asn1.y:607
 		{
 			yyVAL.Type = yyDollar[3].EnumeratedType
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:609
+//line asn1.y:610
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 98:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:610
+//line asn1.y:611
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 99:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:611
+//line asn1.y:612
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
 	case 102:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:619
+//line asn1.y:620
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:620
+//line asn1.y:621
 		{
 			yyVAL.Enumeration = append([]EnumerationItem{yyDollar[1].EnumerationItem}, yyDollar[3].Enumeration...)
 		}
 	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:623
+//line asn1.y:624
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
 	case 105:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:624
+//line asn1.y:625
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:629
+//line asn1.y:630
 		{
 			yyVAL.Type = RealType{}
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:638
+//line asn1.y:639
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
 	case 110:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:639
+//line asn1.y:640
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:643
+//line asn1.y:644
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
 	case 112:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:644
+//line asn1.y:645
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
 	case 113:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:648
+//line asn1.y:649
 		{
 			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, 0)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:649
+//line asn1.y:650
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:650
+//line asn1.y:651
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:651
+//line asn1.y:652
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:655
+//line asn1.y:656
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
 	case 119:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:660
+//line asn1.y:661
 		{
 			yyVAL.Type = BitStringType{}
 		}
 	case 120:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:661
+//line asn1.y:662
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
 	case 121:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:664
+//line asn1.y:665
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
 	case 122:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:665
+//line asn1.y:666
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
 	case 123:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:668
+//line asn1.y:669
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
 	case 124:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:669
+//line asn1.y:670
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
 	case 125:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:674
+//line asn1.y:675
 		{
 			yyVAL.Type = OctetStringType{}
 		}
 	case 126:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:679
+//line asn1.y:680
 		{
 			yyVAL.Type = NullType{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:684
+//line asn1.y:685
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 128:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:685
+//line asn1.y:686
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 129:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:686
+//line asn1.y:687
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
 	case 134:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:698
+//line asn1.y:699
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
 	case 135:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:699
+//line asn1.y:700
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions}
 		}
 	case 136:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line asn1.y:700
+//line asn1.y:701
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions, TrailingComponents: yyDollar[7].ComponentTypeList}
 		}
 	case 139:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:712
+//line asn1.y:713
 		{
 			yyVAL.ExtensionAdditions = yyDollar[2].ExtensionAdditions
 		}
 	case 140:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:713
+//line asn1.y:714
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
 	case 141:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:716
+//line asn1.y:717
 		{
 			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
 		}
 	case 142:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:717
+//line asn1.y:718
 		{
 			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
 		}
 	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:720
+//line asn1.y:721
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
-	case 144:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:721
+	case 145:
+		yyDollar = yyS[yypt-4 : yypt+1]
+//line asn1.y:726
 		{
-			yyVAL.ExtensionAdditions = nil
+			yyVAL.ExtensionAdditions = make([]ExtensionAddition, 0)
+			for _, component := range yyDollar[3].ComponentTypeList {
+				yyVAL.ExtensionAdditions = append(yyVAL.ExtensionAdditions, component)
+			}
 		}
 	case 148:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:730
+//line asn1.y:733
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
 	case 149:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:731
+//line asn1.y:734
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
 	case 150:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:734
+//line asn1.y:737
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
 	case 151:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:735
+//line asn1.y:738
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
 	case 152:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:736
+//line asn1.y:739
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:737
+//line asn1.y:740
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
 	case 154:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:742
+//line asn1.y:745
 		{
 			yyVAL.Type = SetType{}
 		}
 	case 155:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:743
+//line asn1.y:746
 		{
 			yyVAL.Type = SetType{}
 		}
 	case 156:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:744
+//line asn1.y:747
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
 	case 157:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:749
+//line asn1.y:752
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
 	case 158:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:750
+//line asn1.y:753
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
 	case 159:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:754
+//line asn1.y:757
 		{
 			yyVAL.Type = AnyType{}
 		}
 	case 160:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:755
+//line asn1.y:758
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
 	case 161:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:760
+//line asn1.y:763
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
 	case 162:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:763
+//line asn1.y:766
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[4].ExtensionAdditionAlternativesList}
 		}
 	case 163:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:764
+//line asn1.y:767
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
 	case 164:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:765
+//line asn1.y:768
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
 		}
 	case 166:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:772
+//line asn1.y:775
 		{
 			yyVAL.ExtensionAdditionAlternativesList = yyDollar[2].ExtensionAdditionAlternativesList
 		}
 	case 167:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:773
+//line asn1.y:776
 		{
 			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
 		}
 	case 168:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:776
+//line asn1.y:779
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
 		}
 	case 169:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:777
+//line asn1.y:780
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
 	case 170:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:781
+//line asn1.y:784
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
 	case 172:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:788
+//line asn1.y:791
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
 	case 173:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:789
+//line asn1.y:792
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
 	case 174:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:794
+//line asn1.y:797
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
 	case 175:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:795
+//line asn1.y:798
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
 	case 176:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:796
+//line asn1.y:799
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
 	case 177:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:799
+//line asn1.y:802
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
 	case 178:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:802
+//line asn1.y:805
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
 	case 179:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:803
+//line asn1.y:806
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 180:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:806
+//line asn1.y:809
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
 	case 181:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:807
+//line asn1.y:810
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
 	case 182:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:808
+//line asn1.y:811
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
 	case 183:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:809
+//line asn1.y:812
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
 	case 184:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:814
+//line asn1.y:817
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
 	case 185:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:815
+//line asn1.y:818
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
 	case 186:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:820
+//line asn1.y:823
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
 	case 187:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:825
+//line asn1.y:828
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
 	case 188:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:826
+//line asn1.y:829
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:829
+//line asn1.y:832
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
 	case 190:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:830
+//line asn1.y:833
 		{
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
 		}
 	case 191:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:833
+//line asn1.y:836
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
 	case 194:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:836
+//line asn1.y:839
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
 	case 195:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:839
+//line asn1.y:842
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
 	case 196:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:840
+//line asn1.y:843
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
 	case 197:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:844
+//line asn1.y:847
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
 	case 201:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:856
+//line asn1.y:859
 		{
 			yyVAL.Type = RestrictedStringType{LexType: BMPString}
 		}
 	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:857
+//line asn1.y:860
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
 	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:858
+//line asn1.y:861
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
 	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:859
+//line asn1.y:862
 		{
 			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
 	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:860
+//line asn1.y:863
 		{
 			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
 	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:861
+//line asn1.y:864
 		{
 			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
 	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:862
+//line asn1.y:865
 		{
 			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
 	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:863
+//line asn1.y:866
 		{
 			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
 	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:864
+//line asn1.y:867
 		{
 			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
 	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:865
+//line asn1.y:868
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
 	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:866
+//line asn1.y:869
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
 	case 212:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:867
+//line asn1.y:870
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
 	case 213:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:868
+//line asn1.y:871
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
 	case 214:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:873
+//line asn1.y:876
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
 	case 215:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:878
+//line asn1.y:881
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
 	case 216:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:879
+//line asn1.y:882
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
 	case 217:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:884
+//line asn1.y:887
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
 	case 219:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:890
+//line asn1.y:893
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
 	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:891
+//line asn1.y:894
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:892
+//line asn1.y:895
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
 	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:893
+//line asn1.y:896
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:894
+//line asn1.y:897
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 224:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:895
+//line asn1.y:898
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 225:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:896
+//line asn1.y:899
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 226:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:897
+//line asn1.y:900
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 227:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:902
+//line asn1.y:905
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
 	case 228:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:905
+//line asn1.y:908
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
 	case 231:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:915
+//line asn1.y:918
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
 	case 232:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:916
+//line asn1.y:919
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
 	case 233:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:919
+//line asn1.y:922
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
 	case 235:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:925
+//line asn1.y:928
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
 	case 236:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:926
+//line asn1.y:929
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
 	case 237:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:929
+//line asn1.y:932
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
 	case 238:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:930
+//line asn1.y:933
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
 	case 240:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:936
+//line asn1.y:939
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
 	case 241:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:937
+//line asn1.y:940
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
 	case 243:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:943
+//line asn1.y:946
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
 	case 244:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:944
+//line asn1.y:947
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
 	case 246:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:950
+//line asn1.y:953
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
 	case 251:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:959
+//line asn1.y:962
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
 	case 252:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:961
+//line asn1.y:964
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
 	case 258:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:976
+//line asn1.y:979
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
 	case 259:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:981
+//line asn1.y:984
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
 	case 260:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:984
+//line asn1.y:987
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
 	case 261:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:985
+//line asn1.y:988
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
 	case 262:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:988
+//line asn1.y:991
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
 	case 263:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:989
+//line asn1.y:992
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
 	case 265:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:993
+//line asn1.y:996
 		{
 			yyVAL.Value = nil
 		}
 	case 267:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:997
+//line asn1.y:1000
 		{
 			yyVAL.Value = nil
 		}
 	case 268:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1002
+//line asn1.y:1005
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
 	case 269:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1007
+//line asn1.y:1010
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
 	case 270:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1012
+//line asn1.y:1015
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
 	case 271:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1013
+//line asn1.y:1016
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From f60e2e30412fefc273520d0e3320d7c0e0ddcdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 20/29] fix: take extension alternatives into account when
 choosing type for CHOICE

---
 codegen.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/codegen.go b/codegen.go
index 9758d72..5dd2fe9 100644
--- a/codegen.go
+++ b/codegen.go
@@ -360,7 +360,7 @@ func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Ex
 		ctx.requireModule("encoding/asn1")
 		return goast.NewIdent("asn1.RawValue")
 	}
-	if len(t.AlternativeTypeList) == 1 {
+	if len(t.AlternativeTypeList) == 1 && len(t.ExtensionTypes) == 0 {
 		return ctx.generateTypeBody(t.AlternativeTypeList[0].Type, isSet) // optimization for X.509 edge case
 	}
 	return &goast.InterfaceType{Methods: &goast.FieldList{}}
@@ -372,6 +372,11 @@ func (ctx *moduleContext) hasTaggedAlternatives(t ChoiceType) bool {
 			return true
 		}
 	}
+	for _, extension := range t.ExtensionTypes {
+		if f, ok := extension.(NamedType); ok && ctx.taggedChoiceTypeAlternative(f.Identifier, f.Type) {
+			return true
+		}
+	}
 	return false
 }
 
-- 
2.43.0


From 17c30d024c6e5c9bd2db89e8e343ac2ceda43ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:19 +0000
Subject: [PATCH 21/29] fix: report line of the token ending on hyphen, and not
 of the next one

---
 lexer.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lexer.go b/lexer.go
index f6d2827..98787b1 100644
--- a/lexer.go
+++ b/lexer.go
@@ -368,13 +368,13 @@ func (lex *MyLexer) consumeWord() (string, error) {
 	for {
 		r, _, err := lex.readRune()
 		if err == io.EOF || isWhitespace(r) || !isIdentifierChar(r) {
+			if err == nil {
+				lex.unreadRune()
+			}
 			label := acc.String()
 			if label[len(label)-1] == '-' {
 				return "", fmt.Errorf("token can not end on hyphen, got %v", label)
 			}
-			if err == nil {
-				lex.unreadRune()
-			}
 			return label, nil
 		}
 		if err != nil {
-- 
2.43.0


From 92acb636824ac32184b45861c485c1eefd3366e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 22/29] fix: tag CHOICE explicitly in modules with IMPLICIT
 TAGS

Tag can not replace tag of CHOICE, and encoding/asn1 does not look at the
tag of an optional RawValue unless it is explicit.
---
 codegen.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/codegen.go b/codegen.go
index 5dd2fe9..532ad98 100644
--- a/codegen.go
+++ b/codegen.go
@@ -461,6 +461,8 @@ unwrap:
 			tagType := ctx.tagDefault
 			if tt.HasTagType {
 				tagType = tt.TagType
+			} else if _, ok := ctx.resolveLeafType(tt.Type).(ChoiceType); ok && tagType == TAGS_IMPLICIT {
+				tagType = TAGS_EXPLICIT // See x.680, section 30.6: choice has no tag of its own that could be replaced
 			}
 			switch tagType {
 			case TAGS_EXPLICIT:
-- 
2.43.0


From 185b1b78116de8e60157d96700b2ee2d22d97f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:53 +0000
Subject: [PATCH 23/29] fix: report read error instead of syntax error it leads
 to

---
 lexer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lexer.go b/lexer.go
index 98787b1..e497881 100644
--- a/lexer.go
+++ b/lexer.go
@@ -429,6 +429,9 @@ func (lex *MyLexer) Error(e string) {
 	if lex.err != nil {
 		return // original cause, parser might complain about unexpected end of input after it
 	}
+	if lex.readErr != nil && lex.readErr != io.EOF {
+		e = fmt.Sprintf("Failed to read: %v", lex.readErr.Error()) // any other error is caused by incomplete input
+	}
 	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)
 }
 
-- 
2.43.0


From a0f0855e7ea56dc952a0d8c8e9d85d89d20767d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:53 +0000
Subject: [PATCH 24/29] fix: parse long lists without taking quadratic memory

---
 asn1.y |  17 +-
 y.go   | 609 +++++++++++++++++++++++++++++----------------------------
 2 files changed, 315 insertions(+), 311 deletions(-)

diff --git a/asn1.y b/asn1.y
index 7d9cc01..b3689a2 100644
--- a/asn1.y
+++ b/asn1.y
@@ -365,7 +365,7 @@ DefinitiveIdentifier : OPEN_CURLY DefinitiveObjIdComponentList CLOSE_CURLY { $$
 ;
 
 DefinitiveObjIdComponentList :  DefinitiveObjIdComponent  { $$ = append(make([]DefinitiveObjIdComponent, 0), $1) }
-                             | DefinitiveObjIdComponent DefinitiveObjIdComponentList  { $$ = append(append(make([]DefinitiveObjIdComponent, 0), $1), $2...) }
+                             | DefinitiveObjIdComponentList DefinitiveObjIdComponent  { $$ = append($1, $2) }
 ;
 
 DefinitiveObjIdComponent : NameForm  { $$ = DefinitiveObjIdComponent{Name: $1} }
@@ -408,20 +408,21 @@ Imports : IMPORTS SymbolsImported SEMICOLON  { $$ = $2 }
         | /*empty*/  { $$ = make([]SymbolsFromModule, 0) }
 ;
 
-SymbolsImported : SymbolsFromModuleList  { $$ = $1 }
+SymbolsImported : SymbolsFromModuleList
+    { $$ = $1; for i, j := 0, len($$)-1; i < j; i, j = i+1, j-1 { $$[i], $$[j] = $$[j], $$[i] } }
                 | /*empty*/  { $$ = make([]SymbolsFromModule, 0) }
 ;
 
 // Spec defines it as list of SymbolsFromModule, with AssignedIdentifier being optional part of GlobalModuleReference.
 // It is written as right recursion in order to not require parser to decide if reference that follows the module is
-// AssignedIdentifier or the first of the next symbols before looking behind that reference.
-SymbolsFromModuleList : SymbolList FROM GlobalModuleReferenceAndRest  { $$ = $3; $$[0].SymbolList = $1 }
+// AssignedIdentifier or the first of the next symbols before looking behind that reference. Its value is in reverse order.
+SymbolsFromModuleList : SymbolList FROM GlobalModuleReferenceAndRest  { $$ = $3; $$[len($$)-1].SymbolList = $1 }
 ;
 
 GlobalModuleReferenceAndRest : modulereference  { $$ = []SymbolsFromModule{{Module: GlobalModuleReference{$1, nil}}} }
                              | modulereference AssignedIdentifier  { $$ = []SymbolsFromModule{{Module: GlobalModuleReference{$1, $2}}} }
-                             | modulereference SymbolsFromModuleList  { $$ = append([]SymbolsFromModule{{Module: GlobalModuleReference{$1, nil}}}, $2...) }
-                             | modulereference AssignedIdentifier SymbolsFromModuleList  { $$ = append([]SymbolsFromModule{{Module: GlobalModuleReference{$1, $2}}}, $3...) }
+                             | modulereference SymbolsFromModuleList  { $$ = append($2, SymbolsFromModule{Module: GlobalModuleReference{$1, nil}}) }
+                             | modulereference AssignedIdentifier SymbolsFromModuleList  { $$ = append($3, SymbolsFromModule{Module: GlobalModuleReference{$1, $2}}) }
 ;
 
 AssignedIdentifier : ObjectIdentifierValue  { $$ = $1 }
@@ -618,7 +619,7 @@ AdditionalEnumeration : Enumeration
 ;
 
 Enumeration : EnumerationItem  { $$ = []EnumerationItem{$1} }
-            | EnumerationItem COMMA Enumeration  { $$ = append([]EnumerationItem{$1}, $3...) }
+            | Enumeration COMMA EnumerationItem  { $$ = append($1, $3) }
 ;
 
 EnumerationItem : NamedNumber  { $$ = $1 }
@@ -830,7 +831,7 @@ ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2 }
 ;
 
 ObjIdComponentsList :  ObjIdComponents  { $$ = ObjectIdentifierValue{$1}  }
-                    | ObjIdComponents ObjIdComponentsList  { $$ = append(ObjectIdentifierValue{$1}, $2...)  }
+                    | ObjIdComponentsList ObjIdComponents  { $$ = append($1, $2)  }
 ;
 
 ObjIdComponents : NameForm  { $$ = ObjectIdElement{Name: $1} }
diff --git a/y.go b/y.go
index a884724..af94e42 100644
--- a/y.go
+++ b/y.go
@@ -333,7 +333,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1072
+//line asn1.y:1073
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -382,73 +382,73 @@ const yyPrivate = 57344
 const yyLast = 914
 
 var yyAct = [...]int16{
-	217, 203, 410, 216, 376, 206, 352, 218, 125, 17,
-	191, 175, 260, 319, 315, 17, 282, 278, 236, 292,
-	335, 240, 251, 208, 200, 263, 161, 182, 180, 178,
-	247, 157, 168, 215, 142, 57, 102, 149, 5, 19,
-	166, 38, 29, 11, 9, 296, 131, 19, 19, 166,
-	193, 298, 231, 19, 230, 19, 418, 46, 163, 54,
-	46, 239, 3, 297, 413, 202, 274, 163, 167, 336,
-	275, 54, 44, 138, 53, 44, 188, 167, 223, 126,
-	148, 222, 232, 46, 19, 61, 53, 266, 10, 133,
-	24, 23, 22, 338, 202, 126, 21, 45, 44, 150,
-	45, 170, 338, 35, 225, 64, 419, 135, 140, 137,
-	170, 31, 160, 264, 123, 146, 132, 127, 159, 19,
-	166, 160, 417, 45, 19, 137, 162, 159, 162, 42,
-	36, 209, 212, 261, 202, 153, 201, 267, 163, 121,
-	139, 169, 221, 219, 213, 120, 224, 229, 167, 219,
-	169, 219, 143, 50, 211, 60, 134, 269, 214, 47,
-	48, 59, 237, 226, 270, 254, 126, 244, 431, 402,
-	310, 372, 227, 320, 246, 136, 141, 58, 248, 401,
-	219, 170, 390, 152, 243, 220, 126, 162, 242, 44,
-	228, 122, 160, 387, 386, 233, 234, 272, 159, 279,
-	259, 321, 333, 62, 322, 4, 48, 327, 40, 271,
-	124, 32, 347, 41, 245, 284, 257, 317, 289, 27,
-	219, 169, 256, 345, 311, 433, 346, 126, 432, 290,
-	300, 302, 291, 424, 309, 328, 432, 422, 306, 308,
-	408, 405, 293, 397, 396, 389, 303, 384, 283, 374,
-	254, 254, 295, 288, 285, 287, 281, 262, 61, 276,
-	427, 395, 367, 46, 365, 359, 162, 162, 313, 304,
-	162, 294, 15, 299, 301, 162, 325, 312, 44, 314,
-	316, 305, 307, 340, 337, 47, 48, 286, 324, 349,
-	209, 353, 330, 212, 355, 331, 362, 332, 280, 162,
-	30, 25, 350, 45, 357, 163, 348, 344, 363, 197,
-	130, 129, 326, 128, 7, 358, 356, 370, 19, 19,
-	361, 423, 360, 354, 329, 273, 426, 250, 377, 202,
-	63, 28, 369, 366, 373, 14, 12, 371, 162, 318,
-	368, 14, 4, 48, 238, 258, 379, 337, 279, 364,
-	26, 4, 48, 255, 4, 253, 255, 375, 19, 18,
-	47, 48, 382, 18, 380, 383, 381, 385, 55, 48,
-	19, 48, 4, 323, 162, 416, 162, 399, 398, 378,
-	343, 342, 341, 392, 391, 339, 394, 268, 400, 265,
-	411, 404, 353, 55, 19, 166, 425, 407, 379, 379,
-	39, 414, 415, 403, 34, 1, 207, 209, 406, 420,
-	205, 421, 204, 163, 210, 412, 409, 388, 351, 185,
-	199, 119, 198, 167, 71, 411, 428, 429, 151, 430,
-	241, 43, 56, 362, 37, 277, 93, 68, 76, 85,
-	147, 98, 177, 92, 109, 99, 235, 101, 83, 137,
-	81, 80, 196, 79, 78, 66, 170, 84, 87, 90,
-	94, 113, 105, 89, 110, 70, 88, 160, 95, 112,
-	195, 334, 192, 159, 118, 103, 96, 190, 91, 106,
-	55, 19, 166, 107, 189, 184, 187, 108, 186, 183,
-	181, 179, 176, 114, 393, 174, 169, 104, 173, 172,
-	163, 115, 171, 86, 111, 116, 185, 67, 119, 117,
-	167, 33, 97, 194, 100, 49, 51, 52, 165, 164,
-	155, 158, 77, 93, 156, 154, 249, 252, 98, 82,
+	217, 203, 410, 216, 206, 376, 352, 218, 125, 17,
+	191, 175, 260, 319, 17, 315, 282, 292, 236, 335,
+	240, 278, 208, 249, 251, 200, 161, 182, 207, 180,
+	247, 178, 193, 263, 168, 157, 102, 215, 57, 142,
+	239, 3, 149, 5, 296, 38, 29, 418, 11, 9,
+	131, 266, 19, 19, 19, 166, 46, 298, 54, 46,
+	274, 19, 297, 413, 275, 231, 230, 223, 222, 61,
+	54, 202, 44, 163, 53, 44, 45, 232, 19, 45,
+	24, 225, 46, 167, 138, 148, 53, 64, 202, 19,
+	126, 23, 22, 10, 133, 21, 123, 419, 44, 202,
+	126, 267, 45, 35, 150, 188, 146, 135, 140, 213,
+	31, 264, 269, 417, 132, 127, 170, 36, 42, 270,
+	137, 19, 166, 121, 261, 120, 162, 160, 162, 60,
+	137, 209, 212, 159, 143, 153, 201, 47, 48, 59,
+	163, 431, 221, 320, 310, 50, 224, 229, 219, 219,
+	167, 139, 402, 211, 58, 126, 169, 219, 401, 214,
+	372, 134, 152, 237, 226, 254, 390, 220, 244, 387,
+	386, 321, 228, 246, 219, 338, 227, 233, 234, 248,
+	122, 333, 322, 170, 124, 219, 40, 162, 243, 44,
+	41, 242, 32, 245, 160, 62, 126, 272, 347, 279,
+	159, 126, 259, 317, 136, 141, 257, 4, 48, 327,
+	289, 27, 256, 433, 311, 284, 345, 271, 290, 346,
+	432, 291, 288, 169, 432, 424, 422, 408, 405, 293,
+	300, 302, 397, 396, 309, 389, 285, 328, 306, 308,
+	384, 283, 374, 295, 303, 287, 281, 262, 61, 254,
+	254, 4, 253, 255, 276, 299, 301, 427, 395, 365,
+	359, 304, 46, 305, 307, 294, 162, 162, 286, 280,
+	162, 314, 367, 15, 344, 162, 197, 325, 44, 316,
+	312, 130, 45, 340, 337, 4, 253, 255, 324, 349,
+	209, 353, 330, 212, 326, 129, 362, 331, 332, 162,
+	350, 30, 19, 18, 128, 357, 313, 348, 363, 47,
+	48, 7, 370, 19, 358, 19, 356, 355, 254, 423,
+	273, 361, 25, 377, 360, 202, 354, 329, 63, 163,
+	28, 364, 366, 369, 19, 18, 250, 13, 162, 426,
+	314, 373, 368, 371, 14, 318, 379, 337, 279, 14,
+	26, 4, 48, 238, 47, 48, 375, 4, 48, 255,
+	4, 253, 255, 382, 258, 383, 381, 385, 380, 55,
+	48, 4, 18, 19, 162, 48, 162, 323, 416, 399,
+	398, 378, 343, 392, 391, 342, 394, 341, 400, 339,
+	411, 404, 353, 55, 19, 166, 268, 265, 379, 379,
+	425, 403, 414, 415, 407, 39, 406, 209, 34, 1,
+	421, 420, 205, 163, 204, 210, 412, 409, 388, 185,
+	351, 119, 199, 167, 198, 411, 428, 429, 71, 430,
+	151, 241, 43, 362, 56, 37, 93, 277, 68, 76,
+	85, 98, 177, 92, 109, 99, 147, 235, 101, 137,
+	83, 81, 196, 80, 79, 78, 170, 66, 87, 84,
+	94, 113, 105, 90, 110, 89, 88, 160, 95, 112,
+	70, 195, 334, 159, 118, 103, 96, 192, 91, 106,
+	55, 19, 166, 107, 190, 189, 184, 108, 187, 186,
+	183, 181, 179, 114, 176, 393, 169, 104, 174, 173,
+	163, 115, 172, 171, 111, 116, 185, 86, 119, 117,
+	167, 67, 97, 194, 100, 33, 49, 51, 52, 165,
+	164, 155, 158, 93, 77, 156, 154, 252, 98, 82,
 	92, 109, 99, 72, 74, 65, 137, 69, 73, 196,
-	75, 6, 16, 170, 13, 87, 2, 94, 113, 105,
-	8, 110, 20, 88, 160, 95, 112, 0, 0, 0,
+	75, 6, 16, 170, 12, 87, 2, 94, 113, 105,
+	8, 110, 20, 88, 160, 95, 112, 0, 19, 166,
 	159, 118, 103, 96, 0, 91, 106, 47, 48, 327,
-	107, 0, 0, 0, 108, 0, 0, 0, 0, 0,
-	114, 0, 0, 169, 104, 0, 0, 0, 115, 0,
+	107, 0, 0, 0, 108, 0, 0, 163, 0, 336,
+	114, 0, 0, 169, 104, 0, 0, 167, 115, 0,
 	0, 111, 116, 0, 0, 119, 117, 328, 0, 97,
 	194, 100, 0, 0, 0, 0, 0, 0, 0, 0,
-	93, 0, 0, 0, 0, 98, 0, 92, 109, 99,
-	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 87, 0, 94, 113, 105, 0, 110, 0,
+	93, 0, 338, 0, 0, 98, 0, 92, 109, 99,
+	170, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 160, 87, 0, 94, 113, 105, 159, 110, 0,
 	88, 55, 95, 112, 0, 0, 0, 0, 118, 103,
 	96, 0, 91, 106, 0, 0, 0, 107, 0, 0,
-	0, 108, 0, 0, 0, 0, 0, 114, 0, 119,
+	169, 108, 0, 0, 0, 0, 0, 114, 0, 119,
 	0, 104, 0, 0, 0, 115, 0, 0, 111, 116,
 	0, 0, 0, 117, 93, 0, 97, 0, 100, 98,
 	0, 92, 109, 99, 0, 0, 0, 0, 0, 145,
@@ -477,68 +477,68 @@ var yyAct = [...]int16{
 }
 
 var yyPact = [...]int16{
-	366, -1000, -81, 288, -1000, -20, -1000, 351, 24, 14,
-	13, 12, 274, 351, -1000, -1000, -1000, 187, -1000, -1000,
-	316, -70, -1000, -1000, -1000, -1000, -1000, 355, 44, -1000,
-	178, 35, -1000, 78, -75, 153, -1000, 362, 354, 119,
-	113, 228, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 362,
-	-1000, -1000, -1000, 315, 786, -1000, 103, -1000, 55, -1000,
-	-1000, 354, -1000, 786, 195, -1000, -1000, -1000, -1000, -1000,
+	365, -1000, -76, 285, -1000, -15, -1000, 327, 23, 14,
+	13, 2, 295, -1000, -1000, -1000, -1000, 179, -1000, -1000,
+	315, -66, -1000, -1000, -1000, -1000, -1000, 364, 43, -1000,
+	159, 35, -1000, 65, -71, 131, -1000, 363, 348, 97,
+	87, 218, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 363,
+	-1000, -1000, -1000, 313, 786, -1000, 83, -1000, 39, -1000,
+	-1000, 348, -1000, 786, 169, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 51, -1000, -1000,
-	-1000, 287, 285, 284, -1000, -58, 50, -1000, 63, 47,
-	-94, 635, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 49, -22,
-	-1000, 366, -1000, 154, 112, -1000, 387, 283, 312, 363,
-	363, -1000, -1000, 117, 712, -12, -15, 154, 77, 712,
-	-39, -41, -1, 154, 786, 786, -1000, 336, -1000, -1000,
-	-1000, -1000, 279, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 348, -1000, -1000, 191, 337, -1000, -1000,
-	-1000, 88, -1000, -1000, 227, -1000, -1000, 53, -1000, 43,
-	-1000, 111, -1000, 53, -1000, 387, -1000, -1000, -1000, -1000,
-	-1000, -1000, 309, 154, -33, 231, -1000, 363, 271, 226,
-	218, -1000, 88, 786, 260, 225, -1000, 223, -1000, 186,
-	202, -1000, 186, -1000, 212, 244, 222, -1000, -52, -42,
-	154, -1000, 712, 712, -1000, -1000, 212, 242, 154, -1000,
-	712, 712, 363, 154, 154, 135, -1000, -1000, -1000, 193,
-	-1000, 354, -1000, -1000, -1000, 193, -1000, 241, 348, 348,
-	-1000, -1000, -1000, -1000, 185, -1000, 331, 165, 191, -1000,
-	171, 561, 307, -1000, 474, 474, -1000, -1000, 474, -1000,
-	-1000, -1000, 169, 41, 154, 281, -1000, 196, -1000, 180,
-	-1000, 312, 212, 363, -1000, 154, -1000, 306, 363, 199,
-	-1000, 363, 238, 305, -1000, 48, -1000, 112, 786, 154,
-	-1000, 154, -1000, 237, -1000, 154, -1000, 154, -1000, -1000,
-	-1000, 364, -1000, -1000, 235, -1000, -1000, 345, 292, -1000,
-	-1000, 329, -1000, -1000, -1000, -1000, 134, -1000, 326, 219,
-	-1000, -1000, -1000, -1000, -1000, -1000, 32, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 311, -1000, 363, 336, 218, -1000,
-	-1000, 217, -1000, -1000, 88, -1000, 161, 160, -1000, -1000,
-	-1000, 215, -1000, -1000, 154, -1000, -1000, -1000, 149, -1000,
-	165, -1000, 112, -1000, 387, -1000, 234, 214, 213, 154,
-	-1000, 146, 136, 212, 363, 211, -1000, -1000, 210, 46,
-	-1000, -1000, -1000, -1000, -1000, -1000, 363, 363, -1000, 9,
-	-1000, -1000, -1000, -1000, -1000, 363, -1000, 207, 304, 203,
-	-1000, -1000, -1000, 318, 233, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, 40, -1000, 46, 40, 131, -1000, 198, -1000,
-	206, -1000, 40, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 49, -1000, -1000,
+	-1000, 278, 269, 255, -1000, -54, 48, -1000, 68, 58,
+	-89, 635, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 40, -17,
+	-1000, 365, -1000, 164, 47, -1000, 387, 250, 308, 366,
+	366, -1000, -1000, 82, 712, -25, -26, 164, 54, 712,
+	-27, -28, -6, 164, 786, 786, -1000, 345, -1000, -1000,
+	-1000, -1000, 303, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 354, -1000, -1000, 181, 356, -1000, -1000,
+	-1000, 79, -1000, -1000, 217, -1000, -1000, 51, -1000, 7,
+	-1000, 66, -1000, 51, -1000, 387, -1000, -1000, -1000, -1000,
+	-1000, -1000, 304, 164, -39, 226, -1000, 366, 242, 216,
+	211, -1000, 79, 786, 241, 215, 192, -1000, -1000, 178,
+	191, -1000, 178, -1000, 199, 238, 213, -1000, -53, -36,
+	164, -1000, 712, 712, -1000, -1000, 199, 234, 164, -1000,
+	712, 712, 366, 164, 164, 109, -1000, -1000, -1000, 183,
+	-1000, 348, -1000, -1000, -1000, 183, -1000, 279, 354, -1000,
+	-1000, -1000, -1000, -1000, 171, -1000, 337, 135, 181, -1000,
+	149, 561, 310, -1000, 474, 474, -1000, -1000, 474, -1000,
+	-1000, -1000, 148, 551, 164, 248, -1000, 189, -1000, 166,
+	-1000, 308, 199, 366, -1000, 164, -1000, 309, 366, 201,
+	-1000, 366, 233, 307, -1000, 71, -1000, 47, 786, 164,
+	-1000, 164, -1000, 232, -1000, 164, -1000, 164, -1000, -1000,
+	-1000, 368, -1000, -1000, -1000, -1000, 245, 351, 287, -1000,
+	-1000, 335, -1000, -1000, -1000, -1000, 123, -1000, 333, 212,
+	-1000, -1000, -1000, -1000, -1000, -1000, 114, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, 306, -1000, 366, 345, 211, -1000,
+	-1000, 210, -1000, -1000, 79, -1000, 137, 136, -1000, -1000,
+	-1000, 205, -1000, -1000, 164, -1000, -1000, -1000, 133, -1000,
+	135, -1000, 47, -1000, 387, -1000, 231, 203, 202, 164,
+	-1000, 125, 119, 199, 366, 198, -1000, -1000, 197, 45,
+	-1000, -1000, -1000, -1000, -1000, -1000, 366, 366, -1000, 0,
+	-1000, -1000, -1000, -1000, -1000, 366, -1000, 196, 302, 195,
+	-1000, -1000, -1000, 331, 230, -1000, -1000, -1000, -1000, -1000,
+	-1000, 192, 46, -1000, 45, 46, 104, -1000, 190, -1000,
+	194, -1000, 46, -1000,
 }
 
 var yyPgo = [...]int16{
-	0, 32, 13, 61, 36, 1, 552, 550, 546, 544,
-	272, 336, 542, 541, 327, 14, 540, 538, 537, 535,
-	50, 534, 533, 529, 7, 22, 527, 526, 30, 31,
-	525, 10, 524, 522, 521, 520, 519, 518, 26, 18,
-	153, 517, 516, 515, 511, 21, 507, 503, 8, 502,
-	499, 498, 495, 494, 11, 492, 491, 29, 490, 28,
-	25, 27, 489, 488, 486, 485, 484, 477, 76, 472,
-	471, 470, 20, 465, 463, 459, 457, 455, 454, 453,
-	451, 450, 0, 3, 450, 33, 448, 447, 446, 440,
-	439, 438, 437, 435, 17, 434, 432, 35, 177, 129,
-	431, 430, 428, 424, 422, 420, 420, 6, 16, 418,
-	417, 416, 2, 415, 23, 414, 412, 5, 410, 409,
-	406, 405, 404, 400, 12, 24, 19, 397, 396, 396,
-	389, 387, 385, 382, 381, 380, 4, 379, 378, 377,
-	375, 373,
+	0, 34, 13, 40, 36, 1, 552, 550, 546, 337,
+	273, 544, 542, 541, 336, 15, 540, 538, 537, 535,
+	32, 534, 533, 529, 7, 24, 527, 23, 30, 35,
+	526, 10, 525, 524, 522, 521, 520, 519, 26, 18,
+	145, 518, 517, 516, 515, 20, 511, 507, 8, 503,
+	502, 499, 498, 495, 11, 494, 492, 31, 491, 29,
+	33, 27, 490, 489, 488, 486, 485, 484, 105, 477,
+	472, 471, 19, 470, 465, 463, 459, 457, 455, 454,
+	453, 451, 0, 3, 451, 37, 450, 448, 447, 446,
+	440, 439, 438, 437, 21, 435, 434, 38, 154, 118,
+	432, 431, 430, 428, 424, 422, 422, 6, 16, 420,
+	418, 417, 2, 416, 22, 415, 414, 4, 412, 411,
+	28, 409, 408, 405, 12, 25, 17, 404, 400, 400,
+	397, 396, 389, 387, 385, 382, 5, 381, 380, 379,
+	378, 377,
 }
 
 var yyR1 = [...]uint8{
@@ -610,7 +610,7 @@ var yyR2 = [...]int8{
 var yyChk = [...]int16{
 	-1000, -121, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
-	-6, 72, 78, 78, 78, 27, -11, 32, 15, 112,
+	-6, 72, 78, 78, 78, 27, -9, 32, 15, 112,
 	-10, 67, 33, -44, -122, 68, 52, -95, 116, -123,
 	55, -98, -99, -100, -4, -3, -45, 6, 7, -43,
 	-40, -42, -41, -4, -45, 6, -96, -97, -98, 42,
@@ -639,11 +639,11 @@ var yyChk = [...]int16{
 	27, 30, -108, 30, -124, -20, 27, 30, 30, 32,
 	27, 30, -126, 30, 27, 30, 97, 115, 93, -20,
 	-24, -20, -24, -126, 27, -20, -24, -20, -24, -5,
-	35, 31, -97, 27, -28, -15, -28, 32, 8, -2,
+	35, 31, -97, 27, -27, -15, -28, 32, 8, -2,
 	8, 36, 33, -141, -38, -15, -20, 8, 36, 17,
 	-61, -57, -59, 33, -70, -72, 28, -31, 61, -132,
 	-48, -133, -134, -135, 26, 27, 30, 32, -125, -24,
-	-126, -109, -107, -24, 17, -117, -38, -15, -114, 27,
+	-126, -109, -107, -24, 17, -120, -38, -15, -114, 27,
 	17, -125, -82, -31, -20, 27, -45, 27, -25, -15,
 	25, 8, 37, 8, 30, -72, -136, 17, -137, -5,
 	-94, -39, -15, -108, 30, -124, 33, 33, -110, 30,
@@ -686,7 +686,7 @@ var yyDef = [...]int16{
 	161, 0, 133, 0, 131, 77, 96, 0, 0, 0,
 	87, 0, 0, 0, 129, 0, 151, 0, 0, 221,
 	225, 222, 226, 0, 156, 219, 223, 220, 224, 160,
-	177, 0, 38, 187, 0, 194, 190, 0, 114, 116,
+	177, 0, 38, 187, 190, 194, 0, 0, 114, 116,
 	117, 0, 227, 287, 289, 290, 0, 92, 0, 231,
 	246, -2, 241, 252, 259, 262, 0, 266, 267, 270,
 	272, 271, 273, 274, 0, 120, 0, 0, 167, 173,
@@ -1108,7 +1108,7 @@ yydefault:
 		yyDollar = yyS[yypt-2 : yypt+1]
 //line asn1.y:368
 		{
-			yyVAL.DefinitiveObjIdComponentList = append(append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent), yyDollar[2].DefinitiveObjIdComponentList...)
+			yyVAL.DefinitiveObjIdComponentList = append(yyDollar[1].DefinitiveObjIdComponentList, yyDollar[2].DefinitiveObjIdComponent)
 		}
 	case 12:
 		yyDollar = yyS[yypt-1 : yypt+1]
@@ -1202,446 +1202,449 @@ yydefault:
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:411
+//line asn1.y:412
 		{
 			yyVAL.Imports = yyDollar[1].Imports
+			for i, j := 0, len(yyVAL.Imports)-1; i < j; i, j = i+1, j-1 {
+				yyVAL.Imports[i], yyVAL.Imports[j] = yyVAL.Imports[j], yyVAL.Imports[i]
+			}
 		}
 	case 33:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:412
+//line asn1.y:413
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 34:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:418
+//line asn1.y:419
 		{
 			yyVAL.Imports = yyDollar[3].Imports
-			yyVAL.Imports[0].SymbolList = yyDollar[1].SymbolList
+			yyVAL.Imports[len(yyVAL.Imports)-1].SymbolList = yyDollar[1].SymbolList
 		}
 	case 35:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:421
+//line asn1.y:422
 		{
 			yyVAL.Imports = []SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, nil}}}
 		}
 	case 36:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:422
+//line asn1.y:423
 		{
 			yyVAL.Imports = []SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}}}
 		}
 	case 37:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:423
+//line asn1.y:424
 		{
-			yyVAL.Imports = append([]SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, nil}}}, yyDollar[2].Imports...)
+			yyVAL.Imports = append(yyDollar[2].Imports, SymbolsFromModule{Module: GlobalModuleReference{yyDollar[1].name, nil}})
 		}
 	case 38:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:424
+//line asn1.y:425
 		{
-			yyVAL.Imports = append([]SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}}}, yyDollar[3].Imports...)
+			yyVAL.Imports = append(yyDollar[3].Imports, SymbolsFromModule{Module: GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}})
 		}
 	case 39:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:427
+//line asn1.y:428
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:428
+//line asn1.y:429
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:431
+//line asn1.y:432
 		{
 			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:432
+//line asn1.y:433
 		{
 			yyVAL.SymbolList = append(yyDollar[1].SymbolList, yyDollar[3].Symbol)
 		}
 	case 44:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:439
+//line asn1.y:440
 		{
 			yyVAL.Symbol = TypeReference(yyDollar[1].TypeReference)
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:440
+//line asn1.y:441
 		{
 			yyVAL.Symbol = ModuleReference(yyDollar[1].name)
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:441
+//line asn1.y:442
 		{
 			yyVAL.Symbol = ValueReference(yyDollar[1].ValueReference)
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:447
+//line asn1.y:448
 		{
 			yyVAL.AssignmentList = AssignmentList{yyDollar[1].Assignment}
 		}
 	case 48:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:448
+//line asn1.y:449
 		{
 			yyVAL.AssignmentList = append(yyDollar[1].AssignmentList, yyDollar[2].Assignment)
 		}
 	case 51:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:464
+//line asn1.y:465
 		{
 			yyVAL.Type = yyDollar[1].TypeReference
 		}
 	case 52:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:472
+//line asn1.y:473
 		{
 			yyVAL.DefinedValue = DefinedValue{ModuleReference(yyDollar[1].name), yyDollar[3].ValueReference}
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:473
+//line asn1.y:474
 		{
 			yyVAL.DefinedValue = DefinedValue{ValueName: yyDollar[1].ValueReference}
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:488
+//line asn1.y:489
 		{
 			yyVAL.Assignment = TypeAssignment{yyDollar[1].TypeReference, yyDollar[3].Type}
 		}
 	case 55:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:491
+//line asn1.y:492
 		{
 			yyVAL.Assignment = ValueAssignment{yyDollar[1].ValueReference, yyDollar[2].Type, yyDollar[4].Value}
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:538
+//line asn1.y:539
 		{
 			yyVAL.NamedType = NamedType{Identifier: Identifier(yyDollar[1].name), Type: yyDollar[2].Type}
 		}
 	case 81:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:561
+//line asn1.y:562
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:574
+//line asn1.y:575
 		{
 			yyVAL.Type = BooleanType{}
 		}
 	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:577
+//line asn1.y:578
 		{
 			yyVAL.Value = Boolean(true)
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:578
+//line asn1.y:579
 		{
 			yyVAL.Value = Boolean(false)
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:583
+//line asn1.y:584
 		{
 			yyVAL.Type = IntegerType{}
 		}
 	case 87:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:584
+//line asn1.y:585
 		{
 			yyVAL.Type = IntegerType{yyDollar[3].NamedNumberList}
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:587
+//line asn1.y:588
 		{
 			yyVAL.NamedNumberList = []NamedNumber{yyDollar[1].NamedNumber}
 		}
 	case 89:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:588
+//line asn1.y:589
 		{
 			yyVAL.NamedNumberList = append(yyDollar[1].NamedNumberList, yyDollar[3].NamedNumber)
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:591
+//line asn1.y:592
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].Number}
 		}
 	case 91:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:592
+//line asn1.y:593
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].DefinedValue}
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:595
+//line asn1.y:596
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 93:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:596
+//line asn1.y:597
 		{
 			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:601
+//line asn1.y:602
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:602
+//line asn1.y:603
 		{
 			yyVAL.Value = IdentifiedIntegerValue{Name: yyDollar[1].name}
 		}
 	case 96:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:607
+//line asn1.y:608
 		{
 			yyVAL.Type = yyDollar[3].EnumeratedType
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:610
+//line asn1.y:611
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 98:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:611
+//line asn1.y:612
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 99:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:612
+//line asn1.y:613
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
 	case 102:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:620
+//line asn1.y:621
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:621
+//line asn1.y:622
 		{
-			yyVAL.Enumeration = append([]EnumerationItem{yyDollar[1].EnumerationItem}, yyDollar[3].Enumeration...)
+			yyVAL.Enumeration = append(yyDollar[1].Enumeration, yyDollar[3].EnumerationItem)
 		}
 	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:624
+//line asn1.y:625
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
 	case 105:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:625
+//line asn1.y:626
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:630
+//line asn1.y:631
 		{
 			yyVAL.Type = RealType{}
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:639
+//line asn1.y:640
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
 	case 110:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:640
+//line asn1.y:641
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:644
+//line asn1.y:645
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
 	case 112:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:645
+//line asn1.y:646
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
 	case 113:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:649
+//line asn1.y:650
 		{
 			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, 0)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:650
+//line asn1.y:651
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:651
+//line asn1.y:652
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:652
+//line asn1.y:653
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:656
+//line asn1.y:657
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
 	case 119:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:661
+//line asn1.y:662
 		{
 			yyVAL.Type = BitStringType{}
 		}
 	case 120:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:662
+//line asn1.y:663
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
 	case 121:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:665
+//line asn1.y:666
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
 	case 122:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:666
+//line asn1.y:667
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
 	case 123:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:669
+//line asn1.y:670
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
 	case 124:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:670
+//line asn1.y:671
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
 	case 125:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:675
+//line asn1.y:676
 		{
 			yyVAL.Type = OctetStringType{}
 		}
 	case 126:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:680
+//line asn1.y:681
 		{
 			yyVAL.Type = NullType{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:685
+//line asn1.y:686
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 128:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:686
+//line asn1.y:687
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 129:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:687
+//line asn1.y:688
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
 	case 134:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:699
+//line asn1.y:700
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
 	case 135:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:700
+//line asn1.y:701
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions}
 		}
 	case 136:
 		yyDollar = yyS[yypt-7 : yypt+1]
-//line asn1.y:701
+//line asn1.y:702
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions, TrailingComponents: yyDollar[7].ComponentTypeList}
 		}
 	case 139:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:713
+//line asn1.y:714
 		{
 			yyVAL.ExtensionAdditions = yyDollar[2].ExtensionAdditions
 		}
 	case 140:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:714
+//line asn1.y:715
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
 	case 141:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:717
+//line asn1.y:718
 		{
 			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
 		}
 	case 142:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:718
+//line asn1.y:719
 		{
 			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
 		}
 	case 143:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:721
+//line asn1.y:722
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
 	case 145:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:726
+//line asn1.y:727
 		{
 			yyVAL.ExtensionAdditions = make([]ExtensionAddition, 0)
 			for _, component := range yyDollar[3].ComponentTypeList {
@@ -1650,599 +1653,599 @@ yydefault:
 		}
 	case 148:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:733
+//line asn1.y:734
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
 	case 149:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:734
+//line asn1.y:735
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
 	case 150:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:737
+//line asn1.y:738
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
 	case 151:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:738
+//line asn1.y:739
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
 	case 152:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:739
+//line asn1.y:740
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
 	case 153:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:740
+//line asn1.y:741
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
 	case 154:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:745
+//line asn1.y:746
 		{
 			yyVAL.Type = SetType{}
 		}
 	case 155:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:746
+//line asn1.y:747
 		{
 			yyVAL.Type = SetType{}
 		}
 	case 156:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:747
+//line asn1.y:748
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
 	case 157:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:752
+//line asn1.y:753
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
 	case 158:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:753
+//line asn1.y:754
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
 	case 159:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:757
+//line asn1.y:758
 		{
 			yyVAL.Type = AnyType{}
 		}
 	case 160:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:758
+//line asn1.y:759
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
 	case 161:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:763
+//line asn1.y:764
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
 	case 162:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:766
+//line asn1.y:767
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[4].ExtensionAdditionAlternativesList}
 		}
 	case 163:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:767
+//line asn1.y:768
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
 	case 164:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:768
+//line asn1.y:769
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
 		}
 	case 166:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:775
+//line asn1.y:776
 		{
 			yyVAL.ExtensionAdditionAlternativesList = yyDollar[2].ExtensionAdditionAlternativesList
 		}
 	case 167:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:776
+//line asn1.y:777
 		{
 			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
 		}
 	case 168:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:779
+//line asn1.y:780
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
 		}
 	case 169:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:780
+//line asn1.y:781
 		{
 			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
 	case 170:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:784
+//line asn1.y:785
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
 	case 172:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:791
+//line asn1.y:792
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
 	case 173:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:792
+//line asn1.y:793
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
 	case 174:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:797
+//line asn1.y:798
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
 	case 175:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:798
+//line asn1.y:799
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
 	case 176:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:799
+//line asn1.y:800
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
 	case 177:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:802
+//line asn1.y:803
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
 	case 178:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:805
+//line asn1.y:806
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
 	case 179:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:806
+//line asn1.y:807
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 180:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:809
+//line asn1.y:810
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
 	case 181:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:810
+//line asn1.y:811
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
 	case 182:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:811
+//line asn1.y:812
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
 	case 183:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:812
+//line asn1.y:813
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
 	case 184:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:817
+//line asn1.y:818
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
 	case 185:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:818
+//line asn1.y:819
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
 	case 186:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:823
+//line asn1.y:824
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
 	case 187:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:828
+//line asn1.y:829
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
 	case 188:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:829
+//line asn1.y:830
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
 	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:832
+//line asn1.y:833
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
 	case 190:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:833
+//line asn1.y:834
 		{
-			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{yyDollar[1].ObjectIdElement}, yyDollar[2].ObjectIdentifierValue...)
+			yyVAL.ObjectIdentifierValue = append(yyDollar[1].ObjectIdentifierValue, yyDollar[2].ObjectIdElement)
 		}
 	case 191:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:836
+//line asn1.y:837
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
 	case 194:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:839
+//line asn1.y:840
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
 	case 195:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:842
+//line asn1.y:843
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
 	case 196:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:843
+//line asn1.y:844
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
 	case 197:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:847
+//line asn1.y:848
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
 	case 201:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:859
+//line asn1.y:860
 		{
 			yyVAL.Type = RestrictedStringType{LexType: BMPString}
 		}
 	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:860
+//line asn1.y:861
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
 	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:861
+//line asn1.y:862
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
 	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:862
+//line asn1.y:863
 		{
 			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
 	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:863
+//line asn1.y:864
 		{
 			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
 	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:864
+//line asn1.y:865
 		{
 			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
 	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:865
+//line asn1.y:866
 		{
 			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
 	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:866
+//line asn1.y:867
 		{
 			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
 	case 209:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:867
+//line asn1.y:868
 		{
 			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
 	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:868
+//line asn1.y:869
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
 	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:869
+//line asn1.y:870
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
 	case 212:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:870
+//line asn1.y:871
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
 	case 213:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:871
+//line asn1.y:872
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
 	case 214:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:876
+//line asn1.y:877
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
 	case 215:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:881
+//line asn1.y:882
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
 	case 216:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:882
+//line asn1.y:883
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
 	case 217:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:887
+//line asn1.y:888
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
 	case 219:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:893
+//line asn1.y:894
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
 	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:894
+//line asn1.y:895
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:895
+//line asn1.y:896
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
 	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:896
+//line asn1.y:897
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 223:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:897
+//line asn1.y:898
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 224:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:898
+//line asn1.y:899
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 225:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:899
+//line asn1.y:900
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
 	case 226:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:900
+//line asn1.y:901
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
 	case 227:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:905
+//line asn1.y:906
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
 	case 228:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:908
+//line asn1.y:909
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
 	case 231:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:918
+//line asn1.y:919
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
 	case 232:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:919
+//line asn1.y:920
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
 	case 233:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:922
+//line asn1.y:923
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
 	case 235:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:928
+//line asn1.y:929
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
 	case 236:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:929
+//line asn1.y:930
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
 	case 237:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:932
+//line asn1.y:933
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
 	case 238:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:933
+//line asn1.y:934
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
 	case 240:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:939
+//line asn1.y:940
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
 	case 241:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:940
+//line asn1.y:941
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
 	case 243:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:946
+//line asn1.y:947
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
 	case 244:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:947
+//line asn1.y:948
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
 	case 246:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:953
+//line asn1.y:954
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
 	case 251:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:962
+//line asn1.y:963
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
 	case 252:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:964
+//line asn1.y:965
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
 	case 258:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:979
+//line asn1.y:980
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
 	case 259:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:984
+//line asn1.y:985
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
 	case 260:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:987
+//line asn1.y:988
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
 	case 261:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:988
+//line asn1.y:989
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
 	case 262:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:991
+//line asn1.y:992
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
 	case 263:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:992
+//line asn1.y:993
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
 	case 265:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:996
+//line asn1.y:997
 		{
 			yyVAL.Value = nil
 		}
 	case 267:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1000
+//line asn1.y:1001
 		{
 			yyVAL.Value = nil
 		}
 	case 268:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1005
+//line asn1.y:1006
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
 	case 269:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1010
+//line asn1.y:1011
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
 	case 270:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1015
+//line asn1.y:1016
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
 	case 271:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1016
+//line asn1.y:1017
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From cf85769e8e63fad4335d4cc6364a53f4cf2a5f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:25 +0000
Subject: [PATCH 25/29] fix: tag ANY explicitly in modules with IMPLICIT TAGS

---
 codegen.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/codegen.go b/codegen.go
index 532ad98..8eb0374 100644
--- a/codegen.go
+++ b/codegen.go
@@ -461,8 +461,8 @@ unwrap:
 			tagType := ctx.tagDefault
 			if tt.HasTagType {
 				tagType = tt.TagType
-			} else if _, ok := ctx.resolveLeafType(tt.Type).(ChoiceType); ok && tagType == TAGS_IMPLICIT {
-				tagType = TAGS_EXPLICIT // See x.680, section 30.6: choice has no tag of its own that could be replaced
+			} else if tagType == TAGS_IMPLICIT && ctx.hasNoOwnTag(tt.Type) {
+				tagType = TAGS_EXPLICIT // See x.680, section 30.6: there is no tag that could be replaced
 			}
 			switch tagType {
 			case TAGS_EXPLICIT:
@@ -607,3 +607,13 @@ func (ctx *moduleContext) resolveLeafType(t Type) Type {
 	}
 	return t
 }
+
+// hasNoOwnTag says if tag of the type depends on its value
+func (ctx *moduleContext) hasNoOwnTag(t Type) bool {
+	switch ctx.resolveLeafType(t).(type) {
+	case ChoiceType, AnyType:
+		return true
+	default:
+		return false
+	}
+}
-- 
2.43.0


From efcf7082fdb206479b52c2de20d3867f79a4822e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:35 +0000
Subject: [PATCH 26/29] fix: keep string, time and SET kinds of single
 alternative CHOICE in fields

---
 codegen.go | 43 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/codegen.go b/codegen.go
index 8eb0374..da34b53 100644
--- a/codegen.go
+++ b/codegen.go
@@ -360,12 +360,20 @@ func (ctx *moduleContext) generateChoiceType(t ChoiceType, isSet *bool) goast.Ex
 		ctx.requireModule("encoding/asn1")
 		return goast.NewIdent("asn1.RawValue")
 	}
-	if len(t.AlternativeTypeList) == 1 && len(t.ExtensionTypes) == 0 {
-		return ctx.generateTypeBody(t.AlternativeTypeList[0].Type, isSet) // optimization for X.509 edge case
+	if alternative := ctx.singleAlternative(t); alternative != nil {
+		return ctx.generateTypeBody(alternative.Type, isSet) // optimization for X.509 edge case
 	}
 	return &goast.InterfaceType{Methods: &goast.FieldList{}}
 }
 
+// singleAlternative returns the alternative that is generated in place of CHOICE, or nil if there is none
+func (ctx *moduleContext) singleAlternative(t ChoiceType) *NamedType {
+	if len(t.AlternativeTypeList) == 1 && len(t.ExtensionTypes) == 0 && !ctx.hasTaggedAlternatives(t) {
+		return &t.AlternativeTypeList[0]
+	}
+	return nil
+}
+
 func (ctx *moduleContext) hasTaggedAlternatives(t ChoiceType) bool {
 	for _, f := range t.AlternativeTypeList {
 		if ctx.taggedChoiceTypeAlternative(f.Identifier, f.Type) {
@@ -486,17 +494,30 @@ unwrap:
 	}
 	// add type-specific tags
 	leafType := t
-	reference, isReference := t.(TypeReference)
-	if isReference {
-		leaf := ctx.unwrapToLeafType(reference)
-		switch leaf.TypeReference.Name() {
-		case GeneralizedTimeName:
-			components = append(components, "generalized")
-		case UTCTimeName:
-			components = append(components, "utc")
+	visited := map[string]bool{} // references, CHOICE of a single alternative can refer to itself
+	for {
+		if reference, ok := leafType.(TypeReference); ok && !visited[reference.Name()] {
+			visited[reference.Name()] = true
+			leaf := ctx.unwrapToLeafType(reference)
+			switch leaf.TypeReference.Name() {
+			case GeneralizedTimeName:
+				components = append(components, "generalized")
+			case UTCTimeName:
+				components = append(components, "utc")
+			}
+			leafType = ctx.removeWrapperTypes(leaf.Type)
+		}
+		choice, ok := leafType.(ChoiceType)
+		if !ok {
+			break
+		}
+		alternative := ctx.singleAlternative(choice)
+		if alternative == nil {
+			break
 		}
-		leafType = ctx.removeWrapperTypes(leaf.Type)
+		leafType = ctx.removeWrapperTypes(alternative.Type)
 	}
+	isReference := len(visited) > 0
 	switch tt := leafType.(type) {
 	case RestrictedStringType:
 		switch tt.LexType {
-- 
2.43.0


From 680dd26d94cf71421e4283502e379b49b3781dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 27/29] fix: generate negative zero of REAL as negative zero

---
 codegen.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/codegen.go b/codegen.go
index da34b53..0414b07 100644
--- a/codegen.go
+++ b/codegen.go
@@ -210,6 +210,9 @@ func (ctx *moduleContext) tryGenerateValueAssignment(ref ValueReference, t Type,
 		if sign := infSign(val); sign != 0 {
 			ctx.requireModule("math")
 			valExpr = &goast.BasicLit{Value: fmt.Sprintf("math.Inf(%d)", sign)}
+		} else if val == 0 && math.Signbit(float64(val)) {
+			ctx.requireModule("math")
+			valExpr = &goast.BasicLit{Value: "math.Copysign(0, -1)"} // -0 is positive zero in Go
 		} else {
 			valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
 		}
-- 
2.43.0


From 4e2178b00aa2b66e35d60e861151d1f493bf504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 28/29] fix: accept extension end marker of SEQUENCE, SET and
 CHOICE

---
 asn1.y |   19 +-
 y.go   | 1084 +++++++++++++++++++++++++++-----------------------------
 2 files changed, 528 insertions(+), 575 deletions(-)

diff --git a/asn1.y b/asn1.y
index b3689a2..1c776a6 100644
--- a/asn1.y
+++ b/asn1.y
@@ -305,9 +305,7 @@ import (
 %type <NamedType> NamedType
 %type <ExtensionAdditionAlternative> ExtensionAdditionAlternative
 %type <ExtensionAdditionAlternativesList> ExtensionAdditionAlternatives
-%type <ExtensionAdditionAlternativesList> ExtensionAdditionAlternativesList
 %type <ExtensionAdditions> ExtensionAdditions
-%type <ExtensionAdditions> ExtensionAdditionList
 %type <ExtensionAdditions> ExtensionAddition
 %type <ExtensionAdditions> ExtensionAdditionGroup
 %type <NamedNumber> NamedNumber
@@ -699,7 +697,8 @@ OptionalExtensionMarker : COMMA ELLIPSIS | /*empty*/
 // Edited from the doc - ComponentTypeList used directly instead of RootComponentTypeList to avoid ambiguity around COMMA.
 ComponentTypeLists : ComponentTypeList  { $$ = ComponentTypeLists{Components: $1} }
                    | ComponentTypeList COMMA ExtensionAndException ExtensionAdditions OptionalExtensionMarker  { $$ = ComponentTypeLists{Components: $1, ExtensionAdditions: $4} }
-                   | ComponentTypeList COMMA ExtensionAndException ExtensionAdditions ExtensionEndMarker COMMA ComponentTypeList  { $$ = ComponentTypeLists{Components: $1, ExtensionAdditions: $4, TrailingComponents: $7} }
+// TODO: AST does not keep the place of additions between two lists of components
+//                   | ComponentTypeList COMMA ExtensionAndException ExtensionAdditions ExtensionEndMarker COMMA ComponentTypeList
 //                   | ExtensionAndException ExtensionAdditions ExtensionEndMarker "," RootComponentTypeList
 //                   | ExtensionAndException ExtensionAdditions OptionalExtensionMarker
 ;
@@ -711,14 +710,11 @@ RootComponentTypeList : ComponentTypeList
 ExtensionEndMarker : COMMA ELLIPSIS
 ;
 
-ExtensionAdditions : COMMA ExtensionAdditionList  { $$ = $2 }
+// Edited from the doc - list is left recursive to avoid ambiguity with COMMA of OptionalExtensionMarker.
+ExtensionAdditions : ExtensionAdditions COMMA ExtensionAddition  { $$ = append($1, $3...) }
                    | /*empty*/  { $$ = nil }
 ;
 
-ExtensionAdditionList : ExtensionAddition  { $$ = append([]ExtensionAddition{}, $1...) }
-                      | ExtensionAdditionList COMMA ExtensionAddition  { $$ = append($1, $3...) }
-;
-
 ExtensionAddition : ComponentType  { $$ = []ExtensionAddition{$1} }
                   | ExtensionAdditionGroup
 
@@ -773,14 +769,11 @@ AlternativeTypeLists : AlternativeTypeList COMMA ExtensionAndException Extension
 RootAlternativeTypeList : AlternativeTypeList
 ;
 
-ExtensionAdditionAlternatives : COMMA ExtensionAdditionAlternativesList { $$ = $2 }
+// Edited from the doc - list is left recursive to avoid ambiguity with COMMA of OptionalExtensionMarker.
+ExtensionAdditionAlternatives : ExtensionAdditionAlternatives COMMA ExtensionAdditionAlternative { $$ = append($1, $3) }
                               | /*empty*/ { $$ = make([]ChoiceExtension, 0) }
 ;
 
-ExtensionAdditionAlternativesList : ExtensionAdditionAlternative  { $$ = append(make([]ChoiceExtension, 0), $1) }
-                                  | ExtensionAdditionAlternativesList COMMA ExtensionAdditionAlternative  { $$ = append($1, $3) }
-;
-
 ExtensionAdditionAlternative : /*ExtensionAdditionAlternativesGroup
                              | */NamedType  { $$ = $1 }
 ;
diff --git a/y.go b/y.go
index af94e42..9f18e93 100644
--- a/y.go
+++ b/y.go
@@ -333,7 +333,7 @@ const yyEofCode = 1
 const yyErrCode = 2
 const yyInitialStackSize = 16
 
-//line asn1.y:1073
+//line asn1.y:1066
 
 //line yacctab:1
 var yyExca = [...]int16{
@@ -347,20 +347,20 @@ var yyExca = [...]int16{
 	31, 3,
 	-2, 2,
 	-1, 176,
-	44, 239,
-	94, 239,
-	-2, 235,
+	44, 234,
+	94, 234,
+	-2, 230,
 	-1, 178,
-	46, 242,
-	53, 242,
-	-2, 237,
+	46, 237,
+	53, 237,
+	-2, 232,
 	-1, 182,
-	60, 245,
-	-2, 243,
+	60, 240,
+	-2, 238,
 	-1, 191,
-	16, 264,
-	28, 264,
-	-2, 258,
+	16, 259,
+	28, 259,
+	-2, 253,
 	-1, 246,
 	30, 46,
 	84, 46,
@@ -368,87 +368,83 @@ var yyExca = [...]int16{
 	-1, 253,
 	32, 6,
 	-2, 4,
-	-1, 331,
-	46, 242,
-	53, 242,
-	-2, 238,
-	-1, 423,
-	30, 138,
-	-2, 132,
+	-1, 330,
+	46, 237,
+	53, 237,
+	-2, 233,
 }
 
 const yyPrivate = 57344
 
-const yyLast = 914
+const yyLast = 904
 
 var yyAct = [...]int16{
-	217, 203, 410, 216, 206, 376, 352, 218, 125, 17,
-	191, 175, 260, 319, 17, 315, 282, 292, 236, 335,
-	240, 278, 208, 249, 251, 200, 161, 182, 207, 180,
-	247, 178, 193, 263, 168, 157, 102, 215, 57, 142,
-	239, 3, 149, 5, 296, 38, 29, 418, 11, 9,
-	131, 266, 19, 19, 19, 166, 46, 298, 54, 46,
-	274, 19, 297, 413, 275, 231, 230, 223, 222, 61,
-	54, 202, 44, 163, 53, 44, 45, 232, 19, 45,
-	24, 225, 46, 167, 138, 148, 53, 64, 202, 19,
-	126, 23, 22, 10, 133, 21, 123, 419, 44, 202,
-	126, 267, 45, 35, 150, 188, 146, 135, 140, 213,
-	31, 264, 269, 417, 132, 127, 170, 36, 42, 270,
-	137, 19, 166, 121, 261, 120, 162, 160, 162, 60,
-	137, 209, 212, 159, 143, 153, 201, 47, 48, 59,
-	163, 431, 221, 320, 310, 50, 224, 229, 219, 219,
-	167, 139, 402, 211, 58, 126, 169, 219, 401, 214,
-	372, 134, 152, 237, 226, 254, 390, 220, 244, 387,
-	386, 321, 228, 246, 219, 338, 227, 233, 234, 248,
-	122, 333, 322, 170, 124, 219, 40, 162, 243, 44,
-	41, 242, 32, 245, 160, 62, 126, 272, 347, 279,
-	159, 126, 259, 317, 136, 141, 257, 4, 48, 327,
-	289, 27, 256, 433, 311, 284, 345, 271, 290, 346,
-	432, 291, 288, 169, 432, 424, 422, 408, 405, 293,
-	300, 302, 397, 396, 309, 389, 285, 328, 306, 308,
-	384, 283, 374, 295, 303, 287, 281, 262, 61, 254,
-	254, 4, 253, 255, 276, 299, 301, 427, 395, 365,
-	359, 304, 46, 305, 307, 294, 162, 162, 286, 280,
-	162, 314, 367, 15, 344, 162, 197, 325, 44, 316,
-	312, 130, 45, 340, 337, 4, 253, 255, 324, 349,
-	209, 353, 330, 212, 326, 129, 362, 331, 332, 162,
-	350, 30, 19, 18, 128, 357, 313, 348, 363, 47,
-	48, 7, 370, 19, 358, 19, 356, 355, 254, 423,
-	273, 361, 25, 377, 360, 202, 354, 329, 63, 163,
-	28, 364, 366, 369, 19, 18, 250, 13, 162, 426,
-	314, 373, 368, 371, 14, 318, 379, 337, 279, 14,
-	26, 4, 48, 238, 47, 48, 375, 4, 48, 255,
-	4, 253, 255, 382, 258, 383, 381, 385, 380, 55,
-	48, 4, 18, 19, 162, 48, 162, 323, 416, 399,
-	398, 378, 343, 392, 391, 342, 394, 341, 400, 339,
-	411, 404, 353, 55, 19, 166, 268, 265, 379, 379,
-	425, 403, 414, 415, 407, 39, 406, 209, 34, 1,
-	421, 420, 205, 163, 204, 210, 412, 409, 388, 185,
-	351, 119, 199, 167, 198, 411, 428, 429, 71, 430,
-	151, 241, 43, 362, 56, 37, 93, 277, 68, 76,
-	85, 98, 177, 92, 109, 99, 147, 235, 101, 137,
-	83, 81, 196, 80, 79, 78, 170, 66, 87, 84,
-	94, 113, 105, 90, 110, 89, 88, 160, 95, 112,
-	70, 195, 334, 159, 118, 103, 96, 192, 91, 106,
-	55, 19, 166, 107, 190, 189, 184, 108, 187, 186,
-	183, 181, 179, 114, 176, 393, 169, 104, 174, 173,
-	163, 115, 172, 171, 111, 116, 185, 86, 119, 117,
-	167, 67, 97, 194, 100, 33, 49, 51, 52, 165,
-	164, 155, 158, 93, 77, 156, 154, 252, 98, 82,
-	92, 109, 99, 72, 74, 65, 137, 69, 73, 196,
-	75, 6, 16, 170, 12, 87, 2, 94, 113, 105,
-	8, 110, 20, 88, 160, 95, 112, 0, 19, 166,
-	159, 118, 103, 96, 0, 91, 106, 47, 48, 327,
-	107, 0, 0, 0, 108, 0, 0, 163, 0, 336,
-	114, 0, 0, 169, 104, 0, 0, 167, 115, 0,
-	0, 111, 116, 0, 0, 119, 117, 328, 0, 97,
+	203, 217, 216, 373, 206, 125, 175, 191, 17, 291,
+	260, 318, 282, 17, 314, 334, 236, 240, 278, 249,
+	218, 251, 208, 161, 200, 180, 207, 263, 247, 178,
+	102, 193, 168, 182, 157, 215, 57, 239, 3, 142,
+	149, 5, 295, 38, 408, 29, 11, 9, 19, 19,
+	131, 266, 19, 46, 19, 54, 46, 138, 357, 415,
+	296, 19, 202, 126, 202, 297, 44, 54, 53, 44,
+	231, 202, 225, 45, 213, 230, 45, 274, 223, 46,
+	53, 275, 188, 148, 222, 232, 64, 24, 23, 22,
+	21, 10, 44, 137, 409, 123, 35, 31, 61, 45,
+	146, 267, 150, 132, 135, 140, 133, 42, 264, 127,
+	407, 36, 126, 269, 261, 120, 47, 48, 19, 166,
+	270, 60, 19, 166, 139, 162, 59, 162, 420, 50,
+	209, 212, 153, 143, 309, 126, 126, 163, 399, 335,
+	369, 163, 137, 224, 219, 219, 398, 167, 219, 201,
+	219, 167, 121, 211, 387, 221, 385, 219, 214, 152,
+	229, 384, 237, 226, 254, 40, 220, 244, 319, 122,
+	246, 228, 337, 134, 227, 332, 233, 234, 248, 62,
+	170, 136, 141, 44, 170, 58, 162, 243, 321, 242,
+	245, 160, 272, 124, 32, 160, 320, 159, 279, 346,
+	259, 159, 4, 48, 326, 316, 257, 288, 27, 287,
+	126, 271, 256, 283, 421, 344, 310, 403, 345, 289,
+	169, 41, 290, 401, 169, 422, 276, 350, 19, 166,
+	394, 393, 327, 308, 371, 284, 302, 4, 253, 255,
+	4, 253, 255, 299, 301, 292, 294, 163, 254, 254,
+	286, 305, 307, 281, 298, 300, 262, 167, 364, 46,
+	61, 312, 304, 306, 416, 162, 162, 313, 392, 162,
+	362, 15, 44, 356, 162, 303, 324, 315, 311, 45,
+	339, 336, 337, 293, 285, 323, 280, 343, 209, 197,
+	170, 212, 349, 325, 331, 330, 359, 162, 329, 30,
+	130, 160, 348, 354, 360, 129, 347, 159, 128, 7,
+	367, 357, 353, 355, 352, 19, 254, 19, 18, 358,
+	47, 48, 19, 19, 351, 357, 328, 273, 363, 361,
+	169, 366, 374, 202, 63, 313, 162, 25, 365, 28,
+	163, 250, 13, 336, 376, 418, 279, 19, 18, 14,
+	370, 372, 368, 317, 14, 26, 4, 48, 238, 258,
+	380, 379, 383, 378, 377, 4, 48, 255, 47, 48,
+	162, 382, 162, 4, 253, 255, 18, 389, 391, 388,
+	55, 48, 397, 55, 19, 166, 19, 48, 4, 322,
+	400, 406, 396, 395, 376, 376, 402, 404, 405, 375,
+	342, 341, 209, 163, 340, 413, 411, 338, 268, 185,
+	265, 119, 417, 167, 39, 34, 1, 410, 205, 204,
+	419, 210, 414, 412, 359, 386, 93, 381, 199, 198,
+	71, 98, 177, 92, 109, 99, 151, 241, 43, 137,
+	56, 37, 196, 277, 68, 76, 170, 85, 87, 147,
+	94, 113, 105, 235, 110, 101, 88, 160, 95, 112,
+	83, 81, 80, 159, 118, 103, 96, 79, 91, 106,
+	55, 19, 166, 107, 78, 66, 84, 108, 90, 89,
+	70, 195, 333, 114, 192, 190, 169, 104, 189, 184,
+	163, 115, 187, 186, 111, 116, 185, 183, 119, 117,
+	167, 181, 97, 194, 100, 179, 176, 390, 174, 173,
+	172, 171, 86, 93, 67, 33, 49, 51, 98, 52,
+	92, 109, 99, 165, 164, 155, 137, 158, 77, 196,
+	156, 154, 252, 170, 82, 87, 72, 94, 113, 105,
+	74, 110, 65, 88, 160, 95, 112, 69, 73, 75,
+	159, 118, 103, 96, 6, 91, 106, 47, 48, 326,
+	107, 16, 12, 2, 108, 8, 20, 0, 0, 0,
+	114, 0, 0, 169, 104, 0, 0, 0, 115, 0,
+	0, 111, 116, 0, 0, 119, 117, 327, 0, 97,
 	194, 100, 0, 0, 0, 0, 0, 0, 0, 0,
-	93, 0, 338, 0, 0, 98, 0, 92, 109, 99,
-	170, 0, 0, 0, 0, 0, 0, 0, 0, 0,
-	0, 160, 87, 0, 94, 113, 105, 159, 110, 0,
+	93, 0, 0, 0, 0, 98, 0, 92, 109, 99,
+	0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 87, 0, 94, 113, 105, 0, 110, 0,
 	88, 55, 95, 112, 0, 0, 0, 0, 118, 103,
 	96, 0, 91, 106, 0, 0, 0, 107, 0, 0,
-	169, 108, 0, 0, 0, 0, 0, 114, 0, 119,
+	0, 108, 0, 0, 0, 0, 0, 114, 0, 119,
 	0, 104, 0, 0, 0, 115, 0, 0, 111, 116,
 	0, 0, 0, 117, 93, 0, 97, 0, 100, 98,
 	0, 92, 109, 99, 0, 0, 0, 0, 0, 145,
@@ -477,101 +473,98 @@ var yyAct = [...]int16{
 }
 
 var yyPact = [...]int16{
-	365, -1000, -76, 285, -1000, -15, -1000, 327, 23, 14,
-	13, 2, 295, -1000, -1000, -1000, -1000, 179, -1000, -1000,
-	315, -66, -1000, -1000, -1000, -1000, -1000, 364, 43, -1000,
-	159, 35, -1000, 65, -71, 131, -1000, 363, 348, 97,
-	87, 218, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 363,
-	-1000, -1000, -1000, 313, 786, -1000, 83, -1000, 39, -1000,
-	-1000, 348, -1000, 786, 169, -1000, -1000, -1000, -1000, -1000,
+	382, -1000, -78, 283, -1000, -17, -1000, 340, 18, 11,
+	10, 9, 310, -1000, -1000, -1000, -1000, 176, -1000, -1000,
+	324, -67, -1000, -1000, -1000, -1000, -1000, 368, 30, -1000,
+	161, 28, -1000, 59, -73, 110, -1000, 374, 362, 84,
+	79, 230, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 374,
+	-1000, -1000, -1000, 319, 776, -1000, 73, -1000, 68, -1000,
+	-1000, 362, -1000, 776, 178, -1000, -1000, -1000, -1000, -1000,
 	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 49, -1000, -1000,
-	-1000, 278, 269, 255, -1000, -54, 48, -1000, 68, 58,
-	-89, 635, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 40, -17,
-	-1000, 365, -1000, 164, 47, -1000, 387, 250, 308, 366,
-	366, -1000, -1000, 82, 712, -25, -26, 164, 54, 712,
-	-27, -28, -6, 164, 786, 786, -1000, 345, -1000, -1000,
-	-1000, -1000, 303, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
-	-1000, -1000, -1000, 354, -1000, -1000, 181, 356, -1000, -1000,
-	-1000, 79, -1000, -1000, 217, -1000, -1000, 51, -1000, 7,
-	-1000, 66, -1000, 51, -1000, 387, -1000, -1000, -1000, -1000,
-	-1000, -1000, 304, 164, -39, 226, -1000, 366, 242, 216,
-	211, -1000, 79, 786, 241, 215, 192, -1000, -1000, 178,
-	191, -1000, 178, -1000, 199, 238, 213, -1000, -53, -36,
-	164, -1000, 712, 712, -1000, -1000, 199, 234, 164, -1000,
-	712, 712, 366, 164, 164, 109, -1000, -1000, -1000, 183,
-	-1000, 348, -1000, -1000, -1000, 183, -1000, 279, 354, -1000,
-	-1000, -1000, -1000, -1000, 171, -1000, 337, 135, 181, -1000,
-	149, 561, 310, -1000, 474, 474, -1000, -1000, 474, -1000,
-	-1000, -1000, 148, 551, 164, 248, -1000, 189, -1000, 166,
-	-1000, 308, 199, 366, -1000, 164, -1000, 309, 366, 201,
-	-1000, 366, 233, 307, -1000, 71, -1000, 47, 786, 164,
-	-1000, 164, -1000, 232, -1000, 164, -1000, 164, -1000, -1000,
-	-1000, 368, -1000, -1000, -1000, -1000, 245, 351, 287, -1000,
-	-1000, 335, -1000, -1000, -1000, -1000, 123, -1000, 333, 212,
-	-1000, -1000, -1000, -1000, -1000, -1000, 114, -1000, -1000, -1000,
-	-1000, -1000, -1000, -1000, 306, -1000, 366, 345, 211, -1000,
-	-1000, 210, -1000, -1000, 79, -1000, 137, 136, -1000, -1000,
-	-1000, 205, -1000, -1000, 164, -1000, -1000, -1000, 133, -1000,
-	135, -1000, 47, -1000, 387, -1000, 231, 203, 202, 164,
-	-1000, 125, 119, 199, 366, 198, -1000, -1000, 197, 45,
-	-1000, -1000, -1000, -1000, -1000, -1000, 366, 366, -1000, 0,
-	-1000, -1000, -1000, -1000, -1000, 366, -1000, 196, 302, 195,
-	-1000, -1000, -1000, 331, 230, -1000, -1000, -1000, -1000, -1000,
-	-1000, 192, 46, -1000, 45, 46, 104, -1000, 190, -1000,
-	194, -1000, 46, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, 43, -1000, -1000,
+	-1000, 282, 279, 274, -1000, -54, 37, -1000, 80, 31,
+	-89, 625, -1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, -1000, -1000, -1000, -1000, -1000, 34, -19,
+	-1000, 382, -1000, 104, 115, -1000, 377, 263, 316, 379,
+	379, -1000, -1000, 47, 702, -9, -15, 104, 45, 702,
+	-18, -23, 2, 104, 776, 776, -1000, 350, -1000, -1000,
+	-1000, -1000, 314, -1000, -1000, -1000, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 367, -1000, -1000, 181, 351, -1000, -1000,
+	-1000, 69, -1000, -1000, 226, -1000, -1000, 48, -1000, 7,
+	-1000, 67, -1000, 48, -1000, 377, -1000, -1000, -1000, -1000,
+	-1000, -1000, 311, 104, -22, 198, -1000, 379, 259, 223,
+	-1000, -1000, 69, 776, 257, 220, 179, -1000, -1000, 175,
+	192, -1000, 175, -1000, 215, 256, 216, -1000, -55, -28,
+	104, -1000, 702, 702, -1000, -1000, 215, 248, 104, -1000,
+	702, 702, 379, 104, 104, 99, -1000, -1000, -1000, 185,
+	-1000, 362, -1000, -1000, -1000, 185, -1000, 234, 367, -1000,
+	-1000, -1000, -1000, -1000, 173, -1000, 345, 160, 181, -1000,
+	155, 551, 309, -1000, 464, 464, -1000, -1000, 464, -1000,
+	-1000, -1000, 142, 111, 104, 261, -1000, 188, -1000, 167,
+	-1000, 316, 197, -1000, 104, -1000, 307, 379, 196, -1000,
+	379, 246, 294, -1000, 54, -1000, 115, 776, 104, -1000,
+	104, -1000, 243, -1000, 104, -1000, 104, -1000, -1000, -1000,
+	380, -1000, -1000, -1000, -1000, 231, 359, 285, -1000, -1000,
+	344, -1000, -1000, -1000, -1000, 103, -1000, 342, 204, -1000,
+	-1000, -1000, -1000, -1000, -1000, 221, -1000, -1000, -1000, -1000,
+	-1000, -1000, -1000, 315, -1000, 379, 350, -1000, -1000, -1000,
+	308, 69, -1000, 128, 123, -1000, -1000, -1000, -1000, -1000,
+	-1000, 104, -1000, -1000, -1000, 121, -1000, 160, -1000, 115,
+	-1000, 377, -1000, 241, 201, 200, 104, -1000, 113, 105,
+	197, -1000, -1000, 193, -1000, -1000, 187, -1000, -1000, -1000,
+	-1000, -1000, -1000, 379, 379, -1000, -3, -1000, -1000, -1000,
+	-1000, 379, -1000, 41, 237, -1000, -1000, -1000, -1000, -1000,
+	-1000, 179, -1000, -1000, -1000, 337, -1000, 42, 91, 195,
+	-1000, -1000, 42,
 }
 
 var yyPgo = [...]int16{
-	0, 34, 13, 40, 36, 1, 552, 550, 546, 337,
-	273, 544, 542, 541, 336, 15, 540, 538, 537, 535,
-	32, 534, 533, 529, 7, 24, 527, 23, 30, 35,
-	526, 10, 525, 524, 522, 521, 520, 519, 26, 18,
-	145, 518, 517, 516, 515, 20, 511, 507, 8, 503,
-	502, 499, 498, 495, 11, 494, 492, 31, 491, 29,
-	33, 27, 490, 489, 488, 486, 485, 484, 105, 477,
-	472, 471, 19, 470, 465, 463, 459, 457, 455, 454,
-	453, 451, 0, 3, 451, 37, 450, 448, 447, 446,
-	440, 439, 438, 437, 21, 435, 434, 38, 154, 118,
-	432, 431, 430, 428, 424, 422, 422, 6, 16, 420,
-	418, 417, 2, 416, 22, 415, 414, 4, 412, 411,
-	28, 409, 408, 405, 12, 25, 17, 404, 400, 400,
-	397, 396, 389, 387, 385, 382, 5, 381, 380, 379,
-	378, 377,
+	0, 32, 11, 37, 30, 0, 566, 565, 563, 342,
+	271, 562, 561, 554, 341, 14, 549, 548, 547, 542,
+	31, 540, 536, 534, 20, 21, 532, 19, 28, 34,
+	531, 7, 530, 528, 527, 525, 524, 523, 23, 16,
+	129, 519, 517, 516, 515, 17, 514, 512, 5, 511,
+	510, 509, 508, 507, 6, 506, 505, 29, 501, 25,
+	27, 33, 497, 493, 492, 489, 488, 485, 82, 484,
+	482, 481, 15, 480, 479, 478, 476, 475, 474, 467,
+	462, 461, 1, 2, 461, 35, 460, 455, 453, 449,
+	447, 445, 444, 443, 18, 441, 440, 36, 185, 107,
+	438, 437, 436, 430, 429, 428, 428, 427, 12, 425,
+	423, 422, 22, 421, 419, 4, 418, 417, 26, 416,
+	415, 414, 10, 24, 9, 414, 412, 412, 410, 408,
+	407, 404, 401, 400, 3, 399, 393, 392, 391, 389,
 }
 
 var yyR1 = [...]uint8{
-	0, 121, 4, 3, 45, 39, 5, 8, 13, 13,
+	0, 119, 4, 3, 45, 39, 5, 8, 13, 13,
 	11, 11, 9, 9, 9, 10, 12, 7, 7, 7,
-	7, 6, 6, 44, 44, 122, 122, 122, 123, 123,
+	7, 6, 6, 44, 44, 120, 120, 120, 121, 121,
 	95, 95, 96, 96, 97, 102, 102, 102, 102, 101,
 	101, 98, 98, 99, 100, 100, 100, 43, 43, 40,
 	40, 76, 15, 15, 42, 41, 20, 20, 20, 19,
 	19, 19, 19, 19, 19, 19, 19, 19, 19, 19,
 	19, 19, 19, 19, 19, 77, 77, 24, 31, 30,
-	30, 30, 30, 18, 35, 35, 17, 17, 115, 115,
-	114, 114, 38, 38, 32, 32, 22, 116, 116, 116,
-	118, 119, 117, 117, 120, 120, 33, 34, 34, 36,
+	30, 30, 30, 18, 35, 35, 17, 17, 113, 113,
+	112, 112, 38, 38, 32, 32, 22, 114, 114, 114,
+	116, 117, 115, 115, 118, 118, 33, 34, 34, 36,
 	36, 37, 37, 1, 1, 1, 1, 2, 2, 92,
 	92, 93, 93, 94, 94, 91, 21, 78, 78, 78,
-	125, 125, 126, 126, 85, 85, 85, 84, 127, 110,
-	110, 111, 111, 112, 112, 113, 128, 128, 83, 83,
-	82, 82, 82, 82, 80, 80, 80, 81, 81, 23,
-	23, 103, 104, 104, 104, 106, 108, 108, 109, 109,
-	107, 129, 105, 105, 86, 86, 86, 87, 88, 88,
-	89, 89, 89, 89, 79, 79, 16, 29, 29, 28,
-	28, 27, 27, 27, 27, 25, 25, 26, 14, 73,
-	73, 74, 74, 74, 74, 74, 74, 74, 74, 74,
-	74, 74, 74, 74, 75, 90, 90, 46, 46, 47,
-	47, 47, 47, 47, 47, 47, 47, 48, 49, 50,
-	51, 51, 51, 52, 53, 54, 54, 55, 55, 56,
-	57, 57, 58, 59, 59, 62, 60, 130, 130, 131,
-	131, 61, 61, 65, 65, 65, 65, 65, 63, 64,
-	69, 69, 70, 70, 71, 71, 72, 72, 68, 66,
-	67, 67, 132, 133, 133, 134, 135, 136, 136, 137,
-	138, 139, 139, 140, 140, 140, 140, 124, 124, 141,
-	141, 141,
+	123, 123, 124, 124, 85, 85, 84, 125, 109, 109,
+	110, 110, 111, 126, 126, 83, 83, 82, 82, 82,
+	82, 80, 80, 80, 81, 81, 23, 23, 103, 104,
+	104, 104, 106, 108, 108, 107, 127, 105, 105, 86,
+	86, 86, 87, 88, 88, 89, 89, 89, 89, 79,
+	79, 16, 29, 29, 28, 28, 27, 27, 27, 27,
+	25, 25, 26, 14, 73, 73, 74, 74, 74, 74,
+	74, 74, 74, 74, 74, 74, 74, 74, 74, 75,
+	90, 90, 46, 46, 47, 47, 47, 47, 47, 47,
+	47, 47, 48, 49, 50, 51, 51, 51, 52, 53,
+	54, 54, 55, 55, 56, 57, 57, 58, 59, 59,
+	62, 60, 128, 128, 129, 129, 61, 61, 65, 65,
+	65, 65, 65, 63, 64, 69, 69, 70, 70, 71,
+	71, 72, 72, 68, 66, 67, 67, 130, 131, 131,
+	132, 133, 134, 134, 135, 136, 137, 137, 138, 138,
+	138, 138, 122, 122, 139, 139, 139,
 }
 
 var yyR2 = [...]int8{
@@ -588,30 +581,29 @@ var yyR2 = [...]int8{
 	1, 1, 1, 3, 1, 1, 1, 1, 1, 1,
 	2, 1, 1, 1, 3, 5, 3, 1, 2, 2,
 	5, 1, 3, 4, 4, 2, 1, 3, 5, 4,
-	1, 2, 2, 0, 1, 5, 7, 1, 2, 2,
-	0, 1, 3, 1, 1, 4, 0, 2, 1, 3,
-	1, 2, 3, 3, 3, 5, 4, 3, 3, 1,
-	4, 4, 5, 1, 3, 1, 2, 0, 1, 3,
-	1, 4, 1, 3, 2, 3, 3, 4, 1, 1,
-	1, 1, 1, 0, 3, 3, 2, 3, 4, 1,
-	2, 1, 1, 1, 1, 1, 1, 4, 1, 1,
-	1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
-	1, 1, 1, 1, 2, 1, 1, 2, 1, 4,
-	4, 4, 4, 4, 4, 4, 4, 4, 1, 1,
-	1, 3, 5, 1, 1, 1, 2, 1, 3, 1,
-	1, 3, 1, 1, 2, 1, 2, 1, 1, 1,
-	1, 1, 3, 1, 1, 1, 1, 1, 1, 3,
-	1, 2, 1, 2, 1, 1, 1, 1, 2, 1,
-	3, 3, 1, 1, 1, 3, 5, 1, 3, 2,
-	2, 1, 0, 1, 1, 1, 0, 2, 0, 1,
-	1, 3,
+	1, 2, 2, 0, 1, 5, 1, 2, 3, 0,
+	1, 1, 4, 0, 2, 1, 3, 1, 2, 3,
+	3, 3, 5, 4, 3, 3, 1, 4, 4, 5,
+	1, 3, 1, 3, 0, 1, 4, 1, 3, 2,
+	3, 3, 4, 1, 1, 1, 1, 1, 0, 3,
+	3, 2, 3, 4, 1, 2, 1, 1, 1, 1,
+	1, 1, 4, 1, 1, 1, 1, 1, 1, 1,
+	1, 1, 1, 1, 1, 1, 1, 1, 1, 2,
+	1, 1, 2, 1, 4, 4, 4, 4, 4, 4,
+	4, 4, 4, 1, 1, 1, 3, 5, 1, 1,
+	1, 2, 1, 3, 1, 1, 3, 1, 1, 2,
+	1, 2, 1, 1, 1, 1, 1, 3, 1, 1,
+	1, 1, 1, 1, 3, 1, 2, 1, 2, 1,
+	1, 1, 1, 2, 1, 3, 3, 1, 1, 1,
+	3, 5, 1, 3, 2, 2, 1, 0, 1, 1,
+	1, 0, 2, 0, 1, 1, 3,
 }
 
 var yyChk = [...]int16{
-	-1000, -121, -8, -3, 6, 119, -13, 26, -7, 64,
+	-1000, -119, -8, -3, 6, 119, -13, 26, -7, 64,
 	108, 63, -11, -9, -14, -10, -12, -5, 8, 7,
 	-6, 72, 78, 78, 78, 27, -9, 32, 15, 112,
-	-10, 67, 33, -44, -122, 68, 52, -95, 116, -123,
+	-10, 67, 33, -44, -120, 68, 52, -95, 116, -121,
 	55, -98, -99, -100, -4, -3, -45, 6, 7, -43,
 	-40, -42, -41, -4, -45, 6, -96, -97, -98, 42,
 	42, 30, -40, 15, -20, -19, -77, -46, -92, -18,
@@ -628,77 +620,75 @@ var yyChk = [...]int16{
 	69, -49, -50, -51, -52, -54, -55, 55, -57, -56,
 	-59, -58, -61, -62, -65, 32, -63, -64, -68, -66,
 	-67, -31, -69, -20, 126, -71, 65, 26, -104, -105,
-	-125, -24, 17, -5, -116, -118, -117, -120, -114, -5,
-	-115, -114, -5, 27, -125, -85, -83, -82, -24, 103,
-	-20, -24, 93, 93, -48, 27, -125, -85, -20, -24,
+	-123, -24, 17, -5, -114, -116, -115, -118, -112, -5,
+	-113, -112, -5, 27, -123, -85, -83, -82, -24, 103,
+	-20, -24, 93, 93, -48, 27, -123, -85, -20, -24,
 	93, 93, 83, -20, -20, -88, -39, -15, 8, -3,
 	-45, -101, -97, -29, -15, -3, -45, -28, -15, -27,
 	-14, -25, -26, 7, -5, 8, 31, 25, 8, -1,
-	-124, 45, 30, -60, 60, -130, 44, 94, -131, 46,
+	-122, 45, 30, -60, 60, -128, 44, 94, -129, 46,
 	53, -60, -54, 16, 99, 103, 28, -93, -94, -5,
-	27, 30, -108, 30, -124, -20, 27, 30, 30, 32,
-	27, 30, -126, 30, 27, 30, 97, 115, 93, -20,
-	-24, -20, -24, -126, 27, -20, -24, -20, -24, -5,
-	35, 31, -97, 27, -27, -15, -28, 32, 8, -2,
-	8, 36, 33, -141, -38, -15, -20, 8, 36, 17,
-	-61, -57, -59, 33, -70, -72, 28, -31, 61, -132,
-	-48, -133, -134, -135, 26, 27, 30, 32, -125, -24,
-	-126, -109, -107, -24, 17, -120, -38, -15, -114, 27,
-	17, -125, -82, -31, -20, 27, -45, 27, -25, -15,
-	25, 8, 37, 8, 30, -72, -136, 17, -137, -5,
-	-94, -39, -15, -108, 30, -124, 33, 33, -110, 30,
-	33, -2, -31, -53, -54, 27, 30, 30, -138, -139,
-	-48, 33, 33, -126, -107, 30, -126, -127, 30, -111,
-	-112, -82, -113, 18, -136, -136, -140, 113, 47, 97,
-	-119, -117, 30, 17, 30, -128, 8, 27, -83, -112,
-	-83, 37, 30, 19,
+	27, 30, -108, -122, -20, 27, 30, 30, 32, 27,
+	30, -124, 30, 27, 30, 97, 115, 93, -20, -24,
+	-20, -24, -124, 27, -20, -24, -20, -24, -5, 35,
+	31, -97, 27, -27, -15, -28, 32, 8, -2, 8,
+	36, 33, -139, -38, -15, -20, 8, 36, 17, -61,
+	-57, -59, 33, -70, -72, 28, -31, 61, -130, -48,
+	-131, -132, -133, 26, 27, 30, 32, -123, -24, -124,
+	30, 17, -118, -38, -15, -112, 27, 17, -123, -82,
+	-31, -20, 27, -45, 27, -25, -15, 25, 8, 37,
+	8, 30, -72, -134, 17, -135, -5, -94, -39, -15,
+	-108, -107, -24, -122, 33, 33, -109, 33, -2, -31,
+	-53, -54, 27, 30, 30, -136, -137, -48, 33, 33,
+	-124, 30, -124, 30, -134, -134, -138, 113, 47, 97,
+	-117, -115, -110, -82, -111, 18, 27, -126, 8, -83,
+	37, 19, 30,
 }
 
 var yyDef = [...]int16{
 	0, -2, 0, 9, 3, 20, 7, 0, 22, 0,
-	0, 0, 0, 10, 12, 13, 14, 198, 15, 6,
+	0, 0, 0, 10, 12, 13, 14, 193, 15, 6,
 	0, 0, 17, 18, 19, 8, 11, 0, 0, 21,
 	0, -2, 16, 0, 31, 29, 1, 0, 33, 0,
 	0, 28, 41, 43, 44, 45, 46, -2, 4, 23,
 	47, 49, 50, 0, 0, 2, 0, 32, 0, 25,
 	26, 0, 48, 0, 0, 56, 57, 58, 59, 60,
 	61, 62, 63, 64, 65, 66, 67, 68, 69, 70,
-	71, 72, 73, 74, 75, 76, 218, 0, 83, 199,
-	200, 0, 0, 86, 126, 0, 0, 106, 0, 0,
-	159, 0, 51, 215, 216, 201, 202, 203, 204, 205,
-	206, 207, 208, 209, 210, 211, 212, 213, 0, 183,
-	30, 0, 42, 54, 0, 217, 0, 119, 0, 0,
-	0, 186, 125, 0, 0, 0, 0, 0, 0, 0,
-	0, 0, 0, 174, 0, 0, 214, 0, 180, 181,
-	182, 34, 35, 55, 78, 79, 80, 81, 82, 84,
+	71, 72, 73, 74, 75, 76, 213, 0, 83, 194,
+	195, 0, 0, 86, 126, 0, 0, 106, 0, 0,
+	156, 0, 51, 210, 211, 196, 197, 198, 199, 200,
+	201, 202, 203, 204, 205, 206, 207, 208, 0, 178,
+	30, 0, 42, 54, 0, 212, 0, 119, 0, 0,
+	0, 181, 125, 0, 0, 0, 0, 0, 0, 0,
+	0, 0, 0, 169, 0, 0, 209, 0, 175, 176,
+	177, 34, 35, 55, 78, 79, 80, 81, 82, 84,
 	85, 94, 95, 0, 107, 108, 92, 0, 109, 111,
-	112, 288, 228, 229, 230, 233, -2, 0, -2, 0,
-	240, 0, -2, 0, 251, 0, 253, 254, 255, 256,
-	257, -2, 0, 269, 0, 260, 265, 0, 0, 163,
-	167, 172, 130, 0, 0, 97, 100, 102, 104, 105,
-	0, 88, 0, 127, 133, 0, 134, 148, 150, 0,
-	184, 185, 0, 0, 268, 154, 133, 0, 157, 158,
-	0, 0, 0, 175, 176, 0, 178, 179, 5, 0,
-	53, 36, 37, 39, 40, 45, -2, 0, 194, 189,
-	191, 192, 193, -2, 198, 195, 0, 0, 93, 110,
-	0, 0, 0, 236, 0, 0, 247, 248, 0, 249,
-	250, 244, 0, 0, 0, 0, 261, 0, 121, 0,
-	161, 0, 133, 0, 131, 77, 96, 0, 0, 0,
-	87, 0, 0, 0, 129, 0, 151, 0, 0, 221,
-	225, 222, 226, 0, 156, 219, 223, 220, 224, 160,
-	177, 0, 38, 187, 190, 194, 0, 0, 114, 116,
-	117, 0, 227, 287, 289, 290, 0, 92, 0, 231,
-	246, -2, 241, 252, 259, 262, 0, 266, 267, 270,
-	272, 271, 273, 274, 0, 120, 0, 0, 167, 173,
-	164, 166, 168, 170, 288, 103, 0, 0, 89, 128,
-	132, 140, 149, 152, 153, 155, 52, 188, 0, 196,
-	0, 118, 0, 93, 0, 263, 0, 0, 277, 282,
-	122, 0, 0, 133, 0, 98, 90, 91, 133, 0,
-	197, 115, 291, 232, 234, 275, 0, 0, 279, 286,
-	281, 123, 124, 162, 169, 0, 135, 0, 0, 139,
-	141, 143, 144, 146, 0, 278, 280, 283, 284, 285,
-	99, 101, 0, -2, 0, 0, 0, 276, 136, 142,
-	0, 147, 0, 145,
+	112, 283, 223, 224, 225, 228, -2, 0, -2, 0,
+	235, 0, -2, 0, 246, 0, 248, 249, 250, 251,
+	252, -2, 0, 264, 0, 255, 260, 0, 0, 160,
+	164, 167, 130, 0, 0, 97, 100, 102, 104, 105,
+	0, 88, 0, 127, 133, 0, 134, 145, 147, 0,
+	179, 180, 0, 0, 263, 151, 133, 0, 154, 155,
+	0, 0, 0, 170, 171, 0, 173, 174, 5, 0,
+	53, 36, 37, 39, 40, 45, -2, 0, 189, 184,
+	186, 187, 188, -2, 193, 190, 0, 0, 93, 110,
+	0, 0, 0, 231, 0, 0, 242, 243, 0, 244,
+	245, 239, 0, 0, 0, 0, 256, 0, 121, 0,
+	158, 0, 133, 131, 77, 96, 0, 0, 0, 87,
+	0, 0, 0, 129, 0, 148, 0, 0, 216, 220,
+	217, 221, 0, 153, 214, 218, 215, 219, 157, 172,
+	0, 38, 182, 185, 189, 0, 0, 114, 116, 117,
+	0, 222, 282, 284, 285, 0, 92, 0, 226, 241,
+	-2, 236, 247, 254, 257, 0, 261, 262, 265, 267,
+	266, 268, 269, 0, 120, 0, 0, 164, 168, 161,
+	0, 283, 103, 0, 0, 89, 128, 132, 139, 146,
+	149, 150, 152, 52, 183, 0, 191, 0, 118, 0,
+	93, 0, 258, 0, 0, 272, 277, 122, 0, 0,
+	133, 163, 165, 98, 90, 91, 133, 192, 115, 286,
+	227, 229, 270, 0, 0, 274, 281, 276, 123, 124,
+	159, 0, 135, 0, 0, 273, 275, 278, 279, 280,
+	99, 101, 138, 140, 141, 143, 271, 0, 0, 0,
+	144, 142, 0,
 }
 
 var yyTok1 = [...]int8{
@@ -1064,145 +1054,145 @@ yydefault:
 
 	case 1:
 		yyDollar = yyS[yypt-8 : yypt+1]
-//line asn1.y:341
+//line asn1.y:339
 		{
 			yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: yyDollar[1].ModuleIdentifier, TagDefault: yyDollar[3].TagDefault, ExtensibilityImplied: yyDollar[4].ExtensionDefault, ModuleBody: yyDollar[7].ModuleBody}
 		}
 	case 2:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:344
+//line asn1.y:342
 		{
 			yyVAL.TypeReference = TypeReference(yyDollar[1].name)
 		}
 	case 4:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:349
+//line asn1.y:347
 		{
 			yyVAL.ValueReference = ValueReference(yyDollar[1].name)
 		}
 	case 7:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:360
+//line asn1.y:358
 		{
 			yyVAL.ModuleIdentifier = ModuleIdentifier{Reference: yyDollar[1].name, DefinitiveIdentifier: yyDollar[2].DefinitiveIdentifier}
 		}
 	case 8:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:363
+//line asn1.y:361
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(yyDollar[2].DefinitiveObjIdComponentList)
 		}
 	case 9:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:364
+//line asn1.y:362
 		{
 			yyVAL.DefinitiveIdentifier = DefinitiveIdentifier(make([]DefinitiveObjIdComponent, 0))
 		}
 	case 10:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:367
+//line asn1.y:365
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(make([]DefinitiveObjIdComponent, 0), yyDollar[1].DefinitiveObjIdComponent)
 		}
 	case 11:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:368
+//line asn1.y:366
 		{
 			yyVAL.DefinitiveObjIdComponentList = append(yyDollar[1].DefinitiveObjIdComponentList, yyDollar[2].DefinitiveObjIdComponent)
 		}
 	case 12:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:371
+//line asn1.y:369
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name}
 		}
 	case 13:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:372
+//line asn1.y:370
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Id: yyDollar[1].Number.IntValue()}
 		}
 	case 14:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:373
+//line asn1.y:371
 		{
 			yyVAL.DefinitiveObjIdComponent = yyDollar[1].DefinitiveObjIdComponent
 		}
 	case 15:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:376
+//line asn1.y:374
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 16:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:380
+//line asn1.y:378
 		{
 			yyVAL.DefinitiveObjIdComponent = DefinitiveObjIdComponent{Name: yyDollar[1].name, Id: yyDollar[3].Number.IntValue()}
 		}
 	case 17:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:383
+//line asn1.y:381
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 18:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:384
+//line asn1.y:382
 		{
 			yyVAL.TagDefault = TAGS_IMPLICIT
 		}
 	case 19:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:385
+//line asn1.y:383
 		{
 			yyVAL.TagDefault = TAGS_AUTOMATIC
 		}
 	case 20:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:386
+//line asn1.y:384
 		{
 			yyVAL.TagDefault = TAGS_EXPLICIT
 		}
 	case 21:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:389
+//line asn1.y:387
 		{
 			yyVAL.ExtensionDefault = true
 		}
 	case 22:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:390
+//line asn1.y:388
 		{
 			yyVAL.ExtensionDefault = false
 		}
 	case 23:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:393
+//line asn1.y:391
 		{
 			yyVAL.ModuleBody = ModuleBody{Imports: yyDollar[2].Imports, AssignmentList: yyDollar[3].AssignmentList}
 		}
 	case 24:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:394
+//line asn1.y:392
 		{
 			yyVAL.ModuleBody = ModuleBody{}
 		}
 	case 30:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:407
+//line asn1.y:405
 		{
 			yyVAL.Imports = yyDollar[2].Imports
 		}
 	case 31:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:408
+//line asn1.y:406
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 32:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:412
+//line asn1.y:410
 		{
 			yyVAL.Imports = yyDollar[1].Imports
 			for i, j := 0, len(yyVAL.Imports)-1; i < j; i, j = i+1, j-1 {
@@ -1211,1041 +1201,1011 @@ yydefault:
 		}
 	case 33:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:413
+//line asn1.y:411
 		{
 			yyVAL.Imports = make([]SymbolsFromModule, 0)
 		}
 	case 34:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:419
+//line asn1.y:417
 		{
 			yyVAL.Imports = yyDollar[3].Imports
 			yyVAL.Imports[len(yyVAL.Imports)-1].SymbolList = yyDollar[1].SymbolList
 		}
 	case 35:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:422
+//line asn1.y:420
 		{
 			yyVAL.Imports = []SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, nil}}}
 		}
 	case 36:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:423
+//line asn1.y:421
 		{
 			yyVAL.Imports = []SymbolsFromModule{{Module: GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}}}
 		}
 	case 37:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:424
+//line asn1.y:422
 		{
 			yyVAL.Imports = append(yyDollar[2].Imports, SymbolsFromModule{Module: GlobalModuleReference{yyDollar[1].name, nil}})
 		}
 	case 38:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:425
+//line asn1.y:423
 		{
 			yyVAL.Imports = append(yyDollar[3].Imports, SymbolsFromModule{Module: GlobalModuleReference{yyDollar[1].name, yyDollar[2].Value}})
 		}
 	case 39:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:428
+//line asn1.y:426
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 40:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:429
+//line asn1.y:427
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
 	case 41:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:432
+//line asn1.y:430
 		{
 			yyVAL.SymbolList = append(make([]Symbol, 0), yyDollar[1].Symbol)
 		}
 	case 42:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:433
+//line asn1.y:431
 		{
 			yyVAL.SymbolList = append(yyDollar[1].SymbolList, yyDollar[3].Symbol)
 		}
 	case 44:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:440
+//line asn1.y:438
 		{
 			yyVAL.Symbol = TypeReference(yyDollar[1].TypeReference)
 		}
 	case 45:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:441
+//line asn1.y:439
 		{
 			yyVAL.Symbol = ModuleReference(yyDollar[1].name)
 		}
 	case 46:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:442
+//line asn1.y:440
 		{
 			yyVAL.Symbol = ValueReference(yyDollar[1].ValueReference)
 		}
 	case 47:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:448
+//line asn1.y:446
 		{
 			yyVAL.AssignmentList = AssignmentList{yyDollar[1].Assignment}
 		}
 	case 48:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:449
+//line asn1.y:447
 		{
 			yyVAL.AssignmentList = append(yyDollar[1].AssignmentList, yyDollar[2].Assignment)
 		}
 	case 51:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:465
+//line asn1.y:463
 		{
 			yyVAL.Type = yyDollar[1].TypeReference
 		}
 	case 52:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:473
+//line asn1.y:471
 		{
 			yyVAL.DefinedValue = DefinedValue{ModuleReference(yyDollar[1].name), yyDollar[3].ValueReference}
 		}
 	case 53:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:474
+//line asn1.y:472
 		{
 			yyVAL.DefinedValue = DefinedValue{ValueName: yyDollar[1].ValueReference}
 		}
 	case 54:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:489
+//line asn1.y:487
 		{
 			yyVAL.Assignment = TypeAssignment{yyDollar[1].TypeReference, yyDollar[3].Type}
 		}
 	case 55:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:492
+//line asn1.y:490
 		{
 			yyVAL.Assignment = ValueAssignment{yyDollar[1].ValueReference, yyDollar[2].Type, yyDollar[4].Value}
 		}
 	case 77:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:539
+//line asn1.y:537
 		{
 			yyVAL.NamedType = NamedType{Identifier: Identifier(yyDollar[1].name), Type: yyDollar[2].Type}
 		}
 	case 81:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:562
+//line asn1.y:560
 		{
 			yyVAL.Value = yyDollar[1].ObjectIdentifierValue
 		}
 	case 83:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:575
+//line asn1.y:573
 		{
 			yyVAL.Type = BooleanType{}
 		}
 	case 84:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:578
+//line asn1.y:576
 		{
 			yyVAL.Value = Boolean(true)
 		}
 	case 85:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:579
+//line asn1.y:577
 		{
 			yyVAL.Value = Boolean(false)
 		}
 	case 86:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:584
+//line asn1.y:582
 		{
 			yyVAL.Type = IntegerType{}
 		}
 	case 87:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:585
+//line asn1.y:583
 		{
 			yyVAL.Type = IntegerType{yyDollar[3].NamedNumberList}
 		}
 	case 88:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:588
+//line asn1.y:586
 		{
 			yyVAL.NamedNumberList = []NamedNumber{yyDollar[1].NamedNumber}
 		}
 	case 89:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:589
+//line asn1.y:587
 		{
 			yyVAL.NamedNumberList = append(yyDollar[1].NamedNumberList, yyDollar[3].NamedNumber)
 		}
 	case 90:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:592
+//line asn1.y:590
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].Number}
 		}
 	case 91:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:593
+//line asn1.y:591
 		{
 			yyVAL.NamedNumber = NamedNumber{Identifier(yyDollar[1].name), yyDollar[3].DefinedValue}
 		}
 	case 92:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:596
+//line asn1.y:594
 		{
 			yyVAL.Number = yyDollar[1].Number
 		}
 	case 93:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:597
+//line asn1.y:595
 		{
 			yyVAL.Number = yyDollar[2].Number.UnaryMinus()
 		}
 	case 94:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:602
+//line asn1.y:600
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
 	case 95:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:603
+//line asn1.y:601
 		{
 			yyVAL.Value = IdentifiedIntegerValue{Name: yyDollar[1].name}
 		}
 	case 96:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:608
+//line asn1.y:606
 		{
 			yyVAL.Type = yyDollar[3].EnumeratedType
 		}
 	case 97:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:611
+//line asn1.y:609
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 98:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:612
+//line asn1.y:610
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration}
 		}
 	case 99:
 		yyDollar = yyS[yypt-6 : yypt+1]
-//line asn1.y:613
+//line asn1.y:611
 		{
 			yyVAL.EnumeratedType = EnumeratedType{RootEnumeration: yyDollar[1].Enumeration, AdditionalEnumeration: yyDollar[6].Enumeration}
 		}
 	case 102:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:621
+//line asn1.y:619
 		{
 			yyVAL.Enumeration = []EnumerationItem{yyDollar[1].EnumerationItem}
 		}
 	case 103:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:622
+//line asn1.y:620
 		{
 			yyVAL.Enumeration = append(yyDollar[1].Enumeration, yyDollar[3].EnumerationItem)
 		}
 	case 104:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:625
+//line asn1.y:623
 		{
 			yyVAL.EnumerationItem = yyDollar[1].NamedNumber
 		}
 	case 105:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:626
+//line asn1.y:624
 		{
 			yyVAL.EnumerationItem = Identifier(yyDollar[1].name)
 		}
 	case 106:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:631
+//line asn1.y:629
 		{
 			yyVAL.Type = RealType{}
 		}
 	case 109:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:640
+//line asn1.y:638
 		{
 			yyVAL.Value = yyDollar[1].Real
 		}
 	case 110:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:641
+//line asn1.y:639
 		{
 			yyVAL.Value = yyDollar[2].Real.UnaryMinus()
 		}
 	case 111:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:645
+//line asn1.y:643
 		{
 			yyVAL.Value = Real(math.Inf(1))
 		}
 	case 112:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:646
+//line asn1.y:644
 		{
 			yyVAL.Value = Real(math.Inf(-1))
 		}
 	case 113:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:650
+//line asn1.y:648
 		{
 			yyVAL.Real = parseRealNumber(yyDollar[1].Number, 0, 0)
 		}
 	case 114:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:651
+//line asn1.y:649
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, 0)
 		}
 	case 115:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:652
+//line asn1.y:650
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, yyDollar[3].numberRepr, yyDollar[5].Number)
 		}
 	case 116:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:653
+//line asn1.y:651
 		{
 			yyVAL.Real = parseRealLiteral(yyDollar[1].numberRepr, "0", yyDollar[3].Number)
 		}
 	case 118:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:657
+//line asn1.y:655
 		{
 			yyVAL.Number = Number(-int(yyDollar[2].Number))
 		}
 	case 119:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:662
+//line asn1.y:660
 		{
 			yyVAL.Type = BitStringType{}
 		}
 	case 120:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:663
+//line asn1.y:661
 		{
 			yyVAL.Type = BitStringType{NamedBits: yyDollar[4].NamedBitList}
 		}
 	case 121:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:666
+//line asn1.y:664
 		{
 			yyVAL.NamedBitList = append(make([]NamedBit, 0), yyDollar[1].NamedBit)
 		}
 	case 122:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:667
+//line asn1.y:665
 		{
 			yyVAL.NamedBitList = append(yyDollar[1].NamedBitList, yyDollar[3].NamedBit)
 		}
 	case 123:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:670
+//line asn1.y:668
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].Number}
 		}
 	case 124:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:671
+//line asn1.y:669
 		{
 			yyVAL.NamedBit = NamedBit{Name: Identifier(yyDollar[1].name), Index: yyDollar[3].DefinedValue}
 		}
 	case 125:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:676
+//line asn1.y:674
 		{
 			yyVAL.Type = OctetStringType{}
 		}
 	case 126:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:681
+//line asn1.y:679
 		{
 			yyVAL.Type = NullType{}
 		}
 	case 127:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:686
+//line asn1.y:684
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 128:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:687
+//line asn1.y:685
 		{
 			yyVAL.Type = SequenceType{}
 		}
 	case 129:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:688
+//line asn1.y:686
 		{
 			yyVAL.Type = SequenceType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
 	case 134:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:700
+//line asn1.y:698
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList}
 		}
 	case 135:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:701
+//line asn1.y:699
 		{
 			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions}
 		}
-	case 136:
-		yyDollar = yyS[yypt-7 : yypt+1]
-//line asn1.y:702
-		{
-			yyVAL.ComponentTypeLists = ComponentTypeLists{Components: yyDollar[1].ComponentTypeList, ExtensionAdditions: yyDollar[4].ExtensionAdditions, TrailingComponents: yyDollar[7].ComponentTypeList}
-		}
-	case 139:
-		yyDollar = yyS[yypt-2 : yypt+1]
+	case 138:
+		yyDollar = yyS[yypt-3 : yypt+1]
 //line asn1.y:714
 		{
-			yyVAL.ExtensionAdditions = yyDollar[2].ExtensionAdditions
+			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
 		}
-	case 140:
+	case 139:
 		yyDollar = yyS[yypt-0 : yypt+1]
 //line asn1.y:715
 		{
 			yyVAL.ExtensionAdditions = nil
 		}
-	case 141:
+	case 140:
 		yyDollar = yyS[yypt-1 : yypt+1]
 //line asn1.y:718
-		{
-			yyVAL.ExtensionAdditions = append([]ExtensionAddition{}, yyDollar[1].ExtensionAdditions...)
-		}
-	case 142:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:719
-		{
-			yyVAL.ExtensionAdditions = append(yyDollar[1].ExtensionAdditions, yyDollar[3].ExtensionAdditions...)
-		}
-	case 143:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:722
 		{
 			yyVAL.ExtensionAdditions = []ExtensionAddition{yyDollar[1].ComponentType}
 		}
-	case 145:
+	case 142:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:727
+//line asn1.y:723
 		{
 			yyVAL.ExtensionAdditions = make([]ExtensionAddition, 0)
 			for _, component := range yyDollar[3].ComponentTypeList {
 				yyVAL.ExtensionAdditions = append(yyVAL.ExtensionAdditions, component)
 			}
 		}
-	case 148:
+	case 145:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:734
+//line asn1.y:730
 		{
 			yyVAL.ComponentTypeList = append(make(ComponentTypeList, 0), yyDollar[1].ComponentType)
 		}
-	case 149:
+	case 146:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:735
+//line asn1.y:731
 		{
 			yyVAL.ComponentTypeList = append(yyDollar[1].ComponentTypeList, yyDollar[3].ComponentType)
 		}
-	case 150:
+	case 147:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:738
+//line asn1.y:734
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType}
 		}
-	case 151:
+	case 148:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:739
+//line asn1.y:735
 		{
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, IsOptional: true}
 		}
-	case 152:
+	case 149:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:740
+//line asn1.y:736
 		{
 			cpy := yyDollar[3].Value
 			yyVAL.ComponentType = NamedComponentType{NamedType: yyDollar[1].NamedType, Default: &cpy}
 		}
-	case 153:
+	case 150:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:741
+//line asn1.y:737
 		{
 			yyVAL.ComponentType = ComponentsOfComponentType{Type: yyDollar[3].Type}
 		}
-	case 154:
+	case 151:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:746
+//line asn1.y:742
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 155:
+	case 152:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:747
+//line asn1.y:743
 		{
 			yyVAL.Type = SetType{}
 		}
-	case 156:
+	case 153:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:748
+//line asn1.y:744
 		{
 			yyVAL.Type = SetType{Components: append(yyDollar[3].ComponentTypeLists.Components, yyDollar[3].ComponentTypeLists.TrailingComponents...), ExtensionAdditions: yyDollar[3].ComponentTypeLists.ExtensionAdditions}
 		}
-	case 157:
+	case 154:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:753
+//line asn1.y:749
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].Type}
 		}
-	case 158:
+	case 155:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:754
+//line asn1.y:750
 		{
 			yyVAL.Type = SetOfType{yyDollar[3].NamedType}
 		}
-	case 159:
+	case 156:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:758
+//line asn1.y:754
 		{
 			yyVAL.Type = AnyType{}
 		}
-	case 160:
+	case 157:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:759
+//line asn1.y:755
 		{
 			yyVAL.Type = AnyType{Identifier(yyDollar[4].name)}
 		}
-	case 161:
+	case 158:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:764
+//line asn1.y:760
 		{
 			yyVAL.Type = yyDollar[3].ChoiceType
 		}
-	case 162:
+	case 159:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:767
+//line asn1.y:763
 		{
 			yyVAL.ChoiceType = ChoiceType{yyDollar[1].AlternativeTypeList, yyDollar[4].ExtensionAdditionAlternativesList}
 		}
-	case 163:
+	case 160:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:768
+//line asn1.y:764
 		{
 			yyVAL.ChoiceType = ChoiceType{AlternativeTypeList: yyDollar[1].AlternativeTypeList}
 		}
-	case 164:
+	case 161:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:769
+//line asn1.y:765
 		{
 			yyVAL.ChoiceType = ChoiceType{nil, yyDollar[2].ExtensionAdditionAlternativesList}
 		}
-	case 166:
-		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:776
+	case 163:
+		yyDollar = yyS[yypt-3 : yypt+1]
+//line asn1.y:773
 		{
-			yyVAL.ExtensionAdditionAlternativesList = yyDollar[2].ExtensionAdditionAlternativesList
+			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
 		}
-	case 167:
+	case 164:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:777
+//line asn1.y:774
 		{
 			yyVAL.ExtensionAdditionAlternativesList = make([]ChoiceExtension, 0)
 		}
-	case 168:
+	case 165:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:780
-		{
-			yyVAL.ExtensionAdditionAlternativesList = append(make([]ChoiceExtension, 0), yyDollar[1].ExtensionAdditionAlternative)
-		}
-	case 169:
-		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:781
-		{
-			yyVAL.ExtensionAdditionAlternativesList = append(yyDollar[1].ExtensionAdditionAlternativesList, yyDollar[3].ExtensionAdditionAlternative)
-		}
-	case 170:
-		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:785
+//line asn1.y:778
 		{
 			yyVAL.ExtensionAdditionAlternative = yyDollar[1].NamedType
 		}
-	case 172:
+	case 167:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:792
+//line asn1.y:785
 		{
 			yyVAL.AlternativeTypeList = append(make([]NamedType, 0), yyDollar[1].NamedType)
 		}
-	case 173:
+	case 168:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:793
+//line asn1.y:786
 		{
 			yyVAL.AlternativeTypeList = append(yyDollar[1].AlternativeTypeList, yyDollar[3].NamedType)
 		}
-	case 174:
+	case 169:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:798
+//line asn1.y:791
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[2].Type}
 		}
-	case 175:
+	case 170:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:799
+//line asn1.y:792
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_IMPLICIT, HasTagType: true}
 		}
-	case 176:
+	case 171:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:800
+//line asn1.y:793
 		{
 			yyVAL.Type = TaggedType{Tag: yyDollar[1].Tag, Type: yyDollar[3].Type, TagType: TAGS_EXPLICIT, HasTagType: true}
 		}
-	case 177:
+	case 172:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:803
+//line asn1.y:796
 		{
 			yyVAL.Tag = Tag{Class: yyDollar[2].Class, ClassNumber: yyDollar[3].Value}
 		}
-	case 178:
+	case 173:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:806
+//line asn1.y:799
 		{
 			yyVAL.Value = yyDollar[1].Number
 		}
-	case 179:
+	case 174:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:807
+//line asn1.y:800
 		{
 			yyVAL.Value = yyDollar[1].DefinedValue
 		}
-	case 180:
+	case 175:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:810
+//line asn1.y:803
 		{
 			yyVAL.Class = CLASS_UNIVERSAL
 		}
-	case 181:
+	case 176:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:811
+//line asn1.y:804
 		{
 			yyVAL.Class = CLASS_APPLICATION
 		}
-	case 182:
+	case 177:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:812
+//line asn1.y:805
 		{
 			yyVAL.Class = CLASS_PRIVATE
 		}
-	case 183:
+	case 178:
 		yyDollar = yyS[yypt-0 : yypt+1]
-//line asn1.y:813
+//line asn1.y:806
 		{
 			yyVAL.Class = CLASS_CONTEXT_SPECIFIC
 		}
-	case 184:
+	case 179:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:818
+//line asn1.y:811
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].Type}
 		}
-	case 185:
+	case 180:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:819
+//line asn1.y:812
 		{
 			yyVAL.Type = SequenceOfType{yyDollar[3].NamedType}
 		}
-	case 186:
+	case 181:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:824
+//line asn1.y:817
 		{
 			yyVAL.Type = ObjectIdentifierType{}
 		}
-	case 187:
+	case 182:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:829
+//line asn1.y:822
 		{
 			yyVAL.ObjectIdentifierValue = yyDollar[2].ObjectIdentifierValue
 		}
-	case 188:
+	case 183:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:830
+//line asn1.y:823
 		{
 			cpy := yyDollar[2].DefinedValue
 			yyVAL.ObjectIdentifierValue = append(ObjectIdentifierValue{ObjectIdElement{Reference: &cpy}}, yyDollar[3].ObjectIdentifierValue...)
 		}
-	case 189:
+	case 184:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:833
+//line asn1.y:826
 		{
 			yyVAL.ObjectIdentifierValue = ObjectIdentifierValue{yyDollar[1].ObjectIdElement}
 		}
-	case 190:
+	case 185:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:834
+//line asn1.y:827
 		{
 			yyVAL.ObjectIdentifierValue = append(yyDollar[1].ObjectIdentifierValue, yyDollar[2].ObjectIdElement)
 		}
-	case 191:
+	case 186:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:837
+//line asn1.y:830
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name}
 		}
-	case 194:
+	case 189:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:840
+//line asn1.y:833
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 195:
+	case 190:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:843
+//line asn1.y:836
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{ID: yyDollar[1].Number.IntValue()}
 		}
-	case 196:
+	case 191:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:844
+//line asn1.y:837
 		{
 			cpy := yyDollar[1].DefinedValue
 			yyVAL.ObjectIdElement = ObjectIdElement{Reference: &cpy}
 		}
-	case 197:
+	case 192:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:848
+//line asn1.y:841
 		{
 			yyVAL.ObjectIdElement = ObjectIdElement{Name: yyDollar[1].name, ID: yyDollar[3].ObjectIdElement.ID, Reference: yyDollar[3].ObjectIdElement.Reference}
 		}
-	case 201:
+	case 196:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:860
+//line asn1.y:853
 		{
 			yyVAL.Type = RestrictedStringType{LexType: BMPString}
 		}
-	case 202:
+	case 197:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:861
+//line asn1.y:854
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GeneralString}
 		}
-	case 203:
+	case 198:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:862
+//line asn1.y:855
 		{
 			yyVAL.Type = RestrictedStringType{LexType: GraphicString}
 		}
-	case 204:
+	case 199:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:863
+//line asn1.y:856
 		{
 			yyVAL.Type = RestrictedStringType{LexType: IA5String}
 		}
-	case 205:
+	case 200:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:864
+//line asn1.y:857
 		{
 			yyVAL.Type = RestrictedStringType{LexType: ISO646String}
 		}
-	case 206:
+	case 201:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:865
+//line asn1.y:858
 		{
 			yyVAL.Type = RestrictedStringType{LexType: NumericString}
 		}
-	case 207:
+	case 202:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:866
+//line asn1.y:859
 		{
 			yyVAL.Type = RestrictedStringType{LexType: PrintableString}
 		}
-	case 208:
+	case 203:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:867
+//line asn1.y:860
 		{
 			yyVAL.Type = RestrictedStringType{LexType: TeletexString}
 		}
-	case 209:
+	case 204:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:868
+//line asn1.y:861
 		{
 			yyVAL.Type = RestrictedStringType{LexType: T61String}
 		}
-	case 210:
+	case 205:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:869
+//line asn1.y:862
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UniversalString}
 		}
-	case 211:
+	case 206:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:870
+//line asn1.y:863
 		{
 			yyVAL.Type = RestrictedStringType{LexType: UTF8String}
 		}
-	case 212:
+	case 207:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:871
+//line asn1.y:864
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VideotexString}
 		}
-	case 213:
+	case 208:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:872
+//line asn1.y:865
 		{
 			yyVAL.Type = RestrictedStringType{LexType: VisibleString}
 		}
-	case 214:
+	case 209:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:877
+//line asn1.y:870
 		{
 			yyVAL.Type = CharacterStringType{}
 		}
-	case 215:
+	case 210:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:882
+//line asn1.y:875
 		{
 			yyVAL.Type = TypeReference("GeneralizedTime")
 		}
-	case 216:
+	case 211:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:883
+//line asn1.y:876
 		{
 			yyVAL.Type = TypeReference("UTCTime")
 		}
-	case 217:
+	case 212:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:888
+//line asn1.y:881
 		{
 			yyVAL.Type = ConstraintedType{yyDollar[1].Type, yyDollar[2].Constraint}
 		}
-	case 219:
+	case 214:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:894
+//line asn1.y:887
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 220:
+	case 215:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:895
+//line asn1.y:888
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 221:
+	case 216:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:896
+//line asn1.y:889
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, yyDollar[2].Constraint}
 		}
-	case 222:
+	case 217:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:897
+//line asn1.y:890
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].Type}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 223:
+	case 218:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:898
+//line asn1.y:891
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 224:
+	case 219:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:899
+//line asn1.y:892
 		{
 			yyVAL.Type = ConstraintedType{SetOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 225:
+	case 220:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:900
+//line asn1.y:893
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, yyDollar[2].Constraint}
 		}
-	case 226:
+	case 221:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:901
+//line asn1.y:894
 		{
 			yyVAL.Type = ConstraintedType{SequenceOfType{yyDollar[4].NamedType}, SingleElementConstraint(yyDollar[2].Elements)}
 		}
-	case 227:
+	case 222:
 		yyDollar = yyS[yypt-4 : yypt+1]
-//line asn1.y:906
+//line asn1.y:899
 		{
 			yyVAL.Constraint = Constraint{ConstraintSpec: yyDollar[2].ConstraintSpec}
 		}
-	case 228:
+	case 223:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:909
+//line asn1.y:902
 		{
 			yyVAL.ConstraintSpec = yyDollar[1].SubtypeConstraint
 		}
-	case 231:
+	case 226:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:919
+//line asn1.y:912
 		{
 			yyVAL.SubtypeConstraint = yyDollar[1].SubtypeConstraint
 		}
-	case 232:
+	case 227:
 		yyDollar = yyS[yypt-5 : yypt+1]
-//line asn1.y:920
+//line asn1.y:913
 		{
 			yyVAL.SubtypeConstraint = append(yyDollar[1].SubtypeConstraint, yyDollar[5].ElementSetSpec)
 		}
-	case 233:
+	case 228:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:923
+//line asn1.y:916
 		{
 			yyVAL.SubtypeConstraint = SubtypeConstraint{yyDollar[1].ElementSetSpec}
 		}
-	case 235:
+	case 230:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:929
+//line asn1.y:922
 		{
 			yyVAL.ElementSetSpec = yyDollar[1].Unions
 		}
-	case 236:
+	case 231:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:930
+//line asn1.y:923
 		{
 			yyVAL.ElementSetSpec = yyDollar[2].Exclusions
 		}
-	case 237:
+	case 232:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:933
+//line asn1.y:926
 		{
 			yyVAL.Unions = Unions{yyDollar[1].Intersections}
 		}
-	case 238:
+	case 233:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:934
+//line asn1.y:927
 		{
 			yyVAL.Unions = append(yyDollar[1].Unions, yyDollar[3].Intersections)
 		}
-	case 240:
+	case 235:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:940
+//line asn1.y:933
 		{
 			yyVAL.Intersections = Intersections{yyDollar[1].IntersectionElements}
 		}
-	case 241:
+	case 236:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:941
+//line asn1.y:934
 		{
 			yyVAL.Intersections = append(yyDollar[1].Intersections, yyDollar[3].IntersectionElements)
 		}
-	case 243:
+	case 238:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:947
+//line asn1.y:940
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements}
 		}
-	case 244:
+	case 239:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:948
+//line asn1.y:941
 		{
 			yyVAL.IntersectionElements = IntersectionElements{Elements: yyDollar[1].Elements, Exclusions: yyDollar[2].Exclusions}
 		}
-	case 246:
+	case 241:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:954
+//line asn1.y:947
 		{
 			yyVAL.Exclusions = Exclusions{yyDollar[2].Elements}
 		}
-	case 251:
+	case 246:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:963
+//line asn1.y:956
 		{
 			yyVAL.Elements = yyDollar[1].Elements
 		}
-	case 252:
+	case 247:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:965
+//line asn1.y:958
 		{
 			yyVAL.Elements = yyDollar[2].ElementSetSpec
 		}
-	case 258:
+	case 253:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:980
+//line asn1.y:973
 		{
 			yyVAL.Elements = SingleValue{yyDollar[1].Value}
 		}
-	case 259:
+	case 254:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:985
+//line asn1.y:978
 		{
 			yyVAL.Elements = ValueRange{yyDollar[1].RangeEndpoint, yyDollar[3].RangeEndpoint}
 		}
-	case 260:
+	case 255:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:988
+//line asn1.y:981
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 261:
+	case 256:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:989
+//line asn1.y:982
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value, IsOpen: true}
 		}
-	case 262:
+	case 257:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:992
+//line asn1.y:985
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[1].Value}
 		}
-	case 263:
+	case 258:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:993
+//line asn1.y:986
 		{
 			yyVAL.RangeEndpoint = RangeEndpoint{Value: yyDollar[2].Value, IsOpen: true}
 		}
-	case 265:
+	case 260:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:997
+//line asn1.y:990
 		{
 			yyVAL.Value = nil
 		}
-	case 267:
+	case 262:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1001
+//line asn1.y:994
 		{
 			yyVAL.Value = nil
 		}
-	case 268:
+	case 263:
 		yyDollar = yyS[yypt-2 : yypt+1]
-//line asn1.y:1006
+//line asn1.y:999
 		{
 			yyVAL.Elements = SizeConstraint{yyDollar[2].Constraint}
 		}
-	case 269:
+	case 264:
 		yyDollar = yyS[yypt-1 : yypt+1]
-//line asn1.y:1011
+//line asn1.y:1004
 		{
 			yyVAL.Elements = TypeConstraint{yyDollar[1].Type}
 		}
-	case 270:
+	case 265:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1016
+//line asn1.y:1009
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-	case 271:
+	case 266:
 		yyDollar = yyS[yypt-3 : yypt+1]
-//line asn1.y:1017
+//line asn1.y:1010
 		{
 			yyVAL.Elements = InnerTypeConstraint{}
 		}
-- 
2.43.0


From cde84a86b5dcc71c639c537ca0db49ae5fd9fcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:11 +0000
Subject: [PATCH 29/29] fix: an implicit tag replaces the tag of the tagged
 type behind it

---
 codegen.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/codegen.go b/codegen.go
index 0414b07..b7ad964 100644
--- a/codegen.go
+++ b/codegen.go
@@ -459,15 +459,18 @@ func (ctx *moduleContext) asn1TagFromType(nt NamedComponentType) *goast.BasicLit
 		}
 	}
 	// unwrap type
+	replaced := false // tag is replaced by an implicit tag in front of it, see x.680, section 30.6
 unwrap:
 	for {
 		switch tt := t.(type) {
 		case TaggedType:
-			switch tt.Tag.Class {
-			case CLASS_APPLICATION:
-				components = append(components, "application")
-			case CLASS_PRIVATE:
-				components = append(components, "private")
+			if !replaced {
+				switch tt.Tag.Class {
+				case CLASS_APPLICATION:
+					components = append(components, "application")
+				case CLASS_PRIVATE:
+					components = append(components, "private")
+				}
 			}
 			tagType := ctx.tagDefault
 			if tt.HasTagType {
@@ -484,10 +487,13 @@ unwrap:
 			}
 			switch cn := ctx.lookupValue(tt.Tag.ClassNumber).(type) {
 			case Number:
-				components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()))
+				if !replaced {
+					components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()))
+				}
 			default:
 				ctx.appendError(fmt.Errorf("tag value should be Number, got %#v", cn))
 			}
+			replaced = tagType == TAGS_IMPLICIT
 			t = tt.Type
 		case ConstraintedType:
 			t = tt.Type
@@ -634,6 +640,9 @@ func (ctx *moduleContext) resolveLeafType(t Type) Type {
 
 // hasNoOwnTag says if tag of the type depends on its value
 func (ctx *moduleContext) hasNoOwnTag(t Type) bool {
+	if _, ok := t.(TaggedType); ok {
+		return false
+	}
 	switch ctx.resolveLeafType(t).(type) {
 	case ChoiceType, AnyType:
 		return true
-- 
2.43.0


From f8d092380722f25de5bc2e980bdd8bd0ce612d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:56 +0000
Subject: [PATCH 01/65] fix: evaluate operator chains left to right with
 conventional precedence

10-2-3 was computed as 10-(2-3), 20/2/5 as 20/(2/5) and 1==1 && 2==2 did
not compile at all; (a) != b lost the != because the '!' was consumed as a
trailing negation.
---
 ast/expr/binary.go |  3 +++
 binary.go          |  1 +
 parser/expr.go     | 18 +++++----------
 parser/operand.go  | 43 ++--------------------------------
 parser/token.go    |  4 ++++
 precedence.go      | 57 ++++++++++++++++++++++++++++++++++++++++++++++
 6 files changed, 73 insertions(+), 53 deletions(-)
 create mode 100644 precedence.go

diff --git a/ast/expr/binary.go b/ast/expr/binary.go
index 3956e6f..48fd640 100644
--- a/ast/expr/binary.go
+++ b/ast/expr/binary.go
@@ -10,6 +10,9 @@ type Binary struct {
 	X     ast2.Expression //left operand
 	Token ast2.Token
 	Y     ast2.Expression //left operand
+
+	//Grouped is set if the whole expression was enclosed in the parentheses, so its operands can't be regrouped with the neighbouring ones
+	Grouped bool
 }
 
 func (b *Binary) Type() reflect.Type {
diff --git a/binary.go b/binary.go
index bf02779..a114459 100644
--- a/binary.go
+++ b/binary.go
@@ -9,6 +9,7 @@ import (
 )
 
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
+	actual = regroup(actual)
 	x, err := p.compileExpr(actual.X)
 	if err != nil {
 		return nil, err
diff --git a/parser/expr.go b/parser/expr.go
index db55394..d6f469c 100644
--- a/parser/expr.go
+++ b/parser/expr.go
@@ -14,28 +14,22 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 	case parenthesesToken:
 		expressionValue := matched.Text(cursor)
 
-		matched = cursor.MatchAfterOptional(WhiteSpace, Negation)
-		shouldNegate := matched.Code == negationToken
-
 		expressionCursor := parsly.NewCursor("", []byte(expressionValue[1:len(expressionValue)-1]), 0)
 		expression, err := matchEquationExpression(expressionCursor)
 		if err != nil {
 			return nil, err
 		}
+
+		if binary, ok := expression.(*expr.Binary); ok {
+			binary.Grouped = true
+		}
+
 		err = addEquationIfNeeded(cursor, &expression)
 		if err != nil {
 			return nil, err
 		}
 
-		var result ast2.Expression = &expr.Parentheses{P: expression}
-		if shouldNegate {
-			result = &expr.Unary{
-				Token: ast2.NEG,
-				X:     result,
-			}
-		}
-
-		return result, nil
+		return &expr.Parentheses{P: expression}, nil
 	default:
 		_, expression, err := matchOperand(cursor, dataTypeMatchers...)
 		if err != nil {
diff --git a/parser/operand.go b/parser/operand.go
index 495746a..7292d12 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -32,16 +32,8 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 			return nil, nil, err
 		}
 
-		expr = &aexpr.Parentheses{P: expr}
-
-		if hasNegation {
-			expr = &aexpr.Unary{
-				Token: ast2.NEG,
-				X:     expr,
-			}
-		}
-
-		return token, expr, nil
+		matcher = token
+		expression = &aexpr.Parentheses{P: expr}
 	case stringToken:
 		value := matched.Text(cursor)
 		matcher = String
@@ -132,16 +124,6 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 		if err != nil {
 			return err
 		}
-		hasPrecedence := isPrecedenceToken(token)
-
-		if hasPrecedence {
-			y, ok := rightExpression.(*aexpr.Binary)
-			if ok && !isPrecedenceToken(y.Token) {
-				expression = adjustPrecedence(expression, token, y)
-				continue
-			}
-
-		}
 
 		*expression = &aexpr.Binary{
 			X:     *expression,
@@ -150,24 +132,3 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 		}
 	}
 }
-
-func adjustPrecedence(expression *ast2.Expression, token ast2.Token, y *aexpr.Binary) *ast2.Expression {
-	p := &aexpr.Parentheses{}
-	p.P = &aexpr.Binary{
-		X:     *expression,
-		Token: token,
-		Y:     y.X,
-	}
-
-	*expression = &aexpr.Binary{
-		X:     p,
-		Token: y.Token,
-		Y:     y.Y,
-	}
-	return expression
-}
-
-func isPrecedenceToken(token ast2.Token) bool {
-	hasPrecedence := token == ast2.MUL || token == ast2.QUO
-	return hasPrecedence
-}
diff --git a/parser/token.go b/parser/token.go
index dbd006d..0c92d7f 100644
--- a/parser/token.go
+++ b/parser/token.go
@@ -7,6 +7,10 @@ import (
 )
 
 func normalizeTokensIfNeeded(variable ast2.Expression, token ast2.Token, rightOperand ast2.Expression, matched *parsly.TokenMatch) (ast2.Token, ast2.Expression) {
+	if binary, ok := rightOperand.(*expr.Binary); ok {
+		binary.Grouped = true
+	}
+
 	switch matched.Code {
 	case mulEqualToken:
 		token = ast2.ASSIGN
diff --git a/precedence.go b/precedence.go
new file mode 100644
index 0000000..79d5cbf
--- /dev/null
+++ b/precedence.go
@@ -0,0 +1,57 @@
+package velty
+
+import (
+	"github.com/viant/velty/ast"
+	"github.com/viant/velty/ast/expr"
+)
+
+// precedence returns binary operator precedence, operators with the higher precedence bind stronger
+func precedence(token ast.Token) int {
+	switch token {
+	case ast.MUL, ast.QUO:
+		return 5
+	case ast.ADD, ast.SUB:
+		return 4
+	case ast.GTR, ast.GTE, ast.LSS, ast.LEQ:
+		return 3
+	case ast.EQ, ast.NEQ:
+		return 2
+	case ast.AND:
+		return 1
+	}
+	return 0
+}
+
+// regroup rebuilds the chain of the operators (i.e. 1 - 2 - 3 * 4), so operators are left associative and the ones
+// with the higher precedence are computed first. Expressions in the parentheses are not changed.
+func regroup(binary *expr.Binary) *expr.Binary {
+	operands, tokens := flatten(binary.X, nil, nil)
+	tokens = append(tokens, binary.Token)
+	operands, tokens = flatten(binary.Y, operands, tokens)
+
+	for len(tokens) > 1 {
+		index := 0
+		for i, token := range tokens {
+			if precedence(token) > precedence(tokens[index]) {
+				index = i
+			}
+		}
+
+		operands[index] = &expr.Binary{X: operands[index], Token: tokens[index], Y: operands[index+1], Grouped: true}
+		operands = append(operands[:index+1], operands[index+2:]...)
+		tokens = append(tokens[:index], tokens[index+1:]...)
+	}
+
+	return &expr.Binary{X: operands[0], Token: tokens[0], Y: operands[1], Grouped: true}
+}
+
+func flatten(expression ast.Expression, operands []ast.Expression, tokens []ast.Token) ([]ast.Expression, []ast.Token) {
+	binary, ok := expression.(*expr.Binary)
+	if !ok || binary.Grouped {
+		return append(operands, expression), tokens
+	}
+
+	operands, tokens = flatten(binary.X, operands, tokens)
+	tokens = append(tokens, binary.Token)
+	return flatten(binary.Y, operands, tokens)
+}
-- 
2.43.0


From 17016e2137f9f2b39c453401be3dc61644087817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:17 +0000
Subject: [PATCH 02/65] fix: convert binary operands to their common type and
 reject untyped ones

1 + 2.5 reinterpreted float bits as an int, $num + "s" read a string as an
int, 7 == $nilPtr dereferenced nil, and an operand referring to an undefined
variable was read from unrelated memory.
---
 binary.go | 34 +++++++++++++++++++++++++++++++++-
 unary.go  |  5 +++++
 2 files changed, 38 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index a114459..ccb698b 100644
--- a/binary.go
+++ b/binary.go
@@ -1,6 +1,8 @@
 package velty
 
 import (
+	"fmt"
+	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -8,6 +10,8 @@ import (
 	"reflect"
 )
 
+var boolType = reflect.TypeOf(true)
+
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	actual = regroup(actual)
 	x, err := p.compileExpr(actual.X)
@@ -20,6 +24,10 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		return nil, err
 	}
 
+	if x.Type == nil || y.Type == nil {
+		return nil, fmt.Errorf("couldn't determine type of the %v operand", actual.Token)
+	}
+
 	unify, err := types.NormalizeAndUnify(x.Type, y.Type)
 	if err != nil {
 		return nil, err
@@ -28,7 +36,19 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	x.Unify = unify.X
 	y.Unify = unify.Y
 
-	resultType := notNilType(types.NormalizeType(actual.Type()), unify.RType)
+	resultType := boolType
+	if !isPredicate(actual.Token) {
+		resultType = notNilType(unify.RType, types.NormalizeType(actual.Type()))
+	}
+
+	if unify.RType != nil { // operands are converted to the common type before being computed
+		nullable := isPtr(x.Type) || (isPtr(y.Type) && isPredicate(actual.Token))
+		x.Type, y.Type = unify.RType, unify.RType
+		if nullable && !isPtr(unify.RType) {
+			x.Type, y.Type = reflect.PtrTo(unify.RType), reflect.PtrTo(unify.RType)
+		}
+	}
+
 	acc := p.accumulator(resultType)
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
 
@@ -43,6 +63,18 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	}, nil
 }
 
+func isPredicate(token ast.Token) bool {
+	switch token {
+	case ast.EQ, ast.NEQ, ast.GTR, ast.GTE, ast.LSS, ast.LEQ, ast.AND, ast.OR:
+		return true
+	}
+	return false
+}
+
+func isPtr(rType reflect.Type) bool {
+	return rType != nil && rType.Kind() == reflect.Ptr
+}
+
 func notNilType(types ...reflect.Type) reflect.Type {
 	for _, rType := range types {
 		if rType != nil {
diff --git a/unary.go b/unary.go
index 1f67680..7e87cb5 100644
--- a/unary.go
+++ b/unary.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"fmt"
 	aexpr "github.com/viant/velty/ast/expr"
 	eexpr "github.com/viant/velty/est/expr"
 	"github.com/viant/velty/est/op"
@@ -12,6 +13,10 @@ func (p *Planner) compileUnary(actual *aexpr.Unary) (*op.Expression, error) {
 		return nil, err
 	}
 
+	if x.Type == nil {
+		return nil, fmt.Errorf("couldn't determine type of the %v operand", actual.Token)
+	}
+
 	acc := p.accumulator(x.Type)
 
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
-- 
2.43.0


From a24bca2236924c28cd565f220a7cd6b4c03eec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:24 +0000
Subject: [PATCH 03/65] fix: do not print operands to stdout when comparing
 ints

---
 est/expr/int.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/est/expr/int.go b/est/expr/int.go
index bdbbe7a..7c10dde 100644
--- a/est/expr/int.go
+++ b/est/expr/int.go
@@ -1,7 +1,6 @@
 package expr
 
 import (
-	"fmt"
 	"github.com/viant/velty/ast"
 	est "github.com/viant/velty/est"
 	"unsafe"
@@ -149,7 +148,6 @@ func (b *binaryExpr) indirectIntEq(state *est.State) unsafe.Pointer {
 	y := b.y.Exec(state)
 	z := est.FalseValuePtr
 
-	fmt.Println(*(*int)(x), *(*int)(y))
 	if *(*int)(x) == *(*int)(y) {
 		z = est.TrueValuePtr
 	}
-- 
2.43.0


From f4cdd3236c5f41ac11ee8bf208c4cb3a01dc810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:03 +0000
Subject: [PATCH 04/65] fix: keep the text that precedes a ## comment on the
 same line

Everything between the previous directive and the comment was dropped, and
$# was taken for a comment as well.
---
 parser/parser.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 95a0464..3d74188 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -29,16 +29,16 @@ outer:
 			break
 		}
 
-		if cursor.Input[cursor.Pos] == '#' {
-			cursor.MatchOne(NewLine)
-			continue
-		}
-
 		err := appendStatementIfNeeded(text, builder)
 		if err != nil {
 			return nil, cursorErr(cursor, err)
 		}
 
+		if cursor.Input[cursor.Pos-1] == '#' && cursor.Input[cursor.Pos] == '#' {
+			cursor.MatchOne(NewLine)
+			continue
+		}
+
 		lastPosition := cursor.Pos - 1
 		switch cursor.Input[cursor.Pos-1] {
 		case '$':
-- 
2.43.0


From 5c3da0a23528461cddb705a4c2973eb164673310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:05 +0000
Subject: [PATCH 05/65] fix: do not drop the last single character function
 argument

$f(1) was called without arguments and $f($x,3) with one.
---
 parser/select.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/select.go b/parser/select.go
index acc1435..7f968d5 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -174,7 +174,7 @@ func parseIdentity(cursor *parsly.Cursor) (*expr.Select, error) {
 func matchFunctionCall(cursor *parsly.Cursor) (*expr.Call, error) {
 	expressions := make([]ast.Expression, 0)
 
-	for cursor.Pos < cursor.InputSize-1 {
+	for cursor.MatchOne(WhiteSpace); cursor.HasMore(); cursor.MatchOne(WhiteSpace) {
 		argumentCursor := extractArgument(cursor)
 		_, expression, err := matchOperand(argumentCursor, String, Boolean, Number)
 		if err != nil {
-- 
2.43.0


From 713481eedf3b48aed9aec0df6499f1c6239023da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:19 +0000
Subject: [PATCH 06/65] fix: render a reference that ends a sentence

$name. was emitted verbatim because the trailing dot was taken for a
selector that could not be matched.
---
 parser/select.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/select.go b/parser/select.go
index 7f968d5..cabd7c5 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -107,10 +107,16 @@ func MatchSelector(cursor *parsly.Cursor) (*expr.Select, error) {
 
 func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 	candidates := []*parsly.Token{Parentheses, Dot, SquareBrackets}
+	callStart := cursor.Pos
 	matched := cursor.MatchAny(candidates...)
 	switch matched.Code {
 	case dotToken:
-		return MatchSelector(cursor)
+		selector, err := MatchSelector(cursor)
+		if err != nil { // the dot is not a part of the selector, i.e. it ends the sentence
+			cursor.Pos = callStart
+			return nil, nil
+		}
+		return selector, nil
 	case parenthesesToken:
 		id := matched.Text(cursor)
 		newCursor := parsly.NewCursor("", []byte(id[1:len(id)-1]), 0)
-- 
2.43.0


From 1c94b7a75f6e0efb7d87817ba20c19884f1cb6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 07/65] fix: match +=, -=, *= and /= in the for loop post
 statement

The tokens matched a single character, so $i += 2 was taken for $i++, and
literals were not accepted as the right operand.
---
 parser/lex.go   | 12 ++++++------
 parser/range.go |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/lex.go b/parser/lex.go
index 687099c..21fef88 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -121,16 +121,16 @@ var Boolean = parsly.NewToken(booleanToken, "Boolean", matcher.NewFragments([]by
 var Number = parsly.NewToken(numberToken, "Number", matcher.NewNumber())
 
 var Add = parsly.NewToken(addToken, "Add", matcher.NewByte('+'))
-var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewBytes([]byte("+=")))
+var AddEqual = parsly.NewToken(addEqualToken, "Add equal", matcher.NewFragment("+="))
 var Sub = parsly.NewToken(subToken, "Subtract", matcher.NewByte('-'))
-var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewBytes([]byte("-=")))
+var SubEqual = parsly.NewToken(subEqualToken, "Subtract equal", matcher.NewFragment("-="))
 var Multiply = parsly.NewToken(mulToken, "Multiply", matcher.NewByte('*'))
-var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewBytes([]byte("*=")))
+var MultiplyEqual = parsly.NewToken(mulEqualToken, "Multiply equal", matcher.NewFragment("*="))
 var Quo = parsly.NewToken(quoToken, "Quo", matcher.NewByte('/'))
-var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewBytes([]byte("/=")))
+var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("/="))
 
-var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewBytes([]byte("--")))
-var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewBytes([]byte("++")))
+var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
+var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
 var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
diff --git a/parser/range.go b/parser/range.go
index 715646c..ca147d9 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -97,7 +97,7 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 	}
 
 	token := matchToken(matched)
-	_, rightOperand, err := matchOperand(cursor)
+	_, rightOperand, err := matchOperand(cursor, dataTypeMatchers...)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 29d8391188f23d8c60ee863a92e348e0c99dae83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 08/65] fix: do not truncate a quoted string that starts with a
 reference

"$x and more" was evaluated as $x alone.
---
 parser/operand.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/operand.go b/parser/operand.go
index 7292d12..ae00b1d 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -74,7 +74,7 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 			if err != nil {
 				expression = aexpr.StringLiteral(value[:len(value)-1])
 			} else {
-				if _, ok := expression.(*aexpr.Select); !ok {
+				if _, ok := expression.(*aexpr.Select); !ok || newCursor.HasMore() || value[0] != '$' {
 					expression = aexpr.StringLiteral(value[:len(value)-1])
 				}
 			}
-- 
2.43.0


From e45643756eda5decc286a78b050b432def05852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:53 +0000
Subject: [PATCH 09/65] fix: assign bool and float32 values through a pointer
 or a nested selector

The destination was assigned to itself, so #set was silently lost.
---
 est/stmt/assign/assign.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 21bf83d..27617ec 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -143,7 +143,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float32)(destPtr) = *(*float32)(destPtr)
+				*(*float32)(destPtr) = *(*float32)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -152,7 +152,7 @@ func (a *assign) assignValue() est.Compute {
 				srcPtr := a.y.Exec(state)
 
 				if srcPtr != nil {
-					*(**float32)(destPtr) = *(**float32)(destPtr)
+					*(**float32)(destPtr) = *(**float32)(srcPtr)
 				}
 				return srcPtr
 			}
@@ -162,7 +162,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*bool)(destPtr) = *(*bool)(destPtr)
+				*(*bool)(destPtr) = *(*bool)(srcPtr)
 				return srcPtr
 			}
 		} else {
@@ -170,7 +170,7 @@ func (a *assign) assignValue() est.Compute {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
 				if srcPtr != nil {
-					*(**bool)(destPtr) = *(**bool)(destPtr)
+					*(**bool)(destPtr) = *(**bool)(srcPtr)
 				}
 				return srcPtr
 			}
-- 
2.43.0


From 6c69bb8c267ae793e27d140eea39b4949e0fb2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 10/65] fix: strings.HasPrefix tested for a suffix

---
 functions/strings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/functions/strings.go b/functions/strings.go
index 72640ff..09fbf14 100644
--- a/functions/strings.go
+++ b/functions/strings.go
@@ -22,7 +22,7 @@ func (s Strings) HasSuffix(val, suffix string) bool {
 }
 
 func (s Strings) HasPrefix(val, suffix string) bool {
-	return strings.HasSuffix(val, suffix)
+	return strings.HasPrefix(val, suffix)
 }
 
 func (s Strings) Index(val, substr string) int {
-- 
2.43.0


From 6bbb18bbd155606de189becb58d4382029bc9c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:11 +0000
Subject: [PATCH 11/65] fix: copy assigned slices and structs with GC write
 barriers

Pointers copied as integers or bytes are invisible to a concurrent GC cycle,
so the assigned data could be freed while in use.
---
 est/stmt/assign/assign.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 27617ec..cc4ce82 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -3,7 +3,6 @@ package assign
 import (
 	"github.com/viant/velty/est"
 	op2 "github.com/viant/velty/est/op"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"unsafe"
 )
@@ -181,7 +180,7 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				ptr := a.y.Exec(state)
 				if ptr != nil {
-					xunsafe.Copy(a.x.Exec(state), ptr, int(a.x.Type.Size()))
+					typedCopy(rType, a.x.Exec(state), ptr)
 				}
 				return ptr
 			}
@@ -193,11 +192,7 @@ func (a *assign) assignValue() est.Compute {
 				ptr := a.y.Exec(state)
 
 				if destPtr != nil && ptr != nil {
-					sourceHeader := (*reflect.SliceHeader)(ptr)
-					destHader := (*reflect.SliceHeader)(destPtr)
-					destHader.Data = sourceHeader.Data
-					destHader.Len = sourceHeader.Len
-					destHader.Cap = sourceHeader.Cap
+					typedCopy(rType, destPtr, ptr)
 				}
 
 				return ptr
@@ -236,13 +231,18 @@ func (a *assign) assignValue() est.Compute {
 		src := a.y.Exec(state)
 
 		if src != nil {
-			xunsafe.Copy(dest, src, int(rType.Size()))
+			typedCopy(rType, dest, src)
 		}
 
 		return src
 	}
 }
 
+// typedCopy copies the value, letting the garbage collector know about the copied pointers
+func typedCopy(rType reflect.Type, dest, src unsafe.Pointer) {
+	reflect.NewAt(rType, dest).Elem().Set(reflect.NewAt(rType, src).Elem())
+}
+
 func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
 		x, err := xExpr.Operand(control)
-- 
2.43.0


From 5b37ae0c536b4594407bf5abd1eda2db8323df61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:14 +0000
Subject: [PATCH 12/65] fix: compare uint pointers unsigned, float pointers for
 inequality, nil int pointers consistently

---
 est/expr/ptr.go | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/est/expr/ptr.go b/est/expr/ptr.go
index ddfc9e2..110b94b 100644
--- a/est/expr/ptr.go
+++ b/est/expr/ptr.go
@@ -70,7 +70,7 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 		case ast.GTE:
 			return compareUintGreaterOrEqual(binary)
 		case ast.LSS:
-			return compareUint8Less(binary)
+			return compareUintLess(binary)
 		case ast.LEQ:
 			return compareUintLessOrEqual(binary)
 		case ast.NEQ:
@@ -163,6 +163,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat32PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat32PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat32PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float32", token)
 		}
@@ -179,6 +181,8 @@ func computePtr(rType reflect.Type, token ast.Token, binary *binaryExpr, indirec
 			return compareFloat64PtrLessEqual(binary)
 		case ast.EQ:
 			return compareFloat64PtrEqual(binary)
+		case ast.NEQ:
+			return compareFloat64PtrNotEqual(binary)
 		default:
 			return nil, fmt.Errorf("unsupported token %v for float64", token)
 		}
@@ -235,11 +239,11 @@ func compareIntLessOrEqual(binary *binaryExpr) (est.Compute, error) {
 		yPtr := binary.y.Exec(state)
 
 		if yPtr == nil && xPtr == nil {
-			return est.FalseValuePtr
+			return est.TrueValuePtr
 		}
 
 		if xPtr != nil && yPtr == nil {
-			return est.TrueValuePtr
+			return est.FalseValuePtr
 		}
 
 		if yPtr != nil && xPtr == nil {
@@ -979,6 +983,31 @@ func compareInt32Less(binary *binaryExpr) (est.Compute, error) {
 	}, nil
 }
 
+func compareUintLess(binary *binaryExpr) (est.Compute, error) {
+	return func(state *est.State) unsafe.Pointer {
+		xPtr := binary.x.Exec(state)
+		yPtr := binary.y.Exec(state)
+
+		if yPtr == nil && xPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if xPtr != nil && yPtr == nil {
+			return est.FalseValuePtr
+		}
+
+		if yPtr != nil && xPtr == nil {
+			return est.TrueValuePtr
+		}
+
+		if xunsafe.AsUint(xPtr) < xunsafe.AsUint(yPtr) {
+			return est.TrueValuePtr
+		}
+
+		return est.FalseValuePtr
+	}, nil
+}
+
 func compareUint8Less(binary *binaryExpr) (est.Compute, error) {
 	return func(state *est.State) unsafe.Pointer {
 		xPtr := binary.x.Exec(state)
-- 
2.43.0


From 2a82c224e800f3c322305f69afa6742293fb7bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:15 +0000
Subject: [PATCH 13/65] fix: index a slice, a map or an interface that is a
 struct field

---
 est/op/upstream.go | 5 ++++-
 planner.go         | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/est/op/upstream.go b/est/op/upstream.go
index 860a218..6ae99a2 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -78,7 +78,10 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 
 				ptr = refIfNeeded(parents[i].Func.CallFunc(parents[i], args, state), shouldRef)
 			} else if parents[i].Slice != nil {
-				ptr = refIfNeeded(parents[i].Slice.Exec(ptr, state), shouldRef)
+				ptr = parents[i].Slice.Exec(ptr, state) // item address, it already is a reference if item is a pointer
+				if ptr != nil && parents[i].Type.Kind() == reflect.Ptr && i < parentLen-1 && parents[i+1].Func == nil {
+					ptr = xunsafe.DerefPointer(ptr)
+				}
 			} else if parents[i].Map != nil {
 				ptr = refIfNeeded(parents[i].Map.Exec(ptr, state), shouldRef)
 			} else if parents[i].InterfaceExec != nil {
diff --git a/planner.go b/planner.go
index 68b0354..c7e6f91 100644
--- a/planner.go
+++ b/planner.go
@@ -249,8 +249,8 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 
 	switch actual := call.(type) {
 	case *expr.Select:
-		if callSelector, callNext, callErr := p.tryMatchCall(actual.X, resultSelector, actual.ID); callSelector != nil || callErr != nil {
-			return callSelector, callNext, callErr
+		if methodCall, ok := actual.X.(*expr.Call); ok {
+			return p.matchFunc(actual.ID, methodCall, resultSelector)
 		}
 
 		_, err = p.fieldByName(parentType, actual, actual.ID)
-- 
2.43.0


From 64ae018afc80e37ace426e89ccd1ec7784151047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:57 +0000
Subject: [PATCH 14/65] fix: index slices, maps and interfaces within bounds
 and with a converted key

---
 est/op/iface.go     | 13 +++++++++++--
 est/op/map.go       |  9 +++++++--
 est/op/selector.go  |  2 +-
 est/op/slice.go     | 27 ++++++++++++++++++++++-----
 functions/maps.go   | 12 +++++++++---
 functions/slices.go |  3 +--
 keys/key.go         | 30 ++++++++++++++++++++++++++++++
 keys/normalize.go   | 12 ++++++++++++
 planner.go          |  4 +++-
 9 files changed, 96 insertions(+), 16 deletions(-)
 create mode 100644 keys/key.go

diff --git a/est/op/iface.go b/est/op/iface.go
index 2c0bf71..06d5b58 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -17,10 +17,19 @@ func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	asInterface := xunsafe.AsInterface(xPtr)
 
 	actualValue := reflect.ValueOf(asInterface)
-	switch actualValue.Type().Kind() {
+	switch actualValue.Kind() {
 	case reflect.Map:
 		return i.aMap.Exec(xPtr, state)
+	case reflect.Slice, reflect.Array:
+		index, ok := i.aSlice.index(state)
+		if !ok {
+			return nil
+		}
+
+		checkBounds(index, actualValue.Len())
+		item := actualValue.Index(index).Interface()
+		return unsafe.Pointer(&item)
 	default:
-		return i.aSlice.Exec(xPtr, state)
+		return nil
 	}
 }
diff --git a/est/op/map.go b/est/op/map.go
index a39c5b6..0ebeb85 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -28,7 +28,12 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		return nil
 	}
 
-	actualValue := mapValue.MapIndex(reflect.ValueOf(anIndex))
+	key, ok := keys.AsKey(anIndex, mapValue.Type().Key())
+	if !ok {
+		return nil
+	}
+
+	actualValue := mapValue.MapIndex(key)
 	if !actualValue.IsValid() {
 		return nil
 	}
@@ -39,7 +44,7 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	}
 
 	switch m.elemKind {
-	case reflect.Map, reflect.Slice:
+	case reflect.Map:
 		return xunsafe.AsPointer(actualValue.Pointer())
 	default:
 		return xunsafe.AsPointer(iface)
diff --git a/est/op/selector.go b/est/op/selector.go
index b608116..7a3b65c 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -114,7 +114,7 @@ func SliceSelector(id string, placeholder string, sliceOperand, indexOperand *Op
 }
 
 func newSlice(sliceOperand *Operand, indexOperand *Operand, parent *Selector) (*Slice, error) {
-	toInt, err := types.Unify(indexOperand.Type, intType)
+	toInt, err := types.Unify(intType, indexOperand.Type)
 	if err != nil {
 		return nil, err
 	}
diff --git a/est/op/slice.go b/est/op/slice.go
index 54ad269..bf78078 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -18,16 +18,33 @@ type Slice struct {
 func (s *Slice) Exec(slicePtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 	sliceLen := s.XSlice.Len(slicePtr)
 
+	index, ok := s.index(state)
+	if !ok {
+		return nil
+	}
+
+	checkBounds(index, sliceLen)
+	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+}
+
+func (s *Slice) index(state *est.State) (int, bool) {
 	indexPtr := s.IndexOperand.Exec(state)
 	if indexPtr == nil {
-		return nil
+		return 0, false
 	}
 
-	index := *(*int)(indexPtr)
-	if sliceLen <= index {
-		panic(fmt.Sprintf("index out of range [%v] with length %v", index, sliceLen))
+	if s.ToInter != nil {
+		var err error
+		if indexPtr, err = s.ToInter(indexPtr); err != nil || indexPtr == nil {
+			return 0, false
+		}
 	}
 
-	return s.XSlice.PointerAt(slicePtr, uintptr(index))
+	return *(*int)(indexPtr), true
+}
 
+func checkBounds(index int, length int) {
+	if index < 0 || index >= length {
+		panic(fmt.Sprintf("index out of range [%v] with length %v", index, length))
+	}
 }
diff --git a/functions/maps.go b/functions/maps.go
index 12f83a0..bc1f23c 100644
--- a/functions/maps.go
+++ b/functions/maps.go
@@ -27,8 +27,12 @@ func (m Maps) value(aMap interface{}, key interface{}) (reflect.Value, error) {
 		return reflect.Value{}, fmt.Errorf("incorrect arg type, wanted Map, got %T", aMap)
 	}
 
-	index := valueOf.MapIndex(reflect.ValueOf(key))
-	return index, nil
+	mapKey, ok := keys.AsKey(key, valueOf.Type().Key())
+	if !ok {
+		return reflect.Value{}, nil
+	}
+
+	return valueOf.MapIndex(mapKey), nil
 }
 
 func (m Maps) Get(aMap interface{}, key interface{}) (interface{}, error) {
@@ -103,7 +107,9 @@ func (m Maps) GetString(aMap interface{}, key interface{}) (string, error) {
 var HasKeyFunc = &StaticKindFunc{
 	kind: reflect.Map,
 	handler: func(aMap, aKey interface{}) (bool, error) {
-		return reflect.ValueOf(aMap).MapIndex(reflect.ValueOf(keys.Normalize(aKey))).IsValid(), nil
+		mapValue := reflect.ValueOf(aMap)
+		key, ok := keys.AsKey(keys.Normalize(aKey), mapValue.Type().Key())
+		return ok && mapValue.MapIndex(key).IsValid(), nil
 	},
 	resultType: reflect.TypeOf(true),
 }
diff --git a/functions/slices.go b/functions/slices.go
index 9332897..b8916dc 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -130,8 +130,7 @@ func (in *indexSliceByFunc) Handler() interface{} {
 				fieldValue = upstreamType.Deref(fieldValue)
 			}
 
-			key := keys.Normalize(fieldValue)
-			fieldValue = xField.Value(xunsafe.AsPointer(key))
+			fieldValue = keys.Normalize(xField.Value(xunsafe.AsPointer(fieldValue)))
 			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
 		}
 		resultMapIface := resultMap.Interface()
diff --git a/keys/key.go b/keys/key.go
new file mode 100644
index 0000000..2093c2c
--- /dev/null
+++ b/keys/key.go
@@ -0,0 +1,30 @@
+package keys
+
+import "reflect"
+
+//AsKey returns the key value of the map key type, or false if the map can't hold such a key
+func AsKey(key interface{}, keyType reflect.Type) (reflect.Value, bool) {
+	value := reflect.ValueOf(key)
+	if !value.IsValid() {
+		return value, false
+	}
+
+	if value.Type().AssignableTo(keyType) {
+		return value, value.Type().Comparable()
+	}
+
+	if isInt(value.Kind()) && isInt(keyType.Kind()) {
+		converted := value.Convert(keyType)
+		return converted, converted.Convert(value.Type()).Interface() == value.Interface()
+	}
+
+	if value.Kind() == keyType.Kind() && value.CanConvert(keyType) {
+		return value.Convert(keyType), true
+	}
+
+	return value, false
+}
+
+func isInt(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Uint64
+}
diff --git a/keys/normalize.go b/keys/normalize.go
index 6889905..6f8c504 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -36,6 +36,18 @@ func Normalize(key interface{}) interface{} {
 		return int(actual)
 	case int16:
 		return int(actual)
+	case int8:
+		return int(actual)
+	case uint:
+		return int(actual)
+	case uint64:
+		return int(actual)
+	case uint32:
+		return int(actual)
+	case uint16:
+		return int(actual)
+	case uint8:
+		return int(actual)
 	case *int:
 		if actual == nil {
 			return nil
diff --git a/planner.go b/planner.go
index c7e6f91..b2c03d4 100644
--- a/planner.go
+++ b/planner.go
@@ -531,13 +531,15 @@ func (p *Planner) matchCall(call ast.Expression, selector *op.Selector, ID strin
 
 			return interfaceSelector, actual.Y, nil
 
-		default:
+		case reflect.Slice:
 			sliceSelector, err := p.newSliceSelector(ID, actual, selector)
 			if err != nil {
 				return nil, nil, err
 			}
 
 			return sliceSelector, actual.Y, nil
+		default:
+			return nil, nil, fmt.Errorf("can't index %v of type %v", strings.ReplaceAll(ID, fieldSeparator, "."), selector.Type.String())
 		}
 	}
 
-- 
2.43.0


From f92bae09274a58032fcfc8c3c0f68f8266f4e083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:03 +0000
Subject: [PATCH 15/65] fix: copy foreach items with their type, over the slice
 the loop started with

---
 est/copier.go       | 36 +++++++++++++++++++
 est/stmt/foreach.go | 87 +++++++++++----------------------------------
 stmt.go             |  4 +++
 3 files changed, 60 insertions(+), 67 deletions(-)
 create mode 100644 est/copier.go

diff --git a/est/copier.go b/est/copier.go
new file mode 100644
index 0000000..e4e13e2
--- /dev/null
+++ b/est/copier.go
@@ -0,0 +1,36 @@
+package est
+
+import (
+	"reflect"
+	"unsafe"
+)
+
+// Copier returns a function copying a src type value to a dest type value, the copied pointers are visible to the garbage collector
+func Copier(destType, srcType reflect.Type) func(dest, src unsafe.Pointer) {
+	switch destType.Kind() {
+	case reflect.Int, reflect.Uint, reflect.Int64, reflect.Uint64, reflect.Float64:
+		return func(dest, src unsafe.Pointer) {
+			*(*uint64)(dest) = *(*uint64)(src)
+		}
+	case reflect.Bool:
+		return func(dest, src unsafe.Pointer) {
+			*(*bool)(dest) = *(*bool)(src)
+		}
+	case reflect.String:
+		return func(dest, src unsafe.Pointer) {
+			*(*string)(dest) = *(*string)(src)
+		}
+	case reflect.Ptr, reflect.Map:
+		return func(dest, src unsafe.Pointer) {
+			*(*unsafe.Pointer)(dest) = *(*unsafe.Pointer)(src)
+		}
+	case reflect.Slice:
+		return func(dest, src unsafe.Pointer) {
+			*(*[]byte)(dest) = *(*[]byte)(src)
+		}
+	}
+
+	return func(dest, src unsafe.Pointer) {
+		reflect.NewAt(destType, dest).Elem().Set(reflect.NewAt(srcType, src).Elem())
+	}
+}
diff --git a/est/stmt/foreach.go b/est/stmt/foreach.go
index bcd9c1b..58623f5 100644
--- a/est/stmt/foreach.go
+++ b/est/stmt/foreach.go
@@ -4,7 +4,6 @@ import (
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
 	"github.com/viant/xunsafe"
-	"reflect"
 	"unsafe"
 )
 
@@ -15,71 +14,32 @@ type ForEach struct {
 	X    *op.Operand
 
 	*xunsafe.Slice
+	copyItem func(dest, src unsafe.Pointer)
 }
 
 func (e *ForEach) compute(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
-	l := e.Slice.Len(xPtr)
-
-	var resultPtr unsafe.Pointer
-	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.Set(state.MemPtr, v)
-		resultPtr = e.Block(state)
-	}
-
-	return resultPtr
+	return e.forEach(e.X.Pointer(state), state)
 }
 
-func (e *ForEach) computePtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Pointer(state)
-	l := e.Slice.Len(xPtr)
-
-	var resultPtr unsafe.Pointer
-	for i := 0; i < l; i++ {
-		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
-		resultPtr = e.Block(state)
-	}
-
-	return resultPtr
+func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
+	return e.forEach(e.X.Exec(state), state)
 }
 
-func (e *ForEach) computeIndirectPtr(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
-	l := e.Slice.Len(xPtr)
-
-	var resultPtr unsafe.Pointer
-	for i := 0; i < l; i++ {
-		v := e.Slice.ValuePointerAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
-		resultPtr = e.Block(state)
-	}
-
-	return resultPtr
+func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
+	return e.forEach(*e.X.LiteralPtr, state)
 }
 
-func (e *ForEach) computeIndirect(state *est.State) unsafe.Pointer {
-	xPtr := e.X.Exec(state)
-	l := e.Slice.Len(xPtr)
-	var resultPtr unsafe.Pointer
-	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
-		resultPtr = e.Block(state)
+func (e *ForEach) forEach(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
+	if xPtr == nil {
+		return nil
 	}
 
-	return resultPtr
-}
-
-func (e *ForEach) computeLiteral(state *est.State) unsafe.Pointer {
-	xPtr := *e.X.LiteralPtr
-	l := e.Slice.Len(xPtr)
+	header := *(*[]byte)(xPtr) // block may assign other slice to the iterated variable
+	l := len(header)
 
 	var resultPtr unsafe.Pointer
 	for i := 0; i < l; i++ {
-		v := e.Slice.ValueAt(xPtr, i)
-		e.Item.Sel.SetValue(state.MemPtr, v)
+		e.copyItem(e.Item.Pointer(state), e.Slice.PointerAt(unsafe.Pointer(&header), uintptr(i)))
 		resultPtr = e.Block(state)
 	}
 
@@ -107,22 +67,15 @@ func ForEachLoop(block est.New, itemExpr *op.Expression, sliceExpr *op.Expressio
 			return nil, err
 		}
 
-		switch loop.Slice.Elem().Kind() {
-		case reflect.Ptr:
-			if loop.X.Sel != nil && loop.X.Sel.Indirect {
-				return loop.computeIndirectPtr, nil
-			}
-			return loop.computePtr, nil
-		default:
-			if loop.X.Sel != nil && loop.X.Sel.Indirect {
-				return loop.computeIndirect, nil
-			}
-
-			if loop.X.Sel != nil {
-				return loop.compute, nil
-			}
-			return loop.computeLiteral, nil
+		loop.copyItem = est.Copier(loop.Item.Type, loop.Slice.Elem())
+		if loop.X.Sel != nil && loop.X.Sel.Indirect {
+			return loop.computeIndirect, nil
+		}
 
+		if loop.X.Sel != nil {
+			return loop.compute, nil
 		}
+
+		return loop.computeLiteral, nil
 	}, nil
 }
diff --git a/stmt.go b/stmt.go
index 7d1acd6..72fa56d 100644
--- a/stmt.go
+++ b/stmt.go
@@ -136,6 +136,10 @@ func (p *Planner) compileForEachLoop(actual *stmt2.ForEach) (est.New, error) {
 		return nil, err
 	}
 
+	if !itemType.AssignableTo(selector.Type) || selector.Selector.Parent != nil {
+		return nil, fmt.Errorf("can't use %v as a foreach item of type %v, it is already defined", actual.Item.ID, itemType.String())
+	}
+
 	block, err := p.compileBlock(&actual.Body)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From d4710fca9a8bad928f853779a3f6cd2323216685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 16/65] fix: convert the value assigned to a variable of a
 different type

---
 est/stmt/assign/bool.go   | 4 ++--
 est/stmt/assign/float.go  | 4 ++--
 est/stmt/assign/int.go    | 4 ++--
 est/stmt/assign/string.go | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/est/stmt/assign/bool.go b/est/stmt/assign/bool.go
index 65fe8a9..2a9049b 100644
--- a/est/stmt/assign/bool.go
+++ b/est/stmt/assign/bool.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsBool() est.Compute {
 
 func (a *assign) assignBoolComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Comp(state))
+	*(*bool)(ret) = *(*bool)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignBoolSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignBoolLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(*a.y.LiteralPtr)
+	*(*bool)(ret) = *(*bool)(a.y.Pointer(state))
 	return ret
 }
diff --git a/est/stmt/assign/float.go b/est/stmt/assign/float.go
index 837993c..0d819e7 100644
--- a/est/stmt/assign/float.go
+++ b/est/stmt/assign/float.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsFloat() est.Compute {
 
 func (a *assign) assignFloatComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Comp(state))
+	*(*float64)(ret) = *(*float64)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignFloatSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignFloatLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(*a.y.LiteralPtr)
+	*(*float64)(ret) = *(*float64)(a.y.Pointer(state))
 	return ret
 }
diff --git a/est/stmt/assign/int.go b/est/stmt/assign/int.go
index cb596cf..d7dc4b1 100644
--- a/est/stmt/assign/int.go
+++ b/est/stmt/assign/int.go
@@ -19,14 +19,14 @@ func (a *assign) assignAsInt() est.Compute {
 
 func (a *assign) assignIntLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(*a.y.LiteralPtr)
+	*(*int)(ret) = *(*int)(a.y.Pointer(state))
 
 	return ret
 }
 
 func (a *assign) assignIntComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Comp(state))
+	*(*int)(ret) = *(*int)(a.y.Exec(state))
 	return ret
 }
 
diff --git a/est/stmt/assign/string.go b/est/stmt/assign/string.go
index 0c9ce60..5f053f2 100644
--- a/est/stmt/assign/string.go
+++ b/est/stmt/assign/string.go
@@ -19,7 +19,7 @@ func (a *assign) assignAsString() est.Compute {
 
 func (a *assign) assignStringComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Comp(state))
+	*(*string)(ret) = *(*string)(a.y.Exec(state))
 	return ret
 }
 
@@ -37,6 +37,6 @@ func (a *assign) assignStringSelPtr(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignStringLiteral(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(*a.y.LiteralPtr)
+	*(*string)(ret) = *(*string)(a.y.Pointer(state))
 	return ret
 }
-- 
2.43.0


From c73d861ee3da0fb7122d0d56554ae0404e24fdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:26 +0000
Subject: [PATCH 17/65] fix: report a failed conversion as a template error

---
 est/op/operand.go | 33 +++++++++++++++++----------------
 est/op/slice.go   |  7 ++++++-
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/est/op/operand.go b/est/op/operand.go
index f5083d3..9c35b50 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -14,20 +14,29 @@ type Operand struct {
 	Comp       est.Compute
 	Type       reflect.Type
 	XType      *xunsafe.Type
-	unify      func(pointer unsafe.Pointer) unsafe.Pointer
+	unify      converter.UnifyFn
 	NamedIFace bool
 	Value      interface{}
 }
 
 func (o *Operand) Pointer(state *est.State) unsafe.Pointer {
-	return o.unifyPtr(o.pointer(state))
+	return o.unifyPtr(o.pointer(state), state)
 }
 
-func (o *Operand) unifyPtr(pointer unsafe.Pointer) unsafe.Pointer {
-	if pointer != nil && o.unify != nil {
-		pointer = o.unify(pointer)
+func (o *Operand) unifyPtr(pointer unsafe.Pointer, state *est.State) unsafe.Pointer {
+	if pointer == nil || o.unify == nil {
+		return pointer
 	}
-	return pointer
+
+	unified, err := o.unify(pointer)
+	if err != nil {
+		state.AddError(err)
+		if unified == nil && o.Type != nil {
+			return unsafe.Pointer(reflect.New(o.Type).Pointer())
+		}
+	}
+
+	return unified
 }
 
 func (o *Operand) pointer(state *est.State) unsafe.Pointer {
@@ -39,7 +48,7 @@ func (o *Operand) pointer(state *est.State) unsafe.Pointer {
 }
 
 func (o *Operand) Exec(state *est.State) unsafe.Pointer {
-	return o.unifyPtr(o.exec(state))
+	return o.unifyPtr(o.exec(state), state)
 }
 
 func (o *Operand) exec(state *est.State) unsafe.Pointer {
@@ -154,13 +163,5 @@ func (o *Operand) getXType(rType reflect.Type) reflect.Type {
 }
 
 func (o *Operand) SetUnifier(x converter.UnifyFn) {
-	var unify func(pointer unsafe.Pointer) unsafe.Pointer
-	if x != nil {
-		unify = func(pointer unsafe.Pointer) unsafe.Pointer {
-			ptr, _ := x(pointer)
-			return ptr
-		}
-	}
-
-	o.unify = unify
+	o.unify = x
 }
diff --git a/est/op/slice.go b/est/op/slice.go
index bf78078..9976c84 100644
--- a/est/op/slice.go
+++ b/est/op/slice.go
@@ -35,7 +35,12 @@ func (s *Slice) index(state *est.State) (int, bool) {
 
 	if s.ToInter != nil {
 		var err error
-		if indexPtr, err = s.ToInter(indexPtr); err != nil || indexPtr == nil {
+		if indexPtr, err = s.ToInter(indexPtr); err != nil {
+			state.AddError(err)
+			return 0, false
+		}
+
+		if indexPtr == nil {
 			return 0, false
 		}
 	}
-- 
2.43.0


From 39c4b14e5025baa475391669bc13c0d137b5a9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:16 +0000
Subject: [PATCH 18/65] fix: truthiness of computed numbers, nil pointers and
 for loop conditions

---
 est/stmt/for.go |  4 ++--
 est/stmt/if.go  | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/est/stmt/for.go b/est/stmt/for.go
index e9050b4..11b1e80 100644
--- a/est/stmt/for.go
+++ b/est/stmt/for.go
@@ -17,7 +17,7 @@ type For struct {
 func (f *For) compute(state *est.State) unsafe.Pointer {
 	var ptr unsafe.Pointer
 	f.Init(state)
-	for *(*bool)(f.Condition.Exec(state)) {
+	for isTrue(f.Condition.Exec(state)) {
 		ptr = f.Block(state)
 		f.Post(state)
 	}
@@ -30,7 +30,7 @@ func ForLoop(init, post est.New, condition *op.Expression, block est.Compute) (e
 		forLoop := &For{}
 		var err error
 
-		forLoop.Condition, err = condition.Operand(control)
+		forLoop.Condition, err = conditionOperand(condition, control)
 		if err != nil {
 			return nil, err
 		}
diff --git a/est/stmt/if.go b/est/stmt/if.go
index 893625e..0973a11 100644
--- a/est/stmt/if.go
+++ b/est/stmt/if.go
@@ -16,19 +16,23 @@ type If struct {
 }
 
 func (i *If) computeWithoutElse(state *est.State) unsafe.Pointer {
-	if *(*bool)(i.Condition.Exec(state)) {
+	if isTrue(i.Condition.Exec(state)) {
 		return i.Block(state)
 	}
 	return nil
 }
 
 func (i *If) compute(state *est.State) unsafe.Pointer {
-	if *(*bool)(i.Condition.Exec(state)) {
+	if isTrue(i.Condition.Exec(state)) {
 		return i.Block(state)
 	}
 	return i.ElseIf(state)
 }
 
+func isTrue(ptr unsafe.Pointer) bool {
+	return ptr != nil && *(*bool)(ptr)
+}
+
 func NewIf(condition *op2.Expression, block, elseIf est.New) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
 		result := &If{}
@@ -71,7 +75,7 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		rType = condition.Selector.Type
 	}
 
-	if condition.New != nil {
+	if rType == nil && condition.New != nil {
 		rType = reflect.TypeOf(true)
 	}
 
@@ -151,7 +155,7 @@ func conditionOperand(condition *op2.Expression, control est.Control) (*op2.Oper
 		}
 
 	default:
-		return nil, fmt.Errorf("unsupported comparable type %v", condition.Type.Kind())
+		return nil, fmt.Errorf("unsupported comparable type %v", rType.Kind())
 	}
 
 	return newOperand, nil
-- 
2.43.0


From 46d0d2eb427bfe3476d8a0d33faf10105126036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 19/65] fix: check and convert function arguments and results
 instead of reinterpreting memory

---
 est/op/func.go | 186 ++++++++++++++++++++++++++++++++++---------------
 planner.go     |   1 +
 2 files changed, 129 insertions(+), 58 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index 07bbee3..ff3e581 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -46,8 +46,7 @@ type (
 		ResultType reflect.Type
 		Function   Funeexpression
 
-		maxArgs     int
-		isVariadic  bool
+		discovered  bool
 		iFaceMethod bool
 		caller      reflect.Value
 	}
@@ -108,22 +107,48 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 	if err != nil {
 		state.AddError(err)
 	}
-	if anIface != nil {
-		accumulator.SetValue(state.MemPtr, anIface)
-		if f.XType.Type().Kind() == reflect.Map {
-			return unsafe.Pointer(reflect.ValueOf(f.XType.Ref(anIface)).Pointer())
-		}
-		return xunsafe.AsPointer(anIface)
+	if anIface == nil || f.ResultType == nil {
+		return nil
 	}
 
-	return nil
+	resultType := reflect.TypeOf(anIface)
+	if !resultType.AssignableTo(f.ResultType) {
+		state.AddError(fmt.Errorf("unexpected function %v result type, expected %v, got %v", f.Name, f.ResultType.String(), resultType.String()))
+		return nil
+	}
+
+	if accumulator.Field != nil && accumulator.Field.Type != nil {
+		setResult(accumulator.Field, state.MemPtr, anIface)
+	}
+
+	if accumulator.Type != nil && !resultType.AssignableTo(accumulator.Type) {
+		state.AddError(fmt.Errorf("unexpected function %v result type, expected %v, got %v", f.Name, accumulator.Type.String(), resultType.String()))
+		return nil
+	}
+
+	if accumulator.Type != nil && accumulator.Type.Kind() == reflect.Interface {
+		result := reflect.New(accumulator.Type)
+		result.Elem().Set(reflect.ValueOf(anIface))
+		return unsafe.Pointer(result.Pointer())
+	}
+
+	if resultType.Kind() == reflect.Map {
+		return xunsafe.RefPointer(xunsafe.AsPointer(anIface))
+	}
+
+	return xunsafe.AsPointer(anIface)
 }
 
-func (f *Func) callFunc(operands []*Operand, state *est.State) (interface{}, error) {
-	if len(operands) == 0 {
-		return nil, fmt.Errorf("expected to got min 1 operand but got %v", len(operands))
+func setResult(field *xunsafe.Field, holder unsafe.Pointer, value interface{}) {
+	switch field.Kind() {
+	case reflect.Int, reflect.String, reflect.Float64, reflect.Bool:
+		field.SetValue(holder, value)
+	default:
+		reflect.NewAt(field.Type, field.Pointer(holder)).Elem().Set(reflect.ValueOf(value))
 	}
+}
 
+func (f *Func) callFunc(operands []*Operand, state *est.State) (interface{}, error) {
 	result, err := f.execute(operands, state)
 	if err != nil {
 		return nil, err
@@ -154,65 +179,108 @@ func (f *Func) execute(operands []*Operand, state *est.State) ([]reflect.Value,
 	caller := f.caller
 	if f.iFaceMethod { //TODO optimize
 		owner := operands[0].ExecReflectValue(state)
-		method := owner.MethodByName(f.Name)
-		caller = method
+		if !owner.IsValid() || (owner.Kind() == reflect.Interface && owner.IsNil()) {
+			return nil, fmt.Errorf("can't call %v, receiver was nil", f.Name)
+		}
+
+		caller = owner.MethodByName(f.Name)
 		operands = operands[1:]
 	}
 
-	if len(operands) >= f.maxArgs && !f.isVariadic {
-		return nil, fmt.Errorf("too many non-variadic function argument: expected: %v, had: %v", f.maxArgs, len(operands))
+	funcType := caller.Type()
+	if err := f.checkArgsLen(funcType, len(operands)); err != nil {
+		return nil, err
+	}
+
+	values := make([]reflect.Value, len(operands))
+	for i, operand := range operands {
+		var err error
+		if values[i], err = f.asArg(operand.ExecInterface(state), argType(funcType, i)); err != nil {
+			return nil, err
+		}
+	}
+
+	return caller.Call(values), nil
+}
+
+func (f *Func) checkArgsLen(funcType reflect.Type, actual int) error {
+	expected := funcType.NumIn()
+	if funcType.IsVariadic() {
+		if actual < expected-1 {
+			return fmt.Errorf("too few function %v arguments: expected at least: %v, had: %v", f.Name, expected-1, actual)
+		}
+
+		return nil
 	}
 
-	switch len(operands) {
-	case 0:
-		return caller.Call([]reflect.Value{}), nil
-	case 1:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-		}), nil
+	if actual > expected {
+		return fmt.Errorf("too many non-variadic function %v arguments: expected: %v, had: %v", f.Name, expected, actual)
+	}
 
-	case 2:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-		}), nil
+	if actual < expected {
+		return fmt.Errorf("too few function %v arguments: expected: %v, had: %v", f.Name, expected, actual)
+	}
 
-	case 3:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
-		}), nil
+	return nil
+}
 
-	case 4:
-		return caller.Call([]reflect.Value{
-			f.ensureValue(operands[0].ExecInterface(state), operands[0].Type),
-			f.ensureValue(operands[1].ExecInterface(state), operands[1].Type),
-			f.ensureValue(operands[2].ExecInterface(state), operands[2].Type),
-			f.ensureValue(operands[3].ExecInterface(state), operands[3].Type),
-		}), nil
+func argType(funcType reflect.Type, i int) reflect.Type {
+	if funcType.IsVariadic() && i >= funcType.NumIn()-1 {
+		return funcType.In(funcType.NumIn() - 1).Elem()
+	}
 
-	default:
-		values := make([]reflect.Value, 0, len(operands))
-		for i := 0; i < len(operands); i++ {
-			if i >= f.maxArgs && !f.isVariadic {
-				return nil, fmt.Errorf("too many non-variadic function arguments")
-			}
+	return funcType.In(i)
+}
 
-			anInterface := operands[i].ExecInterface(state)
-			values = append(values, f.ensureValue(anInterface, operands[i].Type))
+func (f *Func) asArg(arg interface{}, argType reflect.Type) (reflect.Value, error) {
+	if arg == nil {
+		switch argType.Kind() {
+		case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map, reflect.Func, reflect.Chan:
+			return reflect.Zero(argType), nil
 		}
 
-		return caller.Call(values), nil
+		return reflect.Value{}, fmt.Errorf("can't use nil as %v argument of the function %v", argType.String(), f.Name)
+	}
+
+	value := reflect.ValueOf(arg)
+	if value.Type().AssignableTo(argType) {
+		return value, nil
+	}
+
+	if value.Kind() == reflect.Ptr && !value.IsNil() && argType.Kind() != reflect.Ptr {
+		return f.asArg(value.Elem().Interface(), argType)
 	}
+
+	if isNumeric(value.Kind()) && isNumeric(argType.Kind()) || value.Kind() == argType.Kind() && value.Kind() != reflect.Slice && value.CanConvert(argType) {
+		return value.Convert(argType), nil
+	}
+
+	return reflect.Value{}, fmt.Errorf("can't use %v as %v argument of the function %v", value.Type().String(), argType.String(), f.Name)
 }
 
-func (f *Func) ensureValue(anInterface interface{}, t reflect.Type) reflect.Value {
-	if anInterface == nil {
-		return reflect.Zero(t)
+func isNumeric(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Float64 && kind != reflect.Uintptr
+}
+
+//WithOperands returns function that can be called with given operands
+func (f *Func) WithOperands(operands []*Operand) *Func {
+	if !f.discovered {
+		return f
+	}
+
+	funcType := f.caller.Type()
+	matches := len(operands) == funcType.NumIn()
+	for i := 0; i < len(operands) && matches; i++ {
+		matches = operands[i].Type == funcType.In(i)
 	}
 
-	return reflect.ValueOf(anInterface)
+	if matches {
+		return f
+	}
+
+	result := *f // discovered function assumes operand types
+	result.Function = result.callFunc
+	return &result
 }
 
 func (f *Func) tryDiscoverReceiver(receiver interface{}, operands []*Operand, state *est.State, receiverValue reflect.Value) (func() (interface{}, error), bool) {
@@ -305,6 +373,8 @@ func (f *Functions) NewFunc(name string, function interface{}, resultType reflec
 			ResultType: rType,
 			XType:      xunsafe.NewType(rType),
 			Literal:    xunsafe.AsPointer(function),
+			discovered: true,
+			caller:     reflect.ValueOf(function),
 		}, nil
 	}
 
@@ -347,9 +417,6 @@ func (f *Functions) newFunc(name string, funcType reflect.Type, resultType refle
 		iFaceMethod: isNamedIFace,
 		ResultType:  resultType,
 		XType:       xunsafe.NewType(resultType),
-		isVariadic:  funcType.IsVariadic(),
-		maxArgs:     funcType.NumIn() + 1, //reflect.Method.Call require to pass a receiver as first Arg.
-
 	}
 	aFunc.Function = aFunc.callFunc
 	return aFunc, nil
@@ -447,10 +514,13 @@ func (f *Functions) asFunc(receiverType reflect.Type, id string, method reflect.
 	}
 
 	methodSignature := method.Func.Interface()
-	aFunc := &Func{}
+	aFunc := &Func{Name: id}
 	if funExpr, resultType, ok := f.discover(receiverType, methodSignature); ok {
 		aFunc.Function = funExpr
 		aFunc.ResultType = resultType
+		aFunc.XType = xunsafe.NewType(resultType)
+		aFunc.discovered = true
+		aFunc.caller = method.Func
 	} else {
 		var err error
 		aFunc, err = f.reflectFunc(id, methodSignature, method.Type, nil)
diff --git a/planner.go b/planner.go
index b2c03d4..6ccf8fb 100644
--- a/planner.go
+++ b/planner.go
@@ -373,6 +373,7 @@ func (p *Planner) newFuncSelector(selectorId string, methodName string, call *ex
 		return nil, err
 	}
 
+	aFunc = aFunc.WithOperands(operands)
 	accumulator := p.accumulator(aFunc.ResultType)
 	newSelector := op.FunctionSelector(selectorId, accumulator.Field, aFunc, prev)
 	newSelector.Args = operands
-- 
2.43.0


From 4ebda5cc4ecceee4b66fb5155547baa68af43d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:30 +0000
Subject: [PATCH 20/65] fix: raise the error message as is, it is not a format

---
 functions/errors.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/functions/errors.go b/functions/errors.go
index b2a89c2..f23948e 100644
--- a/functions/errors.go
+++ b/functions/errors.go
@@ -1,6 +1,7 @@
 package functions
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 )
@@ -61,11 +62,11 @@ func (e Errors) DiscoverInterfaces(aFunc interface{}) (func(args ...interface{})
 }
 
 func (e Errors) Raise(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) RegisterError(message string) (string, error) {
-	return "", fmt.Errorf(message)
+	return "", errors.New(message)
 }
 
 func (e Errors) AssertFloat(value interface{}) (bool, error) {
@@ -109,5 +110,5 @@ func (e Errors) AssertWithMessage(isValid bool, message string) (bool, error) {
 		return true, nil
 	}
 
-	return false, fmt.Errorf(message)
+	return false, errors.New(message)
 }
-- 
2.43.0


From 3dab261c7fa1696e5a2d1b0f712c5f98df0c6207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:33 +0000
Subject: [PATCH 21/65] fix: grow an empty buffer when a byte is appended

---
 est/buffer.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/est/buffer.go b/est/buffer.go
index 94399da..c650a00 100644
--- a/est/buffer.go
+++ b/est/buffer.go
@@ -14,10 +14,7 @@ type Buffer struct {
 }
 
 func (b *Buffer) AppendByte(bs byte) {
-	if b.index+1 >= len(b.buf) {
-		newBuffer := make([]byte, len(b.buf)+b.poolSize)
-		b.buf = append(b.buf, newBuffer...)
-	}
+	b.growIfNeeded(1)
 	b.buf[b.index] = bs
 	b.index++
 }
-- 
2.43.0


From 5c0ebb7144a33507c42a817c325e3212e8be7973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:35 +0000
Subject: [PATCH 22/65] fix: do not mix functions of receiver types with the
 same name

---
 est/op/func.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index ff3e581..c80c9dd 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -28,7 +28,7 @@ type (
 		kindFunctions []KindFunction
 		funcs         []*Func
 
-		receivers map[string]*funcReceiver
+		receivers map[reflect.Type]*funcReceiver
 		functions map[string]*Function
 		ns        map[string]interface{}
 	}
@@ -349,7 +349,7 @@ func EmptyFunctions() *Functions {
 			index: map[reflect.Kind]int{},
 		},
 		funcs:     make([]*Func, 0),
-		receivers: map[string]*funcReceiver{},
+		receivers: map[reflect.Type]*funcReceiver{},
 		ns:        map[string]interface{}{},
 		functions: map[string]*Function{},
 	}
@@ -503,7 +503,7 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 
 func (f *Functions) asFunc(receiverType reflect.Type, id string, method reflect.Method) (*Func, error) {
 	f.ensureReceiver(receiverType)
-	receiver, _ := f.receivers[asMapKey(receiverType)]
+	receiver, _ := f.receivers[receiverType]
 	index, ok := receiver.index[id]
 	if ok {
 		return receiver.funcs[index], nil
@@ -949,7 +949,7 @@ func (f *Functions) registerTypeFunc(receiverType reflect.Type, typeFunc *TypeFu
 }
 
 func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
-	receiver, ok := f.receivers[asMapKey(receiverType)]
+	receiver, ok := f.receivers[receiverType]
 	if ok {
 		return receiver
 	}
@@ -960,14 +960,10 @@ func (f *Functions) ensureReceiver(receiverType reflect.Type) *funcReceiver {
 		rType: receiverType,
 	}
 
-	f.receivers[asMapKey(receiverType)] = receiver
+	f.receivers[receiverType] = receiver
 	return receiver
 }
 
-func asMapKey(receiverType reflect.Type) string {
-	return receiverType.String()
-}
-
 func incorrectArgumentsError(wanted string, got []*Operand) error {
 	return fmt.Errorf("expected to got %v but got %v", wanted, len(got))
 }
-- 
2.43.0


From 8d21cba57ad51ad2decf9c050d47a25c567986cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:14 +0000
Subject: [PATCH 23/65] fix: set a state value with its type, report a value
 that does not fit

---
 est/state.go | 54 ++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/est/state.go b/est/state.go
index c86d84e..f9a544f 100644
--- a/est/state.go
+++ b/est/state.go
@@ -2,6 +2,7 @@ package est
 
 import (
 	"fmt"
+	"github.com/viant/xunsafe"
 	"reflect"
 	"strings"
 	"sync"
@@ -26,18 +27,54 @@ func (s *State) SetValue(k string, v interface{}) error {
 		return fmt.Errorf("undefined: %v", k)
 	}
 
-	switch xField.Kind() {
-	case reflect.Ptr, reflect.Struct, reflect.Slice, reflect.Map, reflect.Interface:
-		xField.SetValue(s.MemPtr, v)
+	return s.setField(k, xField, v)
+}
+
+func (s *State) setField(name string, xField *xunsafe.Field, v interface{}) error {
+	dest := reflect.NewAt(xField.Type, xField.Pointer(s.MemPtr)).Elem()
+	if v == nil {
+		dest.Set(reflect.Zero(xField.Type))
+		return nil
+	}
+
+	value := reflect.ValueOf(v)
+	vType := value.Type()
+	switch {
+	case vType.AssignableTo(xField.Type):
+		dest.Set(value)
+	case vType.Kind() == reflect.Ptr && !value.IsNil() && vType.Elem().AssignableTo(xField.Type):
+		dest.Set(value.Elem())
+	case xField.Kind() == reflect.Ptr && vType.AssignableTo(xField.Type.Elem()):
+		ptr := reflect.New(xField.Type.Elem())
+		ptr.Elem().Set(value)
+		dest.Set(ptr)
+	case isConvertible(vType, xField.Type):
+		dest.Set(value.Convert(xField.Type))
 	default:
-		xField.Set(s.MemPtr, v)
+		return fmt.Errorf("can't set %v, expected %v but got %T", name, xField.Type.String(), v)
 	}
 
 	return nil
 }
 
+func isConvertible(src, dest reflect.Type) bool {
+	if isNumeric(src.Kind()) && isNumeric(dest.Kind()) {
+		return true
+	}
+
+	return src.Kind() == dest.Kind() && src.ConvertibleTo(dest)
+}
+
+func isNumeric(kind reflect.Kind) bool {
+	return kind >= reflect.Int && kind <= reflect.Float64
+}
+
 func (s *State) EmbedValue(v interface{}) error {
 	vType := reflect.TypeOf(v)
+	if vType == nil {
+		return fmt.Errorf("not found holder for %T", v)
+	}
+
 	if vType.Kind() == reflect.Ptr && vType.Elem().Name() != "" {
 		vType = vType.Elem()
 	}
@@ -57,14 +94,7 @@ func (s *State) EmbedValue(v interface{}) error {
 		return fmt.Errorf("undefined: %v", holderName)
 	}
 
-	switch xField.Kind() {
-	case reflect.Ptr, reflect.Struct, reflect.Slice:
-		xField.SetValue(s.MemPtr, v)
-	default:
-		xField.Set(s.MemPtr, v)
-	}
-
-	return nil
+	return s.setField(holderName, xField, v)
 }
 
 func (s *State) Reset() {
-- 
2.43.0


From 5e5678101f87e017ad3ba8a52f25279ed79d9d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 24/65] fix: keep the variable ids in a scope snapshot

---
 est/type.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/est/type.go b/est/type.go
index 9137ef1..58b47cb 100644
--- a/est/type.go
+++ b/est/type.go
@@ -100,10 +100,9 @@ func (t *Type) Snapshot() *Type {
 	anonymousFields := map[string]string{}
 	copy(xFields, t.xFields)
 	copy(fields, t.fields)
-	copy(fields, t.fields)
 
-	for i, field := range fields {
-		types[field.Name] = i
+	for id, i := range t.fieldsIndex {
+		types[id] = i
 	}
 
 	for key := range t.anonymousFields {
-- 
2.43.0


From ce02410dc103f18db0f8a262cb0c0caa0bfc94c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:16 +0000
Subject: [PATCH 25/65] fix: normalize a key pointer to the same key as its
 value

---
 keys/normalize.go | 37 ++++++++++++++++++++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/keys/normalize.go b/keys/normalize.go
index 6f8c504..525a4c5 100644
--- a/keys/normalize.go
+++ b/keys/normalize.go
@@ -19,8 +19,43 @@ func Normalize(key interface{}) interface{} {
 		if actual == nil {
 			return nil
 		}
-		return int(*actual)
+		return *actual
 	case *float32:
+		if actual == nil {
+			return nil
+		}
+		return *actual
+	case *bool:
+		if actual == nil {
+			return nil
+		}
+		return *actual
+	case *int8:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case *uint:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case *uint64:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case *uint32:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case *uint16:
+		if actual == nil {
+			return nil
+		}
+		return int(*actual)
+	case *uint8:
 		if actual == nil {
 			return nil
 		}
-- 
2.43.0


From ab4407e9c39902386bb8ee9ff0fc4836c62bd484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 26/65] fix: reject an evaluate template that is not a string

---
 stmt.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/stmt.go b/stmt.go
index 72fa56d..3e538f4 100644
--- a/stmt.go
+++ b/stmt.go
@@ -171,5 +171,13 @@ func (p *Planner) compileEvaluate(actual *stmt2.Evaluate) (est.New, error) {
 		return nil, err
 	}
 
+	if selector.Type == nil {
+		return nop(), nil
+	}
+
+	if selector.Type.Kind() != reflect.String {
+		return nil, fmt.Errorf("unsupported evaluate template type: %v", selector.Type.String())
+	}
+
 	return evaluate(selector, p.cache, p)
 }
-- 
2.43.0


From 09685e8daab1271181dc943686cd60ff884ecc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 27/65] fix: share evaluated templates safely between
 executions and scopes, report their errors

---
 cache.go    | 31 ++++++++++++++++++----------
 evaluate.go | 59 ++++++++++++++++++++++++++++++++++++++---------------
 2 files changed, 63 insertions(+), 27 deletions(-)

diff --git a/cache.go b/cache.go
index c4aa426..e3a6b28 100644
--- a/cache.go
+++ b/cache.go
@@ -8,26 +8,38 @@ import (
 type (
 	cache struct {
 		cacheSize int
-		cache     map[string]int
+		cache     map[cacheKey]int
 		values    []*value
 		locker    sync.Locker
+		compiler  sync.Mutex //planners sharing the cache share also functions, that are discovered during compilation
+	}
+
+	//cacheKey identifies template with the scope it was compiled in
+	cacheKey struct {
+		parent    *Planner
+		variables int
+		template  string
 	}
 
 	value struct {
-		planner *Planner
-		compute est.Compute
+		planner   *Planner
+		variables int //number of variables inherited from the parent scope
+		compute   est.Compute
 	}
 )
 
 func newCache(cacheSize int) *cache {
 	return &cache{
-		cache:     map[string]int{},
+		cache:     map[cacheKey]int{},
 		locker:    &sync.Mutex{},
 		cacheSize: cacheSize,
 	}
 }
 
-func (c *cache) expression(name string) (*value, bool) {
+func (c *cache) expression(name cacheKey) (*value, bool) {
+	c.locker.Lock()
+	defer c.locker.Unlock()
+
 	val, ok := c.cache[name]
 	if !ok {
 		return nil, false
@@ -36,7 +48,7 @@ func (c *cache) expression(name string) (*value, bool) {
 	return c.values[val], ok
 }
 
-func (c *cache) put(name string, planner *Planner, compute est.Compute) {
+func (c *cache) put(name cacheKey, aValue *value) {
 	if c.cacheSize == 0 {
 		return
 	}
@@ -45,16 +57,13 @@ func (c *cache) put(name string, planner *Planner, compute est.Compute) {
 	defer c.locker.Unlock()
 	c.cleanCacheIfNeeded()
 
-	c.values = append(c.values, &value{
-		planner: planner,
-		compute: compute,
-	})
+	c.values = append(c.values, aValue)
 	c.cache[name] = len(c.values) - 1
 }
 
 func (c *cache) cleanCacheIfNeeded() {
 	if len(c.cache) > c.cacheSize {
-		c.cache = map[string]int{}
+		c.cache = map[cacheKey]int{}
 		c.values = c.values[:0]
 	}
 }
diff --git a/evaluate.go b/evaluate.go
index 9a4882f..99b6473 100644
--- a/evaluate.go
+++ b/evaluate.go
@@ -1,9 +1,11 @@
 package velty
 
 import (
+	"github.com/viant/velty/ast/stmt"
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
 	"github.com/viant/velty/parser"
+	"reflect"
 	"unsafe"
 )
 
@@ -15,37 +17,62 @@ type evaluator struct {
 }
 
 func (e *evaluator) compute(state *est.State) unsafe.Pointer {
-	varValue := *(*string)(e.x.Exec(state))
-	if cacheValue, ok := e.cache.expression(varValue); ok {
-		newState := e.newState(cacheValue.planner, state)
-		return cacheValue.compute(newState)
+	aValue, err := e.value(*(*string)(e.x.Exec(state)))
+	if err != nil {
+		return est.EmptyStringPtr
+	}
+
+	newState := e.newState(aValue, state)
+	result := aValue.compute(newState)
+	state.Errors = append(state.Errors, newState.Errors...)
+	return result
+}
+
+func (e *evaluator) value(template string) (*value, error) {
+	key := cacheKey{parent: e.parent, variables: len(e.parent.Type.ValueAccessors()), template: template}
+	if cacheValue, ok := e.cache.expression(key); ok {
+		return cacheValue, nil
 	}
 
-	block, err := parser.Parse([]byte(varValue))
+	block, err := parser.Parse([]byte(template))
 	if err != nil {
-		return est.EmptyStringPtr
+		return nil, err
 	}
 
-	evaluatorPlanner := e.parent.New()
-	exec, err := evaluatorPlanner.newCompute(block)
+	planner, exec, err := e.compile(block)
 	if err != nil {
-		return est.EmptyStringPtr
+		return nil, err
 	}
 
-	newState := e.newState(evaluatorPlanner, state)
-	e.cache.put(varValue, evaluatorPlanner, exec)
+	aValue := &value{planner: planner, variables: key.variables, compute: exec}
+	e.cache.put(key, aValue)
+	return aValue, nil
+}
+
+func (e *evaluator) compile(block *stmt.Block) (*Planner, est.Compute, error) {
+	e.cache.compiler.Lock()
+	defer e.cache.compiler.Unlock()
 
-	return exec(newState)
+	planner := e.parent.New()
+	exec, err := planner.newCompute(block)
+	return planner, exec, err
 }
 
-func (e *evaluator) newState(planner *Planner, state *est.State) *est.State {
-	newState := planner.stateProvider()()
+func (e *evaluator) newState(aValue *value, state *est.State) *est.State {
+	newState := aValue.planner.stateProvider()()
+
+	variables := aValue.variables
+	if fields := reflect.TypeOf(state.Mem).Elem().NumField(); fields < variables {
+		variables = fields //state was created before the remaining ones were defined
+	}
 
-	for _, valueAccessor := range e.parent.Type.ValueAccessors() {
-		valueAccessor.SetValue(newState.MemPtr, valueAccessor.Value(state.MemPtr))
+	for _, valueAccessor := range e.parent.Type.ValueAccessors()[:variables] {
+		aCopy := est.Copier(valueAccessor.Type, valueAccessor.Type)
+		aCopy(valueAccessor.Pointer(newState.MemPtr), valueAccessor.Pointer(state.MemPtr))
 	}
 
 	newState.Buffer = state.Buffer
+	newState.PanicOnError = state.PanicOnError
 	return newState
 }
 
-- 
2.43.0


From 0de557b0cb0de77076e1d2b66821d10a462578d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 28/65] fix: copy the value passed as an interface argument

---
 est/op/func.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/est/op/func.go b/est/op/func.go
index c80c9dd..dea5df9 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -244,7 +244,13 @@ func (f *Func) asArg(arg interface{}, argType reflect.Type) (reflect.Value, erro
 
 	value := reflect.ValueOf(arg)
 	if value.Type().AssignableTo(argType) {
-		return value, nil
+		if argType.Kind() != reflect.Interface {
+			return value, nil
+		}
+
+		valueCopy := reflect.New(value.Type()).Elem() // arg may point to the state memory, that can be later overridden
+		valueCopy.Set(value)
+		return valueCopy, nil
 	}
 
 	if value.Kind() == reflect.Ptr && !value.IsNil() && argType.Kind() != reflect.Ptr {
-- 
2.43.0


From f921bad356ba6f2a7c5a1c3ca1278ce3db0291d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 29/65] fix: report an undefined function argument or index

---
 planner.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/planner.go b/planner.go
index 6ccf8fb..173a7c0 100644
--- a/planner.go
+++ b/planner.go
@@ -426,6 +426,10 @@ func (p *Planner) selectorOperands(call *expr.Call, prev *op.Selector) ([]*op.Op
 		if err != nil {
 			return nil, err
 		}
+		if operand.Type == nil {
+			return nil, fmt.Errorf("couldn't determine type of the function argument")
+		}
+
 		operands = append(operands, operand)
 	}
 	return operands, nil
@@ -548,12 +552,7 @@ func (p *Planner) matchCall(call ast.Expression, selector *op.Selector, ID strin
 }
 
 func (p *Planner) newSliceSelector(id string, actual *expr.SliceIndex, selector *op.Selector) (*op.Selector, error) {
-	indexEpression, err := p.compileExpr(actual.X)
-	if err != nil {
-		return nil, err
-	}
-
-	operandExpression, err := indexEpression.Operand(*p.Control)
+	operandExpression, err := p.compileOperand(actual.X)
 	if err != nil {
 		return nil, err
 	}
@@ -608,6 +607,11 @@ func (p *Planner) compileOperand(actual ast.Expression) (*op.Operand, error) {
 	if err != nil {
 		return nil, err
 	}
+
+	if xOperand.Type == nil {
+		return nil, fmt.Errorf("couldn't determine type of the index")
+	}
+
 	return xOperand, nil
 }
 
-- 
2.43.0


From a969d32b40639ccf2b80e22075bdb61def1d9eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 30/65] fix: do not assign to the shared zero value or to a
 function result

---
 est/op/expr.go            | 12 +++++++++---
 est/op/upstream.go        |  8 ++++++++
 est/stmt/assign/assign.go |  2 +-
 stmt.go                   |  4 ++++
 4 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/est/op/expr.go b/est/op/expr.go
index e63d372..cb67966 100644
--- a/est/op/expr.go
+++ b/est/op/expr.go
@@ -10,6 +10,9 @@ import (
 type ShouldRefLast bool
 type ShouldDerefLast bool
 
+// ShouldAssign represents an operand that value will be overridden
+type ShouldAssign bool
+
 type Expression struct {
 	LiteralPtr *unsafe.Pointer
 	Type       reflect.Type
@@ -21,6 +24,7 @@ type Expression struct {
 func (e *Expression) Operand(control est.Control, options ...interface{}) (*Operand, error) {
 	var shouldDerefLast bool
 	var shouldRefLast bool
+	var shouldAssign bool
 
 	for _, option := range options {
 		switch actual := option.(type) {
@@ -28,6 +32,8 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 			shouldDerefLast = bool(actual)
 		case ShouldRefLast:
 			shouldRefLast = bool(actual)
+		case ShouldAssign:
+			shouldAssign = bool(actual)
 		}
 	}
 
@@ -50,7 +56,7 @@ func (e *Expression) Operand(control est.Control, options ...interface{}) (*Oper
 
 	if e.Selector != nil {
 		if e.Selector != nil && e.Selector.Indirect {
-			operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast)
+			operand.Comp = e.newIndirectSelector(shouldDerefLast, shouldRefLast, shouldAssign)
 		}
 
 		return operand, nil
@@ -87,8 +93,8 @@ func (e Expressions) Operands(control est.Control, shouldDerefLast bool) ([]*Ope
 	return result, nil
 }
 
-func (e *Expression) newIndirectSelector(shouldDerefLast bool, refLast bool) est.Compute {
-	upstream := Upstream(e.Selector, shouldDerefLast, refLast)
+func (e *Expression) newIndirectSelector(shouldDerefLast bool, refLast bool, assignable bool) est.Compute {
+	upstream := upstream(e.Selector, shouldDerefLast, refLast, assignable)
 	return func(state *est.State) unsafe.Pointer {
 		ret := upstream(state)
 		return ret
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 6ae99a2..2ef5817 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -9,6 +9,10 @@ import (
 )
 
 func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.State) unsafe.Pointer {
+	return upstream(selector, derefLast, refLast, false)
+}
+
+func upstream(selector *Selector, derefLast bool, refLast bool, assignable bool) func(state *est.State) unsafe.Pointer {
 	derefLast = derefLast || converter.IsPrimitive(selector.Type)
 	sel := selector.Parent
 	counter := -1
@@ -95,6 +99,10 @@ func Upstream(selector *Selector, derefLast bool, refLast bool) func(state *est.
 			}
 
 			if ptr == nil {
+				if assignable { //zero value is shared, it can't be overridden
+					return unsafe.Pointer(reflect.New(selector.Type).Pointer())
+				}
+
 				return zeroValuePtr
 			}
 		}
diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index cc4ce82..6e83f4e 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -245,7 +245,7 @@ func typedCopy(rType reflect.Type, dest, src unsafe.Pointer) {
 
 func Assign(xExpr, yExpr *op2.Expression) (est.New, error) {
 	return func(control est.Control) (est.Compute, error) {
-		x, err := xExpr.Operand(control)
+		x, err := xExpr.Operand(control, op2.ShouldAssign(true))
 		if err != nil {
 			return nil, err
 		}
diff --git a/stmt.go b/stmt.go
index 3e538f4..aacd7b1 100644
--- a/stmt.go
+++ b/stmt.go
@@ -44,6 +44,10 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 		return nil, err
 	}
 
+	if x.Selector == nil || x.Selector.Func != nil {
+		return nil, fmt.Errorf("can't assign to the function result or expression")
+	}
+
 	y, err := p.compileExpr(actual.Y)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 6d469eaf64e6811cb64bb8ea981e9b95b817bb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:50 +0000
Subject: [PATCH 31/65] fix: report an undefined assigned value and a function
 namespace used as a value

---
 selector.go | 5 +++++
 stmt.go     | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/selector.go b/selector.go
index 3c8c73d..d480b41 100644
--- a/selector.go
+++ b/selector.go
@@ -1,6 +1,7 @@
 package velty
 
 import (
+	"fmt"
 	"github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
@@ -15,6 +16,10 @@ func (p *Planner) selectorExpr(selector *expr.Select) (*op.Expression, error) {
 		return nil, err
 	}
 
+	if expression.Selector != nil && expression.Selector.Literal != nil {
+		return nil, fmt.Errorf("functions namespace %v is not a value", selector.ID)
+	}
+
 	if expression.Selector == nil {
 		id := selector.ID
 		expression.Selector = op.NewSelector(id, selector.ID, nil, nil)
diff --git a/stmt.go b/stmt.go
index aacd7b1..5958d02 100644
--- a/stmt.go
+++ b/stmt.go
@@ -53,6 +53,14 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 		return nil, err
 	}
 
+	if y.Type == nil {
+		return nil, fmt.Errorf("couldn't determine %v type", x.Selector.Name)
+	}
+
+	if target, ok := actual.X.(*expr.Select); ok && x.Type == nil && target.X != nil {
+		return nil, fmt.Errorf("couldn't determine %v type", target.ID)
+	}
+
 	if err = p.adjustSelector(x, y.Type); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 505b208b5502be835ae057561281143137c2ac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 32/65] fix: report a field of a value that is not a struct
 instead of panicking or reading other memory

---
 planner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/planner.go b/planner.go
index 173a7c0..8a7a3e6 100644
--- a/planner.go
+++ b/planner.go
@@ -253,6 +253,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			return p.matchFunc(actual.ID, methodCall, resultSelector)
 		}
 
+		if resultSelector.Type.Kind() == reflect.Slice {
+			return nil, nil, fmt.Errorf("not found field %v at %v", actual.ID, resultSelector.Type.String())
+		}
+
 		_, err = p.fieldByName(parentType, actual, actual.ID)
 		if err != nil {
 			return nil, nil, err
@@ -272,6 +276,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 }
 
 func (p *Planner) fieldByName(parentType reflect.Type, actual *expr.Select, selectorId string) (*xunsafe.Field, error) {
+	if parentType.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("not found field %v at %v", strings.ReplaceAll(selectorId, fieldSeparator, "."), parentType.String())
+	}
+
 	field := xunsafe.FieldByName(parentType, actual.ID)
 	if field != nil {
 		if Parse(field.Tag.Get(velty)).Omit {
-- 
2.43.0


From 9d4bec75b41272c29e586e0087996b0ca9c71d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:51 +0000
Subject: [PATCH 33/65] fix: keep the operator of the for loop post statement,
 the cursor reuses the match

---
 parser/range.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser/range.go b/parser/range.go
index ca147d9..a157cf5 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -96,13 +96,14 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 		}, nil
 	}
 
-	token := matchToken(matched)
+	operator := *matched // the cursor reuses the match
+	token := matchToken(&operator)
 	_, rightOperand, err := matchOperand(cursor, dataTypeMatchers...)
 	if err != nil {
 		return nil, err
 	}
 
-	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, matched)
+	token, rightOperand = normalizeTokensIfNeeded(variable, token, rightOperand, &operator)
 
 	return &stmt.Statement{
 		X:  variable,
-- 
2.43.0


From 19e9be2569070e2d2de2d29397021848c01b5ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:20 +0000
Subject: [PATCH 34/65] fix: report an untypable value assigned to an indexed
 place instead of dereferencing a nil field

---
 stmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stmt.go b/stmt.go
index 5958d02..ee03b78 100644
--- a/stmt.go
+++ b/stmt.go
@@ -54,7 +54,7 @@ func (p *Planner) computeAssignment(actual *stmt2.Statement) (est.New, error) {
 	}
 
 	if y.Type == nil {
-		return nil, fmt.Errorf("couldn't determine %v type", x.Selector.Name)
+		return nil, fmt.Errorf("couldn't determine %v type", x.Selector.ID) // the selector of an indexed place has no field, thus no Name
 	}
 
 	if target, ok := actual.X.(*expr.Select); ok && x.Type == nil && target.X != nil {
-- 
2.43.0


From c246e9ab27470745be5483c7fac5e80420ee4077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 35/65] fix: fields of a type met before, and recursive types,
 can be selected at any place

---
 cyclic.go          | 100 +++++++++------------------------------------
 est/op/selector.go |  10 -----
 planner.go         |  55 ++++++++++++++++---------
 3 files changed, 55 insertions(+), 110 deletions(-)

diff --git a/cyclic.go b/cyclic.go
index a4c1480..a177e34 100644
--- a/cyclic.go
+++ b/cyclic.go
@@ -1,96 +1,36 @@
 package velty
 
 import (
-	"github.com/viant/velty/est/op"
 	"reflect"
 )
 
-type (
-	CycleDetector struct {
-		rType          reflect.Type
-		allTypes       map[reflect.Type]*MultiCycleDetector
-		parent         *CycleDetector
-		parentSelector *op.Selector
-		name           string
-	}
-
-	MultiCycleDetector struct {
-		index    map[reflect.Type]int
-		children []*CycleDetector
-	}
-)
-
-func NewCycleDetector(rType reflect.Type) *CycleDetector {
-	return newCycleDetector(nil, nil, rType, nil)
+// CycleDetector makes sure that indexing fields of recursive types terminates: a type is indexed only where it was met
+// for the first time, fields of the other ones are indexed on demand. Promoted fields are always indexed.
+type CycleDetector struct {
+	visited map[reflect.Type]bool
+	holders []reflect.Type //current type, and types it was embedded to
 }
 
-func newCycleDetector(parent *CycleDetector, state map[reflect.Type]*MultiCycleDetector, rType reflect.Type, parentSelector *op.Selector) *CycleDetector {
-	if state == nil {
-		state = map[reflect.Type]*MultiCycleDetector{}
-	}
-
-	rType, _ = elemIfNeeded(rType)
-	return &CycleDetector{
-		allTypes:       state,
-		parent:         parent,
-		rType:          rType,
-		parentSelector: parentSelector,
-		name:           rType.String(),
-	}
-}
-
-func (c *CycleDetector) Child(rType reflect.Type, parentSelector *op.Selector) (next *CycleDetector, hasCycle bool) {
-	cycle := c.getChildrenCycleHolder(rType)
-	return cycle.Get(c, rType, parentSelector)
-}
-
-func (d *MultiCycleDetector) Get(c *CycleDetector, rType reflect.Type, parentSelector *op.Selector) (*CycleDetector, bool) {
-	detector, parent := d.getOrCreate(c, rType, parentSelector)
-
-	return detector, parent != nil
+func NewCycleDetector() *CycleDetector {
+	return &CycleDetector{visited: map[reflect.Type]bool{}}
 }
 
-func (d *MultiCycleDetector) getOrCreate(c *CycleDetector, rType reflect.Type, parentSelector *op.Selector) (current *CycleDetector, parent *CycleDetector) {
-	i, ok := d.index[rType]
-	if ok {
-		next := d.children[i]
-		if next.Has(next) {
-			return c, next
-		}
-
-		return next, nil
-	}
-
-	detector := newCycleDetector(c, c.allTypes, rType, parentSelector)
-	d.index[rType] = len(d.children)
-	d.children = append(d.children, detector)
-
-	return detector, nil
-}
-
-func (c *CycleDetector) getChildrenCycleHolder(rType reflect.Type) *MultiCycleDetector {
-	cycle, ok := c.allTypes[rType]
-	if ok {
-		return cycle
-	}
-
-	cycle = &MultiCycleDetector{
-		index: map[reflect.Type]int{},
-	}
-
-	c.allTypes[rType] = cycle
-	return cycle
-}
+func (c *CycleDetector) Child(field reflect.StructField) (next *CycleDetector, hasCycle bool) {
+	rType, _ := elemIfNeeded(field.Type)
+	var holders []reflect.Type
 
-func (c *CycleDetector) Has(parent *CycleDetector) bool {
-	curr := c
-	for curr != nil {
-		if curr.rType == parent.rType && curr.rType != nil {
-			return true
+	if field.Anonymous {
+		for _, holder := range c.holders {
+			if holder == rType {
+				return c, true
+			}
 		}
 
-		curr = curr.parent
+		holders = append(holders, c.holders...)
+	} else if c.visited[rType] {
+		return c, true
 	}
 
-	return false
+	c.visited[rType] = true
+	return &CycleDetector{visited: c.visited, holders: append(holders, rType)}, false
 }
diff --git a/est/op/selector.go b/est/op/selector.go
index 7a3b65c..24b5d5b 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -23,7 +23,6 @@ type Selector struct {
 	ParentOffset    uintptr
 	Map             *Map
 	InterfaceExec   *Interface
-	Cycle           *Selector
 	IsFieldSelector bool
 }
 
@@ -67,14 +66,6 @@ func newXField(name string, sType reflect.Type) *xunsafe.Field {
 }
 
 func SelectorWithField(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr) *Selector {
-	return newSelector(id, field, parent, indirect, offset, nil)
-}
-
-func NewCycleSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr, cycleSelector *Selector) *Selector {
-	return newSelector(id, field, parent, indirect, offset, cycleSelector)
-}
-
-func newSelector(id string, field *xunsafe.Field, parent *Selector, indirect bool, offset uintptr, cycleSelector *Selector) *Selector {
 	return &Selector{
 		Type:         field.Type,
 		ID:           id,
@@ -82,7 +73,6 @@ func newSelector(id string, field *xunsafe.Field, parent *Selector, indirect boo
 		Parent:       parent,
 		Indirect:     indirect,
 		ParentOffset: offset,
-		Cycle:        cycleSelector,
 	}
 }
 
diff --git a/planner.go b/planner.go
index 8a7a3e6..7c9a05f 100644
--- a/planner.go
+++ b/planner.go
@@ -51,12 +51,11 @@ func (p *Planner) EmbedVariable(val interface{}) error {
 }
 
 func (p *Planner) addSelectors(prefix string, field reflect.StructField, fieldName string) error {
-	detector := NewCycleDetector(field.Type)
-	return p.createSelectors(prefix, field, nil, 0, 0, false, detector, fieldName)
+	return p.createSelectors(prefix, field, nil, 0, 0, false, NewCycleDetector(), fieldName)
 }
 
 func (p *Planner) createSelectors(prefix string, field reflect.StructField, parent *op.Selector, offsetSoFar, initialOffset uintptr, indirect bool, cycleDetector *CycleDetector, fieldName string) error {
-	cycleNode, cycleSelector := p.cycle(cycleDetector, field, parent)
+	fieldDetector, hasCycle := cycleDetector.Child(field)
 
 	if field.Anonymous {
 		initialOffset += field.Offset
@@ -65,8 +64,8 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 	indirect = indirect || field.Type.Kind() == reflect.Ptr || field.Type.Kind() == reflect.Slice
 	vTag := Parse(field.Tag.Get(velty))
 
-	newParent, err := p.indexSelectorIfNeeded(prefix, field, parent, offsetSoFar, initialOffset, indirect, cycleSelector, fieldName)
-	if err != nil || cycleSelector != nil {
+	newParent, err := p.indexSelectorIfNeeded(prefix, field, parent, offsetSoFar, initialOffset, indirect, fieldName)
+	if err != nil || hasCycle {
 		return err
 	}
 
@@ -90,15 +89,29 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 		return nil
 	}
 
-	return p.addChildrenSelectors(prefix, field, offsetSoFar, initialOffset, indirect, cycleNode, newParent)
+	return p.addChildrenSelectors(prefix, field, offsetSoFar, initialOffset, indirect, fieldDetector, newParent)
 }
 
-func (p *Planner) cycle(cycleDetector *CycleDetector, field reflect.StructField, parent *op.Selector) (*CycleDetector, *op.Selector) {
-	child, cycle := cycleDetector.Child(field.Type, parent)
-	if cycle {
-		return child, child.parentSelector
+// indexFields indexes fields of the selector, if they were not indexed when variable was defined
+func (p *Planner) indexFields(holderId string) error {
+	holder, ok := p.selectors.ById(holderId)
+	if !ok || holder.Field == nil {
+		return nil
+	}
+
+	for id := range p.selectors.Index {
+		if strings.HasPrefix(id, holderId+fieldSeparator) { //already indexed
+			return nil
+		}
 	}
-	return child, nil
+
+	if holderType, _ := elemIfNeeded(holder.Type); holderType == TimeType {
+		return nil
+	}
+
+	detector, _ := NewCycleDetector().Child(reflect.StructField{Type: holder.Type})
+	field := reflect.StructField{Name: holder.Name, Type: holder.Type}
+	return p.addChildrenSelectors(holderId+fieldSeparator, field, holder.ParentOffset+holder.Offset, 0, holder.Indirect, detector, holder)
 }
 
 func (p *Planner) addChildrenSelectors(holderPrefix string, field reflect.StructField, offsetSoFar, initialOffset uintptr, indirect bool, detector *CycleDetector, parent *op.Selector) error {
@@ -132,26 +145,20 @@ func (p *Planner) addChildrenSelectors(holderPrefix string, field reflect.Struct
 	return nil
 }
 
-func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField, parent *op.Selector, offset uintptr, anonymousOffset uintptr, indirect bool, cycleSelector *op.Selector, name string) (*op.Selector, error) {
+func (p *Planner) indexSelectorIfNeeded(prefix string, field reflect.StructField, parent *op.Selector, offset uintptr, anonymousOffset uintptr, indirect bool, name string) (*op.Selector, error) {
 	if field.Anonymous && field.Type.Kind() != reflect.Ptr {
 		return parent, nil
 	}
 
 	newField := xunsafe.NewField(field)
 	newField.Offset += anonymousOffset
-	var err error
-	var fieldSelector *op.Selector
-	if cycleSelector != nil {
-		fieldSelector = op.NewCycleSelector(prefix+name, newField, parent, indirect, offset, cycleSelector)
-	} else {
-		fieldSelector = op.SelectorWithField(prefix+name, newField, parent, indirect, offset)
-	}
+	fieldSelector := op.SelectorWithField(prefix+name, newField, parent, indirect, offset)
 
 	if field.Anonymous {
 		return fieldSelector, nil
 	}
 
-	if err = p.selectors.Append(fieldSelector); err != nil {
+	if err := p.selectors.Append(fieldSelector); err != nil {
 		return nil, fmt.Errorf("%w, prefix is required, if parent field is an Anonymous, and any other parent field has the same name", err)
 	}
 
@@ -262,9 +269,17 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			return nil, nil, err
 		}
 
+		holderId := selectorId
 		selectorId = selectorId + fieldSeparator + actual.ID
 		var found bool
 		resultSelector, found = p.selectors.ById(selectorId)
+		if !found {
+			if err = p.indexFields(holderId); err != nil {
+				return nil, nil, err
+			}
+			resultSelector, found = p.selectors.ById(selectorId)
+		}
+
 		if !found {
 			return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
 		}
-- 
2.43.0


From 720151ef23a2d3ff8ba7fdc7e2e79d234281f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:10 +0000
Subject: [PATCH 36/65] fix: offsets of fields promoted from embedded structs
 and pointers

---
 planner.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/planner.go b/planner.go
index 7c9a05f..51fd577 100644
--- a/planner.go
+++ b/planner.go
@@ -57,10 +57,6 @@ func (p *Planner) addSelectors(prefix string, field reflect.StructField, fieldNa
 func (p *Planner) createSelectors(prefix string, field reflect.StructField, parent *op.Selector, offsetSoFar, initialOffset uintptr, indirect bool, cycleDetector *CycleDetector, fieldName string) error {
 	fieldDetector, hasCycle := cycleDetector.Child(field)
 
-	if field.Anonymous {
-		initialOffset += field.Offset
-	}
-
 	indirect = indirect || field.Type.Kind() == reflect.Ptr || field.Type.Kind() == reflect.Slice
 	vTag := Parse(field.Tag.Get(velty))
 
@@ -69,10 +65,14 @@ func (p *Planner) createSelectors(prefix string, field reflect.StructField, pare
 		return err
 	}
 
-	if !field.Anonymous {
-		offsetSoFar += field.Offset
+	if field.Anonymous && field.Type.Kind() != reflect.Ptr {
+		initialOffset += field.Offset //promoted fields are located in the struct that embeds them
+	} else {
+		offsetSoFar += initialOffset + field.Offset
 		initialOffset = 0
+	}
 
+	if !field.Anonymous {
 		if prefix == "" {
 			prefix = fieldName + fieldSeparator
 		} else {
@@ -212,7 +212,7 @@ func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 	parentType := resultSelector.Type
 	selectorId := selector.ID
 
-	upstreamSelector := p.copyWithParent(resultSelector, resultSelector.Parent)
+	upstreamSelector := resultSelector
 	for call != nil {
 		parentType = deref(parentType)
 		resultSelector, call, err = p.matchSelector(call, resultSelector, selectorId, parentType)
@@ -245,6 +245,10 @@ func (p *Planner) matchFirstSelector(selector *expr.Select) (*op.Selector, ast.E
 func (p *Planner) copyWithParent(dest, parent *op.Selector) *op.Selector {
 	selCopy := *dest
 	selCopy.Parent = parent
+	if holder := dest.Parent; holder != nil && holder.Field != nil && holder.Anonymous { //field is promoted from the embedded pointer
+		selCopy.Parent = p.copyWithParent(holder, parent)
+	}
+
 	return &selCopy
 }
 
-- 
2.43.0


From d209e86409d28b2a10fc3ebcafe23ddbaac60810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:30 +0000
Subject: [PATCH 37/65] fix: raw text with unbalanced brackets or quotes

---
 parser/parser.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 3d74188..588fbfe 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1,12 +1,12 @@
 package parser
 
 import (
+	"bytes"
 	"fmt"
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/ast/stmt"
-	"strings"
 )
 
 func Parse(input []byte) (*stmt.Block, error) {
@@ -84,20 +84,18 @@ outer:
 }
 
 func checkIfEscaped(cursor *parsly.Cursor) (*stmt.Append, bool) {
-	lastCursorPos := cursor.Pos
-	matched := cursor.MatchOne(SquareBrackets)
-	if matched.Code == squareBracketsToken {
-		body := matched.Text(cursor)
-		if strings.HasPrefix(body, "[[") && strings.HasSuffix(body, "]]") {
-			matched = cursor.MatchOne(Hash)
-			if matched.Code == hashToken {
-				return stmt.NewAppend(body[2 : len(body)-2]), true
-			}
-		}
+	rest := cursor.Input[cursor.Pos:]
+	if !bytes.HasPrefix(rest, []byte("[[")) {
+		return nil, false
+	}
+
+	end := bytes.Index(rest[2:], []byte("]]#")) //brackets and quotes of the raw text don't have to be balanced
+	if end < 0 {
+		return nil, false
 	}
 
-	cursor.Pos = lastCursorPos
-	return nil, false
+	cursor.Pos += end + len("[[]]#")
+	return stmt.NewAppend(string(rest[2 : 2+end])), true
 }
 
 func cursorErr(cursor *parsly.Cursor, err error) error {
-- 
2.43.0


From 061c1347f21a2e3cea260a5a99445408d9c70961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 38/65] fix: fields promoted with a prefix or an alternative
 name can be selected on a variable

---
 planner.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/planner.go b/planner.go
index 51fd577..e046791 100644
--- a/planner.go
+++ b/planner.go
@@ -268,9 +268,8 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 			return nil, nil, fmt.Errorf("not found field %v at %v", actual.ID, resultSelector.Type.String())
 		}
 
-		_, err = p.fieldByName(parentType, actual, actual.ID)
-		if err != nil {
-			return nil, nil, err
+		if parentType.Kind() != reflect.Struct {
+			return nil, nil, fmt.Errorf("not found field %v at %v", actual.ID, parentType.String())
 		}
 
 		holderId := selectorId
@@ -285,6 +284,10 @@ func (p *Planner) matchSelector(call ast.Expression, resultSelector *op.Selector
 		}
 
 		if !found {
+			if _, err = p.fieldByName(parentType, actual, actual.ID); err != nil {
+				return nil, nil, err
+			}
+
 			return nil, nil, fmt.Errorf("not found selector for the %v", strings.ReplaceAll(selectorId, fieldSeparator, "."))
 		}
 
-- 
2.43.0


From 8ef79c4c3951578ec894b63b5cd2aa5f288b6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:04 +0000
Subject: [PATCH 39/65] fix: compare what two pointers of the same type lead
 to, not the memory at the pointers

---
 binary.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/binary.go b/binary.go
index ccb698b..c4db0cc 100644
--- a/binary.go
+++ b/binary.go
@@ -8,6 +8,7 @@ import (
 	"github.com/viant/velty/est/op"
 	types "github.com/viant/xunsafe/converter"
 	"reflect"
+	"unsafe"
 )
 
 var boolType = reflect.TypeOf(true)
@@ -35,6 +36,9 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 
 	x.Unify = unify.X
 	y.Unify = unify.Y
+	if isPtr(x.Type) && x.Type == y.Type { // there is nothing to convert, the operands are what the pointers lead to
+		x.Unify, y.Unify = dereference, dereference
+	}
 
 	resultType := boolType
 	if !isPredicate(actual.Token) {
@@ -71,6 +75,10 @@ func isPredicate(token ast.Token) bool {
 	return false
 }
 
+func dereference(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+	return *(*unsafe.Pointer)(pointer), nil
+}
+
 func isPtr(rType reflect.Type) bool {
 	return rType != nil && rType.Kind() == reflect.Ptr
 }
-- 
2.43.0


From de100baee39b524e8610566f9fd9caf4c251b999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:09 +0000
Subject: [PATCH 40/65] fix: do not truncate a float operand because the other
 operand is a pointer to an integer

---
 binary.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/binary.go b/binary.go
index c4db0cc..40b7503 100644
--- a/binary.go
+++ b/binary.go
@@ -12,6 +12,7 @@ import (
 )
 
 var boolType = reflect.TypeOf(true)
+var float64Type = reflect.TypeOf(0.0)
 
 func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	actual = regroup(actual)
@@ -29,7 +30,7 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		return nil, fmt.Errorf("couldn't determine type of the %v operand", actual.Token)
 	}
 
-	unify, err := types.NormalizeAndUnify(x.Type, y.Type)
+	unify, err := unifyOperands(x.Type, y.Type)
 	if err != nil {
 		return nil, err
 	}
@@ -67,6 +68,34 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 	}, nil
 }
 
+// unifyOperands returns conversions of the operands to their common type; a float is not truncated because
+// one of the operands is a pointer
+func unifyOperands(x, y reflect.Type) (*types.Unified, error) {
+	if (isPtr(x) || isPtr(y)) && ((isFloat(x) && isInteger(y)) || (isInteger(x) && isFloat(y))) {
+		unifyX, err := types.Unify(float64Type, x)
+		if err != nil {
+			return nil, err
+		}
+
+		unifyY, err := types.Unify(float64Type, y)
+		if err != nil {
+			return nil, err
+		}
+
+		return &types.Unified{X: unifyX.Y, Y: unifyY.Y, RType: float64Type}, nil
+	}
+
+	return types.NormalizeAndUnify(x, y)
+}
+
+func isFloat(rType reflect.Type) bool {
+	return types.NormalizeType(rType).Kind() == reflect.Float64
+}
+
+func isInteger(rType reflect.Type) bool {
+	return types.NormalizeType(rType).Kind() == reflect.Int
+}
+
 func isPredicate(token ast.Token) bool {
 	switch token {
 	case ast.EQ, ast.NEQ, ast.GTR, ast.GTE, ast.LSS, ast.LEQ, ast.AND, ast.OR:
-- 
2.43.0


From 81d3f62b98747bb42f62b6cca100497aaaff34b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:42 +0000
Subject: [PATCH 41/65] fix: a comma in the list of a foreach, i.e. between
 function arguments, is not the one of an index variable

---
 parser/lex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/lex.go b/parser/lex.go
index 21fef88..53fda60 100644
--- a/parser/lex.go
+++ b/parser/lex.go
@@ -132,7 +132,7 @@ var QuoEqual = parsly.NewToken(quoEqualToken, "Quo equal", matcher.NewFragment("
 var Decrement = parsly.NewToken(decrementToken, "Decrement", matcher.NewFragment("--"))
 var Increment = parsly.NewToken(incrementToken, "Increment", matcher.NewFragment("++"))
 
-var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewTerminator(',', true))
+var ComaTerminator = parsly.NewToken(comaToken, "Coma", matcher.NewByte(','))
 var NewLine = parsly.NewToken(newLineToken, "New line", matcher3.NewNewLine())
 var Dot = parsly.NewToken(dotToken, "Dot", matcher.NewByte('.'))
 
-- 
2.43.0


From ff044a0f62ff65ba8b7161777616a1bd534a21c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:24 +0000
Subject: [PATCH 42/65] fix: a semicolon of a quoted string does not end a
 segment of a for loop

---
 parser/range.go | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/parser/range.go b/parser/range.go
index a157cf5..afd55a3 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -112,25 +112,22 @@ func matchForPost(cursor *parsly.Cursor) (ast2.Statement, error) {
 	}, nil
 }
 
+//extractForSegment returns what precedes the next semicolon, which is not a part of a quoted string
 func extractForSegment(cursor *parsly.Cursor) *parsly.Cursor {
-	candidates := []*parsly.Token{ExpressionBlock, ExpressionStart, ExpressionEnd}
-	matched := cursor.MatchAfterOptional(WhiteSpace, candidates...)
-	switch matched.Code {
-	case expressionBlockToken:
-		segment := matched.Text(cursor)
-		return parsly.NewCursor("", []byte(segment[1:len(segment)-1]), 0)
-	case expressionStartToken:
-		expressionStartMatch := cursor.MatchAfterOptional(WhiteSpace, ExpressionEnd)
-		if expressionStartMatch.Code == parsly.EOF || expressionStartMatch.Code == parsly.Invalid {
-			return parsly.NewCursor("", cursor.Input[cursor.Pos:], 0)
+	start := cursor.Pos
+	inQuote := false
+	for ; cursor.Pos < cursor.InputSize; cursor.Pos++ {
+		switch cursor.Input[cursor.Pos] {
+		case '"':
+			inQuote = !inQuote
+		case ';':
+			if !inQuote {
+				segment := cursor.Input[start:cursor.Pos]
+				cursor.Pos++
+				return parsly.NewCursor("", segment, 0)
+			}
 		}
-
-		text := expressionStartMatch.Text(cursor)
-		return parsly.NewCursor("", []byte(text[:len(text)-1]), 0)
-	case expressionEndToken:
-		segment := matched.Text(cursor)
-		return parsly.NewCursor("", []byte(segment), 0)
 	}
 
-	return parsly.NewCursor("", cursor.Input[cursor.Pos:], 0)
+	return parsly.NewCursor("", cursor.Input[start:], 0)
 }
-- 
2.43.0


From b1a52d274adf4bfd6d018f7fe521d1aa63ff7a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:08 +0000
Subject: [PATCH 43/65] fix: map returned by a function and pointer held by a
 map used as a receiver

---
 est/op/upstream.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/est/op/upstream.go b/est/op/upstream.go
index 2ef5817..28ee698 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -70,7 +70,7 @@ func upstream(selector *Selector, derefLast bool, refLast bool, assignable bool)
 					copy(args, parents[i].Args)
 					newArg := *args[0]
 					newArg.Comp = nil
-					if parents[i-1].Func != nil {
+					if isValuePointer(parents[i-1]) {
 						newArg.Value = newArg.AsValue(ptr)
 					} else {
 						newArg.Value = newArg.AsInterface(ptr)
@@ -111,6 +111,18 @@ func upstream(selector *Selector, derefLast bool, refLast bool, assignable bool)
 	}
 }
 
+// isValuePointer returns true if the selector yields a data pointer of an interface with its value, instead of the value address
+func isValuePointer(selector *Selector) bool {
+	switch selector.Type.Kind() {
+	case reflect.Map:
+		return false
+	case reflect.Ptr:
+		return selector.Func != nil || selector.Map != nil
+	default:
+		return selector.Func != nil
+	}
+}
+
 func refIfNeeded(literal unsafe.Pointer, ref bool) unsafe.Pointer {
 	if ref {
 		literal = xunsafe.RefPointer(literal)
-- 
2.43.0


From 2ed94828a2e852540b238237949e35744e15c9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:41 +0000
Subject: [PATCH 44/65] fix: UnmarshalInto without type parser is a compilation
 error

---
 functions/json.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/functions/json.go b/functions/json.go
index 1d73814..338859e 100644
--- a/functions/json.go
+++ b/functions/json.go
@@ -26,6 +26,10 @@ func (n *JSON) MethodResultType(methodName string, call *expr.Call) (reflect.Typ
 			return nil, nil
 		}
 
+		if n.parser == nil {
+			return nil, fmt.Errorf("can't unmarshall into %v due to not specified TypeParser", asLiteral.Value)
+		}
+
 		return n.parser(asLiteral.Value)
 	}
 
-- 
2.43.0


From 105e483fbb12fc6a0de8369ea68db3bc9aec98c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 45/65] fix: value of a variable defined after the state was
 created

---
 est/state.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/est/state.go b/est/state.go
index f9a544f..697cbbd 100644
--- a/est/state.go
+++ b/est/state.go
@@ -31,6 +31,10 @@ func (s *State) SetValue(k string, v interface{}) error {
 }
 
 func (s *State) setField(name string, xField *xunsafe.Field, v interface{}) error {
+	if int(xField.Index) >= reflect.TypeOf(s.Mem).Elem().NumField() { // defined after the state was created
+		return fmt.Errorf("undefined: %v", name)
+	}
+
 	dest := reflect.NewAt(xField.Type, xField.Pointer(s.MemPtr)).Elem()
 	if v == nil {
 		dest.Set(reflect.Zero(xField.Type))
-- 
2.43.0


From d713d918c1b8182ac500a9cbd033a589ddec241a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:51 +0000
Subject: [PATCH 46/65] fix: EmbedValue of a predeclared type

---
 est/state.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/est/state.go b/est/state.go
index 697cbbd..6fc523c 100644
--- a/est/state.go
+++ b/est/state.go
@@ -90,7 +90,7 @@ func (s *State) EmbedValue(v interface{}) error {
 			return fmt.Errorf("not found holder for %T", v)
 		}
 	} else {
-		holderName = strings.Split(vType.String(), ".")[1]
+		holderName = vType.String()[strings.LastIndex(vType.String(), ".")+1:]
 	}
 
 	xField, ok := s.StateType.ValueAccessor(holderName)
-- 
2.43.0


From d8b34c8fbcc95d86e0c69d638c6f0df26053866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 47/65] fix: do not ignore what follows an expression

#if($x % 2 == 0) was taken for #if($x): anything that could not be parsed
after an operand was silently dropped. The same for the arguments of
functions, indexes, #set, #foreach, #for and #evaluate.
---
 parser/expr.go    | 15 +++++++++++++++
 parser/operand.go |  8 ++++++++
 parser/parser.go  | 20 ++++++++++++++++++++
 parser/range.go   | 12 ++++++++++++
 parser/select.go  | 15 +++++++++++++++
 5 files changed, 70 insertions(+)

diff --git a/parser/expr.go b/parser/expr.go
index d6f469c..c352729 100644
--- a/parser/expr.go
+++ b/parser/expr.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"fmt"
 	"github.com/viant/parsly"
 	ast2 "github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
@@ -20,6 +21,10 @@ func matchEquationExpression(cursor *parsly.Cursor) (ast2.Expression, error) {
 			return nil, err
 		}
 
+		if err = matchEnd(expressionCursor); err != nil {
+			return nil, err
+		}
+
 		if binary, ok := expression.(*expr.Binary); ok {
 			binary.Grouped = true
 		}
@@ -50,3 +55,13 @@ func matchExpressionBlock(cursor *parsly.Cursor) (*parsly.Cursor, error) {
 	expressionCursor := parsly.NewCursor("", []byte(expressionValue[1:len(expressionValue)-1]), 0)
 	return expressionCursor, nil
 }
+
+//matchEnd returns an error if there is anything but the white space left
+func matchEnd(cursor *parsly.Cursor) error {
+	cursor.MatchOne(WhiteSpace)
+	if cursor.HasMore() {
+		return fmt.Errorf("unexpected %q", cursor.Input[cursor.Pos:])
+	}
+
+	return nil
+}
diff --git a/parser/operand.go b/parser/operand.go
index ae00b1d..32c39ee 100644
--- a/parser/operand.go
+++ b/parser/operand.go
@@ -32,6 +32,10 @@ func matchOperand(cursor *parsly.Cursor, candidates ...*parsly.Token) (*parsly.T
 			return nil, nil, err
 		}
 
+		if err = matchEnd(newCursor); err != nil {
+			return nil, nil, err
+		}
+
 		matcher = token
 		expression = &aexpr.Parentheses{P: expr}
 	case stringToken:
@@ -116,6 +120,10 @@ func addEquationIfNeeded(cursor *parsly.Cursor, expression *ast2.Expression) err
 		var rightExpression ast2.Expression
 		if err == nil {
 			rightExpression, err = matchEquationExpression(eprCursor)
+			if err == nil {
+				err = matchEnd(eprCursor)
+			}
+
 			rightExpression = &aexpr.Parentheses{P: rightExpression}
 		} else {
 			_, rightExpression, err = matchOperand(cursor, dataTypeMatchers...)
diff --git a/parser/parser.go b/parser/parser.go
index 588fbfe..cec1dfc 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -139,6 +139,10 @@ func matchStatement(cursor *parsly.Cursor) (ast.Statement, int, error) {
 		if err != nil {
 			return nil, 0, err
 		}
+
+		if err = matchEnd(expressionCursor); err != nil {
+			return nil, 0, err
+		}
 		return ifStmt, expressionCode, nil
 	case elseToken:
 		return &stmt.If{
@@ -161,6 +165,10 @@ func matchStatement(cursor *parsly.Cursor) (ast.Statement, int, error) {
 			return nil, expressionCode, err
 		}
 
+		if err = matchEnd(expressionCursor); err != nil {
+			return nil, 0, err
+		}
+
 		return assignStmt, expressionCode, nil
 	case forEachToken:
 		expressionCursor, err := matchExpressionBlock(cursor)
@@ -173,6 +181,10 @@ func matchStatement(cursor *parsly.Cursor) (ast.Statement, int, error) {
 			return nil, 0, err
 		}
 
+		if err = matchEnd(expressionCursor); err != nil {
+			return nil, 0, err
+		}
+
 		return forEachStmt, expressionCode, nil
 
 	case forToken:
@@ -186,6 +198,10 @@ func matchStatement(cursor *parsly.Cursor) (ast.Statement, int, error) {
 			return nil, 0, err
 		}
 
+		if err = matchEnd(expressionCursor); err != nil {
+			return nil, 0, err
+		}
+
 		return forStmt, expressionCode, nil
 
 	case evaluateToken:
@@ -199,6 +215,10 @@ func matchStatement(cursor *parsly.Cursor) (ast.Statement, int, error) {
 			return nil, 0, err
 		}
 
+		if err = matchEnd(evaluateCursor); err != nil {
+			return nil, 0, err
+		}
+
 		return &stmt.Evaluate{X: operand}, expressionCode, nil
 	case endToken:
 		return nil, expressionCode, nil
diff --git a/parser/range.go b/parser/range.go
index afd55a3..e44a56f 100644
--- a/parser/range.go
+++ b/parser/range.go
@@ -49,18 +49,30 @@ func matchFor(cursor *parsly.Cursor) (*stmt.ForLoop, error) {
 		return nil, err
 	}
 
+	if err = matchEnd(initCursor); err != nil {
+		return nil, err
+	}
+
 	conditionCursor := extractForSegment(cursor)
 	forCondition, err := matchEquationExpression(conditionCursor)
 	if err != nil {
 		return nil, err
 	}
 
+	if err = matchEnd(conditionCursor); err != nil {
+		return nil, err
+	}
+
 	forPostCursor := extractForSegment(cursor)
 	forPost, err := matchForPost(forPostCursor)
 	if err != nil {
 		return nil, err
 	}
 
+	if err = matchEnd(forPostCursor); err != nil {
+		return nil, err
+	}
+
 	return &stmt.ForLoop{
 		Init: forInit,
 		Cond: forCondition,
diff --git a/parser/select.go b/parser/select.go
index cabd7c5..19308b8 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -5,6 +5,7 @@ import (
 	"github.com/viant/parsly"
 	"github.com/viant/velty/ast"
 	"github.com/viant/velty/ast/expr"
+	"github.com/viant/velty/parser/matcher"
 	"strconv"
 	"strings"
 )
@@ -111,8 +112,13 @@ func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 	matched := cursor.MatchAny(candidates...)
 	switch matched.Code {
 	case dotToken:
+		fieldStart := cursor.Pos
 		selector, err := MatchSelector(cursor)
 		if err != nil { // the dot is not a part of the selector, i.e. it ends the sentence
+			if fieldStart < cursor.InputSize && matcher.IsLetter(cursor.Input[fieldStart]) {
+				return nil, err
+			}
+
 			cursor.Pos = callStart
 			return nil, nil
 		}
@@ -139,6 +145,10 @@ func matchCall(cursor *parsly.Cursor) (ast.Expression, error) {
 			return nil, err
 		}
 
+		if err = matchEnd(newCursor); err != nil {
+			return nil, err
+		}
+
 		index := &expr.SliceIndex{
 			X: expression,
 		}
@@ -187,6 +197,11 @@ func matchFunctionCall(cursor *parsly.Cursor) (*expr.Call, error) {
 			return nil, err
 		}
 
+		argumentCursor.MatchAfterOptional(WhiteSpace, ComaTerminator)
+		if err = matchEnd(argumentCursor); err != nil {
+			return nil, err
+		}
+
 		expressions = append(expressions, expression)
 	}
 
-- 
2.43.0


From 3956ddc1cfba0e10a6fac13b5f56b8b62c31aa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 48/65] fix: an argument of a function that does not compile is
 a compilation error

The error was dropped and the call was rendered as it stands, as if the
function was not defined.
---
 planner.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/planner.go b/planner.go
index e046791..a49928a 100644
--- a/planner.go
+++ b/planner.go
@@ -239,6 +239,12 @@ func (p *Planner) matchFirstSelector(selector *expr.Select) (*op.Selector, ast.E
 		return resultSelector, selector.X, nil
 	}
 
+	if err != nil { //the call of a function that is not defined is rendered as it stands, any other has to compile
+		if _, notFound := p.Functions.Method(nil, selector.ID, nil); notFound == nil {
+			return nil, nil, err
+		}
+	}
+
 	return nil, nil, nil
 }
 
-- 
2.43.0


From 9721fa2c22ae2c53858986ed2ff4559186bc0ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 49/65] fix: render the source of an undefined reference with
 its exclamation mark

---
 ast/expr/selector.go | 1 +
 parser/select.go     | 2 ++
 selector.go          | 2 +-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ast/expr/selector.go b/ast/expr/selector.go
index 904b91b..7c61c04 100644
--- a/ast/expr/selector.go
+++ b/ast/expr/selector.go
@@ -10,6 +10,7 @@ type Select struct {
 	ID       string
 	X        ast.Expression
 	FullName string
+	Source   string //reference as it was written, i.e. with the Java velocity `!`
 }
 
 func (s Select) Type() reflect.Type {
diff --git a/parser/select.go b/parser/select.go
index 19308b8..2e1fd85 100644
--- a/parser/select.go
+++ b/parser/select.go
@@ -75,6 +75,7 @@ func MatchSelector(cursor *parsly.Cursor) (*expr.Select, error) {
 		}
 
 		result.FullName = "$" + ID
+		result.Source = "$" + string(cursor.Input[selectorStart:cursor.Pos])
 		return result, err
 
 	}
@@ -100,6 +101,7 @@ func MatchSelector(cursor *parsly.Cursor) (*expr.Select, error) {
 		}
 
 		selector.FullName = "$" + string(cursor.Input[selectorStart:cursor.Pos])
+		selector.Source = selector.FullName
 		return selector, nil
 	}
 
diff --git a/selector.go b/selector.go
index d480b41..96e5041 100644
--- a/selector.go
+++ b/selector.go
@@ -23,7 +23,7 @@ func (p *Planner) selectorExpr(selector *expr.Select) (*op.Expression, error) {
 	if expression.Selector == nil {
 		id := selector.ID
 		expression.Selector = op.NewSelector(id, selector.ID, nil, nil)
-		expression.Selector.Placeholder = selector.FullName
+		expression.Selector.Placeholder = selector.Source
 	}
 
 	expression.Type = expression.Selector.Type
-- 
2.43.0


From 965984e424de0276564df850aa52ecd42df98205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 50/65] fix: take the address of function results and map
 entries an interface holds directly

---
 est/op/func.go     | 17 ++++++++++++++---
 est/op/map.go      |  9 +--------
 est/op/operand.go  |  2 --
 est/op/selector.go |  5 ++---
 est/op/upstream.go | 27 ++++++++++++++++++---------
 5 files changed, 35 insertions(+), 25 deletions(-)

diff --git a/est/op/func.go b/est/op/func.go
index dea5df9..c1d124a 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -132,11 +132,22 @@ func (f *Func) CallFunc(accumulator *Selector, operands []*Operand, state *est.S
 		return unsafe.Pointer(result.Pointer())
 	}
 
-	if resultType.Kind() == reflect.Map {
-		return xunsafe.RefPointer(xunsafe.AsPointer(anIface))
+	return valuePointer(anIface)
+}
+
+// valuePointer returns the address of the value, or the pointer itself if the value is a pointer
+func valuePointer(value interface{}) unsafe.Pointer {
+	rType := reflect.TypeOf(value)
+	switch rType.Kind() {
+	case reflect.Map, reflect.Func, reflect.Chan: //interface holds them directly
+		return xunsafe.RefPointer(xunsafe.AsPointer(value))
+	case reflect.Array: //so it does with an array of a single pointer
+		valueCopy := reflect.New(rType)
+		valueCopy.Elem().Set(reflect.ValueOf(value))
+		return unsafe.Pointer(valueCopy.Pointer())
 	}
 
-	return xunsafe.AsPointer(anIface)
+	return xunsafe.AsPointer(value)
 }
 
 func setResult(field *xunsafe.Field, holder unsafe.Pointer, value interface{}) {
diff --git a/est/op/map.go b/est/op/map.go
index 0ebeb85..6e8bc32 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -3,7 +3,6 @@ package op
 import (
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/keys"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"unsafe"
 )
@@ -12,7 +11,6 @@ type Map struct {
 	mapOperand   *Operand
 	indexOperand *Operand
 	isValueIface bool
-	elemKind     reflect.Kind
 }
 
 func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
@@ -43,10 +41,5 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		return unsafe.Pointer(&iface)
 	}
 
-	switch m.elemKind {
-	case reflect.Map:
-		return xunsafe.AsPointer(actualValue.Pointer())
-	default:
-		return xunsafe.AsPointer(iface)
-	}
+	return valuePointer(iface)
 }
diff --git a/est/op/operand.go b/est/op/operand.go
index 9c35b50..538d969 100644
--- a/est/op/operand.go
+++ b/est/op/operand.go
@@ -127,8 +127,6 @@ func (o *Operand) AsInterface(valuePtr unsafe.Pointer) interface{} {
 			})(valuePtr)
 		}
 		anInterface = xunsafe.AsInterface(valuePtr)
-	case reflect.Func:
-		anInterface = o.XType.Value(valuePtr)
 	default:
 		if o.LiteralPtr != nil {
 			return o.XType.Value(valuePtr)
diff --git a/est/op/selector.go b/est/op/selector.go
index 24b5d5b..1576df2 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -155,11 +155,10 @@ func newMap(mapOperand *Operand, indexOperand *Operand, parent *Selector) *Map {
 		rType = rType.Elem()
 	}
 
-	elemKind := rType.Kind()
+	isValueIface := rType.Kind() == reflect.Interface
 	return &Map{
 		mapOperand:   mapOperand,
 		indexOperand: indexOperand,
-		isValueIface: elemKind == reflect.Interface,
-		elemKind:     elemKind,
+		isValueIface: isValueIface,
 	}
 }
diff --git a/est/op/upstream.go b/est/op/upstream.go
index 28ee698..38dfd36 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -111,16 +111,25 @@ func upstream(selector *Selector, derefLast bool, refLast bool, assignable bool)
 	}
 }
 
-// isValuePointer returns true if the selector yields a data pointer of an interface with its value, instead of the value address
-func isValuePointer(selector *Selector) bool {
-	switch selector.Type.Kind() {
-	case reflect.Map:
-		return false
-	case reflect.Ptr:
-		return selector.Func != nil || selector.Map != nil
-	default:
-		return selector.Func != nil
+func isField(selector *Selector) bool {
+	return selector.Literal == nil && selector.Func == nil && selector.Slice == nil && selector.Map == nil && selector.InterfaceExec == nil
+}
+
+// derefHolder dereferences pointers to pointers, the first of them is already dereferenced
+func derefHolder(holder reflect.Type, ptr unsafe.Pointer) unsafe.Pointer {
+	if holder.Kind() != reflect.Ptr {
+		return ptr
 	}
+
+	for holder = holder.Elem(); holder.Kind() == reflect.Ptr && ptr != nil; holder = holder.Elem() {
+		ptr = xunsafe.DerefPointer(ptr)
+	}
+	return ptr
+}
+
+// isValuePointer returns true if the selector yields the pointer that is its value, instead of the value address
+func isValuePointer(selector *Selector) bool {
+	return selector.Type.Kind() == reflect.Ptr && (selector.Func != nil || selector.Map != nil)
 }
 
 func refIfNeeded(literal unsafe.Pointer, ref bool) unsafe.Pointer {
-- 
2.43.0


From 5229e51d25e79f18cdc1e8e339e4a9fce65abaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 51/65] fix: dereference pointers to pointers before accessing
 their fields

---
 est/op/upstream.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/est/op/upstream.go b/est/op/upstream.go
index 38dfd36..e950000 100644
--- a/est/op/upstream.go
+++ b/est/op/upstream.go
@@ -98,6 +98,10 @@ func upstream(selector *Selector, derefLast bool, refLast bool, assignable bool)
 				}
 			}
 
+			if i < parentLen-1 && isField(parents[i+1]) {
+				ptr = derefHolder(parents[i].Type, ptr)
+			}
+
 			if ptr == nil {
 				if assignable { //zero value is shared, it can't be overridden
 					return unsafe.Pointer(reflect.New(selector.Type).Pointer())
-- 
2.43.0


From 17ca3093ae1a1e414be06715f3211f34de43fefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 52/65] fix: assign functions by value

---
 est/stmt/assign/assign.go | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 6e83f4e..6e02e25 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -198,19 +198,6 @@ func (a *assign) assignValue() est.Compute {
 				return ptr
 			}
 		}
-
-	case reflect.Func:
-		return func(state *est.State) unsafe.Pointer {
-			dest := a.x.Exec(state)
-			src := a.y.Exec(state)
-
-			if dest == nil || src == nil {
-				return nil
-			}
-
-			a.x.Sel.Field.SetFuncAt(dest, a.y.AsInterface(src))
-			return dest
-		}
 	}
 
 	if wasPtr {
-- 
2.43.0


From ffafec9c23e9bb34183ba25212152de25e2e5203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 53/65] fix: leave the target as it is when a nil pointer is
 assigned to a value

---
 est/stmt/assign/assign.go | 34 +++++++++++++++++++++++++---------
 est/stmt/assign/bool.go   |  8 ++++++--
 est/stmt/assign/float.go  |  8 ++++++--
 est/stmt/assign/int.go    |  8 ++++++--
 est/stmt/assign/string.go |  8 ++++++--
 5 files changed, 49 insertions(+), 17 deletions(-)

diff --git a/est/stmt/assign/assign.go b/est/stmt/assign/assign.go
index 6e02e25..1e44b2a 100644
--- a/est/stmt/assign/assign.go
+++ b/est/stmt/assign/assign.go
@@ -29,7 +29,9 @@ func (a *assign) assignValue() est.Compute {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
 
-				*(*int)(destPtr) = *(*int)(srcPtr)
+				if srcPtr != nil {
+					*(*int)(destPtr) = *(*int)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -50,7 +52,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*int8)(destPtr) = *(*int8)(srcPtr)
+				if srcPtr != nil {
+					*(*int8)(destPtr) = *(*int8)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -69,7 +73,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*int16)(destPtr) = *(*int16)(srcPtr)
+				if srcPtr != nil {
+					*(*int16)(destPtr) = *(*int16)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -88,7 +94,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*int32)(destPtr) = *(*int32)(srcPtr)
+				if srcPtr != nil {
+					*(*int32)(destPtr) = *(*int32)(srcPtr)
+				}
 				return srcPtr
 			}
 		}
@@ -106,7 +114,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*string)(destPtr) = *(*string)(srcPtr)
+				if srcPtr != nil {
+					*(*string)(destPtr) = *(*string)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -124,7 +134,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float64)(destPtr) = *(*float64)(srcPtr)
+				if srcPtr != nil {
+					*(*float64)(destPtr) = *(*float64)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -142,7 +154,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*float32)(destPtr) = *(*float32)(srcPtr)
+				if srcPtr != nil {
+					*(*float32)(destPtr) = *(*float32)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -161,7 +175,9 @@ func (a *assign) assignValue() est.Compute {
 			return func(state *est.State) unsafe.Pointer {
 				destPtr := a.x.Exec(state)
 				srcPtr := a.y.Exec(state)
-				*(*bool)(destPtr) = *(*bool)(srcPtr)
+				if srcPtr != nil {
+					*(*bool)(destPtr) = *(*bool)(srcPtr)
+				}
 				return srcPtr
 			}
 		} else {
@@ -205,7 +221,7 @@ func (a *assign) assignValue() est.Compute {
 			dest := a.x.Exec(state)
 			src := a.y.Exec(state)
 
-			if dest != nil {
+			if dest != nil && src != nil {
 				*(*unsafe.Pointer)(dest) = *(*unsafe.Pointer)(src)
 			}
 
diff --git a/est/stmt/assign/bool.go b/est/stmt/assign/bool.go
index 2a9049b..3dcec7d 100644
--- a/est/stmt/assign/bool.go
+++ b/est/stmt/assign/bool.go
@@ -19,7 +19,9 @@ func (a *assign) assignAsBool() est.Compute {
 
 func (a *assign) assignBoolComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Exec(state))
+	if ptr := a.y.Exec(state); ptr != nil {
+		*(*bool)(ret) = *(*bool)(ptr)
+	}
 	return ret
 }
 
@@ -31,7 +33,9 @@ func (a *assign) assignBoolOffset(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignBoolSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*bool)(ret) = *(*bool)(a.y.Pointer(state))
+	if ptr := a.y.Pointer(state); ptr != nil {
+		*(*bool)(ret) = *(*bool)(ptr)
+	}
 	return ret
 }
 
diff --git a/est/stmt/assign/float.go b/est/stmt/assign/float.go
index 0d819e7..6751283 100644
--- a/est/stmt/assign/float.go
+++ b/est/stmt/assign/float.go
@@ -19,7 +19,9 @@ func (a *assign) assignAsFloat() est.Compute {
 
 func (a *assign) assignFloatComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Exec(state))
+	if ptr := a.y.Exec(state); ptr != nil {
+		*(*float64)(ret) = *(*float64)(ptr)
+	}
 	return ret
 }
 
@@ -31,7 +33,9 @@ func (a *assign) assignFloatOffset(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignFloatSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*float64)(ret) = *(*float64)(a.y.Pointer(state))
+	if ptr := a.y.Pointer(state); ptr != nil {
+		*(*float64)(ret) = *(*float64)(ptr)
+	}
 	return ret
 }
 
diff --git a/est/stmt/assign/int.go b/est/stmt/assign/int.go
index d7dc4b1..c63c1a7 100644
--- a/est/stmt/assign/int.go
+++ b/est/stmt/assign/int.go
@@ -26,7 +26,9 @@ func (a *assign) assignIntLiteral(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignIntComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Exec(state))
+	if ptr := a.y.Exec(state); ptr != nil {
+		*(*int)(ret) = *(*int)(ptr)
+	}
 	return ret
 }
 
@@ -38,6 +40,8 @@ func (a *assign) assignIntOffset(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignIntSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*int)(ret) = *(*int)(a.y.Pointer(state))
+	if ptr := a.y.Pointer(state); ptr != nil {
+		*(*int)(ret) = *(*int)(ptr)
+	}
 	return ret
 }
diff --git a/est/stmt/assign/string.go b/est/stmt/assign/string.go
index 5f053f2..185435c 100644
--- a/est/stmt/assign/string.go
+++ b/est/stmt/assign/string.go
@@ -19,7 +19,9 @@ func (a *assign) assignAsString() est.Compute {
 
 func (a *assign) assignStringComp(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Exec(state))
+	if ptr := a.y.Exec(state); ptr != nil {
+		*(*string)(ret) = *(*string)(ptr)
+	}
 	return ret
 }
 
@@ -31,7 +33,9 @@ func (a *assign) assignStringOffset(state *est.State) unsafe.Pointer {
 
 func (a *assign) assignStringSelPtr(state *est.State) unsafe.Pointer {
 	ret := a.x.Pointer(state)
-	*(*string)(ret) = *(*string)(a.y.Pointer(state))
+	if ptr := a.y.Pointer(state); ptr != nil {
+		*(*string)(ret) = *(*string)(ptr)
+	}
 	return ret
 }
 
-- 
2.43.0


From 63404f99dd8e2b8f08d9b4c7bd72e31d312daaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 54/65] fix: report an operand that is a nil pointer instead of
 dereferencing it

---
 binary.go       | 24 ++++++++++++++++++++++++
 est/expr/int.go | 16 ++++++++++++----
 2 files changed, 36 insertions(+), 4 deletions(-)

diff --git a/binary.go b/binary.go
index 40b7503..b8e79f0 100644
--- a/binary.go
+++ b/binary.go
@@ -46,6 +46,7 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		resultType = notNilType(unify.RType, types.NormalizeType(actual.Type()))
 	}
 
+	nilX, nilY := isPtr(x.Type), isPtr(y.Type)
 	if unify.RType != nil { // operands are converted to the common type before being computed
 		nullable := isPtr(x.Type) || (isPtr(y.Type) && isPredicate(actual.Token))
 		x.Type, y.Type = unify.RType, unify.RType
@@ -54,6 +55,14 @@ func (p *Planner) compileBinary(actual *expr.Binary) (*op.Expression, error) {
 		}
 	}
 
+	if nilX && !isPtr(x.Type) {
+		x.Unify = requireValue(x.Unify)
+	}
+
+	if nilY && !isPtr(y.Type) {
+		y.Unify = requireValue(y.Unify)
+	}
+
 	acc := p.accumulator(resultType)
 	resultExpr := &op.Expression{Selector: acc, Type: acc.Type}
 
@@ -108,6 +117,21 @@ func dereference(pointer unsafe.Pointer) (unsafe.Pointer, error) {
 	return *(*unsafe.Pointer)(pointer), nil
 }
 
+// requireValue reports an operand that is a nil pointer
+func requireValue(unify types.UnifyFn) types.UnifyFn {
+	if unify == nil {
+		return nil
+	}
+
+	return func(pointer unsafe.Pointer) (unsafe.Pointer, error) {
+		value, err := unify(pointer)
+		if err == nil && value == nil {
+			err = fmt.Errorf("operand is a nil pointer")
+		}
+		return value, err
+	}
+}
+
 func isPtr(rType reflect.Type) bool {
 	return rType != nil && rType.Kind() == reflect.Ptr
 }
diff --git a/est/expr/int.go b/est/expr/int.go
index 7c10dde..ee2a24b 100644
--- a/est/expr/int.go
+++ b/est/expr/int.go
@@ -72,20 +72,28 @@ func computeBinaryInt(token ast.Token, binary *binaryExpr, indirect bool) (est.C
 	return nil, errorUnsupported(token, "Integer")
 }
 
+func quoInt(x, y, z unsafe.Pointer, state *est.State) unsafe.Pointer {
+	if *(*int)(y) == 0 && !state.IsValid() { //there is no divisor, i.e. it could not be converted
+		*(*int)(z) = 0
+		return z
+	}
+
+	*(*int)(z) = *(*int)(x) / *(*int)(y)
+	return z
+}
+
 func (b *binaryExpr) indirectIntQuo(state *est.State) unsafe.Pointer {
 	x := b.x.Exec(state)
 	y := b.y.Exec(state)
 	z := b.z.Pointer(state)
-	*(*int)(z) = *(*int)(x) / *(*int)(y)
-	return z
+	return quoInt(x, y, z, state)
 }
 
 func (b *binaryExpr) directIntQuo(state *est.State) unsafe.Pointer {
 	x := b.x.Pointer(state)
 	y := b.y.Pointer(state)
 	z := b.z.Pointer(state)
-	*(*int)(z) = *(*int)(x) / *(*int)(y)
-	return z
+	return quoInt(x, y, z, state)
 }
 
 func (b *binaryExpr) indirectIntAdd(state *est.State) unsafe.Pointer {
-- 
2.43.0


From efeb333e70f455fc67a809e7cef423c83369461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:06 +0000
Subject: [PATCH 55/65] fix: IndexBy indexes slices of structs only and skips
 nil items

---
 functions/slices.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/functions/slices.go b/functions/slices.go
index b8916dc..c38eb21 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -102,14 +102,14 @@ func (in *indexSliceByFunc) Handler() interface{} {
 			return nil, fmt.Errorf("unsupported IndexBy receiver, got %T", slice)
 		}
 
-		elemType := sliceType.Elem()
-		upstream := in.upstream(elemType)
-		xField, err := in.Field(upstream, elemType, field)
+		mapType, err := in.ResultType(sliceType, nil)
 		if err != nil {
 			return nil, err
 		}
 
-		mapType, err := in.ResultType(sliceType, nil)
+		elemType := sliceType.Elem()
+		upstream := in.upstream(elemType)
+		xField, err := in.Field(upstream, elemType, field)
 		if err != nil {
 			return nil, err
 		}
@@ -130,6 +130,10 @@ func (in *indexSliceByFunc) Handler() interface{} {
 				fieldValue = upstreamType.Deref(fieldValue)
 			}
 
+			if len(upstream) > 0 && xunsafe.AsPointer(fieldValue) == nil { //nil item has no field
+				continue
+			}
+
 			fieldValue = keys.Normalize(xField.Value(xunsafe.AsPointer(fieldValue)))
 			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
 		}
@@ -142,8 +146,15 @@ func (in *indexSliceByFunc) Handler() interface{} {
 	}
 }
 
+func isStruct(rType reflect.Type) bool {
+	for rType.Kind() == reflect.Ptr {
+		rType = rType.Elem()
+	}
+	return rType.Kind() == reflect.Struct
+}
+
 func (in *indexSliceByFunc) ResultType(receiver reflect.Type, _ *expr.Call) (reflect.Type, error) {
-	if receiver.Kind() != reflect.Slice {
+	if receiver.Kind() != reflect.Slice || !isStruct(receiver.Elem()) {
 		return nil, fmt.Errorf("unsupported IndexBy receiver type %s", receiver.String())
 	}
 
-- 
2.43.0


From 7d4208fb2779be881dbc4ff0a71311534407a89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 56/65] fix: do not read interfaces with methods as empty
 interfaces

---
 est/op/iface.go    |  3 +--
 est/op/map.go      | 11 ++++++-----
 est/op/selector.go | 12 +++++-------
 est/op/types.go    |  2 ++
 est/stmt/select.go |  3 +--
 5 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/est/op/iface.go b/est/op/iface.go
index 06d5b58..0f17392 100644
--- a/est/op/iface.go
+++ b/est/op/iface.go
@@ -2,7 +2,6 @@ package op
 
 import (
 	"github.com/viant/velty/est"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"unsafe"
 )
@@ -14,7 +13,7 @@ type Interface struct {
 }
 
 func (i *Interface) Exec(xPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
-	asInterface := xunsafe.AsInterface(xPtr)
+	asInterface := i.xOperand.AsInterface(xPtr)
 
 	actualValue := reflect.ValueOf(asInterface)
 	switch actualValue.Kind() {
diff --git a/est/op/map.go b/est/op/map.go
index 6e8bc32..9d371fb 100644
--- a/est/op/map.go
+++ b/est/op/map.go
@@ -10,7 +10,7 @@ import (
 type Map struct {
 	mapOperand   *Operand
 	indexOperand *Operand
-	isValueIface bool
+	valueType    reflect.Type
 }
 
 func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
@@ -36,10 +36,11 @@ func (m *Map) Exec(mapPtr unsafe.Pointer, state *est.State) unsafe.Pointer {
 		return nil
 	}
 
-	iface := actualValue.Interface()
-	if m.isValueIface {
-		return unsafe.Pointer(&iface)
+	if m.valueType.Kind() == reflect.Interface {
+		value := reflect.New(m.valueType)
+		value.Elem().Set(actualValue)
+		return unsafe.Pointer(value.Pointer())
 	}
 
-	return valuePointer(iface)
+	return valuePointer(actualValue.Interface())
 }
diff --git a/est/op/selector.go b/est/op/selector.go
index 1576df2..14fcda3 100644
--- a/est/op/selector.go
+++ b/est/op/selector.go
@@ -135,7 +135,7 @@ func NewInterfaceSelector(id string, placeholder string, xOperand, indexOperand
 	}
 
 	return &Selector{
-		Type:        parent.Type,
+		Type:        emptyInterface,
 		ID:          id,
 		Indirect:    true,
 		Parent:      parent,
@@ -149,16 +149,14 @@ func NewInterfaceSelector(id string, placeholder string, xOperand, indexOperand
 }
 
 func newMap(mapOperand *Operand, indexOperand *Operand, parent *Selector) *Map {
-	rType := mapOperand.Type
-	switch rType.Kind() {
-	case reflect.Map:
-		rType = rType.Elem()
+	valueType := emptyInterface //map is held by the interface
+	if mapOperand.Type.Kind() == reflect.Map {
+		valueType = mapOperand.Type.Elem()
 	}
 
-	isValueIface := rType.Kind() == reflect.Interface
 	return &Map{
 		mapOperand:   mapOperand,
 		indexOperand: indexOperand,
-		isValueIface: isValueIface,
+		valueType:    valueType,
 	}
 }
diff --git a/est/op/types.go b/est/op/types.go
index f4258dd..e61a8ed 100644
--- a/est/op/types.go
+++ b/est/op/types.go
@@ -8,3 +8,5 @@ import (
 type MethodResultTyper interface {
 	MethodResultType(methodName string, call *expr.Call) (reflect.Type, error)
 }
+
+var emptyInterface = reflect.TypeOf((*interface{})(nil)).Elem()
diff --git a/est/stmt/select.go b/est/stmt/select.go
index edd1564..78787cc 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"github.com/viant/velty/est"
 	"github.com/viant/velty/est/op"
-	"github.com/viant/xunsafe"
 	"reflect"
 	"time"
 	"unsafe"
@@ -85,7 +84,7 @@ func (a *directAppender) appendSelectorName() est.Compute {
 func (a *directAppender) newInterfaceAppender() est.Compute {
 	return func(state *est.State) unsafe.Pointer {
 		exec := a.x.Exec(state)
-		iface := xunsafe.AsInterface(exec)
+		iface := a.x.AsInterface(exec)
 		switch actual := iface.(type) {
 		case string:
 			state.Buffer.AppendString(actual)
-- 
2.43.0


From ac8aa55239fd2501c896f1217664d3e4fffb08ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:34 +0000
Subject: [PATCH 57/65] fix: render a nil time pointer held by an interface

---
 est/stmt/select.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/est/stmt/select.go b/est/stmt/select.go
index 78787cc..72dbb61 100644
--- a/est/stmt/select.go
+++ b/est/stmt/select.go
@@ -95,6 +95,10 @@ func (a *directAppender) newInterfaceAppender() est.Compute {
 		case time.Time:
 			state.Buffer.AppendString(actual.Format(time.RFC3339))
 		case *time.Time:
+			if actual == nil {
+				state.Buffer.AppendString("<nil>")
+				break
+			}
 			state.Buffer.AppendString(actual.Format(time.RFC3339))
 		case bool:
 			state.Buffer.AppendBool(actual)
-- 
2.43.0


From dc39657fa65a343a0dbb6d0cb5167ee9266e483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:49 +0000
Subject: [PATCH 58/65] fix: let panics of functions with errors through Exec
 with PanicOnError

---
 est/execution.go | 4 ++--
 est/state.go     | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/est/execution.go b/est/execution.go
index 3fa5962..2e46e82 100644
--- a/est/execution.go
+++ b/est/execution.go
@@ -12,11 +12,11 @@ func (e *Execution) Exec(stat *State) (err error) {
 		defer func() {
 			panicErr := recover()
 			if panicErr != nil {
-				asTemplateErr, ok := panicErr.(TemplateError)
+				asFailure, ok := panicErr.(failure)
 				if !ok {
 					panic(panicErr)
 				}
-				err = asTemplateErr
+				err = asFailure.TemplateError
 			}
 		}()
 	}
diff --git a/est/state.go b/est/state.go
index 6fc523c..f0e4d6f 100644
--- a/est/state.go
+++ b/est/state.go
@@ -10,6 +10,12 @@ import (
 )
 
 type TemplateError error
+
+// failure represents an error AddError panics with, unlike errors that functions panic with
+type failure struct {
+	TemplateError
+}
+
 type State struct {
 	sync.Mutex
 	Mem          interface{}
@@ -119,7 +125,7 @@ func (s *State) AddError(err error) {
 
 	s.Errors = append(s.Errors, err)
 	if s.PanicOnError {
-		panic(err)
+		panic(failure{err})
 	}
 }
 
-- 
2.43.0


From aa50f48a9a08abb1449c4853003492eb71620fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:24 +0000
Subject: [PATCH 59/65] fix: IndexBy a promoted field, skip items with a nil
 key, report a key that can not be one

---
 functions/slices.go | 71 ++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/functions/slices.go b/functions/slices.go
index c38eb21..36763ec 100644
--- a/functions/slices.go
+++ b/functions/slices.go
@@ -5,8 +5,8 @@ import (
 	"github.com/viant/velty/ast/expr"
 	"github.com/viant/velty/keys"
 	"github.com/viant/xreflect"
-	"github.com/viant/xunsafe"
 	"reflect"
+	"unsafe"
 )
 
 type Slices struct {
@@ -107,35 +107,25 @@ func (in *indexSliceByFunc) Handler() interface{} {
 			return nil, err
 		}
 
-		elemType := sliceType.Elem()
-		upstream := in.upstream(elemType)
-		xField, err := in.Field(upstream, elemType, field)
+		index, err := in.Field(sliceType.Elem(), field)
 		if err != nil {
 			return nil, err
 		}
 
 		resultMap := reflect.MakeMap(mapType)
-		if slice == nil {
-			return resultMap.Interface(), nil
-		}
-
-		xSlice := xunsafe.NewSlice(sliceType)
-		slicePtr := xunsafe.AsPointer(slice)
-
-		sliceLen := xSlice.Len(slicePtr)
-		for i := 0; i < sliceLen; i++ {
-			sliceValueAt := xSlice.ValueAt(slicePtr, i)
-			fieldValue := sliceValueAt
-			for _, upstreamType := range upstream {
-				fieldValue = upstreamType.Deref(fieldValue)
+		sliceValue := reflect.ValueOf(slice)
+		for i := 0; i < sliceValue.Len(); i++ {
+			item := sliceValue.Index(i)
+			key := keys.Normalize(in.value(item, index))
+			if key == nil { //nil item has no field, nil is never a key
+				continue
 			}
 
-			if len(upstream) > 0 && xunsafe.AsPointer(fieldValue) == nil { //nil item has no field
-				continue
+			if !reflect.TypeOf(key).Comparable() {
+				return nil, fmt.Errorf("unsupported IndexBy field %v type %T", field, key)
 			}
 
-			fieldValue = keys.Normalize(xField.Value(xunsafe.AsPointer(fieldValue)))
-			resultMap.SetMapIndex(reflect.ValueOf(fieldValue), reflect.ValueOf(sliceValueAt))
+			resultMap.SetMapIndex(reflect.ValueOf(key), item)
 		}
 		resultMapIface := resultMap.Interface()
 		if err != nil {
@@ -161,37 +151,40 @@ func (in *indexSliceByFunc) ResultType(receiver reflect.Type, _ *expr.Call) (ref
 	return reflect.MapOf(xreflect.InterfaceType, receiver.Elem()), nil
 }
 
-func (in *indexSliceByFunc) upstream(sliceType reflect.Type) []*xunsafe.Type {
-	var types []*xunsafe.Type
-	for sliceType.Kind() == reflect.Ptr {
-		sliceType = sliceType.Elem()
-		types = append(types, xunsafe.NewType(sliceType))
-	}
+// value returns the item field value, or nil if there is nil on the way to the field
+func (in *indexSliceByFunc) value(item reflect.Value, index []int) interface{} {
+	for {
+		for item.Kind() == reflect.Ptr && len(index) > 0 {
+			item = item.Elem()
+		}
 
-	return types
-}
+		if !item.IsValid() {
+			return nil
+		}
 
-func (in *indexSliceByFunc) Field(upstream []*xunsafe.Type, elemType reflect.Type, field string) (*xunsafe.Field, error) {
-	var xField *xunsafe.Field
-	if len(upstream) > 0 {
-		xField = xunsafe.FieldByName(upstream[len(upstream)-1].Type(), field)
-	} else {
-		xField = xunsafe.FieldByName(elemType, field)
-	}
+		if len(index) == 0 { //unexported fields are readable as well
+			return reflect.NewAt(item.Type(), unsafe.Pointer(item.UnsafeAddr())).Elem().Interface()
+		}
 
-	if xField != nil {
-		return xField, nil
+		item = item.Field(index[0])
+		index = index[1:]
 	}
+}
 
+func (in *indexSliceByFunc) Field(elemType reflect.Type, field string) ([]int, error) {
 	for elemType.Kind() == reflect.Ptr {
 		elemType = elemType.Elem()
 	}
 
+	if structField, ok := elemType.FieldByName(field); ok {
+		return structField.Index, nil
+	}
+
 	numField := elemType.NumField()
 	for i := 0; i < numField; i++ {
 		aField := elemType.Field(i)
 		if FieldChecker(aField, field) {
-			return xunsafe.FieldByIndex(elemType, i), nil
+			return aField.Index, nil
 		}
 	}
 
-- 
2.43.0


From 030cfc96b6f214e5da1f1b2650592784d9d241d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 60/65] fix: a number out of range is a compilation error

---
 literal.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/literal.go b/literal.go
index c023802..3f2659f 100644
--- a/literal.go
+++ b/literal.go
@@ -13,14 +13,20 @@ func (p *Planner) literalExpr(literal *expr.Literal) (*op.Expression, error) {
 	expr := &op.Expression{}
 	switch literal.RType.Kind() {
 	case reflect.Int:
-		i, _ := strconv.Atoi(literal.Value)
+		i, err := strconv.Atoi(literal.Value)
+		if err != nil {
+			return nil, fmt.Errorf("invalid literal %v: %w", literal.Value, err)
+		}
 		iPtr := &i
 		p.constants.add(iPtr)
 		ptr := unsafe.Pointer(iPtr)
 		expr.Type = reflect.TypeOf(i)
 		expr.LiteralPtr = &ptr
 	case reflect.Float64:
-		f, _ := strconv.ParseFloat(literal.Value, 64)
+		f, err := strconv.ParseFloat(literal.Value, 64)
+		if err != nil {
+			return nil, fmt.Errorf("invalid literal %v: %w", literal.Value, err)
+		}
 		p.constants.add(&f)
 		expr.Type = reflect.TypeOf(f)
 		ptr := unsafe.Pointer(&f)
-- 
2.43.0


From c7883ad78356298170e91609a63124d3a65190c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 61/65] fix: embed types that are unexported, generic, have
 methods or share a name

---
 est/state.go | 10 ++++------
 est/type.go  | 34 ++++++++++++++++++++++++----------
 planner.go   |  4 ++++
 3 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/est/state.go b/est/state.go
index f0e4d6f..5f4160f 100644
--- a/est/state.go
+++ b/est/state.go
@@ -88,14 +88,12 @@ func (s *State) EmbedValue(v interface{}) error {
 	if vType.Kind() == reflect.Ptr && vType.Elem().Name() != "" {
 		vType = vType.Elem()
 	}
-	var holderName string
-	if vType.Name() == "" {
-		var ok bool
-		holderName, ok = s.StateType.AnonymousHolder(vType)
-		if !ok {
+	holderName, ok := s.StateType.AnonymousHolder(vType)
+	if !ok {
+		if vType.Name() == "" {
 			return fmt.Errorf("not found holder for %T", v)
 		}
-	} else {
+
 		holderName = vType.String()[strings.LastIndex(vType.String(), ".")+1:]
 	}
 
diff --git a/est/type.go b/est/type.go
index 58b47cb..8e5e917 100644
--- a/est/type.go
+++ b/est/type.go
@@ -20,7 +20,7 @@ type Type struct {
 	fields          []reflect.StructField
 	xFields         []*xunsafe.Field
 	transients      *int
-	anonymousFields map[string]string
+	anonymousFields map[reflect.Type]string
 }
 
 func (t *Type) AddField(id string, name string, rType reflect.Type) reflect.StructField {
@@ -36,12 +36,25 @@ func (t *Type) ValueAccessors() []*xunsafe.Field {
 }
 
 func (t *Type) EmbedType(rType reflect.Type) reflect.StructField {
-	id := t.typeName(rType)
+	field := t.addField("", "", rType, true, "")
+
+	if id := t.typeName(rType); id != "" {
+		if _, taken := t.fieldsIndex[id]; !taken {
+			t.fieldsIndex[id] = len(t.fields) - 1
+		}
+	}
 
-	field := t.addField(id, id, rType, true, "")
 	return field
 }
 
+func holderType(rType reflect.Type) reflect.Type {
+	if rType.Kind() == reflect.Ptr && rType.Elem().Name() != "" {
+		return rType.Elem()
+	}
+
+	return rType
+}
+
 func (t *Type) typeName(rType reflect.Type) string {
 	var id string
 
@@ -64,21 +77,23 @@ func (t *Type) addField(id string, name string, rType reflect.Type, anonymous bo
 			name = t.ReserveNewName()
 		} else {
 			name = t.reserveNewName(anonymousNamespace)
-			t.anonymousFields[rType.String()] = name
+			t.anonymousFields[holderType(rType)] = name
 			id = name
 		}
 	}
 
-	if name[0] > 'Z' && !anonymous {
+	if name[0] > 'Z' {
 		pkg = defaultPkg
 	}
 
-	field := reflect.StructField{Name: name, Type: rType, PkgPath: pkg, Anonymous: anonymous}
+	//reflect.StructOf does not support most of the embedded types that are unexported or have methods
+	field := reflect.StructField{Name: name, Type: rType, PkgPath: pkg}
 	t.fields = append(t.fields, field)
 	t.Type = reflect.StructOf(t.fields)
 
 	field = t.Type.Field(len(t.fields) - 1)
 	t.fields[len(t.fields)-1] = field
+	field.Anonymous = anonymous
 	t.xFields = append(t.xFields, xunsafe.NewField(field))
 	t.fieldsIndex[id] = len(t.fields) - 1
 	return field
@@ -97,7 +112,7 @@ func (t *Type) Snapshot() *Type {
 	xFields := make([]*xunsafe.Field, len(t.xFields))
 	fields := make([]reflect.StructField, len(t.fields))
 	types := map[string]int{}
-	anonymousFields := map[string]string{}
+	anonymousFields := map[reflect.Type]string{}
 	copy(xFields, t.xFields)
 	copy(fields, t.fields)
 
@@ -130,8 +145,7 @@ func (t *Type) reserveNewName(ns string) string {
 }
 
 func (t *Type) AnonymousHolder(rType reflect.Type) (string, bool) {
-	stringified := rType.String()
-	holder, ok := t.anonymousFields[stringified]
+	holder, ok := t.anonymousFields[holderType(rType)]
 	return holder, ok
 }
 
@@ -141,6 +155,6 @@ func NewType() *Type {
 		Type:            reflect.StructOf([]reflect.StructField{}),
 		fieldsIndex:     map[string]int{},
 		transients:      &transients,
-		anonymousFields: map[string]string{},
+		anonymousFields: map[reflect.Type]string{},
 	}
 }
diff --git a/planner.go b/planner.go
index a49928a..e61f86f 100644
--- a/planner.go
+++ b/planner.go
@@ -44,6 +44,10 @@ func (p *Planner) EmbedVariable(val interface{}) error {
 		rType = reflect.TypeOf(val)
 	}
 
+	if _, ok := p.Type.AnonymousHolder(rType); ok {
+		return nil
+	}
+
 	field := p.Type.EmbedType(rType)
 	vTag := Parse(field.Tag.Get(velty))
 
-- 
2.43.0


From 7928a3591b80bccae154857cfdb10621be69e086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 62/65] fix: a variable without a type is an error, not a panic

---
 planner.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/planner.go b/planner.go
index e61f86f..a3bfff4 100644
--- a/planner.go
+++ b/planner.go
@@ -44,6 +44,10 @@ func (p *Planner) EmbedVariable(val interface{}) error {
 		rType = reflect.TypeOf(val)
 	}
 
+	if rType == nil {
+		return fmt.Errorf("undefined type of the embedded variable")
+	}
+
 	if _, ok := p.Type.AnonymousHolder(rType); ok {
 		return nil
 	}
@@ -193,6 +197,10 @@ func (p *Planner) DefineVariable(name string, v interface{}, names ...string) er
 	default:
 		sType = reflect.TypeOf(v)
 	}
+	if sType == nil {
+		return fmt.Errorf("undefined type of the variable %v", name)
+	}
+
 	field := p.Type.AddField(name, name, sType)
 	if err := p.addSelectors("", field, name); err != nil {
 		return err
-- 
2.43.0


From e9312532f434a2aa9e16e59fa51aac26cc5d8695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 63/65] fix: let go of what a template evaluated once took

---
 est/type.go | 3 ++-
 planner.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/est/type.go b/est/type.go
index 8e5e917..ddb301c 100644
--- a/est/type.go
+++ b/est/type.go
@@ -124,12 +124,13 @@ func (t *Type) Snapshot() *Type {
 		anonymousFields[key] = t.anonymousFields[key]
 	}
 
+	transients := *t.transients
 	return &Type{
 		Type:            t.Type,
 		fieldsIndex:     types,
 		fields:          fields,
 		xFields:         xFields,
-		transients:      t.transients,
+		transients:      &transients,
 		anonymousFields: anonymousFields,
 	}
 }
diff --git a/planner.go b/planner.go
index a3bfff4..3f8c15f 100644
--- a/planner.go
+++ b/planner.go
@@ -505,7 +505,7 @@ func (p *Planner) New() *Planner {
 		Control:    p.Control,
 		Type:       p.Type.Snapshot(),
 		selectors:  p.selectors.Snapshot(),
-		constants:  p.constants,
+		constants:  newConstants(),
 		Functions:  p.Functions,
 		cache:      p.cache,
 		escapeHTML: p.escapeHTML,
-- 
2.43.0


From 573aea7826edc942fa72ab0ed208100d3aae9e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:02 +0000
Subject: [PATCH 64/65] fix: fields of what a call returns are those of its
 result

---
 planner.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/planner.go b/planner.go
index 3f8c15f..45e130d 100644
--- a/planner.go
+++ b/planner.go
@@ -222,7 +222,7 @@ func (p *Planner) selector(selector *expr.Select) (*op.Selector, error) {
 	}
 
 	parentType := resultSelector.Type
-	selectorId := selector.ID
+	selectorId := resultSelector.ID
 
 	upstreamSelector := resultSelector
 	for call != nil {
@@ -437,6 +437,12 @@ func (p *Planner) newFuncSelector(selectorId string, methodName string, call *ex
 		}
 	}
 
+	if newSelector.Type != nil { //fields of the result are indexed under the id of its own, other than the one of a variable
+		newSelector.ID = accumulator.ID
+		accumulator.Type = newSelector.Type
+		accumulator.Indirect = true
+	}
+
 	return newSelector, nil
 }
 
-- 
2.43.0


From c0df7726120e4e1743789056a2d26d98c9da25b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:51 +0000
Subject: [PATCH 65/65] fix: derived planners can compile templates at the same
 time

---
 est/op/func.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/est/op/func.go b/est/op/func.go
index c1d124a..ac501b8 100644
--- a/est/op/func.go
+++ b/est/op/func.go
@@ -7,6 +7,7 @@ import (
 	"github.com/viant/velty/functions"
 	"github.com/viant/xunsafe"
 	"reflect"
+	"sync"
 	"unsafe"
 )
 
@@ -31,6 +32,7 @@ type (
 		receivers map[reflect.Type]*funcReceiver
 		functions map[string]*Function
 		ns        map[string]interface{}
+		mux       sync.Mutex //derived planners share functions, methods of receivers are discovered during compilation
 	}
 
 	funcReceiver struct {
@@ -510,6 +512,9 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 		return f.funcs[index], nil
 	}
 
+	f.mux.Lock()
+	defer f.mux.Unlock()
+
 	receiver := f.ensureReceiver(rType)
 	if aFunc, ok := receiver.aFunc(id); ok {
 		return aFunc, nil
@@ -519,6 +524,9 @@ func (f *Functions) funcByName(rType reflect.Type, id string) (*Func, error) {
 }
 
 func (f *Functions) asFunc(receiverType reflect.Type, id string, method reflect.Method) (*Func, error) {
+	f.mux.Lock()
+	defer f.mux.Unlock()
+
 	f.ensureReceiver(receiverType)
 	receiver, _ := f.receivers[receiverType]
 	index, ok := receiver.index[id]
-- 
2.43.0


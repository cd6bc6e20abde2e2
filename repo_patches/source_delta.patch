From 1bb3f291a7f36a972cebeb2d38a87948f1dd3710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 01/44] fix: end a block comment at its first terminator

The greedy pattern swallowed the code between two block comments.
---
 lexer/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 330a093..0648b1d 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -284,7 +284,7 @@ func Tokenize(source string) ([]Token, error) {
 				err = fmt.Errorf("string at row %d, column %d has not been terminated", ogRow, ogColumn)
 				break
 			}
-		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
+		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*?)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			match := matches[0]
-- 
2.43.0


From 74632b4970402521a66af94450ffacb9efdf9727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 02/44] fix: do not split identifiers that start with true or
 false

Bool literals are looked up like keywords once the whole identifier is read.
---
 lexer/lexer.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 0648b1d..4b7c151 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -193,6 +193,8 @@ var keywords = map[string]TokenType{
 	"break":    BREAK,
 	"continue": CONTINUE,
 	"nil":      NIL_LITERAL,
+	"true":     BOOL_LITERAL,
+	"false":    BOOL_LITERAL,
 
 	// Builtin functions.
 	"len":    LEN,
@@ -298,10 +300,6 @@ func Tokenize(source string) ([]Token, error) {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			i += len(matches[0])
-		} else if match := regexp.MustCompile(`^(true|false)`).FindString(source[i:]); match != "" {
-			// Create bool token.
-			token = newToken(match, BOOL_LITERAL, ogRow, ogColumn)
-			i += len(match)
 		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" {
 			// Create number token.
 			token = newToken(match, NUMBER_LITERAL, ogRow, ogColumn)
-- 
2.43.0


From 011c4788baad8bf7d7909e454be96a6f48d76808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:22 +0000
Subject: [PATCH 03/44] fix: unquote string literals byte for byte

Bytes of multi-byte characters were converted one by one and only escapes of
one character were understood.
---
 lexer/lexer.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 4b7c151..2b7e351 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -6,6 +6,7 @@ import (
 	"slices"
 	"strconv"
 	"strings"
+	"unicode/utf8"
 )
 
 type TokenType int8
@@ -252,32 +253,34 @@ func Tokenize(source string) ([]Token, error) {
 
 		if raw := c0 == "`"; raw || c0 == `"` {
 			// Evaluate string.
-			str := ""
+			str := []byte{}
 			i++
 
 			for i < sourceLength {
-				c0 = char(source, i)
-				appended := false
+				b := source[i]
 
-				if match := regexp.MustCompile(`^\\.`).FindString(source[i:]); !raw && match != "" {
-					// Convert escaped character to be a control character (https://pkg.go.dev/strconv#Unquote).
-					parsed, err := strconv.Unquote(fmt.Sprintf(`"%s"`, match))
+				if !raw && b == '\\' {
+					// Convert escape sequence to the character it stands for (https://pkg.go.dev/strconv#UnquoteChar).
+					value, multibyte, tail, err := strconv.UnquoteChar(source[i:], '"')
 
 					if err != nil {
-						return nil, fmt.Errorf(`invalid escape sequence "%s"`, match)
+						return nil, fmt.Errorf("invalid escape sequence at row %d, column %d", ogRow, ogColumn)
+					}
+
+					// Octal and hex escapes stand for a single byte.
+					if multibyte {
+						str = utf8.AppendRune(str, value)
+					} else {
+						str = append(str, byte(value))
 					}
-					str += parsed
-					i += len(match)
-					appended = true
-				} else if (raw && c0 == "`") || (!raw && c0 == `"`) {
+					i = sourceLength - len(tail)
+				} else if b == c0[0] {
 					// Detected string end.
 					i++
-					token = newToken(str, STRING_LITERAL, ogRow, ogColumn)
+					token = newToken(string(str), STRING_LITERAL, ogRow, ogColumn)
 					break
-				}
-
-				if !appended {
-					str += c0
+				} else {
+					str = append(str, b)
 					i++
 				}
 			}
-- 
2.43.0


From 871b02273f8183da5d24481a815d85e7029de9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:44 +0000
Subject: [PATCH 04/44] fix: keep token positions right after multi-line
 strings and comments

---
 lexer/lexer.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 2b7e351..7213d96 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -292,13 +292,7 @@ func Tokenize(source string) ([]Token, error) {
 		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*?)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
 			// Multiline comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
-			match := matches[0]
-			lines := strings.Split(match, "\n")
-			lastLinesIndex := len(lines) - 1
-			row += lastLinesIndex
-			ogColumn = startIndex
-			i += len(match)
-			ogI = i - len(lines[lastLinesIndex])
+			i += len(matches[0])
 		} else if matches := regexp.MustCompile(`^\/\/(.*)`).FindStringSubmatch(source[i:]); matches != nil {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
@@ -346,11 +340,14 @@ func Tokenize(source string) ([]Token, error) {
 			}
 		}
 
-		if token.tokenType == NEWLINE {
-			row++
-			column = startIndex
+		text := source[ogI:i]
+
+		// Tokens like raw strings and comments might span several lines.
+		if lines := strings.Count(text, "\n"); lines > 0 {
+			row += lines
+			column = len(text) - strings.LastIndex(text, "\n")
 		} else {
-			column = ogColumn + (i - ogI)
+			column = ogColumn + len(text)
 		}
 
 		// If still no token has been found, exit with error.
-- 
2.43.0


From 355bc3e335c7ac93f6167d219422c93a7e3f87d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 05/44] fix: report unterminated block comments and tokenize
 long identifiers in linear time

---
 lexer/lexer.go | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index 7213d96..f2ea30d 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -215,6 +215,10 @@ var keywords = map[string]TokenType{
 	DATA_TYPE_ERROR:   DATA_TYPE,
 }
 
+var lineCommentRegex = regexp.MustCompile(`^\/\/(.*)`)
+var numberRegex = regexp.MustCompile(`^-?\d+(\.\d+)?`)
+var identifierRegex = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*`)
+
 func newToken(value string, tokenType TokenType, row int, column int) Token {
 	return Token{
 		value:     value,
@@ -289,30 +293,26 @@ func Tokenize(source string) ([]Token, error) {
 				err = fmt.Errorf("string at row %d, column %d has not been terminated", ogRow, ogColumn)
 				break
 			}
-		} else if matches := regexp.MustCompile(`(?s)^\/\*(.*?)\*\/`).FindStringSubmatch(source[i:]); matches != nil {
+		} else if strings.HasPrefix(source[i:], "/*") {
 			// Multiline comment.
-			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
-			i += len(matches[0])
-		} else if matches := regexp.MustCompile(`^\/\/(.*)`).FindStringSubmatch(source[i:]); matches != nil {
+			length := strings.Index(source[i+2:], "*/")
+
+			if length < 0 {
+				err = fmt.Errorf("comment at row %d, column %d has not been terminated", ogRow, ogColumn)
+				break
+			}
+			token = newToken(source[i+2:i+2+length], COMMENT, ogRow, ogColumn)
+			i += length + 4
+		} else if matches := lineCommentRegex.FindStringSubmatch(source[i:]); matches != nil {
 			// Single line comment.
 			token = newToken(matches[1], COMMENT, ogRow, ogColumn)
 			i += len(matches[0])
-		} else if match := regexp.MustCompile(`^-?\d+(\.\d+)?`).FindString(source[i:]); match != "" {
+		} else if match := numberRegex.FindString(source[i:]); match != "" {
 			// Create number token.
 			token = newToken(match, NUMBER_LITERAL, ogRow, ogColumn)
 			i += len(match)
-		} else if regexp.MustCompile(`[a-zA-Z_]`).MatchString(c0) {
-			identifier := ""
-
-			for {
-				c0 = char(source, i)
-
-				if !regexp.MustCompile(`[a-zA-Z0-9_]`).MatchString(c0) {
-					break
-				}
-				identifier += c0
-				i++
-			}
+		} else if identifier := identifierRegex.FindString(source[i:]); identifier != "" {
+			i += len(identifier)
 
 			// Check if identifier is a keyword.
 			tokenType, hasKey := keywords[identifier]
-- 
2.43.0


From 932864039cbd555d74cd12fcaf49163a128355b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:20 +0000
Subject: [PATCH 06/44] fix: treat a negative literal after an operand as
 subtraction

---
 lexer/lexer.go   |  8 ++++++++
 parser/parser.go | 13 ++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/lexer/lexer.go b/lexer/lexer.go
index f2ea30d..5bdf16f 100644
--- a/lexer/lexer.go
+++ b/lexer/lexer.go
@@ -219,6 +219,14 @@ var lineCommentRegex = regexp.MustCompile(`^\/\/(.*)`)
 var numberRegex = regexp.MustCompile(`^-?\d+(\.\d+)?`)
 var identifierRegex = regexp.MustCompile(`^[a-zA-Z_][a-zA-Z0-9_]*`)
 
+// SplitSign splits a negative number literal into its minus sign and its absolute value.
+func (t Token) SplitSign() (Token, Token, bool) {
+	if t.tokenType != NUMBER_LITERAL || !strings.HasPrefix(t.value, "-") {
+		return Token{}, Token{}, false
+	}
+	return newToken("-", BINARY_OPERATOR, t.row, t.column), newToken(t.value[1:], NUMBER_LITERAL, t.row, t.column+1), true
+}
+
 func newToken(value string, tokenType TokenType, row int, column int) Token {
 	return Token{
 		value:     value,
diff --git a/parser/parser.go b/parser/parser.go
index 819565f..2656750 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2220,12 +2220,23 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 	// To implement associativity, use for-loop and keep appending same prio-expressions.
 	for {
 		operatorToken := p.peek()
+		minusToken, numberToken, signed := operatorToken.SplitSign()
+
+		// A negative literal which directly follows an operand is a subtraction (e.g. a-1).
+		if signed {
+			operatorToken = minusToken
+		}
 		operator := operatorToken.Value()
 
 		if operatorToken.Type() != lexer.BINARY_OPERATOR || !slices.Contains(allowedOperators, operator) {
 			break
 		}
-		p.eat() // Eat operator token.
+
+		if signed {
+			p.tokens[p.index] = numberToken // The sign has been consumed, keep the number as right operand.
+		} else {
+			p.eat() // Eat operator token.
+		}
 		rightExpression, err := higherPrioOperation(ctx)
 
 		if err != nil {
-- 
2.43.0


From f6542ac55fad3bfcb7b35115d74b71f853c7f5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:22 +0000
Subject: [PATCH 07/44] fix: require a colon in front of a subscript's
 end-index

---
 parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 2656750..e1b232c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2638,6 +2638,8 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			}
 		}
 		p.eat() // Eat square bracket.
+	} else if !gotRange {
+		return nil, p.expectedError(`":" or "]"`, nextToken)
 	} else {
 		endIndex, err = p.evaluateExpression(ctx)
 
-- 
2.43.0


From 2a04b3a1aa30b8dedb6c5d5981c426fed2f925b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 08/44] fix: chain comparisons left-associatively and allow
 repeated negation

---
 parser/parser.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index e1b232c..7efd0e4 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2098,7 +2098,13 @@ func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
 		}
 	}
 	valueToken := p.peek()
-	expr, err := p.evaluateSingleExpression(ctx)
+	evaluateOperand := p.evaluateSingleExpression
+
+	// Unary operators can be chained (e.g. !!a).
+	if negate {
+		evaluateOperand = p.evaluateUnaryOperation
+	}
+	expr, err := evaluateOperand(ctx)
 
 	if err != nil {
 		return nil, err
@@ -2271,12 +2277,17 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 	if err != nil {
 		return nil, err
 	}
-	operatorToken := p.peek()
-	operator := operatorToken.Value()
 
-	if operatorToken.Type() == lexer.COMPARE_OPERATOR {
+	// To implement associativity, use for-loop and keep appending same prio-expressions.
+	for {
+		operatorToken := p.peek()
+		operator := operatorToken.Value()
+
+		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
+			break
+		}
 		p.eat() // Eat operator token.
-		rightExpression, err := p.evaluateComparison(ctx)
+		rightExpression, err := p.evaluateAddition(ctx)
 
 		if err != nil {
 			return nil, err
@@ -2292,7 +2303,7 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 		if !slices.Contains(allowedOperators, operator) {
 			return nil, p.expectedError(fmt.Sprintf(`valid %s operator but got "%s"`, leftType.String(), operator), operatorToken)
 		}
-		return NewComparison(leftExpression, operator, rightExpression), nil
+		leftExpression = NewComparison(leftExpression, operator, rightExpression)
 	}
 	return leftExpression, nil
 }
-- 
2.43.0


From e29bc1498cbed78342a247eb30f3140e5ab7e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 09/44] fix: require a boolean as right operand of logical
 operators

---
 parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 7efd0e4..87ae781 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2328,11 +2328,16 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		}
 		p.eat() // Eat operator token.
 		operatorValue := operatorToken.Value()
+		rightToken := p.peek()
 		rightExpression, errTemp := higherPrioOperation(ctx)
 
 		if errTemp != nil {
 			return nil, errTemp
 		}
+
+		if !rightExpression.ValueType().IsBool() {
+			return nil, p.expectedError("boolean value", rightToken)
+		}
 		leftExpression = LogicalOperation{
 			left:     leftExpression,
 			operator: operatorValue,
-- 
2.43.0


From 896ef8d2dac737c37bce9c5375eb95efd369a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:47 +0000
Subject: [PATCH 10/44] fix: check the types of slice elements, input prompts
 and written data

---
 parser/parser.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 87ae781..25c5cec 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2744,11 +2744,11 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 	if err != nil {
 		return nil, err
 	}
-	variableDataType := variableValueType.DataType()
-	assignedDataType := value.ValueType().DataType()
+	elementValueType := NewValueType(variableValueType.DataType(), false)
+	assignedValueType := value.ValueType()
 
-	if variableDataType != assignedDataType {
-		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", variableDataType, assignedDataType), valueToken)
+	if !assignedValueType.Equals(elementValueType) {
+		return nil, p.expectedError(fmt.Sprintf("%s value but got %s", elementValueType.String(), assignedValueType.String()), valueToken)
 	}
 	return SliceAssignment{
 		Variable: variable,
@@ -2813,6 +2813,10 @@ func (p *Parser) evaluateInput(ctx context) (Expression, error) {
 
 		if len(expressions) > 0 {
 			expr = expressions[0]
+
+			if !expr.ValueType().IsString() {
+				return nil, p.expectedError("prompt string", keywordToken)
+			}
 		}
 		return Input{
 			prompt: expr,
@@ -2940,7 +2944,7 @@ func (p *Parser) evaluateWrite(ctx context) (Expression, error) {
 		}
 		data := expressions[1]
 
-		if !path.ValueType().IsString() {
+		if !data.ValueType().IsString() {
 			return nil, p.expectedError("data string as second parameter", keywordToken)
 		}
 		var append Expression = BooleanLiteral{false}
-- 
2.43.0


From b8eddce477b15f87a45e2d82798a014e5850dcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:50 +0000
Subject: [PATCH 11/44] fix: reject calls without a return value and
 multi-value calls as single values

---
 parser/function.go |  2 ++
 parser/parser.go   | 31 +++++++++++++++++++++++++++++--
 parser/types.go    |  4 ++++
 3 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/parser/function.go b/parser/function.go
index c330183..aa92b62 100644
--- a/parser/function.go
+++ b/parser/function.go
@@ -67,6 +67,8 @@ func functionValueType(returnTypes []ValueType) ValueType {
 
 	if len(returnTypes) > 1 {
 		valueType = NewValueType(DATA_TYPE_MULTIPLE, false)
+	} else if len(returnTypes) == 0 {
+		valueType = NewValueType(DATA_TYPE_UNKNOWN, false) // The function doesn't return a value.
 	} else {
 		valueType = returnTypes[0]
 	}
diff --git a/parser/parser.go b/parser/parser.go
index 25c5cec..f60f07b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -503,6 +503,7 @@ func (p *Parser) evaluateVarNames() ([]lexer.Token, error) {
 }
 
 func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
+	firstToken := p.peek()
 	expressions := []Expression{}
 
 	for {
@@ -538,9 +539,19 @@ func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 			return evaluatedValues{}, p.expectedError(fmt.Sprintf(`only one return value from function "%s"`, funcName), exprToken)
 		}
 	}
-	return evaluatedValues{
+	evaluatedVals := evaluatedValues{
 		values: expressions,
-	}, nil
+	}
+
+	// Apart from a call which provides all values, every expression must result in exactly one value.
+	if multi, _ := evaluatedVals.isMultiReturnCall(); !multi {
+		for _, expr := range expressions {
+			if !expr.ValueType().IsSingleValue() {
+				return evaluatedValues{}, p.expectedError("single value", firstToken)
+			}
+		}
+	}
+	return evaluatedVals, nil
 }
 
 func (p *Parser) evaluateBuiltInFunction(tokenType lexer.TokenType, keyword string, minArgs int, maxArg int, ctx context, stmtCallout func(keywordToken lexer.Token, expressions []Expression) (Statement, error)) (Statement, error) {
@@ -1629,6 +1640,10 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	}
 	switchExprValueType := switchExpr.ValueType()
 
+	if !switchExprValueType.IsSingleValue() {
+		return nil, p.expectedError("single value", exprToken)
+	}
+
 	if switchExprValueType.IsSlice() {
 		return nil, p.atError("slices are not allowed in switch statements", exprToken)
 	}
@@ -2377,6 +2392,10 @@ func (p *Parser) evaluateArguments(typeName string, name string, params []Variab
 		}
 		args = append(args, expr)
 
+		if !expr.ValueType().IsSingleValue() {
+			return nil, p.expectedError("single value", argToken)
+		}
+
 		if !ignoreParams {
 			argsLength := len(args)
 
@@ -2831,6 +2850,11 @@ func (p *Parser) evaluateInput(ctx context) (Expression, error) {
 
 func (p *Parser) evaluatePrint(ctx context) (Statement, error) {
 	return p.evaluateBuiltInFunction(lexer.PRINT, "print", 0, -1, ctx, func(keywordToken lexer.Token, expressions []Expression) (Statement, error) {
+		for _, expr := range expressions {
+			if expr.ValueType().DataType() == DATA_TYPE_UNKNOWN {
+				return nil, p.expectedError("printable value", keywordToken)
+			}
+		}
 		return Print{
 			expressions: expressions,
 		}, nil
@@ -2839,6 +2863,9 @@ func (p *Parser) evaluatePrint(ctx context) (Statement, error) {
 
 func (p *Parser) evaluatePanic(ctx context) (Statement, error) {
 	return p.evaluateBuiltInFunction(lexer.PANIC, "panic", 1, 1, ctx, func(keywordToken lexer.Token, expressions []Expression) (Statement, error) {
+		if !expressions[0].ValueType().IsSingleValue() {
+			return nil, p.expectedError("single value", keywordToken)
+		}
 		return Panic{
 			expression: expressions[0],
 		}, nil
diff --git a/parser/types.go b/parser/types.go
index a38d93a..0234eb7 100644
--- a/parser/types.go
+++ b/parser/types.go
@@ -54,6 +54,10 @@ func (vt ValueType) IsString() bool {
 	return vt.isNonSliceType(DATA_TYPE_STRING)
 }
 
+func (vt ValueType) IsSingleValue() bool {
+	return vt.DataType() != DATA_TYPE_UNKNOWN && vt.DataType() != DATA_TYPE_MULTIPLE
+}
+
 func (vt ValueType) isNonSliceType(dataType DataType) bool {
 	return vt.DataType() == dataType && !vt.IsSlice()
 }
-- 
2.43.0


From f752bbd7fbcddb4ae2cd6dde2ea340ba013b4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:13 +0000
Subject: [PATCH 12/44] fix: check the values of every return statement against
 the function's return types

---
 parser/literals.go |  1 +
 parser/parser.go   | 30 +++++++++++++++++++++++++++---
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/parser/literals.go b/parser/literals.go
index 8171ee3..0d7d89d 100644
--- a/parser/literals.go
+++ b/parser/literals.go
@@ -34,6 +34,7 @@ func (l IntegerLiteral) Value() int {
 
 type StringLiteral struct {
 	value string
+	isNil bool // Literal has been created by the nil-keyword.
 }
 
 func (l StringLiteral) StatementType() StatementType {
diff --git a/parser/parser.go b/parser/parser.go
index f60f07b..30ccbe3 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -188,6 +188,7 @@ type Parser struct {
 	path      string
 	prefix    string
 	currFunc  string
+	currTypes []ValueType         // Stores the return types of the current function.
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
 }
 
@@ -1441,6 +1442,7 @@ func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
 
 	// Make sure sub-statements know in which function they are currently in.
 	p.currFunc = prefixedName
+	p.currTypes = returnTypes
 
 	statements, err := p.evaluateBlock(func(statements []Statement, last bool) error {
 		var errTemp error
@@ -1500,13 +1502,35 @@ func (p *Parser) evaluateReturn(ctx context) (Statement, error) {
 	if returnToken.Type() != lexer.RETURN {
 		return nil, p.expectedKeywordError("return", returnToken)
 	}
+	returnTypes := p.currTypes
+	valuesToken := p.peek()
 	evaluatedVals, err := p.evaluateValues(ctx)
 
 	if err != nil {
 		return nil, err
 	}
+	values := evaluatedVals.values
+
+	// Every return statement, no matter how deeply it is nested, must fit the function's return types.
+	if len(values) != len(returnTypes) {
+		return nil, p.expectedError(fmt.Sprintf("%d return values but got %d", len(returnTypes), len(values)), valuesToken)
+	}
+
+	for i, value := range values {
+		returnType := returnTypes[i]
+
+		// A nil slice is an empty slice.
+		if literal, ok := value.(StringLiteral); ok && literal.isNil && returnType.IsSlice() {
+			value = SliceInstantiation{dataType: returnType.DataType()}
+			values[i] = value
+		}
+
+		if valueType := value.ValueType(); !valueType.Equals(returnType) {
+			return nil, p.expectedError(fmt.Sprintf("%s as return value but got %s", returnType.String(), valueType.String()), valuesToken)
+		}
+	}
 	return Return{
-		values: evaluatedVals.values,
+		values: values,
 	}, nil
 }
 
@@ -2012,8 +2036,8 @@ func (p *Parser) evaluateSingleExpression(ctx context) (Expression, error) {
 			value: integer,
 		}
 	case lexer.NIL_LITERAL:
-		p.eat()                // Eat string token.
-		expr = StringLiteral{} // nil is an empty string literal.
+		p.eat()                           // Eat string token.
+		expr = StringLiteral{isNil: true} // nil is an empty string literal.
 	case lexer.STRING_LITERAL:
 		p.eat() // Eat string token.
 		expr = StringLiteral{
-- 
2.43.0


From b7dd8f74b2f90e2395e5bf38c9976ffda1bdc853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 13/44] fix: assign to the defined variable instead of a new
 one

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 30ccbe3..802cf96 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1291,7 +1291,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		if valueType != expectedValueType {
 			return nil, p.expectedError(fmt.Sprintf("%s but got %s", expectedValueType.String(), valueType.String()), valuesToken)
 		}
-		variables = append(variables, NewVariable(name, valueType, ctx.global(), isPublic(name)))
+		variables = append(variables, definedVariable)
 	}
 
 	if isMultiReturnFuncCall {
-- 
2.43.0


From b88b8ab7cac5b17def75d8329626f7866623d461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 14/44] fix: resolve globals of imported files within blocks
 and functions

---
 parser/parser.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 802cf96..5800d0d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -126,8 +126,14 @@ func (c context) findImport(alias string) (string, bool) {
 	return hash, exists
 }
 
-func (c context) findVariable(name string, prefix string, global bool) (Variable, bool) {
-	prefixedName, err := c.buildPrefixedName(name, prefix, global, true)
+func (c context) findVariable(name string, prefix string) (Variable, bool) {
+	// Local variables are stored without prefix.
+	if variable, exists := c.variables[name]; exists {
+		return variable, true
+	}
+
+	// Global variables are also visible within blocks and functions.
+	prefixedName, err := c.buildPrefixedName(name, prefix, true, true)
 
 	if err != nil {
 		return Variable{}, false
@@ -432,7 +438,7 @@ func (p *Parser) isShortVarInit() bool {
 
 func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error {
 	name := token.Value()
-	_, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	_, exists := ctx.findVariable(name, p.prefix)
 
 	if exists {
 		return p.atError(fmt.Sprintf("variable %s has already been defined", name), token)
@@ -1064,7 +1070,7 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		prefix := p.prefix
 		global := ctx.global()
 		name := nameToken.Value()
-		variable, exists := ctx.findVariable(name, prefix, global)
+		variable, exists := ctx.findVariable(name, prefix)
 		variableValueType := variable.ValueType()
 
 		// If the variable already exists, make sure it has the same type as the specified type.
@@ -1209,7 +1215,7 @@ func (p *Parser) evaluateCompoundAssignment(ctx context) (Statement, error) {
 	name := nameToken.Value()
 
 	// Make sure variable has been defined.
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1280,7 +1286,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 		name := nameToken.Value()
 
 		// Make sure variable has been defined.
-		definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+		definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 		if !exists {
 			return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -1323,7 +1329,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		p.eat()
 
 		name := nameToken.Value()
-		_, exists := ctx.findVariable(name, p.prefix, false)
+		_, exists := ctx.findVariable(name, p.prefix)
 
 		if exists {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
@@ -1993,7 +1999,7 @@ func (p *Parser) evaluateVarEvaluation(ctx context) (Expression, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
@@ -2230,7 +2236,7 @@ func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 					stmt, err = p.evaluateVarAssignment(ctx)
 				default:
 					// Handle slice assignment.
-					variable, exists := ctx.findVariable(token.Value(), p.prefix, ctx.global())
+					variable, exists := ctx.findVariable(token.Value(), p.prefix)
 
 					// If variable has been defined and is a slice, handles slice assignment.
 					if exists && variable.ValueType().IsSlice() {
@@ -2745,7 +2751,7 @@ func (p *Parser) evaluateSliceAssignment(ctx context) (Statement, error) {
 		return nil, p.expectedError("slice variable", nameToken)
 	}
 	name := nameToken.Value()
-	variable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	variable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), nameToken)
@@ -2807,7 +2813,7 @@ func (p *Parser) evaluateIncrementDecrement(ctx context) (Statement, error) {
 		return nil, p.expectedIdentifierError(identifierToken)
 	}
 	name := identifierToken.Value()
-	definedVariable, exists := ctx.findVariable(name, p.prefix, ctx.global())
+	definedVariable, exists := ctx.findVariable(name, p.prefix)
 
 	if !exists {
 		return nil, p.atError(fmt.Sprintf("variable %s has not been defined", name), identifierToken)
-- 
2.43.0


From 84a887b815a92009f159a03f60333a75261eed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 15/44] fix: reuse existing variables in short definitions and
 reject repeated names

---
 parser/parser.go | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5800d0d..908ffd7 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -509,6 +509,20 @@ func (p *Parser) evaluateVarNames() ([]lexer.Token, error) {
 	return nameTokens, nil
 }
 
+func (p *Parser) checkUniqueNameTokens(nameTokens []lexer.Token) error {
+	names := map[string]bool{}
+
+	for _, nameToken := range nameTokens {
+		name := nameToken.Value()
+
+		if names[name] {
+			return p.atError(fmt.Sprintf("name %s is used more than once", name), nameToken)
+		}
+		names[name] = true
+	}
+	return nil
+}
+
 func (p *Parser) evaluateValues(ctx context) (evaluatedValues, error) {
 	firstToken := p.peek()
 	expressions := []Expression{}
@@ -1004,6 +1018,12 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 	nameTokensLength := len(nameTokens)
 	firstNameToken := nameTokens[0]
 
+	err = p.checkUniqueNameTokens(nameTokens)
+
+	if err != nil {
+		return nil, err
+	}
+
 	// Check if all variables are already defined.
 	if nameTokensLength > 1 {
 		alreadyDefined := 0
@@ -1077,6 +1097,12 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		if exists && specifiedType.DataType() != DATA_TYPE_UNKNOWN && !specifiedType.Equals(variableValueType) {
 			return nil, p.atError(fmt.Sprintf(`variable "%s" already exists but has type %s`, name, variableValueType.String()), nextToken)
 		}
+
+		// An already existing variable is not defined anew but just assigned.
+		if exists {
+			variables = append(variables, variable)
+			continue
+		}
 		storedName := name
 
 		if global {
@@ -1314,6 +1340,7 @@ func (p *Parser) evaluateVarAssignment(ctx context) (Statement, error) {
 
 func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 	params := []Variable{}
+	nameTokens := []lexer.Token{}
 
 	for {
 		nameToken := p.peek()
@@ -1334,6 +1361,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		if exists {
 			return params, fmt.Errorf("scope already contains a variable with the name %s", name)
 		}
+		nameTokens = append(nameTokens, nameToken)
 		valueType, err := p.evaluateValueType()
 
 		if err != nil {
@@ -1349,7 +1377,7 @@ func (p *Parser) evaluateParams(ctx context) ([]Variable, error) {
 		}
 		params = append(params, NewVariable(name, valueType, false, false))
 	}
-	return params, nil
+	return params, p.checkUniqueNameTokens(nameTokens)
 }
 
 func (p *Parser) evaluateFunctionDefinition(ctx context) (Statement, error) {
@@ -1788,6 +1816,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 			return nil, err
 		}
 		indexVarName := nextToken.Value()
+		nameTokens := []lexer.Token{nextToken}
 		nextToken = p.peek()
 		valueVarName := ""
 
@@ -1800,6 +1829,11 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 			}
 			err = p.checkNewVariableNameToken(nextToken, ctx)
 
+			if err != nil {
+				return nil, err
+			}
+			err = p.checkUniqueNameTokens(append(nameTokens, nextToken))
+
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From eab3f09866eb6b41329bacd233ee1472b70d097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 16/44] fix: allow blank lines in front of the first case and
 within import groups

---
 parser/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 908ffd7..390811d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -429,6 +429,12 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+func (p *Parser) skipNewlines() {
+	for p.peek().Type() == lexer.NEWLINE {
+		p.eat()
+	}
+}
+
 func (p *Parser) isShortVarInit() bool {
 	_, err := p.findAllowed(lexer.SHORT_INIT_OPERATOR, lexer.IDENTIFIER, lexer.COMMA)
 
@@ -683,6 +689,7 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if nextToken.Type() != lexer.NEWLINE {
 				return nil, p.expectedNewlineError(nextToken)
 			}
+			p.skipNewlines()
 		}
 
 		for {
@@ -753,6 +760,9 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				}
 			}
 
+			if multiple {
+				p.skipNewlines()
+			}
 			nextToken = p.peek()
 			nextTokenType := nextToken.Type()
 
@@ -1722,6 +1732,7 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 		},
 	}
 	useMock := true
+	p.skipNewlines()
 	nextToken = p.peek()
 	defaultSet := false
 
-- 
2.43.0


From 4e8f16d218ee5a6475e63d899ebe15e586288cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:21 +0000
Subject: [PATCH 17/44] fix: reject break outside of loops as it cannot leave a
 switch

---
 parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 390811d..b8d3e1a 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1580,7 +1580,7 @@ func (p *Parser) evaluateReturn(ctx context) (Statement, error) {
 
 func (p *Parser) evaluateBreak(ctx context) (Statement, error) {
 	breakToken := p.eat()
-	breakScopes := []scope{SCOPE_FOR, SCOPE_SWITCH}
+	breakScopes := []scope{SCOPE_FOR} // TODO: Add SCOPE_SWITCH as soon as the converters support break within switch.
 	scopeOk := false
 
 	for _, breakScope := range breakScopes {
-- 
2.43.0


From 9d6b0319ad14b0b433100121bfdb6bfa9f66620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:24 +0000
Subject: [PATCH 18/44] fix: allow slice literals in the header of a three-part
 for-loop

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index b8d3e1a..1699150 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1940,8 +1940,8 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		// Therefore create a fake condition.
 		if nextTokenType == lexer.OPENING_CURLY_BRACKET {
 			condition = trueCondition
-		} else if _, err := p.findBefore(lexer.SEMICOLON, lexer.OPENING_CURLY_BRACKET); err == nil {
-			// If a semicolon was found before the curly bracket, consider for as a three-part for-loop.
+		} else if _, err := p.findBefore(lexer.SEMICOLON, lexer.NEWLINE); err == nil {
+			// If a semicolon was found before the end of the line, consider for as a three-part for-loop.
 			nextToken := p.peek()
 
 			// If the next token is not a semicolon, consider it a statement.
-- 
2.43.0


From e4c66c3998144f065fa0df9e595255674d85cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:13 +0000
Subject: [PATCH 19/44] fix: allow multi-value calls in the header of a
 three-part for-loop

---
 parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1699150..6506511 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1966,7 +1966,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					if err != nil {
 						return nil, err
 					}
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT:
 				default:
 					return nil, p.expectedError("variable assignment or variable definition", nextToken)
 				}
@@ -2005,7 +2005,7 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 					return nil, err
 				}
 				switch increment.StatementType() {
-				case STATEMENT_TYPE_VAR_ASSIGNMENT:
+				case STATEMENT_TYPE_VAR_ASSIGNMENT, STATEMENT_TYPE_VAR_ASSIGNMENT_CALL_ASSIGNMENT:
 				default:
 					return nil, p.expectedError("variable assignment", nextToken)
 				}
-- 
2.43.0


From 875894fc9ebdafacc6e78128a93375c1756d2063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:16 +0000
Subject: [PATCH 20/44] fix: keep user-defined names apart from those of the
 converters and the shell

---
 parser/parser.go         |  2 +-
 transpiler/names.go      | 40 ++++++++++++++++++++++++++++++++++++++++
 transpiler/transpiler.go | 20 ++++++++++----------
 3 files changed, 51 insertions(+), 11 deletions(-)
 create mode 100644 transpiler/names.go

diff --git a/parser/parser.go b/parser/parser.go
index 6506511..1bdb95f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -339,7 +339,7 @@ func isPublic(name string) bool {
 
 func buildPrefixedName(prefix string, funcName string) string {
 	if len(prefix) > 0 {
-		prefix = fmt.Sprintf("%s_", prefix)
+		prefix = fmt.Sprintf("%s.", prefix) // Use a separator which cannot be part of an identifier.
 
 		// Only prefix if it doesn't already have the prefix.
 		if !strings.HasPrefix(funcName, prefix) {
diff --git a/transpiler/names.go b/transpiler/names.go
new file mode 100644
index 0000000..d933b40
--- /dev/null
+++ b/transpiler/names.go
@@ -0,0 +1,40 @@
+package transpiler
+
+import (
+	"strings"
+	"unicode"
+)
+
+const (
+	variablePrefix = "v_"  // Separates variables from everything a converter or the target shell defines.
+	functionPrefix = "fn_" // Separates functions from everything a converter or the target shell defines.
+)
+
+func variableName(name string) string {
+	return variablePrefix + encodeName(name)
+}
+
+func functionName(name string) string {
+	return functionPrefix + encodeName(name)
+}
+
+// encodeName turns a name into one that is valid for all targets. As not all targets distinguish between
+// upper- and lower-case letters, different names lead to encoded names which differ in more than their case.
+func encodeName(name string) string {
+	builder := strings.Builder{}
+
+	for _, char := range name {
+		switch {
+		case char == '_':
+			builder.WriteString("__")
+		case char == '.':
+			builder.WriteString("_0")
+		case unicode.IsUpper(char):
+			builder.WriteRune('_')
+			builder.WriteRune(unicode.ToLower(char))
+		default:
+			builder.WriteRune(char)
+		}
+	}
+	return builder.String()
+}
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 6787bb6..47a3d26 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -372,7 +372,7 @@ func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition)
 		if err != nil {
 			return err
 		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), result.firstValue(), variable.Global())
 
 		if err != nil {
 			return err
@@ -397,7 +397,7 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -413,7 +413,7 @@ func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment)
 		if err != nil {
 			return err
 		}
-		err = t.converter.VarDefinition(variable.Name(), result.firstValue(), variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), result.firstValue(), variable.Global())
 
 		if err != nil {
 			return err
@@ -438,7 +438,7 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 	}
 
 	for i, variable := range variables {
-		err = t.converter.VarDefinition(variable.Name(), values[i], variable.Global())
+		err = t.converter.VarDefinition(variableName(variable.Name()), values[i], variable.Global())
 
 		if err != nil {
 			return err
@@ -465,11 +465,11 @@ func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment)
 	if err != nil {
 		return err
 	}
-	return t.converter.SliceAssignment(assignment.Name(), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
+	return t.converter.SliceAssignment(variableName(assignment.Name()), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
 }
 
 func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation, valueUsed bool) (expressionResult, error) {
-	s, err := t.converter.VarEvaluation(evaluation.Name(), valueUsed, evaluation.Global())
+	s, err := t.converter.VarEvaluation(variableName(evaluation.Name()), valueUsed, evaluation.Global())
 
 	if err != nil {
 		return expressionResult{}, err
@@ -569,10 +569,10 @@ func (t *transpiler) evaluateFunctionDefinition(functionDefinition parser.Functi
 	params := []string{}
 
 	for _, param := range functionDefinition.Params() {
-		params = append(params, param.Name())
+		params = append(params, variableName(param.Name()))
 	}
 	conv := t.converter
-	err := conv.FuncStart(name, params, functionDefinition.ReturnTypes())
+	err := conv.FuncStart(functionName(name), params, functionDefinition.ReturnTypes())
 
 	if err != nil {
 		return err
@@ -598,7 +598,7 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 		args = append(args, result.firstValue())
 	}
 	returnTypes := functionCall.ReturnTypes()
-	values, err := t.converter.FuncCall(name, args, returnTypes, valueUsed)
+	values, err := t.converter.FuncCall(functionName(name), args, returnTypes, valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -688,7 +688,7 @@ func (t *transpiler) evaluateCopy(copy parser.Copy, valueUsed bool) (expressionR
 		return expressionResult{}, err
 	}
 	destination := copy.Destination()
-	amount, err := t.converter.Copy(destination.Name(), expr.firstValue(), valueUsed, destination.Global())
+	amount, err := t.converter.Copy(variableName(destination.Name()), expr.firstValue(), valueUsed, destination.Global())
 
 	if err != nil {
 		return expressionResult{}, err
-- 
2.43.0


From 1bef24091fe501a6adb4a2883663d777dc4db9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 21/44] fix: run range-loops on internal variables

---
 parser/parser.go | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 1bdb95f..9e4e7e0 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -195,6 +195,7 @@ type Parser struct {
 	prefix    string
 	currFunc  string
 	currTypes []ValueType         // Stores the return types of the current function.
+	ranges    int                 // Number of range-loops (required for naming the internal loop variables).
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
 }
 
@@ -1869,24 +1870,36 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 		}
 		iterableValueType := iterableExpression.ValueType()
 		indexVar := NewVariable(indexVarName, NewValueType(DATA_TYPE_INTEGER, false), false, false)
+
+		// The loop runs on internal variables (the names are no valid identifiers) to evaluate the iterable
+		// only once and to be independent of modifications of the user's variables within the loop.
+		iterableVar := NewVariable(fmt.Sprintf("range%d.iterable", p.ranges), iterableValueType, false, false)
+		counterVar := NewVariable(fmt.Sprintf("range%d.counter", p.ranges), indexVar.ValueType(), false, false)
+		p.ranges++
+
 		var iterableEvaluation Expression
 
 		if iterableValueType.IsSlice() {
 			iterableEvaluation = SliceEvaluation{
-				value:    iterableExpression,
-				index:    VariableEvaluation{indexVar},
+				value:    VariableEvaluation{iterableVar},
+				index:    VariableEvaluation{counterVar},
 				dataType: iterableValueType.DataType(),
 			}
 		} else if iterableValueType.IsString() {
 			iterableEvaluation = StringSubscript{
-				value:      iterableExpression,
-				startIndex: VariableEvaluation{indexVar},
+				value:      VariableEvaluation{iterableVar},
+				startIndex: VariableEvaluation{counterVar},
 			}
 		} else {
 			return nil, p.expectedError("slice or string", nextToken)
 		}
 		iterableValueType.isSlice = false // Make sure the value var is not a slice.
-		forRangeStatements := []Statement{}
+		forRangeStatements := []Statement{
+			VariableAssignment{
+				variables: []Variable{indexVar},
+				values:    []Expression{VariableEvaluation{counterVar}},
+			},
+		}
 
 		// Add count variable.
 		ctx.addVariables(p.prefix, false, indexVar)
@@ -1898,24 +1911,22 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 			// Add value variable.
 			ctx.addVariables(p.prefix, false, valueVar)
 
-			forRangeStatements = []Statement{
-				VariableAssignment{
-					variables: []Variable{valueVar},
-					values:    []Expression{iterableEvaluation},
-				},
-			}
+			forRangeStatements = append(forRangeStatements, VariableAssignment{
+				variables: []Variable{valueVar},
+				values:    []Expression{iterableEvaluation},
+			})
 		}
 
 		init := VariableAssignment{
-			variables: []Variable{indexVar},
-			values:    []Expression{IntegerLiteral{0}},
+			variables: []Variable{iterableVar, counterVar},
+			values:    []Expression{iterableExpression, IntegerLiteral{0}},
 		}
 		condition := Comparison{
-			left:     VariableEvaluation{indexVar},
+			left:     VariableEvaluation{counterVar},
 			operator: COMPARE_OPERATOR_LESS,
-			right:    Len{iterableExpression},
+			right:    Len{VariableEvaluation{iterableVar}},
 		}
-		increment := incrementDecrementStatement(indexVar, true)
+		increment := incrementDecrementStatement(counterVar, true)
 		statements, err := p.evaluateBlock(nil, ctx, SCOPE_FOR)
 
 		if err != nil {
-- 
2.43.0


From e824da1cfca2972fd55f498b449b16f844eb670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 22/44] fix: evaluate a single string index only once

---
 parser/parser.go         | 11 +++++++----
 parser/string.go         |  4 ++++
 transpiler/transpiler.go | 11 ++++++++---
 3 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 9e4e7e0..10d79bd 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2747,7 +2747,7 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 	}
 	nextToken = p.peek()
 	endToken := nextToken
-	endIndex := startIndex
+	var endIndex Expression // Stays empty if only a single index is provided.
 
 	if nextToken.Type() == lexer.CLOSING_SQUARE_BRACKET {
 		// If range but no end-index is provided, create one by using Len-expression.
@@ -2780,10 +2780,13 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			right:    IntegerLiteral{1},
 		}
 	}
-	endIndexValueType := endIndex.ValueType()
 
-	if !endIndexValueType.IsInt() {
-		return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+	if endIndex != nil {
+		endIndexValueType := endIndex.ValueType()
+
+		if !endIndexValueType.IsInt() {
+			return nil, p.expectedError(fmt.Sprintf("%s as stop-index but got %s", DATA_TYPE_INTEGER, endIndexValueType.String()), endToken)
+		}
 	}
 
 	if !isSlice {
diff --git a/parser/string.go b/parser/string.go
index 0a80b43..ef01a37 100644
--- a/parser/string.go
+++ b/parser/string.go
@@ -22,6 +22,10 @@ func (s StringSubscript) StartIndex() Expression {
 	return s.startIndex
 }
 
+func (s StringSubscript) SingleIndex() bool {
+	return s.endIndex == nil
+}
+
 func (s StringSubscript) EndIndex() Expression {
 	endIndex := s.endIndex
 
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 47a3d26..1996147 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -504,10 +504,15 @@ func (t *transpiler) evaluateStringSubscript(subscript parser.StringSubscript, v
 	if err != nil {
 		return expressionResult{}, err
 	}
-	endIndexResult, err := t.evaluateIndex(subscript.EndIndex(), true)
+	endIndexResult := startIndexResult
 
-	if err != nil {
-		return expressionResult{}, err
+	// Make sure that a single index is only evaluated once.
+	if !subscript.SingleIndex() {
+		endIndexResult, err = t.evaluateIndex(subscript.EndIndex(), true)
+
+		if err != nil {
+			return expressionResult{}, err
+		}
 	}
 	value := subscript.Value()
 	str, err := t.evaluateExpression(value, true)
-- 
2.43.0


From 1a225e6a6788a3b4dea14f95117f087b3cf54df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 23/44] fix: parse every imported file exactly once and reject
 import cycles

---
 parser/parser.go | 145 +++++++++++++++++++++++++++--------------------
 1 file changed, 84 insertions(+), 61 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 10d79bd..11c6227 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -188,6 +188,13 @@ func (ev evaluatedValues) isMultiReturnCall() (bool, Call) {
 
 type blockCallback func(statements []Statement, last bool) error
 
+// module represents a source file of the program.
+type module struct {
+	prefix    string
+	loaded    bool
+	functions []FunctionDefinition // Stores the module's public functions.
+}
+
 type Parser struct {
 	tokens    []lexer.Token
 	index     int
@@ -197,15 +204,45 @@ type Parser struct {
 	currTypes []ValueType         // Stores the return types of the current function.
 	ranges    int                 // Number of range-loops (required for naming the internal loop variables).
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
+	modules   map[string]*module  // Stores all source files of the program (shared between the parsers of all files).
 }
 
 func New() Parser {
 	return Parser{
 		usedFuncs: map[string][]string{},
+		modules:   map[string]*module{},
+	}
+}
+
+// moduleKey provides a name for the file which is independent of how the file has been reached.
+func moduleKey(path string) string {
+	if resolvedPath, err := filepath.EvalSymlinks(path); err == nil {
+		path = resolvedPath
+	}
+	return filepath.Clean(path)
+}
+
+// uniquePrefix makes sure that different files never share the same prefix.
+func (p *Parser) uniquePrefix(prefix string) string {
+	uniquePrefix := prefix
+
+	for i := 1; true; i++ {
+		taken := false
+
+		for _, mod := range p.modules {
+			taken = taken || mod.prefix == uniquePrefix
+		}
+
+		if !taken {
+			break
+		}
+		uniquePrefix = fmt.Sprintf("%sx%d", prefix, i)
 	}
+	return uniquePrefix
 }
 
 func (p *Parser) Parse(path string) (Program, error) {
+	*p = New() // Make sure that previously parsed programs have no influence.
 	return p.parse(path, false)
 }
 
@@ -224,6 +261,18 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 	if _, err := os.Stat(path); err != nil {
 		return Program{}, err
 	}
+	key := moduleKey(path)
+
+	// Each file must only be parsed once.
+	if mod, exists := p.modules[key]; exists {
+		if !mod.loaded {
+			return Program{}, fmt.Errorf(`import cycle via "%s"`, path)
+		}
+		p.prefix = mod.prefix
+		return Program{}, nil
+	}
+	mod := &module{}
+	p.modules[key] = mod
 	source, err := os.ReadFile(path)
 
 	if err != nil {
@@ -244,13 +293,16 @@ func (p *Parser) parse(path string, imported bool) (Program, error) {
 		h := sha256.New()
 		h.Write(source)
 
-		p.prefix = fmt.Sprintf("%x", h.Sum(nil))[0:7] // Only use the 7 first characters (inspired by Git).
+		p.prefix = p.uniquePrefix(fmt.Sprintf("%x", h.Sum(nil))[0:7]) // Only use the 7 first characters (inspired by Git).
 	}
+	mod.prefix = p.prefix
 	program, err := p.evaluateProgram()
 
 	if err != nil {
 		return Program{}, err
 	}
+	mod.loaded = true
+	mod.functions = p.publicFunctions(program)
 
 	// If this is the original program, removed unused stuff.
 	if !imported {
@@ -453,25 +505,32 @@ func (p *Parser) checkNewVariableNameToken(token lexer.Token, ctx context) error
 	return nil
 }
 
-func (p *Parser) getUsedFuncs(startFunc string) []string {
-	usedFuncs := []string{}
-	startFunc = strings.TrimSpace(startFunc)
+func (p *Parser) publicFunctions(program Program) []FunctionDefinition {
+	functions := []FunctionDefinition{}
 
-	if usedFuncsTemp, exists := p.usedFuncs[startFunc]; exists {
-		if len(startFunc) > 0 && !slices.Contains(usedFuncs, startFunc) {
-			usedFuncs = append(usedFuncs, startFunc)
+	for _, statement := range program.Body() {
+		if function, ok := statement.(FunctionDefinition); ok && function.Public() {
+			functions = append(functions, function)
 		}
+	}
+	return functions
+}
 
-		for _, usedFuncTemp := range usedFuncsTemp {
-			if !slices.Contains(usedFuncs, usedFuncTemp) {
-				usedFuncs = append(usedFuncs, usedFuncTemp)
-			}
-			usedSubFuncs := p.getUsedFuncs(usedFuncTemp)
+func (p *Parser) getUsedFuncs(startFunc string) []string {
+	usedFuncs := []string{}
+	visited := map[string]bool{}
+	pending := []string{strings.TrimSpace(startFunc)}
 
-			for _, usedSubFunc := range usedSubFuncs {
-				if !slices.Contains(usedFuncs, usedSubFunc) {
-					usedFuncs = append(usedFuncs, usedSubFunc)
-				}
+	for len(pending) > 0 {
+		lastIndex := len(pending) - 1
+		currFunc := pending[lastIndex]
+		pending = pending[:lastIndex]
+
+		for _, usedFunc := range p.usedFuncs[currFunc] {
+			if !visited[usedFunc] {
+				visited[usedFunc] = true
+				usedFuncs = append(usedFuncs, usedFunc)
+				pending = append(pending, usedFunc)
 			}
 		}
 	}
@@ -667,7 +726,7 @@ func (p *Parser) evaluateProgram() (Program, error) {
 
 func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 	var nextToken lexer.Token
-	statementsTemp := []Statement{}
+	statements := []Statement{}
 
 	// Skip empty characters.
 	for {
@@ -731,7 +790,10 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 				// If it's not a standard library path, an alias must be provided.
 				return nil, fmt.Errorf(`an alias must be provided for the local import "%s" in "%s"`, path, p.path)
 			}
-			importParser := New()
+			importParser := Parser{
+				usedFuncs: p.usedFuncs,
+				modules:   p.modules,
+			}
 			importedProg, err := importParser.parse(absPath, true)
 
 			if err != nil {
@@ -746,19 +808,11 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			if err != nil {
 				return nil, err
 			}
-			statementsTemp = append(statementsTemp, importedProg.Body()...)
+			statements = append(statements, importedProg.Body()...) // Is empty if the file has already been imported.
 
-			// Import-parser funcs with current parser funcs.
-			for funcName, usedFuncs := range importParser.usedFuncs {
-				if foundUsedFuncs, exists := p.usedFuncs[funcName]; !exists {
-					p.usedFuncs[funcName] = usedFuncs
-				} else {
-					for _, usedFunc := range foundUsedFuncs {
-						if !slices.Contains(foundUsedFuncs, usedFunc) {
-							p.usedFuncs[funcName] = append(p.usedFuncs[funcName], usedFunc)
-						}
-					}
-				}
+			// Make the file's public functions available.
+			for _, function := range p.modules[moduleKey(absPath)].functions {
+				ctx.functions[function.Name()] = function
 			}
 
 			if multiple {
@@ -779,37 +833,6 @@ func (p *Parser) evaluateImports(ctx context) ([]Statement, error) {
 			}
 		}
 	}
-	statements := []Statement{}
-
-	// Add functions add variables.
-	for _, statement := range statementsTemp {
-		exists := false
-
-		switch statement.StatementType() {
-		case STATEMENT_TYPE_VAR_DEFINITION:
-			definedVariable := statement.(VariableDefinition)
-
-			for _, variable := range definedVariable.Variables() {
-				name := variable.Name()
-
-				if _, exists = ctx.variables[name]; !exists && variable.Public() {
-					ctx.variables[name] = variable
-				}
-			}
-		case STATEMENT_TYPE_FUNCTION_DEFINITION:
-			definedFunction := statement.(FunctionDefinition)
-			name := definedFunction.Name()
-
-			if _, exists = ctx.functions[name]; !exists && definedFunction.Public() {
-				ctx.functions[name] = definedFunction
-			}
-		}
-
-		// Prevent code duplication.
-		if !exists {
-			statements = append(statements, statement)
-		}
-	}
 	return statements, nil
 }
 
-- 
2.43.0


From 98c20bee0eb45863becf9aff0fc21d64e9115d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 24/44] fix: limit nesting and operator chains instead of
 recursing without bound

---
 parser/binaryoperation.go |  6 ++-
 parser/parser.go          | 99 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 99 insertions(+), 6 deletions(-)

diff --git a/parser/binaryoperation.go b/parser/binaryoperation.go
index dbe5eb3..5808177 100644
--- a/parser/binaryoperation.go
+++ b/parser/binaryoperation.go
@@ -4,6 +4,7 @@ type BinaryOperation struct {
 	left      Expression
 	operator  BinaryOperator
 	right     Expression
+	valueType ValueType // Buffers the value type to avoid walking through long operator chains over and over again.
 }
 
 func (b BinaryOperation) StatementType() StatementType {
@@ -11,7 +12,10 @@ func (b BinaryOperation) StatementType() StatementType {
 }
 
 func (b BinaryOperation) ValueType() ValueType {
-	return b.left.ValueType()
+	if b.valueType == (ValueType{}) {
+		return b.left.ValueType()
+	}
+	return b.valueType
 }
 
 func (b BinaryOperation) Left() Expression {
diff --git a/parser/parser.go b/parser/parser.go
index 11c6227..fc58563 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -22,6 +22,12 @@ var typeMapping = map[lexer.VarType]DataType{
 	lexer.DATA_TYPE_ERROR:   DATA_TYPE_STRING, // error is internally just a string to make heandling easier.
 }
 
+// Too deep constructs can neither be processed recursively nor by the target interpreters.
+const (
+	maxDepth  = 1000  // Limits the nesting of constructs (Bash itself allows about 2000 nested constructs).
+	maxHeight = 10000 // Limits the height of an expression, including its operator chains.
+)
+
 type scope string
 
 const (
@@ -202,6 +208,8 @@ type Parser struct {
 	prefix    string
 	currFunc  string
 	currTypes []ValueType         // Stores the return types of the current function.
+	depth     int                 // Current nesting depth.
+	height    int                 // Height of the current expression.
 	ranges    int                 // Number of range-loops (required for naming the internal loop variables).
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
 	modules   map[string]*module  // Stores all source files of the program (shared between the parsers of all files).
@@ -482,6 +490,27 @@ func (p *Parser) eat() lexer.Token {
 	return token
 }
 
+// enter needs to be called when a nested construct is entered. The returned function leaves it again.
+func (p *Parser) enter() (func(), error) {
+	var err error
+	p.depth++
+
+	if p.depth > maxDepth {
+		err = p.atError("construct is nested too deeply", p.peek())
+	}
+	return func() { p.depth-- }, err
+}
+
+// increaseHeight needs to be called for each operator which is added to an expression.
+func (p *Parser) increaseHeight() error {
+	p.height++
+
+	if p.height > maxHeight {
+		return p.atError("expression is too complex", p.peek())
+	}
+	return nil
+}
+
 func (p *Parser) skipNewlines() {
 	for p.peek().Type() == lexer.NEWLINE {
 		p.eat()
@@ -1643,6 +1672,16 @@ func (p *Parser) evaluateIf(ctx context) (Statement, error) {
 
 	for i := 0; true; i++ {
 		ifRequired := i == 0
+
+		// The statement itself has already been considered, therefore consider only the additional branches.
+		if !ifRequired {
+			leave, err := p.enter()
+			defer leave()
+
+			if err != nil {
+				return nil, err
+			}
+		}
 		nextToken := p.peek()
 		nextTokenType := nextToken.Type()
 		evaluateCondition := true
@@ -1762,6 +1801,12 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 
 	// While switch has not been terminated, evaluate cases.
 	for nextToken.Type() != lexer.CLOSING_CURLY_BRACKET {
+		leave, err := p.enter()
+		defer leave()
+
+		if err != nil {
+			return nil, err
+		}
 		var compareExpr Expression
 		var compareExprToken lexer.Token
 
@@ -2226,6 +2271,12 @@ func (p *Parser) evaluateUnaryOperation(ctx context) (Expression, error) {
 
 	// Unary operators can be chained (e.g. !!a).
 	if negate {
+		leave, err := p.enter()
+		defer leave()
+
+		if err != nil {
+			return nil, err
+		}
 		evaluateOperand = p.evaluateUnaryOperation
 	}
 	expr, err := evaluateOperand(ctx)
@@ -2266,13 +2317,28 @@ func (p *Parser) evaluateLogicalOr(ctx context) (Expression, error) {
 }
 
 func (p *Parser) evaluateExpression(ctx context) (Expression, error) {
-	return p.evaluateLogicalOr(ctx)
+	leave, err := p.enter()
+	defer leave()
+
+	if err != nil {
+		return nil, err
+	}
+	height := p.height
+	p.height = 0
+	expr, err := p.evaluateLogicalOr(ctx)
+	p.height = max(height, p.height+1)
+
+	return expr, err
 }
 
 func (p *Parser) evaluateStatement(ctx context) (Statement, error) {
 	var stmt Statement
-	var err error
+	leave, err := p.enter()
+	defer leave()
 
+	if err != nil {
+		return nil, err
+	}
 	token := p.peek()
 	tokenType := token.Type()
 
@@ -2362,6 +2428,12 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 			break
 		}
 
+		err := p.increaseHeight()
+
+		if err != nil {
+			return nil, err
+		}
+
 		if signed {
 			p.tokens[p.index] = numberToken // The sign has been consumed, keep the number as right operand.
 		} else {
@@ -2384,9 +2456,10 @@ func (p *Parser) evaluateBinaryOperation(ctx context, allowedOperators []BinaryO
 			return nil, p.expectedError(fmt.Sprintf(`valid %s operator but got "%s"`, leftType.String(), operator), operatorToken)
 		}
 		leftExpression = BinaryOperation{
-			left:     leftExpression,
-			operator: operator,
-			right:    rightExpression,
+			left:      leftExpression,
+			operator:  operator,
+			right:     rightExpression,
+			valueType: leftType,
 		}
 	}
 	return leftExpression, nil
@@ -2410,6 +2483,11 @@ func (p *Parser) evaluateComparison(ctx context) (Expression, error) {
 		if operatorToken.Type() != lexer.COMPARE_OPERATOR {
 			break
 		}
+		err := p.increaseHeight()
+
+		if err != nil {
+			return nil, err
+		}
 		p.eat() // Eat operator token.
 		rightExpression, err := p.evaluateAddition(ctx)
 
@@ -2450,6 +2528,11 @@ func (p *Parser) evaluateLogicalOperation(ctx context, operator LogicalOperator,
 		if !leftExpression.ValueType().IsBool() {
 			return nil, p.expectedError("boolean value", conditionToken)
 		}
+		err := p.increaseHeight()
+
+		if err != nil {
+			return nil, err
+		}
 		p.eat() // Eat operator token.
 		operatorValue := operatorToken.Value()
 		rightToken := p.peek()
@@ -2610,6 +2693,12 @@ func (p *Parser) evaluateFunctionCall(ctx context) (Call, error) {
 }
 
 func (p *Parser) evaluateAppCall(ctx context) (Call, error) {
+	leave, err := p.enter()
+	defer leave()
+
+	if err != nil {
+		return nil, err
+	}
 	nextToken := p.eat()
 
 	if nextToken.Type() != lexer.AT {
-- 
2.43.0


From a2c97c5f06e655adecce2ac740c5053bbbc43da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:57 +0000
Subject: [PATCH 25/44] fix: read operands strictly from left to right and
 assign multiple values simultaneously

---
 parser/parser.go         |  14 +--
 parser/string.go         |  10 +-
 transpiler/operands.go   | 140 ++++++++++++++++++++++++++
 transpiler/transpiler.go | 209 +++++++++++++++++++--------------------
 4 files changed, 253 insertions(+), 120 deletions(-)
 create mode 100644 transpiler/operands.go

diff --git a/parser/parser.go b/parser/parser.go
index fc58563..6183ece 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -2859,17 +2859,12 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 	}
 	nextToken = p.peek()
 	endToken := nextToken
-	var endIndex Expression // Stays empty if only a single index is provided.
+	openEnd := false
+	var endIndex Expression // Stays empty if only a single index or no end-index is provided.
 
 	if nextToken.Type() == lexer.CLOSING_SQUARE_BRACKET {
-		// If range but no end-index is provided, create one by using Len-expression.
-		if gotRange {
-			endIndex = BinaryOperation{
-				left:     Len{value},
-				operator: BINARY_OPERATOR_SUBTRACTION,
-				right:    IntegerLiteral{1},
-			}
-		}
+		// If range but no end-index is provided, the subscript reaches to the end of the string.
+		openEnd = gotRange
 		p.eat() // Eat square bracket.
 	} else if !gotRange {
 		return nil, p.expectedError(`":" or "]"`, nextToken)
@@ -2906,6 +2901,7 @@ func (p *Parser) evaluateSubscript(ctx context) (Expression, error) {
 			value:      value,
 			startIndex: startIndex,
 			endIndex:   endIndex,
+			openEnd:    openEnd,
 		}, nil
 	}
 	return SliceEvaluation{
diff --git a/parser/string.go b/parser/string.go
index ef01a37..fe30845 100644
--- a/parser/string.go
+++ b/parser/string.go
@@ -4,6 +4,7 @@ type StringSubscript struct {
 	value      Expression
 	startIndex Expression
 	endIndex   Expression
+	openEnd    bool
 }
 
 func (s StringSubscript) StatementType() StatementType {
@@ -23,14 +24,19 @@ func (s StringSubscript) StartIndex() Expression {
 }
 
 func (s StringSubscript) SingleIndex() bool {
-	return s.endIndex == nil
+	return s.endIndex == nil && !s.openEnd
+}
+
+// OpenEnd states if the subscript reaches to the end of the string. In this case there is no end-index.
+func (s StringSubscript) OpenEnd() bool {
+	return s.openEnd
 }
 
 func (s StringSubscript) EndIndex() Expression {
 	endIndex := s.endIndex
 
 	// Automatically define end-index.
-	if endIndex == nil {
+	if s.SingleIndex() {
 		endIndex = s.startIndex
 	}
 	return endIndex
diff --git a/transpiler/operands.go b/transpiler/operands.go
new file mode 100644
index 0000000..e86ed24
--- /dev/null
+++ b/transpiler/operands.go
@@ -0,0 +1,140 @@
+package transpiler
+
+import (
+	"fmt"
+
+	"github.com/monstermichl/typeshell/parser"
+)
+
+// evaluateOperands evaluates the expressions in order. As the result of an expression might just be a reference to
+// a variable, the variable's value is preserved if a following expression calls a function (which might change it).
+func (t *transpiler) evaluateOperands(expressions ...parser.Expression) ([]expressionResult, error) {
+	results := []expressionResult{}
+	lastCall := -1
+
+	for i := len(expressions) - 1; i > 0; i-- {
+		if containsCall(expressions[i]) {
+			lastCall = i
+			break
+		}
+	}
+
+	for i, expr := range expressions {
+		result, err := t.evaluateExpression(expr, true)
+
+		if err != nil {
+			return nil, err
+		}
+
+		if variable, isVariable := referencedVariable(expr); isVariable && variable.Global() && i < lastCall {
+			result, err = t.snapshot(result)
+
+			if err != nil {
+				return nil, err
+			}
+		}
+		results = append(results, result)
+	}
+	return results, nil
+}
+
+// evaluateAssignedValues evaluates values which are assigned to several variables simultaneously.
+func (t *transpiler) evaluateAssignedValues(expressions []parser.Expression) ([]expressionResult, error) {
+	results, err := t.evaluateOperands(expressions...)
+
+	if err != nil {
+		return nil, err
+	}
+
+	// Except for the first value, all values are read after a variable has been changed.
+	for i := 1; i < len(results); i++ {
+		if _, isVariable := referencedVariable(expressions[i]); isVariable {
+			results[i], err = t.snapshot(results[i])
+
+			if err != nil {
+				return nil, err
+			}
+		}
+	}
+	return results, nil
+}
+
+func (t *transpiler) snapshot(result expressionResult) (expressionResult, error) {
+	name := fmt.Sprintf("_s%d", t.snapshots)
+	t.snapshots++
+	err := t.converter.VarAssignment(name, result.firstValue(), false)
+
+	if err != nil {
+		return expressionResult{}, err
+	}
+	s, err := t.converter.VarEvaluation(name, true, false)
+
+	if err != nil {
+		return expressionResult{}, err
+	}
+	return newExpressionResult(s), nil
+}
+
+// referencedVariable returns the variable whose value is the value of the expression.
+func referencedVariable(expression parser.Expression) (parser.Variable, bool) {
+	for {
+		switch expr := expression.(type) {
+		case parser.VariableEvaluation:
+			return expr.Variable, true
+		case parser.Group:
+			expression = expr.Child()
+		case parser.Itoa:
+			expression = expr.Value()
+		default:
+			return parser.Variable{}, false
+		}
+	}
+}
+
+func containsCall(expressions ...parser.Expression) bool {
+	for len(expressions) > 0 {
+		last := len(expressions) - 1
+		expression := expressions[last]
+		expressions = expressions[:last]
+
+		switch expr := expression.(type) {
+		case parser.FunctionCall:
+			return true
+		case parser.Operation:
+			expressions = append(expressions, expr.Left(), expr.Right())
+		case parser.UnaryOperation:
+			expressions = append(expressions, expr.Expression())
+		case parser.Group:
+			expressions = append(expressions, expr.Child())
+		case parser.Itoa:
+			expressions = append(expressions, expr.Value())
+		case parser.Len:
+			expressions = append(expressions, expr.Expression())
+		case parser.Exists:
+			expressions = append(expressions, expr.Path())
+		case parser.Read:
+			expressions = append(expressions, expr.Path())
+		case parser.Copy:
+			expressions = append(expressions, expr.Source())
+		case parser.Input:
+			if prompt := expr.Prompt(); prompt != nil {
+				expressions = append(expressions, prompt)
+			}
+		case parser.SliceInstantiation:
+			expressions = append(expressions, expr.Values()...)
+		case parser.SliceEvaluation:
+			expressions = append(expressions, expr.Value(), expr.Index())
+		case parser.StringSubscript:
+			expressions = append(expressions, expr.Value(), expr.StartIndex())
+
+			if endIndex := expr.EndIndex(); endIndex != nil {
+				expressions = append(expressions, endIndex)
+			}
+		case parser.AppCall:
+			for call := &expr; call != nil; call = call.Next() {
+				expressions = append(expressions, call.Args()...)
+			}
+		}
+	}
+	return false
+}
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 1996147..5e6875f 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -2,6 +2,7 @@ package transpiler
 
 import (
 	"fmt"
+	"slices"
 	"strconv"
 
 	"github.com/monstermichl/typeshell/parser"
@@ -45,6 +46,7 @@ func IntToString(i int) string {
 
 type transpiler struct {
 	converter Converter
+	snapshots int
 }
 
 func New() transpiler {
@@ -59,6 +61,7 @@ func (t *transpiler) Transpile(path string, converter Converter) (string, error)
 		return "", err
 	}
 	t.converter = converter
+	t.snapshots = 0
 	err = t.evaluate(ast)
 
 	if err != nil {
@@ -84,10 +87,6 @@ func (t *transpiler) evaluateValueTypeDefaultValue(valueType parser.ValueType) (
 	return defaultValue, nil
 }
 
-func (t *transpiler) evaluateIndex(index parser.Expression, valueUsed bool) (expressionResult, error) {
-	return t.evaluateExpression(index, true)
-}
-
 func (t *transpiler) evaluateProgram(program parser.Program) error {
 	var err error
 	t.converter.ProgramStart()
@@ -123,17 +122,12 @@ func (t *transpiler) evaluateOperation(
 	callout func(left string, operator string, right string, valueType parser.ValueType, valueUsed bool) (string, error),
 	valueUsed bool,
 ) (expressionResult, error) {
-	left, err := t.evaluateExpression(operation.Left(), true)
+	operands, err := t.evaluateOperands(operation.Left(), operation.Right())
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	right, err := t.evaluateExpression(operation.Right(), true)
-
-	if err != nil {
-		return expressionResult{}, err
-	}
-	s, err := callout(left.firstValue(), operation.Operator(), right.firstValue(), operation.Left().ValueType(), valueUsed)
+	s, err := callout(operands[0].firstValue(), operation.Operator(), operands[1].firstValue(), operation.Left().ValueType(), valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -178,13 +172,13 @@ func (t *transpiler) evaluateContinue() error {
 
 func (t *transpiler) evaluatePrint(print parser.Print) error {
 	values := []string{}
+	results, err := t.evaluateOperands(print.Expressions()...)
 
-	for _, expr := range print.Expressions() {
-		result, err := t.evaluateExpression(expr, true)
+	if err != nil {
+		return err
+	}
 
-		if err != nil {
-			return err
-		}
+	for _, result := range results {
 		values = append(values, result.values...)
 	}
 	return t.converter.Print(values)
@@ -206,24 +200,13 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 	if !valueType.IsString() {
 		return fmt.Errorf("expected string but got %s as read path", valueType.String())
 	}
-	result, err := t.evaluateExpression(path, true)
-
-	if err != nil {
-		return err
-	}
-	pathString := result.firstValue()
 	data := write.Data()
 	valueType = data.ValueType()
 
 	if !valueType.IsString() {
 		return fmt.Errorf("expected string but got %s as data", valueType.String())
 	}
-	result, err = t.evaluateExpression(data, true)
-
-	if err != nil {
-		return err
-	}
-	dataString := result.firstValue()
+	operands := []parser.Expression{path, data}
 	appendExpr := write.Append()
 	appendString := BoolToString(false)
 
@@ -234,36 +217,35 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 		if !valueType.IsBool() {
 			return fmt.Errorf("expected bool but got %s as append flag", valueType.String())
 		}
-		result, err = t.evaluateExpression(append, true)
+		operands = slices.Concat(operands, []parser.Expression{append})
+	}
+	results, err := t.evaluateOperands(operands...)
 
-		if err != nil {
-			return err
-		}
-		appendString = result.firstValue()
+	if err != nil {
+		return err
+	}
+
+	if appendExpr != nil {
+		appendString = results[2].firstValue()
 	}
-	return t.converter.WriteFile(pathString, dataString, appendString)
+	return t.converter.WriteFile(results[0].firstValue(), results[1].firstValue(), appendString)
 }
 
 func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	conv := t.converter
 	ifBranch := ifStatement.IfBranch()
-	result, err := t.evaluateExpression(ifBranch.Condition(), true)
-
-	if err != nil {
-		return err
-	}
-	elifConditions := []string{}
+	conditions := []parser.Expression{ifBranch.Condition()}
 
 	// Evaluate all conditions first to make sure they are added in front of the first if.
 	for _, branch := range ifStatement.ElseIfBranches() {
-		result, err := t.evaluateExpression(branch.Condition(), true)
+		conditions = append(conditions, branch.Condition())
+	}
+	results, err := t.evaluateOperands(conditions...)
 
-		if err != nil {
-			return err
-		}
-		elifConditions = append(elifConditions, result.firstValue())
+	if err != nil {
+		return err
 	}
-	err = conv.IfStart(result.firstValue())
+	err = conv.IfStart(results[0].firstValue())
 
 	if err != nil {
 		return err
@@ -275,7 +257,7 @@ func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	}
 
 	for i, branch := range ifStatement.ElseIfBranches() {
-		err = conv.ElseIfStart(elifConditions[i])
+		err = conv.ElseIfStart(results[i+1].firstValue())
 
 		if err != nil {
 			return err
@@ -366,13 +348,14 @@ func (t *transpiler) evaluateFor(forStatement parser.For) error {
 }
 
 func (t *transpiler) evaluateVarDefinition(definition parser.VariableDefinition) error {
-	for i, variable := range definition.Variables() {
-		result, err := t.evaluateExpression(definition.Values()[i], true)
+	results, err := t.evaluateAssignedValues(definition.Values())
 
-		if err != nil {
-			return err
-		}
-		err = t.converter.VarDefinition(variableName(variable.Name()), result.firstValue(), variable.Global())
+	if err != nil {
+		return err
+	}
+
+	for i, variable := range definition.Variables() {
+		err = t.converter.VarDefinition(variableName(variable.Name()), results[i].firstValue(), variable.Global())
 
 		if err != nil {
 			return err
@@ -407,13 +390,14 @@ func (t *transpiler) evaluateVarDefinitionCallAssignment(definition parser.Varia
 }
 
 func (t *transpiler) evaluateVarAssignment(assignment parser.VariableAssignment) error {
-	for i, variable := range assignment.Variables() {
-		result, err := t.evaluateExpression(assignment.Values()[i], true)
+	results, err := t.evaluateAssignedValues(assignment.Values())
 
-		if err != nil {
-			return err
-		}
-		err = t.converter.VarDefinition(variableName(variable.Name()), result.firstValue(), variable.Global())
+	if err != nil {
+		return err
+	}
+
+	for i, variable := range assignment.Variables() {
+		err = t.converter.VarDefinition(variableName(variable.Name()), results[i].firstValue(), variable.Global())
 
 		if err != nil {
 			return err
@@ -448,13 +432,8 @@ func (t *transpiler) evaluateVarAssignmentCallAssignment(assignment parser.Varia
 }
 
 func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment) error {
-	indexResult, err := t.evaluateIndex(assignment.Index(), true)
-
-	if err != nil {
-		return err
-	}
 	value := assignment.Value()
-	valueResult, err := t.evaluateExpression(value, true)
+	operands, err := t.evaluateOperands(assignment.Index(), value)
 
 	if err != nil {
 		return err
@@ -465,7 +444,7 @@ func (t *transpiler) evaluateSliceAssignment(assignment parser.SliceAssignment)
 	if err != nil {
 		return err
 	}
-	return t.converter.SliceAssignment(variableName(assignment.Name()), indexResult.firstValue(), valueResult.firstValue(), defaultValue, assignment.Global())
+	return t.converter.SliceAssignment(variableName(assignment.Name()), operands[0].firstValue(), operands[1].firstValue(), defaultValue, assignment.Global())
 }
 
 func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation, valueUsed bool) (expressionResult, error) {
@@ -478,19 +457,12 @@ func (t *transpiler) evaluateVarEvaluation(evaluation parser.VariableEvaluation,
 }
 
 func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation, valueUsed bool) (expressionResult, error) {
-	value := evaluation.Value()
-	result, err := t.evaluateExpression(value, true)
-
-	if err != nil {
-		return expressionResult{}, err
-	}
-	valueString := result.firstValue()
-	result, err = t.evaluateIndex(evaluation.Index(), true)
+	operands, err := t.evaluateOperands(evaluation.Value(), evaluation.Index())
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	s, err := t.converter.SliceEvaluation(valueString, result.firstValue(), valueUsed)
+	s, err := t.converter.SliceEvaluation(operands[0].firstValue(), operands[1].firstValue(), valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -499,28 +471,38 @@ func (t *transpiler) evaluateSliceEvaluation(evaluation parser.SliceEvaluation,
 }
 
 func (t *transpiler) evaluateStringSubscript(subscript parser.StringSubscript, valueUsed bool) (expressionResult, error) {
-	startIndexResult, err := t.evaluateIndex(subscript.StartIndex(), true)
+	expressions := []parser.Expression{subscript.Value(), subscript.StartIndex()}
+	singleIndex := subscript.SingleIndex()
+	openEnd := subscript.OpenEnd()
+
+	if !singleIndex && !openEnd {
+		expressions = append(expressions, subscript.EndIndex())
+	}
+	operands, err := t.evaluateOperands(expressions...)
 
 	if err != nil {
 		return expressionResult{}, err
 	}
-	endIndexResult := startIndexResult
+	str := operands[0].firstValue()
+	startIndex := operands[1].firstValue()
+	endIndex := startIndex // Make sure that a single index is only evaluated once.
 
-	// Make sure that a single index is only evaluated once.
-	if !subscript.SingleIndex() {
-		endIndexResult, err = t.evaluateIndex(subscript.EndIndex(), true)
+	if openEnd {
+		length, err := t.converter.StringLen(str, true)
 
 		if err != nil {
 			return expressionResult{}, err
 		}
-	}
-	value := subscript.Value()
-	str, err := t.evaluateExpression(value, true)
+		intType := parser.NewValueType(parser.DATA_TYPE_INTEGER, false)
+		endIndex, err = t.converter.BinaryOperation(length, parser.BINARY_OPERATOR_SUBTRACTION, IntToString(1), intType, true)
 
-	if err != nil {
-		return expressionResult{}, err
+		if err != nil {
+			return expressionResult{}, err
+		}
+	} else if !singleIndex {
+		endIndex = operands[2].firstValue()
 	}
-	s, err := t.converter.StringSubscript(str.firstValue(), startIndexResult.firstValue(), endIndexResult.firstValue(), valueUsed)
+	s, err := t.converter.StringSubscript(str, startIndex, endIndex, valueUsed)
 
 	if err != nil {
 		return expressionResult{}, err
@@ -555,14 +537,15 @@ func (t *transpiler) evaluateBlock(block parser.Block) error {
 func (t *transpiler) evaluateReturn(returnStatement parser.Return) error {
 	returnValues := []ReturnValue{}
 
-	for _, expr := range returnStatement.Values() {
-		result, err := t.evaluateExpression(expr, true)
+	results, err := t.evaluateOperands(returnStatement.Values()...)
 
-		if err != nil {
-			return err
-		}
+	if err != nil {
+		return err
+	}
+
+	for i, expr := range returnStatement.Values() {
 		returnValues = append(returnValues, ReturnValue{
-			value:     result.firstValue(),
+			value:     results[i].firstValue(),
 			valueType: expr.ValueType(),
 		})
 	}
@@ -594,12 +577,13 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 	name := functionCall.Name()
 	args := []string{}
 
-	for _, arg := range functionCall.Args() {
-		result, err := t.evaluateExpression(arg, true)
+	results, err := t.evaluateOperands(functionCall.Args()...)
 
-		if err != nil {
-			return expressionResult{}, err
-		}
+	if err != nil {
+		return expressionResult{}, err
+	}
+
+	for _, result := range results {
 		args = append(args, result.firstValue())
 	}
 	returnTypes := functionCall.ReturnTypes()
@@ -619,19 +603,25 @@ func (t *transpiler) evaluateFunctionCall(functionCall parser.FunctionCall, valu
 
 func (t *transpiler) evaluateAppCall(call parser.AppCall, valueUsed bool) (expressionResult, error) {
 	convertedCalls := []AppCall{}
+	expressions := []parser.Expression{}
+
+	for nextCall := &call; nextCall != nil; nextCall = nextCall.Next() {
+		expressions = append(expressions, nextCall.Args()...)
+	}
+	results, err := t.evaluateOperands(expressions...)
+
+	if err != nil {
+		return expressionResult{}, err
+	}
 	nextCall := &call
 
 	for nextCall != nil {
 		name := nextCall.Name()
 		args := []string{}
 
-		for _, arg := range nextCall.Args() {
-			result, err := t.evaluateExpression(arg, true)
-
-			if err != nil {
-				return expressionResult{}, err
-			}
-			args = append(args, result.firstValue())
+		for range nextCall.Args() {
+			args = append(args, results[0].firstValue())
+			results = results[1:]
 		}
 		convertedCalls = append(convertedCalls, AppCall{
 			name: name,
@@ -650,12 +640,13 @@ func (t *transpiler) evaluateAppCall(call parser.AppCall, valueUsed bool) (expre
 func (t *transpiler) evaluateSliceInstantiation(instantiation parser.SliceInstantiation, valueUsed bool) (expressionResult, error) {
 	values := []string{}
 
-	for _, expr := range instantiation.Values() {
-		result, err := t.evaluateExpression(expr, true)
+	results, err := t.evaluateOperands(instantiation.Values()...)
 
-		if err != nil {
-			return expressionResult{}, err
-		}
+	if err != nil {
+		return expressionResult{}, err
+	}
+
+	for _, result := range results {
 		values = append(values, result.firstValue())
 	}
 	s, err := t.converter.SliceInstantiation(values, valueUsed)
-- 
2.43.0


From 219624a4ee08db13bf7c89f9f49756098752cd3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 26/44] fix: require a value after an assignment operator in
 variable definitions

---
 parser/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 6183ece..196fa86 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1114,6 +1114,7 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 		}
 	}
 	specifiedType := NewValueType(DATA_TYPE_UNKNOWN, false)
+	valueRequired := isShortVarInit
 
 	if isShortVarInit {
 		nextToken := p.eat() // Eat short init operator.
@@ -1142,10 +1143,10 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 			return nil, p.expectedError("data type or value assignment", nextToken)
 		} else if nextTokenType == lexer.ASSIGN_OPERATOR {
 			p.eat()
+			valueRequired = true
 		}
 	}
 	nextToken := p.peek()
-	nextTokenType := nextToken.Type()
 	variables := []Variable{}
 
 	// Fill variables slice (might not contain the final type after this step).
@@ -1175,8 +1176,7 @@ func (p *Parser) evaluateVarDefinition(ctx context) (Statement, error) {
 	}
 	values := []Expression{}
 
-	// TODO: Improve check (avoid NEWLINE and EOF check).
-	if nextTokenType != lexer.NEWLINE && nextTokenType != lexer.EOF {
+	if valueRequired {
 		evaluatedVals, err := p.evaluateValues(ctx)
 
 		if err != nil {
-- 
2.43.0


From 4da1ba04386622903df7383c87fc6201791b288f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 27/44] fix: use a separate first-iteration flag for every loop
 in Bash

---
 converters/bash/converter.go | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index c388c71..b0c3b16 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -13,6 +13,10 @@ type funcInfo struct {
 	name string
 }
 
+type forInfo struct {
+	flag string
+}
+
 type converter struct {
 	interpreter                   string
 	startCode                     []string
@@ -21,6 +25,7 @@ type converter struct {
 	forCounter                    int
 	funcs                         []funcInfo
 	funcCounter                   int
+	fors                          []forInfo
 	sliceAssignmentHelperRequired bool
 	sliceCopyHelperRequired       bool
 	stringSubscriptHelperRequired bool
@@ -167,6 +172,9 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	c.fors = append(c.fors, forInfo{
+		flag: c.nextForVar(),
+	})
 	c.addLine(fmt.Sprintf(`%s=`, c.mustCurrentForVar()))
 	c.addLine("while true; do")
 	return nil
@@ -190,7 +198,9 @@ func (c *converter) ForCondition(condition string) error {
 
 func (c *converter) ForEnd() error {
 	c.addLine("done")
-	c.forCounter++
+
+	lastIndex := len(c.fors) - 1
+	c.fors = slices.Delete(c.fors, lastIndex, lastIndex+1)
 
 	return nil
 }
@@ -542,7 +552,14 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter)
+	return c.fors[len(c.fors)-1].flag
+}
+
+func (c *converter) nextForVar() string {
+	forVar := fmt.Sprintf("_fv%d", c.forCounter)
+	c.forCounter++
+
+	return forVar
 }
 
 func (c *converter) varName(name string, global bool) string {
-- 
2.43.0


From e7e1b53b953ef9a9462a40d0d7538bbfba4e8358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 28/44] fix: bind more than nine function parameters in Bash

---
 converters/bash/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index b0c3b16..f3b39fb 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -123,7 +123,7 @@ func (c *converter) FuncStart(name string, params []string, returnTypes []parser
 	c.addLine(fmt.Sprintf("%s() {", name))
 
 	for i, param := range params {
-		s := c.varAssignmentString(param, fmt.Sprintf("$%d", i+1), false)
+		s := c.varAssignmentString(param, fmt.Sprintf("${%d}", i+1), false)
 		c.addLine(fmt.Sprintf("local %s", s))
 	}
 	return nil
-- 
2.43.0


From 28beafedff3cdf4125a08fb66718d484745782af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:24 +0000
Subject: [PATCH 29/44] fix: treat string values as opaque data in Bash

---
 converters/bash/converter.go | 115 +++++++++++++++++++----------------
 std/os.tsh                   |   2 +-
 2 files changed, 63 insertions(+), 54 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index f3b39fb..8929720 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -18,17 +18,18 @@ type forInfo struct {
 }
 
 type converter struct {
-	interpreter                   string
-	startCode                     []string
-	code                          []string
-	varCounter                    int
-	forCounter                    int
-	funcs                         []funcInfo
-	funcCounter                   int
-	fors                          []forInfo
-	sliceAssignmentHelperRequired bool
-	sliceCopyHelperRequired       bool
-	stringSubscriptHelperRequired bool
+	interpreter                      string
+	startCode                        []string
+	code                             []string
+	varCounter                       int
+	forCounter                       int
+	funcs                            []funcInfo
+	funcCounter                      int
+	fors                             []forInfo
+	sliceInstantiationHelperRequired bool
+	sliceAssignmentHelperRequired    bool
+	sliceCopyHelperRequired          bool
+	stringSubscriptHelperRequired    bool
 }
 
 func New() *converter {
@@ -39,7 +40,8 @@ func New() *converter {
 }
 
 func (c *converter) StringToString(value string) string {
-	return value
+	// Values are always used within double quotes, so escape everything that has a special meaning there.
+	return strings.NewReplacer(`\`, `\\`, `"`, `\"`, `$`, `\$`, "`", "\\`").Replace(value)
 }
 
 func (c *converter) Dump() (string, error) {
@@ -62,6 +64,14 @@ func (c *converter) ProgramStart() error {
 }
 
 func (c *converter) ProgramEnd() error {
+	if c.sliceInstantiationHelperRequired {
+		// $1: Slice name
+		// $2...: Slice values
+		c.addHelper("slice instantiation", "_sih",
+			`eval "${1}=(\"\${@:2}\")"`,
+		)
+	}
+
 	if c.sliceAssignmentHelperRequired {
 		// $1: Slice name
 		// $2: Assignment index
@@ -69,22 +79,25 @@ func (c *converter) ProgramEnd() error {
 		// $4: Default value
 		c.addHelper("slice assignment", "_sah",
 			"local _i=${2}",
-			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${1}")),
+			"local _l",
+			c.sliceLenString("_l", "${1}"),
 			`for ((_c=${_l};_c<${_i};_c++)); do`,
-			c.sliceAssignmentString("${1}", "${_c}", "${4}", false),
+			c.sliceAssignmentString("${1}", "${_c}", "4", false),
 			`done`,
-			c.sliceAssignmentString("${1}", "${_i}", "${3}", false),
+			c.sliceAssignmentString("${1}", "${_i}", "3", false),
 		)
 	}
 
 	if c.sliceCopyHelperRequired {
 		c.addHelper("slice copy", "_sch",
 			"local _i=0",
-			fmt.Sprintf(`local _l=%s`, c.sliceLenString("${2}")),
-			"local _n=$(eval \"echo \\${${1}}\")",
+			"local _l",
+			c.sliceLenString("_l", "${2}"),
+			"local _n=${!1}",
+			"local _v",
 			"while [ ${_i} -lt ${_l} ]; do",
-			fmt.Sprintf("local _v=%s", c.sliceEvaluationString("${2}", "${_i}")),
-			c.sliceAssignmentString("${_n}", "${_i}", "${_v}", false),
+			c.sliceEvaluationString("_v", "${2}", "${_i}"),
+			c.sliceAssignmentString("${_n}", "${_i}", "_v", false),
 			"_i=$((${_i}+1))",
 			"done",
 		)
@@ -216,21 +229,22 @@ func (c *converter) Continue() error {
 }
 
 func (c *converter) Print(values []string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", strings.Join(values, " ")))
+	c.addPrintLine(strings.Join(values, " "))
 	return nil
 }
 
 func (c *converter) Panic(value string) error {
-	c.addLine(fmt.Sprintf("echo \"%s\"", value))
+	c.addPrintLine(value)
 	c.addLine("exit 1")
 	return nil
 }
 
 func (c *converter) WriteFile(path string, content string, append string) error {
-	helper := c.nextHelperVar()
-
-	c.VarAssignment(helper, fmt.Sprintf(`$(if [ "%s" -eq "%s" ]; then echo ">>"; else echo ">"; fi)`, append, transpiler.BoolToString(true)), false)
-	c.addLine(fmt.Sprintf(`eval "echo \"%s\" %s %s"`, content, c.varEvaluationString(helper, false), path))
+	c.addLine(fmt.Sprintf(`if [ "%s" -eq "%s" ]; then`, append, transpiler.BoolToString(true)))
+	c.addLine(fmt.Sprintf(`%s >> "%s"`, c.printString(content), path))
+	c.addLine("else")
+	c.addLine(fmt.Sprintf(`%s > "%s"`, c.printString(content), path))
+	c.addLine("fi")
 	return nil
 }
 
@@ -285,7 +299,7 @@ func (c *converter) BinaryOperation(left string, operator parser.BinaryOperator,
 	case parser.DATA_TYPE_STRING:
 		switch operator {
 		case parser.BINARY_OPERATOR_ADDITION:
-			c.VarAssignment(helper, fmt.Sprintf("\"%s%s\"", left, right), false)
+			c.VarAssignment(helper, fmt.Sprintf("%s%s", left, right), false)
 		default:
 			return notAllowedError()
 		}
@@ -391,29 +405,26 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	c.VarAssignment(helper, fmt.Sprintf(`_dv%s`, c.varEvaluationString("_dvc", true)), false)
 
 	if len(values) > 0 {
-		vals := ""
+		vals := []string{}
 
 		for _, value := range values {
-			vals = fmt.Sprintf(`%s \"%s\"`, vals, value)
+			vals = append(vals, fmt.Sprintf(`"%s"`, value))
 		}
-		c.addLine(fmt.Sprintf(`eval "%s=(%s)"`, c.varEvaluationString(helper, false), strings.TrimSpace(vals)))
+		c.sliceInstantiationHelperRequired = true
+		c.addLine(fmt.Sprintf(`_sih %s %s`, c.varEvaluationString(helper, false), strings.Join(vals, " ")))
 	}
 	return c.varEvaluationString(helper, false), nil
 }
 
 func (c *converter) SliceEvaluation(name string, index string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(
-		helper,
-		c.sliceEvaluationString(name, index),
-		false,
-	)
+	c.addLine(c.sliceEvaluationString(c.varName(helper, false), name, index))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) SliceLen(name string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, c.sliceLenString(name), false)
+	c.addLine(c.sliceLenString(c.varName(helper, false), name))
 
 	return c.VarEvaluation(helper, valueUsed, false)
 }
@@ -526,7 +537,7 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	c.sliceCopyHelperRequired = true
 
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, c.sliceLenString(c.varEvaluationString(destination, true)), false)
+	c.addLine(c.sliceLenString(c.varName(helper, false), c.varEvaluationString(destination, true)))
 
 	return c.varEvaluationString(helper, false), nil
 }
@@ -570,34 +581,28 @@ func (c *converter) varName(name string, global bool) string {
 }
 
 func (c *converter) varAssignmentString(name string, value string, global bool) string {
-	length := len(value)
-
-	if length > 0 {
-		if string(value[length-1]) != `"` {
-			value = fmt.Sprintf(`%s"`, value)
-		}
-		if string(value[0]) != `"` {
-			value = fmt.Sprintf(`"%s`, value)
-		}
-	}
-	return fmt.Sprintf("%s=%s", c.varName(name, global), value)
+	return fmt.Sprintf(`%s="%s"`, c.varName(name, global), value)
 }
 
 func (c *converter) varEvaluationString(name string, global bool) string {
 	return fmt.Sprintf("${%s}", c.varName(name, global))
 }
 
-func (c *converter) sliceAssignmentString(name string, index string, value string, global bool) string {
+func (c *converter) sliceAssignmentString(name string, index string, valueName string, global bool) string {
 	c.sliceAssignmentHelperRequired = true
-	return fmt.Sprintf(`eval "%s[%s]=\"%s\""`, name, index, value)
+	return fmt.Sprintf(`eval "%s[%s]=\${%s}"`, name, index, valueName) // The value must not be expanded before eval.
+}
+
+func (c *converter) sliceEvaluationString(target string, name string, index string) string {
+	return fmt.Sprintf(`eval "%s=\${%s[%s]}"`, target, name, index)
 }
 
-func (c *converter) sliceEvaluationString(name string, index string) string {
-	return fmt.Sprintf(`$(eval "echo \${%s[%s]}")`, name, index)
+func (c *converter) sliceLenString(target string, name string) string {
+	return fmt.Sprintf(`eval "%s=\${#%s[@]}"`, target, name)
 }
 
-func (c *converter) sliceLenString(name string) string {
-	return fmt.Sprintf(`$(eval "echo \${#%s[@]}")`, name)
+func (c *converter) printString(value string) string {
+	return fmt.Sprintf(`printf '%%s\n' "%s"`, value) // In contrast to echo, printf doesn't interpret the value.
 }
 
 func (c *converter) ifStart(condition string, startWord string) error {
@@ -627,6 +632,10 @@ func (c *converter) addLine(line string) {
 	c.code = append(c.code, line)
 }
 
+func (c *converter) addPrintLine(value string) {
+	c.addLine(c.printString(value))
+}
+
 func (c *converter) nextHelperVar() string {
 	helperVar := fmt.Sprintf("_h%d", c.varCounter)
 	c.varCounter++
diff --git a/std/os.tsh b/std/os.tsh
index de27e0d..d01c2cc 100644
--- a/std/os.tsh
+++ b/std/os.tsh
@@ -5,7 +5,7 @@ func Shell() string {
 	if win[:3] == "Win" {
 		shell = "batch"
 	} else {
-		stdout, stderr, code := @ps("-p", "$$", "-o", "args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", `"[0-9a-zA-Z][0-9a-zA-Z]*$"`)
+		stdout, stderr, code := @sh("-c", "ps -p $PPID -o args=") | @cut("-d", " ", "-f1") | @grep("-o", "-e", "[0-9a-zA-Z][0-9a-zA-Z]*$")
 		shell = stdout
 	}
 	return shell
-- 
2.43.0


From 26b1b65a150e9e5900eb473352e49df2db7ef9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 30/44] fix: pass call arguments, captured output, input and
 file content unchanged in Bash

---
 converters/bash/converter.go | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 8929720..afc080a 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -483,26 +483,19 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 	callStrings := []string{}
 
 	for _, call := range callsCopy {
-		argsCopy := call.Args()
+		// Quote name and arguments to pass them unchanged. The prefix makes sure that none of the script's functions is called.
+		callString := fmt.Sprintf(`command -- "%s"`, c.StringToString(call.Name()))
 
-		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "$") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf("\"%s\"", arg)
-			}
-			argsCopy[j] = arg
-		}
-		space := ""
-
-		if len(argsCopy) > 0 {
-			space = " "
+		for _, arg := range call.Args() {
+			callString = fmt.Sprintf(`%s "%s"`, callString, arg)
 		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+		callStrings = append(callStrings, callString)
 	}
 	callString := strings.Join(callStrings, " | ")
 
 	if valueUsed {
-		callString = fmt.Sprintf("$(%s)", callString)
+		// As $() removes all trailing newlines, add a terminator to remove only the last newline below.
+		callString = fmt.Sprintf("$(%s; _s=$?; printf x; exit ${_s})", callString)
 		helper1 := c.nextHelperVar()
 		helper2 := c.nextHelperVar()
 
@@ -513,6 +506,7 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 			return nil, err
 		}
 		c.VarDefinition(helper2, "$?", false)
+		c.addTerminatorRemoval(helper1)
 		return []string{eval, "", c.varEvaluationString(helper2, false)}, nil // TODO: Return stderr (https://github.com/monstermichl/TypeShell/issues/28).
 	}
 	c.addLine(callString)
@@ -525,7 +519,7 @@ func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	if len(prompt) > 0 {
 		prompt = fmt.Sprintf(" -p \"%s\"", prompt)
 	}
-	c.addLine(fmt.Sprintf("read%s %s", prompt, helper))
+	c.addLine(fmt.Sprintf("IFS= read -r%s %s", prompt, c.varName(helper, false)))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
@@ -558,7 +552,8 @@ func (c *converter) Exists(path string, valueUsed bool) (string, error) {
 
 func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.VarAssignment(helper, fmt.Sprintf("$(cat \"%s\")", path), false)
+	c.VarAssignment(helper, fmt.Sprintf(`$(cat < "%s"; printf x)`, path), false)
+	c.addTerminatorRemoval(helper)
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
@@ -636,6 +631,14 @@ func (c *converter) addPrintLine(value string) {
 	c.addLine(c.printString(value))
 }
 
+// addTerminatorRemoval removes the terminator "x" and the newline in front of it (if there is one).
+func (c *converter) addTerminatorRemoval(helper string) {
+	name := c.varName(helper, false)
+
+	c.VarAssignment(helper, fmt.Sprintf("${%s%%x}", name), false)
+	c.VarAssignment(helper, fmt.Sprintf(`${%s%%$'\n'}`, name), false)
+}
+
 func (c *converter) nextHelperVar() string {
 	helperVar := fmt.Sprintf("_h%d", c.varCounter)
 	c.varCounter++
-- 
2.43.0


From 806a124c0fed3f4d8e5d05345d1f7eca55bcac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:51 +0000
Subject: [PATCH 31/44] fix: give every loop its own labels and flag in Batch

---
 converters/batch/converter.go | 39 ++++++++++++++---------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 2d11ebc..924a278 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -31,7 +31,9 @@ type funcInfo struct {
 }
 
 type forInfo struct {
-	label string
+	label    string
+	endLabel string
+	flag     string
 }
 
 type ifInfo struct {
@@ -48,7 +50,6 @@ type converter struct {
 	varCounter                    int
 	ifCounter                     int
 	forCounter                    int
-	endLabels                     []string
 	funcs                         []funcInfo
 	funcCounter                   int
 	fors                          []forInfo
@@ -341,10 +342,12 @@ func (c *converter) ElseEnd() error {
 }
 
 func (c *converter) ForStart() error {
+	count := c.forCounter
 	label := c.nextForLabel()
-	c.nextEndLabel()
 	c.fors = append(c.fors, forInfo{
-		label: label,
+		label:    label,
+		endLabel: fmt.Sprintf(":_e%d", count),
+		flag:     fmt.Sprintf("_fv%d", count),
 	})
 	c.addLine(fmt.Sprintf(`set "%s="`, c.mustCurrentForVar()))
 	c.addLine(label)
@@ -368,16 +371,15 @@ func (c *converter) ForCondition(condition string) error {
 }
 
 func (c *converter) ForEnd() error {
-	w := c.fors[len(c.fors)-1]
+	w := c.mustCurrentForInfo()
 
 	c.addLine(fmt.Sprintf("goto %s", w.label))
 	c.addLine(")")
 
-	endLabel := c.popEndLabel()
 	lastIndex := len(c.fors) - 1
 	c.fors = slices.Delete(c.fors, lastIndex, lastIndex+1)
 
-	c.addLine(endLabel)
+	c.addLine(w.endLabel)
 
 	return nil
 }
@@ -817,12 +819,16 @@ func (c *converter) addEndLine(line string) {
 	c.endCode = append(c.endCode, line)
 }
 
+func (c *converter) mustCurrentForInfo() forInfo {
+	return c.fors[len(c.fors)-1]
+}
+
 func (c *converter) mustCurrentForLabel() string {
-	return forLabel(c.forCounter - 1)
+	return c.mustCurrentForInfo().label
 }
 
 func (c *converter) mustCurrentForVar() string {
-	return fmt.Sprintf("_fv%d", c.forCounter-1)
+	return c.mustCurrentForInfo().flag
 }
 
 func (c *converter) nextForLabel() string {
@@ -868,20 +874,7 @@ func (c *converter) mustCurrentIfInfo() ifInfo {
 }
 
 func (c *converter) mustCurrentEndLabel() string {
-	return c.endLabels[len(c.endLabels)-1]
-}
-
-func (c *converter) popEndLabel() string {
-	lastIndex := len(c.endLabels) - 1
-	label := c.mustCurrentEndLabel()
-	c.endLabels = slices.Delete(c.endLabels, lastIndex, lastIndex+1)
-
-	return label
-}
-
-func (c *converter) nextEndLabel() string {
-	c.endLabels = append(c.endLabels, fmt.Sprintf(":_e%d", len(c.endLabels)))
-	return c.mustCurrentEndLabel()
+	return c.mustCurrentForInfo().endLabel
 }
 
 func (c *converter) nextHelperVar() string {
-- 
2.43.0


From 5075ffb2202a871169013409c3e3854124e9090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 32/44] fix: handle slice lengths numerically, never shrink
 slices and report the copied amount

---
 converters/bash/converter.go  |  3 ++-
 converters/batch/converter.go | 19 ++++++++++---------
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index afc080a..fe556bb 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -100,6 +100,7 @@ func (c *converter) ProgramEnd() error {
 			c.sliceAssignmentString("${_n}", "${_i}", "_v", false),
 			"_i=$((${_i}+1))",
 			"done",
+			"_ret=${_i}",
 		)
 	}
 
@@ -531,7 +532,7 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	c.sliceCopyHelperRequired = true
 
 	helper := c.nextHelperVar()
-	c.addLine(c.sliceLenString(c.varName(helper, false), c.varEvaluationString(destination, true)))
+	c.VarAssignment(helper, c.varEvaluationString("_ret", true), false)
 
 	return c.varEvaluationString(helper, false), nil
 }
diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 924a278..a9a7afa 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -164,7 +164,6 @@ func (c *converter) ProgramEnd() error {
 	if c.sliceCopyHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Destination slice
 		// %2: Source slice
@@ -172,20 +171,20 @@ func (c *converter) ProgramEnd() error {
 			`set "_i=0"`,
 			c.callFuncString(sliceLenGetHelper, []string{}, "%2"),
 			":_sch_loop",
-			`if "!_i!" lss "!_len!" (`,
+			`if !_i! lss !_len! (`, // Must not be quoted, otherwise it's a string comparison.
 			`for /f "delims=" %%i in ("%2_!_i!") do set "_v=!%%i!"`,
 			c.sliceAssignmentString("!%1!", "!_i!", "!_v!", false),
 			`set /A "_i=!_i!+1"`,
 			"goto :_sch_loop",
 			")",
-			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_i!"),
+			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"),
+			"if !_i! gtr !_len! "+c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_i!"),
 		)
 	}
 
 	if c.sliceAssignmentHelperRequired {
 		c.sliceLenGetHelperRequired = true
 		c.sliceLenSetHelperRequired = true
-		c.sliceAssignmentHelperRequired = true
 
 		// %1: Slice name
 		// %2: Assigned index
@@ -195,11 +194,11 @@ func (c *converter) ProgramEnd() error {
 			c.callFuncString(sliceLenGetHelper, []string{}, "!%1!"), // Get current slice length.
 			`set "_i=!_len!"`,
 			":_sah_loop",
-			`if "!_i!" lss "%2" (`,
+			`if !_i! lss %2 (`, // Must not be quoted, otherwise it's a string comparison.
 			c.sliceAssignmentString("!%1!", "!_i!", "%3", false),
 			`set /A "_i=!_i!+1"`,
 			"goto :_sah_loop",
-			") else (",
+			") else if !_len! leq %2 (",
 			`set /A "_len=%2+1"`,
 			c.callFuncString(sliceLenSetHelper, []string{}, "!%1!", "!_len!"),
 			")",
@@ -585,7 +584,7 @@ func (c *converter) SliceInstantiation(values []string, valueUsed bool) (string,
 	helper := c.nextHelperVar()
 	c.VarAssignment(helper, "_dv!_dvc!", false)
 
-	c.sliceAssignmentHelperRequired = true
+	c.sliceLenSetHelperRequired = true
 	c.callFunc(sliceLenSetHelper, []string{}, c.varEvaluationString(helper, false), strconv.Itoa(len(values)))
 
 	// Init slice values.
@@ -728,8 +727,10 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	c.sliceCopyHelperRequired = true
 	c.callFunc(sliceCopyHelper, []string{}, c.varName(destination, global), source)
 
-	c.callFunc(sliceLenGetHelper, []string{}, c.varEvaluationString(destination, global))
-	return c.varEvaluationString("_len", true), nil
+	helper := c.nextHelperVar()
+	c.VarAssignment(helper, c.varEvaluationString("_i", true), false) // Amount of copied values.
+
+	return c.VarEvaluation(helper, valueUsed, false)
 }
 
 func (c *converter) Exists(path string, valueUsed bool) (string, error) {
-- 
2.43.0


From 3669c485f5fadb9a328501167f2982f9771db048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:12 +0000
Subject: [PATCH 33/44] fix: stop the whole program if a function panics in
 Batch

---
 converters/batch/converter.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index a9a7afa..85bfa61 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -657,6 +657,7 @@ func (c *converter) Group(value string, valueUsed bool) (string, error) {
 func (c *converter) FuncCall(name string, args []string, returnTypes []parser.ValueType, valueUsed bool) ([]string, error) {
 	returnValues := []string{}
 	c.callFunc(name, args)
+	c.addLine(`if not "!_e!"=="0" goto :end`) // If the function panicked, leave the current function/program as well.
 
 	if valueUsed {
 		for i := range returnTypes {
-- 
2.43.0


From c7bf4a443183b8ad9dbb3d4a0fdad7ef00ea99a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:14 +0000
Subject: [PATCH 34/44] fix: print, cut and read values like on/off or empty
 strings correctly in Batch

---
 converters/batch/converter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index 85bfa61..b1d1b91 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -221,7 +221,8 @@ func (c *converter) ProgramEnd() error {
 	if c.stringSubscriptHelperRequired {
 		c.addHelper("string subscript", stringSubscriptHelper,
 			`set /A "_sh=(%2-%1)+1"`,
-			fmt.Sprintf(`set "_sub=!%s:~%%1,%%_sh%%!"`, funcArgVar(0)), // https://stackoverflow.com/a/636391
+			`set "_sub="`,
+			fmt.Sprintf(`if defined %s set "_sub=!%s:~%%1,%%_sh%%!"`, funcArgVar(0), funcArgVar(0)), // https://stackoverflow.com/a/636391
 		)
 	}
 
@@ -237,9 +238,8 @@ func (c *converter) ProgramEnd() error {
 	}
 
 	if c.echoHelperRequired {
-		v := c.varEvaluationString(funcArgVar(0), true)
 		c.addHelper("echo", echoHelper,
-			fmt.Sprintf(`if "%s" neq "" (echo %s) else echo.`, v, v), // echo. could be problematic (see discussion: https://stackoverflow.com/a/20691061).
+			fmt.Sprintf(`echo(%s`, c.varEvaluationString(funcArgVar(0), true)), // echo( neither fails on empty values nor interprets "on", "off" or "/?" (see discussion: https://stackoverflow.com/a/20691061).
 		)
 	}
 	c.addEndLine(":end")
@@ -720,7 +720,8 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 
 func (c *converter) Input(prompt string, valueUsed bool) (string, error) {
 	helper := c.nextHelperVar()
-	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, helper, prompt))
+	c.VarAssignment(helper, "", false) // The variable is not changed if nothing is entered.
+	c.addLine(fmt.Sprintf(`set /p "%s=%s"`, c.varName(helper, false), prompt))
 	return c.VarEvaluation(helper, valueUsed, false)
 }
 
-- 
2.43.0


From a313ee5917380db1e1d2f148826ddddfa705076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:04 +0000
Subject: [PATCH 35/44] fix: keep quotes, percent signs and call arguments from
 breaking Batch scripts

---
 converters/batch/converter.go | 61 ++++++++++++++++++++++++-----------
 std/os.tsh                    |  2 +-
 2 files changed, 44 insertions(+), 19 deletions(-)

diff --git a/converters/batch/converter.go b/converters/batch/converter.go
index b1d1b91..b501ca1 100644
--- a/converters/batch/converter.go
+++ b/converters/batch/converter.go
@@ -26,6 +26,8 @@ const (
 	echoHelper            helperName = "_ech"  // Echo
 )
 
+const doubleQuote = "!_dq!"
+
 type funcInfo struct {
 	name string
 }
@@ -55,6 +57,7 @@ type converter struct {
 	fors                          []forInfo
 	ifs                           []ifInfo
 	lfSet                         bool
+	doubleQuoteSet                bool
 	appCallHelperRequired         bool
 	readHelperRequired            bool
 	sliceAssignmentHelperRequired bool
@@ -92,6 +95,15 @@ func (c *converter) StringToString(value string) string {
 	// Replace "\n" with Batch newline value.
 	value = strings.ReplaceAll(value, "\n", "!LF!")
 
+	// Escape all "%".
+	value = strings.ReplaceAll(value, "%", "%%")
+
+	// Replace quotes with Batch quote value to not terminate quoted parts of the script.
+	if strings.Contains(value, `"`) {
+		c.addDoubleQuote()
+		value = strings.ReplaceAll(value, `"`, doubleQuote)
+	}
+
 	return value
 }
 
@@ -129,9 +141,9 @@ func (c *converter) ProgramEnd() error {
 	if c.fileWriteHelperRequired {
 		c.addHelper("file write", fileWriteHelper,
 			`set "_a=>"`,
-			fmt.Sprintf(`if "%%2" equ "%s" set "_a=>>"`, transpiler.BoolToString(true)),
+			fmt.Sprintf(`if "%%1" equ "%s" set "_a=>>"`, transpiler.BoolToString(true)),
 			fmt.Sprintf(`for /f "delims=" %%%%i in ("!%s!") do (`, funcArgVar(0)),
-			`for /f "delims=" %%j in ('echo %%i!_a! %~1') do (`,
+			fmt.Sprintf(`for /f "delims=" %%%%j in ('echo %%%%i!_a! "!%s!"') do (`, funcArgVar(1)),
 			"rem", // NOP (https://stackoverflow.com/a/7191952). The for-loop is just required to expand !_a! delayed.
 			`)`,
 			`set "_a=>>"`,
@@ -154,7 +166,7 @@ func (c *converter) ProgramEnd() error {
 	if c.readHelperRequired {
 		c.addHelper("read", fileReadHelper,
 			`set "_h="`,
-			`for /f "delims=" %%i in (%~1) do (`,
+			fmt.Sprintf(`for /f "usebackq delims=" %%%%i in ("!%s!") do (`, funcArgVar(0)),
 			`if defined _h set "_h=!_h!!LF!"`,
 			`set "_h=!_h!%%i"`,
 			")",
@@ -408,9 +420,9 @@ func (c *converter) Panic(value string) error {
 func (c *converter) WriteFile(path string, content string, append string) error {
 	c.fileWriteHelperRequired = true
 
-	// Use global variable to pass content to write file helper because Batch doesn't
-	// support newline passing because it splits arguments at newlines.
-	c.callFunc(fileWriteHelper, []string{content}, path, append)
+	// Use global variables to pass content and path to write file helper because Batch doesn't
+	// support newline passing because it splits arguments at newlines (and at blanks).
+	c.callFunc(fileWriteHelper, []string{content, path}, append)
 
 	return nil
 }
@@ -680,21 +692,19 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 	callStrings := []string{}
 
 	for _, call := range callsCopy {
-		argsCopy := call.Args()
+		quote := `"`
 
-		for j, arg := range argsCopy {
-			// If argument is a variable or contains whitespaces, quote it.
-			if strings.HasPrefix(arg, "%") || len(strings.Split(arg, " ")) > 1 {
-				arg = fmt.Sprintf(`"%s"`, arg)
-			}
-			argsCopy[j] = arg
+		// If the call gets assigned to a variable first, it must not contain quotes.
+		if valueUsed {
+			c.addDoubleQuote()
+			quote = doubleQuote
 		}
-		space := ""
+		callParts := []string{c.quoteCallPart(c.StringToString(call.Name()), quote)}
 
-		if len(argsCopy) > 0 {
-			space = " "
+		for _, arg := range call.Args() {
+			callParts = append(callParts, c.quoteCallPart(arg, quote))
 		}
-		callStrings = append(callStrings, fmt.Sprintf("%s%s%s", call.Name(), space, strings.Join(argsCopy, " ")))
+		callStrings = append(callStrings, strings.Join(callParts, " "))
 	}
 
 	if valueUsed {
@@ -751,7 +761,7 @@ func (c *converter) ReadFile(path string, valueUsed bool) (string, error) {
 	c.readHelperRequired = true
 
 	c.addLf()
-	c.callFunc(fileReadHelper, []string{}, path)
+	c.callFunc(fileReadHelper, []string{path})
 	c.VarAssignment(helper, c.varEvaluationString("_h", true), false)
 
 	return c.VarEvaluation(helper, valueUsed, false)
@@ -892,6 +902,21 @@ func (c *converter) sliceAssignmentString(name string, index string, value strin
 	return fmt.Sprintf(`set "%s_%s=%s"`, name, index, value)
 }
 
+func (c *converter) addDoubleQuote() {
+	if !c.doubleQuoteSet {
+		c.addStartLine(`set _dq="`)
+		c.doubleQuoteSet = true
+	}
+}
+
+// quoteCallPart quotes literal parts of a call that must not be interpreted.
+func (c *converter) quoteCallPart(part string, quote string) string {
+	if len(part) == 0 || strings.ContainsAny(part, " \t&|<>()^,;=") {
+		part = fmt.Sprintf("%s%s%s", quote, part, quote)
+	}
+	return part
+}
+
 func (c *converter) addLf() {
 	if !c.lfSet {
 		c.addStartLine("(set LF=^") // https://stackoverflow.com/a/60389149
diff --git a/std/os.tsh b/std/os.tsh
index d01c2cc..43687fb 100644
--- a/std/os.tsh
+++ b/std/os.tsh
@@ -1,6 +1,6 @@
 func Shell() string {
 	shell := "unknown"
-	win := "%OS%"
+	win, err, errCode := @echo("%OS%")
 
 	if win[:3] == "Win" {
 		shell = "batch"
-- 
2.43.0


From 9a0701dbd62c844c9708e782752b79b6a97789ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:35 +0000
Subject: [PATCH 36/44] fix: align the corner cases of the strings library with
 Go

---
 std/strings.tsh | 59 ++++++++++++++++++-------------------------------
 1 file changed, 22 insertions(+), 37 deletions(-)

diff --git a/std/strings.tsh b/std/strings.tsh
index e9426f9..ccfcdd2 100644
--- a/std/strings.tsh
+++ b/std/strings.tsh
@@ -1,8 +1,9 @@
 func Index(s string, substr string) int {
 	sul := len(substr)
 	ind := -1
+	last := len(s) - sul
 
-	for i := 0; i < len(s); i++ {
+	for i := 0; i <= last; i++ {
 		j := 0
 
 		for ; j < sul; j++ {
@@ -53,8 +54,7 @@ func HasSuffix(s string, suffix string) bool {
 	l := len(suffix)
 
 	if len(s) >= l {
-		l *= -1
-		return s[l:] == suffix
+		return s[len(s)-l:] == suffix
 	}
 	return false
 }
@@ -84,48 +84,37 @@ func Split(s string, sep string) []string {
 	sepLen := len(sep)
 	elems := []string{}
 
-	// If s and sep are empty, slice will be empty.
-	if sLen > 0 || sepLen > 0 {
+	if sepLen == 0 {
+		// If sep is empty, split after every char.
+		for i := 0; i < sLen; i++ {
+			elems[i] = s[i]
+		}
+	} else {
 		startI := 0
 		endI := 0
 		elIndex := 0
-		boundary := len(s)
-
-		if sLen > 0 {
-			boundary -= sepLen
-		}
 
-		for endI <= boundary {
+		for endI <= sLen-sepLen {
 			if s[endI:endI+sepLen] == sep {
-				sepEmpty := sepLen == 0
-
-				// If sep is empty, split after every char.
-				if sepEmpty {
-					endI++
-				}
-
-				if !sepEmpty || endI <= boundary {
-					elems[elIndex] = s[startI:endI]
-					endI += sepLen
-					startI = endI
-				}
+				elems[elIndex] = s[startI:endI]
+				endI += sepLen
+				startI = endI
 				elIndex++
-			} else if endI == boundary {
-				// Add last element to slice.
-				elems[elIndex] = s[startI:]
-				break
 			} else {
 				endI++
 			}
 		}
+
+		// Add last element to slice.
+		elems[elIndex] = s[startI:]
 	}
 	return elems
 }
 
 func Repeat(s string, count int) string {
-	new := s
+	new := ""
 
-	for i := 1; i < count; i++ {
+	for i := 0; i < count; i++ {
 		new += s
 	}
 	return new
@@ -138,7 +127,7 @@ func Replace(s string, old string, new string, n int) string {
 	lenOld := len(old)
 	lenNew := len(new)
 
-	if lenOld == 0 {
+	if lenOld == 0 && n != 0 {
 		res = new
 		rep++
 	}
@@ -181,14 +170,10 @@ func CutSuffix(s string, suffix string) (string, bool) {
 }
 
 func Cut(s string, sep string) (string, string, bool) {
-	lenS := len(s)
-
-	if lenS > 0 {
-		i := Index(s, sep)
+	i := Index(s, sep)
 
-		if i >= 0 {
-			return s[0:i], s[i+len(sep):], true
-		}
+	if i >= 0 {
+		return s[0:i], s[i+len(sep):], true
 	}
 	return s, "", false
 }
-- 
2.43.0


From dcd78455a1ed706ff181bedfe5bc413b33d66cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:00 +0000
Subject: [PATCH 37/44] fix: write complete output files only and never
 overwrite the input file

---
 tsh.go | 64 ++++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 58 insertions(+), 6 deletions(-)

diff --git a/tsh.go b/tsh.go
index 92bab69..41cae11 100644
--- a/tsh.go
+++ b/tsh.go
@@ -16,9 +16,10 @@ const (
 	typeBash  string = "bash"
 )
 
-var convMapping = map[string]transpiler.Converter{
-	typeBatch: batch.New(),
-	typeBash:  bash.New(),
+// A converter collects code, so every transpilation requires a new one.
+var convMapping = map[string]func() transpiler.Converter{
+	typeBatch: func() transpiler.Converter { return batch.New() },
+	typeBash:  func() transpiler.Converter { return bash.New() },
 }
 
 type options struct {
@@ -36,8 +37,12 @@ func parseOptions() options {
 		types = append(types, k)
 	}
 
-	for i := 1; i < (len(args) - 1); i += 2 {
+	for i := 1; i < len(args); i += 2 {
 		cSwitch := args[i]
+
+		if i+1 == len(args) {
+			panic(fmt.Errorf("no value provided for option %s", cSwitch))
+		}
 		cValue := args[i+1]
 
 		switch cSwitch {
@@ -63,7 +68,7 @@ func parseOptions() options {
 			if !ok {
 				panic(fmt.Errorf("unknown converter type %s. Allowed types are %s", cValue, strings.Join(types, ", ")))
 			}
-			options.converters = append(options.converters, conv)
+			options.converters = append(options.converters, conv())
 		default:
 			panic(fmt.Errorf("unknown option %s", cSwitch))
 		}
@@ -79,6 +84,49 @@ func parseOptions() options {
 	return options
 }
 
+// writeOutput writes either the whole content to the output file or leaves it untouched.
+func writeOutput(in string, out string, content string) error {
+	inStat, err := os.Stat(in)
+
+	if err != nil {
+		return err
+	}
+
+	// Make sure the input file is not overwritten.
+	if outStat, err := os.Stat(out); err == nil {
+		if os.SameFile(inStat, outStat) {
+			return fmt.Errorf("output file %s is the input file", out)
+		} else if outStat.IsDir() {
+			return fmt.Errorf("output file %s is a directory", out)
+		}
+	}
+	temp := ""
+	var tempFile *os.File
+
+	for i := 0; tempFile == nil; i++ {
+		temp = filepath.Join(filepath.Dir(out), fmt.Sprintf(".tsh-%d-%d", os.Getpid(), i))
+		tempFile, err = os.OpenFile(temp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0777)
+
+		if err != nil && !os.IsExist(err) {
+			return err
+		}
+	}
+	_, err = tempFile.WriteString(content)
+
+	if closeErr := tempFile.Close(); err == nil {
+		err = closeErr
+	}
+
+	if err == nil {
+		err = os.Rename(temp, out)
+	}
+
+	if err != nil {
+		os.Remove(temp)
+	}
+	return err
+}
+
 func main() {
 	options := parseOptions()
 	t := transpiler.New()
@@ -93,6 +141,10 @@ func main() {
 		file := filepath.Base(in)
 		file = file[0 : len(file)-len(filepath.Ext(in))] // Remove extension.
 
-		os.WriteFile(filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), []byte(dump), 0777)
+		err = writeOutput(in, filepath.Join(options.out, fmt.Sprintf("%s.%s", file, conv.Extension())), dump)
+
+		if err != nil {
+			panic(err)
+		}
 	}
 }
-- 
2.43.0


From 81e878af851a1d55419b13997064c1aa55215211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 38/44] fix: evaluate the expression of a switch exactly once

---
 parser/if.go             |  5 +++++
 parser/parser.go         | 15 +++++++++++++++
 transpiler/transpiler.go |  9 +++++++++
 3 files changed, 29 insertions(+)

diff --git a/parser/if.go b/parser/if.go
index d9b0d46..91e1716 100644
--- a/parser/if.go
+++ b/parser/if.go
@@ -22,6 +22,7 @@ func (e Else) Body() []Statement {
 }
 
 type If struct {
+	init         Statement
 	ifBranch     IfBranch
 	elifBranches []IfBranch
 	elseBranch   Else
@@ -31,6 +32,10 @@ func (i If) StatementType() StatementType {
 	return STATEMENT_TYPE_IF
 }
 
+func (i If) Init() Statement {
+	return i.init
+}
+
 func (i If) IfBranch() IfBranch {
 	return i.ifBranch
 }
diff --git a/parser/parser.go b/parser/parser.go
index 196fa86..38168ee 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -211,6 +211,7 @@ type Parser struct {
 	depth     int                 // Current nesting depth.
 	height    int                 // Height of the current expression.
 	ranges    int                 // Number of range-loops (required for naming the internal loop variables).
+	switches  int                 // Number of switches (required for naming the internal switch variables).
 	usedFuncs map[string][]string // Stores which function (key) calls which functions (values).
 	modules   map[string]*module  // Stores all source files of the program (shared between the parsers of all files).
 }
@@ -1788,7 +1789,21 @@ func (p *Parser) evaluateSwitch(ctx context) (Statement, error) {
 	if nextToken.Type() != lexer.NEWLINE {
 		return nil, p.expectedNewlineError(nextToken)
 	}
+	var init Statement
+
+	// Use an internal variable (the name is no valid identifier) to evaluate the expression only once.
+	if exprToken.Type() != lexer.OPENING_CURLY_BRACKET {
+		switchVar := NewVariable(fmt.Sprintf("switch%d.value", p.switches), switchExprValueType, false, false)
+		p.switches++
+
+		init = VariableAssignment{
+			variables: []Variable{switchVar},
+			values:    []Expression{switchExpr},
+		}
+		switchExpr = VariableEvaluation{switchVar}
+	}
 	fakeIf := If{
+		init: init,
 		ifBranch: IfBranch{
 			condition: BooleanLiteral{false}, // Use a fake if-branch that isn't entered if only a default branch has been set in switch.
 			body:      []Statement{},
diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 5e6875f..055e32f 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -233,6 +233,15 @@ func (t *transpiler) evaluateWrite(write parser.Write) error {
 
 func (t *transpiler) evaluateIf(ifStatement parser.If) error {
 	conv := t.converter
+	init := ifStatement.Init()
+
+	if init != nil {
+		err := t.evaluate(init)
+
+		if err != nil {
+			return err
+		}
+	}
 	ifBranch := ifStatement.IfBranch()
 	conditions := []parser.Expression{ifBranch.Condition()}
 
-- 
2.43.0


From c1ddadd067264a5f34747bf89155b0b3a05aa642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:18 +0000
Subject: [PATCH 39/44] fix: accept several variables in the header of a
 three-part loop

---
 parser/parser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 38168ee..997bf73 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -1897,13 +1897,20 @@ func (p *Parser) evaluateFor(ctx context) (Statement, error) {
 	var stmt Statement
 	nextToken := p.peek()
 	nextTokenType := nextToken.Type()
-	nextAfterNextTokenType := p.peekAt(1).Type()
+
+	// A range-loop has one or two variables, every other list of variables is the initialization of a three-part loop.
+	initOperatorIndex := uint(1)
+
+	if p.peekAt(1).Type() == lexer.COMMA {
+		initOperatorIndex = 3
+	}
+	isRange := p.peekAt(initOperatorIndex).Type() == lexer.SHORT_INIT_OPERATOR && p.peekAt(initOperatorIndex+1).Type() == lexer.RANGE
 
 	// Clone context to avoid modification of the original.
 	ctx = ctx.clone()
 
-	// If next token is an identifier and the one after it a comma or a short-init operator and range keyword, parse a for-range statement.
-	if nextTokenType == lexer.IDENTIFIER && (nextAfterNextTokenType == lexer.COMMA || (nextAfterNextTokenType == lexer.SHORT_INIT_OPERATOR && p.peekAt(2).Type() == lexer.RANGE)) {
+	// If next token is an identifier and the range keyword follows the variables, parse a for-range statement.
+	if nextTokenType == lexer.IDENTIFIER && isRange {
 		p.eat()
 		err := p.checkNewVariableNameToken(nextToken, ctx)
 
-- 
2.43.0


From 6770d6e00efd0e93ecd6cd0f55764df509e8a95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:57 +0000
Subject: [PATCH 40/44] fix: emit the slice assignment helper (Bash) only if it
 is used

---
 converters/bash/converter.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index fe556bb..4b37d73 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -528,7 +528,6 @@ func (c *converter) Copy(destination string, source string, valueUsed bool, glob
 	destination = c.varName(destination, global)
 
 	c.addLine(fmt.Sprintf("_sch %s %s", destination, source))
-	c.sliceAssignmentHelperRequired = true
 	c.sliceCopyHelperRequired = true
 
 	helper := c.nextHelperVar()
@@ -585,7 +584,6 @@ func (c *converter) varEvaluationString(name string, global bool) string {
 }
 
 func (c *converter) sliceAssignmentString(name string, index string, valueName string, global bool) string {
-	c.sliceAssignmentHelperRequired = true
 	return fmt.Sprintf(`eval "%s[%s]=\${%s}"`, name, index, valueName) // The value must not be expanded before eval.
 }
 
-- 
2.43.0


From ed14feb016797b2c77caceb07c608d5190bab5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:08 +0000
Subject: [PATCH 41/44] fix: give blocks of expressions without code a body

A block whose statements are only expressions which do not result in any
code (e.g. the evaluation of a variable) made the Bash script invalid.
---
 transpiler/transpiler.go | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/transpiler/transpiler.go b/transpiler/transpiler.go
index 055e32f..c9ac5d3 100644
--- a/transpiler/transpiler.go
+++ b/transpiler/transpiler.go
@@ -524,22 +524,23 @@ func (t *transpiler) evaluateGroup(group parser.Group, valueUsed bool) (expressi
 }
 
 func (t *transpiler) evaluateBlock(block parser.Block) error {
-	body := block.Body()
-	length := len(body)
+	onlyExpressions := true
 
-	if length == 0 {
-		return t.converter.Nop()
-	}
-	for index, statement := range body {
+	for _, statement := range block.Body() {
 		err := t.evaluate(statement)
 
 		if err != nil {
 			return err
 		}
-		if index == length-1 {
-			return nil
+		if _, isExpression := statement.(parser.Expression); !isExpression {
+			onlyExpressions = false
 		}
 	}
+
+	// An expression (e.g. an evaluation of a variable) doesn't necessarily result in any code.
+	if onlyExpressions {
+		return t.converter.Nop()
+	}
 	return nil
 }
 
-- 
2.43.0


From cbcd2b4b1cb97e71932136f131d7b0741eeb8ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:52 +0000
Subject: [PATCH 42/44] fix: don't search the index of a string subscript twice

Searching the single index of a string for calls took exponential time
for nested subscripts.
---
 transpiler/operands.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/transpiler/operands.go b/transpiler/operands.go
index e86ed24..4c84522 100644
--- a/transpiler/operands.go
+++ b/transpiler/operands.go
@@ -127,8 +127,8 @@ func containsCall(expressions ...parser.Expression) bool {
 		case parser.StringSubscript:
 			expressions = append(expressions, expr.Value(), expr.StartIndex())
 
-			if endIndex := expr.EndIndex(); endIndex != nil {
-				expressions = append(expressions, endIndex)
+			if !expr.SingleIndex() && !expr.OpenEnd() {
+				expressions = append(expressions, expr.EndIndex())
 			}
 		case parser.AppCall:
 			for call := &expr; call != nil; call = call.Next() {
-- 
2.43.0


From 436807dcd49e9312ba08edcf037c82a16bb42b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 43/44] fix: call programs whose name starts with % (Bash)

---
 converters/bash/converter.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/converters/bash/converter.go b/converters/bash/converter.go
index 4b37d73..cddb64c 100644
--- a/converters/bash/converter.go
+++ b/converters/bash/converter.go
@@ -485,11 +485,17 @@ func (c *converter) AppCall(calls []transpiler.AppCall, valueUsed bool) ([]strin
 
 	for _, call := range callsCopy {
 		// Quote name and arguments to pass them unchanged. The prefix makes sure that none of the script's functions is called.
-		callString := fmt.Sprintf(`command -- "%s"`, c.StringToString(call.Name()))
+		callString := fmt.Sprintf(`-- "%s"`, c.StringToString(call.Name()))
 
 		for _, arg := range call.Args() {
 			callString = fmt.Sprintf(`%s "%s"`, callString, arg)
 		}
+
+		if strings.HasPrefix(call.Name(), "%") {
+			callString = fmt.Sprintf("(exec %s)", callString) // "command" would treat the name as a job.
+		} else {
+			callString = fmt.Sprintf("command %s", callString)
+		}
 		callStrings = append(callStrings, callString)
 	}
 	callString := strings.Join(callStrings, " | ")
-- 
2.43.0


From 6888fc2589f1699684b138ec69b0c014dd44aba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 44/44] fix: accept an import at the end of a file without
 final newline

---
 parser/parser.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 997bf73..ce6fc1d 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -879,9 +879,14 @@ func (p *Parser) evaluateImport() (evaluatedImport, error) {
 		return evaluatedImport{}, p.expectedError("import path", nextToken)
 	}
 	path := nextToken.Value()
-	nextToken = p.eat()
+	nextToken = p.peek()
 
-	if !slices.Contains([]lexer.TokenType{lexer.NEWLINE, lexer.EOF}, nextToken.Type()) {
+	switch nextToken.Type() {
+	case lexer.NEWLINE:
+		p.eat()
+	case lexer.EOF:
+		// The end-of-file token terminates the program and must therefore not be consumed.
+	default:
 		return evaluatedImport{}, p.expectedError("newline or end-of-file", nextToken)
 	}
 	return evaluatedImport{
-- 
2.43.0


From 312d36f5c9aec92978bbcae07f5e3bcff89c4551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:55 +0000
Subject: [PATCH 01/25] fix: report a syntax error when a bracket is never
 closed

At the end of the input the bracket scan recursed forever and exhausted
the stack, ending the whole process.
---
 internal/validator/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index c3207ab..a7c4e54 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -149,6 +149,9 @@ func (v *validator) validateBrackets(set bool) error {
 
 
 func (v *validator) validateBracketsAux(set bool) error {
+	if v.isOutOfRange() {
+		return v.syntaxError()
+	}
 	if v.matchToken(")") {
 		return nil
 	}
-- 
2.43.0


From 5fa1f4a35e1bbb5ffb12b82535942e07ef498f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:56 +0000
Subject: [PATCH 02/25] fix: return the error from ParseForce when no dialect
 accepts the DDL

The loop shadowed err, so a DDL rejected by all dialects came back as
an empty list and a nil error.
---
 ddlparse.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ddlparse.go b/ddlparse.go
index 0303e95..8f51d07 100644
--- a/ddlparse.go
+++ b/ddlparse.go
@@ -67,10 +67,11 @@ func ParseForce(ddl string) ([]Table, error) {
 	ls := []Rdbms{SQLite, PostgreSQL, MySQL}
 	var err error
 	for _, rdbms := range ls {
-		tables, err := Parse(ddl, rdbms)
-		if err == nil {
+		tables, e := Parse(ddl, rdbms)
+		if e == nil {
 			return tables, nil
 		}
+		err = e
 	}
 	return []Table{}, err
 }
\ No newline at end of file
-- 
2.43.0


From 7d6e21b7cb7dacd55e6e0892fc264d4f0dc73178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:01 +0000
Subject: [PATCH 03/25] fix: remove index definitions completely from the
 validated tokens

INDEX, KEY, FULLTEXT and SPATIAL definitions left a ')' (and the index
name) behind, which ended the table early or made the conversion run
away. A removed definition in first place left a comma that was taken
for a column name; commas are now skipped between definitions only, so
those inside expressions stay as written.
---
 internal/converter/converter.go       | 12 ++++--------
 internal/validator/validator_mysql.go |  4 ++--
 2 files changed, 6 insertions(+), 10 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index d2e4919..ef745cc 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -72,9 +72,6 @@ func (c *converter) next() string {
 	}
 	token := c.token()
 	c.i += 1
-	if token == "," && c.token() == "," {
-		return c.next()
-	}
 	return token
 }
 
@@ -187,17 +184,16 @@ func (c *converter) convertTableDefinition() ([]types.Column, types.TableConstra
 	var columns []types.Column
 	var constraints types.TableConstraint
 	for !c.matchToken(")") {
+		if c.matchToken(",") {
+			c.next() // a removed constraint leaves only its comma
+			continue
+		}
 		if (c.matchToken("CONSTRAINT", "PRIMARY", "UNIQUE", "CHECK", "FOREIGN")) {
 			c.convertTableConstraint(&constraints);
 		} else {
 			column := c.convertColumnDefinition()
 			columns = append(columns, column)
 		}
-		
-		if c.matchToken(")") {
-			break
-		}
-		c.next()
 	}
 	c.next()
 	return columns, constraints
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index e07ef03..0eeb160 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -193,7 +193,7 @@ func (v *mysqlValidator) validateIndexKeys(set bool) error {
 	if err := v.validateIndexKeysAux(set); err != nil {
 		return err
 	}
-	if err := v.validateToken(true, ")"); err != nil {
+	if err := v.validateToken(set, ")"); err != nil {
 		return err
 	}
 	return nil
@@ -752,7 +752,7 @@ func (v *mysqlValidator) validateTableConstraintAux() error {
 	if v.matchTokenNext(false, "FULLTEXT", "SPATIAL") {
 		v.matchTokenNext(false, "INDEX", "KEY")
 		if !v.matchToken("(") {
-			if err := v.validateName(true); err != nil {
+			if err := v.validateName(false); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From 0d10378bcbead60db259e76a6fed2429ff5f27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:02 +0000
Subject: [PATCH 04/25] fix: keep NOT NULL after a CHECK constraint in MySQL

The NOT was consumed as part of [NOT] ENFORCED, so the column came out
as nullable; CHECK (expr) NOT without ENFORCED was accepted.
---
 internal/validator/validator.go       | 10 ++++++++++
 internal/validator/validator_mysql.go |  5 ++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index a7c4e54..a3effa0 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -118,6 +118,16 @@ func (v *validator) matchTokenNext(set bool, keywords ...string) bool {
 }
 
 
+// matchFollowingToken checks the token after the current one.
+func (v *validator) matchFollowingToken(keywords ...string) bool {
+	i, line := v.i, v.line
+	v.next()
+	matched := v.matchToken(keywords...)
+	v.i, v.line = i, line
+	return matched
+}
+
+
 func (v *validator) validateToken(set bool, keywords ...string) error {
 	if (v.isOutOfRange()) {
 		return v.syntaxError()
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 0eeb160..4312c9f 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -555,7 +555,10 @@ func (v *mysqlValidator) validateConstraintCheck() error {
 	if err := v.validateExpr(true); err != nil {
 		return err
 	}
-	v.matchTokenNext(false, "NOT")
+	if v.matchToken("NOT") && !v.matchFollowingToken("NULL") {
+		v.next()
+		return v.validateToken(false, "ENFORCED")
+	}
 	v.matchTokenNext(false, "ENFORCED")
 	return nil
 }
-- 
2.43.0


From a8b33db4f2ebb47e7a62b3c0db28b125eb67fe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:02 +0000
Subject: [PATCH 05/25] fix: accept NOT NULL after REFERENCES in SQLite

The NOT was always taken for NOT DEFERRABLE.
---
 internal/validator/validator_sqlite.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 0ba0103..47c32ba 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -448,7 +448,7 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 		return v.validateConstraintReferencesAux()
 	}
 
-	if v.matchToken("NOT", "DEFERRABLE") {
+	if v.matchToken("DEFERRABLE") || (v.matchToken("NOT") && !v.matchFollowingToken("NULL")) {
 		v.matchTokenNext(false, "NOT")
 		if err := v.validateToken(false, "DEFERRABLE"); err != nil {
 			return err
-- 
2.43.0


From 30ea12558f400835e2c7c5c6cefc68a23d461618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:03 +0000
Subject: [PATCH 06/25] fix: convert references to a schema qualified table

REFERENCES schema.table stopped at the dot: the schema was reported as
the table and the rest of the clause became extra columns.
---
 internal/converter/converter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index ef745cc..1f9e8ad 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -365,7 +365,7 @@ func (c *converter) convertLiteralValue() interface{} {
 func (c *converter) convertReference() types.Reference {
 	var reference types.Reference
 	c.next() // skip "REFERENCES"
-	reference.TableName = c.convertName()
+	_, reference.TableName = c.convertTableName()
 	if c.matchToken("(") {
 		reference.ColumnNames = c.convertCommaSeparatedColumnNames()
 	}
-- 
2.43.0


From 2f9afc8e6719b2653d76b67cbbd1dd73eccd1183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:04 +0000
Subject: [PATCH 07/25] fix: lex the character after a comment or an operator
 like any other

After a comment (or a single '-', '/' or '*') the next character was
added to a token unseen, so a comment following another comment, as in
two comment lines in a row, was not recognised.
---
 internal/lexer/lexer.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 067a26a..28a337a 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -129,14 +129,7 @@ func (l *lexer) lex() error {
 			if err := l.lexAsterisk(&token); err != nil {
 				return err
 			}
-		}
-
-		if l.isOutOfRange() {
-			break
-		}
-
-		c = l.char()
-		if c == "\"" {
+		} else if c == "\"" {
 			if err := l.lexDoubleQuote(&token); err != nil {
 				return err
 			}
-- 
2.43.0


From ec2ff326832b4adaad0d77c539ccee13fa4f8fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:05 +0000
Subject: [PATCH 08/25] fix: do not skip the character after '*' or '/' in a
 block comment

A comment closed by '**/' was reported as unterminated, and a line break
after '*' or '/' was not counted.
---
 internal/lexer/lexer.go | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 28a337a..92577fe 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -333,25 +333,15 @@ func (l *lexer) skipComment() {
 
 func (l *lexer) skipMultiLineComment() error {
 	l.next()
-	c := ""
 	for !l.isOutOfRange() {
-		c = l.char()
+		c := l.next()
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
-		} else if c == "*" {
-			l.next()
-			if l.char() == "/" {
-				l.next()
-				return nil
-			}
-		} else if c == "/" {
+		} else if c == "*" && l.char() == "/" {
 			l.next()
-			if l.char() == "*" {
-				return l.skipMultiLineComment()
-			}
+			return nil
 		}
-		l.next()
 	}
 	return l.lexError()
 }
-- 
2.43.0


From 052f8a9dcacbfee6b8a0c58ea2e6ca5d4cb1be80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:05 +0000
Subject: [PATCH 09/25] fix: read quoted strings and names up to their own
 closing quote

Other kinds of quotes inside a quoted token were read as nested strings
and the character after them was lost (or the token never ended), line
breaks were dropped from the value, and an escaped quote ended the
token.
---
 internal/lexer/lexer.go | 102 +++++++++-------------------------------
 1 file changed, 21 insertions(+), 81 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 92577fe..9126817 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -348,99 +348,39 @@ func (l *lexer) skipMultiLineComment() error {
 
 
 func (l *lexer) lexStringDoubleQuote() (string, error) {
-	l.next()
-	str := "\""
-	c := ""
-	for !l.isOutOfRange() {
-		c = l.char()
-		if c == "\n" {
-			l.line += 1
-			l.appendToken("\n")
-		} else if c == "\"" {
-			l.next()
-			return str + c, nil
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else {
-			str += c
-		}
-		l.next()
-	}
-	return str, l.lexError()
+	return l.lexString("\"")
 }
 
 
 func (l *lexer) lexStringSingleQuote() (string, error) {
-	l.next()
-	str := "'"
-	c := ""
-	for !l.isOutOfRange() {
-		c = l.char()
-		if c == "\n" {
-			l.line += 1
-			l.appendToken("\n")
-		} else if c == "'" {
-			l.next()
-			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "`" {
-			s, err := l.lexStringBackQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else {
-			str += c
-		}
-		l.next()
-	}
-	return str, l.lexError()
+	return l.lexString("'")
 }
 
 
 func (l *lexer) lexStringBackQuote() (string, error) {
+	return l.lexString("`")
+}
+
+
+// lexString reads up to the closing quote. 
+// A doubled quote (and in MySQL a character after a backslash) does not close it.
+func (l *lexer) lexString(quote string) (string, error) {
+	start := l.i
 	l.next()
-	str := "`"
-	c := ""
 	for !l.isOutOfRange() {
-		c = l.char()
+		c := l.next()
+		if c == "\\" && l.rdbms == common.MySQL && quote != "`" {
+			c = l.next()
+		} else if c == quote {
+			if l.char() != quote {
+				return string(l.ddlr[start:l.i]), nil
+			}
+			l.next()
+		}
 		if c == "\n" {
 			l.line += 1
 			l.appendToken("\n")
-		} else if c == "`" {
-			l.next()
-			return str + c, nil			
-		} else if c == "\"" {
-			s, err := l.lexStringDoubleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else if c == "'" {
-			s, err := l.lexStringSingleQuote()
-			str += s
-			if err != nil {
-				return str, err
-			}
-		} else {
-			str += c
 		}
-		l.next()
 	}
-	return str, l.lexError()
-}
\ No newline at end of file
+	return string(l.ddlr[start:]), l.lexError()
+}
-- 
2.43.0


From 5ef974e4cc4b0350624e2b4c11c028c43967a160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 10/25] fix: count a leading line break in the line of a
 ValidateError

---
 internal/validator/validator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index a3effa0..1c69d05 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -48,6 +48,7 @@ func (v *validator) init(tokens []string) {
 	v.line = 1
 	v.result = []string{}
 	if v.token() == "\n" {
+		v.line += 1
 		v.next()
 	}
 }
-- 
2.43.0


From ed8c1aa7a069087c0b22fc88e6670925b2e8fcaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:07 +0000
Subject: [PATCH 11/25] fix: treat carriage returns as white space

DDL with CRLF line endings was rejected.
---
 internal/lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 9126817..c92f3f3 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -144,7 +144,7 @@ func (l *lexer) lex() error {
 		} else if c == "#" {
 			l.lexSharp(&token)
 
-		} else if c == " " || c == "\t"{
+		} else if c == " " || c == "\t" || c == "\r" {
 			l.lexSpace(&token)
 
 		} else if c == "\n" {
@@ -295,7 +295,7 @@ func (l *lexer) lexEOL(token *string) {
 
 func (l *lexer) lexSpace(token *string) {
 	c := l.char()
-	if c == " " || c == "\t" {
+	if c == " " || c == "\t" || c == "\r" {
 		l.appendToken(*token)
 		*token = ""
 	}
-- 
2.43.0


From 806512060302f5c397cba93b6ba89c8f1f695ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:08 +0000
Subject: [PATCH 12/25] fix: lex '=' as a token of its own

Options such as ENGINE=InnoDB were only recognised with spaces around
the equals sign.
---
 internal/lexer/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index c92f3f3..a03ef42 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -150,7 +150,7 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
-		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
+		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 			l.lexSymbol(&token)
 
 		} else if c == "　" {
@@ -306,7 +306,7 @@ func (l *lexer) lexSpace(token *string) {
 
 func (l *lexer) lexSymbol(token *string) {
 	c := l.char()
-	if c == "(" || c == ")" || c == "," || c == "." || c == ";" {
+	if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 		l.appendToken(*token)
 		l.appendToken(c)
 		*token = ""
-- 
2.43.0


From b17b10d6d585fc9197939a1ebebbe58d28b6a892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:09 +0000
Subject: [PATCH 13/25] fix: lex decimal numbers as one token

The point split the number, so DEFAULT 1.5 was rejected.
---
 internal/lexer/lexer.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index a03ef42..31574d5 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -1,6 +1,8 @@
 package lexer
 
 import (
+	"strconv"
+
 	"github.com/kodaimura/ddlparse/internal/common"
 )
 
@@ -150,6 +152,10 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
+		} else if c == "." && l.isDecimalPoint(token) {
+			token += c
+			l.next()
+
 		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
 			l.lexSymbol(&token)
 
@@ -166,6 +172,15 @@ func (l *lexer) lex() error {
 }
 
 
+// isDecimalPoint checks whether the "." at the current position is inside a number.
+func (l *lexer) isDecimalPoint(token string) bool {
+	if _, err := strconv.Atoi(token); err != nil || l.i + 1 >= l.size {
+		return false
+	}
+	return '0' <= l.ddlr[l.i + 1] && l.ddlr[l.i + 1] <= '9'
+}
+
+
 func (l *lexer) lexHyphen(token *string) error {
 	c := l.char()
 	if c == "-" {
-- 
2.43.0


From 15aad6422949ca0a83e0650afe4eb2f755eeaece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 14/25] fix: do not accept words such as nan and infinity as
 numbers

DEFAULT nan was converted to a NaN, which cannot be encoded as JSON.
---
 internal/common/utils.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/common/utils.go b/internal/common/utils.go
index d823881..0c67f60 100644
--- a/internal/common/utils.go
+++ b/internal/common/utils.go
@@ -1,6 +1,7 @@
 package common
 
 import (
+	"math"
 	"strconv"
 )
 
@@ -52,6 +53,6 @@ func IsPositiveIntegerToken(token string) bool {
 }
 
 func IsNumericToken(token string) bool {
-	_, err := strconv.ParseFloat(token, 64)
-	return err == nil
+	n, err := strconv.ParseFloat(token, 64)
+	return err == nil && !math.IsNaN(n) && !math.IsInf(n, 0)
 }
\ No newline at end of file
-- 
2.43.0


From 5c720019245639225d26db422eb937a58f78e323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:10 +0000
Subject: [PATCH 15/25] fix: accept UNIQUE USING without an index name in MySQL

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 4312c9f..75c28ae 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -799,7 +799,7 @@ func (v *mysqlValidator) validateTableConstraintUnique() error {
 		return err
 	}
 	v.matchTokenNext(false, "INDEX", "KEY")
-	if !v.matchToken("(") {
+	if !v.matchToken("USING") && !v.matchToken("(") {
 		if err := v.validateName(false); err != nil {
 			return err
 		}
-- 
2.43.0


From 1fc4cade40e994685a286efc42599cd40c82596e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:11 +0000
Subject: [PATCH 16/25] fix: accept a final CREATE TABLE without semicolon in
 SQLite

The README documents the semicolon as optional for SQLite.
---
 internal/validator/validator_sqlite.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 47c32ba..58fcac2 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -137,6 +137,9 @@ func (v *sqliteValidator) validateCreateTable() error {
 	if err := v.validateTableDefinition(); err != nil {
 		return err
 	}
+	if v.isOutOfRange() {
+		return nil
+	}
 	if err := v.validateToken(true, ";"); err != nil {
 		return err
 	}
-- 
2.43.0


From 97c767bfac17a521afb9bbb1ea413a8e02cbe834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:12 +0000
Subject: [PATCH 17/25] fix: accept CONSTRAINT name before any constraint of a
 column

The README documents it for each column constraint, but it was only
accepted before the first one. The column keeps the first name. A
constraint named autoincrement or auto_increment is no longer taken for
that option.
---
 internal/converter/converter.go            | 17 +++++++++++------
 internal/validator/validator_mysql.go      | 14 +++++++-------
 internal/validator/validator_postgresql.go | 10 +++++-----
 internal/validator/validator_sqlite.go     | 10 +++++-----
 4 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 1f9e8ad..2298a20 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -248,12 +248,6 @@ func (c *converter) convertTypeDigit() (int, int) {
 
 func (c *converter) convertConstraint() types.Constraint {
 	var constraint types.Constraint
-	if c.matchToken("CONSTRAINT") {
-		c.next() // skip "CONSTRAINT"
-		if (!c.matchToken("PRIMARY", "UNIQUE", "NOT", "AUTOINCREMENT", "AUTO_INCREMENT", "DEFAULT", "CHECK", "REFERENCES", "COLLATE")) {
-			constraint.Name = c.convertName()
-		}
-	}
 	c.convertConstraintAux(&constraint)
 	return constraint
 }
@@ -263,6 +257,17 @@ func (c *converter) convertConstraintAux(constraint *types.Constraint) {
 	if c.matchToken(",", ")") {
 		return
 	}
+	if c.matchToken("CONSTRAINT") {
+		c.next() // skip "CONSTRAINT"
+		if !c.matchToken("CHECK") {
+			name := c.convertName()
+			if constraint.Name == "" {
+				constraint.Name = name
+			}
+		}
+		c.convertConstraintAux(constraint)
+		return
+	}
 	if c.matchToken("PRIMARY") {
 		c.next() // skip "PRIMARY"
 		c.next() // skip "KEY"
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 75c28ae..1a283ec 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -398,13 +398,6 @@ func (v *mysqlValidator) validateColumnType() error {
 
 
 func (v *mysqlValidator) validateColumnConstraints() error {
-	if v.matchTokenNext(true, "CONSTRAINT") {
-		if !v.matchToken("CHECK") {
-			if err := v.validateName(true); err != nil {
-				return err
-			}
-		}
-	}
 	return v.validateColumnConstraintsAux([]string{})
 }
 
@@ -419,6 +412,13 @@ func (v *mysqlValidator) isColumnConstraint(token string) bool {
 
 
 func (v *mysqlValidator) validateColumnConstraintsAux(ls []string) error {
+	if v.matchTokenNext(true, "CONSTRAINT") {
+		if !v.matchToken("CHECK") {
+			if err := v.validateName(true); err != nil {
+				return err
+			}
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 0461cd3..223f8af 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -343,11 +343,6 @@ func (v *postgresqlValidator) validatePositiveInteger() error {
 
 
 func (v *postgresqlValidator) validateColumnConstraints() error {
-	if v.matchTokenNext(true, "CONSTRAINT") {
-		if err := v.validateName(true); err != nil {
-			return err
-		}
-	}
 	return v.validateColumnConstraintsAux([]string{})
 }
 
@@ -361,6 +356,11 @@ func (v *postgresqlValidator) isColumnConstraint(token string) bool {
 
 
 func (v *postgresqlValidator) validateColumnConstraintsAux(ls []string) error {
+	if v.matchTokenNext(true, "CONSTRAINT") {
+		if err := v.validateName(true); err != nil {
+			return err
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 58fcac2..1e40092 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -243,16 +243,16 @@ func (v *sqliteValidator) validateColumnType() error {
 
 
 func (v *sqliteValidator) validateColumnConstraints() error {
-	if v.matchTokenNext(true, "CONSTRAINT") {
-		if err := v.validateName(true); err != nil {
-			return err
-		}
-	}
 	return v.validateColumnConstraintsAux([]string{})
 }
 
 
 func (v *sqliteValidator) validateColumnConstraintsAux(ls []string) error {
+	if v.matchTokenNext(true, "CONSTRAINT") {
+		if err := v.validateName(true); err != nil {
+			return err
+		}
+	}
 	if !v.isColumnConstraint(v.token()) {
 		return nil
 	} 
-- 
2.43.0


From b6b0c90014f92626b4b2a931fac7f05c5818e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:13 +0000
Subject: [PATCH 18/25] fix: accept MATCH with any name in SQLite, as
 documented

---
 internal/validator/validator_sqlite.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index 1e40092..b965914 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -445,8 +445,10 @@ func (v *sqliteValidator) validateConstraintReferencesAux() error {
 	}
 
 	if v.matchTokenNext(false, "MATCH") {
-		if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
-			return err
+		if !v.matchTokenNext(false, "SIMPLE", "PARTIAL", "FULL") {
+			if err := v.validateName(false); err != nil {
+				return err
+			}
 		}
 		return v.validateConstraintReferencesAux()
 	}
-- 
2.43.0


From f2a6428284ef820f47821d7b9aa64bc2360d78ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:14 +0000
Subject: [PATCH 19/25] fix: accept AS (expr) as a column constraint in
 PostgreSQL, as documented

---
 internal/validator/validator_postgresql.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 223f8af..0e384b5 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -561,6 +561,13 @@ func (v *postgresqlValidator) validateConstraintReferencesAux() error {
 
 
 func (v *postgresqlValidator) validateConstraintGenerated() error {
+	if v.matchTokenNext(false, "AS") {
+		if err := v.validateExpr(false); err != nil {
+			return err
+		}
+		v.matchTokenNext(false, "STORED", "VIRTUAL")
+		return nil
+	}
 	if err := v.validateToken(false, "GENERATED"); err != nil {
 		return err
 	}
-- 
2.43.0


From 25aca6016a3e7be7ee2c4c8a36e420f3334a8577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:14 +0000
Subject: [PATCH 20/25] fix: skip nested blocks in statements other than CREATE
 TABLE

The first END, also that of a CASE expression, was taken for the end of
the BEGIN block, and the rest of the body was rejected.
---
 internal/validator/validator.go            | 22 ++++++++++++++++++++
 internal/validator/validator_mysql.go      | 24 +---------------------
 internal/validator/validator_postgresql.go | 24 +---------------------
 internal/validator/validator_sqlite.go     | 24 +---------------------
 4 files changed, 25 insertions(+), 69 deletions(-)

diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 1c69d05..928c7e8 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -145,6 +145,28 @@ func (v *validator) validateToken(set bool, keywords ...string) error {
 }
 
 
+// skipStatement skips to the end of a statement that is not converted.
+// Semicolons inside BEGIN ... END belong to the statement.
+func (v *validator) skipStatement() error {
+	depth := 0
+	for depth > 0 || !v.matchToken(";") {
+		if v.isOutOfRange() {
+			return v.syntaxError()
+		}
+		if v.matchToken("BEGIN") || (depth > 0 && v.matchToken("CASE")) {
+			depth += 1
+		}
+		end := depth > 0 && v.matchToken("END")
+		v.next()
+		if end && !v.matchTokenNext(false, "IF", "LOOP", "WHILE", "REPEAT") {
+			depth -= 1
+			v.matchTokenNext(false, "CASE") // END CASE
+		}
+	}
+	return v.validateToken(false, ";")
+}
+
+
 func (v *validator) validateBrackets(set bool) error {
 	if err := v.validateToken(set, "("); err != nil {
 		return err
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 1a283ec..3d6a48c 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -265,29 +265,7 @@ func (v *mysqlValidator) validateCreateOther() error {
 	); err != nil {
 		return err
 	}
-	begin := false
-	for true {
-		if v.isOutOfRange() {
-			return v.syntaxError()
-		}
-		if v.matchToken("BEGIN") {
-			begin = true
-		}
-		if begin {
-			if v.matchToken("END") {
-				begin = false
-			}
-		} else {
-			if v.matchToken(";") {
-				break
-			}
-		}
-		v.next()
-	}
-	if err := v.validateToken(false, ";"); err != nil {
-		return err
-	}
-	return nil
+	return v.skipStatement()
 }
 
 
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index 0e384b5..dfdd027 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -156,29 +156,7 @@ func (v *postgresqlValidator) validateCreateOther() error {
 	); err != nil {
 		return err
 	}
-	begin := false
-	for true {
-		if v.isOutOfRange() {
-			return v.syntaxError()
-		}
-		if v.matchToken("BEGIN") {
-			begin = true
-		}
-		if begin {
-			if v.matchToken("END") {
-				begin = false
-			}
-		} else {
-			if v.matchToken(";") {
-				break
-			}
-		}
-		v.next()
-	}
-	if err := v.validateToken(false, ";"); err != nil {
-		return err
-	}
-	return nil
+	return v.skipStatement()
 }
 
 
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index b965914..e54c6ec 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -151,29 +151,7 @@ func (v *sqliteValidator) validateCreateOther() error {
 	if err := v.validateToken(false, "VIRTUAL", "VIEW", "TRIGGER", "INDEX", "UNIQUE"); err != nil {
 		return err
 	}
-	begin := false
-	for true {
-		if v.isOutOfRange() {
-			return v.syntaxError()
-		}
-		if v.matchToken("BEGIN") {
-			begin = true
-		}
-		if begin {
-			if v.matchToken("END") {
-				begin = false
-			}
-		} else {
-			if v.matchToken(";") {
-				break
-			}
-		}
-		v.next()
-	}
-	if err := v.validateToken(false, ";"); err != nil {
-		return err
-	}
-	return nil
+	return v.skipStatement()
 }
 
 
-- 
2.43.0


From e36ca460cfe6e345eea164c0f2e819155cc04cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:15 +0000
Subject: [PATCH 21/25] fix: correct the reserved word INFILE of MySQL

---
 internal/validator/validator_mysql.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index 3d6a48c..eae8437 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -1296,7 +1296,7 @@ var ReservedWords_MySQL = []string{
 	"IGNORE",
 	"IN",
 	"INDEX",
-	"INFILEx",
+	"INFILE",
 	"INNER",
 	"INOUT",
 	"INSENSITIVE",
-- 
2.43.0


From 468da844b9220f777b8b8b41a2bbafd5908466ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:17 +0000
Subject: [PATCH 22/25] fix: do not recurse once per token of an expression

A few MB of "(" (or of tokens between brackets) exceeded the stack limit,
which ends the process and cannot be recovered from. The converter also took
time quadratic in the length of the expression.
---
 internal/converter/converter.go | 21 ++++++++---------
 internal/validator/validator.go | 41 +++++++++++----------------------
 2 files changed, 24 insertions(+), 38 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 2298a20..12b11a3 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -330,18 +330,17 @@ func (c *converter) convertDefaultValue() interface{} {
 
 
 func (c *converter) convertExpr() string {
-	return c.next() + c.convertExprAux() + c.next()
-}
-
-
-func (c *converter) convertExprAux() string {
-	if c.matchToken(")") {
-		return ""
-	}
-	if c.matchToken("(") {
-		return c.convertExpr() + c.convertExprAux()
+	var expr strings.Builder
+	expr.WriteString(c.next()) // "("
+	for depth := 1; depth > 0; {
+		if c.matchToken("(") {
+			depth += 1
+		} else if c.matchToken(")") {
+			depth -= 1
+		}
+		expr.WriteString(c.next())
 	}
-	return c.next() + c.convertExprAux()
+	return expr.String()
 }
 
 
diff --git a/internal/validator/validator.go b/internal/validator/validator.go
index 928c7e8..d715ce0 100644
--- a/internal/validator/validator.go
+++ b/internal/validator/validator.go
@@ -171,33 +171,20 @@ func (v *validator) validateBrackets(set bool) error {
 	if err := v.validateToken(set, "("); err != nil {
 		return err
 	}
-	if err := v.validateBracketsAux(set); err != nil {
-		return err
-	}
-	if err := v.validateToken(set, ")"); err != nil {
-		return err
-	}
-	return nil
-}
-
-
-func (v *validator) validateBracketsAux(set bool) error {
-	if v.isOutOfRange() {
-		return v.syntaxError()
-	}
-	if v.matchToken(")") {
-		return nil
-	}
-	if v.matchToken("(") {
-		if err := v.validateBrackets(set); err != nil {
-			return err
+	for depth := 1; depth > 0; {
+		if v.isOutOfRange() {
+			return v.syntaxError()
+		}
+		if v.matchToken("(") {
+			depth += 1
+		} else if v.matchToken(")") {
+			depth -= 1
+		}
+		if set {
+			v.set(v.next())
+		} else {
+			v.next()
 		}
-		return v.validateBracketsAux(set)
-	}
-	if set {
-		v.set(v.next())
-	} else {
-		v.next()
 	}
-	return v.validateBracketsAux(set)
+	return nil
 }
\ No newline at end of file
-- 
2.43.0


From 65837396bc1bd1572b1b42bd4260074840a7e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:07 +0000
Subject: [PATCH 23/25] fix: lex decimal numbers with a long integer part as
 one token

The integer part was only recognised when it fits in an int.
---
 internal/lexer/lexer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index 31574d5..f188a3b 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -1,7 +1,7 @@
 package lexer
 
 import (
-	"strconv"
+	"strings"
 
 	"github.com/kodaimura/ddlparse/internal/common"
 )
@@ -174,10 +174,11 @@ func (l *lexer) lex() error {
 
 // isDecimalPoint checks whether the "." at the current position is inside a number.
 func (l *lexer) isDecimalPoint(token string) bool {
-	if _, err := strconv.Atoi(token); err != nil || l.i + 1 >= l.size {
+	digits := strings.TrimLeft(token, "+-")
+	if len(token) - len(digits) > 1 || digits == "" || strings.Trim(digits, "0123456789") != "" {
 		return false
 	}
-	return '0' <= l.ddlr[l.i + 1] && l.ddlr[l.i + 1] <= '9'
+	return l.i + 1 < l.size && '0' <= l.ddlr[l.i + 1] && l.ddlr[l.i + 1] <= '9'
 }
 
 
-- 
2.43.0


From 0bf2f9d01e3be829bf3d9290f6ed64d2fb311130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:35 +0000
Subject: [PATCH 24/25] fix: do not recurse once per statement, column, list
 entry or option

---
 internal/converter/converter.go            |   5 +-
 internal/validator/validator_mysql.go      | 206 +++++++++++----------
 internal/validator/validator_postgresql.go |  99 +++++-----
 internal/validator/validator_sqlite.go     | 103 ++++++-----
 4 files changed, 208 insertions(+), 205 deletions(-)

diff --git a/internal/converter/converter.go b/internal/converter/converter.go
index 12b11a3..d6d91fd 100644
--- a/internal/converter/converter.go
+++ b/internal/converter/converter.go
@@ -114,13 +114,10 @@ func (c *converter) isStringValue(token string) bool {
 
 
 func (c *converter) convert() {
-	if c.isOutOfRange() {
-		return
-	} else {
+	for !c.isOutOfRange() {
 		table := c.convertTable()
 		c.result = append(c.result, table)
 	}
-	c.convert()
 }
 
 
diff --git a/internal/validator/validator_mysql.go b/internal/validator/validator_mysql.go
index eae8437..378d7ec 100644
--- a/internal/validator/validator_mysql.go
+++ b/internal/validator/validator_mysql.go
@@ -26,13 +26,12 @@ func (v *mysqlValidator) Validate(tokens []string) ([]string, error) {
 
 
 func (v *mysqlValidator) validate() error {
-	if (v.isOutOfRange()) {
-		return nil
-	}
-	if err := v.validateDdl(); err != nil {
-		return err
+	for !v.isOutOfRange() {
+		if err := v.validateDdl(); err != nil {
+			return err
+		}
 	}
-	return v.validate()
+	return nil
 }
 
 
@@ -200,23 +199,25 @@ func (v *mysqlValidator) validateIndexKeys(set bool) error {
 }
 
 func (v *mysqlValidator) validateIndexKeysAux(set bool) error {
-	if v.matchToken("(") {
-		if err := v.validateExpr(false); err != nil {
-			return err
-		}
-	} else {
-		if err := v.validateName(set); err != nil {
-			return err
+	for {
+		if v.matchToken("(") {
+			if err := v.validateExpr(false); err != nil {
+				return err
+			}
+		} else {
+			if err := v.validateName(set); err != nil {
+				return err
+			}
+			if err := v.validateTypeDigitN(false); err != nil {
+				return err
+			}
 		}
-		if err := v.validateTypeDigitN(false); err != nil {
-			return err
+		v.matchTokenNext(false, "ASC", "DESC")
+		if v.matchTokenNext(set, ",") {
+			continue
 		}
+		return nil
 	}
-	v.matchTokenNext(false, "ASC", "DESC")
-	if v.matchTokenNext(set, ",") {
-		return v.validateIndexKeysAux(set)
-	}
-	return nil
 }
 
 
@@ -300,13 +301,14 @@ func (v *mysqlValidator) validateTableDefinition() error {
 
 
 func (v *mysqlValidator) validateColumnDefinitions() error {
-	if err := v.validateColumnDefinition(); err != nil {
-		return err
-	}
-	if v.matchTokenNext(true, ",") {
-		return v.validateColumnDefinitions()
+	for {
+		if err := v.validateColumnDefinition(); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(true, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
@@ -602,34 +604,36 @@ func (v *mysqlValidator) validateConstraintReferences() error {
 
 
 func (v *mysqlValidator) validateConstraintReferencesAux() error {
-	if v.matchTokenNext(false, "ON") {
-		if err := v.validateToken(false, "DELETE", "UPDATE"); err != nil {
-			return err
-		}
-		if v.matchTokenNext(false, "SET") {
-			if err := v.validateToken(false, "NULL", "DEFAULT"); err != nil {
+	for {
+		if v.matchTokenNext(false, "ON") {
+			if err := v.validateToken(false, "DELETE", "UPDATE"); err != nil {
 				return err
 			}
-		} else if v.matchTokenNext(false, "CASCADE", "RESTRICT") {
+			if v.matchTokenNext(false, "SET") {
+				if err := v.validateToken(false, "NULL", "DEFAULT"); err != nil {
+					return err
+				}
+			} else if v.matchTokenNext(false, "CASCADE", "RESTRICT") {
+
+			} else if v.matchTokenNext(false, "NO") {
+				if err := v.validateToken(false, "ACTION"); err != nil {
+					return err
+				}
+			} else {
+				return v.syntaxError()
+			}
+			continue
+		}
 
-		} else if v.matchTokenNext(false, "NO") {
-			if err := v.validateToken(false, "ACTION"); err != nil {
+		if v.matchTokenNext(false, "MATCH") {
+			if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
 				return err
 			}
-		} else {
-			return v.syntaxError()
+			continue
 		}
-		return v.validateConstraintReferencesAux()
-	}
 
-	if v.matchTokenNext(false, "MATCH") {
-		if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
-			return err
-		}
-		return v.validateConstraintReferencesAux()
+		return nil
 	}
-
-	return nil
 }
 
 
@@ -875,83 +879,83 @@ func (v *mysqlValidator) validateIndexType() error {
 
 
 func (v *mysqlValidator) validateIndexOption() error {
-	if v.matchTokenNext(false, "KEY_BLOCK_SIZE") {
-		v.matchTokenNext(false, "=")
-		if err := v.validateLiteralValue(false); err != nil {
-			return err
-		}
-		return v.validateIndexOption()
+	for {
+		if v.matchTokenNext(false, "KEY_BLOCK_SIZE") {
+			v.matchTokenNext(false, "=")
+			if err := v.validateLiteralValue(false); err != nil {
+				return err
+			}
+			continue
 
-	} else if v.matchToken("USING") {
-		if err := v.validateIndexType(); err != nil {
-			return err
-		}
-		return v.validateIndexOption()
+		} else if v.matchToken("USING") {
+			if err := v.validateIndexType(); err != nil {
+				return err
+			}
+			continue
 		
-	} else if v.matchTokenNext(false, "WITH") {
-		if err := v.validateToken(false, "PARSER"); err != nil {
-			return err
-		}
-		if err := v.validateName(false); err != nil {
-			return err
-		}
-		return v.validateIndexOption()
+		} else if v.matchTokenNext(false, "WITH") {
+			if err := v.validateToken(false, "PARSER"); err != nil {
+				return err
+			}
+			if err := v.validateName(false); err != nil {
+				return err
+			}
+			continue
 
-	} else if v.matchTokenNext(false, "COMMENT") {
-		if err := v.validateStringValue(false); err != nil {
-			return err
-		}
-		return v.validateIndexOption()
+		} else if v.matchTokenNext(false, "COMMENT") {
+			if err := v.validateStringValue(false); err != nil {
+				return err
+			}
+			continue
 
-	} else if v.matchTokenNext(false, "VISIBLE", "INVISIBLE") {
-		return v.validateIndexOption()
+		} else if v.matchTokenNext(false, "VISIBLE", "INVISIBLE") {
+			continue
 
-	} else if v.matchTokenNext(false, "ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE") {
-		v.matchTokenNext(false, "=")
-		if err := v.validateStringValue(false); err != nil {
-			return err
+		} else if v.matchTokenNext(false, "ENGINE_ATTRIBUTE", "SECONDARY_ENGINE_ATTRIBUTE") {
+			v.matchTokenNext(false, "=")
+			if err := v.validateStringValue(false); err != nil {
+				return err
+			}
+			continue
 		}
-		return v.validateIndexOption()
-	}
 
-	return nil
+		return nil
+	}
 }
 
 
 func (v *mysqlValidator) validateCommaSeparatedColumnNames(set bool) error {
-	if err := v.validateColumnName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedColumnNames(set)
+	for {
+		if err := v.validateColumnName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
 func (v *mysqlValidator) validateCommaSeparatedTableNames(set bool) error {
-	if err := v.validateTableName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedTableNames(set)
+	for {
+		if err := v.validateTableName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
 func (v *mysqlValidator) validateTableOptions() error {
-	if (v.isOutOfRange()) {
-		return nil
-	}
-	if v.matchToken(";") {
-		return nil
-	}
-	v.matchTokenNext(false, ",")
-	if err := v.validateTableOption(); err != nil {
-		return err
+	for !v.isOutOfRange() && !v.matchToken(";") {
+		v.matchTokenNext(false, ",")
+		if err := v.validateTableOption(); err != nil {
+			return err
+		}
 	}
-	return v.validateTableOptions()
+	return nil
 }
 
 
diff --git a/internal/validator/validator_postgresql.go b/internal/validator/validator_postgresql.go
index dfdd027..0ef8bcd 100644
--- a/internal/validator/validator_postgresql.go
+++ b/internal/validator/validator_postgresql.go
@@ -26,13 +26,12 @@ func (v *postgresqlValidator) Validate(tokens []string) ([]string, error) {
 
 
 func (v *postgresqlValidator) validate() error {
-	if (v.isOutOfRange()) {
-		return nil
-	}
-	if err := v.validateDdl(); err != nil {
-		return err
+	for !v.isOutOfRange() {
+		if err := v.validateDdl(); err != nil {
+			return err
+		}
 	}
-	return v.validate()
+	return nil
 }
 
 
@@ -99,13 +98,14 @@ func (v *postgresqlValidator) validateExpr(set bool) error {
 
 
 func (v *postgresqlValidator) validateCommaSeparatedColumnNames(set bool) error {
-	if err := v.validateColumnName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedColumnNames(set)
+	for {
+		if err := v.validateColumnName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
@@ -191,13 +191,14 @@ func (v *postgresqlValidator) validateTableDefinition() error {
 
 
 func (v *postgresqlValidator) validateColumnDefinitions() error {
-	if err := v.validateColumnDefinition(); err != nil {
-		return err
-	}
-	if v.matchTokenNext(true, ",") {
-		return v.validateColumnDefinitions()
+	for {
+		if err := v.validateColumnDefinition(); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(true, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
@@ -507,34 +508,36 @@ func (v *postgresqlValidator) validateConstraintReferences() error {
 
 
 func (v *postgresqlValidator) validateConstraintReferencesAux() error {
-	if v.matchTokenNext(false, "ON") {
-		if err := v.validateToken(false, "DELETE", "UPDATE"); err != nil {
-			return err
-		}
-		if v.matchTokenNext(false, "SET") {
-			if err := v.validateToken(false, "NULL", "DEFAULT"); err != nil {
+	for {
+		if v.matchTokenNext(false, "ON") {
+			if err := v.validateToken(false, "DELETE", "UPDATE"); err != nil {
 				return err
 			}
-		} else if v.matchTokenNext(false, "CASCADE", "RESTRICT") {
+			if v.matchTokenNext(false, "SET") {
+				if err := v.validateToken(false, "NULL", "DEFAULT"); err != nil {
+					return err
+				}
+			} else if v.matchTokenNext(false, "CASCADE", "RESTRICT") {
+
+			} else if v.matchTokenNext(false, "NO") {
+				if err := v.validateToken(false, "ACTION"); err != nil {
+					return err
+				}
+			} else {
+				return v.syntaxError()
+			}
+			continue
+		}
 
-		} else if v.matchTokenNext(false, "NO") {
-			if err := v.validateToken(false, "ACTION"); err != nil {
+		if v.matchTokenNext(false, "MATCH") {
+			if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
 				return err
 			}
-		} else {
-			return v.syntaxError()
+			continue
 		}
-		return v.validateConstraintReferencesAux()
-	}
 
-	if v.matchTokenNext(false, "MATCH") {
-		if err := v.validateToken(false, "SIMPLE", "PARTIAL", "FULL"); err != nil {
-			return err
-		}
-		return v.validateConstraintReferencesAux()
+		return nil
 	}
-
-	return nil
 }
 
 
@@ -786,19 +789,15 @@ func (v *postgresqlValidator) validateTableConstraintExclude() error {
 
 
 func (v *postgresqlValidator) validateTableOptions() error {
-	if (v.isOutOfRange()) {
-		return nil
-	}
-	if v.matchToken(";") {
-		return nil
-	}
-	if v.matchToken(",") {
-		v.next()
-	}
-	if err := v.validateTableOption(); err != nil {
-		return err
+	for !v.isOutOfRange() && !v.matchToken(";") {
+		if v.matchToken(",") {
+			v.next()
+		}
+		if err := v.validateTableOption(); err != nil {
+			return err
+		}
 	}
-	return v.validateTableOptions()
+	return nil
 }
 
 
diff --git a/internal/validator/validator_sqlite.go b/internal/validator/validator_sqlite.go
index e54c6ec..ed84651 100644
--- a/internal/validator/validator_sqlite.go
+++ b/internal/validator/validator_sqlite.go
@@ -26,13 +26,12 @@ func (v *sqliteValidator) Validate(tokens []string) ([]string, error) {
 
 
 func (v *sqliteValidator) validate() error {
-	if (v.isOutOfRange()) {
-		return nil
-	}
-	if err := v.validateDdl(); err != nil {
-		return err
+	for !v.isOutOfRange() {
+		if err := v.validateDdl(); err != nil {
+			return err
+		}
 	}
-	return v.validate()
+	return nil
 }
 
 
@@ -90,13 +89,14 @@ func (v *sqliteValidator) validateColumnName(set bool) error {
 
 
 func (v *sqliteValidator) validateCommaSeparatedColumnNames(set bool) error {
-	if err := v.validateColumnName(set); err != nil {
-		return err
-	}
-	if v.matchTokenNext(set, ",") {
-		return v.validateCommaSeparatedColumnNames(set)
+	for {
+		if err := v.validateColumnName(set); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(set, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
@@ -186,13 +186,14 @@ func (v *sqliteValidator) validateTableDefinition() error {
 
 
 func (v *sqliteValidator) validateColumnDefinitions() error {
-	if err := v.validateColumnDefinition(); err != nil {
-		return err
-	}
-	if v.matchTokenNext(true, ",") {
-		return v.validateColumnDefinitions()
+	for {
+		if err := v.validateColumnDefinition(); err != nil {
+			return err
+		}
+		if !v.matchTokenNext(true, ",") {
+			return nil
+		}
 	}
-	return nil
 }
 
 
@@ -402,49 +403,51 @@ func (v *sqliteValidator) validateConstraintReferences() error {
 
 
 func (v *sqliteValidator) validateConstraintReferencesAux() error {
-	if v.matchTokenNext(false, "ON") {
-		if !v.matchTokenNext(false, "DELETE", "UPDATE") {
-			return v.syntaxError()
-		}
-		if v.matchTokenNext(false, "SET") {
-			if err := v.validateToken(false, "NULL", "DEFAULT"); err != nil {
-				return err
+	for {
+		if v.matchTokenNext(false, "ON") {
+			if !v.matchTokenNext(false, "DELETE", "UPDATE") {
+				return v.syntaxError()
 			}
-		} else if v.matchTokenNext(false, "CASCADE", "RESTRICT") {
-
-		} else if v.matchTokenNext(false, "NO") {
-			if err := v.validateToken(false, "ACTION"); err != nil {
-				return err
+			if v.matchTokenNext(false, "SET") {
+				if err := v.validateToken(false, "NULL", "DEFAULT"); err != nil {
+					return err
+				}
+			} else if v.matchTokenNext(false, "CASCADE", "RESTRICT") {
+
+			} else if v.matchTokenNext(false, "NO") {
+				if err := v.validateToken(false, "ACTION"); err != nil {
+					return err
+				}
+			} else {
+				return v.syntaxError()
 			}
-		} else {
-			return v.syntaxError()
+			continue
 		}
-		return v.validateConstraintReferencesAux()
-	}
 
-	if v.matchTokenNext(false, "MATCH") {
-		if !v.matchTokenNext(false, "SIMPLE", "PARTIAL", "FULL") {
-			if err := v.validateName(false); err != nil {
-				return err
+		if v.matchTokenNext(false, "MATCH") {
+			if !v.matchTokenNext(false, "SIMPLE", "PARTIAL", "FULL") {
+				if err := v.validateName(false); err != nil {
+					return err
+				}
 			}
+			continue
 		}
-		return v.validateConstraintReferencesAux()
-	}
 
-	if v.matchToken("DEFERRABLE") || (v.matchToken("NOT") && !v.matchFollowingToken("NULL")) {
-		v.matchTokenNext(false, "NOT")
-		if err := v.validateToken(false, "DEFERRABLE"); err != nil {
-			return err
-		}
-		if v.matchTokenNext(false, "INITIALLY") {
-			if err := v.validateToken(false, "DEFERRED", "IMMEDIATE"); err != nil {
+		if v.matchToken("DEFERRABLE") || (v.matchToken("NOT") && !v.matchFollowingToken("NULL")) {
+			v.matchTokenNext(false, "NOT")
+			if err := v.validateToken(false, "DEFERRABLE"); err != nil {
 				return err
 			}
+			if v.matchTokenNext(false, "INITIALLY") {
+				if err := v.validateToken(false, "DEFERRED", "IMMEDIATE"); err != nil {
+					return err
+				}
+			}
+			continue
 		}
-		return v.validateConstraintReferencesAux()
-	}
 
-	return nil
+		return nil
+	}
 }
 
 
-- 
2.43.0


From ec4f6070703ab4aed533ac956ad9462c3bc87e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:28 +0000
Subject: [PATCH 25/25] fix: collect the characters of a word without copying
 it for each one

The lexer appended every character of a word to a string, so the memory and
time it needed grew with the square of the length: the 256 KB of
"check(x+x+x+...)" allocated 35 GB.
---
 internal/lexer/lexer.go | 74 ++++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/internal/lexer/lexer.go b/internal/lexer/lexer.go
index f188a3b..5e8c5a7 100644
--- a/internal/lexer/lexer.go
+++ b/internal/lexer/lexer.go
@@ -115,7 +115,7 @@ func (l *lexer) lexError() error {
 
 
 func (l *lexer) lex() error {
-	token := ""
+	var token strings.Builder
 	for l.size > l.i {
 		c := l.char()
 
@@ -152,8 +152,8 @@ func (l *lexer) lex() error {
 		} else if c == "\n" {
 			l.lexEOL(&token)
 
-		} else if c == "." && l.isDecimalPoint(token) {
-			token += c
+		} else if c == "." && l.isDecimalPoint(token.String()) {
+			token.WriteString(c)
 			l.next()
 
 		} else if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
@@ -163,11 +163,11 @@ func (l *lexer) lex() error {
 			return l.lexError()
 
 		} else {
-			token += c
+			token.WriteString(c)
 			l.next()
 		}
 	}
-	l.appendToken(token)
+	l.appendToken(token.String())
 	return nil
 }
 
@@ -182,16 +182,16 @@ func (l *lexer) isDecimalPoint(token string) bool {
 }
 
 
-func (l *lexer) lexHyphen(token *string) error {
+func (l *lexer) lexHyphen(token *strings.Builder) error {
 	c := l.char()
 	if c == "-" {
 		l.next()
 		if l.char() == "-" {
-			l.appendToken(*token)
-			*token = ""
+			l.appendToken(token.String())
+			token.Reset()
 			l.skipComment()
 		} else {
-			*token += c
+			token.WriteString(c)
 		}
 	}
 
@@ -199,25 +199,25 @@ func (l *lexer) lexHyphen(token *string) error {
 }
 
 
-func (l *lexer) lexSlash(token *string) error {
+func (l *lexer) lexSlash(token *strings.Builder) error {
 	c := l.char()
 	if c == "/" {
 		l.next()
 		if l.char() == "*" {
-			l.appendToken(*token)
-			*token = ""
+			l.appendToken(token.String())
+			token.Reset()
 			if err := l.skipMultiLineComment(); err != nil {
 				return err
 			}
 		} else {
-			*token += c
+			token.WriteString(c)
 		}
 	}
 	return nil
 }
 
 
-func (l *lexer) lexAsterisk(token *string) error {
+func (l *lexer) lexAsterisk(token *strings.Builder) error {
 	c := l.char()
 	if c == "*" {
 		l.next()
@@ -225,18 +225,18 @@ func (l *lexer) lexAsterisk(token *string) error {
 			l.i -= 1
 			return l.lexError()
 		} else {
-			*token += c
+			token.WriteString(c)
 		}
 	} 
 	return nil
 }
 
 
-func (l *lexer) lexDoubleQuote(token *string) error {
+func (l *lexer) lexDoubleQuote(token *strings.Builder) error {
 	c := l.char()
 	if c == "\"" {
-		l.appendToken(*token)
-		*token = ""
+		l.appendToken(token.String())
+		token.Reset()
 		str, err := l.lexStringDoubleQuote()
 		if err != nil {
 			return err
@@ -247,11 +247,11 @@ func (l *lexer) lexDoubleQuote(token *string) error {
 }
 
 
-func (l *lexer) lexSingleQuote(token *string) error {
+func (l *lexer) lexSingleQuote(token *strings.Builder) error {
 	c := l.char()
 	if c == "'" {
-		l.appendToken(*token)
-		*token = ""
+		l.appendToken(token.String())
+		token.Reset()
 		str, err := l.lexStringSingleQuote()
 		if err != nil {
 			return err
@@ -262,14 +262,14 @@ func (l *lexer) lexSingleQuote(token *string) error {
 }
 
 
-func (l *lexer) lexBackQuote(token *string) error {
+func (l *lexer) lexBackQuote(token *strings.Builder) error {
 	if l.rdbms == common.PostgreSQL {
 		return l.lexError()
 	}
 	c := l.char()
 	if c == "`" {
-		l.appendToken(*token)
-		*token = ""
+		l.appendToken(token.String())
+		token.Reset()
 		str, err := l.lexStringBackQuote()
 		if err != nil {
 			return err
@@ -280,15 +280,15 @@ func (l *lexer) lexBackQuote(token *string) error {
 }
 
 
-func (l *lexer) lexSharp(token *string) {
+func (l *lexer) lexSharp(token *strings.Builder) {
 	c := l.char()
 	if c == "#" {
 		if l.rdbms == common.MySQL {
-			l.appendToken(*token)
-			*token = ""
+			l.appendToken(token.String())
+			token.Reset()
 			l.skipComment()
 		} else {
-			*token += c
+			token.WriteString(c)
 			l.next()
 		}
 	}
@@ -296,36 +296,36 @@ func (l *lexer) lexSharp(token *string) {
 }
 
 
-func (l *lexer) lexEOL(token *string) {
+func (l *lexer) lexEOL(token *strings.Builder) {
 	c := l.char()
 	if c == "\n" {
 		l.line += 1
-		l.appendToken(*token)
+		l.appendToken(token.String())
 		l.appendToken(c)
-		*token = ""
+		token.Reset()
 	}
 	l.next()
 	return
 }
 
 
-func (l *lexer) lexSpace(token *string) {
+func (l *lexer) lexSpace(token *strings.Builder) {
 	c := l.char()
 	if c == " " || c == "\t" || c == "\r" {
-		l.appendToken(*token)
-		*token = ""
+		l.appendToken(token.String())
+		token.Reset()
 	}
 	l.next()
 	return
 }
 
 
-func (l *lexer) lexSymbol(token *string) {
+func (l *lexer) lexSymbol(token *strings.Builder) {
 	c := l.char()
 	if c == "(" || c == ")" || c == "," || c == "." || c == ";" || c == "=" {
-		l.appendToken(*token)
+		l.appendToken(token.String())
 		l.appendToken(c)
-		*token = ""
+		token.Reset()
 	}
 	l.next()
 	return
-- 
2.43.0


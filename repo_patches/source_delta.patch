From 0ef78220cde2ed9ce411a99ab077759b3ecc57a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:02 +0000
Subject: [PATCH 01/24] fix: record a top-level empty statement once, with its
 inline comment

A ';' at file level appended the statement and then a nil one, and
dereferenced nil when a comment followed on the line.
---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index e7f9718..9b9999b 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -165,7 +165,7 @@ func (p *Parser) parseProtoBody() ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
-			protoBody = append(protoBody, &EmptyStatement{})
+			stmt = &EmptyStatement{}
 		}
 
 		p.MaybeScanInlineComment(stmt)
-- 
2.43.0


From 02180207ce36f8d587e6bbaa4c6b8eae37b74234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:06 +0000
Subject: [PATCH 02/24] fix: keep every character when merging adjacent string
 literals

Trimming quotes also removed escaped quotes at the edge of a piece and did
not strip the quotes of a piece written in the other style.
---
 lexer/constant.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index 938d842..7ca8e4d 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -48,18 +48,33 @@ func (lex *Lexer) ReadConstant(permissive bool) (string, scanner.Position, error
 
 // Merges a multiline string literal into a single string.
 func (lex *Lexer) mergeMultilineStrLit() string {
-	q := "'"
-	if strings.HasPrefix(lex.Text, "\"") {
-		q = "\""
-	}
+	q := lex.Text[:1]
 	var b strings.Builder
 	b.WriteString(q)
 	for lex.Token == scanner.TSTRLIT {
-		strippedString := strings.Trim(lex.Text, q)
-		b.WriteString(strippedString)
+		// strips just the enclosing quotes, not the escaped ones next to them.
+		content := lex.Text[1 : len(lex.Text)-1]
+		if lex.Text[:1] != q {
+			content = escapeQuote(content, q)
+		}
+		b.WriteString(content)
 		lex.NextLit()
 	}
 	lex.UnNext()
 	b.WriteString(q)
 	return b.String()
 }
+
+// escapeQuote escapes q, which the given content of a string literal includes as it is.
+func escapeQuote(content string, q string) string {
+	var b strings.Builder
+	escaped := false
+	for _, r := range content {
+		if !escaped && string(r) == q {
+			b.WriteByte('\\')
+		}
+		escaped = !escaped && r == '\\'
+		b.WriteRune(r)
+	}
+	return b.String()
+}
-- 
2.43.0


From 019a6daefb96b5daeaae8ce02265805d1df79863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:10 +0000
Subject: [PATCH 03/24] fix: require the closing bracket of a list option value

Any token was taken for the closing bracket and dropped.
---
 parser/option.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/option.go b/parser/option.go
index 50dc670..21ee474 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -265,6 +265,9 @@ func (p *Parser) parseOptionConstant() (constant string, err error) {
 			return "", err
 		}
 		p.lex.Next()
+		if p.lex.Token != scanner.TRIGHTSQUARE {
+			return "", p.unexpected("]")
+		}
 		constant = "[" + constant + "]"
 
 	default:
-- 
2.43.0


From 1a7fcc17a7f2ccf808b50e71805892a6fcfaaad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:34 +0000
Subject: [PATCH 04/24] fix: keep the comments of an empty message or extend
 body

The shortcut for an empty body dropped the comment behind the left curly and
the comments inside the body.
---
 parser/extend.go  | 17 -----------------
 parser/message.go | 17 -----------------
 2 files changed, 34 deletions(-)

diff --git a/parser/extend.go b/parser/extend.go
index e9ea942..7b00021 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -109,23 +109,6 @@ func (p *Parser) parseExtendBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
diff --git a/parser/message.go b/parser/message.go
index 18a61c2..551a849 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -111,23 +111,6 @@ func (p *Parser) parseMessageBody() (
 
 	inlineLeftCurly := p.parseInlineComment()
 
-	// Parses emptyBody. This spec is not documented, but allowed in general. {
-	p.lex.Next()
-	if p.lex.Token == scanner.TRIGHTCURLY {
-		lastPos := p.lex.Pos
-		if p.permissive {
-			// accept a block followed by semicolon. See https://github.com/yoheimuta/go-protoparser/v4/issues/30.
-			p.lex.ConsumeToken(scanner.TSEMICOLON)
-			if p.lex.Token == scanner.TSEMICOLON {
-				lastPos = p.lex.Pos
-			}
-		}
-
-		return nil, nil, lastPos, nil
-	}
-	p.lex.UnNext()
-	// }
-
 	var stmts []Visitee
 
 	for {
-- 
2.43.0


From 522d280fbfb736c58956a5e7328c20046e7baf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:37 +0000
Subject: [PATCH 05/24] fix: give the comments at the top of a file to the
 element they precede

They were lost when the file has neither syntax nor edition, and the edition
got the comments of the syntax instead of its own.
---
 parser/proto.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/parser/proto.go b/parser/proto.go
index 9b9999b..8ddeb13 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -48,6 +48,7 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if syntax != nil {
 		syntax.Comments = comments
 		p.MaybeScanInlineComment(syntax)
+		comments = p.ParseComments()
 	}
 
 	edition, err := p.ParseEdition()
@@ -57,9 +58,10 @@ func (p *Parser) ParseProto() (*Proto, error) {
 	if edition != nil {
 		edition.Comments = comments
 		p.MaybeScanInlineComment(edition)
+		comments = nil
 	}
 
-	protoBody, err := p.parseProtoBody()
+	protoBody, err := p.parseProtoBody(comments)
 	if err != nil {
 		return nil, err
 	}
@@ -86,11 +88,13 @@ func (p *Parser) parseBOM() {
 // protoBody = { import | package | option | topLevelDef | emptyStatement }
 // topLevelDef = message | enum | service | extend
 // See https://developers.google.com/protocol-buffers/docs/reference/proto3-spec#proto_file
-func (p *Parser) parseProtoBody() ([]Visitee, error) {
+// leadingComments are the already scanned ones placed before the body.
+func (p *Parser) parseProtoBody(leadingComments []*Comment) ([]Visitee, error) {
 	var protoBody []Visitee
 
 	for {
-		comments := p.ParseComments()
+		comments := append(leadingComments, p.ParseComments()...)
+		leadingComments = nil
 
 		if p.IsEOF() {
 			if p.bodyIncludingComments {
-- 
2.43.0


From 4b593e1d8fd6b9ec65b95d5a2f451be70bf64616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:16 +0000
Subject: [PATCH 06/24] fix: do not read an incomplete field as an empty
 statement

When a field, group or enum field failed at a semicolon, that semicolon was
taken for an empty statement and the rest of the field was dropped silently.
---
 parser/enum.go    | 15 +++++++--------
 parser/extend.go  | 15 +++++++--------
 parser/message.go | 16 +++++++---------
 3 files changed, 21 insertions(+), 25 deletions(-)

diff --git a/parser/enum.go b/parser/enum.go
index 3cf07fa..776f56c 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -197,6 +197,12 @@ func (p *Parser) parseEnumBody() (
 			}
 			reserved.Comments = comments
 			stmt = reserved
+		case scanner.TSEMICOLON:
+			err := p.lex.ReadEmptyStatement()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
+			}
+			stmt = &EmptyStatement{}
 		default:
 			enumField, enumFieldErr := p.parseEnumField()
 			if enumFieldErr == nil {
@@ -204,17 +210,10 @@ func (p *Parser) parseEnumBody() (
 				stmt = enumField
 				break
 			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
-			}
 
 			return nil, nil, scanner.Position{}, &parseEnumBodyStatementErr{
 				parseEnumFieldErr:      enumFieldErr,
-				parseEmptyStatementErr: emptyErr,
+				parseEmptyStatementErr: p.unexpected(";"),
 			}
 		}
 
diff --git a/parser/extend.go b/parser/extend.go
index 7b00021..38d590e 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -141,6 +141,12 @@ func (p *Parser) parseExtendBody() (
 				}
 			}
 			return stmts, inlineLeftCurly, lastPos, nil
+		case scanner.TSEMICOLON:
+			err := p.lex.ReadEmptyStatement()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
+			}
+			stmt = &EmptyStatement{}
 		default:
 			field, fieldErr := p.ParseField()
 			if fieldErr == nil {
@@ -148,17 +154,10 @@ func (p *Parser) parseExtendBody() (
 				stmt = field
 				break
 			}
-			p.lex.UnNext()
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
-			}
 
 			return nil, nil, scanner.Position{}, &parseExtendBodyStatementErr{
 				parseFieldErr:          fieldErr,
-				parseEmptyStatementErr: emptyErr,
+				parseEmptyStatementErr: p.unexpected(";"),
 			}
 		}
 
diff --git a/parser/message.go b/parser/message.go
index 551a849..45332d4 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -199,6 +199,12 @@ func (p *Parser) parseMessageBody() (
 			}
 			extensions.Comments = comments
 			stmt = extensions
+		case scanner.TSEMICOLON:
+			err := p.lex.ReadEmptyStatement()
+			if err != nil {
+				return nil, nil, scanner.Position{}, err
+			}
+			stmt = &EmptyStatement{}
 		default:
 			var ferr error
 			isGroup := p.peekIsGroup()
@@ -210,7 +216,6 @@ func (p *Parser) parseMessageBody() (
 					break
 				}
 				ferr = groupErr
-				p.lex.UnNext()
 			} else {
 				field, fieldErr := p.ParseField()
 				if fieldErr == nil {
@@ -219,18 +224,11 @@ func (p *Parser) parseMessageBody() (
 					break
 				}
 				ferr = fieldErr
-				p.lex.UnNext()
-			}
-
-			emptyErr := p.lex.ReadEmptyStatement()
-			if emptyErr == nil {
-				stmt = &EmptyStatement{}
-				break
 			}
 
 			return nil, nil, scanner.Position{}, &parseMessageBodyStatementErr{
 				parseFieldErr:          ferr,
-				parseEmptyStatementErr: emptyErr,
+				parseEmptyStatementErr: p.unexpected(";"),
 			}
 		}
 
-- 
2.43.0


From ddec3b8408c394bf44b86e8504d18fe283111baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:20 +0000
Subject: [PATCH 07/24] fix: reject a reserved statement mixing ranges and
 field names

When a later range failed, parsing went on with field names from there and the
ranges read so far were dropped.
---
 parser/reserved.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/reserved.go b/parser/reserved.go
index 8ec924b..10f5e0d 100644
--- a/parser/reserved.go
+++ b/parser/reserved.go
@@ -70,10 +70,18 @@ func (p *Parser) ParseReserved() (*Reserved, error) {
 	startPos := p.lex.Pos
 
 	parse := func() ([]*Range, []string, error) {
+		p.lex.NextNumberLit()
+		isRanges := p.lex.Token == scanner.TINTLIT
+		p.lex.UnNext()
+
 		ranges, err := p.parseRanges()
 		if err == nil {
 			return ranges, nil, nil
 		}
+		if isRanges {
+			// the field names must not replace the ranges read so far.
+			return nil, nil, err
+		}
 
 		fieldNames, ferr := p.parseFieldNames()
 		if ferr == nil {
-- 
2.43.0


From 4ab85582839d0c8dab80b4dbfb2aaa2e81cfc7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:50 +0000
Subject: [PATCH 08/24] fix: accept an empty oneof and an empty statement at
 the end of a oneof

The closing curly was looked for just behind a field or an option, although
the body may have no statement and an empty statement may come last.
---
 parser/oneof.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/parser/oneof.go b/parser/oneof.go
index 8057282..1544dc6 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -111,6 +111,13 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 	for {
 		comments := p.ParseComments()
 
+		p.lex.Next()
+		if p.lex.Token == scanner.TRIGHTCURLY {
+			break
+		} else {
+			p.lex.UnNext()
+		}
+
 		err := p.lex.ReadEmptyStatement()
 		if err == nil {
 			continue
@@ -137,13 +144,6 @@ func (p *Parser) ParseOneof() (*Oneof, error) {
 			p.MaybeScanInlineComment(oneofField)
 			oneofFields = append(oneofFields, oneofField)
 		}
-
-		p.lex.Next()
-		if p.lex.Token == scanner.TRIGHTCURLY {
-			break
-		} else {
-			p.lex.UnNext()
-		}
 	}
 
 	lastPos := p.lex.Pos
-- 
2.43.0


From 120df1bc776d8ce7097f81fd2f73a472367b728b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 09/24] fix: read the version of syntax and edition as one
 string literal

Blanks, comments and mismatched quotes inside the literal were accepted, and
so were hexadecimal and octal editions.
---
 parser/edition.go | 35 ++++++++++++++++++++---------------
 parser/syntax.go  | 20 ++++++--------------
 2 files changed, 26 insertions(+), 29 deletions(-)

diff --git a/parser/edition.go b/parser/edition.go
index 63921fc..8f91c52 100644
--- a/parser/edition.go
+++ b/parser/edition.go
@@ -57,23 +57,15 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 		return nil, p.unexpected("=")
 	}
 
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	p.lex.NextStrLit()
+	if p.lex.Token != scanner.TSTRLIT {
 		return nil, p.unexpected("quote")
 	}
-	lq := p.lex.Text
-
-	p.lex.NextNumberLit()
-	if p.lex.Token != scanner.TINTLIT {
-		return nil, p.unexpected("intLit")
-	}
-	edition := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
-		return nil, p.unexpected("quote")
+	editionQuote := p.lex.Text
+	edition := editionQuote[1 : len(editionQuote)-1]
+	if !isDecimalLit(edition) {
+		return nil, p.unexpected("decimalLit")
 	}
-	tq := p.lex.Text
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TSEMICOLON {
@@ -82,10 +74,23 @@ func (p *Parser) ParseEdition() (*Edition, error) {
 
 	return &Edition{
 		Edition:      edition,
-		EditionQuote: lq + edition + tq,
+		EditionQuote: editionQuote,
 		Meta: meta.Meta{
 			Pos:     startPos.Position,
 			LastPos: p.lex.Pos.Position,
 		},
 	}, nil
 }
+
+// decimalLit = ( "1" … "9" ) { decimalDigit }
+func isDecimalLit(s string) bool {
+	if s == "" || s[0] == '0' {
+		return false
+	}
+	for _, r := range s {
+		if r < '0' || '9' < r {
+			return false
+		}
+	}
+	return true
+}
diff --git a/parser/syntax.go b/parser/syntax.go
index 7560adb..3ff140c 100644
--- a/parser/syntax.go
+++ b/parser/syntax.go
@@ -70,23 +70,15 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 		return nil, p.unexpected("=")
 	}
 
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
+	p.lex.NextStrLit()
+	if p.lex.Token != scanner.TSTRLIT {
 		return nil, p.unexpected("quote")
 	}
-	lq := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Text != "proto3" && p.lex.Text != "proto2" {
+	versionQuote := p.lex.Text
+	version := versionQuote[1 : len(versionQuote)-1]
+	if version != "proto3" && version != "proto2" {
 		return nil, p.unexpected("proto3 or proto2")
 	}
-	version := p.lex.Text
-
-	p.lex.Next()
-	if p.lex.Token != scanner.TQUOTE {
-		return nil, p.unexpected("quote")
-	}
-	tq := p.lex.Text
 
 	p.lex.Next()
 	if p.lex.Token != scanner.TSEMICOLON {
@@ -95,7 +87,7 @@ func (p *Parser) ParseSyntax() (*Syntax, error) {
 
 	return &Syntax{
 		ProtobufVersion:      version,
-		ProtobufVersionQuote: lq + version + tq,
+		ProtobufVersionQuote: versionQuote,
 		Meta: meta.Meta{
 			Pos:     startPos.Position,
 			LastPos: p.lex.Pos.Position,
-- 
2.43.0


From 194c92dd26afc3c78eb2ccc1573bb8ed404f44b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:25 +0000
Subject: [PATCH 10/24] fix: reject an import with an unknown modifier

Any token between import and the location was skipped.
---
 parser/import.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/import.go b/parser/import.go
index 28906c4..ab0f0dd 100644
--- a/parser/import.go
+++ b/parser/import.go
@@ -69,6 +69,8 @@ func (p *Parser) ParseImport() (*Import, error) {
 	case scanner.TSTRLIT:
 		modifier = ImportModifierNone
 		p.lex.UnNext()
+	default:
+		return nil, p.unexpected("weak, public or strLit")
 	}
 
 	p.lex.NextStrLit()
-- 
2.43.0


From b9c3ea150f34c8c932cef9daad516f6a80f8d3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:29 +0000
Subject: [PATCH 11/24] fix: accept only booleans for the flags of an extension
 declaration

Any identifier was accepted and recorded as false.
---
 parser/declaration.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/declaration.go b/parser/declaration.go
index 7c34fb3..e04b78f 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -126,8 +126,8 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 			if p.lex.Token != scanner.TCOLON {
 				return nil, p.unexpected(":")
 			}
-			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			p.lex.NextLit()
+			if p.lex.Token != scanner.TBOOLLIT {
 				return nil, p.unexpected("repeated bool")
 			}
 			repeated = p.lex.Text == "true"
@@ -136,8 +136,8 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 			if p.lex.Token != scanner.TCOLON {
 				return nil, p.unexpected(":")
 			}
-			p.lex.Next()
-			if p.lex.Token != scanner.TIDENT {
+			p.lex.NextLit()
+			if p.lex.Token != scanner.TBOOLLIT {
 				return nil, p.unexpected("reserved bool")
 			}
 			reserved = p.lex.Text == "true"
-- 
2.43.0


From 793119c7cf2fdcd003d42dfb760808719a059e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:32 +0000
Subject: [PATCH 12/24] fix: reject a comma before the first attribute of an
 extension declaration

---
 parser/declaration.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/declaration.go b/parser/declaration.go
index e04b78f..afb0725 100644
--- a/parser/declaration.go
+++ b/parser/declaration.go
@@ -81,12 +81,12 @@ func (p *Parser) ParseDeclaration() (*Declaration, error) {
 	var repeated bool
 	var reserved bool
 
-	for {
+	for first := true; ; first = false {
 		p.lex.Next()
 		if p.lex.Token == scanner.TRIGHTCURLY {
 			break
 		}
-		if p.lex.Token != scanner.TCOMMA {
+		if first || p.lex.Token != scanner.TCOMMA {
 			p.lex.UnNext()
 		}
 
-- 
2.43.0


From cf1a82e8abf06fea8896db45aee1d3b45101528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:15 +0000
Subject: [PATCH 13/24] fix: keep each comment around extension declarations

Of two comments on the line of a declaration's comma the first was replaced by
the second, and a comment right behind the declaration was dropped.
---
 parser/extensions.go | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/parser/extensions.go b/parser/extensions.go
index 953f0a6..30de57e 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -101,26 +101,18 @@ func (p *Parser) parseDeclarations() ([]*Declaration, *Comment, error) {
 		declaration.Comments = comments
 		declarations = append(declarations, declaration)
 
+		p.MaybeScanInlineComment(declaration)
 		p.lex.Next()
 		token := p.lex.Token
-		inlineComment1 := p.parseInlineComment()
+		if token != scanner.TCOMMA && token != scanner.TRIGHTSQUARE {
+			return nil, nil, p.unexpected(", or ]")
+		}
+		if declaration.InlineComment == nil {
+			p.MaybeScanInlineComment(declaration)
+		}
 		if token == scanner.TRIGHTSQUARE {
-			p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 			break
 		}
-		if token != scanner.TCOMMA {
-			return nil, nil, p.unexpected(", or ]")
-		}
-		p.assignInlineComments(declaration, inlineComment1, p.parseInlineComment())
 	}
 	return declarations, inlineLeftSquare, nil
 }
-
-// assignInlineComments assigns inline comments to a declaration, ensuring proper order.
-func (p *Parser) assignInlineComments(declaration *Declaration, comments ...*Comment) {
-	for _, comment := range comments {
-		if comment != nil {
-			declaration.SetInlineComment(comment)
-		}
-	}
-}
-- 
2.43.0


From 53f58b5b4c4dbbb7f4217165b49981256a3bd852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:19 +0000
Subject: [PATCH 14/24] fix: visit the options and all comments of an rpc, a
 oneof and extensions

---
 parser/extensions.go | 3 +++
 parser/oneof.go      | 3 +++
 parser/service.go    | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/parser/extensions.go b/parser/extensions.go
index 30de57e..a478536 100644
--- a/parser/extensions.go
+++ b/parser/extensions.go
@@ -40,6 +40,9 @@ func (e *Extensions) Accept(v Visitor) {
 	if e.InlineComment != nil {
 		e.InlineComment.Accept(v)
 	}
+	if e.InlineCommentBehindLeftSquare != nil {
+		e.InlineCommentBehindLeftSquare.Accept(v)
+	}
 }
 
 // ParseExtensions parses the extensions.
diff --git a/parser/oneof.go b/parser/oneof.go
index 1544dc6..61fb922 100644
--- a/parser/oneof.go
+++ b/parser/oneof.go
@@ -79,6 +79,9 @@ func (o *Oneof) Accept(v Visitor) {
 	if o.InlineComment != nil {
 		o.InlineComment.Accept(v)
 	}
+	if o.InlineCommentBehindLeftCurly != nil {
+		o.InlineCommentBehindLeftCurly.Accept(v)
+	}
 }
 
 // ParseOneof parses the oneof.
diff --git a/parser/service.go b/parser/service.go
index 62b021d..dbb29de 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -53,12 +53,21 @@ func (r *RPC) Accept(v Visitor) {
 		return
 	}
 
+	for _, option := range r.Options {
+		option.Accept(v)
+	}
 	for _, comment := range r.Comments {
 		comment.Accept(v)
 	}
 	if r.InlineComment != nil {
 		r.InlineComment.Accept(v)
 	}
+	if r.InlineCommentBehindLeftCurly != nil {
+		r.InlineCommentBehindLeftCurly.Accept(v)
+	}
+	for _, comment := range r.EmbeddedComments {
+		comment.Accept(v)
+	}
 }
 
 // Service consists of RPCs.
-- 
2.43.0


From 81811f67fa202dfdc731f70a0ebe781a9766005d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:57 +0000
Subject: [PATCH 15/24] fix: interpret a service including an empty statement

The unordered interpretation failed for such a service.
---
 interpret/unordered/service.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/interpret/unordered/service.go b/interpret/unordered/service.go
index b0316da..7a29024 100644
--- a/interpret/unordered/service.go
+++ b/interpret/unordered/service.go
@@ -9,8 +9,9 @@ import (
 
 // ServiceBody is unordered in nature, but each slice field preserves the original order.
 type ServiceBody struct {
-	Options []*parser.Option
-	RPCs    []*parser.RPC
+	Options         []*parser.Option
+	RPCs            []*parser.RPC
+	EmptyStatements []*parser.EmptyStatement
 }
 
 // Service consists of RPCs.
@@ -54,18 +55,22 @@ func interpretServiceBody(src []parser.Visitee) (
 ) {
 	var options []*parser.Option
 	var rpcs []*parser.RPC
+	var emptyStatements []*parser.EmptyStatement
 	for _, s := range src {
 		switch t := s.(type) {
 		case *parser.Option:
 			options = append(options, t)
 		case *parser.RPC:
 			rpcs = append(rpcs, t)
+		case *parser.EmptyStatement:
+			emptyStatements = append(emptyStatements, t)
 		default:
 			return nil, fmt.Errorf("invalid ServiceBody type %T of %v", t, t)
 		}
 	}
 	return &ServiceBody{
-		Options: options,
-		RPCs:    rpcs,
+		Options:         options,
+		RPCs:            rpcs,
+		EmptyStatements: emptyStatements,
 	}, nil
 }
-- 
2.43.0


From c25afe06402200b5b3bf619afeb4d3de40605bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:00 +0000
Subject: [PATCH 16/24] fix: carry the edition over to the unordered form

---
 interpret/unordered/proto.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interpret/unordered/proto.go b/interpret/unordered/proto.go
index 1cf77f0..6ae4dff 100644
--- a/interpret/unordered/proto.go
+++ b/interpret/unordered/proto.go
@@ -21,6 +21,7 @@ type ProtoBody struct {
 // Proto represents a protocol buffer definition.
 type Proto struct {
 	Syntax    *parser.Syntax
+	Edition   *parser.Edition
 	ProtoBody *ProtoBody
 }
 
@@ -36,6 +37,7 @@ func InterpretProto(src *parser.Proto) (*Proto, error) {
 	}
 	return &Proto{
 		Syntax:    src.Syntax,
+		Edition:   src.Edition,
 		ProtoBody: enumBody,
 	}, nil
 }
-- 
2.43.0


From f16b8f492715f0af93da1d13beb8765d45b19e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:04 +0000
Subject: [PATCH 17/24] fix: do not take a NUL character for the end of the
 input

Everything behind a NUL character was ignored silently.
---
 lexer/scanner/scanner.go | 3 ++-
 lexer/scanner/strLit.go  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 8562b15..0b20d5e 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -6,7 +6,8 @@ import (
 	"unicode"
 )
 
-var eof = rune(0)
+// eof is no valid rune, unlike NUL which can be in the source.
+var eof = rune(-1)
 
 // Text is a literal with a position.
 type Text struct {
diff --git a/lexer/scanner/strLit.go b/lexer/scanner/strLit.go
index 773d785..fcdb9e2 100644
--- a/lexer/scanner/strLit.go
+++ b/lexer/scanner/strLit.go
@@ -25,7 +25,7 @@ func (s *Scanner) scanCharValue() (string, error) {
 	ch := s.peek()
 
 	switch ch {
-	case eof, '\n':
+	case eof, 0, '\n':
 		return "", s.unexpected(ch, `/[^\0\n\\]`)
 	case '\\':
 		return s.tryScanEscape(), nil
-- 
2.43.0


From 016729e79a008c68035ad4a90841586b9e994da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:08 +0000
Subject: [PATCH 18/24] fix: fail when the reader fails

An error of the reader was taken for the end of the input, so that the tree of
a truncated file was returned.
---
 lexer/scanner/scanner.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lexer/scanner/scanner.go b/lexer/scanner/scanner.go
index 0b20d5e..7095529 100644
--- a/lexer/scanner/scanner.go
+++ b/lexer/scanner/scanner.go
@@ -21,6 +21,9 @@ type Scanner struct {
 	lastReadBuffer []rune
 	lastScanRaw    []rune
 
+	// readErr is the non-EOF error with which the reader failed.
+	readErr error
+
 	// pos is a current source position.
 	pos *Position
 
@@ -69,8 +72,14 @@ func (s *Scanner) read() (r rune) {
 		ch, s.lastReadBuffer = s.lastReadBuffer[len(s.lastReadBuffer)-1], s.lastReadBuffer[:len(s.lastReadBuffer)-1]
 		return ch
 	}
+	if s.readErr != nil {
+		return eof
+	}
 	ch, _, err := s.r.ReadRune()
 	if err != nil {
+		if err != io.EOF {
+			s.readErr = err
+		}
 		return eof
 	}
 	return ch
@@ -151,6 +160,9 @@ func (s *Scanner) scan() (Token, string, Position, error) {
 		s.read()
 		return s.scan()
 	case s.isEOF():
+		if s.readErr != nil {
+			return TILLEGAL, "", startPos, s.readErr
+		}
 		return TEOF, "", startPos, nil
 	case isLetter(ch), ch == '_':
 		ident := s.scanIdent()
-- 
2.43.0


From 965749adc8ab8f0ff5d05d6b2a1904186ca6cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:29 +0000
Subject: [PATCH 19/24] fix: accept a byte order mark only at the start of the
 input

---
 parser/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/proto.go b/parser/proto.go
index 8ddeb13..805d386 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -79,7 +79,7 @@ func (p *Parser) ParseProto() (*Proto, error) {
 // See https://protobuf.com/docs/language-spec#source-code-representation
 func (p *Parser) parseBOM() {
 	p.lex.Next()
-	if p.lex.Token == scanner.TBOM {
+	if p.lex.Token == scanner.TBOM && len(p.lex.RawText) == 1 {
 		return
 	}
 	defer p.lex.UnNext()
-- 
2.43.0


From 8ca360d1d04b21ec6a3a3c1cb5ac18b1ae78c2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:48 +0000
Subject: [PATCH 20/24] fix: accept a single separator after a nested aggregate
 value

---
 parser/option.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/parser/option.go b/parser/option.go
index 21ee474..aa63b20 100644
--- a/parser/option.go
+++ b/parser/option.go
@@ -100,7 +100,6 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 		}
 		ret += p.lex.Text
 
-		needSemi := false
 		p.lex.Next()
 		switch p.lex.Token {
 		case scanner.TLEFTCURLY:
@@ -110,9 +109,6 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 			p.lex.UnNext()
 		case scanner.TCOLON:
 			ret += p.lex.Text
-			if p.lex.Peek() == scanner.TLEFTCURLY && p.permissive {
-				needSemi = true
-			}
 		default:
 			if p.permissive {
 				return "", p.unexpected("{ or :")
@@ -127,11 +123,6 @@ func (p *Parser) parseCloudEndpointsOptionConstant() (string, error) {
 		ret += constant
 
 		p.lex.Next()
-		if p.lex.Token == scanner.TSEMICOLON && needSemi && p.permissive {
-			ret += p.lex.Text
-			p.lex.Next()
-		}
-
 		switch {
 		case p.lex.Token == scanner.TCOMMA, p.lex.Token == scanner.TSEMICOLON:
 			ret += p.lex.Text
-- 
2.43.0


From 85afdf05c6a69d826dcd74ea527ef018e5ddf724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:29 +0000
Subject: [PATCH 21/24] fix: keep the comments before an empty statement among
 those of the body

---
 parser/enum.go    | 5 +++++
 parser/extend.go  | 5 +++++
 parser/message.go | 5 +++++
 parser/proto.go   | 5 +++++
 parser/service.go | 5 +++++
 5 files changed, 25 insertions(+)

diff --git a/parser/enum.go b/parser/enum.go
index 776f56c..226d9fb 100644
--- a/parser/enum.go
+++ b/parser/enum.go
@@ -202,6 +202,11 @@ func (p *Parser) parseEnumBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			if p.bodyIncludingComments {
+				for _, comment := range comments {
+					stmts = append(stmts, Visitee(comment))
+				}
+			}
 			stmt = &EmptyStatement{}
 		default:
 			enumField, enumFieldErr := p.parseEnumField()
diff --git a/parser/extend.go b/parser/extend.go
index 38d590e..e7a0454 100644
--- a/parser/extend.go
+++ b/parser/extend.go
@@ -146,6 +146,11 @@ func (p *Parser) parseExtendBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			if p.bodyIncludingComments {
+				for _, comment := range comments {
+					stmts = append(stmts, Visitee(comment))
+				}
+			}
 			stmt = &EmptyStatement{}
 		default:
 			field, fieldErr := p.ParseField()
diff --git a/parser/message.go b/parser/message.go
index 45332d4..23e5da1 100644
--- a/parser/message.go
+++ b/parser/message.go
@@ -204,6 +204,11 @@ func (p *Parser) parseMessageBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			if p.bodyIncludingComments {
+				for _, comment := range comments {
+					stmts = append(stmts, Visitee(comment))
+				}
+			}
 			stmt = &EmptyStatement{}
 		default:
 			var ferr error
diff --git a/parser/proto.go b/parser/proto.go
index 805d386..6b7e22b 100644
--- a/parser/proto.go
+++ b/parser/proto.go
@@ -169,6 +169,11 @@ func (p *Parser) parseProtoBody(leadingComments []*Comment) ([]Visitee, error) {
 			if err != nil {
 				return nil, err
 			}
+			if p.bodyIncludingComments {
+				for _, comment := range comments {
+					protoBody = append(protoBody, Visitee(comment))
+				}
+			}
 			stmt = &EmptyStatement{}
 		}
 
diff --git a/parser/service.go b/parser/service.go
index dbb29de..a14e286 100644
--- a/parser/service.go
+++ b/parser/service.go
@@ -210,6 +210,11 @@ func (p *Parser) parseServiceBody() (
 			if err != nil {
 				return nil, nil, scanner.Position{}, err
 			}
+			if p.bodyIncludingComments {
+				for _, comment := range comments {
+					stmts = append(stmts, Visitee(comment))
+				}
+			}
 			stmt = &EmptyStatement{}
 		}
 
-- 
2.43.0


From 3f285c2cf7b4fdb9580578ee82d5157970ce439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:52 +0000
Subject: [PATCH 22/24] fix: end a short numeric escape with its own string
 literal

Merging "\1" and "7" gave "\17", another character.
---
 lexer/constant.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/lexer/constant.go b/lexer/constant.go
index 7ca8e4d..06b0a85 100644
--- a/lexer/constant.go
+++ b/lexer/constant.go
@@ -49,20 +49,18 @@ func (lex *Lexer) ReadConstant(permissive bool) (string, scanner.Position, error
 // Merges a multiline string literal into a single string.
 func (lex *Lexer) mergeMultilineStrLit() string {
 	q := lex.Text[:1]
-	var b strings.Builder
-	b.WriteString(q)
+	lit := q
 	for lex.Token == scanner.TSTRLIT {
 		// strips just the enclosing quotes, not the escaped ones next to them.
 		content := lex.Text[1 : len(lex.Text)-1]
 		if lex.Text[:1] != q {
 			content = escapeQuote(content, q)
 		}
-		b.WriteString(content)
+		lit = completeEscape(lit, content) + content
 		lex.NextLit()
 	}
 	lex.UnNext()
-	b.WriteString(q)
-	return b.String()
+	return lit + q
 }
 
 // escapeQuote escapes q, which the given content of a string literal includes as it is.
@@ -78,3 +76,31 @@ func escapeQuote(content string, q string) string {
 	}
 	return b.String()
 }
+
+// completeEscape pads a short octal or hexadecimal escape at the end of lit, if the next content would continue it.
+func completeEscape(lit string, next string) string {
+	for i := 0; i < len(lit); i++ {
+		if lit[i] != '\\' {
+			continue
+		}
+		i++
+
+		digits, width := "01234567", 3
+		isHex := i < len(lit) && (lit[i] == 'x' || lit[i] == 'X')
+		if isHex {
+			digits, width = "0123456789abcdefABCDEF", 2
+			i++
+		}
+		n := 0
+		for n < width && i+n < len(lit) && strings.IndexByte(digits, lit[i+n]) != -1 {
+			n++
+		}
+		if i+n == len(lit) && 0 < n && n < width && next != "" && strings.IndexByte(digits, next[0]) != -1 {
+			return lit[:i] + strings.Repeat("0", width-n) + lit[i:]
+		}
+		if isHex || 0 < n {
+			i += n - 1
+		}
+	}
+	return lit
+}
-- 
2.43.0


From 8bbc729b739f37ed3ae9969ed5a74c09457c6100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:38 +0000
Subject: [PATCH 23/24] fix: ReadMessageType reports an error when the text
 ends before a name

---
 lexer/messageType.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/messageType.go b/lexer/messageType.go
index 107313d..2a3de0f 100644
--- a/lexer/messageType.go
+++ b/lexer/messageType.go
@@ -17,7 +17,7 @@ func (lex *Lexer) ReadMessageType() (string, scanner.Position, error) {
 	}
 
 	lex.Next()
-	for !lex.IsEOF() {
+	for {
 		if lex.Token != scanner.TIDENT {
 			return "", scanner.Position{}, lex.unexpected(lex.Text, "ident")
 		}
-- 
2.43.0


From fb3f6f55e73ed9e794aa07861a7ce5f0ac92870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:21 +0000
Subject: [PATCH 24/24] fix: leave a comment at the end unread behind a full
 identifier

---
 lexer/fullIdent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lexer/fullIdent.go b/lexer/fullIdent.go
index cab0094..1de2e37 100644
--- a/lexer/fullIdent.go
+++ b/lexer/fullIdent.go
@@ -14,7 +14,7 @@ func (lex *Lexer) ReadFullIdent() (string, scanner.Position, error) {
 	fullIdent := lex.Text
 	lex.Next()
 
-	for !lex.IsEOF() {
+	for {
 		if lex.Token != scanner.TDOT {
 			lex.UnNext()
 			break
-- 
2.43.0


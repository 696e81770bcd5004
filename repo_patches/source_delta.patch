From 53536af492632563c18a893306a06fe8a3b57479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:31 +0000
Subject: [PATCH 01/48] fix: end an unterminated string at the end of the
 source

The scanner stayed in string mode at EOF and returned Illegal forever, so
the parser never terminated (and kept allocating errors) on sources such as
an entry cut off inside a quoted string or inside a \url macro.
---
 parser/parser.go   | 2 +-
 scanner/scanner.go | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/parser.go b/parser/parser.go
index 28a5804..69cd472 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -401,7 +401,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	p.expect(token.StringLBrace)
 	sb := strings.Builder{}
 	sb.Grow(32)
-	for p.tok != token.StringRBrace && p.tok != token.StringSpace {
+	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
 		sb.WriteString(p.lit)
 		p.next()
 	}
diff --git a/scanner/scanner.go b/scanner/scanner.go
index f321e28..5850580 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -449,6 +449,11 @@ func (s *Scanner) scanInString() (pos gotok.Pos, tok token.Token, lit string) {
 	case '~':
 		tok = token.StringNBSP
 		lit = "~"
+	case eof:
+		// The string ends here, so that the next call to Scan returns token.EOF.
+		s.endQuoteCh = 0
+		s.error(s.file.Offset(pos), "string literal not terminated")
+		tok = token.Illegal
 	default:
 		// next reports unexpected BOMs - don't repeat
 		if ch != bom {
-- 
2.43.0


From f154f151671b16a288c1b1923e9b250fcaad89c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:02 +0000
Subject: [PATCH 02/48] fix: do not slice out of range on an unterminated raw
 string

Without ParseStrings, a string that is cut off right after its opening
delimiter made the scanner panic with slice bounds out of range.
---
 scanner/scanner.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 5850580..1ad217b 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -225,7 +225,7 @@ func (s *Scanner) scanString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in double quotes not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '"' {
@@ -254,7 +254,7 @@ func (s *Scanner) scanBraceString() string {
 		ch := s.ch
 		if ch < 0 {
 			s.error(offs, "string literal in braces not terminated")
-			break
+			return string(s.src[offs:s.offset])
 		}
 		s.next()
 		if ch == '}' {
-- 
2.43.0


From 44db83f4cf66b889c39c08e597e643ee707a353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:02 +0000
Subject: [PATCH 03/48] fix: keep count of braces right after a nested opening
 brace

scanBraceString skipped the character following a nested '{', so raw
strings such as {{}} and {{{GNU}}} ended at the wrong brace.
---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 1ad217b..681b3ed 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -261,7 +261,6 @@ func (s *Scanner) scanBraceString() string {
 			break
 		}
 		if ch == '{' {
-			s.next()
 			s.scanBraceString()
 		}
 	}
-- 
2.43.0


From cab8eccbdee2217224dfe16e7ddbdae46b5e4b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:03 +0000
Subject: [PATCH 04/48] fix: check the first character of an entry type

scanCommand skipped the character after '@' unchecked: '@ article{a,}' got
the type ' article' and a one-letter type was reported as an error.
---
 scanner/scanner.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 681b3ed..6d35302 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -198,7 +198,6 @@ func IsName(ch rune) bool {
 
 func (s *Scanner) scanCommand() string {
 	offs := s.offset - 1 // Already consumed @
-	s.next()
 	if !isLetter(s.ch) {
 		s.error(s.offset, "expected letter after @ for a command")
 	}
-- 
2.43.0


From dc9b0517c61d89a192e5192e4fc5747bf6008381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:04 +0000
Subject: [PATCH 05/48] fix: reset the string context when a scanner is
 initialized again

Init left prev, endQuoteCh and braceDepth of the previous source in place,
so a reused scanner could start in the middle of a string.
---
 scanner/scanner.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 6d35302..a375663 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -138,6 +138,9 @@ func (s *Scanner) Init(file *gotok.File, src []byte, err ErrorHandler, mode Mode
 	s.offset = 0
 	s.rdOffset = 0
 	s.lineOffset = 0
+	s.prev = token.Illegal
+	s.endQuoteCh = 0
+	s.braceDepth = 0
 	s.ErrorCount = 0
 
 	s.next()
-- 
2.43.0


From a785eb5f0443a26d4d099bbc22cc4c87939d9a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 06/48] fix: ignore comments when deciding what a brace opens

A comment between '=' and a braced string turned the brace into a block
brace and the valid entry into a syntax error.
---
 scanner/scanner.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index a375663..1082263 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -569,6 +569,8 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 		}
 	}
 
-	s.prev = tok
+	if tok != token.TexComment {
+		s.prev = tok
+	}
 	return
 }
-- 
2.43.0


From 8527818ae36bcd8d9563eaf0583bfbfd537acdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:05 +0000
Subject: [PATCH 07/48] fix: accept a braced string after '#' and after '('

jan # {foo} and @preamble({foo}) were syntax errors because the brace was
taken for a block brace.
---
 scanner/scanner.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 1082263..62fa8e1 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -534,9 +534,10 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 		case '{':
 			// Use a heuristic to determine whether this brace is for declaration or
 			// a brace string. If preceded by '=', it's a string for a tag. If
-			// preceded by an LBrace, it's a value in a block like:
+			// preceded by an LBrace or LParen, it's a value in a block like:
 			//   @preamble { {foo} }
-			if s.prev == token.Assign || s.prev == token.LBrace {
+			// If preceded by '#', it's an operand of a concatenation.
+			if s.prev == token.Assign || s.prev == token.LBrace || s.prev == token.LParen || s.prev == token.Concat {
 				if s.mode&ScanStrings != 0 {
 					s.endQuoteCh = '}'
 					tok = token.StringLBrace
-- 
2.43.0


From 8cd140966135dbffc72c89bae0e82f4299f222b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:37 +0000
Subject: [PATCH 08/48] fix: keep the leading digits of a cite key

The scanner split a key like 10.1145/12.34 into a number and an identifier
and the parser silently dropped the number from the key.
---
 scanner/scanner.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 62fa8e1..ebea017 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -497,6 +497,11 @@ func (s *Scanner) Scan() (pos gotok.Pos, tok token.Token, lit string) {
 	case isDecimal(ch):
 		tok = token.Number
 		lit = s.scanNumber()
+		if IsName(s.ch) {
+			// A name may start with digits, like the cite key 10.1145/12.34.
+			tok = token.Ident
+			lit += s.scanIdent()
+		}
 
 	case IsName(ch):
 		tok = token.Ident
-- 
2.43.0


From 198eee53ff4fb3c1efdf78748fb688e2d7a5b6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 09/48] fix: parse concatenations that start with a string
 under ParseStrings

"foo" # bar was a syntax error with parser.ParseStrings, the default mode
of bibtex.New, because only identifiers, numbers and raw strings were
checked for a following '#'.
---
 parser/parser.go | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 69cd472..c84c429 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -571,16 +571,6 @@ func (p *parser) parseExpr() (x ast.Expr) {
 	switch {
 	case p.tok.IsLiteral():
 		x = p.parseBasicLit()
-		if p.tok == token.Concat {
-			p.next()
-			opPos := p.pos
-			y := p.parseExpr()
-			x = &ast.ConcatExpr{
-				X:     x,
-				OpPos: opPos,
-				Y:     y,
-			}
-		}
 
 	case p.tok.IsStringLiteral():
 		x = p.parseStringLiteral()
@@ -592,6 +582,17 @@ func (p *parser) parseExpr() (x ast.Expr) {
 			To:   p.pos,
 		}
 		p.next() // make progress
+		return
+	}
+	if p.tok == token.Concat {
+		p.next()
+		opPos := p.pos
+		y := p.parseExpr()
+		x = &ast.ConcatExpr{
+			X:     x,
+			OpPos: opPos,
+			Y:     y,
+		}
 	}
 	return
 }
-- 
2.43.0


From 11f37dfd4a6d38e432b872bab763b418265248ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:38 +0000
Subject: [PATCH 10/48] fix: record positions before advancing to the next
 token

Closing delimiters, concatenation operators, accents and url arguments got
the position of the token that follows them.
---
 parser/parser.go | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index c84c429..20c8f35 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -399,6 +399,7 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	urlCmd := &ast.TextMacro{Cmd: p.pos, Name: name}
 	p.next()
 	p.expect(token.StringLBrace)
+	pos := p.pos
 	sb := strings.Builder{}
 	sb.Grow(32)
 	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
@@ -406,16 +407,15 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
-		&ast.Text{ValuePos: p.pos, Value: sb.String()},
+		&ast.Text{ValuePos: pos, Value: sb.String()},
 	}
 	if p.tok == token.StringSpace {
 		p.next()
 	}
 	urlCmd.RBrace = p.pos
 
-	pos := p.pos
 	if p.tok != token.StringRBrace {
-		p.errorExpected(pos, "'"+token.StringRBrace.String()+"'")
+		p.errorExpected(p.pos, "'"+token.StringRBrace.String()+"'")
 	}
 	return urlCmd
 }
@@ -459,13 +459,14 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 			}
 			values = append(values, text)
 		}
+		closer := p.pos
 		p.next() // consume closing '}'
 		return &ast.ParsedText{
 			Depth:  depth,
 			Opener: opener,
 			Delim:  ast.BraceDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 	case token.StringAccent:
 		return p.parseStringAccent()
@@ -490,13 +491,14 @@ func (p *parser) parseStringLiteral() ast.Expr {
 			}
 			values = append(values, p.parseText(1))
 		}
+		closer := p.pos
 		p.next() // consume closing '"'
 		txt := &ast.ParsedText{
 			Opener: pos,
 			Depth:  0,
 			Delim:  ast.QuoteDelimiter,
 			Values: values,
-			Closer: p.pos,
+			Closer: closer,
 		}
 		return txt
 
@@ -524,13 +526,13 @@ func (p *parser) parseURLStringLiteral() ast.Expr {
 		if p.tok == token.StringMacro {
 			url := p.parseMacroURL(p.lit)
 			p.expect(token.StringRBrace)
-			p.expect(token.DoubleQuote)
+			closer := p.expect(token.DoubleQuote)
 			return &ast.ParsedText{
 				Opener: pos,
 				Depth:  0,
 				Delim:  ast.QuoteDelimiter,
 				Values: []ast.Expr{url},
-				Closer: p.pos,
+				Closer: closer,
 			}
 		}
 
@@ -585,8 +587,8 @@ func (p *parser) parseExpr() (x ast.Expr) {
 		return
 	}
 	if p.tok == token.Concat {
-		p.next()
 		opPos := p.pos
+		p.next()
 		y := p.parseExpr()
 		x = &ast.ConcatExpr{
 			X:     x,
@@ -631,7 +633,7 @@ func (p *parser) parseTagStmt() *ast.TagStmt {
 }
 
 func (p *parser) parseStringAccent() ast.Expr {
-	lit := p.lit
+	lit, pos := p.lit, p.pos
 	p.next()
 	if len(lit) <= 2 {
 		p.error(p.pos, "invalid accent string")
@@ -646,10 +648,10 @@ func (p *parser) parseStringAccent() ast.Expr {
 		value = value[1 : len(value)-1]
 	}
 	return &ast.TextAccent{
-		ValuePos: p.pos,
+		ValuePos: pos,
 		Accent:   token.Accent(lit[1]),
 		Text: &ast.Text{
-			ValuePos: p.pos + 2,
+			ValuePos: pos + 2,
 			Value:    value,
 		},
 	}
-- 
2.43.0


From a89efdb74fa429b9f1f8b13b5b1174ff325574fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 11/48] fix: check the argument of an accent that follows after
 spaces

An accent cut off after its spaces made the scanner panic with index out of
range, and any byte was taken as the accented letter, even a brace or a part
of a multi-byte character.
---
 parser/parser.go   |  6 ++++--
 scanner/scanner.go | 14 +++-----------
 2 files changed, 7 insertions(+), 13 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 20c8f35..beccf70 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -643,15 +643,17 @@ func (p *parser) parseStringAccent() ast.Expr {
 		p.error(p.pos, "invalid accent string (missing leading '\\')")
 		return &ast.BadExpr{From: p.pos, To: p.pos}
 	}
-	value := lit[2:]
+	value := strings.TrimLeft(lit[2:], " ")
+	valuePos := pos + gotok.Pos(len(lit)-len(value))
 	if value[0] == '{' && value[len(value)-1] == '}' {
 		value = value[1 : len(value)-1]
+		valuePos++
 	}
 	return &ast.TextAccent{
 		ValuePos: pos,
 		Accent:   token.Accent(lit[1]),
 		Text: &ast.Text{
-			ValuePos: pos + 2,
+			ValuePos: valuePos,
 			Value:    value,
 		},
 	}
diff --git a/scanner/scanner.go b/scanner/scanner.go
index ebea017..e1df58f 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -347,6 +347,9 @@ func (s *Scanner) scanStringEscape() (token.Token, string) {
 func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 	offs := s.offset - 1 // initial backslash already consumed
 	s.next()             // consume accent marker, like '"' or '^'
+	for s.ch == ' ' {
+		s.next() // the accented letter may follow after spaces, like in '\c c'
+	}
 	if s.ch == '{' {
 		s.next() // consume left brace '{'
 		if !IsAsciiLetter(s.ch) {
@@ -359,17 +362,6 @@ func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 			return token.Illegal, ""
 		}
 		s.next() // consume right brace
-	} else if s.ch == ' ' { // handle implicit braces like '\c c'
-		// Construct accent string e.g. '\c'
-		tokStr := string(s.src[offs:s.offset])
-		// consume spaces until next valid char (like in {\c   c})
-		for s.ch == ' ' {
-			s.next()
-		}
-		// append accented char, e.g. 'c'
-		tokStr += string(s.src[s.offset])
-		s.next() // consume the letter that's accented
-		return token.StringAccent, tokStr
 	} else {
 		if !IsAsciiLetter(s.ch) {
 			s.errorf(offs, "expected ascii letter after accent sequence %q , got %q", string(s.src[offs:s.offset-1]), s.ch)
-- 
2.43.0


From 15e19cf7975a21e4e1580177eeae3fa8eb4a7639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:22 +0000
Subject: [PATCH 12/48] fix: read macros whose name begins with c as macros

\cite{key} was read as a cedilla over 'i' followed by the text 'te'.
---
 scanner/scanner.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index e1df58f..59f5dd1 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -308,8 +308,12 @@ func (s *Scanner) scanStringEscape() (token.Token, string) {
 		// a single non-alphabetical character
 		s.next()
 		return token.StringBackslash, string(s.src[offs:s.offset])
+	case rune(token.AccentCedilla):
+		// Longer names that begin with a 'c' are macros, like \cite.
+		if rest := s.src[s.rdOffset:]; len(rest) < 2 || !IsAsciiLetter(rune(rest[0])) || !IsAsciiLetter(rune(rest[1])) {
+			return s.scanSpecialCharStringAccent()
+		}
 	case rune(token.AccentAcute),
-		rune(token.AccentCedilla),
 		rune(token.AccentCircumflex),
 		rune(token.AccentDot),
 		rune(token.AccentGrave),
-- 
2.43.0


From 196013672c27353be7715f6fe89ef6d580945b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:22 +0000
Subject: [PATCH 13/48] fix: use a BadExpr for unexpected tokens in strings

The partial AST held nil expressions, so walking it panicked.
---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index beccf70..e231649 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -472,6 +472,7 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 		return p.parseStringAccent()
 	default:
 		p.error(p.pos, "unknown text type: "+p.tok.String())
+		txt = &ast.BadExpr{From: p.pos, To: p.pos}
 	}
 
 	p.next()
-- 
2.43.0


From d1d1233a8acc817eca7f29407953a08119598a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:23 +0000
Subject: [PATCH 14/48] fix: recover from the bailout panic in ParseExpr

An expression with errors on more than ten lines made ParseExpr panic with
parser.bailout, which only ParseFile recovered.
---
 parser/interface.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/parser/interface.go b/parser/interface.go
index 02ef814..b627d8b 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -107,16 +107,26 @@ func ParseFile(fset *gotok.FileSet, filename string, src interface{}, mode Mode)
 	return
 }
 
-func ParseExpr(str string) (ast.Expr, error) {
+func ParseExpr(str string) (expr ast.Expr, err error) {
 	fset := gotok.NewFileSet()
 	// use '=' to trick parser into treating '{' as a string
 	src := []byte("=" + str)
 	var p parser
+	defer func() {
+		if e := recover(); e != nil {
+			// resume same panic if it's not a bailout
+			if _, ok := e.(bailout); !ok {
+				panic(e)
+			}
+			p.errors.Sort()
+			expr, err = nil, p.errors.Err()
+		}
+	}()
 	p.init(fset, "", src, ParseStrings)
 	p.next() // consume the '='
-	expr := p.parseExpr()
+	expr = p.parseExpr()
 	p.errors.Sort()
-	err := p.errors.Err()
+	err = p.errors.Err()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 047ea0a8638f884cb4b9fc247bddcb3524f54f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:24 +0000
Subject: [PATCH 15/48] fix: allocate the file map in ParsePackage

ParsePackage panicked on the first file that parsed without error.
---
 parser/interface.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/interface.go b/parser/interface.go
index b627d8b..ea2d951 100644
--- a/parser/interface.go
+++ b/parser/interface.go
@@ -141,7 +141,7 @@ func ParseExpr(str string) (expr ast.Expr, err error) {
 // encountered are returned.
 func ParsePackage(paths []string, mode Mode) (pkg *ast.Package, first error) {
 	fset := gotok.NewFileSet()
-	pkg = &ast.Package{}
+	pkg = &ast.Package{Files: make(map[string]*ast.File, len(paths))}
 	for _, filename := range paths {
 		if src, err := ParseFile(fset, filename, nil, mode); err == nil {
 			pkg.Files[filename] = src
-- 
2.43.0


From c65dd70384e879d71921867660df45927aee3fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:25 +0000
Subject: [PATCH 16/48] fix: set the name of a parsed file

File.Name was only set when the source was not a bibtex file.
---
 parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/parser.go b/parser/parser.go
index e231649..38e1006 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -872,6 +872,7 @@ func (p *parser) parseFile() *ast.File {
 	}
 
 	return &ast.File{
+		Name:       p.file.Name(),
 		Doc:        doc,
 		Entries:    decls,
 		Scope:      p.pkgScope,
-- 
2.43.0


From 5a2e86c4670688be4a3905129569433d28094160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:45 +0000
Subject: [PATCH 17/48] fix: record cite keys, not tag names, as keys of an
 entry

The name of every tag followed by a comma was appended to the extra keys, or
became the cite key of an entry without one, while a key that is not
followed by a comma, like in @article{foo}, was silently dropped.
---
 parser/parser.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 38e1006..5d336c5 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -780,21 +780,15 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 				Value:   fixVal,
 			}
 			tags = append(tags, tag)
+			p.expectOptional(token.Comma)
 		default:
-			// Keep going.
-		}
-		switch p.tok {
-		case token.Comma:
 			// It's a cite key.
-			p.next()
 			if bibKey == nil {
 				bibKey = key
 			} else {
 				extraKeys = append(extraKeys, key)
 			}
-			continue
-		default:
-			// Keep going.
+			p.expectOptionalTagComma()
 		}
 	}
 	closer := p.expectCloser(opener)
-- 
2.43.0


From 015a32c44ca9f109986c467adfe25db8dccef5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:46 +0000
Subject: [PATCH 18/48] fix: resolve entries that have no cite key

Biber.Resolve dereferenced the nil key of an entry like
@article{title={foo}}.
---
 bibtex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bibtex.go b/bibtex.go
index b765e6a..3fe4700 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -174,10 +174,12 @@ func (b *Biber) Resolve(node ast.Node) ([]Entry, error) {
 
 func (b *Biber) resolveEntry(decl *ast.BibDecl) Entry {
 	entry := Entry{
-		Key:  decl.Key.Name,
 		Type: decl.Type,
 		Tags: make(map[Field]ast.Expr, 4),
 	}
+	if decl.Key != nil {
+		entry.Key = decl.Key.Name
+	}
 	for _, tag := range decl.Tags {
 		entry.Tags[tag.Name] = tag.Value
 	}
-- 
2.43.0


From 7d1d63bb21cacf26a08d39bae951372110538da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:51 +0000
Subject: [PATCH 19/48] fix: extract authors from text with macros, report
 accents that do not render

---
 author.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/author.go b/author.go
index 8582785..5277bdb 100644
--- a/author.go
+++ b/author.go
@@ -2,6 +2,7 @@ package bibtex
 
 import (
 	"fmt"
+	"io"
 	"strings"
 	"unicode"
 	"unicode/utf8"
@@ -15,6 +16,11 @@ const authorSep = "and"
 // ExtractAuthors extracts the authors from the parsed text of a bibtex field,
 // usually from the author or editor field of bibtex entry.
 func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
+	// Report text that has no plain text rendering up front, like an accent that
+	// doesn't combine with its letter.
+	if err := render.NewTextRenderer().Render(io.Discard, txt); err != nil {
+		return nil, fmt.Errorf("render authors: %w", err)
+	}
 	// Pop tokens until we get the author separator then hand off the tokens
 	// to extractAuthor to get the Author.
 	authors := make([]*ast.Author, 0, 4)
@@ -133,6 +139,13 @@ func parseDefault(idx int, xs []ast.Expr) string {
 			sb.WriteString(d)
 		}
 		return sb.String()
+	case *ast.TextMacro:
+		// Skip the command and write the args.
+		sb := strings.Builder{}
+		for i := range t.Values {
+			sb.WriteString(parseDefault(i, t.Values))
+		}
+		return sb.String()
 	case *ast.TextComma:
 		return ","
 	case *ast.TextEscaped:
-- 
2.43.0


From 0bb8f9e17eb4b4b4f57feb756f1e68cce86ed398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:13 +0000
Subject: [PATCH 20/48] fix: keep the whole suffix of an author name

---
 author.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/author.go b/author.go
index 5277bdb..d116a9b 100644
--- a/author.go
+++ b/author.go
@@ -255,8 +255,9 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	suffix := strings.Builder{}
 	suffix.Grow(16)
 	if len(commas) > 1 {
-		val := parseDefault(0, xs[commas[0]+1:])
-		suffix.WriteString(val)
+		for idx := commas[0] + 1; idx < commas[1]; idx++ {
+			suffix.WriteString(parseDefault(idx, xs))
+		}
 		part2 = xs[commas[1]+1:]
 	}
 
-- 
2.43.0


From 2b357b6da08c3a6cc651634181e93c0d2658d97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 21/48] fix: keep all words of a first name that follows a
 comma

---
 author.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/author.go b/author.go
index d116a9b..96e6930 100644
--- a/author.go
+++ b/author.go
@@ -261,15 +261,11 @@ func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 		part2 = xs[commas[1]+1:]
 	}
 
-	idx2 := 0
+	// Everything that remains belongs to the first name, lower case or not.
 	first := strings.Builder{}
 	first.Grow(16)
-	for ; idx2 < len(part2); idx2++ {
-		val, action := parseFirstName(idx2, part2)
-		if action == resolveNextPart {
-			break
-		}
-		first.WriteString(val)
+	for idx2 := range part2 {
+		first.WriteString(parseDefault(idx2, part2))
 	}
 
 	return &ast.Author{
-- 
2.43.0


From 7f7598231a1f8079cf44b6ce23df0433ba6e6a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:14 +0000
Subject: [PATCH 22/48] fix: split authors only at an 'and' that stands alone

---
 author.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/author.go b/author.go
index 96e6930..87f38f3 100644
--- a/author.go
+++ b/author.go
@@ -25,10 +25,10 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 	// to extractAuthor to get the Author.
 	authors := make([]*ast.Author, 0, 4)
 	aExprs := make([]ast.Expr, 0, 8)
-	for _, v := range txt.Values {
+	for i, v := range txt.Values {
 		switch t := v.(type) {
 		case *ast.Text:
-			if t.Value == authorSep {
+			if t.Value == authorSep && isWord(i, txt.Values) {
 				a := extractAuthor(aExprs)
 				if a.IsEmpty() {
 					return nil, fmt.Errorf("found an empty author")
@@ -48,6 +48,22 @@ func ExtractAuthors(txt *ast.ParsedText) (ast.Authors, error) {
 	return authors, nil
 }
 
+// isWord returns true if the expression at idx has no direct neighbors other
+// than spaces.
+func isWord(idx int, xs []ast.Expr) bool {
+	return (idx == 0 || isSpace(xs[idx-1])) && (idx == len(xs)-1 || isSpace(xs[idx+1]))
+}
+
+// isSpace returns true if the expression separates words.
+func isSpace(x ast.Expr) bool {
+	switch x.(type) {
+	case *ast.TextSpace, *ast.TextNBSP:
+		return true
+	default:
+		return false
+	}
+}
+
 func trimSpaces(xs []ast.Expr) []ast.Expr {
 	lo, hi := 0, len(xs)
 
-- 
2.43.0


From 3236ebac1995f0ea3faf9a630da8d2b5d8871e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 23/48] fix: the last name of an author starts at its last word

---
 author.go | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/author.go b/author.go
index 87f38f3..8573be6 100644
--- a/author.go
+++ b/author.go
@@ -68,14 +68,14 @@ func trimSpaces(xs []ast.Expr) []ast.Expr {
 	lo, hi := 0, len(xs)
 
 	for i := 0; i < len(xs); i++ {
-		if _, ok := xs[i].(*ast.TextSpace); !ok {
+		if !isSpace(xs[i]) {
 			break
 		}
 		lo++
 	}
 
 	for i := len(xs) - 1; i >= 0; i-- {
-		if _, ok := xs[i].(*ast.TextSpace); !ok {
+		if !isSpace(xs[i]) {
 			break
 		}
 		hi--
@@ -86,6 +86,15 @@ func trimSpaces(xs []ast.Expr) []ast.Expr {
 	return xs[lo:hi]
 }
 
+// lastWord returns the offset of the first expression of the last word in xs.
+func lastWord(xs []ast.Expr) int {
+	idx := len(trimSpaces(xs)) // xs starts without spaces
+	for idx > 0 && !isSpace(xs[idx-1]) {
+		idx--
+	}
+	return idx
+}
+
 func extractAuthor(xs []ast.Expr) *ast.Author {
 	xs = trimSpaces(xs)
 	commas := findCommas(xs)
@@ -191,11 +200,9 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 	first := strings.Builder{}
 	first.Grow(16)
 	idx := 0
-	for ; idx < len(xs); idx++ {
-		if idx == len(xs)-1 {
-			// If we're on the last part, it belongs to the last name.
-			break
-		}
+	lastIdx := lastWord(xs)
+	for ; idx < lastIdx; idx++ {
+		// If we're on the last word, it belongs to the last name.
 		val, action := parseFirstName(idx, xs)
 		if action == resolveNextPart {
 			break
@@ -204,11 +211,8 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 	}
 
 	prefix := strings.Builder{}
-	for ; idx < len(xs); idx++ {
-		if idx == len(xs)-1 {
-			// If we're on the last part, it belongs to the last name.
-			break
-		}
+	for ; idx < lastIdx; idx++ {
+		// If we're on the last word, it belongs to the last name.
 		val, action := parsePrefixName(idx, xs)
 		if action == resolveNextPart {
 			break
@@ -243,12 +247,10 @@ func resolveAuthor0(xs []ast.Expr) *ast.Author {
 func resolveAuthorN(xs []ast.Expr, commas []int) *ast.Author {
 	part1 := xs[:commas[0]]
 	idx1 := 0
+	lastIdx1 := lastWord(part1)
 	prefix := strings.Builder{}
-	for ; idx1 < len(part1); idx1++ {
-		if idx1 == len(part1)-1 {
-			// If we're on the last part, it belongs to the last name.
-			break
-		}
+	for ; idx1 < lastIdx1; idx1++ {
+		// If we're on the last word, it belongs to the last name.
 		val, action := parsePrefixName(idx1, part1)
 		if action == resolveNextPart {
 			break
-- 
2.43.0


From 767f8d7f7c6f130e6906ec4b4767c545ffaeab3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:33 +0000
Subject: [PATCH 24/48] fix: only lower case words go to the prefix of an
 author name

---
 author.go | 45 ++++++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/author.go b/author.go
index 8573be6..638c975 100644
--- a/author.go
+++ b/author.go
@@ -113,21 +113,11 @@ const (
 )
 
 func parseFirstName(idx int, xs []ast.Expr) (string, resolveAction) {
-	x := xs[idx]
-	if _, ok := x.(*ast.TextSpace); ok && idx < len(xs)-1 {
-		if t, ok := xs[idx+1].(*ast.Text); ok && !hasUpperPrefix(t.Value) {
-			// lowercase after space means we're out of the first name
-			return "", resolveNextPart
-		}
+	if isSpace(xs[idx]) && idx < len(xs)-1 && hasLowerPrefix(xs[idx+1]) {
+		// lowercase after space means we're out of the first name
+		return "", resolveNextPart
 	}
-
-	if _, ok := x.(*ast.Text); !ok {
-		return parseDefault(idx, xs), resolveContinue
-	}
-
-	t := x.(*ast.Text)
-
-	return t.Value, resolveContinue
+	return parseDefault(idx, xs), resolveContinue
 }
 
 func hasUpperPrefix(s string) bool {
@@ -135,17 +125,30 @@ func hasUpperPrefix(s string) bool {
 	return unicode.IsUpper(r)
 }
 
-func parsePrefixName(idx int, xs []ast.Expr) (string, resolveAction) {
-	x := xs[idx]
-	if _, ok := x.(*ast.Text); !ok {
-		return parseDefault(idx, xs), resolveContinue
+// hasLowerPrefix returns true if a word that starts with x is a lower case
+// word. A braced group has no case unless it starts with an accent.
+func hasLowerPrefix(x ast.Expr) bool {
+	switch t := x.(type) {
+	case *ast.Text:
+		return !hasUpperPrefix(t.Value)
+	case *ast.TextAccent:
+		return !hasUpperPrefix(t.Text.Value)
+	case *ast.ParsedText:
+		if len(t.Values) > 0 {
+			if a, ok := t.Values[0].(*ast.TextAccent); ok {
+				return hasLowerPrefix(a)
+			}
+		}
 	}
+	return false
+}
 
-	t := x.(*ast.Text)
-	if hasUpperPrefix(t.Value) {
+func parsePrefixName(idx int, xs []ast.Expr) (string, resolveAction) {
+	isWordStart := idx == 0 || isSpace(xs[idx-1])
+	if isWordStart && !isSpace(xs[idx]) && !hasLowerPrefix(xs[idx]) {
 		return "", resolveNextPart // Only lowercase goes in prefix
 	}
-	return t.Value, resolveContinue
+	return parseDefault(idx, xs), resolveContinue
 }
 
 func parseLastName(idx int, xs []ast.Expr) (string, resolveAction) {
-- 
2.43.0


From b1d8b3163600b401c6b8ac6706c2c3663ba1c997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:25 +0000
Subject: [PATCH 25/48] fix: render text and accents instead of panicking

---
 render/render.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/render/render.go b/render/render.go
index 3774dca..d6ffbbb 100644
--- a/render/render.go
+++ b/render/render.go
@@ -100,9 +100,24 @@ func renderParsedText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, e
 	return ast.WalkContinue, nil
 }
 
-func renderText(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
-	txt := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(txt.Value)); err != nil {
+func renderText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
+	val := ""
+	switch t := n.(type) {
+	case *ast.Text:
+		val = t.Value
+	case *ast.TextAccent: // has the same kind as ast.Text
+		r, err := RenderAccent(t.Accent, t.Text.Value)
+		if err != nil {
+			return ast.WalkStop, fmt.Errorf("default renderText accent: %w", err)
+		}
+		val = string(r)
+	default:
+		return ast.WalkStop, fmt.Errorf("default renderText: unexpected node type %T", n)
+	}
+	if _, err := w.Write([]byte(val)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderText: %w", err)
 	}
 	return ast.WalkContinue, nil
-- 
2.43.0


From 6823be929f77efcb5a62d39bd348e2c9217fcaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 26/48] fix: render each piece of text only once

---
 render/render.go | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/render/render.go b/render/render.go
index d6ffbbb..06a4ee1 100644
--- a/render/render.go
+++ b/render/render.go
@@ -60,7 +60,10 @@ func renderBadExpr(io.Writer, ast.Node, bool) (ast.WalkStatus, error) {
 	return ast.WalkStop, fmt.Errorf("render bad expr")
 }
 
-func renderIdent(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	ident := n.(*ast.Ident)
 	_, _ = w.Write([]byte(ident.Name))
 	return ast.WalkContinue, nil
@@ -123,14 +126,20 @@ func renderText(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error)
 	return ast.WalkContinue, nil
 }
 
-func renderTextComma(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextComma(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(",")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextComma: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextEscaped(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	esc := n.(*ast.TextEscaped)
 	if _, err := w.Write([]byte(`\` + esc.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextEscaped: %w", err)
@@ -138,7 +147,10 @@ func renderTextEscaped(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error)
 	return ast.WalkContinue, nil
 }
 
-func renderTextHyphen(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextHyphen(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte("-")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextHyphen: %w", err)
 	}
@@ -158,14 +170,20 @@ func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, err
 	return ast.WalkContinue, nil
 }
 
-func renderTextNBSP(w io.Writer, _ ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextNBSP(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	if _, err := w.Write([]byte(" ")); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextNBSP: %w", err)
 	}
 	return ast.WalkContinue, nil
 }
 
-func renderTextSpace(w io.Writer, n ast.Node, _ bool) (ast.WalkStatus, error) {
+func renderTextSpace(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
+	if !entering {
+		return ast.WalkContinue, nil
+	}
 	sp := n.(*ast.TextSpace)
 	if _, err := w.Write([]byte(sp.Value)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextSpace: %w", err)
-- 
2.43.0


From b445831c9706248b6740ade39e370ba065c0a1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:26 +0000
Subject: [PATCH 27/48] fix: render the contents of math

---
 render/render.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/render/render.go b/render/render.go
index 06a4ee1..5794365 100644
--- a/render/render.go
+++ b/render/render.go
@@ -157,9 +157,10 @@ func renderTextHyphen(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, e
 	return ast.WalkContinue, nil
 }
 
-func renderTextMath(w io.Writer, _ ast.Node, entering bool) (ast.WalkStatus, error) {
+func renderTextMath(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
 	if entering {
-		if _, err := w.Write([]byte("$")); err != nil {
+		math := n.(*ast.TextMath)
+		if _, err := w.Write([]byte("$" + math.Value)); err != nil {
 			return ast.WalkStop, fmt.Errorf("default renderTextMath left: %w", err)
 		}
 	} else {
-- 
2.43.0


From 96ac460e1daff623d7828822c3f7747f354be2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:27 +0000
Subject: [PATCH 28/48] fix: render white space of parsed strings

---
 render/render.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/render/render.go b/render/render.go
index 5794365..0b3b4a2 100644
--- a/render/render.go
+++ b/render/render.go
@@ -186,7 +186,11 @@ func renderTextSpace(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, er
 		return ast.WalkContinue, nil
 	}
 	sp := n.(*ast.TextSpace)
-	if _, err := w.Write([]byte(sp.Value)); err != nil {
+	val := sp.Value
+	if val == "" {
+		val = " " // the parser doesn't record the white space
+	}
+	if _, err := w.Write([]byte(val)); err != nil {
 		return ast.WalkStop, fmt.Errorf("default renderTextSpace: %w", err)
 	}
 	return ast.WalkContinue, nil
-- 
2.43.0


From 98cdb8d731980201ea6be023d17e8c3b9ea36226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:28 +0000
Subject: [PATCH 29/48] fix: return write errors of identifiers and
 concatenations

---
 render/render.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/render/render.go b/render/render.go
index 0b3b4a2..535fe8e 100644
--- a/render/render.go
+++ b/render/render.go
@@ -65,7 +65,9 @@ func renderIdent(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error)
 		return ast.WalkContinue, nil
 	}
 	ident := n.(*ast.Ident)
-	_, _ = w.Write([]byte(ident.Name))
+	if _, err := w.Write([]byte(ident.Name)); err != nil {
+		return ast.WalkStop, fmt.Errorf("default renderIdent: %w", err)
+	}
 	return ast.WalkContinue, nil
 }
 
@@ -257,7 +259,9 @@ func (p TextRenderer) Render(w io.Writer, x ast.Expr) error {
 		if err := p.Render(w, t.X); err != nil {
 			return err
 		}
-		_, _ = w.Write([]byte{'#'})
+		if _, err := w.Write([]byte{'#'}); err != nil {
+			return err
+		}
 		if err := p.Render(w, t.Y); err != nil {
 			return err
 		}
-- 
2.43.0


From 1ec2b4403399951fc2448e3eeda2db343cda8149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:40 +0000
Subject: [PATCH 30/48] fix: walk the values of tags and the tags of
 abbreviations

---
 ast/walk.go | 8 ++++++++
 resolver.go | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 46756a2..5c9c304 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -80,6 +80,14 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 					return st, err
 				}
 			}
+		case *AbbrevDecl:
+			if st, err := walkHelper(t.Tag, walker); st == WalkStop || err != nil {
+				return st, err
+			}
+		case *TagStmt:
+			if st, err := walkHelper(t.Value, walker); st == WalkStop || err != nil {
+				return st, err
+			}
 		case *PreambleDecl:
 			if st, err := walkHelper(t.Text, walker); st == WalkStop || err != nil {
 				return st, err
diff --git a/resolver.go b/resolver.go
index 4786f0e..5c57149 100644
--- a/resolver.go
+++ b/resolver.go
@@ -111,6 +111,10 @@ func (a AuthorResolver) Resolve(root ast.Node) error {
 		if !isEntering {
 			return ast.WalkSkipChildren, nil
 		}
+		if _, ok := n.(*ast.AbbrevDecl); ok {
+			// The name of an abbreviation is not a field name.
+			return ast.WalkSkipChildren, nil
+		}
 		if _, ok := n.(*ast.TagStmt); !ok {
 			return ast.WalkContinue, nil
 		}
-- 
2.43.0


From 71ab724fb26e30ea4d0bdd174c668bb6c247db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:41 +0000
Subject: [PATCH 31/48] fix: walk and resolve the files of a package in a
 stable order

---
 ast/walk.go | 11 +++++++++--
 bibtex.go   | 10 ++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 5c9c304..ab03f6c 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -1,5 +1,7 @@
 package ast
 
+import "sort"
+
 type WalkStatus int
 
 const (
@@ -69,8 +71,13 @@ func walkHelper(n Node, walker Walker) (WalkStatus, error) {
 				}
 			}
 		case *Package:
-			for _, file := range t.Files {
-				if st, err := walkHelper(file, walker); st == WalkStop || err != nil {
+			names := make([]string, 0, len(t.Files))
+			for name := range t.Files {
+				names = append(names, name)
+			}
+			sort.Strings(names) // the order of a map is random
+			for _, name := range names {
+				if st, err := walkHelper(t.Files[name], walker); st == WalkStop || err != nil {
 					return st, err
 				}
 			}
diff --git a/bibtex.go b/bibtex.go
index 3fe4700..1c1033c 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	gotok "go/token"
 	"io"
+	"sort"
 
 	"github.com/jschaf/bibtex/ast"
 	"github.com/jschaf/bibtex/parser"
@@ -146,8 +147,13 @@ func (b *Biber) Resolve(node ast.Node) ([]Entry, error) {
 	switch n := node.(type) {
 	case *ast.Package:
 		entries := make([]Entry, 0, len(n.Files)*4)
-		for _, file := range n.Files {
-			for _, decl := range file.Entries {
+		names := make([]string, 0, len(n.Files))
+		for name := range n.Files {
+			names = append(names, name)
+		}
+		sort.Strings(names) // the order of a map is random
+		for _, name := range names {
+			for _, decl := range n.Files[name].Entries {
 				if decl, ok := decl.(*ast.BibDecl); ok {
 					entries = append(entries, b.resolveEntry(decl))
 				}
-- 
2.43.0


From c21e02eb9437de2c02a73c0bcea5847fe6094c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:28 +0000
Subject: [PATCH 32/48] fix: keep url fields verbatim whatever their delimiter
 and letter case

---
 parser/parser.go | 130 ++++++++++++++++-------------------------------
 1 file changed, 45 insertions(+), 85 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index 5d336c5..aff611c 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -516,56 +516,6 @@ func (p *parser) parseStringLiteral() ast.Expr {
 	}
 }
 
-func (p *parser) parseURLStringLiteral() ast.Expr {
-	sb := strings.Builder{}
-	sb.Grow(32)
-	pos := p.pos
-	switch tok := p.tok; tok {
-	case token.DoubleQuote:
-		p.next()
-
-		if p.tok == token.StringMacro {
-			url := p.parseMacroURL(p.lit)
-			p.expect(token.StringRBrace)
-			closer := p.expect(token.DoubleQuote)
-			return &ast.ParsedText{
-				Opener: pos,
-				Depth:  0,
-				Delim:  ast.QuoteDelimiter,
-				Values: []ast.Expr{url},
-				Closer: closer,
-			}
-		}
-
-		for p.tok != token.DoubleQuote {
-			if p.tok == token.EOF {
-				p.errorExpected(p.pos, "double quote")
-				return &ast.BadExpr{From: pos, To: p.pos}
-			}
-
-			sb.WriteString(p.lit)
-			p.next()
-		}
-		txt := &ast.Text{
-			ValuePos: pos,
-			Value:    sb.String(),
-		}
-		p.expect(token.DoubleQuote)
-		return txt
-
-	case token.StringLBrace:
-		return p.parseText(0)
-
-	default:
-		p.errorExpected(p.pos, "string literal")
-		p.advance(stmtStart)
-		return &ast.BadExpr{
-			From: pos,
-			To:   p.pos,
-		}
-	}
-}
-
 func (p *parser) parseExpr() (x ast.Expr) {
 	if p.trace {
 		defer un(trace(p, "Expr"))
@@ -711,35 +661,50 @@ func (p *parser) parseAbbrevDecl() *ast.AbbrevDecl {
 // follow the normal Bibtex parsing rules because it's usually wrapped in a
 // \url{} macro.
 func fixUpFields(tag string, val ast.Expr) ast.Expr {
-	if tag == "url" {
-		txt, ok := val.(*ast.ParsedText)
-		if !ok || len(txt.Values) == 0 {
-			return val
-		}
-		child1, ok := txt.Values[0].(*ast.Text)
-		if !ok || !strings.HasPrefix(child1.Value, "http") {
-			return val
+	txt, ok := val.(*ast.ParsedText)
+	if tag != "url" || !ok {
+		return val
+	}
+	// Characters like '~' and '$' are part of the address. Merge them with the
+	// text around them.
+	values := make([]ast.Expr, 0, len(txt.Values))
+	var addr *ast.Text
+	sb := strings.Builder{}
+	for _, child := range txt.Values {
+		lit := ""
+		switch c := child.(type) {
+		case *ast.Text:
+			lit = c.Value
+		case *ast.TextNBSP:
+			lit = "~"
+		case *ast.TextComma:
+			lit = ","
+		case *ast.TextHyphen:
+			lit = "-"
+		case *ast.TextMath:
+			lit = "$" + c.Value + "$"
+		case *ast.TextSpace, *ast.TextEscaped:
+			values = append(values, child)
+			addr = nil
+			sb = strings.Builder{}
+			continue
+		default:
+			return val // not a bare address
 		}
-		pos := child1.ValuePos
-		sb := strings.Builder{}
-		sb.Grow(32)
-		for _, child := range txt.Values {
-			if cTxt, ok := child.(*ast.Text); !ok {
-				return val
-			} else {
-				sb.WriteString(cTxt.Value)
-			}
-		}
-		return &ast.ParsedText{
-			Opener: txt.Opener,
-			Depth:  txt.Depth,
-			Delim:  txt.Delim,
-			Values: []ast.Expr{&ast.Text{ValuePos: pos, Value: sb.String()}},
-			Closer: txt.Closer,
+		if addr == nil {
+			addr = &ast.Text{ValuePos: child.Pos()}
+			values = append(values, addr)
 		}
+		sb.WriteString(lit)
+		addr.Value = sb.String()
+	}
+	return &ast.ParsedText{
+		Opener: txt.Opener,
+		Depth:  txt.Depth,
+		Delim:  txt.Delim,
+		Values: values,
+		Closer: txt.Closer,
 	}
-
-	return val
 }
 
 func (p *parser) parseBibDecl() *ast.BibDecl {
@@ -765,19 +730,14 @@ func (p *parser) parseBibDecl() *ast.BibDecl {
 				p.error(key.Pos(), "tag keys must not start with a number")
 			}
 			p.next()
-			var val ast.Expr
-			if key.Name == "url" && p.tok.IsStringLiteral() {
-				val = p.parseURLStringLiteral()
-			} else {
-				val = p.parseExpr()
-			}
-			fixVal := fixUpFields(key.Name, val)
+			name := strings.ToLower(key.Name)
+			val := fixUpFields(name, p.parseExpr())
 			tag := &ast.TagStmt{
 				Doc:     doc,
 				NamePos: key.Pos(),
-				Name:    strings.ToLower(key.Name),
+				Name:    name,
 				RawName: key.Name,
-				Value:   fixVal,
+				Value:   val,
 			}
 			tags = append(tags, tag)
 			p.expectOptional(token.Comma)
-- 
2.43.0


From db9fa375bac5ea5f9841efebaff6c25a92c90405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:29 +0000
Subject: [PATCH 33/48] fix: keep dollar signs and braces in the address of a
 url macro

---
 parser/parser.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/parser.go b/parser/parser.go
index aff611c..8341e8b 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -402,8 +402,20 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 	pos := p.pos
 	sb := strings.Builder{}
 	sb.Grow(32)
-	for p.tok != token.StringRBrace && p.tok != token.StringSpace && p.tok != token.EOF {
-		sb.WriteString(p.lit)
+	depth := 0 // braces in the address nest
+	for (p.tok != token.StringRBrace || depth > 0) && p.tok != token.StringSpace && p.tok != token.EOF {
+		switch p.tok {
+		case token.StringLBrace:
+			depth++
+			sb.WriteString("{")
+		case token.StringRBrace:
+			depth--
+			sb.WriteString("}")
+		case token.StringMath:
+			sb.WriteString("$" + p.lit + "$")
+		default:
+			sb.WriteString(p.lit)
+		}
 		p.next()
 	}
 	urlCmd.Values = []ast.Expr{
-- 
2.43.0


From bb74605c81f8fd70a18d598f7ecde8e19fdb299b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 34/48] fix: render a dot accent on i as i, not as dotless i

---
 render/accent.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/render/accent.go b/render/accent.go
index 4c87070..3742673 100644
--- a/render/accent.go
+++ b/render/accent.go
@@ -31,7 +31,8 @@ var accentMap = map[string]rune{
 	"cc": 'ç', "cC": 'Ç',
 
 	// AccentDot (.)
-	".c": 'ċ', ".e": 'ė', ".g": 'ġ', ".i": 'ı', ".z": 'ż',
+	// TeX sets a dot accent on i as a plain i because it already has the dot.
+	".c": 'ċ', ".e": 'ė', ".g": 'ġ', ".i": 'i', ".z": 'ż',
 	".C": 'Ċ', ".E": 'Ė', ".G": 'Ġ', ".I": 'İ', ".Z": 'Ż',
 }
 
-- 
2.43.0


From 79bcee76f2dd1e7b496f000de581adb9ef1b16b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:08 +0000
Subject: [PATCH 35/48] fix: scan nested braces of a raw string in linear time

---
 scanner/scanner.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 59f5dd1..bab0008 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -251,20 +251,17 @@ func (s *Scanner) scanNumber() string {
 // scanBraceString parses a bibtex string delimited by braces.
 func (s *Scanner) scanBraceString() string {
 	offs := s.offset
-
-	for {
-		ch := s.ch
-		if ch < 0 {
+	for depth := 1; depth > 0; {
+		switch s.ch {
+		case eof:
 			s.error(offs, "string literal in braces not terminated")
 			return string(s.src[offs:s.offset])
+		case '{':
+			depth++
+		case '}':
+			depth--
 		}
 		s.next()
-		if ch == '}' {
-			break
-		}
-		if ch == '{' {
-			s.scanBraceString()
-		}
 	}
 	return string(s.src[offs : s.offset-1])
 }
-- 
2.43.0


From 0b699109710d978beea592e0962d614e0e39b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:20 +0000
Subject: [PATCH 36/48] fix: limit the nesting of strings and concatenations

---
 parser/parser.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 8341e8b..40daa82 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -39,6 +39,9 @@ type parser struct {
 	syncPos gotok.Pos // last synchronization position
 	syncCnt int       // number of parser.advance calls without progress
 
+	// Nesting of strings and concatenations, limited by maxNestLev
+	nestLev int
+
 	// Ordinary cite key scopes
 	pkgScope   *ast.Scope   // pkgScope.Outer == nil
 	topScope   *ast.Scope   // top-most scope; may be pkgScope
@@ -237,6 +240,24 @@ func (p *parser) error(pos gotok.Pos, msg string) {
 	p.errors.Add(epos, msg)
 }
 
+// maxNestLev is the deepest that strings and concatenations may nest. Without a
+// limit, the recursion may exhaust the stack, which can't be recovered from.
+const maxNestLev = 1e5
+
+func incNestLev(p *parser) *parser {
+	p.nestLev++
+	if p.nestLev > maxNestLev {
+		p.error(p.pos, "exceeded max nesting depth")
+		panic(bailout{})
+	}
+	return p
+}
+
+// Usage pattern: defer decNestLev(incNestLev(p))
+func decNestLev(p *parser) {
+	p.nestLev--
+}
+
 func (p *parser) errorExpected(pos gotok.Pos, msg string) {
 	msg = "expected " + msg
 	if pos == p.pos {
@@ -459,6 +480,7 @@ func (p *parser) parseText(depth int) (txt ast.Expr) {
 	case token.Illegal:
 		txt = &ast.BadExpr{From: p.pos, To: p.pos}
 	case token.StringLBrace: // recursive case
+		defer decNestLev(incNestLev(p))
 		opener := p.pos
 		p.next()
 
@@ -532,6 +554,7 @@ func (p *parser) parseExpr() (x ast.Expr) {
 	if p.trace {
 		defer un(trace(p, "Expr"))
 	}
+	defer decNestLev(incNestLev(p))
 	pos := p.pos
 	switch {
 	case p.tok.IsLiteral():
-- 
2.43.0


From 4f182c96c3f785168c64d081dbfd6f93b2e93e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 37/48] fix: render nested groups of an author name in linear
 time

---
 author.go | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/author.go b/author.go
index 638c975..878493a 100644
--- a/author.go
+++ b/author.go
@@ -157,41 +157,40 @@ func parseLastName(idx int, xs []ast.Expr) (string, resolveAction) {
 
 // TODO: replace with single resolver
 func parseDefault(idx int, xs []ast.Expr) string {
-	x := xs[idx]
+	sb := strings.Builder{}
+	writeDefault(&sb, xs[idx])
+	return sb.String()
+}
+
+func writeDefault(sb *strings.Builder, x ast.Expr) {
 	switch t := x.(type) {
 	case *ast.ParsedText:
-		sb := strings.Builder{}
-		sb.Grow(16)
-		for i := range t.Values {
-			d := parseDefault(i, t.Values)
-			sb.WriteString(d)
+		for _, v := range t.Values {
+			writeDefault(sb, v)
 		}
-		return sb.String()
 	case *ast.TextMacro:
 		// Skip the command and write the args.
-		sb := strings.Builder{}
-		for i := range t.Values {
-			sb.WriteString(parseDefault(i, t.Values))
+		for _, v := range t.Values {
+			writeDefault(sb, v)
 		}
-		return sb.String()
 	case *ast.TextComma:
-		return ","
+		sb.WriteString(",")
 	case *ast.TextEscaped:
-		return `\` + t.Value
+		sb.WriteString(`\` + t.Value)
 	case *ast.TextHyphen:
-		return "-"
+		sb.WriteString("-")
 	case *ast.TextNBSP, *ast.TextSpace:
-		return " "
+		sb.WriteString(" ")
 	case *ast.TextMath:
-		return "$" + t.Value + "$"
+		sb.WriteString("$" + t.Value + "$")
 	case *ast.Text:
-		return t.Value
+		sb.WriteString(t.Value)
 	case *ast.TextAccent:
 		r, err := render.RenderAccent(t.Accent, t.Text.Value)
 		if err != nil {
 			panic("cannot render accent")
 		}
-		return string(r)
+		sb.WriteRune(r)
 	default:
 		panic("unhandled ast.Expr value")
 	}
-- 
2.43.0


From 5ced7fd2a6af17abdf7d7e936c45077a6a44d84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:18 +0000
Subject: [PATCH 38/48] fix: end nodes after their last character

---
 ast/ast.go | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/ast/ast.go b/ast/ast.go
index ec8a0e7..2c30d92 100644
--- a/ast/ast.go
+++ b/ast/ast.go
@@ -4,6 +4,7 @@ package ast
 
 import (
 	gotok "go/token"
+	"strings"
 
 	"github.com/jschaf/bibtex/token"
 )
@@ -339,14 +340,17 @@ func (x *Author) IsOthers() bool {
 func (x *Author) exprNode() {}
 
 func (x *UnparsedText) Pos() gotok.Pos { return x.ValuePos }
-func (x *UnparsedText) End() gotok.Pos { return gotok.Pos(int(x.ValuePos) + len(x.Value)) }
+func (x *UnparsedText) End() gotok.Pos { return gotok.Pos(int(x.ValuePos) + 2*len(`"`) + len(x.Value)) }
 func (x *UnparsedText) Kind() NodeKind { return KindUnparsedText }
 func (*UnparsedText) exprNode()        {}
 
 func (x *ParsedText) Pos() gotok.Pos { return x.Opener }
 func (x *ParsedText) End() gotok.Pos {
+	if x.Closer != gotok.NoPos {
+		return x.Closer + 1
+	}
 	if len(x.Values) > 0 {
-		return x.Values[len(x.Values)-1].Pos()
+		return x.Values[len(x.Values)-1].End()
 	}
 	return x.Opener
 }
@@ -396,18 +400,21 @@ func (*TextSpace) exprNode()        {}
 func (x *TextMacro) Pos() gotok.Pos { return x.Cmd }
 func (x *TextMacro) End() gotok.Pos {
 	if x.RBrace != gotok.NoPos {
-		return x.RBrace
+		return x.RBrace + 1
+	}
+	if len(x.Values) > 0 {
+		return x.Values[len(x.Values)-1].End()
 	}
-	if len(x.Values) == 0 {
-		return x.Cmd
+	if strings.HasPrefix(x.Name, `\`) { // the name of a symbol has a backslash
+		return x.Cmd + gotok.Pos(len(x.Name))
 	}
-	return x.Values[len(x.Values)-1].Pos()
+	return x.Cmd + gotok.Pos(len(`\`)+len(x.Name))
 }
 func (x *TextMacro) Kind() NodeKind { return KindTextMacro }
 func (*TextMacro) exprNode()        {}
 
 func (x *ConcatExpr) Pos() gotok.Pos { return x.X.Pos() }
-func (x *ConcatExpr) End() gotok.Pos { return x.Y.Pos() }
+func (x *ConcatExpr) End() gotok.Pos { return x.Y.End() }
 func (x *ConcatExpr) Kind() NodeKind { return KindConcatExpr }
 func (*ConcatExpr) exprNode()        {}
 
@@ -440,7 +447,7 @@ func (x *BadStmt) Kind() NodeKind { return KindBadStmt }
 func (*BadStmt) stmtNode()        {}
 
 func (x *TagStmt) Pos() gotok.Pos { return x.NamePos }
-func (x *TagStmt) End() gotok.Pos { return x.Value.Pos() }
+func (x *TagStmt) End() gotok.Pos { return x.Value.End() }
 func (x *TagStmt) Kind() NodeKind { return KindTagStmt }
 func (*TagStmt) stmtNode()        {}
 
@@ -492,17 +499,17 @@ func (e *BadDecl) Kind() NodeKind { return KindBadDecl }
 func (*BadDecl) declNode()        {}
 
 func (e *AbbrevDecl) Pos() gotok.Pos { return e.Entry }
-func (e *AbbrevDecl) End() gotok.Pos { return e.RBrace }
+func (e *AbbrevDecl) End() gotok.Pos { return e.RBrace + 1 }
 func (e *AbbrevDecl) Kind() NodeKind { return KindAbbrevDecl }
 func (*AbbrevDecl) declNode()        {}
 
 func (e *BibDecl) Pos() gotok.Pos { return e.Entry }
-func (e *BibDecl) End() gotok.Pos { return e.RBrace }
+func (e *BibDecl) End() gotok.Pos { return e.RBrace + 1 }
 func (e *BibDecl) Kind() NodeKind { return KindBibDecl }
 func (*BibDecl) declNode()        {}
 
 func (e *PreambleDecl) Pos() gotok.Pos { return e.Entry }
-func (e *PreambleDecl) End() gotok.Pos { return e.RBrace }
+func (e *PreambleDecl) End() gotok.Pos { return e.RBrace + 1 }
 func (e *PreambleDecl) Kind() NodeKind { return KindPreambleDecl }
 func (*PreambleDecl) declNode()        {}
 
-- 
2.43.0


From ea9f4917b9f924ca25194ad54b5bcb76c995fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 39/48] fix: end the name of a macro at the first char that is
 not a letter

---
 scanner/scanner.go | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index bab0008..1c060ab 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -325,21 +325,14 @@ func (s *Scanner) scanStringEscape() (token.Token, string) {
 
 	// It must be a macro made up of ascii letters.
 	lo := s.offset
-	for !s.isSpecialStringChar(s.ch) && s.ch != 0 {
+	for IsAsciiLetter(s.ch) {
 		s.next()
 	}
 	name := string(s.src[lo:s.offset])
 	if len(name) == 0 {
-		s.error(offs, "expected macro name after backslash, got nothing")
+		s.errorf(offs, "expected macro name of ascii letters after backslash, got %q", s.ch)
 		return token.Illegal, string(s.src[offs : s.offset-1])
 	}
-	// Check that it's only ascii letters.
-	for _, c := range name {
-		if !IsAsciiLetter(c) {
-			s.errorf(offs, "expected command name to only contain ascii letters, got %q", name)
-			return token.Illegal, string(s.src[offs : s.offset-1])
-		}
-	}
 	return token.StringMacro, name
 }
 
-- 
2.43.0


From 149ad3e90e5fee089e2ddb9a819ca75e27e10c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:34 +0000
Subject: [PATCH 40/48] fix: read \# as an escaped character

---
 scanner/scanner.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index 1c060ab..0925d61 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -301,7 +301,7 @@ func (s *Scanner) scanStringMath() (token.Token, string) {
 func (s *Scanner) scanStringEscape() (token.Token, string) {
 	offs := s.offset - 1 // initial backslash already consumed
 	switch s.ch {
-	case '\\', '$', '&', '%', '{', '}', '_':
+	case '\\', '$', '&', '%', '{', '}', '_', '#':
 		// a single non-alphabetical character
 		s.next()
 		return token.StringBackslash, string(s.src[offs:s.offset])
-- 
2.43.0


From 47c89e2a9847cf15a4ffceaa83aecea97384f0d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:52 +0000
Subject: [PATCH 41/48] fix: keep the backslash of macros in the address of a
 url macro

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index 40daa82..f24f49f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -434,6 +434,9 @@ func (p *parser) parseMacroURL(name string) ast.Expr {
 			sb.WriteString("}")
 		case token.StringMath:
 			sb.WriteString("$" + p.lit + "$")
+		case token.StringMacro:
+			// The literal of a symbol macro already has the backslash.
+			sb.WriteString(`\` + strings.TrimPrefix(p.lit, `\`))
 		default:
 			sb.WriteString(p.lit)
 		}
-- 
2.43.0


From 98116fb82784c6e181b267d52bec0f51ee081215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 42/48] fix: read dotless letters as the argument of an accent

---
 parser/parser.go   |  4 ++++
 scanner/scanner.go | 11 +++++++++++
 2 files changed, 15 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index f24f49f..b23f796 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -638,6 +638,10 @@ func (p *parser) parseStringAccent() ast.Expr {
 		value = value[1 : len(value)-1]
 		valuePos++
 	}
+	if value[0] == '\\' { // a dotless letter, like \i
+		value = value[1:]
+		valuePos++
+	}
 	return &ast.TextAccent{
 		ValuePos: pos,
 		Accent:   token.Accent(lit[1]),
diff --git a/scanner/scanner.go b/scanner/scanner.go
index 0925d61..bbe339f 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -346,6 +346,7 @@ func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 	}
 	if s.ch == '{' {
 		s.next() // consume left brace '{'
+		s.skipDotlessBackslash()
 		if !IsAsciiLetter(s.ch) {
 			s.errorf(offs, "expected braced ascii letter after accent sequence %q , got %q", string(s.src[offs:s.offset-1]), s.ch)
 			return token.Illegal, ""
@@ -357,6 +358,7 @@ func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 		}
 		s.next() // consume right brace
 	} else {
+		s.skipDotlessBackslash()
 		if !IsAsciiLetter(s.ch) {
 			s.errorf(offs, "expected ascii letter after accent sequence %q , got %q", string(s.src[offs:s.offset-1]), s.ch)
 			return token.Illegal, ""
@@ -366,6 +368,15 @@ func (s *Scanner) scanSpecialCharStringAccent() (token.Token, string) {
 	return token.StringAccent, string(s.src[offs:s.offset])
 }
 
+// skipDotlessBackslash consumes the backslash of a dotless letter, \i or \j, at
+// the end of a group, like in {\'\i} and \'{\i}.
+func (s *Scanner) skipDotlessBackslash() {
+	rest := s.src[s.rdOffset:]
+	if s.ch == '\\' && len(rest) > 1 && (rest[0] == 'i' || rest[0] == 'j') && rest[1] == '}' {
+		s.next()
+	}
+}
+
 func (s *Scanner) isSpecialStringChar(ch rune) bool {
 	if ch == '"' {
 		// A double quote is only special at brace depth 0 when we started the
-- 
2.43.0


From 820ed602de5c1cb23f8e2409a591e0a1d76a7f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:46 +0000
Subject: [PATCH 43/48] fix: report a nil renderer as missing instead of
 calling it

---
 bibtex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bibtex.go b/bibtex.go
index 1c1033c..86f11c0 100644
--- a/bibtex.go
+++ b/bibtex.go
@@ -107,6 +107,10 @@ func WithResolvers(rs ...Resolver) Option {
 // renderer.
 func WithRenderer(kind ast.NodeKind, r render.NodeRendererFunc) Option {
 	return func(b *Biber) {
+		if r == nil {
+			b.renderers[kind] = nil // not an interface that holds a nil func
+			return
+		}
 		b.renderers[kind] = r
 	}
 }
-- 
2.43.0


From bb80aad27d5beec6236a97de645285a3ec820005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:32 +0000
Subject: [PATCH 44/48] fix: report unbalanced right braces in raw quoted
 strings

---
 scanner/scanner.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scanner/scanner.go b/scanner/scanner.go
index bbe339f..6acae10 100644
--- a/scanner/scanner.go
+++ b/scanner/scanner.go
@@ -233,8 +233,11 @@ func (s *Scanner) scanString() string {
 		if ch == '"' {
 			break
 		}
-		if ch == '{' {
+		switch ch {
+		case '{':
 			s.scanBraceString()
+		case '}':
+			s.error(s.offset-1, "unbalanced right brace in string literal")
 		}
 	}
 	return string(s.src[offs : s.offset-1])
-- 
2.43.0


From bc6d547d700d836f8ae25702ff38261faae5cf46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:33 +0000
Subject: [PATCH 45/48] fix: report abbreviation names that do not start with a
 letter

---
 parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parser/parser.go b/parser/parser.go
index b23f796..bf1296f 100644
--- a/parser/parser.go
+++ b/parser/parser.go
@@ -609,6 +609,9 @@ func (p *parser) parseTagStmt() *ast.TagStmt {
 	}
 	doc := p.leadComment
 	key := p.parseIdent()
+	if !isValidTagName(key) {
+		p.error(key.Pos(), "tag keys must not start with a number")
+	}
 	p.expect(token.Assign)
 	val := p.parseExpr()
 	p.expectOptionalTagComma()
-- 
2.43.0


From d235bc3f2fb729b4613ed3a3f0fbb055e82a1310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:29 +0000
Subject: [PATCH 46/48] fix: keep the keys of a WithBibKeys option for its next
 use

---
 asts/asts.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asts/asts.go b/asts/asts.go
index 6787a2c..ba06741 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -260,11 +260,11 @@ func WithBibType(s string) func(decl *ast.BibDecl) {
 
 func WithBibKeys(ts ...string) func(decl *ast.BibDecl) {
 	return func(b *ast.BibDecl) {
-		if len(ts) > 0 {
-			b.Key = &ast.Ident{Name: ts[0]}
-			ts = ts[1:]
-		}
-		for _, k := range ts {
+		for i, k := range ts {
+			if i == 0 {
+				b.Key = &ast.Ident{Name: k}
+				continue
+			}
 			b.ExtraKeys = append(b.ExtraKeys, &ast.Ident{Name: k})
 		}
 	}
-- 
2.43.0


From 38dcd189a7ec21538cd811e3d74a03a9d302472c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:31 +0000
Subject: [PATCH 47/48] fix: pass the depth of BraceText on to its groups

---
 asts/asts.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asts/asts.go b/asts/asts.go
index ba06741..8c94829 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -41,6 +41,10 @@ func BraceTextExpr(depth int, ss ...ast.Expr) *ast.ParsedText {
 func BraceText(depth int, ss ...interface{}) *ast.ParsedText {
 	xs := make([]ast.Expr, len(ss))
 	for i, s := range ss {
+		if str, ok := s.(string); ok {
+			xs[i] = ParseStringExpr(depth, str)
+			continue
+		}
 		xs[i] = ParseAny(s)
 	}
 	return &ast.ParsedText{
-- 
2.43.0


From c420fc45c54a5cae51d4be932b040f258b974e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:14:34 +0000
Subject: [PATCH 48/48] fix: do not panic on a lone dollar sign in
 ParseStringExpr

---
 asts/asts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asts/asts.go b/asts/asts.go
index 8c94829..4d87fab 100644
--- a/asts/asts.go
+++ b/asts/asts.go
@@ -70,7 +70,7 @@ func ParseStringExpr(depth int, s string) ast.Expr {
 	switch {
 	case strings.TrimSpace(s) == "":
 		return Space()
-	case strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
+	case len(s) >= 2 && strings.HasPrefix(s, "$") && strings.HasSuffix(s, "$"):
 		bs := []byte(s)
 		return Math(string(bs[1 : len(bs)-1]))
 	case s == "~":
-- 
2.43.0


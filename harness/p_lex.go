package main

// C35: the lexical grammar.

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

// lexTok is a token of the reference lexer.
type lexTok struct {
	off, end int
	tok      token.Token
	lit      string
}

// lexer is a lexer for the lexical grammar of bibliographies. It stops at the
// first error, or where the grammar doesn't say what follows.
type lexer struct {
	src     string
	strings bool // read the contents of strings
	at      int
	toks    []lexTok
	err     string // why it stopped at an error
	unspec  string // why it stopped without an error
}

func isAnyLetter(r rune) bool {
	return r == '_' || r < utf8.RuneSelf && isASCIILetter(byte(r)) || r >= utf8.RuneSelf && unicode.IsLetter(r)
}

func (l *lexer) add(tok token.Token, from, to int, lit string) {
	l.toks = append(l.toks, lexTok{from, to, tok, lit})
	l.at = to
}

func (l *lexer) run(ok func(b byte) bool, from int) int {
	for from < len(l.src) && ok(l.src[from]) {
		from++
	}
	return from
}

func (l *lexer) fail(format string, args ...any) { l.err = fmt.Sprintf(format, args...) }

func (l *lexer) lex() {
	prev := token.Illegal
	punct := map[byte]token.Token{',': token.Comma, '=': token.Assign, '}': token.RBrace, '#': token.Concat, '(': token.LParen, ')': token.RParen}
	if strings.HasPrefix(l.src, "\ufeff") {
		l.at = len("\ufeff")
	}
	for l.err == "" && l.unspec == "" {
		l.at = l.run(isSpaceByte, l.at)
		if l.at == len(l.src) {
			l.add(token.EOF, l.at, l.at, "")
			return
		}
		n := len(l.toks)
		at, c := l.at, l.src[l.at]
		switch {
		case c == '%':
			end := l.run(func(b byte) bool { return b != '\n' }, at)
			l.add(token.TexComment, at, end, l.src[at:end])
			continue // a brace behind a comment is read as without it
		case isNameByte(c):
			end := l.run(isNameByte, at)
			if s := l.src[at:end]; strings.Trim(s, digits) == "" {
				l.add(token.Number, at, end, s)
			} else {
				l.add(token.Ident, at, end, s)
			}
		case c == '@':
			end := at + 1
			for end < len(l.src) {
				r, w := utf8.DecodeRuneInString(l.src[end:])
				if !isAnyLetter(r) {
					break
				}
				end += w
			}
			s := l.src[at:end]
			tok := token.BibEntry
			switch asciiLower(s) {
			case "@":
				l.fail("no command")
			case "@string":
				tok = token.Abbrev
			case "@comment":
				tok = token.Comment
			case "@preamble":
				tok = token.Preamble
			default:
				for _, w := range []string{"@string", "@comment", "@preamble"} {
					if strings.EqualFold(w, s) {
						l.unspec = "command word with letters that fold to ASCII"
					}
				}
			}
			if l.err == "" && l.unspec == "" {
				l.add(tok, at, end, s)
			}
		case c == '"':
			l.str(at, c)
		case c == '{':
			switch prev {
			case token.Assign, token.LBrace, token.LParen, token.Concat:
				l.str(at, '}')
			default:
				l.add(token.LBrace, at, at+1, "")
			}
		case punct[c] != 0:
			l.add(punct[c], at, at+1, "")
		default:
			l.fail("illegal character")
		}
		if len(l.toks) > n {
			prev = l.toks[len(l.toks)-1].tok
			if l.toks[n].tok == token.StringLBrace || l.toks[n].tok == token.DoubleQuote {
				prev = token.String
			}
		}
	}
}

// str reads a string.
func (l *lexer) str(at int, cl byte) {
	if l.strings {
		l.contents(at, cl)
		return
	}
	depth := 0
	for i := at + 1; i < len(l.src); i++ {
		switch c := l.src[i]; {
		case c == cl && depth == 0:
			tok := token.BraceString
			if cl == '"' {
				tok = token.String
			}
			l.add(tok, at, i+1, l.src[at+1:i])
			return
		case c == '{':
			depth++
		case c == '}' && depth == 0:
			l.fail("closing brace in a quoted string")
			return
		case c == '}':
			depth--
		}
	}
	l.fail("string not closed")
}

func (l *lexer) contents(at int, cl byte) {
	opener := token.StringLBrace
	if cl == '"' {
		opener = token.DoubleQuote
	}
	l.add(opener, at, at+1, "")
	depth := 0
	for l.err == "" && l.unspec == "" {
		at := l.at
		if at == len(l.src) {
			l.fail("string not closed")
			return
		}
		switch c := l.src[at]; {
		case c == '"' && cl == '"' && depth == 0:
			l.add(token.DoubleQuote, at, at+1, "")
			return
		case c == '}' && depth == 0:
			if cl == '"' {
				l.unspec = "closing brace in a quoted string"
				return
			}
			l.add(token.StringRBrace, at, at+1, "")
			return
		case c == '{':
			depth++
			l.add(token.StringLBrace, at, at+1, "")
		case c == '}':
			depth--
			l.add(token.StringRBrace, at, at+1, "")
		case isSpaceByte(c):
			l.add(token.StringSpace, at, l.run(isSpaceByte, at), "")
		case c == ',':
			l.add(token.StringComma, at, at+1, ",")
		case c == '~':
			l.add(token.StringNBSP, at, at+1, "~")
		case c == '$':
			l.math(at)
		case c == '\\':
			l.escape(at)
		default:
			end := l.run(func(b byte) bool {
				return strings.IndexByte(`${},~\`, b) < 0 && !isSpaceByte(b) && (b != '"' || cl != '"' || depth > 0)
			}, at)
			l.add(token.StringContents, at, end, l.src[at:end])
		}
	}
}

func (l *lexer) math(at int) {
	for i := at + 1; i < len(l.src); i++ {
		switch l.src[i] {
		case '$':
			l.add(token.StringMath, at, i+1, l.src[at+1:i])
			return
		case '\n':
			l.fail("math not closed")
			return
		case '\\':
			i++
			if i < len(l.src) && l.src[i] == '\n' {
				l.unspec = "escaped newline in math"
				return
			}
		}
	}
	l.fail("math not closed")
}

func (l *lexer) escape(at int) {
	rest := l.src[at+1:]
	if rest == "" {
		l.fail("backslash at the end")
		return
	}
	letter := func(i int) bool { return i < len(rest) && isASCIILetter(rest[i]) }
	switch c := rest[0]; {
	case strings.IndexByte(`\$&%{}_#`, c) >= 0:
		l.add(token.StringBackslash, at, at+2, l.src[at:at+2])
		return
	case strings.IndexByte(",;[]()", c) >= 0:
		l.add(token.StringMacro, at, at+2, l.src[at:at+2])
		return
	case strings.IndexByte("'^.`~\"", c) >= 0, c == 'c' && !(letter(1) && letter(2)):
		i := 1
		for i < len(rest) && rest[i] == ' ' {
			i++
		}
		braced := i < len(rest) && rest[i] == '{'
		if braced {
			i++
		}
		if i+2 < len(rest) && rest[i] == '\\' && (rest[i+1] == 'i' || rest[i+1] == 'j') && rest[i+2] == '}' {
			i++
		}
		if !letter(i) {
			l.fail("accent without a letter")
			return
		}
		i++
		if braced {
			if i == len(rest) || rest[i] != '}' {
				l.fail("accent on more than a letter")
				return
			}
			i++
		}
		l.add(token.StringAccent, at, at+1+i, l.src[at:at+1+i])
		return
	}
	end := l.run(isASCIILetter, at+1)
	if end == at+1 {
		l.fail("no macro name")
		return
	}
	l.add(token.StringMacro, at, end, l.src[at+1:end])
}

// firstBadByte returns the offset of the first byte that may not stand in any
// source: NUL, bytes that aren't UTF-8, and byte-order marks other than at the
// start.
func firstBadByte(src string) int {
	for i := 0; i < len(src); {
		r, w := utf8.DecodeRuneInString(src[i:])
		if r == 0 || r == utf8.RuneError && w == 1 || r == 0xfeff && i > 0 {
			return i
		}
		i += w
	}
	return len(src)
}

type lexCase struct {
	Src   Src
	Mode  scanner.Mode
	Class int  `json:",omitempty"` // the class of a token rather than a source: its number and 1
	Runes bool `json:",omitempty"` // the classes of all characters
}

// tokenClasses are the tokens of each class.
var tokenClasses = map[string][]token.Token{
	"command":  {token.Abbrev, token.Comment, token.Preamble, token.BibEntry},
	"literal":  {token.Ident, token.String, token.BraceString, token.Number},
	"string":   {token.DoubleQuote, token.StringLBrace, token.StringRBrace, token.StringSpace, token.StringNBSP, token.StringContents, token.StringHyphen, token.StringMath, token.StringComma, token.StringBackslash, token.StringAccent, token.StringMacro},
	"operator": {token.Assign, token.LParen, token.LBrace, token.RParen, token.RBrace, token.Concat, token.Comma},
	"none":     {token.Illegal, token.EOF, token.TexComment},
}

func checkClass(t token.Token) error {
	for class, toks := range tokenClasses {
		for _, x := range toks {
			if x != t {
				continue
			}
			for name, got := range map[string]bool{"command": t.IsCommand(), "literal": t.IsLiteral(), "string": t.IsStringLiteral(), "operator": t.IsOperator()} {
				if got != (name == class) {
					return fmt.Errorf("token %d (%v) of class %s: is a %s: %v", int(t), t, class, name, got)
				}
			}
		}
	}
	return nil
}

func checkLex(c lexCase, o *Obs) error {
	if c.Runes {
		o.Label("classes of characters")
		for r := rune(-2); r <= utf8.MaxRune+1; r++ {
			ascii := 0 <= r && r < utf8.RuneSelf
			if got, want := scanner.IsName(r), ascii && isNameByte(byte(r)); got != want {
				return fmt.Errorf("IsName(%q) is %v", r, got)
			}
			if got, want := scanner.IsAsciiLetter(r), ascii && isASCIILetter(byte(r)); got != want {
				return fmt.Errorf("IsAsciiLetter(%q) is %v", r, got)
			}
		}
		return nil
	}
	if c.Class > 0 {
		o.Label("class of a token")
		return checkClass(token.Token(c.Class - 1))
	}
	src := string(c.Src)
	comments := c.Mode&scanner.ScanComments != 0
	l := &lexer{src: src, strings: c.Mode&scanner.ScanStrings != 0}
	l.lex()
	want := l.toks
	bad := firstBadByte(src)
	wrong := l.err != "" || bad < len(src) && bad < l.at || l.unspec == "" && bad < len(src)
	for len(want) > 0 && bad < len(src) && want[len(want)-1].end > bad {
		want = want[:len(want)-1]
	}
	var s scanner.Scanner
	var errs []scanErr
	f := initScanner(&s, src, c.Mode, 0, &errs)
	got, err := scanAll(&s, f, &errs)
	if err != nil {
		return err
	}
	if !comments {
		// Whether they are returned isn't said.
		want = withoutLexComments(want)
		got = withoutScanComments(got)
	}
	for i, w := range want {
		if i >= len(got) {
			return fmt.Errorf("%d tokens, want %v %q at %d behind them", len(got), w.tok, w.lit, w.off)
		}
		g := got[i]
		lit, glit := w.lit, g.lit
		switch w.tok {
		case token.StringSpace, token.StringLBrace, token.StringRBrace, token.DoubleQuote, token.LBrace, token.RBrace, token.LParen, token.RParen, token.Comma, token.Assign, token.Concat, token.EOF, token.StringComma, token.StringNBSP:
			lit, glit = "", ""
		case token.StringMacro:
			lit, glit = strings.TrimPrefix(lit, `\`), strings.TrimPrefix(glit, `\`)
		}
		if g.off != w.off || g.tok != w.tok || lit != glit {
			return fmt.Errorf("token %d is %v %q at %d, want %v %q at %d", i, g.tok, g.lit, g.off, w.tok, w.lit, w.off)
		}
		o.Label(w.tok.String())
	}
	o.LabelIf(wrong, "lexical error")
	if l.unspec != "" {
		o.Label("unspecified")
	}
	switch {
	case wrong && len(errs) == 0:
		return fmt.Errorf("no error, but %s (bad byte at %d) behind offset %d", l.err, bad, l.at)
	case !wrong && l.unspec == "" && len(errs) > 0:
		return fmt.Errorf("error %q at %v, but the source follows the lexical grammar", errs[0].msg, errs[0].pos)
	case !wrong && l.unspec == "" && len(got) != len(want):
		return fmt.Errorf("%d tokens, want %d", len(got), len(want))
	}
	if len(want) > 3 {
		o.NonTrivial(src, fmt.Sprint(c.Mode))
	}
	o.LabelIf(len(want) > 20, "more than 20 tokens")
	return nil
}

func withoutLexComments(in []lexTok) []lexTok {
	var out []lexTok
	for _, t := range in {
		if t.tok != token.TexComment {
			out = append(out, t)
		}
	}
	return out
}

func withoutScanComments(in []scanned) []scanned {
	var out []scanned
	for _, t := range in {
		if t.tok != token.TexComment {
			out = append(out, t)
		}
	}
	return out
}

func genLexCase(g G) lexCase {
	c := lexCase{Mode: scanner.Mode(g.n(4))}
	switch k := g.n(20); {
	case k < 4:
		c.Src = Src(g.anySource())
	case k < 8:
		pr := g.print(g.doc(docCfg{decls: 2, raw: c.Mode&scanner.ScanStrings == 0}), layoutCfg{comments: true})
		c.Src = pr.Src
		if g.chance(50) {
			c.Src = Src(g.mutate(string(c.Src), 1+g.n(3)))
		}
	case k < 13:
		// A string.
		op, cl := `"`, `"`
		if g.chance(50) {
			op, cl = pick(g, "={", "#{", "({", "{{", "={%\n"), "}"
		}
		c.Src = Src(op + g.soup(stringFragments, 0, 14) + cl + g.soup(lexFragments, 0, 4))
	case k < 15:
		c.Src = Src(g.soup(lexFragments, 0, 30))
	default:
		// Bytes that matter.
		var b strings.Builder
		for _, s := range list(g, 0, 24, func(g G) string {
			if g.chance(20) {
				return pick(g, lexFragments...)
			}
			return string("@{}(),=#\"%\\$~ \n\t\r-_a1cZi'^.`;[]&!+*|/?<>:j"[g.n(42)])
		}) {
			b.WriteString(s)
		}
		c.Src = Src(b.String())
		if g.chance(50) {
			c.Src = Src(pick(g, `"`, "={", "({")) + c.Src
		}
	}
	return c
}

var lexFragments = []string{
	"@", "@a", "@string", "@STRING", "@String", "@strings", "@strin", "@comment", "@Comment", "@comments", "@preamble", "@PreAmble", "@preambles",
	"@_", "@é", "@a1", "@a-b", "@article{", "@日本", "{", "}", "(", ")", "=", "#", ",", "={", "#{", "({", "{{", "=%x\n{", "= {x}", "={}", `""`, `"x"`,
	"a", "1", "12", "1a", "a1", "0", "12-", "-12", "10.1/2", "a_b", "!", "$", "&", "*", "+", "-", ".", "/", ":", ";", "<", ">", "?", "[", "]", "^", "_", "`", "|",
	" ", "\n", "\t", "\r\n", "\r", "%", "% x\n", "%%\n", "%\r\n", "~", "\\", "'", "é", "\u00a0", "\ufeff", "\x00", "\xff", "\v", "\f",
	`\'e`, `\c c`, `\'{\i}`, `\url{x}`, "$x$", `{\"{\j}}`, "\u212a", "@\u017ftring", "@comm\u212ant",
}

func init() {
	classes := []lexCase{{Runes: true}}
	for t := token.Illegal; t <= token.Comma; t++ {
		classes = append(classes, lexCase{Class: int(t) + 1})
	}
	register(Def[lexCase]{
		ID:    "C35",
		Rule:  "sources of any shape, well-formed ones, and sequences of lexical fragments and of single characters, scanned in every mode and compared with a reference lexer up to the first error; also the class of every token and character; non-trivial: more than three tokens compared; distinct by source and mode",
		Quick: 1000000, Thorough: 30000000,
		Gen:   genLexCase,
		Enum:  func() []lexCase { return classes },
		Check: checkLex,
		FromSrc: func(mode byte, src string) lexCase {
			return lexCase{Src: Src(src), Mode: scanner.Mode(mode & 3)}
		},
		Shrink: func(c lexCase, fails func(lexCase) bool, more func() bool) lexCase {
			c.Src = Src(shrinkText(string(c.Src), func(s string) bool {
				d := c
				d.Src = Src(s)
				return fails(d)
			}, more))
			return c
		},
	})
}

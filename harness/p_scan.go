package main

// C11: the token stream.

import (
	"fmt"
	gotok "go/token"
	"strings"

	"github.com/jschaf/bibtex/scanner"
	"github.com/jschaf/bibtex/token"
)

type scanCase struct {
	Src  Src
	Mode scanner.Mode
	Prev Src // scanned before with the same scanner, PrevN tokens of it
	// PrevMode is the mode of the previous scan.
	PrevN    int
	PrevMode scanner.Mode
	Pad      int
}

type scanned struct {
	off int
	tok token.Token
	lit string
	// errsBefore and errsAfter count the errors before and after the call.
	errsBefore, errsAfter int
}

type scanErr struct {
	pos gotok.Position
	msg string
}

// initScanner initializes a scanner for src with an error handler that records
// errors, or with none.
func initScanner(s *scanner.Scanner, src string, mode scanner.Mode, pad int, errs *[]scanErr) *gotok.File {
	fset := gotok.NewFileSet()
	if pad > 0 {
		fset.AddFile("other.bib", -1, pad-1)
	}
	f := fset.AddFile("some.bib", -1, len(src))
	var h scanner.ErrorHandler
	if errs != nil {
		h = func(pos gotok.Position, msg string) { *errs = append(*errs, scanErr{pos, msg}) }
	}
	s.Init(f, []byte(src), h, mode)
	return f
}

// scanAll scans to the end and three tokens further.
func scanAll(s *scanner.Scanner, f *gotok.File, errs *[]scanErr) ([]scanned, error) {
	var out []scanned
	for n := 0; ; n++ {
		if n > f.Size()+2 {
			return out, fmt.Errorf("no end of file after %d tokens of a source of %d bytes", n, f.Size())
		}
		before := s.ErrorCount
		pos, tok, lit := s.Scan()
		off := int(pos) - f.Base()
		if off < 0 || off > f.Size() {
			return out, fmt.Errorf("token %v at offset %d of a source of %d bytes", tok, off, f.Size())
		}
		out = append(out, scanned{off, tok, lit, before, s.ErrorCount})
		if errs != nil && len(*errs) != s.ErrorCount {
			return out, fmt.Errorf("ErrorCount is %d after %d calls of the error handler", s.ErrorCount, len(*errs))
		}
		if tok == token.EOF {
			break
		}
	}
	for i := 0; i < 3; i++ {
		pos, tok, lit := s.Scan()
		last := out[len(out)-1]
		if tok != token.EOF || int(pos)-f.Base() != last.off || lit != last.lit || s.ErrorCount != last.errsAfter {
			return out, fmt.Errorf("after the end of file at %d: %v %q at %d", last.off, tok, lit, int(pos)-f.Base())
		}
	}
	return out, nil
}

// tokenSource returns the source text of a token that starts at the beginning
// of rest, or ok false if that text isn't defined.
func tokenSource(t scanned, rest string) (text string, ok bool, err error) {
	check := func(cond bool, what string) {
		if !cond && err == nil {
			err = fmt.Errorf("%s has literal %q", what, t.lit)
		}
	}
	switch t.tok {
	case token.Illegal:
		return "", false, nil
	case token.EOF:
		return "", true, nil
	case token.TexComment:
		check(strings.HasPrefix(t.lit, "%") && !strings.Contains(t.lit, "\n"), "comment")
		return t.lit, true, err
	case token.Abbrev, token.Comment, token.Preamble, token.BibEntry:
		check(strings.HasPrefix(t.lit, "@"), "command")
		is := map[token.Token]string{token.Abbrev: "@string", token.Comment: "@comment", token.Preamble: "@preamble"}
		if w, ok := is[t.tok]; ok {
			check(strings.EqualFold(t.lit, w), "command "+w)
		}
		return t.lit, true, err
	case token.Ident:
		check(t.lit != "" && strings.Trim(t.lit, digits) != "", "identifier")
		for i := 0; i < len(t.lit); i++ {
			check(isNameByte(t.lit[i]), "identifier")
		}
		return t.lit, true, err
	case token.Number:
		check(t.lit != "" && strings.Trim(t.lit, digits) == "", "number")
		return t.lit, true, err
	case token.String, token.BraceString:
		open, cl := `"`, `"`
		if t.tok == token.BraceString {
			open, cl = "{", "}"
		}
		if t.errsAfter > t.errsBefore && len(rest) == 1+len(t.lit) {
			cl = "" // not terminated
		}
		return open + t.lit + cl, true, nil
	case token.DoubleQuote:
		return `"`, true, nil
	case token.StringLBrace, token.LBrace:
		return "{", true, nil
	case token.StringRBrace, token.RBrace:
		return "}", true, nil
	case token.StringSpace:
		n := 0
		for n < len(rest) && isSpaceByte(rest[n]) {
			n++
		}
		if n == 0 {
			return "", false, fmt.Errorf("no white space")
		}
		return rest[:n], true, nil
	case token.StringNBSP:
		return "~", true, nil
	case token.StringComma, token.Comma:
		return ",", true, nil
	case token.StringHyphen:
		return "-", true, nil
	case token.StringContents, token.StringAccent, token.StringBackslash:
		check(t.lit != "", "text")
		check(t.tok == token.StringContents || len(t.lit) > 1 && t.lit[0] == '\\', "escape")
		return t.lit, true, err
	case token.StringMath:
		return "$" + t.lit + "$", true, nil
	case token.StringMacro:
		check(strings.TrimPrefix(t.lit, `\`) != "", "macro")
		return `\` + strings.TrimPrefix(t.lit, `\`), true, err
	case token.Assign:
		return "=", true, nil
	case token.LParen:
		return "(", true, nil
	case token.RParen:
		return ")", true, nil
	case token.Concat:
		return "#", true, nil
	}
	return "", false, fmt.Errorf("unknown token %v", t.tok)
}

// onlyLayout tells whether a gap between tokens holds nothing but white space
// and, if the mode doesn't ask for them, comments.
func onlyLayout(s string, comments bool) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '%' && !comments {
			n := strings.IndexByte(s[i:], '\n')
			if n < 0 {
				return true
			}
			i += n
			continue
		}
		if !isSpaceByte(s[i]) {
			return false
		}
	}
	return true
}

func checkScan(c scanCase, o *Obs) error {
	src := string(c.Src)
	var s scanner.Scanner
	var errs []scanErr
	f := initScanner(&s, src, c.Mode, c.Pad, &errs)
	toks, err := scanAll(&s, f, &errs)
	if err != nil {
		return err
	}
	if len(toks) > 1 {
		o.NonTrivial(src, fmt.Sprint(c.Mode))
	}
	o.LabelIf(len(errs) > 0, "has errors")
	o.LabelIf(len(errs) == 0, "no errors")
	o.LabelIf(len(toks) > 20, "more than 20 tokens")

	prevEnd := 0
	if strings.HasPrefix(src, "\ufeff") {
		prevEnd = len("\ufeff")
	}
	known := true // prevEnd is the end of the previous token
	prevOff := -1
	ref := newRefPositions("some.bib", src)
	for i, t := range toks {
		o.Label(t.tok.String())
		what := fmt.Sprintf("token %d (%v %q at %d)", i, t.tok, t.lit, t.off)
		if t.off < prevOff || t.off < prevEnd {
			return fmt.Errorf("%s starts before the end of its predecessor at %d", what, max(prevEnd, prevOff))
		}
		if t.off == prevOff && !(t.tok == token.EOF && t.off == len(src)) {
			return fmt.Errorf("%s makes no progress", what)
		}
		if known && !onlyLayout(src[prevEnd:t.off], c.Mode&scanner.ScanComments != 0) {
			return fmt.Errorf("%s: %q was skipped before it", what, src[prevEnd:t.off])
		}
		if t.tok == token.EOF && t.off != len(src) {
			return fmt.Errorf("%s in a source of %d bytes", what, len(src))
		}
		text, ok, err := tokenSource(t, src[t.off:])
		if err != nil {
			return fmt.Errorf("%s: %w", what, err)
		}
		if ok && !strings.HasPrefix(src[t.off:], text) {
			return fmt.Errorf("%s isn't the source %q", what, head(src[t.off:], 40))
		}
		known = ok
		prevOff = t.off
		if ok {
			prevEnd = t.off + len(text)
		} else {
			prevEnd = t.off
		}
		if t.tok == token.Illegal {
			// The error is reported during the call or when the character was read
			// ahead of it.
			hit := t.errsAfter > t.errsBefore
			for _, e := range errs {
				if hit {
					break
				}
				if e.pos.Offset >= t.off && (i+1 == len(toks) || e.pos.Offset <= toks[i+1].off) {
					hit = true
				}
			}
			if !hit {
				return fmt.Errorf("%s without an error", what)
			}
		}
		if got := f.Position(gotok.Pos(t.off + f.Base())); t.off < len(src) && got != ref.at(t.off) {
			return fmt.Errorf("%s: position %v, want %v", what, got, ref.at(t.off))
		}
	}
	for _, e := range errs {
		if e.pos.Offset < 0 || e.pos.Offset > len(src) || e.msg == "" {
			return fmt.Errorf("error %q at offset %d of a source of %d bytes", e.msg, e.pos.Offset, len(src))
		}
	}

	same := func(what string, got []scanned) error {
		for i := 0; i < len(toks) || i < len(got); i++ {
			if i >= len(toks) || i >= len(got) || toks[i] != got[i] {
				return fmt.Errorf("%s: token %d differs: %v / %v", what, i, toks[min(i, len(toks)-1)], got[min(i, len(got)-1)])
			}
		}
		return nil
	}

	// Without error handler.
	var s2 scanner.Scanner
	f2 := initScanner(&s2, src, c.Mode, c.Pad, nil)
	toks2, err := scanAll(&s2, f2, nil)
	if err != nil {
		return fmt.Errorf("without error handler: %w", err)
	}
	if err := same("without error handler", toks2); err != nil {
		return err
	}

	// With a scanner that was used before.
	var ignored, errs3 []scanErr
	var s3 scanner.Scanner
	initScanner(&s3, string(c.Prev), c.PrevMode, 0, &ignored)
	for i := 0; i < c.PrevN; i++ {
		s3.Scan()
	}
	f3 := initScanner(&s3, src, c.Mode, c.Pad, &errs3)
	toks3, err := scanAll(&s3, f3, &errs3)
	if err != nil {
		return fmt.Errorf("initialized again: %w", err)
	}
	if err := same("initialized again", toks3); err != nil {
		return err
	}
	if fmt.Sprint(errs) != fmt.Sprint(errs3) {
		return fmt.Errorf("initialized again: errors %v, not %v", errs3, errs)
	}
	// The same file again: its lines are known already.
	var errs4 []scanErr
	s3.Init(f3, []byte(src), func(pos gotok.Position, msg string) { errs4 = append(errs4, scanErr{pos, msg}) }, c.Mode)
	toks4, err := scanAll(&s3, f3, &errs4)
	if err != nil {
		return fmt.Errorf("same file again: %w", err)
	}
	return same("same file again", toks4)
}

func init() {
	register(Def[scanCase]{
		ID:    "C11",
		Rule:  "sources of any shape scanned in every mode with a new scanner, without error handler, and with a scanner that was stopped at a random token of another source; non-trivial: at least one token before the end of file; distinct by source and mode",
		Quick: 1000000, Thorough: 30000000,
		Gen: func(g G) scanCase {
			c := scanCase{Src: Src(g.anySource()), Mode: scanner.Mode(g.n(4))}
			if g.chance(20) {
				// The contents of a string, scanned as a source.
				c.Src = Src(pick(g, `"`, "={", "#{") + g.soup(stringFragments, 0, 10))
			}
			c.Prev = Src(g.soup(fragments, 0, 8))
			if g.chance(50) {
				c.Prev = Src(pick(g, `"`, "={", "({") + g.soup(stringFragments, 0, 6))
			}
			c.PrevN, c.PrevMode = g.n(12), scanner.Mode(g.n(4))
			if g.chance(20) {
				c.Pad = 1 + g.n(50)
			}
			return c
		},
		Check: checkScan,
		FromSrc: func(mode byte, src string) scanCase {
			return scanCase{Src: Src(src), Mode: scanner.Mode(mode & 3)}
		},
		Shrink: func(c scanCase, fails func(scanCase) bool, more func() bool) scanCase {
			for _, f := range []func(c *scanCase) *Src{func(c *scanCase) *Src { return &c.Prev }, func(c *scanCase) *Src { return &c.Src }} {
				*f(&c) = Src(shrinkText(string(*f(&c)), func(s string) bool {
					d := c
					*f(&d) = Src(s)
					return fails(d)
				}, more))
			}
			return c
		},
	})
}

package main

// The recognizer reads an accepted source from left to right along the tree
// and reports the first byte or element that has no counterpart.

import (
	"fmt"
	gotok "go/token"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
)

type recog struct {
	src      string
	i        int
	base     int
	pos      bool // check positions, too
	elems    int
	comments []int // offsets
}

type recogErr struct{ msg string }

func (r *recog) fail(format string, args ...any) {
	lo := max(0, r.i-20)
	panic(recogErr{fmt.Sprintf("at offset %d (after %q, before %q): ", r.i, r.src[lo:r.i], head(r.src[r.i:], 30)) + fmt.Sprintf(format, args...)})
}

// recognize reads src along the tree of an accepted file.
func recognize(src string, f *ast.File, base int, pos bool) (r *recog, err error) {
	r = &recog{src: src, base: base, pos: pos}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case recogErr:
			err = fmt.Errorf("%s", e.msg)
		default:
			panic(e)
		}
	}()
	r.i += len("\ufeff") * b2i(strings.HasPrefix(src, "\ufeff"))
	r.layout()
	for _, d := range f.Entries {
		r.decl(d)
		r.layout()
	}
	if r.i < len(src) {
		r.fail("the tree ends here")
	}
	return r, nil
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func (r *recog) peek() byte {
	if r.i < len(r.src) {
		return r.src[r.i]
	}
	return 0
}

func (r *recog) layout() {
	for r.i < len(r.src) {
		switch c := r.src[r.i]; {
		case isSpaceByte(c):
			r.i++
		case c == '%':
			r.comments = append(r.comments, r.i)
			if n := strings.IndexByte(r.src[r.i:], '\n'); n >= 0 {
				r.i += n
			} else {
				r.i = len(r.src)
			}
		default:
			return
		}
	}
}

func (r *recog) lit(s, what string) {
	if !strings.HasPrefix(r.src[r.i:], s) {
		r.fail("want %s %q", what, s)
	}
	r.i += len(s)
}

// optComma reads layout and at most one comma.
func (r *recog) optComma() bool {
	r.layout()
	if r.peek() == ',' {
		r.i++
		return true
	}
	return false
}

// at checks the position of a node against the place of the reader.
func (r *recog) at(what string, p gotok.Pos) {
	r.elems++
	if r.pos && int(p)-r.base != r.i {
		r.fail("%s has position %d", what, int(p)-r.base)
	}
}

func (r *recog) atEnd(what string, p gotok.Pos) {
	if r.pos && int(p)-r.base != r.i {
		r.fail("%s ends at %d", what, int(p)-r.base)
	}
}

func (r *recog) opener() byte {
	c := r.peek()
	if c != '{' && c != '(' {
		r.fail("want an opening delimiter")
	}
	r.i++
	if c == '{' {
		return '}'
	}
	return ')'
}

func (r *recog) closer(c byte, p gotok.Pos) {
	if r.peek() != c {
		r.fail("want the closing delimiter %q", c)
	}
	r.at("closing delimiter", p)
	r.i++
}

// word reads '@' and letters.
func (r *recog) word() string {
	if r.peek() != '@' {
		r.fail("want '@'")
	}
	r.i++
	start := r.i
	for r.i < len(r.src) {
		c, w := utf8.DecodeRuneInString(r.src[r.i:])
		if !(c == '_' || c < utf8.RuneSelf && isASCIILetter(byte(c)) || c >= utf8.RuneSelf && unicode.IsLetter(c)) {
			break
		}
		r.i += w
	}
	if r.i == start {
		r.fail("want a letter")
	}
	return r.src[start:r.i]
}

// nameAhead returns the name at the reader and whether an '=' follows it.
func (r *recog) nameAhead() (name string, assign bool) {
	j := r.i
	for j < len(r.src) && isNameByte(r.src[j]) {
		j++
	}
	name = r.src[r.i:j]
	look := *r
	look.i = j
	look.comments = nil
	look.layout()
	return name, look.peek() == '='
}

func (r *recog) decl(x ast.Decl) {
	start := r.i
	switch d := x.(type) {
	case *ast.BibDecl:
		r.at("entry", d.Pos())
		w := r.word()
		lw := strings.ToLower(w)
		if lw == "string" || lw == "preamble" || lw == "comment" {
			r.i = start
			r.fail("an entry stands for @%s", w)
		}
		if d.Type != lw {
			r.i = start
			r.fail("entry type is %q", d.Type)
		}
		r.layout()
		cl := r.opener()
		keys := d.ExtraKeys
		if d.Key != nil {
			keys = append([]*ast.Ident{d.Key}, keys...)
		} else if len(keys) > 0 {
			r.fail("further keys but no key")
		}
		tags := d.Tags
		for {
			r.layout()
			name, assign := r.nameAhead()
			if name == "" {
				break
			}
			if !assign {
				if len(keys) == 0 {
					r.fail("key %q isn't in the tree", name)
				}
				if keys[0] == nil || keys[0].Name != name {
					r.fail("key is %v in the tree", keys[0])
				}
				r.at("key", keys[0].Pos())
				r.i += len(name)
				r.atEnd("key", keys[0].End())
				keys = keys[1:]
				if !r.optComma() {
					break
				}
				continue
			}
			if len(tags) == 0 {
				r.fail("tag %q isn't in the tree", name)
			}
			r.tag(tags[0], name)
			tags = tags[1:]
			r.optComma()
		}
		if len(keys)+len(tags) > 0 {
			r.fail("%d more keys and %d more tags in the tree", len(keys), len(tags))
		}
		r.closer(cl, d.RBrace)
		r.atEnd("entry", d.End())
		r.optComma()
	case *ast.AbbrevDecl:
		r.at("abbreviation", d.Pos())
		if w := r.word(); !strings.EqualFold(w, "string") {
			r.fail("an abbreviation stands for @%s", w)
		}
		r.layout()
		cl := r.opener()
		r.layout()
		name, assign := r.nameAhead()
		if !assign || d.Tag == nil {
			r.fail("want an abbreviation's name and '='")
		}
		r.tag(d.Tag, name)
		r.optComma()
		r.layout()
		r.closer(cl, d.RBrace)
		r.atEnd("abbreviation", d.End())
	case *ast.PreambleDecl:
		r.at("preamble", d.Pos())
		if w := r.word(); !strings.EqualFold(w, "preamble") {
			r.fail("a preamble stands for @%s", w)
		}
		r.layout()
		cl := r.opener()
		r.layout()
		r.value(d.Text, false)
		r.layout()
		r.closer(cl, d.RBrace)
		r.atEnd("preamble", d.End())
	default:
		r.fail("%T in the tree", x)
	}
}

func (r *recog) tag(t *ast.TagStmt, name string) {
	if t == nil || t.RawName != name || t.Name != strings.ToLower(name) {
		r.fail("tag is %v in the tree", t)
	}
	r.at("tag", t.Pos())
	r.i += len(name)
	r.layout()
	r.lit("=", "separator")
	r.layout()
	r.value(t.Value, t.Name == "url")
	r.atEnd("tag", t.End())
}

func (r *recog) value(x ast.Expr, url bool) {
	switch v := x.(type) {
	case *ast.ConcatExpr:
		if _, ok := v.X.(*ast.ConcatExpr); ok {
			r.fail("concatenation nests to the left")
		}
		r.at("concatenation", v.Pos())
		r.value(v.X, false)
		r.layout()
		r.at("concatenation operator", v.OpPos)
		r.lit("#", "operator")
		r.layout()
		r.value(v.Y, false)
		r.atEnd("concatenation", v.End())
	case *ast.Number:
		r.at("number", v.Pos())
		name, _ := r.nameAhead()
		if name == "" || v.Value != name || strings.Trim(name, "0123456789") != "" {
			r.fail("number is %q in the tree", v.Value)
		}
		r.i += len(name)
		r.atEnd("number", v.End())
	case *ast.Ident:
		r.at("identifier", v.Pos())
		name, _ := r.nameAhead()
		if name == "" || v.Name != name || strings.Trim(name, "0123456789") == "" {
			r.fail("identifier is %q in the tree", v.Name)
		}
		r.i += len(name)
		r.atEnd("identifier", v.End())
	case *ast.UnparsedText:
		r.at("string", v.Pos())
		open, cl := `"`, `"`
		if v.Type == token.BraceString {
			open, cl = "{", "}"
		} else if v.Type != token.String {
			r.fail("string has type %v", v.Type)
		}
		r.lit(open, "string")
		depth := 0
		for j := 0; j < len(v.Value); j++ {
			switch c := v.Value[j]; {
			case c == '{':
				depth++
			case c == '}':
				depth--
				if depth < 0 {
					r.fail("string %q isn't balanced", v.Value)
				}
			case c == '"' && open == `"` && depth == 0:
				r.fail("string %q holds its delimiter", v.Value)
			}
		}
		if depth != 0 {
			r.fail("string %q isn't balanced", v.Value)
		}
		r.lit(v.Value, "string contents")
		r.lit(cl, "end of string")
		r.atEnd("string", v.End())
	case *ast.ParsedText:
		r.parsed(v, 0, v.Delim == ast.QuoteDelimiter, url)
	default:
		r.fail("value is %T in the tree", x)
	}
}

func (r *recog) parsed(v *ast.ParsedText, depth int, quote, url bool) {
	r.at("string", v.Pos())
	if v.Depth != depth {
		r.fail("string has depth %d, not %d", v.Depth, depth)
	}
	open, cl := "{", "}"
	if v.Delim == ast.QuoteDelimiter {
		open, cl = `"`, `"`
		if depth > 0 {
			r.fail("quoted string in a string")
		}
	} else if v.Delim != ast.BraceDelimiter {
		r.fail("string has delimiter %v", v.Delim)
	}
	r.lit(open, "string")
	for _, x := range v.Values {
		r.construct(x, depth, quote, url)
	}
	if r.pos && int(v.Closer)-r.base != r.i {
		r.fail("string's closing delimiter is at %d", int(v.Closer)-r.base)
	}
	r.lit(cl, "end of string")
	r.atEnd("string", v.End())
}

func (r *recog) construct(x ast.Expr, depth int, quote, url bool) {
	switch t := x.(type) {
	case *ast.Text:
		r.at("text", t.Pos())
		if t.Value == "" {
			r.fail("empty text")
		}
		special := `{}\` + " \t\r\n"
		if !url || depth > 0 {
			special += "$,~"
		}
		if quote && depth == 0 && !(url && strings.Contains(t.Value, "$")) { // math may hold a quote
			special += `"`
		}
		if j := strings.IndexAny(t.Value, special); j >= 0 && !(url && strings.Contains(t.Value, "$")) {
			r.fail("text %q holds %q", t.Value, t.Value[j])
		}
		r.lit(t.Value, "text")
		r.atEnd("text", t.End())
	case *ast.TextSpace:
		r.at("space", t.Pos())
		start := r.i
		for isSpaceByte(r.peek()) {
			r.i++
		}
		if r.i == start {
			r.fail("want white space")
		}
	case *ast.TextNBSP:
		r.at("non-breaking space", t.Pos())
		r.lit("~", "non-breaking space")
		r.atEnd("non-breaking space", t.End())
	case *ast.TextComma:
		r.at("comma", t.Pos())
		r.lit(",", "comma")
		r.atEnd("comma", t.End())
	case *ast.TextEscaped:
		r.at("escaped character", t.Pos())
		if len(t.Value) != 1 || isASCIILetter(t.Value[0]) {
			r.fail("escaped character %q", t.Value)
		}
		r.lit(`\`+t.Value, "escaped character")
		r.atEnd("escaped character", t.End())
	case *ast.TextMath:
		r.at("math", t.Pos())
		r.lit("$"+t.Value+"$", "math")
		r.atEnd("math", t.End())
		esc := false
		for j := 0; j < len(t.Value); j++ {
			if t.Value[j] == '$' && !esc {
				r.fail("math %q holds its delimiter", t.Value)
			}
			esc = t.Value[j] == '\\' && !esc
		}
	case *ast.TextAccent:
		r.at("accent", t.Pos())
		r.lit(`\`+string(rune(t.Accent)), "accent")
		for r.peek() == ' ' {
			r.i++
		}
		if t.Text == nil || len(t.Text.Value) != 1 || !isASCIILetter(t.Text.Value[0]) {
			r.fail("accent on %v", t.Text)
		}
		braced := r.peek() == '{'
		if braced {
			r.i++
		}
		dotless := r.peek() == '\\'
		if dotless {
			r.i++
			if t.Text.Value != "i" && t.Text.Value != "j" {
				r.fail("dotless %q", t.Text.Value)
			}
		}
		r.at("accented letter", t.Text.Pos())
		r.lit(t.Text.Value, "accented letter")
		if braced {
			r.lit("}", "end of accent")
		} else if dotless && r.peek() != '}' {
			r.fail("the macro isn't at the end of a group")
		}
	case *ast.TextMacro:
		r.at("macro", t.Pos())
		name := strings.TrimPrefix(t.Name, `\`)
		if name == "" {
			r.fail("macro without name")
		}
		for j := 0; j < len(name); j++ {
			if !isASCIILetter(name[j]) && len(name) > 1 {
				r.fail("macro %q", t.Name)
			}
		}
		r.lit(`\`+name, "macro")
		if isASCIILetter(name[0]) && isASCIILetter(r.peek()) {
			r.fail("the name of macro %q is longer", t.Name)
		}
		if name == "url" || name == "href" {
			r.lit("{", "address")
			if len(t.Values) != 1 {
				r.fail("macro %q has %d addresses", t.Name, len(t.Values))
			}
			txt, ok := t.Values[0].(*ast.Text)
			if !ok {
				r.fail("address is %T", t.Values[0])
			}
			r.at("address", txt.Pos())
			r.lit(txt.Value, "address")
			r.atEnd("address", txt.End())
			for isSpaceByte(r.peek()) {
				r.i++
			}
			r.lit("}", "end of address")
		} else if len(t.Values) > 0 {
			r.fail("macro %q has values", t.Name)
		}
		r.atEnd("macro", t.End())
	case *ast.ParsedText:
		r.parsed(t, depth+1, quote, url)
	default:
		r.fail("%T in a string", x)
	}
}

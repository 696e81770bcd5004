package main

// C36: trees built with the helpers of package asts, compared with parsed ones.

import (
	"fmt"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/asts"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
	"github.com/jschaf/bibtex/token"
)

// astsCase is a bibliography that is parsed and also built by hand. Style
// chooses which helpers build it; 0 stands for the plainest ones.
type astsCase struct {
	Printed
	Pad    int
	Raw    bool
	Style  uint64
	Change int   // which part of a value is changed, and how
	Strs   []Src // any strings that the helpers are to convert
}

// convert returns the tree that the helpers document for a string.
func convert(s string, depth int) *N {
	inner := ""
	if len(s) >= 2 {
		inner = s[1 : len(s)-1]
	}
	switch {
	case blank(s):
		return &N{K: "space", End: -1}
	case s == "~":
		return &N{K: "nbsp"}
	case s == ",":
		return &N{K: "comma"}
	case len(s) >= 2 && s[0] == '$' && s[len(s)-1] == '$':
		return &N{K: "math", S: inner}
	case len(s) >= 2 && s[0] == '{' && s[len(s)-1] == '}':
		n := &N{K: "str", S: "brace", D: depth + 1}
		for i, w := range strings.Split(inner, " ") {
			if i > 0 {
				n.Kids = append(n.Kids, &N{K: "space", End: -1})
			}
			n.Kids = append(n.Kids, convert(w, depth+1))
		}
		return n
	case len(s) >= 2 && s[0] == '\\' && isASCIILetter(s[1]):
		return &N{K: "macro", S: s[1:]}
	}
	return &N{K: "text", S: s}
}

func checkConvert(strs []Src) error {
	if v := asts.Space().Value; v == "" || !blank(v) {
		return fmt.Errorf("the value of a space is %q", v)
	}
	for depth := 0; depth < 2; depth++ {
		want := &N{K: "str", S: "brace", D: depth}
		var ss []string
		var xs []interface{}
		for _, s := range strs {
			ss = append(ss, string(s))
			xs = append(xs, string(s))
			want.Kids = append(want.Kids, convert(string(s), depth))
		}
		if d := diff(want, fromAST(asts.BraceText(depth, xs...), 0), false); d != "" {
			return fmt.Errorf("strings %q in braces at depth %d: %s", ss, depth, d)
		}
		want.S = "quote"
		if d := diff(want, fromAST(asts.QuotedText(depth, ss...), 0), false); d != "" {
			return fmt.Errorf("strings %q in quotes at depth %d: %s", ss, depth, d)
		}
		// The same as parameters of a command, which are no string's depth deep.
		if depth > 0 {
			continue
		}
		params := &N{K: "macro", S: "m", Kids: want.Kids}
		if d := diff(params, fromAST(asts.Macro("m", xs...), 0), false); d != "" {
			return fmt.Errorf("parameters %q of a command: %s", ss, d)
		}
	}
	return nil
}

// hand builds trees.
type hand struct{ state uint64 }

func (h *hand) n(k int) int {
	if h.state == 0 {
		return 0
	}
	h.state = mix(h.state) | 1
	return int((h.state >> 8) % uint64(k))
}

// blank tells whether the string form of a text would be white space.
func blank(s string) bool { return strings.TrimSpace(s) == "" }

// word returns the string that the helpers turn into a piece.
func (h *hand) word(p *Piece) (string, bool) {
	switch p.K {
	case "text":
		return p.S, !blank(p.S)
	case "space":
		return p.S, true
	case "nbsp", "comma", "math":
		return p.source(), true
	case "macro":
		return p.source(), isASCIILetter(p.S[0])
	case "group":
		// Words, with a space between.
		sb := strings.Builder{}
		if len(p.Kids)%2 == 0 {
			return "", false
		}
		for i := range p.Kids {
			k := &p.Kids[i]
			if (k.K == "space") != (i%2 == 1) {
				return "", false
			}
			if k.K == "space" {
				sb.WriteByte(' ')
				continue
			}
			w, ok := h.word(k)
			if !ok || strings.Contains(w, " ") {
				return "", false
			}
			sb.WriteString(w)
		}
		return "{" + sb.String() + "}", true
	}
	return "", false
}

// expr builds a piece.
func (h *hand) expr(p *Piece, depth int) ast.Expr {
	if w, ok := h.word(p); ok && h.n(3) == 1 {
		return asts.ParseStringExpr(depth, w)
	}
	switch p.K {
	case "text":
		return asts.Text(p.S)
	case "space":
		return asts.Space()
	case "nbsp":
		return asts.NBSP()
	case "comma":
		return asts.Comma()
	case "math":
		return asts.Math(p.S)
	case "esc":
		return asts.Escaped(firstRune(p.S))
	case "accent":
		return asts.AccentedText(token.Accent(p.M[0]), p.S)
	case "macro":
		if isASCIILetter(p.S[0]) {
			return asts.Macro(p.S)
		}
		return asts.Macro(`\` + p.S)
	case "url":
		if h.n(2) == 1 && asWord(p.S) {
			return asts.Macro(p.M, p.S)
		}
		return asts.Macro(p.M, asts.Text(p.S))
	case "group":
		return h.brace(p.Kids, depth+1)
	}
	panic("unknown piece " + p.K)
}

// asWord tells whether the helpers turn s into text.
func asWord(s string) bool {
	return !blank(s) && !strings.ContainsAny(s, `$~{},\`)
}

func (h *hand) exprs(ps []Piece, depth int) []ast.Expr {
	var xs []ast.Expr
	for i := range ps {
		xs = append(xs, h.expr(&ps[i], depth))
	}
	return xs
}

func (h *hand) brace(ps []Piece, depth int) ast.Expr {
	if h.n(2) == 0 {
		return asts.BraceTextExpr(depth, h.exprs(ps, depth)...)
	}
	var xs []interface{}
	for i := range ps {
		if w, ok := h.word(&ps[i]); ok && h.n(4) > 0 {
			xs = append(xs, w)
		} else {
			xs = append(xs, h.expr(&ps[i], depth))
		}
	}
	return asts.BraceText(depth, xs...)
}

func (h *hand) op(o *Op, raw bool) ast.Expr {
	switch {
	case o.K == "num":
		return &ast.Number{Value: o.S}
	case o.K == "id":
		return asts.Ident(o.S)
	case raw && o.Quote:
		return asts.UnparsedText(o.content())
	case raw:
		return asts.UnparsedBraceText(o.content())
	case !o.Quote:
		return h.brace(o.Pieces, 0)
	}
	var ws []string
	for i := range o.Pieces {
		if w, ok := h.word(&o.Pieces[i]); ok {
			ws = append(ws, w)
		}
	}
	if len(ws) == len(o.Pieces) && h.n(2) == 1 {
		return asts.QuotedText(0, ws...)
	}
	return asts.QuotedTextExpr(0, h.exprs(o.Pieces, 0)...)
}

func (h *hand) val(v *Val, raw bool) ast.Expr {
	x := h.op(&v.Ops[len(v.Ops)-1], raw)
	for i := len(v.Ops) - 2; i >= 0; i-- {
		x = asts.Concat(h.op(&v.Ops[i], raw), x)
	}
	return x
}

// spoil changes every node of a value.
func spoil(x ast.Expr) {
	switch t := x.(type) {
	case *ast.Ident:
		t.Name += "spoiled"
	case *ast.UnparsedText:
		t.Value += "spoiled"
	case *ast.Text:
		t.Value += "spoiled"
		t.ValuePos++
	case *ast.TextSpace:
		t.Value += "spoiled"
		t.ValuePos++
	case *ast.TextNBSP:
		t.ValuePos++
	case *ast.TextComma:
		t.ValuePos++
	case *ast.TextMath:
		t.Value += "spoiled"
	case *ast.TextEscaped:
		t.Value += "spoiled"
	case *ast.TextAccent:
		t.Accent++
		spoil(t.Text)
	case *ast.TextMacro:
		t.Name += "spoiled"
		for i, v := range t.Values {
			spoil(v)
			t.Values[i] = nil
		}
	case *ast.ParsedText:
		t.Depth += 7
		for i, v := range t.Values {
			spoil(v)
			t.Values[i] = nil
		}
	case *ast.ConcatExpr:
		spoil(t.X)
		spoil(t.Y)
	}
}

// options builds the options for an entry.
func (h *hand) options(d *Decl, raw bool) []func(*ast.BibDecl) {
	opts := []func(*ast.BibDecl){asts.WithBibType(strings.ToLower(d.Word))}
	var keys []string
	var tags []interface{}
	for i := range d.Items {
		it := &d.Items[i]
		if it.Key {
			keys = append(keys, it.Name)
			continue
		}
		tags = append(tags, asciiLower(it.Name), h.val(&it.Val, raw))
	}
	opts = append(opts, asts.WithBibKeys(keys...))
	for len(tags) > 0 {
		n := 2 * (1 + h.n(len(tags)/2))
		opts = append(opts, asts.WithBibTags(tags[0].(string), tags[1].(ast.Expr), tags[2:n]...))
		tags = tags[n:]
	}
	return opts
}

// lowerTags makes the spelling of tag names the one in lower case.
func (n *N) lowerTags() *N {
	n.visit(func(n *N) {
		if n.K == "tag" {
			low := n.S[:len(n.S)/2] // names are ASCII
			n.S = low + "|" + low
		}
	})
	return n
}

func (n *N) visit(f func(n *N)) {
	f(n)
	for _, k := range n.Kids {
		k.visit(f)
	}
}

// change alters one construct of a string, or its delimiter.
func (o *Op) change(c int) {
	if o.K != "str" || len(o.Pieces) == 0 {
		if o.K == "str" && c%2 == 0 {
			o.Quote = !o.Quote
			return
		}
		o.S += "x"
		o.Pieces = append(o.Pieces, Piece{K: "text", S: "x"})
		return
	}
	ps := &o.Pieces
	for {
		i := c % len(*ps)
		c /= len(*ps)
		p := &(*ps)[i]
		if p.K == "group" && len(p.Kids) > 0 && c%3 > 0 {
			ps = &p.Kids
			c /= 3
			continue
		}
		c /= 3
		switch c % 5 {
		case 0: // gone
			*ps = append((*ps)[:i:i], (*ps)[i+1:]...)
		case 1: // twice
			*ps = append((*ps)[:i+1:i+1], (*ps)[i:]...)
		case 2: // another text
			switch p.K {
			case "space", "nbsp", "comma":
				p.K = map[string]string{"space": "nbsp", "nbsp": "comma", "comma": "space"}[p.K]
			case "esc":
				p.S = map[string]string{"&": "%", "%": "_"}[p.S]
				if p.S == "" {
					p.S = "&"
				}
			case "accent":
				p.S = map[string]string{"e": "o"}[p.S]
				if p.S == "" {
					p.S = "e"
				}
			case "group":
				p.Kids = append(p.Kids, Piece{K: "comma"})
			default:
				p.S += "x"
			}
		case 3: // another construct
			*p = Piece{K: "group", Kids: []Piece{*p}}
		case 4:
			o.Quote = !o.Quote
		}
		return
	}
}

// sameBehaviour compares what the library makes of two strings.
func sameBehaviour(parsed, built *ast.ParsedText) error {
	for _, f := range []struct {
		what string
		of   func(x *ast.ParsedText) (string, error)
	}{
		{"rendered text", func(x *ast.ParsedText) (string, error) {
			sb := strings.Builder{}
			err := render.NewTextRenderer().Render(&sb, x)
			return sb.String(), err
		}},
		{"default rendering", func(x *ast.ParsedText) (string, error) {
			sb := strings.Builder{}
			err := bibtex.New().Render(&sb, x)
			return sb.String(), err
		}},
		{"authors", func(x *ast.ParsedText) (string, error) {
			as, err := bibtex.ExtractAuthors(x)
			if err != nil {
				return "", err
			}
			return fromAST(as, 0).String(), nil
		}},
		{"simplified escapes", func(x *ast.ParsedText) (string, error) {
			err := bibtex.SimplifyEscapedTextResolver(x)
			return fromAST(x, 0).String(), err
		}},
	} {
		p, err1 := f.of(parsed)
		b, err2 := f.of(built)
		if (err1 == nil) != (err2 == nil) {
			return fmt.Errorf("%s: error %v when parsed, %v when built", f.what, err1, err2)
		}
		if err1 == nil && p != b {
			return fmt.Errorf("%s: %s", f.what, firstDiff(p, b))
		}
	}
	return nil
}

func checkAsts(c astsCase, o *Obs) error {
	if err := c.selfCheck(); err != nil {
		return err
	}
	labelDoc(o, &c.Printed)
	if err := checkConvert(c.Strs); err != nil {
		return err
	}
	mode := parser.ParseStrings
	if c.Raw {
		mode = 0
	}
	p := parseAt(string(c.Src), mode, c.Pad)
	if p.err != nil {
		return fmt.Errorf("mode %s: well-formed source rejected: %v", modeName(mode), p.err)
	}
	if len(p.file.Entries) != len(c.Doc.Decls) {
		return fmt.Errorf("%d declarations for %d", len(p.file.Entries), len(c.Doc.Decls))
	}
	h := &hand{c.Style}
	strs := 0
	compare := func(v *Val, x ast.Expr) error {
		again := *h
		built := h.val(v, c.Raw)
		// What the helpers build is new each time.
		spoil(again.val(v, c.Raw))
		if s, n, m := asts.Space(), asts.NBSP(), asts.Comma(); !blank(s.Value) || s.ValuePos != 0 || n.ValuePos != 0 || m.ValuePos != 0 {
			return fmt.Errorf("a change of one built tree reaches another: space %q at %d, tie at %d, comma at %d", s.Value, s.ValuePos, n.ValuePos, m.ValuePos)
		}
		if d := diff(v.tree(!c.Raw), fromAST(built, 0), false); d != "" {
			return fmt.Errorf("built: %s", d)
		}
		ps, bs := asts.ExprString(x), asts.ExprString(built)
		if ps != bs {
			return fmt.Errorf("printed forms of the parsed and the built tree: %s", firstDiff(ps, bs))
		}
		// Another value prints in another way.
		other := cloneVal(*v)
		n := c.Change % len(other.Ops)
		if other.Ops[n].Raw != "" {
			other.Ops[n].Raw += "x"
		} else {
			other.Ops[n].change(c.Change / len(other.Ops))
		}
		y := (&hand{}).val(&other, c.Raw)
		if fromAST(y, 0).String() != fromAST(built, 0).String() {
			o.Label("changed value")
			if s := asts.ExprString(y); s == bs {
				return fmt.Errorf("two different trees have the printed form %s", head(s, 200))
			}
		}
		if t, ok := x.(*ast.ParsedText); ok {
			b, ok := built.(*ast.ParsedText)
			if !ok {
				return fmt.Errorf("built a %T", built)
			}
			strs++
			return sameBehaviour(t, b)
		}
		return nil
	}
	for i, e := range p.file.Entries {
		d := &c.Doc.Decls[i]
		switch t := e.(type) {
		case *ast.PreambleDecl:
			if err := compare(&d.Val, t.Text); err != nil {
				return fmt.Errorf("declaration %d: %w", i, err)
			}
		case *ast.AbbrevDecl:
			if err := compare(&d.Items[0].Val, t.Tag.Value); err != nil {
				return fmt.Errorf("declaration %d: %w", i, err)
			}
		case *ast.BibDecl:
			want := d.tree(!c.Raw).lowerTags()
			opts := h.options(d, c.Raw)
			for round := 1; round <= 2; round++ { // options can be used again
				decl := &ast.BibDecl{}
				for _, opt := range opts {
					opt(decl)
				}
				if df := diff(want, fromAST(decl, 0), false); df != "" {
					return fmt.Errorf("declaration %d, built for the %d. time: %s", i, round, df)
				}
				// A change of one entry reaches no other; only the values are shared, which
				// are the ones that were given.
				decl.Type = "spoiled"
				for _, k := range append([]*ast.Ident{decl.Key}, decl.ExtraKeys...) {
					if k != nil {
						k.Name = "spoiled"
					}
				}
				for _, t := range decl.Tags {
					t.Name, t.RawName, t.Value = "spoiled", "Spoiled", nil
				}
			}
			n := 0
			for j := range d.Items {
				if d.Items[j].Key {
					continue
				}
				if n >= len(t.Tags) {
					return fmt.Errorf("declaration %d: tag %d is missing", i, n)
				}
				if err := compare(&d.Items[j].Val, t.Tags[n].Value); err != nil {
					return fmt.Errorf("declaration %d, tag %d: %w", i, n, err)
				}
				n++
			}
		}
	}
	if strs > 0 || c.Raw && len(c.Doc.Decls) > 0 {
		o.NonTrivial(string(c.Src), fmt.Sprint(c.Style))
	}
	return nil
}

func init() {
	register(Def[astsCase]{
		ID:    "C36",
		Rule:  "random bibliographies, printed and parsed in either string mode, and built a second time with randomly chosen helpers of package asts; each value with one construct changed; and any strings for the helpers to convert; non-trivial: some value is a string; distinct by source text and choice of helpers",
		Quick: 250000, Thorough: 6000000,
		Gen: func(g G) astsCase {
			c := astsCase{Raw: g.chance(20), Style: g.u(), Change: g.n(1 << 20)}
			cfg := docCfg{str: strCfg{all: c.Raw, renderable: g.chance(60)}, decls: 2, bigDocs: true}
			if g.chance(40) {
				cfg.onlyBib = true
			}
			if g.chance(50) {
				c.Strs = list(g, 0, 5, func(g G) Src {
					s := g.soup(stringFragments, 0, 4)
					switch g.n(6) {
					case 0:
						s = "{" + s + "}"
					case 1:
						s = "$" + s + "$"
					case 2:
						s = pick(g, "$", "~", ",", "{", "}", "\\", " ", "", "{}", "$$", "\n", "$$$", "{{}}", `\a`, `\,`)
					}
					return Src(s)
				})
			}
			c.Printed = g.print(g.doc(cfg), layoutCfg{plain: g.chance(60)})
			return c
		},
		Check: checkAsts,
	})
}

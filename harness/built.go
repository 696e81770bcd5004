package main

// Trees built by hand rather than parsed.

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
)

// B describes a tree to build.
type B struct {
	K    string
	S    string `json:",omitempty"`
	Kids []B    `json:",omitempty"`
}

// build makes the nodes of b.
func (b *B) build() ast.Node {
	expr := func(i int) ast.Expr {
		if i >= len(b.Kids) {
			return &ast.Text{Value: "missing"}
		}
		x, _ := b.Kids[i].build().(ast.Expr)
		return x
	}
	exprs := func() []ast.Expr {
		var out []ast.Expr
		for i := range b.Kids {
			if x := expr(i); x != nil {
				out = append(out, x)
			}
		}
		return out
	}
	switch b.K {
	case "none":
		return nil
	case "text":
		return &ast.Text{Value: b.S}
	case "comma":
		return &ast.TextComma{}
	case "esc":
		return &ast.TextEscaped{Value: b.S}
	case "hyphen":
		return &ast.TextHyphen{}
	case "math":
		return &ast.TextMath{Value: b.S}
	case "nbsp":
		return &ast.TextNBSP{}
	case "space":
		return &ast.TextSpace{Value: b.S}
	case "accent":
		return &ast.TextAccent{Accent: token.Accent(b.S[0]), Text: &ast.Text{Value: b.S[1:]}}
	case "macro":
		return &ast.TextMacro{Name: b.S, Values: exprs()}
	case "str":
		d := ast.BraceDelimiter
		if b.S == "quote" {
			d = ast.QuoteDelimiter
		}
		return &ast.ParsedText{Delim: d, Values: exprs()}
	case "raw":
		return &ast.UnparsedText{Type: token.BraceString, Value: b.S}
	case "id":
		return &ast.Ident{Name: b.S}
	case "num":
		return &ast.Number{Value: b.S}
	case "badexpr":
		return &ast.BadExpr{}
	case "badstmt":
		return &ast.BadStmt{}
	case "baddecl":
		return &ast.BadDecl{}
	case "concat":
		return &ast.ConcatExpr{X: expr(0), Y: expr(1)}
	case "author":
		a := &ast.Author{}
		for i, p := range []*ast.Expr{&a.First, &a.Prefix, &a.Last, &a.Suffix} {
			if i < len(b.Kids) && b.Kids[i].K != "none" {
				*p = expr(i)
			}
		}
		return a
	case "authors":
		as := ast.Authors{}
		for i := range b.Kids {
			if a, ok := b.Kids[i].build().(*ast.Author); ok {
				as = append(as, a)
			}
		}
		return as
	case "tag":
		return &ast.TagStmt{Name: strings.ToLower(b.S), RawName: b.S, Value: expr(0)}
	case "abbrev":
		t, _ := b.Kids[0].build().(*ast.TagStmt)
		return &ast.AbbrevDecl{Tag: t}
	case "pre":
		return &ast.PreambleDecl{Text: expr(0)}
	case "bib":
		d := &ast.BibDecl{Type: b.S, Key: &ast.Ident{Name: "key"}, ExtraKeys: []*ast.Ident{{Name: "extra"}}}
		if b.S == "nokey" {
			d.Key, d.ExtraKeys = nil, nil
		}
		for i := range b.Kids {
			if t, ok := b.Kids[i].build().(*ast.TagStmt); ok {
				d.Tags = append(d.Tags, t)
			}
		}
		return d
	case "file":
		f := &ast.File{Name: b.S}
		for i := range b.Kids {
			if d, ok := b.Kids[i].build().(ast.Decl); ok {
				f.Entries = append(f.Entries, d)
			}
		}
		return f
	case "package":
		p := &ast.Package{Files: map[string]*ast.File{}}
		for i := range b.Kids {
			if f, ok := b.Kids[i].build().(*ast.File); ok {
				p.Files[fmt.Sprintf("%s%d", f.Name, i*7%10)] = f
			}
		}
		return p
	case "comment":
		return &ast.TexComment{Text: "%" + b.S}
	case "comments":
		return &ast.TexCommentGroup{List: []*ast.TexComment{{Text: "%" + b.S}}}
	}
	panic("unknown kind " + b.K)
}

func (b *B) size() int {
	n := 1
	for i := range b.Kids {
		n += b.Kids[i].size()
	}
	return n
}

type builtCfg struct {
	bad   bool // accents that don't combine, bad nodes
	depth int
}

func (g G) builtText() string {
	if w, ok := g.novel(func(string) bool { return true }); ok {
		return w
	}
	if n, ok := g.size(20000); ok {
		return strings.Repeat(pick(g, "n", "{", " "), n)
	}
	switch g.n(8) {
	case 0:
		return ""
	case 1:
		return strings.ToValidUTF8(g.rawBytes(4), "?")
	}
	return g.text(true, 0)
}

// builtExpr generates an expression that can stand in a string.
func (g G) builtExpr(cfg builtCfg) B {
	switch k := g.n(16); {
	case k <= 2:
		return B{K: "text", S: g.builtText()}
	case k == 3:
		return B{K: "comma"}
	case k == 4:
		return B{K: "esc", S: pick(g, "&", "%", "$", "_", "#", `\`, "{", "}")}
	case k == 5:
		return B{K: "hyphen"}
	case k == 6:
		return B{K: "math", S: pick(g, "x", "", `\alpha`, "a b", `\$`, "é")}
	case k == 7:
		return B{K: "nbsp"}
	case k == 8:
		return B{K: "space", S: pick(g, "", " ", "\n", "  ", "\t")}
	case k <= 10:
		if cfg.bad && g.chance(20) {
			return B{K: "accent", S: pick(g, accentMarks...) + pick(g, "q", "1", "", "oo", "é", "b")}
		}
		return B{K: "accent", S: accentPairs[g.n(len(accentPairs))]}
	case k <= 12:
		b := B{K: "macro", S: pick(g, "emph", "url", `\,`, "LaTeX", "href")}
		if w, ok := g.novel(isMacroText); ok {
			b.S = w
		}
		if cfg.depth > 0 {
			sub := cfg
			sub.depth--
			b.Kids = list(g, 0, 3, func(g G) B {
				switch g.n(5) {
				case 0:
					return B{K: "text", S: g.builtText()}
				case 1:
					return g.builtStr(sub)
				case 2, 3:
					if x := g.builtExpr(sub); x.K != "esc" { // see DESIGN.md
						return x
					}
				}
				return B{K: "macro", S: "x", Kids: []B{g.builtStr(sub)}}
			})
		}
		return b
	}
	if cfg.depth > 0 {
		cfg.depth--
		return g.builtStr(cfg)
	}
	return B{K: "text", S: "x"}
}

func (g G) builtStr(cfg builtCfg) B {
	b := B{K: "str", S: pick(g, "brace", "quote")}
	if cfg.depth <= 0 {
		return b
	}
	b.Kids = list(g, 0, 5, func(g G) B { return g.builtExpr(cfg) })
	if n, ok := g.size(1000); ok && len(b.Kids) > 0 {
		for len(b.Kids) < n {
			b.Kids = append(b.Kids, B{K: "comma"})
		}
	}
	return b
}

func (g G) builtAuthor(cfg builtCfg) B {
	b := B{K: "author"}
	for i := 0; i < 4; i++ {
		switch g.n(5) {
		case 0:
			b.Kids = append(b.Kids, B{K: "none"})
		case 1, 2, 3:
			b.Kids = append(b.Kids, B{K: "text", S: g.builtText()})
		case 4:
			b.Kids = append(b.Kids, g.builtStr(cfg))
		}
	}
	return b
}

// builtVal generates a value.
func (g G) builtVal(cfg builtCfg) B {
	switch k := g.n(16); {
	case k <= 7:
		return g.builtStr(cfg)
	case k == 8:
		return B{K: "id", S: g.builtText()}
	case k == 9:
		return B{K: "num", S: "12"}
	case k == 10:
		return B{K: "raw", S: g.builtText()}
	case k == 11:
		return B{K: "text", S: g.builtText()}
	case k == 12 && cfg.bad && g.chance(20):
		return B{K: "badexpr"}
	case k <= 13 && cfg.depth > 0:
		cfg.depth--
		return B{K: "concat", Kids: []B{g.builtVal(cfg), g.builtVal(cfg)}}
	case k <= 15:
		return B{K: "authors", Kids: list(g, 0, 3, func(g G) B { return g.builtAuthor(cfg) })}
	}
	return B{K: "num", S: "1"}
}

func (g G) builtTag(cfg builtCfg) B {
	return B{K: "tag", S: g.tagName(), Kids: []B{g.builtVal(cfg)}}
}

func (g G) builtDecl(cfg builtCfg) B {
	switch k := g.n(8); {
	case k <= 4:
		typ := pick(g, "article", "book", "nokey")
		if w, ok := g.novel(isEntryTypeText); ok {
			typ = w
		}
		return B{K: "bib", S: typ, Kids: list(g, 0, 4, func(g G) B { return g.builtTag(cfg) })}
	case k == 5:
		return B{K: "abbrev", Kids: []B{g.builtTag(cfg)}}
	case k == 6 && cfg.bad && g.chance(30):
		return B{K: "baddecl"}
	}
	return B{K: "pre", Kids: []B{g.builtVal(cfg)}}
}

func (g G) builtFile(cfg builtCfg) B {
	return B{K: "file", S: pick(g, "a", "b", "z"), Kids: list(g, 0, 4, func(g G) B { return g.builtDecl(cfg) })}
}

// built generates a tree with any kind of root.
func (g G) built(bad bool) B {
	cfg := builtCfg{bad: bad, depth: 1 + g.n(4)}
	switch k := g.n(16); {
	case k <= 5:
		return g.builtFile(cfg)
	case k == 6:
		return B{K: "package", Kids: list(g, 0, 4, func(g G) B { return g.builtFile(cfg) })}
	case k <= 8:
		return g.builtDecl(cfg)
	case k == 9:
		return g.builtTag(cfg)
	case k == 10:
		return g.builtExpr(cfg)
	case k == 11:
		return g.builtAuthor(cfg)
	case k == 12:
		return pick(g, B{K: "comment", S: "x"}, B{K: "comments", S: "x"}, B{K: "badexpr"}, B{K: "badstmt"}, B{K: "baddecl"})
	}
	return g.builtVal(cfg)
}

// ----------------------------------------------------------------------------

// kids returns the children of a node in order: its fields that hold nodes,
// other than comments, keys, and the letter of an accent.
func kids(n ast.Node) []ast.Node {
	var out []ast.Node
	add := func(v reflect.Value) {
		if v.Kind() == reflect.Interface {
			if v.IsNil() {
				return
			}
			v = v.Elem()
		}
		if x, ok := v.Interface().(ast.Node); ok && !isNilNode(x) {
			out = append(out, x)
		}
	}
	if as, ok := n.(ast.Authors); ok {
		for _, a := range as {
			out = append(out, a)
		}
		return out
	}
	v := reflect.ValueOf(n).Elem()
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		switch t.Field(i).Name {
		case "Doc", "Comments", "Key", "ExtraKeys", "Obj", "Scope", "Unresolved", "Objects":
			continue
		}
		if _, ok := n.(*ast.TextAccent); ok {
			continue
		}
		if _, ok := n.(*ast.TexCommentGroup); ok {
			continue
		}
		f := v.Field(i)
		switch f.Kind() {
		case reflect.Interface, reflect.Pointer:
			add(f)
		case reflect.Slice:
			for j := 0; j < f.Len(); j++ {
				add(f.Index(j))
			}
		case reflect.Map:
			keys := f.MapKeys()
			sort.Slice(keys, func(a, b int) bool { return keys[a].String() < keys[b].String() })
			for _, k := range keys {
				add(f.MapIndex(k))
			}
		}
	}
	return out
}

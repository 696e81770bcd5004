package main

// The tree the parser returned, in the form of N, and the comparison.

import (
	"fmt"
	gotok "go/token"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/token"
)

type conv struct{ base int }

func (c conv) off(p gotok.Pos) int { return int(p) - c.base }

func (c conv) delim(d ast.TextDelimiter) string {
	switch d {
	case ast.QuoteDelimiter:
		return "quote"
	case ast.BraceDelimiter:
		return "brace"
	}
	return fmt.Sprintf("delim%d", d)
}

func isNilNode(n ast.Node) bool {
	switch t := n.(type) {
	case nil:
		return true
	case *ast.BadExpr:
		return t == nil
	case *ast.Ident:
		return t == nil
	case *ast.Number:
		return t == nil
	case *ast.Author:
		return t == nil
	case *ast.UnparsedText:
		return t == nil
	case *ast.ParsedText:
		return t == nil
	case *ast.Text:
		return t == nil
	case *ast.TextAccent:
		return t == nil
	case *ast.TextComma:
		return t == nil
	case *ast.TextEscaped:
		return t == nil
	case *ast.TextHyphen:
		return t == nil
	case *ast.TextMath:
		return t == nil
	case *ast.TextNBSP:
		return t == nil
	case *ast.TextSpace:
		return t == nil
	case *ast.TextMacro:
		return t == nil
	case *ast.ConcatExpr:
		return t == nil
	case *ast.BadStmt:
		return t == nil
	case *ast.TagStmt:
		return t == nil
	case *ast.BadDecl:
		return t == nil
	case *ast.AbbrevDecl:
		return t == nil
	case *ast.BibDecl:
		return t == nil
	case *ast.PreambleDecl:
		return t == nil
	case *ast.File:
		return t == nil
	case *ast.Package:
		return t == nil
	case *ast.TexComment:
		return t == nil
	case *ast.TexCommentGroup:
		return t == nil
	}
	return false
}

// node converts any node. Missing nodes and placeholders for bad source become
// nodes of kind "nil" and "bad".
func (c conv) node(x ast.Node) *N {
	if isNilNode(x) {
		return &N{K: "nil", S: fmt.Sprintf("%T", x), Pos: -1, End: -1}
	}
	n := &N{Pos: c.off(x.Pos()), End: -1}
	end := func() { n.End = c.off(x.End()) }
	switch t := x.(type) {
	case *ast.File:
		n.K, n.Pos = "file", -1
		for _, d := range t.Entries {
			n.Kids = append(n.Kids, c.node(d))
		}
	case *ast.BibDecl:
		n.K, n.S = "bib", t.Type
		end()
		if t.Key != nil {
			k := c.node(t.Key)
			k.K = "key"
			n.Kids = append(n.Kids, k)
		}
		for _, e := range t.ExtraKeys {
			k := c.node(e)
			k.K = "extra"
			n.Kids = append(n.Kids, k)
		}
		for _, e := range t.Tags {
			n.Kids = append(n.Kids, c.node(e))
		}
		n.Kids = append(n.Kids, &N{K: "closer", Pos: c.off(t.RBrace), End: -1})
	case *ast.AbbrevDecl:
		n.K = "abbrev"
		end()
		n.Kids = append(n.Kids, c.node(t.Tag), &N{K: "closer", Pos: c.off(t.RBrace), End: -1})
	case *ast.PreambleDecl:
		n.K = "pre"
		end()
		n.Kids = append(n.Kids, c.node(t.Text), &N{K: "closer", Pos: c.off(t.RBrace), End: -1})
	case *ast.TagStmt:
		n.K, n.S = "tag", t.Name+"|"+t.RawName
		v := c.node(t.Value)
		if v.K != "nil" {
			end()
		}
		n.Kids = append(n.Kids, v)
	case *ast.ConcatExpr:
		n.K = "concat"
		a, b := c.node(t.X), c.node(t.Y)
		if b.K != "nil" {
			end()
		}
		n.Kids = append(n.Kids, a, &N{K: "op", Pos: c.off(t.OpPos), End: -1}, b)
	case *ast.Ident:
		n.K, n.S = "id", t.Name
		end()
	case *ast.Number:
		n.K, n.S = "num", t.Value
		end()
	case *ast.UnparsedText:
		n.K = "raw"
		end()
		switch t.Type {
		case token.String:
			n.S = "quote:" + t.Value
		case token.BraceString:
			n.S = "brace:" + t.Value
		default:
			n.S = t.Type.String() + ":" + t.Value
		}
	case *ast.ParsedText:
		n.K, n.S, n.D = "str", c.delim(t.Delim), t.Depth
		end()
		for _, v := range t.Values {
			n.Kids = append(n.Kids, c.node(v))
		}
		if t.Closer != x.End()-1 && t.Closer != gotok.NoPos {
			n.Kids = append(n.Kids, &N{K: "odd closer", Pos: c.off(t.Closer), End: -1})
		}
	case *ast.Text:
		n.K, n.S = "text", t.Value
		end()
	case *ast.TextAccent:
		n.K = "accent"
		l := c.node(t.Text)
		if l.K == "text" {
			l.K = "letter"
			n.S = string(rune(t.Accent)) + t.Text.Value
		}
		n.Kids = []*N{l}
	case *ast.TextComma:
		n.K = "comma"
		end()
	case *ast.TextEscaped:
		n.K, n.S = "esc", t.Value
		end()
	case *ast.TextHyphen:
		n.K = "hyphen"
		end()
	case *ast.TextMath:
		n.K, n.S = "math", t.Value
		end()
	case *ast.TextNBSP:
		n.K = "nbsp"
		end()
	case *ast.TextSpace:
		n.K = "space"
	case *ast.TextMacro:
		// The parser keeps the backslash in the name of a symbol macro.
		n.K, n.S = "macro", strings.TrimPrefix(t.Name, `\`)
		end()
		for _, v := range t.Values {
			n.Kids = append(n.Kids, c.node(v))
		}
	case ast.Authors:
		n.K = "authors"
		n.Pos = -1
		for _, v := range t {
			n.Kids = append(n.Kids, c.node(v))
		}
	case *ast.Author:
		n.K, n.Pos = "author", -1
		n.Kids = append(n.Kids, c.node(t.First), c.node(t.Prefix), c.node(t.Last), c.node(t.Suffix))
	case *ast.BadExpr, *ast.BadStmt, *ast.BadDecl:
		n.K, n.S = "bad", fmt.Sprintf("%T", t)
	default:
		n.K = fmt.Sprintf("%T", t)
	}
	return n
}

func fromAST(x ast.Node, base int) *N { return conv{base}.node(x) }

// has tells whether a node of one of the kinds is in the tree.
func (n *N) find(kinds ...string) *N {
	for _, k := range kinds {
		if n.K == k {
			return n
		}
	}
	for _, k := range n.Kids {
		if f := k.find(kinds...); f != nil {
			return f
		}
	}
	return nil
}

func (n *N) count() int {
	c := 1
	for _, k := range n.Kids {
		c += k.count()
	}
	return c
}

func (n *N) label() string {
	s := n.K
	if n.S != "" {
		s += fmt.Sprintf("(%q)", head(n.S, 60))
	}
	if n.D != 0 {
		s += fmt.Sprintf(" depth %d", n.D)
	}
	return s
}

func (n *N) String() string {
	sb := strings.Builder{}
	n.write(&sb)
	return sb.String()
}

func (n *N) write(sb *strings.Builder) {
	fmt.Fprintf(sb, "%s:%q", n.K, n.S)
	if n.D != 0 {
		fmt.Fprintf(sb, "/%d", n.D)
	}
	if len(n.Kids) > 0 {
		sb.WriteByte('(')
		for i, k := range n.Kids {
			if i > 0 {
				sb.WriteByte(' ')
			}
			k.write(sb)
		}
		sb.WriteByte(')')
	}
}

// diff describes the first difference, or returns "".
func diff(want, got *N, pos bool) string { return diffAt("", want, got, pos) }

func diffAt(path string, want, got *N, pos bool) string {
	at := path + "/" + want.K
	if want.K != got.K || want.S != got.S || want.D != got.D {
		return fmt.Sprintf("%s: want %s, got %s", at, want.label(), got.label())
	}
	if pos {
		if want.Pos >= 0 && want.Pos != got.Pos {
			return fmt.Sprintf("%s %s: want position %d, got %d", at, want.label(), want.Pos, got.Pos)
		}
		if want.End >= 0 && want.End != got.End {
			return fmt.Sprintf("%s %s: want end %d, got %d", at, want.label(), want.End, got.End)
		}
	}
	for i := 0; i < len(want.Kids) || i < len(got.Kids); i++ {
		switch {
		case i >= len(got.Kids):
			return fmt.Sprintf("%s: child %d: want %s, got nothing", at, i, want.Kids[i].label())
		case i >= len(want.Kids):
			return fmt.Sprintf("%s: child %d: want nothing, got %s", at, i, got.Kids[i].label())
		}
		if d := diffAt(fmt.Sprintf("%s[%d]", at, i), want.Kids[i], got.Kids[i], pos); d != "" {
			return d
		}
	}
	return ""
}

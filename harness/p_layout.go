package main

// C06 and C10: layout and comments.

import (
	"fmt"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

type layoutCase struct {
	A, B    Printed
	Mode    parser.Mode
	Both    bool
	Swapped bool // some strings of B have braces where A has quotes, or the reverse
}

func genLayoutCase(g G) layoutCase {
	c := layoutCase{Mode: g.modeBits() | parser.ParseComments}
	if g.chance(30) {
		c.Mode &^= parser.ParseComments
	}
	c.Both = g.chance(60)
	d := g.doc(docCfg{str: strCfg{all: c.Both}, decls: 2, bigDocs: true})
	d2 := d.clone()
	if g.chance(50) {
		c.Swapped = true
		all := g.chance(50)
		d2.ops(func(o *Op) {
			if o.K != "str" || !(all || g.chance(50)) {
				return
			}
			if o.Quote {
				o.Quote = false
			} else if canQuote(o.Pieces) {
				o.Quote = true
			}
		})
	}
	if g.chance(30) {
		c.A = g.print(d, layoutCfg{plain: true})
	} else {
		c.A = g.print(d, layoutCfg{comments: g.chance(50)})
	}
	c.B = g.print(d2, layoutCfg{comments: g.chance(70)})
	return c
}

// canQuote tells whether the pieces mean the same between quotes, in both
// string modes.
func canQuote(ps []Piece) bool {
	for i := range ps {
		if ps[i].K == "group" || ps[i].K == "url" {
			continue
		}
		if strings.Contains(ps[i].source(), `"`) || ps[i].K == "accent" && ps[i].Form == accDotless {
			return false
		}
	}
	return true
}

// normal removes from a tree what layout may change.
func normal(n *N, delims bool) *N {
	out := &N{K: n.K, S: n.S, D: n.D, Pos: -1, End: -1}
	switch n.K {
	case "tag":
		out.S, _, _ = strings.Cut(n.S, "|")
	case "str":
		if !delims {
			out.S, out.D = "", 0
		}
	case "raw":
		if !delims {
			_, out.S, _ = strings.Cut(n.S, ":")
		}
	}
	for _, k := range n.Kids {
		out.Kids = append(out.Kids, normal(k, delims))
	}
	return out
}

func checkLayout(c layoutCase, o *Obs) error {
	if err := c.A.selfCheck(); err != nil {
		return err
	}
	if err := c.B.selfCheck(); err != nil {
		return err
	}
	labelDoc(o, &c.B)
	if len(c.A.Doc.Decls) > 0 && c.A.Src != c.B.Src {
		o.NonTrivial(string(c.A.Src), string(c.B.Src))
	}
	o.LabelIf(c.Swapped, "delimiters swapped")
	modes := []parser.Mode{c.Mode | parser.ParseStrings}
	if c.Both {
		modes = append(modes, c.Mode&^parser.ParseStrings)
	}
	for _, m := range modes {
		a, b := parseAt(string(c.A.Src), m, 0), parseAt(string(c.B.Src), m, 0)
		if a.err != nil && b.err != nil {
			// Both are well-formed, so this isn't a matter of layout. C03 says
			// that they must be accepted.
			return fmt.Errorf("mode %s: both layouts rejected: %v", modeName(m), a.err)
		}
		if a.err != nil || b.err != nil {
			return fmt.Errorf("mode %s: one layout rejected: %v / %v", modeName(m), a.err, b.err)
		}
		if d := diff(normal(a.tree(), !c.Swapped), normal(b.tree(), !c.Swapped), false); d != "" {
			return fmt.Errorf("mode %s: the second layout differs: %s", modeName(m), d)
		}
		// What changed in notation is recorded as it was written.
		if d := diff(c.B.Doc.tree(m&parser.ParseStrings != 0), b.tree(), false); d != "" {
			return fmt.Errorf("mode %s: second layout: %s", modeName(m), d)
		}
	}
	return nil
}

// ----------------------------------------------------------------------------
// C10

type commentCase struct {
	Printed
	Mode parser.Mode
	Any  Src `json:",omitempty"` // a source of any shape instead
}

// group is a comment group by the rules of the documentation.
type group struct {
	texts []string
	start int
	lead  int // index of the token that the group documents, or -1
}

// commentGroups computes the groups from the tokens of a printed source.
func commentGroups(pr *Printed) []group {
	src := string(pr.Src)
	line := make([]int, len(src)+1)
	for i := 0; i < len(src); i++ {
		line[i+1] = line[i]
		if src[i] == '\n' {
			line[i+1]++
		}
	}
	var out []group
	for i := 0; i < len(pr.Toks); {
		if !pr.Toks[i].Comment {
			i++
			continue
		}
		g := group{start: pr.Toks[i].Pos, lead: -1}
		// A comment on the line of the token before it stands alone.
		trailing := i > 0 && !pr.Toks[i-1].Comment && line[pr.Toks[i-1].End] == line[pr.Toks[i].Pos]
		j := i
		for ; j < len(pr.Toks) && pr.Toks[j].Comment; j++ {
			if j > i && (trailing || line[pr.Toks[j].Pos] != line[pr.Toks[j-1].Pos]+1) {
				break
			}
			g.texts = append(g.texts, src[pr.Toks[j].Pos:pr.Toks[j].End])
		}
		if !trailing && j < len(pr.Toks) && line[pr.Toks[j].Pos] == line[pr.Toks[j-1].Pos]+1 && !pr.Toks[j].Comment {
			g.lead = j
		}
		out = append(out, g)
		i = j
	}
	return out
}

func groupString(g *ast.TexCommentGroup) string {
	if g == nil {
		return "none"
	}
	var ts []string
	for _, c := range g.List {
		ts = append(ts, fmt.Sprintf("%q@%d", c.Text, c.Start))
	}
	return strings.Join(ts, " ")
}

func (g group) String(src string) string {
	var ts []string
	off := g.start
	for _, t := range g.texts {
		for src[off] != '%' {
			off++
		}
		ts = append(ts, fmt.Sprintf("%q@%d", t, off+1))
		off += len(t)
	}
	return strings.Join(ts, " ")
}

func checkComments(c commentCase, o *Obs) error {
	if c.Any != "" {
		src := string(c.Any)
		for _, m := range []parser.Mode{c.Mode | parser.ParseComments, (c.Mode | parser.ParseComments) ^ parser.ParseStrings} {
			p := parseAt(src, m, 0)
			if p.err != nil || p.file == nil {
				continue
			}
			r, err := recognize(src, p.file, p.base, false)
			if err != nil {
				o.Label("not recognized") // C09
				continue
			}
			o.Label("any accepted source")
			if len(r.comments) > 0 {
				o.NonTrivial(src)
				o.Label("any accepted source with comments")
			}
			if err := checkCommentTexts(src, p, r, m); err != nil {
				return err
			}
		}
		return nil
	}
	if err := c.selfCheck(); err != nil {
		return err
	}
	src := string(c.Src)
	groups := commentGroups(&c.Printed)
	lead := map[int]string{} // token index to group
	leads := 0
	for _, g := range groups {
		if g.lead >= 0 {
			lead[g.lead] = g.String(src)
			t := c.Toks[g.lead]
			if t.Decl > 0 || t.Item > 0 {
				leads++
			}
		}
	}
	if len(groups) > 0 {
		o.NonTrivial(src)
	}
	o.LabelIf(leads > 0, "documents a node")
	o.LabelIf(len(groups) > 3, "more than 3 groups")
	if n := len(c.Toks); n > 0 && c.Toks[n-1].Comment && c.Toks[n-1].End == len(src) {
		o.Label("comment at end of file without newline")
	}
	declDoc, itemDoc := map[int]string{}, map[[2]int]string{}
	fileDoc := "none"
	firstTok := true
	for i, t := range c.Toks {
		if t.Comment {
			continue
		}
		d, ok := lead[i]
		if !ok {
			d = "none"
		}
		if firstTok {
			fileDoc, firstTok = d, false
		}
		if t.Decl > 0 {
			declDoc[t.Decl-1] = d
		}
		if t.Item > 0 {
			itemDoc[[2]int{t.OfDecl - 1, t.Item - 1}] = d
		}
	}
	m := c.Mode | parser.ParseComments
	for _, m := range []parser.Mode{m | parser.ParseStrings, m &^ parser.ParseStrings} {
		p := parseAt(src, m, 0)
		if p.err != nil {
			return fmt.Errorf("mode %s: well-formed source rejected: %v", modeName(m), p.err)
		}
		for i := 0; i < len(groups) || i < len(p.file.Comments); i++ {
			switch {
			case i >= len(groups):
				return fmt.Errorf("mode %s: comment group %d: want nothing, got %s", modeName(m), i, groupString(p.file.Comments[i]))
			case i >= len(p.file.Comments):
				return fmt.Errorf("mode %s: comment group %d: want %s, got nothing", modeName(m), i, groups[i].String(src))
			}
			if want, got := groups[i].String(src), groupString(p.file.Comments[i]); want != got {
				return fmt.Errorf("mode %s: comment group %d: want %s, got %s", modeName(m), i, want, got)
			}
		}
		if d := diff(c.Doc.tree(m&parser.ParseStrings != 0), p.tree(), false); d != "" {
			return fmt.Errorf("mode %s: comments changed the tree: %s", modeName(m), d)
		}
		doc := func(what string, want string, got *ast.TexCommentGroup) error {
			if groupString(got) != want {
				return fmt.Errorf("mode %s: %s: want documentation %s, got %s", modeName(m), what, want, groupString(got))
			}
			return nil
		}
		if got := groupString(p.file.Doc); len(c.Doc.Decls) > 0 && got != fileDoc {
			return fmt.Errorf("mode %s: file: want documentation %s, got %s", modeName(m), fileDoc, got)
		}
		for i, d := range p.file.Entries {
			var err error
			what := fmt.Sprintf("declaration %d", i)
			switch t := d.(type) {
			case *ast.PreambleDecl:
				err = doc(what, declDoc[i], t.Doc)
			case *ast.AbbrevDecl:
				err = doc(what, declDoc[i], t.Doc)
				if err == nil {
					err = doc(what+" name", itemDoc[[2]int{i, 0}], t.Tag.Doc)
				}
			case *ast.BibDecl:
				err = doc(what, declDoc[i], t.Doc)
				k := 0
				for j := range c.Doc.Decls[i].Items {
					if err != nil {
						break
					}
					if !c.Doc.Decls[i].Items[j].Key {
						err = doc(fmt.Sprintf("%s tag %q", what, t.Tags[k].RawName), itemDoc[[2]int{i, j}], t.Tags[k].Doc)
						k++
					}
				}
			}
			if err != nil {
				return err
			}
		}
	}
	return nil
}

func init() {
	register(Def[layoutCase]{
		ID:    "C06",
		Rule:  "pairs of sources printed from one model with different white space, comments, delimiters of declarations and strings, trailing commas and letter case; non-trivial: at least one declaration and the sources differ; distinct by both sources",
		Quick: 400000, Thorough: 20000000,
		Gen: genLayoutCase, Check: checkLayout,
	})
	register(Def[commentCase]{
		ID:    "C10",
		Rule:  "random bibliographies with comments between tokens, compared with groups and attachments computed from the printer's token list, and sources of any shape, whose comments are compared with those found when reading the source along its tree; non-trivial: at least one comment; distinct by source text",
		Quick: 500000, Thorough: 25000000,
		Gen: func(g G) commentCase {
			c := commentCase{Mode: g.modeBits()}
			if g.chance(30) {
				c.Any = Src("%") + Src(g.anySource())
				if g.chance(50) {
					// Change the layout of a commented source.
					pr := g.print(g.doc(docCfg{str: strCfg{all: true}, decls: 1}), layoutCfg{comments: true})
					c.Any = Src("%\n" + g.mutate(string(pr.Src), 1))
				}
				return c
			}
			d := g.doc(docCfg{str: strCfg{all: true}, decls: 2, bigDocs: true})
			c.Printed = g.print(d, layoutCfg{comments: true})
			return c
		},
		Check: checkComments,
		Shrink: func(c commentCase, fails func(commentCase) bool, more func() bool) commentCase {
			if c.Any != "" {
				c.Any = Src(shrinkText(string(c.Any), func(s string) bool {
					d := c
					d.Any = Src(s)
					return fails(d)
				}, more))
			}
			return c
		},
	})
}

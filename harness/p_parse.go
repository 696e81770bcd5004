package main

// C03, C04, C05, C06, C08: what a well-formed source parses to.

import (
	"fmt"
	gotok "go/token"
	"sort"
	"strings"

	"github.com/jschaf/bibtex/parser"
)

type docCase struct {
	Printed
	Mode parser.Mode // other than ParseStrings
	Pad  int
	Both bool // parse in both string modes
	Bulk int  `json:",omitempty"` // instead of all that: 1 + index of a large bibliography
}

func (c *docCase) modes() []parser.Mode {
	m := c.Mode &^ parser.ParseStrings
	if c.Both {
		return []parser.Mode{m | parser.ParseStrings, m}
	}
	return []parser.Mode{m | parser.ParseStrings}
}

func genDocCase(g G) docCase {
	c := docCase{Mode: g.modeBits()}
	if g.chance(30) {
		c.Pad = 1 + g.n(200)
	}
	c.Both = g.chance(70)
	cfg := docCfg{str: strCfg{all: c.Both}, decls: 3, bigDocs: true}
	lay := layoutCfg{comments: g.chance(60), plain: g.chance(10)}
	c.Printed = g.print(g.doc(cfg), lay)
	return c
}

// bulkDocs is the number of bibliographies with very many of one thing.
const bulkDocs = 28

// bulkPieces are the constructs of which a string has many.
var bulkPieces = []Piece{
	{K: "group", Kids: []Piece{{K: "text", S: "a"}}}, {K: "esc", S: "&"}, {K: "math", S: "x"}, {K: "comma"}, {K: "nbsp"},
	{K: "accent", M: "'", S: "o"}, {K: "accent", M: "c", S: "c", Form: accBraced}, {K: "macro", S: ","}, {K: "url", M: "url", S: "http://x.org/~a"},
}

// bulkDoc makes a bibliography with very many of one thing.
func bulkDoc(k int) docCase {
	const many = 110000
	bib := func(items ...Item) Decl {
		return Decl{K: "bib", Word: "misc", Items: append([]Item{{Key: true, Name: "k"}}, items...)}
	}
	tag := func(ops ...Op) Item { return Item{Name: "x", Val: Val{Ops: ops}} }
	str := func(quote bool, ps ...Piece) Op { return Op{K: "str", Quote: quote, Pieces: ps} }
	text := Piece{K: "text", S: "a"}
	var decls []Decl
	var items []Item
	var ops []Op
	for i := range many {
		quote := i%2 == 0
		switch k {
		case 0:
			decls = append(decls, bib(tag(str(quote, Piece{K: "group", Kids: []Piece{text}}))))
		case 1:
			decls = append(decls, Decl{K: "abbrev", Word: "string", Items: []Item{{Name: "x", Val: Val{Ops: []Op{{K: "num", S: "1"}, {K: "num", S: "2"}}}}}})
		case 2:
			decls = append(decls, Decl{K: "pre", Word: "preamble", Val: Val{Ops: []Op{str(quote, text)}}})
		case 3:
			items = append(items, tag(str(quote, text)))
		case 4:
			items = append(items, Item{Key: true, Name: "k"})
		case 5, 6:
			if i < 2000 {
				ops = append(ops, []Op{{K: "num", S: "1"}, str(quote, text)}[k-5])
			}
		}
	}
	switch {
	case k == 5 || k == 6:
		decls = []Decl{bib(tag(ops...)), bib()}
	case k == 3 || k == 4:
		decls = []Decl{bib(items...), bib()}
	case k == 7:
		deep := text
		for range 2000 {
			deep = Piece{K: "group", Kids: []Piece{deep}}
		}
		decls = []Decl{bib(tag(str(true, deep)), tag(str(false, Piece{K: "group", Kids: clonePieces([]Piece{deep})}))), bib()}
	case k == 8:
		decls = []Decl{bib(tag(str(false, Piece{K: "text", S: strings.Repeat("text", 1<<18)}))), bib()}
	case k == 27:
		// Many groups inside of groups.
		ps := make([]Piece, many)
		for i := range ps {
			ps[i] = Piece{K: "group", Kids: []Piece{{K: "group", Kids: []Piece{text}}}}
		}
		for range 8 {
			ps = []Piece{{K: "group", Kids: ps}}
		}
		decls = []Decl{bib(tag(str(true, ps...))), bib()}
	case k > 8:
		ps := make([]Piece, many)
		for i := range ps {
			ps[i] = bulkPieces[(k-9)/2]
			ps[i].Kids = clonePieces(ps[i].Kids)
		}
		decls = []Decl{bib(tag(str(k%2 == 0, ps...))), bib()}
	}
	return docCase{Printed: G{}.print(&Doc{Decls: decls}, layoutCfg{plain: true}), Both: true}
}

func enumBulk() []docCase {
	var out []docCase
	for k := range bulkDocs {
		out = append(out, docCase{Bulk: k + 1})
	}
	return out
}

func checkDocCase(c docCase, o *Obs, pos bool) error {
	if c.Bulk > 0 {
		o.Label("bulk")
		c = bulkDoc((c.Bulk - 1) % bulkDocs)
	}
	if err := c.selfCheck(); err != nil {
		return err
	}
	labelDoc(o, &c.Printed)
	if len(c.Doc.Decls) > 0 {
		o.NonTrivial(string(c.Src))
	}
	for _, m := range c.modes() {
		o.Label("mode " + modeName(m&(parser.ParseStrings|parser.ParseComments)))
		if err := checkDoc(&c.Printed, m, c.Pad, pos); err != nil {
			return err
		}
	}
	return nil
}

// posCase is a printed bibliography or a source of any shape.
type posCase struct {
	Doc *docCase `json:",omitempty"`
	Any *srcCase `json:",omitempty"`
}

// checkAnyPositions checks the positions of the tree of any accepted source.
func checkAnyPositions(c srcCase, o *Obs) error {
	src := string(c.Src)
	p := parseAt(src, c.Mode, c.Pad)
	if p.err != nil || p.file == nil {
		return nil
	}
	r, err := recognize(src, p.file, p.base, true)
	o.Label("any accepted source")
	if len(p.file.Entries) > 0 {
		o.NonTrivial(src)
	}
	if err != nil {
		return fmt.Errorf("mode %s: %w", modeName(c.Mode), err)
	}
	return checkCommentTexts(src, p, r, c.Mode)
}

// checkCommentTexts compares the comments of a file with those between its
// elements.
func checkCommentTexts(src string, p parsed, r *recog, mode parser.Mode) error {
	if mode&parser.ParseComments == 0 {
		return nil
	}
	var got []string
	for _, g := range p.file.Comments {
		if len(g.List) == 0 {
			return fmt.Errorf("mode %s: empty comment group", modeName(mode))
		}
		for _, cm := range g.List {
			got = append(got, fmt.Sprintf("%q@%d", cm.Text, int(cm.Start)-p.base))
		}
	}
	var want []string
	for _, off := range r.comments {
		text, _, _ := strings.Cut(src[off:], "\n")
		want = append(want, fmt.Sprintf("%q@%d", text, off))
	}
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Errorf("mode %s: comments %v, want %v", modeName(mode), got, want)
	}
	return nil
}

func init() {
	register(Def[docCase]{
		ID:    "C03",
		Rule:  "bibliographies with 110000 of one construct; then random bibliographies built from a model (declarations, keys, tags, values, strings) and printed with a random layout; non-trivial: at least one declaration; distinct by source text",
		Quick: 500000, Thorough: 30000000,
		Enum: enumBulk,
		Gen:  genDocCase,
		Check: func(c docCase, o *Obs) error {
			if err := checkDocCase(c, o, false); err != nil {
				return err
			}
			return nil
		},
	})
	register(Def[posCase]{
		ID:    "C08",
		Rule:  "as C03, but every position of the tree is compared with the printer's offsets, for files at random places of a file set, and line and column with the newlines of the source; and sources of any shape that are accepted, read again along the positions of their tree; non-trivial: at least one declaration; distinct by source text",
		Quick: 450000, Thorough: 30000000,
		Gen: func(g G) posCase {
			if g.chance(40) {
				c := genSrcCase(g)
				return posCase{Any: &c}
			}
			c := genDocCase(g)
			return posCase{Doc: &c}
		},
		Check: func(c posCase, o *Obs) error {
			if c.Any != nil {
				return checkAnyPositions(*c.Any, o)
			}
			return checkPositions(*c.Doc, o)
		},
		FromSrc: func(mode byte, src string) posCase {
			c := fromSrc(mode, src)
			return posCase{Any: &c}
		},
		Shrink: func(c posCase, fails func(posCase) bool, more func() bool) posCase {
			if c.Any != nil {
				x := shrinkSrc(*c.Any, func(s srcCase) bool { return fails(posCase{Any: &s}) }, more)
				c.Any = &x
			}
			return c
		},
	})
}

// ----------------------------------------------------------------------------
// C08

func checkPositions(c docCase, o *Obs) error {
	if err := checkDocCase(c, o, true); err != nil {
		return err
	}
	src := string(c.Src)
	o.LabelIf(strings.HasPrefix(src, "\ufeff"), "starts with BOM")
	o.LabelIf(strings.Contains(src, "\r\n"), "CRLF")
	o.LabelIf(c.Pad > 0, "not the first file")
	var lines []int // offsets of the starts of lines
	lines = append(lines, 0)
	for i := 0; i < len(src); i++ {
		if src[i] == '\n' {
			lines = append(lines, i+1)
		}
	}
	for _, m := range c.modes() {
		// Two files in one file set.
		fset := gotok.NewFileSet()
		if c.Pad > 0 {
			fset.AddFile("other.bib", -1, c.Pad-1)
		}
		for _, name := range []string{"first.bib", "dir/second.bib"} {
			base := fset.Base()
			f, err := parser.ParseFile(fset, name, src, m)
			if err != nil {
				return fmt.Errorf("mode %s: %v", modeName(m), err)
			}
			tree := fromAST(f, base)
			if d := diff(c.Doc.tree(m&parser.ParseStrings != 0), tree, true); d != "" {
				return fmt.Errorf("mode %s: file %s: %s", modeName(m), name, d)
			}
			var bad error
			at := func(what string, off int) {
				if off < 0 || bad != nil {
					return
				}
				got := fset.Position(gotok.Pos(base + off))
				ln := sort.SearchInts(lines, off+1)
				want := gotok.Position{Filename: name, Offset: off, Line: ln, Column: off - lines[ln-1] + 1}
				if got != want {
					bad = fmt.Errorf("mode %s: %s at offset %d: want %v, got %v", modeName(m), what, off, want, got)
				}
			}
			var visit func(n *N)
			visit = func(n *N) {
				at(n.label(), n.Pos)
				for _, k := range n.Kids {
					visit(k)
				}
			}
			visit(tree)
			if m&parser.ParseComments != 0 {
				for _, g := range f.Comments {
					for _, cm := range g.List {
						off := int(cm.Pos()) - base
						end := int(cm.End()) - base
						at("comment", off)
						if off < 0 || end > len(src) || src[off:end] != cm.Text || !strings.HasPrefix(cm.Text, "%") {
							return fmt.Errorf("mode %s: comment %q is not the source at its position %d", modeName(m), cm.Text, off)
						}
					}
					if g.Pos() != g.List[0].Pos() || g.End() != g.List[len(g.List)-1].End() {
						return fmt.Errorf("mode %s: comment group's range", modeName(m))
					}
				}
			}
			if bad != nil {
				return bad
			}
		}
	}
	return nil
}

package main

// C27 and C28: author resolution of chosen fields, and whole pipelines.

import (
	"fmt"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// ----------------------------------------------------------------------------
// C27

type selectCase struct {
	Printed
	Any    bool
	Fields []string
	Root   int // 0: file; 1: package; 2: each declaration; 3: each tag of an entry
	Mode   parser.Mode
}

var selectNames = []string{"author", "editor", "authors", "autho", "translator", "title", "a", "author2", "name-x", "url", "year"}

func (g G) selectName() string {
	if w, ok := g.novel(isTagNameText); ok && asciiLower(w) == w {
		return w
	}
	return pick(g, selectNames...)
}

func genSelect(g G) selectCase {
	c := selectCase{Root: g.n(4), Mode: parser.ParseStrings | g.modeBits()&^parser.Trace}
	if g.rare(15) {
		c.Mode &^= parser.ParseStrings
	}
	c.Fields = list(g, 0, 3, func(g G) string { return g.selectName() })
	if g.chance(15) {
		c.Any, c.Doc = true, &Doc{}
		c.Src = Src(g.anySource())
		return c
	}
	d := g.doc(docCfg{str: strCfg{all: true, renderable: g.chance(80)}, decls: 2})
	for i := range d.Decls {
		dc := &d.Decls[i]
		for j := range dc.Items {
			it := &dc.Items[j]
			if it.Key || !g.chance(70) {
				continue
			}
			it.Name = g.selectName()
			if len(c.Fields) > 0 && g.chance(40) {
				it.Name = c.Fields[g.n(len(c.Fields))]
			}
			if g.chance(60) {
				nc := genNames(g)
				it.Val = Val{Ops: []Op{nc.op()}}
			}
		}
	}
	c.Printed = g.print(d, layoutCfg{comments: g.chance(20), plain: g.chance(40)})
	return c
}

func checkSelect(c selectCase, o *Obs) error {
	src := string(c.Src)
	p, ref := parseAt(src, c.Mode, 0), parseAt(src, c.Mode, 0)
	if p.err != nil || ref.err != nil {
		o.Label("rejected")
		if c.Any {
			return nil
		}
		// Quotes in names may end a string in raw mode.
		if c.Mode&parser.ParseStrings == 0 {
			return nil
		}
		return fmt.Errorf("well-formed source rejected: %w", p.err)
	}
	sel := map[string]bool{}
	for _, f := range c.Fields {
		sel[f] = true
	}
	// What is expected, on the second tree.
	var bad error
	n := 0
	for _, d := range ref.file.Entries {
		b, ok := d.(*ast.BibDecl)
		if !ok {
			continue
		}
		for _, t := range b.Tags {
			if !sel[t.Name] || bad != nil {
				continue
			}
			txt, ok := t.Value.(*ast.ParsedText)
			if !ok {
				bad = fmt.Errorf("tag %q is a %T", t.Name, t.Value)
				continue
			}
			as, err := bibtex.ExtractAuthors(txt)
			if err != nil {
				bad = fmt.Errorf("tag %q: %w", t.Name, err)
				continue
			}
			n++
			t.Value = as
		}
	}
	var roots []ast.Node
	switch c.Root {
	case 0:
		roots = []ast.Node{p.file}
	case 1:
		roots = []ast.Node{&ast.Package{Files: map[string]*ast.File{"x": p.file}}}
	case 2:
		for _, d := range p.file.Entries {
			roots = append(roots, d)
		}
	case 3:
		for _, d := range p.file.Entries {
			if b, ok := d.(*ast.BibDecl); ok {
				for _, t := range b.Tags {
					roots = append(roots, t)
				}
			}
		}
	}
	o.LabelIf(n > 0, "replaces authors")
	o.LabelIf(bad != nil, "fails")
	o.Label(fmt.Sprintf("root %d", c.Root))
	if n > 0 || bad != nil {
		o.NonTrivial(src, strings.Join(c.Fields, ","))
	}
	fields := append([]string(nil), c.Fields...)
	res := bibtex.NewAuthorResolver(fields...)
	for i := range fields {
		fields[i] = "title" // the names are those that it was made with
	}
	var err error
	for _, r := range roots {
		if err = res.Resolve(r); err != nil {
			break
		}
	}
	if bad != nil {
		if err == nil {
			return fmt.Errorf("fields %q: no error, but %w", c.Fields, bad)
		}
	} else if err != nil {
		return fmt.Errorf("fields %q: %w", c.Fields, err)
	}
	// Everything up to a failure is replaced, nothing else is touched.
	if got, want := dump(p.file, p.base), dump(ref.file, ref.base); got != want {
		return fmt.Errorf("fields %q: the tree differs from one with its authors replaced: %s", c.Fields, firstDiff(got, want))
	}
	return nil
}

// ----------------------------------------------------------------------------
// C28

type pipeCase struct {
	Printed
	Names  map[string]namesCase // by "declaration/item"
	Steps  [][]string           // resolvers of each option: author editor both simplify text
	Pkg    bool
	Mode   parser.Mode
	Reader bool
}

func genPipe(g G) pipeCase {
	c := pipeCase{Names: map[string]namesCase{}, Pkg: g.chance(20), Mode: parser.ParseStrings | g.modeBits()&^parser.Trace}
	if g.chance(50) {
		// The usual order.
		c.Steps = [][]string{{pick(g, "author", "both"), "simplify", "text"}}
		if g.chance(30) {
			c.Steps = [][]string{{"simplify"}, {"author", "editor"}, {}, {"text"}}
		}
	} else {
		c.Steps = list(g, 1, 3, func(g G) []string {
			return list(g, 0, 3, func(g G) string { return pick(g, "author", "editor", "both", "simplify", "text") })
		})
	}
	d := g.doc(docCfg{str: strCfg{renderable: g.chance(92)}, decls: 2})
	for i := range d.Decls {
		dc := &d.Decls[i]
		if dc.K != "bib" {
			continue
		}
		for j := range dc.Items {
			it := &dc.Items[j]
			if l := strings.ToLower(it.Name); l == "author" || l == "editor" {
				it.Name = "title"
			}
			if it.Key {
				continue
			}
			if g.chance(50) {
				it.Name = pick(g, "author", "editor")
				if g.rare(40) {
					it.Val = Val{Ops: []Op{{K: pick(g, "num", "id"), S: "7"}}}
					it.Val.Ops[0].K = "num"
					continue
				}
				nc := pipeNames(g)
				c.Names[fmt.Sprintf("%d/%d", i, j)] = nc
				it.Val = Val{Ops: []Op{nc.op()}}
			}
		}
		g.repeatNames(dc, c.Names, i)
	}
	c.Printed = g.print(d, layoutCfg{comments: g.chance(20), plain: g.chance(40)})
	return c
}

// pipeNames generates names whose words mean the same when escapes have become
// text: a word that begins with an escaped character has no case afterwards.
func pipeNames(g G) namesCase {
	nc := genNames(g)
	for i := range nc.Names {
		for _, p := range []*Part{&nc.Names[i].First, &nc.Names[i].Prefix, &nc.Names[i].Last, &nc.Names[i].Suffix} {
			for j := range p.Words {
				if w := &p.Words[j]; len(w.Ps) > 0 && w.Ps[0].K == "esc" {
					w.Ps[0] = Piece{K: "group"}
				}
			}
		}
	}
	return nc
}

// repeatNames sometimes appends an author field again.
func (g G) repeatNames(dc *Decl, names map[string]namesCase, i int) {
	if !g.rare(12) {
		return
	}
	nc := pipeNames(g)
	names[fmt.Sprintf("%d/%d", i, len(dc.Items))] = nc
	dc.Items = append(dc.Items, Item{Name: "author", Val: Val{Ops: []Op{nc.op()}}})
}

// plainEscapes removes the backslash of escapes.
func plainEscapes(ps []Piece) []Piece {
	out := clonePieces(ps)
	walkPieces(out, func(p *Piece) {
		if p.K == "esc" {
			p.K = "text"
		}
	})
	return out
}

// authorsTree is what a list of names is extracted to.
func (c *namesCase) authorsTree(simplified bool) (*N, error) {
	n := &N{K: "authors", Pos: -1, End: -1}
	for i := range c.Names {
		nm := &c.Names[i]
		a := &N{K: "author", Pos: -1, End: -1}
		all := ""
		for _, p := range []Part{nm.First, nm.Prefix, nm.Last, nm.Suffix} {
			ps := p.pieces()
			if simplified {
				ps = plainEscapes(ps)
			}
			sb := &strings.Builder{}
			nameText(ps, sb)
			s := trimBlanks(sb.String())
			all += s
			a.Kids = append(a.Kids, &N{K: "text", S: s, Pos: -1, End: -1})
		}
		if all == "" {
			return nil, fmt.Errorf("author %d is empty", i)
		}
		n.Kids = append(n.Kids, a)
	}
	return n, nil
}

func checkPipe(c pipeCase, o *Obs) error {
	if err := c.selfCheck(); err != nil {
		return err
	}
	for _, nc := range c.Names {
		if len(nc.Names) == 0 {
			return nil
		}
		for i := range nc.Names {
			if nc.Names[i].bad() {
				return nil
			}
		}
	}
	// The reference.
	tree := c.Doc.tree(true)
	var bad error
	simplified := false
	opts := []bibtex.Option{bibtex.WithParserMode(c.Mode)}
	// tags calls f for every tag of a declaration with its item's index.
	tags := func(i int, f func(j int, name string, t *N)) {
		items := c.Doc.Decls[i].Items
		j := 0
		for _, t := range tree.Kids[i].Kids {
			if t.K != "tag" {
				continue
			}
			for items[j].Key {
				j++
			}
			f(j, strings.ToLower(items[j].Name), t)
			j++
		}
	}
	forNames := func(step string) {
		for i := range c.Doc.Decls {
			if c.Doc.Decls[i].K != "bib" {
				continue
			}
			tags(i, func(j int, name string, t *N) {
				if name != "author" && name != "editor" || step != "both" && step != name || bad != nil {
					return
				}
				nc, ok := c.Names[fmt.Sprintf("%d/%d", i, j)]
				if !ok || t.Kids[0].K != "str" {
					bad = fmt.Errorf("%s is a %s", t.S, t.Kids[0].K)
					return
				}
				as, err := nc.authorsTree(simplified)
				if err != nil {
					bad = err
					return
				}
				t.Kids[0] = as
			})
		}
	}
	steps := 0
	for _, opt := range c.Steps {
		var rs []bibtex.Resolver
		for _, s := range opt {
			steps++
			if bad == nil {
				switch s {
				case "simplify":
					tree.simplify()
					simplified = true
				case "text":
					bad = resolvedText(tree)
				default:
					forNames(s)
				}
			}
			switch s {
			case "simplify":
				rs = append(rs, bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver))
			case "text":
				rs = append(rs, bibtex.NewRenderParsedTextResolver())
			case "both":
				rs = append(rs, bibtex.NewAuthorResolver("editor", "author"))
			default:
				rs = append(rs, bibtex.NewAuthorResolver(s))
			}
		}
		opts = append(opts, bibtex.WithResolvers(rs...))
	}
	var want []wantEntry
	for i := range c.Doc.Decls {
		if c.Doc.Decls[i].K != "bib" {
			continue
		}
		w := c.Doc.Decls[i].entry(true)
		w.tags = map[string]*N{}
		tags(i, func(j int, name string, t *N) { w.tags[name] = t.Kids[0] })
		want = append(want, w)
	}
	if steps > 0 && len(want) > 0 {
		o.NonTrivial(string(c.Src), fmt.Sprint(c.Steps))
	}
	o.LabelIf(bad != nil, "fails")
	o.LabelIf(len(c.Names) > 0, "has authors")
	o.Label(fmt.Sprintf("%d resolvers", steps))

	b := bibtex.New(opts...)
	f, err := b.Parse(strings.NewReader(string(c.Src)))
	if err != nil {
		return fmt.Errorf("well-formed source rejected: %w", err)
	}
	var root ast.Node = f
	if c.Pkg {
		root = &ast.Package{Files: map[string]*ast.File{"x": f}}
	}
	got, err := b.Resolve(root)
	if bad != nil {
		if err == nil {
			return fmt.Errorf("resolvers %v: no error, but %w", c.Steps, bad)
		}
		if len(got) != 0 {
			return fmt.Errorf("resolvers %v: entries and error %w", c.Steps, err)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("resolvers %v: %w", c.Steps, err)
	}
	if err := compareEntries(want, got, 1, false); err != nil {
		return fmt.Errorf("resolvers %v: %w", c.Steps, err)
	}
	// Declarations without entry go through the resolvers, too.
	if d := diff(tree, fromAST(f, 1), false); d != "" {
		return fmt.Errorf("resolvers %v: %s", c.Steps, d)
	}
	return nil
}

func init() {
	register(Def[selectCase]{
		ID:    "C27",
		Rule:  "printed bibliographies with author lists and other values under similar field names, and accepted sources of any shape; a resolver for a random set of fields runs on every kind of root and the tree is compared with one whose authors were extracted one by one; non-trivial: replaces authors or fails; distinct by source and fields",
		Quick: 100000, Thorough: 5000000,
		Gen: genSelect, Check: checkSelect,
	})
	register(Def[pipeCase]{
		ID:    "C28",
		Rule:  "printed bibliographies with author lists of known names, run through random sequences of the library's resolvers; entries and tree are compared with what was written; non-trivial: at least one resolver and entry; distinct by source and resolvers",
		Quick: 100000, Thorough: 5000000,
		Gen: genPipe, Check: checkPipe,
	})
}

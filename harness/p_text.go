package main

// C16 and C17: plain-text rendering and the simplification of escapes.

import (
	"errors"
	"fmt"
	"regexp"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
)

// plainText is the plain text of a string, the reference for text rendering.
// It fails for what has no plain text.
func plainText(n *N, sb *strings.Builder) error {
	switch n.K {
	case "str", "macro":
		for _, k := range n.Kids {
			if err := plainText(k, sb); err != nil {
				return err
			}
		}
	case "concat":
		if err := plainText(n.Kids[0], sb); err != nil {
			return err
		}
		sb.WriteString("#")
		return plainText(n.Kids[len(n.Kids)-1], sb)
	case "text", "esc":
		sb.WriteString(n.S)
	case "space", "nbsp":
		sb.WriteString(" ")
	case "comma":
		sb.WriteString(",")
	case "hyphen":
		sb.WriteString("-")
	case "math":
		sb.WriteString("$" + n.S + "$")
	case "accent":
		r, ok := composedAccent(n.S)
		if !ok {
			return fmt.Errorf("accent %s has no letter", n.S)
		}
		sb.WriteString(r)
	default:
		return fmt.Errorf("%s has no plain text", n.K)
	}
	return nil
}

// composedAccent returns the letter of a supported accent, like 'o.
func composedAccent(s string) (string, bool) {
	r, ok := accentLetters[s]
	return r, ok
}

var accentLetters = func() map[string]string {
	m := map[string]string{}
	for _, p := range accentPairs {
		m[p] = composed(p[0], rune(p[1]))
	}
	return m
}()

// limitWriter accepts n bytes and then fails.
type limitWriter struct {
	sb    strings.Builder
	n     int
	err   error
	once  bool // fails only once
	fails int
}

func (w *limitWriter) Write(b []byte) (int, error) {
	room := w.n - w.sb.Len()
	if len(b) <= room || w.once && w.fails > 0 {
		w.sb.Write(b)
		return len(b), nil
	}
	w.fails++
	room = max(room, 0)
	w.sb.Write(b[:room])
	return room, w.err
}

var errWrite = errors.New("write error for a test")

type textCase struct {
	Printed
	Any      bool
	Root     int // where the resolver starts
	Limit    int // bytes a failing writer accepts
	Once     bool
	Mode     parser.Mode
	Simplify bool // simplify escapes first
	Tree     *B   `json:",omitempty"` // a tag built by hand instead of a source
}

func genTextCase(g G) textCase {
	c := textCase{Mode: g.modeBits()&^parser.Trace | parser.ParseStrings, Root: g.n(6), Limit: g.small(12, 200), Once: g.chance(30), Simplify: g.chance(20)}
	if g.rare(8) {
		c.Any, c.Doc = true, &Doc{}
		c.Tree = &B{K: "tag", S: "x", Kids: []B{g.builtVal(builtCfg{bad: g.chance(20), depth: 1 + g.n(4)})}}
		if g.chance(80) {
			c.Tree.Kids[0] = g.builtStr(builtCfg{bad: g.chance(20), depth: 1 + g.n(4)})
		}
		return c
	}
	if g.chance(20) {
		c.Any, c.Doc = true, &Doc{}
		switch g.n(3) {
		case 0:
			c.Src = Src(g.anySource())
		default:
			c.Src = Src(g.inField(g.soup(stringFragments, 0, 12)))
		}
		return c
	}
	d := g.doc(docCfg{str: strCfg{renderable: g.chance(85)}, decls: 2, onlyBib: g.chance(40)})
	c.Printed = g.print(d, layoutCfg{comments: g.chance(20), plain: g.chance(50)})
	return c
}

// roots returns the nodes that a resolver is applied to, which together hold
// the file.
func rootsOf(f *ast.File, how int) []ast.Node {
	var out []ast.Node
	switch how {
	case 1:
		return []ast.Node{&ast.Package{Files: map[string]*ast.File{"x": f}}}
	case 2:
		for _, d := range f.Entries {
			out = append(out, d)
		}
		return out
	case 3:
		for _, d := range f.Entries {
			switch t := d.(type) {
			case *ast.BibDecl:
				for _, tag := range t.Tags {
					out = append(out, tag)
				}
			case *ast.AbbrevDecl:
				out = append(out, t.Tag)
			default:
				out = append(out, d)
			}
		}
		return out
	}
	return []ast.Node{f}
}

// resolvedText changes the reference tree the way the text resolver does.
func resolvedText(n *N) error {
	if n.K == "tag" {
		v := n.Kids[0]
		if v.K == "str" {
			sb := &strings.Builder{}
			if err := plainText(v, sb); err != nil {
				return err
			}
			n.Kids[0] = &N{K: "text", S: sb.String(), Pos: -1, End: -1}
			n.End = -1
		}
		return nil
	}
	var first error
	for _, k := range n.Kids {
		if err := resolvedText(k); err != nil && first == nil {
			first = err
		}
	}
	return first
}

func strNodes(n ast.Node) []*ast.ParsedText {
	var out []*ast.ParsedText
	_ = ast.Walk(n, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		if t, ok := n.(*ast.ParsedText); ok && entering {
			out = append(out, t)
		}
		return ast.WalkContinue, nil
	})
	return out
}

// concatNodes returns the tag values that are concatenations.
func concatNodes(n ast.Node) []ast.Expr {
	var out []ast.Expr
	_ = ast.Walk(n, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		if t, ok := n.(*ast.TagStmt); ok && entering {
			if c, ok := t.Value.(*ast.ConcatExpr); ok {
				out = append(out, c)
			}
		}
		return ast.WalkContinue, nil
	})
	return out
}

// checkPlain renders a string to plain text.
func checkPlain(n *N, x ast.Expr, limit int, once bool, o *Obs) error {
	rend := render.NewTextRenderer()
	sb := &strings.Builder{}
	bad := plainText(n, sb)
	want := sb.String()
	out := &strings.Builder{}
	err := rend.Render(out, x)
	if bad != nil {
		o.Label("not renderable")
		if err == nil {
			return fmt.Errorf("%s: rendered as %q without error", bad, out)
		}
		if !strings.HasPrefix(want, out.String()) {
			return fmt.Errorf("text %q before the error %v, want %q", out, err, want)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("string %s: %w", n, err)
	}
	if out.String() != want {
		return fmt.Errorf("string %s: rendered as %q, want %q", n, out, want)
	}
	if n.count() > 2 {
		o.NonTrivial(n.String())
	}
	o.LabelIf(n.find("accent") != nil, "accent")
	o.LabelIf(n.find("macro") != nil, "macro")
	o.LabelIf(n.find("math") != nil, "math")
	if len(want) == 0 {
		return nil
	}
	// A writer that fails.
	o.Label("failing writer")
	for _, lim := range []int{limit % len(want), len(want) - 1} {
		w := &limitWriter{n: lim, err: errWrite, once: once}
		if err := rend.Render(w, x); !errors.Is(err, errWrite) {
			return fmt.Errorf("string %s: the writer fails after %d bytes, but the error is %v", n, lim, err)
		}
		if got := w.sb.String(); !strings.HasPrefix(want, got) || !w.once && len(got) != lim {
			return fmt.Errorf("string %s: a writer that fails after %d bytes got %q of %q", n, lim, got, want)
		}
	}
	return nil
}

func checkText(c textCase, o *Obs) error {
	if err := c.selfCheck(); !c.Any && err != nil {
		return err
	}
	p := parseAt(string(c.Src), c.Mode, 0)
	if c.Tree != nil {
		o.Label("built tree")
		tag, _ := c.Tree.build().(*ast.TagStmt)
		if tag == nil {
			return nil
		}
		p.file = &ast.File{Entries: []ast.Decl{&ast.BibDecl{Tags: []*ast.TagStmt{tag}}, &ast.AbbrevDecl{Tag: tag}}}
	}
	if p.err != nil {
		if c.Any {
			o.Label("rejected")
			return nil
		}
		return fmt.Errorf("well-formed source rejected: %w", p.err)
	}
	tree := p.tree()
	if !c.Any {
		// What was written, rather than what was read.
		tree = c.Doc.tree(true)
	}
	if c.Simplify {
		if err := bibtex.SimplifyEscapedTextResolver(p.file); err != nil {
			return fmt.Errorf("simplify: %w", err)
		}
		tree.simplify()
	}

	// Every string on its own.
	var strs []*N
	var collect func(n *N)
	collect = func(n *N) {
		if n.K == "str" {
			strs = append(strs, n)
		}
		for _, k := range n.Kids {
			collect(k)
		}
	}
	collect(tree)
	asts := strNodes(p.file)
	if len(asts) != len(strs) {
		return fmt.Errorf("%d strings in the tree, want %d", len(asts), len(strs))
	}
	for i, n := range strs {
		if err := checkPlain(n, asts[i], c.Limit, c.Once, o); err != nil {
			return err
		}
	}

	// Every concatenation, whose operands may not be renderable.
	var cats []*N
	collectCats := func(n *N) {
		if n.K == "tag" && n.Kids[0].K == "concat" {
			cats = append(cats, n.Kids[0])
		}
	}
	var all func(n *N)
	all = func(n *N) {
		collectCats(n)
		for _, k := range n.Kids {
			all(k)
		}
	}
	all(tree)
	catExprs := concatNodes(p.file)
	if len(cats) != len(catExprs) {
		return fmt.Errorf("%d concatenations in the tree, want %d", len(catExprs), len(cats))
	}
	for i, n := range cats {
		if err := checkPlain(n, catExprs[i], c.Limit, c.Once, o); err != nil {
			return err
		}
		o.Label("concatenation")
	}

	// The resolver.
	bad := resolvedText(tree)
	res := bibtex.NewRenderParsedTextResolver()
	before := dump(p.file, p.base)
	var err error
	for _, r := range rootsOf(p.file, c.Root) {
		if e := res.Resolve(r); e != nil && err == nil {
			err = e
		}
	}
	if bad != nil {
		if err == nil {
			return fmt.Errorf("text resolver: no error, but %w", bad)
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("text resolver: %w", err)
	}
	if d := diff(tree, p.tree(), c.Tree == nil); d != "" {
		return fmt.Errorf("after the text resolver (root %d): %s", c.Root, d)
	}
	if len(strs) == 0 && before != dump(p.file, p.base) {
		return fmt.Errorf("the text resolver changed a tree without strings")
	}
	// Once more changes nothing.
	after := dump(p.file, p.base)
	if err := res.Resolve(p.file); err != nil {
		return fmt.Errorf("text resolver, second run: %w", err)
	}
	if again := dump(p.file, p.base); again != after {
		return fmt.Errorf("a second run of the text resolver changes the tree: %s", firstDiff(after, again))
	}
	return nil
}

// ----------------------------------------------------------------------------
// C17

// simplify turns escapes in parsed text into text.
func (n *N) simplify() int {
	c := 0
	for _, k := range n.Kids {
		if n.K == "str" && k.K == "esc" {
			k.K, k.Pos, k.End = "text", -1, -1
			c++
		}
		c += k.simplify()
	}
	if c > 0 {
		// Ends that depend on the last child of a node are not known any more.
		if n.K == "tag" || n.K == "concat" {
			n.End = -1
		}
	}
	return c
}

type simplifyCase struct {
	Printed
	Any  bool
	Root int
	Mode parser.Mode
	Tree *B `json:",omitempty"` // a tree built by hand instead of a source
}

var escapedDump = regexp.MustCompile(`TextEscaped\{ "`)

func checkSimplify(c simplifyCase, o *Obs) error {
	if err := c.selfCheck(); !c.Any && err != nil {
		return err
	}
	if c.Tree != nil {
		return checkSimplifyBuilt(c.Tree, o)
	}
	p := parseAt(string(c.Src), c.Mode, 0)
	if p.err != nil {
		if c.Any {
			o.Label("rejected")
			return nil
		}
		return fmt.Errorf("well-formed source rejected: %w", p.err)
	}
	strs := strNodes(p.file)
	rend := render.NewTextRenderer()
	texts := func() []string {
		var out []string
		for _, s := range strs {
			sb := &strings.Builder{}
			err := rend.Render(sb, s)
			out = append(out, fmt.Sprintf("%q %v", sb, err))
		}
		return out
	}
	textsBefore := texts()
	want := p.tree()
	if !c.Any {
		want = c.Doc.tree(c.Mode&parser.ParseStrings != 0)
	}
	n := want.simplify()
	if n > 0 {
		o.NonTrivial(string(c.Src), fmt.Sprint(c.Root))
		o.LabelIf(n > 3, "more than 3 escapes")
	}
	wantDump := escapedDump.ReplaceAllString(dump(p.file, -1), `Text{ "`)
	apply := func() error {
		roots := rootsOf(p.file, c.Root)
		if c.Root == 4 {
			roots = nil
			for _, s := range strs {
				roots = append(roots, s) // a nested string more than once
			}
		}
		if c.Root == 5 {
			roots = nil
			_ = ast.Walk(p.file, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
				if x, ok := n.(ast.Expr); ok && entering {
					roots = append(roots, x)
					return ast.WalkSkipChildren, nil
				}
				return ast.WalkContinue, nil
			})
		}
		for _, r := range roots {
			if err := bibtex.SimplifyEscapedTextResolver(r); err != nil {
				return err
			}
		}
		return nil
	}
	if err := apply(); err != nil {
		return fmt.Errorf("simplify: %w", err)
	}
	if d := diff(want, p.tree(), true); d != "" {
		return fmt.Errorf("after simplification (root %d): %s", c.Root, d)
	}
	if got := dump(p.file, -1); got != wantDump {
		return fmt.Errorf("after simplification (root %d): %s", c.Root, firstDiff(wantDump, got))
	}
	for i, t := range texts() {
		if t != textsBefore[i] {
			return fmt.Errorf("the plain text of a string changed from %s to %s", textsBefore[i], t)
		}
	}
	after := dump(p.file, p.base)
	if err := apply(); err != nil {
		return fmt.Errorf("simplify again: %w", err)
	}
	if again := dump(p.file, p.base); again != after {
		return fmt.Errorf("simplifying again changes the tree: %s", firstDiff(after, again))
	}
	return nil
}

func checkSimplifyBuilt(b *B, o *Obs) error {
	n := b.build()
	if isNilNode(n) {
		return nil
	}
	o.Label("built tree")
	want := fromAST(n, 0)
	if want.simplify() > 0 {
		o.NonTrivial(want.String())
	}
	for round := 0; round < 2; round++ {
		if err := bibtex.SimplifyEscapedTextResolver(n); err != nil {
			return fmt.Errorf("simplify: %w", err)
		}
		if d := diff(want, fromAST(n, 0), false); d != "" {
			return fmt.Errorf("after simplification: %s", d)
		}
	}
	return nil
}

func genSimplify(g G) simplifyCase {
	c := simplifyCase{Root: g.n(6), Mode: g.modeBits() &^ parser.Trace}
	if g.rare(6) {
		c.Doc, c.Any = &Doc{}, true
		t := g.built(true)
		c.Tree = &t
		return c
	}
	if !g.rare(10) {
		c.Mode |= parser.ParseStrings
	}
	if g.chance(25) {
		c.Any, c.Doc = true, &Doc{}
		switch g.n(3) {
		case 0:
			c.Src = Src(g.anySource())
		default:
			c.Src = Src(g.inField(g.soup(stringFragments, 0, 12)))
		}
		return c
	}
	cfg := strCfg{all: c.Mode&parser.ParseStrings == 0}
	d := g.doc(docCfg{str: cfg, decls: 2})
	d.ops(func(o *Op) {
		if o.K == "str" && g.chance(50) {
			g.addEscapes(o.Pieces, cfg.all)
		}
	})
	c.Printed = g.print(d, layoutCfg{comments: g.chance(20), plain: g.chance(50)})
	return c
}

// addEscapes replaces some commas and non-breaking spaces with escapes.
func (g G) addEscapes(ps []Piece, all bool) {
	for i := range ps {
		switch p := &ps[i]; p.K {
		case "comma", "nbsp":
			if g.chance(70) {
				*p = Piece{K: "esc", S: pick(g, "&", "%", "$", "_", "#", `\`)}
				if !all && g.chance(20) {
					p.S = pick(g, "{", "}")
				}
			}
		case "group":
			g.addEscapes(p.Kids, all)
		}
	}
}

func init() {
	register(Def[textCase]{
		ID:    "C16",
		Rule:  "strings of random bibliographies and of accepted sources of any shape, rendered directly (also with escapes simplified first and with writers that fail after a number of bytes) and through the text resolver at every kind of root; compared with what was written; non-trivial: a string with at least two constructs; distinct by string",
		Quick: 400000, Thorough: 20000000,
		Gen: genTextCase, Check: checkText,
	})
	register(Def[simplifyCase]{
		ID:    "C17",
		Rule:  "random bibliographies with escapes at any depth and accepted sources of any shape, simplified from every kind of root down to single strings; compared with what was written; non-trivial: at least one escape; distinct by source and root",
		Quick: 400000, Thorough: 20000000,
		Gen: genSimplify, Check: checkSimplify,
	})
}

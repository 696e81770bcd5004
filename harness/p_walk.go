package main

// C21 and C22: walking and rendering trees.

import (
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
	"github.com/jschaf/bibtex/render"
)

// treeCase is a tree, built or parsed.
type treeCase struct {
	Tree   B
	Src    Src `json:",omitempty"`
	Parsed bool
	Mode   parser.Mode
	Root   int // of a parsed tree
}

func (g G) treeCase(bad bool) treeCase {
	c := treeCase{}
	if g.chance(70) {
		c.Tree = g.built(bad)
		return c
	}
	c.Tree = B{K: "none"}
	c.Parsed, c.Mode = true, g.modeBits()&^parser.Trace
	if g.chance(75) {
		c.Mode |= parser.ParseStrings
	}
	c.Root = g.n(8)
	if g.chance(50) {
		d := g.doc(docCfg{str: strCfg{all: true, renderable: true}, decls: 2})
		c.Src = Src(g.print(d, layoutCfg{comments: g.chance(30), plain: g.chance(50)}).Src)
	} else {
		c.Src = Src(g.anySource())
	}
	return c
}

func (c *treeCase) node() ast.Node {
	if !c.Parsed {
		return c.Tree.build()
	}
	f := parseAt(string(c.Src), c.Mode, 0).file
	if f == nil {
		return &ast.File{}
	}
	switch c.Root {
	case 1:
		return &ast.Package{Files: map[string]*ast.File{"y": f, "x": f}}
	case 2:
		if n := len(f.Entries); n > 0 {
			return f.Entries[n-1]
		}
	case 3:
		_ = bibtex.NewAuthorResolver("author", "title", "editor", "x").Resolve(f)
	}
	return f
}

// ----------------------------------------------------------------------------
// C21

type decision struct {
	At  int    // number of the call
	Do  string // skip, stop, err
	Err int    `json:",omitempty"`
	// Status that comes with an error.
	Status int `json:",omitempty"`
}

type walkCase struct {
	treeCase
	Script []decision
	// Calls on entering a node that give the node other children.
	Replace []int `json:",omitempty"`
}

func genWalk(g G) walkCase {
	c := walkCase{treeCase: g.treeCase(true)}
	size := c.Tree.size()
	if c.Parsed {
		size = 1 + len(c.Src)/8
	}
	if g.chance(85) {
		c.Script = list(g, 0, 4, func(g G) decision {
			d := decision{At: g.n(2 * size), Do: pick(g, "skip", "skip", "skip", "stop", "err")}
			if d.Do == "err" {
				d.Err, d.Status = g.n(len(resolverErrors)), g.n(3)
			}
			return d
		})
	}
	if g.chance(40) {
		c.Replace = list(g, 1, 4, func(g G) int { return g.n(2 * size) })
	}
	return c
}

// replaceKids gives a node other children.
func replaceKids(n ast.Node, mark string) {
	text := func(s string) *ast.Text { return &ast.Text{Value: mark + s} }
	group := func(vs []ast.Expr) []ast.Expr {
		all := []ast.Expr{text("first"), &ast.ParsedText{Values: []ast.Expr{text("inner")}}}
		for i := 1; i < len(vs); i++ {
			all = append(all, vs[i])
		}
		return all
	}
	tag := func(s string) *ast.TagStmt { return &ast.TagStmt{Name: mark + s, Value: text(s)} }
	switch t := n.(type) {
	case *ast.ParsedText:
		t.Values = group(t.Values)
	case *ast.TextMacro:
		t.Values = group(t.Values)
	case *ast.ConcatExpr:
		t.X, t.Y = t.Y, text("right")
	case *ast.TagStmt:
		t.Value = &ast.ParsedText{Values: group(nil)}
	case *ast.AbbrevDecl:
		t.Tag = tag("abbrev")
	case *ast.PreambleDecl:
		t.Text = text("preamble")
	case *ast.BibDecl:
		t.Tags = append([]*ast.TagStmt{tag("new")}, t.Tags...)
	case *ast.Author:
		t.First, t.Last, t.Prefix = text("given"), t.First, nil
	case *ast.File:
		t.Entries = append([]ast.Decl{&ast.BibDecl{Tags: []*ast.TagStmt{tag("front")}}}, t.Entries...)
	case *ast.Package:
		files := map[string]*ast.File{mark: {Entries: []ast.Decl{&ast.BadDecl{}}}}
		for name, f := range t.Files {
			files[name] = f
		}
		t.Files = files
	}
}

// checkReplace walks a tree with a visitor that changes the children of nodes
// it enters: the children that a node has then are the ones that are visited.
func checkReplace(c walkCase, o *Obs) error {
	at := map[int]bool{}
	for _, i := range c.Replace {
		at[i] = true
	}
	var logs [2][]string
	replaced := false
	for i := range logs {
		n := c.node()
		log := &logs[i]
		visitor := func(n ast.Node, entering bool) (ast.WalkStatus, error) {
			if len(*log) > 1<<20 {
				panic("endless walk")
			}
			if entering && at[len(*log)] {
				replaceKids(n, fmt.Sprintf("r%d ", len(*log)))
				replaced = true
			}
			s := visit{n, entering}.String()
			switch t := n.(type) {
			case *ast.Text:
				s += fmt.Sprintf(" %q", t.Value)
			case *ast.TagStmt:
				s += fmt.Sprintf(" %q", t.Name)
			}
			*log = append(*log, s)
			return ast.WalkContinue, nil
		}
		var err error
		if i == 0 {
			err = refWalkFunc(n, visitor)
		} else {
			err = ast.Walk(n, visitor)
		}
		if err != nil {
			return fmt.Errorf("visitor that replaces children: error %v", err)
		}
	}
	o.LabelIf(replaced, "replaces children")
	want, got := logs[0], logs[1]
	for i := range want {
		if i >= len(got) || got[i] != want[i] {
			g := "the end"
			if i < len(got) {
				g = got[i]
			}
			return fmt.Errorf("visitor that replaces children: visit %d: %s, want %s", i, g, want[i])
		}
	}
	if len(got) > len(want) {
		return fmt.Errorf("visitor that replaces children: visit %d: %s, want no more visits", len(want), got[len(want)])
	}
	return nil
}

// refWalkFunc is the reference for ast.Walk with a visitor that continues.
func refWalkFunc(n ast.Node, v ast.Walker) error {
	if _, err := v(n, true); err != nil {
		return err
	}
	for _, k := range kids(n) {
		if err := refWalkFunc(k, v); err != nil {
			return err
		}
	}
	_, err := v(n, false)
	return err
}

type visit struct {
	n        ast.Node
	entering bool
}

func (v visit) String() string {
	how := "leave"
	if v.entering {
		how = "enter"
	}
	return fmt.Sprintf("%s %T", how, v.n)
}

// visitor follows a script and keeps a log.
type visitor struct {
	script map[int]decision
	log    []visit
}

func (v *visitor) visit(n ast.Node, entering bool) (ast.WalkStatus, error) {
	d, ok := v.script[len(v.log)]
	v.log = append(v.log, visit{n, entering})
	if len(v.log) > 1<<20 {
		panic("endless walk")
	}
	if !ok {
		return ast.WalkContinue, nil
	}
	switch d.Do {
	case "skip":
		return ast.WalkSkipChildren, nil
	case "stop":
		return ast.WalkStop, nil
	}
	return []ast.WalkStatus{ast.WalkStop, ast.WalkContinue, ast.WalkSkipChildren}[d.Status%3], resolverErrors[d.Err%len(resolverErrors)]
}

// refWalk is the reference for ast.Walk; it returns false at the end of the
// walk.
func refWalk(n ast.Node, v *visitor) (bool, error) {
	st, err := v.visit(n, true)
	if err != nil || st == ast.WalkStop {
		return false, err
	}
	if st != ast.WalkSkipChildren {
		for _, k := range kids(n) {
			if more, err := refWalk(k, v); !more {
				return false, err
			}
		}
	}
	st, err = v.visit(n, false)
	return err == nil && st != ast.WalkStop, err
}

func checkWalk(c walkCase, o *Obs) error {
	n := c.node()
	if isNilNode(n) {
		return nil
	}
	script := map[int]decision{}
	for _, d := range c.Script {
		script[d.At] = d
	}
	want, got := &visitor{script: script}, &visitor{script: script}
	_, wantErr := refWalk(n, want)
	if len(want.log) > 2 {
		o.NonTrivial(dump(c, 0))
	}
	o.Label(fmt.Sprintf("root %T", n))
	o.LabelIf(len(want.log) > 40, "more than 40 visits")
	for _, d := range c.Script {
		if d.At < len(want.log) {
			o.Label("decides " + d.Do)
		}
	}
	before := dump(n, 0)
	askPositions(n)
	err := ast.Walk(n, got.visit)
	for i := range want.log {
		if i >= len(got.log) {
			return fmt.Errorf("the walk ends after %d visits, want %s next", i, want.log[i])
		}
		if g, w := got.log[i], want.log[i]; g.entering != w.entering || !sameNode(g.n, w.n) {
			return fmt.Errorf("visit %d: %s, want %s", i, g, w)
		}
	}
	if len(got.log) > len(want.log) {
		return fmt.Errorf("visit %d: %s, want no more visits", len(want.log), got.log[len(want.log)])
	}
	if err != wantErr {
		return fmt.Errorf("error %v, want %v", err, wantErr)
	}
	if after := dump(n, 0); after != before {
		return fmt.Errorf("walking changed the tree: %s", firstDiff(before, after))
	}
	if len(c.Replace) > 0 {
		return checkReplace(c, o)
	}
	return nil
}

// ----------------------------------------------------------------------------
// C22

type override struct {
	Kind  ast.NodeKind
	Nil   bool   `json:",omitempty"`
	Enter string // continue, skip, stop, err
	Leave string
	From  int `json:",omitempty"` // calls before behave like continue
}

type renderCase struct {
	treeCase
	Overrides []override
	Limit     int  // bytes the writer accepts; -1 for any number
	Once      bool `json:",omitempty"` // it fails only once
	Bound     bool
}

func genRender(g G) renderCase {
	c := renderCase{treeCase: g.treeCase(true), Limit: -1}
	if g.chance(35) {
		c.Limit = g.small(20, 300)
		c.Once = g.chance(40)
	}
	if g.chance(70) {
		c.Overrides = list(g, 0, 5, func(g G) override {
			v := override{Kind: ast.NodeKind(g.n(int(ast.KindPackage) + 1)), Enter: "continue", Leave: "continue"}
			if g.chance(60) {
				v.Kind = pick(g, ast.KindText, ast.KindParsedText, ast.KindFile, ast.KindBibDecl, ast.KindTagStmt, ast.KindTextSpace, ast.KindTextMacro, ast.KindConcatExpr, ast.KindAuthors, ast.KindAuthor)
			}
			switch g.n(10) {
			case 0, 1, 2:
			case 3, 4:
				v.Enter = "skip"
			case 5:
				v.Leave = "skip"
			case 6:
				v.Enter = "stop"
			case 7:
				v.Leave = "stop"
			case 8:
				if g.chance(50) {
					v.Enter = "err"
				} else {
					v.Leave = "err"
				}
			case 9:
				v.Nil = true
			}
			if g.chance(40) {
				v.From = g.n(6)
			}
			return v
		})
	}
	return c
}

var errRender = errors.New("render error for a test")

// custom is a renderer that writes a mark and follows an override.
type custom struct {
	override
	id    int
	calls int
}

func (u *custom) render(w io.Writer, n ast.Node, entering bool) (ast.WalkStatus, error) {
	if _, err := fmt.Fprintf(w, "<%d %v>", u.id, entering); err != nil {
		return ast.WalkStop, err
	}
	u.calls++
	do := u.Leave
	if entering {
		do = u.Enter
	}
	if u.calls <= u.From {
		do = "continue"
	}
	switch do {
	case "skip":
		return ast.WalkSkipChildren, nil
	case "stop":
		return ast.WalkStop, nil
	case "err":
		return ast.WalkStop, errRender
	}
	return ast.WalkContinue, nil
}

var errAny = errors.New("some error")

// refRenderer is the reference for Biber.Render.
type refRenderer struct {
	w       *limitWriter
	customs map[ast.NodeKind]*custom
	kinds   map[string]bool
	wrong   error // a node that isn't of the kind of its type
}

// kindOf returns the kind of a node by its type.
func kindOf(n ast.Node) (ast.NodeKind, bool) {
	switch n.(type) {
	case *ast.TexComment:
		return ast.KindTexComment, true
	case *ast.TexCommentGroup:
		return ast.KindTexCommentGroup, true
	case *ast.BadExpr:
		return ast.KindBadExpr, true
	case *ast.Ident:
		return ast.KindIdent, true
	case *ast.Number:
		return ast.KindNumber, true
	case ast.Authors:
		return ast.KindAuthors, true
	case *ast.Author:
		return ast.KindAuthor, true
	case *ast.UnparsedText:
		return ast.KindUnparsedText, true
	case *ast.ParsedText:
		return ast.KindParsedText, true
	case *ast.Text, *ast.TextAccent:
		return ast.KindText, true
	case *ast.TextComma:
		return ast.KindTextComma, true
	case *ast.TextEscaped:
		return ast.KindTextEscaped, true
	case *ast.TextHyphen:
		return ast.KindTextHyphen, true
	case *ast.TextMath:
		return ast.KindTextMath, true
	case *ast.TextNBSP:
		return ast.KindTextNBSP, true
	case *ast.TextSpace:
		return ast.KindTextSpace, true
	case *ast.TextMacro:
		return ast.KindTextMacro, true
	case *ast.ConcatExpr:
		return ast.KindConcatExpr, true
	case *ast.BadStmt:
		return ast.KindBadStmt, true
	case *ast.TagStmt:
		return ast.KindTagStmt, true
	case *ast.BadDecl:
		return ast.KindBadDecl, true
	case *ast.AbbrevDecl:
		return ast.KindAbbrevDecl, true
	case *ast.BibDecl:
		return ast.KindBibDecl, true
	case *ast.PreambleDecl:
		return ast.KindPreambleDecl, true
	case *ast.File:
		return ast.KindFile, true
	case *ast.Package:
		return ast.KindPackage, true
	}
	return 0, false
}

// typeName returns the name of a node's type; accents count as text.
func typeName(n ast.Node) string {
	if _, ok := n.(*ast.TextAccent); ok {
		return "Text"
	}
	s := fmt.Sprintf("%T", n)
	return s[strings.LastIndexByte(s, '.')+1:]
}

func (r *refRenderer) visit(n ast.Node, entering bool) (ast.WalkStatus, error) {
	kind, ok := kindOf(n)
	if !ok || n.Kind() != kind {
		r.wrong = fmt.Errorf("a %T is of kind %d, want %d", n, n.Kind(), kind)
	} else if name := kind.String(); name != typeName(n) {
		r.wrong = fmt.Errorf("the kind of a %T is called %q", n, name)
	}
	if u, ok := r.customs[kind]; ok {
		if u.Nil {
			return ast.WalkStop, errAny
		}
		return u.render(r.w, n, entering)
	}
	s := ""
	switch t := n.(type) {
	case *ast.ParsedText:
		switch {
		case t.Delim == ast.QuoteDelimiter:
			s = `"`
		case entering:
			s = "{"
		default:
			s = "}"
		}
	case *ast.TextMath:
		s = "$"
		if entering {
			s += t.Value
		}
	case *ast.BadExpr, *ast.BadStmt:
		return ast.WalkStop, errAny
	}
	if entering {
		switch t := n.(type) {
		case *ast.Ident:
			s = t.Name
		case *ast.Text:
			s = t.Value
		case *ast.TextAccent:
			l, ok := composedAccent(string(rune(t.Accent)) + t.Text.Value)
			if !ok {
				return ast.WalkStop, errAny
			}
			s = l
		case *ast.TextComma:
			s = ","
		case *ast.TextEscaped:
			s = `\` + t.Value
		case *ast.TextHyphen:
			s = "-"
		case *ast.TextNBSP:
			s = " "
		case *ast.TextSpace:
			if s = t.Value; s == "" {
				s = " "
			}
		}
	}
	_, err := r.w.Write([]byte(s))
	return ast.WalkContinue, err
}

func (r *refRenderer) walk(n ast.Node) (bool, error) {
	st, err := r.visit(n, true)
	if err != nil || st == ast.WalkStop {
		return false, err
	}
	if st != ast.WalkSkipChildren {
		for _, k := range kids(n) {
			if more, err := r.walk(k); !more {
				return false, err
			}
		}
	}
	st, err = r.visit(n, false)
	return err == nil && st != ast.WalkStop, err
}

func (c *renderCase) options() ([]bibtex.Option, map[ast.NodeKind]*custom) {
	var opts []bibtex.Option
	ref := map[ast.NodeKind]*custom{}
	for i, v := range c.Overrides {
		if v.Kind < 0 || v.Kind > ast.KindPackage {
			continue
		}
		u := &custom{override: v, id: i}
		f := render.NodeRendererFunc(u.render)
		if v.Nil {
			f = nil
		}
		opts = append(opts, bibtex.WithRenderer(v.Kind, f))
		ref[v.Kind] = &custom{override: v, id: i}
	}
	return opts, ref
}

func compareRender(what string, got, want string, err, wantErr error) error {
	switch {
	case wantErr == nil && err != nil:
		return fmt.Errorf("%s: error %w after %q", what, err, got)
	case wantErr != nil && err == nil:
		return fmt.Errorf("%s: no error, want %q after %q", what, wantErr, want)
	case wantErr == errAny && (errors.Is(err, errWrite) || errors.Is(err, errRender)):
		return fmt.Errorf("%s: error %w, want another", what, err)
	case wantErr != nil && wantErr != errAny && !errors.Is(err, wantErr):
		return fmt.Errorf("%s: error %w doesn't wrap %q", what, err, wantErr)
	case got != want:
		return fmt.Errorf("%s: output %q, want %q (error %v)", what, got, want, err)
	}
	return nil
}

func checkRender(c renderCase, o *Obs) error {
	n := c.node()
	if isNilNode(n) {
		return nil
	}
	limit := c.Limit
	if limit < 0 {
		limit = 1 << 30
	}
	earlier := bibtex.New()
	opts, customs := c.options()
	b := bibtex.New(opts...)
	later := bibtex.New()

	ref := &refRenderer{w: &limitWriter{n: limit, err: errWrite, once: c.Once}, customs: customs}
	_, wantErr := ref.walk(n)
	if ref.wrong != nil {
		return ref.wrong
	}
	if ref.w.sb.Len() > 0 || len(c.Overrides) > 0 {
		o.NonTrivial(dump(c, 0))
	}
	o.LabelIf(errors.Is(wantErr, errWrite), "the writer fails")
	o.LabelIf(errors.Is(wantErr, errRender), "a renderer fails")
	o.LabelIf(errors.Is(wantErr, errAny), "no renderer or bad tree")
	o.LabelIf(wantErr == nil, "no error")
	o.LabelIf(ref.w.sb.Len() > 30, "more than 30 bytes")
	for _, u := range customs {
		o.LabelIf(u.calls > 0, "custom renderer called")
	}
	before := dump(n, 0)
	w := &limitWriter{n: limit, err: errWrite, once: c.Once}
	err := b.Render(w, n)
	if err := compareRender("render", w.sb.String(), ref.w.sb.String(), err, wantErr); err != nil {
		return err
	}
	if after := dump(n, 0); after != before {
		return fmt.Errorf("rendering changed the tree: %s", firstDiff(before, after))
	}
	// Objects without the options.
	ref = &refRenderer{w: &limitWriter{n: limit, err: errWrite, once: c.Once}}
	_, wantErr = ref.walk(n)
	for _, p := range []struct {
		what string
		b    *bibtex.Biber
	}{{"object made before", earlier}, {"object made after", later}} {
		w := &limitWriter{n: limit, err: errWrite, once: c.Once}
		err := p.b.Render(w, n)
		if err := compareRender(p.what, w.sb.String(), ref.w.sb.String(), err, wantErr); err != nil {
			return err
		}
	}
	// Again, with the counters of the custom renderers reset.
	if len(c.Overrides) > 0 {
		opts, _ := c.options()
		again := &limitWriter{n: limit, err: errWrite, once: c.Once}
		err1 := bibtex.New(opts...).Render(again, n)
		if (err == nil) != (err1 == nil) {
			return fmt.Errorf("render again: error %v, before %v", err1, err)
		}
		if a, b := again.sb.String(), w.sb.String(); a != b {
			return fmt.Errorf("render again: %s", firstDiff(b, a))
		}
	}
	return nil
}

func init() {
	register(Def[walkCase]{
		ID:    "C21",
		Rule:  "random trees with every kind of root, built by hand or parsed (also after author extraction), walked by visitors that skip, stop or fail at random calls; the log of calls is compared with a reference; non-trivial: more than two calls; distinct by tree and visitor",
		Quick: 2000000, Thorough: 30000000,
		Gen: genWalk, Check: checkWalk,
	})
	register(Def[renderCase]{
		ID:    "C22",
		Rule:  "random trees with every kind of root, built by hand or parsed, rendered with random overrides that skip, stop or fail, and writers that fail after a number of bytes; output and error are compared with a reference, also for objects without the overrides; non-trivial: some output or override; distinct by tree, overrides and writer",
		Quick: 1500000, Thorough: 30000000,
		Gen: genRender, Check: checkRender,
	})
}

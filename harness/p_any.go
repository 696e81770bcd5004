package main

// C01, C02, C09: sources of any shape.

import (
	"fmt"
	gotok "go/token"
	"io"
	"runtime"
	"sort"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

type srcCase struct {
	Src  Src
	Mode parser.Mode
	Pad  int `json:",omitempty"`
}

func genSrcCase(g G) srcCase {
	c := srcCase{Mode: g.modeBits()}
	if g.chance(70) {
		c.Mode |= parser.ParseStrings
	}
	if g.chance(20) {
		c.Pad = 1 + g.n(100)
	}
	c.Src = Src(g.anySource())
	return c
}

// srcMode returns a parser mode for a byte of a fuzzer.
func srcMode(b byte) parser.Mode {
	return parser.Mode(b) & (parser.ParseComments | parser.ParseStrings | parser.DeclarationErrors | parser.AllErrors)
}

func fromSrc(mode byte, src string) srcCase { return srcCase{Src: Src(src), Mode: srcMode(mode)} }

func shrinkSrc(c srcCase, fails func(srcCase) bool, more func() bool) srcCase {
	c.Src = Src(shrinkText(string(c.Src), func(s string) bool {
		d := c
		d.Src = Src(s)
		return fails(d)
	}, more))
	return c
}

// refPositions computes lines and columns of offsets.
type refPositions struct {
	name  string
	lines []int // where lines start
}

func newRefPositions(name, src string) *refPositions {
	r := &refPositions{name: name, lines: []int{0}}
	for i := 0; i < len(src); i++ {
		if src[i] == '\n' {
			r.lines = append(r.lines, i+1)
		}
	}
	return r
}

func (r *refPositions) at(off int) gotok.Position {
	line := sort.SearchInts(r.lines, off+1)
	return gotok.Position{Filename: r.name, Offset: off, Line: line, Column: 1 + off - r.lines[line-1]}
}

// checkErrors checks that err is an accurate list of errors of a source.
func checkErrors(err error, name, src string) error {
	l, ok := errList(err)
	if !ok {
		return fmt.Errorf("the error is a %T, not a list of errors: %w", err, err)
	}
	if len(l) == 0 {
		return fmt.Errorf("empty list of errors")
	}
	ref := newRefPositions(name, src)
	for i, e := range l {
		if e == nil {
			return fmt.Errorf("error %d is nil", i)
		}
		if e.Msg == "" {
			return fmt.Errorf("error %d has no message", i)
		}
		if e.Pos.Offset < 0 || e.Pos.Offset > len(src) {
			return fmt.Errorf("error %v: offset %d is outside of the source (%d bytes)", e, e.Pos.Offset, len(src))
		}
		want := ref.at(e.Pos.Offset)
		if e.Pos != want && e.Pos.Offset == len(src) && strings.HasSuffix(src, "\n") {
			// go/token doesn't count an empty last line. The end of the source
			// is then the place behind the last newline on its line.
			want = ref.at(len(src) - 1)
			want.Offset++
			want.Column++
		}
		if e.Pos != want {
			return fmt.Errorf("error %q: position %#v, but offset %d is at %v", e.Msg, e.Pos, e.Pos.Offset, want)
		}
		if i > 0 && l[i-1].Pos.Offset > e.Pos.Offset {
			return fmt.Errorf("errors aren't sorted: %v before %v", l[i-1], e)
		}
	}
	return nil
}

// walkAll walks a tree and reports missing nodes.
func walkAll(n ast.Node) (nodes int, err error) {
	err = ast.Walk(n, func(n ast.Node, entering bool) (ast.WalkStatus, error) {
		if isNilNode(n) {
			return ast.WalkStop, fmt.Errorf("the walk meets a missing node (%T)", n)
		}
		if entering {
			nodes++
			_, _, _ = n.Pos(), n.End(), n.Kind() // must not panic
		}
		return ast.WalkContinue, nil
	})
	return nodes, err
}

// askPositions asks all nodes for their positions and kinds, which must not
// panic.
func askPositions(n ast.Node) {
	_, _, _ = n.Pos(), n.End(), n.Kind()
	for _, k := range kids(n) {
		askPositions(k)
	}
}

// errsText is the text of an error, with the offsets.
func errsText(err error) string {
	l, ok := errList(err)
	if !ok {
		return fmt.Sprint(err)
	}
	sb := &strings.Builder{}
	for _, e := range l {
		fmt.Fprintf(sb, "%q offset %d line %d column %d: %s\n", e.Pos.Filename, e.Pos.Offset, e.Pos.Line, e.Pos.Column, e.Msg)
	}
	return sb.String()
}

func checkOutcome(c srcCase, o *Obs) error {
	src := string(c.Src)
	if len(src) > 0 {
		o.NonTrivial(src, fmt.Sprint(c.Mode&parser.ParseStrings))
	}
	for _, name := range []string{"some.bib", "dir/o ther:1.bib"} {
		fset := gotok.NewFileSet()
		if c.Pad > 0 {
			fset.AddFile("other.bib", -1, c.Pad-1)
		}
		base := fset.Base()
		f, err := parser.ParseFile(fset, name, src, c.Mode)
		if f == nil {
			return fmt.Errorf("no tree (error %v)", err)
		}
		if f.Name != name {
			return fmt.Errorf("the tree's file name is %q, not %q", f.Name, name)
		}
		tree := fromAST(f, base)
		if b := tree.find("nil"); b != nil {
			return fmt.Errorf("missing node %s in the tree (error %v): %v", b.S, err, tree)
		}
		n, werr := walkAll(f)
		if werr != nil {
			return fmt.Errorf("%w (parse error %v)", werr, err)
		}
		if err == nil {
			o.Label("accepted")
			if b := tree.find("bad"); b != nil {
				return fmt.Errorf("no error, but the tree holds a %s: %v", b.S, tree)
			}
		} else {
			o.Label("rejected")
			o.LabelIf(n > 4, "rejected with a tree of several nodes")
			if l, ok := errList(err); ok && len(l) > 1 {
				o.Label("several errors")
			}
			if e := checkErrors(err, name, src); e != nil {
				return e
			}
			if c.Pad > 0 {
				// The same errors as in a file set of its own.
				_, ferr := parser.ParseFile(gotok.NewFileSet(), name, src, c.Mode)
				x, y := errsText(err), errsText(ferr)
				if x != y {
					return fmt.Errorf("the errors depend on the other files of the set: %s", firstDiff(x, y))
				}
				o.Label("compared with a file set of its own")
			}
		}
	}
	f, err := bibtex.New(bibtex.WithParserMode(c.Mode)).Parse(strings.NewReader(src))
	if (f == nil) == (err == nil) {
		return fmt.Errorf("Biber.Parse returns tree %v and error %v", f != nil, err)
	}
	if err != nil {
		if e := checkErrors(err, "", src); e != nil {
			return fmt.Errorf("Biber.Parse: %w", e)
		}
	} else if b := fromAST(f, 1).find("nil", "bad"); b != nil {
		return fmt.Errorf("Biber.Parse: no error, but the tree holds a %s", b.S)
	}
	return nil
}

// checkExprOutcome checks ParseExpr on any text.
func checkExprOutcome(src string) error {
	x, err := parser.ParseExpr(src)
	if err != nil {
		if l, ok := errList(err); !ok || len(l) == 0 {
			return fmt.Errorf("ParseExpr: the error is a %T", err)
		}
		return nil
	}
	if isNilNode(x) {
		return fmt.Errorf("ParseExpr returns neither an expression nor an error")
	}
	if b := fromAST(x, 1).find("nil", "bad"); b != nil {
		return fmt.Errorf("ParseExpr: no error, but the tree holds a %s", b.S)
	}
	_, err = walkAll(x)
	return err
}

// ----------------------------------------------------------------------------
// C01

type workCase struct {
	Src  Src         `json:",omitempty"`
	Mode parser.Mode `json:",omitempty"`
	// A large source: Pre, Mid repeated up to N bytes, Post.
	Pre, Mid, Post Src `json:",omitempty"`
	N              int `json:",omitempty"`
}

func (c *workCase) source() string {
	if c.N == 0 {
		return string(c.Src)
	}
	return string(c.Pre) + strings.Repeat(string(c.Mid), 1+c.N/max(1, len(c.Mid))) + string(c.Post)
}

// nullWriter counts what is written.
type nullWriter struct{ n int }

func (w *nullWriter) Write(b []byte) (int, error) { w.n += len(b); return len(b), nil }

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

// pipelines are what a parsed tree is handed to. They stop at the first error.
var pipelines = []struct {
	name string
	run  func(f *ast.File, n ast.Node) error
}{
	{"simplify", func(_ *ast.File, n ast.Node) error {
		_, err := bibtex.New(bibtex.WithResolvers(bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver))).Resolve(n)
		return err
	}},
	{"render resolver", func(_ *ast.File, n ast.Node) error {
		_, err := bibtex.New(bibtex.WithResolvers(bibtex.NewRenderParsedTextResolver())).Resolve(n)
		return err
	}},
	{"authors, simplify, render resolvers", func(_ *ast.File, n ast.Node) error {
		_, err := bibtex.New(bibtex.WithResolvers(
			bibtex.NewAuthorResolver("author", "editor"),
			bibtex.ResolverFunc(bibtex.SimplifyEscapedTextResolver), bibtex.NewRenderParsedTextResolver())).Resolve(n)
		return err
	}},
	{"authors of every field", func(f *ast.File, n ast.Node) error {
		var first error
		_ = ast.Walk(n, func(x ast.Node, entering bool) (ast.WalkStatus, error) {
			if t, ok := x.(*ast.TagStmt); ok && entering {
				if txt, ok := t.Value.(*ast.ParsedText); ok {
					as, err := bibtex.ExtractAuthors(txt)
					if err == nil {
						err = bibtex.New().Render(&nullWriter{}, as)
					}
					if first == nil {
						first = err
					}
				}
			}
			return ast.WalkContinue, nil
		})
		return first
	}},
	{"render", func(_ *ast.File, n ast.Node) error { return bibtex.New().Render(&nullWriter{}, n) }},
	{"render after author resolver", func(_ *ast.File, n ast.Node) error {
		b := bibtex.New(bibtex.WithResolvers(bibtex.NewAuthorResolver("author", "title", "editor")))
		_, err := b.Resolve(n)
		if rerr := b.Render(&nullWriter{}, n); err == nil {
			err = rerr
		}
		return err
	}},
}

// allocPerByte bounds the memory allocated for one byte of input by each step,
// and allocBase what is allocated for any input.
const (
	allocPerByte = 4 << 10
	allocBase    = 4 << 20
)

func checkWork(c workCase, o *Obs) error {
	src := c.source()
	if c.N > 0 {
		o.NonTrivial("pumped", string(c.Pre), string(c.Mid), string(c.Post))
		o.Label("pumped")
	} else if len(src) > 0 {
		o.NonTrivial(src)
	}
	measure := c.N > 0
	limit := uint64(allocBase + allocPerByte*len(src))
	// Bad trees go on to the later steps, too.
	step := func(what string, f func()) error {
		if !measure {
			f()
			return nil
		}
		before := allocated()
		f()
		if got := allocated() - before; got > limit {
			return fmt.Errorf("%s of %d bytes (%d MB allocated) needs more than %d MB", what, len(src), got>>20, limit>>20)
		}
		return nil
	}
	modes := []parser.Mode{c.Mode, c.Mode ^ parser.ParseStrings}
	for _, m := range modes {
		var f *ast.File
		var perr error
		parse := func() { f, perr = parser.ParseFile(gotok.NewFileSet(), "some.bib", src, m) }
		for i, p := range pipelines {
			// Resolvers change the tree, so each gets its own.
			if i == 0 || i < 3 || i == len(pipelines)-1 {
				if err := step("parse", parse); err != nil {
					return err
				}
			}
			o.LabelIf(i == 0 && perr == nil, "accepted")
			o.LabelIf(i == 0 && perr != nil, "rejected")
			if f == nil {
				return fmt.Errorf("no tree")
			}
			// Declaration by declaration, so that one error doesn't hide others.
			roots := []ast.Node{f}
			if c.N == 0 && i%2 == 1 {
				roots = nil
				for _, d := range f.Entries {
					roots = append(roots, d)
				}
			}
			for _, r := range roots {
				if err := step(p.name, func() {
					err := p.run(f, r)
					o.LabelIf(err == nil, p.name+": no error")
				}); err != nil {
					return err
				}
			}
			if len(src) < 20000 {
				askPositions(f)
			}
		}
	}
	if err := step("ParseExpr", func() {
		x, err := parser.ParseExpr(src)
		if err == nil && x != nil {
			o.Label("expression")
			_ = bibtex.New().Render(io.Discard, x)
			if txt, ok := x.(*ast.ParsedText); ok {
				_, _ = bibtex.ExtractAuthors(txt)
			}
		}
	}); err != nil {
		return err
	}
	return nil
}

// pumped lists large sources that repeat one construct.
func pumped(n int) []workCase {
	var out []workCase
	add := func(pre, mid, post string) {
		out = append(out, workCase{Pre: Src(pre), Mid: Src(mid), Post: Src(post), N: n, Mode: parser.ParseStrings})
	}
	for _, s := range []string{"@", "@a", "@a{", "@a{k}", "@a(k)\n", "@a{k,x=1}", "@string{x={y}}", "@preamble{{x}}", "@comment{x}", "{", "}", "(", ")", `"`, ",", "=", "#", "\n", "\r", " ", "%", "%\n", "x", "1", "x ", "é", "\x00", "\xff", "\\", "$", "@a{k,x={", "@string{x=", "@preamble{"} {
		add("", s, "")
	}
	for _, s := range []string{"a,", "a ", "a", "1,", "a=", "x=1,", "x={y},", "x={", `x="`, `x="y",`, "x=y#", "%\n", "\n", ","} {
		add("@a{", s, "")
		add("@a{k,", s, "}")
	}
	for _, s := range []string{"1#", "a # ", "{x}#", `"x"#`, "{", "{}", "#", `"{"`} {
		add("@a{k,x=", s, "1}")
		add("@preamble{", s, "{x}}")
	}
	for _, field := range []string{"title", "author", "url"} {
		for _, s := range []string{
			"a", "a ", "a,", ",", "~", "a~", "$x$", "$", "{", "{}", "{a}", "{a", "\\&", "\\", "\\\\", "\\'o", "\\'{o}", "\\' ", "\\c{c}", "\\emph", "\\emph{", "\\emph{x}", "\\url{a}", "\\url{", "\\url{a ",
			"a and ", "and ", " and ", "von ", "A ", "{A} ", "A, ", "--", "\n", "é", "%", "\\,", "{\\'\\i}", "\\'\\i", "}", "}{", "\x00", "a$b", "{{a}b}",
		} {
			add("@a{k,"+field+"={A ", s, "}}")
			add("@a{k,"+field+`="A `, s, `"}`)
		}
	}
	for _, s := range []string{"{", "a", "~", "$", "$x$", "{}", "\\%", "\\x/", "}"} {
		add(`@a{k,url="\url{`, s, `}"}`)
	}
	add("@a{k,x={", "{", strings.Repeat("}", n+2)+"}}")
	add(`@a{k,x="`, "{", strings.Repeat("}", n+1)+`"}`)
	add(`@a{k,x="\url{`, "{", strings.Repeat("}", n+2)+`"}`)
	add("@a{k,author={", "{", strings.Repeat("}", 90000)+"}}")
	for _, d := range []int{1000, 50000, 99000, 99998, 99999, 100000, 100001} {
		for _, f := range []string{"author", "url", "x"} {
			deep := strings.Repeat("{", d) + "a" + strings.Repeat("}", d)
			out = append(out, workCase{Src: Src("@a{k," + f + "=" + deep + "}"), Mode: parser.ParseStrings})
		}
		out = append(out, workCase{Src: Src("@a{k,x=" + strings.Repeat("1#", d) + "1}"), Mode: parser.ParseStrings})
	}
	return out
}

func genWork(g G) workCase {
	m := g.modeBits() &^ parser.Trace
	if g.chance(50) {
		m |= parser.ParseStrings
	}
	if g.rare(400) {
		c := workCase{Mode: m, N: 200 << 10}
		pool := fragments
		if g.chance(60) {
			pool = stringFragments
			c.Pre = Src("@a{k," + pick(g, "author", "url", "x") + "=" + pick(g, "{", `"`))
		}
		c.Pre += Src(g.soup(pool, 0, 3))
		c.Mid = Src(g.soup(pool, 1, 4))
		c.Post = Src(g.soup(pool, 0, 3))
		return c
	}
	c := workCase{Mode: m, Src: Src(g.anySource())}
	if g.rare(100) {
		c.Mode |= parser.Trace
	}
	return c
}

// ----------------------------------------------------------------------------
// C09

func checkAccounted(c srcCase, o *Obs) error {
	src := string(c.Src)
	p := parseAt(src, c.Mode, c.Pad)
	if p.err != nil || p.file == nil {
		o.Label("rejected")
		return nil
	}
	o.Label("accepted")
	r, err := recognize(src, p.file, p.base, false)
	if r.elems > 0 {
		o.NonTrivial(src, fmt.Sprint(c.Mode&parser.ParseStrings))
		o.LabelIf(r.elems > 10, "accepted, more than 10 elements")
	}
	if err != nil {
		return fmt.Errorf("mode %s: accepted, but %w\ntree: %s", modeName(c.Mode), err, head(p.tree().String(), 1000))
	}
	return nil
}

func init() {
	register(Def[workCase]{
		ID:    "C01",
		Rule:  "large sources (0.5 MB) that repeat one construct, with limits on CPU time and on bytes allocated per byte of input; then sources of any shape (printed, mutated, made of fragments, arbitrary bytes, repeated fragments) that are parsed in both string modes and as an expression, resolved by every resolver and rendered; non-trivial: not empty; distinct by source",
		Quick: 160000, Thorough: 8000000,
		Enum: func() []workCase { return pumped(512 << 10) },
		Gen:  genWork,
		FromSrc: func(mode byte, src string) workCase {
			return workCase{Src: Src(src), Mode: srcMode(mode) &^ parser.Trace}
		},
		Check: checkWork,
		Shrink: func(c workCase, fails func(workCase) bool, more func() bool) workCase {
			if c.N > 0 {
				return c
			}
			c.Src = Src(shrinkText(string(c.Src), func(s string) bool {
				d := c
				d.Src = Src(s)
				return fails(d)
			}, more))
			return c
		},
		Assumptions: []string{"work in proportion means: at most 25 s of CPU time for any source of up to 0.6 MB, at most 4 KB allocated per byte of input, and at most 4 GB of memory held"},
	})
	register(Def[srcCase]{
		ID:    "C02",
		Rule:  "sources of any shape in random modes; the outcome of ParseFile, Biber.Parse and ParseExpr is checked for completeness, and all nodes are asked for their position, end and kind; non-trivial: not empty; distinct by source and string mode",
		Quick: 1500000, Thorough: 30000000,
		Gen: genSrcCase,
		Check: func(c srcCase, o *Obs) error {
			if err := checkOutcome(c, o); err != nil {
				return err
			}
			return checkExprOutcome(string(c.Src))
		},
		Shrink:  shrinkSrc,
		FromSrc: fromSrc,
	})
	register(Def[srcCase]{
		ID:    "C09",
		Rule:  "sources of any shape in random modes; an accepted one is read again along its tree; non-trivial: accepted with at least one element; distinct by source and string mode",
		Quick: 2500000, Thorough: 30000000,
		Gen:     genSrcCase,
		Check:   checkAccounted,
		Shrink:  shrinkSrc,
		FromSrc: fromSrc,
	})
}

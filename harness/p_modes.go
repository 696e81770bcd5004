package main

// C26 and C30: parser modes, and the extents of nodes.

import (
	"fmt"
	goscan "go/scanner"
	"sort"
	"strings"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// ----------------------------------------------------------------------------
// C26

type modeCase struct {
	Src     Src
	Strings bool
	Trace   bool
}

func genModeCase(g G) modeCase {
	c := modeCase{Strings: g.chance(60), Trace: g.rare(25)}
	switch k := g.n(10); {
	case k <= 3:
		c.Src = Src(g.anySource())
	case k <= 5: // many errors
		c.Src = Src(g.soup(fragments, 10, 60))
	case k <= 7: // many errors on a few lines
		s := ""
		for i := g.n(20); i >= 0; i-- {
			s += pick(g, "@misc{k, = }", "@misc{k, a b}", "@misc{k, x = }", "@misc{1, 2 = {}}", "@string{x}", "@misc k}", "@book{,}", "@misc{k, a = {x}}", "x", "@misc{k a = 1}", `@misc{k, t = "\'1"}`, "%c", "@article{k, a = {x}, b = \"y\" # z}")
			if g.chance(70) {
				s += "\n"
			}
		}
		c.Src = Src(s)
	default:
		pr := g.print(g.doc(docCfg{decls: 3}), layoutCfg{comments: true})
		c.Src = pr.Src
		if g.chance(50) {
			c.Src = Src(g.mutate(string(pr.Src), 1+g.n(12)))
		}
	}
	return c
}

// withoutComments removes comments and documentation from a file.
func withoutComments(f *ast.File) {
	if f == nil {
		return
	}
	f.Doc, f.Comments = nil, nil
	for _, d := range f.Entries {
		switch t := d.(type) {
		case *ast.BibDecl:
			t.Doc = nil
			for _, tag := range t.Tags {
				tag.Doc = nil
			}
		case *ast.AbbrevDecl:
			t.Doc = nil
			if t.Tag != nil {
				t.Tag.Doc = nil
			}
		case *ast.PreambleDecl:
			t.Doc = nil
		}
	}
}

type modeOutcome struct {
	file *ast.File
	tree string
	errs goscan.ErrorList
	err  error
}

func parseMode(src string, m parser.Mode) modeOutcome {
	p := parseAt(src, m, 0)
	out := modeOutcome{file: p.file, err: p.err}
	out.errs, _ = errList(p.err)
	withoutComments(p.file)
	out.tree = dump(p.file, p.base)
	return out
}

func errText(err error) string {
	if l, ok := errList(err); ok {
		sb := strings.Builder{}
		for _, e := range l {
			sb.WriteString(e.Error() + "\n")
		}
		return sb.String()
	}
	return fmt.Sprint(err)
}

func checkModes(c modeCase, o *Obs) error {
	var s parser.Mode
	if c.Strings {
		s = parser.ParseStrings
	}
	src := string(c.Src)
	for _, all := range []parser.Mode{0, parser.AllErrors} {
		base := parseMode(src, s|all)
		mods := []parser.Mode{parser.ParseComments, parser.DeclarationErrors}
		if c.Trace && len(src) < 400 {
			mods = append(mods, parser.Trace, parser.Trace|parser.ParseComments)
		}
		for _, m := range mods {
			got := parseMode(src, s|all|m)
			if m != parser.DeclarationErrors && errText(got.err) != errText(base.err) {
				return fmt.Errorf("mode %s gives the errors %s, without it %s", modeName(s|all|m), errText(got.err), errText(base.err))
			}
			if m == parser.DeclarationErrors && len(got.errs) < len(base.errs) {
				return fmt.Errorf("mode %s gives the errors %s, without it %s", modeName(s|all|m), errText(got.err), errText(base.err))
			}
			if got.tree != base.tree {
				return fmt.Errorf("mode %s changes the tree: %s", modeName(s|all|m), firstDiff(got.tree, base.tree))
			}
		}
	}
	few, all := parseMode(src, s), parseMode(src, s|parser.AllErrors)
	o.LabelIf(few.err == nil, "accepted")
	if few.err != nil {
		o.NonTrivial(src, modeName(s))
	}
	if (few.err == nil) != (all.err == nil) {
		return fmt.Errorf("errors without AllErrors: %s, with it: %s", errText(few.err), errText(all.err))
	}
	left := map[string]int{}
	lines := map[int]bool{}
	for _, e := range all.errs {
		left[e.Error()]++
		lines[e.Pos.Line] = true
	}
	o.LabelIf(len(all.errs) > 1, "several errors")
	o.LabelIf(len(lines) > 11, "errors on more than 11 lines")
	o.LabelIf(len(all.errs) > len(few.errs), "errors left out")
	for _, e := range few.errs {
		left[e.Error()]--
		if left[e.Error()] < 0 {
			return fmt.Errorf("error %v is reported without AllErrors, but not with it: %s", e, errText(all.err))
		}
		delete(lines, e.Pos.Line)
	}
	if len(few.errs) <= 10 {
		// Nothing but errors on the line of another one may be left out.
		if len(lines) > 0 {
			return fmt.Errorf("no error for the lines %v without AllErrors: %s, with it: %s", lines, errText(few.err), errText(all.err))
		}
		if few.tree != all.tree {
			return fmt.Errorf("AllErrors changes the tree: %s", firstDiff(all.tree, few.tree))
		}
	} else {
		o.Label("more than 10 errors")
	}
	return nil
}

// ----------------------------------------------------------------------------
// C30

// checkExtent checks that nodes lie inside of their parents, one behind the
// other.
func checkExtent(n ast.Node, base, size int, o *Obs) error {
	lo, hi := int(n.Pos())-base, int(n.End())-base
	_, isFile := n.(*ast.File)
	if isFile {
		lo = 0
	}
	if lo < 0 || hi < lo || hi > size {
		return fmt.Errorf("%T from %d to %d, the source has %d bytes", n, lo, hi, size)
	}
	prev := lo
	ks := kids(n)
	var doc *ast.TexCommentGroup
	switch t := n.(type) {
	case *ast.BibDecl:
		doc = t.Doc
		if t.Key != nil {
			ks = append(ks, t.Key)
		}
		for i, k := range t.ExtraKeys {
			if t.Key == nil || k.Pos() <= t.Key.Pos() || i > 0 && k.Pos() <= t.ExtraKeys[i-1].Pos() {
				return fmt.Errorf("extra key %q at %d is out of order", k.Name, int(k.Pos())-base)
			}
			ks = append(ks, k)
		}
		// Keys may stand between tags.
		sort.SliceStable(ks, func(i, j int) bool { return ks[i].Pos() < ks[j].Pos() })
	case *ast.AbbrevDecl:
		doc = t.Doc
	case *ast.PreambleDecl:
		doc = t.Doc
	case *ast.TagStmt:
		doc = t.Doc
	}
	if doc != nil && doc.End() > n.Pos() {
		return fmt.Errorf("%T (%d to %d): documentation (%d to %d) is not before it", n, lo, hi, int(doc.Pos())-base, int(doc.End())-base)
	}
	for _, k := range ks {
		a, b := int(k.Pos())-base, int(k.End())-base
		if a < prev {
			return fmt.Errorf("%T (%d to %d): child %T (%d to %d) begins before %d", n, lo, hi, k, a, b, prev)
		}
		if b > hi {
			return fmt.Errorf("%T (%d to %d): child %T (%d to %d) ends behind it", n, lo, hi, k, a, b)
		}
		if err := checkExtent(k, base, size, o); err != nil {
			return err
		}
		prev = b
	}
	return nil
}

func checkExtents(c srcCase, o *Obs) error {
	src := string(c.Src)
	p := parseAt(src, c.Mode, c.Pad)
	if p.err != nil {
		o.Label("rejected")
		return nil
	}
	if len(p.file.Entries) == 0 {
		o.Label("accepted without declarations")
		askPositions(p.file)
		return nil
	}
	o.Label("accepted")
	o.NonTrivial(src, modeName(c.Mode))
	return checkExtent(p.file, p.base, len(src), o)
}

func init() {
	register(Def[modeCase]{
		ID:    "C26",
		Rule:  "well-formed, broken and arbitrary sources, many with more than ten errors or several errors per line, parsed in every combination of modes; trees without their comments and error lists are compared; non-trivial: has errors; distinct by source and string mode",
		Quick: 150000, Thorough: 8000000,
		Gen: genModeCase, Check: checkModes,
		FromSrc: func(mode byte, src string) modeCase { return modeCase{Src: Src(src), Strings: mode&1 != 0} },
		Shrink: func(c modeCase, fails func(modeCase) bool, more func() bool) modeCase {
			c.Src = Src(shrinkText(string(c.Src), func(s string) bool {
				d := c
				d.Src = Src(s)
				return fails(d)
			}, more))
			return c
		},
	})
	register(Def[srcCase]{
		ID:    "C30",
		Rule:  "sources of any shape in random modes and at random places of a file set; non-trivial: accepted with at least one declaration; distinct by source and mode",
		Quick: 500000, Thorough: 20000000,
		Gen: genSrcCase, Check: checkExtents, Shrink: shrinkSrc, FromSrc: fromSrc,
	})
}

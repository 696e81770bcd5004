package main

import (
	"errors"
	"fmt"
	goscan "go/scanner"
	gotok "go/token"
	"io"

	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

// modeNames for labels and messages.
func modeName(m parser.Mode) string {
	s := "raw"
	if m&parser.ParseStrings != 0 {
		s = "parsed"
	}
	if m&parser.ParseComments != 0 {
		s += "+comments"
	}
	if m&parser.AllErrors != 0 {
		s += "+allerrors"
	}
	if m&parser.Trace != 0 {
		s += "+trace"
	}
	if m&parser.DeclarationErrors != 0 {
		s += "+declerrors"
	}
	return s
}

// mode draws the bits of a mode other than ParseStrings.
func (g G) modeBits() parser.Mode {
	var m parser.Mode
	if g.chance(50) {
		m |= parser.ParseComments
	}
	if g.chance(30) {
		m |= parser.AllErrors
	}
	if g.chance(15) {
		m |= parser.DeclarationErrors
	}
	if g.rare(50) {
		m |= parser.Trace
	}
	return m
}

// parsed is the outcome of a parse.
type parsed struct {
	file *ast.File
	err  error
	fset *gotok.FileSet
	base int
	name string
}

// parseAt parses src in a file set that already holds pad bytes of other files.
func parseAt(src string, mode parser.Mode, pad int) parsed {
	p := parsed{fset: gotok.NewFileSet(), name: "some.bib"}
	if pad > 0 {
		p.fset.AddFile("other.bib", -1, pad-1)
	}
	p.base = p.fset.Base()
	p.file, p.err = parser.ParseFile(p.fset, p.name, src, mode)
	return p
}

func (p parsed) tree() *N { return fromAST(p.file, p.base) }

func errList(err error) (goscan.ErrorList, bool) {
	var l goscan.ErrorList
	ok := errors.As(err, &l)
	return l, ok
}

// checkDoc parses a printed bibliography and compares the tree.
func checkDoc(pr *Printed, mode parser.Mode, pad int, pos bool) error {
	p := parseAt(string(pr.Src), mode, pad)
	if p.err != nil {
		return fmt.Errorf("mode %s: well-formed source rejected: %v", modeName(mode), p.err)
	}
	if p.file == nil {
		return fmt.Errorf("mode %s: no tree and no error", modeName(mode))
	}
	want := pr.Doc.tree(mode&parser.ParseStrings != 0)
	if d := diff(want, p.tree(), pos); d != "" {
		return fmt.Errorf("mode %s: %s", modeName(mode), d)
	}
	return nil
}

// labelDoc records what a bibliography is made of.
func labelDoc(o *Obs, pr *Printed) {
	d := pr.Doc
	if len(d.Decls) == 0 {
		o.Label("empty file")
	}
	if len(d.Decls) > 20 {
		o.Label(">20 declarations")
	}
	if len(pr.Src) > 4096 {
		o.Label(">4096 bytes")
	}
	for _, t := range pr.Toks {
		if t.Comment {
			o.Label("has comment")
			break
		}
	}
	kinds := map[string]bool{}
	for i := range d.Decls {
		dc := &d.Decls[i]
		kinds[dc.K] = true
		if dc.Paren {
			kinds["paren"] = true
		}
		keys := 0
		for j := range dc.Items {
			if dc.Items[j].Key {
				keys++
			}
		}
		if dc.K == "bib" && keys == 0 {
			kinds["no key"] = true
		}
		if keys > 1 {
			kinds["extra keys"] = true
		}
		if len(dc.Items) > 20 {
			kinds[">20 items"] = true
		}
	}
	d.vals(func(v *Val) {
		if len(v.Ops) > 1 {
			kinds["concat"] = true
		}
		if len(v.Ops) > 5 {
			kinds["long concat"] = true
		}
	})
	d.ops(func(op *Op) {
		k := op.K
		if k == "str" {
			k = "brace string"
			if op.Quote {
				k = "quote string"
			}
			if len(op.content()) == 0 {
				kinds["empty string"] = true
			}
		}
		kinds[k] = true
		walkPieces(op.Pieces, func(p *Piece) { kinds["piece "+p.K] = true })
		if depthOf(op.Pieces) > 20 {
			kinds["depth >20"] = true
		}
	})
	for k := range kinds {
		o.Label(k)
	}
}

func depthOf(ps []Piece) int {
	d := 0
	for i := range ps {
		if ps[i].K == "group" {
			d = max(d, 1+depthOf(ps[i].Kids))
		}
	}
	return d
}

var discard = io.Discard

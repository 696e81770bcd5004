package main

// C29: rendered strings are source for the same string.

import (
	"fmt"
	"strings"

	"github.com/jschaf/bibtex"
	"github.com/jschaf/bibtex/ast"
	"github.com/jschaf/bibtex/parser"
)

type againCase struct {
	Op  Op
	Tag string // the field that holds the string
}

func genAgain(g G) againCase {
	cfg := strCfg{renderable: true, noURL: true, noMacro: true}
	return againCase{Op: g.str(cfg), Tag: pick(g, "title", "note", "author", "x")}
}

// plainPieces is what pieces are read as after they were rendered.
func plainPieces(ps []Piece) []Piece {
	var out []Piece
	for _, p := range ps {
		switch p.K {
		case "accent":
			p = Piece{K: "text", S: composed(p.M[0], rune(p.S[0]))}
		case "nbsp":
			p = Piece{K: "space", S: " "}
		case "group":
			p.Kids = plainPieces(p.Kids)
		}
		if n := len(out); n > 0 && out[n-1].K == p.K && (p.K == "text" || p.K == "space") {
			out[n-1].S += p.S
			continue
		}
		out = append(out, p)
	}
	return out
}

func hasPiece(ps []Piece, kinds ...string) bool {
	found := false
	walkPieces(ps, func(p *Piece) {
		for _, k := range kinds {
			found = found || p.K == k
		}
	})
	return found
}

func checkAgain(c againCase, o *Obs) error {
	if hasPiece(c.Op.Pieces, "macro", "url") {
		return nil
	}
	if len(c.Op.Pieces) > 1 {
		o.NonTrivial(c.Op.source())
	}
	for _, k := range []string{"accent", "nbsp", "group", "esc", "math"} {
		o.LabelIf(hasPiece(c.Op.Pieces, k), k)
	}
	plain := c.Op
	plain.Pieces = plainPieces(clonePieces(c.Op.Pieces))
	want := plain.tree(true)
	b := bibtex.New()
	src := c.Op.source()
	for round := 0; round < 3; round++ {
		var vals []ast.Expr
		x, err := parser.ParseExpr(src)
		if err != nil {
			return fmt.Errorf("string %s, round %d: %s is rejected: %w", c.Op.source(), round, src, err)
		}
		f, err := b.Parse(strings.NewReader("@misc{k, " + c.Tag + " = " + src + "}"))
		if err != nil {
			return fmt.Errorf("string %s, round %d: %s is rejected in a file: %w", c.Op.source(), round, src, err)
		}
		vals = append(vals, x, f.Entries[0].(*ast.BibDecl).Tags[0].Value)
		var outs []string
		for _, v := range vals {
			if round > 0 {
				if d := diff(want, fromAST(v, 0), false); d != "" {
					return fmt.Errorf("string %s, round %d: %s: %s", c.Op.source(), round, src, d)
				}
			}
			sb := &strings.Builder{}
			if err := b.Render(sb, v); err != nil {
				return fmt.Errorf("string %s, round %d: render: %w", c.Op.source(), round, err)
			}
			outs = append(outs, sb.String())
		}
		if outs[0] != outs[1] {
			return fmt.Errorf("string %s, round %d: rendered as %q and %q", c.Op.source(), round, outs[0], outs[1])
		}
		if round == 2 && outs[0] != src {
			return fmt.Errorf("string %s: %q is rendered as %q", c.Op.source(), src, outs[0])
		}
		src = outs[0]
	}
	return nil
}

func init() {
	register(Def[againCase]{
		ID:    "C29",
		Rule:  "random strings without macros, parsed, rendered and parsed again, three times, as an expression and in a file; non-trivial: at least two constructs; distinct by string",
		Quick: 150000, Thorough: 8000000,
		Gen: genAgain, Check: checkAgain,
	})
}

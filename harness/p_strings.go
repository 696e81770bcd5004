package main

// C04 and C05: the contents of strings.

import (
	"fmt"

	"github.com/jschaf/bibtex/parser"
)

type strCase struct {
	Op     Op
	Before []Op // operands of the same value before and after
	After  []Op
	Place  int // where the value stands
	Mode   parser.Mode
	Name   string `json:",omitempty"` // of the tag or abbreviation, if not x
}

func (c *strCase) doc() *Doc {
	v := Val{}
	v.Ops = append(append(append(v.Ops, c.Before...), c.Op), c.After...)
	x := c.Name
	if x == "" || !isTagNameText(x) {
		x = "x"
	}
	after := Item{Name: "after", Val: Val{Ops: []Op{{K: "num", S: "1"}}}}
	switch c.Place {
	case 1:
		return &Doc{Decls: []Decl{
			{K: "abbrev", Word: "string", Items: []Item{{Name: x, Val: v}}},
			{K: "bib", Word: "misc", Items: []Item{{Key: true, Name: "k"}}},
		}}
	case 2:
		return &Doc{Decls: []Decl{
			{K: "pre", Word: "preamble", Val: v},
			{K: "bib", Word: "misc", Items: []Item{{Key: true, Name: "k"}}},
		}}
	case 3:
		return &Doc{Decls: []Decl{{K: "bib", Word: "misc", Paren: true, Items: []Item{{Name: x, Val: v}}}}}
	}
	return &Doc{Decls: []Decl{
		{K: "bib", Word: "misc", Items: []Item{{Key: true, Name: "k"}, {Name: x, Val: v}, after}},
		{K: "bib", Word: "misc", Items: []Item{{Key: true, Name: "l"}}},
	}}
}

func (c *strCase) printed() Printed {
	return G{}.print(c.doc(), layoutCfg{plain: true})
}

func genStrCase(g G) strCase {
	c := strCase{Place: g.n(4), Mode: g.modeBits()}
	if g.chance(40) {
		c.Name = g.tagName()
	}
	cfg := strCfg{}
	c.Op = g.str(cfg)
	if g.chance(15) {
		c.Before = list(g, 0, 2, func(g G) Op { return g.op(docCfg{str: cfg}) })
	}
	if g.chance(15) {
		c.After = list(g, 0, 2, func(g G) Op { return g.op(docCfg{str: cfg}) })
	}
	return c
}

func checkStrCase(c strCase, o *Obs) error {
	pr := c.printed()
	if err := pr.selfCheck(); err != nil {
		return err
	}
	n := 0
	walkPieces(c.Op.Pieces, func(p *Piece) {
		n++
		o.Label("piece " + p.K)
		if p.K == "accent" {
			o.Label(fmt.Sprintf("accent form %d spaced %v", p.Form, p.Sp != ""))
		}
	})
	o.LabelIf(depthOf(c.Op.Pieces) > 20, "depth > 20")
	o.LabelIf(n > 20, "more than 20 constructs")
	o.LabelIf(c.Name != "", "another name")
	if n >= 2 {
		o.NonTrivial(c.Op.source())
	}
	if err := checkDoc(&pr, c.Mode|parser.ParseStrings, 0, false); err != nil {
		return fmt.Errorf("source %q: %w", pr.Src, err)
	}
	// The same text as an expression of its own.
	src := c.Op.source()
	x, err := parser.ParseExpr(src)
	if err != nil {
		return fmt.Errorf("ParseExpr(%q): %w", src, err)
	}
	if d := diff(c.Op.tree(true), fromAST(x, 0), false); d != "" {
		return fmt.Errorf("ParseExpr(%q): %s", src, d)
	}
	return nil
}

// repPieces are representatives of all constructs.
func repPieces() []Piece {
	var out []Piece
	for _, s := range []string{"a", "Zq", "1", "%", `"`, "é", "=", "@a{"[:2], "'", "-", "i", "\v"} {
		out = append(out, Piece{K: "text", S: s})
	}
	for _, s := range []string{" ", "\n", "\r\n\t "} {
		out = append(out, Piece{K: "space", S: s})
	}
	out = append(out, Piece{K: "nbsp"}, Piece{K: "comma"})
	for _, s := range []string{"&", "%", "$", "_", "#", `\`, "{", "}"} {
		out = append(out, Piece{K: "esc", S: s})
	}
	for _, s := range []string{"", "x", `\$`, `a"b,~`, "{x}", "}", `\\`} {
		out = append(out, Piece{K: "math", S: s})
	}
	for _, m := range accentMarks {
		out = append(out, Piece{K: "accent", M: m, S: "o"})
	}
	out = append(out,
		Piece{K: "accent", M: "c", S: "c", Form: accBraced}, Piece{K: "accent", M: "c", S: "C", Sp: " "},
		Piece{K: "accent", M: "'", S: "i"}, Piece{K: "accent", M: "'", S: "i", Form: accBraced},
		Piece{K: "accent", M: "'", S: "i", Form: accDotless}, Piece{K: "accent", M: "^", S: "j", Sp: " ", Form: accDotless},
		Piece{K: "accent", M: "`", S: "i", Form: accDotlessBraced}, Piece{K: "accent", M: `"`, S: "u", Sp: "  ", Form: accBraced},
		Piece{K: "accent", M: `"`, S: "y", Sp: " "},
	)
	for _, s := range []string{"emph", "cite", "L", "url"[:2], "hrefx", "i", ",", ";", "[", "]", "(", ")"} {
		out = append(out, Piece{K: "macro", S: s})
	}
	out = append(out,
		Piece{K: "url", M: "url", S: "http://x.org/~a,b#c%20"}, Piece{K: "url", M: "href", S: "x"},
		Piece{K: "url", M: "url", S: `a{b}$c,$"`, Sp: " "},
		Piece{K: "group"}, Piece{K: "group", Kids: []Piece{{K: "text", S: `b"`}}},
		Piece{K: "group", Kids: []Piece{{K: "group", Kids: []Piece{{K: "comma"}}}}},
		Piece{K: "group", Kids: []Piece{{K: "accent", M: "'", S: "i", Form: accDotless}}},
	)
	return out
}

func enumStrCases() []strCase {
	reps := repPieces()
	var out []strCase
	add := func(ps ...Piece) {
		for ctx := 0; ctx < 4; ctx++ {
			quote, group := ctx%2 == 0, ctx >= 2
			skip := false
			in := append([]Piece(nil), ps...)
			if quote && !group {
				for _, p := range ps {
					if p.K == "text" && p.S == `"` {
						skip = true
					}
				}
			}
			if skip {
				continue
			}
			in = fixDotless(clonePieces(in), group || !quote)
			in = fixPieces(in, strCfg{}, piecesCtx{quote: quote && !group, group: group || !quote})
			if group {
				in = []Piece{{K: "text", S: "x"}, {K: "group", Kids: in}, {K: "text", S: "y"}}
			}
			out = append(out, strCase{Op: Op{K: "str", Quote: quote, Pieces: in}})
		}
	}
	add()
	for _, a := range reps {
		add(a)
		for _, b := range reps {
			add(a, b)
		}
	}
	// Triples of a smaller set.
	var few []Piece
	seen := map[string]int{}
	for _, r := range reps {
		if seen[r.K]++; seen[r.K] <= 2 {
			few = append(few, r)
		}
	}
	for _, a := range few {
		for _, b := range few {
			for _, c := range few {
				add(a, b, c)
			}
		}
	}
	return out
}

// fixDotless drops dotless spellings where they can't stand.
func fixDotless(ps []Piece, group bool) []Piece {
	for i := range ps {
		if ps[i].K == "accent" && ps[i].Form == accDotless && (!group || i != len(ps)-1) {
			ps[i].Form, ps[i].Sp = accBare, ""
		}
		if ps[i].K == "accent" && ps[i].Form == accDotless {
			ps[i].Sp = " "
		}
	}
	return ps
}

func init() {
	register(Def[strCase]{
		ID:    "C04",
		Rule:  "all ordered pairs and many triples of representative constructs directly in quoted and braced strings and in groups, then random sequences with nesting; each parsed in a file and as an expression; non-trivial: at least two constructs; distinct by the string's source",
		Quick: 2000000, Thorough: 30000000,
		Gen:   genStrCase,
		Enum:  enumStrCases,
		Check: checkStrCase,
	})
	register(Def[docCase]{
		ID:    "C05",
		Rule:  "random bibliographies whose strings hold arbitrary text with balanced braces (and no quote outside braces when quoted), parsed in raw mode; non-trivial: some string is not empty; distinct by source text",
		Quick: 1500000, Thorough: 20000000,
		Gen: func(g G) docCase {
			c := docCase{Mode: g.modeBits()}
			cfg := docCfg{raw: true, decls: 2, bigDocs: true}
			d := g.doc(cfg)
			d.ops(func(o *Op) {
				if o.K == "str" && g.rare(150) {
					o.Raw += Src(fmt.Sprintf("%0*d", 1+g.n(9000), 7))
				}
				if o.K == "str" && g.rare(80) {
					n := 1 + g.n(200)
					for ; n > 0; n-- {
						o.Raw = "{" + o.Raw + "}"
					}
				}
			})
			c.Printed = g.print(d, layoutCfg{comments: g.chance(40), plain: g.chance(20)})
			return c
		},
		Check: func(c docCase, o *Obs) error {
			if err := c.selfCheck(); err != nil {
				return err
			}
			labelDoc(o, &c.Printed)
			c.Doc.ops(func(op *Op) {
				if op.K == "str" && op.content() != "" {
					o.NonTrivial(string(c.Src))
				}
			})
			return checkDoc(&c.Printed, c.Mode&^parser.ParseStrings, c.Pad, false)
		},
	})
}
